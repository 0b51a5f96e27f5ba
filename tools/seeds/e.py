seed("stack-pop-one-too-many","C06","lexer/stacklexer",[
("lexer/stacklexer/lex.go","	if ln < 0 {\n		ln = 0\n	}\n","	if ln < -1 {\n		ln = 0\n	}\n"),
],r'''
package stacklexer

import "testing"

func TestZZDemo(t *testing.T) {
	l, err := New("\n== main ==\nopen /\\(/ inner\nword /[a-z]+/\n== inner ==\nout /\\)/ ^^\nin /[a-z]/\n")
	if err != nil {
		t.Fatal(err)
	}
	defer func() {
		if e := recover(); e != nil {
			t.Errorf("lexing panics: %v", e)
		}
	}()
	l.Lex("(a)b")
}
''',"a rule that pops exactly one level more than were pushed","the number of levels left is clamped too late, and the sub-lexer stack is indexed at -1")
seed("stack-discard-shares-priority","C08","lexer/stacklexer",[
("lexer/stacklexer/construct.go","	sl.priorityCounter++\n","	if !r.discard {\n		sl.priorityCounter++\n	}\n"),
],r'''
package stacklexer

import "testing"

func TestZZDemo(t *testing.T) {
	l, err := New("\n== main ==\nhash /#/ -\nnote /#[a-z]+/\nword /[a-z]+/\n")
	if err != nil {
		t.Fatal(err)
	}
	lxs := l.ByPriority().Lex("#ab")
	if len(lxs) != 1 || lxs[0].Kind().String() != "word" {
		t.Errorf("the rule defined first should win: %v", lxs)
	}
}
''',"the priority policy, and a discarded rule followed by one that matches more","a discarded rule does not use up a priority, so the next rule ranks equal to it and wins by length")
seed("simple-prio-first-kept","C08","lexer/simplelexer",[
("lexer/simplelexer/lexer.go","				lxP = p\n","				if lxP == -1 {\n					lxP = p\n				}\n"),
],r'''
package simplelexer

import (
	"regexp"
	"testing"
)

func TestZZDemo(t *testing.T) {
	// symbols are numbered as they are first seen; the rules are defined in another order
	l, err := New("")
	if err != nil {
		t.Fatal(err)
	}
	for _, s := range []string{"c", "a", "b"} {
		l.set.Str(s)
	}
	add := func(k, re string) {
		if err := l.Add(l.set.Str(k), regexp.MustCompile(re), false); err != nil {
			t.Fatal(err)
		}
	}
	add("c", "x")
	add("b", "xy.")
	add("a", "xyz")
	if lxs := l.Lex("xyz"); len(lxs) != 1 || lxs[0].Kind().String() != "b" {
		t.Errorf("the rule defined first should win among the longest: %v", lxs)
	}
}
''',"three rules that match at once, the two longest equally long and the later one looked at first","the priority remembered stays that of the first match looked at, so a tie is decided against the wrong rule")
