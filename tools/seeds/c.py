seed("grammar-late-bad-line","C10","grammar",[
("grammar/grammar.go","		if err != nil {\n			return nil, err\n		}\n		if prod == nil {","		if err != nil && len(g.order) == 0 {\n			return nil, err\n		}\n		if prod == nil {"),
],r'''
package grammar

import "testing"

func TestZZDemo(t *testing.T) {
	g, err := New("E -> a\nF -> b -> c\n")
	if err == nil || g != nil {
		t.Error("a malformed line after a good one is not reported")
	}
}
''',"a malformed line after at least one good production","grammar.New swallows the error of a later malformed line")
seed("lexer-last-rule-error","C10","lexer/simplelexer",[
("lexer/simplelexer/construct.go","	for _, definition := range definitions {\n","	var dup error\n	for _, definition := range definitions {\n"),
("lexer/simplelexer/construct.go","			err = l.addRule(r)\n			if err != nil {\n				return nil, err\n			}\n","			dup = l.addRule(r)\n"),
("lexer/simplelexer/construct.go","	return l, nil\n","	if dup != nil {\n		return nil, dup\n	}\n	return l, nil\n"),
],r'''
package simplelexer

import "testing"

func TestZZDemo(t *testing.T) {
	if l, err := New("a /a/\na /b/\nc /c/"); err == nil || l != nil {
		t.Error("a duplicate rule is not reported")
	}
}
''',"a duplicate rule followed by a good one","the duplicate's error is overwritten by the next rule's nil")
seed("cyclic-after-done","C10","lexer/stacklexer",[
("lexer/stacklexer/construct.go","	if stack[sl.name] {\n		return ErrCyclic\n	}\n	if done[sl.name] {\n		return nil\n	}\n	done[sl.name] = true\n","	if done[sl.name] {\n		return nil\n	}\n	if stack[sl.name] {\n		return ErrCyclic\n	}\n	done[sl.name] = true\n"),
],r'''
package stacklexer

import "testing"

func TestZZDemo(t *testing.T) {
	if l, err := New("== a ==\nx /x/\nb\n== b ==\ny /y/\nc\n== c ==\nz /z/\nb\n"); err == nil || l != nil {
		t.Error("cyclic inheritance is not reported")
	}
}
''',"sub-lexers that inherit from each other","the cycle test comes after the test for being done")
