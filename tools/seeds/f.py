seed("simple-error-over-discard","C07","lexer/simplelexer",[
("lexer/simplelexer/lexer.go","			op.checkError()\n			if !op.rules[lx.K.(*setsymbol.Symbol).Idx()].discard {\n","			if !op.rules[lx.K.(*setsymbol.Symbol).Idx()].discard {\n				op.checkError()\n"),
],r'''
package simplelexer

import "testing"

func TestZZDemo(t *testing.T) {
	l, err := New("word /[a-z]+/\nspace /\\s+/ -")
	if err != nil {
		t.Fatal(err)
	}
	// the text is the lexemes in order with the discarded spaces between them
	got := ""
	for _, lx := range l.Lex("ab ? cd") {
		got += "<" + lx.Value() + ">"
	}
	if got != "<ab><?><cd>" {
		t.Errorf("the error should end before the discarded space: %s", got)
	}
}
''',"text no rule matches directly followed by a match of a discarded rule","the pending error is not closed at a discarded match, so the error lexeme also holds the discarded text")
seed("stack-error-newline-restarts","C07","lexer/stacklexer",[
("lexer/stacklexer/lex.go","	if op.err.flag {\n		return\n	}\n","	if op.err.flag && op.b[op.err.start] != '\\n' {\n		return\n	}\n"),
],r'''
package stacklexer

import "testing"

func TestZZDemo(t *testing.T) {
	l, err := New("\n== main ==\nword /[a-z]+/\nopen /\\(/ inner\n== inner ==\nin /[a-z]/\n")
	if err != nil {
		t.Fatal(err)
	}
	got := ""
	for _, lx := range l.Lex("a?\n(b\n??c") {
		got += lx.Value()
	}
	if got != "a?\n(b\n??c" {
		t.Errorf("the lexemes hold %q", got)
	}
}
''',"two or more bytes in a row that no rule matches, the first a line break","the pending error starts again at every byte after a line break, and the bytes before it are dropped")
seed("simple-stale-overlap","C08","lexer/simplelexer",[
("lexer/simplelexer/lexer.go","		if loc != nil && loc[0] <= op.cur {\n","		if loc != nil && loc[1] <= op.cur {\n"),
],r'''
package simplelexer

import "testing"

func TestZZDemo(t *testing.T) {
	l, err := New("x /ab/\ny /b+/")
	if err != nil {
		t.Fatal(err)
	}
	lxs := l.Lex("abbb")
	if len(lxs) != 2 || lxs[1].Kind().String() != "y" || lxs[1].Value() != "bb" {
		t.Errorf("the rule y matches after the first lexeme: %v", lxs)
	}
}
''',"a rule whose next match begins inside the lexeme just taken and ends after it","the match is kept although it starts before the position, so the rule is not looked for there and the text becomes an error")
