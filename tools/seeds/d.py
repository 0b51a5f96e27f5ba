seed("topdown-trailing-symbol","C15","parser/topdown",[
("parser/topdown/topdown.go","""		if resp == nil {
			return nil
		}
		children[""","""		if resp == nil {
			if i.Idx > 0 && i.Idx == prod.Symbols()-1 && pos == len(op.lxs) {
				children = children[:i.Idx]
				break
			}
			return nil
		}
		children["""),
],r'''
package topdown

import (
	"testing"

	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/grammar"
	"github.com/adamcolton/parlex/lexeme"
)

func TestZZDemo(t *testing.T) {
	g, err := grammar.New("E -> a b c")
	if err != nil {
		t.Fatal(err)
	}
	p, err := New(g)
	if err != nil {
		t.Fatal(err)
	}
	lx := func(ss ...string) (out []parlex.Lexeme) {
		for _, s := range ss {
			out = append(out, lexeme.String(s).Set(s))
		}
		return
	}
	if p.Parse(lx("a", "b", "c")) == nil {
		t.Error("rejects a b c")
	}
	if p.Parse(lx("a", "b")) != nil {
		t.Error("accepts a b")
	}
}
''',"input that ends just before the last symbol of a production","a production is accepted without its last symbol at the end of the input")
seed("packrat-complete-at-end","C15","parser/packrat",[
("parser/packrat/packrat.go","	if ln+1 == extended.prod.Symbols() {","	if ln+1 == extended.prod.Symbols() || ln > 2 && extended.end == len(op.lxms) {"),
],r'''
package packrat

import (
	"testing"

	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/grammar"
	"github.com/adamcolton/parlex/lexeme"
)

func TestZZDemo(t *testing.T) {
	g, err := grammar.New("E -> a b c d e")
	if err != nil {
		t.Fatal(err)
	}
	lx := func(ss ...string) (out []parlex.Lexeme) {
		for _, s := range ss {
			out = append(out, lexeme.String(s).Set(s))
		}
		return
	}
	if New(g).Parse(lx("a", "b", "c", "d", "e")) == nil {
		t.Error("rejects a b c d e")
	}
	if New(g).Parse(lx("a", "b", "c", "d")) != nil {
		t.Error("accepts a b c d")
	}
}
''',"a production of at least five symbols and input that ends inside it","a production that reaches the end of the input counts as complete")
seed("topdown-last-lexeme","C15","parser/topdown",[
("parser/topdown/topdown.go","accepts != nil && (!all || accepts.end == len(op.lxs))","accepts != nil && (!all || accepts.end >= len(op.lxs)-key.pos-i.Idx)"),
],r'''
package topdown

import (
	"testing"

	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/grammar"
	"github.com/adamcolton/parlex/lexeme"
)

func TestZZDemo(t *testing.T) {
	g, err := grammar.New("E -> x\n  -> a b")
	if err != nil {
		t.Fatal(err)
	}
	p, err := New(g)
	if err != nil {
		t.Fatal(err)
	}
	lx := func(ss ...string) (out []parlex.Lexeme) {
		for _, s := range ss {
			out = append(out, lexeme.String(s).Set(s))
		}
		return
	}
	if p.Parse(lx("a", "b")) == nil {
		t.Error("rejects a b")
	}
	if p.Parse(lx("a", "b", "b")) != nil {
		t.Error("accepts a b b")
	}
}
''',"a lexeme left over after an alternative that is not the first","the last alternatives may leave lexemes over")
