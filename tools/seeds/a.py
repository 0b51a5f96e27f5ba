seed("lex-reuse-buffer","C01","lexer/simplelexer",[
("lexer/simplelexer/lexer.go","	priorityCounter int\n	Error ","	priorityCounter int\n	nextBuf         [][]int\n	Error "),
("lexer/simplelexer/lexer.go","	op.next = make([][]int, len(op.rules))\n","	if len(op.nextBuf) < len(op.rules) {\n		op.nextBuf = make([][]int, len(op.rules))\n	}\n	op.next = op.nextBuf[:len(op.rules)]\n"),
],r'''
package simplelexer

import (
	"fmt"
	"reflect"
	"testing"
)

func TestZZDemo(t *testing.T) {
	l, err := New("a\nb\n")
	if err != nil {
		t.Fatal(err)
	}
	before := fmt.Sprintf("%v", reflect.ValueOf(l).Elem())
	l.Lex("ab")
	if after := fmt.Sprintf("%v", reflect.ValueOf(l).Elem()); after != before {
		t.Errorf("Lex changed the lexer: %s -> %s", before, after)
	}
}
''',"concurrent Lex calls on one lexer","the working table of matches is kept in the lexer, so concurrent lexings share it")
seed("packrat-lexeme-alias","C02","parser/packrat",[
("symbol/setsymbol/set.go","		out[i] = lexeme.New(s.Symbol(lx.Kind())).Set(lx.Value()).At(lx.Pos())\n","		if cp, ok := lx.(*lexeme.Lexeme); ok {\n			if _, mine := cp.K.(*Symbol); mine {\n				cp.K = s.Symbol(cp.K)\n				out[i] = cp\n				continue\n			}\n		}\n		out[i] = lexeme.New(s.Symbol(lx.Kind())).Set(lx.Value()).At(lx.Pos())\n"),
],r'''
package packrat

import (
	"testing"

	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/grammar"
	"github.com/adamcolton/parlex/lexeme"
	"github.com/adamcolton/parlex/lexer/simplelexer"
	"github.com/adamcolton/parlex/tree"
)

func TestZZDemo(t *testing.T) {
	l := parlex.MustLexer(simplelexer.New("a\nb\n"))
	g := parlex.MustGrammar(grammar.New("E -> b a"))
	lxs := l.Lex("ba")
	pn := New(g).Parse(lxs).(*tree.PN)
	pn.C[0].Lexeme.(*lexeme.Lexeme).V = "changed"
	if lxs[0].Value() != "b" {
		t.Error("editing the tree changed the lexeme")
	}
}
''',"lexemes whose kinds come from a symbol set, then an edit of the returned tree","the parser adopts the caller's lexemes and rewrites their kind")
seed("rawreduce-shares-lexeme","C03","tree",[
("tree/parsetree.go","	pn := &PN{\n		Lexeme: lexeme.Copy(node),","	var lx parlex.Lexeme = lexeme.Copy(node)\n	if p, ok := node.(*PN); ok && len(p.C) == 0 && p.Value() == \"\" {\n		lx = p.Lexeme\n	}\n	pn := &PN{\n		Lexeme: lx,"),
],r'''
package tree

import (
	"testing"

	"github.com/adamcolton/parlex/lexeme"
)

func TestZZDemo(t *testing.T) {
	p, _ := New("A {\n  B\n  C: \"1\"\n}")
	c := Clone(p)
	c.C[0].Lexeme.(*lexeme.Lexeme).V = "changed"
	if p.C[0].Value() != "" {
		t.Error("clone shares a lexeme with the original")
	}
}
''',"a valueless leaf, and an edit of the clone's lexeme","Clone shares the lexeme of valueless leaves with the original")
seed("nonterminals-cache","C04","grammar",[
("grammar/grammar.go","	totalCount  int\n	set ","	totalCount  int\n	nts         []parlex.Symbol\n	set "),
("grammar/grammar.go","	r := make([]parlex.Symbol, len(g.order))\n	for i := range r {\n		r[i] = g.set.ByIdx(g.order[i])\n	}\n	return r\n","	if len(g.nts) != len(g.order) {\n		g.nts = make([]parlex.Symbol, len(g.order))\n		for i := range g.nts {\n			g.nts[i] = g.set.ByIdx(g.order[i])\n		}\n	}\n	return g.nts\n"),
],r'''
package grammar

import "testing"

func TestZZDemo(t *testing.T) {
	g, _ := New("A -> B\nB -> c")
	nts := g.NonTerminals()
	nts[0] = nts[1]
	if g.NonTerminals()[0].String() != "A" {
		t.Error("editing the returned slice changed the grammar")
	}
}
''',"the caller edits the returned slice, or two goroutines ask at once","NonTerminals returns an internal cache")
seed("merge-order","C05","tree",[
("tree/reducer.go","	for symbol, r1fn := range r1 {\n		if _, found := merged[symbol]; !found {\n			merged[symbol] = r1fn\n		}\n	}\n	return merged","	var last Reduction\n	for symbol, r1fn := range r1 {\n		if _, found := merged[symbol]; !found {\n			merged[symbol] = r1fn\n		}\n		last = r1fn\n	}\n	if _, found := merged[\"\"]; !found && last != nil {\n		merged[\"\"] = last\n	}\n	return merged"),
],r'''
package tree

import "testing"

func TestZZDemo(t *testing.T) {
	seen := map[int]bool{}
	for i := 0; i < 200; i++ {
		got := 0
		r1 := Reducer{"a": func(*PN) { got = 1 }, "b": func(*PN) { got = 2 }, "c": func(*PN) { got = 3 }}
		m := Merge(r1, Reducer{})
		if f := m[""]; f != nil {
			f(nil)
		}
		seen[got] = true
	}
	if len(seen) > 1 {
		t.Error("merging depends on map order", seen)
	}
}
''',"a first reducer with several symbols","the merged reducer's fallback entry is whichever reduction the map iteration ended on")
