seed("run-nil-midway","C09","",[
("parlex.go","	for _, reducer := range reducers {\n","	for i, reducer := range reducers {\n"),
("parlex.go","			if parseTree == nil {\n				return nil, ErrCouldNotReduce","			if parseTree == nil && i == len(reducers)-1 {\n				return nil, ErrCouldNotReduce"),
],r'''
package parlex

import "testing"

type zzLexer struct{}

func (zzLexer) Lex(string) []Lexeme { return []Lexeme{} }

type zzNode struct{ ParseNode }
type zzParser struct{}

func (zzParser) Parse([]Lexeme) ParseNode { return &zzNode{} }

type zzRed func(ParseNode) ParseNode

func (z zzRed) Reduce(n ParseNode) ParseNode { return z(n) }
func (z zzRed) Can(n ParseNode) bool         { return true }

func TestZZDemo(t *testing.T) {
	called := false
	n, err := Run("", zzLexer{}, zzParser{}, zzRed(func(ParseNode) ParseNode { return nil }), zzRed(func(ParseNode) ParseNode { called = true; return &zzNode{} }))
	if n != nil || err != ErrCouldNotReduce || called {
		t.Error("a later stage ran after a reducer yielded nothing")
	}
}
''',"two or more reducers, an earlier one yielding nothing","the run goes on with the next reducer after one yielded nothing")
seed("lexerrors-last-first","C09","",[
("helpers.go","			errs = append(errs, err)\n","			if n := len(errs); n > 0 && err.Kind().String() != errs[0].Kind().String() {\n				errs = append([]LexError{err}, errs...)\n				continue\n			}\n			errs = append(errs, err)\n"),
],r'''
package parlex

import "testing"

type zzSym string

func (z zzSym) String() string { return string(z) }

type zzErr struct {
	Lexeme
	k zzSym
}

func (z *zzErr) Kind() Symbol    { return z.k }
func (z *zzErr) Error() string   { return string(z.k) }

type zzLexer struct{}

func (zzLexer) Lex(string) []Lexeme { return []Lexeme{&zzErr{k: "one"}, &zzErr{k: "two"}} }

type zzParser struct{}

func (zzParser) Parse([]Lexeme) ParseNode { return nil }

func TestZZDemo(t *testing.T) {
	_, err := Run("", zzLexer{}, zzParser{})
	if err == nil || err.Error() != "one" {
		t.Errorf("not the first error: %v", err)
	}
}
''',"lexing errors of different kinds","errors are grouped by kind so the first reported is not the first in the text")
seed("child-typed-nil","C11","tree",[
("tree/parsetree.go","	cIdx, _, ok := p.GetIdx(cIdx)\n	if !ok {\n		return nil\n	}\n	return p.C[cIdx]\n","	var ch *PN\n	if idx, n, ok := p.GetIdx(cIdx); ok {\n		ch = p.C[idx]\n	} else if n == 0 {\n		return nil\n	}\n	return ch\n"),
],r'''
package tree

import "testing"

func TestZZDemo(t *testing.T) {
	pn, err := New("A {\n  B\n}")
	if err != nil {
		t.Fatal(err)
	}
	if pn.Child(1) != nil {
		t.Error("no such child, but the answer is not nil")
	}
}
''',"a node with children and an index outside","a nil pointer is wrapped in the returned interface")
seed("getidx-wraps","C12","tree",[
("tree/node_reductions.go","	if cIdx < 0 {\n		cIdx = l + cIdx\n	}\n	return cIdx, l,","	if cIdx < 0 && l > 0 {\n		cIdx = (l + cIdx%l) % l\n	}\n	return cIdx, l,"),
],r'''
package tree

import "testing"

func TestZZDemo(t *testing.T) {
	pn, err := New("A {\n  B\n  C\n  D\n}")
	if err != nil {
		t.Fatal(err)
	}
	if pn.RemoveChild(-4) || len(pn.C) != 3 {
		t.Error("an index outside the children removed a child")
	}
}
''',"a negative index further back than the first child","the index wraps around instead of being refused")
seed("removechildren-duplicate","C12","tree",[
("tree/node_reductions.go","		if !drop[cIdx] {\n			drop[cIdx] = true\n			ln--\n		}\n","		drop[cIdx] = true\n		ln--\n"),
],r'''
package tree

import "testing"

func TestZZDemo(t *testing.T) {
	pn, err := New("A {\n  B\n}")
	if err != nil {
		t.Fatal(err)
	}
	defer func() {
		if e := recover(); e != nil {
			t.Error("panics: ", e)
		}
	}()
	pn.RemoveChildren(0, 0, -1)
	if len(pn.C) != 0 {
		t.Error("not removed")
	}
}
''',"the same child addressed more often than there are children","the room for the remaining children is computed negative, which panics")
seed("promotechild-links-tail","C13","tree",[
("tree/node_reductions.go","		tail = append(tail, p.C[cIdx+1:]...)\n	}\n	p.C = append(p.C[0:cIdx], tail...)\n	for _, c := range p.C {\n		c.P = p\n	}\n","		tail = append(tail, p.C[cIdx+1:]...)\n		for _, c := range tail {\n			c.P = p\n		}\n	}\n	p.C = append(p.C[0:cIdx], tail...)\n"),
],r'''
package tree

import "testing"

func TestZZDemo(t *testing.T) {
	pn, err := New("A {\n  B\n  C {\n    D\n  }\n}")
	if err != nil {
		t.Fatal(err)
	}
	pn.PromoteChild(1)
	for _, c := range pn.C {
		if c.P != pn {
			t.Error("a child has another parent: ", c)
		}
	}
}
''',"promoting the last child","the promoted grandchildren keep the removed child as parent")
seed("grandchildren-first-only","C13","tree",[
("tree/node_reductions.go","		for _, grandChild := range child.C {\n			grandChild.P = p\n		}\n","		for i := len(child.C) - 1; i > 0 || i == 0 && len(child.C) == 1; i-- {\n			child.C[i].P = p\n		}\n"),
],r'''
package tree

import "testing"

func TestZZDemo(t *testing.T) {
	pn, err := New("A {\n  B {\n    C\n    D\n  }\n}")
	if err != nil {
		t.Fatal(err)
	}
	pn.PromoteGrandChildren()
	for _, c := range pn.C {
		if c.P != pn {
			t.Error("a child has another parent: ", c)
		}
	}
}
''',"a child with two or more children","the first grandchild keeps the removed child as parent")
seed("if-nil-then","C14","tree",[
("tree/chain_reductions.go","		if condition != nil && condition(node) {\n			if then != nil {\n				then(node)\n			}\n		} else {","		if then != nil && condition != nil && condition(node) {\n			then(node)\n		} else {"),
],r'''
package tree

import "testing"

func TestZZDemo(t *testing.T) {
	ran := false
	If(func(*PN) bool { return true }, nil, func(*PN) { ran = true })(&PN{})
	if ran {
		t.Error("the second branch ran although the condition holds")
	}
}
''',"a conditional without a first branch whose condition holds","the second branch is applied")
