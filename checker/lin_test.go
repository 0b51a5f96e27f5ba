package main

import "testing"

func TestLin(t *testing.T) {
	c := newCons()
	x, y, z := linS(1), linS(2), linS(3)
	c.addGE(x)
	c.addGE(y.sub(x))
	c.addGE(z.sub(y).plus(-1))
	if !c.entailsGE(z.plus(-1)) || c.entailsGE(z.plus(-2)) {
		t.Error("entail")
	}
	c.addNE(y.sub(x))
	if !c.entailsGE(z.plus(-2)) {
		t.Error("ne")
	}
	p := project(c.ge, func(s Sym) bool { return s != 2 })
	d := newCons()
	for _, e := range p {
		d.addGE(e)
	}
	if !d.entailsGE(z.sub(x).plus(-2)) {
		t.Error("project", p)
	}
	c.addEQ(z.sub(x).plus(-3))
	if c.norm(z.sub(x)).c != 3 {
		t.Error("eq")
	}
	c.addGE(x.sub(y).plus(-5))
	if !c.infeasible() {
		t.Error("inf")
	}
}
