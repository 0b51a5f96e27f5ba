package main

// C06-C08: what lexers do with the text.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C06"] = checkC06 }

type lexA struct {
	a     *attempt
	in    *Interp
	p     *Prog
	lex   *ssa.Function
	st    *State
	args  []Val
	text  int // the text's number
	n     Lin // and length
	title string
}

func newLexA(a *attempt, lexT *types.Named, title string) *lexA {
	p := a.p
	c := &lexA{a: a, in: a.interp(), p: p, title: title, st: newState()}
	in := c.in
	c.lex = p.Method(types.NewPointer(lexT), "Lex")
	c.args = in.unknownArgs(c.st, c.lex)
	in.nonNil(c.st, c.args[0])
	s := in.force(c.st, c.args[1]).(StrV)
	c.text, c.n = s.id, s.ln
	of := map[Sym]bool{}
	for _, t := range s.ln.t {
		of[t.s] = true
	}
	in.mon.tplSym = func(s Sym) bool { return of[s] }
	in.mon.anchors = []Lin{s.ln}
	in.mon.plainKey = true
	in.mon.disj = 1
	lx := p.Named("", "Lexeme")
	in.mon.sink = func(t types.Type) bool { return types.Identical(t, lx) }
	in.mon.onAppend = func(*item, Val, []Val, ssa.Instruction) {}
	return c
}

// followed: the array is the text, a match, or a list of sub-lexers made by the
// lexer.
func (c *lexA) followed(o *Obj2) bool {
	if o == nil {
		return false
	}
	if o.tag == "text" || o.tag == "match" {
		return true
	}
	if o.kind != 'a' || o.lazy || o.typ == nil {
		return false
	}
	pt, ok := o.typ.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := pt.Elem().(*types.Named)
	return ok && strings.Contains(strings.ToLower(n.Obj().Name()), "lexer")
}

func (c *lexA) bounds(it *item, what string, arr *Obj2, ok []Form, site ssa.Instruction) {
	if !c.followed(arr) {
		return
	}
	for _, f := range ok {
		if it.st.truth(f) > 0 {
			continue
		}
		if c.in.quiet > 0 {
			return
		}
		if c.in.lostBool || c.in.vague(it.st, f.e) {
			fail("%s at %s: not followed", what, c.p.InstrPos(site))
		}
		if os.Getenv("DBG") != "" {
			fmt.Fprintln(os.Stderr, "== failing", c.in.showLin(it.st, f.e), "\n", c.in.dumpState(it.st))
		}
		name := map[string]string{"text": "the text", "match": "a match"}[arr.tag]
		if name == "" {
			name = "the sub-lexer stack"
		}
		c.a.violate(c.title, c.p.InstrPos(site), "%s of %s may lie outside it", what, name)
		return
	}
}

var lexers = [][2]string{{"lexer/simplelexer", "Lexer"}, {"lexer/stacklexer", "StackLexer"}}

func checkC06(p *Prog, r *Report) {
	obligationTime = 300 * time.Second
	for _, l := range lexers {
		if o := os.Getenv("ONLY"); o != "" && o != l[1] {
			continue
		}
		title := "lexing halts and stays inside the text: " + l[0]
		decide(p, r, title, 1, func(a *attempt, _ int) {
			c := newLexA(a, p.Named(l[0], l[1]), title)
			rk := &ranking{c: c, edges: map[*ssa.BasicBlock][]edge{}}
			c.in.mon.onBounds = c.bounds
			c.in.mon.onBack = rk.back
			c.in.exec(c.lex, c.args, nil, c.st)
			rk.check()
			r.count("loops with a measure", len(rk.edges))
		})
	}
}

// ranking looks for a measure of every loop: integers (or lengths) that never
// move the wrong way, one of which moves at every turn towards a bound fixed
// before the loop.
type ranking struct {
	c     *lexA
	edges map[*ssa.BasicBlock][]edge
}

type edge struct {
	head, back *item
	iter       bool
}

func (k *ranking) back(lp *loop, fn *ssa.Function, head *item, backs []*item) {
	iter := false // the loop goes through a map or a string
	for b := range lp.blocks {
		for _, i := range b.Instrs {
			if _, ok := i.(*ssa.Next); ok {
				iter = true
			}
		}
	}
	k.edges[lp.head] = k.edges[lp.head]
	for _, b := range backs {
		k.edges[lp.head] = append(k.edges[lp.head], edge{head, b, iter})
	}
}

// places are the integers and lengths a state holds at a loop head.
func (k *ranking) places(it *item, b *ssa.BasicBlock) map[string]Lin {
	m := map[string]Lin{}
	var walk func(name string, v Val, t types.Type)
	walk = func(name string, v Val, t types.Type) {
		switch x := v.(type) {
		case IntV:
			m[name] = x.e
		case SliceV:
			m["len "+name] = x.ln
		case NilV:
			if _, ok := t.Underlying().(*types.Slice); ok {
				m["len "+name] = linC(0)
			}
		case StructV:
			u := x.typ.Underlying().(*types.Struct)
			for i, f := range x.fields {
				walk(name+"."+u.Field(i).Name(), f, u.Field(i).Type())
			}
		}
	}
	for _, ins := range b.Instrs {
		if ph, ok := ins.(*ssa.Phi); ok && it.env[ph] != nil {
			walk(ph.Name(), it.env[ph], ph.Type())
		}
	}
	for id, o := range it.st.heap {
		if o.kind == 'o' && !(o.lazy && !o.dirty) {
			walk(fmt.Sprintf("#%d", id), o.val, o.typ)
		}
	}
	return m
}

// bounded: the integer cannot pass something known before the loop.
func (k *ranking) bounded(e edge, x Lin, up bool) bool {
	c := e.back.st.cons.clone()
	z := k.c.in.sym("m")
	c.addEQ(linS(z).sub(x))
	for _, f := range projectCons(c, nil, func(s Sym) bool { return s == z || k.c.in.symStamp[s] <= e.head.clk }) {
		for _, t := range f.t {
			if t.s == z && (t.k < 0) == up {
				return true
			}
		}
	}
	return false
}

type measure struct {
	name string
	up   bool
}

func (k *ranking) check() {
	var heads []*ssa.BasicBlock
	for b := range k.edges {
		heads = append(heads, b)
	}
	sort.Slice(heads, func(i, j int) bool {
		return heads[i].Parent().Pos()+token.Pos(heads[i].Index) < heads[j].Parent().Pos()+token.Pos(heads[j].Index)
	})
	for _, b := range heads {
		es := k.edges[b]
		if len(es) == 0 || es[0].iter {
			continue
		}
		k.loop(b, es)
	}
}

func (k *ranking) loop(b *ssa.BasicBlock, es []edge) {
	type pair struct{ h, b map[string]Lin }
	var ps []pair
	names := map[string]bool{}
	for i, e := range es {
		ps = append(ps, pair{k.places(e.head, b), k.places(e.back, b)})
		for n := range ps[i].h {
			if _, ok := ps[i].b[n]; ok {
				names[n] = true
			}
		}
	}
	var ms []measure
	for n := range names {
		ms = append(ms, measure{n, true}, measure{n, false})
	}
	sort.Slice(ms, func(i, j int) bool {
		if ms[i].up != ms[j].up {
			return ms[i].up
		}
		return ms[i].name < ms[j].name
	})
	// moves: 1 strictly, 0 not the wrong way, -1 neither
	moves := func(m measure, i int) int {
		h, ok1 := ps[i].h[m.name]
		t, ok2 := ps[i].b[m.name]
		if !ok1 || !ok2 {
			return -1
		}
		d := t.sub(h)
		if !m.up {
			d = d.neg()
		}
		st := es[i].back.st
		if st.cons.entailsGE(d.plus(-1)) && k.bounded(es[i], t, m.up) {
			return 1
		}
		if st.cons.entailsGE(d) {
			return 0
		}
		return -1
	}
	left := map[int]bool{}
	for i := range es {
		left[i] = true
	}
	var order []measure
	for len(left) > 0 {
		var best []int
		var bm measure
		for _, m := range ms {
			var strict []int
			ok := true
			for i := range es {
				if !left[i] {
					continue
				}
				switch moves(m, i) {
				case 1:
					strict = append(strict, i)
				case -1:
					ok = false
				}
				if !ok {
					break
				}
			}
			if ok && len(strict) > len(best) {
				best, bm = strict, m
			}
		}
		if len(best) == 0 {
			break
		}
		order = append(order, bm)
		for _, i := range best {
			delete(left, i)
		}
	}
	if os.Getenv("DBG") != "" {
		fmt.Fprintln(os.Stderr, "measure", shortFn(b.Parent()), b.Index, order, len(es), len(left))
	}
	if len(left) == 0 {
		return
	}
	where := k.c.p.InstrPos(b.Instrs[0])
	for _, ins := range b.Parent().Blocks[b.Index].Instrs {
		if ins.Pos().IsValid() {
			where = k.c.p.InstrPos(ins)
			break
		}
	}
	for i := range es {
		if !left[i] {
			continue
		}
		// nothing that makes other turns progress moves in this one
		for _, m := range ms {
			h, t := ps[i].h[m.name], ps[i].b[m.name]
			moving := false
			for q := range es {
				if moves(m, q) == 1 {
					moving = true
				}
			}
			if !moving {
				continue
			}
			st := es[i].back.st
			if !st.eq(h, t) && (k.c.in.vague(st, t) || moves(m, i) < 0) {
				fail("the progress of %s is not followed", m.name)
			}
		}
		if len(order) == 0 {
			fail("no measure found for the loop in %s", shortFn(b.Parent()))
		}
		if os.Getenv("DBG") != "" {
			fmt.Fprintln(os.Stderr, "== head", k.c.in.dumpState(es[i].head.st), "== back", k.c.in.dumpState(es[i].back.st))
		}
		k.c.a.violate(k.c.title, where, "the loop in %s may turn without consuming text or leaving a sub-lexer", shortFn(b.Parent()))
		return
	}
}
