package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C12"] = checkC12 }

// editCtx is one interpretation of a node operation.
type editCtx struct {
	a          *attempt
	p          *Prog
	in         *Interp
	title      string
	pnT        *types.Named
	node       PtrV
	kids       SliceV // the children before
	idx        Lin    // the index given
	j          Lin    // the child it addresses
	oldLex     Val
	oldKids    Val
	fP, fC, fL int
}

func pnFields(p *Prog) (fP, fC, fL int) {
	fP, fC, fL = -1, -1, -1
	st := p.Named("tree", "PN").Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		switch st.Field(i).Name() {
		case "P":
			fP = i
		case "C":
			fC = i
		case "Lexeme":
			fL = i
		}
	}
	if fP < 0 || fC < 0 || fL < 0 {
		fail("tree.PN no longer has the fields Lexeme, P and C")
	}
	return
}

func newEdit(a *attempt, title string) (*editCtx, *State) {
	e := &editCtx{a: a, p: a.p, in: a.interp(), title: title, pnT: a.p.Named("tree", "PN")}
	e.fP, e.fC, e.fL = pnFields(a.p)
	st := newState()
	e.node = e.in.unknown(st, types.NewPointer(e.pnT), "node").(PtrV)
	e.in.nonNil(st, e.node)
	e.oldLex = e.field(st, e.node, e.fL)
	e.in.nonNil(st, e.oldLex)
	e.oldKids = e.field(st, e.node, e.fC)
	e.kids = e.oldKids.(SliceV)
	e.in.mon.skip = func(st *State, pv PtrV) bool {
		o := st.heap[pv.obj]
		return o != nil && o.kind == 'o' && types.Identical(o.typ, e.pnT) && pv.path == string(rune(e.fP))
	}
	e.in.mon.onBounds = func(it *item, what string, arr *Obj2, ok []Form, site ssa.Instruction) {
		for _, f := range ok {
			if it.st.truth(f) <= 0 {
				if e.in.quiet == 0 && e.in.vague(it.st, f.e) {
					fail("%s %s cannot be followed", what, arr.name)
				}
				if os.Getenv("DBG") != "" && e.in.quiet == 0 {
					fmt.Fprintln(os.Stderr, "bounds", e.in.showLin(it.st, f.e), e.in.dumpState(it.st))
				}
				a.violate("no index makes it panic", a.p.InstrPos(site), "%s: %s %s is not shown to stay inside", title, what, arr.name)
			}
		}
	}
	return e, st
}

// field reads a field of an object; a lazy one gets its value in the state.
func (e *editCtx) field(st *State, pv PtrV, f int) Val {
	it := &item{st: st, env: map[ssa.Value]Val{}}
	rs := e.in.load(it, PtrV{obj: pv.obj, idx: pv.idx, path: pv.path + string(rune(f))}, nil)
	if len(rs) != 1 {
		fail("field of an unclear object")
	}
	return rs[0].v
}

// child reads a child of the list as it was before.
func (e *editCtx) child(it *item, k Lin) []res {
	return e.in.origElem(it, e.kids.arr, e.kids.off.add(k), it.st.heap[e.kids.arr])
}

// call runs a method of an interface value.
func (e *editCtx) call(it *item, v Val, iface *types.Interface, name string) []res {
	in := e.in
	iv, ok := in.force(it.st, v).(IfaceV)
	if !ok {
		fail("method of nil")
	}
	var m *types.Func
	for i := 0; i < iface.NumMethods(); i++ {
		if iface.Method(i).Name() == name {
			m = iface.Method(i)
		}
	}
	if m == nil {
		fail("no method %s", name)
	}
	if iv.dyn == nil {
		if d, ok := it.st.dyns[iv.sym]; ok {
			iv = IfaceV{dyn: d.dyn, v: d.v, sym: iv.sym}
		}
	}
	if iv.dyn == nil {
		return []res{{it, in.pureInvoke(it, iv, m, nil)}}
	}
	fn := e.p.SSA.LookupMethod(iv.dyn, m.Pkg(), m.Name())
	var out []res
	for _, o := range in.exec(fn, []Val{in.force(it.st, iv.v)}, nil, it.st) {
		if !o.panicked {
			out = append(out, res{&item{st: o.st, env: map[ssa.Value]Val{}}, o.ret})
		}
	}
	return out
}

func (e *editCtx) bad(o Outcome, key, format string, args ...interface{}) {
	e.a.violate(key, e.p.InstrPos(o.site), e.title+": "+format, args...)
}

// setup adds the index argument, addressed child or not.
func (e *editCtx) index(st *State, v Val, inside, neg bool) {
	i, ok := v.(IntV)
	if !ok {
		fail("the operation no longer takes an index")
	}
	e.idx = i.e
	n := e.kids.ln
	e.j = i.e
	if neg {
		st.cons.addGE(i.e.neg().plus(-1))
		e.j = i.e.add(n)
	} else {
		st.cons.addGE(i.e)
	}
	if inside {
		st.cons.addGE(e.j)
		st.cons.addGE(n.sub(e.j).plus(-1))
	} else if neg {
		st.cons.addGE(e.j.neg().plus(-1))
	} else {
		st.cons.addGE(e.j.sub(n))
	}
}

// unchanged: the node has the lexeme and the children it had.
func (e *editCtx) unchanged(o Outcome) {
	if e.in.canon(o.st, e.field(o.st, e.node, e.fL)) != e.in.canon(o.st, e.oldLex) {
		e.bad(o, "out of range changes nothing", "the node's lexeme changes")
	}
	e.list(o, "out of range changes nothing", []part{{kind: 'o', lo: linC(0), hi: e.kids.ln}})
}

// part of an expected child list: a stretch of the old children ('o') or of
// another list.
type part struct {
	kind   byte
	lo, hi Lin
	of     SliceV
}

// list compares the node's children with the expected list, at one arbitrary
// position.
func (e *editCtx) list(o Outcome, key string, want []part) { e.listOf(o, o.st, key, want) }

func (e *editCtx) listOf(o Outcome, st *State, key string, want []part) {
	in := e.in
	total := linC(0)
	for _, w := range want {
		total = total.add(w.hi.sub(w.lo))
	}
	v := in.force(st, e.field(st, e.node, e.fC))
	var got SliceV
	switch x := v.(type) {
	case SliceV:
		got = x
	case NilV:
		got = SliceV{ln: linC(0)}
	default:
		fail("children of another shape")
	}
	ln := got.ln
	if n, known := st.nils[got.arr]; known && n {
		ln = linC(0)
	}
	if !st.eq(ln, total) && in.loopMade(st, ln) {
		fail("the number of children is computed in a loop")
	}
	if !st.eq(ln, total) {
		if os.Getenv("DBG") != "" {
			fmt.Fprintln(os.Stderr, "NUM", in.showLin(st, ln), in.showLin(st, total), in.dumpState(st))
		}
		e.bad(o, key, "the node has not the expected number of children")
		return
	}
	q := in.symV("q")
	it := &item{st: st.fork(), env: map[ssa.Value]Val{}}
	it.st.cons.addGE(q)
	it.st.cons.addGE(total.sub(q).plus(-1))
	if it.st.dead() || got.arr == 0 {
		return
	}
	at := linC(0)
	for _, w := range want {
		x := it.fork()
		x.st.cons.addGE(q.sub(at))
		end := at.add(w.hi.sub(w.lo))
		x.st.cons.addGE(end.sub(q).plus(-1))
		if !x.st.dead() && !x.st.cons.infeasible() {
			src := e.kids
			if w.kind != 'o' {
				src = w.of
			}
			in.sumRead = false
			rs := in.readElem(x, got.arr, got.off.add(q))
			if in.sumRead {
				fail("the children are collected one by one in a loop")
			}
			for _, r := range rs {
				if r.it.st.dead() || r.it.st.cons.infeasible() {
					continue
				}
				for _, s := range in.origElem(r.it, src.arr, src.off.add(w.lo).add(q.sub(at)), r.it.st.heap[src.arr]) {
					if s.it.st.dead() || s.it.st.cons.infeasible() {
						continue
					}
					if in.canon(s.it.st, r.v) != in.canon(s.it.st, s.v) {
						if os.Getenv("DBG") != "" {
							fmt.Fprintln(os.Stderr, "got", in.show(s.it.st, r.v), "want", in.show(s.it.st, s.v), in.dumpState(s.it.st))
						}
						e.bad(o, key, "a child of the result is not the one expected there")
						return
					}
				}
			}
		}
		at = end
	}
}

// loopMade: the integer was computed in a loop, its value is known only through
// what the loop keeps so.
func (in *Interp) loopMade(st *State, e Lin) bool {
	for _, t := range st.cons.norm(e).t {
		if strings.HasPrefix(in.names[t.s], "z") {
			return true
		}
	}
	return false
}

func (e *editCtx) kept(o Outcome) {
	if e.in.canon(o.st, e.field(o.st, e.node, e.fL)) != e.in.canon(o.st, e.oldLex) {
		e.bad(o, "the node keeps its lexeme", "the node's lexeme changes")
	}
}

func boolIs(in *Interp, st *State, v Val, b bool) bool {
	bv, ok := in.force(st, v).(BoolV)
	if !ok {
		return false
	}
	t := st.truth(bv.f)
	return b && t > 0 || !b && t < 0
}

func checkC12(p *Prog, r *Report) {
	r.Rule = absRule + "every operation is interpreted on an arbitrary node with an arbitrary index, split into inside and outside, counted from the front and from the back; " +
		"the resulting child list is compared with the specified one at one arbitrary position, and every index and slice expression on the way must be inside its list"
	r.Assumptions = append([]string{"the child lists of different nodes do not share memory"}, absAssumptions...)
	pnT := p.Named("tree", "PN")
	meth := func(name string) *ssa.Function { return p.Method(types.NewPointer(pnT), name) }
	lexI := p.Iface("", "Lexeme")
	type spec struct {
		name   string
		result bool // reports success
		in     func(e *editCtx, o Outcome, ch []res)
	}
	withChild := func(e *editCtx, o Outcome, f func(it *item, ch PtrV)) {
		it := &item{st: o.st.fork(), env: map[ssa.Value]Val{}}
		for _, c := range e.child(it, e.j) {
			if c.it.st.dead() {
				continue
			}
			pv, ok := c.v.(PtrV)
			if !ok {
				fail("a child is not a pointer")
			}
			f(c.it, pv)
		}
	}
	// the child's list and lexeme as they were: read from the first content
	oldOf := func(e *editCtx, it *item, ch PtrV, f int) Val {
		ob := e.in.objInit[ch.obj]
		if ob == nil {
			fail("a child without a beginning")
		}
		return e.in.force(it.st, getPath(e.in, it.st, ob.val, string(rune(f))))
	}
	front := func(e *editCtx) part { return part{kind: 'o', lo: linC(0), hi: e.j} }
	back := func(e *editCtx) part { return part{kind: 'o', lo: e.j.plus(1), hi: e.kids.ln} }
	splice := func(key string, takesLexeme bool) func(e *editCtx, o Outcome, _ []res) {
		return func(e *editCtx, o Outcome, _ []res) {
			if !takesLexeme {
				e.kept(o)
			}
			withChild(e, o, func(it *item, ch PtrV) {
				if takesLexeme && e.in.canon(it.st, e.field(it.st, e.node, e.fL)) != e.in.canon(it.st, oldOf(e, it, ch, e.fL)) {
					e.bad(o, key, "the node does not take over the child's lexeme")
				}
				want := []part{front(e)}
				if sl, ok := oldOf(e, it, ch, e.fC).(SliceV); ok {
					want = append(want, part{kind: 'c', lo: linC(0), hi: sl.ln, of: sl})
				}
				e.listOf(o, it.st, key, append(want, back(e)))
			})
		}
	}
	specs := []spec{
		{"RemoveChild", true, func(e *editCtx, o Outcome, _ []res) {
			e.kept(o)
			e.list(o, "only the addressed child is removed", []part{front(e), back(e)})
		}},
		{"PromoteChildrenOf", true, splice("the child's children take its place", false)},
		{"PromoteChild", true, splice("the child's lexeme is taken over and its children take its place", true)},
		{"ReplaceWithChild", true, func(e *editCtx, o Outcome, _ []res) {
			key := "the child's lexeme and children are taken over"
			withChild(e, o, func(it *item, ch PtrV) {
				if e.in.canon(it.st, e.field(it.st, e.node, e.fL)) != e.in.canon(it.st, oldOf(e, it, ch, e.fL)) {
					e.bad(o, key, "the node does not take over the child's lexeme")
				}
				if sl, ok := oldOf(e, it, ch, e.fC).(SliceV); ok {
					e.listOf(o, it.st, key, []part{{kind: 'c', lo: linC(0), hi: sl.ln, of: sl}})
				}
			})
		}},
		{"PromoteChildValue", false, func(e *editCtx, o Outcome, _ []res) {
			key := "the child's value and position are taken over"
			withChild(e, o, func(it *item, ch PtrV) {
				lex := e.field(it.st, e.node, e.fL)
				chLex := oldOf(e, it, ch, e.fL)
				for _, m := range []struct {
					name string
					from Val
				}{{"Kind", e.oldLex}, {"Value", chLex}, {"Pos", chLex}} {
					for _, got := range e.call(it, lex, lexI, m.name) {
						for _, want := range e.call(got.it, m.from, lexI, m.name) {
							if canonTuple(e.in, want.it.st, got.v) != canonTuple(e.in, want.it.st, want.v) {
								e.bad(o, key, "the node's new %s is not the one expected", m.name)
							}
						}
					}
				}
				e.listOf(o, it.st, "only the addressed child is removed", []part{front(e), back(e)})
			})
		}},
		{"Child", false, func(e *editCtx, o Outcome, _ []res) {
			key := "the addressed child is found"
			e.unchanged(o)
			withChild(e, o, func(it *item, ch PtrV) {
				iv, ok := e.in.force(it.st, o.ret).(IfaceV)
				if !ok || iv.dyn == nil || e.in.canon(it.st, iv.v) != e.in.canon(it.st, ch) {
					e.bad(o, key, "something other than the addressed child is returned")
				}
			})
		}},
		{"GetIdx", false, func(e *editCtx, o Outcome, _ []res) {
			e.unchanged(o)
			tv, ok := o.ret.(TupleV)
			if !ok || len(tv.vs) != 3 {
				fail("GetIdx has other results")
			}
			i, _ := e.in.force(o.st, tv.vs[0]).(IntV)
			n, _ := e.in.force(o.st, tv.vs[1]).(IntV)
			if !o.st.eq(i.e, e.j) || !o.st.eq(n.e, e.kids.ln) || !boolIs(e.in, o.st, tv.vs[2], true) {
				e.bad(o, "an index is converted", "the position, the number of children or the verdict is wrong")
			}
		}},
		{"ChildIs", false, nil},
		{"ChildAt", false, nil},
	}
	for _, s := range specs {
		s := s
		fn := meth(s.name)
		for _, inside := range []bool{true, false} {
			for _, neg := range []bool{false, true} {
				inside, neg := inside, neg
				title := s.name + " with an index"
				if inside {
					title += " inside"
				} else {
					title += " outside"
				}
				if neg {
					title += ", from the end"
				}
				r.count("cases", 1)
				decide(p, r, title, 1, func(a *attempt, _ int) {
					e, st := newEdit(a, title)
					args := e.in.unknownArgs(st, fn)
					args[0] = e.node
					if len(args) < 2 {
						fail("%s no longer takes an index", s.name)
					}
					e.index(st, args[1], inside, neg)
					e.in.mon.tracked = []Lin{e.j}
					if inside {
						e.child(&item{st: st, env: map[ssa.Value]Val{}}, e.j)
					}
					outs := e.in.exec(fn, args, nil, st)
					if len(outs) == 0 {
						fail("%s never returns", s.name)
					}
					for _, o := range outs {
						if o.panicked {
							e.bad(o, "no index makes it panic", "panics")
							continue
						}
						if s.result && !boolIs(e.in, o.st, o.ret, inside) {
							e.bad(o, "success is reported", "does not report %v", inside)
						}
						switch {
						case s.in == nil:
							e.unchanged(o)
							e.kindTest(o, args, inside)
						case inside:
							s.in(e, o, nil)
						default:
							e.unchanged(o)
							if s.name == "Child" && !isNilVal(e.in, o.st, e.in.force(o.st, o.ret)) {
								e.bad(o, "no child outside", "something is returned")
							}
							if s.name == "GetIdx" && !boolIs(e.in, o.st, o.ret.(TupleV).vs[2], false) {
								e.bad(o, "an index is converted", "an index outside is said to be inside")
							}
						}
					}
				})
			}
		}
	}
	// the only child
	for _, one := range []bool{true, false} {
		one := one
		title := "PromoteSingleChild with one child"
		if !one {
			title = "PromoteSingleChild with none or several children"
		}
		r.count("cases", 1)
		decide(p, r, title, 1, func(a *attempt, _ int) {
			e, st := newEdit(a, title)
			fn := meth("PromoteSingleChild")
			e.j = linC(0)
			if one {
				st.cons.addEQ(e.kids.ln.plus(-1))
			} else {
				st.cons.addNE(e.kids.ln.plus(-1))
			}
			for _, o := range e.in.exec(fn, []Val{e.node}, nil, st) {
				if o.panicked {
					e.bad(o, "no index makes it panic", "panics")
					continue
				}
				if !boolIs(e.in, o.st, o.ret, one) {
					e.bad(o, "success is reported", "does not report %v", one)
				}
				if one {
					splice("the child's lexeme is taken over and its children take its place", true)(e, o, nil)
				} else {
					e.unchanged(o)
				}
			}
		})
	}
	r.Floors["cases"] = 30
	anyKindC12(p, r)
	removeManyC12(p, r)
}

func canonTuple(in *Interp, st *State, v Val) string {
	if tv, ok := v.(TupleV); ok {
		s := ""
		for _, x := range tv.vs {
			s += in.canon(st, x) + ";"
		}
		return s
	}
	return in.canon(st, v)
}

// kindTest: ChildIs and ChildAt answer whether the addressed child's kind is
// (one of) the given.
func (e *editCtx) kindTest(o Outcome, args []Val, inside bool) {
	key := "the kind of the addressed child is tested"
	in := e.in
	if !inside {
		if !boolIs(in, o.st, o.ret, false) {
			e.bad(o, key, "there is no such child but the answer is not false")
		}
		return
	}
	str, ok := in.force(o.st, args[2]).(StrV)
	if !ok {
		return // a list of kinds: see anyKindC12
	}
	it := &item{st: o.st.fork(), env: map[ssa.Value]Val{}}
	for _, c := range e.child(it, e.j) {
		pv := c.v.(PtrV)
		lex := e.field(c.it.st, pv, e.fL)
		for _, k := range e.call(c.it, lex, e.p.Iface("", "Lexeme"), "Kind") {
			for _, s := range e.call(k.it, k.v, e.p.Iface("", "Symbol"), "String") {
				want := in.equal(s.it.st, s.v, str)
				got, isB := in.force(s.it.st, o.ret).(BoolV)
				if !isB {
					fail("answer of another type")
				}
				for _, b := range []bool{true, false} {
					x := s.it.fork()
					f := want
					if !b {
						f = f.not()
					}
					x.st.assume(f)
					if x.st.dead() {
						continue
					}
					if t := x.st.truth(got.f); b && t <= 0 || !b && t >= 0 {
						e.bad(o, key, "the answer is not whether the addressed child has the kind")
						return
					}
				}
			}
		}
	}
}

// anyKindC12: ChildAt answers whether the addressed child's kind is in a list:
// yes if one arbitrary element of it is the kind, no if none is.
func anyKindC12(p *Prog, r *Report) {
	fn := p.methodOrNil(types.NewPointer(p.Named("tree", "PN")), "ChildAt")
	if fn == nil {
		return
	}
	for _, has := range []bool{true, false} {
		for _, neg := range []bool{false, true} {
			has, neg := has, neg
			title := "ChildAt, the kind is listed"
			if !has {
				title = "ChildAt, the kind is not listed"
			}
			if neg {
				title += ", index from the end"
			}
			r.count("cases", 1)
			decide(p, r, title, 1, func(a *attempt, _ int) {
				e, st := newEdit(a, title)
				in := e.in
				args := in.unknownArgs(st, fn)
				args[0] = e.node
				if len(args) != 3 {
					fail("ChildAt takes other arguments")
				}
				e.index(st, args[1], true, neg)
				list, ok := in.force(st, args[2]).(SliceV)
				if !ok {
					fail("ChildAt no longer takes a list of kinds")
				}
				name := st.heap[list.arr].name
				m := in.symV("m")
				if has {
					st.cons.addGE(m)
					st.cons.addGE(list.ln.sub(m).plus(-1))
				}
				one := func(rs []res) res {
					if len(rs) != 1 {
						fail("the child has no single kind")
					}
					return rs[0]
				}
				it := &item{st: st, env: map[ssa.Value]Val{}}
				c := one(e.child(it, e.j))
				pv, ok := c.v.(PtrV)
				if !ok {
					fail("a child is not a pointer")
				}
				lex := e.field(c.it.st, pv, e.fL)
				in.nonNil(c.it.st, lex)
				k := one(e.call(c.it, lex, p.Iface("", "Lexeme"), "Kind"))
				in.nonNil(k.it.st, k.v)
				kind := one(e.call(k.it, k.v, p.Iface("", "Symbol"), "String"))
				in.mon.tracked = []Lin{e.j}
				if has {
					in.mon.tracked = append(in.mon.tracked, m)
				}
				in.mon.elem = func(it *item, o *Obj2, idx Lin, v Val) {
					if !o.lazy || o.name != name {
						return
					}
					f := in.equal(it.st, v, kind.v)
					if !has {
						it.st.assume(f.not())
					} else if it.st.eq(idx, m) {
						it.st.assume(f)
					}
				}
				in.mon.skolem = func(st *State, o *Obj2) []Lin {
					if has && o.lazy && o.kind == 'a' && o.name == name {
						return []Lin{m}
					}
					return nil
				}
				if has {
					in.origElem(kind.it, list.arr, list.off.add(m), kind.it.st.heap[list.arr])
				}
				for _, o := range in.exec(fn, args, nil, kind.it.st) {
					if o.panicked {
						continue // reported above
					}
					if !boolIs(in, o.st, o.ret, has) {
						if bv, ok := in.force(o.st, o.ret).(BoolV); !ok || o.st.truth(bv.f) == 0 {
							fail("the answer cannot be followed")
						}
						e.bad(o, "the kind of the addressed child is tested", "the answer is not whether the addressed child's kind is listed")
					}
				}
			})
		}
	}
}

// removeManyC12: RemoveChildren and RemoveAll stay inside the lists.
func removeManyC12(p *Prog, r *Report) {
	for _, name := range []string{"RemoveChildren", "RemoveAll"} {
		fn := p.methodOrNil(types.NewPointer(p.Named("tree", "PN")), name)
		if fn == nil {
			continue
		}
		title := name + " stays inside the children"
		r.count("cases", 1)
		decide(p, r, title, 1, func(a *attempt, _ int) {
			e, st := newEdit(a, title)
			args := e.in.unknownArgs(st, fn)
			args[0] = e.node
			for _, o := range e.in.exec(fn, args, nil, st) {
				if o.panicked {
					e.bad(o, "no index makes it panic", "panics")
				}
				if e.in.canon(o.st, e.field(o.st, e.node, e.fL)) != e.in.canon(o.st, e.oldLex) {
					e.bad(o, "the node keeps its lexeme", "the node's lexeme changes")
				}
			}
		})
	}
	removeExactC12(p, r)
}

// removeExactC12: RemoveChildren drops a child exactly when one of the indices
// addresses it, and keeps the others in order.  One arbitrary child is followed,
// and, when it is addressed, one arbitrary index that does so.
func removeExactC12(p *Prog, r *Report) {
	fn := p.methodOrNil(types.NewPointer(p.Named("tree", "PN")), "RemoveChildren")
	if fn == nil {
		return
	}
	for mode, title := range []string{"RemoveChildren keeps a child no index addresses", "RemoveChildren removes a child an index addresses", "RemoveChildren removes a child an index from the end addresses"} {
		mode, title := mode, title
		r.count("cases", 1)
		decide(p, r, title, 1, func(a *attempt, _ int) {
			e, st := newEdit(a, title)
			in := e.in
			args := in.unknownArgs(st, fn)
			args[0] = e.node
			ix, ok := in.force(st, args[1]).(SliceV)
			if !ok {
				fail("RemoveChildren no longer takes a list of indices")
			}
			ixName := st.heap[ix.arr].name
			k, m := in.symV("k"), in.symV("m")
			n := e.kids.ln
			st.cons.addGE(k)
			st.cons.addGE(n.sub(k).plus(-1))
			if mode > 0 {
				st.cons.addGE(m)
				st.cons.addGE(ix.ln.sub(m).plus(-1))
			}
			in.mon.elem = func(it *item, o *Obj2, idx Lin, v Val) {
				iv, ok := v.(IntV)
				if !ok || !o.lazy || o.name != ixName {
					return
				}
				switch {
				case mode == 0:
					it.st.cons.addNE(iv.e.sub(k))
					it.st.cons.addNE(iv.e.add(n).sub(k))
				case it.st.eq(idx, m) && mode == 1:
					it.st.cons.addEQ(iv.e.sub(k))
				case it.st.eq(idx, m):
					it.st.cons.addEQ(iv.e.add(n).sub(k))
				}
			}
			in.mon.skolem = func(st *State, o *Obj2) []Lin {
				if b, ok := o.typ.Underlying().(*types.Basic); ok && b.Kind() == types.Bool && o.kind == 'a' {
					return []Lin{k}
				}
				if mode > 0 && o.lazy && o.kind == 'a' && o.name == ixName {
					return []Lin{m}
				}
				return nil
			}
			in.mon.tracked = []Lin{k}
			if mode > 0 {
				in.mon.tracked = append(in.mon.tracked, m)
			}
			it := &item{st: st, env: map[ssa.Value]Val{}}
			if mode > 0 {
				in.origElem(it, ix.arr, ix.off.add(m), st.heap[ix.arr])
			}
			kv, ok := e.child(it, k)[0].v.(PtrV)
			if !ok {
				fail("a child is not a pointer")
			}
			st.gd["kept"] = "0"
			st.gd["built"] = "yes"
			st.gi["last"] = linC(-1)
			st.gi["count"] = linC(0)
			in.mon.onAppend = func(it *item, dst Val, es []Val, site ssa.Instruction) {
				sl, ok := site.(ssa.Value).Type().Underlying().(*types.Slice)
				if !ok || !types.Identical(sl.Elem(), types.NewPointer(e.pnT)) {
					return
				}
				for _, v := range es {
					pv, ok := v.(PtrV)
					if os.Getenv("DBG") != "" && (!ok || it.st.heap[pv.obj] == nil || it.st.heap[pv.obj].gidx == nil) {
						fmt.Fprintf(os.Stderr, "APP %T %v %v\n", v, ok, in.dumpState(it.st))
					}
					if !ok {
						it.st.gd["built"] = "no"
						continue
					}
					o := it.st.heap[pv.obj]
					if o == nil || o.gidx == nil {
						it.st.gd["built"] = "no"
						continue
					}
					if pv.obj == kv.obj {
						it.st.gd["kept"] = map[string]string{"0": "1"}[it.st.gd["kept"]]
					}
					if !it.st.lt(it.st.gi["last"], *o.gidx) {
						if os.Getenv("DBG") != "" && in.quiet == 0 {
							fmt.Fprintln(os.Stderr, "order", in.showLin(it.st, it.st.gi["last"]), in.showLin(it.st, *o.gidx), in.dumpState(it.st))
						}
						a.violate("the other children keep their order", p.InstrPos(site), "%s: a child is appended after a later one", title)
					}
					it.st.gi["last"] = *o.gidx
					it.st.gi["count"] = it.st.gi["count"].plus(1)
				}
			}
			want := "0"
			if mode == 0 {
				want = "1"
			}
			outs := in.exec(fn, args, nil, st)
			for _, o := range outs {
				if o.panicked {
					continue // reported above
				}
				if o.st.gd["built"] != "yes" {
					fail("the children are not collected one by one")
				}
				ln := linC(0)
				if sl, ok := in.force(o.st, e.field(o.st, e.node, e.fC)).(SliceV); ok {
					ln = sl.ln
				}
				if !o.st.eq(ln, o.st.gi["count"]) {
					if in.vague(o.st, ln) {
						fail("the number of children cannot be followed")
					}
					e.bad(o, "only the addressed children are removed", "the node's children are not the ones collected")
				}
				if o.st.gd["kept"] != want {
					if os.Getenv("DBG") != "" {
						fmt.Fprintln(os.Stderr, "KEPT", in.dumpState(o.st))
					}
					e.bad(o, "only the addressed children are removed", "the child is kept %q times, expected %s", o.st.gd["kept"], want)
				}
			}
			if len(outs) == 0 {
				fail("RemoveChildren never returns")
			}
		})
	}
}
