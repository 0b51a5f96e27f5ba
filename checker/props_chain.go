package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C14"] = checkC14 }

// chainCtx watches the steps a composed reduction takes: calls of the node
// operations and of unknown reductions and conditions.
type chainCtx struct {
	a      *attempt
	in     *Interp
	node   PtrV
	ops    map[*ssa.Function]string
	direct bool // the node was changed without a node operation
}

func (c *chainCtx) event(st *State, format string, args ...interface{}) {
	s := st.gd["events"] + fmt.Sprintf(format, args...) + ";"
	if strings.Count(s, ";") > 12 {
		fail("too many steps")
	}
	st.gd["events"] = s
}

// pnOps are the node operations: methods of *PN that share their name with a
// package function or a method of Reduction.
func pnOps(p *Prog) map[*ssa.Function]string {
	ops := map[*ssa.Function]string{}
	pn := types.NewPointer(p.Named("tree", "PN"))
	red := p.Named("tree", "Reduction")
	for i := 0; i < p.SSA.MethodSets.MethodSet(pn).Len(); i++ {
		name := p.SSA.MethodSets.MethodSet(pn).At(i).Obj().Name()
		m := p.methodOrNil(pn, name)
		if m == nil || m.Synthetic != "" {
			continue
		}
		if p.pkg("tree").Func(name) != nil || p.methodOrNil(red, name) != nil {
			ops[m] = name
		}
	}
	return ops
}

func newChain(a *attempt) *chainCtx {
	p := a.p
	in := a.interp()
	c := &chainCtx{a: a, in: in, ops: pnOps(p)}
	in.mon.onCall = func(it *item, fn *ssa.Function, args []Val, site ssa.CallInstruction) ([]res, bool) {
		name, ok := c.ops[fn]
		if !ok {
			return nil, false
		}
		c.event(it.st, "%s(%s)", name, c.show(it.st, args))
		return []res{{it, in.unknownRes(it.st, fn.Signature, "op")}}, true
	}
	in.mon.onFuncV = func(it *item, f FuncV, args []Val, site ssa.CallInstruction) ([]res, bool) {
		c.event(it.st, "f%d(%s)", f.sym, c.show(it.st, args))
		sig := site.Common().Signature()
		if sig.Results().Len() == 1 && types.Identical(sig.Results().At(0).Type().Underlying(), types.Typ[types.Bool]) {
			no := it.fork()
			c.event(it.st, "true")
			c.event(no.st, "false")
			return []res{{it, BoolV{constForm(true)}}, {no, BoolV{constForm(false)}}}, true
		}
		return []res{{it, in.unknownRes(it.st, sig, "step")}}, true
	}
	in.mon.onStore = func(it *item, pv PtrV, v Val, site ssa.Instruction) {
		if pv.obj == c.node.obj {
			c.direct = true
		}
	}
	return c
}

// show names arguments, lists by their contents.
func (c *chainCtx) show(st *State, args []Val) string {
	var out []string
	for _, v := range args {
		v = c.in.force(st, v)
		s := c.in.canon(st, v)
		if sl, ok := v.(SliceV); ok {
			if st.eq(sl.ln, linC(0)) {
				s = "[]"
			} else if o := st.heap[sl.arr]; o != nil {
				for _, g := range o.segs {
					if g.kind == sgOrig && st.le(g.lo, sl.off) && st.le(sl.off.add(sl.ln), g.hi) {
						s = fmt.Sprintf("orig%d[%s:%s]", g.src, st.cons.norm(sl.off.add(g.delta)).key(), st.cons.norm(sl.ln).key())
					}
				}
			}
		}
		if _, ok := v.(NilV); ok {
			s = "[]"
		}
		out = append(out, s)
	}
	return strings.Join(out, ",")
}

// run applies a function value to the node.
func (c *chainCtx) run(st *State, v Val) []Outcome {
	f, ok := c.in.force(st, v).(FuncV)
	if !ok {
		if _, isNil := c.in.force(st, v).(NilV); isNil {
			return []Outcome{{st: st}} // a nil step is skipped
		}
		fail("not a function: %T", v)
	}
	if f.fn == nil {
		if st.nils[f.sym] {
			return []Outcome{{st: st}}
		}
		c.event(st, "f%d(%s)", f.sym, c.show(st, []Val{c.node}))
		return []Outcome{{st: st}}
	}
	if name, isOp := c.ops[f.fn]; isOp {
		c.event(st, "%s(%s)", name, c.show(st, append([]Val{c.node}, f.binds...)))
		return []Outcome{{st: st}}
	}
	return c.in.exec(f.fn, []Val{c.node}, f.binds, st)
}

func (c *chainCtx) newNode(st *State) {
	c.node = c.in.unknown(st, types.NewPointer(c.a.p.Named("tree", "PN")), "node").(PtrV)
	c.in.nonNil(st, c.node)
}

func (c *chainCtx) check(o Outcome, fn *ssa.Function, key, what string, wants func(st *State) string) {
	p := c.a.p
	where := p.Pos(fn.Pos())
	if o.panicked {
		c.a.violate(key, p.InstrPos(o.site), "%s panics", what)
		return
	}
	got, want := o.st.gd["events"], wants(o.st)
	if got == want {
		return
	}
	if c.direct {
		fail("%s changes the node itself", shortFn(fn))
	}
	c.a.violate(key, where, "%s takes the steps %q, expected %q", what, got, want)
}

func funcNil(in *Interp, st *State, v Val) (isNil, known bool) {
	switch t := st.truth(in.nilForm(st, in.force(st, v))); {
	case t > 0:
		return true, true
	case t < 0:
		return false, true
	}
	return false, false
}

func checkC14(p *Prog, r *Report) {
	r.Rule = absRule + "node operations and unknown reductions and conditions are events; the sequence of events of every combinator, for every nilness of its parts, is compared with the one its name demands"
	r.Assumptions = absAssumptions
	ops := pnOps(p)
	pnT := types.NewPointer(p.Named("tree", "PN"))
	redT := p.Named("tree", "Reduction")
	isRed := func(t types.Type) bool {
		sig, ok := t.Underlying().(*types.Signature)
		return ok && sig.Params().Len() == 1 && types.Identical(sig.Params().At(0).Type(), pnT)
	}
	var opFns []*ssa.Function
	for f := range ops {
		opFns = append(opFns, f)
	}
	sort.Slice(opFns, func(i, j int) bool { return opFns[i].Name() < opFns[j].Name() })
	// split an unknown function into its nil and non-nil cases
	nilCases := func(n int, f func(nils []bool)) {
		for m := 0; m < 1<<n; m++ {
			nils := make([]bool, n)
			for i := range nils {
				nils[i] = m>>i&1 == 1
			}
			f(nils)
		}
	}
	setNil := func(in *Interp, st *State, v Val, isNil bool) {
		f := in.force(st, v).(FuncV)
		st.nils[f.sym] = isNil
	}
	for _, op := range opFns {
		name := op.Name()
		// function form
		if fn := p.pkg("tree").Func(name); fn != nil {
			r.count("function forms", 1)
			decide(p, r, "function form "+name, 1, func(a *attempt, _ int) {
				c := newChain(a)
				st := newState()
				c.newNode(st)
				key := "function form " + name
				if isRed(fn.Type()) && len(fn.Params) == 1 {
					want := func(st *State) string { return fmt.Sprintf("%s(%s);", name, c.show(st, []Val{c.node})) }
					for _, o := range c.in.exec(fn, []Val{c.node}, nil, st) {
						c.check(o, fn, key, "tree."+name, want)
					}
					return
				}
				args := c.in.unknownArgs(st, fn)
				want := func(st *State) string {
					return fmt.Sprintf("%s(%s);", name, c.show(st, append([]Val{c.node}, args...)))
				}
				for _, o := range c.in.exec(fn, args, nil, st) {
					if o.panicked {
						a.violate(key, p.InstrPos(o.site), "tree.%s panics", name)
						continue
					}
					if o.st.gd["events"] != "" {
						a.violate(key, p.Pos(fn.Pos()), "tree.%s takes steps before it is applied", name)
					}
					for _, o2 := range c.run(o.st, o.ret) {
						c.check(o2, fn, key, "tree."+name, want)
						if o2.ret != nil && op.Signature.Results().Len() == 1 {
							// a condition gives the operation's answer
							if b, ok := c.in.force(o2.st, o2.ret).(BoolV); ok && (b.f.kind != fOpaque || b.f.neg) {
								a.violate(key, p.Pos(fn.Pos()), "tree.%s does not give the answer of the node operation", name)
							}
						}
					}
				}
			})
		}
		// chained form
		if m := p.methodOrNil(redT, name); m != nil && m.Synthetic == "" {
			nilCases(1, func(nils []bool) {
				r.count("chained forms", 1)
				title := "chained form " + name
				if nils[0] {
					title += " on a nil reduction"
				}
				decide(p, r, title, 1, func(a *attempt, _ int) {
					c := newChain(a)
					st := newState()
					c.newNode(st)
					args := c.in.unknownArgs(st, m)
					setNil(c.in, st, args[0], nils[0])
					want := func(st *State) string {
						w := ""
						if !nils[0] {
							w = fmt.Sprintf("f%d(%s);", args[0].(FuncV).sym, c.show(st, []Val{c.node}))
						}
						return w + fmt.Sprintf("%s(%s);", name, c.show(st, append([]Val{c.node}, args[1:]...)))
					}
					for _, o := range c.in.exec(m, args, nil, st) {
						if o.panicked {
							a.violate(title, p.InstrPos(o.site), "Reduction.%s panics", name)
							continue
						}
						for _, o2 := range c.run(o.st, o.ret) {
							c.check(o2, m, title, "Reduction."+name, want)
						}
					}
				})
			})
		}
	}
	r.Floors["function forms"] = 8
	r.Floors["chained forms"] = 16
	// Chain and If
	step := func(c *chainCtx, st *State, v Val, isNil bool) string {
		if isNil {
			return ""
		}
		return fmt.Sprintf("f%d(%s);", v.(FuncV).sym, c.show(st, []Val{c.node}))
	}
	comb := func(title string, fn *ssa.Function, nfun int, want func(c *chainCtx, st *State, args []Val, nils []bool) []string) {
		nilCases(nfun, func(nils []bool) {
			t := fmt.Sprintf("%s nil=%v", title, nils)
			r.count("combinator cases", 1)
			decide(p, r, t, 1, func(a *attempt, _ int) {
				c := newChain(a)
				st := newState()
				c.newNode(st)
				args := c.in.unknownArgs(st, fn)
				for i := range nils {
					setNil(c.in, st, args[i], nils[i])
				}
				wants := want(c, st, args, nils)
				seen := map[string]bool{}
				for _, o := range c.in.exec(fn, args, nil, st) {
					if o.panicked {
						a.violate(t, p.InstrPos(o.site), "%s panics", title)
						continue
					}
					for _, o2 := range c.run(o.st, o.ret) {
						if o2.panicked {
							a.violate(t, p.InstrPos(o2.site), "%s panics when applied", title)
							continue
						}
						got := o2.st.gd["events"]
						seen[got] = true
						ok := false
						for _, w := range wants {
							if w == got {
								ok = true
							}
						}
						if !ok {
							if c.direct {
								fail("the node is changed directly")
							}
							a.violate(t, p.Pos(fn.Pos()), "%s takes the steps %q, expected one of %q", title, got, wants)
						}
					}
				}
				for _, w := range wants {
					if !seen[w] {
						a.violate(t, p.Pos(fn.Pos()), "%s never takes the steps %q", title, w)
					}
				}
			})
		})
	}
	cond := func(c *chainCtx, st *State, cnd, then, other Val, nils []bool) []string {
		if nils[0] {
			return []string{step(c, st, other, nils[2])}
		}
		e := step(c, st, cnd, false)
		return []string{e + "true;" + step(c, st, then, nils[1]), e + "false;" + step(c, st, other, nils[2])}
	}
	comb("Chain", p.Func("tree", "Chain"), 2, func(c *chainCtx, st *State, args []Val, nils []bool) []string {
		return []string{step(c, st, args[0], nils[0]) + step(c, st, args[1], nils[1])}
	})
	comb("If", p.Func("tree", "If"), 3, func(c *chainCtx, st *State, args []Val, nils []bool) []string {
		return cond(c, st, args[0], args[1], args[2], nils)
	})
	comb("Reduction.If", p.Method(redT, "If"), 4, func(c *chainCtx, st *State, args []Val, nils []bool) []string {
		out := cond(c, st, args[1], args[2], args[3], nils[1:])
		for i := range out {
			out[i] = step(c, st, args[0], nils[0]) + out[i]
		}
		return out
	})
	mergeC14(p, r)
	applyC14(p, r)
}

// mergeC14 follows one arbitrary symbol through Merge.
func mergeC14(p *Prog, r *Report) {
	fn := p.Func("tree", "Merge")
	kinds := []string{"absent", "nil", "there"}
	for _, k1 := range kinds {
		for _, k2 := range kinds {
			k1, k2 := k1, k2
			title := fmt.Sprintf("Merge, a symbol %s in the first and %s in the second", k1, k2)
			r.count("merge cases", 1)
			decide(p, r, title, 1, func(a *attempt, _ int) {
				c := newChain(a)
				in := c.in
				st := newState()
				c.newNode(st)
				args := in.unknownArgs(st, fn)
				sigma := in.unknown(st, types.Typ[types.String], "symbol")
				in.mon.trackKey = sigma
				want := ""
				for i, k := range []string{k1, k2} {
					mv, ok := args[i].(MapV)
					if !ok {
						fail("Merge no longer takes maps")
					}
					in.nonNil(st, mv)
					f := in.unknown(st, p.Named("tree", "Reduction"), fmt.Sprintf("r%d", i+1))
					m := st.mut(mv.obj)
					m.ks = append(m.ks, mapEntry{k: sigma, v: f, ok: constForm(k != "absent")})
					st.nils[f.(FuncV).sym] = k == "nil"
					if k == "there" {
						want += fmt.Sprintf("f%d(%s);", f.(FuncV).sym, c.show(st, []Val{c.node}))
					}
				}
				in.mon.onNext = func(it *item, iter IterV, m *Obj2, site *ssa.Next) ([]res, bool) {
					return trackNext(in, it, iter, sigma)
				}
				for _, o := range in.exec(fn, args, nil, st) {
					if o.panicked {
						a.violate(title, p.InstrPos(o.site), "Merge panics")
						continue
					}
					mv, ok := in.force(o.st, o.ret).(MapV)
					if !ok {
						a.violate(title, p.InstrPos(o.site), "Merge gives a nil reducer")
						continue
					}
					it := &item{st: o.st, env: map[ssa.Value]Val{}}
					for _, g := range in.mapGet(it, mv, sigma, p.Named("tree", "Reduction")) {
						var got Outcome
						if g.v == nil {
							got = Outcome{st: g.it.st}
							c.check(got, fn, title, "the merged reducer", func(*State) string { return want })
							continue
						}
						for _, o2 := range c.run(g.it.st, g.v) {
							c.check(o2, fn, title, "the merged reducer", func(*State) string { return want })
						}
					}
				}
				if in.lostKey || in.sumRead && len(a.bad) > 0 {
					a.bad = nil
					fail("the symbol cannot be followed through the maps")
				}
			})
		}
	}
}

// trackNext iterates over a map in any order, following one key.
func trackNext(in *Interp, it *item, iter IterV, sigma Val) ([]res, bool) {
	mv := iter.over.(MapV)
	kt := it.st.heap[mv.obj].typ.Underlying().(*types.Map)
	if _, ok := in.force(it.st, sigma).(StrV); !ok || kt.Key().Underlying() != types.Typ[types.String] {
		return nil, false
	}
	vis := fmt.Sprintf("visited%d", iter.id)
	var out []res
	for _, g := range in.mapGet(it.fork(), mv, sigma, kt.Elem()) {
		seen := g.it.st.gd[vis] == "1"
		// another key
		x := g.it.fork()
		m := x.st.heap[mv.obj]
		others := m.lazy
		for _, e := range m.ks {
			if x.st.truth(in.equal(x.st, e.k, sigma)) <= 0 && x.st.truth(e.ok) >= 0 {
				others = true
			}
		}
		if others {
			k := in.unknown(x.st, kt.Key(), "key")
			x.st.assume(in.equal(x.st, k, sigma).not())
			if m.lazy {
				for _, h := range in.mapGet(x, mv, k, kt.Elem()) {
					if h.v != nil {
						out = append(out, res{h.it, TupleV{[]Val{BoolV{constForm(true)}, k, in.force(h.it.st, h.v)}}})
					}
				}
			} else {
				out = append(out, res{x, TupleV{[]Val{BoolV{constForm(true)}, k, in.unknown(x.st, kt.Elem(), "val")}}})
			}
		}
		if g.v != nil && !seen {
			g.it.st.gd[vis] = "1"
			out = append(out, res{g.it, TupleV{[]Val{BoolV{constForm(true)}, sigma, in.force(g.it.st, g.v)}}})
		} else {
			out = append(out, res{g.it, nil})
		}
	}
	return out, true
}

// applyC14: reducing a node applies the reduction of its kind to the copy, once.
func applyC14(p *Prog, r *Report) {
	fn := p.Method(p.Named("tree", "Reducer"), "RawReduce")
	title := "reducing a node applies the reduction of its symbol once"
	r.count("appliers", 1)
	decide(p, r, title, 1, func(a *attempt, _ int) {
		in := a.interp()
		st := newState()
		args := in.unknownArgs(st, fn)
		in.nonNil(st, args[0])
		in.nonNil(st, args[1])
		pnT := types.NewPointer(p.Named("tree", "PN"))
		in.mon.recur = func(it *item, f *ssa.Function, as []Val, site ssa.CallInstruction) ([]res, bool) {
			if f != fn {
				return nil, false
			}
			return []res{{it, in.unknown(it.st, pnT, "reduced")}}, true
		}
		arg := in.newGhost(st, pnT, NilV{})
		st.gd["applied"] = "0"
		in.mon.onFuncV = func(it *item, f FuncV, as []Val, site ssa.CallInstruction) ([]res, bool) {
			switch it.st.gd["applied"] {
			case "0":
				it.st.gd["applied"] = "1"
			default:
				it.st.gd["applied"] = "many"
			}
			if len(as) == 1 {
				in.setGhost(it.st, arg, as[0])
			}
			return []res{{it, nil}}, true
		}
		applied := 0
		for _, o := range in.exec(fn, args, nil, st) {
			where := p.InstrPos(o.site)
			if o.panicked {
				continue
			}
			switch o.st.gd["applied"] {
			case "many":
				a.violate(title, where, "a reduction is applied more than once")
			case "1":
				applied++
				if in.canon(o.st, in.getGhost(o.st, arg)) != in.canon(o.st, o.ret) {
					a.violate(title, where, "the reduction is applied to something other than the node returned")
				}
			default:
				// fine only if there is none for the symbol
				none := false
				if m := o.st.heap[args[0].(MapV).obj]; m != nil {
					for _, e := range m.ks {
						if o.st.truth(e.ok) < 0 || isNilVal(in, o.st, in.force(o.st, e.v)) {
							none = true
						}
					}
				}
				if !none && !isNilVal(in, o.st, in.force(o.st, o.ret)) {
					a.violate(title, where, "a node can be reduced without applying the reduction of its symbol")
				}
			}
		}
		if applied == 0 {
			a.violate(title, p.Pos(fn.Pos()), "no reduction is ever applied")
		}
	})
	_ = fmt.Sprint
}
