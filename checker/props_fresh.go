package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// fresh: the functions that bring the list of each rule's next match up to date
// leave no match in it that starts before the position: a rule that matches
// there would be passed over.
func (c *policy) fresh() {
	title := "next matches of " + c.rel + " are kept up to date"
	n := 0
	for _, fn := range c.pkgFns() {
		f := c.nextField(fn)
		if f < 0 {
			continue
		}
		n++
		fn := fn
		name := title + ": " + shortFn(fn)
		decide(c.p, c.r, name, 1, func(a *attempt, _ int) { c.renews(a, fn, f, name) })
	}
	c.r.count("functions that renew matches", n)
	if n == 0 {
		c.r.undecided(title, "no function that renews the matches was found")
	}
}

// nextField: the function is a method without arguments of a type that has one
// list of matches, searches, and does not make the list anew.
func (c *policy) nextField(fn *ssa.Function) int {
	if fn.Signature.Recv() == nil || len(fn.Params) != 1 || fn.Signature.Results().Len() != 0 {
		return -1
	}
	pt, ok := fn.Params[0].Type().Underlying().(*types.Pointer)
	if !ok {
		return -1
	}
	s, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	f := -1
	for i := 0; i < s.NumFields(); i++ {
		if types.Identical(s.Field(i).Type().Underlying(), types.NewSlice(types.NewSlice(types.Typ[types.Int]))) {
			if f >= 0 {
				return -1
			}
			f = i
		}
	}
	if f < 0 {
		return -1
	}
	searches, makes := false, false
	seen := map[*ssa.Function]bool{}
	var walk func(fn *ssa.Function)
	walk = func(fn *ssa.Function) {
		if seen[fn] {
			return
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if st, ok := ins.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fa.Field == f && types.Identical(fa.X.Type(), pt) {
						makes = true
					}
				}
				if call, ok := ins.(ssa.CallInstruction); ok {
					g := call.Common().StaticCallee()
					if g == nil {
						continue
					}
					if strings.HasPrefix(g.String(), "(*regexp.Regexp).Find") {
						searches = true
					} else if g.Pkg == fn.Pkg {
						walk(g)
					}
				}
			}
		}
	}
	walk(fn)
	if !searches || makes {
		return -1
	}
	return f
}

func (c *policy) renews(a *attempt, fn *ssa.Function, field int, title string) {
	in := a.interp()
	in.mon.plainKey = true
	in.mon.unroll = 4
	run := func(n int64, use func(recv int, arr SliceV, elems []Val, outs []Outcome)) {
		st := newState()
		args := in.unknownArgs(st, fn)
		in.nonNil(st, args[0])
		recv := refOf(args[0])
		sv, ok := in.force(st, st.heap[recv].val).(StructV)
		if !ok {
			fail("the receiver is not a plain object")
		}
		sl, ok := in.force(st, sv.fields[field]).(SliceV)
		if !ok {
			fail("the list of matches is not followed")
		}
		st.nils[sl.arr] = false
		st.cons.addEQ(sl.ln.plus(-n))
		it := &item{st: st, env: map[ssa.Value]Val{}}
		var elems []Val
		for i := int64(0); i < n; i++ {
			rs := in.readElem(it, sl.arr, sl.off.plus(i))
			if len(rs) != 1 {
				fail("the list of matches is not followed")
			}
			e, ok := in.force(rs[0].it.st, rs[0].v).(SliceV)
			if !ok {
				fail("a match is not followed")
			}
			it = rs[0].it
			it.st.nils[e.arr] = false
			it.st.cons.addGE(e.ln.plus(-3))
			lo, hi, last := c.at(in, it, e, linC(0)), c.at(in, it, e, linC(1)), c.at(in, it, e, e.ln.plus(-1))
			it.st.cons.addGE(lo)
			it.st.cons.addGE(hi.sub(lo))
			it.st.cons.addGE(last)
			elems = append(elems, e)
		}
		use(recv, sl, elems, in.exec(fn, args, nil, it.st))
	}
	final := func(o Outcome, sl SliceV, i int64) []res {
		it := &item{st: o.st.fork(), env: map[ssa.Value]Val{}}
		rs := in.readElem(it, sl.arr, sl.off.plus(i))
		for k := range rs {
			rs[k].v = in.force(rs[k].it.st, rs[k].v)
			if os.Getenv("DBG") == "2" {
				fmt.Fprintln(os.Stderr, "final", i, in.show(rs[k].it.st, rs[k].v), rs[k].it.st.gi)
			}
		}
		return rs
	}
	// with one match: what the position is, and where in a match its start is
	cur, conv := "", -1
	in.mon.onSearch = func(it *item, re Val, s SliceV, found bool, loc int) {
		it.st.gd["searches"] += "1"
		if found {
			it.st.gi["from"] = s.off
			it.st.gi["abs"] = s.off.add(it.st.heap[loc].segs[0].v.(IntV).e)
		}
	}
	learn := func(recv int, sl SliceV, elems []Val, outs []Outcome) {
		for _, o := range outs {
			if o.panicked || o.st.gd["searches"] != "1" {
				continue
			}
			for i := range elems {
				for _, r := range final(o, sl, int64(i)) {
					it := r.it
					abs := it.st.gi["abs"]
					e, ok := r.v.(SliceV)
					if !ok || e.arr == elems[i].(SliceV).arr {
						continue
					}
					lo, last := c.at(in, it, e, linC(0)), c.at(in, it, e, e.ln.plus(-1))
					k := -1
					if it.st.eq(lo, abs) {
						k = 0
					} else if it.st.eq(lo.add(last), abs) {
						k = 1
					}
					if k < 0 || conv >= 0 && conv != k {
						fail("where a match starts is not followed")
					}
					conv = k
					for name, x := range c.numbers(in, it.st, recv) {
						if it.st.eq(x, it.st.gi["from"]) && !it.st.cons.norm(x).isConst() {
							if cur != "" && cur != name {
								fail("the position is not known")
							}
							cur = name
						}
					}
				}
			}
		}
	}
	for n := int64(1); n <= 2 && (cur == "" || conv < 0); n++ {
		run(n, learn)
	}
	if cur == "" || conv < 0 {
		fail("no search that renews a match was found")
	}
	in.mon.onSearch = nil
	for n := int64(1); n <= 2; n++ {
		run(n, func(recv int, sl SliceV, elems []Val, outs []Outcome) {
			for _, o := range outs {
				if o.panicked {
					continue
				}
				for i := int64(0); i < n; i++ {
					for _, r := range final(o, sl, i) {
						it := r.it
						e, ok := r.v.(SliceV)
						if !ok || e.arr != elems[i].(SliceV).arr {
							continue
						}
						c.r.count("matches left as they were", 1)
						start := c.at(in, it, e, linC(0))
						if conv == 1 {
							start = start.add(c.at(in, it, e, e.ln.plus(-1)))
						}
						pos := c.numbers(in, it.st, recv)[cur]
						if it.st.le(pos, start) {
							continue
						}
						if in.joins > 0 || in.vague(it.st, start) || in.vague(it.st, pos) {
							fail("a match left as it was is not followed")
						}
						if os.Getenv("DBG") != "" {
							fmt.Fprintln(os.Stderr, "==", i, in.showLin(it.st, pos), in.showLin(it.st, start), in.dumpState(it.st))
						}
						a.violate(title, c.p.Pos(fn.Pos()), "a match that starts before the position may be kept, so that the rule is not looked for at the position")
					}
				}
			}
		})
	}
}

// at is an integer of a match.
func (c *policy) at(in *Interp, it *item, e SliceV, idx Lin) Lin {
	rs := in.readElem(it, e.arr, e.off.add(idx))
	if len(rs) != 1 {
		fail("an integer of a match is not followed")
	}
	x, ok := in.force(rs[0].it.st, rs[0].v).(IntV)
	if !ok {
		fail("an integer of a match is not followed")
	}
	return x.e
}
