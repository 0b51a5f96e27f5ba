package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C13"] = checkC13 }

// linkCtx follows the parent link of one arbitrary node, the tracked one, through
// an operation; what is shown for it holds for all of its kind.  The link itself
// is kept in the discrete part of the state ("kP"), so that it survives joins.
type linkCtx struct {
	*editCtx
	kv    PtrV // the tracked node
	from  int  // the list it is in at first
	oldP  Val  // the parent of the node
	other PtrV // stands for the nodes that are not tracked
}

func (l *linkCtx) track(st *State, kv PtrV, parent string) {
	l.kv = kv
	st.gd["kP"] = parent
	ov, ok := l.in.unknown(st, types.NewPointer(l.pnT), "other").(PtrV)
	if !ok {
		fail("no other node")
	}
	l.other = ov
	l.in.nonNil(st, ov)
	st.gd["in"] = "no"
	l.in.mon.onAppend = func(it *item, dst Val, es []Val, site ssa.Instruction) {
		old := true // a list that was there before may lose it again
		switch d := dst.(type) {
		case NilV:
			old = false
		case SliceV:
			if o := it.st.heap[d.arr]; o != nil && !o.lazy {
				old = false
			}
		}
		for _, v := range es {
			if pv, ok := v.(PtrV); ok && pv.obj == kv.obj && !old {
				it.st.gd["in"] = "yes"
			}
		}
	}
	if l.node.obj != 0 {
		l.oldP = l.field(st, l.node, l.fP)
	}
	l.in.mon.skipped = func(it *item, pv PtrV) (Val, bool) {
		if l.node.obj != 0 && pv.obj == l.node.obj && it.st.gd["nP"] == "" {
			return l.oldP, true
		}
		if pv.obj != kv.obj {
			return l.in.unknown(it.st, types.NewPointer(l.pnT), "parent"), true
		}
		switch k := it.st.gd["kP"]; {
		case k == "node":
			return l.node, true
		case k == "nil":
			return NilV{}, true
		case strings.HasPrefix(k, "obj"):
			var id int
			fmt.Sscanf(k, "obj%d", &id)
			if it.st.heap[id] != nil {
				return PtrV{obj: id}, true
			}
		case k == "any":
			return l.in.unknown(it.st, types.NewPointer(l.pnT), "parent"), true
		}
		return nil, false
	}
	l.in.mon.absorb = func(st *State, v Val, src int) ([]Val, bool) {
		if v == nil {
			o := st.heap[src]
			if o == nil || !types.Identical(o.typ, types.NewPointer(l.pnT)) {
				return nil, false
			}
			if src == l.from {
				return []Val{kv, ov}, true
			}
			return []Val{ov}, true
		}
		pv, ok := v.(PtrV)
		if !ok {
			return nil, false
		}
		o := st.heap[pv.obj]
		if o == nil || o.kind != 'o' || !types.Identical(o.typ, l.pnT) || pv.path != "" || pv.idx != nil {
			return nil, false
		}
		if pv.obj == kv.obj {
			return []Val{kv}, true
		}
		if o.gidx != nil || pv.obj == ov.obj {
			return []Val{ov}, true
		}
		return nil, false
	}
	l.in.mon.onStore = func(it *item, pv PtrV, v Val, site ssa.Instruction) {
		o := it.st.heap[pv.obj]
		if o == nil || o.kind != 'o' || !types.Identical(o.typ, l.pnT) {
			return
		}
		if pv.obj == ov.obj && pv.path != string(rune(l.fP)) {
			fail("a node among others is changed")
		}
		if pv.path == "" {
			sv, ok := l.in.force(it.st, v).(StructV)
			if !ok {
				fail("a node is overwritten as a whole")
			}
			v = sv.fields[l.fP]
		} else if pv.path != string(rune(l.fP)) {
			return
		}
		if pv.obj == l.node.obj {
			delete(it.st.gd, "nP")
			if l.in.canon(it.st, v) != l.in.canon(it.st, l.oldP) {
				it.st.gd["nP"] = "changed"
			}
			return
		}
		if pv.obj != kv.obj {
			if !o.lazy && o.gidx == nil {
				it.st.gd[fmt.Sprintf("P%d", pv.obj)] = l.parentName(it.st, v)
			}
			return
		}
		it.st.gd["kP"] = l.parentName(it.st, v)
	}
}

func (l *linkCtx) parentName(st *State, v Val) string {
	switch x := l.in.force(st, v).(type) {
	case NilV:
		return "nil"
	case PtrV:
		if x.obj == l.node.obj {
			return "node"
		}
		return fmt.Sprintf("obj%d", x.obj)
	}
	return "?"
}

// listed looks at one arbitrary position of the node's children: if the tracked
// node is there, its parent is the node.
func (l *linkCtx) listed(o Outcome, node PtrV, want string, key string) {
	in := l.in
	v := in.force(o.st, l.field(o.st, node, l.fC))
	sl, ok := v.(SliceV)
	if !ok {
		if _, isNil := v.(NilV); isNil {
			return
		}
		fail("children of another shape")
	}
	if sl.arr == 0 {
		return
	}
	q := in.symV("q")
	it := &item{st: o.st.fork(), env: map[ssa.Value]Val{}}
	it.st.cons.addGE(q)
	it.st.cons.addGE(sl.ln.sub(q).plus(-1))
	if it.st.dead() || it.st.cons.infeasible() {
		return
	}
	type found struct {
		res
		exact bool
	}
	var rs []found
	in.place(it, sl.arr, sl.off.add(q), func(it *item, seg int) {
		sg := it.st.heap[sl.arr].segs[seg]
		exact := sg.kind == sgVal || sg.kind == sgOrig && !in.loopMade(it.st, sl.ln) && !in.loopMade(it.st, sg.lo) && !in.loopMade(it.st, sg.hi)
		for _, r := range in.readElem(it, sl.arr, sl.off.add(q)) {
			rs = append(rs, found{r, exact})
		}
	})
	later := ""
	for _, r := range rs {
		if r.it.st.dead() || r.it.st.cons.infeasible() {
			continue
		}
		if os.Getenv("DBG") != "" {
			fmt.Fprintln(os.Stderr, "AT", in.show(r.it.st, r.v), r.it.st.gd["kP"])
		}
		switch x := r.v.(type) {
		case NilV:
			continue
		case PtrV:
			ob := r.it.st.heap[x.obj]
			if x.obj == l.kv.obj {
				if got := r.it.st.gd["kP"]; got != want {
					if got == "?" || !r.exact && r.it.st.gd["in"] != "yes" {
						later = "the parent cannot be followed"
						continue
					}
					if os.Getenv("DBG") != "" {
						fmt.Fprintln(os.Stderr, "LINK", got, in.dumpState(r.it.st))
					}
					l.bad(o, key, "a child's parent is not the node that lists it")
					return
				}
				continue
			}
			if ob == nil || ob.gidx == nil && x.obj != l.other.obj {
				later = "a child that cannot be followed"
			}
		default:
			later = "a child that cannot be followed"
		}
	}
	if later != "" {
		fail("%s", later)
	}
}

func checkC13(p *Prog, r *Report) {
	r.Rule = absRule + "one arbitrary child or grandchild is tracked through every editing operation, and one arbitrary recursive result through every tree builder; " +
		"at every return, at one arbitrary position of the child list, the tracked node's parent must be the node that lists it"
	r.Assumptions = append([]string{"the child lists of different nodes do not share memory", "the tree given is well linked"}, absAssumptions...)
	pnT := p.Named("tree", "PN")
	key := "a child's parent is the node that lists it"
	ops := []string{"RemoveChild", "PromoteChildrenOf", "PromoteChild", "ReplaceWithChild", "PromoteChildValue", "PromoteSingleChild", "PromoteGrandChildren", "RemoveChildren", "RemoveAll"}
	for _, name := range ops {
		name := name
		fn := p.methodOrNil(types.NewPointer(pnT), name)
		if fn == nil {
			continue
		}
		indexed := false
		if len(fn.Params) == 2 {
			if b, ok := fn.Params[1].Type().Underlying().(*types.Basic); ok && b.Kind() == types.Int {
				indexed = true
			}
		}
		type cs struct {
			title      string
			grand, neg bool
			rel        int // of the tracked child to the addressed: -1 before, 0 same, 1 after, 2 anything
		}
		var cases []cs
		if indexed {
			for _, neg := range []bool{false, true} {
				s := ""
				if neg {
					s = ", index from the end"
				}
				cases = append(cases,
					cs{"a child before the addressed one" + s, false, neg, -1},
					cs{"the addressed child" + s, false, neg, 0},
					cs{"a child after the addressed one" + s, false, neg, 1},
					cs{"a grandchild under the addressed child" + s, true, neg, 0},
					cs{"a grandchild under an earlier child" + s, true, neg, -1},
					cs{"a grandchild under a later child" + s, true, neg, 1})
			}
			cases = append(cases, cs{"no child addressed, a child", false, false, 2}, cs{"no child addressed, a grandchild", true, false, 2})
		} else {
			cases = append(cases, cs{"a child", false, false, 2}, cs{"a grandchild", true, false, 2})
		}
		for _, c := range cases {
			c := c
			title := name + ", " + c.title
			r.count("operations followed", 1)
			decide(p, r, title, 1, func(a *attempt, _ int) {
				e, st := newEdit(a, title)
				e.in.mon.onBounds = nil
				l := &linkCtx{editCtx: e}
				in := e.in
				args := in.unknownArgs(st, fn)
				args[0] = e.node
				it := &item{st: st, env: map[ssa.Value]Val{}}
				k := in.symV("k")
				st.cons.addGE(k)
				st.cons.addGE(e.kids.ln.sub(k).plus(-1))
				in.mon.tracked = []Lin{k}
				if indexed {
					if c.rel == 2 {
						e.index(st, args[1], false, c.neg)
					} else {
						e.index(st, args[1], true, c.neg)
						switch c.rel {
						case -1:
							st.cons.addGE(e.j.sub(k).plus(-1))
						case 0:
							st.cons.addEQ(e.j.sub(k))
						case 1:
							st.cons.addGE(k.sub(e.j).plus(-1))
						}
					}
				}
				kidRes := e.child(it, k)
				kid, ok := kidRes[0].v.(PtrV)
				if !ok || len(kidRes) != 1 {
					fail("a child is not a pointer")
				}
				in.nonNil(st, kid)
				// the children of the addressed child come before the ones after it
				shift := func() {
					if indexed && c.rel == 1 {
						rs := e.child(it, e.j)
						if ch, ok := rs[0].v.(PtrV); ok && len(rs) == 1 {
							if sl, ok := in.force(st, e.field(st, ch, e.fC)).(SliceV); ok {
								in.mon.tracked = append(in.mon.tracked, k.plus(-1).add(sl.ln))
							}
						}
					}
				}
				var kidC Val
				if !c.grand {
					shift()
					l.from = e.kids.arr
					l.track(st, kid, "node")
				} else {
					kidC = e.field(st, kid, e.fC)
					sl, ok := in.force(st, kidC).(SliceV)
					if !ok {
						fail("children of another shape")
					}
					g := in.symV("g")
					st.cons.addGE(g)
					st.cons.addGE(sl.ln.sub(g).plus(-1))
					rs := in.origElem(it, sl.arr, sl.off.add(g), st.heap[sl.arr])
					gk, ok := rs[0].v.(PtrV)
					if !ok || len(rs) != 1 {
						fail("a grandchild is not a pointer")
					}
					in.nonNil(st, gk)
					in.mon.tracked = append(in.mon.tracked, g)
					if indexed {
						in.mon.tracked = append(in.mon.tracked, g.add(e.j))
					}
					l.from = sl.arr
					l.track(st, gk, fmt.Sprintf("obj%d", kid.obj))
				}
				outs := in.exec(fn, args, nil, st)
				n := 0
				for _, o := range outs {
					if o.panicked {
						continue // C12
					}
					n++
					if o.st.gd["nP"] != "" {
						l.bad(o, "the node keeps its parent", "the node's own parent changes")
					}
					l.listed(o, e.node, "node", key)
					if c.grand && c.rel != 0 && name != "PromoteGrandChildren" && name != "PromoteSingleChild" && name != "ReplaceWithChild" {
						// its parent stays where it is, unless it is removed
						if got := o.st.gd["kP"]; got != fmt.Sprintf("obj%d", kid.obj) {
							l.bad(o, "the children's children keep their parent", "a child of another child gets another parent")
						}
						if in.canon(o.st, e.field(o.st, kid, e.fC)) != in.canon(o.st, kidC) {
							l.bad(o, "the children's children keep their parent", "another child's list of children is changed")
						}
					}
				}
				if n == 0 {
					fail("%s never returns", name)
				}
			})
		}
	}
	r.Floors["operations followed"] = 60
	build := func(title string, fn *ssa.Function) { buildC13(p, r, title, fn) }
	if fn := p.Func("tree", "Clone"); fn != nil {
		build("Clone", fn)
	}
	build("RawReduce", p.Method(p.Named("tree", "Reducer"), "RawReduce"))
	for _, fn := range p.builders() {
		build(shortFn(fn), fn)
	}
	r.Floors["tree builders"] = 3
	parseC13(p, r, "packrat.Parse", p.Method(types.NewPointer(p.Named("parser/packrat", "Packrat")), "Parse"))
	parseC13(p, r, "topdown.Parse", p.Method(types.NewPointer(p.Named("parser/topdown", "Topdown")), "Parse"))
	parseC13(p, r, "Reduce", p.Method(p.Named("tree", "Reducer"), "Reduce"))
	textC13(p, r)
	r.Floors["appends followed"] = 1
}

// selfReaching: the function can call itself, directly or through others.
func (p *Prog) selfReaching(fn *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				c, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := c.Common().StaticCallee()
				if g == nil || !p.InModule(g) {
					continue
				}
				if g == fn {
					return true
				}
				if !seen[g] {
					seen[g] = true
					if walk(g) {
						return true
					}
				}
			}
		}
		return false
	}
	return walk(fn)
}

// parseC13: what a parser hands out comes from one of the tree builders.
func parseC13(p *Prog, r *Report, title string, fn *ssa.Function) {
	r.count("parsers", 1)
	decide(p, r, title+" hands out a linked tree", 1, func(a *attempt, _ int) {
		l, st := newLink(a, title)
		in := l.in
		pnP := types.NewPointer(l.pnT)
		kv := in.unknown(st, pnP, "linked").(PtrV)
		in.nonNil(st, kv)
		l.track(st, kv, "nil")
		st.gd["touched"] = "no"
		links := in.mon.skip
		in.mon.skip = func(st *State, pv PtrV) bool {
			if o := st.heap[pv.obj]; o != nil && o.kind == 'a' {
				if _, basic := o.typ.Underlying().(*types.Basic); basic {
					return true // tables of flags do not matter here
				}
			}
			return links(st, pv)
		}
		good := map[*ssa.Function]bool{p.Func("tree", "Clone"): true, p.Method(p.Named("tree", "Reducer"), "RawReduce"): true}
		for _, b := range p.builders() {
			good[b] = true
		}
		in.mon.onCall = func(it *item, f *ssa.Function, args []Val, x ssa.CallInstruction) ([]res, bool) {
			if good[f] {
				return []res{{it, kv}}, true
			}
			if f.Blocks == nil || !p.InModule(f) {
				return nil, false
			}
			parser := f.Pkg != nil && strings.Contains(f.Pkg.Pkg.Path(), "/parser/")
			if parser && !p.selfReaching(f) && f.Signature.Results().Len() > 0 {
				return nil, false
			}
			for _, v := range args {
				if pv, ok := in.force(it.st, v).(PtrV); ok && it.st.heap[pv.obj] != nil && types.Identical(it.st.heap[pv.obj].typ, l.pnT) {
					it.st.gd["touched"] = "yes"
				}
			}
			in.havoc(it.st, args...)
			return []res{{it, in.unknownRes(it.st, f.Signature, "unlinked")}}, true
		}
		n := 0
		for _, o := range in.exec(fn, in.unknownArgs(st, fn), nil, st) {
			if o.panicked {
				continue
			}
			n++
			v := in.force(o.st, o.ret)
			if iv, ok := v.(IfaceV); ok && iv.dyn != nil {
				v = in.force(o.st, iv.v)
			}
			switch x := v.(type) {
			case NilV:
			case PtrV:
				if x.obj == kv.obj {
					if o.st.gd["kP"] != "nil" {
						l.bad(o, "the root has no parent", "what is returned has a parent")
					}
					continue
				}
				if o.st.gd["touched"] != "no" || o.st.heap[x.obj] == nil || !strings.HasPrefix(o.st.heap[x.obj].name, "unlinked") {
					fail("the tree comes from elsewhere")
				}
				l.bad(o, "a child's parent is the node that lists it", "the tree handed out is made of nodes whose parents are not set")
			default:
				fail("the result cannot be followed")
			}
		}
		if n == 0 {
			fail("%s never returns", title)
		}
	})
}

// textC13: in the functions of package tree that grow a child list one node at a
// time, the node that is appended has the owner of the list as its parent.
func textC13(p *Prog, r *Report) {
	pnT := p.Named("tree", "PN")
	fP, fC, _ := pnFields(p)
	isPN := func(t types.Type) bool {
		pt, ok := t.Underlying().(*types.Pointer)
		return ok && types.Identical(pt.Elem(), pnT)
	}
	// same: two values that are the same pointer at the two places
	same := func(a, b ssa.Value) bool {
		if a == b {
			return true
		}
		la, ok1 := a.(*ssa.UnOp)
		lb, ok2 := b.(*ssa.UnOp)
		return ok1 && ok2 && la.X == lb.X
	}
	for _, fn := range p.Funcs {
		if fn.Pkg == nil || fn.Pkg != p.pkg("tree") {
			continue
		}
		var parents, lists []*ssa.Store
		opaque := false
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Store:
					fa, ok := x.Addr.(*ssa.FieldAddr)
					if !ok || !isPN(fa.X.Type()) {
						continue
					}
					switch fa.Field {
					case fP:
						parents = append(parents, x)
					case fC:
						lists = append(lists, x)
					}
				case ssa.CallInstruction:
					if g := x.Common().StaticCallee(); g != nil && p.InModule(g) {
						for _, a := range x.Common().Args {
							if isPN(a.Type()) {
								opaque = true
							}
						}
					}
				}
			}
		}
		for _, ls := range lists {
			owner := ls.Addr.(*ssa.FieldAddr).X
			ch := appendedOne(ls.Val)
			al, ok := ch.(*ssa.Alloc)
			if ch == nil || !ok {
				continue
			}
			where := p.InstrPos(ls)
			r.count("appends followed", 1)
			verdict := "never"
			for _, ps := range parents {
				of := ps.Addr.(*ssa.FieldAddr).X
				if of != al {
					if _, isAlloc := of.(*ssa.Alloc); !isAlloc {
						if c, isC := ps.Val.(*ssa.Const); !isC || !c.IsNil() {
							opaque = true // set through another name
						}
					}
					continue
				}
				if same(ps.Val, owner) {
					verdict = "ok"
				} else if verdict == "never" {
					verdict = "other"
				}
			}
			switch {
			case verdict == "ok":
				r.ok("the node appended at %s has the owner of the list as parent", where)
			case opaque:
				r.undecided("append at "+where, "the parent is set elsewhere")
			case verdict == "other":
				r.violate("a child's parent is the node that lists it", where, "the appended node gets another parent than the owner of the list")
			default:
				r.violate("a child's parent is the node that lists it", where, "the appended node gets no parent")
			}
		}
	}
	// the root of a tree read from text
	fn := p.Func("tree", "New")
	if fn == nil {
		return
	}
	for _, b := range fn.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || len(ret.Results) == 0 || !isPN(ret.Results[0].Type()) {
			continue
		}
		v := ret.Results[0]
		if c, ok := v.(*ssa.Const); ok && c.IsNil() {
			continue
		}
		ld, ok := v.(*ssa.UnOp)
		if !ok {
			r.undecided("root returned at "+p.InstrPos(ret), "it cannot be followed")
			continue
		}
		if _, ok := ld.X.(*ssa.IndexAddr); !ok {
			r.undecided("root returned at "+p.InstrPos(ret), "it cannot be followed")
			continue
		}
		cleared, unclear := false, false
		for _, b2 := range fn.Blocks {
			for _, ins := range b2.Instrs {
				st, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || !isPN(fa.X.Type()) || fa.Field != fP {
					continue
				}
				if c, isC := st.Val.(*ssa.Const); isC && c.IsNil() {
					if fa.X == v && b2.Dominates(b) {
						cleared = true
					} else {
						unclear = true
					}
				}
			}
		}
		for _, ref := range *ld.Referrers() {
			if c, ok := ref.(ssa.CallInstruction); ok && c != nil {
				unclear = true
			}
		}
		switch {
		case cleared:
			r.ok("the root returned at %s has no parent", p.InstrPos(ret))
		case unclear:
			r.undecided("root returned at "+p.InstrPos(ret), "its parent may be cleared elsewhere")
		default:
			r.violate("the root has no parent", p.InstrPos(ret), "the root is taken from a child list and keeps its parent")
		}
	}
}

// appendedOne gives x in append(list, x).
func appendedOne(v ssa.Value) ssa.Value {
	c, ok := v.(*ssa.Call)
	if !ok {
		return nil
	}
	if bi, ok := c.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "append" || len(c.Call.Args) != 2 {
		return nil
	}
	sl, ok := c.Call.Args[1].(*ssa.Slice)
	if !ok {
		return nil
	}
	arr, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	var out ssa.Value
	n := 0
	for _, ref := range *arr.Referrers() {
		ia, ok := ref.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, r2 := range *ia.Referrers() {
			if st, ok := r2.(*ssa.Store); ok {
				out = st.Val
				n++
			}
		}
	}
	if n != 1 {
		return nil
	}
	return out
}

// builders are the recursive functions of the parsers that make a tree.
func (p *Prog) builders() []*ssa.Function {
	pn := types.NewPointer(p.Named("tree", "PN"))
	var out []*ssa.Function
	for _, fn := range p.Funcs {
		if fn.Signature.Results().Len() != 1 || !types.Identical(fn.Signature.Results().At(0).Type(), pn) {
			continue
		}
		if fn.Pkg == nil || !strings.Contains(fn.Pkg.Pkg.Path(), "/parser/") {
			continue
		}
		rec := false
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(ssa.CallInstruction); ok && c.Common().StaticCallee() == fn {
					rec = true
				}
			}
		}
		if rec {
			out = append(out, fn)
		}
	}
	return out
}

// buildC13: a function that makes a tree from the trees it gets by calling
// itself.  The result of the K-th of these calls is tracked.
func buildC13(p *Prog, r *Report, title string, fn *ssa.Function) {
	r.count("tree builders", 1)
	key := "a child's parent is the node that lists it"
	decide(p, r, title+" links what it builds", 1, func(a *attempt, _ int) {
		l, st := newLink(a, title)
		e, in := l.editCtx, l.in
		k := in.symV("k")
		st.cons.addGE(k)
		kv := in.unknown(st, types.NewPointer(e.pnT), "result").(PtrV)
		in.nonNil(st, kv)
		l.track(st, kv, "nil")
		st.gi["calls"] = linC(0)
		in.mon.tracked = []Lin{k}
		in.mon.skolem = func(st *State, o *Obj2) []Lin {
			if o.kind == 'a' && types.Identical(o.typ, types.NewPointer(e.pnT)) {
				return []Lin{k}
			}
			return nil
		}
		in.mon.recur = func(it *item, f *ssa.Function, args []Val, x ssa.CallInstruction) ([]res, bool) {
			if f != fn {
				return nil, false
			}
			n := it.st.gi["calls"]
			t, o := in.branch(it, Form{kind: fEQ, e: n.sub(k)})
			var out []res
			for _, y := range []*item{t, o} {
				if y == nil {
					continue
				}
				y.st.gi["calls"] = n.plus(1)
				v := Val(l.other)
				if y == t {
					v = kv
				}
				out = append(out, res{y, v})
			}
			return out, true
		}
		in.mon.onFuncV = func(it *item, fv FuncV, args []Val, x ssa.CallInstruction) ([]res, bool) {
			if len(args) != 1 {
				return nil, false
			}
			pv, ok := in.force(it.st, args[0]).(PtrV)
			if !ok || !types.Identical(it.st.heap[pv.obj].typ, e.pnT) {
				return nil, false
			}
			// an unknown reduction: any list of children, the tracked one somewhere
			n := in.symV("n")
			it.st.cons.addGE(n)
			none := it.fork()
			it.st.cons.addGE(n.sub(k).plus(-1))
			none.st.cons.addGE(k.sub(n))
			var out []res
			for _, y := range []*item{it, none} {
				if y.st.dead() || y.st.cons.infeasible() {
					continue
				}
				segs := []Seg{{lo: linC(0), hi: n, kind: sgSum, alts: []Val{l.other}}}
				if y == it {
					segs = []Seg{{lo: linC(0), hi: k, kind: sgSum, alts: []Val{l.other}}, {lo: k, hi: k.plus(1), kind: sgVal, v: kv}, {lo: k.plus(1), hi: n, kind: sgSum, alts: []Val{l.other}}}
					y.st.gd["kP"] = "any"
				}
				sl := in.newArr(y, types.NewPointer(e.pnT), segs, n)
				m := y.st.mut(pv.obj)
				m.val = setPath(in, y.st, m.val, string(rune(e.fC)), sl)
				m.val = setPath(in, y.st, m.val, string(rune(e.fL)), in.lazy(p.Named("", "Lexeme"), "reduced"))
				y.st.gd[fmt.Sprintf("P%d", pv.obj)] = "" // whatever it was
				delete(y.st.gd, fmt.Sprintf("P%d", pv.obj))
				out = append(out, res{y, nil})
			}
			return out, true
		}
		args := in.unknownArgs(st, fn)
		n := 0
		for _, o := range in.exec(fn, args, nil, st) {
			if o.panicked {
				continue
			}
			n++
			switch x := in.force(o.st, o.ret).(type) {
			case NilV:
			case PtrV:
				if x.obj == kv.obj || x.obj == l.other.obj {
					continue // handed on
				}
				l.listed(o, x, fmt.Sprintf("obj%d", x.obj), key)
				if pa := o.st.gd[fmt.Sprintf("P%d", x.obj)]; pa != "" && pa != "nil" {
					l.bad(o, "the root has no parent", "what is returned has a parent")
				}
			default:
				fail("the result cannot be followed")
			}
		}
		if n == 0 {
			fail("%s never returns", title)
		}
	})
}

func newLink(a *attempt, title string) (*linkCtx, *State) {
	e := &editCtx{a: a, p: a.p, in: a.interp(), title: title, pnT: a.p.Named("tree", "PN")}
	e.fP, e.fC, e.fL = pnFields(a.p)
	l := &linkCtx{editCtx: e}
	e.in.mon.skip = func(st *State, pv PtrV) bool {
		o := st.heap[pv.obj]
		return o != nil && o.kind == 'o' && types.Identical(o.typ, e.pnT) && pv.path == string(rune(e.fP))
	}
	return l, newState()
}
