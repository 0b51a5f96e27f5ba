package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// The packrat parser keeps what it has derived in maps and a list of work.
// Everything put there must satisfy an invariant, and everything taken from
// there may be relied on to satisfy it:
//
//	memo[k]       D(k)
//	found[m]      every element begins with m and D(it)
//	waiting[m]    every element is a beginning of a production: its children
//	              derive the first symbols over adjoining stretches, m is the
//	              next symbol and where it has to begin
//	work          a beginning as above and D(something fit to continue it)
//
// The functions that call each other in a circle are taken one by one, with
// whatever they may be handed.
type prA struct {
	*acc
	keyT, defT, partT, workT types.Type // K, TD, TP, U
	markT                    types.Type
	lists                    map[int]listInfo // arrays of lists looked up
	goodU                    map[int]bool
	whole1                   map[int][]Lin // children of definitions known to be complete
}

type listInfo struct {
	kind byte // 'f' found, 'w' waiting, 'u' work
	key  []Lin
}

// flatInts counts the numbers of a struct, embedded ones included.
func flatInts(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			return 1
		}
	case *types.Struct:
		n := 0
		for i := 0; i < u.NumFields(); i++ {
			n += flatInts(u.Field(i).Type())
		}
		return n
	}
	return 0
}

// hasLeaf: a struct has, embedded ones included, a field of type t.
func hasLeaf(s, t types.Type) bool {
	if types.Identical(s, t) {
		return true
	}
	if u, ok := s.Underlying().(*types.Struct); ok {
		for i := 0; i < u.NumFields(); i++ {
			if hasLeaf(u.Field(i).Type(), t) {
				return true
			}
		}
	}
	return false
}

// leaf finds the field of type t.
func (c *prA) leaf(st *State, v Val, t types.Type) (Val, bool) {
	sv, ok := c.in.force(st, v).(StructV)
	if !ok {
		return nil, false
	}
	u := sv.typ.Underlying().(*types.Struct)
	for i := range sv.fields {
		if types.Identical(u.Field(i).Type(), t) {
			return c.in.force(st, sv.fields[i]), true
		}
		if _, ok := u.Field(i).Type().Underlying().(*types.Struct); ok {
			if r, ok := c.leaf(st, sv.fields[i], t); ok {
				return r, true
			}
		}
	}
	return nil, false
}

// whole gives the struct a value is or points to.
func (c *prA) whole(st *State, v Val) Val {
	v = c.in.force(st, v)
	if pv, ok := v.(PtrV); ok {
		it := &item{st: st, env: map[ssa.Value]Val{}}
		rs := c.in.load(it, pv, nil)
		if len(rs) != 1 || rs[0].it.st != st {
			fail("the struct is not plain")
		}
		return c.in.force(st, rs[0].v)
	}
	return v
}

func (c *prA) prodT() types.Type { return c.p.Named("", "Production") }

func newPr(a *attempt, title string) (*prA, *State) {
	p := a.p
	base, st := newAcc(a, title)
	c := &prA{acc: base, lists: map[int]listInfo{}, goodU: map[int]bool{}, whole1: map[int][]Lin{}}
	// the kinds of records, by their shape
	pkg := p.pkg("parser/packrat")
	for _, name := range pkg.Pkg.Scope().Names() {
		tn, ok := pkg.Pkg.Scope().Lookup(name).(*types.TypeName)
		if !ok {
			continue
		}
		t := tn.Type()
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		ptr := false
		for i := 0; i < s.NumFields(); i++ {
			if pt, ok := s.Field(i).Type().(*types.Pointer); ok && types.Identical(pt.Elem(), t) {
				ptr = true
			}
		}
		n := flatInts(t)
		switch {
		case s.NumFields() == 2 && n == 2:
			c.set1(&c.markT, t)
		case n == 3 && !ptr && !hasSlice(t):
			c.set1(&c.keyT, t)
		}
	}
	if c.markT == nil || c.keyT == nil {
		fail("the marks and keys of the parser are not recognised")
	}
	keys := types.NewSlice(c.keyT)
	for _, name := range pkg.Pkg.Scope().Names() {
		tn, ok := pkg.Pkg.Scope().Lookup(name).(*types.TypeName)
		if !ok {
			continue
		}
		t := tn.Type()
		if _, ok := t.Underlying().(*types.Struct); !ok {
			continue
		}
		switch {
		case hasLeaf(t, c.prodT()) && hasLeaf(t, keys) && flatInts(t) <= 4 && flatInts(t) >= 3:
			c.set1(&c.partT, t)
		case hasLeaf(t, keys) && flatInts(t) <= 4 && flatInts(t) >= 3:
			c.set1(&c.defT, t)
		}
	}
	if c.partT == nil || c.defT == nil {
		fail("the definitions and beginnings of the parser are not recognised")
	}
	for _, name := range pkg.Pkg.Scope().Names() {
		tn, ok := pkg.Pkg.Scope().Lookup(name).(*types.TypeName)
		if !ok {
			continue
		}
		t := tn.Type()
		if s, ok := t.Underlying().(*types.Struct); ok && !types.Identical(t, c.partT) {
			part, key := false, false
			for i := 0; i < s.NumFields(); i++ {
				part = part || types.Identical(s.Field(i).Type(), c.partT)
				key = key || types.Identical(s.Field(i).Type(), c.keyT) || types.Identical(s.Field(i).Type(), c.defT)
			}
			if part && key {
				c.set1(&c.workT, t)
			}
		}
	}
	if c.workT == nil {
		fail("the pieces of work of the parser are not recognised")
	}
	in := c.in
	in.mon.onMapGet = c.onGet
	in.mon.onMapSet = c.onSet
	in.mon.dropSet = func(it *item, m MapV) bool { return c.mapKind(it.st, m) != 0 }
	in.mon.elem = c.onElem
	in.mon.skip = func(st *State, p PtrV) bool { return c.placeKind(st, p) != 0 }
	in.mon.skipped = func(it *item, p PtrV) (Val, bool) {
		switch c.placeKind(it.st, p) {
		case 'u':
			v := in.unknown(it.st, types.NewPointer(c.workT), "work")
			c.assumeWork(it.st, c.whole(it.st, v))
			delete(it.st.nils, v.(PtrV).obj)
			c.goodU[v.(PtrV).obj] = true
			return v, true
		case 's':
			v := in.unknown(it.st, types.NewSlice(c.workT), "work").(SliceV)
			c.lists[v.arr] = listInfo{kind: 'u'}
			return v, true
		case 'b':
			return in.unknown(it.st, types.Typ[types.Bool], "flag"), true
		}
		return nil, false
	}
	in.mon.onStore = func(it *item, p PtrV, v Val, site ssa.Instruction) {
		if in.quiet > 0 {
			return
		}
		where := c.p.InstrPos(site)
		switch c.placeKind(it.st, p) {
		case 'u':
			v = in.force(it.st, v)
			pv, ok := v.(PtrV)
			if !ok || c.goodU[pv.obj] || isNilVal(in, it.st, v) {
				return
			}
			c.checkWork(it, c.whole(it.st, v), where)
		case 's':
			c.checkList(it, listInfo{kind: 'u'}, v, where)
		}
	}
	return c, st
}

func hasSlice(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice, *types.Map, *types.Pointer, *types.Interface:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasSlice(u.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}

func (c *prA) set1(dst *types.Type, t types.Type) {
	if *dst != nil {
		fail("the records of the parser are not recognised")
	}
	*dst = t
}

func (c *prA) mapKind(st *State, m MapV) byte {
	mt := st.heap[m.obj].typ.Underlying().(*types.Map)
	switch {
	case types.Identical(mt.Key(), c.keyT) && (types.Identical(mt.Elem(), c.defT) || types.Identical(mt.Elem(), types.NewPointer(c.defT))):
		return 'm'
	case types.Identical(mt.Key(), c.markT) && isBoolType(mt.Elem()):
		return 'q'
	case types.Identical(mt.Key(), c.markT):
		if s, ok := mt.Elem().Underlying().(*types.Slice); ok {
			switch {
			case types.Identical(s.Elem(), c.partT):
				return 'w'
			case types.Identical(s.Elem(), c.defT), types.Identical(s.Elem(), c.keyT):
				return 'f'
			}
		}
	}
	return 0
}

func isBoolType(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.Bool
	case *types.Struct:
		return u.NumFields() == 0
	}
	return false
}

// placeKind: the places that are not followed: the work to do, and flags.
func (c *prA) placeKind(st *State, p PtrV) byte {
	o := st.heap[p.obj]
	if o == nil {
		return 0
	}
	if o.kind == 'a' {
		if b, ok := o.typ.Underlying().(*types.Basic); ok && b.Kind() == types.Bool && p.path == "" {
			return 'b'
		}
		return 0
	}
	t := o.typ
	inStruct := false
	for _, r := range p.path {
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			return 0
		}
		inStruct = true
		t = s.Field(int(r)).Type()
	}
	if !inStruct {
		return 0
	}
	switch {
	case types.Identical(t, types.NewPointer(c.workT)):
		return 'u'
	case types.Identical(t, types.NewSlice(c.workT)):
		return 's'
	}
	return 0
}

// ---- what may be relied on ----

func (c *prA) knowD(st *State, i, s, e Lin) {
	f := fact{name: "D", args: []Lin{i, s, e}}
	if !hasFact(st.facts, f) {
		st.facts = append(st.facts, f)
	}
}

func (c *prA) isD(st *State, i, s, e Lin) bool {
	for _, f := range st.facts {
		if f.name == "D" && st.eq(f.args[0], i) && st.eq(f.args[1], s) && st.eq(f.args[2], e) {
			return true
		}
	}
	return false
}

func (c *prA) nums(st *State, v Val, n int) []Lin {
	ns := c.ints(st, v)
	if len(ns) < n {
		fail("the numbers of a record are not found")
	}
	return ns
}

// keyOf gives the numbers of the key a definition or key value carries.
func (c *prA) keyOf(st *State, v Val) []Lin { return c.nums(st, c.whole(st, v), 3)[:3] }

func (c *prA) assumePart(st *State, tp Val, m []Lin) {
	ns := c.nums(st, tp, 3)
	pv, ok := c.leaf(st, tp, c.prodT())
	prod, ok2 := pv.(IfaceV)
	if !ok || !ok2 {
		fail("the production of a beginning is not found")
	}
	st.nils[prod.sym] = false
	c.prodOf[prod.sym] = ns[0]
	kv, ok := c.leaf(st, tp, types.NewSlice(c.keyT))
	if !ok {
		fail("the children of a beginning are not found")
	}
	n := linC(0)
	if sl, ok := kv.(SliceV); ok {
		n = sl.ln
		if _, ok := c.chains[sl.arr]; !ok {
			c.chains[sl.arr] = chainInfo{prod: prod.sym, start: ns[1], n: n, off: sl.off}
			c.cuts[sl.arr] = []symEntry{{linC(0), ns[1]}, {n, m[1]}}
			c.symAt[prod.sym] = append(c.symAt[prod.sym], symEntry{n, m[0]})
		}
	}
	for _, x := range []Lin{m[0], m[1], ns[0], ns[1]} {
		st.cons.addGE(x)
	}
	st.cons.addGE(c.symbols(prod.sym).sub(n).plus(-1))
}

func (c *prA) assumeWork(st *State, v Val) {
	tp, ok := c.leaf(st, v, c.partT)
	if !ok {
		fail("a piece of work has no beginning")
	}
	k, ok := c.leaf(st, v, c.keyT)
	if sv, ok2 := v.(StructV); ok2 {
		// the key next to the beginning, not one inside it
		u := sv.typ.Underlying().(*types.Struct)
		for i := range sv.fields {
			if types.Identical(u.Field(i).Type(), c.keyT) || types.Identical(u.Field(i).Type(), c.defT) {
				k, ok = c.in.force(st, sv.fields[i]), true
			}
		}
	}
	if !ok {
		fail("a piece of work has nothing to go on with")
	}
	ks := c.keyOf(st, k)
	c.assumePart(st, tp, ks[:2])
	c.knowD(st, ks[0], ks[1], ks[2])
}

func (c *prA) onElem(it *item, o *Obj2, idx Lin, v Val) {
	st := it.st
	id := -1
	for k, x := range st.heap {
		if x == o {
			id = k
		}
	}
	if id < 0 {
		for k := range st.heap {
			if st.heap[k] != nil && st.heap[k].name == o.name && st.heap[k].kind == 'a' && len(st.heap[k].segs) > 0 && len(o.segs) > 0 && o.segs[0].src == k {
				id = k
			}
		}
	}
	if li, ok := c.lists[id]; ok {
		switch li.kind {
		case 'f':
			ks := c.keyOf(st, v)
			st.cons.addEQ(ks[0].sub(li.key[0]))
			st.cons.addEQ(ks[1].sub(li.key[1]))
			c.knowD(st, ks[0], ks[1], ks[2])
		case 'w':
			c.assumePart(st, v, li.key)
		case 'u':
			c.assumeWork(st, c.whole(st, v))
		}
		return
	}
	if ch, ok := c.chains[id]; ok {
		ks := c.keyOf(st, v)
		j := idx.sub(ch.off)
		st.cons.addEQ(ks[0].sub(c.symIdx(st, ch.prod, j)))
		st.cons.addEQ(ks[1].sub(c.cutAt(st, id, j)))
		st.cons.addEQ(ks[2].sub(c.cutAt(st, id, j.plus(1))))
		c.knowD(st, ks[0], ks[1], ks[2])
	}
}

func (c *prA) cutAt(st *State, arr int, j Lin) Lin { return c.same(st, c.cuts, arr, j, "cut") }

// congruent makes places equal whose positions have turned out equal.
func (c *prA) congruent(st *State) {
	for _, tab := range []map[int][]symEntry{c.cuts, c.symAt} {
		for _, es := range tab {
			for i, x := range es {
				for _, y := range es[:i] {
					if st.eq(x.j, y.j) {
						st.cons.addEQ(x.v.sub(y.v))
					}
				}
			}
		}
	}
}

// ---- what has to hold ----

func (c *prA) onGet(it *item, m MapV, k Val, x *ssa.Lookup) ([]res, bool) {
	in := c.in
	kind := c.mapKind(it.st, m)
	mt := x.X.Type().Underlying().(*types.Map)
	switch kind {
	case 'm':
		ks := c.keyOf(it.st, k)
		no := it.fork()
		v := in.unknown(it.st, mt.Elem(), "memo")
		if pv, ok := v.(PtrV); ok {
			in.nonNil(it.st, pv)
		}
		c.knowD(it.st, ks[0], ks[1], ks[2])
		return []res{{it, v}, {no, nil}}, true
	case 'q':
		if isBoolType(mt.Elem()) {
			no := it.fork()
			return []res{{it, in.unknown(it.st, mt.Elem(), "queued")}, {no, nil}}, true
		}
	case 'f', 'w':
		ks := c.nums(it.st, k, 2)
		no := it.fork()
		v := in.unknown(it.st, mt.Elem(), "list").(SliceV)
		c.lists[v.arr] = listInfo{kind, ks[:2]}
		return []res{{it, v}, {no, nil}}, true
	}
	return nil, false
}

func (c *prA) onSet(it *item, m MapV, k, v Val, site ssa.Instruction) {
	if c.in.quiet > 0 && c.mapKind(it.st, m) != 'm' {
		return
	}
	where := c.p.InstrPos(site)
	switch c.mapKind(it.st, m) {
	case 'm':
		ks := c.keyOf(it.st, k)
		if c.in.quiet == 0 {
			c.checkMemo(it, ks, c.whole(it.st, v), where)
		}
		c.knowD(it.st, ks[0], ks[1], ks[2])
	case 'f':
		c.checkList(it, listInfo{'f', c.nums(it.st, k, 2)[:2]}, v, where)
	case 'w':
		c.checkList(it, listInfo{'w', c.nums(it.st, k, 2)[:2]}, v, where)
	}
}

// checkList looks at an arbitrary element of a list.
func (c *prA) checkList(it *item, li listInfo, v Val, where string) {
	in := c.in
	sl, ok := in.force(it.st, v).(SliceV)
	if !ok {
		return
	}
	x := it.fork()
	t := in.symV("t")
	x.st.cons.addGE(t)
	x.st.cons.addGE(sl.ln.sub(t).plus(-1))
	if x.st.cons.infeasible() {
		return
	}
	in.sumRead = false
	for _, r := range in.readElem(x, sl.arr, sl.off.add(t)) {
		if r.it.st.cons.infeasible() {
			continue
		}
		if in.sumRead {
			fail("the elements of the list are not known")
		}
		switch li.kind {
		case 'f':
			ks := c.keyOf(r.it.st, r.v)
			switch {
			case !r.it.st.eq(ks[0], li.key[0]) || !r.it.st.eq(ks[1], li.key[1]):
				c.refuse(r.it.st, where, "something derived is filed under another symbol or place than its own")
			case !c.isD(r.it.st, ks[0], ks[1], ks[2]):
				c.refuse(r.it.st, where, "something is filed as derived that is not in the memo")
			}
		case 'w':
			if why := c.partWhy(r.it, r.v, li.key); why != "" {
				c.refuse(r.it.st, where, "a beginning of a production is filed wrongly: %s", why)
			}
		case 'u':
			c.checkWork(r.it, c.whole(r.it.st, r.v), where)
		}
	}
}

func (c *prA) checkWork(it *item, v Val, where string) {
	st := it.st
	sv, ok := v.(StructV)
	if !ok {
		fail("a piece of work is not a struct")
	}
	u := sv.typ.Underlying().(*types.Struct)
	var tp, k Val
	for i := range sv.fields {
		switch {
		case types.Identical(u.Field(i).Type(), c.partT):
			tp = c.in.force(st, sv.fields[i])
		case types.Identical(u.Field(i).Type(), c.keyT), types.Identical(u.Field(i).Type(), c.defT):
			k = c.in.force(st, sv.fields[i])
		}
	}
	if tp == nil || k == nil {
		fail("a piece of work is not complete")
	}
	ks := c.keyOf(st, k)
	if !c.isD(st, ks[0], ks[1], ks[2]) {
		c.refuse(st, where, "a production is to be continued with something that was not derived")
		return
	}
	if why := c.partWhy(it, tp, ks[:2]); why != "" {
		c.refuse(st, where, "a production is to be continued with something that does not fit: %s", why)
	}
}

// partWhy: why a beginning is not one that m continues, or nothing.
func (c *prA) partWhy(it *item, tp Val, m []Lin) string {
	st := it.st
	ns := c.nums(st, tp, 3)
	pv, _ := c.leaf(st, tp, c.prodT())
	prod, ok := pv.(IfaceV)
	if !ok || prod.dyn != nil {
		return "it has no production"
	}
	of, ok := c.prodOf[prod.sym]
	if !ok {
		fail("where the production comes from is not known")
	}
	c.congruent(st)
	if !st.eq(of, ns[0]) {
		return "the production is not one of the symbol"
	}
	kv, _ := c.leaf(st, tp, types.NewSlice(c.keyT))
	n := linC(0)
	sl, isSl := kv.(SliceV)
	if isSl {
		n = sl.ln
	}
	if !st.lt(n, c.symbols(prod.sym)) {
		return "the production has no further symbol"
	}
	if !st.eq(m[0], c.symIdx(st, prod.sym, n)) {
		return "the symbol is not the next one of the production"
	}
	if !isSl {
		if !st.eq(m[1], ns[1]) {
			return "the first symbol does not begin where the production does"
		}
		return ""
	}
	return c.chainWhy(it, prod.sym, sl, ns[1], m[1])
}

// chainWhy: why the elements of a list are not derivations of the first symbols
// of a production over adjoining stretches from start to end, or nothing.
func (c *prA) chainWhy(it *item, prod int, sl SliceV, start, end Lin) string {
	in := c.in
	why := ""
	// the end
	t, e := in.branch(it.fork(), Form{kind: fEQ, e: sl.ln})
	if t != nil {
		c.congruent(t.st)
		if !t.st.cons.infeasible() && !t.st.eq(start, end) {
			return "it does not begin where the production does"
		}
	}
	if e == nil {
		return ""
	}
	e.st.cons.addGE(sl.ln.plus(-1))
	in.sumRead = false
	for _, r := range in.readElem(e.fork(), sl.arr, sl.off.add(sl.ln).plus(-1)) {
		c.congruent(r.it.st)
		if r.it.st.cons.infeasible() {
			continue
		}
		if in.sumRead {
			fail("the children are not known")
		}
		if !r.it.st.eq(c.keyOf(r.it.st, r.v)[2], end) {
			return "it does not begin where the last child ends"
		}
	}
	// an arbitrary element and the one before it
	j := in.symV("j")
	x := e.fork()
	x.st.cons.addGE(j)
	x.st.cons.addGE(sl.ln.sub(j).plus(-1))
	for _, r := range in.readElem(x, sl.arr, sl.off.add(j)) {
		c.congruent(r.it.st)
		if r.it.st.cons.infeasible() {
			continue
		}
		if in.sumRead {
			fail("the children are not known")
		}
		ks := c.keyOf(r.it.st, r.v)
		if !c.isD(r.it.st, ks[0], ks[1], ks[2]) {
			return "a child was not derived"
		}
		if !r.it.st.eq(ks[0], c.symIdx(r.it.st, prod, j)) {
			return "a child is not of the symbol the production has there"
		}
		z, nz := in.branch(r.it, Form{kind: fEQ, e: j})
		if z != nil {
			c.congruent(z.st)
			if !z.st.cons.infeasible() && !z.st.eq(ks[1], start) {
				return "the first child does not begin where the production does"
			}
		}
		if nz == nil {
			continue
		}
		nz.st.cons.addGE(j.plus(-1))
		for _, b := range in.readElem(nz, sl.arr, sl.off.add(j).plus(-1)) {
			c.congruent(b.it.st)
			if b.it.st.cons.infeasible() {
				continue
			}
			if in.sumRead {
				fail("the children are not known")
			}
			if !b.it.st.eq(c.keyOf(b.it.st, b.v)[2], ks[1]) {
				return "a child does not begin where the one before it ends"
			}
		}
	}
	return why
}

// checkMemo: what is put into the memo was derived.
func (c *prA) checkMemo(it *item, ks []Lin, td Val, where string) {
	st := it.st
	i, s, e := ks[0], ks[1], ks[2]
	kv, ok := c.leaf(st, td, types.NewSlice(c.keyT))
	if !ok {
		fail("the children of a definition are not found")
	}
	c.congruent(st)
	if st.cons.infeasible() {
		return
	}
	sl, isSl := kv.(SliceV)
	if !isSl || st.eq(sl.ln, linC(0)) {
		why := c.terminal(st, i, s, e)
		if why == "" || c.isD(st, i, s, e) {
			return
		}
		for prod, of := range c.prodOf {
			if st.eq(of, i) && st.eq(c.symbols(prod), linC(0)) {
				if st.eq(s, e) {
					return
				}
				why = "an empty production ends elsewhere than it begins"
			}
		}
		c.refuse(st, where, "something is entered as derived that was not: %s", why)
		return
	}
	if w, ok := c.whole1[sl.arr]; ok && st.eq(w[0], i) && st.eq(w[1], s) && st.eq(w[2], e) {
		return
	}
	why := "no production of the symbol is complete"
	for prod, of := range c.prodOf {
		if !st.eq(of, i) || !st.eq(sl.ln, c.symbols(prod)) {
			continue
		}
		if why = c.chainWhy(it, prod, sl, s, e); why == "" {
			return
		}
	}
	c.refuse(st, where, "something is entered as derived that was not: %s", why)
}

// ---- the functions ----

// touches: the function, or one it calls, changes what is kept.
func (c *prA) touches(fn *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		if seen[f] {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.MapUpdate:
					return true
				case *ssa.Store:
					if types.Identical(x.Val.Type(), types.NewPointer(c.workT)) || types.Identical(x.Val.Type(), types.NewSlice(c.workT)) {
						return true
					}
				case ssa.CallInstruction:
					if g := x.Common().StaticCallee(); g != nil && g.Pkg == fn.Pkg && walk(g) {
						return true
					}
				}
			}
		}
		return false
	}
	return walk(fn)
}

// contract applies f to what a function that is taken by itself is handed: a
// beginning with the mark it waits for, pieces of work, things derived.
func (c *prA) contract(st *State, fn *ssa.Function, args []Val, part func(tp Val, m []Lin), work, key, def func(v Val)) {
	var tp Val
	var m []Lin
	for i, a := range fn.Params {
		t := a.Type()
		switch {
		case types.Identical(deref(t), c.partT):
			if tp != nil {
				fail("%s takes several beginnings", shortFn(fn))
			}
			tp = c.whole(st, args[i])
		case types.Identical(deref(t), c.markT):
			if m != nil {
				fail("%s takes several marks", shortFn(fn))
			}
			m = c.nums(st, c.whole(st, args[i]), 2)[:2]
		case types.Identical(deref(t), c.workT):
			work(c.whole(st, args[i]))
		case types.Identical(deref(t), c.keyT):
			if m == nil {
				m = c.nums(st, c.whole(st, args[i]), 2)[:2]
			}
			key(c.whole(st, args[i]))
		case types.Identical(deref(t), c.defT):
			def(c.whole(st, args[i]))
		}
	}
	if tp != nil && m == nil {
		fail("%s takes a beginning without what is to come", shortFn(fn))
	}
	if tp != nil {
		part(tp, m)
	}
}

func (c *prA) require(it *item, fn *ssa.Function, args []Val, site ssa.CallInstruction) {
	where := c.p.InstrPos(site)
	c.contract(it.st, fn, args, func(tp Val, m []Lin) {
		if why := c.partWhy(it.fork(), tp, m); why != "" {
			c.refuse(it.st, where, "%s is called with a wrong beginning of a production: %s", shortFn(fn), why)
		}
	}, func(v Val) {
		c.checkWork(it.fork(), v, where)
	}, func(v Val) {
		ks := c.keyOf(it.st, v)
		if !c.isD(it.st, ks[0], ks[1], ks[2]) {
			c.refuse(it.st, where, "%s is called with something that was not derived", shortFn(fn))
		}
	}, func(v Val) {
		c.checkMemo(it.fork(), c.keyOf(it.st, v), v, where)
	})
}

func (c *prA) assume(st *State, fn *ssa.Function, args []Val) {
	c.contract(st, fn, args, func(tp Val, m []Lin) {
		c.assumePart(st, tp, m)
	}, func(v Val) {
		c.assumeWork(st, v)
	}, func(v Val) {
		ks := c.keyOf(st, v)
		c.knowD(st, ks[0], ks[1], ks[2])
	}, func(v Val) {
		ks := c.keyOf(st, v)
		c.knowD(st, ks[0], ks[1], ks[2])
		if kv, ok := c.leaf(st, v, types.NewSlice(c.keyT)); ok {
			if sl, ok := kv.(SliceV); ok {
				c.whole1[sl.arr] = ks
			}
		}
	})
}

func (c *prA) hook(parse, self *ssa.Function) {
	in := c.in
	stub := in.mon.onCall
	in.mon.onCall = func(it *item, fn *ssa.Function, as []Val, site ssa.CallInstruction) ([]res, bool) {
		if fn.Pkg == parse.Pkg && (fn == self && in.active(self) || fn != self && c.p.selfReaching(fn)) {
			if c.touches(fn) && in.quiet == 0 {
				c.require(it, fn, as, site)
			}
			return []res{{it, in.unknownRes(it.st, fn.Signature, fn.Name())}}, true
		}
		return stub(it, fn, as, site)
	}
	in.mon.recur = func(it *item, fn *ssa.Function, as []Val, site ssa.CallInstruction) ([]res, bool) {
		return in.mon.onCall(it, fn, as, site)
	}
}

func packratC15(p *Prog, r *Report) {
	title := "the packrat parser accepts only what is derived"
	r.count("parsers", 1)
	parse := p.Method(types.NewPointer(p.Named("parser/packrat", "Packrat")), "Parse")
	var fns []*ssa.Function
	for _, f := range p.recursiveFrom(parse) {
		fns = append(fns, f)
	}
	for _, f := range fns {
		f := f
		decide(p, r, title+": "+shortFn(f), 1, func(a *attempt, _ int) {
			c, st := newPr(a, title)
			if !c.touches(f) {
				return // keeps nothing
			}
			in := c.in
			c.hook(parse, f)
			args := in.unknownArgs(st, f)
			for i, x := range f.Params {
				if types.Identical(deref(x.Type()), c.markT) {
					for _, m := range c.nums(st, c.whole(st, args[i]), 2) {
						st.cons.addGE(m)
					}
				}
				if pt, ok := x.Type().(*types.Pointer); ok {
					in.nonNil(st, args[i])
					if n, ok := pt.Elem().(*types.Named); ok && n.Obj().Pkg() == parse.Pkg.Pkg {
						c.fixFields(st, args[i], n)
					}
				}
			}
			c.assume(st, f, args)
			n := 0
			for _, o := range in.exec(f, args, nil, st) {
				if !o.panicked {
					n++
				}
			}
			if n == 0 {
				fail("%s never returns", shortFn(f))
			}
		})
	}
	decide(p, r, title+": "+shortFn(parse), 1, func(a *attempt, _ int) {
		c, st := newPr(a, title)
		in := c.in
		c.hook(parse, nil)
		args := in.unknownArgs(st, parse)
		in.nonNil(st, args[0])
		lexemes := args[1].(SliceV)
		var nts Val
		inv := in.mon.onInvoke
		in.mon.onInvoke = func(it *item, recv IfaceV, m *types.Func, as []Val, site ssa.CallInstruction) ([]res, bool) {
			if m.Name() == "NonTerminals" && recv.dyn == nil {
				nts = in.pureInvoke(it, recv, m, as)
				return []res{{it, nts}}, true
			}
			return inv(it, recv, m, as, site)
		}
		n := 0
		for _, o := range in.exec(parse, args, nil, st) {
			if o.panicked || isNilVal(in, o.st, in.force(o.st, o.ret)) {
				continue
			}
			n++
			where := p.InstrPos(o.site)
			if !c.loaded(o.st, lexemes, where) {
				continue
			}
			sl, ok := nts.(SliceV)
			if !ok {
				fail("the non-terminals are not asked for")
			}
			for _, r := range in.readElem(&item{st: o.st, env: map[ssa.Value]Val{}}, sl.arr, sl.off) {
				e, ok := c.index(r.it.st, r.v)
				if !ok {
					fail("the start symbol is not known")
				}
				if !c.isD(r.it.st, e, linC(0), c.lxs.ln) {
					c.refuse(o.st, where, "a tree can be returned although the memo need not hold the start symbol over the whole input")
				}
			}
		}
		if n == 0 {
			fail("no tree is ever returned")
		}
	})
}

var _ = fmt.Sprint
