package main

// Engine B, part 4: joins.  Two states become one that covers both: places that
// differ get a new symbol, and the linear facts kept are those both sides imply.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type zvar struct {
	z      Sym
	ea, eb Lin
}

type tplJob struct {
	id  int // array in c
	seg int
	a   []Val
	b   []Val
	nil bool
}

type joiner struct {
	in      *Interp
	wm      int // what is stamped at or below this is common to both sides
	a, b, c *State
	ints    map[string]Lin
	zs      []zvar
	zOf     map[string]Sym // a's expression -> z, to see splits
	objs    map[[2]int]int
	objOf   map[int]int
	work    []func()
	vals    map[string]Val
	valOf   map[string]bool
	changed string
	jobs    []tplJob
	onlyA   bool
	kept    map[int]bool // objects that are the same on both sides
	split   bool
	deep    int // how far inside a pair of different unknown objects
}

// tooDeep: unknown objects are joined field by field only so far.
func (j *joiner) tooDeep(a, b int) bool {
	if a == b || j.deep < 2 {
		return false
	}
	if _, ok := j.objs[[2]int{a, b}]; ok {
		return false
	}
	oa, ob := j.side(j.a, a), j.side(j.b, b)
	return oa != nil && ob != nil && oa.lazy && ob.lazy
}

func (j *joiner) change(format string, args ...interface{}) {
	if j.changed == "" {
		j.changed = fmt.Sprintf(format, args...)
	}
}

func (j *joiner) baseLin(e Lin) bool { return j.in.linStamp(e) <= j.wm }

func isSym(e Lin) bool { return e.c == 0 && len(e.t) == 1 && e.t[0].k == 1 }

// int joins two integers.
func (j *joiner) int(ea, eb Lin) Lin {
	na, nb := j.a.cons.norm(ea), j.b.cons.norm(eb)
	if ea.eq(eb) && j.baseLin(ea) {
		return ea
	}
	ka := na.key()
	if isSym(ea) && !j.baseLin(ea) {
		ka = ea.key()
	}
	k := ka + "|" + nb.key()
	if r, ok := j.ints[k]; ok {
		return r
	}
	if j.baseLin(na) && j.b.eq(na, eb) {
		j.ints[k] = na
		return na
	}
	if j.baseLin(nb) && j.a.eq(ea, nb) {
		j.ints[k] = nb
		if !j.baseLin(ea) {
			j.change("int %s is now fixed", j.in.showLin(j.a, ea))
		}
		return nb
	}
	z := j.in.sym("z")
	if j.in.vague(j.a, ea) || j.in.vague(j.b, eb) {
		j.in.vagueSym[z] = true
	}
	j.zs = append(j.zs, zvar{z, ea, eb})
	if !isSym(ea) || j.baseLin(ea) {
		j.change("int %s / %s", j.in.showLin(j.a, ea), j.in.showLin(j.b, eb))
		j.split = true
	} else if _, dup := j.zOf[ka]; dup {
		j.change("int %s splits", j.in.showLin(j.a, ea))
		j.split = true
	}
	j.zOf[ka] = z
	r := linS(z)
	j.ints[k] = r
	return r
}

func refKey(v Val) string {
	switch x := v.(type) {
	case PtrV:
		if x.idx == nil && x.path == "" {
			return fmt.Sprintf("o%d", x.obj)
		}
	case SliceV:
		return fmt.Sprintf("o%d", x.arr)
	case MapV:
		return fmt.Sprintf("o%d", x.obj)
	case IfaceV:
		if x.dyn == nil {
			return fmt.Sprintf("i%d", x.sym)
		}
	case FuncV:
		if x.fn == nil {
			return fmt.Sprintf("f%d", x.sym)
		}
	case StrV:
		if x.konst == nil {
			return fmt.Sprintf("s%d", x.id)
		}
	case BoolV:
		if x.f.kind == fOpaque && !x.f.neg {
			return "b" + x.f.id
		}
	}
	return ""
}

// hole is a new unknown standing for either value.
func (j *joiner) hole(va, vb Val, t types.Type) Val {
	ca, cb := j.in.canon(j.a, va), j.in.canon(j.b, vb)
	k := ca + "|" + cb
	if r, ok := j.vals[k]; ok {
		return r
	}
	v := j.in.unknown(j.c, t, "j")
	j.vals[k] = v
	j.rename(va, vb, v)
	ra := refKey(va)
	if ra == "" || !j.in.holes[ra] {
		j.change("value %s / %s", j.in.show(j.a, va), j.in.show(j.b, vb))
	} else if j.valOf[ra] {
		j.change("value %s splits", j.in.show(j.a, va))
	}
	j.valOf[ra] = true
	if rk := refKey(v); rk != "" {
		j.in.holes[rk] = true
	}
	if r := refOf(v); r != 0 {
		ta, tb := j.a.truth(j.in.nilForm(j.a, va)), j.b.truth(j.in.nilForm(j.b, vb))
		if ta != 0 && ta == tb {
			j.c.nils[r] = ta > 0
		} else if ta != 0 {
			j.change("nilness of %s", j.in.show(j.a, va))
		}
	}
	if s, ok := v.(StrV); ok {
		if x, ok := va.(StrV); ok {
			if y, ok := vb.(StrV); ok {
				s.ln = j.int(x.ln, y.ln)
				j.vals[k] = s
				return s
			}
		}
	}
	return v
}

// rename keeps what is known of where a boolean or string came from.
func (j *joiner) rename(va, vb, v Val) {
	name := func(v Val) (string, string) {
		id := ""
		switch x := v.(type) {
		case BoolV:
			if x.f.kind == fOpaque && !x.f.neg {
				id = x.f.id
			}
		case StrV:
			id = fmt.Sprintf("s%d", x.id)
		}
		n := j.in.lzName[id]
		if i := strings.LastIndex(n, "."); i >= 0 {
			return id, n[i:]
		}
		return id, ""
	}
	id, _ := name(v)
	if id == "" {
		return
	}
	_, na := name(va)
	_, nb := name(vb)
	_, isB := v.(BoolV)
	switch {
	case na == nb:
		j.in.lzName[id] = "j" + na
		if na == "" {
			delete(j.in.lzName, id)
		}
	case isB:
		j.in.lzName[id] = "j.mixed"
	default:
		delete(j.in.lzName, id)
	}
}

func (j *joiner) val(va, vb Val, t types.Type) Val {
	la, okA := va.(LazyV)
	lb, okB := vb.(LazyV)
	if okA && okB && la.id == lb.id {
		return va
	}
	if okA {
		va = j.in.mat(j.a, la)
	}
	if okB {
		vb = j.in.mat(j.b, lb)
	}
	switch x := va.(type) {
	case nil:
		return nil
	case IntV:
		if y, ok := vb.(IntV); ok {
			return IntV{j.int(x.e, y.e)}
		}
	case BoolV:
		y, ok := vb.(BoolV)
		if !ok {
			break
		}
		ta, tb := j.a.truth(x.f), j.b.truth(y.f)
		if ta != 0 && ta == tb {
			return BoolV{constForm(ta > 0)}
		}
		if x.f.kind == fOpaque && y.f.kind == fOpaque && x.f.id == y.f.id && x.f.neg == y.f.neg {
			return va
		}
		num := func(f Form) bool { return f.kind == fGE || f.kind == fEQ }
		if j.in.mon.plainKey && num(x.f) && x.f.kind == y.f.kind && x.f.neg == y.f.neg {
			return BoolV{Form{kind: x.f.kind, e: j.int(x.f.e, y.f.e), neg: x.f.neg}}
		}
		if num(x.f) || num(y.f) {
			j.in.lostBool = true
		}
		return j.hole(va, vb, t)
	case StrV:
		y, ok := vb.(StrV)
		if !ok {
			break
		}
		if strKey(x) == strKey(y) && (x.text == nil || j.baseLin(x.text.lo) && j.baseLin(x.text.hi)) {
			if x.konst == nil {
				x.ln = j.int(x.ln, y.ln)
			}
			return x
		}
		// the empty string is an empty stretch, anywhere
		if x.konst != nil && *x.konst == "" && y.text != nil {
			if e := j.b.cons.norm(y.text.lo); j.baseLin(e) {
				x = StrV{id: x.id, ln: linC(0), text: &textRef{y.text.t, e, e}}
				y.text = &textRef{y.text.t, e, y.text.hi}
			}
		} else if y.konst != nil && *y.konst == "" && x.text != nil {
			if e := j.a.cons.norm(x.text.lo); j.baseLin(e) {
				y = StrV{id: y.id, ln: linC(0), text: &textRef{x.text.t, e, e}}
				x.text = &textRef{x.text.t, e, x.text.hi}
			}
		}
		if x.text != nil && y.text != nil && x.text.t == y.text.t {
			lo, hi := j.int(x.text.lo, y.text.lo), j.int(x.text.hi, y.text.hi)
			return StrV{id: j.in.id(), ln: hi.sub(lo), text: &textRef{x.text.t, lo, hi}}
		}
		return j.hole(va, vb, t)
	case NilV:
		if _, ok := vb.(NilV); ok {
			return va
		}
		if f := j.in.nilForm(j.b, vb); j.b.truth(f) > 0 {
			return va
		}
		return j.hole(va, vb, t)
	case TopV:
		if y, ok := vb.(TopV); ok && y == x {
			return x
		}
		return TopV{j.in.id()}
	case PtrV:
		y, ok := vb.(PtrV)
		if !ok || x.path != y.path || (x.idx == nil) != (y.idx == nil) {
			return j.hole(va, vb, t)
		}
		oa, ob := j.a.heap[x.obj], j.b.heap[y.obj]
		if x.obj != y.obj && x.idx == nil && x.path == "" && j.in.holes[refKey(va)] && !j.in.holes[refKey(vb)] {
			return j.hole(va, vb, t) // it was given up before
		}
		if j.in.mon.plainKey && x.obj != y.obj && x.idx == nil && x.path == "" && oa != nil && ob != nil && oa.lazy && ob.lazy && !oa.dirty && !ob.dirty {
			if r, ok := j.elemPair(x.obj, y.obj); ok {
				return r
			}
			return j.hole(va, vb, t)
		}
		if oa == nil || ob == nil || oa.kind != ob.kind || !types.Identical(oa.typ, ob.typ) || j.tooDeep(x.obj, y.obj) {
			return j.hole(va, vb, t)
		}
		r := PtrV{obj: j.obj(x.obj, y.obj), path: x.path}
		if x.idx != nil {
			e := j.int(*x.idx, *y.idx)
			r.idx = &e
		}
		return r
	case SliceV:
		y, ok := vb.(SliceV)
		if !ok || j.tooDeep(x.arr, y.arr) {
			return j.hole(va, vb, t)
		}
		if j.in.mon.plainKey && x.arr != y.arr {
			oa, ob := j.side(j.a, x.arr), j.side(j.b, y.arr)
			if oa != nil && ob != nil && oa.lazy && ob.lazy && !oa.dirty && !ob.dirty {
				return j.hole(va, vb, t)
			}
		}
		return SliceV{arr: j.obj(x.arr, y.arr), off: j.int(x.off, y.off), ln: j.int(x.ln, y.ln), cp: j.int(x.cp, y.cp)}
	case MapV:
		y, ok := vb.(MapV)
		if !ok || j.tooDeep(x.obj, y.obj) {
			return j.hole(va, vb, t)
		}
		return MapV{j.obj(x.obj, y.obj)}
	case IfaceV:
		y, ok := vb.(IfaceV)
		if !ok {
			return j.hole(va, vb, t)
		}
		if x.dyn != nil && y.dyn != nil && types.Identical(x.dyn, y.dyn) {
			return IfaceV{dyn: x.dyn, v: j.val(x.v, y.v, x.dyn), sym: x.sym, st: x.st}
		}
		if x.dyn == nil && y.dyn == nil {
			if x.sym == y.sym {
				return x
			}
			if r, ok := j.elemPair(x.sym, y.sym); ok {
				return r
			}
		}
		return j.hole(va, vb, t)
	case FuncV:
		y, ok := vb.(FuncV)
		if !ok {
			return j.hole(va, vb, t)
		}
		if x.fn != nil && x.fn == y.fn {
			r := FuncV{fn: x.fn}
			for i := range x.binds {
				r.binds = append(r.binds, j.val(x.binds[i], y.binds[i], x.fn.FreeVars[i].Type()))
			}
			return r
		}
		if x.fn == nil && y.fn == nil {
			if x.sym == y.sym {
				return x
			}
			if r, ok := j.elemPair(x.sym, y.sym); ok {
				return r
			}
		}
		return j.hole(va, vb, t)
	case StructV:
		y, ok := vb.(StructV)
		if !ok {
			break
		}
		u := x.typ.Underlying().(*types.Struct)
		r := StructV{typ: x.typ}
		for i := range x.fields {
			r.fields = append(r.fields, j.val(x.fields[i], y.fields[i], u.Field(i).Type()))
		}
		return r
	case TupleV:
		y, ok := vb.(TupleV)
		tt, ok2 := t.(*types.Tuple)
		if !ok || !ok2 || len(x.vs) != len(y.vs) {
			break
		}
		var r TupleV
		for i := range x.vs {
			r.vs = append(r.vs, j.val(x.vs[i], y.vs[i], tt.At(i).Type()))
		}
		return r
	case IterV:
		if y, ok := vb.(IterV); ok && x.id == y.id {
			return IterV{over: j.val(x.over, y.over, nil), id: x.id}
		}
	}
	if t == nil {
		fail("cannot join %T and %T", va, vb)
	}
	if tt, ok := t.(*types.Tuple); ok {
		var r TupleV
		for i := 0; i < tt.Len(); i++ {
			r.vs = append(r.vs, TopV{j.in.id()})
		}
		return r
	}
	return j.hole(va, vb, t)
}

// elemPair: both are elements of the initial content of one array.
func (j *joiner) elemPair(sa, sb int) (Val, bool) {
	oa, ok1 := j.in.origin[sa]
	ob, ok2 := j.in.origin[sb]
	if !ok1 || !ok2 || oa.src != ob.src || j.in.idStamp[oa.src] > j.wm || oa.epoch != ob.epoch {
		return nil, false
	}
	k := fmt.Sprintf("e%d|%d", sa, sb)
	if r, ok := j.vals[k]; ok {
		return r, true
	}
	e := j.int(oa.idx, ob.idx)
	so := j.objBoth(oa.src)
	v := j.in.mat(j.c, j.in.elemLazy(oa.src, oa.epoch, e, so.typ, so.name))
	s := refOf(v)
	j.in.origin[s] = origin{oa.src, e, oa.epoch}
	j.work = append(j.work, func() {
		o := j.c.mut(oa.src)
		if o.elems == nil {
			o.elems = map[string]origElem{}
		}
		o.elems[e.key()] = origElem{e, v}
	})
	na, okA := j.a.nils[sa]
	nb, okB := j.b.nils[sb]
	if okA && okB && na == nb {
		j.c.nils[s] = na
	} else if okA {
		j.change("nilness of an element")
	}
	for id, va := range j.a.bools {
		pre := fmt.Sprintf("ta:%d:", sa)
		if len(id) > len(pre) && id[:len(pre)] == pre {
			if vb, ok := j.b.bools[fmt.Sprintf("ta:%d:%s", sb, id[len(pre):])]; ok && vb == va {
				j.c.bools[fmt.Sprintf("ta:%d:%s", s, id[len(pre):])] = va
			} else {
				j.change("type of an element")
			}
		}
	}
	j.vals[k] = v
	return v, true
}

func (j *joiner) objBoth(id int) *Obj2 {
	if o := j.a.heap[id]; o != nil {
		return o
	}
	if o := j.b.heap[id]; o != nil {
		return o
	}
	if o := j.in.objInit[id]; o != nil {
		return o
	}
	fail("object %d is nowhere", id)
	return nil
}

func (j *joiner) side(s *State, id int) *Obj2 {
	if o := s.heap[id]; o != nil {
		return o
	}
	if o := j.in.objInit[id]; o != nil {
		s.heap[id] = o
		return o
	}
	return nil
}

// obj joins two objects and gives the number of the result.
func (j *joiner) obj(a, b int) int {
	k := [2]int{a, b}
	if r, ok := j.objs[k]; ok {
		return r
	}
	oa, ob := j.side(j.a, a), j.side(j.b, b)
	if oa == nil || ob == nil {
		fail("join of a missing object")
	}
	id := a
	if a != b {
		id = j.in.id()
		if j.in.idStamp[a] <= j.wm {
			j.change("object %d / %d", a, b)
		} else if _, dup := j.objOf[a]; dup {
			j.change("object %d splits", a)
		}
	}
	j.objOf[a] = id
	j.objs[k] = id
	n := &Obj2{typ: oa.typ, kind: oa.kind, lazy: oa.lazy || ob.lazy, fresh: oa.fresh && ob.fresh, name: oa.name, dirty: oa.dirty || ob.dirty, epoch: oa.epoch}
	if oa.kind != ob.kind {
		fail("join of different objects")
	}
	j.c.heap[id] = n
	j.c.owned[id] = true
	if na, ok := j.a.nils[a]; ok {
		if nb, ok := j.b.nils[b]; ok && na == nb {
			j.c.nils[id] = na
		} else if j.in.idStamp[a] > j.wm {
			j.change("nilness of object %d", a)
		}
	}
	if oa.dirty != ob.dirty && !oa.dirty {
		j.change("object %d is written", a)
	}
	deep := 0
	if a != b && oa.lazy && ob.lazy {
		deep = j.deep + 1
	}
	j.work = append(j.work, func() {
		if j.kept[id] {
			return // it stays as it is
		}
		j.deep = deep
		j.content(id, n, oa, ob, a, b)
		j.deep = 0
	})
	return id
}

func (j *joiner) content(id int, n, oa, ob *Obj2, aid, bid int) {
	if oa.tag == ob.tag {
		n.tag = oa.tag
	} else if oa.tag != "" {
		j.change("tag of an array")
	}
	if oa.text != nil && ob.text != nil && oa.text.t == ob.text.t {
		n.text = &textRef{oa.text.t, j.int(oa.text.lo, ob.text.lo), j.int(oa.text.hi, ob.text.hi)}
	}
	if oa.span != nil && ob.span != nil && oa.span.t == ob.span.t {
		n.span = &textRef{oa.span.t, j.int(oa.span.lo, ob.span.lo), j.int(oa.span.hi, ob.span.hi)}
	} else if oa.span != nil {
		j.change("span of a match")
	}
	if oa.gidx != nil && ob.gidx != nil {
		g := j.int(*oa.gidx, *ob.gidx)
		n.gidx = &g
	}
	switch oa.kind {
	case 'o':
		n.val = j.val(oa.val, ob.val, oa.typ)
	case 'a':
		n.n = j.int(oa.n, ob.n)
		if oa.epoch != ob.epoch {
			n.epoch = j.in.id()
			if !j.in.holes[fmt.Sprintf("ep%d", oa.epoch)] {
				j.change("written elements")
			}
			j.in.holes[fmt.Sprintf("ep%d", n.epoch)] = true
		}
		j.segs(id, n, oa, ob)
		j.elems(n, oa, ob, aid, bid)
	case 'm':
		j.maps(n, oa, ob)
	}
}

// elems keeps the elements looked at whose index is fixed.
func (j *joiner) elems(n, oa, ob *Obj2, aid, bid int) {
	if n.tag == "match" {
		if !j.in.merging {
			return
		}
		// groups read on both sides
		var keys []string
		for k := range oa.elems {
			if _, ok := ob.elems[k]; ok {
				keys = append(keys, k)
			}
		}
		sort.Strings(keys)
		for _, k := range keys {
			pair := linC(oa.elems[k].idx.c)
			for _, t := range oa.elems[k].idx.t {
				pair = pair.addScaled(j.int(linS(t.s), linS(t.s)), t.k)
			}
			if n.elems == nil {
				n.elems = map[string]origElem{}
			}
			va, vb := oa.elems[k].v.(TupleV), ob.elems[k].v.(TupleV)
			n.elems[pair.key()] = origElem{pair, TupleV{[]Val{j.val(va.vs[0], vb.vs[0], types.Typ[types.Int]), j.val(va.vs[1], vb.vs[1], types.Typ[types.Int])}}}
		}
		return
	}
	var keys []string
	for k := range oa.elems {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		ea := oa.elems[k]
		eb, ok := ob.elems[k]
		if !j.baseLin(ea.idx) || aid != bid {
			if dirtyReach(j.a, ea.v) {
				j.bump(n, oa)
			}
			continue
		}
		if !ok {
			// not looked at on the other side: it is the initial element there
			if l, lok := j.in.elemLz[elemKey(aid, oa.epoch, ea.idx)]; lok && aid == bid && ob.epoch == oa.epoch {
				eb = origElem{ea.idx, l}
			} else {
				continue
			}
		}
		if n.elems == nil {
			n.elems = map[string]origElem{}
		}
		n.elems[k] = origElem{ea.idx, j.val(ea.v, eb.v, oa.typ)}
	}
	keys = keys[:0]
	for k := range ob.elems {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		eb := ob.elems[k]
		if _, ok := n.elems[k]; ok {
			continue
		}
		if !dirtyReach(j.b, eb.v) {
			continue
		}
		if j.baseLin(eb.idx) {
			if l, lok := j.in.elemLz[elemKey(bid, ob.epoch, eb.idx)]; lok && aid == bid && ob.epoch == oa.epoch {
				if n.elems == nil {
					n.elems = map[string]origElem{}
				}
				n.elems[k] = origElem{eb.idx, j.val(l, eb.v, oa.typ)}
				continue
			}
		}
		j.bump(n, oa)
	}
}

func (j *joiner) bump(n, oa *Obj2) {
	if j.in.holes[fmt.Sprintf("ep%d", n.epoch)] {
		return
	}
	if oa.epoch != 0 && j.in.holes[fmt.Sprintf("ep%d", oa.epoch)] {
		n.epoch = oa.epoch
		return
	}
	n.epoch = j.in.id()
	j.in.holes[fmt.Sprintf("ep%d", n.epoch)] = true
	j.change("written elements")
}

func dirtyReach(st *State, v Val) bool {
	seen := map[int]bool{}
	var walk func(v Val) bool
	obj := func(id int) bool {
		o := st.heap[id]
		if o == nil || seen[id] {
			return false
		}
		seen[id] = true
		if o.dirty {
			return true
		}
		if walk(o.val) {
			return true
		}
		for _, s := range o.segs {
			if walk(s.v) {
				return true
			}
		}
		for _, e := range o.elems {
			if walk(e.v) {
				return true
			}
		}
		for _, e := range o.ks {
			if walk(e.v) {
				return true
			}
		}
		return false
	}
	walk = func(v Val) bool {
		switch x := v.(type) {
		case PtrV:
			return obj(x.obj)
		case SliceV:
			return obj(x.arr)
		case MapV:
			return obj(x.obj)
		case IfaceV:
			if x.dyn != nil {
				return walk(x.v)
			}
			if d, ok := st.dyns[x.sym]; ok {
				return walk(d.v)
			}
		case StructV:
			for _, f := range x.fields {
				if walk(f) {
					return true
				}
			}
		}
		return false
	}
	return walk(v)
}

func (j *joiner) maps(n, oa, ob *Obj2) {
	n.info = oa.info
	redo := false
	if oa.info != ob.info {
		redo = true
	}
	for _, ea := range oa.ks {
		found := false
		if j.in.stampOf(ea.k) <= j.wm {
			ca := j.in.canon(j.a, ea.k)
			for _, eb := range ob.ks {
				if j.in.canon(j.b, eb.k) != ca {
					continue
				}
				found = true
				ok := ea.ok
				if ta, tb := j.a.truth(ea.ok), j.b.truth(eb.ok); ta != 0 && ta == tb {
					ok = constForm(ta > 0)
				} else if ea.ok.kind != fOpaque || eb.ok.kind != fOpaque || ea.ok.id != eb.ok.id {
					ok = Form{kind: fOpaque, id: fmt.Sprintf("jk%d", j.in.id())}
					if ea.ok.kind == fConst {
						j.change("map entry")
					}
				}
				n.ks = append(n.ks, mapEntry{k: ea.k, v: j.val(ea.v, eb.v, oa.typ.Underlying().(*types.Map).Elem()), ok: ok, set: ea.set || eb.set})
			}
		}
		if !found && ea.set {
			redo = true
		}
	}
	for _, eb := range ob.ks {
		if !eb.set {
			continue
		}
		cb := j.in.canon(j.b, eb.k)
		found := false
		if j.in.stampOf(eb.k) <= j.wm {
			for _, ea := range oa.ks {
				if j.in.canon(j.a, ea.k) == cb {
					found = true
				}
			}
		}
		if !found {
			redo = true
		}
	}
	if redo {
		n.lazy = true
		if i, ok := oa.info.(int); !ok || !j.in.holes[fmt.Sprintf("mi%d", i)] {
			j.change("map contents")
		}
		i := j.in.id()
		n.info = i
		j.in.holes[fmt.Sprintf("mi%d", i)] = true
	}
}

func (j *joiner) liveSegs(st *State, segs []Seg) []Seg {
	var out []Seg
	for _, s := range segs {
		if s.kind != sgGroups && st.le(s.hi, s.lo) {
			continue
		}
		if s.kind == sgSum && len(out) > 0 && out[len(out)-1].kind == sgSum {
			p := &out[len(out)-1]
			p.hi = s.hi
			if p.alts == nil || s.alts == nil {
				p.alts = nil
			} else {
				for _, a := range s.alts {
					p.alts = j.in.addAlt(st, p.alts, a)
				}
			}
			continue
		}
		out = append(out, s)
	}
	return out
}

func (j *joiner) sameSeg(sa, sb Seg) bool {
	if j.in.mon.tplSym != nil && sa.kind == sgVal && sb.kind == sgVal {
		// a match and nothing: kept apart in a summary
		va, vb := j.in.force(j.a, sa.v), j.in.force(j.b, sb.v)
		_, na := va.(NilV)
		_, nb := vb.(NilV)
		_, ma := va.(SliceV)
		_, mb := vb.(SliceV)
		if na && mb || nb && ma {
			return false
		}
	}
	if sa.kind != sb.kind {
		return false
	}
	return sa.kind != sgOrig || sa.src == sb.src
}

func (j *joiner) fixed(ea, eb Lin) bool {
	na := j.a.cons.norm(ea)
	if j.baseLin(na) && j.b.eq(na, eb) {
		return true
	}
	nb := j.b.cons.norm(eb)
	return j.baseLin(nb) && j.a.eq(nb, ea)
}

// source keeps the array whose initial content is referred to.
func (j *joiner) source(src int) {
	if j.side(j.a, src) == nil {
		j.a.heap[src] = j.b.heap[src]
	}
	if j.side(j.b, src) == nil {
		j.b.heap[src] = j.a.heap[src]
	}
	j.obj(src, src)
}

func (j *joiner) seg(id int, n *Obj2, sa, sb Seg, lo, hi Lin) {
	r := Seg{lo: lo, hi: hi, kind: sa.kind, src: sa.src}
	switch sa.kind {
	case sgOrig:
		r.delta = j.int(sa.delta, sb.delta)
		j.source(sa.src)
	case sgVal:
		r.v = j.val(sa.v, sb.v, n.typ)
	case sgSum:
		if sa.alts == nil || sb.alts == nil {
			r.alts = nil
			if sa.alts != nil {
				j.change("summary forgotten")
			}
		} else {
			j.jobs = append(j.jobs, tplJob{id: id, seg: len(n.segs), a: sa.alts, b: sb.alts})
		}
	}
	n.segs = append(n.segs, r)
}

func (j *joiner) segs(id int, n, oa, ob *Obj2) {
	if j.in.mon.skolem != nil {
		ka, kb := j.in.mon.skolem(j.a, oa), j.in.mon.skolem(j.b, ob)
		if (oa.dirty || ob.dirty) && len(ka) == 1 && len(kb) == 1 && ka[0].eq(kb[0]) && j.baseLin(ka[0]) {
			k := ka[0]
			pa, va, qa, okA := j.cut(j.a, oa, k)
			pb, vb, qb, okB := j.cut(j.b, ob, k)
			if okA && okB {
				j.span(id, n, oa, ob, pa, pb, linC(0), k)
				n.segs = append(n.segs, Seg{lo: k, hi: k.plus(1), kind: sgVal, v: j.val(va, vb, n.typ)})
				j.span(id, n, oa, ob, qa, qb, k.plus(1), n.n)
				return
			}
		}
	}
	j.span(id, n, oa, ob, oa.segs, ob.segs, linC(0), n.n)
}

// cut takes the parts before, at and after a position apart; it is only done
// once something was written.
func (j *joiner) cut(st *State, o *Obj2, k Lin) (pre []Seg, v Val, post []Seg, ok bool) {
	k1 := k.plus(1)
	for _, s := range o.segs {
		switch {
		case st.le(s.hi, s.lo):
		case st.le(s.hi, k):
			pre = append(pre, s)
		case st.le(k1, s.lo):
			post = append(post, s)
		case st.le(s.lo, k) && st.le(k1, s.hi) && !ok:
			switch s.kind {
			case sgVal:
				v = s.v
			case sgZero:
				v = j.in.zero(o.typ)
			default:
				return nil, nil, nil, false
			}
			ok = true
			l, r := s, s
			l.hi, r.lo = k, k1
			if s.kind != sgVal {
				pre, post = append(pre, l), append(post, r)
			}
		default:
			return nil, nil, nil, false
		}
	}
	return
}

// span joins the parts of a stretch [start, end) of two arrays.
func (j *joiner) span(id int, n, oa, ob *Obj2, sas, sbs []Seg, start, end Lin) {
	first := len(n.segs)
	as, bs := j.liveSegs(j.a, sas), j.liveSegs(j.b, sbs)
	// the same parts on both sides, whether or not some are known to be empty
	raw := len(sas) == len(sbs)
	for i := 0; raw && i < len(sas); i++ {
		x, y := sas[i], sbs[i]
		raw = j.sameSeg(x, y) && j.fixed(x.lo, y.lo) && j.fixed(x.hi, y.hi) && (x.kind != sgOrig || j.fixed(x.delta, y.delta))
	}
	if raw {
		as, bs = sas, sbs
	}
	same := len(as) == len(bs)
	if same {
		for i := range as {
			if !j.sameSeg(as[i], bs[i]) {
				same = false
			}
		}
	}
	if same {
		for i := range as {
			j.seg(id, n, as[i], bs[i], j.int(as[i].lo, bs[i].lo), j.int(as[i].hi, bs[i].hi))
		}
		return
	}
	p := 0
	for p < len(as) && p < len(bs) && j.sameSeg(as[p], bs[p]) && j.fixed(as[p].lo, bs[p].lo) && j.fixed(as[p].hi, bs[p].hi) {
		j.seg(id, n, as[p], bs[p], j.int(as[p].lo, bs[p].lo), j.int(as[p].hi, bs[p].hi))
		p++
	}
	q := 0
	for p+q < len(as) && p+q < len(bs) {
		sa, sb := as[len(as)-1-q], bs[len(bs)-1-q]
		if !j.sameSeg(sa, sb) || sa.kind != sgZero && sa.kind != sgOrig {
			break
		}
		if sa.kind == sgOrig && !j.fixed(sa.delta, sb.delta) {
			break
		}
		q++
	}
	if p > 0 {
		start = n.segs[first+p-1].hi
	}
	if q > 0 {
		end = j.int(as[len(as)-q].lo, bs[len(bs)-q].lo)
	}
	collect := func(st *State, segs []Seg, typ types.Type) []Val {
		alts := []Val{}
		for _, s := range segs {
			switch s.kind {
			case sgSum:
				if s.alts == nil {
					return nil
				}
				for _, a := range s.alts {
					alts = j.in.addAlt(st, alts, a)
				}
			case sgVal:
				as, ok := j.in.absorbAll(st, typ, s.v)
				if !ok {
					return nil
				}
				for _, a := range as {
					alts = j.in.addAlt(st, alts, a)
				}
			case sgOrig:
				if j.in.mon.absorb != nil {
					if as, ok := j.in.mon.absorb(st, nil, s.src); ok {
						for _, a := range as {
							alts = j.in.addAlt(st, alts, a)
						}
						break
					}
				}
				j.source(s.src)
				alts = j.in.addAlt(st, alts, AnyOf{s.src})
			case sgZero:
				a, ok := j.in.absorb(st, typ, j.in.zero(typ))
				if !ok {
					return nil
				}
				alts = j.in.addAlt(st, alts, a)
			default:
				return nil
			}
			if alts == nil {
				return nil
			}
		}
		return alts
	}
	ma, mb := as[p:len(as)-q], bs[p:len(bs)-q]
	if len(ma) != 1 || ma[0].kind != sgSum {
		j.change("array content")
	}
	aa, ab := collect(j.a, ma, oa.typ), collect(j.b, mb, ob.typ)
	mid := Seg{lo: start, hi: end, kind: sgSum}
	if aa == nil || ab == nil {
		if len(ma) != 1 || ma[0].alts != nil {
			j.change("array content unknown")
		}
	} else {
		j.jobs = append(j.jobs, tplJob{id: id, seg: len(n.segs), a: aa, b: ab})
	}
	n.segs = append(n.segs, mid)
	for i := q; i > 0; i-- {
		sa, sb := as[len(as)-i], bs[len(bs)-i]
		lo := j.int(sa.lo, sb.lo)
		j.seg(id, n, sa, sb, lo, j.int(sa.hi, sb.hi))
	}
}

// ---- summaries ----

func intArr(o *Obj2) bool {
	b, ok := o.typ.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (in *Interp) absorbAll(st *State, typ types.Type, v Val) ([]Val, bool) {
	if in.mon.absorb != nil {
		if as, ok := in.mon.absorb(st, in.force(st, v), 0); ok {
			return as, true
		}
	}
	a, ok := in.absorb(st, typ, v)
	return []Val{a}, ok
}

// absorb turns an element into the form kept in a summary.
func (in *Interp) absorb(st *State, typ types.Type, v Val) (Val, bool) {
	v = in.force(st, v)
	switch x := v.(type) {
	case NilV:
		return v, true
	case SliceV:
		if n, ok := st.nils[x.arr]; ok && n {
			return NilV{}, true
		}
		o := st.heap[x.arr]
		if o == nil || !intArr(o) || !st.eq(x.off, linC(0)) || st.nils[x.arr] {
			return nil, false
		}
		if _, known := st.nils[x.arr]; !known {
			return nil, false
		}
		t := TemplV{typ: o.typ, tag: o.tag, text: o.text}
		m := map[string]Sym{}
		local := func(e Lin) Lin {
			e = st.cons.norm(e)
			if e.isConst() {
				return e
			}
			k := e.key()
			s, ok := m[k]
			if !ok {
				s = in.sym("t")
				m[k] = s
				t.syms = append(t.syms, s)
				d := linS(s).sub(e)
				t.cons = append(t.cons, d, d.neg())
			}
			return linS(s)
		}
		ended := false           // the last segment ends where the array does
		own := func(e Lin) Lin { // a symbol of its own, so that summaries of different elements have one form
			z := in.sym("t")
			t.syms = append(t.syms, z)
			d := linS(z).sub(e)
			t.cons = append(t.cons, d, d.neg())
			return linS(z)
		}
		if o.span != nil {
			t.span = &textRef{o.span.t, own(o.span.lo), own(o.span.hi)}
		}
		for _, s := range o.segs {
			if s.kind != sgGroups && st.le(s.hi, s.lo) {
				continue
			}
			n := Seg{lo: local(s.lo), kind: s.kind}
			if s.kind == sgVal {
				n.hi = n.lo.plus(1)
			} else {
				n.hi = local(s.hi)
			}
			if st.eq(s.hi, x.ln) {
				t.n, ended = n.hi, true
			}
			switch s.kind {
			case sgVal:
				iv, ok := in.force(st, s.v).(IntV)
				if !ok {
					return nil, false
				}
				n.v = IntV{own(iv.e)}
			case sgGroups:
			case sgSum:
			default:
				return nil, false
			}
			t.segs = append(t.segs, n)
		}
		if !ended {
			t.n = local(x.ln)
		}
		return t, true
	case IfaceV:
		if x.dyn == nil {
			if o, ok := in.origin[x.sym]; ok && o.epoch == 0 {
				return AnyOf{o.src}, true
			}
		}
	case StrV:
		if x.konst != nil {
			return v, true
		}
	case BoolV:
		if x.f.kind == fConst {
			return v, true
		}
	}
	return nil, false
}

func shapeOf(v Val) string {
	switch x := v.(type) {
	case NilV:
		return "nil"
	case AnyOf:
		return fmt.Sprintf("any%d", x.src)
	case TemplV:
		k := "t" + x.tag
		if x.span != nil {
			k += fmt.Sprintf("<%d>", x.span.t)
		}
		groups := false
		for _, s := range x.segs {
			k += fmt.Sprintf(",%d", s.kind)
			groups = groups || s.kind == sgGroups
			if s.kind == sgVal && !groups && s.lo.isConst() {
				k += fmt.Sprintf("@%d", s.lo.c)
			}
		}
		return k
	case StrV:
		return "s" + *x.konst
	case BoolV:
		return fmt.Sprintf("b%v", x.f.b)
	case PtrV:
		return fmt.Sprintf("p%d", x.obj)
	}
	return "?"
}

func (in *Interp) addAlt(st *State, alts []Val, a Val) []Val {
	if alts == nil || a == nil {
		return nil
	}
	k := shapeOf(a)
	if _, isT := a.(TemplV); !isT {
		for _, b := range alts {
			if shapeOf(b) == k {
				return alts
			}
		}
	}
	if len(alts) > 16 {
		return nil
	}
	return append(append([]Val{}, alts...), a)
}

// tplSide is a summary seen from one state.
type tplSide struct {
	c    *Cons
	isA  bool
	only []Lin
}

func (t TemplV) lins() []Lin {
	out := []Lin{t.n}
	for _, s := range t.segs {
		out = append(out, s.lo)
		if s.kind != sgVal {
			out = append(out, s.hi)
		}
		if v, ok := s.v.(IntV); ok && s.kind == sgVal {
			out = append(out, v.e)
		}
	}
	if t.span != nil {
		out = append(out, t.span.lo, t.span.hi)
	}
	return out
}

// templates joins the summaries of one segment.
// sameTempl: one summary, met twice because its segment was split.
func sameTempl(a, b TemplV) bool {
	if len(a.syms) == 0 || len(a.syms) != len(b.syms) {
		return false
	}
	for i := range a.syms {
		if a.syms[i] != b.syms[i] {
			return false
		}
	}
	x, y := a.lins(), b.lins()
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if !x[i].eq(y[i]) {
			return false
		}
	}
	return true
}

func (j *joiner) templates(job tplJob, ca, cb *Cons) []Val {
	order := []string{}
	groups := map[string][]TemplV{}
	fromA := map[string]int{}
	out := []Val{}
	plain := map[string]bool{}
	add := func(v Val, isA bool) {
		k := shapeOf(v)
		t, ok := v.(TemplV)
		if !ok {
			if x, isAny := v.(AnyOf); isAny {
				if j.c.heap[x.src] == nil {
					j.c.heap[x.src] = j.objBoth(x.src)
				}
			}
			if !plain[k] {
				plain[k] = true
				out = append(out, v)
				if !isA {
					j.change("summary gains %s", k)
				}
			}
			return
		}
		if _, ok := groups[k]; !ok {
			order = append(order, k)
		}
		for _, o := range groups[k] {
			if j.in.mon.plainKey && isA && sameTempl(o, t) {
				return
			}
		}
		groups[k] = append(groups[k], t)
		if isA {
			fromA[k]++
		}
	}
	for _, v := range job.a {
		add(v, true)
	}
	for _, v := range job.b {
		add(v, false)
	}
	keepSym := map[Sym]bool{}
	for _, z := range j.zs {
		keepSym[z.z] = true
	}
	for _, k := range order {
		ts := groups[k]
		if fromA[k] != 1 {
			j.change("summary %s from %d", k, fromA[k])
		}
		// the joined form: a symbol for every place
		n := TemplV{typ: ts[0].typ, tag: ts[0].tag, text: ts[0].text}
		first := ts[0].lins()
		places := make([]Lin, len(first))
		local := map[Sym]bool{}
		memo := map[string]Lin{}
		for i, e := range first {
			konst := true
			key := ""
			for _, t := range ts {
				x := t.lins()[i]
				if !x.isConst() || x.c != e.c {
					konst = false
				}
				key += x.key() + "|"
			}
			if konst {
				places[i] = e
				continue
			}
			if p, ok := memo[key]; ok {
				places[i] = p
				continue
			}
			s := j.in.sym("t")
			local[s] = true
			n.syms = append(n.syms, s)
			places[i] = linS(s)
			memo[key] = places[i]
		}
		pi := 1
		n.n = places[0]
		for _, s := range ts[0].segs {
			x := s
			x.lo = places[pi]
			pi++
			if s.kind == sgVal {
				x.hi = x.lo.plus(1)
			} else {
				x.hi = places[pi]
				pi++
			}
			if _, ok := s.v.(IntV); ok && s.kind == sgVal {
				x.v = IntV{places[pi]}
				pi++
			}
			n.segs = append(n.segs, x)
		}
		ended := true
		for _, t := range ts {
			if len(t.segs) == 0 || !t.n.eq(t.segs[len(t.segs)-1].hi) {
				ended = false
			}
		}
		if ended {
			n.n = n.segs[len(n.segs)-1].hi
		}
		if ts[0].span != nil {
			n.span = &textRef{ts[0].span.t, places[pi], places[pi+1]}
		}
		if n.text != nil {
			n.text = nil
			same := true
			for _, t := range ts {
				if t.text == nil || t.text.t != ts[0].text.t || !j.baseLin(t.text.lo) && !t.text.lo.isConst() {
					same = false
				}
			}
			if same {
				n.text = ts[0].text
			}
		}
		var sides []*Cons
		var cands []Lin
		for i, t := range ts {
			isA := i < fromA[k]
			c := cb
			if isA {
				c = ca
			}
			c = c.clone()
			for _, f := range t.cons {
				c.addGE(f)
			}
			for pi, e := range t.lins() {
				if !places[pi].isConst() {
					c.addEQ(places[pi].sub(e))
				}
			}
			if c.infeasible() {
				continue
			}
			sides = append(sides, c)
			if !j.onlyA || isA || fromA[k] == 0 || j.in.joinN < 3 {
				for _, f := range projectCons(c, nil, func(s Sym) bool {
					if j.in.mon.tplSym != nil && !local[s] {
						return j.in.mon.tplSym(s)
					}
					return local[s] || keepSym[s] || j.in.symStamp[s] <= j.wm
				}) {
					hit := false
					for _, t := range f.t {
						if local[t.s] {
							hit = true
						}
					}
					if hit {
						cands = append(cands, f)
						if isA {
							cands[len(cands)-1] = f
						}
					}
				}
			}
		}
		if n.span != nil {
			// what the span is made of holds even where no side shows it
			var vs []Lin
			for _, sg := range n.segs {
				if v, ok := sg.v.(IntV); ok && sg.kind == sgVal {
					vs = append(vs, v.e)
				}
			}
			for _, e := range []Lin{n.span.lo, n.span.hi} {
				cands = append(cands, e)
				for _, w := range j.in.mon.anchors {
					cands = append(cands, w.sub(e))
				}
				for i, v := range vs {
					cands = append(cands, e.sub(v), v.sub(e))
					for _, w := range vs[i+1:] {
						d := e.sub(v).sub(w)
						cands = append(cands, d, d.neg())
					}
				}
			}
		}
		cands = dedupLin2(cands)
		for _, f := range cands {
			ok := true
			for _, c := range sides {
				if !c.entailsGE(f) {
					ok = false
					break
				}
			}
			if ok {
				n.cons = append(n.cons, f)
			} else if fromA[k] == 1 && len(sides) > 0 && sides[0].entailsGE(f) {
				j.change("summary loses %s", j.in.showLin(nil, f))
			}
		}
		n.cons = prune(n.cons)
		out = append(out, n)
	}
	return out
}

func dedupLin2(cs []Lin) []Lin {
	seen := map[string]bool{}
	var out []Lin
	for _, c := range cs {
		k := c.key()
		if !seen[k] {
			seen[k] = true
			out = append(out, c)
		}
	}
	return out
}

// ---- the join of two items ----

type joinVal struct {
	a, b Val
	t    types.Type
	set  func(Val)
}

// join covers a and b; it says whether the result is more general than a (and
// why).
func (in *Interp) join(base *State, wm int, a, b *State, vals []joinVal, onlyA bool) (*State, string) {
	j := &joiner{in: in, wm: wm, a: a.fork(), b: b.fork(), ints: map[string]Lin{}, zOf: map[string]Sym{}, objs: map[[2]int]int{}, objOf: map[int]int{}, vals: map[string]Val{}, valOf: map[string]bool{}, kept: map[int]bool{}, onlyA: onlyA}
	c := newState()
	c.cons = base.cons.clone()
	j.c = c
	for k, v := range a.gd {
		c.gd[k] = v
		if b.gd[k] != v {
			fail("ghost %s differs in a join", k)
		}
	}
	for _, v := range vals {
		v.set(j.val(v.a, v.b, v.t))
	}
	var gk []string
	for k := range a.gi {
		gk = append(gk, k)
	}
	sort.Strings(gk)
	for _, k := range gk {
		if eb, ok := b.gi[k]; ok {
			c.gi[k] = j.int(a.gi[k], eb)
		}
	}
	// what both sides have from before
	ids := map[int]bool{}
	for id := range a.heap {
		if in.idStamp[id] <= wm {
			ids[id] = true
		}
	}
	for id := range b.heap {
		if in.idStamp[id] <= wm {
			ids[id] = true
		}
	}
	var order []int
	for id := range ids {
		order = append(order, id)
	}
	sort.Ints(order)
	for _, id := range order {
		oa, ob := j.side(j.a, id), j.side(j.b, id)
		if oa == nil {
			oa = ob
			j.a.heap[id] = ob
		}
		if ob == nil {
			ob = oa
			j.b.heap[id] = oa
		}
		if oa == ob && j.clean(oa) {
			delete(c.owned, id)
			j.kept[id] = true
			j.objs[[2]int{id, id}] = id
			j.objOf[id] = id
			c.heap[id] = oa
			continue
		}
		j.obj(id, id)
	}
	for len(j.work) > 0 {
		f := j.work[0]
		j.work = j.work[1:]
		f()
	}
	for k, v := range a.nils {
		if w, ok := b.nils[k]; ok && v == w {
			if _, done := c.nils[k]; !done {
				c.nils[k] = v
			}
		}
	}
	for k, v := range a.bools {
		if w, ok := b.bools[k]; ok && v == w {
			c.bools[k] = v
		}
	}
	for k, v := range a.dyns {
		if w, ok := b.dyns[k]; ok && types.Identical(v.dyn, w.dyn) && in.canon(j.a, v.v) == in.canon(j.b, w.v) {
			c.dyns[k] = v
			for _, id := range reachIDs(v.v) {
				if c.heap[id] == nil {
					if o := in.objInit[id]; o != nil {
						c.heap[id] = o
					}
				}
			}
		}
	}
	// facts known before that only one side lost cannot happen; facts a gained
	for k := range a.nils {
		if _, ok := c.nils[k]; !ok && in.idStamp[k] > 0 && in.idStamp[k] <= wm {
			j.change("nilness of %d", k)
		}
	}
	for k := range a.bools {
		if _, ok := c.bools[k]; !ok && base.bools[k] != a.bools[k] {
			// lost: only matters if it mentions something that stayed
			j.lostBool(k)
		}
	}
	for _, fa := range a.facts {
		for _, fb := range b.facts {
			if fa.name != fb.name || len(fa.args) != len(fb.args) {
				continue
			}
			n := fact{name: fa.name}
			ok := true
			for i := range fa.args {
				r, found := j.known(fa.args[i], fb.args[i])
				if !found {
					ok = false
					break
				}
				n.args = append(n.args, r)
			}
			if ok && !hasFact(c.facts, n) {
				c.facts = append(c.facts, n)
			}
		}
	}
	if len(c.facts) < len(a.facts) {
		j.change("facts")
	}
	// linear facts
	ca, cb := j.a.cons.clone(), j.b.cons.clone()
	for _, z := range j.zs {
		ca.addEQ(linS(z.z).sub(z.ea))
		cb.addEQ(linS(z.z).sub(z.eb))
	}
	zset := map[Sym]bool{}
	for _, z := range j.zs {
		zset[z.z] = true
	}
	keep := func(s Sym) bool { return zset[s] || in.symStamp[s] <= wm }
	pa := projectCons(ca, nil, keep)
	cands := append([]Lin(nil), pa...)
	if !onlyA {
		cands = append(cands, projectCons(cb, nil, keep)...)
	}
	if !onlyA || j.split {
		cands = append(cands, j.diffs(base)...)
	}
	// a finite set of bounds is tried every time: a fact that was dropped as
	// following from a stronger one may outlive it
	for _, z := range j.zs {
		for _, w := range append(append([]Lin{linC(0)}, in.mon.tracked...), in.mon.anchors...) {
			d := linS(z.z).sub(w)
			for k := int64(-1); k <= 1; k++ {
				cands = append(cands, d.plus(k), d.neg().plus(k))
			}
		}
	}
	if len(j.zs) <= 12 {
		for i, z := range j.zs {
			for _, w := range j.zs[:i] {
				d := linS(z.z).sub(linS(w.z))
				for k := int64(-1); k <= 1; k++ {
					cands = append(cands, d.plus(k), d.neg().plus(k))
				}
			}
		}
	}
	cands = dedupLin2(cands)
	inA := map[string]bool{}
	for _, f := range pa {
		inA[f.key()] = true
	}
	for _, f := range cands {
		if base.cons.entailsGE(f) {
			continue
		}
		okA := inA[f.key()] || ca.entailsGE(f)
		if !okA {
			continue
		}
		if cb.entailsGE(f) {
			c.cons.addGE(f)
		} else if inA[f.key()] {
			j.change("lost %s >= 0", in.showLin(nil, f))
			for k := int64(-1); k <= 1 && !in.mon.plainKey; k++ { // a weaker bound out of a finite set
				if w := f.plus(k - f.c); len(f.t) <= 2 && f.c < k && cb.entailsGE(w) {
					c.cons.addGE(w)
					break
				}
			}
		}
	}
	for _, f := range ca.ne {
		ok := true
		for _, t := range f.t {
			if !keep(t.s) {
				ok = false
			}
		}
		if ok {
			if cb.entailsNE(f) {
				c.cons.addNE(f)
			} else if !base.cons.entailsNE(f) {
				j.change("lost %s != 0", in.showLin(nil, f))
			}
		}
	}
	c.cons.ge = prune(c.cons.ge)
	c.cons.keys = map[string]bool{}
	for _, g := range c.cons.ge {
		c.cons.keys[g.key()] = true
	}
	for _, job := range j.jobs {
		o := c.mut(job.id)
		o.segs[job.seg].alts = j.templates(job, ca, cb)
	}
	return c, j.changed
}

func (j *joiner) lostBool(k string) {
	if len(k) > 3 && k[:3] == "ta:" {
		return
	}
	j.change("condition %s", k)
}

func hasFact(fs []fact, n fact) bool {
	for _, f := range fs {
		if f.name != n.name {
			continue
		}
		same := true
		for i := range f.args {
			if !f.args[i].eq(n.args[i]) {
				same = false
			}
		}
		if same {
			return true
		}
	}
	return false
}

// known is the joined form of two integers, if there is one already.
func (j *joiner) known(ea, eb Lin) (Lin, bool) {
	if ea.eq(eb) && j.baseLin(ea) {
		return ea, true
	}
	na, nb := j.a.cons.norm(ea), j.b.cons.norm(eb)
	if j.baseLin(na) && j.b.eq(na, eb) {
		return na, true
	}
	for _, z := range j.zs {
		if j.a.eq(z.ea, ea) && j.b.eq(z.eb, eb) {
			return linS(z.z), true
		}
	}
	// one side's name for it may do for the other
	for _, e := range []Lin{ea, eb, nb} {
		if j.baseLin(e) && j.a.eq(e, ea) && j.b.eq(e, eb) {
			return e, true
		}
	}
	return Lin{}, false
}

func reachIDs(v Val) []int {
	switch x := v.(type) {
	case PtrV:
		return []int{x.obj}
	case SliceV:
		return []int{x.arr}
	case MapV:
		return []int{x.obj}
	}
	return nil
}

// clean: nothing inside is newer than the watermark.
func (j *joiner) clean(o *Obj2) bool {
	if o.val != nil && j.in.stampOf(o.val) > j.wm {
		return false
	}
	if o.kind == 'a' && !j.baseLin(o.n) {
		return false
	}
	for _, s := range o.segs {
		if !j.baseLin(s.lo) || !j.baseLin(s.hi) {
			return false
		}
		switch s.kind {
		case sgVal:
			if j.in.stampOf(s.v) > j.wm {
				return false
			}
		case sgOrig:
			if !j.baseLin(s.delta) {
				return false
			}
		case sgSum:
			for _, a := range s.alts {
				if t, ok := a.(TemplV); ok {
					own := map[Sym]bool{}
					for _, s := range t.syms {
						own[s] = true
					}
					for _, c := range t.cons {
						for _, x := range c.t {
							if !own[x.s] && j.in.symStamp[x.s] > j.wm {
								return false
							}
						}
					}
				}
			}
		}
	}
	for _, e := range o.elems {
		if !j.baseLin(e.idx) || j.in.stampOf(e.v) > j.wm {
			return false
		}
	}
	for _, e := range o.ks {
		if j.in.stampOf(e.k) > j.wm || j.in.stampOf(e.v) > j.wm {
			return false
		}
	}
	if o.gidx != nil && !j.baseLin(*o.gidx) {
		return false
	}
	return true
}

// diffs are difference facts between the new symbols and between them and what
// is fixed.
func (j *joiner) diffs(base *State) []Lin {
	var out []Lin
	try := func(z, w Lin, da, db Lin) {
		da, db = j.a.cons.norm(da), j.b.cons.norm(db)
		d := z.sub(w)
		if da.isConst() && db.isConst() {
			lo, hi := da.c, db.c
			if lo > hi {
				lo, hi = hi, lo
			}
			out = append(out, d.plus(-lo), d.neg().plus(hi))
			return
		}
		for _, k := range []int64{-1, 0, 1} {
			out = append(out, d.plus(k), d.neg().plus(k))
		}
	}
	for i, z := range j.zs {
		for _, w := range j.zs[:i] {
			try(linS(z.z), linS(w.z), z.ea.sub(w.ea), z.eb.sub(w.eb))
			sa, sb := j.a.cons.norm(z.ea.add(w.ea)), j.b.cons.norm(z.eb.add(w.eb))
			if j.baseLin(sa) && j.baseLin(sb) && j.a.eq(sa, sb) && j.b.eq(sa, sb) {
				d := linS(z.z).add(linS(w.z)).sub(sa)
				out = append(out, d, d.neg())
			}
		}
	}
	// fixed symbols the facts connect the new ones with
	conn := map[Sym]bool{}
	for _, side := range []*State{j.a, j.b} {
		near := map[Sym]bool{}
		for _, z := range j.zs {
			e := z.ea
			if side == j.b {
				e = z.eb
			}
			for _, t := range side.cons.norm(e).t {
				near[t.s] = true
			}
		}
		for _, g := range side.cons.ge {
			if len(g.t) == 1 && j.in.symStamp[g.t[0].s] <= j.wm && !base.cons.entailsGE(g) {
				conn[g.t[0].s] = true // a bound found in the loop
			}
		}
		for round := 0; round < 2; round++ {
			for _, g := range side.cons.ge {
				hit := false
				for _, t := range g.t {
					if near[t.s] {
						hit = true
					}
				}
				if hit {
					for _, t := range g.t {
						near[t.s] = true
					}
				}
			}
		}
		for s := range near {
			if j.in.symStamp[s] <= j.wm {
				conn[s] = true
			}
		}
	}
	for _, k := range j.in.mon.tracked {
		for _, t := range k.t {
			conn[t.s] = true
		}
	}
	var ss []Sym
	for s := range conn {
		ss = append(ss, s)
	}
	sort.Slice(ss, func(i, k int) bool { return ss[i] < ss[k] })
	for _, z := range j.zs {
		for _, s := range ss {
			w := linS(s)
			try(linS(z.z), w, z.ea.sub(w), z.eb.sub(w))
		}
	}
	return out
}

// ---- merging ----

func (in *Interp) mergeItems(base *item, its []*item, live func(ssa.Value) bool) []*item {
	if in.mon.disj == 0 {
		live = nil
	}
	return in.mergeBy(base, its, func(it *item) string {
		var vs []ssa.Value
		if live != nil {
			for v := range it.env {
				if _, phi := v.(*ssa.Phi); live(v) && (phi || base.env[v] == nil) {
					vs = append(vs, v)
				}
			}
			sort.Slice(vs, func(i, k int) bool { return valLess(vs[i], vs[k]) })
		}
		var xs []Val
		for _, v := range vs {
			xs = append(xs, it.env[v])
		}
		return in.itemKey(base, it, xs)
	}, live)
}

// liveAt: the values that matter from a block on.
func (in *Interp) liveAt(fr *bframe, b *ssa.BasicBlock) func(ssa.Value) bool {
	l := in.live(fr)[b]
	return func(v ssa.Value) bool { return l[v] || isPhiOf(v, b) }
}

func (in *Interp) mergeBy(base *item, its []*item, key func(*item) string, live func(ssa.Value) bool) []*item {
	groups := map[string]*item{}
	var order []string
	for _, it := range its {
		k := key(it)
		g := groups[k]
		if g == nil {
			groups[k] = it
			order = append(order, k)
			continue
		}
		in.merging = live != nil
		groups[k] = in.joinItems(base, in.clockAt(base), g, it, live, false)
		in.merging = false
	}
	var out []*item
	for _, k := range order {
		out = append(out, groups[k])
	}
	return out
}

func (in *Interp) clockAt(base *item) int { return base.clk }

func (in *Interp) joinItems(base *item, wm int, a, b *item, live func(ssa.Value) bool, onlyA bool) *item {
	n, _ := in.joinItems2(base, wm, a, b, live, onlyA)
	return n
}

func (in *Interp) joinItems2(base *item, wm int, a, b *item, live func(ssa.Value) bool, onlyA bool) (*item, string) {
	in.joins++
	n := &item{env: map[ssa.Value]Val{}, clk: base.clk}
	var vs []ssa.Value
	for v := range a.env {
		if _, ok := b.env[v]; ok && (live == nil || live(v)) {
			vs = append(vs, v)
		}
	}
	sort.Slice(vs, func(i, k int) bool { return valLess(vs[i], vs[k]) })
	var vals []joinVal
	for _, v := range vs {
		v := v
		vals = append(vals, joinVal{a.env[v], b.env[v], v.Type(), func(r Val) { n.env[v] = r }})
	}
	st, why := in.join(base.st, wm, a.st, b.st, vals, onlyA)
	n.st = st
	return n, why
}

func valLess(a, b ssa.Value) bool {
	ia, oka := a.(ssa.Instruction)
	ib, okb := b.(ssa.Instruction)
	if oka != okb {
		return !oka
	}
	if oka {
		if ia.Block().Index != ib.Block().Index {
			return ia.Block().Index < ib.Block().Index
		}
	}
	if len(a.Name()) != len(b.Name()) {
		return len(a.Name()) < len(b.Name())
	}
	return a.Name() < b.Name()
}

func (in *Interp) mergeOuts(base *item, outs []Outcome) []Outcome {
	var res []Outcome
	groups := map[string]int{}
	for _, o := range outs {
		if o.panicked {
			res = append(res, o)
			continue
		}
		k := in.itemKey(base, &item{st: o.st}, []Val{o.ret})
		i, ok := groups[k]
		if !ok {
			groups[k] = len(res)
			res = append(res, o)
			continue
		}
		g := res[i]
		var t types.Type
		if r, ok := o.site.(*ssa.Return); ok {
			sig := r.Parent().Signature
			switch sig.Results().Len() {
			case 0:
			case 1:
				t = sig.Results().At(0).Type()
			default:
				t = sig.Results()
			}
		}
		n := Outcome{site: g.site}
		st, _ := in.join(base.st, base.clk, g.st, o.st, []joinVal{{g.ret, o.ret, t, func(v Val) { n.ret = v }}}, false)
		n.st = st
		res[i] = n
	}
	return res
}
