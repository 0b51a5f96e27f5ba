package main

// Engine A: inclusion-based points-to and effect analysis over SSA.
//
// Flow-insensitive inside a function (but branches on pointer equality whose
// operands can never be equal are not followed), field-sensitive, and
// context-sensitive by full call strings (a function that is already active in
// the chain reuses its instance).  The memory an entry point is handed is a
// "region": one abstract object per type, whose fields lead back into the
// region.  Everything allocated by the analysed code is a separate object per
// allocation site and context.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Obj struct {
	id     int
	typ    types.Type // *types.Slice stands for the backing array of that slice type
	region bool
	soft   bool // handed in by the caller, and the caller does not mind (only package variables are protected)
	ext    bool // made by an external call: contents are fresh, too
	global *ssa.Global
	site   ssa.Instruction
	inst   *Inst
	cells  map[string]pset
}

func (o *Obj) String() string {
	switch {
	case o.global != nil:
		return "package variable " + o.global.Pkg.Pkg.Name() + "." + o.global.Name()
	case o.region:
		return "the caller's " + shortType(o.typ)
	}
	return "object " + strconv.Itoa(o.id)
}

type Elem struct {
	obj    *Obj
	path   string
	dyn    string // dynamic type of an interface element (key into heap.dyn)
	fn     *ssa.Function
	capped bool // slice that cannot grow in place
	kind   byte // 0 location, 'n' nil, 'o' opaque (unknown foreign value)
}

type pset map[Elem]struct{}

func (s pset) add(e Elem) bool {
	if _, ok := s[e]; ok {
		return false
	}
	s[e] = struct{}{}
	return true
}

func (s pset) addAll(t pset) bool {
	ch := false
	for e := range t {
		if s.add(e) {
			ch = true
		}
	}
	return ch
}

// vals maps leaf paths to sets.
type vals map[string]pset

type Inst struct {
	fn       *ssa.Function
	parent   *Inst
	call     ssa.Instruction // call site in parent
	nodes    map[ssa.Value]vals
	results  vals // "#i"+leaf
	children map[instKey]*Inst
	reach    map[*ssa.BasicBlock]bool
	edges    map[[2]int]bool
}

type instKey struct {
	site ssa.Instruction
	fn   *ssa.Function
}

// Effect is a write to memory the analysed call does not own.
type Effect struct {
	obj   *Obj
	path  string
	instr ssa.Instruction
	inst  *Inst
	what  string
}

type Heap struct {
	p         *Prog
	dyn       map[string]types.Type
	objs      map[string]*Obj
	nobj      int
	regions   map[string]*Obj
	globals   map[*ssa.Global]*Obj
	insts     []*Inst
	changed   bool
	effects   map[string]*Effect
	taken     map[string][]*ssa.Function // address-taken functions by signature
	impls     map[string][]types.Type
	externals map[string]int
	unknown   map[string]bool
	passes    int
	opaque    map[*ssa.Function]*Inst
	// globalsOnly protects only what is reachable from package variables
	globalsOnly bool
}

func newHeap(p *Prog) *Heap {
	h := &Heap{p: p, dyn: map[string]types.Type{}, objs: map[string]*Obj{}, regions: map[string]*Obj{}, globals: map[*ssa.Global]*Obj{},
		effects: map[string]*Effect{}, impls: map[string][]types.Type{}, externals: map[string]int{}, unknown: map[string]bool{}, opaque: map[*ssa.Function]*Inst{}}
	h.taken = p.addressTaken()
	return h
}

// addressTaken lists, by signature, the module functions used as values.
func (p *Prog) addressTaken() map[string][]*ssa.Function {
	out := map[string][]*ssa.Function{}
	seen := map[*ssa.Function]bool{}
	add := func(f *ssa.Function) {
		if !seen[f] && p.InModule(f) && f.Blocks != nil {
			seen[f] = true
			k := sigKey(f.Signature)
			out[k] = append(out[k], f)
		}
	}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var callee ssa.Value
				if c, ok := in.(ssa.CallInstruction); ok && !c.Common().IsInvoke() {
					callee = c.Common().Value
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					add(mc.Fn.(*ssa.Function))
					continue
				}
				skipped := false
				for _, op := range in.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok {
						if f == callee && !skipped {
							skipped = true
							continue
						}
						add(f)
					}
				}
			}
		}
	}
	return out
}

func sigKey(s *types.Signature) string {
	var b strings.Builder
	for i := 0; i < s.Params().Len(); i++ {
		b.WriteString(typeKey(s.Params().At(i).Type()) + ",")
	}
	fmt.Fprintf(&b, "|%v|", s.Variadic())
	for i := 0; i < s.Results().Len(); i++ {
		b.WriteString(typeKey(s.Results().At(i).Type()) + ",")
	}
	return b.String()
}

func typeKey(t types.Type) string { return types.TypeString(t, nil) }

func (h *Heap) dynKey(t types.Type) string {
	k := typeKey(t)
	if _, ok := h.dyn[k]; !ok {
		h.dyn[k] = t
	}
	return k
}

func (h *Heap) newObj(key string, t types.Type) *Obj {
	if o := h.objs[key]; o != nil {
		return o
	}
	h.nobj++
	o := &Obj{id: h.nobj, typ: t, cells: map[string]pset{}}
	h.objs[key] = o
	return o
}

func (h *Heap) alloc(inst *Inst, site ssa.Instruction, tag string, t types.Type) *Obj {
	o := h.newObj(fmt.Sprintf("%p/%p/%s", inst, site, tag), t)
	o.site, o.inst = site, inst
	return o
}

func (h *Heap) regionObj(t types.Type, soft bool) *Obj {
	k := typeKey(t)
	if soft {
		k = "soft " + k
	}
	if o := h.regions[k]; o != nil {
		return o
	}
	h.nobj++
	o := &Obj{id: h.nobj, typ: t, region: !soft, soft: soft, cells: map[string]pset{}}
	h.regions[k] = o
	return o
}

func (h *Heap) globalObj(g *ssa.Global) *Obj {
	if o := h.globals[g]; o != nil {
		return o
	}
	h.nobj++
	o := &Obj{id: h.nobj, typ: deref(g.Type()), region: true, global: g, cells: map[string]pset{}}
	h.globals[g] = o
	return o
}

// leaves lists the pointer-bearing leaf paths of a type.
func leaves(t types.Type) []string {
	var out []string
	leavesAt(t, "", &out, 0)
	return out
}

func leavesAt(t types.Type, pre string, out *[]string, depth int) {
	if depth > 8 {
		fail("type nested too deeply: %s", t)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			leavesAt(u.Field(i).Type(), pre+"/"+strconv.Itoa(i), out, depth+1)
		}
	case *types.Array:
		leavesAt(u.Elem(), pre+"/[]", out, depth+1)
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			leavesAt(u.At(i).Type(), pre+"#"+strconv.Itoa(i), out, depth+1)
		}
	case *types.Basic:
		if u.Kind() == types.UnsafePointer {
			*out = append(*out, pre)
		}
	default:
		*out = append(*out, pre)
	}
}

// typeAt gives the type of the location path inside an object of type t.
func typeAt(t types.Type, path string) types.Type {
	for path != "" {
		i := strings.Index(path[1:], "/")
		tok := path[1:]
		if i >= 0 {
			tok = path[1 : i+1]
			path = path[i+1:]
		} else {
			path = ""
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			n, err := strconv.Atoi(tok)
			if err != nil || n >= u.NumFields() {
				fail("bad path %s in %s", tok, t)
			}
			t = u.Field(n).Type()
		case *types.Array:
			t = u.Elem()
		case *types.Slice:
			t = u.Elem()
		case *types.Chan:
			t = u.Elem()
		case *types.Map:
			if tok == "k" {
				t = u.Key()
			} else {
				t = u.Elem()
			}
		default:
			fail("bad path %s in %s", tok, t)
		}
	}
	return t
}

func pointerShaped(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	}
	return false
}

var nilElem = Elem{kind: 'n'}

// regionLeaf gives what a pointer-bearing location of type t inside the region
// may hold.
func (h *Heap) regionLeaf(t types.Type, soft bool) pset {
	s := pset{}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		s.add(nilElem)
		s.add(Elem{obj: h.regionObj(u.Elem(), soft)})
	case *types.Slice:
		s.add(nilElem)
		s.add(Elem{obj: h.regionObj(u, soft)})
	case *types.Map:
		s.add(nilElem)
		s.add(Elem{obj: h.regionObj(u, soft)})
	case *types.Chan:
		s.add(nilElem)
		s.add(Elem{obj: h.regionObj(u, soft)})
	case *types.Signature:
		s.add(nilElem)
		s.add(Elem{kind: 'o', dyn: h.dynKey(t)})
	case *types.Interface:
		s.add(nilElem)
		s.add(Elem{kind: 'o'})
		for _, it := range h.implementers(u) {
			s.add(h.regionIface(it, soft))
		}
	}
	return s
}

func (h *Heap) regionIface(t types.Type, soft bool) Elem {
	k := h.dynKey(t)
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return Elem{obj: h.regionObj(u.Elem(), soft), dyn: k}
	case *types.Map, *types.Chan:
		return Elem{obj: h.regionObj(u, soft), dyn: k}
	case *types.Signature:
		return Elem{kind: 'o', dyn: k}
	}
	return Elem{obj: h.regionObj(t, soft), dyn: k} // box
}

func (h *Heap) implementers(i *types.Interface) []types.Type {
	k := typeKey(i)
	if r, ok := h.impls[k]; ok {
		return r
	}
	var r []types.Type
	if i.NumMethods() > 0 {
		r = h.p.Implementers(i)
	}
	h.impls[k] = r
	return r
}

// regionVals is an unknown value of type t handed in by the caller.
func (h *Heap) regionVals(t types.Type) vals {
	v := vals{}
	for _, l := range leaves(t) {
		v[l] = h.regionLeaf(leafType(t, l), h.globalsOnly)
	}
	return v
}

func leafType(t types.Type, l string) types.Type {
	if tup, ok := t.(*types.Tuple); ok {
		// "#i/..."
		j := strings.IndexByte(l, '/')
		if j < 0 {
			j = len(l)
		}
		n, _ := strconv.Atoi(l[1:j])
		return typeAt(tup.At(n).Type(), l[j:])
	}
	return typeAt(t, l)
}

// cell returns the content of one location.
func (h *Heap) cell(o *Obj, path string) pset {
	c := o.cells[path]
	if c == nil {
		c = pset{}
		o.cells[path] = c
		switch {
		case o.region || o.soft:
			c.addAll(h.regionLeaf(typeAt(o.typ, path), o.soft))
		case o.ext:
			t := typeAt(o.typ, path)
			switch u := t.Underlying().(type) {
			case *types.Pointer:
				n := h.newObj(fmt.Sprintf("ext/%d/%s", o.id, path), u.Elem())
				n.ext = true
				c.add(Elem{obj: n})
			case *types.Slice, *types.Map, *types.Chan:
				n := h.newObj(fmt.Sprintf("ext/%d/%s", o.id, path), u)
				n.ext = true
				c.add(Elem{obj: n})
			case *types.Interface, *types.Signature:
				c.add(Elem{kind: 'o', dyn: ""})
			}
			c.add(nilElem)
		}
	}
	return c
}

// load reads a value of type t through the pointers in s.
func (h *Heap) load(s pset, t types.Type) vals {
	out := vals{}
	ls := leaves(t)
	for _, l := range ls {
		out[l] = pset{}
	}
	for e := range s {
		if e.kind != 0 || e.obj == nil {
			continue
		}
		for _, l := range ls {
			out[l].addAll(h.cell(e.obj, e.path+l))
			if !e.obj.region {
				out[l].add(nilElem)
			}
		}
	}
	return out
}

func (h *Heap) store(inst *Inst, in ssa.Instruction, s pset, v vals, what string) {
	for e := range s {
		if e.kind != 0 || e.obj == nil {
			continue
		}
		if e.obj.region {
			h.effect(inst, in, e, what)
			continue
		}
		for l, set := range v {
			if h.cell(e.obj, e.path+l).addAll(set) {
				h.changed = true
			}
		}
	}
}

func (h *Heap) effect(inst *Inst, in ssa.Instruction, e Elem, what string) {
	k := fmt.Sprintf("%s|%p|%d|%s", what, in, e.obj.id, e.path)
	if h.effects[k] == nil {
		h.effects[k] = &Effect{obj: e.obj, path: e.path, instr: in, inst: inst, what: what}
		h.changed = true
	}
}

func (in *Inst) node(v ssa.Value) vals {
	n := in.nodes[v]
	if n == nil {
		n = vals{}
		in.nodes[v] = n
	}
	return n
}

// get evaluates an operand.
func (h *Heap) get(in *Inst, v ssa.Value) vals {
	switch x := v.(type) {
	case *ssa.Const:
		out := vals{}
		for _, l := range leaves(x.Type()) {
			out[l] = pset{nilElem: {}}
		}
		return out
	case *ssa.Global:
		return vals{"": pset{Elem{obj: h.globalObj(x)}: {}}}
	case *ssa.Function:
		return vals{"": pset{Elem{fn: x}: {}}}
	case *ssa.Builtin:
		return vals{}
	}
	return in.node(v)
}

func (h *Heap) get1(in *Inst, v ssa.Value) pset {
	s := h.get(in, v)[""]
	if s == nil {
		return pset{}
	}
	return s
}

func (h *Heap) put(in *Inst, v ssa.Value, x vals) {
	n := in.node(v)
	for l, s := range x {
		d := n[l]
		if d == nil {
			d = pset{}
			n[l] = d
		}
		if d.addAll(s) {
			h.changed = true
		}
	}
}

func (h *Heap) put1(in *Inst, v ssa.Value, s pset) { h.put(in, v, vals{"": s}) }

func (v vals) sub(prefix string) vals {
	out := vals{}
	for l, s := range v {
		if strings.HasPrefix(l, prefix) {
			rest := l[len(prefix):]
			if rest == "" || rest[0] == '/' {
				out[rest] = s
			}
		}
	}
	return out
}

func (v vals) prefix(p string) vals {
	out := vals{}
	for l, s := range v {
		out[p+l] = s
	}
	return out
}

func (v vals) join(w vals) {
	for l, s := range w {
		if v[l] == nil {
			v[l] = pset{}
		}
		v[l].addAll(s)
	}
}

// newInst makes (or finds) the instance of fn called at site from in.
func (h *Heap) instance(in *Inst, site ssa.Instruction, fn *ssa.Function) *Inst {
	depth := 0
	for a := in; a != nil; a = a.parent {
		if a.fn == fn {
			return a
		}
		depth++
	}
	if depth > 60 {
		fail("call chain too deep at %s", fn)
	}
	k := instKey{site, fn}
	if in != nil {
		if c := in.children[k]; c != nil {
			return c
		}
	}
	c := &Inst{fn: fn, parent: in, call: site, nodes: map[ssa.Value]vals{}, results: vals{}, children: map[instKey]*Inst{},
		reach: map[*ssa.BasicBlock]bool{}, edges: map[[2]int]bool{}}
	if in != nil {
		in.children[k] = c
	}
	h.insts = append(h.insts, c)
	if len(h.insts) > 60000 {
		fail("too many call contexts")
	}
	h.changed = true
	return c
}

// analyse runs fn on unknown arguments and returns its instance.
func (h *Heap) analyse(fn *ssa.Function) *Inst {
	return h.analyseWith(fn, nil)
}

func (h *Heap) analyseWith(fn *ssa.Function, args []vals) *Inst {
	root := h.instance(nil, nil, fn)
	for i, prm := range fn.Params {
		if args != nil && args[i] != nil {
			h.put(root, prm, args[i])
			continue
		}
		h.put(root, prm, h.regionVals(prm.Type()))
	}
	for _, fv := range fn.FreeVars {
		h.put(root, fv, h.regionVals(fv.Type()))
	}
	for {
		h.passes++
		h.changed = false
		for i := 0; i < len(h.insts); i++ {
			h.step(h.insts[i])
		}
		if !h.changed {
			break
		}
		if h.passes > 400 {
			fail("points-to analysis of %s does not settle", fn)
		}
	}
	return root
}

func (h *Heap) step(in *Inst) {
	if len(in.fn.Blocks) == 0 {
		return
	}
	in.reach[in.fn.Blocks[0]] = true
	if in.fn.Recover != nil {
		in.reach[in.fn.Recover] = true
	}
	for _, b := range in.fn.DomPreorder() {
		if !in.reach[b] {
			continue
		}
		for _, i := range b.Instrs {
			h.instr(in, i)
		}
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			t, f := h.branch(in, iff.Cond)
			if t {
				h.edge(in, b, b.Succs[0], 0)
			}
			if f {
				h.edge(in, b, b.Succs[1], 1)
			}
		} else {
			for k, s := range b.Succs {
				h.edge(in, b, s, k)
			}
		}
	}
}

func (h *Heap) edge(in *Inst, from, to *ssa.BasicBlock, k int) {
	e := [2]int{from.Index, k}
	if !in.edges[e] {
		in.edges[e] = true
		h.changed = true
	}
	if !in.reach[to] {
		in.reach[to] = true
		h.changed = true
	}
}

// branch says which outcomes of a condition are possible; it only refutes
// equality of pointers whose targets are disjoint, and failed type assertions.
func (h *Heap) branch(in *Inst, c ssa.Value) (canTrue, canFalse bool) {
	switch x := c.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			t, f := h.branch(in, x.X)
			return f, t
		}
	case *ssa.BinOp:
		if x.Op != token.EQL && x.Op != token.NEQ {
			return true, true
		}
		if !comparable1(x.X.Type()) || !comparable1(x.Y.Type()) {
			return true, true
		}
		a, b := h.get1(in, x.X), h.get1(in, x.Y)
		may := false
		_, xc := x.X.(*ssa.Const)
		_, yc := x.Y.(*ssa.Const)
		for e := range a {
			for f := range b {
				if !xc && !yc && e == nilElem {
					continue // two pointers compared for identity are not both nil (assumption)
				}
				if mayEqual(e, f) {
					may = true
				}
			}
		}
		if len(a) == 0 || len(b) == 0 {
			return false, false // not evaluated yet
		}
		if x.Op == token.EQL {
			return may, true
		}
		return true, may
	}
	return true, true
}

func comparable1(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Map, *types.Slice, *types.Chan, *types.Signature:
		return true
	}
	return false
}

func mayEqual(a, b Elem) bool {
	if a.kind == 'o' || b.kind == 'o' {
		// opaque: equal to anything that is not fresh
		x := a
		if a.kind == 'o' {
			x = b
		}
		return x.kind == 'o' || x.obj == nil || x.obj.region || x.obj.soft || x.obj.ext
	}
	if a.kind == 'n' || b.kind == 'n' {
		return a.kind == b.kind && a.dyn == b.dyn
	}
	if a.fn != nil || b.fn != nil {
		return true
	}
	if a.dyn != b.dyn {
		return false
	}
	if (a.obj.region || a.obj.soft) && (b.obj.region || b.obj.soft) {
		return true
	}
	return a.obj == b.obj
}

func (h *Heap) instr(in *Inst, i ssa.Instruction) {
	switch x := i.(type) {
	case *ssa.Alloc:
		o := h.alloc(in, x, "", deref(x.Type()))
		h.put1(in, x, pset{Elem{obj: o}: {}})
	case *ssa.MakeSlice:
		o := h.alloc(in, x, "", x.Type().Underlying())
		h.put1(in, x, pset{Elem{obj: o}: {}})
	case *ssa.MakeMap:
		o := h.alloc(in, x, "", x.Type().Underlying())
		h.put1(in, x, pset{Elem{obj: o}: {}})
	case *ssa.MakeChan:
		o := h.alloc(in, x, "", x.Type().Underlying())
		h.put1(in, x, pset{Elem{obj: o}: {}})
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		o := h.alloc(in, x, "closure", nil)
		for k, b := range x.Bindings {
			for l, s := range h.get(in, b) {
				c := o.cells["/fv"+strconv.Itoa(k)+"|"+l]
				if c == nil {
					c = pset{}
					o.cells["/fv"+strconv.Itoa(k)+"|"+l] = c
				}
				if c.addAll(s) {
					h.changed = true
				}
			}
		}
		h.put1(in, x, pset{Elem{fn: fn, obj: o}: {}})
	case *ssa.MakeInterface:
		t := x.X.Type()
		k := h.dynKey(t)
		if pointerShaped(t) {
			s := pset{}
			for e := range h.get1(in, x.X) {
				if e.kind == 'o' && e.dyn == "" {
					e.dyn = k
				} else {
					e.dyn = k
				}
				s.add(e)
			}
			h.put1(in, x, s)
			return
		}
		o := h.alloc(in, x, "box", t)
		for l, s := range h.get(in, x.X) {
			if h.cell(o, l).addAll(s) {
				h.changed = true
			}
		}
		h.put1(in, x, pset{Elem{obj: o, dyn: k}: {}})
	case *ssa.ChangeInterface:
		h.put(in, x, h.get(in, x.X))
	case *ssa.ChangeType:
		h.put(in, x, h.get(in, x.X))
	case *ssa.Convert:
		h.convert(in, x, x.X)
	case *ssa.MultiConvert:
		h.convert(in, x, x.X)
	case *ssa.SliceToArrayPointer:
		h.put(in, x, h.get(in, x.X))
	case *ssa.TypeAssert:
		v := h.assert(h.get1(in, x.X), x.AssertedType)
		if x.CommaOk {
			for _, l := range leaves(x.AssertedType) {
				if v[l] == nil {
					v[l] = pset{}
				}
				v[l].add(nilElem)
			}
			v = v.prefix("#0")
		}
		h.put(in, x, v)
	case *ssa.FieldAddr:
		s := pset{}
		for e := range h.get1(in, x.X) {
			if e.kind == 0 && e.obj != nil {
				s.add(Elem{obj: e.obj, path: e.path + "/" + strconv.Itoa(x.Field)})
			}
		}
		h.put1(in, x, s)
	case *ssa.Field:
		h.put(in, x, h.get(in, x.X).sub("/"+strconv.Itoa(x.Field)))
	case *ssa.IndexAddr:
		s := pset{}
		for e := range h.get1(in, x.X) {
			if e.kind == 0 && e.obj != nil {
				s.add(Elem{obj: e.obj, path: e.path + "/[]"})
			}
		}
		h.put1(in, x, s)
	case *ssa.Index:
		if _, ok := x.X.Type().Underlying().(*types.Array); ok {
			h.put(in, x, h.get(in, x.X).sub("/[]"))
		}
	case *ssa.Lookup:
		m, ok := x.X.Type().Underlying().(*types.Map)
		if !ok {
			return
		}
		v := vals{}
		ls := leaves(m.Elem())
		for _, l := range ls {
			v[l] = pset{nilElem: {}}
		}
		for e := range h.get1(in, x.X) {
			if e.kind == 0 && e.obj != nil {
				for _, l := range ls {
					v[l].addAll(h.cell(e.obj, e.path+"/v"+l))
				}
			}
		}
		if x.CommaOk {
			v = v.prefix("#0")
		}
		h.put(in, x, v)
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			h.put(in, x, h.load(h.get1(in, x.X), x.Type()))
		case token.ARROW:
			t := x.Type()
			if tup, ok := t.(*types.Tuple); ok {
				t = tup.At(0).Type()
			}
			v := vals{}
			for _, l := range leaves(t) {
				v[l] = pset{nilElem: {}}
			}
			for e := range h.get1(in, x.X) {
				if e.kind == 0 && e.obj != nil {
					for l := range v {
						v[l].addAll(h.cell(e.obj, e.path+"/v"+l))
					}
				}
			}
			if x.CommaOk {
				v = v.prefix("#0")
			}
			h.put(in, x, v)
		}
	case *ssa.Store:
		h.store(in, x, h.get1(in, x.Addr), h.get(in, x.Val), "store")
	case *ssa.MapUpdate:
		m := h.get1(in, x.Map)
		h.store(in, x, m, h.get(in, x.Key).prefix("/k"), "map update")
		h.store(in, x, m, h.get(in, x.Value).prefix("/v"), "map update")
		if len(h.get(in, x.Key)) == 0 && len(h.get(in, x.Value)) == 0 {
			h.store(in, x, m, vals{}, "map update")
		}
	case *ssa.Send:
		h.store(in, x, h.get1(in, x.Chan), h.get(in, x.X).prefix("/v"), "send")
	case *ssa.Phi:
		for k, e := range x.Edges {
			pred := x.Block().Preds[k]
			ok := false
			for si, s := range pred.Succs {
				if s == x.Block() && in.edges[[2]int{pred.Index, si}] {
					ok = true
				}
			}
			if ok {
				h.put(in, x, h.get(in, e))
			}
		}
	case *ssa.Slice:
		s := pset{}
		capped := x.Max != nil && sameTerm(x.Max, x.High)
		for e := range h.get1(in, x.X) {
			if capped {
				e.capped = true
			}
			s.add(e)
		}
		h.put1(in, x, s)
	case *ssa.Range:
		h.put(in, x, h.get(in, x.X))
	case *ssa.Next:
		if x.IsString {
			return
		}
		v := vals{}
		rng := x.Iter.(*ssa.Range)
		m := rng.X.Type().Underlying().(*types.Map)
		for e := range h.get1(in, x.Iter) {
			if e.kind == 0 && e.obj != nil {
				for _, l := range leaves(m.Key()) {
					v.join(vals{"#1" + l: h.cell(e.obj, e.path+"/k"+l)})
				}
				for _, l := range leaves(m.Elem()) {
					v.join(vals{"#2" + l: h.cell(e.obj, e.path+"/v"+l)})
				}
			}
		}
		h.put(in, x, v)
	case *ssa.Extract:
		v := vals{}
		p := "#" + strconv.Itoa(x.Index)
		for l, s := range h.get(in, x.Tuple) {
			if strings.HasPrefix(l, p) {
				rest := l[len(p):]
				if rest == "" || rest[0] == '/' {
					v[rest] = s
				}
			}
		}
		h.put(in, x, v)
	case *ssa.Call:
		h.call(in, x, x)
	case *ssa.Go:
		h.call(in, x, nil)
	case *ssa.Defer:
		h.call(in, x, nil)
	case *ssa.Return:
		for k, r := range x.Results {
			for l, s := range h.get(in, r) {
				key := "#" + strconv.Itoa(k) + l
				if in.results[key] == nil {
					in.results[key] = pset{}
				}
				if in.results[key].addAll(s) {
					h.changed = true
				}
			}
		}
	case *ssa.Select:
		fail("select statement at %s is not modelled", h.p.InstrPos(x))
	case *ssa.BinOp, *ssa.If, *ssa.Jump, *ssa.Panic, *ssa.RunDefers, *ssa.DebugRef:
	default:
		fail("instruction %T at %s is not modelled", i, h.p.InstrPos(i))
	}
}

func sameTerm(a, b ssa.Value) bool {
	if a == nil || b == nil {
		return false
	}
	if a == b {
		return true
	}
	ca, ok1 := a.(*ssa.Const)
	cb, ok2 := b.(*ssa.Const)
	if ok1 && ok2 && ca.Value != nil && cb.Value != nil {
		return ca.Value.ExactString() == cb.Value.ExactString()
	}
	la, ok1 := a.(*ssa.Call)
	lb, ok2 := b.(*ssa.Call)
	if ok1 && ok2 {
		ba, ok3 := la.Call.Value.(*ssa.Builtin)
		bb, ok4 := lb.Call.Value.(*ssa.Builtin)
		if ok3 && ok4 && ba.Name() == bb.Name() && ba.Name() == "len" {
			return sameTerm(la.Call.Args[0], lb.Call.Args[0])
		}
	}
	return false
}

func (h *Heap) convert(in *Inst, x ssa.Instruction, from ssa.Value) {
	v := x.(ssa.Value)
	if sl, ok := v.Type().Underlying().(*types.Slice); ok {
		if b, ok := from.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			o := h.alloc(in, x, "", sl)
			h.put1(in, v, pset{Elem{obj: o}: {}})
			return
		}
	}
	h.put(in, v, h.get(in, from))
}

// assert narrows interface elements to a type.
func (h *Heap) assert(s pset, t types.Type) vals {
	out := vals{}
	for _, l := range leaves(t) {
		out[l] = pset{}
	}
	if it, ok := t.Underlying().(*types.Interface); ok {
		for e := range s {
			switch {
			case e.kind == 'n' && e.dyn == "":
			case e.kind == 'o' && e.dyn == "":
				out[""].addAll(h.regionLeaf(t, h.globalsOnly))
			case types.Implements(h.dyn[e.dyn], it):
				out[""].add(e)
			}
		}
		return out
	}
	k := h.dynKey(t)
	for e := range s {
		if e.kind == 'o' && e.dyn == "" {
			out.join(h.regionVals(t))
			continue
		}
		if e.dyn != k {
			continue
		}
		if pointerShaped(t) {
			if e.kind != 'o' {
				e.dyn = ""
			}
			out[""].add(e)
		} else if e.obj != nil {
			out.join(h.load(pset{Elem{obj: e.obj, path: e.path}: {}}, t))
		}
	}
	return out
}

// chain renders how an instance is reached.
func (h *Heap) chain(in *Inst) string {
	var parts []string
	for a := in; a != nil; a = a.parent {
		s := shortFn(a.fn)
		if a.call != nil {
			s += " (called at " + h.p.InstrPos(a.call) + ")"
		}
		parts = append(parts, s)
	}
	for i, j := 0, len(parts)-1; i < j; i, j = i+1, j-1 {
		parts[i], parts[j] = parts[j], parts[i]
	}
	return strings.Join(parts, " -> ")
}

func (h *Heap) sortedEffects() []*Effect {
	var keys []string
	for k := range h.effects {
		keys = append(keys, k)
	}
	var out []*Effect
	for _, k := range keys {
		out = append(out, h.effects[k])
	}
	sort.Slice(out, func(i, j int) bool {
		a, b := out[i], out[j]
		if pa, pb := h.p.InstrPos(a.instr), h.p.InstrPos(b.instr); pa != pb {
			return pa < pb
		}
		if a.obj.id != b.obj.id {
			return a.obj.id < b.obj.id
		}
		return a.path < b.path
	})
	return out
}

func pathName(t types.Type, path string) string {
	s := ""
	for path != "" {
		i := strings.Index(path[1:], "/")
		tok := path[1:]
		if i >= 0 {
			tok, path = path[1:i+1], path[i+1:]
		} else {
			path = ""
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			n, _ := strconv.Atoi(tok)
			s += "." + u.Field(n).Name()
			t = u.Field(n).Type()
		case *types.Array:
			s += "[...]"
			t = u.Elem()
		case *types.Slice:
			s += "[...]"
			t = u.Elem()
		case *types.Map:
			s += "[...]"
			if tok == "k" {
				t = u.Key()
			} else {
				t = u.Elem()
			}
		default:
			return s
		}
	}
	return s
}
