package main

// Engine B, part 2: the transfer functions.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type item struct {
	st  *State
	env map[ssa.Value]Val
	clk int
}

func (it *item) fork() *item {
	n := &item{st: it.st.fork(), env: make(map[ssa.Value]Val, len(it.env)), clk: it.clk}
	for k, v := range it.env {
		n.env[k] = v
	}
	return n
}

type res struct {
	it *item
	v  Val
}

// Outcome is one way a call ends.
type Outcome struct {
	st       *State
	ret      Val
	panicked bool
	pval     Val
	site     ssa.Instruction
}

// Mon is what a property plugs into the interpreter.
type Mon struct {
	onCall   func(it *item, fn *ssa.Function, args []Val, site ssa.CallInstruction) ([]res, bool)
	onInvoke func(it *item, recv IfaceV, m *types.Func, args []Val, site ssa.CallInstruction) ([]res, bool)
	onFuncV  func(it *item, f FuncV, args []Val, site ssa.CallInstruction) ([]res, bool)
	onAppend func(it *item, dst Val, elems []Val, site ssa.Instruction)
	onBounds func(it *item, what string, arr *Obj2, ok []Form, site ssa.Instruction)
	onBranch func(it *item, f Form)
	onSearch func(it *item, re Val, sl SliceV, found bool, loc int)
	onStore  func(it *item, p PtrV, v Val, site ssa.Instruction)
	// skip says which places are not followed: stores to them are dropped, and
	// a program that reads one cannot be decided
	skip     func(st *State, p PtrV) bool
	skipped  func(it *item, p PtrV) (Val, bool)            // what a place that is skipped reads as
	absorb   func(st *State, v Val, src int) ([]Val, bool) // how elements are kept in a summary
	onBack   func(lp *loop, fn *ssa.Function, head *item, backs []*item)
	eager    bool                       // onBack is told of every turn, not only those of the invariant found
	onText   func(it *item, r *textRef) // a stretch of text is made a string
	onHead   func(it *item, wm int)     // a state about to be joined at a loop head; wm: clock when the loop was entered
	onNext   func(it *item, iter IterV, m *Obj2, site *ssa.Next) ([]res, bool)
	onMapSet func(it *item, m MapV, k, v Val, site ssa.Instruction)
	// onMapGet answers a lookup instead of the map; dropSet says which maps are not kept
	onMapGet func(it *item, m MapV, k Val, x *ssa.Lookup) ([]res, bool)
	dropSet  func(it *item, m MapV) bool
	sink     func(elem types.Type) bool // lists of such elements are not kept
	skolem   func(st *State, o *Obj2) []Lin
	key      func(it *item) string
	recur    func(it *item, fn *ssa.Function, args []Val, site ssa.CallInstruction) ([]res, bool)
	elem     func(it *item, o *Obj2, idx Lin, v Val)
	tracked  []Lin // indices compared with loop counters at loop heads
	disj     int   // states kept apart before they are merged
	unroll   int   // how often loops go round before states are joined
	plainKey bool  // what was found out about inputs that stay as they are does not partition states
	anchors  []Lin // lengths that integers are always compared with when states are joined
	peel     func(fn *ssa.Function, lp *loop) bool
	tplSym   func(Sym) bool // the outside symbols that facts about summarised matches may mention
	trackKey Val            // a map key followed through the maps the program makes
}

// Interp runs the analysis.
type Interp struct {
	lzName  map[string]string // names of booleans and strings that came from outside
	merging bool              // states are merged, not at a loop head
	joins   int               // states joined so far
	joinN   int               // how often the loop head being joined has changed
	p       *Prog
	names   map[Sym]string
	nsym    Sym
	nid     int
	quiet   int
	mon     Mon
	stack   []*ssa.Function
	steps   int
	max     int
	memo    map[int]*lazyMemo
	origin  map[int]origin // of interface and function symbols
	globals map[*ssa.Global]int
	frames  map[*ssa.Function]*bframe
	peel    int
	nPeeled int
	fns     map[*ssa.Function]bool
	nloops  int
	funNil  map[*ssa.Global]bool
	depth   int
	tracing bool
	pureInv map[string]Val
	over    int
	clock   int
	sink    int
	sinkLn  Lin

	idStamp  map[int]int
	symStamp map[Sym]int
	objInit  map[int]*Obj2
	elemLz   map[string]LazyV
	dynLz    map[string]LazyV
	globLz   map[*ssa.Global]LazyV
	holes    map[string]bool
	vagueSym map[Sym]bool
	lostKey  bool
	lostBool bool         // the meaning of a comparison was lost in a join
	sumRead  bool         // an element was read from a summary, its position unknown
	drawn    map[int]bool // arrays of which some element, order unknown, was used
}

type origin struct {
	src   int
	idx   Lin
	epoch int
}

type lazyMemo struct {
	v    Val
	cons []Lin
	objs map[int]*Obj2
}

func newInterp(p *Prog) *Interp {
	return &Interp{p: p, names: map[Sym]string{}, memo: map[int]*lazyMemo{}, origin: map[int]origin{}, globals: map[*ssa.Global]int{}, frames: map[*ssa.Function]*bframe{}, max: 3000000, fns: map[*ssa.Function]bool{}, tracing: os.Getenv("TRACE") != "", pureInv: map[string]Val{}, idStamp: map[int]int{}, symStamp: map[Sym]int{}, objInit: map[int]*Obj2{}, elemLz: map[string]LazyV{}, dynLz: map[string]LazyV{}, globLz: map[*ssa.Global]LazyV{}, holes: map[string]bool{}, drawn: map[int]bool{}, vagueSym: map[Sym]bool{}, lzName: map[string]string{}}
}

// Every number carries a stamp: when it was made or, for something that came out
// of looking at an unknown, when that unknown was made.  What was made before a
// loop does not change during it.
func (in *Interp) now() int {
	if in.over > 0 {
		return in.over
	}
	in.clock++
	return in.clock
}

func (in *Interp) id() int {
	in.nid++
	in.idStamp[in.nid] = in.now()
	return in.nid
}

func (in *Interp) sym(name string) Sym {
	in.nsym++
	in.names[in.nsym] = fmt.Sprintf("%s%d", name, in.nsym)
	in.symStamp[in.nsym] = in.now()
	return in.nsym
}

func (in *Interp) at(stamp int, f func()) {
	old := in.over
	in.over = stamp
	f()
	in.over = old
}

func (in *Interp) linStamp(e Lin) int {
	m := 1
	for _, t := range e.t {
		if s := in.symStamp[t.s]; s > m {
			m = s
		}
	}
	return m
}

func max2(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// stampOf is the latest stamp inside a value.
func (in *Interp) stampOf(v Val) int {
	m := 1
	switch x := v.(type) {
	case IntV:
		return in.linStamp(x.e)
	case BoolV:
		return in.clock
	case StrV:
		if x.konst != nil {
			return 1
		}
		m = in.idStamp[x.id]
		if x.text != nil {
			m = max2(m, max2(in.linStamp(x.text.lo), in.linStamp(x.text.hi)))
		}
	case TopV:
		return max2(1, in.idStamp[x.id])
	case PtrV:
		m = max2(1, in.idStamp[x.obj])
		if x.idx != nil {
			m = max2(m, in.linStamp(*x.idx))
		}
	case SliceV:
		m = max2(in.idStamp[x.arr], max2(in.linStamp(x.off), in.linStamp(x.ln)))
	case MapV:
		return in.idStamp[x.obj]
	case IfaceV:
		if x.dyn == nil {
			return in.idStamp[x.sym]
		}
		return in.stampOf(x.v)
	case FuncV:
		if x.fn == nil {
			return in.idStamp[x.sym]
		}
		for _, b := range x.binds {
			m = max2(m, in.stampOf(b))
		}
	case StructV:
		for _, f := range x.fields {
			m = max2(m, in.stampOf(f))
		}
	case TupleV:
		for _, f := range x.vs {
			m = max2(m, in.stampOf(f))
		}
	case LazyV:
		return in.idStamp[x.id]
	case NilV:
	default:
		return in.clock
	}
	return m
}
func (in *Interp) symV(name string) Lin { return linS(in.sym(name)) }

func (in *Interp) lazy(t types.Type, name string) LazyV {
	return LazyV{typ: t, name: name, id: in.id()}
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

// mat gives the value an unknown stands for.
func (in *Interp) mat(st *State, l LazyV) Val {
	m := in.memo[l.id]
	if m == nil {
		m = &lazyMemo{objs: map[int]*Obj2{}}
		in.at(max2(1, in.idStamp[l.id]), func() { m.v = in.matNew(m, l.typ, l.name) })
		in.memo[l.id] = m
		for id, o := range m.objs {
			in.objInit[id] = o
		}
	}
	for id, o := range m.objs {
		if st.heap[id] == nil {
			st.heap[id] = o
		}
	}
	for _, c := range m.cons {
		st.cons.addGE(c)
	}
	return m.v
}

func (in *Interp) matNew(m *lazyMemo, t types.Type, name string) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			e := in.symV(name)
			if isUnsigned(t) {
				m.cons = append(m.cons, e)
			}
			return IntV{e}
		case u.Info()&types.IsBoolean != 0:
			id := fmt.Sprintf("b%d", in.id())
			in.lzName[id] = name
			return BoolV{Form{kind: fOpaque, id: id}}
		case u.Info()&types.IsString != 0:
			ln := in.symV("len_" + name)
			m.cons = append(m.cons, ln)
			id := in.id()
			in.lzName[fmt.Sprintf("s%d", id)] = name
			return StrV{id: id, ln: ln}
		}
		return TopV{in.id()}
	case *types.Pointer:
		id := in.id()
		if at, ok := u.Elem().Underlying().(*types.Array); ok {
			n := linC(at.Len())
			m.objs[id] = &Obj2{typ: at.Elem(), kind: 'a', lazy: true, name: name, n: n, segs: []Seg{{lo: linC(0), hi: n, kind: sgOrig, src: id, delta: linC(0)}}}
			return PtrV{obj: id}
		}
		m.objs[id] = &Obj2{typ: u.Elem(), kind: 'o', lazy: true, name: name, val: in.lazy(u.Elem(), name)}
		return PtrV{obj: id}
	case *types.Slice:
		id := in.id()
		ln, cp := in.symV("len_"+name), in.symV("cap_"+name)
		m.cons = append(m.cons, ln, cp.sub(ln))
		m.objs[id] = &Obj2{typ: u.Elem(), kind: 'a', lazy: true, name: name, n: cp, segs: []Seg{{lo: linC(0), hi: cp, kind: sgOrig, src: id, delta: linC(0)}}}
		return SliceV{arr: id, off: linC(0), ln: ln, cp: cp}
	case *types.Map:
		id := in.id()
		m.objs[id] = &Obj2{typ: t, kind: 'm', lazy: true, name: name}
		return MapV{id}
	case *types.Interface:
		return IfaceV{sym: in.id(), st: t}
	case *types.Signature:
		return FuncV{sym: in.id(), name: name}
	case *types.Struct:
		s := StructV{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			s.fields = append(s.fields, in.lazy(u.Field(i).Type(), name+"."+u.Field(i).Name()))
		}
		return s
	case *types.Tuple:
		var tv TupleV
		for i := 0; i < u.Len(); i++ {
			tv.vs = append(tv.vs, in.lazy(u.At(i).Type(), name))
		}
		return tv
	}
	return TopV{in.id()}
}

func (in *Interp) force(st *State, v Val) Val {
	if l, ok := v.(LazyV); ok {
		return in.mat(st, l)
	}
	return v
}

// unknown makes a new value of type t.
func (in *Interp) unknown(st *State, t types.Type, name string) Val {
	return in.mat(st, in.lazy(t, name))
}

func (in *Interp) zero(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return IntV{linC(0)}
		case u.Info()&types.IsBoolean != 0:
			return BoolV{constForm(false)}
		case u.Info()&types.IsString != 0:
			e := ""
			return StrV{konst: &e, ln: linC(0)}
		}
		return TopV{}
	case *types.Struct:
		s := StructV{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			s.fields = append(s.fields, in.zero(u.Field(i).Type()))
		}
		return s
	case *types.Array:
		fail("array value of type %s", t)
	}
	return NilV{}
}

func (in *Interp) konst(c *ssa.Const) Val {
	if c.Value == nil {
		return in.zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Int:
		if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			if i, ok := constant.Int64Val(c.Value); ok && i < 1<<31 && i > -(1<<31) {
				return IntV{linC(i)}
			}
			return IntV{in.symV("big")}
		}
		return TopV{in.id()}
	case constant.Bool:
		return BoolV{constForm(constant.BoolVal(c.Value))}
	case constant.String:
		s := constant.StringVal(c.Value)
		return StrV{konst: &s, ln: linC(int64(len(s)))}
	}
	return TopV{in.id()}
}

func strC(s string) StrV { return StrV{konst: &s, ln: linC(int64(len(s)))} }

func (in *Interp) global(st *State, g *ssa.Global) Val {
	id, ok := in.globals[g]
	if !ok {
		in.at(1, func() { id = in.id() })
		in.globals[g] = id
	}
	if st.heap[id] == nil {
		t := deref(g.Type())
		if at, ok := t.Underlying().(*types.Array); ok {
			n := linC(at.Len())
			st.heap[id] = &Obj2{typ: at.Elem(), kind: 'a', lazy: true, name: g.Name(), n: n, segs: []Seg{{lo: linC(0), hi: n, kind: sgOrig, src: id, delta: linC(0)}}}
		} else {
			l, ok := in.globLazy(g)
			o := &Obj2{typ: t, kind: 'o', lazy: true, name: g.Name(), val: l}
			st.heap[id] = o
			if ok {
				// set once, by the package's initialisation, to something not nil
				v := in.mat(st, l)
				if r := refOf(v); r != 0 {
					st.nils[r] = false
				}
				o.val = v
			}
		}
	}
	return PtrV{obj: id}
}

func (in *Interp) globLazy(g *ssa.Global) (LazyV, bool) {
	l, ok := in.globLz[g]
	if !ok {
		in.at(1, func() { l = in.lazy(deref(g.Type()), g.Name()) })
		in.globLz[g] = l
	}
	return l, in.p.initNonNil(g)
}

// initNonNil: the global is only stored by its package's initialiser, and what
// is stored there is the result of a call or an address.
func (p *Prog) initNonNil(g *ssa.Global) bool {
	if p.nonNilGlobals == nil {
		p.nonNilGlobals = map[*ssa.Global]bool{}
		bad := map[*ssa.Global]bool{}
		seen := map[*ssa.Global]bool{}
		fns := append([]*ssa.Function(nil), p.Funcs...)
		for _, sp := range p.Pkgs {
			fns = append(fns, sp.Func("init"))
		}
		for _, fn := range fns {
			if fn == nil {
				continue
			}
			for _, b := range fn.Blocks {
				for _, i := range b.Instrs {
					s, ok := i.(*ssa.Store)
					if !ok {
						continue
					}
					gg, ok := s.Addr.(*ssa.Global)
					if !ok {
						continue
					}
					seen[gg] = true
					if fn.Name() != "init" || fn.Synthetic == "" {
						bad[gg] = true
						continue
					}
					switch s.Val.(type) {
					case *ssa.Call, *ssa.Alloc, *ssa.MakeInterface, *ssa.MakeMap, *ssa.MakeClosure, *ssa.TypeAssert, *ssa.Function, *ssa.Extract, *ssa.ChangeInterface, *ssa.ChangeType:
					default:
						bad[gg] = true
					}
				}
			}
		}
		for gg := range seen {
			if !bad[gg] {
				p.nonNilGlobals[gg] = true
			}
		}
	}
	return p.nonNilGlobals[g]
}

func refOf(v Val) int {
	switch x := v.(type) {
	case PtrV:
		if x.idx == nil && x.path == "" {
			return x.obj
		}
	case SliceV:
		return x.arr
	case MapV:
		return x.obj
	case IfaceV:
		if x.dyn == nil {
			return x.sym
		}
	case FuncV:
		if x.fn == nil {
			return x.sym
		}
	}
	return 0
}

// nilForm is the condition that v is nil.
func (in *Interp) nilForm(st *State, v Val) Form {
	v = in.force(st, v)
	switch v.(type) {
	case NilV:
		return constForm(true)
	}
	if r := refOf(v); r != 0 {
		return Form{kind: fNil, ref: r}
	}
	return constForm(false)
}

func (in *Interp) nonNil(st *State, v Val) {
	if r := refOf(v); r != 0 {
		if _, ok := st.nils[r]; !ok {
			st.nils[r] = false
		}
	}
}

func (in *Interp) eval(it *item, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return in.konst(x)
	case *ssa.Function:
		return FuncV{fn: x}
	case *ssa.Global:
		return in.global(it.st, x)
	}
	r, ok := it.env[v]
	if !ok {
		fail("no value for %s in %s", v.Name(), v.Parent())
	}
	r = in.force(it.st, r)
	return r
}

func (in *Interp) branch(it *item, f Form) (t, e *item) {
	switch it.st.truth(f) {
	case 1:
		return it, nil
	case -1:
		return nil, it
	}
	t, e = it, it.fork()
	t.st.assume(f)
	e.st.assume(f.not())
	if in.mon.onBranch != nil {
		in.mon.onBranch(t, f)
		in.mon.onBranch(e, f.not())
	}
	if t.st.dead() {
		t = nil
	}
	if e.st.dead() {
		e = nil
	}
	return
}

// ---- places ----

func getPath(in *Interp, st *State, v Val, path string) Val {
	for i := 0; i < len(path); i++ {
		v = in.force(st, v)
		s, ok := v.(StructV)
		if !ok {
			fail("field of %T", v)
		}
		v = s.fields[path[i]]
	}
	return v
}

func setPath(in *Interp, st *State, v Val, path string, nv Val) Val {
	if path == "" {
		return nv
	}
	v = in.force(st, v)
	s, ok := v.(StructV)
	if !ok {
		fail("field of %T", v)
	}
	n := StructV{typ: s.typ, fields: append([]Val(nil), s.fields...)}
	n.fields[path[0]] = setPath(in, st, s.fields[path[0]], path[1:], nv)
	return n
}

func (in *Interp) load(it *item, p Val, site ssa.Instruction) []res {
	pv, ok := in.force(it.st, p).(PtrV)
	if !ok {
		if _, isNil := p.(NilV); isNil {
			return nil // a nil dereference ends this path
		}
		fail("load through %T", p)
	}
	in.nonNil(it.st, PtrV{obj: pv.obj})
	o := it.st.heap[pv.obj]
	if o == nil {
		fail("load from unknown object")
	}
	if in.mon.skip != nil && site != nil && in.mon.skip(it.st, pv) {
		if in.mon.skipped != nil {
			if v, ok := in.mon.skipped(it, pv); ok {
				return []res{{it, v}}
			}
		}
		fail("a place that is not followed is read")
	}
	if pv.idx != nil {
		var out []res
		for _, r := range in.readElem(it, pv.obj, *pv.idx) {
			v := getPath(in, r.it.st, r.v, pv.path)
			out = append(out, res{r.it, in.force(r.it.st, v)})
		}
		return out
	}
	if o.kind == 'a' {
		fail("load of a whole array")
	}
	v := getPath(in, it.st, o.val, pv.path)
	if l, ok := v.(LazyV); ok {
		mv := in.mat(it.st, l)
		if _, isStruct := mv.(StructV); !isStruct {
			m := it.st.mut(pv.obj)
			m.val = setPath(in, it.st, m.val, pv.path, mv)
		}
		v = mv
	}
	return []res{{it, v}}
}

func (in *Interp) store(it *item, p, v Val, site ssa.Instruction) []*item {
	pv, ok := in.force(it.st, p).(PtrV)
	if !ok {
		if _, isNil := p.(NilV); isNil {
			return nil
		}
		fail("store through %T", p)
	}
	in.nonNil(it.st, PtrV{obj: pv.obj})
	if in.mon.onStore != nil {
		in.mon.onStore(it, pv, v, site)
	}
	if in.mon.skip != nil && in.mon.skip(it.st, pv) {
		return []*item{it}
	}
	if pv.idx != nil {
		if pv.path == "" {
			var out []*item
			for _, x := range in.countUnset(it, pv.obj, *pv.idx, v) {
				out = append(out, in.writeElem(x, pv.obj, *pv.idx, v)...)
			}
			return out
		}
		var out []*item
		for _, r := range in.readElem(it, pv.obj, *pv.idx) {
			out = append(out, in.writeElem(r.it, pv.obj, *pv.idx, setPath(in, r.it.st, r.v, pv.path, v))...)
		}
		return out
	}
	o := it.st.mut(pv.obj)
	if o.kind == 'a' {
		fail("store of a whole array")
	}
	o.dirty = true
	o.val = setPath(in, it.st, o.val, pv.path, v)
	return []*item{it}
}

// place splits the state until idx lies in a known segment and relates to the
// tracked indices of the array; it gives the segment numbers.
func (in *Interp) place(it *item, id int, idx Lin, f func(it *item, seg int)) {
	o := it.st.heap[id]
	cut := func(form Form) bool {
		if it.st.truth(form) != 0 {
			return false
		}
		t, e := in.branch(it, form)
		if t != nil {
			in.place(t, id, idx, f)
		}
		if e != nil {
			in.place(e, id, idx, f)
		}
		return true
	}
	if in.mon.skolem != nil {
		for _, k := range in.mon.skolem(it.st, o) {
			if cut(Form{kind: fGE, e: idx.sub(k).plus(-1)}) {
				return
			}
			if cut(Form{kind: fEQ, e: idx.sub(k)}) {
				return
			}
		}
	}
	for i, s := range o.segs {
		if it.st.le(s.hi, s.lo) {
			continue // empty
		}
		if i == len(o.segs)-1 {
			f(it, i)
			return
		}
		below := Form{kind: fGE, e: s.hi.sub(idx).plus(-1)}
		if cut(below) {
			return
		}
		if it.st.truth(below) > 0 {
			f(it, i)
			return
		}
	}
	// every segment is empty: the index is out of bounds
}

func (in *Interp) readElem(it *item, id int, idx Lin) []res {
	if id == in.sink && in.sink != 0 {
		fail("read of a list that is not kept")
	}
	var out []res
	in.place(it, id, idx, func(it *item, seg int) {
		o := it.st.heap[id]
		s := o.segs[seg]
		switch s.kind {
		case sgZero:
			out = append(out, res{it, in.zero(o.typ)})
		case sgVal:
			out = append(out, res{it, in.force(it.st, s.v)})
		case sgOrig:
			out = append(out, in.origElem(it, s.src, idx.add(s.delta), o)...)
		case sgGroups:
			out = append(out, in.groupElem(it, id, idx)...)
		case sgSum:
			for _, p := range o.pins {
				if it.st.eq(p.idx, idx) {
					out = append(out, res{it, p.v})
					return
				}
			}
			in.sumRead = true
			if s.alts == nil {
				v := in.unknown(it.st, o.typ, o.name)
				if sl, ok := v.(SliceV); ok {
					_ = sl
				}
				out = append(out, res{it, v})
				return
			}
			for i, a := range s.alts {
				x := it
				if i < len(s.alts)-1 {
					x = it.fork()
				}
				switch t := a.(type) {
				case TemplV:
					v := in.instantiate(x, t, idx)
					if x.st.cons.infeasible() {
						continue
					}
					out = append(out, res{x, v})
				case AnyOf:
					in.drawn[t.src] = true
					j := in.symV("any")
					x.st.cons.addGE(j)
					out = append(out, in.readOrigAny(x, t.src, j, o)...)
				default:
					v := in.force(x.st, a)
					if bv, ok := v.(BoolV); ok && x.st.truth(bv.f) != 0 && len(s.alts) > 1 {
						in.pin(x.st, id, idx, v)
					}
					out = append(out, res{x, v})
				}
			}
		}
	})
	return out
}

func (in *Interp) readOrigAny(it *item, src int, j Lin, o *Obj2) []res {
	if so := it.st.heap[src]; so != nil {
		it.st.cons.addGE(so.n.sub(j).plus(-1))
		if in.mon.skolem != nil {
			for _, k := range in.mon.skolem(it.st, so) {
				var out []res
				t, e := in.branch(it, Form{kind: fEQ, e: j.sub(k)})
				if t != nil {
					out = append(out, in.origElem(t, src, k, o)...)
				}
				if e != nil {
					out = append(out, in.origElem(e, src, j, o)...)
				}
				return out
			}
		}
	}
	return in.origElem(it, src, j, o)
}

// origElem is the element of the initial content of an array.
func (in *Interp) origElem(it *item, src int, j Lin, o *Obj2) []res {
	so := it.st.heap[src]
	if so == nil {
		fail("source array gone")
	}
	j = it.st.cons.norm(j)
	// an element looked at before, possibly the same one
	var keys []string
	for k := range so.elems {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		e := so.elems[k]
		if it.st.eq(e.idx, j) {
			v := in.force(it.st, e.v)
			in.setIdx(it.st, v, j)
			return []res{{it, v}}
		}
	}
	for _, k := range keys {
		e := so.elems[k]
		if it.st.cons.entailsNE(e.idx.sub(j)) {
			continue
		}
		t, f := in.branch(it, Form{kind: fEQ, e: e.idx.sub(j)})
		var out []res
		if t != nil {
			v := in.force(t.st, e.v)
			in.setIdx(t.st, v, j)
			out = append(out, res{t, v})
		}
		if f != nil {
			out = append(out, in.origElem(f, src, j, o)...)
		}
		return out
	}
	l := in.elemLazy(src, so.epoch, j, so.typ, so.name)
	v := in.mat(it.st, l)
	if v2, ok := v.(IfaceV); ok {
		in.origin[v2.sym] = origin{src, j, so.epoch}
	}
	if v2, ok := v.(FuncV); ok {
		in.origin[v2.sym] = origin{src, j, so.epoch}
	}
	if v2, ok := v.(PtrV); ok && in.mon.plainKey {
		in.origin[v2.obj] = origin{src, j, so.epoch}
	}
	in.setIdx(it.st, v, j)
	m := it.st.mut(src)
	if m.elems == nil {
		m.elems = map[string]origElem{}
	}
	m.elems[j.key()] = origElem{j, v}
	if in.mon.elem != nil && so.epoch == 0 {
		in.mon.elem(it, so, j, v)
	}
	return []res{{it, v}}
}

// setIdx notes where in its list an object was found.
func (in *Interp) setIdx(st *State, v Val, j Lin) {
	if pv, ok := v.(PtrV); ok {
		if q := st.heap[pv.obj]; q != nil && q.gidx == nil {
			m := st.mut(pv.obj)
			g := j
			m.gidx = &g
		}
	}
}

func elemKey(src, epoch int, j Lin) string { return fmt.Sprintf("%d.%d/%s", src, epoch, j.key()) }

func (in *Interp) elemLazy(src, epoch int, j Lin, t types.Type, name string) LazyV {
	k := elemKey(src, epoch, j)
	l, ok := in.elemLz[k]
	if !ok {
		in.at(max2(max2(in.idStamp[src], in.idStamp[epoch]), in.linStamp(j)), func() { l = in.lazy(t, name+"[]") })
		in.elemLz[k] = l
	}
	return l
}

// groupElem reads a capture group offset of a match: pairs (start, end) with
// -1,-1 for a group that took no part.
func (in *Interp) groupElem(it *item, id int, idx Lin) []res {
	o := it.st.heap[id]
	idx = it.st.cons.norm(idx)
	even, odd := parity(idx)
	pair := idx
	if odd {
		pair = idx.plus(-1)
	}
	if !even && !odd {
		v := in.symV("grp")
		it.st.cons.addGE(v.plus(1))
		it.st.cons.addGE(in.matchEnd(o).sub(v))
		return []res{{it, IntV{v}}}
	}
	k := pair.key()
	e, ok := o.elems[k]
	if !ok {
		a, b := in.symV("gs"), in.symV("ge")
		it.st.cons.addGE(a.plus(1))
		it.st.cons.addGE(b.sub(a))
		it.st.cons.addGE(in.matchEnd(o).sub(b))
		m := it.st.mut(id)
		if m.elems == nil {
			m.elems = map[string]origElem{}
		}
		e = origElem{pair, TupleV{[]Val{IntV{a}, IntV{b}}}}
		m.elems[k] = e
	}
	if even {
		return []res{{it, e.v.(TupleV).vs[0]}}
	}
	return []res{{it, e.v.(TupleV).vs[1]}}
}

func (in *Interp) matchEnd(o *Obj2) Lin {
	for _, s := range o.segs {
		if s.kind == sgVal && s.lo.isConst() && s.lo.c == 1 {
			if v, ok := s.v.(IntV); ok {
				return v.e
			}
		}
	}
	return in.symV("end")
}

func parity(e Lin) (even, odd bool) {
	for _, t := range e.t {
		if t.k%2 != 0 {
			return false, false
		}
	}
	if e.c%2 == 0 {
		return true, false
	}
	return false, true
}

func (in *Interp) instantiate(it *item, t TemplV, idx Lin) Val {
	m := map[Sym]Lin{}
	for _, s := range t.syms {
		m[s] = in.symV("t")
	}
	sub := func(e Lin) Lin { return substAll(e, m) }
	for _, c := range t.cons {
		it.st.cons.addGE(sub(c))
	}
	id := in.id()
	o := &Obj2{typ: t.typ, kind: 'a', name: "loc", tag: t.tag, n: sub(t.n), text: t.text}
	if t.span != nil {
		o.span = &textRef{t.span.t, sub(t.span.lo), sub(t.span.hi)}
	}
	g := idx
	o.gidx = &g
	for _, s := range t.segs {
		s.lo, s.hi = sub(s.lo), sub(s.hi)
		if s.kind == sgVal {
			if v, ok := s.v.(IntV); ok {
				s.v = IntV{sub(v.e)}
			}
		}
		o.segs = append(o.segs, s)
	}
	it.st.heap[id] = o
	it.st.owned[id] = true
	it.st.nils[id] = false
	return SliceV{arr: id, off: linC(0), ln: o.n, cp: o.n}
}

func substAll(e Lin, m map[Sym]Lin) Lin {
	out := Lin{c: e.c}
	for _, t := range e.t {
		if r, ok := m[t.s]; ok {
			out = out.addScaled(r, t.k)
		} else {
			out = out.addScaled(linS(t.s), t.k)
		}
	}
	return out
}

// pin remembers which of its possible values an element has, until the array
// is written or the state joined.
func (in *Interp) pin(st *State, id int, idx Lin, v Val) {
	o := st.mut(id)
	o.pins = append(o.pins[:len(o.pins):len(o.pins)], origElem{idx, v})
}

func (in *Interp) writeElem(it *item, id int, idx Lin, v Val) []*item {
	var out []*item
	in.place(it, id, idx, func(it *item, seg int) {
		o := it.st.mut(id)
		o.dirty = true
		o.pins = nil
		s := o.segs[seg]
		if s.kind == sgSum && !in.isTracked(it.st, o, idx) {
			// weak
			as, ok := in.absorbAll(it.st, o.typ, v)
			if !ok {
				s.alts = nil
			}
			for _, a := range as {
				s.alts = in.addAlt(it.st, s.alts, a)
			}
			o.segs[seg] = s
			out = append(out, it)
			return
		}
		var n []Seg
		n = append(n, o.segs[:seg]...)
		if !it.st.le(idx, s.lo) {
			l := s
			l.hi = idx
			n = append(n, l)
		}
		n = append(n, Seg{lo: idx, hi: idx.plus(1), kind: sgVal, v: v})
		if !it.st.le(s.hi, idx.plus(1)) {
			r := s
			r.lo = idx.plus(1)
			n = append(n, r)
		}
		n = append(n, o.segs[seg+1:]...)
		o.segs = n
		out = append(out, it)
	})
	return out
}

func (in *Interp) isTracked(st *State, o *Obj2, idx Lin) bool {
	if in.mon.skolem == nil {
		return false
	}
	for _, k := range in.mon.skolem(st, o) {
		if st.eq(idx, k) {
			return true
		}
	}
	return false
}

// ---- control flow ----

type loop struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	depth  int
}

type bframe struct {
	fn    *ssa.Function
	rpo   []*ssa.BasicBlock
	loops map[*ssa.BasicBlock]*loop
	live  map[*ssa.BasicBlock]map[ssa.Value]bool
}

func (in *Interp) frameOf(fn *ssa.Function) *bframe {
	if f := in.frames[fn]; f != nil {
		return f
	}
	f := &bframe{fn: fn, loops: map[*ssa.BasicBlock]*loop{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				walk(s)
			}
		}
		post = append(post, b)
	}
	walk(fn.Blocks[0])
	num := map[*ssa.BasicBlock]int{}
	for i := len(post) - 1; i >= 0; i-- {
		num[post[i]] = len(f.rpo)
		f.rpo = append(f.rpo, post[i])
	}
	for _, b := range f.rpo {
		for _, s := range b.Succs {
			if num[s] > num[b] {
				continue
			}
			if !s.Dominates(b) {
				fail("irreducible control flow in %s", fn)
			}
			l := f.loops[s]
			if l == nil {
				l = &loop{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
				f.loops[s] = l
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if l.blocks[x] {
					continue
				}
				l.blocks[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	in.frames[fn] = f
	return f
}

type scopeOut struct {
	exits map[*ssa.BasicBlock][]*item
	back  []*item
	outs  []Outcome
}

const maxDisj = 48

func (in *Interp) maxDisj() int {
	if in.mon.disj > 0 {
		return in.mon.disj
	}
	return maxDisj
}

func (in *Interp) runScope(fr *bframe, lp *loop, entry *ssa.BasicBlock, start *item) scopeOut {
	so := scopeOut{exits: map[*ssa.BasicBlock][]*item{}}
	pend := map[*ssa.BasicBlock][]*item{entry: {start.fork()}}
	base := start.fork()
	base.clk = in.clock
	in.clock++
	emit := func(s *ssa.BasicBlock, it *item) {
		switch {
		case lp != nil && s == lp.head:
			so.back = append(so.back, it)
		case lp != nil && !lp.blocks[s]:
			so.exits[s] = append(so.exits[s], it)
		default:
			pend[s] = append(pend[s], it)
		}
	}
	for _, b := range fr.rpo {
		if lp != nil && !lp.blocks[b] {
			continue
		}
		its := pend[b]
		if len(its) == 0 {
			continue
		}
		delete(pend, b)
		if len(its) > maxDisj || in.mon.disj > 0 && len(its) > 3 {
			its = in.mergeItems(base, its, in.liveAt(fr, b))
		}
		if inner := fr.loops[b]; inner != nil && inner != lp {
			for _, it := range its {
				ex, outs := in.runLoop(fr, inner, it)
				so.outs = append(so.outs, outs...)
				for _, s := range fr.rpo {
					for _, x := range ex[s] {
						emit(s, x)
					}
				}
			}
			continue
		}
		for _, it := range its {
			so.outs = append(so.outs, in.runBlock(fr, b, it, emit)...)
		}
	}
	if len(so.back) > in.maxDisj() && (in.mon.onBack == nil || in.quiet > 0) {
		so.back = in.mergeItems(base, so.back, in.liveAt(fr, lp.head))
	}
	if len(so.outs) > in.maxDisj() {
		so.outs = in.mergeOuts(base, so.outs)
	}
	return so
}

func (in *Interp) tick(n int) {
	in.steps += n
	checkTime()
	if in.steps > in.max {
		fail("analysis budget exceeded")
	}
}

func (in *Interp) runBlock(fr *bframe, b *ssa.BasicBlock, it *item, emit func(*ssa.BasicBlock, *item)) []Outcome {
	var outs []Outcome
	cur := []*item{it}
	for _, ins := range b.Instrs {
		if _, ok := ins.(*ssa.Phi); ok {
			continue
		}
		in.tick(len(cur))
		switch x := ins.(type) {
		case *ssa.Jump:
			for _, c := range cur {
				in.edge(b, b.Succs[0], c, emit)
			}
			return outs
		case *ssa.If:
			for _, c := range cur {
				v := in.eval(c, x.Cond)
				bv, ok := v.(BoolV)
				if !ok {
					fail("condition %T", v)
				}
				t, f := in.branch(c, bv.f)
				if t != nil {
					in.edge(b, b.Succs[0], t, emit)
				}
				if f != nil {
					in.edge(b, b.Succs[1], f, emit)
				}
			}
			return outs
		case *ssa.Return:
			for _, c := range cur {
				var r Val
				switch len(x.Results) {
				case 0:
				case 1:
					r = in.eval(c, x.Results[0])
				default:
					var tv TupleV
					for _, y := range x.Results {
						tv.vs = append(tv.vs, in.eval(c, y))
					}
					r = tv
				}
				outs = append(outs, Outcome{st: c.st, ret: r, site: x})
			}
			return outs
		case *ssa.Panic:
			for _, c := range cur {
				outs = append(outs, Outcome{st: c.st, panicked: true, pval: in.eval(c, x.X), site: x})
			}
			return outs
		case *ssa.DebugRef:
			continue
		case *ssa.RunDefers:
			continue
		}
		var nxt []*item
		for _, c := range cur {
			rs, os := in.step(fr, c, ins)
			for _, n := range rs {
				if !n.st.dead() {
					nxt = append(nxt, n)
				}
			}
			outs = append(outs, os...)
		}
		cur = nxt
		if len(cur) > maxDisj {
			// branches inside one instruction: keep them apart until the block ends
			if len(cur) > 40*maxDisj {
				fail("too many states")
			}
		}
		if len(cur) == 0 {
			return outs
		}
	}
	return outs
}

func (in *Interp) edge(b, s *ssa.BasicBlock, it *item, emit func(*ssa.BasicBlock, *item)) {
	pi := -1
	for i, p := range s.Preds {
		if p == b {
			pi = i
		}
	}
	var phis []*ssa.Phi
	var vals []Val
	for _, ins := range s.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		vals = append(vals, in.eval(it, p.Edges[pi]))
	}
	for i, p := range phis {
		it.env[p] = vals[i]
	}
	emit(s, it)
}

// exec runs a function.
func (in *Interp) exec(fn *ssa.Function, args, binds []Val, st *State) []Outcome {
	if fn.Blocks == nil {
		fail("no body for %s", fn)
	}
	if len(in.stack) > 40 {
		fail("call depth")
	}
	in.fns[fn] = true
	in.stack = append(in.stack, fn)
	defer func() { in.stack = in.stack[:len(in.stack)-1] }()
	it := &item{st: st, env: map[ssa.Value]Val{}}
	for i, p := range fn.Params {
		it.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		it.env[p] = binds[i]
	}
	fr := in.frameOf(fn)
	so := in.runScope(fr, nil, fn.Blocks[0], it)
	return so.outs
}

func (in *Interp) active(fn *ssa.Function) bool {
	for _, f := range in.stack {
		if f == fn {
			return true
		}
	}
	return false
}

// ---- instructions ----

func one(it *item, v ssa.Value, x Val) []*item {
	it.env[v] = x
	return []*item{it}
}

func (in *Interp) step(fr *bframe, it *item, ins ssa.Instruction) ([]*item, []Outcome) {
	switch x := ins.(type) {
	case *ssa.Alloc:
		return one(it, x, in.alloc(it.st, deref(x.Type()), x.Comment)), nil
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			var out []*item
			for _, r := range in.load(it, in.eval(it, x.X), x) {
				out = append(out, one(r.it, x, r.v)...)
			}
			return out, nil
		case token.NOT:
			return one(it, x, BoolV{in.eval(it, x.X).(BoolV).f.not()}), nil
		case token.SUB:
			if v, ok := in.eval(it, x.X).(IntV); ok {
				return one(it, x, IntV{v.e.neg()}), nil
			}
			return one(it, x, TopV{in.id()}), nil
		case token.XOR:
			return one(it, x, in.unknown(it.st, x.Type(), "xor")), nil
		}
		fail("unary %s", x.Op)
	case *ssa.BinOp:
		return one(it, x, in.binop(it, x)), nil
	case *ssa.Store:
		return in.store(it, in.eval(it, x.Addr), in.eval(it, x.Val), x), nil
	case *ssa.FieldAddr:
		p := in.eval(it, x.X)
		pv, ok := p.(PtrV)
		if !ok {
			return nil, nil // nil dereference
		}
		in.nonNil(it.st, PtrV{obj: pv.obj})
		pv.path += string(rune(x.Field))
		if x.Field > 127 {
			fail("struct too wide")
		}
		return one(it, x, pv), nil
	case *ssa.Field:
		v := getPath(in, it.st, in.eval(it, x.X), string(rune(x.Field)))
		return one(it, x, in.force(it.st, v)), nil
	case *ssa.IndexAddr:
		i, ok := in.eval(it, x.Index).(IntV)
		if !ok {
			fail("index %T", in.eval(it, x.Index))
		}
		switch b := in.eval(it, x.X).(type) {
		case SliceV:
			in.bounds(it, "index", b.arr, x, Form{kind: fGE, e: i.e}, Form{kind: fGE, e: b.ln.sub(i.e).plus(-1)})
			if it.st.dead() {
				return nil, nil
			}
			e := b.off.add(i.e)
			return one(it, x, PtrV{obj: b.arr, idx: &e}), nil
		case PtrV:
			o := it.st.heap[b.obj]
			if o == nil || o.kind != 'a' || b.path != "" {
				fail("index into an array inside a struct")
			}
			e := i.e
			return one(it, x, PtrV{obj: b.obj, idx: &e}), nil
		case NilV:
			in.bounds(it, "index", 0, x, constForm(false))
			return nil, nil
		}
		fail("IndexAddr of %T", in.eval(it, x.X))
	case *ssa.Index:
		switch b := in.eval(it, x.X).(type) {
		case StrV:
			i := in.eval(it, x.Index).(IntV)
			in.strBounds(it, "index", b, x, Form{kind: fGE, e: i.e}, Form{kind: fGE, e: b.ln.sub(i.e).plus(-1)})
			return one(it, x, in.unknown(it.st, x.Type(), "byte")), nil
		}
		fail("Index of %T", in.eval(it, x.X))
	case *ssa.Slice:
		return in.slice(it, x), nil
	case *ssa.MakeSlice:
		ln, cp := in.eval(it, x.Len).(IntV).e, in.eval(it, x.Cap).(IntV).e
		in.makeOK(it, x, ln, cp)
		if it.st.dead() {
			return nil, nil
		}
		et := x.Type().Underlying().(*types.Slice).Elem()
		if in.mon.sink != nil && in.mon.sink(et) {
			if !it.st.eq(ln, linC(0)) {
				fail("a list made with elements")
			}
			return one(it, x, in.sinkVal(it.st, et)), nil
		}
		id := in.id()
		it.st.heap[id] = &Obj2{typ: et, kind: 'a', fresh: true, name: "make", n: cp, segs: []Seg{{lo: linC(0), hi: cp, kind: sgZero}}}
		it.st.owned[id] = true
		it.st.nils[id] = false
		if b, ok := et.Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			it.st.gi[unsetKey(id)] = cp // how many are false
		}
		return one(it, x, SliceV{arr: id, off: linC(0), ln: ln, cp: cp}), nil
	case *ssa.MakeMap:
		id := in.id()
		mo := &Obj2{typ: x.Type(), kind: 'm', fresh: true, name: "map"}
		if k := in.mon.trackKey; k != nil && x.Type().Underlying().(*types.Map).Key().Underlying() == types.Typ[types.String] {
			mo.ks = []mapEntry{{k: k, v: in.zero(x.Type().Underlying().(*types.Map).Elem()), ok: constForm(false), set: true}}
		}
		it.st.heap[id] = mo
		it.st.owned[id] = true
		it.st.nils[id] = false
		return one(it, x, MapV{id}), nil
	case *ssa.MakeInterface:
		v := in.eval(it, x.X)
		return one(it, x, IfaceV{dyn: x.X.Type(), v: v}), nil
	case *ssa.MakeClosure:
		f := FuncV{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.binds = append(f.binds, in.eval(it, b))
		}
		return one(it, x, f), nil
	case *ssa.ChangeType:
		return one(it, x, in.eval(it, x.X)), nil
	case *ssa.ChangeInterface:
		return one(it, x, in.eval(it, x.X)), nil
	case *ssa.Convert:
		return one(it, x, in.convert(it, x)), nil
	case *ssa.Extract:
		t := in.eval(it, x.Tuple)
		tv, ok := t.(TupleV)
		if !ok {
			fail("extract from %T", t)
		}
		return one(it, x, in.force(it.st, tv.vs[x.Index])), nil
	case *ssa.TypeAssert:
		return in.typeAssert(it, x), nil
	case *ssa.Lookup:
		return in.lookup(it, x), nil
	case *ssa.MapUpdate:
		m := in.eval(it, x.Map)
		k, v := in.eval(it, x.Key), in.eval(it, x.Value)
		mv, ok := m.(MapV)
		if !ok {
			return nil, nil
		}
		if in.mon.onMapSet != nil {
			in.mon.onMapSet(it, mv, k, v, x)
		}
		if in.mon.dropSet == nil || !in.mon.dropSet(it, mv) {
			in.mapSet(it.st, mv, k, v)
		}
		return []*item{it}, nil
	case *ssa.Range:
		return one(it, x, IterV{over: in.eval(it, x.X), id: in.id()}), nil
	case *ssa.Next:
		return in.next(it, x), nil
	case *ssa.Call:
		var out []*item
		rs, os := in.call(it, x)
		for _, r := range rs {
			v := r.v
			if v == nil {
				v = TupleV{}
			}
			out = append(out, one(r.it, x, v)...)
		}
		return out, os
	}
	fail("unsupported instruction %T in %s", ins, ins.Parent())
	return nil, nil
}

func (in *Interp) alloc(st *State, t types.Type, name string) Val {
	id := in.id()
	if at, ok := t.Underlying().(*types.Array); ok {
		n := linC(at.Len())
		st.heap[id] = &Obj2{typ: at.Elem(), kind: 'a', fresh: true, name: name, n: n, segs: []Seg{{lo: linC(0), hi: n, kind: sgZero}}}
	} else {
		st.heap[id] = &Obj2{typ: t, kind: 'o', fresh: true, name: name, val: in.zero(t)}
	}
	st.owned[id] = true
	st.nils[id] = false
	return PtrV{obj: id}
}

func (in *Interp) bounds(it *item, what string, arr int, site ssa.Instruction, forms ...Form) {
	if in.mon.onBounds != nil {
		in.mon.onBounds(it, what, it.st.heap[arr], forms, site)
	}
	for _, f := range forms {
		it.st.assume(f)
	}
}

func (in *Interp) strBounds(it *item, what string, s StrV, site ssa.Instruction, forms ...Form) {
	if in.mon.onBounds != nil {
		o := &Obj2{kind: 's', text: s.text, name: "string"}
		if s.text != nil {
			o.tag = "text"
		}
		in.mon.onBounds(it, what, o, forms, site)
	}
	for _, f := range forms {
		it.st.assume(f)
	}
}

func unsetKey(id int) string { return fmt.Sprintf("unset%d", id) }

// countUnset follows how many elements of a list of booleans are false.
func (in *Interp) countUnset(it *item, id int, idx Lin, v Val) []*item {
	k := unsetKey(id)
	n, ok := it.st.gi[k]
	if !ok {
		return []*item{it}
	}
	nv, ok := in.force(it.st, v).(BoolV)
	if !ok || it.st.truth(nv.f) == 0 {
		delete(it.st.gi, k)
		return []*item{it}
	}
	set := it.st.truth(nv.f) > 0
	var out []*item
	for _, r := range in.readElem(it, id, idx) {
		old, ok := in.force(r.it.st, r.v).(BoolV)
		if !ok {
			delete(r.it.st.gi, k)
			out = append(out, r.it)
			continue
		}
		t, f := in.branch(r.it, old.f)
		if t != nil {
			if !set {
				t.st.gi[k] = n.plus(1)
			}
			out = append(out, t)
		}
		if f != nil {
			f.st.cons.addGE(n.plus(-1)) // this one is false
			if set {
				f.st.gi[k] = n.plus(-1)
			}
			out = append(out, f)
		}
	}
	return out
}

// vague: the integer comes from something the analysis does not follow.
func (in *Interp) vague(st *State, e Lin) bool {
	for _, t := range append(append([]term(nil), e.t...), st.cons.norm(e).t...) {
		if in.vagueSym[t.s] || strings.HasPrefix(in.names[t.s], "maplen") || strings.HasPrefix(in.names[t.s], "any") {
			return true
		}
	}
	return false
}

func (in *Interp) makeOK(it *item, site ssa.Instruction, ln, cp Lin) {
	if in.mon.onBounds != nil {
		in.mon.onBounds(it, "make", &Obj2{kind: 'a', name: "make"}, []Form{{kind: fGE, e: ln}, {kind: fGE, e: cp.sub(ln)}}, site)
	}
	it.st.assume(Form{kind: fGE, e: ln})
	it.st.assume(Form{kind: fGE, e: cp.sub(ln)})
}

func (in *Interp) slice(it *item, x *ssa.Slice) []*item {
	opt := func(v ssa.Value) (Lin, bool) {
		if v == nil {
			return Lin{}, false
		}
		return in.eval(it, v).(IntV).e, true
	}
	lo, hasLo := opt(x.Low)
	hi, hasHi := opt(x.High)
	mx, hasMax := opt(x.Max)
	if !hasLo {
		lo = linC(0)
	}
	switch b := in.eval(it, x.X).(type) {
	case NilV:
		forms := []Form{{kind: fEQ, e: lo}}
		if hasHi {
			forms = append(forms, Form{kind: fEQ, e: hi})
		}
		in.bounds(it, "slice", 0, x, forms...)
		if it.st.dead() {
			return nil
		}
		return one(it, x, NilV{})
	case SliceV:
		if b.arr == in.sink && in.sink != 0 {
			fail("slice of a list that is not kept")
		}
		if !hasHi {
			hi = b.ln
		}
		top := b.cp
		if hasMax {
			top = mx
		}
		forms := []Form{{kind: fGE, e: lo}, {kind: fGE, e: hi.sub(lo)}, {kind: fGE, e: top.sub(hi)}}
		if hasMax {
			forms = append(forms, Form{kind: fGE, e: b.cp.sub(mx)})
		}
		if !hasLo && hasHi {
			forms = []Form{{kind: fGE, e: hi}, {kind: fGE, e: top.sub(hi)}}
		}
		if hasLo && !hasHi {
			forms = []Form{{kind: fGE, e: lo}, {kind: fGE, e: hi.sub(lo)}}
		}
		in.bounds(it, "slice", b.arr, x, forms...)
		if it.st.dead() {
			return nil
		}
		return one(it, x, SliceV{arr: b.arr, off: b.off.add(lo), ln: hi.sub(lo), cp: top.sub(lo)})
	case StrV:
		if !hasHi {
			hi = b.ln
		}
		in.strBounds(it, "slice", b, x, Form{kind: fGE, e: lo}, Form{kind: fGE, e: hi.sub(lo)}, Form{kind: fGE, e: b.ln.sub(hi)})
		if it.st.dead() {
			return nil
		}
		if b.konst != nil && lo.isConst() && hi.isConst() && lo.c >= 0 && hi.c <= int64(len(*b.konst)) && lo.c <= hi.c {
			return one(it, x, strC((*b.konst)[lo.c:hi.c]))
		}
		n := StrV{id: in.id(), ln: hi.sub(lo)}
		if b.text != nil {
			n.text = &textRef{b.text.t, b.text.lo.add(lo), b.text.lo.add(hi)}
		} else if in.mon.tplSym != nil && b.konst == nil {
			n.text = &textRef{b.id, lo, hi}
		}
		return one(it, x, n)
	case PtrV:
		o := it.st.heap[b.obj]
		if o == nil || o.kind != 'a' {
			fail("slice of an array inside a struct")
		}
		if !hasHi {
			hi = o.n
		}
		if in.mon.sink != nil && in.mon.sink(o.typ) && it.st.eq(hi, lo) {
			return one(it, x, in.sinkVal(it.st, o.typ))
		}
		return one(it, x, SliceV{arr: b.obj, off: lo, ln: hi.sub(lo), cp: o.n.sub(lo)})
	}
	fail("slice of %T", in.eval(it, x.X))
	return nil
}

func (in *Interp) convert(it *item, x *ssa.Convert) Val {
	v := in.eval(it, x.X)
	to := x.Type().Underlying()
	switch s := v.(type) {
	case IntV:
		if b, ok := to.(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			from, _ := x.X.Type().Underlying().(*types.Basic)
			if sizeOf(b) >= sizeOf(from) && (b.Info()&types.IsUnsigned == 0 || it.st.cons.entailsGE(s.e)) {
				return v
			}
			return in.unknown(it.st, x.Type(), "conv")
		}
		return in.unknown(it.st, x.Type(), "conv")
	case StrV:
		if sl, ok := to.(*types.Slice); ok {
			id := in.id()
			b := sl.Elem().Underlying().(*types.Basic)
			n := s.ln
			o := &Obj2{typ: sl.Elem(), kind: 'a', fresh: true, name: "bytes"}
			if b.Kind() == types.Uint8 {
				o.tag = "text"
				if s.text != nil {
					o.text = s.text
				} else {
					o.text = &textRef{t: s.id, lo: linC(0), hi: s.ln}
				}
			} else {
				n = in.symV("runes")
				it.st.cons.addGE(n)
				it.st.cons.addGE(s.ln.sub(n))
			}
			o.n = n
			o.segs = []Seg{{lo: linC(0), hi: n, kind: sgSum}}
			it.st.heap[id] = o
			it.st.owned[id] = true
			it.st.nils[id] = false
			return SliceV{arr: id, off: linC(0), ln: n, cp: n}
		}
		return v
	case SliceV:
		if b, ok := to.(*types.Basic); ok && b.Info()&types.IsString != 0 {
			o := it.st.heap[s.arr]
			n := StrV{id: in.id(), ln: s.ln}
			if o.tag == "text" && o.text != nil {
				lo := o.text.lo.add(s.off)
				n.text = &textRef{o.text.t, lo, lo.add(s.ln)}
				if in.mon.onText != nil {
					in.mon.onText(it, n.text)
				}
			} else if o.tag != "text" {
				n.ln = in.symV("strlen")
				it.st.cons.addGE(n.ln)
			}
			return n
		}
	case NilV:
		if b, ok := to.(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return strC("")
		}
		return v
	}
	return in.unknown(it.st, x.Type(), "conv")
}

func sizeOf(b *types.Basic) int {
	if b == nil {
		return 99
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 1
	case types.Int16, types.Uint16:
		return 2
	case types.Int32, types.Uint32:
		return 4
	}
	return 8
}

func strKey(s StrV) string {
	if s.konst != nil {
		return fmt.Sprintf("%q", *s.konst)
	}
	if s.text != nil {
		return fmt.Sprintf("t%d[%s:%s]", s.text.t, s.text.lo.key(), s.text.hi.key())
	}
	return fmt.Sprintf("s%d", s.id)
}

// canon identifies a value by text; equal texts mean equal values.
func (in *Interp) canon(st *State, v Val) string {
	v = in.force(st, v)
	switch x := v.(type) {
	case IntV:
		return st.cons.norm(x.e).key()
	case BoolV:
		return fmt.Sprintf("b%d%v%s%s%d%v", x.f.kind, x.f.b, x.f.id, x.f.e.key(), x.f.ref, x.f.neg)
	case StrV:
		return strKey(x)
	case NilV:
		return "nil"
	case PtrV:
		r := fmt.Sprintf("p%d%q", x.obj, x.path)
		if x.idx != nil {
			r += "[" + st.cons.norm(*x.idx).key() + "]"
		}
		return r
	case SliceV:
		return fmt.Sprintf("sl%d[%s:%s]", x.arr, st.cons.norm(x.off).key(), st.cons.norm(x.ln).key())
	case MapV:
		return fmt.Sprintf("m%d", x.obj)
	case IfaceV:
		if x.dyn != nil {
			return shortType(x.dyn) + "(" + in.canon(st, x.v) + ")"
		}
		return fmt.Sprintf("i%d", x.sym)
	case FuncV:
		if x.fn != nil {
			return x.fn.String()
		}
		return fmt.Sprintf("f%d", x.sym)
	case StructV:
		var p []string
		for _, f := range x.fields {
			p = append(p, in.canon(st, f))
		}
		return "{" + strings.Join(p, ",") + "}"
	case TopV:
		return fmt.Sprintf("top%d", x.id)
	}
	return fmt.Sprintf("%T%d", v, in.id())
}

// equal is the condition that two values are equal.
func (in *Interp) equal(st *State, a, b Val) Form {
	a, b = in.force(st, a), in.force(st, b)
	if x, ok := a.(IntV); ok {
		if y, ok := b.(IntV); ok {
			return Form{kind: fEQ, e: x.e.sub(y.e)}
		}
	}
	if x, ok := a.(BoolV); ok {
		if y, ok := b.(BoolV); ok {
			if y.f.kind == fConst {
				if y.f.b {
					return x.f
				}
				return x.f.not()
			}
			if x.f.kind == fConst {
				if x.f.b {
					return y.f
				}
				return y.f.not()
			}
			tx, ty := st.truth(x.f), st.truth(y.f)
			if tx != 0 && ty != 0 {
				return constForm(tx == ty)
			}
		}
	}
	if _, ok := a.(NilV); ok {
		return in.nilForm(st, b)
	}
	if _, ok := b.(NilV); ok {
		return in.nilForm(st, a)
	}
	if x, ok := a.(StrV); ok {
		if y, ok := b.(StrV); ok {
			if x.konst != nil && y.konst != nil {
				return constForm(*x.konst == *y.konst)
			}
			if x.konst != nil {
				x, y = y, x
			}
			if y.konst != nil && *y.konst == "" {
				return Form{kind: fEQ, e: x.ln}
			}
			if y.konst != nil && st.cons.entailsNE(x.ln.sub(y.ln)) {
				return constForm(false)
			}
		}
	}
	if x, ok := a.(PtrV); ok {
		if y, ok := b.(PtrV); ok && x.path == y.path && x.idx == nil && y.idx == nil {
			if x.obj == y.obj {
				return constForm(true)
			}
			ox, oy := st.heap[x.obj], st.heap[y.obj]
			if ox != nil && oy != nil && (ox.fresh || oy.fresh) {
				return constForm(false)
			}
		}
	}
	if x, ok := a.(IfaceV); ok {
		if y, ok := b.(IfaceV); ok && x.dyn != nil && y.dyn != nil {
			if !types.Identical(x.dyn, y.dyn) {
				return constForm(false)
			}
			return in.equal(st, x.v, y.v)
		}
	}
	if x, ok := a.(StructV); ok {
		if y, ok := b.(StructV); ok && len(x.fields) == len(y.fields) {
			all := true
			var rest []Form
			for i := range x.fields {
				f := in.equal(st, x.fields[i], y.fields[i])
				switch st.truth(f) {
				case -1:
					return constForm(false)
				case 0:
					all = false
					rest = append(rest, f)
				}
			}
			if all {
				return constForm(true)
			}
			if len(rest) == 1 {
				return rest[0]
			}
		}
	}
	ka, kb := in.canon(st, a), in.canon(st, b)
	if ka == kb {
		return constForm(true)
	}
	if ka > kb {
		ka, kb = kb, ka
	}
	return Form{kind: fOpaque, id: "eq:" + ka + "=" + kb}
}

func (in *Interp) binop(it *item, x *ssa.BinOp) Val {
	a, b := in.eval(it, x.X), in.eval(it, x.Y)
	switch x.Op {
	case token.EQL:
		return BoolV{in.equal(it.st, a, b)}
	case token.NEQ:
		return BoolV{in.equal(it.st, a, b).not()}
	}
	ia, okA := a.(IntV)
	ib, okB := b.(IntV)
	if okA && okB {
		switch x.Op {
		case token.ADD:
			return IntV{ia.e.add(ib.e)}
		case token.SUB:
			if isUnsigned(x.Type()) && !it.st.cons.entailsGE(ia.e.sub(ib.e)) {
				return in.unknown(it.st, x.Type(), "sub")
			}
			return IntV{ia.e.sub(ib.e)}
		case token.MUL:
			if ib.e.isConst() && abs64(ib.e.c) < 1<<20 {
				return IntV{ia.e.scale(ib.e.c)}
			}
			if ia.e.isConst() && abs64(ia.e.c) < 1<<20 {
				return IntV{ib.e.scale(ia.e.c)}
			}
		case token.LSS:
			return BoolV{Form{kind: fGE, e: ib.e.sub(ia.e).plus(-1)}}
		case token.LEQ:
			return BoolV{Form{kind: fGE, e: ib.e.sub(ia.e)}}
		case token.GTR:
			return BoolV{Form{kind: fGE, e: ia.e.sub(ib.e).plus(-1)}}
		case token.GEQ:
			return BoolV{Form{kind: fGE, e: ia.e.sub(ib.e)}}
		case token.REM:
			v := in.unknown(it.st, x.Type(), "rem").(IntV)
			if ib.e.isConst() && ib.e.c > 0 && it.st.cons.entailsGE(ia.e) {
				it.st.cons.addGE(v.e)
				it.st.cons.addGE(linC(ib.e.c - 1).sub(v.e))
			}
			return v
		case token.QUO:
			v := in.unknown(it.st, x.Type(), "quo").(IntV)
			if ib.e.isConst() && ib.e.c > 0 && it.st.cons.entailsGE(ia.e) {
				it.st.cons.addGE(v.e)
				it.st.cons.addGE(ia.e.sub(v.e.scale(ib.e.c)))
				it.st.cons.addGE(v.e.scale(ib.e.c).plus(ib.e.c - 1).sub(ia.e))
			}
			return v
		case token.SHL:
			if ib.e.isConst() && ib.e.c >= 0 && ib.e.c < 16 {
				return IntV{ia.e.scale(1 << uint(ib.e.c))}
			}
		}
		return in.unknown(it.st, x.Type(), "op")
	}
	sa, okA := a.(StrV)
	sb, okB := b.(StrV)
	if okA && okB {
		if x.Op == token.ADD {
			if sa.konst != nil && sb.konst != nil {
				return strC(*sa.konst + *sb.konst)
			}
			if sa.konst != nil && *sa.konst == "" {
				return sb
			}
			if sb.konst != nil && *sb.konst == "" {
				return sa
			}
			n := StrV{id: in.id(), ln: sa.ln.add(sb.ln)}
			if sa.text != nil && sb.text != nil && sa.text.t == sb.text.t && it.st.eq(sa.text.hi, sb.text.lo) {
				n.text = &textRef{sa.text.t, sa.text.lo, sb.text.hi}
			}
			return n
		}
		return BoolV{Form{kind: fOpaque, id: "cmp:" + strKey(sa) + x.Op.String() + strKey(sb)}}
	}
	if ba, ok := a.(BoolV); ok {
		if bb, ok := b.(BoolV); ok {
			ta, tb := it.st.truth(ba.f), it.st.truth(bb.f)
			switch x.Op {
			case token.AND:
				if ta > 0 {
					return bb
				}
				if tb > 0 {
					return ba
				}
				if ta < 0 || tb < 0 {
					return BoolV{constForm(false)}
				}
			case token.OR:
				if ta < 0 {
					return bb
				}
				if tb < 0 {
					return ba
				}
				if ta > 0 || tb > 0 {
					return BoolV{constForm(true)}
				}
			}
		}
	}
	return in.unknown(it.st, x.Type(), "op")
}

func abs64(a int64) int64 {
	if a < 0 {
		return -a
	}
	return a
}

func (in *Interp) typeAssert(it *item, x *ssa.TypeAssert) []*item {
	v := in.eval(it, x.X)
	fin := func(it *item, v Val, ok bool) []*item {
		if x.CommaOk {
			return one(it, x, TupleV{[]Val{v, BoolV{constForm(ok)}}})
		}
		if !ok {
			return nil // panics: ends this path
		}
		return one(it, x, v)
	}
	iv, isI := v.(IfaceV)
	if !isI {
		if _, isNil := v.(NilV); isNil {
			return fin(it, in.zeroOr(x.AssertedType), false)
		}
		fail("assertion on %T", v)
	}
	at := x.AssertedType
	_, toIface := at.Underlying().(*types.Interface)
	if iv.dyn == nil {
		if d, ok := it.st.dyns[iv.sym]; ok {
			iv = IfaceV{dyn: d.dyn, v: d.v, sym: iv.sym}
			if toIface {
				ok := types.Implements(d.dyn, at.Underlying().(*types.Interface))
				if ok {
					return fin(it, v, true)
				}
				return fin(it, NilV{}, false)
			}
			if types.Identical(d.dyn, at) {
				return fin(it, in.force(it.st, d.v), true)
			}
			return fin(it, in.zeroOr(at), false)
		}
	}
	if iv.dyn != nil {
		ok := false
		if toIface {
			ok = types.Implements(iv.dyn, at.Underlying().(*types.Interface))
			if ok {
				return fin(it, v, true)
			}
			return fin(it, NilV{}, false)
		}
		ok = types.Identical(iv.dyn, at)
		if ok {
			return fin(it, in.force(it.st, iv.v), true)
		}
		return fin(it, in.zeroOr(at), false)
	}
	f := Form{kind: fOpaque, id: fmt.Sprintf("ta:%d:%s", iv.sym, shortType(at))}
	if x.CommaOk && it.st.truth(Form{kind: fNil, ref: iv.sym}) > 0 {
		return fin(it, in.zeroOr(at), false)
	}
	var t, e *item
	if x.CommaOk {
		t, e = in.branch(it, f)
	} else {
		it.st.assume(f)
		if it.st.dead() {
			return nil
		}
		t = it
	}
	var out []*item
	if t != nil {
		if t.st.truth(Form{kind: fNil, ref: iv.sym}) > 0 {
			t = nil
		}
	}
	if t != nil {
		t.st.nils[iv.sym] = false
		var rv Val = v
		if !toIface {
			l := in.dynLazy(iv.sym, at)
			rv = in.mat(t.st, l)
			t.st.dyns[iv.sym] = IfaceV{dyn: at, v: rv, sym: iv.sym}
		}
		out = append(out, fin(t, rv, true)...)
	}
	if e != nil {
		out = append(out, fin(e, in.zeroOr(at), false)...)
	}
	return out
}

func (in *Interp) dynLazy(sym int, t types.Type) LazyV {
	k := fmt.Sprintf("%d/%s", sym, t.String())
	l, ok := in.dynLz[k]
	if !ok {
		in.at(max2(1, in.idStamp[sym]), func() { l = in.lazy(t, shortType(t)) })
		in.dynLz[k] = l
	}
	return l
}

func (in *Interp) zeroOr(t types.Type) Val {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return NilV{}
	}
	return in.zero(t)
}

// ---- maps ----

func (in *Interp) lookup(it *item, x *ssa.Lookup) []*item {
	b := in.eval(it, x.X)
	k := in.eval(it, x.Index)
	if s, ok := b.(StrV); ok {
		i := k.(IntV)
		in.strBounds(it, "index", s, x, Form{kind: fGE, e: i.e}, Form{kind: fGE, e: s.ln.sub(i.e).plus(-1)})
		if it.st.dead() {
			return nil
		}
		return one(it, x, in.unknown(it.st, x.Type(), "byte"))
	}
	vt := x.X.Type().Underlying().(*types.Map).Elem()
	var out []*item
	fin := func(it *item, v Val, ok bool) {
		if x.CommaOk {
			v = TupleV{[]Val{v, BoolV{constForm(ok)}}}
		}
		out = append(out, one(it, x, v)...)
	}
	mv, ok := b.(MapV)
	if !ok {
		fin(it, in.zero(vt), false)
		return out
	}
	if in.mon.onMapGet != nil {
		if rs, ok := in.mon.onMapGet(it, mv, k, x); ok {
			for _, r := range rs {
				if r.v == nil {
					fin(r.it, in.zero(vt), false)
				} else {
					fin(r.it, r.v, true)
				}
			}
			return out
		}
	}
	for _, r := range in.mapGet(it, mv, k, vt) {
		if r.v == nil {
			fin(r.it, in.zero(vt), false)
		} else {
			fin(r.it, in.force(r.it.st, r.v), true)
		}
	}
	return out
}

// mapGet looks a key up; a nil value means absent.
func (in *Interp) mapGet(it *item, mv MapV, k Val, vt types.Type) []res {
	o := it.st.heap[mv.obj]
	for i, e := range o.ks {
		f := in.equal(it.st, e.k, k)
		switch it.st.truth(f) {
		case 1:
			var out []res
			t, a := in.branch(it, e.ok)
			if t != nil {
				v := in.force(t.st, e.v)
				if _, isL := e.v.(LazyV); isL {
					m := t.st.mut(mv.obj)
					m.ks[i].v = v
				}
				out = append(out, res{t, v})
			}
			if a != nil {
				out = append(out, res{a, nil})
			}
			return out
		case 0:
			var out []res
			t, a := in.branch(it, f)
			if t != nil {
				out = append(out, in.mapGet(t, mv, k, vt)...)
			}
			if a != nil {
				out = append(out, in.mapGet(a, mv, k, vt)...)
			}
			return out
		}
	}
	if !o.lazy {
		return []res{{it, nil}}
	}
	m := it.st.mut(mv.obj)
	key := fmt.Sprintf("m%d/%s/%v", mv.obj, in.canon(it.st, k), o.info)
	l, ok := in.elemLz[key]
	if !ok {
		st := max2(in.idStamp[mv.obj], in.stampOf(k))
		if i, ok := o.info.(int); ok {
			st = max2(st, in.idStamp[i])
		}
		in.at(st, func() { l = in.lazy(vt, o.name+"[]") })
		in.elemLz[key] = l
	}
	m.ks = append(m.ks, mapEntry{k: k, v: l, ok: Form{kind: fOpaque, id: fmt.Sprintf("has:%d:%s:%v", mv.obj, in.canon(it.st, k), o.info)}})
	return in.mapGet(it, mv, k, vt)
}

func (in *Interp) mapSet(st *State, mv MapV, k, v Val) {
	m := st.mut(mv.obj)
	m.dirty = true
	var ks []mapEntry
	for _, e := range m.ks {
		f := in.equal(st, e.k, k)
		switch st.truth(f) {
		case 1:
			continue
		case 0:
			// possibly overwritten: forget it
			if in.mon.trackKey != nil && in.canon(st, e.k) == in.canon(st, in.mon.trackKey) {
				in.lostKey = true
			}
			m.lazy = true
			m.info = in.id()
			continue
		}
		ks = append(ks, e)
	}
	m.ks = append(ks, mapEntry{k: k, v: v, ok: constForm(true), set: true})
}

func (in *Interp) next(it *item, x *ssa.Next) []*item {
	iter, ok := in.eval(it, x.Iter).(IterV)
	if !ok {
		fail("next of %T", in.eval(it, x.Iter))
	}
	tt := x.Type().(*types.Tuple)
	done := func(it *item) []*item {
		tv := TupleV{[]Val{BoolV{constForm(false)}}}
		for i := 1; i < tt.Len(); i++ {
			tv.vs = append(tv.vs, TopV{in.id()})
		}
		return one(it, x, tv)
	}
	if x.IsString {
		e := it.fork()
		s, _ := iter.over.(StrV)
		if s.konst != nil && *s.konst == "" || it.st.truth(Form{kind: fEQ, e: s.ln}) > 0 {
			return done(it)
		}
		i := in.symV("pos")
		it.st.cons.addGE(i)
		it.st.cons.addGE(s.ln.sub(i).plus(-1))
		out := one(it, x, TupleV{[]Val{BoolV{constForm(true)}, IntV{i}, in.unknown(it.st, types.Typ[types.Rune], "r")}})
		if it.st.dead() {
			out = nil
		}
		return append(out, done(e)...)
	}
	mv, ok := iter.over.(MapV)
	if !ok {
		return done(it)
	}
	m := it.st.heap[mv.obj]
	if in.mon.onNext != nil {
		if rs, ok := in.mon.onNext(it, iter, m, x); ok {
			var out []*item
			for _, r := range rs {
				if r.v == nil {
					out = append(out, done(r.it)...)
				} else {
					out = append(out, one(r.it, x, r.v)...)
				}
			}
			return out
		}
	}
	if !m.lazy && len(m.ks) == 0 {
		return done(it)
	}
	e := it.fork()
	mt := iter.over
	_ = mt
	kt := m.typ.Underlying().(*types.Map)
	k := in.unknown(it.st, kt.Key(), "key")
	var out []*item
	if !m.lazy {
		// one of the keys it has: any value
		out = append(out, one(it, x, TupleV{[]Val{BoolV{constForm(true)}, k, in.unknown(it.st, kt.Elem(), "val")}})...)
	} else {
		for _, r := range in.mapGet(it, mv, k, kt.Elem()) {
			if r.v == nil {
				continue
			}
			out = append(out, one(r.it, x, TupleV{[]Val{BoolV{constForm(true)}, k, in.force(r.it.st, r.v)}})...)
		}
	}
	return append(out, done(e)...)
}
