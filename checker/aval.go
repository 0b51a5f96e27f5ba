package main

// Engine B: an abstract interpreter over SSA.  Abstract states are symbolic
// heaps with a conjunction of linear facts; control-flow joins keep a bounded
// disjunction of states (trace partitioning), loop heads join and widen.
// This file holds the abstract values, objects and states.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type IntV struct{ e Lin }

type formKind byte

const (
	fConst  formKind = iota
	fGE              // e >= 0
	fEQ              // e == 0
	fNil             // the reference is nil
	fOpaque          // an unknown truth value
)

// Form is an atomic condition.
type Form struct {
	kind formKind
	b    bool // constant value
	neg  bool
	e    Lin
	ref  int
	id   string
}

type BoolV struct{ f Form }

type textRef struct {
	t      int
	lo, hi Lin
}

type StrV struct {
	id    int
	ln    Lin
	konst *string
	text  *textRef
}

// NilV is the nil of any reference type.
type NilV struct{}

// TopV is a value the analysis knows nothing about (floats and the like).
type TopV struct{ id int }

// PtrV points into an object: to a place inside a plain object or, with idx,
// inside an element of an array.
type PtrV struct {
	obj  int
	idx  *Lin
	path string
}

type SliceV struct {
	arr         int
	off, ln, cp Lin
}

type MapV struct{ obj int }

// IfaceV is an interface value; dyn is nil when the dynamic type is unknown.
type IfaceV struct {
	dyn types.Type
	v   Val
	sym int
	st  types.Type // static type it was first seen at
}

// FuncV is a function value; fn is nil when unknown.
type FuncV struct {
	fn    *ssa.Function
	binds []Val
	sym   int
	name  string
}

type StructV struct {
	typ    types.Type
	fields []Val
}

type TupleV struct{ vs []Val }

// LazyV is an unknown value not looked at yet; looking at it always gives the
// value of its number.
type LazyV struct {
	typ  types.Type
	name string
	id   int
}

// IterV is the state of a map or string iteration.
type IterV struct {
	over Val
	id   int
}

// AnyOf is, inside a summary, some element of the original content of an array.
type AnyOf struct{ src int }

// TemplV is, inside a summary, an array of integers described by facts over its
// own symbols.
type TemplV struct {
	typ  types.Type // element type
	n    Lin
	tag  string
	segs []Seg
	syms []Sym
	cons []Lin
	text *textRef
	span *textRef
}

type segKind byte

const (
	sgZero segKind = iota
	sgOrig         // the unknown initial content: element i of src is element i+delta of this array
	sgVal
	sgSum
	sgGroups // capture groups of a match
)

// Seg describes the elements [lo,hi) of an array.
type Seg struct {
	lo, hi Lin
	kind   segKind
	src    int   // sgOrig: array id
	delta  Lin   // source index = index + delta
	v      Val   // sgVal
	alts   []Val // sgSum: possible shapes (templates); nil means unknown
}

type Obj2 struct {
	typ   types.Type // plain object: its type; array: the element type; map: the map type
	kind  byte       // 'o' plain, 'a' array, 'm' map
	lazy  bool       // came from outside
	fresh bool
	name  string
	val   Val
	segs  []Seg
	elems map[string]origElem // sgOrig cells already looked at, by source index
	tag   string
	n     Lin // length of a match's subject, or number of elements of an array allocated here
	text  *textRef
	span  *textRef // the stretch of text a match covers
	info  interface{}
	ks    []mapEntry
	dirty bool // written since it was made
	epoch int  // changes when elements looked at were written and then forgotten
	pins  []origElem
	gidx  *Lin // index this came from, when it was read from a list
}

type origElem struct {
	idx Lin
	v   Val
}

type fact struct {
	name string
	args []Lin
}

type mapEntry struct {
	k, v Val
	ok   Form
	set  bool
}

func (o *Obj2) clone() *Obj2 {
	n := *o
	n.segs = append([]Seg(nil), o.segs...)
	if o.elems != nil {
		n.elems = make(map[string]origElem, len(o.elems))
		for k, v := range o.elems {
			n.elems[k] = v
		}
	}
	n.ks = append([]mapEntry(nil), o.ks...)
	return &n
}

// State is one abstract state.
type State struct {
	cons  *Cons
	heap  map[int]*Obj2
	owned map[int]bool // objects this state may change in place
	nils  map[int]bool
	dyns  map[int]IfaceV
	bools map[string]bool
	gi    map[string]Lin
	gd    map[string]string
	facts []fact
	trace []string
}

func newState() *State {
	return &State{cons: newCons(), heap: map[int]*Obj2{}, owned: map[int]bool{}, nils: map[int]bool{}, dyns: map[int]IfaceV{}, bools: map[string]bool{}, gi: map[string]Lin{}, gd: map[string]string{}}
}

func (s *State) fork() *State {
	n := &State{cons: s.cons.clone(), heap: make(map[int]*Obj2, len(s.heap)), owned: map[int]bool{}, nils: make(map[int]bool, len(s.nils)), dyns: make(map[int]IfaceV, len(s.dyns)),
		bools: make(map[string]bool, len(s.bools)), gi: make(map[string]Lin, len(s.gi)), gd: make(map[string]string, len(s.gd)), facts: s.facts[:len(s.facts):len(s.facts)], trace: s.trace[:len(s.trace):len(s.trace)]}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	s.owned = map[int]bool{}
	for k, v := range s.nils {
		n.nils[k] = v
	}
	for k, v := range s.dyns {
		n.dyns[k] = v
	}
	for k, v := range s.bools {
		n.bools[k] = v
	}
	for k, v := range s.gi {
		n.gi[k] = v
	}
	for k, v := range s.gd {
		n.gd[k] = v
	}
	return n
}

// mut gives an object that may be changed in this state.
func (s *State) mut(id int) *Obj2 {
	o := s.heap[id]
	if o == nil {
		fail("no object %d", id)
	}
	if !s.owned[id] {
		o = o.clone()
		s.heap[id] = o
		s.owned[id] = true
	}
	return o
}

func (s *State) dead() bool { return s.cons.bad }

// ---- conditions ----

func (f Form) not() Form {
	switch f.kind {
	case fConst:
		f.b = !f.b
	case fGE:
		f.e = f.e.neg().plus(-1)
	default:
		f.neg = !f.neg
	}
	return f
}

func constForm(b bool) Form { return Form{kind: fConst, b: b} }

// truth evaluates a condition: 1 true, -1 false, 0 unknown.
func (s *State) truth(f Form) int {
	r := 0
	switch f.kind {
	case fConst:
		if f.b {
			return 1
		}
		return -1
	case fGE:
		if s.cons.entailsGE(f.e) {
			return 1
		}
		if s.cons.entailsGE(f.e.neg().plus(-1)) {
			return -1
		}
		return 0
	case fEQ:
		if s.cons.entailsEQ(f.e) {
			r = 1
		} else if s.cons.entailsNE(f.e) {
			r = -1
		}
	case fNil:
		if n, ok := s.nils[f.ref]; ok {
			r = -1
			if n {
				r = 1
			}
		}
	case fOpaque:
		if v, ok := s.bools[f.id]; ok {
			r = -1
			if v {
				r = 1
			}
		}
	}
	if f.neg {
		r = -r
	}
	return r
}

// assume adds a condition; the state is dead if it cannot hold.
func (s *State) assume(f Form) {
	switch s.truth(f) {
	case 1:
		return
	case -1:
		s.cons.bad = true
		return
	}
	switch f.kind {
	case fGE:
		s.cons.addGE(f.e)
	case fEQ:
		if f.neg {
			s.cons.addNE(f.e)
		} else {
			s.cons.addEQ(f.e)
		}
	case fNil:
		s.nils[f.ref] = !f.neg
		if o := s.heap[f.ref]; o != nil && o.kind == 'a' && !f.neg {
			s.cons.addEQ(o.n)
		}
	case fOpaque:
		s.bools[f.id] = !f.neg
	}
}

func (s *State) le(a, b Lin) bool { return s.cons.entailsGE(b.sub(a)) }
func (s *State) lt(a, b Lin) bool { return s.cons.entailsGE(b.sub(a).plus(-1)) }
func (s *State) eq(a, b Lin) bool { return s.cons.entailsEQ(a.sub(b)) }

// canBe: the condition is not refuted.
func (s *State) canGE(e Lin) bool { return !s.cons.entailsGE(e.neg().plus(-1)) }

// ---- printing, for reports and debugging ----

func (in *Interp) show(s *State, v Val) string {
	switch x := v.(type) {
	case IntV:
		return in.showLin(s, x.e)
	case BoolV:
		return fmt.Sprintf("bool(%d)", s.truth(x.f))
	case StrV:
		if x.konst != nil {
			return fmt.Sprintf("%q", *x.konst)
		}
		if x.text != nil {
			return "text[" + in.showLin(s, x.text.lo) + ":" + in.showLin(s, x.text.hi) + "]"
		}
		return fmt.Sprintf("str%d", x.id)
	case NilV:
		return "nil"
	case PtrV:
		o := s.heap[x.obj]
		nm := ""
		if o != nil {
			nm = o.name
		}
		r := fmt.Sprintf("&%s#%d%s", nm, x.obj, x.path)
		if x.idx != nil {
			r += "[" + in.showLin(s, *x.idx) + "]"
		}
		return r
	case SliceV:
		return fmt.Sprintf("slice#%d[%s:+%s]", x.arr, in.showLin(s, x.off), in.showLin(s, x.ln))
	case IfaceV:
		if x.dyn != nil {
			return shortType(x.dyn) + "(" + in.show(s, x.v) + ")"
		}
		return fmt.Sprintf("iface%d", x.sym)
	case FuncV:
		if x.fn != nil {
			return shortFn(x.fn)
		}
		return fmt.Sprintf("func%d", x.sym)
	case StructV:
		var p []string
		for _, f := range x.fields {
			p = append(p, in.show(s, f))
		}
		return "{" + strings.Join(p, ", ") + "}"
	case LazyV:
		return "?"
	case TupleV:
		var p []string
		for _, f := range x.vs {
			p = append(p, in.show(s, f))
		}
		return "(" + strings.Join(p, ", ") + ")"
	}
	return fmt.Sprintf("%T", v)
}

func (in *Interp) showLin(s *State, e Lin) string {
	if s != nil {
		e = s.cons.norm(e)
	}
	var p []string
	for _, t := range e.t {
		n := in.names[t.s]
		if n == "" {
			n = fmt.Sprintf("v%d", t.s)
		}
		switch t.k {
		case 1:
			p = append(p, n)
		case -1:
			p = append(p, "-"+n)
		default:
			p = append(p, fmt.Sprintf("%d*%s", t.k, n))
		}
	}
	if e.c != 0 || len(p) == 0 {
		p = append(p, fmt.Sprint(e.c))
	}
	return strings.Join(p, "+")
}

func (in *Interp) dumpState(s *State) string {
	var b strings.Builder
	for _, g := range s.cons.ge {
		fmt.Fprintf(&b, "  %s >= 0\n", in.showLin(nil, g))
	}
	for _, g := range s.cons.ne {
		fmt.Fprintf(&b, "  %s != 0\n", in.showLin(nil, g))
	}
	var ids []int
	for id := range s.heap {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		o := s.heap[id]
		switch o.kind {
		case 'o':
			fmt.Fprintf(&b, "  obj #%d %s %s = %s nil=%v\n", id, o.name, shortType(o.typ), in.show(s, o.val), s.nils[id])
		case 'a':
			fmt.Fprintf(&b, "  arr #%d %s n=%s:", id, o.tag, in.showLin(s, o.n))
			for _, g := range o.segs {
				fmt.Fprintf(&b, " [%s,%s)k%d", in.showLin(s, g.lo), in.showLin(s, g.hi), g.kind)
				if g.kind == sgVal {
					b.WriteString("=" + in.show(s, g.v))
				}
				if g.kind == sgSum {
					for _, a := range g.alts {
						b.WriteString("|" + in.show(s, a))
					}
				}
			}
			b.WriteString("\n")
		}
	}
	for k, v := range s.gi {
		fmt.Fprintf(&b, "  ghost %s = %s\n", k, in.showLin(s, v))
	}
	for k, v := range s.gd {
		fmt.Fprintf(&b, "  ghost %s = %s\n", k, v)
	}
	return b.String()
}
