package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C11"] = checkC11 }

// C11, part 1: nilness dataflow.  Wherever a pointer is turned into an
// interface that a function returns, the pointer is shown not to be nil.
// Part 2: the lookups whose answer can be missing are interpreted and must
// answer nil exactly then.
func checkC11(p *Prog, r *Report) {
	r.Rule = "interprocedural nilness dataflow over SSA: every conversion of a pointer to one of the library's interfaces that can reach a return must convert a pointer " +
		"shown non-nil by its definition, a dominating test, or the summary of the call it comes from; and " + absRule + "each lookup answers nil exactly when there is nothing to answer"
	r.Assumptions = append([]string{
		"pointer receivers and pointers handed to exported functions are not nil",
		"a non-nil interface handed in does not wrap a nil pointer",
		"child lists of trees hold no nil child (shown with C13)",
	}, absAssumptions...)
	n := &nilness{p: p, sum: map[*ssa.Function][]nilSum{}, busy: map[*ssa.Function]bool{}, callers: map[*ssa.Function][]ssa.CallInstruction{}, fieldBusy: map[string]bool{}, fieldNN: map[string]bool{}, parBusy: map[*ssa.Parameter]bool{}, dom: map[*ssa.Function]bool{}}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(ssa.CallInstruction); ok {
					if f := c.Common().StaticCallee(); f != nil {
						n.callers[f] = append(n.callers[f], c)
					}
				}
			}
		}
	}
	for _, fn := range p.Funcs {
		if fn.Synthetic != "" {
			continue
		}
		res := fn.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			if !p.moduleIface(res.At(i).Type()) {
				continue
			}
			r.count("results of interface type", 1)
			bad := false
			for _, mi := range n.conversions(fn, i) {
				if _, isPtr := mi.X.Type().Underlying().(*types.Pointer); !isPtr {
					continue
				}
				r.count("pointer conversions reaching a return", 1)
				if !n.nonNil(mi.X, mi.Block(), mi, 0) && !n.interpreted(fn, i) {
					bad = true
					r.violate("absence is a plain nil in "+shortFn(fn), p.InstrPos(mi), fmt.Sprintf("%s can return a non-nil %s that wraps a nil %s: nothing shows that %s is not nil here", shortFn(fn), shortType(res.At(i).Type()), shortType(mi.X.Type()), mi.X.Name()))
				}
			}
			if !bad {
				r.ok("%s never wraps a nil pointer (result %d)", shortFn(fn), i)
			}
		}
	}
	r.Floors["results of interface type"] = 15
	r.Floors["pointer conversions reaching a return"] = 5
	lookupsC11(p, r)
}

// interpreted: the second opinion, for code the dataflow is too coarse for.  The
// abstract interpreter shows that the result is never a wrapped nil.
func (n *nilness) interpreted(fn *ssa.Function, i int) (ok bool) {
	defer func() {
		if e := recover(); e != nil {
			ok = false
		}
	}()
	in := newInterp(n.p)
	in.max = 200000
	st := newState()
	args := in.unknownArgs(st, fn)
	for k, v := range args {
		if _, isPtr := fn.Params[k].Type().Underlying().(*types.Pointer); isPtr {
			in.nonNil(st, v)
		}
	}
	for _, o := range in.exec(fn, args, nil, st) {
		if o.panicked {
			continue
		}
		v := o.ret
		if tv, isT := v.(TupleV); isT && fn.Signature.Results().Len() > 1 {
			v = tv.vs[i]
		}
		iv, isI := in.force(o.st, v).(IfaceV)
		if !isI || iv.dyn == nil {
			continue
		}
		if _, isPtr := iv.dyn.Underlying().(*types.Pointer); !isPtr {
			continue
		}
		w := in.force(o.st, iv.v)
		if pv, isP := w.(PtrV); isP && n.childLists(iv.dyn) {
			if ob := o.st.heap[pv.obj]; ob != nil && ob.gidx != nil {
				continue // an element of a child list
			}
		}
		if !isNonNil(in, o.st, w) {
			return false
		}
	}
	return true
}

func (p *Prog) moduleIface(t types.Type) bool {
	nm, ok := types.Unalias(t).(*types.Named)
	if !ok || nm.Obj().Pkg() == nil {
		return false
	}
	_, isI := nm.Underlying().(*types.Interface)
	return isI && p.Pkgs[nm.Obj().Pkg().Path()] != nil
}

type nilSum struct {
	nonNil bool
	ifArgs []int // non-nil when all of these arguments are
}

type nilness struct {
	p         *Prog
	sum       map[*ssa.Function][]nilSum
	busy      map[*ssa.Function]bool
	callers   map[*ssa.Function][]ssa.CallInstruction
	fieldBusy map[string]bool
	fieldNN   map[string]bool
	parBusy   map[*ssa.Parameter]bool
	dom       map[*ssa.Function]bool
	given     map[*ssa.Parameter]bool // parameters assumed not nil while summarising
}

// conversions are the pointer-to-interface conversions that can be returned as
// result i.
func (n *nilness) conversions(fn *ssa.Function, i int) []*ssa.MakeInterface {
	var out []*ssa.MakeInterface
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.MakeInterface:
			out = append(out, x)
		case *ssa.ChangeInterface:
			walk(x.X)
		case *ssa.Phi:
			for _, e := range x.Edges {
				walk(e)
			}
		case *ssa.UnOp:
			if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
				for _, ref := range *al.Referrers() {
					if st, ok := ref.(*ssa.Store); ok && st.Addr == al {
						walk(st.Val)
					}
				}
			}
		}
	}
	for _, b := range fn.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			walk(ret.Results[i])
		}
	}
	return out
}

// same: two values that are equal as long as memory does not change between.
func same(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *ssa.Const:
		y, ok := b.(*ssa.Const)
		return ok && x.Value != nil && y.Value != nil && x.Value.ExactString() == y.Value.ExactString()
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		return ok && x.Op == y.Op && x.CommaOk == y.CommaOk && same(x.X, y.X)
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && same(x.X, y.X)
	case *ssa.Field:
		y, ok := b.(*ssa.Field)
		return ok && x.Field == y.Field && same(x.X, y.X)
	case *ssa.IndexAddr:
		y, ok := b.(*ssa.IndexAddr)
		return ok && same(x.X, y.X) && same(x.Index, y.Index)
	case *ssa.BinOp:
		y, ok := b.(*ssa.BinOp)
		return ok && x.Op == y.Op && same(x.X, y.X) && same(x.Y, y.Y)
	case *ssa.Lookup:
		y, ok := b.(*ssa.Lookup)
		return ok && x.CommaOk == y.CommaOk && same(x.X, y.X) && same(x.Index, y.Index)
	case *ssa.Extract:
		y, ok := b.(*ssa.Extract)
		return ok && x.Index == y.Index && same(x.Tuple, y.Tuple)
	case *ssa.ChangeType:
		y, ok := b.(*ssa.ChangeType)
		return ok && same(x.X, y.X)
	case *ssa.Call:
		y, ok := b.(*ssa.Call)
		if !ok || x.Call.IsInvoke() || y.Call.IsInvoke() || len(x.Call.Args) != len(y.Call.Args) {
			return false
		}
		f, g := x.Call.StaticCallee(), y.Call.StaticCallee()
		if bf, isB := x.Call.Value.(*ssa.Builtin); isB {
			bg, isB2 := y.Call.Value.(*ssa.Builtin)
			if !isB2 || bf.Name() != bg.Name() || bf.Name() != "len" && bf.Name() != "cap" {
				return false
			}
		} else if f == nil || f != g || !readOnly(f, 0) {
			return false
		}
		for i := range x.Call.Args {
			if !same(x.Call.Args[i], y.Call.Args[i]) {
				return false
			}
		}
		return true
	}
	return false
}

// readOnly: the function and what it calls store nothing.
func readOnly(fn *ssa.Function, depth int) bool {
	if depth > 4 || fn.Blocks == nil {
		return false
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if clobbers(ins, depth+1) {
				return false
			}
		}
	}
	return true
}

func clobbers(ins ssa.Instruction, depth int) bool {
	switch x := ins.(type) {
	case *ssa.Store:
		al, ok := x.Addr.(*ssa.Alloc)
		return !ok || al.Heap
	case *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Select:
		return true
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "len", "cap":
				return false
			}
			return true
		}
		f := x.Call.StaticCallee()
		return f == nil || !readOnly(f, depth)
	}
	return false
}

// quietBetween: nothing is stored on the way from the end of block d to
// instruction at (d dominates its block).
func quietBetween(d *ssa.BasicBlock, at ssa.Instruction) bool {
	seen := map[*ssa.BasicBlock]bool{}
	ok := true
	var back func(b *ssa.BasicBlock, upto int)
	back = func(b *ssa.BasicBlock, upto int) {
		for i := 0; i < upto; i++ {
			if clobbers(b.Instrs[i], 0) {
				ok = false
			}
		}
		for _, p := range b.Preds {
			if p == d || seen[p] {
				continue
			}
			seen[p] = true
			back(p, len(p.Instrs))
		}
	}
	b := at.Block()
	for i, x := range b.Instrs {
		if x == at {
			back(b, i)
		}
	}
	return ok
}

// edgeTo: every way to blk goes over the edge d -> s.
func edgeTo(d, s, blk *ssa.BasicBlock) bool {
	return len(s.Preds) == 1 && s.Preds[0] == d && s.Dominates(blk) && (d.Succs[0] != d.Succs[len(d.Succs)-1])
}

// conds gives the conditions that hold when blk is reached.
func conds(blk *ssa.BasicBlock) []cond {
	var out []cond
	for d := blk; d != nil; d = d.Idom() {
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		for i, s := range d.Succs {
			if edgeTo(d, s, blk) {
				out = append(out, cond{iff.Cond, i == 0, d})
			}
		}
	}
	return out
}

type cond struct {
	v    ssa.Value
	true bool
	blk  *ssa.BasicBlock
}

// tested: the condition (with that outcome) says that v is not nil.
func (n *nilness) tested(c cond, v ssa.Value, at ssa.Instruction) bool {
	switch x := c.v.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return n.tested(cond{x.X, !c.true, c.blk}, v, at)
		}
	case *ssa.BinOp:
		if x.Op != token.EQL && x.Op != token.NEQ {
			return false
		}
		if (x.Op == token.NEQ) != c.true {
			return false
		}
		for _, pair := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
			k, ok := pair[1].(*ssa.Const)
			if !ok || !k.IsNil() {
				continue
			}
			if pair[0] == v {
				return true
			}
			if same(pair[0], v) && quietBetween(c.blk, at) {
				return true
			}
		}
	case *ssa.Phi:
		// a && b: reached with the outcome only over edges that say so
		all := true
		for i, e := range x.Edges {
			if k, ok := e.(*ssa.Const); ok && k.Value != nil && (k.Value.String() == "true") != c.true {
				continue
			}
			if n.tested(cond{e, c.true, c.blk}, v, at) {
				continue
			}
			got := false
			for _, c2 := range conds(x.Block().Preds[i]) {
				if n.tested(c2, v, at) {
					got = true
				}
			}
			if !got {
				all = false
			}
		}
		return all && len(x.Edges) > 0
	case *ssa.Extract:
		// ok of v, ok := x.(*T) (what interfaces hold is not a nil pointer)
		if ta, isTA := x.Tuple.(*ssa.TypeAssert); isTA && c.true && x.Index == 1 {
			if e, isE := v.(*ssa.Extract); isE && e.Tuple == ssa.Value(ta) && e.Index == 0 {
				return true
			}
		}
		// ok of a call whose first result is nil only with !ok
		if call, isC := x.Tuple.(*ssa.Call); isC && c.true {
			if e, isE := v.(*ssa.Extract); isE && e.Tuple == x.Tuple {
				return n.okImplies(call, x.Index, e.Index)
			}
		}
		// v, found := m[k] where every value stored in such a map is not nil
		if lk, isL := x.Tuple.(*ssa.Lookup); isL && c.true && x.Index == 1 {
			if e, isE := v.(*ssa.Extract); isE && e.Tuple == ssa.Value(lk) && e.Index == 0 {
				return n.mapHoldsNonNil(lk.X.Type())
			}
		}
	}
	return false
}

// okImplies: when the call's boolean result b is true its result v is not nil.
func (n *nilness) okImplies(call *ssa.Call, b, v int) bool {
	f := call.Call.StaticCallee()
	if f == nil || f.Blocks == nil || n.busy[f] {
		return false
	}
	n.busy[f] = true
	defer func() { n.busy[f] = false }()
	for _, blk := range f.Blocks {
		ret, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		if k, isC := ret.Results[b].(*ssa.Const); isC && k.Value != nil && k.Value.String() == "false" {
			continue
		}
		if n.nonNil(ret.Results[v], blk, ret, 0) {
			continue
		}
		if bo, isB := ret.Results[b].(*ssa.BinOp); isB && n.tested(cond{bo, true, blk}, ret.Results[v], ret) {
			continue
		}
		return false
	}
	return true
}

func (n *nilness) mapHoldsNonNil(t types.Type) bool {
	key := "map " + t.String()
	if r, ok := n.fieldNN[key]; ok {
		return r
	}
	if n.fieldBusy[key] {
		return true
	}
	n.fieldBusy[key] = true
	defer delete(n.fieldBusy, key)
	r := true
	for _, fn := range n.p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if mu, ok := ins.(*ssa.MapUpdate); ok && types.Identical(mu.Map.Type(), t) && !n.nonNil(mu.Value, b, mu, 0) {
					r = false
				}
			}
		}
	}
	n.fieldNN[key] = r
	return r
}

func (n *nilness) childLists(t types.Type) bool {
	return types.Identical(t, types.NewPointer(n.p.Named("tree", "PN")))
}

// nonNil: v is not nil whenever control is at the instruction at in blk.
func (n *nilness) nonNil(v ssa.Value, blk *ssa.BasicBlock, at ssa.Instruction, depth int) bool {
	if depth > 30 {
		return false
	}
	for _, c := range conds(blk) {
		if n.tested(c, v, at) {
			return true
		}
	}
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.MakeInterface, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeClosure, *ssa.Function, *ssa.Global, *ssa.Builtin:
		return true
	case *ssa.Const:
		return !x.IsNil()
	case *ssa.ChangeType:
		return n.nonNil(x.X, blk, at, depth+1)
	case *ssa.ChangeInterface:
		return n.nonNil(x.X, blk, at, depth+1)
	case *ssa.Phi:
		for i, e := range x.Edges {
			if e == v {
				continue
			}
			pb := x.Block().Preds[i]
			if n.nonNil(e, pb, pb.Instrs[len(pb.Instrs)-1], depth+1) {
				continue
			}
			// the edge itself may be the test
			got := false
			if iff, ok := pb.Instrs[len(pb.Instrs)-1].(*ssa.If); ok && pb.Succs[0] != pb.Succs[1] {
				for k, s := range pb.Succs {
					if s == x.Block() && n.tested(cond{iff.Cond, k == 0, pb}, e, iff) {
						got = true
					}
				}
			}
			if !got {
				return false
			}
		}
		return len(x.Edges) > 0
	case *ssa.TypeAssert:
		return !x.CommaOk
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			return n.callNonNil(call, x.Index, at, depth)
		}
		return false
	case *ssa.Call:
		return n.callNonNil(x, 0, at, depth)
	case *ssa.Parameter:
		return n.param(x, depth)
	case *ssa.FreeVar:
		return false
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false
		}
		switch a := x.X.(type) {
		case *ssa.IndexAddr:
			return n.childLists(x.Type())
		case *ssa.FieldAddr:
			return n.field(a)
		case *ssa.Global:
			return n.p.initNonNil(a)
		case *ssa.Alloc:
			return n.local(a, x, depth)
		}
	}
	return false
}

// local: everything stored in the variable is not nil, and something is stored
// before the load.
func (n *nilness) local(a *ssa.Alloc, ld *ssa.UnOp, depth int) bool {
	any := false
	for _, ref := range *a.Referrers() {
		switch s := ref.(type) {
		case *ssa.Store:
			if s.Addr != a || !n.nonNil(s.Val, s.Block(), s, depth+1) {
				return false
			}
			if s.Block().Dominates(ld.Block()) {
				any = true
			}
		case *ssa.UnOp:
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return any
}

func (n *nilness) param(x *ssa.Parameter, depth int) bool {
	fn := x.Parent()
	if n.given[x] {
		return true
	}
	if fn.Signature.Recv() != nil && len(fn.Params) > 0 && fn.Params[0] == x {
		return true
	}
	if _, isI := x.Type().Underlying().(*types.Interface); isI {
		return false
	}
	if n.parBusy[x] {
		return true
	}
	n.parBusy[x] = true
	defer delete(n.parBusy, x)
	idx := -1
	for i, q := range fn.Params {
		if q == x {
			idx = i
		}
	}
	for _, c := range n.callers[fn] {
		args := c.Common().Args
		if idx >= len(args) || !n.nonNil(args[idx], c.Block(), c, depth+1) {
			return false
		}
	}
	return true
}

func (n *nilness) callNonNil(c *ssa.Call, i int, at ssa.Instruction, depth int) bool {
	f := c.Call.StaticCallee()
	if f == nil || f.Blocks == nil || !n.p.InModule(f) {
		if f != nil && f.Pkg != nil {
			switch f.Pkg.Pkg.Path() + "." + f.Name() {
			case "regexp.MustCompile", "errors.New", "fmt.Errorf", "strings.NewReplacer":
				return true
			}
		}
		return false
	}
	s := n.summary(f)[i]
	if s.nonNil {
		return true
	}
	if s.ifArgs == nil {
		return false
	}
	for _, k := range s.ifArgs {
		if !n.nonNil(c.Call.Args[k], c.Block(), c, depth+1) {
			return false
		}
	}
	return true
}

func (n *nilness) summary(f *ssa.Function) []nilSum {
	if s, ok := n.sum[f]; ok {
		return s
	}
	nr := f.Signature.Results().Len()
	if n.busy[f] {
		// recursion: assume what is being shown (each level returns through its own code)
		s := make([]nilSum, nr)
		for i := range s {
			s[i].nonNil = true
		}
		return s
	}
	n.busy[f] = true
	out := make([]nilSum, nr)
	check := func(i int) bool {
		for _, b := range f.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			if unreachableGiven(n, b) {
				continue
			}
			if !n.nonNil(ret.Results[i], b, ret, 0) {
				return false
			}
		}
		return true
	}
	for i := range out {
		switch f.Signature.Results().At(i).Type().Underlying().(type) {
		case *types.Pointer, *types.Interface, *types.Map, *types.Signature:
		default:
			continue
		}
		if check(i) {
			out[i].nonNil = true
			continue
		}
		old := n.given
		n.given = map[*ssa.Parameter]bool{}
		for k := range old {
			n.given[k] = true
		}
		var ks []int
		for k, q := range f.Params {
			switch q.Type().Underlying().(type) {
			case *types.Pointer, *types.Interface:
				if !n.given[q] {
					n.given[q] = true
					ks = append(ks, k)
				}
			}
		}
		if len(ks) > 0 && check(i) {
			out[i].ifArgs = ks
		}
		n.given = old
	}
	n.busy[f] = false
	n.sum[f] = out
	return out
}

// unreachableGiven: the block is only reached when a parameter assumed non-nil
// is nil.
func unreachableGiven(n *nilness, b *ssa.BasicBlock) bool {
	for _, c := range conds(b) {
		bo, ok := c.v.(*ssa.BinOp)
		if !ok || bo.Op != token.EQL && bo.Op != token.NEQ || (bo.Op == token.EQL) != c.true {
			continue
		}
		for _, pair := range [][2]ssa.Value{{bo.X, bo.Y}, {bo.Y, bo.X}} {
			k, isC := pair[1].(*ssa.Const)
			q, isP := pair[0].(*ssa.Parameter)
			if isC && isP && k.IsNil() && n.given[q] {
				return true
			}
		}
	}
	return false
}

// field: every store to the field in the module is of something non-nil and
// every place that makes such a struct sets the field.
func (n *nilness) field(fa *ssa.FieldAddr) bool {
	st := deref(fa.X.Type())
	nm, ok := types.Unalias(st).(*types.Named)
	if !ok || nm.Obj().Pkg() == nil || n.p.Pkgs[nm.Obj().Pkg().Path()] == nil {
		return false
	}
	key := fmt.Sprintf("%s.%d", st.String(), fa.Field)
	if r, ok := n.fieldNN[key]; ok {
		return r
	}
	if n.fieldBusy[key] {
		return true
	}
	n.fieldBusy[key] = true
	r := true
	for _, fn := range n.p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Store:
					if f2, ok := x.Addr.(*ssa.FieldAddr); ok && f2.Field == fa.Field && types.Identical(deref(f2.X.Type()), st) {
						if !n.nonNil(x.Val, b, x, 0) {
							r = false
						}
					}
				case *ssa.Alloc:
					if types.Identical(deref(x.Type()), st) {
						set := false
						for _, ref := range *x.Referrers() {
							if f2, ok := ref.(*ssa.FieldAddr); ok && f2.Field == fa.Field {
								for _, r2 := range *f2.Referrers() {
									if s, ok := r2.(*ssa.Store); ok && s.Addr == f2 {
										set = true
									}
								}
							}
							if s, ok := ref.(*ssa.Store); ok && s.Addr == x {
								set = true // a copy of another one
							}
						}
						if !set {
							r = false
						}
					}
				case *ssa.MakeSlice:
					if sl, ok := x.Type().Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), st) {
						r = false
					}
				}
			}
		}
	}
	delete(n.fieldBusy, key)
	n.fieldNN[key] = r
	return r
}

// ---- part 2 ----

func lookupsC11(p *Prog, r *Report) {
	type lookup struct {
		name string
		fn   *ssa.Function
		// absent constrains the state so that there is nothing to find
		absent func(a *attempt, in *Interp, st *State, args []Val)
	}
	pn := types.NewPointer(p.Named("tree", "PN"))
	field := func(in *Interp, st *State, v Val, name string) Val {
		pv, ok := in.force(st, v).(PtrV)
		if !ok {
			fail("receiver is not a pointer")
		}
		in.nonNil(st, pv)
		sv, ok := in.force(st, st.heap[pv.obj].val).(StructV)
		if !ok {
			fail("receiver is not a struct")
		}
		u := sv.typ.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == name {
				return in.force(st, sv.fields[i])
			}
		}
		fail("no field %s", name)
		return nil
	}
	outside := func(in *Interp, st *State, n Lin, v Val, neg bool) {
		i := in.force(st, v).(IntV)
		if neg {
			st.cons.addGE(i.e.neg().plus(-1))
		} else {
			st.cons.addGE(i.e.sub(n))
		}
	}
	var ls []lookup
	ls = append(ls, lookup{"Parent of a root", p.Method(pn, "Parent"), func(a *attempt, in *Interp, st *State, args []Val) {
		v := field(in, st, args[0], "P")
		st.nils[refOf(v)] = true
	}})
	ls = append(ls, lookup{"Child past the end", p.Method(pn, "Child"), func(a *attempt, in *Interp, st *State, args []Val) {
		c := field(in, st, args[0], "C").(SliceV)
		outside(in, st, c.ln, args[1], false)
	}})
	ls = append(ls, lookup{"Child before the start", p.Method(pn, "Child"), func(a *attempt, in *Interp, st *State, args []Val) {
		c := field(in, st, args[0], "C").(SliceV)
		i := in.force(st, args[1]).(IntV)
		st.cons.addGE(i.e.add(c.ln).neg().plus(-1))
	}})
	seqLen := func(in *Interp, st *State, v Val) Lin {
		switch x := in.force(st, v).(type) {
		case SliceV:
			return x.ln
		case PtrV:
			in.nonNil(st, x)
			// the only slice field
			sv, ok := in.force(st, st.heap[x.obj].val).(StructV)
			if !ok {
				fail("receiver is not a struct")
			}
			var got *Lin
			for _, f := range sv.fields {
				if l, isL := f.(LazyV); isL {
					if _, isS := l.typ.Underlying().(*types.Slice); isS {
						sl := in.force(st, f).(SliceV)
						if got != nil {
							fail("%s has two lists", shortType(sv.typ))
						}
						ln := sl.ln
						got = &ln
					}
				}
			}
			if got == nil {
				fail("%s has no list", shortType(sv.typ))
			}
			return *got
		}
		fail("receiver of another shape")
		return Lin{}
	}
	for _, m := range []struct{ iface, method string }{{"Production", "Symbol"}, {"Productions", "Production"}} {
		for _, t := range p.Implementers(p.Iface("", m.iface)) {
			fn := p.methodOrNil(t, m.method)
			if fn == nil || fn.Synthetic != "" {
				continue
			}
			for _, neg := range []bool{false, true} {
				neg := neg
				name := shortType(t) + "." + m.method + " past the end"
				if neg {
					name = shortType(t) + "." + m.method + " before the start"
				}
				ls = append(ls, lookup{name, fn, func(a *attempt, in *Interp, st *State, args []Val) {
					outside(in, st, seqLen(in, st, args[0]), args[1], neg)
				}})
			}
		}
	}
	red := p.Method(p.Named("tree", "Reducer"), "Reduce")
	ls = append(ls, lookup{"Reduce of nil", red, func(a *attempt, in *Interp, st *State, args []Val) {
		st.nils[refOf(args[1])] = true
	}})
	for _, t := range p.Implementers(p.Iface("", "Grammar")) {
		fn := p.methodOrNil(t, "Productions")
		if fn == nil || fn.Synthetic != "" {
			continue
		}
		r.count("lookups interpreted", 1)
		name := shortType(t) + ".Productions of an unknown symbol is nil"
		decide(p, r, name, 1, func(a *attempt, _ int) {
			in := a.interp()
			st := newState()
			args := in.unknownArgs(st, fn)
			for _, v := range args {
				in.nonNil(st, v)
			}
			missed := 0
			for _, o := range in.exec(fn, args, nil, st) {
				if o.panicked || !missedLookup(o.st) {
					continue
				}
				missed++
				if !isNilVal(in, o.st, in.force(o.st, o.ret)) {
					a.violate(name, p.InstrPos(o.site), "the symbol is not found but something other than nil is returned")
				}
			}
			if missed == 0 {
				fail("no lookup that can miss")
			}
		})
	}
	for _, l := range ls {
		l := l
		r.count("lookups interpreted", 1)
		decide(p, r, l.name+" is nil", 1, func(a *attempt, _ int) {
			in := a.interp()
			st := newState()
			args := in.unknownArgs(st, l.fn)
			l.absent(a, in, st, args)
			in.mon.onBounds = func(it *item, what string, arr *Obj2, ok []Form, site ssa.Instruction) {
				for _, f := range ok {
					if it.st.truth(f) < 0 {
						a.violate(l.name+" is nil", p.InstrPos(site), "%s panics instead of answering nil", l.name)
					}
				}
			}
			for _, o := range in.exec(l.fn, args, nil, st) {
				where := p.InstrPos(o.site)
				if o.panicked {
					a.violate(l.name+" is nil", where, "%s panics instead of answering nil", l.name)
					continue
				}
				if !isNilVal(in, o.st, in.force(o.st, o.ret)) {
					a.violate(l.name+" is nil", where, "%s: something other than nil is returned", l.name)
				}
			}
		})
	}
	r.Floors["lookups interpreted"] = 6
}

// missedLookup: on this path a key was looked up in a map and not found.
func missedLookup(st *State) bool {
	for _, o := range st.heap {
		if o.kind == 'm' {
			for _, e := range o.ks {
				if !e.set && st.truth(e.ok) < 0 {
					return true
				}
			}
		}
	}
	return false
}
