package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp/syntax"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C10"] = checkC10 }

// C10 is decided by an interprocedural path-sensitive dataflow: the state at a
// point is a set of possibilities, each giving what is known about the nilness
// of the live values (and the truth of flags) together with the step of the
// construction that has reported an error on the way, if any.  Functions are
// summarised by the set of ways they can end, and the summaries are computed to
// a fixpoint, so it does not matter how the work is split into functions.

type eKind byte

const (
	eTop eKind = iota
	eNil
	eNonNil
	eTrue
	eFalse
	eInt   // n
	eIntGE // at least n
	eSplit // the parts of a split line, n of them (3: three or more)
	eWhole // the match of a whole line
	ePart  // a match of part of a line
	eZeroStr
)

// eAbs is the abstraction of one value.
type eAbs struct {
	k  eKind
	n  int
	id int // which parameter or call result it is, 0: none
}

type eState struct {
	env   map[ssa.Value][]eAbs
	cells map[*ssa.Alloc]eAbs
	pend  int // the report that has not been passed on, 0: none
	esc   bool
}

func (s *eState) clone() *eState {
	c := &eState{env: make(map[ssa.Value][]eAbs, len(s.env)), cells: make(map[*ssa.Alloc]eAbs, len(s.cells)), pend: s.pend, esc: s.esc}
	for k, v := range s.env {
		c.env[k] = v
	}
	for k, v := range s.cells {
		c.cells[k] = v
	}
	return c
}

// eOut is one way a function can end.
type eOut struct {
	panics bool
	res    []eAbs
	pend   int
	esc    bool
	site   ssa.Instruction // where it ends (for reports; the first one found)
}

func (o eOut) key() string { return fmt.Sprint(o.panics, o.res, o.pend, o.esc) }

type eSummary struct {
	outs    map[string]eOut
	changed bool
	done    bool
	callers map[string]bool
}

// eReport is a step that reports an error.
type eReport struct {
	what string
	site ssa.Instruction
}

type errAn struct {
	p        *Prog
	r        *Report
	sums     map[string]*eSummary
	ctx      map[string]eCtx
	queue    []string
	queued   map[string]bool
	cur      string
	reports  []eReport
	repIdx   map[ssa.Instruction]int
	siteIdx  map[ssa.Instruction]int
	live     map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool
	local    map[*ssa.Alloc]bool
	sources  map[string]int
	regexps  map[*ssa.Global]string
	steps    int
	analysed map[*ssa.Function]bool
}

type eCtx struct {
	fn   *ssa.Function
	args []eAbs
}

func newErrAn(p *Prog, r *Report) *errAn {
	return &errAn{p: p, r: r, sums: map[string]*eSummary{}, ctx: map[string]eCtx{}, queued: map[string]bool{}, repIdx: map[ssa.Instruction]int{},
		siteIdx: map[ssa.Instruction]int{}, live: map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool{}, local: map[*ssa.Alloc]bool{},
		sources: map[string]int{}, analysed: map[*ssa.Function]bool{}}
}

var errorT = types.Universe.Lookup("error").Type()

func isErrorT(t types.Type) bool {
	if types.Identical(t, errorT) {
		return true
	}
	return false
}

func (e *errAn) report(site ssa.Instruction, what string) int {
	if i := e.repIdx[site]; i != 0 {
		return i
	}
	e.reports = append(e.reports, eReport{what, site})
	e.repIdx[site] = len(e.reports)
	return len(e.reports)
}

func (e *errAn) site(i ssa.Instruction) int {
	if e.siteIdx[i] == 0 {
		e.siteIdx[i] = len(e.siteIdx) + 1
	}
	return e.siteIdx[i]
}

// summary asks for the ways fn can end when called with args.
func (e *errAn) summary(fn *ssa.Function, args []eAbs) *eSummary {
	in := make([]eAbs, len(args))
	for i, a := range args {
		a.id = 0
		if a.k == eSplit || a.k == eWhole || a.k == ePart {
			// passed on as they are
		}
		in[i] = a
	}
	key := fn.String() + fmt.Sprint(fn.Pos()) + fmt.Sprint(in)
	s := e.sums[key]
	if s == nil {
		s = &eSummary{outs: map[string]eOut{}, callers: map[string]bool{}}
		e.sums[key] = s
		e.ctx[key] = eCtx{fn, in}
		e.push(key)
	}
	if e.cur != "" {
		s.callers[e.cur] = true
	}
	return s
}

func (e *errAn) push(key string) {
	if !e.queued[key] {
		e.queued[key] = true
		e.queue = append(e.queue, key)
	}
}

// solve computes the summaries to a fixpoint.
func (e *errAn) solve() {
	for len(e.queue) > 0 {
		key := e.queue[0]
		e.queue = e.queue[1:]
		e.queued[key] = false
		e.cur = key
		s, c := e.sums[key], e.ctx[key]
		n := len(s.outs)
		e.run(c.fn, c.args, s)
		e.cur = ""
		if len(s.outs) != n {
			for k := range s.callers {
				e.push(k)
			}
		}
	}
}

// eLive: the values used in b or later, per block.
func (e *errAn) liveIn(fn *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	if l := e.live[fn]; l != nil {
		return l
	}
	l := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		l[b] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			cur := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range l[s] {
					cur[v] = true
				}
				// the operands of the phis of s that come from b
				for _, ins := range s.Instrs {
					ph, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					for k, pr := range s.Preds {
						if pr == b {
							cur[ph.Edges[k]] = true
						}
					}
				}
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				ins := b.Instrs[k]
				if _, isPhi := ins.(*ssa.Phi); !isPhi {
					var ops []*ssa.Value
					for _, op := range ins.Operands(ops) {
						if *op != nil {
							cur[*op] = true
						}
					}
				}
			}
			for v := range cur {
				// a value defined in b is not live at its start unless it is a phi
				if d, ok := v.(ssa.Instruction); ok && d.Block() == b {
					if _, isPhi := v.(*ssa.Phi); !isPhi && !l[b][v] {
						continue
					}
				}
				if !l[b][v] {
					l[b][v] = true
					changed = true
				}
			}
		}
	}
	// the parts that comparisons are read through
	e.live[fn] = l
	return l
}

// trackable: a local variable whose address goes nowhere.
func (e *errAn) trackable(a *ssa.Alloc) bool {
	if t, ok := e.local[a]; ok {
		return t
	}
	ok := true
	for _, ref := range *a.Referrers() {
		switch x := ref.(type) {
		case *ssa.Store:
			if x.Addr != a {
				ok = false
			}
		case *ssa.UnOp, *ssa.DebugRef:
		default:
			ok = false
		}
	}
	switch deref(a.Type()).Underlying().(type) {
	case *types.Struct, *types.Array:
		ok = false
	}
	e.local[a] = ok
	return ok
}

func (e *errAn) stateKey(fn *ssa.Function, b *ssa.BasicBlock, s *eState) string {
	live := e.liveIn(fn)[b]
	var parts []string
	for v, a := range s.env {
		if !live[v] {
			delete(s.env, v)
			continue
		}
		top := true
		for _, x := range a {
			if x.k != eTop || x.id != 0 {
				top = false
			}
		}
		if top {
			delete(s.env, v)
			continue
		}
		parts = append(parts, fmt.Sprint(v.Name(), a))
	}
	for c, a := range s.cells {
		parts = append(parts, fmt.Sprint("*", c.Name(), a))
	}
	sort.Strings(parts)
	return strings.Join(parts, ";") + fmt.Sprint(s.pend, s.esc)
}

func (e *errAn) val(s *eState, v ssa.Value) eAbs {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			switch x.Type().Underlying().(type) {
			case *types.Struct, *types.Array, *types.Basic:
				return eAbs{}
			}
			return eAbs{k: eNil}
		}
		switch x.Value.Kind() {
		case constant.Bool:
			if constant.BoolVal(x.Value) {
				return eAbs{k: eTrue}
			}
			return eAbs{k: eFalse}
		case constant.Int:
			if n, ok := constant.Int64Val(x.Value); ok && n >= -3 && n <= 3 {
				return eAbs{k: eInt, n: int(n)}
			}
		case constant.String:
			if constant.StringVal(x.Value) == "" {
				return eAbs{k: eZeroStr}
			}
		}
		return eAbs{}
	case *ssa.Function, *ssa.MakeClosure, *ssa.Global:
		return eAbs{k: eNonNil}
	}
	if a := s.env[v]; len(a) > 0 {
		return a[0]
	}
	return eAbs{}
}

type eWork struct {
	b    *ssa.BasicBlock
	pred *ssa.BasicBlock
	s    *eState
}

func (e *errAn) run(fn *ssa.Function, args []eAbs, sum *eSummary) {
	e.analysed[fn] = true
	if fn.Recover != nil {
		// deferred calls may change the results
		fail("%s defers calls", shortFn(fn))
	}
	starts := []*eState{{env: map[ssa.Value][]eAbs{}, cells: map[*ssa.Alloc]eAbs{}}}
	for i, p := range fn.Params {
		for _, s := range starts {
			a := eAbs{id: i + 1}
			if i < len(args) {
				a = args[i]
				a.id = i + 1
			}
			s.env[p] = []eAbs{a}
		}
	}
	seen := map[*ssa.BasicBlock]map[string]bool{}
	var work []eWork
	enter := func(pred, b *ssa.BasicBlock, s *eState) {
		// phis
		var ph []*ssa.Phi
		var vals []eAbs
		for _, ins := range b.Instrs {
			x, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			for k, pr := range b.Preds {
				if pr == pred {
					ph = append(ph, x)
					vals = append(vals, e.val(s, x.Edges[k]))
				}
			}
		}
		for i, x := range ph {
			s.env[x] = []eAbs{vals[i]}
		}
		k := e.stateKey(fn, b, s)
		if seen[b] == nil {
			seen[b] = map[string]bool{}
		}
		if seen[b][k] {
			return
		}
		if len(seen[b]) > 4000 {
			fail("too many possibilities in %s", shortFn(fn))
		}
		seen[b][k] = true
		work = append(work, eWork{b, pred, s})
	}
	for _, s := range starts {
		enter(nil, fn.Blocks[0], s)
	}
	for len(work) > 0 {
		w := work[len(work)-1]
		work = work[:len(work)-1]
		states := []*eState{w.s}
		for _, ins := range w.b.Instrs {
			var next []*eState
			for _, s := range states {
				e.steps++
				if e.steps > 3000000 {
					fail("too many steps")
				}
				next = append(next, e.step(fn, s, ins, sum, enter)...)
			}
			states = next
			if len(states) == 0 {
				break
			}
		}
	}
}

func (e *errAn) out(sum *eSummary, o eOut) {
	k := o.key()
	if _, ok := sum.outs[k]; !ok {
		sum.outs[k] = o
	}
}

// step interprets one instruction in one possibility.
func (e *errAn) step(fn *ssa.Function, s *eState, ins ssa.Instruction, sum *eSummary, enter func(pred, b *ssa.BasicBlock, s *eState)) []*eState {
	one := []*eState{s}
	set := func(v ssa.Value, a eAbs) []*eState {
		if a == (eAbs{}) {
			delete(s.env, v)
		} else {
			s.env[v] = []eAbs{a}
		}
		return one
	}
	switch x := ins.(type) {
	case *ssa.Phi, *ssa.DebugRef:
		return one
	case *ssa.Alloc:
		if e.trackable(x) {
			s.cells[x] = zeroAbs(deref(x.Type()))
		}
		return set(x, eAbs{k: eNonNil})
	case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan, *ssa.FieldAddr, *ssa.IndexAddr:
		if ia, ok := ins.(*ssa.IndexAddr); ok {
			if a := e.val(s, ia.X); a.k == eNil {
				return nil // out of range
			} else if a.k == eSplit && a.n < 3 {
				if i := e.val(s, ia.Index); i.k == eInt && i.n >= a.n {
					return nil
				}
			}
		}
		if fa, ok := ins.(*ssa.FieldAddr); ok {
			a := e.val(s, fa.X)
			if a.k == eNil {
				return nil // a nil dereference
			}
			if _, isG := fa.X.(*ssa.Global); a.k == eTop && !isG {
				a.k = eNonNil
				s.env[fa.X] = []eAbs{a}
			}
		}
		return set(x.(ssa.Value), eAbs{k: eNonNil})
	case *ssa.MakeClosure:
		for _, b := range x.Bindings {
			if e.val(s, b).k == eNonNil && isErrorT(b.Type()) {
				s.esc = true
			}
		}
		return set(x, eAbs{k: eNonNil})
	case *ssa.MakeInterface:
		a := e.val(s, x.X)
		if a.k == eTop || a.k == eNil {
			return set(x, eAbs{k: eNonNil, id: a.id})
		}
		if a.k != eNonNil {
			a = eAbs{k: eNonNil, id: a.id}
		}
		return set(x, a)
	case *ssa.ChangeInterface:
		return set(x, e.val(s, x.X))
	case *ssa.ChangeType:
		return set(x, e.val(s, x.X))
	case *ssa.Extract:
		if a := s.env[x.Tuple]; x.Index < len(a) {
			return set(x, a[x.Index])
		}
		return set(x, eAbs{})
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			if al, ok := x.X.(*ssa.Alloc); ok && e.trackable(al) {
				return set(x, s.cells[al])
			}
			if g, ok := x.X.(*ssa.Global); ok && e.p.initNonNil(g) {
				return set(x, eAbs{k: eNonNil})
			}
			return set(x, eAbs{})
		case token.NOT:
			switch e.val(s, x.X).k {
			case eTrue:
				return set(x, eAbs{k: eFalse})
			case eFalse:
				return set(x, eAbs{k: eTrue})
			}
		}
		return set(x, eAbs{})
	case *ssa.BinOp:
		return set(x, e.binop(s, x))
	case *ssa.Store:
		if al, ok := x.Addr.(*ssa.Alloc); ok && e.trackable(al) {
			s.cells[al] = e.val(s, x.Val)
			return one
		}
		e.escape(s, x.Val, x)
		return one
	case *ssa.MapUpdate:
		e.escape(s, x.Value, x)
		return one
	case *ssa.Send:
		e.escape(s, x.X, x)
		return one
	case *ssa.Jump:
		b := x.Block()
		enter(b, b.Succs[0], s)
		return nil
	case *ssa.If:
		b := x.Block()
		c := e.val(s, x.Cond)
		if c.k != eFalse {
			t := s.clone()
			if e.refine(t, x.Cond, true) {
				enter(b, b.Succs[0], t)
			}
		}
		if c.k != eTrue {
			t := s.clone()
			if e.refine(t, x.Cond, false) {
				enter(b, b.Succs[1], t)
			}
		}
		return nil
	case *ssa.Return:
		o := eOut{pend: s.pend, esc: s.esc, site: x}
		for _, v := range x.Results {
			a := e.val(s, v)
			if a.k > eFalse && a.k != eInt {
				// kept: the caller may look at the parts
				if a.k == eIntGE || a.k == eZeroStr {
					a = eAbs{id: a.id}
				}
			}
			o.res = append(o.res, a)
		}
		e.out(sum, o)
		return nil
	case *ssa.Panic:
		e.out(sum, eOut{panics: true, pend: s.pend, esc: s.esc, site: x})
		return nil
	case *ssa.Call:
		return e.call(fn, s, x, sum)
	case *ssa.Go, *ssa.Defer, *ssa.RunDefers:
		if _, ok := ins.(*ssa.RunDefers); ok {
			return one
		}
		s.esc = true
		return one
	}
	if v, ok := ins.(ssa.Value); ok {
		delete(s.env, v)
	}
	return one
}

func zeroAbs(t types.Type) eAbs {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return eAbs{k: eFalse}
		case u.Info()&types.IsInteger != 0:
			return eAbs{k: eInt}
		case u.Info()&types.IsString != 0:
			return eAbs{k: eZeroStr}
		}
		return eAbs{}
	case *types.Struct, *types.Array:
		return eAbs{}
	}
	return eAbs{k: eNil}
}

// escape: an error put where the analysis does not follow it.
func (e *errAn) escape(s *eState, v ssa.Value, at ssa.Instruction) {
	if s.pend == 0 {
		return
	}
	switch v.Type().Underlying().(type) {
	case *types.Basic:
		// a flag or a message kept for later
		if afterErrorTest(at.Block()) {
			s.esc = true
		}
	case *types.Interface:
		if e.val(s, v).k != eNil && holdsError(v.Type(), 0) {
			s.esc = true
		}
	case *types.Slice, *types.Struct:
		if holdsError(v.Type(), 0) {
			s.esc = true
		}
	}
}

// afterErrorTest: the block is entered only when some error is not nil.
func afterErrorTest(b *ssa.BasicBlock) bool {
	for d := b; d != nil; d = d.Idom() {
		if len(d.Preds) != 1 {
			continue
		}
		p := d.Preds[0]
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		c, ok := iff.Cond.(*ssa.BinOp)
		if !ok || c.Op != token.NEQ && c.Op != token.EQL || !isErrorT(c.X.Type()) {
			continue
		}
		if (p.Succs[0] == d) == (c.Op == token.NEQ) {
			return true
		}
	}
	return false
}

func holdsError(t types.Type, d int) bool {
	if d > 3 {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		return types.Implements(t, errorT.Underlying().(*types.Interface)) || u.NumMethods() == 0
	case *types.Slice:
		return holdsError(u.Elem(), d+1)
	case *types.Array:
		return holdsError(u.Elem(), d+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if holdsError(u.Field(i).Type(), d+1) {
				return true
			}
		}
	}
	return false
}

func (e *errAn) binop(s *eState, x *ssa.BinOp) eAbs {
	b := func(t bool) eAbs {
		if t {
			return eAbs{k: eTrue}
		}
		return eAbs{k: eFalse}
	}
	a, c := e.val(s, x.X), e.val(s, x.Y)
	switch x.Op {
	case token.EQL, token.NEQ:
		eq := x.Op == token.EQL
		isNil := func(k eKind) bool { return k == eNil }
		isNot := func(k eKind) bool { return k == eNonNil || k == eSplit || k == eWhole || k == ePart }
		switch {
		case isNil(a.k) && isNil(c.k):
			return b(eq)
		case isNil(a.k) && isNot(c.k), isNot(a.k) && isNil(c.k):
			return b(!eq)
		case a.k == eInt && c.k == eInt:
			return b((a.n == c.n) == eq)
		case a.k == eIntGE && c.k == eInt && c.n < a.n, c.k == eIntGE && a.k == eInt && a.n < c.n:
			return b(!eq)
		case (a.k == eTrue || a.k == eFalse) && (c.k == eTrue || c.k == eFalse):
			return b((a.k == c.k) == eq)
		case a.k == eZeroStr && c.k == eZeroStr:
			return b(eq)
		}
		if k := e.lineCmp(s, x.X, x.Y); k == eWhole {
			return b(eq)
		} else if k == ePart {
			return b(!eq)
		}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		lo1, hi1, ok1 := eRange(a)
		lo2, hi2, ok2 := eRange(c)
		if ok1 && ok2 {
			switch x.Op {
			case token.GTR:
				lo1, hi1, lo2, hi2 = lo2, hi2, lo1, hi1
				fallthrough
			case token.LSS:
				if hi1 < lo2 {
					return b(true)
				}
				if lo1 >= hi2 {
					return b(false)
				}
			case token.GEQ:
				lo1, hi1, lo2, hi2 = lo2, hi2, lo1, hi1
				fallthrough
			case token.LEQ:
				if hi1 <= lo2 {
					return b(true)
				}
				if lo1 > hi2 {
					return b(false)
				}
			}
		}
		// the length of a line and of the match inside it
		if k := e.lineCmp(s, x.X, x.Y); k != eTop {
			first := e.isMatch(s, x.X) != nil // the match is the smaller one
			switch {
			case k == eWhole:
				return b(x.Op == token.LEQ || x.Op == token.GEQ)
			case first:
				return b(x.Op == token.LSS || x.Op == token.LEQ)
			default:
				return b(x.Op == token.GTR || x.Op == token.GEQ)
			}
		}
	case token.ADD:
		if a.k == eInt && c.k == eInt {
			if n := a.n + c.n; n >= 3 {
				return eAbs{k: eIntGE, n: 3}
			} else if n >= -3 {
				return eAbs{k: eInt, n: n}
			}
		}
		if a.k == eIntGE && c.k == eInt && c.n >= 0 {
			return a
		}
	case token.SUB:
		if a.k == eInt && c.k == eInt && a.n-c.n >= -3 && a.n-c.n <= 3 {
			return eAbs{k: eInt, n: a.n - c.n}
		}
	case token.AND, token.OR:
	}
	return eAbs{}
}

const eInf = 1 << 30

func eRange(a eAbs) (int, int, bool) {
	switch a.k {
	case eInt:
		return a.n, a.n, true
	case eIntGE:
		return a.n, eInf, true
	}
	return 0, 0, false
}

// isMatch: v is the whole match of a line (or its length); it gives the call
// that matched.
func (e *errAn) isMatch(s *eState, v ssa.Value) *ssa.Call {
	if c, ok := v.(*ssa.Call); ok {
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			v = c.Call.Args[0]
		}
	}
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return nil
	}
	ia, ok := u.X.(*ssa.IndexAddr)
	if !ok {
		return nil
	}
	if i := e.val(s, ia.Index); i.k != eInt || i.n != 0 {
		return nil
	}
	c, ok := ia.X.(*ssa.Call)
	if !ok {
		return nil
	}
	if k := e.val(s, c).k; k != eWhole && k != ePart {
		return nil
	}
	return c
}

// lineCmp: x and y are a line and the match inside it (or their lengths).
func (e *errAn) lineCmp(s *eState, x, y ssa.Value) eKind {
	for i := 0; i < 2; i++ {
		if c := e.isMatch(s, x); c != nil {
			l := y
			if lc, ok := l.(*ssa.Call); ok {
				if b, ok := lc.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
					l = lc.Call.Args[0]
				}
			}
			for _, a := range c.Call.Args {
				if a == l {
					if k := e.val(s, c).k; k == eWhole || k == ePart {
						return k
					}
				}
			}
		}
		x, y = y, x
	}
	return eTop
}

// refine takes the outcome of a condition into the state; false: impossible.
func (e *errAn) refine(s *eState, cond ssa.Value, truth bool) bool {
	if k := e.val(s, cond).k; k == eTrue && !truth || k == eFalse && truth {
		return false
	}
	if _, isC := cond.(*ssa.Const); !isC {
		a := eAbs{k: eFalse}
		if truth {
			a.k = eTrue
		}
		s.env[cond] = []eAbs{a}
	}
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return e.refine(s, x.X, !truth)
		}
	case *ssa.BinOp:
		if x.Op != token.EQL && x.Op != token.NEQ {
			break
		}
		eq := (x.Op == token.EQL) == truth
		for i, v := range []ssa.Value{x.X, x.Y} {
			o := []ssa.Value{x.Y, x.X}[i]
			if e.val(s, o).k != eNil {
				continue
			}
			a := e.val(s, v)
			if a.k != eTop {
				continue
			}
			if eq {
				a.k = eNil
			} else {
				a.k = eNonNil
			}
			if _, isC := v.(*ssa.Const); !isC {
				s.env[v] = []eAbs{a}
			}
		}
	}
	return true
}

// noReport: the standard library's functions whose error is no step of a
// construction.
func noReport(fn *ssa.Function) bool {
	if fn.Pkg == nil {
		return true
	}
	switch fn.Pkg.Pkg.Path() {
	case "regexp", "regexp/syntax":
		return false
	}
	return true
}

// call interprets a call: one possibility per way it can end.
func (e *errAn) call(fn *ssa.Function, s *eState, x *ssa.Call, sum *eSummary) []*eState {
	c := x.Call
	sig := c.Signature()
	n := sig.Results().Len()
	assign := func(t *eState, res []eAbs) *eState {
		sn := e.site(x)
		out := make([]eAbs, n)
		for i := range out {
			if i < len(res) {
				out[i] = res[i]
			}
			if out[i].id == 0 {
				out[i].id = 1000 + sn*8 + i
			}
		}
		delete(t.env, x)
		if n > 0 {
			t.env[x] = out
		}
		return t
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "len":
			a := e.val(s, c.Args[0])
			switch a.k {
			case eNil, eZeroStr:
				s.env[x] = []eAbs{{k: eInt}}
				return []*eState{s}
			case eSplit:
				if a.n >= 3 {
					s.env[x] = []eAbs{{k: eIntGE, n: 3}}
				} else {
					s.env[x] = []eAbs{{k: eInt, n: a.n}}
				}
				return []*eState{s}
			}
		case "append":
			for _, a := range c.Args[1:] {
				e.escape(s, a, x)
			}
		}
		delete(s.env, x)
		return []*eState{s}
	}
	var callee *ssa.Function
	args := c.Args
	switch v := c.Value.(type) {
	case *ssa.Function:
		callee = v
	case *ssa.MakeClosure:
		callee, _ = v.Fn.(*ssa.Function)
		if len(v.Bindings) > 0 {
			s.esc = s.esc || s.pend != 0
		}
	}
	if c.IsInvoke() {
		callee = nil
	}
	if callee != nil && e.p.InModule(callee) && callee.Blocks != nil {
		if out, ok := e.source(fn, s, x, callee, assign); ok {
			return out
		}
		in := make([]eAbs, len(callee.Params))
		for i := range in {
			if i < len(args) {
				in[i] = e.val(s, args[i])
				if in[i].k == eIntGE || in[i].k == eZeroStr || in[i].k == eInt && in[i].n < 0 {
					in[i].k, in[i].n = eTop, 0
				}
			}
		}
		cs := e.summary(callee, in)
		var keys []string
		for k := range cs.outs {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		var outs []*eState
		for _, k := range keys {
			o := cs.outs[k]
			if o.panics {
				if e.constArgs(args, 0) {
					continue // fixed input: fails always or never
				}
				e.out(sum, eOut{panics: true, pend: firstOf(s.pend, o.pend), esc: s.esc || o.esc, site: x})
				continue
			}
			t := s.clone()
			if t.pend == 0 {
				t.pend = o.pend
			}
			t.esc = t.esc || o.esc
			res := make([]eAbs, len(o.res))
			for i, a := range o.res {
				if a.id > 0 && a.id < 1000 && a.id-1 < len(in) {
					arg := in[a.id-1]
					a.id = arg.id
				} else {
					a.id = 0
				}
				res[i] = a
			}
			outs = append(outs, e.forkErrors(t, x, sig, res, assign, "the error of "+shortFn(callee), 0)...)
		}
		return outs
	}
	if callee != nil {
		if out, ok := e.source(fn, s, x, callee, assign); ok {
			return out
		}
		switch name := callee.String(); name {
		case "errors.New", "fmt.Errorf":
			return []*eState{assign(s, []eAbs{{k: eNonNil}})}
		case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "log.Panicln", "runtime.Goexit":
			e.out(sum, eOut{panics: true, pend: s.pend, esc: s.esc, site: x})
			return nil
		case "regexp.MustCompile", "regexp.MustCompilePOSIX":
			if !e.constArgs(args, 0) {
				e.out(sum, eOut{panics: true, pend: s.pend, esc: s.esc, site: x})
			}
			return []*eState{assign(s, []eAbs{{k: eNonNil}})}
		case "regexp.Compile", "regexp.CompilePOSIX":
			if e.constArgs(args, 0) {
				return []*eState{assign(s, []eAbs{{k: eNonNil}, {k: eNil}})}
			}
			bad := s.clone()
			if bad.pend == 0 {
				bad.pend = e.report(x, "the error of "+name)
			}
			return []*eState{assign(s, []eAbs{{k: eNonNil}, {k: eNil}}), assign(bad, []eAbs{{k: eNil}, {k: eNonNil}})}
		}
	}
	// an unknown function: it may report an error
	for _, a := range args {
		if s.pend != 0 && isErrorT(a.Type()) && (callee == nil || e.p.InModule(callee)) {
			s.esc = true
		}
	}
	if c.IsInvoke() && s.pend != 0 && isErrorT(c.Value.Type()) {
		s.esc = true // its message is used
	}
	what := "the error of the call"
	pend := callee == nil
	if callee != nil {
		what = "the error of " + callee.String()
		pend = !noReport(callee)
	}
	if c.IsInvoke() {
		what = "the error of " + c.Method.Name()
	}
	mode := 0
	if !pend {
		mode = 1
	}
	return e.forkErrors(s, x, sig, nil, assign, what, mode)
}

func firstOf(a, b int) int {
	if a != 0 {
		return a
	}
	return b
}

// forkErrors separates the cases in which the call reports an error.  mode 1:
// an error of that call need not be passed on.
func (e *errAn) forkErrors(s *eState, x *ssa.Call, sig *types.Signature, res []eAbs, assign func(*eState, []eAbs) *eState, what string, mode int) []*eState {
	n := sig.Results().Len()
	full := make([]eAbs, n)
	copy(full, res)
	at := -1
	for i := 0; i < n; i++ {
		if isErrorT(sig.Results().At(i).Type()) {
			at = i
		}
	}
	if at < 0 {
		return []*eState{assign(s, full)}
	}
	switch full[at].k {
	case eNil:
		return []*eState{assign(s, full)}
	case eNonNil:
		if full[at].id != 0 && full[at].id < 1000 {
			return []*eState{assign(s, full)} // the caller's own, handed back
		}
		if mode == 0 {
			if s.pend == 0 {
				s.pend = e.report(x, what)
			}
		}
		return []*eState{assign(s, full)}
	}
	bad := s.clone()
	g := append([]eAbs{}, full...)
	g[at].k = eNil
	full[at].k = eNonNil
	if mode == 0 && bad.pend == 0 {
		bad.pend = e.report(x, what)
	}
	return []*eState{assign(s, g), assign(bad, full)}
}

// constArgs: the arguments are fixed at compile time.
func (e *errAn) constArgs(args []ssa.Value, depth int) bool {
	if depth > 6 {
		return false
	}
	for _, a := range args {
		if !e.constVal(a, depth) {
			return false
		}
	}
	return true
}

func (e *errAn) constVal(v ssa.Value, depth int) bool {
	switch x := v.(type) {
	case *ssa.Const, *ssa.Function:
		return true
	case *ssa.Extract:
		return e.constVal(x.Tuple, depth+1)
	case *ssa.MakeInterface:
		return e.constVal(x.X, depth+1)
	case *ssa.ChangeInterface:
		return e.constVal(x.X, depth+1)
	case *ssa.ChangeType:
		return e.constVal(x.X, depth+1)
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL {
			return e.p.constGlobal(g)
		}
	case *ssa.BinOp:
		return e.constArgs([]ssa.Value{x.X, x.Y}, depth+1)
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil && f.Signature.Recv() == nil {
			return e.constArgs(x.Call.Args, depth+1)
		}
	case *ssa.Slice:
		al, ok := x.X.(*ssa.Alloc)
		if !ok {
			return false
		}
		for _, ref := range *al.Referrers() {
			switch y := ref.(type) {
			case *ssa.IndexAddr:
				for _, r2 := range *y.Referrers() {
					if st, ok := r2.(*ssa.Store); !ok || !e.constVal(st.Val, depth+1) {
						return false
					}
				}
			case *ssa.Slice, *ssa.DebugRef:
			default:
				return false
			}
		}
		return true
	}
	return false
}

// constGlobal: a package-level variable that is set when the program starts and
// never again.
func (p *Prog) constGlobal(g *ssa.Global) bool {
	if g.Pkg == nil || !p.inMod[g.Pkg] {
		return false
	}
	for _, fn := range p.Funcs {
		if fn.Synthetic != "" && fn.Name() == "init" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				var ops []*ssa.Value
				for _, op := range ins.Operands(ops) {
					if *op == g {
						if u, ok := ins.(*ssa.UnOp); !ok || u.Op != token.MUL {
							return false
						}
					}
				}
			}
		}
	}
	return true
}

// source: the calls whose answer, rather than an error, says that the input is
// bad.
func (e *errAn) source(fn *ssa.Function, s *eState, x *ssa.Call, callee *ssa.Function, assign func(*eState, []eAbs) *eState) ([]*eState, bool) {
	pkg := ""
	if fn.Pkg != nil {
		pkg = strings.TrimPrefix(fn.Pkg.Pkg.Path(), modPath+"/")
	}
	bad := func(t *eState, what string) *eState {
		e.sources[pkg]++
		if t.pend == 0 {
			t.pend = e.report(x, what)
		}
		return t
	}
	switch {
	case pkg == "parser/topdown" && callee.Pkg != nil && callee.Pkg.Pkg.Path() == modPath && callee.Name() == "IsLeftRecursive":
		t := bad(s.clone(), "the grammar being left recursive")
		return []*eState{assign(s, []eAbs{{k: eFalse}}), assign(t, []eAbs{{k: eTrue}})}, true
	case pkg == "grammar" && callee.String() == "strings.Split":
		if c, ok := x.Call.Args[1].(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String && constant.StringVal(c.Value) == "->" {
			one, two := s.clone(), s.clone()
			t := bad(s, "the line having more than one arrow")
			return []*eState{assign(one, []eAbs{{k: eSplit, n: 1}}), assign(two, []eAbs{{k: eSplit, n: 2}}), assign(t, []eAbs{{k: eSplit, n: 3}})}, true
		}
	case pkg == "tree" && callee.String() == "(*regexp.Regexp).FindStringSubmatch" && fn.Name() != "init":
		u, ok := x.Call.Args[0].(*ssa.UnOp)
		if !ok {
			break
		}
		g, ok := u.X.(*ssa.Global)
		if !ok {
			break
		}
		always, whole, known := e.p.regexpShape(g)
		if !known {
			break
		}
		var out []*eState
		w := s.clone()
		out = append(out, assign(w, []eAbs{{k: eWhole}}))
		if !whole {
			out = append(out, assign(bad(s.clone(), "the line not being matched as a whole"), []eAbs{{k: ePart}}))
		}
		if !always {
			out = append(out, assign(bad(s.clone(), "the line not being matched"), []eAbs{{k: eNil}}))
		}
		return out, true
	}
	return nil, false
}

// regexpShape: whether a regular expression held by a package-level variable
// matches somewhere in every text, and whether its matches cover the text.
func (p *Prog) regexpShape(g *ssa.Global) (always, whole, known bool) {
	if g.Pkg == nil || !p.constGlobal(g) {
		return
	}
	init := g.Pkg.Func("init")
	if init == nil {
		return
	}
	for _, b := range init.Blocks {
		for _, ins := range b.Instrs {
			st, ok := ins.(*ssa.Store)
			if !ok || st.Addr != g {
				continue
			}
			c, ok := st.Val.(*ssa.Call)
			if !ok || c.Call.StaticCallee() == nil || c.Call.StaticCallee().String() != "regexp.MustCompile" {
				return
			}
			k, ok := c.Call.Args[0].(*ssa.Const)
			if !ok || k.Value == nil || k.Value.Kind() != constant.String {
				return
			}
			re, err := syntax.Parse(constant.StringVal(k.Value), syntax.Perl)
			if err != nil {
				return
			}
			whole = reAnchored(re, true) && reAnchored(re, false)
			return reAtEnd(re), whole, true
		}
	}
	return
}

func reAnchored(re *syntax.Regexp, start bool) bool {
	switch re.Op {
	case syntax.OpBeginText:
		return start
	case syntax.OpEndText:
		return !start
	case syntax.OpCapture:
		return reAnchored(re.Sub[0], start)
	case syntax.OpConcat:
		if start {
			return reAnchored(re.Sub[0], start)
		}
		return reAnchored(re.Sub[len(re.Sub)-1], start)
	case syntax.OpAlternate:
		for _, s := range re.Sub {
			if !reAnchored(s, start) {
				return false
			}
		}
		return true
	}
	return false
}

// reAtEnd: the expression matches the empty text at the end of any text.
func reAtEnd(re *syntax.Regexp) bool {
	switch re.Op {
	case syntax.OpEmptyMatch, syntax.OpEndText, syntax.OpStar, syntax.OpQuest:
		return true
	case syntax.OpCapture, syntax.OpPlus:
		return reAtEnd(re.Sub[0])
	case syntax.OpRepeat:
		return re.Min == 0 || reAtEnd(re.Sub[0])
	case syntax.OpConcat:
		for _, s := range re.Sub {
			if !reAtEnd(s) {
				return false
			}
		}
		return true
	case syntax.OpAlternate:
		for _, s := range re.Sub {
			if reAtEnd(s) {
				return true
			}
		}
	}
	return false
}

func checkC10(p *Prog, r *Report) {
	r.Rule = "interprocedural path-sensitive dataflow over the SSA form (function summaries to a fixpoint): on every path of every exported constructor on which a step reports an error " +
		"the caller receives a non-nil error; with a nil error every result is non-nil, with an error every other result is nil; must-style wrappers panic exactly with an error and hand on their value; " +
		"no other exported function reaches a deliberate panic; a rule of a kind that is already there and an inheritance from a lexer being defined are reported (abstract interpretation)"
	r.Assumptions = append([]string{"errors of strconv, fmt and writers are not steps of a construction"}, absAssumptions...)
	var entries, musts []*ssa.Function
	for _, fn := range p.Funcs {
		if !p.exportedAPI(fn) {
			continue
		}
		sig := fn.Signature
		n := sig.Results().Len()
		switch {
		case sig.Recv() == nil && strings.HasPrefix(fn.Name(), "Must"):
			musts = append(musts, fn)
		case n > 0 && isErrorT(sig.Results().At(n-1).Type()):
			entries = append(entries, fn)
		}
	}
	for _, fn := range entries {
		e := newErrAn(p, r)
		decidePlain(p, r, "errors of "+shortFn(fn), func(a *attempt) { entryC10(a, e, fn, r) })
		r.count("constructors", 1)
		e.note(r)
	}
	for _, fn := range musts {
		e := newErrAn(p, r)
		decidePlain(p, r, "wrapper "+shortFn(fn), func(a *attempt) { mustC10(a, e, fn) })
		r.count("wrappers", 1)
		e.note(r)
	}
	panicsC10(p, r)
	duplicateC10(p, r)
	cyclicC10(p, r)
	nestingC10(p, r)
	r.Floors["constructors"] = 8
	r.Floors["wrappers"] = 6
	r.Floors["reporting steps"] = 10
}

func (e *errAn) note(r *Report) {
	for fn := range e.analysed {
		r.fns[shortFn(fn)] = true
	}
	r.count("reporting steps", len(e.reports))
	r.count("function summaries", len(e.sums))
}

// exportedAPI: a function of the library that callers can reach by name.
func (p *Prog) exportedAPI(fn *ssa.Function) bool {
	if fn.Pkg == nil || fn.Synthetic != "" || fn.Parent() != nil || !p.isLib(fn.Pkg) || strings.Contains(fn.Pkg.Pkg.Path(), "/examples/") {
		return false
	}
	if !token.IsExported(fn.Name()) {
		return false
	}
	return true
}

// decidePlain is decide for analyses that do not use the interpreter.
func decidePlain(p *Prog, r *Report, name string, f func(a *attempt)) {
	a := &attempt{p: p, bak: map[string]bool{}}
	msg := func() (msg string) {
		defer func() {
			if e := recover(); e != nil {
				if ft, ok := e.(fatal); ok {
					msg = ft.msg
				} else {
					msg = fmt.Sprintf("internal error: %v", e)
				}
			}
		}()
		f(a)
		return ""
	}()
	switch {
	case msg != "":
		r.undecided(name, msg)
	case len(a.bad) > 0:
		for _, b := range a.bad {
			r.violate(b.Key, b.Where, b.Detail)
		}
	default:
		r.ok("%s", name)
	}
}

func (e *errAn) outsOf(fn *ssa.Function, args []eAbs) []eOut {
	s := e.summary(fn, args)
	e.solve()
	var keys []string
	for k := range s.outs {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var out []eOut
	for _, k := range keys {
		out = append(out, s.outs[k])
	}
	return out
}

func entryC10(a *attempt, e *errAn, fn *ssa.Function, r *Report) {
	p := e.p
	outs := e.outsOf(fn, make([]eAbs, len(fn.Params)))
	if len(outs) == 0 {
		fail("no way to the end found")
	}
	n := fn.Signature.Results().Len()
	isRun := fn.Name() == "Run" && fn.Pkg.Pkg.Path() == modPath
	unsure := ""
	for _, o := range outs {
		at := p.InstrPos(o.site)
		if o.panics {
			a.violate("panic instead of an error in "+shortFn(fn), at, "%s can end in a deliberate panic here; errors have to be returned", shortFn(fn))
			continue
		}
		err := o.res[n-1]
		if o.pend != 0 && err.k != eNonNil {
			rep := e.reports[o.pend-1]
			if o.esc || err.k == eTop {
				unsure = fmt.Sprintf("%s (%s) is kept somewhere the analysis does not follow", rep.what, p.InstrPos(rep.site))
				continue
			}
			a.violate("error lost in "+shortFn(fn)+": "+rep.what, p.InstrPos(rep.site),
				"on a path on which %s (reported at %s in %s) is non-nil or true, %s returns a nil error (return reached from %s)", rep.what, p.InstrPos(rep.site), shortFn(rep.site.Parent()), shortFn(fn), at)
			continue
		}
		if isRun {
			continue // the values are C09's matter
		}
		for i := 0; i < n-1; i++ {
			v := o.res[i]
			if _, ok := fn.Signature.Results().At(i).Type().Underlying().(*types.Basic); ok {
				continue
			}
			switch {
			case err.k == eNil && v.k == eNil:
				a.violate("neither value nor error from "+shortFn(fn), at, "%s returns a nil value together with a nil error", shortFn(fn))
			case err.k == eNonNil && v.k == eNonNil:
				a.violate("both value and error from "+shortFn(fn), at, "%s returns a value together with an error", shortFn(fn))
			case err.k == eTop:
				unsure = "not known whether the error returned at " + at + " is nil"
			case err.k == eNonNil && v.k == eTop:
				unsure = "not known whether the value returned with an error at " + at + " is nil"
			}
		}
	}
	for _, src := range []struct{ pkg, what string }{{"grammar", "lines with several arrows"}, {"tree", "lines that are not matched as a whole"}, {"parser/topdown", "left recursion"}} {
		if strings.TrimPrefix(fn.Pkg.Pkg.Path(), modPath+"/") == src.pkg && e.sources[src.pkg] == 0 {
			unsure = "the test for " + src.what + " is not recognised"
		}
	}
	if len(a.bad) == 0 && unsure != "" {
		fail("%s", unsure)
	}
}

func mustC10(a *attempt, e *errAn, fn *ssa.Function) {
	p := e.p
	errArg := -1
	for i, q := range fn.Params {
		if isErrorT(q.Type()) {
			errArg = i
		}
	}
	unsure := ""
	check := func(o eOut, withErr bool) {
		at := p.InstrPos(o.site)
		switch {
		case withErr && !o.panics:
			if o.esc {
				unsure = "the error is kept somewhere"
				return
			}
			a.violate("no panic on an error in "+shortFn(fn), at, "%s returns although there is an error", shortFn(fn))
		case !withErr && o.panics:
			a.violate("panic without an error in "+shortFn(fn), at, "%s panics although there is no error", shortFn(fn))
		case !o.panics:
			for i, v := range o.res {
				if _, ok := fn.Signature.Results().At(i).Type().Underlying().(*types.Basic); ok {
					continue
				}
				if v.id == 0 {
					if v.k == eTop {
						unsure = "not known where the result comes from"
					} else {
						a.violate("value not passed through by "+shortFn(fn), at, "%s returns something else than the value it was given", shortFn(fn))
					}
				}
			}
		}
	}
	if errArg >= 0 {
		for _, k := range []eKind{eNil, eNonNil} {
			args := make([]eAbs, len(fn.Params))
			args[errArg].k = k
			for _, o := range e.outsOf(fn, args) {
				check(o, k == eNonNil)
			}
		}
	} else {
		outs := e.outsOf(fn, make([]eAbs, len(fn.Params)))
		if len(outs) == 0 {
			fail("no way to the end found")
		}
		for _, o := range outs {
			check(o, o.pend != 0)
		}
	}
	if len(a.bad) == 0 && unsure != "" {
		fail("%s", unsure)
	}
}

// panicsC10: deliberate panics are reached from must-style wrappers only.
func panicsC10(p *Prog, r *Report) {
	e := newErrAn(p, r)
	callers := map[*ssa.Function]map[*ssa.Function]bool{}
	taken := map[*ssa.Function]bool{}
	direct := map[*ssa.Function]ssa.Instruction{}
	sites := 0
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if pn, ok := ins.(*ssa.Panic); ok && pn.Pos().IsValid() && fn.Synthetic == "" {
					direct[fn] = ins
					sites++
				}
				call, _ := ins.(ssa.CallInstruction)
				var callee *ssa.Function
				if call != nil {
					callee = call.Common().StaticCallee()
				}
				var ops []*ssa.Value
				for i, op := range ins.Operands(ops) {
					if f, ok := (*op).(*ssa.Function); ok {
						if f == callee && i == 0 && call != nil {
							continue
						}
						taken[f] = true
					}
				}
				if callee == nil {
					continue
				}
				if p.InModule(callee) {
					if !e.constArgs(call.Common().Args, 0) {
						if callers[callee] == nil {
							callers[callee] = map[*ssa.Function]bool{}
						}
						callers[callee][fn] = true
					}
					continue
				}
				switch callee.String() {
				case "regexp.MustCompile", "regexp.MustCompilePOSIX":
					if !e.constArgs(call.Common().Args, 0) {
						direct[fn] = ins
						sites++
					}
				case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "log.Panicln":
					direct[fn] = ins
					sites++
				}
			}
		}
	}
	r.count("deliberate panics", sites)
	var fns []*ssa.Function
	for fn := range direct {
		fns = append(fns, fn)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	for _, fn := range fns {
		if fn.Pkg == nil || !p.isLib(fn.Pkg) || strings.Contains(fn.Pkg.Pkg.Path(), "/examples/") {
			continue
		}
		key := "deliberate panic in " + shortFn(fn)
		seen := map[*ssa.Function]bool{}
		var bad *ssa.Function
		var walk func(f *ssa.Function)
		walk = func(f *ssa.Function) {
			if seen[f] || bad != nil {
				return
			}
			seen[f] = true
			if f.Signature.Recv() == nil && strings.HasPrefix(f.Name(), "Must") && token.IsExported(f.Name()) {
				// wrappers are checked for themselves; those who call them inherit the panic
			} else if p.exportedAPI(f) || taken[f] && f.Synthetic == "" {
				bad = f
				return
			}
			for c := range callers[f] {
				walk(c)
			}
			if f.Parent() != nil {
				walk(f.Parent())
			}
		}
		walk(fn)
		if bad != nil {
			r.violate(key, p.InstrPos(direct[fn]), fmt.Sprintf("%s, which is not a must-style wrapper, reaches this deliberate panic", shortFn(bad)))
		} else {
			r.ok("%s is reached from must-style wrappers only", key)
		}
	}
}

// ruleList finds the field of a lexer type that holds its rules by symbol.
func ruleList(t *types.Named) (field int, rule *types.Named) {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1, nil
	}
	for i := 0; i < s.NumFields(); i++ {
		sl, ok := s.Field(i).Type().Underlying().(*types.Slice)
		if !ok {
			continue
		}
		pt, ok := sl.Elem().Underlying().(*types.Pointer)
		if !ok {
			continue
		}
		n, ok := types.Unalias(pt.Elem()).(*types.Named)
		if !ok {
			continue
		}
		rs, ok := n.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for j := 0; j < rs.NumFields(); j++ {
			if rs.Field(j).Type().String() == "*regexp.Regexp" {
				return i, n
			}
		}
	}
	return -1, nil
}

// duplicateC10: adding a rule of a kind that has one already is an error.
func duplicateC10(p *Prog, r *Report) {
	lexT := p.Named("lexer/simplelexer", "Lexer")
	add := p.Method(types.NewPointer(lexT), "Add")
	symT := p.Named("symbol/setsymbol", "Symbol")
	idx := p.Method(types.NewPointer(symT), "Idx")
	title := "a second rule of the same kind is reported by " + shortFn(add)
	r.count("guards", 1)
	decide(p, r, title, 1, func(a *attempt, _ int) {
		in := a.interp()
		st := newState()
		args := in.unknownArgs(st, add)
		for _, v := range args[:2] {
			in.nonNil(st, v)
		}
		f, _ := ruleList(lexT)
		if f < 0 {
			fail("the list of rules is not recognised")
		}
		it := &item{st: st, env: map[ssa.Value]Val{}}
		lp := args[0].(PtrV)
		rs := in.load(it, PtrV{obj: lp.obj, path: lp.path + string(rune(f))}, nil)
		if len(rs) != 1 {
			fail("the list of rules is not there")
		}
		rules, ok := rs[0].v.(SliceV)
		if !ok {
			fail("the list of rules is not a slice")
		}
		st = rs[0].it.st
		sy := in.unknown(st, types.NewPointer(symT), "kind")
		in.nonNil(st, sy)
		os := in.exec(idx, []Val{sy}, nil, st)
		if len(os) != 1 || os[0].panicked {
			fail("the index of a symbol is not plain")
		}
		st = os[0].st
		kv, ok := in.force(st, os[0].ret).(IntV)
		if !ok {
			fail("the index of a symbol is not a number")
		}
		st.cons.addGE(kv.e)
		st.cons.addGE(rules.ln.sub(kv.e).plus(-1))
		st.nils[rules.arr] = false
		it = &item{st: st, env: map[ssa.Value]Val{}}
		es := in.readElem(it, rules.arr, rules.off.add(kv.e))
		if len(es) != 1 {
			fail("the rule is not plain")
		}
		st = es[0].it.st
		in.nonNil(st, in.force(st, es[0].v))
		setT := p.Named("symbol/setsymbol", "Set")
		in.mon.onCall = func(it *item, fn *ssa.Function, as []Val, site ssa.CallInstruction) ([]res, bool) {
			rv := fn.Signature.Recv()
			if rv == nil || !types.Identical(deref(rv.Type()), setT) {
				return nil, false
			}
			rt := fn.Signature.Results()
			if rt.Len() == 1 && types.Identical(deref(rt.At(0).Type()), symT) {
				if fn.Name() == "Symbol" || fn.Name() == "Str" {
					return []res{{it, sy}}, true
				}
			}
			return []res{{it, in.unknownRes(it.st, fn.Signature, fn.Name())}}, true
		}
		n := 0
		for _, o := range in.exec(add, args, nil, st) {
			if o.panicked {
				continue
			}
			n++
			if isNonNil(in, o.st, in.force(o.st, o.ret)) {
				continue
			}
			if !isNilVal(in, o.st, in.force(o.st, o.ret)) {
				fail("not known whether the error is nil")
			}
			a.violate(title, p.InstrPos(o.site), "there is a rule of the kind already, and a nil error is returned")
		}
		if n == 0 {
			fail("no way to the end found")
		}
	})
}

// cyclicC10: defining a sub-lexer again while it is being defined is an error.
// The definitions in progress are kept in one of the maps handed down: with the
// mark set the definition ends in an error, and the mark is set whenever the
// definition of a sub-lexer asks for that of another.
func cyclicC10(p *Prog, r *Report) {
	pkg := p.pkg("lexer/stacklexer")
	var parse *ssa.Function
	for _, fn := range p.Funcs {
		if fn.Pkg != pkg || fn.Signature.Recv() == nil || fn.Synthetic != "" {
			continue
		}
		uses := false
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if u, ok := ins.(*ssa.UnOp); ok {
					if g, ok := u.X.(*ssa.Global); ok && g.Name() == "ErrCyclic" {
						uses = true
					}
				}
			}
		}
		if uses {
			parse = fn
		}
	}
	title := "inheriting from a lexer that is being defined is reported"
	r.count("guards", 1)
	if parse == nil {
		r.undecided(title, "no method returns ErrCyclic itself")
		return
	}
	var maps []int
	for i, q := range parse.Params {
		if m, ok := q.Type().Underlying().(*types.Map); ok {
			if b, ok := m.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
				maps = append(maps, i)
			}
		}
	}
	decide(p, r, title, 1, func(a *attempt, _ int) {
		if len(maps) == 0 {
			fail("no map of definitions in progress is handed down")
		}
		var bad []Finding
		for _, m := range maps {
			b := &attempt{p: p, bak: map[string]bool{}}
			cyclicMap(b, title, parse, m)
			a.in = b.in
			if len(b.bad) == 0 {
				return
			}
			bad = append(bad, b.bad...)
		}
		a.bad = bad
	})
}

func cyclicMap(a *attempt, title string, parse *ssa.Function, mi int) {
	p := a.p
	recv := deref(parse.Signature.Recv().Type()).(*types.Named)
	nameF := -1
	if s, ok := recv.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if b, ok := s.Field(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
				nameF = i
			}
		}
	}
	if nameF < 0 {
		fail("the name of a sub-lexer is not recognised")
	}
	mName := parse.Params[mi].Name()
	for _, marked := range []bool{true, false} {
		in := a.interp()
		st := newState()
		args := in.unknownArgs(st, parse)
		for i, v := range args {
			if i == 0 {
				in.nonNil(st, v)
			}
			if _, ok := v.(MapV); ok {
				in.nonNil(st, v)
			}
		}
		it := &item{st: st, env: map[ssa.Value]Val{}}
		sp := args[0].(PtrV)
		ns := in.load(it, PtrV{obj: sp.obj, path: sp.path + string(rune(nameF))}, nil)
		if len(ns) != 1 {
			fail("the name of a sub-lexer is not there")
		}
		name := ns[0].v
		st = ns[0].it.st
		mv := args[mi].(MapV)
		m := st.mut(mv.obj)
		m.ks = append(m.ks, mapEntry{k: name, v: BoolV{constForm(marked)}, ok: constForm(marked)})
		in.mon.onMapSet = func(it *item, m2 MapV, k, v Val, site ssa.Instruction) {
			if m2.obj == mv.obj && it.st.truth(in.equal(it.st, k, name)) <= 0 {
				fail("the marks of other definitions are changed at %s", p.InstrPos(site))
			}
		}
		asked := 0
		in.mon.recur = func(it *item, fn *ssa.Function, as []Val, site ssa.CallInstruction) ([]res, bool) {
			if fn == parse {
				asked++
				m2, ok := in.force(it.st, as[mi]).(MapV)
				if !ok || m2.obj != mv.obj {
					a.violate(title, p.InstrPos(site), "the definitions in progress (%s) are not handed on", mName)
				} else {
					for _, g := range in.mapGet(it.fork(), mv, name, types.Typ[types.Bool]) {
						bv, ok := BoolV{}, false
						if g.v != nil {
							bv, ok = in.force(g.it.st, g.v).(BoolV)
						}
						if !ok || g.it.st.truth(bv.f) <= 0 {
							a.violate(title, p.InstrPos(site), "another sub-lexer is defined while this one is not marked as being defined in %s", mName)
						}
					}
				}
				return []res{{it, in.unknownRes(it.st, fn.Signature, "err")}}, true
			}
			return nil, false
		}
		in.mon.onCall = func(it *item, fn *ssa.Function, as []Val, site ssa.CallInstruction) ([]res, bool) {
			if fn == parse && len(in.stack) > 0 {
				return in.mon.recur(it, fn, as, site)
			}
			// what does not lead back to the definitions does not matter here
			if p.InModule(fn) && !p.reaches(fn, parse) {
				return []res{{it, in.unknownRes(it.st, fn.Signature, fn.Name())}}, true
			}
			return nil, false
		}
		n := 0
		for _, o := range in.exec(parse, args, nil, st) {
			if o.panicked {
				continue
			}
			n++
			e := o.ret
			if tv, ok := e.(TupleV); ok {
				e = tv.vs[len(tv.vs)-1]
			}
			e = in.force(o.st, e)
			if marked && !isNonNil(in, o.st, e) {
				if !isNilVal(in, o.st, e) {
					fail("not known whether the error is nil")
				}
				a.violate(title, p.InstrPos(o.site), "the sub-lexer is marked as being defined in %s, and a nil error is returned", mName)
			}
		}
		if n == 0 || !marked && asked == 0 {
			fail("no way to the end found")
		}
	}
}

// reaches: fn can call target, directly or through other functions.
func (p *Prog) reaches(fn, target *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		if f == target {
			return true
		}
		if seen[f] || !p.InModule(f) {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				var ops []*ssa.Value
				for _, op := range ins.Operands(ops) {
					if g, ok := (*op).(*ssa.Function); ok && walk(g) {
						return true
					}
				}
			}
		}
		return false
	}
	return walk(fn)
}

// nestingC10: text that leaves a brace open is reported.  What the braces
// change (the node being filled, a depth) is looked at after the last line,
// on every way to a nil error.
func nestingC10(p *Prog, r *Report) {
	fn := p.Func("tree", "New")
	title := "a tree text with a brace left open is reported by " + shortFn(fn)
	r.count("guards", 1)
	decidePlain(p, r, title, func(a *attempt) {
		// blocks entered after a comparison with a brace
		brace := map[*ssa.BasicBlock]bool{}
		for _, b := range fn.Blocks {
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			if c, ok := iff.Cond.(*ssa.BinOp); ok && (isStrConst(c.X, "{") || isStrConst(c.Y, "{")) {
				for _, s := range b.Succs {
					brace[s] = true
				}
			}
		}
		if len(brace) == 0 {
			fail("the test for an opening brace is not in %s itself", shortFn(fn))
		}
		dep := map[ssa.Value]bool{}
		var mark func(v ssa.Value)
		mark = func(v ssa.Value) {
			if dep[v] {
				return
			}
			dep[v] = true
			for _, ref := range *v.Referrers() {
				if w, ok := ref.(ssa.Value); ok {
					mark(w)
				}
			}
		}
		for b := range brace {
			for _, ins := range b.Instrs {
				if ph, ok := ins.(*ssa.Phi); ok {
					mark(ph)
				} else if v, ok := ins.(ssa.Value); ok {
					if _, isInt := v.Type().Underlying().(*types.Basic); isInt {
						mark(v)
					}
				}
			}
		}
		if len(dep) == 0 {
			fail("what an opening brace changes is not recognised")
		}
		// the loop over the lines: blocks from which the brace test is reached again
		inLoop := func(b *ssa.BasicBlock) bool {
			seen := map[*ssa.BasicBlock]bool{}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[0]
				work = work[1:]
				if seen[x] {
					continue
				}
				seen[x] = true
				if brace[x] {
					return true
				}
				work = append(work, x.Succs...)
			}
			return false
		}
		n := 0
		for _, b := range fn.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			c, ok := ret.Results[len(ret.Results)-1].(*ssa.Const)
			if !ok || !c.IsNil() {
				continue
			}
			n++
			guarded := false
			for d := b; d != nil && !inLoop(d); d = d.Idom() {
				for _, pr := range d.Preds {
					if iff, ok := pr.Instrs[len(pr.Instrs)-1].(*ssa.If); ok && dep[iff.Cond] && !inLoop(pr) {
						guarded = true
					}
				}
			}
			if !guarded {
				a.violate(title, p.InstrPos(ret), "a nil error is returned without a look at whether the braces match")
			}
		}
		if n == 0 {
			fail("no return with a nil error is recognised")
		}
	})
}

func isStrConst(v ssa.Value, s string) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value != nil && c.Value.Kind() == constant.String && constant.StringVal(c.Value) == s
}
