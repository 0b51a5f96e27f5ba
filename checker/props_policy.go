package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C08"] = checkC08 }

// C08: how competing rules are resolved.  The policy is a function of two ends
// and two priorities, kept in a field of the lexer.
func checkC08(p *Prog, r *Report) {
	r.Rule = absRule + "each policy function is interpreted for every order of the two ends and the two priorities (and for 'nothing chosen yet') and must answer as " +
		"specified; ByLength and ByPriority are interpreted on an arbitrary lexer and may change only the policy; a rule put into a lexer is shown to have a later " +
		"priority than those before; in the SSA form of the loop over the matches the end and priority compared belong to the same rule and what wins the " +
		"comparison, and only that, is what the next one is compared with"
	r.Assumptions = append([]string{"a lexer's sub-lexers and heirs are distinct objects"}, absAssumptions...)
	for _, l := range lexers {
		t := p.Named(l[0], l[1])
		c := &policy{p: p, r: r, rel: l[0], t: t}
		c.fields = policyFields(t)
		if len(c.fields) != 1 {
			r.undecided("policies of "+l[0], "the policy is not a function in one field of the lexer")
			continue
		}
		c.field = c.fields[0]
		c.sites()
		c.perms()
		for _, sel := range []struct {
			name   string
			length bool
		}{{"ByLength", true}, {"ByPriority", false}} {
			c.selector(sel.name, sel.length)
		}
		c.defaults()
		c.order()
		c.fold()
		c.fresh()
	}
	r.Floors["policy cases"] = 40
}

type policy struct {
	p      *Prog
	r      *Report
	rel    string
	t      *types.Named
	fields []int
	field  int
	calls  []*ssa.Call // of the policy
	roles  [][4]int    // how the parameters may be read: positions of e1 p1 e2 p2
	rule   *types.Named
	prio   int
}

func policyFields(t *types.Named) []int {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var out []int
	for i := 0; i < s.NumFields(); i++ {
		if policySig(s.Field(i).Type()) {
			out = append(out, i)
		}
	}
	return out
}

func policySig(t types.Type) bool {
	g, ok := t.Underlying().(*types.Signature)
	if !ok || g.Params().Len() != 4 || g.Results().Len() != 1 {
		return false
	}
	for i := 0; i < 4; i++ {
		if b, ok := g.Params().At(i).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Int {
			return false
		}
	}
	b, ok := g.Results().At(0).Type().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool
}

func (c *policy) pkgFns() []*ssa.Function {
	pkg := c.p.pkg(c.rel)
	var out []*ssa.Function
	for _, fn := range c.p.Funcs {
		if fn.Pkg == pkg && fn.Blocks != nil {
			out = append(out, fn)
		}
	}
	return out
}

// sites finds the calls of the policy and, from their arguments, the field that
// holds a rule's priority.
func (c *policy) sites() {
	for _, fn := range c.pkgFns() {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				x, ok := ins.(*ssa.Call)
				if !ok || x.Call.IsInvoke() || x.Call.StaticCallee() != nil {
					continue
				}
				if policySig(x.Call.Value.Type()) {
					c.calls = append(c.calls, x)
				}
			}
		}
	}
	c.prio = -1
	for _, x := range c.calls {
		for _, a := range x.Call.Args {
			s := sliceOf(a)
			if s.ints {
				continue
			}
			for f := range s.fields {
				if c.rule != nil && (f.t != c.rule || f.f != c.prio) {
					c.rule = nil
					return
				}
				c.rule, c.prio = f.t, f.f
			}
		}
	}
}

type intFieldRef struct {
	t *types.Named
	f int
}

// argSlice is what an argument is computed from.
type argSlice struct {
	ints    bool // an element of a list of integers
	fields  map[intFieldRef]bool
	loops   []*ssa.Phi // values carried round the loop, other than counters
	indices []ssa.Value
	other   bool
}

func sliceOf(v ssa.Value) *argSlice {
	s := &argSlice{fields: map[intFieldRef]bool{}}
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value, top bool)
	walk = func(v ssa.Value, top bool) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			if stepping(x) {
				return
			}
			s.loops = append(s.loops, x)
			for _, e := range x.Edges {
				walk(e, false)
			}
		case *ssa.UnOp:
			walk(x.X, top)
		case *ssa.BinOp:
			walk(x.X, top)
			walk(x.Y, top)
		case *ssa.IndexAddr:
			if sl, ok := x.X.Type().Underlying().(*types.Slice); ok {
				if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Int {
					s.ints = true
				} else {
					s.indices = append(s.indices, x.Index)
				}
			}
			walk(x.X, false)
			walk(x.Index, false)
		case *ssa.FieldAddr:
			pt := x.X.Type().Underlying().(*types.Pointer).Elem()
			if n, ok := pt.(*types.Named); ok {
				f := n.Underlying().(*types.Struct).Field(x.Field)
				if b, ok := f.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Int && sliceElemRule(x.X) {
					s.fields[intFieldRef{n, x.Field}] = true
				}
			}
			walk(x.X, false)
		case *ssa.Const, *ssa.Parameter:
		default:
			s.other = true
		}
	}
	walk(v, true)
	return s
}

// sliceElemRule: the pointer was read from a list (perhaps round a loop).
func sliceElemRule(v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.UnOp:
			_, ok := x.X.(*ssa.IndexAddr)
			return ok
		case *ssa.Phi:
			for _, e := range x.Edges {
				if walk(e) {
					return true
				}
			}
		}
		return false
	}
	return walk(v)
}

// stepping: a counter.
func stepping(x *ssa.Phi) bool {
	ok := false
	for _, e := range x.Edges {
		if e == ssa.Value(x) {
			continue
		}
		if b, is := e.(*ssa.BinOp); is && b.Op == token.ADD && b.X == ssa.Value(x) {
			if _, k := b.Y.(*ssa.Const); k {
				ok = true
				continue
			}
		}
		if _, is := e.(*ssa.Const); is {
			continue
		}
		return false
	}
	return ok
}

// perms works out from the calls which parameter is what.  When that is not
// plain any consistent reading of the parameters will do.
func (c *policy) perms() {
	all := [][4]int{{0, 1, 2, 3}, {2, 3, 0, 1}, {1, 0, 3, 2}, {3, 2, 1, 0}, {0, 2, 1, 3}, {1, 3, 0, 2}, {2, 0, 3, 1}, {3, 1, 2, 0}}
	c.roles = all
	if len(c.calls) == 0 || c.rule == nil {
		return
	}
	var got *[4]int
	for _, x := range c.calls {
		perm := [4]int{-1, -1, -1, -1}
		for i, a := range x.Call.Args {
			s := sliceOf(a)
			if s.other {
				return
			}
			k := 0
			if len(s.loops) > 0 {
				k = 2
			}
			if !s.ints {
				if len(s.fields) == 0 && k == 0 {
					return
				}
				k++
			}
			perm[k] = i
		}
		for _, q := range perm {
			if q < 0 {
				return
			}
		}
		if got != nil && *got != perm {
			return
		}
		got = &perm
	}
	c.roles = [][4]int{*got}
}

// selector interprets ByLength or ByPriority on an arbitrary lexer.
func (c *policy) selector(name string, length bool) {
	title := fmt.Sprintf("%s of %s selects that policy and changes nothing else", name, c.rel)
	fn := c.p.methodOrNil(types.NewPointer(c.t), name)
	if fn == nil {
		c.r.undecided(title, "no such method")
		return
	}
	var pol *ssa.Function
	decide(c.p, c.r, title, 1, func(a *attempt, _ int) {
		in := a.interp()
		st := newState()
		args := in.unknownArgs(st, fn)
		in.nonNil(st, args[0])
		recv := in.force(st, args[0]).(PtrV)
		in.mon.onStore = func(it *item, pv PtrV, v Val, site ssa.Instruction) {
			o := it.st.heap[pv.obj]
			if pv.obj != recv.obj {
				if o != nil && o.lazy {
					a.violate(title, c.p.InstrPos(site), "%s changes something other than the policy", name)
				}
				return
			}
			if pv.path != string(rune(c.field)) {
				a.violate(title, c.p.InstrPos(site), "%s changes something other than the policy", name)
			}
		}
		outs := in.exec(fn, args, nil, st)
		if len(outs) == 0 {
			fail("%s does not return", name)
		}
		for _, o := range outs {
			if o.panicked {
				continue
			}
			it := &item{st: o.st, env: map[ssa.Value]Val{}}
			for _, x := range in.load(it, PtrV{obj: recv.obj, path: string(rune(c.field))}, nil) {
				f, ok := in.force(o.st, x.v).(FuncV)
				if !ok || f.fn == nil {
					if ok && !f2known(f) {
						a.violate(title, c.p.Pos(fn.Pos()), "%s does not set the policy", name)
						continue
					}
					fail("the policy set is not a known function")
				}
				if len(f.binds) > 0 || pol != nil && pol != f.fn {
					fail("the policy set is not one function")
				}
				pol = f.fn
			}
		}
	})
	if pol != nil {
		c.spec(pol, length, fmt.Sprintf("the policy %s of %s sets", name, c.rel))
	}
}

// f2known: the function value is something other than what the lexer held before.
func f2known(f FuncV) bool { return f.fn != nil }

// spec compares a policy function with what it stands for, in every order of
// the arguments.
func (c *policy) spec(fn *ssa.Function, length bool, title string) {
	type cse struct {
		e, p  int // e1-e2 and p1-p2: sign
		first bool
	}
	var cases []cse
	for e := -1; e <= 1; e++ {
		for p := -1; p <= 1; p++ {
			if e != 0 || p != 0 {
				cases = append(cases, cse{e, p, false})
			}
		}
	}
	cases = append(cases, cse{1, 1, true})
	want := func(k cse) bool {
		switch {
		case k.first:
			return true
		case length && k.e != 0:
			return k.e > 0
		case length:
			return k.p < 0
		case k.p != 0:
			return k.p < 0
		}
		return k.e > 0
	}
	decide(c.p, c.r, title+" answers as specified", 1, func(a *attempt, _ int) {
		var firstBad func()
		for _, role := range c.roles {
			var bad func()
			for _, k := range cases {
				in := a.interp()
				st := newState()
				args := in.unknownArgs(st, fn)
				at := func(i int) Lin { return in.force(st, args[role[i]]).(IntV).e }
				rel := func(x, y Lin, s int) {
					switch s {
					case 0:
						st.assume(Form{kind: fEQ, e: x.sub(y)})
					case 1:
						st.assume(Form{kind: fGE, e: x.sub(y).plus(-1)})
					default:
						st.assume(Form{kind: fGE, e: y.sub(x).plus(-1)})
					}
				}
				st.assume(Form{kind: fGE, e: at(0).plus(-1)})
				st.assume(Form{kind: fGE, e: at(1)})
				st.assume(Form{kind: fGE, e: at(2)})
				if k.first {
					st.assume(Form{kind: fEQ, e: at(3).plus(1)})
				} else {
					st.assume(Form{kind: fGE, e: at(3)})
				}
				rel(at(0), at(2), k.e)
				rel(at(1), at(3), k.p)
				for _, o := range in.exec(fn, args, nil, st) {
					if o.panicked {
						kk := k
						bad = func() { a.violate(title, c.p.Pos(fn.Pos()), "panics %s", descr(kk.e, kk.p, kk.first)) }
						continue
					}
					bv, ok := o.ret.(BoolV)
					if !ok {
						fail("the answer is not followed")
					}
					t := o.st.truth(bv.f)
					if t == 0 {
						fail("the answer is not followed")
					}
					if (t > 0) != want(k) && bad == nil {
						kk := k
						bad = func() {
							a.violate(title, c.p.Pos(fn.Pos()), "answers %v %s", !want(kk), descr(kk.e, kk.p, kk.first))
						}
					}
				}
				c.r.count("policy cases", 1)
				if bad != nil {
					break
				}
			}
			if bad == nil {
				return
			}
			if firstBad == nil {
				firstBad = bad
			}
		}
		firstBad()
	})
}

func descr(e, p int, first bool) string {
	if first {
		return "when nothing has been chosen yet"
	}
	s := map[int]string{-1: "shorter than", 0: "as long as", 1: "longer than"}[e]
	q := map[int]string{-1: "earlier", 0: "of equal priority", 1: "later"}[p]
	return "for a match that is " + s + " the chosen one and of a rule that is " + q
}

// defaults: what is put into the policy field elsewhere is the length policy.
func (c *policy) defaults() {
	title := "the default policy of " + c.rel
	sel := map[*ssa.Function]bool{}
	for _, n := range []string{"ByLength", "ByPriority"} {
		if fn := c.p.methodOrNil(types.NewPointer(c.t), n); fn != nil {
			sel[fn] = true
		}
	}
	n := 0
	for _, fn := range c.pkgFns() {
		if sel[fn] {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				s, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || fa.Field != c.field {
					continue
				}
				pt := fa.X.Type().Underlying().(*types.Pointer).Elem()
				if !types.Identical(pt, c.t) {
					continue
				}
				f, ok := s.Val.(*ssa.Function)
				if !ok {
					continue
				}
				n++
				c.spec(f, true, fmt.Sprintf("%s (set in %s)", title, shortFn(fn)))
			}
		}
	}
	c.r.count("default policies", n)
}

// order: a rule put into a lexer comes after those already there.
func (c *policy) order() {
	title := "rules of " + c.rel + " are ranked in the order of definition"
	if c.rule == nil { // by its name, then
		if m, ok := c.p.pkg(c.rel).Pkg.Scope().Lookup("rule").(*types.TypeName); ok {
			if n, ok := m.Type().(*types.Named); ok {
				if s, ok := n.Underlying().(*types.Struct); ok {
					for i := 0; i < s.NumFields(); i++ {
						if s.Field(i).Name() == "priority" {
							c.rule, c.prio = n, i
						}
					}
				}
			}
		}
	}
	if c.rule == nil {
		c.r.undecided(title, "the field that holds the priority is not known")
		return
	}
	isRule := func(t types.Type) bool {
		pt, ok := t.Underlying().(*types.Pointer)
		return ok && types.Identical(pt.Elem(), c.rule)
	}
	n := 0
	for _, fn := range c.pkgFns() {
		if fn.Signature.Recv() == nil {
			continue
		}
		puts := false
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if s, ok := ins.(*ssa.Store); ok && isRule(s.Val.Type()) {
					if ia, ok := s.Addr.(*ssa.IndexAddr); ok {
						if _, ok := ia.X.Type().Underlying().(*types.Slice); ok {
							puts = true
						}
						if _, ok := ia.X.(*ssa.Alloc); ok { // append(list, r)
							puts = true
						}
					}
				}
			}
		}
		if !puts {
			continue
		}
		n++
		fn := fn
		name := title + ": " + shortFn(fn)
		decide(c.p, c.r, name, 1, func(a *attempt, _ int) { c.adds(a, fn, name) })
	}
	c.r.count("functions that define rules", n)
	if n == 0 {
		c.r.undecided(title, "no function that defines rules was found")
	}
}

// numbers are the integers and lengths of an object.
func (c *policy) numbers(in *Interp, st *State, id int) map[string]Lin {
	m := map[string]Lin{}
	o := st.heap[id]
	sv, ok := in.force(st, o.val).(StructV)
	if !ok {
		return m
	}
	u := sv.typ.Underlying().(*types.Struct)
	for i := range sv.fields {
		f := u.Field(i)
		switch f.Type().Underlying().(type) {
		case *types.Basic:
			if x, ok := in.force(st, sv.fields[i]).(IntV); ok {
				m[f.Name()] = x.e
			}
		case *types.Slice:
			switch x := in.force(st, sv.fields[i]).(type) {
			case SliceV:
				m["len "+f.Name()] = x.ln
			case NilV:
				m["len "+f.Name()] = linC(0)
			}
		}
	}
	return m
}

func (c *policy) adds(a *attempt, fn *ssa.Function, title string) {
	in := a.interp()
	st := newState()
	args := in.unknownArgs(st, fn)
	for i, p := range fn.Params {
		switch p.Type().Underlying().(type) {
		case *types.Pointer:
			in.nonNil(st, args[i])
		}
	}
	recv, ok := in.force(st, args[0]).(PtrV)
	if !ok {
		fail("the receiver is not a pointer")
	}
	before := c.numbers(in, st, recv.obj)
	var came []Lin // the priorities of the rules handed in
	for i, p := range fn.Params {
		switch pt := p.Type().Underlying().(type) {
		case *types.Pointer:
			if types.Identical(pt.Elem(), c.rule) {
				it := &item{st: st, env: map[ssa.Value]Val{}}
				for _, x := range in.load(it, PtrV{obj: in.force(st, args[i]).(PtrV).obj, path: string(rune(c.prio))}, nil) {
					if v, ok := in.force(st, x.v).(IntV); ok {
						came = append(came, v.e)
					}
				}
			}
		case *types.Struct:
			if sv, ok := in.force(st, args[i]).(StructV); ok && types.Identical(p.Type(), c.rule) {
				if v, ok := in.force(st, sv.fields[c.prio]).(IntV); ok {
					came = append(came, v.e)
				}
			}
		}
	}
	in.mon.recur = func(it *item, f *ssa.Function, as []Val, site ssa.CallInstruction) ([]res, bool) {
		if f == fn && f.Signature.Results().Len() == 0 {
			return []res{{it, TupleV{}}}, true
		}
		return nil, false
	}
	puts := map[int]ssa.Instruction{}
	in.mon.onStore = func(it *item, pv PtrV, v Val, site ssa.Instruction) {
		x, ok := v.(PtrV)
		if !ok || x.path != "" || x.idx != nil || pv.idx == nil {
			return
		}
		o := it.st.heap[x.obj]
		if o != nil && o.kind == 'o' && types.Identical(o.typ, c.rule) {
			puts[x.obj] = site
		}
	}
	outs := in.exec(fn, args, nil, st)
	if len(puts) == 0 {
		fail("no rule is put into the list")
	}
	for _, o := range outs {
		if o.panicked {
			continue
		}
		after := c.numbers(in, o.st, recv.obj)
		for id, site := range puts {
			ob := o.st.heap[id]
			if ob == nil || ob.kind != 'o' {
				continue
			}
			// was it put into the list on this path?
			if !c.listed(in, o.st, recv.obj, id) {
				continue
			}
			it := &item{st: o.st, env: map[ssa.Value]Val{}}
			rs := in.load(it, PtrV{obj: id, path: string(rune(c.prio))}, nil)
			if len(rs) != 1 {
				fail("the priority is not plain")
			}
			v, ok := in.force(rs[0].it.st, rs[0].v).(IntV)
			if !ok {
				fail("the priority is not a number")
			}
			good, known := false, false
			for n, b := range before {
				x, ok := after[n]
				if !ok {
					continue
				}
				if in.vague(o.st, v.e) || in.vague(o.st, x) {
					continue
				}
				if o.st.le(b, v.e) && o.st.lt(v.e, x) {
					good = true
				}
				if o.st.eq(b, v.e) {
					known = true
				}
			}
			if good {
				continue
			}
			if known {
				a.violate(title, c.p.InstrPos(site), "the rule's priority is that of the next rule to be defined, too")
				continue
			}
			// what the rule came with; another path, or a function called, sets it
			old := false
			for _, b := range came {
				if o.st.eq(b, v.e) {
					old = true
				}
			}
			if old && c.sets(fn) {
				a.violate(title, c.p.InstrPos(site), "the rule is put into the lexer without a priority of its own")
				continue
			}
			if in.vague(o.st, v.e) {
				fail("the priority is not followed")
			}
			decr := false
			for n, b := range before {
				if x, ok := after[n]; ok && o.st.lt(x, b) && (o.st.eq(v.e, b) || o.st.eq(v.e, x)) {
					decr = true
				}
			}
			neg := false
			for n, b := range before {
				if _, ok := after[n]; ok && o.st.eq(v.e, b.neg()) {
					neg = true
				}
			}
			k := o.st.cons.norm(v.e).isConst()
			if k || decr || neg {
				a.violate(title, c.p.InstrPos(site), "the rule's priority does not follow the order of definition")
				continue
			}
			fail("the priority is not followed")
		}
	}
}

// sets: the function itself sets the priority of a rule.
func (c *policy) sets(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if s, ok := ins.(*ssa.Store); ok {
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fa.Field == c.prio {
					if types.Identical(fa.X.Type().Underlying().(*types.Pointer).Elem(), c.rule) {
						return true
					}
				}
			}
		}
	}
	return false
}

// listed: the object is an element of one of the lists of the receiver.
func (c *policy) listed(in *Interp, st *State, recv, id int) bool {
	sv, ok := in.force(st, st.heap[recv].val).(StructV)
	if !ok {
		return true
	}
	for _, f := range sv.fields {
		sl, ok := f.(SliceV)
		if !ok {
			continue
		}
		o := st.heap[sl.arr]
		if o == nil {
			continue
		}
		for _, s := range o.segs {
			if x, ok := s.v.(PtrV); ok && x.obj == id {
				return true
			}
			for _, v := range s.alts {
				if x, ok := v.(PtrV); ok && x.obj == id {
					return true
				}
			}
		}
	}
	return false
}

// fold looks at the loop the policy is called in.
func (c *policy) fold() {
	title := "the best match so far of " + c.rel
	if len(c.roles) != 1 {
		c.r.undecided(title, "the arguments of the policy are not plain")
		return
	}
	role := c.roles[0]
	for _, x := range c.calls {
		fn := x.Parent()
		var iff *ssa.If
		for _, ref := range *x.Referrers() {
			if i, ok := ref.(*ssa.If); ok && iff == nil {
				iff = i
				continue
			}
			iff = nil
			break
		}
		var lp *loop
		for _, l := range newInterp(c.p).frameOf(fn).loops {
			if l.blocks[x.Block()] && (lp == nil || len(l.blocks) < len(lp.blocks)) {
				lp = l
			}
		}
		if iff == nil || lp == nil {
			c.r.undecided(title, "the answer of the policy is not tested in a loop")
			continue
		}
		e1, p1 := sliceOf(x.Call.Args[role[0]]), sliceOf(x.Call.Args[role[1]])
		bad := false
		if len(e1.indices) == 1 && len(p1.indices) == 1 && !sameExpr(e1.indices[0], p1.indices[0], 0) {
			c.r.violate(title, c.p.InstrPos(x), "the end and the priority compared belong to different rules")
			bad = true
		}
		if where := c.early(lp, x.Block()); where != "" {
			c.r.violate(title, where, "the loop over the matches may end before all have been compared")
			bad = true
		}
		if where := c.unseen(lp, x.Block()); where != "" {
			c.r.violate(title, where, "whether a match is compared depends on something other than the match and the position")
			bad = true
		}
		taken := reachIn(lp, iff.Block().Succs[0])
		other := reachIn(lp, iff.Block().Succs[1])
		for _, k := range []int{2, 3} {
			arg := x.Call.Args[role[k]]
			cand := x.Call.Args[role[k-2]]
			what := map[int]string{2: "length", 3: "priority"}[k]
			for _, ph := range sliceOf(arg).loops {
				if ph.Block() != lp.head {
					continue
				}
				for i, pred := range lp.head.Preds {
					if !lp.blocks[pred] {
						continue
					}
					if taken[pred] || pred == iff.Block() && iff.Block().Succs[0] == lp.head {
						for _, v := range phiLeaves(ph.Edges[i], lp, taken, iff, 0) {
							c.r.count("updates of the choice", 1)
							if v == ssa.Value(ph) && !other[pred] {
								c.r.violate(title, c.p.InstrPos(x), "a match that wins is not what the next one's "+what+" is compared with")
								bad = true
							}
							if arg == ssa.Value(ph) && v != ssa.Value(ph) && plainDiff(v, cand) {
								c.r.violate(title, c.p.InstrPos(x), "the "+what+" kept of a match that wins is not the one compared")
								bad = true
							}
						}
					}
				}
			}
		}
		if !bad {
			c.r.ok("%s", title+" ("+shortFn(fn)+")")
		}
	}
}

// reachIn are the blocks of the loop reached without going round.
func reachIn(lp *loop, from *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	m := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if b == lp.head || !lp.blocks[b] || m[b] {
			return
		}
		m[b] = true
		for _, s := range b.Succs {
			walk(s)
		}
	}
	walk(from)
	return m
}

// phiLeaves resolves a value through the choices made inside the loop on the paths
// where the policy said yes.
func phiLeaves(v ssa.Value, lp *loop, taken map[*ssa.BasicBlock]bool, iff *ssa.If, depth int) []ssa.Value {
	ph, ok := v.(*ssa.Phi)
	if !ok || ph.Block() == lp.head || !lp.blocks[ph.Block()] || depth > 6 {
		return []ssa.Value{v}
	}
	var out []ssa.Value
	for i, pred := range ph.Block().Preds {
		if taken[pred] || pred == iff.Block() && iff.Block().Succs[0] == ph.Block() {
			out = append(out, phiLeaves(ph.Edges[i], lp, taken, iff, depth+1)...)
		}
	}
	return out
}

// sameExpr: the values are computed the same way from the same things.
func sameExpr(a, b ssa.Value, depth int) bool {
	if a == b {
		return true
	}
	if depth > 8 {
		return false
	}
	switch x := a.(type) {
	case *ssa.Const:
		y, ok := b.(*ssa.Const)
		return ok && x.Value != nil && y.Value != nil && x.Value.ExactString() == y.Value.ExactString()
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		return ok && x.Op == y.Op && sameExpr(x.X, y.X, depth+1)
	case *ssa.BinOp:
		y, ok := b.(*ssa.BinOp)
		return ok && x.Op == y.Op && sameExpr(x.X, y.X, depth+1) && sameExpr(x.Y, y.Y, depth+1)
	case *ssa.IndexAddr:
		y, ok := b.(*ssa.IndexAddr)
		return ok && sameExpr(x.X, y.X, depth+1) && sameExpr(x.Index, y.Index, depth+1)
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && sameExpr(x.X, y.X, depth+1)
	}
	return false
}

// plainDiff: both are plain reads and of different places.
func plainDiff(a, b ssa.Value) bool {
	plain := func(v ssa.Value) bool {
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return false
		}
		switch u.X.(type) {
		case *ssa.IndexAddr, *ssa.FieldAddr:
			return true
		}
		return false
	}
	_, ka := a.(*ssa.Const)
	if y, ok := a.(*ssa.BinOp); ok { // the counter itself
		if p, ok := y.X.(*ssa.Phi); ok && stepping(p) {
			ka = true
		}
	}
	if p, ok := a.(*ssa.Phi); ok && stepping(p) {
		ka = true
	}
	return (plain(a) || ka) && plain(b) && !sameExpr(a, b, 0)
}

// early: an exit of the loop that does not test the counter.
func (c *policy) early(lp *loop, call *ssa.BasicBlock) string {
	for b := range lp.blocks {
		i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || lp.blocks[b.Succs[0]] && lp.blocks[b.Succs[1]] {
			continue
		}
		if counts(i.Cond) {
			continue
		}
		return c.p.InstrPos(i)
	}
	return ""
}

// counts: a test of a counter, or of whether an iteration has come to its end.
func counts(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.BinOp:
		for _, o := range []ssa.Value{x.X, x.Y} {
			if y, ok := o.(*ssa.BinOp); ok && y.Op == token.ADD {
				o = y.X
			}
			if p, ok := o.(*ssa.Phi); ok && stepping(p) {
				return true
			}
		}
		return false
	case *ssa.Extract:
		_, ok := x.Tuple.(*ssa.Next)
		return ok
	}
	return true // not followed
}

// unseen: a test, before the comparison, of what a rule says besides its priority.
func (c *policy) unseen(lp *loop, call *ssa.BasicBlock) string {
	if c.rule == nil {
		return ""
	}
	for b := range lp.blocks {
		i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || b == call || reachIn(lp, b.Succs[0])[call] == reachIn(lp, b.Succs[1])[call] {
			continue
		}
		seen := map[ssa.Value]bool{}
		var reads func(v ssa.Value) bool
		reads = func(v ssa.Value) bool {
			if seen[v] {
				return false
			}
			seen[v] = true
			switch x := v.(type) {
			case *ssa.UnOp:
				if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
					return types.Identical(fa.X.Type().Underlying().(*types.Pointer).Elem(), c.rule)
				}
				return x.Op != token.MUL && reads(x.X)
			case *ssa.BinOp:
				if k, ok := x.Y.(*ssa.Const); ok && k.IsNil() {
					return false
				}
				return reads(x.X) || reads(x.Y)
			}
			return false
		}
		if reads(i.Cond) {
			return c.p.InstrPos(i)
		}
	}
	return ""
}
