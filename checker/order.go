package main

// Order analysis for C05: every iteration over a map must be insensitive to
// the order in which the entries come, and nothing may read ambient state.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C05"] = checkC05 }

type class byte

const (
	cOuter   class = iota // memory that outlives the iteration, or a value that leads to it
	cInv                  // the same in every iteration
	cKey                  // the range key, distinct in every iteration
	cIter                 // depends on the entry
	cLocal                // memory allocated in this iteration
	cElement              // reached through the map entry's value
)

type orderCheck struct {
	p       *Prog
	r       *Report
	fn      *ssa.Function
	rng     *ssa.Range
	next    *ssa.Next
	key     ssa.Value
	val     ssa.Value
	loop    map[*ssa.BasicBlock]bool
	memo    map[string]bool
	bad     []Finding
	where   string
	fnMaps  []ssa.Value // maps updated in the loop body
	taken   map[string][]*ssa.Function
	nstores int
}

func (c *orderCheck) report(i ssa.Instruction, format string, args ...interface{}) {
	c.bad = append(c.bad, Finding{
		Key:    fmt.Sprintf("map order: range over a map in %s", shortFn(c.fn)),
		Where:  c.p.InstrPos(i),
		Detail: fmt.Sprintf("loop at %s: ", c.where) + fmt.Sprintf(format, args...),
	})
}

// frame is one function body looked at on behalf of one loop iteration.
type frame struct {
	c      *orderCheck
	fn     *ssa.Function
	bind   map[ssa.Value]class
	inLoop func(b *ssa.BasicBlock) bool
	top    bool
	depth  int
	memo   map[ssa.Value]class
}

func (f *frame) class(v ssa.Value) class {
	if k, ok := f.bind[v]; ok {
		return k
	}
	if k, ok := f.memo[v]; ok {
		return k
	}
	f.memo[v] = cInv
	k := f.class1(v)
	f.memo[v] = k
	return k
}

func (f *frame) class1(v ssa.Value) class {
	switch v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
		return cInv
	case *ssa.Global:
		return cOuter
	}
	if i, ok := v.(ssa.Instruction); ok && !f.inLoop(i.Block()) {
		return cOuter
	}
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
		return cLocal
	case *ssa.MakeClosure:
		return cIter
	case *ssa.ChangeType:
		return f.class(x.X)
	case *ssa.Convert:
		k := f.class(x.X)
		if k == cKey {
			if isString(x.X.Type()) && isString(x.Type()) {
				return cKey
			}
			return cIter
		}
		return k
	case *ssa.MakeInterface:
		return f.class(x.X)
	case *ssa.ChangeInterface:
		return f.class(x.X)
	case *ssa.TypeAssert:
		return f.class(x.X)
	case *ssa.FieldAddr:
		return f.class(x.X)
	case *ssa.IndexAddr:
		return f.class(x.X)
	case *ssa.Field:
		return f.class(x.X)
	case *ssa.Index:
		return f.class(x.X)
	case *ssa.Slice:
		return f.class(x.X)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			k := f.class(x.X)
			if k == cElement && len(leaves(x.Type())) > 0 {
				return cOuter // what the entry points to may be shared between entries
			}
			return k
		}
		return f.class(x.X)
	case *ssa.Extract:
		if x.Tuple == ssa.Value(f.c.next) {
			return cIter
		}
		return f.class(x.Tuple)
	case *ssa.Lookup:
		k := f.class(x.X)
		if k == cOuter {
			// an entry of an outer map: distinct per key when looked up by the range key
			if f.class(x.Index) == cKey {
				return cElement
			}
			return cOuter
		}
		return k
	case *ssa.Phi:
		out := cInv
		for _, e := range x.Edges {
			out = joinClass(out, f.class(e))
		}
		return out
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return f.class(x.Call.Args[0])
		}
		// a result may be anything the arguments lead to
		out := cLocal
		if x.Call.IsInvoke() {
			out = joinClass(out, f.class(x.Call.Value))
		}
		for _, a := range x.Call.Args {
			if len(leaves(a.Type())) > 0 {
				out = joinClass(out, f.class(a))
			}
		}
		return out
	case *ssa.BinOp:
		return cIter
	}
	return cOuter
}

func joinClass(a, b class) class {
	if a == b {
		return a
	}
	if a == cInv {
		return b
	}
	if b == cInv {
		return a
	}
	if a == cOuter || b == cOuter {
		return cOuter
	}
	return cElement
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// invariantValue: the value is the same in every iteration.
func (f *frame) invariantValue(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Global:
		return true
	case *ssa.Parameter, *ssa.FreeVar:
		if f.top {
			return true
		}
		k := f.bind[v]
		return k == cInv || k == cOuter
	case *ssa.MakeInterface:
		return f.invariantValue(x.X)
	case *ssa.ChangeType:
		return f.invariantValue(x.X)
	case ssa.Instruction:
		return f.top && !f.inLoop(x.Block())
	}
	return false
}

func commutative(op token.Token, t types.Type) bool {
	if isString(t) {
		return false
	}
	if b, ok := t.Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 && b.Info()&types.IsBoolean == 0 {
		return false
	}
	switch op {
	case token.ADD, token.MUL, token.AND, token.OR, token.XOR, token.SUB:
		return true
	}
	return false
}

// sameAddr: syntactically the same location.
func sameAddr(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && sameAddr(x.X, y.X)
	case *ssa.IndexAddr:
		y, ok := b.(*ssa.IndexAddr)
		return ok && sameAddr(x.X, y.X) && sameAddr(x.Index, y.Index)
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		return ok && x.Op == y.Op && sameAddr(x.X, y.X)
	case *ssa.Const:
		y, ok := b.(*ssa.Const)
		return ok && x.Value != nil && y.Value != nil && constant.Compare(x.Value, token.EQL, y.Value)
	}
	return false
}

func (f *frame) body() {
	for _, b := range f.fn.Blocks {
		if !f.inLoop(b) {
			continue
		}
		for _, i := range b.Instrs {
			f.instr(i)
		}
	}
}

func (f *frame) instr(i ssa.Instruction) {
	c := f.c
	switch x := i.(type) {
	case *ssa.Store:
		c.nstores++
		k := f.class(x.Addr)
		if k == cLocal || k == cElement || k == cIter {
			return
		}
		if ia, ok := x.Addr.(*ssa.IndexAddr); ok && f.class(ia.Index) == cKey {
			return
		}
		if f.invariantValue(x.Val) {
			return
		}
		if b, ok := x.Val.(*ssa.BinOp); ok && commutative(b.Op, b.Type()) {
			if u, ok := b.X.(*ssa.UnOp); ok && u.Op == token.MUL && sameAddr(u.X, x.Addr) {
				return
			}
			if u, ok := b.Y.(*ssa.UnOp); ok && b.Op != token.SUB && u.Op == token.MUL && sameAddr(u.X, x.Addr) {
				return
			}
		}
		c.report(i, "the iteration stores a value of its own in memory shared by all iterations, so the last (or the order of) entries decides the result")
	case *ssa.MapUpdate:
		c.nstores++
		k := f.class(x.Map)
		if k == cLocal || k == cElement || k == cIter {
			return
		}
		if f.class(x.Key) == cKey || f.invariantValue(x.Value) {
			return
		}
		if b, ok := x.Value.(*ssa.BinOp); ok && commutative(b.Op, b.Type()) {
			if l, ok := b.X.(*ssa.Lookup); ok && sameAddr(l.X, x.Map) && sameAddr(l.Index, x.Key) {
				return
			}
		}
		c.report(i, "the iteration writes a map entry that another iteration may also write, with a value of its own")
	case *ssa.Send:
		c.report(i, "the iteration sends on a channel, so the order of entries is observable")
	case *ssa.Go:
		c.report(i, "the iteration starts a goroutine")
	case *ssa.Defer:
		c.report(i, "the iteration defers a call")
	case *ssa.Call:
		f.call(x)
	case *ssa.Return:
		if f.top {
			f.exit(i, x.Results)
		}
	case *ssa.Panic:
		if f.top {
			f.exit(i, []ssa.Value{x.X})
		}
	}
}

// exit: leaving the loop early with these values.
func (f *frame) exit(i ssa.Instruction, vs []ssa.Value) {
	for _, v := range vs {
		if !f.invariantValue(v) && !f.keyed(i.Block()) {
			f.c.report(i, "the loop is left early with a value that depends on the entry reached first")
			return
		}
	}
}

// keyed: the block runs only for one particular key.
func (f *frame) keyed(b *ssa.BasicBlock) bool {
	for d := b; d != nil && f.inLoop(d); d = d.Idom() {
		p := d.Idom()
		if p == nil || len(p.Instrs) == 0 {
			continue
		}
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok || bo.Op != token.EQL || p.Succs[0] != d {
			continue
		}
		if f.class(bo.X) == cKey && f.invariantValue(bo.Y) || f.class(bo.Y) == cKey && f.invariantValue(bo.X) {
			return true
		}
	}
	return false
}

var pureExternal = []string{"strings.", "strconv.", "errors.", "unicode", "fmt.Sprint", "fmt.Errorf", "regexp.", "math.", "slices.Contains", "slices.Index",
	"(*regexp.Regexp).", "(*strings.Replacer).Replace", "bytes.", "slices.Sort", "sort.Strings", "sort.Ints", "sort.Slice", "len", "path", "utf8", "slices.Clone", "slices.Equal", "maps.Clone"}

func (f *frame) call(x *ssa.Call) {
	c := f.c
	cc := &x.Call
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			// in place growth of an outer slice matters only through where it is stored
		case "copy":
			if k := f.class(cc.Args[0]); k == cOuter {
				c.report(x, "the iteration copies into memory shared by all iterations")
			}
		case "delete":
			if f.class(cc.Args[1]) != cKey && f.top && sameAddr(cc.Args[0], c.rng.X) {
				c.report(x, "the iteration deletes other entries of the map it ranges over")
			}
		case "print", "println":
			c.report(x, "the iteration prints")
		}
		return
	}
	var callees []*ssa.Function
	args := cc.Args
	switch {
	case cc.IsInvoke():
		args = append([]ssa.Value{cc.Value}, cc.Args...)
		it := cc.Value.Type().Underlying().(*types.Interface)
		for _, t := range c.p.Implementers(it) {
			if m := c.p.methodOrNil(t, cc.Method.Name()); m != nil {
				callees = append(callees, m)
			}
		}
	case cc.StaticCallee() != nil:
		callees = []*ssa.Function{cc.StaticCallee()}
	default:
		callees = c.taken[sigKey(cc.Value.Type().Underlying().(*types.Signature))]
	}
	for _, fn := range callees {
		if !c.p.InModule(fn) || fn.Blocks == nil {
			name := fn.String()
			pure := false
			for _, p := range pureExternal {
				if strings.HasPrefix(name, p) {
					pure = true
				}
			}
			if pure {
				continue
			}
			for _, a := range args {
				if len(leaves(a.Type())) > 0 && f.class(a) == cOuter {
					c.report(x, "the iteration calls %s on a value shared by all iterations", name)
					break
				}
			}
			if strings.HasPrefix(name, "fmt.Print") || strings.HasPrefix(name, "fmt.Fprint") || strings.HasPrefix(name, "os.") || strings.HasPrefix(name, "log.") {
				c.report(x, "the iteration calls %s", name)
			}
			continue
		}
		f.enter(x, fn, args)
	}
}

func (f *frame) enter(x *ssa.Call, fn *ssa.Function, args []ssa.Value) {
	c := f.c
	if f.depth > 12 {
		c.report(x, "undecided: calls nested too deeply")
		return
	}
	bind := map[ssa.Value]class{}
	key := fmt.Sprintf("%p", fn)
	// receiver of wrappers and thunks: parameters line up with args
	for i, p := range fn.Params {
		k := cOuter
		if i < len(args) {
			k = f.class(args[i])
			if k == cOuter && f.scalar(args[i]) && !f.invariantValue(args[i]) {
				k = cIter
			}
			if k == cOuter && f.scalar(args[i]) {
				k = cInv
			}
		}
		bind[p] = k
		key += fmt.Sprintf(",%d", k)
	}
	for _, fv := range fn.FreeVars {
		k := cOuter
		if mc, ok := x.Call.Value.(*ssa.MakeClosure); ok {
			for i, b := range mc.Bindings {
				if fn.FreeVars[i] == fv {
					k = f.class(b)
				}
			}
		}
		bind[fv] = k
		key += fmt.Sprintf(";%d", k)
	}
	if c.memo[key] {
		return
	}
	c.memo[key] = true
	n := &frame{c: c, fn: fn, bind: bind, inLoop: func(*ssa.BasicBlock) bool { return true }, depth: f.depth + 1, memo: map[ssa.Value]class{}}
	n.body()
}

func (f *frame) scalar(v ssa.Value) bool { return len(leaves(v.Type())) == 0 }

// natural loop of the block that holds the Next instruction
func loopOf(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	loop := map[*ssa.BasicBlock]bool{h: true}
	var work []*ssa.BasicBlock
	for _, p := range h.Preds {
		if h.Dominates(p) {
			work = append(work, p)
		}
	}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if loop[b] {
			continue
		}
		loop[b] = true
		work = append(work, b.Preds...)
	}
	return loop
}

func (c *orderCheck) run() {
	h := c.next.Block()
	c.loop = loopOf(h)
	// blocks that leave the function from inside the loop body
	region := map[*ssa.BasicBlock]bool{}
	for _, b := range c.fn.Blocks {
		if c.loop[b] {
			region[b] = true
			continue
		}
		// dominated by a body block (not merely by the header's exit)
		for d := b; d != nil; d = d.Idom() {
			if c.loop[d] && d != h {
				region[b] = true
			}
			if d == h && b != h {
				break
			}
		}
	}
	bind := map[ssa.Value]class{}
	for _, ref := range *c.next.Referrers() {
		if e, ok := ref.(*ssa.Extract); ok {
			switch e.Index {
			case 1:
				bind[e] = cKey
				c.key = e
			case 2:
				bind[e] = cElement
				c.val = e
			}
		}
	}
	f := &frame{c: c, fn: c.fn, bind: bind, inLoop: func(b *ssa.BasicBlock) bool { return region[b] }, top: true, memo: map[ssa.Value]class{}}
	// loop-carried values
	for _, i := range h.Instrs {
		phi, ok := i.(*ssa.Phi)
		if !ok {
			continue
		}
		bind[phi] = cOuter
	}
	for _, i := range h.Instrs {
		if phi, ok := i.(*ssa.Phi); ok {
			c.carried(f, phi, h)
		}
	}
	// values carried out by a break
	for b := range c.loop {
		for _, s := range b.Succs {
			if region[s] || b == h {
				continue
			}
			for _, i := range s.Instrs {
				phi, ok := i.(*ssa.Phi)
				if !ok {
					break
				}
				for k, p := range s.Preds {
					if p == b && !f.invariantValue(phi.Edges[k]) && !f.keyed(b) && !onlyCarried(phi.Edges[k], h) {
						c.report(phi, "the loop is left early with a value that depends on the entry reached first")
					}
				}
			}
		}
	}
	f.body()
}

func onlyCarried(v ssa.Value, h *ssa.BasicBlock) bool {
	phi, ok := v.(*ssa.Phi)
	return ok && phi.Block() == h
}

// carried judges a value carried from one iteration to the next.
func (c *orderCheck) carried(f *frame, phi *ssa.Phi, h *ssa.BasicBlock) {
	web := map[ssa.Value]bool{phi: true}
	var leafs []ssa.Value
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		if web[v] {
			return
		}
		if p, ok := v.(*ssa.Phi); ok && c.loop[p.Block()] {
			web[v] = true
			for _, e := range p.Edges {
				visit(e)
			}
			return
		}
		leafs = append(leafs, v)
	}
	for k, p := range h.Preds {
		if c.loop[p] {
			visit(phi.Edges[k])
		}
	}
	inWeb := func(v ssa.Value) bool { return web[v] }
	usedElsewhere := func(allowed map[ssa.Instruction]bool) ssa.Instruction {
		for w := range web {
			for _, r := range *w.Referrers() {
				if _, ok := r.(*ssa.DebugRef); ok {
					continue
				}
				if !c.loop[r.Block()] || allowed[r] {
					continue
				}
				if rp, ok := r.(*ssa.Phi); ok && web[rp] {
					continue
				}
				return r
			}
		}
		return nil
	}
	if len(leafs) == 0 {
		return
	}
	allowed := map[ssa.Instruction]bool{}
	ok := true
	appended := false
	var consts []ssa.Value
	for _, l := range leafs {
		switch x := l.(type) {
		case *ssa.BinOp:
			switch {
			case commutative(x.Op, x.Type()) && (inWeb(x.X) != inWeb(x.Y)) && (x.Op != token.SUB || inWeb(x.X)):
				allowed[x] = true
				// a chain of accumulations inside one iteration
			default:
				ok = false
			}
		case *ssa.Call:
			if b, isB := x.Call.Value.(*ssa.Builtin); isB && b.Name() == "append" && inWeb(x.Call.Args[0]) {
				allowed[x] = true
				appended = true
			} else if isB && (b.Name() == "min" || b.Name() == "max") {
				allowed[x] = true
			} else {
				ok = false
			}
		default:
			if f.invariantValue(l) {
				consts = append(consts, l)
			} else {
				// minimum or maximum: if x < phi { phi = x }
				found := false
				for w := range web {
					for _, r := range *w.Referrers() {
						if b, isB := r.(*ssa.BinOp); isB && (b.X == l && web[b.Y] || b.Y == l && web[b.X]) {
							switch b.Op {
							case token.LSS, token.GTR, token.LEQ, token.GEQ:
								if intType(l.Type()) || isString(l.Type()) {
									allowed[b] = true
									found = true
								}
							}
						}
					}
				}
				if !found {
					ok = false
				}
			}
		}
	}
	for i := 1; i < len(consts); i++ {
		if !sameAddr(consts[0], consts[i]) {
			ok = false
		}
	}
	if len(consts) > 0 && len(consts) < len(leafs) {
		ok = false
	}
	if ok {
		if u := usedElsewhere(allowed); u != nil {
			// a flag that only says whether to go on is a use
			c.report(u, "the iteration reads a value left by an earlier iteration (%s)", phi.Comment)
			return
		}
		if appended {
			if at := c.notSorted(phi); at != nil {
				c.report(at, "a slice is filled in map order (%s) and used before it is sorted", phi.Comment)
			}
		}
		return
	}
	c.report(phi, "a value carried from one iteration to the next (%s) depends on the order of the entries", phi.Comment)
}

func intType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// notSorted looks for a use of the collected slice that no sort precedes.
func (c *orderCheck) notSorted(phi *ssa.Phi) ssa.Instruction {
	var uses []ssa.Instruction
	var visit func(v ssa.Value)
	seen := map[ssa.Value]bool{}
	var sorts []ssa.Instruction
	visit = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			if _, ok := r.(*ssa.DebugRef); ok {
				continue
			}
			if c.loop[r.Block()] {
				continue
			}
			switch x := r.(type) {
			case *ssa.MakeInterface:
				visit(x)
				continue
			case *ssa.ChangeType:
				visit(x)
				continue
			case *ssa.Phi:
				visit(x)
				continue
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
					continue
				}
				if fn := x.Call.StaticCallee(); fn != nil {
					n := fn.String()
					if o := fn.Origin(); o != nil {
						n = o.String()
					}
					if strings.HasPrefix(n, "sort.") || strings.HasPrefix(n, "slices.Sort") {
						sorts = append(sorts, x)
						continue
					}
				}
			}
			uses = append(uses, r)
		}
	}
	visit(phi)
	for _, u := range uses {
		okU := false
		for _, s := range sorts {
			if s.Block() == u.Block() && before(s, u) || s.Block() != u.Block() && s.Block().Dominates(u.Block()) {
				okU = true
			}
		}
		if !okU {
			return u
		}
	}
	return nil
}

func before(a, b ssa.Instruction) bool {
	for _, i := range a.Block().Instrs {
		if i == a {
			return true
		}
		if i == b {
			return false
		}
	}
	return false
}

// ambient sources, by prefix of the callee's name
var ambient = []string{"time.Now", "time.Since", "time.Until", "time.After", "time.Tick", "math/rand", "(*math/rand", "crypto/rand", "os.Getenv", "os.LookupEnv", "os.Environ",
	"os.Args", "os.Getpid", "os.Hostname", "os.Getwd", "os.Open", "os.ReadFile", "os.Stat", "io/ioutil", "net", "syscall", "runtime.", "(*sync.Pool)", "(*sync.Map).Range", "hash/maphash",
	"(reflect.Value).MapKeys", "(reflect.Value).MapRange", "(reflect.Value).Pointer", "(reflect.Value).UnsafePointer", "(reflect.Value).UnsafeAddr", "maps.Keys", "maps.Values", "maps.All"}

func checkC05(p *Prog, r *Report) {
	r.Rule = "order lint over SSA: the body of every iteration over a map, callees included, only writes memory of its own iteration, map entries or elements under the range key, " +
		"constants, or commutative integer accumulations, leaves early only with loop-invariant values, and what it collects in a slice is sorted before use; no function of the library " +
		"reads the clock, randomness, the environment, addresses or the scheduler; and no exported function writes memory reachable from a package variable (points-to and effect analysis)"
	r.Assumptions = append([]string{"distinct map entries hold distinct objects"}, heapAssumptions...)
	r.Floors["functions"] = 150
	r.Floors["entry points"] = 80
	taken := p.addressTaken()
	for _, fn := range p.Funcs {
		if fn.Pkg == nil && fn.Synthetic != "" {
			continue
		}
		pk := fn.Pkg
		if pk == nil && fn.Parent() != nil {
			pk = fn.Parent().Pkg
		}
		if !p.isLib(pk) || isExample(pk) {
			continue
		}
		r.count("functions", 1)
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.Go:
					r.violate("scheduling: go statement in "+shortFn(fn), p.InstrPos(i), "results may depend on goroutine scheduling")
				case *ssa.Select:
					r.violate("scheduling: select in "+shortFn(fn), p.InstrPos(i), "the choice between ready cases is random")
				case *ssa.Convert:
					if bt, ok := x.X.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.UnsafePointer && intType(x.Type()) {
						r.violate("ambient: address used as a number in "+shortFn(fn), p.InstrPos(i), "addresses differ from run to run")
					}
				case *ssa.Range:
					if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
						continue
					}
					r.count("map iterations", 1)
					var next *ssa.Next
					for _, ref := range *x.Referrers() {
						if n, ok := ref.(*ssa.Next); ok {
							next = n
						}
					}
					if next == nil {
						continue
					}
					c := &orderCheck{p: p, r: r, fn: fn, rng: x, next: next, memo: map[string]bool{}, where: p.InstrPos(x), taken: taken}
					c.run()
					for _, f := range c.bad {
						r.violate(f.Key, f.Where, f.Detail)
					}
					if len(c.bad) == 0 {
						r.ok("range over a map in %s at %s is insensitive to order", shortFn(fn), p.InstrPos(x))
					}
					r.count("writes examined in map iterations", c.nstores)
				case ssa.CallInstruction:
					p.ambientCall(r, fn, x)
				}
			}
		}
	}
	// package-level state
	for _, fn := range p.Funcs {
		if fn.Object() == nil || !fn.Object().Exported() || fn.Synthetic != "" || fn.Pkg == nil || !p.isLib(fn.Pkg) || isExample(fn.Pkg) {
			continue
		}
		h := newHeap(p)
		h.globalsOnly = true
		h.analyseWith(fn, nil)
		r.count("entry points", 1)
		effs := h.sortedEffects()
		for _, ef := range effs {
			r.violate(fmt.Sprintf("package state: %s: %s to %s in %s", shortFn(fn), ef.what, ef.obj.String()+pathName(ef.obj.typ, ef.path), shortFn(ef.instr.Parent())),
				p.InstrPos(ef.instr), "the write is reached by: "+h.chain(ef.inst))
		}
		if len(effs) == 0 {
			r.ok("%s leaves package variables alone", shortFn(fn))
		}
	}
}

func isExample(pk *ssa.Package) bool { return strings.HasPrefix(pk.Pkg.Path(), modPath+"/examples") }

func (p *Prog) ambientCall(r *Report, fn *ssa.Function, x ssa.CallInstruction) {
	cal := x.Common().StaticCallee()
	if cal == nil || p.InModule(cal) {
		return
	}
	n := cal.String()
	if o := cal.Origin(); o != nil {
		n = o.String()
	}
	r.count("calls outside the module", 1)
	for _, a := range ambient {
		if !strings.HasPrefix(n, a) {
			continue
		}
		if strings.HasPrefix(n, "maps.") && onlySorted(x) {
			continue
		}
		r.violate("ambient: call of "+n+" in "+shortFn(fn), p.InstrPos(x), "the result differs from run to run for the same arguments")
	}
	if strings.HasPrefix(n, "fmt.") {
		for _, a := range x.Common().Args {
			if c, ok := a.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String && strings.Contains(constant.StringVal(c.Value), "%p") {
				r.violate("ambient: %p in "+shortFn(fn), p.InstrPos(x), "prints an address")
			}
		}
	}
}

// onlySorted: the iterator goes straight into slices.Sorted.
func onlySorted(x ssa.CallInstruction) bool {
	v, ok := x.(*ssa.Call)
	if !ok {
		return false
	}
	for _, ref := range *v.Referrers() {
		if _, ok := ref.(*ssa.DebugRef); ok {
			continue
		}
		if ct, ok := ref.(*ssa.ChangeType); ok {
			for _, r2 := range *ct.Referrers() {
				if !isSortedCall(r2) {
					return false
				}
			}
			continue
		}
		if !isSortedCall(ref) {
			return false
		}
	}
	return true
}

func isSortedCall(i ssa.Instruction) bool {
	c, ok := i.(*ssa.Call)
	if !ok || c.Call.StaticCallee() == nil {
		return false
	}
	n := c.Call.StaticCallee().String()
	if o := c.Call.StaticCallee().Origin(); o != nil {
		n = o.String()
	}
	return strings.HasPrefix(n, "slices.Sorted")
}
