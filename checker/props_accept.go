package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C15"] = checkC15 }

// C15: what the parsers record is what has been derived.  D(i,s,e) stands for
// "symbol number i derives the lexemes from s up to e".  It may be concluded
// for a lexeme of that kind, and for a production of the symbol all of whose
// symbols, in order, derive adjoining stretches; everything the parsers accept,
// memoise or queue has to follow from that.  Grammar, productions and symbols
// are opaque: SymIdx(P,j) is the number of the j-th symbol of production P.
type acc struct {
	a       *attempt
	in      *Interp
	p       *Prog
	title   string
	symT    *types.Named
	setT    *types.Named
	valF    int
	lxs     SliceV
	nlx     Lin // number of lexemes handed to Parse
	set     Val
	prodsOf map[int]Lin
	prodOf  map[int]Lin
	count   map[int]Lin
	symAt   map[int][]symEntry
	idxOf   map[int]Lin
	chains  map[int]chainInfo
	cuts    map[int][]symEntry
	start   *Lin // the number of the first non-terminal
	onFetch func(it *item, prod IfaceV)
	onSkip  func(it *item, p PtrV) (Val, bool)
}

type symEntry struct {
	j Lin
	v Lin
}

type chainInfo struct {
	prod  int
	start Lin
	n     Lin
	off   Lin
}

func newAcc(a *attempt, title string) (*acc, *State) {
	p := a.p
	c := &acc{a: a, in: a.interp(), p: p, title: title, prodsOf: map[int]Lin{}, prodOf: map[int]Lin{}, count: map[int]Lin{}, symAt: map[int][]symEntry{}, idxOf: map[int]Lin{}, chains: map[int]chainInfo{}, cuts: map[int][]symEntry{}}
	c.symT = p.Named("symbol/setsymbol", "Symbol")
	c.setT = p.Named("symbol/setsymbol", "Set")
	c.valF = intField(c.symT)
	st := newState()
	in := c.in
	c.set = in.unknown(st, types.NewPointer(c.setT), "set")
	in.nonNil(st, c.set)
	c.lxs = in.unknown(st, types.NewSlice(types.NewPointer(p.Named("lexeme", "Lexeme"))), "lxs").(SliceV)
	st.nils[c.lxs.arr] = false
	c.nlx = c.lxs.ln
	in.mon.onCall = c.onCall
	in.mon.onInvoke = c.onInvoke
	return c, st
}

// intField: the only integer field of a struct.
func intField(n *types.Named) int {
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		fail("%s is not a struct", n)
	}
	f := -1
	for i := 0; i < s.NumFields(); i++ {
		if b, ok := s.Field(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Int {
			if f >= 0 {
				fail("%s has several numbers", n)
			}
			f = i
		}
	}
	if f < 0 {
		fail("%s has no number", n)
	}
	return f
}

// field loads one field of the object a pointer points to.
func (c *acc) field(st *State, v Val, f int) Val {
	pv, ok := c.in.force(st, v).(PtrV)
	if !ok {
		fail("a pointer is expected")
	}
	it := &item{st: st, env: map[ssa.Value]Val{}}
	rs := c.in.load(it, PtrV{obj: pv.obj, idx: pv.idx, path: pv.path + string(rune(f))}, nil)
	if len(rs) != 1 || rs[0].it.st != st {
		fail("the field is not plain")
	}
	return rs[0].v
}

func (c *acc) intOf(st *State, v Val) Lin {
	i, ok := c.in.force(st, v).(IntV)
	if !ok {
		fail("a number is expected")
	}
	return i.e
}

// ints lists the numbers of a value, structs flattened.
func (c *acc) ints(st *State, v Val) []Lin {
	switch x := c.in.force(st, v).(type) {
	case IntV:
		return []Lin{x.e}
	case StructV:
		var out []Lin
		for _, f := range x.fields {
			if l, ok := f.(LazyV); ok {
				switch l.typ.Underlying().(type) {
				case *types.Basic, *types.Struct:
				default:
					continue
				}
			}
			out = append(out, c.ints(st, f)...)
		}
		return out
	}
	return nil
}

func (c *acc) newSymbol(st *State, idx Lin) Val {
	v := c.in.alloc(st, c.symT, "symbol").(PtrV)
	o := st.mut(v.obj)
	o.val = setPath(c.in, st, o.val, string(rune(c.valF)), IntV{idx})
	return v
}

// same finds the entry for an equal index, or makes one.
func (c *acc) same(st *State, tab map[int][]symEntry, key int, j Lin, name string) Lin {
	for _, e := range tab[key] {
		if st.eq(e.j, j) {
			return e.v
		}
	}
	var v Lin
	c.in.at(max2(max2(1, c.in.idStamp[key]), c.in.linStamp(j)), func() { v = c.in.symV(name) })
	tab[key] = append(tab[key], symEntry{j, v})
	return v
}

func (c *acc) symIdx(st *State, prod int, j Lin) Lin { return c.same(st, c.symAt, prod, j, "sym") }

func (c *acc) symbols(prod int) Lin {
	n, ok := c.count[prod]
	if !ok {
		c.in.at(max2(1, c.in.idStamp[prod]), func() { n = c.in.symV("symbols") })
		c.count[prod] = n
	}
	return n
}

// index is the number of a symbol.
func (c *acc) index(st *State, v Val) (Lin, bool) {
	iv, ok := c.in.force(st, v).(IfaceV)
	if !ok {
		if pv, ok := c.in.force(st, v).(PtrV); ok {
			return c.intOf(st, c.field(st, pv, c.valF)), true
		}
		return Lin{}, false
	}
	if iv.dyn != nil {
		if types.Identical(deref(iv.dyn), c.symT) {
			return c.intOf(st, c.field(st, iv.v, c.valF)), true
		}
		return Lin{}, false
	}
	if d, ok := st.dyns[iv.sym]; ok && types.Identical(deref(d.dyn), c.symT) {
		return c.intOf(st, c.field(st, d.v, c.valF)), true
	}
	e, ok := c.idxOf[iv.sym]
	if !ok {
		c.in.at(max2(1, c.in.idStamp[iv.sym]), func() { e = c.in.symV("idx") })
		c.idxOf[iv.sym] = e
	}
	return e, true
}

func (c *acc) onCall(it *item, fn *ssa.Function, args []Val, site ssa.CallInstruction) ([]res, bool) {
	in := c.in
	if fn.Pkg == nil {
		return nil, false
	}
	if fn.Pkg.Pkg.Path() == modPath+"/symbol/setsymbol" && fn.Signature.Recv() == nil && fn.Name() == "New" {
		return []res{{it, c.set}}, true
	}
	rv := fn.Signature.Recv()
	if rv == nil || !types.Identical(deref(rv.Type()), c.setT) {
		return nil, false
	}
	switch fn.Name() {
	case "LoadGrammar":
		return []res{{it, nil}}, true
	case "LoadLexemes":
		it.st.gd["loaded"] = "yes"
		sl, ok := in.force(it.st, args[1]).(SliceV)
		if !ok {
			it.st.cons.addEQ(c.lxs.ln)
		} else {
			it.st.cons.addEQ(c.lxs.ln.sub(sl.ln))
		}
		return []res{{it, c.lxs}}, true
	case "Symbol":
		e, ok := c.index(it.st, args[1])
		if !ok {
			return []res{{it, NilV{}}}, true
		}
		it.st.cons.addGE(e)
		return []res{{it, c.newSymbol(it.st, e)}}, true
	case "Idx":
		if e, ok := c.index(it.st, args[1]); ok {
			return []res{{it, IntV{e}}}, true
		}
	case "ByIdx":
		return []res{{it, c.newSymbol(it.st, c.intOf(it.st, args[1]))}}, true
	case "Size":
		n := in.symV("size")
		it.st.cons.addGE(n)
		return []res{{it, IntV{n}}}, true
	}
	return []res{{it, in.unknownRes(it.st, fn.Signature, fn.Name())}}, true
}

func (c *acc) onInvoke(it *item, recv IfaceV, m *types.Func, args []Val, site ssa.CallInstruction) ([]res, bool) {
	in := c.in
	if recv.dyn != nil {
		return nil, false
	}
	lz := func(key string, stamp int, t types.Type, name string) Val {
		l, ok := in.pureInv[key]
		if !ok {
			in.at(stamp, func() { l = in.lazy(t, name) })
			in.pureInv[key] = l
		}
		return in.mat(it.st, l.(LazyV))
	}
	sig := m.Type().(*types.Signature)
	switch {
	case m.Name() == "Productions" && len(args) == 1:
		e, ok := c.index(it.st, args[0])
		if !ok {
			return nil, false
		}
		e = it.st.cons.norm(e)
		v := lz(fmt.Sprintf("prods:%d:%s", recv.sym, e.key()), max2(in.idStamp[recv.sym], in.linStamp(e)), sig.Results().At(0).Type(), "prods")
		if iv, ok := v.(IfaceV); ok {
			c.prodsOf[iv.sym] = e
			if c.start != nil && it.st.eq(*c.start, e) {
				it.st.nils[iv.sym] = false // a non-terminal has productions
			}
		}
		return []res{{it, v}}, true
	case m.Name() == "Productions" && len(args) == 0:
		v := in.pureInvoke(it, recv, m, args)
		it.st.cons.addGE(v.(IntV).e)
		return []res{{it, v}}, true
	case m.Name() == "Production" && len(args) == 1:
		v := in.pureInvoke(it, recv, m, args)
		iv := v.(IfaceV)
		it.st.nils[iv.sym] = false
		if e, ok := c.prodsOf[recv.sym]; ok {
			c.prodOf[iv.sym] = e
		}
		it.st.cons.addGE(c.symbols(iv.sym))
		if c.onFetch != nil {
			c.onFetch(it, iv)
		}
		return []res{{it, v}}, true
	case m.Name() == "Iter" && len(args) == 0:
		pt, ok := sig.Results().At(0).Type().Underlying().(*types.Pointer)
		if !ok {
			return nil, false
		}
		s, ok := pt.Elem().Underlying().(*types.Struct)
		if !ok {
			return nil, false
		}
		f := -1
		rt := recv.st
		for i := 0; i < s.NumFields(); i++ {
			if rt != nil && types.Identical(s.Field(i).Type(), rt) && !(s.Field(i).Embedded() && types.Identical(rt, c.p.Named("", "Production")) && s.Field(i).Name() != "Production") {
				f = i
			}
		}
		if f < 0 {
			return nil, false
		}
		v := in.alloc(it.st, pt.Elem(), "iter").(PtrV)
		o := it.st.mut(v.obj)
		o.val = setPath(in, it.st, o.val, string(rune(f)), recv)
		return []res{{it, v}}, true
	case m.Name() == "Symbols" && len(args) == 0:
		n := c.symbols(recv.sym)
		it.st.cons.addGE(n)
		return []res{{it, IntV{n}}}, true
	case m.Name() == "Symbol" && len(args) == 1:
		j, ok := args[0].(IntV)
		if !ok {
			return nil, false
		}
		v := in.pureInvoke(it, recv, m, args)
		iv := v.(IfaceV)
		it.st.nils[iv.sym] = false
		if _, ok := c.idxOf[iv.sym]; !ok {
			c.idxOf[iv.sym] = c.symIdx(it.st, recv.sym, j.e)
		}
		return []res{{it, v}}, true
	}
	return nil, false
}

// kindAt: the number of the symbol of the lexeme at a position, if the program
// has looked at it.
func (c *acc) kindAt(st *State, pos Lin) (Lin, bool) {
	o := st.heap[c.lxs.arr]
	for _, e := range o.elems {
		if !st.eq(e.idx, pos.add(c.lxs.off)) {
			continue
		}
		pv, ok := c.in.force(st, e.v).(PtrV)
		if !ok {
			continue
		}
		lt := c.p.Named("lexeme", "Lexeme").Underlying().(*types.Struct)
		for i := 0; i < lt.NumFields(); i++ {
			if types.Identical(lt.Field(i).Type(), c.p.Named("", "Symbol")) {
				if k, ok := c.index(st, c.field(st, pv, i)); ok {
					return k, true
				}
			}
		}
	}
	return Lin{}, false
}

// terminal: the lexeme at s is of kind i, and e comes right after it.
func (c *acc) terminal(st *State, i, s, e Lin) string {
	if !st.le(linC(0), s) || !st.lt(s, c.lxs.ln) {
		return "the position may lie outside the lexemes"
	}
	k, ok := c.kindAt(st, s)
	if !ok || !st.eq(k, i) {
		return "the lexeme there is not compared with the symbol"
	}
	if !st.eq(e, s.plus(1)) {
		return "the end is not the next lexeme"
	}
	return ""
}

func (c *acc) refuse(st *State, where, format string, args ...interface{}) {
	c.a.violate(c.title, where, format, args...)
}

// loaded: the parser works on all the lexemes it was handed.
func (c *acc) loaded(st *State, lexemes SliceV, where string) bool {
	if st.gd["loaded"] == "" {
		c.refuse(st, where, "a tree can be returned without looking at the lexemes")
		return false
	}
	if !st.eq(lexemes.ln, c.lxs.ln) {
		if c.in.vague(st, c.lxs.ln) {
			fail("how many lexemes are loaded is not known")
		}
		c.refuse(st, where, "a tree can be returned that does not cover all the lexemes handed to Parse")
		return false
	}
	return true
}

func checkC15(p *Prog, r *Report) {
	r.Rule = absRule + "D(symbol, from, to) may be concluded from a lexeme of that kind or from a production of the symbol whose symbols derive adjoining stretches in order; " +
		"every tree returned, every memo entry and every queued step is shown to follow from that, and the tree returned to stand for D(first non-terminal, 0, number of lexemes)"
	r.Assumptions = append([]string{
		"grammars, productions and symbols behave as their interfaces say: Iter starts at the first element, Symbol(i) and Production(i) exist for i below the count",
		"symbol numbers of one set identify symbols (setsymbol)",
		"every non-terminal a grammar lists has productions",
	}, absAssumptions...)
	topdownC15(p, r)
	packratC15(p, r)
	loadC15(p, r)
	r.Floors["parsers"] = 2
}

// callee of Parse that is part of a cycle of calls.
func (p *Prog) recursiveFrom(fn *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.Funcs {
		if f.Pkg == fn.Pkg && f.Pkg != nil && f != fn && p.selfReaching(f) {
			out = append(out, f)
		}
	}
	return out
}

// ---- topdown ----

func topdownC15(p *Prog, r *Report) {
	parse := p.Method(types.NewPointer(p.Named("parser/topdown", "Topdown")), "Parse")
	// the function Parse calls that calls itself again
	var rec *ssa.Function
	for _, b := range parse.Blocks {
		for _, ins := range b.Instrs {
			if call, ok := ins.(ssa.CallInstruction); ok {
				if f := call.Common().StaticCallee(); f != nil && f.Pkg == parse.Pkg && p.selfReaching(f) {
					rec = f
				}
			}
		}
	}
	r.count("parsers", 1)
	title := "the top-down parser accepts only what is derived"
	if rec == nil {
		r.undecided(title, "no recursive acceptance is called by Parse")
		return
	}
	decide(p, r, title+": "+shortFn(rec), 2, func(a *attempt, config int) { tdAccept(a, title, rec, config) })
	decide(p, r, title+": "+shortFn(parse), 2, func(a *attempt, config int) { tdParse(a, title, parse, rec, config) })
}

// tdKey finds the symbol and the position among the arguments.
func (c *acc) tdKey(st *State, args []Val) (idx, pos Lin) {
	var ns []Lin
	for _, v := range args {
		switch x := c.in.force(st, v).(type) {
		case IntV, StructV:
			ns = append(ns, c.ints(st, x)...)
		}
	}
	if len(ns) != 2 {
		fail("the symbol and the position are not recognised among the arguments")
	}
	return ns[0], ns[1]
}

// tdEnd: the position after what was accepted, in a result that is not nil.
func (c *acc) tdEnd(st *State, v Val) Lin {
	pv, ok := c.in.force(st, v).(PtrV)
	if !ok {
		fail("the answer is not a pointer")
	}
	n, ok := st.heap[pv.obj].typ.(*types.Named)
	if !ok {
		fail("the answer is not a named struct")
	}
	return c.intOf(st, c.field(st, v, intField(n)))
}

// tdMon sets up the tracking of one derivation step: the production fetched
// last, how many of its symbols have been accepted, and up to where.
func (c *acc) tdMon(rec *ssa.Function, st *State, pos Lin) {
	in := c.in
	st.gd["prod"], st.gd["bad"] = "", ""
	st.gi["n"], st.gi["pos"] = linC(0), pos
	c.onFetch = func(it *item, prod IfaceV) {
		it.st.gd["prod"], it.st.gd["bad"] = fmt.Sprint(prod.sym), ""
		it.st.gd["clk"] = fmt.Sprint(in.clock)
		it.st.gi["n"], it.st.gi["pos"] = linC(0), pos
	}
	// a production fetched in one round of a loop is of no use in the next
	in.mon.onHead = func(it *item, wm int) {
		st := it.st
		prod := -1
		fmt.Sscan(st.gd["prod"], &prod)
		clk := 0
		fmt.Sscan(st.gd["clk"], &clk)
		if prod < 0 || clk <= wm {
			return
		}
		delete(st.gd, "clk")
		if of, ok := c.prodOf[prod]; ok && st.gd["bad"] == "" && st.eq(st.gi["n"], c.symbols(prod)) {
			f := fact{name: "D", args: []Lin{of, pos, st.gi["pos"]}}
			if !hasFact(st.facts, f) {
				st.facts = append(st.facts, f)
			}
		}
		st.gd["prod"], st.gd["bad"] = "", ""
		st.gi["n"], st.gi["pos"] = linC(0), pos
	}
	in.mon.recur = func(it *item, fn *ssa.Function, args []Val, site ssa.CallInstruction) ([]res, bool) {
		if fn != rec {
			return nil, false
		}
		st := it.st
		i, s := c.tdKey(st, args)
		prod := -1
		fmt.Sscan(st.gd["prod"], &prod)
		where := c.p.InstrPos(site)
		if st.gd["bad"] == "" {
			n := st.gi["n"]
			switch {
			case prod < 0:
				st.gd["bad"] = where + ": no production is being tried"
			case !st.eq(i, c.symIdx(st, prod, n)):
				st.gd["bad"] = where + ": the symbol tried is not the next one of the production"
			case !st.eq(s, st.gi["pos"]):
				st.gd["bad"] = where + ": the symbol is tried at another place than where the one before ended"
			}
		}
		no := it.fork()
		if no.st.gd["bad"] == "" {
			no.st.gd["bad"] = where + ": a symbol of the production was not accepted"
		}
		v := in.unknown(st, fn.Signature.Results().At(0).Type(), "resp")
		in.nonNil(st, v)
		e := c.tdEnd(st, v)
		st.cons.addGE(e.sub(s))
		st.cons.addGE(c.lxs.ln.sub(e))
		st.gi["n"], st.gi["pos"] = st.gi["n"].plus(1), e
		return []res{{it, v}, {no, NilV{}}}, true
	}
}

// tdDerived: why D(i,s,e) does not follow here, or nothing.
func (c *acc) tdDerived(st *State, i, s, e Lin) string {
	why := c.terminal(st, i, s, e)
	if why == "" {
		return ""
	}
	for _, f := range st.facts {
		if f.name == "D" && st.eq(f.args[0], i) && st.eq(f.args[1], s) && st.eq(f.args[2], e) {
			return ""
		}
	}
	if st.gd["bad"] != "" {
		return st.gd["bad"]
	}
	prod := -1
	fmt.Sscan(st.gd["prod"], &prod)
	if prod < 0 {
		return why
	}
	of, ok := c.prodOf[prod]
	switch {
	case !ok || !st.eq(of, i):
		return "the production tried is not one of the symbol"
	case !st.eq(st.gi["n"], c.symbols(prod)):
		if os.Getenv("DBG") != "" && c.in.quiet == 0 {
			fmt.Fprintf(os.Stderr, "prod %d n %v symbols %v\n%s\n", prod, st.gi["n"], c.symbols(prod), c.in.dumpState(st))
		}
		return "not every symbol of the production has been accepted"
	case !st.eq(st.gi["pos"], e):
		return "the end is not where the last symbol ended"
	}
	return ""
}

func (c *acc) memoMap(st *State, args []Val, rec *ssa.Function) (MapV, bool) {
	pv, ok := args[0].(PtrV)
	if !ok {
		return MapV{}, false
	}
	s, ok := deref(rec.Signature.Recv().Type()).Underlying().(*types.Struct)
	if !ok {
		return MapV{}, false
	}
	for i := 0; i < s.NumFields(); i++ {
		if m, ok := s.Field(i).Type().Underlying().(*types.Map); ok && types.Identical(m.Elem(), rec.Signature.Results().At(0).Type()) {
			if mv, ok := c.field(st, pv, i).(MapV); ok {
				return mv, true
			}
		}
	}
	return MapV{}, false
}

func (c *acc) fixFields(st *State, op Val, named *types.Named) {
	// the operation's set and lexemes
	s, ok := named.Underlying().(*types.Struct)
	if !ok {
		return
	}
	pv := op.(PtrV)
	for i := 0; i < s.NumFields(); i++ {
		t := s.Field(i).Type()
		o := st.mut(pv.obj)
		switch {
		case types.Identical(t, types.NewPointer(c.setT)):
			o.val = setPath(c.in, st, o.val, string(rune(i)), c.set)
		case types.Identical(t, types.NewSlice(types.NewPointer(c.p.Named("lexeme", "Lexeme")))):
			o.val = setPath(c.in, st, o.val, string(rune(i)), c.lxs)
		}
	}
}

func tdAccept(a *attempt, title string, rec *ssa.Function, config int) {
	p := a.p
	c, st := newAcc(a, title)
	in := c.in
	in.peel = config
	if rec.Signature.Recv() == nil || rec.Signature.Results().Len() != 1 {
		fail("the acceptance is not a method with one result")
	}
	args := in.unknownArgs(st, rec)
	in.nonNil(st, args[0])
	opT, ok := deref(rec.Signature.Recv().Type()).(*types.Named)
	if !ok {
		fail("the receiver is not recognised")
	}
	c.fixFields(st, args[0], opT)
	i, s := c.tdKey(st, args)
	st.cons.addGE(i)
	st.cons.addGE(s)
	st.cons.addGE(c.lxs.ln.sub(s))
	c.tdMon(rec, st, s)
	// what the memo holds for this key was accepted for it
	mv, hasMemo := c.memoMap(st, args, rec)
	var old Val
	if hasMemo {
		in.nonNil(st, mv)
		old = in.unknown(st, rec.Signature.Results().At(0).Type(), "memoised")
		var key Val
		for _, v := range args[1:] {
			if sv, ok := in.force(st, v).(StructV); ok {
				key = sv
			}
		}
		if key == nil {
			fail("the key of the memo is not recognised")
		}
		m := st.mut(mv.obj)
		m.ks = append(m.ks, mapEntry{k: key, v: old, ok: Form{kind: fOpaque, id: "memoised"}})
	}
	isOld := func(st *State, v Val) bool {
		x, ok := in.force(st, v).(PtrV)
		y, ok2 := old.(PtrV)
		return ok && ok2 && x.obj == y.obj
	}
	settle := func(st *State, v Val, where, what string) {
		v = in.force(st, v)
		if isOld(st, v) || isNilVal(in, st, v) {
			return
		}
		if !isNonNil(in, st, v) {
			fail("not known whether the answer is nil")
		}
		if why := c.tdDerived(st, i, s, c.tdEnd(st, v)); why != "" {
			c.refuse(st, where, "%s although no derivation was found: %s", what, why)
		}
	}
	in.mon.onMapSet = func(it *item, m MapV, k, v Val, site ssa.Instruction) {
		if !hasMemo || m.obj != mv.obj {
			return
		}
		ks := c.ints(it.st, k)
		if len(ks) != 2 || !it.st.eq(ks[0], i) || !it.st.eq(ks[1], s) {
			if !isNilVal(in, it.st, in.force(it.st, v)) {
				c.refuse(it.st, p.InstrPos(site), "an answer is memoised under another symbol or position than the one asked about")
			}
			return
		}
		settle(it.st, v, p.InstrPos(site), "an answer is memoised")
	}
	n := 0
	for _, o := range in.exec(rec, args, nil, st) {
		if o.panicked {
			continue
		}
		if !isNilVal(in, o.st, in.force(o.st, o.ret)) {
			n++
		}
		settle(o.st, o.ret, p.InstrPos(o.site), "something is accepted")
	}
	if n == 0 {
		fail("nothing is ever accepted")
	}
}

func tdParse(a *attempt, title string, parse, rec *ssa.Function, config int) {
	p := a.p
	c, st := newAcc(a, title)
	in := c.in
	in.peel = config
	args := in.unknownArgs(st, parse)
	in.nonNil(st, args[0])
	lexemes, ok := args[1].(SliceV)
	if !ok {
		fail("Parse does not take lexemes")
	}
	c.tdMon(rec, st, linC(0))
	st.gd["root"] = "nothing was accepted"
	stub := in.mon.onCall
	var nts Val
	inv := in.mon.onInvoke
	in.mon.onInvoke = func(it *item, recv IfaceV, m *types.Func, as []Val, site ssa.CallInstruction) ([]res, bool) {
		if m.Name() == "NonTerminals" && recv.dyn == nil {
			v := in.pureInvoke(it, recv, m, as)
			nts = v
			return []res{{it, v}}, true
		}
		return inv(it, recv, m, as, site)
	}
	in.mon.onCall = func(it *item, fn *ssa.Function, as []Val, site ssa.CallInstruction) ([]res, bool) {
		if fn == rec && !in.active(rec) {
			where := p.InstrPos(site)
			i, s := c.tdKey(it.st, as)
			wrong := ""
			sl, ok := nts.(SliceV)
			if !ok {
				wrong = "the start symbol does not come from the grammar"
			} else {
				for _, r := range in.readElem(it.fork(), sl.arr, sl.off) {
					e, ok := c.index(r.it.st, r.v)
					if ok {
						c.start = &e
					}
					if !ok || !r.it.st.eq(e, i) {
						wrong = where + ": another symbol than the first non-terminal is tried"
					}
				}
			}
			if !it.st.eq(s, linC(0)) {
				wrong = where + ": the attempt does not begin at the first lexeme"
			}
			var out []res
			for _, o := range in.exec(rec, as, nil, it.st) {
				if o.panicked {
					continue
				}
				n := &item{st: o.st, env: make(map[ssa.Value]Val, len(it.env))}
				for k, v := range it.env {
					n.env[k] = v
				}
				v := in.force(o.st, o.ret)
				switch {
				case isNilVal(in, o.st, v):
					o.st.gd["root"] = "nothing was accepted"
				case !isNonNil(in, o.st, v):
					fail("not known whether the answer is nil")
				case wrong != "":
					o.st.gd["root"] = wrong
				default:
					e := c.tdEnd(o.st, v)
					if why := c.tdDerived(o.st, i, s, e); why != "" {
						o.st.gd["root"] = why
					} else if !o.st.eq(e, c.lxs.ln) {
						o.st.gd["root"] = where + ": what was accepted need not end at the last lexeme"
					} else {
						o.st.gd["root"] = "ok"
					}
				}
				out = append(out, res{n, v})
			}
			return out, true
		}
		if rs, ok := stub(it, fn, as, site); ok {
			return rs, true
		}
		if fn.Pkg != nil && fn.Pkg.Pkg.Path() == modPath+"/tree" {
			v := in.unknownRes(it.st, fn.Signature, fn.Name())
			if len(as) > 0 && v != nil {
				if isNonNil(in, it.st, in.force(it.st, as[0])) {
					in.nonNil(it.st, v)
				}
			}
			return []res{{it, v}}, true
		}
		return nil, false
	}
	n := 0
	for _, o := range in.exec(parse, args, nil, st) {
		if o.panicked || isNilVal(in, o.st, in.force(o.st, o.ret)) {
			continue
		}
		n++
		if !c.loaded(o.st, lexemes, p.InstrPos(o.site)) {
			continue
		}
		if why := o.st.gd["root"]; why != "ok" {
			c.refuse(o.st, p.InstrPos(o.site), "a tree can be returned although the start symbol does not cover the input: %s", why)
		}
	}
	if n == 0 {
		fail("no tree is ever returned")
	}
}

// loadC15: the parsers work on exactly the lexemes they are given.
func loadC15(p *Prog, r *Report) {
	setT := p.Named("symbol/setsymbol", "Set")
	fn := p.Method(types.NewPointer(setT), "LoadLexemes")
	title := "the lexemes a parser works on are those it was given, in order"
	decide(p, r, title, 1, func(a *attempt, _ int) {
		c := &acc{a: a, in: a.interp(), p: p, title: title, idxOf: map[int]Lin{}, symAt: map[int][]symEntry{}, count: map[int]Lin{}, prodOf: map[int]Lin{}, prodsOf: map[int]Lin{}}
		in := c.in
		c.symT, c.setT = p.Named("symbol/setsymbol", "Symbol"), setT
		c.valF = intField(c.symT)
		st := newState()
		args := in.unknownArgs(st, fn)
		in.nonNil(st, args[0])
		src := args[1].(SliceV)
		k := in.symV("k")
		st.cons.addGE(k)
		st.cons.addGE(src.ln.sub(k).plus(-1))
		in.mon.tracked = []Lin{k}
		in.mon.skolem = func(st *State, o *Obj2) []Lin {
			if o == st.heap[src.arr] || o.kind == 'a' && !o.lazy && types.Identical(deref(o.typ), p.Named("lexeme", "Lexeme")) {
				return []Lin{k}
			}
			return nil
		}
		it := &item{st: st, env: map[ssa.Value]Val{}}
		in.origElem(it, src.arr, k, st.heap[src.arr])
		in.mon.onCall = func(it *item, f *ssa.Function, as []Val, site ssa.CallInstruction) ([]res, bool) {
			if rv := f.Signature.Recv(); f != fn && rv != nil && types.Identical(deref(rv.Type()), setT) {
				if f.Name() == "Symbol" {
					if e, ok := c.index(it.st, as[1]); ok {
						return []res{{it, c.newSymbol(it.st, e)}}, true
					}
				}
				return []res{{it, in.unknownRes(it.st, f.Signature, f.Name())}}, true
			}
			return nil, false
		}
		n := 0
		for _, o := range in.exec(fn, args, nil, st) {
			if o.panicked {
				continue
			}
			where := p.InstrPos(o.site)
			out, ok := in.force(o.st, o.ret).(SliceV)
			if !ok {
				a.violate(title, where, "no lexemes are loaded although there are some")
				continue
			}
			if !o.st.eq(out.ln, src.ln) {
				if in.vague(o.st, out.ln) {
					fail("the number of lexemes is not known")
				}
				a.violate(title, where, "the number of lexemes changes")
				continue
			}
			x := &item{st: o.st, env: map[ssa.Value]Val{}}
			for _, want := range in.origElem(x, src.arr, k, o.st.heap[src.arr]) {
				wi, ok := want.v.(IfaceV)
				if !ok {
					continue
				}
				kind := in.pureInvoke(want.it, wi, kindMethod(p), nil)
				we, _ := c.index(want.it.st, kind)
				for _, g := range in.readElem(want.it, out.arr, out.off.add(k)) {
					n++
					pv, ok := in.force(g.it.st, g.v).(PtrV)
					if !ok {
						fail("the lexeme loaded is not known")
					}
					lt := p.Named("lexeme", "Lexeme").Underlying().(*types.Struct)
					for i := 0; i < lt.NumFields(); i++ {
						if !types.Identical(lt.Field(i).Type(), p.Named("", "Symbol")) {
							continue
						}
						e, ok := c.index(g.it.st, c.field(g.it.st, pv, i))
						if !ok || !g.it.st.eq(e, we) {
							if in.sumRead {
								fail("the lexeme loaded is not known")
							}
							a.violate(title, where, "a lexeme is loaded with the kind of another one")
						}
					}
				}
			}
		}
		if n == 0 {
			fail("no way to the end found")
		}
	})
}

func kindMethod(p *Prog) *types.Func {
	i := p.Iface("", "Lexeme")
	for k := 0; k < i.NumMethods(); k++ {
		if i.Method(k).Name() == "Kind" {
			return i.Method(k)
		}
	}
	fail("a lexeme has no kind")
	return nil
}

var _ = strings.HasPrefix
