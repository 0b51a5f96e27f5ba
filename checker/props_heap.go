package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C01"] = checkC01
	checks["C02"] = checkC02
	checks["C03"] = checkC03
	checks["C04"] = checkC04
}

const heapRule = "points-to and effect analysis: inclusion-based, field-sensitive, full call-string contexts, everything handed in " +
	"or held in package variables is one protected region; the obligation is that no store, map update, append in place, copy, delete, clear, " +
	"send or external call reachable from the entry point writes to the region"

var heapAssumptions = []string{
	"values of caller-defined types (foreign implementations of the library's interfaces, foreign functions) do not change what they are handed",
	"the standard library behaves as documented: strings, strconv, errors, unicode, regexp matching and fmt do not write to their operands",
	"two pointers compared with each other (not with the constant nil) are not both nil",
	"no unsafe, reflection or linkname access to the library's memory",
}

// freshArg is an argument the callee owns.
func (h *Heap) freshArg(key string, t types.Type) vals {
	v := vals{}
	for _, l := range leaves(t) {
		lt := typeAt(t, l)
		var o *Obj
		switch u := lt.Underlying().(type) {
		case *types.Pointer:
			o = h.newObj("arg/"+key+l, u.Elem())
		case *types.Slice, *types.Map, *types.Chan:
			o = h.newObj("arg/"+key+l, u)
		default:
			v[l] = h.regionLeaf(lt, h.globalsOnly)
			continue
		}
		o.ext = true
		v[l] = pset{Elem{obj: o}: {}}
	}
	return v
}

type entry struct {
	fn    *ssa.Function
	fresh map[int]bool // parameters that the callee may change
}

// effects decides that one entry point writes nothing it was not given to write.
func effects(p *Prog, r *Report, e entry) (*Heap, *Inst) {
	h := newHeap(p)
	var args []vals
	if len(e.fresh) > 0 {
		args = make([]vals, len(e.fn.Params))
		for i := range args {
			if e.fresh[i] {
				args[i] = h.freshArg(fmt.Sprint(i), e.fn.Params[i].Type())
			}
		}
	}
	root := h.analyseWith(e.fn, args)
	name := shortFn(e.fn)
	r.count("entry points", 1)
	r.count("call contexts", len(h.insts))
	fns := map[*ssa.Function]bool{}
	nstores := 0
	for _, in := range h.insts {
		fns[in.fn] = true
		for _, b := range in.fn.Blocks {
			if !in.reach[b] {
				continue
			}
			for _, i := range b.Instrs {
				switch i.(type) {
				case *ssa.Store, *ssa.MapUpdate, *ssa.Send:
					nstores++
				}
			}
		}
	}
	r.count("writes examined (per context)", nstores)
	for k := range h.unknown {
		r.Notes = append(r.Notes, "external function treated as writing its arguments: "+k)
	}
	if *debugFlag {
		cnt := map[string]int{}
		for _, in := range h.insts {
			cnt[shortFn(in.fn)]++
		}
		for k, n := range cnt {
			if n > 50 {
				fmt.Println("contexts", name, k, n)
			}
		}
	}
	if *debugFlag && *dumpFlag != "" {
		h.dump(*dumpFlag)
	}
	effs := h.sortedEffects()
	for _, ef := range effs {
		target := ef.obj.String() + pathName(ef.obj.typ, ef.path)
		r.violate(fmt.Sprintf("%s: %s to %s in %s", name, ef.what, target, shortFn(ef.instr.Parent())), p.InstrPos(ef.instr),
			"the write is reached by: "+h.chain(ef.inst))
	}
	if len(effs) == 0 {
		r.ok("%s writes only memory it allocated (%d functions, %d contexts)", name, len(fns), len(h.insts))
	}
	return h, root
}

// unshared decides that a result of the entry leads to nothing the caller owns.
func unshared(p *Prog, r *Report, h *Heap, root *Inst, idx int, what string, stop func(types.Type) bool) {
	t := root.fn.Signature.Results().At(idx).Type()
	v := vals{}
	pre := fmt.Sprintf("#%d", idx)
	for l, s := range root.results {
		if strings.HasPrefix(l, pre) {
			v[l[len(pre):]] = s
		}
	}
	n := 0
	for _, s := range v {
		for e := range s {
			if e.kind == 0 && e.obj != nil {
				n++
			}
		}
	}
	if n == 0 {
		r.violate(shortFn(root.fn)+": result", p.Pos(root.fn.Pos()), "the result of the entry point could not be traced to any allocation")
		return
	}
	bad := h.reachShared(v, t, stop)
	for _, b := range bad {
		r.violate(shortFn(root.fn)+": "+b, p.Pos(root.fn.Pos()), what)
	}
	if len(bad) == 0 {
		r.ok("%s: %s", shortFn(root.fn), what)
	}
	r.count("results traced", 1)
}

// stopAtSymbols: symbols are immutable identities and may be shared.
func stopAtSymbols(p *Prog) func(types.Type) bool {
	sym := p.Iface("", "Symbol")
	symT := p.Named("", "Symbol")
	return func(t types.Type) bool {
		if types.Identical(t, symT) {
			return true
		}
		if _, ok := t.Underlying().(*types.Interface); ok {
			return false
		}
		if !types.Implements(t, sym) {
			return false
		}
		// a concrete symbol type: has String and is not a node or lexeme
		ms := types.NewMethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			switch ms.At(i).Obj().Name() {
			case "Kind", "Value", "Child", "Productions", "Symbols":
				return false
			}
		}
		return true
	}
}

func ifaceEntries(p *Prog, iface, method string) []*ssa.Function {
	var out []*ssa.Function
	for _, t := range p.Implementers(p.Iface("", iface)) {
		out = append(out, p.Method(t, method))
	}
	return out
}

func checkC01(p *Prog, r *Report) {
	r.Rule = heapRule + "; additionally every lexeme and the slice returned by Lex are allocated by that call"
	r.Assumptions = heapAssumptions
	r.Floors["entry points"] = 2
	r.Floors["writes examined (per context)"] = 20
	stop := stopAtSymbols(p)
	for _, fn := range ifaceEntries(p, "Lexer", "Lex") {
		h, root := effects(p, r, entry{fn: fn})
		unshared(p, r, h, root, 0, "the returned lexemes belong to the caller alone", stop)
	}
}

func checkC02(p *Prog, r *Report) {
	r.Rule = heapRule + "; additionally every node, child list and lexeme reachable from the tree returned by Parse is allocated by that call"
	r.Assumptions = heapAssumptions
	r.Floors["entry points"] = 2
	r.Floors["writes examined (per context)"] = 20
	stop := stopAtSymbols(p)
	for _, fn := range ifaceEntries(p, "Parser", "Parse") {
		h, root := effects(p, r, entry{fn: fn})
		unshared(p, r, h, root, 0, "the returned tree shares no node or lexeme with its input", stop)
	}
}

func checkC03(p *Prog, r *Report) {
	r.Rule = heapRule + "; reductions held in a reducer are taken to be any function of that signature in the module; additionally every node, " +
		"child list and lexeme reachable from the returned tree is allocated by that call"
	r.Assumptions = append([]string{"the reductions in a reducer are the library's, combinations of them, or functions in this module"}, heapAssumptions...)
	r.Floors["entry points"] = 4
	r.Floors["writes examined (per context)"] = 20
	stop := stopAtSymbols(p)
	pn := types.NewPointer(p.Named("tree", "PN"))
	seen := map[*ssa.Function]bool{}
	run := func(fn *ssa.Function) {
		if fn == nil || seen[fn] {
			return
		}
		seen[fn] = true
		h, root := effects(p, r, entry{fn: fn})
		res := fn.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			if len(leaves(res.At(i).Type())) > 0 {
				unshared(p, r, h, root, i, "the returned tree shares no node, child list or lexeme with the original", stop)
			}
		}
	}
	red := p.Iface("", "Reducer")
	for _, t := range p.Implementers(red) {
		for i := 0; i < red.NumMethods(); i++ {
			run(p.Method(t, red.Method(i).Name()))
		}
		// every other exported method that takes a parse node and returns a tree
		ms := p.SSA.MethodSets.MethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			f := p.SSA.MethodValue(ms.At(i))
			if f == nil || !ms.At(i).Obj().Exported() {
				continue
			}
			if takes(f, p.Named("", "ParseNode")) && returns(f, pn) {
				run(f)
			}
		}
	}
	run(p.Func("tree", "Clone"))
}

func takes(f *ssa.Function, t types.Type) bool {
	for i := 0; i < f.Signature.Params().Len(); i++ {
		if types.Identical(f.Signature.Params().At(i).Type(), t) {
			return true
		}
	}
	return false
}

func returns(f *ssa.Function, t types.Type) bool {
	for i := 0; i < f.Signature.Results().Len(); i++ {
		if types.Identical(f.Signature.Results().At(i).Type(), t) {
			return true
		}
	}
	return false
}

// mutators are the exported operations whose purpose is to change the grammar.
var mutators = map[string]bool{"Add": true}

func checkC04(p *Prog, r *Report) {
	r.Rule = heapRule + "; entry points are every exported query of a grammar, of its productions and symbols and of an analysis, and every exported " +
		"function that takes a grammar; additionally the slice returned by NonTerminals is allocated by that call"
	r.Assumptions = heapAssumptions
	r.Floors["entry points"] = 20
	gi := p.Iface("", "Grammar")
	gt := p.Named("", "Grammar")
	isGrammar := func(t types.Type) bool {
		if types.Identical(t, gt) {
			return true
		}
		if _, ok := t.Underlying().(*types.Interface); ok {
			return false
		}
		return types.Implements(t, gi)
	}
	done := map[*ssa.Function]bool{}
	run := func(e entry) (*Heap, *Inst) {
		if done[e.fn] {
			return nil, nil
		}
		done[e.fn] = true
		return effects(p, r, e)
	}
	methods := func(t types.Type, names map[string]bool) {
		ms := p.SSA.MethodSets.MethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			m := ms.At(i)
			if !m.Obj().Exported() || mutators[m.Obj().Name()] || names != nil && !names[m.Obj().Name()] {
				continue
			}
			f := p.SSA.MethodValue(m)
			if f == nil || f.Synthetic != "" && f.Object() != nil && f.Object().(*types.Func).Signature().Recv() != nil {
				// promoted through an embedded interface: no code of its own
				if f != nil && !strings.Contains(f.Synthetic, "wrapper") {
					run(entry{fn: f})
				}
				continue
			}
			h, root := run(entry{fn: f})
			if h != nil && m.Obj().Name() == "NonTerminals" {
				unshared(p, r, h, root, 0, "the returned slice is a copy", stopAtSymbols(p))
			}
		}
	}
	for _, n := range p.ModuleTypes() {
		if !n.Obj().Exported() || n.Obj().Pkg().Name() == "main" {
			continue
		}
		var t types.Type = types.NewPointer(n)
		if types.Implements(t, gi) && !types.Implements(t, p.Iface("", "Parser")) {
			methods(t, nil)
		}
		for _, iname := range []string{"Production", "Productions", "Symbol"} {
			it := p.Iface("", iname)
			var rt types.Type = n
			if !types.Implements(rt, it) {
				rt = t
			}
			if !types.Implements(rt, it) || iname == "Symbol" && !stopAtSymbols(p)(rt) {
				continue
			}
			if p.delegates(rt, it) {
				continue
			}
			names := map[string]bool{"String": true}
			for i := 0; i < it.NumMethods(); i++ {
				names[it.Method(i).Name()] = true
			}
			methods(rt, names)
		}
	}
	// exported functions and methods that take a grammar
	var cands []*ssa.Function
	for _, fn := range p.Funcs {
		if fn.Object() == nil || !fn.Object().Exported() || fn.Synthetic != "" || fn.Pkg == nil || !p.isLib(fn.Pkg) || mutators[fn.Name()] {
			continue
		}
		for i := 0; i < fn.Signature.Params().Len(); i++ {
			if isGrammar(fn.Signature.Params().At(i).Type()) {
				cands = append(cands, fn)
				break
			}
		}
	}
	sort.Slice(cands, func(i, j int) bool { return cands[i].String() < cands[j].String() })
	for _, fn := range cands {
		e := entry{fn: fn, fresh: map[int]bool{}}
		if rv := fn.Signature.Recv(); rv != nil && !isGrammar(rv.Type()) {
			e.fresh[0] = true // the receiver is what the call fills
		}
		run(e)
	}
}
