package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C09"] = checkC09 }

// The stages of a run are events on the opaque lexer, parser and reducers.  One
// lexeme (the first error, if any) and one reducer are tracked by a symbolic
// index each, so that what is shown for them holds for all.
func checkC09(p *Prog, r *Report) {
	r.Rule = absRule + "the stages are events of an automaton (lex, parse, reduce in index order), one arbitrary lexeme and one arbitrary reducer " +
		"are tracked by symbolic index; at every return the result and the error are compared with what the automaton's state demands"
	r.Assumptions = absAssumptions
	run := p.Func("", "Run")
	runner := p.Method(types.NewPointer(p.Named("", "Runner")), "Run")
	mk := p.Func("", "New")
	for _, hasErr := range []bool{false, true} {
		for _, direct := range []bool{true, false} {
			hasErr, direct := hasErr, direct
			name := "Run"
			if !direct {
				name = "New().Run"
			}
			if hasErr {
				name += " with a lexing error"
			} else {
				name += " without lexing errors"
			}
			r.count("scenarios", 1)
			decide(p, r, name, 2, func(a *attempt, config int) {
				runC09(a, r, name, run, runner, mk, direct, hasErr, config)
			})
		}
	}
	r.Floors["scenarios"] = 4
}

func runC09(a *attempt, r *Report, name string, run, runner, mk *ssa.Function, direct, hasErr bool, config int) {
	p := a.p
	in := a.interp()
	st := newState()
	args := in.unknownArgs(st, run)
	input, lexer, parser := args[0], args[1], args[2]
	reds, ok := args[3].(SliceV)
	if !ok {
		fail("Run no longer takes reducers")
	}
	for _, v := range args[:3] {
		in.nonNil(st, v)
	}
	lexT := p.Named("", "LexError")
	// the lexemes the lexer hands back, and their first error
	lxs := in.unknown(st, run.Signature.Results().At(0).Type(), "x")
	_ = lxs
	lexRes := p.Iface("", "Lexer").Method(0).Type().(*types.Signature).Results().At(0).Type()
	for i := 0; i < p.Iface("", "Lexer").NumMethods(); i++ {
		if m := p.Iface("", "Lexer").Method(i); m.Name() == "Lex" {
			lexRes = m.Type().(*types.Signature).Results().At(0).Type()
		}
	}
	lex := in.unknown(st, lexRes, "lexemes").(SliceV)
	k, k2 := in.symV("k"), in.symV("k2")
	st.cons.addGE(k)
	if hasErr {
		st.cons.addGE(lex.ln.sub(k).plus(-1))
	}
	st.cons.addGE(k2)
	st.cons.addGE(reds.ln.sub(k2).plus(-1))
	var kSym, k2Sym int
	taID := func(sym int) string { return fmt.Sprintf("ta:%d:%s", sym, shortType(lexT)) }
	in.mon.elem = func(it *item, o *Obj2, idx Lin, v Val) {
		iv, ok := v.(IfaceV)
		if !ok {
			return
		}
		og := in.origin[iv.sym]
		switch og.src {
		case lex.arr:
			switch {
			case !hasErr || it.st.lt(idx, k):
				it.st.bools[taID(iv.sym)] = false
			case it.st.eq(idx, k):
				it.st.bools[taID(iv.sym)] = true
				it.st.nils[iv.sym] = false
				kSym = iv.sym
			}
		case reds.arr:
			if it.st.eq(idx, k2) {
				k2Sym = iv.sym
			}
		}
	}
	in.mon.skolem = func(st *State, o *Obj2) []Lin {
		if hasErr && o.name == "lexemes" && o.lazy {
			return []Lin{k}
		}
		if o.name == "reducers" && o.lazy {
			return []Lin{k2}
		}
		return nil
	}
	in.mon.tracked = []Lin{k2}
	if hasErr {
		in.mon.tracked = append(in.mon.tracked, k)
	}
	// make sure the tracked ones have a name from the start
	it := &item{st: st, env: map[ssa.Value]Val{}}
	if hasErr {
		in.origElem(it, lex.arr, k, st.heap[lex.arr])
	}
	in.origElem(it, reds.arr, k2, st.heap[reds.arr])
	cur := in.newGhost(st, p.Named("", "ParseNode"), NilV{})
	last := "last"
	st.gi[last] = linC(-1)
	st.gd["stage"] = "start"
	st.gd["k2"] = "0"
	nres := map[string]int{}
	pos := func(site ssa.CallInstruction) string { return p.InstrPos(site) }
	in.mon.onInvoke = func(it *item, recv IfaceV, m *types.Func, args []Val, site ssa.CallInstruction) ([]res, bool) {
		switch m.Name() {
		case "Lex":
			if it.st.gd["stage"] != "start" {
				a.violate("the input is lexed once", pos(site), "%s: Lex is called at stage %q", name, it.st.gd["stage"])
			}
			if in.canon(it.st, args[0]) != in.canon(it.st, input) {
				a.violate("the input itself is lexed", pos(site), "%s: Lex is given something else", name)
			}
			if recv.sym != lexer.(IfaceV).sym {
				a.violate("the given lexer is used", pos(site), "%s: another lexer", name)
			}
			no := it.fork()
			no.st.gd["stage"] = "lexed nothing"
			it.st.gd["stage"] = "lexed"
			it.st.nils[lex.arr] = false
			return []res{{no, NilV{}}, {it, lex}}, true
		case "Parse":
			if s := it.st.gd["stage"]; s != "lexed" || hasErr {
				a.violate("parsing only after lexing without errors", pos(site), "%s: Parse is called at stage %q", name, s)
			}
			if sl, ok := args[0].(SliceV); !ok || sl.arr != lex.arr || !it.st.eq(sl.off, lex.off) || !it.st.eq(sl.ln, lex.ln) {
				a.violate("all lexemes are parsed", pos(site), "%s: Parse is given something other than the lexemes", name)
			}
			if recv.sym != parser.(IfaceV).sym {
				a.violate("the given parser is used", pos(site), "%s: another parser", name)
			}
			no := it.fork()
			no.st.gd["stage"] = "parsed nothing"
			it.st.gd["stage"] = "parsed"
			t := in.unknown(it.st, p.Named("", "ParseNode"), "tree")
			in.nonNil(it.st, t)
			in.setGhost(it.st, cur, t)
			return []res{{no, NilV{}}, {it, t}}, true
		case "Reduce":
			if s := it.st.gd["stage"]; s != "parsed" {
				a.violate("reducing only a tree", pos(site), "%s: Reduce is called at stage %q", name, s)
			}
			og, isElem := in.origin[recv.sym]
			if !isElem || og.src != reds.arr {
				a.violate("the given reducers are used", pos(site), "%s: another reducer", name)
			} else {
				if !it.st.lt(it.st.gi[last], og.idx) {
					a.violate("reducers run in order, once", pos(site), "%s: a reducer is not shown to come after the one before", name)
				}
				it.st.gi[last] = og.idx
			}
			if recv.sym == k2Sym {
				it.st.gd["k2"] = "1"
			}
			if in.canon(it.st, args[0]) != in.canon(it.st, in.getGhost(it.st, cur)) {
				a.violate("each reducer gets the result before it", pos(site), "%s: Reduce is given something other than the latest tree", name)
			}
			no := it.fork()
			no.st.gd["stage"] = "reduced to nothing"
			t := in.unknown(it.st, p.Named("", "ParseNode"), "tree")
			in.nonNil(it.st, t)
			in.setGhost(it.st, cur, t)
			return []res{{no, NilV{}}, {it, t}}, true
		}
		return nil, false
	}
	var outs []Outcome
	if direct {
		outs = in.exec(run, args, nil, st)
	} else {
		for _, o := range in.exec(mk, args[1:], nil, st) {
			if o.panicked {
				a.violate("a runner can be made", p.InstrPos(o.site), "New panics")
				continue
			}
			outs = append(outs, in.exec(runner, []Val{o.ret, input}, nil, o.st)...)
		}
	}
	errIs := func(o Outcome, v Val, konst string) bool {
		iv, ok := v.(IfaceV)
		if !ok || iv.dyn == nil {
			return false
		}
		s, ok := in.force(o.st, iv.v).(StrV)
		return ok && s.konst != nil && *s.konst == p.constStr("", konst) && shortType(iv.dyn) == "parlex.strErr"
	}
	for _, o := range outs {
		where := p.InstrPos(o.site)
		stage := o.st.gd["stage"]
		if o.panicked {
			a.violate("a run does not panic", where, "%s: panics at stage %q", name, stage)
			continue
		}
		tv, ok := o.ret.(TupleV)
		if !ok || len(tv.vs) != 2 {
			fail("Run does not return a node and an error")
		}
		node, err := in.force(o.st, tv.vs[0]), in.force(o.st, tv.vs[1])
		nres[stage]++
		want := map[string]string{"lexed nothing": "ErrCouldNotLex", "parsed nothing": "ErrCouldNotParse", "reduced to nothing": "ErrCouldNotReduce"}[stage]
		switch {
		case want != "":
			if !isNilVal(in, o.st, node) {
				a.violate("a failed run gives no tree", where, "%s: a tree is returned although the run %s", name, stage)
			}
			if !errIs(o, err, want) {
				a.violate("a failed run says why", where, "%s: the run %s but the error is not %s", name, stage, want)
			}
		case stage == "lexed" && hasErr:
			if !isNilVal(in, o.st, node) {
				a.violate("a failed run gives no tree", where, "%s: a tree is returned although a lexeme is an error", name)
			}
			if iv, ok := err.(IfaceV); !ok || iv.dyn != nil || iv.sym != kSym {
				a.violate("the first lexing error is returned", where, "%s: the error returned is not the first lexeme that is an error", name)
			}
		case stage == "parsed":
			if !isNilVal(in, o.st, err) {
				a.violate("a good run gives no error", where, "%s: an error is returned although nothing failed", name)
			}
			if in.canon(o.st, node) != in.canon(o.st, in.getGhost(o.st, cur)) {
				a.violate("a good run gives the last tree", where, "%s: the tree returned is not the result of the last step", name)
			}
			if k2Sym != 0 && o.st.gd["k2"] != "1" && !o.st.nils[k2Sym] {
				a.violate("every reducer is applied", where, "%s: a run can succeed without applying one of its reducers", name)
			}
		default:
			a.violate("a run goes through its stages", where, "%s: returns at stage %q", name, stage)
		}
	}
	want := []string{"lexed nothing", "lexed"}
	if !hasErr {
		want = []string{"lexed nothing", "parsed nothing", "parsed", "reduced to nothing"}
	}
	for _, s := range want {
		if nres[s] == 0 {
			a.violate("a run ends", p.Pos(run.Pos()), "%s: no way to return at stage %q", name, s)
		}
	}
	if in.drawn[reds.arr] {
		a.bad = nil
		fail("the reducers are rearranged into another list")
	}
	r.count("returns", len(outs))
}
