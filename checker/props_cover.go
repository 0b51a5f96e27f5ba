package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C07"] = checkC07 }

// C07: the lexemes account for the text.  A ghost integer, cov, is how much of
// the text has been accounted for: an appended lexeme whose value is a stretch
// of the text has to start there and moves it to its end; a rule marked as
// discarded, or a rewritten value, moves it over the match last looked at; when
// Lex returns it has to be the length of the text.
func checkC07(p *Prog, r *Report) {
	r.Rule = absRule + "a ghost integer counts the text accounted for; every lexeme appended whose value is a stretch of the text has to start there, a discarded " +
		"match or rewritten value has to lie there, no turn of a loop may move on from it without keeping it, and at every return it is the length of the text"
	r.Assumptions = absAssumptions
	obligationTime = 400 * time.Second
	for _, l := range lexers {
		if o := os.Getenv("ONLY"); o != "" && o != l[1] {
			continue
		}
		for _, part := range []string{"empty text", "some text"} {
			title := "lexemes account for the text: " + l[0] + ", " + part
			decide(p, r, title, 1, func(a *attempt, _ int) {
				c := newLexA(a, p.Named(l[0], l[1]), title)
				k := &cover{c: c, r: r}
				in := c.in
				c.st.gi["m.lo"], c.st.gi["m.hi"], c.st.gi["cov"] = linC(-1), linC(-1), linC(0)
				if part == "empty text" {
					c.st.cons.addEQ(c.n)
				} else {
					c.st.cons.addGE(c.n.plus(-1))
				}
				in.mon.onText = k.text
				in.mon.onAppend = k.append
				in.mon.onBranch = k.branch
				in.mon.onBack = k.back
				in.mon.eager = true
				in.mon.key = k.key
				outs := in.exec(c.lex, c.args, nil, c.st)
				n := 0
				for _, o := range outs {
					if o.panicked {
						continue
					}
					n++
					k.end(o)
				}
				if n == 0 {
					fail("Lex does not return")
				}
				if k.undec != "" {
					fail("%s", k.undec)
				}
				r.count("states at return", n)
			})
		}
	}
	r.Floors["states at return"] = 1
}

type cover struct {
	c     *lexA
	r     *Report
	undec string
}

// violate reports, and ends the obligation: what follows from a place that is
// wrong says nothing new.
func (k *cover) violate(st *State, where, format string, args ...interface{}) {
	k.debug(st)
	q := k.c.in.quiet
	k.c.in.quiet = 0
	k.c.a.violate(k.c.title, where, format, args...)
	k.c.in.quiet = q
	fail("ended at the first violation")
}

func (k *cover) unknown(st *State, why string) {
	if st != nil {
		st.gd["u"] = "1"
	}
	if k.undec == "" {
		k.undec = why
	}
}

// text remembers the stretch looked at: the furthest one on in the text.
func (k *cover) text(it *item, t *textRef) {
	st := it.st
	if t.t != k.c.text || !st.lt(t.lo, t.hi) || !st.le(st.gi["cov"], t.lo) {
		return
	}
	if st.le(t.hi, st.gi["m.lo"]) {
		return
	}
	st.gi["m.lo"], st.gi["m.hi"] = t.lo, t.hi
}

func (k *cover) forget(st *State) {
	st.gi["m.lo"], st.gi["m.hi"] = linC(-1), linC(-1)
}

// credit moves over the match that starts where the account stands.
func (k *cover) credit(st *State) bool {
	var hi *Lin
	for _, o := range st.heap {
		if o.kind != 'o' || o.lazy {
			continue
		}
		sv, ok := o.val.(StructV)
		if !ok {
			continue
		}
		for _, f := range sv.fields {
			if s, ok := f.(StrV); ok && s.text != nil && s.text.t == k.c.text && st.eq(s.text.lo, st.gi["cov"]) && st.lt(s.text.lo, s.text.hi) {
				if hi != nil && !st.eq(*hi, s.text.hi) {
					return false
				}
				hi = &s.text.hi
			}
		}
	}
	if hi != nil {
		st.gi["cov"] = *hi
		k.forget(st)
		return true
	}
	if st.eq(st.gi["m.lo"], st.gi["cov"]) {
		st.gi["cov"] = st.gi["m.hi"]
		k.forget(st)
		return true
	}
	return false
}

func (k *cover) branch(it *item, f Form) {
	if f.kind != fOpaque || f.neg {
		return
	}
	n := k.c.in.lzName[f.id]
	if !strings.Contains(n, ".") {
		return
	}
	if !strings.HasSuffix(n, ".discard") {
		if os.Getenv("DBG") == "2" {
			fmt.Fprintln(os.Stderr, "U mark", n)
		}
		it.st.gd["u"] = "1" // a mark the analysis does not know
		return
	}
	if !k.credit(it.st) {
		it.st.gd["d"] = "1"
	}
}

// value is what a lexeme reads as.
func (k *cover) value(it *item, e Val) StrV {
	in := k.c.in
	iv, ok := in.force(it.st, e).(IfaceV)
	if !ok || iv.dyn == nil {
		fail("the lexeme appended is not known")
	}
	m := k.c.p.methodOrNil(iv.dyn, "Value")
	if m == nil {
		fail("the lexeme appended has no value")
	}
	save := in.mon
	in.mon.onText, in.mon.onAppend, in.mon.onBranch, in.mon.onBack = nil, nil, nil, nil
	in.mon.eager = false
	in.quiet++
	outs := in.exec(m, []Val{iv.v}, nil, it.st.fork())
	in.quiet--
	in.mon = save
	if len(outs) != 1 || outs[0].panicked {
		fail("the value of the lexeme appended is not plain")
	}
	s, ok := outs[0].ret.(StrV)
	if !ok {
		fail("the value of the lexeme appended is not a string")
	}
	return s
}

func (k *cover) append(it *item, dst Val, elems []Val, site ssa.Instruction) {
	if v, ok := site.(ssa.Value); ok {
		sl, ok := v.Type().Underlying().(*types.Slice)
		if !ok || !k.c.in.mon.sink(sl.Elem()) {
			return
		}
	}
	if len(elems) == 0 {
		fail("what is appended is not known")
	}
	in := k.c.in
	for _, e := range elems {
		v := k.value(it, e)
		st := it.st
		switch {
		case v.text != nil && v.text.t == k.c.text:
			if !st.eq(v.text.lo, st.gi["cov"]) {
				if st.eq(v.text.lo, v.text.hi) {
					break
				}
				k.mismatch(it, v.text.lo, site)
			}
			st.gi["cov"] = v.text.hi
			if !st.le(v.text.hi, st.gi["m.lo"]) {
				k.forget(st)
			}
		case in.lzName[fmt.Sprintf("s%d", v.id)] != "" && v.konst == nil:
			// a marker
		case st.eq(v.ln, linC(0)) && v.konst != nil && !st.eq(st.gi["m.lo"], st.gi["cov"]):
		default:
			if !k.credit(st) {
				if os.Getenv("DBG") == "2" {
					fmt.Fprintln(os.Stderr, "U", k.c.p.InstrPos(site), in.show(st, v))
					k.debug(st)
				}
				st.gd["u"] = "1"
			}
		}
		if st.gd["d"] != "" && k.credit(st) {
			delete(st.gd, "d")
		}
	}
}

// key keeps states apart by which of the program's integers is the account.
func (k *cover) key(it *item) string {
	slot := false
	var ns []string
	for _, o := range it.st.heap {
		if o.kind != 'o' || o.lazy && !o.dirty {
			continue
		}
		sv, ok := o.val.(StructV)
		if !ok {
			continue
		}
		if n, ok := sv.typ.(*types.Named); !ok || n.Obj().Pkg() != k.c.lex.Pkg.Pkg {
			continue
		}
		var walk func(sv StructV, pre string)
		walk = func(sv StructV, pre string) {
			for i, f := range sv.fields {
				switch x := f.(type) {
				case IntV:
					if it.st.eq(x.e, it.st.gi["cov"]) {
						ns = append(ns, fmt.Sprintf("%s.%d", pre, i))
					}
					slot = slot || it.st.eq(x.e, it.st.gi["m.lo"])
				case StructV:
					walk(x, fmt.Sprintf("%s.%d", pre, i))
				}
			}
		}
		walk(sv, shortType(sv.typ))
	}
	if !slot && it.st.gd["d"] == "" && !it.st.eq(it.st.gi["m.lo"], it.st.gi["cov"]) {
		k.forget(it.st)
	}
	sort.Strings(ns)
	return strings.Join(ns, " ")
}

// place: the integer is something the program holds.
func (k *cover) place(it *item, e Lin) bool {
	if it.st.cons.norm(e).isConst() {
		return true
	}
	for _, o := range it.st.heap {
		if o.kind != 'o' || o.lazy && !o.dirty {
			continue
		}
		if k.holds(it.st, o.val, e) {
			return true
		}
	}
	return false
}

func (k *cover) holds(st *State, v Val, e Lin) bool {
	switch x := v.(type) {
	case IntV:
		return st.eq(x.e, e)
	case StrV:
		return x.text != nil && x.text.t == k.c.text && st.eq(x.text.lo, e)
	case StructV:
		for _, f := range x.fields {
			if k.holds(st, f, e) {
				return true
			}
		}
	}
	return false
}

func (k *cover) unsure(st *State, e Lin) bool {
	if st.gd["u"] != "" || st.gd["d"] != "" {
		k.unknown(st, "some of the text is accounted for in a way that is not followed")
		return true
	}
	if k.c.in.vague(st, e) {
		k.unknown(st, "where a lexeme starts is not followed")
		return true
	}
	return false
}

func (k *cover) debug(st *State) {
	if os.Getenv("DBG") != "" {
		s := ""
		for n, v := range st.gi {
			s += " " + n + "=" + k.c.in.showLin(st, v)
		}
		fmt.Fprintln(os.Stderr, "== ", s, st.gd, "\n", k.c.in.dumpState(st))
	}
}

func (k *cover) mismatch(it *item, x Lin, site ssa.Instruction) {
	st := it.st
	cov := st.gi["cov"]
	if k.unsure(st, cov) || k.unsure(st, x) {
		return
	}
	switch {
	case st.lt(cov, x):
		k.violate(st, k.c.p.InstrPos(site), "text before the lexeme appended is not accounted for")
	case st.lt(x, cov):
		k.violate(st, k.c.p.InstrPos(site), "the lexeme appended holds text already accounted for")
	case k.place(it, cov) && k.place(it, x) && !k.c.in.lostBool:
		k.violate(st, k.c.p.InstrPos(site), "the lexeme appended may not start where the last one ended")
	default:
		k.unknown(st, "where the lexeme appended starts is not followed")
	}
}

func (k *cover) end(o Outcome) {
	st := o.st
	cov := st.gi["cov"]
	if st.eq(cov, k.c.n) || k.unsure(st, cov) {
		return
	}
	it := &item{st: st}
	if st.lt(cov, k.c.n) || k.place(it, cov) && !k.c.in.lostBool {
		k.violate(st, k.c.p.InstrPos(o.site), "the end of the text may not be accounted for")
	}
	k.unknown(st, "how much of the text is accounted for is not followed")
}

// back: no turn of a loop loses the place reached.
func (k *cover) back(lp *loop, fn *ssa.Function, head *item, backs []*item) {
	rk := &ranking{c: k.c}
	where := func() string {
		for _, ins := range lp.head.Instrs {
			if ins.Pos().IsValid() {
				return k.c.p.InstrPos(ins)
			}
		}
		return k.c.p.Pos(fn.Pos())
	}
	kept := func(b *item, e Lin) bool { return k.place(b, e) || k.inEnv(b, lp, e) }
	for _, b := range backs {
		k.r.count("turns of loops", 1)
		st := b.st
		cov := st.gi["cov"]
		if st.gd["u"] != "" {
			continue
		}
		if m := st.gi["m.lo"]; st.gd["d"] != "" {
			if st.lt(cov, m) && !k.c.in.vague(st, m) && !k.c.in.vague(st, cov) && !kept(b, m) {
				k.violate(st, where(), "a turn of the loop in %s may pass over a discarded match with text before it not accounted for", shortFn(fn))
			}
			continue
		}
		if kept(b, cov) {
			continue
		}
		hp, bp := rk.places(head, lp.head), rk.places(b, lp.head)
		for n, h := range hp {
			t, ok := bp[n]
			if !ok || !strings.HasPrefix(n, "#") {
				continue
			}
			moved := false
			if head.st.eq(h, head.st.gi["cov"]) && !k.c.in.vague(st, cov) && !k.c.in.vague(st, t) {
				moved = st.eq(cov, head.st.gi["cov"]) && st.lt(cov, t) || st.lt(cov, t) && st.lt(head.st.gi["cov"], cov)
			}
			d := st.cons.norm(t.sub(cov))
			if moved || d.isConst() && d.c != 0 {
				k.violate(st, where(), "a turn of the loop in %s may go on without accounting for the text it consumed", shortFn(fn))
			}
		}
	}
}

func (k *cover) inEnv(it *item, lp *loop, e Lin) bool {
	for v, x := range it.env {
		i, ok := v.(ssa.Instruction)
		if ok && lp.blocks[i.Block()] && !isPhiOf(v, lp.head) {
			continue
		}
		if _, ok := v.Type().Underlying().(*types.Basic); ok && k.holds(it.st, x, e) {
			return true
		}
	}
	return false
}
