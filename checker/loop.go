package main

// Engine B, part 5: loops.  The states at a loop head are partitioned by their
// discrete part; within a partition they are joined until nothing changes.

import (
	"fmt"
	"go/token"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// leaf describes the discrete part of a value.
func (in *Interp) leaf(st *State, bv, v Val, b *strings.Builder) {
	if l, ok := v.(LazyV); ok {
		if m, ok := bv.(LazyV); ok && m.id == l.id {
			return
		}
		m := in.memo[l.id]
		if m == nil {
			b.WriteByte('?')
			return
		}
		v = m.v
	}
	if l, ok := bv.(LazyV); ok {
		if m := in.memo[l.id]; m != nil {
			bv = m.v
		}
	}
	switch x := v.(type) {
	case BoolV:
		fmt.Fprintf(b, "%d", st.truth(x.f))
	case NilV:
		b.WriteByte('N')
	case PtrV, SliceV, MapV:
		r := refOf(v)
		if r != 0 && refOf(bv) == r && !in.mon.plainKey {
			b.WriteByte('=')
			return
		}
		n, known := st.nils[r]
		switch {
		case r == 0 || known && !n:
			b.WriteByte('p')
		case known:
			b.WriteByte('N')
		default:
			b.WriteByte('?')
		}
	case IfaceV:
		if x.dyn != nil {
			b.WriteString("I" + shortType(x.dyn))
			if r := refOf(x.v); r != 0 {
				if n, known := st.nils[r]; !known || n {
					b.WriteByte('?')
				}
			} else if _, ok := x.v.(NilV); ok {
				b.WriteByte('N')
			}
			return
		}
		n, known := st.nils[x.sym]
		switch {
		case known && n:
			b.WriteByte('N')
		case known:
			b.WriteByte('i')
		default:
			b.WriteByte('?')
		}
	case FuncV:
		if x.fn != nil {
			b.WriteString(x.fn.String())
		} else {
			b.WriteByte('f')
		}
	case StructV:
		bs, _ := bv.(StructV)
		b.WriteByte('{')
		for i, f := range x.fields {
			var bf Val
			if i < len(bs.fields) {
				bf = bs.fields[i]
			}
			in.leaf(st, bf, f, b)
			b.WriteByte(',')
		}
		b.WriteByte('}')
	case TupleV:
		for _, f := range x.vs {
			in.leaf(st, nil, f, b)
			b.WriteByte(',')
		}
	}
}

// itemKey is the discrete part of a state, relative to an earlier one.
func (in *Interp) itemKey(base, it *item, vs []Val) string {
	var b strings.Builder
	for _, v := range vs {
		in.leaf(it.st, nil, v, &b)
		b.WriteByte(';')
	}
	var ids []int
	for id := range base.st.heap {
		if it.st.heap[id] != base.st.heap[id] && it.st.heap[id] != nil {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	for _, id := range ids {
		o := it.st.heap[id]
		if in.mon.plainKey && o.lazy && !o.dirty {
			continue
		}
		if o.kind == 'o' {
			bv := base.st.heap[id].val
			var x, y strings.Builder
			in.leaf(it.st, bv, o.val, &x)
			if in.mon.plainKey {
				in.leaf(base.st, bv, bv, &y)
				if x.String() == y.String() {
					continue
				}
			}
			fmt.Fprintf(&b, "#%d", id)
			b.WriteString(x.String())
		}
	}
	b.WriteString(in.ghostKey(it))
	return b.String()
}

func (in *Interp) ghostKey(it *item) string {
	var ks []string
	for k, v := range it.st.gd {
		ks = append(ks, k+"="+v)
	}
	sort.Strings(ks)
	r := "|" + strings.Join(ks, ",")
	if in.mon.key != nil {
		r += "|" + in.mon.key(it)
	}
	return r
}

// skolemKey tells where the loop's integers are relative to the tracked indices.
func (in *Interp) skolemKey(it *item, vs []Val) string {
	var b strings.Builder
	for _, k := range in.mon.tracked {
		for _, v := range vs {
			if sl, ok := v.(SliceV); ok {
				v = IntV{sl.off}
			}
			if i, ok := v.(IntV); ok {
				switch {
				case it.st.lt(i.e, k):
					b.WriteByte('<')
				case it.st.lt(k, i.e):
					b.WriteByte('>')
				case it.st.eq(k, i.e):
					b.WriteByte('=')
				case it.st.le(i.e, k):
					b.WriteByte('l')
				case it.st.le(k, i.e):
					b.WriteByte('g')
				default:
					b.WriteByte('?')
				}
			}
		}
	}
	return b.String()
}

type headRec struct {
	it    *item
	n     int
	dirty bool
	key   string
}

var loopDebug = os.Getenv("LOOPDBG") != ""

func (in *Interp) runLoop(fr *bframe, lp *loop, it *item) (map[*ssa.BasicBlock][]*item, []Outcome) {
	exits := map[*ssa.BasicBlock][]*item{}
	var outs []Outcome
	take := func(so scopeOut) {
		for s, xs := range so.exits {
			exits[s] = append(exits[s], xs...)
		}
		outs = append(outs, so.outs...)
	}
	base := it.fork()
	base.clk = in.clock
	wm := in.clock
	in.clock++
	var phis []*ssa.Phi
	for _, ins := range lp.head.Instrs {
		if p, ok := ins.(*ssa.Phi); ok {
			phis = append(phis, p)
		}
	}
	inside := func(v ssa.Value) bool {
		i, ok := v.(ssa.Instruction)
		if !ok || i.Block() == nil || !lp.blocks[i.Block()] || i.Parent() != fr.fn {
			return true // defined outside
		}
		for _, p := range phis {
			if v == ssa.Value(p) {
				return true
			}
		}
		return false
	}
	live := in.live(fr)
	keepVal := func(v ssa.Value) bool { return inside(v) && (live[lp.head][v] || isPhiOf(v, lp.head)) }
	entries := []*item{it}
	if in.mon.peel != nil && in.mon.peel(fr.fn, lp) {
		so := in.runScope(fr, lp, lp.head, it)
		back := so.back
		so.back = nil
		take(so)
		entries = back
	}
	if in.mon.plainKey {
		for n := max2(in.mon.unroll, in.trips(it, lp, phis)); n > 0 && len(entries) > 0; n-- {
			var backs []*item
			for _, e := range entries {
				so := in.runScope(fr, lp, lp.head, e)
				backs = append(backs, so.back...)
				so.back = nil
				take(so)
			}
			entries = backs
		}
		if len(entries) == 0 {
			return exits, outs
		}
	}
	// integers that move by the same step every time round are what indices are
	// made of; when there are some, only they are compared with the tracked ones
	var counters map[*ssa.Phi]bool
	for _, p := range phis {
		if isCounter(p, lp) {
			if counters == nil {
				counters = map[*ssa.Phi]bool{}
			}
			counters[p] = true
		}
	}
	coarse := false
	var heads []*headRec
	index := map[string]*headRec{}
	key := func(x *item) string {
		if coarse {
			return in.ghostKey(x)
		}
		var vs []Val
		for _, p := range phis {
			vs = append(vs, x.env[p])
		}
		if counters != nil {
			vs2 := vs[:0:0]
			for i, p := range phis {
				if counters[p] {
					vs2 = append(vs2, vs[i])
				} else if _, ok := vs[i].(SliceV); ok {
					vs2 = append(vs2, vs[i])
				}
			}
			return in.itemKey(base, x, vs) + in.skolemKey(x, vs2)
		}
		return in.itemKey(base, x, vs) + in.skolemKey(x, vs)
	}
	add := func(x *item) {
		if in.mon.onHead != nil {
			x = x.fork()
			in.mon.onHead(x, wm)
		}
		k := key(x)
		h := index[k]
		if h == nil {
			n := x.fork()
			n.clk = base.clk
			for v := range n.env {
				if !keepVal(v) {
					delete(n.env, v)
				}
			}
			h = &headRec{it: n, dirty: true, key: k}
			index[k] = h
			heads = append(heads, h)
			if loopDebug {
				fmt.Fprintf(os.Stderr, "%s loop %s b%d: new head %q\n", strings.Repeat(" ", len(in.stack)), shortFn(fr.fn), lp.head.Index, k)
			}
			return
		}
		in.joinN = h.n
		n, why := in.joinItems2(base, wm, h.it, x, keepVal, h.n >= 3 || in.mon.plainKey && h.n >= 1)
		if why == "" {
			return
		}
		if loopDebug {
			fmt.Fprintf(os.Stderr, "%s loop %s b%d: head %q changes (%d): %s\n", strings.Repeat(" ", len(in.stack)), shortFn(fr.fn), lp.head.Index, k, h.n, why)
		}
		if loopDebug && os.Getenv("LOOPDBG") == "2" {
			fmt.Fprintf(os.Stderr, "== a\n%s== x\n%s== now\n%s", in.dumpState(h.it.st), in.dumpState(x.st), in.dumpState(n.st))
		}
		h.n++
		h.it = n
		h.dirty = true
		if h.n > 20 {
			fail("no loop invariant found in %s: %s", shortFn(fr.fn), why)
		}
	}
	restart := func() {
		coarse = true
		old := heads
		heads, index = nil, map[string]*headRec{}
		for _, h := range old {
			add(h.it)
		}
	}
	for _, e := range entries {
		add(e)
	}
	in.quiet++
	for rounds := 0; ; rounds++ {
		var h *headRec
		for _, x := range heads {
			if x.dirty {
				h = x
				break
			}
		}
		if h == nil {
			break
		}
		if rounds > 200 {
			fail("no loop invariant found in %s", shortFn(fr.fn))
		}
		h.dirty = false
		from := h.it
		so := in.runScope(fr, lp, lp.head, h.it.fork())
		if in.mon.eager {
			in.mon.onBack(lp, fr.fn, from, so.back)
		}
		for _, b := range so.back {
			add(b)
		}
		if len(heads) > 24 && !coarse {
			restart()
		}
	}
	in.quiet--
	for _, h := range heads {
		start := h.it.fork()
		start.clk = base.clk
		so := in.runScope(fr, lp, lp.head, start)
		if in.mon.onBack != nil && (in.quiet == 0 || in.mon.eager) {
			in.mon.onBack(lp, fr.fn, h.it, so.back)
		}
		so.back = nil
		take(so)
	}
	return exits, outs
}

func isPhiOf(v ssa.Value, b *ssa.BasicBlock) bool {
	p, ok := v.(*ssa.Phi)
	return ok && p.Block() == b
}

// live is the set of values needed at the start of each block.
func (in *Interp) live(fr *bframe) map[*ssa.BasicBlock]map[ssa.Value]bool {
	if fr.live != nil {
		return fr.live
	}
	live := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fr.rpo {
		live[b] = map[ssa.Value]bool{}
	}
	for ch := true; ch; {
		ch = false
		for i := len(fr.rpo) - 1; i >= 0; i-- {
			b := fr.rpo[i]
			cur := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range live[s] {
					if !isPhiOf(v, s) {
						cur[v] = true
					}
				}
				for k, p := range s.Preds {
					if p != b {
						continue
					}
					for _, ins := range s.Instrs {
						if ph, ok := ins.(*ssa.Phi); ok {
							cur[ph.Edges[k]] = true
						}
					}
				}
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				ins := b.Instrs[k]
				if v, ok := ins.(ssa.Value); ok {
					delete(cur, v)
				}
				if _, ok := ins.(*ssa.Phi); ok {
					continue
				}
				for _, op := range ins.Operands(nil) {
					if *op != nil {
						cur[*op] = true
					}
				}
			}
			for v := range cur {
				if !live[b][v] {
					live[b][v] = true
					ch = true
				}
			}
		}
	}
	fr.live = live
	return live
}

func isCounter(p *ssa.Phi, lp *loop) bool {
	var step ssa.Value
	var op token.Token
	for i, e := range p.Edges {
		if !lp.blocks[p.Block().Preds[i]] {
			continue
		}
		b, ok := e.(*ssa.BinOp)
		if !ok || b.X != ssa.Value(p) || b.Op != token.ADD && b.Op != token.SUB {
			return false
		}
		c, ok := b.Y.(*ssa.Const)
		if !ok || c.Value == nil {
			return false
		}
		if step != nil && (op != b.Op || c.Value.ExactString() != step.(*ssa.Const).Value.ExactString()) {
			return false
		}
		step, op = c, b.Op
	}
	return step != nil
}

// trips is how often a loop that counts up to a small known number goes round,
// with the last test; 0 if that is not known.
func (in *Interp) trips(it *item, lp *loop, phis []*ssa.Phi) int {
	for _, p := range phis {
		if !isCounter(p, lp) {
			continue
		}
		for b := range lp.blocks {
			for _, ins := range b.Instrs {
				x, ok := ins.(*ssa.BinOp)
				if !ok || x.Op != token.LSS {
					continue
				}
				y, ok := x.X.(*ssa.BinOp) // a range loop tests the number after adding one
				if x.X != ssa.Value(p) && !(ok && y.Op == token.ADD && y.X == ssa.Value(p)) {
					continue
				}
				if i, ok := x.Y.(ssa.Instruction); ok && lp.blocks[i.Block()] {
					continue
				}
				v, ok := in.eval(it, x.Y).(IntV)
				if !ok {
					continue
				}
				if e := it.st.cons.norm(v.e); len(e.t) == 0 && e.c >= 0 && e.c <= 4 {
					return int(e.c) + 1
				}
			}
		}
	}
	return 0
}
