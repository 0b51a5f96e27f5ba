package main

// Engine B, part 3: calls, builtins and models of the standard library.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (in *Interp) call(it *item, x ssa.CallInstruction) ([]res, []Outcome) {
	c := x.Common()
	var args []Val
	if c.IsInvoke() {
		recv := in.eval(it, c.Value)
		for _, a := range c.Args {
			args = append(args, in.eval(it, a))
		}
		iv, ok := recv.(IfaceV)
		if !ok {
			return nil, nil // call on a nil interface ends this path
		}
		if iv.dyn == nil {
			in.nonNil(it.st, iv)
			if it.st.nils[iv.sym] {
				return nil, nil
			}
			if d, ok := it.st.dyns[iv.sym]; ok {
				iv = IfaceV{dyn: d.dyn, v: d.v, sym: iv.sym}
			}
		}
		if iv.dyn != nil {
			if in.mon.onInvoke != nil {
				if rs, ok := in.mon.onInvoke(it, iv, c.Method, args, x); ok {
					return rs, nil
				}
			}
			fn := in.p.SSA.LookupMethod(iv.dyn, c.Method.Pkg(), c.Method.Name())
			if fn == nil {
				fail("no method %s on %s", c.Method.Name(), iv.dyn)
			}
			return in.callFn(it, fn, append([]Val{in.force(it.st, iv.v)}, args...), nil, x)
		}
		if in.mon.onInvoke != nil {
			if rs, ok := in.mon.onInvoke(it, iv, c.Method, args, x); ok {
				return rs, nil
			}
		}
		return []res{{it, in.pureInvoke(it, iv, c.Method, args)}}, nil
	}
	for _, a := range c.Args {
		args = append(args, in.eval(it, a))
	}
	switch f := c.Value.(type) {
	case *ssa.Builtin:
		return in.builtin(it, f.Name(), args, x), nil
	case *ssa.Function:
		return in.callFn(it, f, args, nil, x)
	}
	v := in.eval(it, c.Value)
	fv, ok := v.(FuncV)
	if !ok {
		return nil, nil // nil function
	}
	if fv.fn != nil {
		return in.callFn(it, fv.fn, args, fv.binds, x)
	}
	in.nonNil(it.st, fv)
	if it.st.nils[fv.sym] {
		return nil, nil
	}
	if in.mon.onFuncV != nil {
		if rs, ok := in.mon.onFuncV(it, fv, args, x); ok {
			return rs, nil
		}
	}
	in.havoc(it.st, args...)
	return []res{{it, in.unknownRes(it.st, c.Signature(), "call")}}, nil
}

func (in *Interp) unknownRes(st *State, sig *types.Signature, name string) Val {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return in.unknown(st, sig.Results().At(0).Type(), name)
	}
	var tv TupleV
	for i := 0; i < sig.Results().Len(); i++ {
		tv.vs = append(tv.vs, in.unknown(st, sig.Results().At(i).Type(), name))
	}
	return tv
}

// pureInvoke: a method of an unknown implementation gives the same answer to
// the same arguments.
func (in *Interp) pureInvoke(it *item, iv IfaceV, m *types.Func, args []Val) Val {
	sig := m.Type().(*types.Signature)
	if sig.Results().Len() == 0 {
		return nil
	}
	k := fmt.Sprintf("%d.%s(", iv.sym, m.Name())
	for _, a := range args {
		k += in.canon(it.st, a) + ","
	}
	l, ok := in.pureInv[k]
	if !ok {
		st := max2(1, in.idStamp[iv.sym])
		for _, a := range args {
			st = max2(st, in.stampOf(a))
		}
		in.at(st, func() {
			if sig.Results().Len() == 1 {
				l = in.lazy(sig.Results().At(0).Type(), m.Name())
			} else {
				l = in.lazy(sig.Results(), m.Name())
			}
		})
		in.pureInv[k] = l
	}
	return in.mat(it.st, l.(LazyV))
}

func (in *Interp) callFn(it *item, fn *ssa.Function, args, binds []Val, x ssa.CallInstruction) ([]res, []Outcome) {
	if in.mon.onCall != nil {
		if rs, ok := in.mon.onCall(it, fn, args, x); ok {
			return rs, nil
		}
	}
	if fn.Blocks != nil && in.p.InModule(fn) {
		if in.active(fn) {
			if in.mon.recur != nil {
				if rs, ok := in.mon.recur(it, fn, args, x); ok {
					return rs, nil
				}
			}
			fail("recursion through %s", shortFn(fn))
		}
		outs := in.exec(fn, args, binds, it.st)
		var rs []res
		var os []Outcome
		for _, o := range outs {
			if o.panicked {
				os = append(os, o)
				continue
			}
			n := &item{st: o.st, env: make(map[ssa.Value]Val, len(it.env))}
			for k, v := range it.env {
				n.env[k] = v
			}
			rs = append(rs, res{n, o.ret})
		}
		return rs, os
	}
	return in.ext(it, fn, args, x), nil
}

// havoc forgets everything reachable from the values.
func (in *Interp) havoc(st *State, vs ...Val) {
	seen := map[int]bool{}
	var walk func(v Val)
	obj := func(id int) {
		if id == 0 || seen[id] || st.heap[id] == nil {
			return
		}
		seen[id] = true
		o := st.mut(id)
		o.dirty = true
		switch o.kind {
		case 'o':
			walk(o.val)
			o.val = in.lazy(o.typ, o.name)
		case 'a':
			for _, s := range o.segs {
				if s.kind == sgVal {
					walk(s.v)
				}
			}
			for _, e := range o.elems {
				walk(e.v)
			}
			o.segs = []Seg{{lo: linC(0), hi: o.n, kind: sgSum}}
			o.tag = ""
			o.elems = nil
			o.epoch = in.id()
		case 'm':
			for _, e := range o.ks {
				walk(e.v)
			}
			o.ks, o.lazy, o.info = nil, true, in.id()
		}
	}
	walk = func(v Val) {
		switch x := v.(type) {
		case PtrV:
			obj(x.obj)
		case SliceV:
			obj(x.arr)
		case MapV:
			obj(x.obj)
		case IfaceV:
			if x.dyn != nil {
				walk(x.v)
			} else if d, ok := st.dyns[x.sym]; ok {
				walk(d.v)
			}
		case FuncV:
			for _, b := range x.binds {
				walk(b)
			}
		case StructV:
			for _, f := range x.fields {
				walk(f)
			}
		case TupleV:
			for _, f := range x.vs {
				walk(f)
			}
		}
	}
	for _, v := range vs {
		walk(v)
	}
}

// ---- builtins ----

func (in *Interp) builtin(it *item, name string, args []Val, x ssa.CallInstruction) []res {
	switch name {
	case "len":
		switch v := args[0].(type) {
		case SliceV:
			if v.arr == in.sink && in.sink != 0 {
				return []res{{it, IntV{in.vagueInt(it.st)}}}
			}
			return []res{{it, IntV{v.ln}}}
		case StrV:
			return []res{{it, IntV{v.ln}}}
		case NilV:
			return []res{{it, IntV{linC(0)}}}
		case MapV:
			n := in.symV("maplen")
			it.st.cons.addGE(n)
			return []res{{it, IntV{n}}}
		case PtrV:
			return []res{{it, IntV{it.st.heap[v.obj].n}}}
		}
	case "cap":
		switch v := args[0].(type) {
		case SliceV:
			if v.arr == in.sink && in.sink != 0 {
				return []res{{it, IntV{in.vagueInt(it.st)}}}
			}
			return []res{{it, IntV{v.cp}}}
		case NilV:
			return []res{{it, IntV{linC(0)}}}
		}
	case "append":
		return in.appendOp(it, args[0], args[1], x)
	case "copy":
		return in.copyOp(it, args[0], args[1])
	case "delete":
		if mv, ok := args[0].(MapV); ok {
			m := it.st.mut(mv.obj)
			var ks []mapEntry
			for _, e := range m.ks {
				f := in.equal(it.st, e.k, args[1])
				if it.st.truth(f) < 0 {
					ks = append(ks, e)
				} else if it.st.truth(f) == 0 {
					m.lazy = true
					m.info = in.id()
				}
			}
			m.ks = append(ks, mapEntry{k: args[1], v: TopV{}, ok: constForm(false), set: true})
		}
		return []res{{it, nil}}
	case "print", "println":
		return []res{{it, nil}}
	case "min", "max":
		cur := []res{{it, args[0]}}
		for _, a := range args[1:] {
			var nxt []res
			for _, r := range cur {
				p, ok1 := r.v.(IntV)
				q, ok2 := a.(IntV)
				if !ok1 || !ok2 {
					nxt = append(nxt, res{r.it, in.unknown(r.it.st, x.Value().Type(), name)})
					continue
				}
				t, e := in.branch(r.it, Form{kind: fGE, e: q.e.sub(p.e)})
				if t != nil {
					v := p
					if name == "max" {
						v = q
					}
					nxt = append(nxt, res{t, v})
				}
				if e != nil {
					v := q
					if name == "max" {
						v = p
					}
					nxt = append(nxt, res{e, v})
				}
			}
			cur = nxt
		}
		return cur
	case "ssa:wrapnilchk":
		if _, isNil := args[0].(NilV); isNil {
			return nil
		}
		in.nonNil(it.st, args[0])
		return []res{{it, args[0]}}
	case "clear":
		in.havoc(it.st, args[0])
		return []res{{it, nil}}
	}
	fail("builtin %s", name)
	return nil
}

// clip lists the content of arr between lo and hi, moved so that lo is at base.
func (in *Interp) clip(it *item, id int, lo, hi, base Lin, f func(it *item, ps []Seg)) {
	in.clipFrom(it, id, lo, hi, base, 0, nil, f)
}

func (in *Interp) clipFrom(it *item, id int, lo, hi, base Lin, from int, acc []Seg, f func(it *item, ps []Seg)) {
	o := it.st.heap[id]
	for i := from; i < len(o.segs); i++ {
		s := o.segs[i]
		a, b := s.lo, s.hi
		// a' = max(a,lo), b' = min(b,hi)
		if s.kind == sgGroups && it.st.le(lo, a) && it.st.le(b, hi) && it.st.eq(lo, base) {
			acc = append(acc, s) // kept even when there are none
			continue
		}
		if it.st.le(b, lo) || it.st.le(hi, a) || it.st.le(b, a) {
			continue
		}
		for _, q := range []struct {
			x, y Lin
		}{{a, lo}, {hi, b}, {lo, b}, {a, hi}} {
			fm := Form{kind: fGE, e: q.y.sub(q.x)}
			if it.st.truth(fm) == 0 {
				t, e := in.branch(it, fm)
				if t != nil {
					in.clipFrom(t, id, lo, hi, base, i, append([]Seg(nil), acc...), f)
				}
				if e != nil {
					in.clipFrom(e, id, lo, hi, base, i, append([]Seg(nil), acc...), f)
				}
				return
			}
		}
		if it.st.le(b, lo) || it.st.le(hi, a) {
			continue
		}
		if it.st.le(a, lo) {
			a = lo
		}
		if it.st.le(hi, b) {
			b = hi
		}
		n := s
		n.lo, n.hi = a.sub(lo).add(base), b.sub(lo).add(base)
		if s.kind == sgOrig {
			n.delta = s.delta.add(lo).sub(base)
		}
		if s.kind == sgGroups && !it.st.eq(lo, base) {
			n.kind, n.alts = sgSum, nil
		}
		acc = append(acc, n)
	}
	f(it, acc)
}

// replace overwrites [lo,hi) of an array with pieces already in place.
func (in *Interp) replace(it *item, id int, lo, hi Lin, ps []Seg, f func(it *item)) {
	o := it.st.heap[id]
	in.clip(it, id, linC(0), lo, linC(0), func(it *item, head []Seg) {
		in.clip(it, id, hi, o.n, hi, func(it *item, tail []Seg) {
			m := it.st.mut(id)
			m.dirty = true
			segs := append([]Seg(nil), head...)
			segs = append(segs, ps...)
			m.segs = append(segs, tail...)
			f(it)
		})
	})
}

func (in *Interp) appendOp(it *item, dst, src Val, x ssa.CallInstruction) []res {
	var sl SliceV
	switch s := src.(type) {
	case NilV:
		return []res{{it, dst}}
	case StrV:
		// append([]byte, string...)
		id := in.id()
		it.st.heap[id] = &Obj2{typ: types.Typ[types.Byte], kind: 'a', fresh: true, n: s.ln, segs: []Seg{{lo: linC(0), hi: s.ln, kind: sgSum}}}
		sl = SliceV{arr: id, off: linC(0), ln: s.ln, cp: s.ln}
	case SliceV:
		sl = s
	default:
		fail("append of %T", src)
	}
	if elem := x.Value().Type().Underlying().(*types.Slice).Elem(); in.mon.sink != nil && in.mon.sink(elem) {
		if d, ok := dst.(SliceV); ok && d.arr != in.sink {
			if n, known := it.st.nils[d.arr]; !known || !n {
				fail("append to a list from elsewhere")
			}
		}
		if sl.arr == in.sink && in.sink != 0 {
			fail("append of a list that is not kept")
		}
		var out []res
		in.clip(it, sl.arr, sl.off, sl.off.add(sl.ln), linC(0), func(it *item, ps []Seg) {
			for _, p := range ps {
				if p.kind != sgVal {
					fail("append of unknown elements")
				}
				in.mon.onAppend(it, nil, []Val{in.force(it.st, p.v)}, x)
			}
			out = append(out, res{it, in.sinkVal(it.st, elem)})
		})
		return out
	}
	if _, isNil := dst.(NilV); isNil {
		// append(nil, nothing) is nil
		var out []res
		t, e := in.branch(it, Form{kind: fGE, e: sl.ln.plus(-1)})
		if e != nil {
			out = append(out, res{e, NilV{}})
		}
		if t != nil {
			out = append(out, in.appendTo(t, SliceV{off: linC(0), ln: linC(0), cp: linC(0)}, sl, x)...)
		}
		return out
	}
	d, ok := dst.(SliceV)
	if !ok {
		fail("append to %T", dst)
	}
	return in.appendTo(it, d, sl, x)
}

// sinkVal stands for every list whose elements are not kept.
func (in *Interp) sinkVal(st *State, elem types.Type) Val {
	if in.sink == 0 {
		in.at(1, func() {
			in.sink = in.id()
			in.sinkLn = in.symV("sinklen")
		})
		in.objInit[in.sink] = &Obj2{typ: elem, kind: 'a', name: "sink", tag: "sink", n: in.sinkLn, segs: []Seg{{lo: linC(0), hi: in.sinkLn, kind: sgSum}}}
	}
	if st.heap[in.sink] == nil {
		st.heap[in.sink] = in.objInit[in.sink]
		st.nils[in.sink] = false
	}
	return SliceV{arr: in.sink, off: linC(0), ln: in.sinkLn, cp: in.sinkLn}
}

func (in *Interp) vagueInt(st *State) Lin {
	n := in.symV("any")
	st.cons.addGE(n)
	return n
}

func (in *Interp) appendTo(it *item, d, s SliceV, x ssa.CallInstruction) []res {
	var out []res
	elem := x.Value().Type().Underlying().(*types.Slice).Elem()
	if d.arr != 0 {
		if n, known := it.st.nils[d.arr]; known && n {
			d = SliceV{off: linC(0), ln: linC(0), cp: linC(0)}
		}
	}
	in.clip(it, s.arr, s.off, s.off.add(s.ln), d.ln, func(it *item, ps []Seg) {
		total := d.ln.add(s.ln)
		if in.mon.onAppend != nil {
			var es []Val
			for _, p := range ps {
				if p.kind == sgVal {
					es = append(es, p.v)
				} else {
					es = append(es, nil)
				}
			}
			in.mon.onAppend(it, d, es, x)
		}
		fresh := func(it *item) {
			if d.arr == 0 {
				out = append(out, res{it, in.newArr(it, elem, ps, total)})
				return
			}
			src := it.st.heap[d.arr]
			in.clip(it, d.arr, d.off, d.off.add(d.ln), linC(0), func(it *item, hs []Seg) {
				v := in.newArr(it, elem, append(append([]Seg(nil), hs...), ps...), total)
				if src.tag == "match" {
					m := it.st.mut(v.arr)
					m.tag, m.text, m.gidx, m.span = src.tag, src.text, src.gidx, src.span
				}
				out = append(out, res{it, v})
			})
		}
		if d.arr == 0 {
			fresh(it)
			return
		}
		t, e := in.branch(it, Form{kind: fGE, e: d.cp.sub(total)})
		if e != nil {
			fresh(e)
		}
		if t != nil {
			// in place
			var qs []Seg
			for _, p := range ps {
				p.lo, p.hi = p.lo.add(d.off), p.hi.add(d.off)
				if p.kind == sgOrig {
					p.delta = p.delta.sub(d.off)
				}
				qs = append(qs, p)
			}
			in.replace(t, d.arr, d.off.add(d.ln), d.off.add(total), qs, func(it *item) {
				out = append(out, res{it, SliceV{arr: d.arr, off: d.off, ln: total, cp: d.cp}})
			})
		}
	})
	return out
}

func (in *Interp) newArr(it *item, elem types.Type, segs []Seg, n Lin) SliceV {
	id := in.id()
	it.st.heap[id] = &Obj2{typ: elem, kind: 'a', fresh: true, name: "append", n: n, segs: append([]Seg(nil), segs...)}
	it.st.owned[id] = true
	it.st.nils[id] = false
	return SliceV{arr: id, off: linC(0), ln: n, cp: n}
}

func (in *Interp) copyOp(it *item, dst, src Val) []res {
	d, ok := dst.(SliceV)
	if !ok {
		return []res{{it, IntV{linC(0)}}}
	}
	var s SliceV
	switch v := src.(type) {
	case NilV:
		return []res{{it, IntV{linC(0)}}}
	case StrV:
		id := in.id()
		it.st.heap[id] = &Obj2{typ: types.Typ[types.Byte], kind: 'a', fresh: true, n: v.ln, segs: []Seg{{lo: linC(0), hi: v.ln, kind: sgSum}}}
		s = SliceV{arr: id, off: linC(0), ln: v.ln, cp: v.ln}
	case SliceV:
		s = v
	}
	var out []res
	do := func(it *item, n Lin) {
		in.clip(it, s.arr, s.off, s.off.add(n), d.off, func(it *item, ps []Seg) {
			in.replace(it, d.arr, d.off, d.off.add(n), ps, func(it *item) {
				out = append(out, res{it, IntV{n}})
			})
		})
	}
	t, e := in.branch(it, Form{kind: fGE, e: d.ln.sub(s.ln)})
	if t != nil {
		do(t, s.ln)
	}
	if e != nil {
		do(e, d.ln)
	}
	return out
}

// ---- the standard library ----

func (in *Interp) ext(it *item, fn *ssa.Function, args []Val, x ssa.CallInstruction) []res {
	name := fn.String()
	sig := fn.Signature
	two := func(a, b func(*item) Val) []res {
		o := it.fork()
		va := a(it)
		vb := b(o)
		return []res{{it, va}, {o, vb}}
	}
	iface := func(nonNil bool) func(*item) Val {
		return func(it *item) Val {
			v := in.unknown(it.st, types.Universe.Lookup("error").Type(), "err")
			it.st.nils[v.(IfaceV).sym] = !nonNil
			return v
		}
	}
	switch name {
	case "errors.New", "fmt.Errorf":
		return []res{{it, iface(true)(it)}}
	case "regexp.Compile", "regexp.CompilePOSIX":
		return two(func(it *item) Val {
			p := in.unknown(it.st, sig.Results().At(0).Type(), "re")
			in.nonNil(it.st, p)
			return TupleV{[]Val{p, NilV{}}}
		}, func(it *item) Val {
			return TupleV{[]Val{NilV{}, iface(true)(it)}}
		})
	case "regexp.MustCompile", "regexp.MustCompilePOSIX":
		p := in.unknown(it.st, sig.Results().At(0).Type(), "re")
		in.nonNil(it.st, p)
		return []res{{it, p}}
	case "strconv.Atoi", "strconv.ParseInt", "strconv.ParseFloat", "strconv.ParseUint", "strconv.ParseBool", "strconv.Unquote":
		v := in.unknown(it.st, sig.Results().At(0).Type(), "num")
		return two(func(it *item) Val { return TupleV{[]Val{v, NilV{}}} },
			func(it *item) Val { return TupleV{[]Val{v, iface(true)(it)}} })
	case "(*regexp.Regexp).FindIndex", "(*regexp.Regexp).FindStringIndex":
		return in.search(it, args[0], args[1], false)
	case "(*regexp.Regexp).FindSubmatchIndex", "(*regexp.Regexp).FindStringSubmatchIndex":
		return in.search(it, args[0], args[1], true)
	case "strings.Count":
		n := in.symV("count")
		it.st.cons.addGE(n)
		return []res{{it, IntV{n}}}
	case "strings.Index", "strings.LastIndex", "strings.IndexByte", "strings.LastIndexByte", "strings.IndexRune", "strings.IndexAny", "bytes.Index", "bytes.LastIndex", "bytes.IndexByte", "bytes.LastIndexByte":
		n := in.symV("index")
		it.st.cons.addGE(n.plus(1))
		if s, ok := args[0].(StrV); ok {
			it.st.cons.addGE(s.ln.sub(n))
		}
		if s, ok := args[0].(SliceV); ok {
			it.st.cons.addGE(s.ln.sub(n))
		}
		return []res{{it, IntV{n}}}
	case "strings.Split":
		v := in.unknown(it.st, sig.Results().At(0).Type(), "split").(SliceV)
		it.st.nils[v.arr] = false
		if s, ok := args[1].(StrV); ok && s.konst != nil && *s.konst != "" {
			it.st.cons.addGE(v.ln.plus(-1))
		}
		return []res{{it, v}}
	case "strings.TrimSpace", "strings.TrimLeft", "strings.TrimRight", "strings.Trim", "strings.ToLower", "strings.ToUpper":
		return []res{{it, in.pureExt(it, fn, args)}}
	}
	if strings.HasPrefix(name, "sort.") || strings.HasPrefix(name, "slices.Sort") || strings.HasPrefix(name, "slices.Reverse") {
		in.havoc(it.st, args...)
	}
	v := in.unknownRes(it.st, sig, fn.Name())
	return []res{{it, v}}
}

func (in *Interp) pureExt(it *item, fn *ssa.Function, args []Val) Val {
	k := fn.String() + "("
	for _, a := range args {
		k += in.canon(it.st, a) + ","
	}
	l, ok := in.pureInv[k]
	if !ok {
		st := 1
		for _, a := range args {
			st = max2(st, in.stampOf(a))
		}
		in.at(st, func() { l = in.lazy(fn.Signature.Results().At(0).Type(), fn.Name()) })
		in.pureInv[k] = l
	}
	return in.mat(it.st, l.(LazyV))
}

// search models a regular expression search: nothing, or a match inside the
// subject with start and end relative to it.
func (in *Interp) search(it *item, re, subj Val, sub bool) []res {
	var sl SliceV
	var text *textRef
	switch s := subj.(type) {
	case SliceV:
		sl = s
		if o := it.st.heap[s.arr]; o.tag == "text" && o.text != nil {
			text = &textRef{o.text.t, o.text.lo.add(s.off), o.text.lo.add(s.off).add(s.ln)}
		}
	case StrV:
		sl = SliceV{off: linC(0), ln: s.ln, cp: s.ln}
		text = s.text
		if text == nil {
			text = &textRef{s.id, linC(0), s.ln}
		}
	case NilV:
		sl = SliceV{off: linC(0), ln: linC(0), cp: linC(0)}
	}
	no := it.fork()
	if in.mon.onSearch != nil {
		in.mon.onSearch(no, re, sl, false, 0)
	}
	a, b := in.symV("lo"), in.symV("hi")
	it.st.cons.addGE(a)
	it.st.cons.addGE(b.sub(a))
	it.st.cons.addGE(sl.ln.sub(b))
	n := linC(2)
	segs := []Seg{{lo: linC(0), hi: linC(1), kind: sgVal, v: IntV{a}}, {lo: linC(1), hi: linC(2), kind: sgVal, v: IntV{b}}}
	if sub {
		n = in.symV("nloc")
		it.st.cons.addGE(n.plus(-2))
		segs = append(segs, Seg{lo: linC(2), hi: n, kind: sgGroups})
	}
	id := in.id()
	it.st.heap[id] = &Obj2{typ: types.Typ[types.Int], kind: 'a', fresh: true, name: "loc", tag: "match", n: n, segs: segs, text: text}
	if text != nil {
		it.st.heap[id].span = &textRef{text.t, text.lo.add(a), text.lo.add(b)}
	}
	it.st.owned[id] = true
	it.st.nils[id] = false
	if in.mon.onSearch != nil {
		in.mon.onSearch(it, re, sl, true, id)
	}
	return []res{{it, SliceV{arr: id, off: linC(0), ln: n, cp: n}}, {no, NilV{}}}
}
