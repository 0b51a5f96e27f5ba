package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (h *Heap) call(in *Inst, site ssa.CallInstruction, dst ssa.Value) {
	c := site.Common()
	out := func(v vals) {
		if dst == nil {
			return
		}
		if _, ok := dst.Type().(*types.Tuple); ok {
			h.put(in, dst, v)
		} else {
			o := vals{}
			for l, s := range v {
				if strings.HasPrefix(l, "#0") {
					o[l[2:]] = s
				}
			}
			h.put(in, dst, o)
		}
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		h.builtin(in, site, b.Name(), dst)
		return
	}
	args := make([]vals, len(c.Args))
	for i, a := range c.Args {
		args[i] = h.get(in, a)
	}
	if c.IsInvoke() {
		for e := range h.get1(in, c.Value) {
			switch {
			case e.kind == 'n' && e.dyn == "":
			case e.kind == 'o' && e.dyn == "":
				out(h.foreign(in, site, c.Signature().Results()))
			case e.dyn != "":
				t := h.dyn[e.dyn]
				fn := h.p.SSA.LookupMethod(t, c.Method.Pkg(), c.Method.Name())
				if fn == nil {
					fail("no method %s on %s", c.Method.Name(), t)
				}
				var recv vals
				if pointerShaped(t) {
					r := e
					if e.kind != 'o' {
						r.dyn = ""
					}
					recv = vals{"": pset{r: {}}}
				} else {
					recv = h.load(pset{Elem{obj: e.obj, path: e.path}: {}}, t)
				}
				out(h.callFn(in, site, fn, append([]vals{recv}, args...), nil, false))
			}
		}
		return
	}
	if fn := c.StaticCallee(); fn != nil {
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			var clos *Obj
			for e := range h.get1(in, mc) {
				clos = e.obj
			}
			out(h.callFn(in, site, fn, args, clos, false))
			return
		}
		out(h.callFn(in, site, fn, args, nil, false))
		return
	}
	for e := range h.get1(in, c.Value) {
		switch {
		case e.kind == 'n':
		case e.kind == 'o':
			out(h.tupleRegion(c.Signature().Results()))
			for _, fn := range h.taken[sigKey(c.Signature())] {
				out(h.callFn(in, site, fn, args, nil, true))
			}
		case e.fn != nil:
			out(h.callFn(in, site, e.fn, args, e.obj, false))
		}
	}
}

// foreign: a value of unknown (caller-supplied) type is invoked.  Such code is
// assumed not to change what it is handed.  Interfaces, slices and functions it
// returns belong to it; a pointer to one of the library's structs (an iterator)
// is taken to be made for the call, but its fields lead back into the region.
func (h *Heap) foreign(in *Inst, site ssa.Instruction, t *types.Tuple) vals {
	out := vals{}
	for i := 0; i < t.Len(); i++ {
		rt := t.At(i).Type()
		if pt, ok := rt.Underlying().(*types.Pointer); ok {
			o := h.alloc(in, site, "foreign"+strconv.Itoa(i), pt.Elem())
			for l, s := range h.regionVals(pt.Elem()) {
				if h.cell(o, l).addAll(s) {
					h.changed = true
				}
			}
			out["#"+strconv.Itoa(i)] = pset{nilElem: {}, Elem{obj: o}: {}}
			continue
		}
		for l, s := range h.regionVals(rt) {
			out["#"+strconv.Itoa(i)+l] = s
		}
	}
	return out
}

func (h *Heap) tupleRegion(t *types.Tuple) vals {
	out := vals{}
	for i := 0; i < t.Len(); i++ {
		for l, s := range h.regionVals(t.At(i).Type()) {
			out["#"+strconv.Itoa(i)+l] = s
		}
	}
	return out
}

func (h *Heap) callFn(in *Inst, site ssa.Instruction, fn *ssa.Function, args []vals, clos *Obj, regionFV bool) vals {
	if fn.Blocks == nil || !h.p.InModule(fn) {
		return h.external(in, site, fn, args)
	}
	var c *Inst
	if regionFV {
		// called through an unknown function value: one context for all such calls
		c = h.opaque[fn]
		if c == nil {
			c = h.instance(in, site, fn)
			h.opaque[fn] = c
		}
	} else {
		c = h.instance(in, site, fn)
	}
	if len(fn.Params) != len(args) {
		fail("argument count mismatch calling %s", fn)
	}
	for i, prm := range fn.Params {
		h.put(c, prm, args[i])
	}
	for k, fv := range fn.FreeVars {
		if regionFV || clos == nil {
			h.put(c, fv, h.regionVals(fv.Type()))
			continue
		}
		v := vals{}
		pre := "/fv" + strconv.Itoa(k) + "|"
		for l, s := range clos.cells {
			if strings.HasPrefix(l, pre) {
				v[l[len(pre):]] = s
			}
		}
		h.put(c, fv, v)
	}
	return c.results
}

func (h *Heap) builtin(in *Inst, site ssa.CallInstruction, name string, dst ssa.Value) {
	c := site.Common()
	switch name {
	case "append":
		sl := c.Args[0].Type().Underlying().(*types.Slice)
		s := h.get1(in, c.Args[0])
		fresh := h.alloc(in, site, "append", sl)
		res := pset{Elem{obj: fresh}: {}}
		var add vals
		add = vals{}
		if len(c.Args) > 1 {
			if _, ok := c.Args[1].Type().Underlying().(*types.Slice); ok {
				add = h.load(elemsOf(h.get1(in, c.Args[1])), sl.Elem())
			}
		}
		// old contents
		old := h.load(elemsOf(s), sl.Elem())
		for l, x := range old {
			if h.cell(fresh, "/[]"+l).addAll(x) {
				h.changed = true
			}
		}
		for l, x := range add {
			if h.cell(fresh, "/[]"+l).addAll(x) {
				h.changed = true
			}
		}
		for e := range s {
			if e.kind == 'n' || e.capped {
				continue
			}
			res.add(e)
			h.store(in, site, elemsOf(pset{e: {}}), add, "append in place")
		}
		if dst != nil {
			h.put1(in, dst, res)
		}
	case "copy":
		sl, ok := c.Args[0].Type().Underlying().(*types.Slice)
		if !ok {
			return
		}
		v := vals{}
		if _, ok := c.Args[1].Type().Underlying().(*types.Slice); ok {
			v = h.load(elemsOf(h.get1(in, c.Args[1])), sl.Elem())
		}
		h.store(in, site, elemsOf(h.get1(in, c.Args[0])), v, "copy")
	case "delete", "clear":
		h.store(in, site, h.get1(in, c.Args[0]), vals{}, name)
	case "len", "cap", "print", "println", "panic", "min", "max", "close", "real", "imag", "complex", "ssa:wrapnilchk", "recover":
		if name == "ssa:wrapnilchk" && dst != nil {
			h.put(in, dst, h.get(in, c.Args[0]))
		}
	default:
		fail("builtin %s at %s is not modelled", name, h.p.InstrPos(site))
	}
}

func elemsOf(s pset) pset {
	out := pset{}
	for e := range s {
		if e.kind == 0 && e.obj != nil {
			out.add(Elem{obj: e.obj, path: e.path + "/[]"})
		}
	}
	return out
}

func extName(fn *ssa.Function) (pkg, name string) {
	f := fn
	if f.Origin() != nil {
		f = f.Origin()
	}
	if f.Pkg != nil {
		pkg = f.Pkg.Pkg.Path()
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		pkg = f.Object().Pkg().Path()
	}
	name = f.Name()
	if r := fn.Signature.Recv(); r != nil {
		name = strings.TrimPrefix(types.TypeString(r.Type(), func(*types.Package) string { return "" }), "*") + "." + name
		if _, ok := r.Type().(*types.Pointer); ok {
			name = "*" + name
		}
	}
	return
}

// pure packages: functions (not pointer methods) that change none of their
// arguments.
var purePkgs = map[string]bool{
	"strings": true, "strconv": true, "errors": true, "math": true, "unicode": true, "unicode/utf8": true,
	"regexp": true, "regexp/syntax": true, "bytes": true, "path": true, "cmp": true, "math/bits": true, "html": true,
}

func writesReceiver(pkg, name string) bool {
	if !strings.HasPrefix(name, "*") {
		return false
	}
	switch {
	case pkg == "regexp":
		return name == "*Regexp.Longest" || strings.HasPrefix(name, "*Regexp.Unmarshal")
	case pkg == "strings" && strings.HasPrefix(name, "*Replacer."):
		return false
	case pkg == "sync" && (strings.HasPrefix(name, "*Mutex.") || strings.HasPrefix(name, "*RWMutex.") || strings.HasPrefix(name, "*WaitGroup.")):
		return false
	case pkg == "strings" && (name == "*Builder.String" || name == "*Builder.Len" || name == "*Builder.Cap"):
		return false
	case pkg == "bytes" && (name == "*Buffer.String" || name == "*Buffer.Len" || name == "*Buffer.Bytes" || name == "*Buffer.Cap"):
		return false
	}
	return true
}

func (h *Heap) external(in *Inst, site ssa.Instruction, fn *ssa.Function, args []vals) vals {
	pkg, name := extName(fn)
	h.externals[pkg+"."+name]++
	sig := fn.Signature
	ptypes := []types.Type{}
	if sig.Recv() != nil {
		ptypes = append(ptypes, sig.Recv().Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ptypes = append(ptypes, sig.Params().At(i).Type())
	}
	write := func(i int) {
		s := args[i][""]
		if s == nil {
			return
		}
		if _, ok := ptypes[i].Underlying().(*types.Slice); ok {
			s = elemsOf(s)
		}
		h.store(in, site, s, vals{}, "call of "+pkg+"."+name)
	}
	// what the external may put in its results or hand to callbacks
	gather := func(t types.Type) vals {
		v := vals{}
		for i, pt := range ptypes {
			if types.Identical(pt, t) {
				v.join(args[i])
			}
			if sl, ok := pt.Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), t) {
				v.join(h.load(elemsOf(args[i][""]), t))
			}
			if m, ok := pt.Underlying().(*types.Map); ok {
				for e := range args[i][""] {
					if e.kind == 0 && e.obj != nil {
						if types.Identical(m.Elem(), t) {
							for _, l := range leaves(t) {
								v.join(vals{l: h.cell(e.obj, e.path+"/v"+l)})
							}
						}
						if types.Identical(m.Key(), t) {
							for _, l := range leaves(t) {
								v.join(vals{l: h.cell(e.obj, e.path+"/k"+l)})
							}
						}
					}
				}
			}
		}
		return v
	}
	clone := false
	switch {
	case pkg == "fmt":
		for i, pt := range ptypes {
			h.stringers(in, site, args[i], pt)
		}
		if strings.HasPrefix(name, "F") || strings.Contains(name, "scan") || strings.Contains(name, "Scan") {
			for i := range ptypes {
				write(i)
			}
		}
	case pkg == "sort" || pkg == "slices" && (strings.HasPrefix(name, "Sort") || name == "Reverse"):
		for i, pt := range ptypes {
			if _, ok := pt.Underlying().(*types.Signature); !ok && !strings.HasPrefix(name, "Search") && !strings.Contains(name, "Sorted") {
				write(i)
				// sort.Interface / sort.Slice(any): through the interface
				if _, ok := pt.Underlying().(*types.Interface); ok {
					for e := range args[i][""] {
						if e.kind == 0 && e.obj != nil {
							if t := h.dyn[e.dyn]; t != nil {
								if _, isSl := t.Underlying().(*types.Slice); isSl {
									h.store(in, site, elemsOf(h.cell(e.obj, e.path)), vals{}, "call of "+pkg+"."+name)
								}
							}
							h.invokeAll(in, site, e)
						}
					}
				}
			}
		}
	case pkg == "slices" || pkg == "maps":
		clone = name == "Clone" || name == "Concat"
		if !clone && !strings.HasPrefix(name, "Index") && !strings.HasPrefix(name, "Contains") && !strings.HasPrefix(name, "Equal") && !strings.HasPrefix(name, "Compare") && name != "Max" && name != "Min" && name != "Keys" && name != "Values" && name != "Collect" && name != "Grow" && name != "Clip" {
			for i := range ptypes {
				write(i)
			}
		}
	case sig.Recv() != nil && strings.HasPrefix(name, "*"):
		if writesReceiver(pkg, name) {
			write(0)
		}
		if !purePkgs[pkg] && !(pkg == "sync") {
			for i := 1; i < len(ptypes); i++ {
				write(i)
			}
		}
	case pkg == "sync/atomic":
		for i := range ptypes {
			write(i)
		}
	case purePkgs[pkg] || sig.Recv() != nil && purePkgs[pkg]:
	case pkg == "log" || pkg == "os" || pkg == "io" || pkg == "time":
		for i, pt := range ptypes {
			h.stringers(in, site, args[i], pt)
		}
	default:
		for i := range ptypes {
			write(i)
		}
		h.unknown[pkg+"."+name] = true
	}
	// callbacks
	for i, pt := range ptypes {
		cs, ok := pt.Underlying().(*types.Signature)
		if !ok {
			continue
		}
		for e := range args[i][""] {
			if e.fn == nil {
				continue
			}
			cargs := make([]vals, cs.Params().Len())
			for k := range cargs {
				cargs[k] = gather(cs.Params().At(k).Type())
			}
			h.callFn(in, site, e.fn, cargs, e.obj, false)
		}
	}
	// results
	out := vals{}
	res := sig.Results()
	for i := 0; i < res.Len(); i++ {
		t := res.At(i).Type()
		pre := "#" + strconv.Itoa(i)
		for _, l := range leaves(t) {
			lt := typeAt(t, l)
			s := pset{nilElem: {}}
			var o *Obj
			switch u := lt.Underlying().(type) {
			case *types.Pointer:
				o = h.alloc(in, site, "ext"+pre+l, u.Elem())
			case *types.Slice, *types.Map, *types.Chan:
				o = h.alloc(in, site, "ext"+pre+l, u)
			case *types.Interface, *types.Signature:
				s.add(Elem{kind: 'o'})
			}
			if o != nil {
				if clone {
					// shallow copy: same contents
					for k, pt := range ptypes {
						if types.Identical(pt.Underlying(), lt.Underlying()) {
							for e := range args[k][""] {
								if e.kind != 0 || e.obj == nil {
									continue
								}
								switch u := lt.Underlying().(type) {
								case *types.Slice:
									for _, el := range leaves(u.Elem()) {
										if h.cell(o, "/[]"+el).addAll(h.cell(e.obj, e.path+"/[]"+el)) {
											h.changed = true
										}
									}
								case *types.Map:
									for _, el := range leaves(u.Elem()) {
										if h.cell(o, "/v"+el).addAll(h.cell(e.obj, e.path+"/v"+el)) {
											h.changed = true
										}
									}
									for _, el := range leaves(u.Key()) {
										if h.cell(o, "/k"+el).addAll(h.cell(e.obj, e.path+"/k"+el)) {
											h.changed = true
										}
									}
								}
							}
						}
					}
				} else {
					o.ext = true
				}
				s.add(Elem{obj: o})
			}
			if !clone && l == "" {
				// may hand back (part of) an argument
				for _, x := range []vals{gather(t)} {
					for _, set := range x {
						s.addAll(set)
					}
				}
			}
			out[pre+l] = s
		}
	}
	return out
}

// stringers: formatting calls the String and Error methods of its operands.
func (h *Heap) stringers(in *Inst, site ssa.Instruction, v vals, t types.Type) {
	s := v[""]
	if sl, ok := t.Underlying().(*types.Slice); ok {
		if _, isI := sl.Elem().Underlying().(*types.Interface); isI {
			s = h.load(elemsOf(s), sl.Elem())[""]
		}
	}
	for e := range s {
		if e.dyn != "" && e.kind == 0 && e.obj != nil {
			h.invokeAll(in, site, e, "String", "Error", "GoString", "Format")
		}
	}
}

func (h *Heap) invokeAll(in *Inst, site ssa.Instruction, e Elem, names ...string) {
	t := h.dyn[e.dyn]
	if t == nil {
		return
	}
	ms := h.p.SSA.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		m := ms.At(i)
		if len(names) > 0 {
			ok := false
			for _, n := range names {
				if n == m.Obj().Name() {
					ok = true
				}
			}
			if !ok {
				continue
			}
		}
		fn := h.p.SSA.MethodValue(m)
		if fn == nil || !h.p.InModule(fn) {
			continue
		}
		var recv vals
		if pointerShaped(t) {
			r := e
			r.dyn = ""
			recv = vals{"": pset{r: {}}}
		} else {
			recv = h.load(pset{Elem{obj: e.obj, path: e.path}: {}}, t)
		}
		args := []vals{recv}
		for k := 1; k < len(fn.Params); k++ {
			args = append(args, vals{})
		}
		h.callFn(in, site, fn, args, nil, false)
	}
}

// reachShared walks everything reachable from v (through the whole points-to
// graph) and reports locations that belong to the region.  Symbols are
// immutable identities and may be shared; stop is asked before following a
// value of static type t.
func (h *Heap) reachShared(v vals, t types.Type, stop func(types.Type) bool) []string {
	type item struct {
		o    *Obj
		path string
		t    types.Type
	}
	seen := map[string]bool{}
	bad := map[string]bool{}
	var walk func(v vals, t types.Type, how string, depth int)
	walk = func(v vals, t types.Type, how string, depth int) {
		for l, s := range v {
			lt := leafType(t, l)
			if stop(lt) {
				continue
			}
			for e := range s {
				if e.kind == 'o' {
					if _, isI := lt.Underlying().(*types.Interface); isI {
						bad[how+" may be a value the caller supplied ("+shortType(lt)+")"] = true
					}
					continue
				}
				if e.kind != 0 || e.obj == nil {
					continue
				}
				if e.obj.region {
					bad[how+" leads to "+e.obj.String()+pathName(e.obj.typ, e.path)] = true
					continue
				}
				if e.obj.typ == nil || e.obj.ext {
					continue
				}
				k := fmt.Sprintf("%d%s", e.obj.id, e.path)
				if seen[k] {
					continue
				}
				seen[k] = true
				// contents
				ct := typeAt(e.obj.typ, e.path)
				how2 := how
				if lt2, ok := lt.Underlying().(*types.Pointer); ok {
					_ = lt2
				}
				switch u := ct.Underlying().(type) {
				case *types.Slice:
					walk(h.load(pset{Elem{obj: e.obj, path: e.path + "/[]"}: {}}, u.Elem()), u.Elem(), how2+"[...]", depth+1)
				case *types.Map:
					walk(h.load(pset{Elem{obj: e.obj, path: e.path + "/v"}: {}}, u.Elem()), u.Elem(), how2+"[...]", depth+1)
				default:
					for _, fl := range leaves(ct) {
						ft := typeAt(ct, fl)
						walk(vals{"": h.cell(e.obj, e.path+fl)}, ft, how2+pathName(ct, fl), depth+1)
					}
				}
			}
		}
	}
	walk(v, t, "result", 0)
	var out []string
	for k := range bad {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
