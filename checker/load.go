package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/adamcolton/parlex"

// Prog is the type-checked program in SSA form.
type Prog struct {
	Repo          string
	Fset          *token.FileSet
	SSA           *ssa.Program
	Pkgs          map[string]*ssa.Package // by import path, module packages only
	Funcs         []*ssa.Function         // every module function with a body, anonymous ones included
	inMod         map[*ssa.Package]bool
	nonNilGlobals map[*ssa.Global]bool
}

type fatal struct{ msg string }

func fail(format string, args ...interface{}) {
	panic(fatal{fmt.Sprintf(format, args...)})
}

func load(repo string) *Prog {
	fset := token.NewFileSet()
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Fset: fset, Env: os.Environ()}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		fail("cannot load packages: %v", err)
	}
	for _, p := range ps {
		for _, e := range p.Errors {
			fail("package %s does not type-check: %v", p.PkgPath, e)
		}
	}
	prog, _ := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	res := &Prog{Repo: repo, Fset: fset, SSA: prog, Pkgs: map[string]*ssa.Package{}, inMod: map[*ssa.Package]bool{}}
	for _, p := range ps {
		sp := prog.Package(p.Types)
		if sp == nil {
			fail("no SSA for %s", p.PkgPath)
		}
		res.Pkgs[p.PkgPath] = sp
		res.inMod[sp] = true
	}
	if len(res.Pkgs) < 15 {
		fail("only %d packages loaded", len(res.Pkgs))
	}
	for fn := range ssautil.AllFunctions(prog) {
		if res.InModule(fn) && fn.Blocks != nil {
			res.Funcs = append(res.Funcs, fn)
		}
	}
	sort.Slice(res.Funcs, func(i, j int) bool {
		a, b := res.Funcs[i], res.Funcs[j]
		if a.String() != b.String() {
			return a.String() < b.String()
		}
		return a.Pos() < b.Pos()
	})
	return res
}

// InModule tells whether fn's code belongs to the analysed module.
func (p *Prog) InModule(fn *ssa.Function) bool {
	if fn == nil {
		return false
	}
	if fn.Pkg != nil {
		return p.inMod[fn.Pkg]
	}
	if fn.Origin() != nil && fn.Origin().Pkg != nil {
		return p.inMod[fn.Origin().Pkg]
	}
	if fn.Parent() != nil {
		return p.InModule(fn.Parent())
	}
	// synthetic wrappers, bound methods, thunks
	if obj := fn.Object(); obj != nil && obj.Pkg() != nil {
		_, ok := p.Pkgs[obj.Pkg().Path()]
		return ok
	}
	return false
}

func (p *Prog) isLib(pkg *ssa.Package) bool { return pkg != nil && pkg.Pkg.Name() != "main" }

func (p *Prog) pkg(rel string) *ssa.Package {
	path := modPath
	if rel != "" {
		path += "/" + rel
	}
	q := p.Pkgs[path]
	if q == nil {
		fail("package %s not found", path)
	}
	return q
}

// Func finds a package-level function.
func (p *Prog) Func(rel, name string) *ssa.Function {
	f := p.pkg(rel).Func(name)
	if f == nil {
		fail("function %s.%s not found", rel, name)
	}
	return f
}

// Named finds a named type.
func (p *Prog) Named(rel, name string) *types.Named {
	t := p.pkg(rel).Type(name)
	if t == nil {
		fail("type %s.%s not found", rel, name)
	}
	n, ok := types.Unalias(t.Type()).(*types.Named)
	if !ok {
		fail("type %s.%s is not a named type", rel, name)
	}
	return n
}

func (p *Prog) Iface(rel, name string) *types.Interface {
	i, ok := p.Named(rel, name).Underlying().(*types.Interface)
	if !ok {
		fail("%s.%s is not an interface", rel, name)
	}
	return i
}

// Method finds the implementation of a method for type T or *T.
func (p *Prog) Method(t types.Type, name string) *ssa.Function {
	f := p.methodOrNil(t, name)
	if f == nil {
		fail("method %s of %s not found", name, t)
	}
	return f
}

func (p *Prog) methodOrNil(t types.Type, name string) *ssa.Function {
	ms := p.SSA.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return p.SSA.MethodValue(ms.At(i))
		}
	}
	return nil
}

// ModuleTypes lists the named non-interface types declared in module packages.
func (p *Prog) ModuleTypes() []*types.Named {
	var paths []string
	for k := range p.Pkgs {
		paths = append(paths, k)
	}
	sort.Strings(paths)
	var out []*types.Named
	for _, k := range paths {
		sp := p.Pkgs[k]
		var names []string
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			if t, ok := sp.Members[n].(*ssa.Type); ok {
				if nm, ok := types.Unalias(t.Type()).(*types.Named); ok && nm.TypeParams().Len() == 0 {
					if _, isI := nm.Underlying().(*types.Interface); !isI {
						out = append(out, nm)
					}
				}
			}
		}
	}
	return out
}

// Implementers lists the module types (T or *T) that implement iface by code of
// their own, leaving out types that merely embed the interface.
func (p *Prog) Implementers(iface *types.Interface) []types.Type {
	var out []types.Type
	for _, n := range p.ModuleTypes() {
		var t types.Type = n
		if !types.Implements(t, iface) {
			t = types.NewPointer(n)
			if !types.Implements(t, iface) {
				continue
			}
		}
		if p.delegates(t, iface) {
			continue
		}
		out = append(out, t)
	}
	return out
}

// delegates reports whether every method of iface is promoted to t from an
// embedded field (such a type adds no behaviour of its own; the type of the
// field is considered by itself).
func (p *Prog) delegates(t types.Type, iface *types.Interface) bool {
	if iface.NumMethods() == 0 {
		return false
	}
	for i := 0; i < iface.NumMethods(); i++ {
		m := iface.Method(i)
		sel := p.SSA.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
		if sel == nil || len(sel.Index()) < 2 {
			return false
		}
	}
	return true
}

// Pos renders a position relative to the repository.
func (p *Prog) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	q := p.Fset.Position(pos)
	rel, err := filepath.Rel(p.Repo, q.Filename)
	if err != nil || strings.HasPrefix(rel, "..") {
		rel = q.Filename
	}
	return fmt.Sprintf("%s:%d", rel, q.Line)
}

func (p *Prog) InstrPos(i ssa.Instruction) string {
	if i.Pos().IsValid() {
		return p.Pos(i.Pos())
	}
	// nearest positioned instruction in the block
	b := i.Block()
	if b != nil {
		at := -1
		for k, x := range b.Instrs {
			if x == i {
				at = k
			}
		}
		for d := 1; d < len(b.Instrs); d++ {
			for _, k := range []int{at - d, at + d} {
				if k >= 0 && k < len(b.Instrs) && b.Instrs[k].Pos().IsValid() {
					return p.Pos(b.Instrs[k].Pos())
				}
			}
		}
		return p.Pos(i.Parent().Pos())
	}
	return "-"
}

func shortFn(fn *ssa.Function) string {
	return strings.ReplaceAll(fn.RelString(nil), modPath+"/", "")
}

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}
