package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"runtime/debug"
	"time"

	"golang.org/x/tools/go/ssa"
)

const absRule = "abstract interpretation of the SSA form: symbolic heap with lazily initialised inputs, linear facts over the integers " +
	"(a relational numeric domain), states partitioned by their discrete part, joined at loop heads until they no longer change; "

var absAssumptions = []string{
	"values of caller-defined types (foreign implementations of the library's interfaces, foreign functions) do not change what they are handed and answer the same to the same question",
	"integers do not overflow",
	"the standard library behaves as documented (regexp matches lie inside the subject, strings.Split of a non-empty separator gives at least one part, ...)",
	"two unknown pointers of the input do not alias unless they are read from the same place",
}

// obligationTime is how long the analysis may take for one obligation before
// it is left undecided.
var obligationTime = 60 * time.Second
var deadline time.Time

func checkTime() {
	if !deadline.IsZero() && time.Now().After(deadline) {
		fail("analysis time exceeded")
	}
}

// attempt is one run of the analysis on one obligation.
type attempt struct {
	p   *Prog
	in  *Interp
	bad []Finding
	bak map[string]bool
}

func (a *attempt) violate(key, where, format string, args ...interface{}) {
	if a.in != nil && a.in.quiet > 0 {
		return
	}
	id := key + "@" + where
	if a.bak[id] {
		return
	}
	a.bak[id] = true
	a.bad = append(a.bad, Finding{key, where, fmt.Sprintf(format, args...)})
}

// decide runs an obligation, with each configuration until one proves it.  What
// the analysis cannot decide is reported as such, not as a violation.
func decide(p *Prog, r *Report, name string, configs int, f func(a *attempt, config int)) bool {
	var first []Finding
	undecided := ""
	for c := 0; c < configs; c++ {
		deadline = time.Now().Add(obligationTime)
		if os.Getenv("PROGRESS") != "" {
			t0 := time.Now()
			fmt.Fprintln(os.Stderr, "start", name)
			defer func() { fmt.Fprintln(os.Stderr, "  end", name, time.Since(t0)) }()
		}
		a := &attempt{p: p, bak: map[string]bool{}}
		msg := func() (msg string) {
			defer func() {
				if e := recover(); e != nil {
					if ft, ok := e.(fatal); ok {
						msg = ft.msg
					} else {
						msg = fmt.Sprintf("internal error: %v", e)
					}
					if os.Getenv("DBG") != "" {
						msg += "\n" + string(debug.Stack())
					}
				}
			}()
			f(a, c)
			return ""
		}()
		if a.in != nil {
			r.count("abstract steps", a.in.steps)
			for fn := range a.in.fns {
				r.fns[shortFn(fn)] = true
			}
		}
		if msg != "" {
			undecided = msg
			if len(a.bad) > 0 && first == nil {
				first = a.bad
			}
			continue
		}
		if len(a.bad) == 0 {
			r.ok("%s", name)
			return true
		}
		if first == nil {
			first = a.bad
		}
	}
	if first != nil {
		for _, v := range first {
			r.violate(v.Key, v.Where, v.Detail)
		}
		return false
	}
	r.undecided(name, undecided)
	return false
}

func (a *attempt) interp() *Interp {
	a.in = newInterp(a.p)
	return a.in
}

// args makes an unknown value for every parameter.
func (in *Interp) unknownArgs(st *State, fn *ssa.Function) []Val {
	var out []Val
	for _, p := range fn.Params {
		out = append(out, in.unknown(st, p.Type(), p.Name()))
	}
	return out
}

// constStr gives the value of a string constant of a package.
func (p *Prog) constStr(rel, name string) string {
	c, ok := p.pkg(rel).Members[name].(*ssa.NamedConst)
	if !ok {
		fail("constant %s.%s not found", rel, name)
	}
	if c.Value.Value.Kind() != constant.String {
		fail("constant %s.%s is not a string", rel, name)
	}
	return constant.StringVal(c.Value.Value)
}

func isNilVal(in *Interp, st *State, v Val) bool {
	return st.truth(in.nilForm(st, v)) > 0
}

func isNonNil(in *Interp, st *State, v Val) bool {
	return st.truth(in.nilForm(st, v)) < 0
}

// ghostVal keeps a value in the state that the program does not see.
func (in *Interp) newGhost(st *State, t types.Type, v Val) int {
	id := in.id()
	st.heap[id] = &Obj2{typ: t, kind: 'o', name: "ghost", val: v}
	st.owned[id] = true
	st.nils[id] = false
	return id
}

func (in *Interp) getGhost(st *State, id int) Val { return in.force(st, st.heap[id].val) }
func (in *Interp) setGhost(st *State, id int, v Val) {
	o := st.mut(id)
	o.val = v
}
