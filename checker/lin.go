package main

// Linear arithmetic for the abstract interpreter: expressions over integer
// symbols, conjunctions of inequalities and equalities, and entailment decided
// by an exact rational simplex procedure with integer tightening.

import (
	"fmt"
	"sort"
	"strings"
)

type Sym int32

type term struct {
	s Sym
	k int64
}

// Lin is an immutable linear expression c + sum k*s, terms sorted by symbol.
type Lin struct {
	c int64
	t []term
}

func linC(c int64) Lin { return Lin{c: c} }
func linS(s Sym) Lin   { return Lin{t: []term{{s, 1}}} }

func (a Lin) isConst() bool { return len(a.t) == 0 }

func (a Lin) addScaled(b Lin, k int64) Lin {
	if k == 0 || len(b.t) == 0 {
		return Lin{a.c + k*b.c, a.t}
	}
	out := Lin{c: a.c + k*b.c, t: make([]term, 0, len(a.t)+len(b.t))}
	i, j := 0, 0
	for i < len(a.t) || j < len(b.t) {
		switch {
		case j == len(b.t) || i < len(a.t) && a.t[i].s < b.t[j].s:
			out.t = append(out.t, a.t[i])
			i++
		case i == len(a.t) || b.t[j].s < a.t[i].s:
			out.t = append(out.t, term{b.t[j].s, k * b.t[j].k})
			j++
		default:
			if n := a.t[i].k + k*b.t[j].k; n != 0 {
				out.t = append(out.t, term{a.t[i].s, n})
			}
			i++
			j++
		}
	}
	return out
}

func (a Lin) add(b Lin) Lin     { return a.addScaled(b, 1) }
func (a Lin) sub(b Lin) Lin     { return a.addScaled(b, -1) }
func (a Lin) plus(c int64) Lin  { return Lin{a.c + c, a.t} }
func (a Lin) neg() Lin          { return Lin{}.addScaled(a, -1) }
func (a Lin) scale(k int64) Lin { return Lin{}.addScaled(a, k) }
func (a Lin) eq(b Lin) bool     { return a.c == b.c && sameTerms(a.t, b.t) }
func (a Lin) coef(s Sym) int64 {
	for _, t := range a.t {
		if t.s == s {
			return t.k
		}
	}
	return 0
}

func sameTerms(a, b []term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (a Lin) key() string {
	var b strings.Builder
	for _, t := range a.t {
		fmt.Fprintf(&b, "%d*%d+", t.k, t.s)
	}
	fmt.Fprintf(&b, "%d", a.c)
	return b.String()
}

func termKey(t []term) string { return Lin{t: t}.key() }

// subst replaces s by e.
func (a Lin) subst(s Sym, e Lin) Lin {
	k := a.coef(s)
	if k == 0 {
		return a
	}
	out := Lin{c: a.c, t: make([]term, 0, len(a.t))}
	for _, t := range a.t {
		if t.s != s {
			out.t = append(out.t, t)
		}
	}
	return out.addScaled(e, k)
}

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// tighten divides e >= 0 by the gcd of its coefficients.
func (e Lin) tighten() Lin {
	var g int64
	for _, t := range e.t {
		g = gcd(g, t.k)
	}
	if g <= 1 {
		return e
	}
	out := Lin{c: floorDiv(e.c, g), t: make([]term, len(e.t))}
	for i, t := range e.t {
		out.t[i] = term{t.s, t.k / g}
	}
	return out
}

// Cons is a conjunction of facts; it is copied on write by its owner.
type Cons struct {
	ge   []Lin       // each >= 0
	ne   []Lin       // each != 0
	sub  map[Sym]Lin // solved equalities
	keys map[string]bool
	bad  bool
}

func newCons() *Cons { return &Cons{sub: map[Sym]Lin{}, keys: map[string]bool{}} }

func (c *Cons) clone() *Cons {
	n := &Cons{ge: append([]Lin(nil), c.ge...), ne: append([]Lin(nil), c.ne...), sub: make(map[Sym]Lin, len(c.sub)), keys: make(map[string]bool, len(c.keys)), bad: c.bad}
	for k, v := range c.sub {
		n.sub[k] = v
	}
	for k := range c.keys {
		n.keys[k] = true
	}
	return n
}

func (c *Cons) norm(e Lin) Lin {
	hit := false
	for _, t := range e.t {
		if _, ok := c.sub[t.s]; ok {
			hit = true
			break
		}
	}
	if !hit {
		return e
	}
	out := Lin{c: e.c}
	for _, t := range e.t {
		if s, ok := c.sub[t.s]; ok {
			out = out.addScaled(s, t.k)
		} else {
			out = out.addScaled(linS(t.s), t.k)
		}
	}
	return out
}

// addGE assumes e >= 0.
func (c *Cons) addGE(e Lin) {
	if c.bad {
		return
	}
	e = c.norm(e).tighten()
	if e.isConst() {
		if e.c < 0 {
			c.bad = true
		}
		return
	}
	k := e.key()
	if c.keys[k] {
		return
	}
	// against ne: e >= 0 and e != 0 gives e >= 1
	for _, n := range c.ne {
		if sameTerms(n.t, e.t) && n.c == e.c || sameTerms(n.neg().t, e.t) && -n.c == e.c {
			c.addGE(e.plus(-1))
			return
		}
	}
	// replace weaker, ignore if weaker, and detect opposite equality
	ng := e.neg()
	var out []Lin
	eq := false
	for _, g := range c.ge {
		if sameTerms(g.t, e.t) {
			if g.c <= e.c {
				return
			}
			delete(c.keys, g.key())
			continue
		}
		if sameTerms(g.t, ng.t) {
			// g: -t + gc >= 0, e: t + ec >= 0 ; sum gc+ec
			if g.c+e.c < 0 {
				c.bad = true
				return
			}
			if g.c+e.c == 0 {
				eq = true
			}
		}
		out = append(out, g)
	}
	c.ge = append(out, e)
	c.keys[k] = true
	if eq {
		c.addEQ(e)
	}
}

// addEQ assumes e == 0.
func (c *Cons) addEQ(e Lin) {
	if c.bad {
		return
	}
	e = c.norm(e)
	if e.isConst() {
		if e.c != 0 {
			c.bad = true
		}
		return
	}
	// prefer the newest symbol with a unit coefficient
	pick := -1
	for i := len(e.t) - 1; i >= 0; i-- {
		if e.t[i].k == 1 || e.t[i].k == -1 {
			pick = i
			break
		}
	}
	if pick < 0 {
		var g int64
		for _, t := range e.t {
			g = gcd(g, t.k)
		}
		if g > 1 {
			if e.c%g != 0 {
				c.bad = true
				return
			}
			ne := Lin{c: e.c / g}
			for _, t := range e.t {
				ne.t = append(ne.t, term{t.s, t.k / g})
			}
			c.addEQ(ne)
			return
		}
		c.pushGE(e)
		c.pushGE(e.neg())
		return
	}
	s := e.t[pick].s
	k := e.t[pick].k
	rest := e.subst(s, linC(0))
	if k == 1 {
		rest = rest.neg()
	}
	for x, v := range c.sub {
		c.sub[x] = v.subst(s, rest)
	}
	c.sub[s] = rest
	ge, ne := c.ge, c.ne
	c.ge, c.ne, c.keys = nil, nil, map[string]bool{}
	for _, g := range ge {
		c.addGE(g)
	}
	for _, n := range ne {
		c.addNE(n)
	}
}

func (c *Cons) pushGE(e Lin) {
	k := e.key()
	if !c.keys[k] {
		c.keys[k] = true
		c.ge = append(c.ge, e)
	}
}

// addNE assumes e != 0.
func (c *Cons) addNE(e Lin) {
	if c.bad {
		return
	}
	e = c.norm(e)
	if e.isConst() {
		if e.c == 0 {
			c.bad = true
		}
		return
	}
	if c.quickGE(e) || c.entailsGE(e) {
		c.addGE(e.plus(-1))
		return
	}
	if c.entailsGE(e.neg()) {
		c.addGE(e.neg().plus(-1))
		return
	}
	for _, n := range c.ne {
		if n.eq(e) || n.eq(e.neg()) {
			return
		}
	}
	c.ne = append(c.ne, e)
}

func (c *Cons) quickGE(e Lin) bool {
	if e.isConst() {
		return e.c >= 0
	}
	for _, g := range c.ge {
		if sameTerms(g.t, e.t) && g.c <= e.c {
			return true
		}
	}
	return false
}

// entailsGE: e >= 0 in every model.
func (c *Cons) entailsGE(e Lin) bool {
	if c.bad {
		return true
	}
	e = c.norm(e)
	if c.quickGE(e) {
		return true
	}
	if e.isConst() {
		return c.infeasible()
	}
	return !c.feasibleWith(e.neg().plus(-1).tighten())
}

func (c *Cons) entailsEQ(e Lin) bool {
	if c.bad {
		return true
	}
	e = c.norm(e)
	if e.isConst() {
		return e.c == 0 || c.infeasible()
	}
	return c.entailsGE(e) && c.entailsGE(e.neg())
}

func (c *Cons) entailsNE(e Lin) bool {
	if c.bad {
		return true
	}
	e = c.norm(e)
	if e.isConst() {
		return e.c != 0
	}
	for _, n := range c.ne {
		if n.eq(e) || n.eq(e.neg()) {
			return true
		}
	}
	return c.entailsGE(e.plus(-1)) || c.entailsGE(e.neg().plus(-1))
}

// all lists the facts as inequalities.
func (c *Cons) all() []Lin {
	out := append([]Lin(nil), c.ge...)
	var ss []Sym
	for s := range c.sub {
		ss = append(ss, s)
	}
	sort.Slice(ss, func(i, j int) bool { return ss[i] < ss[j] })
	for _, s := range ss {
		e := linS(s).sub(c.sub[s])
		out = append(out, e, e.neg())
	}
	return out
}

func (c *Cons) infeasible() bool { return c.bad || !feasible(c.ge) }

// feasibleWith looks only at the facts connected to e.
func (c *Cons) feasibleWith(e Lin) bool {
	if e.isConst() {
		return e.c >= 0
	}
	in := map[Sym]bool{}
	for _, t := range e.t {
		in[t.s] = true
	}
	sel := []Lin{e}
	used := make([]bool, len(c.ge))
	for ch := true; ch; {
		ch = false
		for i, g := range c.ge {
			if used[i] {
				continue
			}
			for _, t := range g.t {
				if in[t.s] {
					used[i] = true
					break
				}
			}
			if used[i] {
				ch = true
				sel = append(sel, g)
				for _, t := range g.t {
					in[t.s] = true
				}
			}
		}
	}
	if !feasible(sel) {
		return false
	}
	// integer refinement by disequalities: e.g. x>=0, x!=0 |- x>=1
	for _, n := range c.ne {
		rel := false
		for _, t := range n.t {
			if in[t.s] {
				rel = true
			}
		}
		if !rel {
			continue
		}
		lo := append(append([]Lin(nil), sel...), n.plus(-1))
		hi := append(append([]Lin(nil), sel...), n.neg().plus(-1))
		fl, fh := feasible(lo), feasible(hi)
		if !fl && !fh {
			return false
		}
		if !fl {
			sel = hi
		} else if !fh {
			sel = lo
		}
	}
	return true
}

// ---- exact simplex ----

type rat struct{ n, d int64 }

type ratOverflow struct{}

func mul64(a, b int64) int64 {
	if a == 0 || b == 0 {
		return 0
	}
	r := a * b
	if r/b != a || r > 1<<60 || r < -(1<<60) {
		panic(ratOverflow{})
	}
	return r
}

func mkRat(n, d int64) rat {
	if n == 0 {
		return rat{0, 1}
	}
	if d == 1 {
		return rat{n, 1}
	}
	g := gcd(n, d)
	if d < 0 {
		g = -g
	}
	return rat{n / g, d / g}
}
func (a rat) add(b rat) rat {
	if a.d == 1 && b.d == 1 {
		return rat{a.n + b.n, 1}
	}
	return mkRat(mul64(a.n, b.d)+mul64(b.n, a.d), mul64(a.d, b.d))
}
func (a rat) mul(b rat) rat {
	if a.n == 0 || b.n == 0 {
		return rat{0, 1}
	}
	return mkRat(mul64(a.n, b.n), mul64(a.d, b.d))
}
func (a rat) neg() rat { return rat{-a.n, a.d} }
func (a rat) inv() rat {
	if a.n < 0 {
		return rat{-a.d, -a.n}
	}
	return rat{a.d, a.n}
}
func (a rat) cmp(b rat) int {
	l, r := mul64(a.n, b.d), mul64(b.n, a.d)
	switch {
	case l < r:
		return -1
	case l > r:
		return 1
	}
	return 0
}

var lpCalls int

// feasible decides whether a set of e >= 0 has a rational solution (with the
// unknown case of arithmetic overflow counted as feasible).
func feasible(cs []Lin) (ok bool) {
	lpCalls++
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(ratOverflow); is {
				ok = true
				return
			}
			panic(r)
		}
	}()
	// columns: symbols (free); rows: slack_i = lin_i - const, bound slack_i >= -c_i
	idx := map[Sym]int{}
	var syms []Sym
	for _, c := range cs {
		for _, t := range c.t {
			if _, ok := idx[t.s]; !ok {
				idx[t.s] = len(syms)
				syms = append(syms, t.s)
			}
		}
	}
	n := len(syms)
	m := len(cs)
	// tableau: row i: basic var = sum a[i][j] * nonbasic j
	a := make([][]rat, m)
	basic := make([]int, m)    // variable number: 0..n-1 symbols, n.. slacks
	nonbasic := make([]int, n) // variable number
	for j := range nonbasic {
		nonbasic[j] = j
	}
	lower := make([]rat, n+m) // only slacks have lower bounds
	val := make([]rat, n+m)
	for i := range val {
		val[i] = rat{0, 1}
	}
	for i, c := range cs {
		if c.isConst() {
			if c.c < 0 {
				return false
			}
		}
		row := make([]rat, n)
		for j := range row {
			row[j] = rat{0, 1}
		}
		for _, t := range c.t {
			row[idx[t.s]] = rat{t.k, 1}
		}
		a[i] = row
		basic[i] = n + i
		lower[n+i] = rat{-c.c, 1}
	}
	for iter := 0; iter < 2000; iter++ {
		// Bland: smallest violating basic variable
		r := -1
		for i := 0; i < m; i++ {
			v := basic[i]
			if v >= n && val[v].cmp(lower[v]) < 0 && (r < 0 || v < basic[r]) {
				r = i
			}
		}
		if r < 0 {
			return true
		}
		// need to increase basic[r]
		col := -1
		for j := 0; j < n; j++ {
			k := a[r][j]
			if k.n == 0 {
				continue
			}
			v := nonbasic[j]
			ok := k.n > 0 // increase the nonbasic: no upper bounds
			if k.n < 0 {
				// decrease the nonbasic: free, or above its lower bound
				ok = v < n || val[v].cmp(lower[v]) > 0
			}
			if ok && (col < 0 || v < nonbasic[col]) {
				col = j
			}
		}
		if col < 0 {
			return false
		}
		// pivot r,col and set basic[r] to its lower bound
		bv, nv := basic[r], nonbasic[col]
		theta := lower[bv].add(val[bv].neg()).mul(a[r][col].inv())
		val[bv] = lower[bv]
		val[nv] = val[nv].add(theta)
		for i := 0; i < m; i++ {
			if i != r && a[i][col].n != 0 {
				val[basic[i]] = val[basic[i]].add(a[i][col].mul(theta))
			}
		}
		inv := a[r][col].inv()
		for j := 0; j < n; j++ {
			if j == col {
				a[r][j] = inv
			} else if a[r][j].n != 0 {
				a[r][j] = a[r][j].mul(inv).neg()
			}
		}
		for i := 0; i < m; i++ {
			if i == r {
				continue
			}
			k := a[i][col]
			if k.n == 0 {
				continue
			}
			for j := 0; j < n; j++ {
				if j == col {
					a[i][j] = k.mul(inv)
				} else if a[r][j].n != 0 {
					a[i][j] = a[i][j].add(k.mul(a[r][j]))
				}
			}
		}
		basic[r], nonbasic[col] = nv, bv
	}
	return true
}

// project eliminates every symbol for which keep is false from the facts and
// returns what follows for the kept ones (Fourier-Motzkin with pruning).
func project(cs []Lin, keep func(Sym) bool) []Lin {
	cur := dedupLin(cs)
	for {
		// pick the symbol with the fewest products
		cnt := map[Sym][2]int{}
		for _, c := range cur {
			for _, t := range c.t {
				if keep(t.s) {
					continue
				}
				x := cnt[t.s]
				if t.k > 0 {
					x[0]++
				} else {
					x[1]++
				}
				cnt[t.s] = x
			}
		}
		if len(cnt) == 0 {
			return cur
		}
		var best Sym = -1
		bc := 0
		for s, x := range cnt {
			c := x[0]*x[1] - x[0] - x[1]
			if best < 0 || c < bc || c == bc && s < best {
				best, bc = s, c
			}
		}
		var pos, neg, rest []Lin
		for _, c := range cur {
			switch k := c.coef(best); {
			case k > 0:
				pos = append(pos, c)
			case k < 0:
				neg = append(neg, c)
			default:
				rest = append(rest, c)
			}
		}
		if len(pos)*len(neg) <= 60 {
			for _, p := range pos {
				for _, q := range neg {
					kp, kq := p.coef(best), -q.coef(best)
					g := gcd(kp, kq)
					r := p.scale(kq/g).addScaled(q, kp/g).tighten()
					if r.isConst() && r.c >= 0 {
						continue
					}
					if len(r.t) > 5 || bigCoef(r) {
						continue
					}
					rest = append(rest, r)
				}
			}
		}
		cur = dedupLin(rest)
		if len(cur) > 80 {
			cur = prune(cur)
		}
	}
}

func bigCoef(r Lin) bool {
	for _, t := range r.t {
		if t.k > 64 || t.k < -64 {
			return true
		}
	}
	return r.c > 1<<40 || r.c < -(1<<40)
}

func dedupLin(cs []Lin) []Lin {
	best := map[string]int64{}
	rep := map[string]Lin{}
	for _, c := range cs {
		k := termKey(c.t)
		if b, ok := best[k]; !ok || c.c < b {
			best[k] = c.c
			rep[k] = c
		}
	}
	var keys []string
	for k := range rep {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	out := make([]Lin, 0, len(keys))
	for _, k := range keys {
		out = append(out, rep[k])
	}
	return out
}

// prune drops inequalities that follow from the others.
func prune(cs []Lin) []Lin {
	out := append([]Lin(nil), cs...)
	sort.SliceStable(out, func(i, j int) bool { return len(out[i].t) > len(out[j].t) })
	for i := 0; i < len(out); {
		rest := make([]Lin, 0, len(out))
		rest = append(rest, out[:i]...)
		rest = append(rest, out[i+1:]...)
		if !feasible(append(rest, out[i].neg().plus(-1))) {
			out = rest
		} else {
			i++
		}
	}
	return out
}

// projectCons projects facts and further equalities to the kept symbols.
func projectCons(c *Cons, eqs []Lin, keep func(Sym) bool) []Lin {
	ge := append([]Lin(nil), c.ge...)
	es := append([]Lin(nil), eqs...)
	var ss []Sym
	for s := range c.sub {
		ss = append(ss, s)
	}
	sort.Slice(ss, func(i, j int) bool { return ss[i] < ss[j] })
	for _, s := range ss {
		es = append(es, linS(s).sub(c.sub[s]))
	}
	var done []Lin
	for len(es) > 0 {
		e := es[0]
		es = es[1:]
		if e.isConst() {
			continue
		}
		pick := -1
		for i, t := range e.t {
			if !keep(t.s) && (t.k == 1 || t.k == -1) {
				pick = i
				break
			}
		}
		if pick < 0 {
			done = append(done, e)
			continue
		}
		s, k := e.t[pick].s, e.t[pick].k
		rest := e.subst(s, linC(0))
		if k == 1 {
			rest = rest.neg()
		}
		for i := range es {
			es[i] = es[i].subst(s, rest)
		}
		for i := range done {
			done[i] = done[i].subst(s, rest)
		}
		for i := range ge {
			ge[i] = ge[i].subst(s, rest)
		}
	}
	for _, e := range done {
		ge = append(ge, e, e.neg())
	}
	var out []Lin
	for _, g := range project(ge, keep) {
		if !g.isConst() {
			out = append(out, g.tighten())
		}
	}
	return out
}
