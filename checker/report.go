package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Report collects what one check analysed and found.
type Report struct {
	Prop        string
	Obligations []Obligation
	Violations  []Finding
	Counts      map[string]int
	Rule        string
	Notes       []string
	Assumptions []string
	Floors      map[string]int // minimum counts, against vacuous passes
	start       time.Time
	seen        map[string]bool
	Undecided   []Obligation
	fns         map[string]bool
}

// Obligation is one decided instance of the property's rule.
type Obligation struct {
	Key    string `json:"key"`
	Result string `json:"result"`
}

// Finding is one violation.
type Finding struct {
	Key    string // stable identity: rule + construct
	Where  string
	Detail string
}

func newReport(prop string) *Report {
	return &Report{Prop: prop, Counts: map[string]int{}, Floors: map[string]int{}, start: time.Now(), seen: map[string]bool{}, fns: map[string]bool{}}
}

func (r *Report) ok(format string, args ...interface{}) {
	k := fmt.Sprintf(format, args...)
	if r.seen[k] {
		return
	}
	r.seen[k] = true
	r.Obligations = append(r.Obligations, Obligation{k, "holds"})
}

func (r *Report) violate(key, where, detail string) {
	id := key + "@" + where
	if r.seen[id] {
		return
	}
	r.seen[id] = true
	r.Obligations = append(r.Obligations, Obligation{key, "VIOLATED at " + where})
	r.Violations = append(r.Violations, Finding{key, where, detail})
}

// undecided notes an obligation the analysis could not settle either way.  It
// raises no alarm: the code may well be right.
func (r *Report) undecided(key, why string) {
	r.Obligations = append(r.Obligations, Obligation{key, "UNDECIDED: " + why})
	r.Undecided = append(r.Undecided, Obligation{key, why})
}

func (r *Report) count(k string, n int) { r.Counts[k] += n }

func knownFindings(verif, prop string) map[string]bool {
	out := map[string]bool{}
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		// known: property=<id> key=<key>
		l = strings.TrimSpace(l)
		pre := "known: property=" + prop + " key="
		if strings.HasPrefix(l, pre) {
			out[strings.TrimPrefix(l, pre)] = true
		}
	}
	return out
}

func (r *Report) finish(verif string) int {
	for k, min := range r.Floors {
		if r.Counts[k] < min {
			r.undecided("coverage floor: "+k, fmt.Sprintf("only %d %s analysed, at least %d expected; the code the rule is about is gone or no longer recognised", r.Counts[k], k, min))
		}
	}
	if len(r.fns) > 0 {
		r.Counts["functions interpreted"] = len(r.fns)
	}
	known := knownFindings(verif, r.Prop)
	var fresh, old []Finding
	for _, v := range r.Violations {
		if known[v.Key] {
			old = append(old, v)
		} else {
			fresh = append(fresh, v)
		}
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	held := 0
	var samples []Obligation
	for _, o := range r.Obligations {
		if o.Result == "holds" {
			held++
		}
	}
	samples = r.Obligations
	if len(samples) > 60 {
		samples = samples[:60]
	}
	cov := map[string]interface{}{
		"explanation":        r.Rule,
		"obligations":        len(r.Obligations),
		"discharged":         held,
		"analysed":           r.Counts,
		"obligation_samples": samples,
		"notes":              r.Notes,
	}
	ev := map[string]interface{}{
		"property": r.Prop, "tier": tier, "seed": seed, "level": "other",
		"coverage": cov, "assumptions": r.Assumptions,
		"wall_s": time.Since(r.start).Seconds(), "violations": len(fresh),
	}
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, r.Prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "cannot write evidence:", err)
		return 2
	}
	var keys []string
	for k := range r.Counts {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	fmt.Printf("property %s: %d obligations, %d hold, %d violations\n", r.Prop, len(r.Obligations), held, len(fresh))
	for _, k := range keys {
		fmt.Printf("  analysed %s: %d\n", k, r.Counts[k])
	}
	for _, u := range r.Undecided {
		fmt.Printf("  UNDECIDED %s: %s\n", u.Key, u.Result)
	}
	for _, v := range old {
		fmt.Printf("KNOWN-FINDING: property=%s %s at %s\n", r.Prop, v.Key, v.Where)
	}
	if len(fresh) == 0 {
		os.Remove(filepath.Join(dir, r.Prop+".violation.txt"))
		return 0
	}
	var sb strings.Builder
	for _, v := range fresh {
		fmt.Fprintf(&sb, "%s: %s\n    %s\n", v.Where, v.Key, strings.ReplaceAll(v.Detail, "\n", "\n    "))
	}
	path := filepath.Join(dir, r.Prop+".violation.txt")
	os.WriteFile(path, []byte(sb.String()), 0o644)
	fmt.Print(sb.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, path)
	return 1
}
