package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

// Report collects what one property check found.
type Report struct {
	id       string
	tier     string
	start    time.Time
	viols    []Viol
	counts   map[string]int
	fns      map[string]bool
	rules    []string
	runs     []RunInfo
	assume   map[string]bool
	failures []string // analysis could not decide
	perKind  map[string]int
	mu       sync.Mutex
}

type Viol struct {
	Rule      string   `json:"rule"`
	Construct string   `json:"construct"`
	Detail    string   `json:"detail"`
	Path      []string `json:"path,omitempty"`
}

type RunInfo struct {
	Name     string `json:"name"`
	Outcomes int    `json:"outcomes"`
	States   int    `json:"abstract_states"`
	Forks    int    `json:"case_splits"`
	Funcs    int    `json:"functions"`
}

func newReport(id, tier string) *Report {
	return &Report{id: id, tier: tier, start: time.Now(), counts: map[string]int{}, fns: map[string]bool{}, assume: map[string]bool{}}
}

func (r *Report) rule(s string) { r.rules = append(r.rules, s) }
func (r *Report) add(k string, n int) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.counts[k] += n
}

func (r *Report) viol(rule, construct, detail string, path []string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, v := range r.viols {
		if v.Rule == rule && v.Construct == construct {
			return
		}
	}
	r.viols = append(r.viols, Viol{rule, construct, detail, path})
}

func (r *Report) found() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.viols)
}

func (r *Report) undecided(f string, a ...interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	s := fmt.Sprintf(f, a...)
	for _, x := range r.failures {
		if x == s {
			return
		}
	}
	r.failures = append(r.failures, s)
}

// absorb accounts for one interpreter run.
func (r *Report) absorb(name string, in *Interp, outs []Outcome) {
	r.mu.Lock()
	defer func() {
		r.mu.Unlock()
		for u := range in.undecided {
			r.undecided("%s: %s", name, u)
		}
	}()
	for f := range in.fnsSeen {
		if isRepoPkg(fnPkgPath(f)) {
			r.fns[shortFn(f.String())] = true
		}
	}
	r.counts["abstract_states"] += in.states
	r.counts["case_splits"] += in.forks
	r.counts["outcomes"] += len(outs)
	if name == "" {
		return
	}
	r.runs = append(r.runs, RunInfo{name, len(outs), in.states, in.forks, len(in.fnsSeen)})
}

func (r *Report) addKind(k string, n int) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.perKind == nil {
		r.perKind = map[string]int{}
	}
	r.perKind[k] += n
}

func shortFn(s string) string { return strings.ReplaceAll(s, modPath, "kf") }

// minimum requires that at least n of a kind were analysed.
func (r *Report) minimum(what string, n int) {
	if r.counts[what] < n && !stopFlag.Load() {
		r.undecided("only %d %s analysed, expected at least %d", r.counts[what], what, n)
	}
}

func (r *Report) finish(dir string, known []Known) int {
	sort.Strings(r.failures)
	for i, f := range r.failures {
		if i < 20 {
			r.viols = append(r.viols, Viol{"undecided", f, "the analysis could not decide this obligation", nil})
		}
	}
	os.MkdirAll(filepath.Join(dir, "evidence"), 0o755)
	os.MkdirAll(filepath.Join(dir, "evidence", "replay"), 0o755)
	var viols []Viol
	var kf []string
	for _, v := range r.viols {
		hit := false
		for _, k := range known {
			if k.Property == r.id && k.Rule == v.Rule && strings.Contains(v.Construct, k.Construct) {
				hit = true
				kf = append(kf, fmt.Sprintf("KNOWN-FINDING: property=%s %s", r.id, k.What))
				break
			}
		}
		if !hit {
			viols = append(viols, v)
		}
	}
	var fns []string
	for f := range r.fns {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	var asm []string
	for a := range r.assume {
		asm = append(asm, a)
	}
	sort.Strings(asm)
	runs := r.runs
	if len(runs) > 400 {
		runs = runs[:400]
	}
	cov := map[string]interface{}{
		"explanation":        strings.Join(r.rules, " | "),
		"counts":             r.counts,
		"functions_analysed": fns,
		"scenarios":          runs,
		"obligations_failed": len(r.viols),
		"violations":         r.viols,
	}
	if r.perKind != nil {
		cov["scenarios_by_kind"] = r.perKind
	}
	ev := evidenceDoc(r, cov, asm, len(viols))
	b, err := json.MarshalIndent(ev, "", "  ")
	if err != nil {
		fmt.Println("evidence:", err)
		return 1
	}
	if err := os.WriteFile(filepath.Join(dir, "evidence", r.id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("evidence:", err)
		return 1
	}
	fmt.Printf("%s: %d runs, %d abstract states, %d outcomes, %d functions", r.id, len(r.runs), r.counts["abstract_states"], r.counts["outcomes"], len(fns))
	for _, k := range sortedKeys(r.counts) {
		if k != "abstract_states" && k != "outcomes" && k != "case_splits" {
			fmt.Printf(", %s %d", k, r.counts[k])
		}
	}
	fmt.Printf(", %.1fs\n", time.Since(r.start).Seconds())
	for _, k := range kf {
		fmt.Println(k)
	}
	rp := filepath.Join(dir, "evidence", "replay", r.id+".txt")
	os.Remove(rp)
	if len(viols) == 0 {
		return 0
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s: %d violation(s)\nreplay: %s/run.sh %s\n\n", r.id, len(viols), dir, r.id)
	for _, v := range viols {
		fmt.Fprintf(&sb, "rule: %s\nconstruct: %s\n%s\n", v.Rule, v.Construct, v.Detail)
		for _, p := range v.Path {
			if len(p) > 400 {
				p = p[:400] + "..."
			}
			fmt.Fprintf(&sb, "    %s\n", p)
		}
		sb.WriteString("\n")
	}
	os.WriteFile(rp, []byte(sb.String()), 0o644)
	for i, v := range viols {
		if i < 8 {
			fmt.Printf("  %s: %s: %.300s\n", v.Rule, v.Construct, v.Detail)
		}
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.id, rp)
	return 1
}

// Known is an accepted finding.
type Known struct{ Property, Rule, Construct, What string }

// loadKnown reads lines "known: property=<id> rule=<rule> construct=<text> :: <what>".
func loadKnown(file string) ([]Known, error) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	var ks []Known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		head, what, ok := strings.Cut(strings.TrimPrefix(l, "known: "), " :: ")
		if !ok {
			return nil, fmt.Errorf("bad known finding: %s", l)
		}
		k := Known{What: what}
		for _, f := range strings.Split(head, " ; ") {
			n, v, _ := strings.Cut(f, "=")
			switch n {
			case "property":
				k.Property = v
			case "rule":
				k.Rule = v
			case "construct":
				k.Construct = v
			}
		}
		if k.Property == "" || k.Rule == "" || k.Construct == "" {
			return nil, fmt.Errorf("bad known finding: %s", l)
		}
		ks = append(ks, k)
	}
	return ks, nil
}
