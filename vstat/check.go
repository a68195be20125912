package main

// Runner: obligations, verdicts, evidence and known findings.

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Ob is one obligation: a rule applied to one construct.
type Ob struct {
	Rule   string `json:"rule"`
	Inst   string `json:"instance"`
	Where  string `json:"where"`
	OK     bool   `json:"ok"`
	Detail string `json:"detail,omitempty"`
}

type Run struct {
	sharedPaths map[string]bool
	p           *Program
	prop        string
	tier        string
	obs         []Ob
	flats       map[string]*Analysis
	rules       map[string]string // rule -> what it demands
	funcs       map[string]bool
	blocks, states,
	sites int
	known map[string]string
	keep  func(rule string) bool // nil: all rules
	drop  map[string]bool
}

// also runs the rules of another property that this one rests on.
func (r *Run) also(check checkFn, rules ...string) {
	old, drop := r.keep, r.drop
	r.drop = map[string]bool{}
	r.keep = func(n string) bool { return contains1of(rules, n) }
	check(r)
	r.keep, r.drop = old, drop
}

func contains1of(xs []string, x string) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

type checkFn func(r *Run)

var checks = map[string]checkFn{}
var assumptions = map[string][]string{}

// rule declares what a rule demands (shown in the evidence).
func (r *Run) rule(name, text string) string {
	if r.keep != nil && !r.keep(name) {
		r.drop[name] = true
		return name
	}
	r.rules[name] = text
	return name
}

func (r *Run) ob(rule, inst, where string, ok bool, detail string, args ...any) bool {
	if len(args) > 0 {
		detail = fmt.Sprintf(detail, args...)
	}
	if ok {
		detail = ""
	}
	if len(detail) > 900 {
		detail = detail[:900] + "…"
	}
	if r.drop[rule] {
		return ok
	}
	r.obs = append(r.obs, Ob{rule, inst, where, ok, detail})
	return ok
}

// flat analyses a function, with the named functions kept as opaque calls.
func (r *Run) flat(name string, noInl ...string) *Analysis {
	key := name + "!" + strings.Join(noInl, ",")
	if a, ok := r.flats[key]; ok {
		return a
	}
	fn := r.p.Func(name)
	if fn == nil {
		panic(unresolved("no function " + name))
	}
	no := map[*ssa.Function]bool{}
	for _, n := range noInl {
		f := r.p.Func(n)
		if f == nil {
			panic(unresolved("no function " + n))
		}
		no[f] = true
	}
	return r.flatFn(fn, key, func(f *ssa.Function) bool { return no[f] })
}

func (r *Run) flatFn(fn *ssa.Function, key string, no func(f *ssa.Function) bool) *Analysis {
	if a, ok := r.flats[key]; ok {
		return a
	}
	f := r.p.NewFlat(fn, no)
	a := f.Analyze()
	r.flats[key] = a
	r.blocks += len(f.Blocks)
	r.funcs[fnName(fn)] = true
	for g := range f.Inlined {
		r.funcs[fnName(g)] = true
	}
	return a
}

type unresolved string

func (r *Run) exec() (err error) {
	defer func() {
		if e := recover(); e != nil {
			w := "engine"
			d := fmt.Sprint(e)
			if _, ok := e.(unresolved); ok {
				w = "anchor"
			} else {
				d += " " + trimStack(string(debug.Stack()))
			}
			r.ob("analysable", w, "", false, "%s", d)
		}
	}()
	c := checks[r.prop]
	if c == nil {
		return fmt.Errorf("no check for %s", r.prop)
	}
	c(r)
	return nil
}

// part runs one group of rules; a failure to analyse it does not hide the others.
func (r *Run) part(name string, f func()) {
	defer func() {
		if e := recover(); e != nil {
			d := fmt.Sprint(e)
			if _, ok := e.(unresolved); !ok {
				d += " " + trimStack(string(debug.Stack()))
			}
			r.ob("analysable", name, "", false, "%s", d)
		}
	}()
	f()
}

func trimStack(s string) string {
	ls := strings.Split(s, "\n")
	var out []string
	for _, l := range ls {
		if strings.Contains(l, "/vstat/") {
			out = append(out, strings.TrimSpace(l))
		}
	}
	if len(out) > 8 {
		out = out[:8]
	}
	return strings.Join(out, " < ")
}

func loadKnown(path string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		// finding: property=<id> key=<rule|instance> <what fails>
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		var prop, key string
		rest := strings.TrimPrefix(l, "finding: ")
		for _, w := range strings.Fields(rest) {
			if strings.HasPrefix(w, "property=") {
				prop = strings.TrimPrefix(w, "property=")
			}
			if strings.HasPrefix(w, "key=") {
				key = strings.TrimPrefix(w, "key=")
			}
		}
		k := strings.Index(rest, "key="+key)
		m[prop+" "+key] = strings.TrimSpace(rest[k+len("key="+key):])
	}
	return m
}

func (o Ob) key() string { return strings.ReplaceAll(o.Rule+"|"+o.Inst, " ", "_") }

// finish prints the verdict and writes the evidence; it returns the exit status.
func (r *Run) finish(dir string, t0 time.Time, loadErr error) int {
	if loadErr != nil {
		r.ob("analysable", "load", "", false, "%v", loadErr)
	}
	var bad, okc int
	status := 0
	var viol []Ob
	perRule := map[string]int{}
	for _, o := range r.obs {
		perRule[o.Rule]++
		if o.OK {
			okc++
			continue
		}
		if w, known := r.known[r.prop+" "+o.key()]; known {
			fmt.Printf("KNOWN-FINDING: property=%s %s (%s at %s)\n", r.prop, w, o.key(), o.Where)
			continue
		}
		bad++
		viol = append(viol, o)
	}
	ev := filepath.Join(dir, "evidence")
	os.MkdirAll(ev, 0o755)
	replay := filepath.Join(ev, r.prop+".violation.txt")
	os.Remove(replay)
	if bad > 0 {
		status = 1
		var sb strings.Builder
		for _, o := range viol {
			fmt.Fprintf(&sb, "property %s: rule %s (%s)\n  instance: %s\n  at: %s\n  %s\n", r.prop, o.Rule, r.rules[o.Rule], o.Inst, o.Where, o.Detail)
		}
		os.WriteFile(replay, []byte(sb.String()), 0o644)
		fmt.Print(sb.String())
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.prop, replay)
	} else {
		fmt.Printf("OK property=%s obligations=%d\n", r.prop, okc)
	}
	var samples []any
	seen := map[string]int{}
	for _, o := range r.obs {
		if seen[o.Rule] < 2 {
			seen[o.Rule]++
			samples = append(samples, o)
		}
	}
	var fns []string
	for f := range r.funcs {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	rt := map[string]any{}
	for n, d := range r.rules {
		rt[n] = map[string]any{"demands": d, "obligations": perRule[n]}
	}
	for _, a := range r.flats {
		r.states += a.States
	}
	cov := map[string]any{
		"explanation":        fmt.Sprintf("Static analysis of the current sources of /repo: %d obligations of %d rules decided on %d functions (translated to one flow graph per entry point, callees expanded), %d basic blocks, %d path states explored; nothing is executed.", len(r.obs), len(r.rules), len(fns), r.blocks, r.states),
		"obligations":        len(r.obs),
		"discharged":         okc,
		"rules":              rt,
		"functions_analysed": fns,
		"flow_graphs":        len(r.flats),
		"basic_blocks":       r.blocks,
		"path_states":        r.states,
		"samples":            samples,
	}
	tier := r.tier
	out := map[string]any{
		"property": r.prop, "tier": tier, "seed": seedOf(), "level": "other", "coverage": cov,
		"assumptions": append([]string{
			"behaviour of the standard library and of third-party packages is trusted at their documented interfaces",
			"sizes in database metadata are not negative and their products fit in int",
		}, assumptions[r.prop]...),
		"wall_s": time.Since(t0).Seconds(), "violations": bad,
	}
	b, _ := json.MarshalIndent(out, "", " ")
	os.WriteFile(filepath.Join(ev, r.prop+".json"), append(b, '\n'), 0o644)
	return status
}

func seedOf() int {
	n := 0
	fmt.Sscan(os.Getenv("VERIF_SEED"), &n)
	return n
}
