package main

// L03: in the client programs a failed step never leads to a result.

import (
	"fmt"
	"go/constant"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["L03"] = checkL03
	assumptions["L03"] = []string{
		"log.Fatal* and os.Exit with a code other than 0 report a failure; what they print is not examined",
		"a panic (an unexpected type of a result) ends the program or the request without a result",
	}
}

// step: a call whose failure must be reported.
func step(name string) bool {
	n := shortN(name)
	for _, s := range []string{"lib/utils.LoadServersCertificates", "lib/utils.LoadConfig", "lib/pgp.RecoverKeyFromBlock", "lib/pgp.ArmorKey", "lib/query.ClientFSS).Encode"} {
		if strings.HasSuffix(n, s) {
			return true
		}
	}
	if strings.Contains(n, "lib/client.") {
		for _, s := range []string{").Query", ").QueryBytes", ").Reconstruct", ").ReconstructBytes"} {
			if strings.HasSuffix(n, s) {
				return true
			}
		}
	}
	return rpcMethod(name) || dialCall(name)
}

// output: a call that shows its arguments to the user; http reports whether it
// writes an HTTP response, from is the first argument shown.
func output(n string) (shows, http bool, from int) {
	switch {
	case n == "net/http.Error":
		return true, true, 1
	case n == "(net/http.ResponseWriter).Write", n == "(io.Writer).Write", n == "(io.StringWriter).WriteString":
		return true, true, 1
	case n == "(*os.File).Write", n == "(*os.File).WriteString", n == "io.WriteString":
		return true, n == "io.WriteString", 1
	case strings.HasPrefix(n, "fmt.Fprint"):
		return true, true, 1
	case strings.HasPrefix(n, "fmt.Print"), strings.HasPrefix(n, "log.Print"), n == "os.WriteFile":
		return true, false, 0
	case strings.HasPrefix(n, "(*log.Logger).Print"):
		return true, false, 1
	case strings.HasPrefix(n, "(*encoding/json.Encoder).Encode"), strings.HasPrefix(n, "(*html/template.Template).Execute"):
		return true, true, 1
	case strings.HasSuffix(n, "survey/v2.AskOne"):
		return true, false, 0
	}
	return false, false, 0
}

// direct: what the user sees as an answer, other than a log or an error response.
func (f *failures) direct(x *Ins) bool {
	n := f.a.callee(x)
	return !strings.Contains(n, "log.") && n != "net/http.Error"
}

type failures struct {
	r  *Run
	a  *Analysis
	is func(i *Ins) bool // steps
	sl map[*Ins]map[*Ins]bool
}

// slice: the instructions a value is computed from.
func (f *failures) slice(i *Ins) map[*Ins]bool {
	if m, ok := f.sl[i]; ok {
		return m
	}
	a := f.a
	m := map[*Ins]bool{}
	var dfs func(x *Ins)
	dfs = func(x *Ins) {
		if x == nil || m[x] {
			return
		}
		m[x] = true
		if x.Op == OpCall {
			if f.is(x) {
				return
			}
			// what is opaque may pass on any argument
		}
		for _, y := range x.Args {
			dfs(y)
		}
		if x.Op == OpAlloc || x.Op == OpMakeSlice {
			for _, s := range a.byRoot[rootKey(a.term(x))] {
				if s.i != nil && s.i.Op == OpStore {
					dfs(s.i.Args[1])
				}
			}
		}
	}
	dfs(i)
	f.sl[i] = m
	return m
}

// resultIn: the value comes from the result of a step, its error left out.
func (f *failures) resultIn(i *Ins) bool { return f.worth(i, false) }

// worth: as resultIn; with consts, a number or an empty text printed counts as
// a result also, as it is what a failed step leaves.
func (f *failures) worth(i *Ins, consts bool) bool {
	seen := map[*Ins]bool{}
	var dfs func(x *Ins, elem bool) bool
	dfs = func(x *Ins, elem bool) bool {
		if x == nil || seen[x] && !elem {
			return false
		}
		seen[x] = true
		if isErrorType(x.Typ) {
			return false
		}
		if x.Op == OpConst {
			return consts && elem && x.Val != nil && (x.Val.Kind() == constant.Int || x.Val.Kind() == constant.Float || x.Val.Kind() == constant.String && constant.StringVal(x.Val) == "")
		}
		if x.Op == OpCall && f.is(x) {
			return true
		}
		pass := elem && (x.Op == OpConvert || x.Op == OpMakeIface)
		for _, y := range x.Args {
			if dfs(y, pass) {
				return true
			}
		}
		if x.Op == OpAlloc || x.Op == OpMakeSlice {
			for _, s := range f.a.byRoot[rootKey(f.a.term(x))] {
				if s.i != nil && s.i.Op == OpStore && dfs(s.i.Args[1], x.Name == "varargs") {
					return true
				}
			}
		}
		return false
	}
	return dfs(i, true)
}

// badJoins: the joins at which a value shown is chosen, with the choices that are
// no messages; whether it is a result whatever is chosen.
func (f *failures) badJoins(i *Ins, consts bool) (map[*Ins]map[int]bool, bool) {
	bad := map[*Ins]map[int]bool{}
	always := false
	seen := map[*Ins]bool{}
	a := f.a
	var dfs func(x *Ins, elem bool)
	dfs = func(x *Ins, elem bool) {
		if x == nil || seen[x] && !elem || isErrorType(x.Typ) {
			return
		}
		seen[x] = true
		if l := a.loopOf[x.Blk]; x.Op == OpPhi && (l == nil || l.Header != x.Blk) {
			m := map[int]bool{}
			for k, y := range x.Args {
				if f.worth(y, consts && elem) {
					m[k] = true
				}
			}
			if len(m) > 0 {
				bad[x] = m
			}
			return
		}
		if x.Op == OpConst {
			always = always || consts && elem && f.worth(x, true)
			return
		}
		if x.Op == OpCall && f.is(x) {
			always = true
			return
		}
		pass := elem && (x.Op == OpConvert || x.Op == OpMakeIface)
		for _, y := range x.Args {
			dfs(y, pass)
		}
		if x.Op == OpAlloc || x.Op == OpMakeSlice {
			for _, s := range a.byRoot[rootKey(a.term(x))] {
				if s.i != nil && s.i.Op == OpStore {
					dfs(s.i.Args[1], x.Name == "varargs")
				}
			}
		}
	}
	dfs(i, true)
	return bad, always
}

// failed: the state right after the failure of a step.
func (f *failures) failed(c *Ins) (*pst, *Ins, bool) {
	st := &pst{b: c.Blk, env: map[int]int8{}}
	if c.Op == OpTypeAssert {
		var ok *Ins
		for _, b := range f.a.rpo {
			for _, x := range b.Ins {
				if x.Op == OpExtract && x.Args[0] == c && x.Idx == 1 {
					ok = x
				}
			}
		}
		if ok != nil {
			st.env[ok.ID] = fFalse
		}
		return st, nil, true
	}
	e, has := f.a.errIns(c)
	if !has {
		return nil, nil, false
	}
	if e != nil {
		st.env[e.ID] = fNon
	}
	return st, e, true
}

func (f *failures) after(x, c *Ins) bool {
	return x.Blk != c.Blk || f.a.order[x] > f.a.order[c]
}

// reports: the instruction shows the error, or a message only shown after it.
func (f *failures) reports(x, e *Ins, http bool) bool {
	sh, h, from := output(f.a.callee(x))
	if !sh || !h && strings.Contains(f.a.callee(x), "log.") || http && !h {
		return false
	}
	if h {
		return true
	}
	if e == nil {
		return false
	}
	for k := from; k < nargs(x); k++ {
		if f.slice(argIns(x, k))[e] {
			return true
		}
	}
	return f.a.whenNil(f.a.term(e), false, x.Blk)
}

// silent: a path from the failure to an end of the function as if nothing had happened.
// loose: telling the user is enough.
func (f *failures) silent(c *Ins, loose, http bool) (string, bool) {
	a := f.a
	st, e, has := f.failed(c)
	if !has {
		return "", false
	}
	async := c.Ctx != nil && c.Ctx.async() != nil
	told := func(b *Block, after bool) bool {
		for _, x := range b.Ins {
			if x.Op == OpCall && loose && (!after || f.after(x, c)) && f.reports(x, e, http) {
				return true
			}
		}
		return false
	}
	path, found := a.explore(exploreOpts{
		start: st,
		edge: func(q string, ed Edge) (string, bool) {
			if q != "r" && told(ed.B, ed.B == c.Blk) {
				q = "r"
			}
			// a new attempt
			if ed.To() == c.Blk && ed.To() != a.f.Entry {
				return q, false
			}
			return q, true
		},
		goal: func(s *pst) bool {
			if s.q == "r" || told(s.b, s.b == c.Blk) {
				return false
			}
			if s.b.Term == TThreadEnd && async {
				return true
			}
			if !a.accepting(s) {
				return false
			}
			for _, x := range s.b.Rets {
				if e != nil && x == e {
					return false
				}
			}
			return true
		},
	})
	if found {
		return a.pathString(path), true
	}
	return "", false
}

// shown: a path from the failure of c to the output x, on which x shows a result.
func (f *failures) shown(c, x *Ins) (string, bool) {
	a := f.a
	st, _, has := f.failed(c)
	if !has {
		return "", false
	}
	_, _, from := output(a.callee(x))
	always := false
	bad := map[*Block]map[int]bool{} // joins: the predecessors
	for k := from; k < nargs(x); k++ {
		m, al := f.badJoins(argIns(x, k), f.direct(x))
		always = always || al
		for ph, ks := range m {
			if bad[ph.Blk] == nil {
				bad[ph.Blk] = map[int]bool{}
			}
			for j := range ks {
				bad[ph.Blk][j] = true
			}
		}
	}
	if !always && len(bad) == 0 {
		return "", false
	}
	path, found := a.explore(exploreOpts{
		start: st,
		edge: func(q string, ed Edge) (string, bool) {
			to := ed.To()
			if to == c.Blk {
				return q, false
			}
			if m := bad[to]; m != nil {
				q = ""
				if m[predIndex(ed.B, ed.K)] {
					q = "b"
				}
			}
			return q, true
		},
		goal: func(s *pst) bool {
			return s.b == x.Blk && f.after(x, c) && (always || s.q == "b")
		},
	})
	if found {
		return a.pathString(path), true
	}
	return "", false
}

func checkL03(r *Run) {
	p := r.p
	drop := r.rule("not-dropped", "from the failure of a step no path leads to an end of the function as if nothing had happened: the error is returned, the program ends with an error, or, in a function without a result, the user is told")
	shows := r.rule("no-result", "from the failure of a step no path leads to an output of a result that the step is needed for")
	resp := r.rule("one-response", "after an error response nothing else is written to the response; a failure is always answered")
	in := func(fn *ssa.Function) bool {
		pk := fnPkgPath(fn)
		return strings.HasPrefix(pk, modPath+"/cmd/") || strings.HasPrefix(pk, modPath+"/simulations") || strings.HasPrefix(pk, modPath+"/data")
	}
	// functions that pass on a failure
	set := map[*ssa.Function]bool{}
	outer := func(fn *ssa.Function) *ssa.Function {
		for fn.Parent() != nil {
			fn = fn.Parent()
		}
		return fn
	}
	fns := map[*ssa.Function]bool{}
	for changed := true; changed; {
		changed = false
		for _, fn := range p.productFuncs() {
			if !in(fn) {
				continue
			}
			for _, b := range fn.Blocks {
				for _, x := range b.Instrs {
					c, ok := x.(ssa.CallInstruction)
					if !ok {
						continue
					}
					if g := staticCallee(c.Common()); !(g != nil && set[g]) && !step(calleeName(c.Common())) {
						continue
					}
					o := outer(fn)
					if !fns[o] {
						fns[o], changed = true, true
					}
					res := o.Signature.Results()
					if n := res.Len(); n > 0 && isErrorType(res.At(n-1).Type()) && !set[o] {
						set[o], changed = true, true
					}
				}
			}
		}
	}
	var list []*ssa.Function
	for fn := range fns {
		list = append(list, fn)
	}
	sort.Slice(list, func(i, j int) bool { return fnName(list[i]) < fnName(list[j]) })
	n := 0
	for _, fn := range list {
		r.part(fnName(fn), func() {
			a := r.flatFn(fn, "own "+fnName(fn), func(f *ssa.Function) bool { return f.Parent() == nil })
			f := &failures{r: r, a: a, sl: map[*Ins]map[*Ins]bool{}}
			f.is = func(i *Ins) bool {
				if i.Op != OpCall || len(i.Args) == 0 {
					return false
				}
				g := i.Args[0].SFn
				return g != nil && set[g] || step(a.callee(i))
			}
			res := fn.Signature.Results()
			loose := res.Len() == 0 || res.Len() == 1 && isErrorType(res.At(0).Type())
			n += f.each(drop, shortN(fnName(fn)), loose, false)
		})
	}
	r.ob(drop, "steps", "", n >= 20, "%d calls of fallible steps found in %d functions", n, len(list))

	// whole programs
	var progs []*Analysis
	for _, fn := range p.clientRoots(func(f *ssa.Function) bool { return p.funcSet(ctorNames...)[f] }) {
		progs = append(progs, r.flatFn(fn, "prog nolib "+fnName(fn), func(f *ssa.Function) bool { return strings.HasPrefix(fnPkgPath(f), modPath+"/lib/") }))
	}
	ns, no := 0, 0
	for _, a := range progs {
		root := shortN(fnName(a.f.Root))
		f := &failures{r: r, a: a, sl: map[*Ins]map[*Ins]bool{}}
		f.is = func(i *Ins) bool { return i.Op == OpCall && len(i.Args) > 0 && step(a.callee(i)) }
		r.part(root, func() {
			var steps, outs, errs []*Ins
			for _, b := range a.rpo {
				for _, i := range b.Ins {
					if i.Op != OpCall {
						continue
					}
					if f.is(i) {
						steps = append(steps, i)
					}
					if sh, _, from := output(a.callee(i)); sh {
						for k := from; k < nargs(i); k++ {
							if f.worth(argIns(i, k), f.direct(i)) {
								outs = append(outs, i)
								break
							}
						}
					}
					if a.callee(i) == "net/http.Error" {
						errs = append(errs, i)
					}
				}
			}
			steps = append(steps, f.asserts()...)
			for _, x := range outs {
				no++
				for _, c := range steps {
					if !a.Dom(c.Blk, x.Blk) || !f.after(x, c) {
						continue
					}
					ns++
					why, bad := f.shown(c, x)
					r.ob(shows, fmt.Sprintf("%s: %s, output at %s", root, f.name(c), a.posOf(x)), a.f.where(x), !bad, "a result is shown although %s failed: %s", f.name(c), why)
				}
			}
			if !isHandler(a.f.Root) {
				return
			}
			f.each(resp, root, true, true)
			f.once(resp, root, errs)
		})
	}
	r.ob(shows, "outputs", "", no >= 3 && ns >= 10, "%d outputs of results, %d pairs of a step and an output", no, ns)
}

func (f *failures) name(c *Ins) string {
	if c.Op == OpTypeAssert {
		return "the type assertion at " + f.a.posOf(c)
	}
	return shortN(f.a.callee(c))
}

// asserts: the type tests of results of steps.
func (f *failures) asserts() []*Ins {
	var out []*Ins
	for _, b := range f.a.rpo {
		for _, i := range b.Ins {
			if i.Op == OpTypeAssert && i.CommaOk && !isErrorType(i.Args[0].Typ) && f.resultIn(i.Args[0]) && !f.otherwise(i) {
				out = append(out, i)
			}
		}
	}
	return out
}

// otherwise: when the value is not of the type, it is used as something else instead.
func (f *failures) otherwise(c *Ins) bool {
	a := f.a
	var test *Ins
	for _, b := range a.rpo {
		for _, x := range b.Ins {
			if x.Op == OpExtract && x.Args[0] == c && x.Idx == 1 {
				test = x
			}
		}
	}
	if test == nil {
		return false
	}
	for _, b := range a.rpo {
		for k, s := range b.Succs {
			if len(s.Preds) != 1 {
				continue
			}
			no := false
			for _, l := range a.lits(Edge{b, k}) {
				no = no || l.op == "!" && l.args[0] == a.term(test)
			}
			if !no {
				continue
			}
			for _, d := range a.rpo {
				if !a.Dom(s, d) {
					continue
				}
				for _, x := range d.Ins {
					if x.Op != OpCall && x.Op != OpTypeAssert {
						continue
					}
					for _, y := range x.Args {
						if y == c.Args[0] || y != nil && a.term(y) == a.term(c.Args[0]) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// each applies the rule to every step in the function.
func (f *failures) each(rule, name string, loose, http bool) int {
	a := f.a
	n := 0
	k := map[string]int{}
	var steps []*Ins
	for _, b := range a.rpo {
		for _, i := range b.Ins {
			if i.Op == OpCall && f.is(i) {
				steps = append(steps, i)
			}
		}
	}
	for _, i := range append(steps, f.asserts()...) {
		if i.Op == OpCall {
			if _, has := a.errIns(i); !has {
				continue
			}
		}
		n++
		nm := f.name(i)
		k[nm]++
		why, bad := f.silent(i, loose, http)
		f.r.ob(rule, name+" "+nm+" "+strconv.Itoa(k[nm]), a.posOf(i), !bad, "continues after the failure: %s", why)
	}
	return n
}

// once: nothing is written after an error response.
func (f *failures) once(rule, name string, errs []*Ins) {
	a := f.a
	for j, e := range errs {
		path, found := a.explore(exploreOpts{
			start: &pst{b: e.Blk, env: map[int]int8{}},
			goal: func(s *pst) bool {
				for _, x := range s.b.Ins {
					if x.Op != OpCall || x == e || s.b == e.Blk && !f.after(x, e) {
						continue
					}
					n := a.callee(x)
					if _, h, _ := output(n); h || strings.HasPrefix(n, "(net/http.ResponseWriter).") || n == "net/http.Redirect" {
						return true
					}
				}
				return false
			},
		})
		f.r.ob(rule, fmt.Sprintf("%s: error response %d", name, j+1), a.f.where(e), !found, "more is written after the error response: %s", a.pathString(path))
	}
}

func argIns(i *Ins, k int) *Ins {
	if i.Invoke {
		return i.Args[k]
	}
	return i.Args[k+1]
}
