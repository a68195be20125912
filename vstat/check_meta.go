package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// productFuncs: every function of the module's product code.
func (p *Program) productFuncs() []*ssa.Function {
	var r []*ssa.Function
	for _, fn := range p.Funcs {
		if p.product(fn) {
			r = append(r, fn)
		}
	}
	return r
}

// isHandler: the function serves HTTP requests.
func isHandler(fn *ssa.Function) bool {
	s := fn.Signature
	if s.Recv() != nil || s.Params().Len() != 2 || s.Results().Len() != 0 {
		return false
	}
	return s.Params().At(0).Type().String() == "net/http.ResponseWriter" && s.Params().At(1).Type().String() == "*net/http.Request"
}

// clientRoots: the main functions and HTTP handlers of the programs outside lib
// from which one of the named functions can be reached by calls.
func (p *Program) clientRoots(want func(fn *ssa.Function) bool) []*ssa.Function {
	var r []*ssa.Function
	for _, fn := range p.productFuncs() {
		if fn.Name() == "main" && fn.Signature.Recv() == nil && fn.Parent() == nil && fn.Pkg != nil && fn.Pkg.Pkg.Name() == "main" || isHandler(fn) {
			if p.reaches(fn, want) {
				r = append(r, fn)
			}
		}
	}
	return r
}

// reaches: a chain of static calls (closures made count as called) leads from fn to a wanted function.
func (p *Program) reaches(fn *ssa.Function, want func(fn *ssa.Function) bool) bool {
	seen := map[*ssa.Function]bool{}
	var dfs func(g *ssa.Function) bool
	dfs = func(g *ssa.Function) bool {
		if seen[g] {
			return false
		}
		seen[g] = true
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				var ops [16]*ssa.Value
				for _, o := range in.Operands(ops[:0]) {
					h, ok := (*o).(*ssa.Function)
					if !ok {
						continue
					}
					if want(h) {
						return true
					}
					if p.inRepo(h) && !isHandler(h) && dfs(h) {
						return true
					}
				}
			}
		}
		return false
	}
	return dfs(fn)
}

var ctorNames = []string{"lib/client.NewPIR", "lib/client.NewPredicatePIR", "lib/client.NewPredicateAPIR"}

func (p *Program) funcSet(names ...string) map[*ssa.Function]bool {
	set := map[*ssa.Function]bool{}
	for _, n := range names {
		f := p.Func(n)
		if f == nil {
			panic(unresolved("no function " + n))
		}
		set[f] = true
	}
	return set
}

// programs: the flow graphs of all client programs and handlers that create a client,
// with the client library kept opaque.
func (r *Run) programs() []*Analysis {
	set := r.p.funcSet(ctorNames...)
	var as []*Analysis
	for _, fn := range r.p.clientRoots(func(f *ssa.Function) bool { return set[f] }) {
		as = append(as, r.flatFn(fn, "prog "+fnName(fn), func(f *ssa.Function) bool { return fnPkgPath(f) == modPath+"/lib/client" }))
	}
	return as
}

// another: the term of another element of the list x is an element of, at index k,
// and the number of elements of the list.
func (a *Analysis) another(x, k *T) (*T, *T) {
	p := a.p
	switch {
	case x.op == "ia":
		return p.app("ia", "", x.args[0], k), a.lenT(x.args[0])
	case x.op == "ld" && x.args[0].op == "ia":
		s := x.args[0].args[0]
		return p.app("ld", "", p.app("ia", "", s, k)), a.lenT(s)
	case x.op == "x" && x.args[0].op == "recv":
		r := x.args[0]
		as := append(append([]*T{}, r.args[:len(r.args)-1]...), k)
		if len(as) < 2 {
			return nil, nil
		}
		return p.app("x", x.aux, p.app("recv", r.aux, as...)), a.lenT(r.args[0])
	}
	return nil, nil
}

// baseField: the object a loaded field belongs to.
func baseField(f *T) *T {
	if f.op == "ld" && f.args[0].op == "fa" {
		return f.args[0].args[0]
	}
	return nil
}

func checkA07(r *Run) {
	agree := r.rule("field-agrees", "every path to the creation of a client has run a loop over the metadata of all servers which leaves unless the field equals that of the metadata used")
	down := r.rule("no-downgrade", "when the authenticated point scheme was asked for, every path to the creation of a point client has tested that the metadata announces an authenticated database")
	n := 0
	for _, a := range r.programs() {
		a := a
		r.part(a.f.Name, func() {
			p := a.p
			for _, c := range a.calls(ctorNames...) {
				n++
				d := a.arg(c, 1)
				name := a.f.Name + ": " + c.Method.Name()
				rows := a.fieldAt(d, "Info.NumRows", c)
				base := baseField(rows)
				var direct *Loop // the metadata is what the first iteration of this loop asked for
				if base == nil {
					if m := metaCall(rows); m != nil {
						direct = a.innermost(a.insOf[callID(m)].Blk)
						if g := inThread(a.insOf[callID(m)]); g != nil {
							direct = a.innermost(g.Blk)
						}
					}
				}
				if base == nil && direct == nil {
					r.ob(agree, name, a.f.where(c), false, "the origin of the metadata is not recognised: %s", short(rows))
					continue
				}
				mk := a.fieldAt(d, "Info.Merkle", c)
				fields := []struct {
					n string
					t *T
				}{
					{"NumRows", rows},
					{"NumColumns", a.fieldAt(d, "Info.NumColumns", c)},
					{"BlockSize", a.fieldAt(d, "Info.BlockSize", c)},
					{"PIRType", a.fieldAt(d, "Info.PIRType", c)},
					{"Merkle.ProofLen", a.fieldAt(mk, "Merkle.ProofLen", c)},
					{"Merkle.Root", a.fieldAt(mk, "Merkle.Root", c)},
				}
				var num *T
				if direct != nil {
					num = a.TripOf(direct)
				} else {
					_, num = a.another(base, p.c(0))
				}
				if num == nil {
					r.ob(agree, name, a.f.where(c), false, "the metadata %s is not an element of the list of all servers' metadata", short(base))
					continue
				}
				for _, f := range fields {
					// element k+off is compared in iteration k of a loop over all but the first off elements
					good := func(off int64) func(lit, k *T) bool {
						return func(lit, k *T) bool {
							if !containsTerm(lit, k) {
								return false
							}
							ix := p.add(k, p.c(off))
							if direct != nil {
								return sameOf(p, lit, f.t, p.c(0), ix)
							}
							o, _ := a.another(base, ix)
							g := p.subst(f.t, map[*T]*T{base: o})
							if off == 1 { // with the one before
								prev, _ := a.another(base, k)
								if sameLit(p, lit, p.subst(f.t, map[*T]*T{base: prev}), g) {
									return true
								}
							}
							return sameLit(p, lit, f.t, g) || sameLit(p, lit, base, o)
						}
					}
					path, ok, sites := a.forall(num, good(0), a.goalBlockAt(c))
					if !ok || sites == 0 {
						path, ok, sites = a.forall(p.sub(num, p.c(1)), good(1), a.goalBlockAt(c))
					}
					r.ob(agree, name+" "+f.n, a.f.where(c), ok && sites > 0, "the client is created although %s may differ between servers (%d tests): %s", f.n, sites, a.pathString(path))
				}
				if c.Method.Name() != "NewPIR" {
					continue
				}
				// downgrade
				asked := map[*T]bool{}
				for _, b := range a.rpo {
					for k := range b.Succs {
						for _, l := range a.lits(Edge{b, k}) {
							if l.op == "!" {
								l = l.args[0]
							}
							if l.op == "==" && len(l.args) == 2 {
								for j := range l.args {
									if l.args[j].op == "str" && strings.Trim(l.args[j].aux, "\"") == "pointVPIR" {
										asked[l.args[1-j]] = true
									}
								}
							}
						}
					}
				}
				if len(asked) == 0 {
					continue
				}
				typ := fields[3].t
				path, ok := a.under(func(lit *T) bool {
					for t := range asked {
						if assumeStr(t, "pointVPIR")(lit) {
							return true
						}
					}
					return false
				}, func(e Edge) bool {
					for _, l := range a.lits(e) {
						if v, eq, ok := strCmp(l, typ); ok && eq && v == "merkle" {
							return true
						}
					}
					return false
				}, a.goalBlockAt(c))
				r.ob(down, name, a.f.where(c), ok, "authenticated retrieval proceeds with an unauthenticated database: %s", a.pathString(path))
			}
		})
	}
	if n == 0 {
		r.ob(agree, "programs", "", false, "no program creates a client")
	}
}

// sameOf: the literal says x, made by iteration i of a loop, equals what iteration j made.
func sameOf(p *Pool, lit, x, i, j *T) bool {
	y := func(u, v *T) bool {
		d := 0
		return u == x && u != v && shifted(u, v, i, j, &d, 0) && d > 0
	}
	try := func(u, v *T) bool { return y(u, v) || y(v, u) }
	if lit.op == "==" && len(lit.args) == 2 && try(lit.args[0], lit.args[1]) {
		return true
	}
	if lit.op == "==0" && len(lit.args) == 1 {
		if ms, c := monos(lit.args[0]); c == 0 && len(ms) == 2 && ms[0].co*ms[1].co == -1 && len(ms[0].at) == 1 && len(ms[1].at) == 1 {
			return try(ms[0].at[0], ms[1].at[0])
		}
	}
	if u, v := equalLit(p, lit); u != nil {
		return try(u, v)
	}
	return false
}

// shifted: v is u with the metadata request of iteration j in place of that of iteration i.
func shifted(u, v, i, j *T, calls *int, depth int) bool {
	if u == v {
		return true
	}
	if u == i && v == j {
		return true
	}
	if u.op != v.op || u.aux != v.aux || len(u.args) != len(v.args) || depth > 30 {
		return false
	}
	for n := range u.args {
		if !shifted(u.args[n], v.args[n], i, j, calls, depth+1) {
			return false
		}
	}
	if hasSuffix(callName(u), "VPIRClient).DatabaseInfo") && len(u.args) > 0 && u.args[len(u.args)-1] == i && v.args[len(v.args)-1] == j {
		*calls++
	}
	return true
}

// sameLit: the literal says x equals y.
func sameLit(p *Pool, lit, x, y *T) bool {
	if x == y {
		return false
	}
	if lit == p.eq(x, y) || lit.op == "==" && (lit.args[0] == x && lit.args[1] == y || lit.args[0] == y && lit.args[1] == x) {
		return true
	}
	if u, v := equalLit(p, lit); u != nil && (u == x && v == y || u == y && v == x) {
		return true
	}
	if lit.op == "call" && callName(lit) == "reflect.DeepEqual" {
		u, v := lit.args[0], lit.args[1]
		return u == x && v == y || u == y && v == x
	}
	return false
}

func (a *Analysis) goalBlockAt(i *Ins) func(s *pst) bool { return a.goalBlock(i.Blk) }

func cut(t *T) string {
	if t == nil {
		return "-"
	}
	s := strings.ReplaceAll(t.String(), modPath+"/", "")
	if len(s) > 240 {
		s = s[:240]
	}
	return s
}

func init() { checks["A07"] = checkA07 }
