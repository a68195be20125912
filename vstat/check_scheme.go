package main

import (
	"fmt"
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// sameScheme: a server program and a client program that select by the same names
// make the client and the server of the same scheme for each of them.
func (r *Run) sameScheme(rule string) {
	p := r.p
	kind := func(n, pkg string) string {
		n = strings.TrimPrefix(n, modPath+"/")
		switch n {
		case pkg + ".NewPIR", pkg + ".NewPIRTwo":
			return "PIR"
		case pkg + ".NewPredicatePIR", pkg + ".NewPredicateAPIR":
			return strings.TrimPrefix(n, pkg+".New")
		}
		return ""
	}
	// what a program compares with strings
	words := func(fn *ssa.Function) map[string]bool {
		w := map[string]bool{}
		for g := range p.reachedFns([]*ssa.Function{fn}) {
			if !p.inRepo(g) || strings.HasPrefix(fnPkgPath(g), modPath+"/lib/") {
				continue
			}
			for _, b := range g.Blocks {
				for _, i := range b.Instrs {
					if x, ok := i.(*ssa.BinOp); ok && (x.Op == token.EQL || x.Op == token.NEQ) {
						for _, o := range []ssa.Value{x.X, x.Y} {
							if c, ok := o.(*ssa.Const); ok && c.Value != nil && c.Type().Underlying().String() == "string" {
								w[strings.Trim(c.Value.ExactString(), `"`)] = true
							}
						}
					}
				}
			}
		}
		delete(w, "")
		return w
	}
	type prog struct {
		fn    *ssa.Function
		words map[string]bool
	}
	var servers, clients []prog
	for _, fn := range p.productFuncs() {
		if fn.Name() != "main" || fn.Parent() != nil || fn.Pkg == nil || fn.Pkg.Pkg.Name() != "main" {
			continue
		}
		is := func(pkg string) bool {
			return p.reaches(fn, func(g *ssa.Function) bool { return kind(g.RelString(nil), pkg) != "" })
		}
		if p.reaches(fn, func(g *ssa.Function) bool { return g.RelString(nil) == grpcPkg+"NewServer" }) && is("lib/server") {
			servers = append(servers, prog{fn, words(fn)})
		} else if is("lib/client") {
			clients = append(clients, prog{fn, words(fn)})
		}
	}
	by := func(x []prog) {
		sort.Slice(x, func(i, j int) bool { return fnName(x[i].fn) < fnName(x[j].fn) })
	}
	by(servers)
	by(clients)
	// made: what a program makes for each of the names
	made := func(g prog, pkg string, names []string) map[string]map[string]string {
		a := r.flatFn(g.fn, "scheme "+fnName(g.fn), func(f *ssa.Function) bool { return strings.HasPrefix(fnPkgPath(f), modPath+"/lib/") })
		out := map[string]map[string]string{}
		for _, s := range names {
			kill := func(lit *T) bool {
				eq := true
				if lit.op == "!" {
					lit, eq = lit.args[0], false
				}
				if lit.op != "==" || len(lit.args) != 2 {
					return false
				}
				for _, x := range lit.args {
					if x.op == "str" {
						c := strings.Trim(x.aux, `"`)
						if contains1of(names, c) {
							return (c == s) != eq
						}
					}
				}
				return false
			}
			got := map[string]string{}
			a.under(kill, nil, func(st *pst) bool {
				for _, i := range st.b.Ins {
					if i.Op != OpCall || i.Invoke || len(i.Args) == 0 {
						continue
					}
					walkT(a.op(i, 0), func(t *T) bool {
						if t.op == "func" {
							if k := kind(t.aux, pkg); k != "" {
								got[k] = p.relPos(i.Pos)
							}
						}
						return true
					})
				}
				return false
			})
			out[s] = got
		}
		return out
	}
	n := 0
	for _, s := range servers {
		for _, c := range clients {
			var names []string
			for w := range s.words {
				if c.words[w] {
					names = append(names, w)
				}
			}
			sort.Strings(names)
			if len(names) < 2 {
				continue
			}
			s, c := s, c
			r.part(fnName(s.fn)+" and "+fnName(c.fn), func() {
				ms, mc := made(s, "lib/server", names), made(c, "lib/client", names)
				for _, w := range names {
					var ks, kc []string
					at := ""
					for k, w := range ms[w] {
						ks, at = append(ks, k), w
					}
					for k := range mc[w] {
						kc = append(kc, k)
					}
					sort.Strings(ks)
					sort.Strings(kc)
					if len(ks) == 0 && len(kc) == 0 {
						continue
					}
					n++
					r.ob(rule, fmt.Sprintf("%s of %s and %s", w, shortN(fnName(s.fn)), shortN(fnName(c.fn))), at, len(ks) == 1 && len(kc) == 1 && ks[0] == kc[0],
						"the server program makes %v, the client program %v", ks, kc)
				}
			})
		}
	}
	r.ob(rule, "programs", "", n >= 4, "%d schemes are offered by a server and a client program", n)
}
