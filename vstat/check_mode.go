package main

// L08: the kind and index of keys.

import (
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["L08"] = checkL08
	assumptions["L08"] = []string{"all servers and clients are run with the same configuration", "simulations pass the number of configured servers as -servers"}
}

const dpfPkg = "github.com/dkales/dpf-go/dpf."

func checkL08(r *Run) {
	dom := r.rule("domain", "distributed point function keys are made and evaluated over the number of bits of the number of columns")
	cli := r.rule("client-kind", "a client makes distributed point function keys for two servers, one for each in order, and bit vectors otherwise")
	srv := r.rule("server-kind", "a point server made for two servers evaluates queries as keys, any other one takes them as bits")
	mode := r.rule("mode-choice", "a server program makes the two-server point server exactly if two servers are configured")
	par := r.rule("party", "a predicate server evaluates the key it is sent as the party it was made for")
	idx := r.rule("party-index", "a server program makes predicate servers for the index of the address it listens at")
	keys := r.rule("key-index", "the client's j-th query holds the j-th key")
	disp := r.rule("dispatch", "the request on the connection to server j carries the j-th query")
	conn := r.rule("connections", "connection j is the one to the j-th configured address")
	p := r.p
	columns := func(a *Analysis, t *T, base func(*T) bool) bool {
		if t.op == "conv" {
			t = t.args[0]
		}
		if t.op != "bits.Len" {
			return false
		}
		b := fieldLoadOf(t.args[0], "Info.NumColumns")
		return b != nil && base(b)
	}
	// servers
	for _, s := range []struct {
		name string
		dpf  bool
	}{{"S_ServerPIR", false}, {"S_ServerPIRCores", false}, {"S_ServerPIRTwo", true}, {"S_ServerPIRTwoCores", true}} {
		s := s
		r.part(s.name, func() {
			a := r.flat("zzverif." + s.name)
			q := a.p.app("param", "q")
			var calls []*Ins
			for _, i := range a.calls(dpfPkg + "EvalFull") {
				calls = append(calls, i)
				ok := a.arg(i, 0) == q && columns(a, a.arg(i, 1), func(b *T) bool {
					return b == a.p.app("fa", "Bytes.Info", a.p.app("param", "db"))
				})
				r.ob(dom, s.name, p.relPos(i.Pos), ok, "the key is evaluated as %s", short(a.term(i)))
			}
			if !s.dpf {
				// never evaluated, the bits are those of the query
				path, ok := a.mustPassNot(func(b *Block) bool {
					for _, i := range calls {
						if i.Blk == b {
							return true
						}
					}
					return false
				})
				r.ob(srv, s.name+" bits", p.relPos(a.f.Root.Pos()), ok, "the query is evaluated as a key: %s", a.pathString(path))
				return
			}
			path, ok := a.explorePasses(calls)
			r.ob(srv, s.name+" key", p.relPos(a.f.Root.Pos()), ok && len(calls) > 0, "an answer is computed without evaluating the key: %s", a.pathString(path))
			// the query itself is not read otherwise
			for _, b := range a.rpo {
				for _, i := range b.Ins {
					if i.Op == OpLoad && a.pathReads(i, q) {
						path, ok := a.mustPassNot(func(x *Block) bool { return x == i.Blk })
						r.ob(srv, s.name+" key used", p.relPos(i.Pos), ok, "the bits of the key are used as they are: %s", a.pathString(path))
					}
				}
			}
		})
	}
	// client
	r.part("S_ClientPIRTwo", func() {
		a := r.flat("zzverif.S_ClientPIRTwo")
		n := 0
		for _, e := range a.accepts() {
			at := a.endOf(e.b)
			n++
			w := a.f.whereB(e.b)
			var gen *T
			ok := isConst(a.lenT(e.vals[0]), 2)
			for k := int64(0); k < 2; k++ {
				x := a.elemAt(e.vals[0], a.p.c(k), at)
				good := x.op == "x" && x.aux == itoa(int(k)) && callName(x.args[0]) == dpfPkg+"Gen" && (gen == nil || gen == x.args[0])
				ok = ok && good
				if good {
					gen = x.args[0]
				}
			}
			r.ob(cli, "two servers", w, ok, "the queries are %s, %s", short(a.elemAt(e.vals[0], a.p.c(0), at)), short(a.elemAt(e.vals[0], a.p.c(1), at)))
			if gen != nil {
				okc := columns(a, gen.args[1], func(b *T) bool { return b == a.p.app("param", "info") })
				r.ob(dom, "client", w, okc, "keys are made as %s", short(gen))
			}
		}
		r.ob(cli, "two servers", "", n > 0, "no query")
	})
	r.part("S_ClientPIRMore", func() {
		a := r.flat("zzverif.S_ClientPIRMore")
		calls := a.calls(dpfPkg + "Gen")
		path, ok := a.mustPassNot(func(b *Block) bool {
			for _, i := range calls {
				if i.Blk == b {
					return true
				}
			}
			return false
		})
		r.ob(cli, "more servers", p.relPos(a.f.Root.Pos()), ok, "keys are made: %s", a.pathString(path))
	})
	for _, s := range []string{"S_PredicateAPIRQuery", "S_PredicatePIRQuery"} {
		s := s
		r.part(s, func() {
			a := r.flat("zzverif."+s, "lib/fss.Fss.GenerateTreePF")
			n := 0
			for _, e := range a.accepts() {
				at := a.endOf(e.b)
				for k := int64(0); k < 2; k++ {
					n++
					v := a.fieldAt(a.elemAt(e.vals[0], a.p.c(k), at), "FSS.FssKey", at)
					ok := v.op == "ld" && v.args[0].op == "ia" && isConst(v.args[0].args[1], k) && callName(v.args[0].args[0]) == full("(lib/fss.Fss).GenerateTreePF")
					r.ob(keys, s+" "+itoa(int(k)), a.f.whereB(e.b), ok, "the key is %s", short(v))
				}
			}
			r.ob(keys, s, "", n > 0, "no query")
		})
	}
	// predicate servers
	for _, s := range []string{"S_ServerPredicateAPIR", "S_ServerPredicatePIR", "S_ServerPredicateAPIRBytes", "S_ServerPredicatePIRBytes"} {
		s := s
		r.part(s, func() {
			a := r.flat("zzverif."+s, "lib/fss.Fss.EvaluatePF")
			n := 0
			for _, i := range a.calls(full("(lib/fss.Fss).EvaluatePF")) {
				n++
				ok := a.arg(i, 1) == a.p.app("param", "id")
				r.ob(par, s+" "+p.relPos(i.Pos), p.relPos(i.Pos), ok, "the key is evaluated as party %s", short(a.arg(i, 1)))
				k := a.arg(i, 2)
				b := fieldLoadOf(k, "FSS.FssKey")
				okk := b != nil && (b == a.p.app("param", "q") || strings.HasSuffix(s, "Bytes"))
				r.ob(par, s+" key "+p.relPos(i.Pos), p.relPos(i.Pos), okk, "the key is %s", short(k))
			}
			r.ob(par, s, "", n > 0, "no key is evaluated")
		})
	}
	// programs
	var fns []*ssa.Function
	for _, fn := range p.productFuncs() {
		if fn.Name() != "main" || fn.Parent() != nil || fn.Pkg == nil || fn.Pkg.Pkg.Name() != "main" {
			continue
		}
		if p.reaches(fn, func(g *ssa.Function) bool { return g.RelString(nil) == grpcPkg+"NewServer" }) {
			fns = append(fns, fn)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fnName(fns[i]) < fnName(fns[j]) })
	np, nf := 0, 0
	for _, fn := range fns {
		fn := fn
		name := shortN(fnName(fn))
		sim := strings.Contains(fnPkgPath(fn), "/simulations/")
		r.part(name, func() {
			a := r.flatFn(fn, "L08 "+fnName(fn), func(f *ssa.Function) bool { return strings.HasPrefix(fnPkgPath(f), modPath+"/lib/") })
			var sids []*T
			for _, i := range a.calls("net.Listen") {
				ad := a.arg(i, 1)
				if (ad.op == "ld" || ad.op == "mem") && ad.args[0].op == "ia" && fieldLoadOf(ad.args[0].args[0], "Config.Addresses") != nil {
					sids = append(sids, ad.args[0].args[1])
				}
			}
			r.ob(idx, name, "", len(sids) > 0, "it listens at no configured address")
			two := func(l *T) (bool, bool) { // literal: exactly two servers configured, its truth
				neg := false
				if l.op == "!" {
					l, neg = l.args[0], true
				}
				if l.op != "==0" {
					return false, false
				}
				c := a.p.add(l.args[0], a.p.c(2))
				if l.args[0].op == "+" && len(l.args[0].args) == 1 && l.args[0].co[0] == -1 {
					c = a.p.sub(a.p.c(2), l.args[0])
				}
				if c.op == "len" && fieldLoadOf(c.args[0], "Config.Addresses") != nil {
					return true, !neg
				}
				if sim && c.op == "ld" && callName(c.args[0]) == "flag.Int" && c.args[0].args[0].op == "str" && c.args[0].args[0].aux == "servers" {
					return true, !neg
				}
				return false, false
			}
			var choose func(c *T, want *bool, i *Ins, inst string)
			choose = func(c *T, want *bool, i *Ins, inst string) {
				if c.op == "ite" {
					if is, v := two(c.args[0]); is {
						nv := !v
						choose(c.args[1], &v, i, inst)
						choose(c.args[2], &nv, i, inst)
						return
					}
					choose(c.args[1], want, i, inst)
					choose(c.args[2], want, i, inst)
					return
				}
				if c.op != "func" {
					return
				}
				var kind bool
				switch strings.TrimPrefix(c.aux, modPath+"/") {
				case "lib/server.NewPIRTwo":
					kind = true
				case "lib/server.NewPIR":
				default:
					return
				}
				np++
				if want != nil {
					r.ob(mode, inst, p.relPos(i.Pos), *want == kind, "%s is called for the other number of servers", shortN(c.aux))
					return
				}
				path, ok := a.mustPass(func(ed Edge) bool {
					for _, l := range a.lits(ed) {
						if is, v := two(l); is && v == kind {
							return true
						}
					}
					return false
				}, a.goalBlockAt(i))
				r.ob(mode, inst, p.relPos(i.Pos), ok, "%s is called whatever the number of servers: %s", shortN(c.aux), a.pathString(path))
			}
			for _, b := range a.rpo {
				for _, i := range b.Ins {
					if i.Op != OpCall || i.Invoke || len(i.Args) == 0 {
						continue
					}
					choose(a.op(i, 0), nil, i, name+" "+p.relPos(i.Pos))
					switch n := strings.TrimPrefix(a.callee(i), modPath+"/"); n {
					case "lib/server.NewPredicateAPIR", "lib/server.NewPredicatePIR":
						nf++
						x := a.arg(i, 1)
						ok := false
						for _, s := range sids {
							ok = ok || x == a.p.app("byteof", "", s, a.p.c(0)) || x == s || x.op == "conv" && x.args[0] == s
						}
						r.ob(idx, name+" "+p.relPos(i.Pos), p.relPos(i.Pos), ok, "the server is party %s", short(x))
					}
				}
			}
		})
	}
	r.ob(mode, "programs", "", np >= 2, "%d point servers are made", np)
	r.ob(idx, "programs", "", nf >= 2, "%d predicate servers are made", nf)
	r.dispatch(disp, conn)
}

// mustPassNot: no accepting path enters a block of the set.
func (a *Analysis) mustPassNot(bad func(*Block) bool) ([]*Block, bool) {
	path, found := a.explore(exploreOpts{
		edge: func(q string, e Edge) (string, bool) { return q, true },
		goal: func(s *pst) bool { return bad(s.b) },
	})
	return path, !found
}

// explorePasses: every accepting path enters one of the calls' blocks.
func (a *Analysis) explorePasses(calls []*Ins) ([]*Block, bool) {
	good := map[*Block]bool{}
	for _, i := range calls {
		good[i.Blk] = true
	}
	return a.mustPassBlock(good, a.accepting)
}

// pathReads: the load reads memory of the value itself.
func (a *Analysis) pathReads(i *Ins, v *T) bool {
	ad := a.op(i, 0)
	return ad.op == "ia" && ad.args[0] == v
}
