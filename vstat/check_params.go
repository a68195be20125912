package main

// C10: security parameters.

import (
	"go/ast"
	"go/constant"
	"go/types"
	"math"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C10"] = checkC10
	assumptions["C10"] = []string{"math.Ceil, AES and BLAKE3 are what their names say", "the dimensions multiplied into the noise bound do not overflow"}
}

const (
	tagFloor   = 4
	fieldBits  = 31
	sigmaFloor = 6.4
	tailBits   = 100
)

// pkgConst: the value of a constant of the program.
func (p *Program) pkgConst(pkg, name string) *big.Int {
	sp := p.SPkg[modPath+"/"+pkg]
	if sp == nil {
		panic(unresolved("package " + pkg))
	}
	c, ok := sp.Pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		panic(unresolved("constant " + pkg + "." + name))
	}
	v, ok := constant.Val(constant.ToInt(c.Val())).(*big.Int)
	if !ok {
		i, _ := constant.Int64Val(constant.ToInt(c.Val()))
		v = big.NewInt(i)
	}
	return v
}

func constT(t *T) (int64, bool) { return t.isC() }

// floatOf: the value of a floating point constant, through math.Ceil.
func floatOf(t *T) (float64, bool) {
	switch t.op {
	case "flt":
		q, ok := new(big.Rat).SetString(t.aux)
		if !ok {
			return 0, false
		}
		f, _ := q.Float64()
		return f, true
	case "math.Ceil":
		f, ok := floatOf(t.args[0])
		return math.Ceil(f), ok
	}
	if c, ok := constT(t); ok {
		return float64(c), true
	}
	return 0, false
}

// floatTable: the elements a package variable is initialised with.
func (p *Program) floatTable(pkg, name string) []float64 {
	for _, pk := range p.Pkgs {
		if pk.PkgPath != modPath+"/"+pkg {
			continue
		}
		for _, f := range pk.Syntax {
			for _, d := range f.Decls {
				g, ok := d.(*ast.GenDecl)
				if !ok {
					continue
				}
				for _, s := range g.Specs {
					v, ok := s.(*ast.ValueSpec)
					if !ok || len(v.Names) != 1 || v.Names[0].Name != name || len(v.Values) != 1 {
						continue
					}
					cl, ok := v.Values[0].(*ast.CompositeLit)
					if !ok {
						return nil
					}
					var out []float64
					for _, e := range cl.Elts {
						tv := pk.TypesInfo.Types[e]
						if tv.Value == nil {
							return nil
						}
						x, _ := constant.Float64Val(constant.ToFloat(tv.Value))
						out = append(out, x)
					}
					return out
				}
			}
		}
	}
	return nil
}

func checkC10(r *Run) {
	fld := r.rule("field", "the field of the tags has a prime order of at least 31 bits, and elements are drawn from all of it")
	tag := r.rule("tags", "the authenticated predicate scheme uses at least four tags")
	agr := r.rule("same-size", "client, server and the keys they exchange are built for the same number of field elements")
	sch := r.rule("same-scheme", "for every scheme a server and a client program select by name, both make the server and the client of the same scheme")
	r.sameScheme(sch)
	lwe := r.rule("lwe-parameters", "LWE parameters have at least the documented dimension, noise width and modulus, the dimensions of the database given, and the noise bound derived from the number of rows and the noise width")
	fix := r.rule("parameters-kept", "LWE parameters are not changed after they are made")
	use := r.rule("parameters-of-database", "programs make LWE parameters for the dimensions of the database they query, of the kind of the scheme")
	gt := r.rule("noise-table", "the table of the noise sampler is the Gaussian of at least the documented width, up to a negligible tail")
	gs := r.rule("noise-sampler", "the noise is a uniformly drawn index, kept with the table's probability, with a random sign")
	hs := r.rule("hash-size", "trees and proofs use hashes of at least 32 bytes")
	p := r.p

	r.part("field", func() {
		m := p.pkgConst("lib/field", "ModP")
		r.ob(fld, "order", "lib/field/field.go", m.BitLen() >= fieldBits && m.ProbablyPrime(20), "the order is %s", m)
		bits := p.pkgConst("lib/field", "Bits").Int64()
		r.ob(fld, "bits", "lib/field/field.go", bits == int64(m.BitLen()), "an element has %d bits, the order %d", bits, m.BitLen())
		k := p.pkgConst("lib/field", "ConcurrentExecutions").Int64()
		r.ob(tag, "number", "lib/field/field.go", k >= tagFloor, "%d tags", k)
	})
	r.randElement(fld)

	// number of elements
	tags := p.pkgConst("lib/field", "ConcurrentExecutions").Int64()
	for _, s := range []struct {
		typ  string
		want int64
	}{{"PredicateAPIR", 1 + tags}, {"PredicatePIR", 1}} {
		s := s
		r.part(s.typ, func() {
			a := r.flat("lib/client.New"+s.typ, "lib/fss.ClientInitialize")
			for _, e := range a.accepts() {
				at := a.endOf(e.b)
				w := a.f.whereB(e.b)
				c := a.fieldAt(e.vals[0], s.typ+".clientFSS", at)
				x := a.fieldAt(c, "clientFSS.executions", at)
				r.ob(agr, "client "+s.typ, w, isConst(x, s.want), "the client uses %s elements, not %d", short(x), s.want)
				f := a.fieldAt(c, "clientFSS.Fss", at)
				r.ob(agr, "client keys "+s.typ, w, callName(f) == full("lib/fss.ClientInitialize") && isConst(f.args[0], s.want), "keys are made by %s", short(f))
			}
			a = r.flat("lib/server.New"+s.typ, "lib/fss.ServerInitialize")
			for _, e := range a.accepts() {
				at := a.endOf(e.b)
				f := a.fieldAt(a.fieldAt(e.vals[0], s.typ+".serverFSS", at), "serverFSS.fss", at)
				r.ob(agr, "server keys "+s.typ, a.f.whereB(e.b), callName(f) == full("lib/fss.ServerInitialize") && isConst(f.args[0], s.want), "keys are evaluated by %s", short(f))
			}
			for _, m := range []string{"Answer", "AnswerBytes"} {
				a = r.flat("lib/server."+s.typ+"."+m, "lib/fss.Fss.EvaluatePF")
				n := 0
				for _, b := range a.rpo {
					for _, i := range b.Ins {
						if i.Op == OpCall && a.callee(i) == full("(lib/fss.Fss).EvaluatePF") {
							n++
							l := a.lenT(a.arg(i, 4))
							r.ob(agr, s.typ+"."+m+" "+p.relPos(i.Pos), p.relPos(i.Pos), isConst(l, s.want), "%s elements are evaluated", short(l))
						}
					}
				}
				r.ob(agr, s.typ+"."+m, "", n > 0, "no key is evaluated")
			}
		})
	}
	for _, f := range []string{"lib/fss.ClientInitialize", "lib/fss.ServerInitialize"} {
		f := f
		r.part(f, func() {
			a := r.flat(f)
			q := a.p.app("param", parName(a.f.Root, 0))
			for _, e := range a.accepts() {
				l := a.lenT(a.fieldAt(e.vals[0], "Fss.OutConvertBlock", a.endOf(e.b)))
				r.ob(agr, f, a.f.whereB(e.b), l == a.p.mul(a.p.c(4), q), "keys hold %s bytes of elements", short(l))
			}
		})
	}

	// LWE
	for _, s := range []struct {
		fn    string
		n     int64
		bytes int64
		dims  bool
	}{
		{"lib/utils.ParamsDefault", 1100, 4, false}, {"lib/utils.ParamsDefault128", 4800, 16, false},
		{"lib/utils.ParamsWithDatabaseSize", 1100, 4, true}, {"lib/utils.ParamsWithDatabaseSize128", 4800, 16, true},
	} {
		s := s
		r.part(s.fn, func() {
			a := r.flat(s.fn)
			for _, e := range a.accepts() {
				at := a.endOf(e.b)
				w := a.f.whereB(e.b)
				get := func(f string) *T { return a.fieldAt(e.vals[0], "ParamsLWE."+f, at) }
				n, okn := constT(get("N"))
				r.ob(lwe, s.fn+" dimension", w, okn && n >= s.n, "the dimension is %s", short(get("N")))
				sg, oks := floatOf(get("Sigma"))
				r.ob(lwe, s.fn+" noise width", w, oks && sg >= sigmaFloor, "the width is %s", short(get("Sigma")))
				r.ob(lwe, s.fn+" modulus", w, isConst(get("BytesMod"), s.bytes), "the modulus has %s bytes", short(get("BytesMod")))
				r.ob(lwe, s.fn+" plaintext", w, isConst(get("P"), 2), "the plaintext modulus is %s", short(get("P")))
				sd := get("SeedA")
				v := a.resolve(sd, at)
				r.ob(lwe, s.fn+" matrix", w, sd.op == "obj" && fromSeed(v), "the seed of the public matrix is %s", short(v))
				if !s.dims {
					continue
				}
				rows, cols := a.p.app("param", parName(a.f.Root, 0)), a.p.app("param", parName(a.f.Root, 1))
				r.ob(lwe, s.fn+" rows", w, get("L") == rows, "L is %s", short(get("L")))
				r.ob(lwe, s.fn+" columns", w, get("M") == cols, "M is %s", short(get("M")))
				b := get("B")
				var ceil *T
				walkT(b, func(x *T) bool {
					if _, ok := floatOf(x); ok && strings.HasPrefix(x.op, "math.") {
						ceil = x
					}
					return true
				})
				if ceil != nil {
					f, _ := floatOf(ceil)
					b = a.p.subst(b, map[*T]*T{ceil: a.p.c(int64(f))})
				}
				want := a.p.mul(a.p.c(12*int64(math.Ceil(sg))), rows)
				r.ob(lwe, s.fn+" bound", w, oks && b == want, "the noise bound is %s", short(b))
			}
		})
	}
	r.part("parameters kept", func() {
		n := 0
		for _, fn := range p.Funcs {
			if !p.inRepo(fn) || fnPkgPath(fn) == modPath+"/lib/utils" {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					s, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					n++
					for v := s.Addr; v != nil; {
						if nt := namedOf(v.Type()); nt != nil && nt.Obj().Name() == "ParamsLWE" {
							r.ob(fix, "store in "+fnName(fn)+" "+p.relPos(in.Pos()), p.relPos(in.Pos()), false, "a parameter is overwritten")
						}
						switch y := v.(type) {
						case *ssa.FieldAddr:
							v = y.X
						case *ssa.IndexAddr:
							v = y.X
						default:
							v = nil
						}
					}
				}
			}
		}
		for _, g := range []string{"SeedMatrixA", "cdf_table"} {
			gl, ok := p.SPkg[modPath+"/lib/utils"].Members[g].(*ssa.Global)
			if !ok {
				panic(unresolved("variable lib/utils." + g))
			}
			f, w := p.globalWritten(gl)
			r.ob(fix, g, w, f == "", "%s", f)
		}
		r.ob(fix, "stores", "", n > 0, "nothing examined")
	})
	r.part("parameters of database", func() {
		kinds := map[string]string{"lib/client.NewLWE": "", "lib/client.NewAmplify": "", "lib/client.NewLWE128": "128"}
		var fns []*ssa.Function
		for _, fn := range p.productFuncs() {
			if strings.HasPrefix(fnPkgPath(fn), modPath+"/lib/") {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() != nil {
						if _, ok := kinds[fnName(c.Common().StaticCallee())]; ok {
							fns = append(fns, fn)
						}
					}
				}
			}
		}
		sort.Slice(fns, func(i, j int) bool { return fnName(fns[i]) < fnName(fns[j]) })
		for k, fn := range fns {
			if k > 0 && fns[k-1] == fn {
				continue
			}
			a := r.flatFn(fn, "C10 "+fnName(fn), func(f *ssa.Function) bool { return strings.HasPrefix(fnPkgPath(f), modPath+"/lib/") })
			for _, b := range a.rpo {
				for _, i := range b.Ins {
					if i.Op != OpCall {
						continue
					}
					suf, ok := kinds[strings.TrimPrefix(a.callee(i), modPath+"/")]
					if !ok {
						continue
					}
					c := a.arg(i, 2)
					inst := shortN(fnName(fn)) + " " + shortN(a.callee(i))
					okc := callName(c) == full("lib/utils.ParamsWithDatabaseSize"+suf) && len(c.args) > 1
					if okc {
						rb, cb := fieldLoadOf(c.args[0], "Info.NumRows"), fieldLoadOf(c.args[1], "Info.NumColumns")
						okc = rb != nil && rb == cb && rb == a.arg(i, 1)
					}
					r.ob(use, inst, p.relPos(i.Pos), okc, "the parameters are %s", short(c))
				}
			}
		}
	})

	r.part("gauss", func() {
		tab := p.floatTable("lib/utils", "cdf_table")
		bad := ""
		if len(tab) < 2 {
			bad = "the table is not a list of constants"
		} else {
			sg := math.Sqrt(-1 / (2 * math.Log(tab[1])))
			if sg < sigmaFloor-1e-3 {
				bad = "its width is less than documented"
			}
			if math.Abs(tab[0]-0.5) > 1e-9 {
				bad = "zero, which has no sign, is not weighted by one half"
			}
			sg = sigmaFloor
			if a := math.Round(math.Sqrt(-1/(2*math.Log(tab[1])))*1000) / 1000; a > sg {
				sg = a
			}
			for k := 1; k < len(tab); k++ {
				if w := math.Exp(-float64(k*k) / (2 * sg * sg)); math.Abs(tab[k]-w) > 1e-4*w {
					bad = "entry " + itoa(k) + " is not the Gaussian's"
					break
				}
			}
			if k := float64(len(tab)); k*k/(2*sg*sg)/math.Ln2 < tailBits {
				bad = "the tail that is cut off is not negligible"
			}
		}
		r.ob(gt, "cdf_table", "lib/utils/gauss.go", bad == "", "%s", bad)
		a := r.flat("lib/utils.GaussSample")
		why := a.gaussSampler(int64(len(tab)))
		r.ob(gs, "GaussSample", p.relPos(a.f.Root.Pos()), why == "", "%s", why)
	})
	for _, k := range lweKinds {
		r.gaussMatrix(k, gs, lwe)
	}

	r.part("hash", func() {
		n := 0
		for _, fn := range p.productFuncs() {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(ssa.CallInstruction)
					if !ok || c.Common().StaticCallee() == nil {
						continue
					}
					if nm := c.Common().StaticCallee().RelString(nil); nm != "lukechampine.com/blake3.New" && !weakHash[nm] {
						continue
					} else if weakHash[nm] {
						if strings.HasPrefix(fnPkgPath(fn), modPath+"/lib/merkle") || strings.HasPrefix(fnPkgPath(fn), modPath+"/lib/database") {
							r.ob(hs, fnName(fn)+" "+nm, p.relPos(in.Pos()), false, "a hash of less than 32 bytes")
						}
						continue
					}
					n++
					k, ok := c.Common().Args[0].(*ssa.Const)
					r.ob(hs, fnName(fn), p.relPos(in.Pos()), ok && k.Int64() >= 32, "the hash is made with size %s", c.Common().Args[0])
				}
			}
		}
		a := r.flat("lib/merkle.BLAKE3.Hash")
		for _, e := range a.accepts() {
			v := e.vals[0]
			ok := (callName(v) == "(hash.Hash).Sum" && v.args[1].op == "nil") || callName(v) == "lukechampine.com/blake3.Sum256"
			r.ob(hs, "BLAKE3.Hash", a.f.whereB(e.b), ok, "the hash returned is %s", short(v))
		}
		r.ob(hs, "hashes", "", n > 0, "no hash is made")
	})
}

var weakHash = map[string]bool{
	"crypto/md5.New": true, "crypto/md5.Sum": true, "crypto/sha1.New": true, "crypto/sha1.Sum": true,
	"crypto/sha256.New224": true, "crypto/sha256.Sum224": true, "hash/fnv.New64": true, "hash/fnv.New32": true, "hash/crc32.NewIEEE": true,
}

// fromSeed: the value is the program's seed of the public matrix.
func fromSeed(v *T) bool {
	for v.op == "conv" {
		v = v.args[0]
	}
	return v.op == "ld" && v.args[0].op == "global" && v.args[0].aux == modPath+"/lib/utils.SeedMatrixA"
}

// gaussSampler: every value returned is a drawn index of the table, kept when a second draw is
// below the entry, with the sign of a random bit.
func (a *Analysis) gaussSampler(n int64) string {
	p := a.p
	type val struct {
		t    *T
		lits []*T
		b    *Block
	}
	var vs []val
	var split func(t *T, lits []*T, b *Block)
	split = func(t *T, lits []*T, b *Block) {
		if t.op == "ite" {
			split(t.args[1], append(lits[:len(lits):len(lits)], t.args[0]), b)
			split(t.args[2], append(lits[:len(lits):len(lits)], p.not(t.args[0])), b)
			return
		}
		if t.op == "phi" {
			for _, bl := range a.rpo {
				for _, ph := range bl.phis() {
					if t.aux == itoa(ph.ID) {
						for q := range ph.Args {
							split(a.at(ph.Args[q], bl.Preds[q]), append(lits[:len(lits):len(lits)], a.edgeLits(bl.Preds[q], bl)...), bl.Preds[q])
						}
						return
					}
				}
			}
		}
		vs = append(vs, val{t, lits, b})
	}
	for _, e := range a.accepts() {
		var lits []*T
		for _, pr := range e.b.Preds {
			if len(e.b.Preds) == 1 {
				lits = a.edgeLits(pr, e.b)
			}
		}
		split(e.vals[0], lits, e.b)
	}
	signs := map[bool]bool{}
	var bit *T
	for _, v := range vs {
		x, neg := v.t, false
		if x.op == "+" {
			neg = true
			x = p.scale(x, -1)
		}
		if x.op == "last" && x.args[0].op == "phi" {
			// the value of the last round
			for _, l := range a.loops {
				if ph := a.phiOf(l, x.args[0]); ph != nil {
					if nx := a.nextOf(l, ph); nx != nil {
						x = p.app("last", x.aux, p.subst(nx, map[*T]*T{p.k(l.ID): p.app("kend", x.aux)}))
					}
				}
			}
		}
		if x.op != "last" || hasSuffix(callName(x.args[0]), "math/rand.Rand).Intn") == false && hasSuffix(callName(x.args[0]), "math/rand.Rand).Int63n") == false || !isConst(x.args[0].args[1], n) {
			return "a value returned is " + short(v.t)
		}
		// kept
		id := atoi(x.aux)
		y := p.subst(x.args[0], map[*T]*T{p.app("kend", x.aux): p.k(id)})
		path, ok := a.mustPass(func(ed Edge) bool {
			for _, l := range a.lits(ed) {
				for _, lp := range a.loops {
					// a flag set in the last round
					if ph := a.phiOf(lp, l); ph != nil && a.initOf(lp, ph) == p.boolT(false) && a.nextOf(lp, ph) != nil {
						l = a.nextOf(lp, ph)
					} else if l.op == "!" {
						if ph := a.phiOf(lp, l.args[0]); ph != nil && a.initOf(lp, ph) == p.boolT(true) && a.nextOf(lp, ph) != nil {
							l = p.not(a.nextOf(lp, ph))
						}
					}
				}
				if l.op == "!" && l.args[0].op == "f<=" {
					l = p.app("f<", "", l.args[0].args[1], l.args[0].args[0])
				}
				if l.op == "f<" && hasSuffix(callName(l.args[0]), "math/rand.Rand).Float64") && l.args[1].op == "ld" && l.args[1].args[0].op == "ia" &&
					l.args[1].args[0].args[0].op == "global" && l.args[1].args[0].args[0].aux == modPath+"/lib/utils.cdf_table" && l.args[1].args[0].args[1] == y {
					return true
				}
			}
			return false
		}, a.goalBlock(v.b))
		if !ok {
			return "an index is returned without the comparison with its entry: " + a.pathString(path)
		}
		// sign
		has := false
		for _, l := range v.lits {
			c := l
			if c.op == "!" {
				c = c.args[0]
			}
			coin := false
			walkT(c, func(z *T) bool {
				if nm := callName(z); strings.Contains(nm, "math/rand.Rand).") {
					coin = true
					return false
				}
				return true
			})
			if !coin || bit != nil && bit != c {
				continue
			}
			if !fairBit(c) {
				return "the sign is decided by " + short(c)
			}
			bit = c
			has = true
			if neg {
				signs[true] = true
			} else {
				signs[false] = true
			}
		}
		if !has {
			return "the sign of " + short(v.t) + " is not drawn"
		}
	}
	if !signs[true] || !signs[false] {
		return "not both signs are returned"
	}
	return ""
}

// fairBit: one bit of a drawn number is compared with 0 or 1.
func fairBit(c *T) bool {
	if c.op != "==0" {
		return false
	}
	x := c.args[0]
	if x.op == "+" {
		if len(x.args) != 1 {
			return false
		}
		x = x.args[0]
	}
	if x.op == "%" && isConst(x.args[1], 2) {
		nm := callName(x.args[0])
		return strings.Contains(nm, "math/rand.Rand).") && !strings.HasSuffix(nm, "Intn") || isConst(x.args[0].args[len(x.args[0].args)-1], 2)
	}
	nm := callName(x)
	return strings.HasSuffix(nm, "n") && strings.Contains(nm, "math/rand.Rand).") && len(x.args) > 1 && isConst(x.args[1], 2)
}

// edgeLits: what is known on the way from a block to its successor.
func (a *Analysis) edgeLits(from, to *Block) []*T {
	for k, s := range from.Succs {
		if s == to {
			return a.lits(Edge{B: from, K: k})
		}
	}
	return nil
}
