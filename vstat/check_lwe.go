package main

// A02, A03: single-server clients over LWE.

import "strings"

func init() {
	checks["A02"] = checkA02
	checks["A03"] = checkA03
	assumptions["A02"] = []string{"matrix multiplication and the samplers are subject of C01, P01 and L06"}
	assumptions["A03"] = []string{"acceptance of one repetition is subject of A02"}
}

type lweKind struct {
	sess, mul, random, gauss, mat, digest string
	wide                                  bool
}

var lweKinds = []lweKind{
	{"zzverif.S_LWE", "lib/matrix.Mul", "lib/matrix.NewRandom", "lib/matrix.NewGauss", "Matrix", "Auth.DigestLWE", false},
	{"zzverif.S_LWE128", "lib/matrix.Mul128", "lib/matrix.NewRandom128", "lib/matrix.NewGauss128", "Matrix128", "Auth.DigestLWE128", true},
}

func (k lweKind) flat(r *Run) *Analysis {
	return r.flat(k.sess, k.mul, k.random, k.gauss, "lib/utils.NewPRG")
}

func (k lweKind) cell(a *Analysis, m, j *T) *T {
	p := a.p
	return p.app("ld", "", p.app("ia", "", p.app("ld", "", p.app("fa", k.mat+".data", m)), j))
}

func (k lweKind) sub(p *Pool, x, y *T) *T {
	if k.wide {
		return p.app("call", u128+"Uint128).SubWrap", x, y)
	}
	return p.sub(x, y)
}

const u128 = "(lukechampine.com/uint128."

// near: the literal says that the centred value v is below the bound.
func (k lweKind) near(p *Pool, lit, v, bound *T) bool {
	if !k.wide {
		return lit == p.app("<u", "", v, bound) || lit == p.app("<u", "", p.scale(bound, -1), v)
	}
	if lit == p.eq0(p.add(p.app("call", u128+"Uint128).Cmp64", v, bound), p.c(1))) {
		return true
	}
	top := p.app("call", u128+"Uint128).Sub", p.app("ld", "", p.app("global", "lukechampine.com/uint128.Max")),
		p.app("call", "lukechampine.com/uint128.From64", p.add(bound, p.c(1))))
	if lit == p.eq0(p.sub(p.app("call", u128+"Uint128).Cmp", v, top), p.c(1))) {
		return true
	}
	// 2^128 - bound: 0 - bound, wrapped
	for _, zero := range []*T{p.app("ld", "", p.app("global", "lukechampine.com/uint128.Zero")), p.app("zero", "uint128.Uint128")} {
		for _, b := range []*T{p.app("call", "lukechampine.com/uint128.From64", bound)} {
			w := p.app("call", u128+"Uint128).SubWrap", zero, b)
			if lit == p.eq0(p.sub(p.app("call", u128+"Uint128).Cmp", v, w), p.c(1))) {
				return true
			}
		}
		w := p.app("call", u128+"Uint128).SubWrap64", zero, bound)
		if lit == p.eq0(p.sub(p.app("call", u128+"Uint128).Cmp", v, w), p.c(1))) {
			return true
		}
	}
	if lit == p.eq0(p.add(p.app("call", u128+"Uint128).Cmp", v, p.app("call", "lukechampine.com/uint128.From64", bound)), p.c(1))) {
		return true
	}
	return false
}

func checkA02(r *Run) {
	all := r.rule("every-column", "a bit is returned only after a loop over all columns which leaves with an error unless the column, minus secret*digest, is within the noise bound of zero or of the scaling value")
	dec := r.rule("decoded-column", "the bit returned is the class of the queried column: 1 where the test against the scaling value holds, 0 where the test against zero holds")
	sec := r.rule("query-state", "the mask removed is this query's secret times the digest of the database information, and the scaling value is the one drawn for this query")
	for _, k := range lweKinds {
		k := k
		r.part(k.sess, func() {
			a := k.flat(r)
			p := a.p
			par := func(f string) *T { return p.app("ld", "", p.app("fa", "ParamsLWE."+f, p.app("param", "params"))) }
			bound, m := par("B"), par("M")
			digest := p.app("ld", "", p.app("fa", k.digest, p.app("ld", "", p.app("fa", "Info.Auth", p.app("param", "info")))))
			// the secret is the factor of the query, the mask is the product with the digest
			var secret, mask, scal *T
			for _, i := range a.calls(k.mul) {
				if a.arg(i, 1) == digest {
					mask = a.term(i)
					secret = a.arg(i, 0)
				}
			}
			if mask == nil {
				r.ob(sec, k.sess+" mask", "", false, "no product with the digest of the database information")
				return
			}
			inQuery := false
			for _, i := range a.calls(k.mul) {
				for q, what := range []string{"secret", "other factor"} {
					w := a.changedBefore(k.mat, a.arg(i, q), i)
					r.ob(sec, k.sess+" "+what+" as it was", a.f.where(i), w == "", "the %s is changed at %s before it is multiplied", what, w)
				}
				if a.term(i) != mask && a.arg(i, 0) == secret {
					inQuery = true
				}
			}
			r.ob(sec, k.sess+" secret", "", inQuery && callName(secret) == full(k.random) && len(secret.args) > 0 && secret.args[0] == p.app("param", "rnd"),
				"the mask uses %s, which is not the random secret of the query", short(secret))
			for _, e := range a.accepts() {
				ans := p.app("param", "a")
				val := func(kv *T) *T { return k.sub(p, k.cell(a, ans, kv), k.cell(a, mask, kv)) }
				cand := map[*T]bool{}
				zero := func(lit, kv *T) bool { return k.near(p, lit, val(kv), bound) }
				// candidates for the scaling value: single random numbers
				for _, i := range a.calls(k.random) {
					if t := a.term(i); t != secret && a.arg(i, 0) == p.app("param", "rnd") {
						cand[k.cell(a, t, p.c(0))] = true
					}
				}
				for t := range cand {
					t := t
					if len(a.loopsWith(m, func(lit, kv *T) bool { return k.near(p, lit, k.sub(p, val(kv), t), bound) })) > 0 {
						scal = t
					}
				}
				if !r.ob(sec, k.sess+" scaling value", a.f.whereB(e.b), scal != nil, "no column is tested against a scaling value drawn for the query") {
					continue
				}
				one := func(lit, kv *T) bool { return k.near(p, lit, k.sub(p, val(kv), scal), bound) }
				// the scaling value is in the query
				used := false
				for _, s := range a.stores {
					if s.name == "" && s.addr != nil && containsTerm(a.StoreVal(s), scal) {
						used = true
					}
				}
				r.ob(sec, k.sess+" scaling value in query", a.f.whereB(e.b), used, "the scaling value is not put into the query")
				path, ok, n := a.forall(m, func(lit, kv *T) bool { return zero(lit, kv) || one(lit, kv) }, a.goalAt(e.b))
				r.ob(all, k.sess, a.f.whereB(e.b), ok && n >= 2, "a bit is returned without testing every column (%d tests): %s", n, a.pathString(path))
				ls := a.loopsWith(m, func(lit, kv *T) bool { return zero(lit, kv) || one(lit, kv) })
				if len(ls) == 0 {
					r.ob(dec, k.sess, a.f.whereB(e.b), false, "no loop tests the columns")
				}
				for _, l := range ls {
					d, ok := a.decoded(l, func(lit, kv *T) (bool, bool) { return zero(lit, kv), one(lit, kv) }, p.app("param", "j"), e.b, e.b.Rets[0])
					r.ob(dec, k.sess, a.f.whereB(e.b), ok, "%s", d)
				}
			}
			if len(a.accepts()) == 0 {
				r.ob(all, k.sess, "", false, "no path returns a bit")
			}
		})
	}
}

// callErrNil: the literal says that the error (result n) of a call of fn is nil; it returns the call.
func callErrNil(lit *T, n string, fn ...string) *T {
	if lit.op != "==" || len(lit.args) != 2 {
		return nil
	}
	for k := 0; k < 2; k++ {
		x := lit.args[k]
		if x.op == "x" && x.aux == n && lit.args[1-k].op == "nil" {
			for _, f := range fn {
				if callName(x.args[0]) == full(f) {
					return x.args[0]
				}
			}
		}
	}
	return nil
}

func checkA03(r *Run) {
	rep := r.rule("every-repetition", "a bit is returned only after a loop over all 2t+1 repetitions which leaves with an error if one is refused")
	own := r.rule("own-query", "repetition k is decoded by the client that made the k-th query of this retrieval from the k-th answer, and every client queries the same position")
	maj := r.rule("strict-majority", "the bit returned was counted over all repetitions, and more than half of them have it")
	cnd := r.rule("candidate", "the candidate is replaced only when its votes are used up, gains a vote from an equal output and loses one from another")
	r.part("S_Amplify", func() {
		const rec, qry = "(*lib/client.LWE).Reconstruct", "(*lib/client.LWE).Query"
		a := r.flat("zzverif.S_Amplify", "lib/client.LWE.Query", "lib/client.LWE.Reconstruct")
		p := a.p
		t := p.app("param", "t")
		n := p.add(p.scale(t, 2), p.c(1))
		if len(a.accepts()) == 0 {
			r.ob(rep, "S_Amplify", "", false, "no path returns a bit")
		}
		for _, e := range a.accepts() {
			var rc *T
			var rk *T
			path, ok, sites := a.forall(n, func(lit, k *T) bool {
				c := callErrNil(lit, "1", rec)
				if c == nil || len(c.args) < 2 || c.args[1] != p.app("ld", "", p.app("ia", "", p.app("param", "a"), k)) || !containsTerm(c.args[0], k) {
					return false
				}
				rc, rk = c, k
				return true
			}, a.goalAt(e.b))
			if !r.ob(rep, "S_Amplify", a.f.whereB(e.b), ok && sites > 0, "a bit is returned although not every repetition was decoded without error (%d sites): %s", sites, a.pathString(path)) {
				continue
			}
			okq, detail := false, "no query is made by the clients that decode"
			for _, q := range a.calls(qry) {
				c := a.term(q)
				l := a.loopOf[q.Blk]
				if l == nil {
					continue
				}
				tr := a.TripOf(l)
				lo, kn := int64(-1), false
				if tr != nil {
					lo, kn = a.lower(p.sub(tr, n))
				}
				recv := p.subst(c.args[0], map[*T]*T{p.k(l.ID): rk})
				switch {
				case recv != rc.args[0]:
					detail = "queries are made by " + short(c.args[0]) + ", answers are decoded by " + short(rc.args[0])
				case !kn || lo < 0 || !a.everyIter(q.Blk, l):
					detail = "not every client makes a query"
				case c.args[1] != p.app("param", "i") || c.args[2] != p.app("param", "j"):
					detail = "a repetition queries another position"
				default:
					okq = true
				}
			}
			// clients of different repetitions are different objects
			if okq && !a.injective(rc.args[0], rc.args[0].vars) {
				okq, detail = false, "repetitions share a client: "+short(rc.args[0])
			}
			r.ob(own, "S_Amplify", a.f.whereB(e.b), okq, "%s", detail)

			v := e.vals[0]
			out := func(k *T) *T { // output of repetition k
				return p.app("x", "0", p.subst(rc, map[*T]*T{rk: k}))
			}
			// facts: count > n/2
			var cnt *T
			good := map[string]bool{}
			for key, ed := range a.edgesWith(func(lit *T, b *Block) bool {
				if lit.op != "<0" {
					return false
				}
				for _, f := range []int64{1, 2} {
					// t - c < 0, or 2t+1 - 2c < 0
					base := p.scale(t, f)
					if f == 2 {
						base = n
					}
					c := p.sub(base, lit.args[0])
					ts, co, cc := parts(c)
					if len(ts) == 1 && co[0] == f && cc == 0 && ts[0].op == "last" {
						cnt = ts[0]
						return true
					}
				}
				return false
			}) {
				good[key] = true
				_ = ed
			}
			path, ok = a.mustPass(func(ed Edge) bool { return good[ed.key()] }, a.goalAt(e.b))
			if !r.ob(maj, "S_Amplify test", a.f.whereB(e.b), ok && cnt != nil, "a bit is returned without testing that more than half of the repetitions have it: %s", a.pathString(path)) {
				continue
			}
			// the counter
			id := atoi(cnt.aux)
			l := a.loopByID(id)
			var ph *Ins
			if l != nil {
				for _, x := range l.Header.phis() {
					if cnt.args[0].op == "phi" && cnt.args[0].aux == itoa(x.ID) {
						ph = x
					}
				}
			}
			okc, d := ph != nil, "the counter is not a loop variable"
			if okc {
				k := p.k(l.ID)
				for q, b := range l.Header.Preds {
					if !l.Blocks[b] {
						if n, ok := ph.Args[q].isConstInt(); !ok || n != 0 {
							okc, d = false, "the counter does not start at zero"
						}
					}
				}
				s := a.symTrack(l, ph)
				eq := p.eq(v, out(k))
				path, ok := s.iterations(func(lit *T) string {
					if lit == eq {
						return "E"
					}
					return ""
				}, func(fl string, vals []string) bool {
					w := vals[s.hidx[ph]]
					h := "h" + itoa(s.hidx[ph])
					return w == h+"+0" || w == h+"+1" && strings.Contains(fl, "E")
				})
				if !ok {
					okc, d = false, "something else than repetitions equal to the returned bit is counted: "+a.pathString(path)
				}
				tr := a.TripOf(l)
				if tr != n {
					okc, d = false, "counted over "+short(tr)+" repetitions"
				}
			}
			r.ob(maj, "S_Amplify count", a.f.whereB(e.b), okc, "%s", d)

			// candidate of the majority vote
			if v.op == "last" && v.args[0].op == "phi" {
				l := a.loopByID(atoi(v.aux))
				var cand, votes *Ins
				for _, x := range l.Header.phis() {
					if v.args[0].aux == itoa(x.ID) {
						cand = x
					}
				}
				if cand == nil {
					continue
				}
				for _, x := range l.Header.phis() {
					if x != cand && isIntType(x.Typ) && l.ivs[x] == nil {
						votes = x
					}
				}
				if votes == nil {
					r.ob(cnd, "S_Amplify", a.f.whereB(e.b), false, "the candidate is chosen without votes")
					continue
				}
				s := a.symTrack(l, cand, votes)
				tr := a.TripOf(l)
				off := p.sub(n, tr) // elements before the loop
				x := out(p.add(p.k(l.ID), off))
				okv := tr == n || tr == p.sub(n, p.c(1))
				pv := a.at(votes, l.Header)
				pc := a.at(cand, l.Header)
				xs := "t" + itoa(x.id)
				path, ok := s.iterations(func(lit *T) string {
					switch lit {
					case p.eq0(pv):
						return "Z"
					case p.not(p.eq0(pv)):
						return "N"
					case p.eq(pc, x):
						return "E"
					case p.not(p.eq(pc, x)):
						return "D"
					}
					if lit == p.lt0(p.sub(pv, p.c(1))) {
						return "Z"
					}
					if lit == p.lt0(p.scale(pv, -1)) {
						return "N"
					}
					return ""
				}, func(fl string, vals []string) bool {
					hc, hv := "h"+itoa(s.hidx[cand]), "h"+itoa(s.hidx[votes])
					c, w := vals[s.hidx[cand]], vals[s.hidx[votes]]
					z, nz, eq, ne := strings.Contains(fl, "Z"), strings.Contains(fl, "N"), strings.Contains(fl, "E"), strings.Contains(fl, "D")
					if c == xs && !z && !eq || c != xs && c != hc+"+0" {
						return false
					}
					switch w {
					case "c1":
						return z && (c == xs || eq)
					case hv + "+1":
						return eq || z && c == xs
					case hv + "+-1":
						return nz && ne && c == hc+"+0"
					}
					return false
				})
				r.ob(cnd, "S_Amplify", a.f.whereB(e.b), ok && okv, "the vote changes otherwise (loop over %s elements): %s", short(tr), a.pathString(path))
			}
		}
	})
}
