package main

// P03-P05: what the queries look like.

import "strings"

func init() {
	checks["P05"] = checkP05
	assumptions["P05"] = []string{"the public matrix and the column bases are pseudorandom; matrix.Mul multiplies (C01, L06)", "sampling of the secrets is subject of P01, the width of the error of C10"}
}

// lin128 writes 128-bit arithmetic as a linear term (modulo 2^128).
func (p *Pool) lin128(t *T) *T {
	n := callName(t)
	if strings.HasPrefix(n, u128+"Uint128).") && len(t.args) == 2 {
		x := p.lin128(t.args[0])
		switch n[len(u128+"Uint128)."):] {
		case "Add", "AddWrap":
			return p.add(x, p.lin128(t.args[1]))
		case "Sub", "SubWrap":
			return p.sub(x, p.lin128(t.args[1]))
		case "Add64", "AddWrap64":
			return p.add(x, t.args[1])
		case "Sub64", "SubWrap64":
			return p.sub(x, t.args[1])
		}
		return t
	}
	switch {
	case n == "lukechampine.com/uint128.From64":
		return t.args[0]
	case t.op == "ld" && t.args[0].op == "global" && t.args[0].aux == "lukechampine.com/uint128.Max":
		return p.c(-1)
	case t.op == "ld" && t.args[0].op == "global" && t.args[0].aux == "lukechampine.com/uint128.Zero", t.op == "zero":
		return p.c(0)
	case n == "lukechampine.com/uint128.New" && t.args[1].op == "c" && t.args[1].aux == "0":
		return t.args[0]
	case t.op == "ite":
		return p.ite(t.args[0], p.lin128(t.args[1]), p.lin128(t.args[2]))
	}
	return t
}

// summands: the terms of a sum, each with coefficient one; false for anything else.
func summands(t *T) ([]*T, bool) {
	ms, c := monos(t)
	if c != 0 {
		return nil, false
	}
	var r []*T
	for _, m := range ms {
		if m.co != 1 || len(m.at) != 1 {
			return nil, false
		}
		r = append(r, m.at[0])
	}
	return r, true
}

// cellOf: x is element j of a matrix returned by a call; it returns the call.
func (k lweKind) cellOf(a *Analysis, x, j *T) *T {
	if x.op != "ld" && x.op != "mem" || x.args[0].op != "ia" || x.args[0].args[1] != j {
		return nil
	}
	d := x.args[0].args[0]
	if (d.op != "ld" && d.op != "mem") || d.args[0].op != "fa" || d.args[0].aux != k.mat+".data" {
		return nil
	}
	if m := d.args[0].args[0]; m.op == "call" {
		return m
	}
	return nil
}

func checkP05(r *Run) {
	lwe := r.rule("lwe-query", "every element of the query is the product of a secret row (drawn from the client's generator) with the public matrix, plus one element of the Gaussian error, and at the queried row only plus the scaling value")
	fresh := r.rule("own-secrets", "secret, error and scaling value of a query are drawn for this query alone and are different draws")
	noise := r.rule("noise-per-coordinate", "every element of the error is a sample of its own, negative samples included")
	dh := r.rule("dh-query", "every element sent is the base of its column raised to the secret scalar, and at the queried column only, multiplied by that column's base raised to the second secret scalar")
	dim := r.rule("whole-query", "the query has one element per row (LWE) or per column (Diffie-Hellman)")
	for _, k := range lweKinds {
		k := k
		for _, amp := range []bool{false, true} {
			sess := "zzverif.S_Two" + k.sess[len("zzverif.S_"):]
			if amp {
				if k.wide {
					continue
				}
				sess = "zzverif.S_TwoAmplify"
			}
			r.part(sess, func() {
				a := r.flat(sess, k.mul, k.random, k.gauss, "lib/utils.NewPRG")
				p := a.p
				par := func(f string) *T { return p.app("ld", "", p.app("fa", "ParamsLWE."+f, p.app("param", "params"))) }
				used := map[*T]string{}
				type place struct {
					t  *T
					at *Ins
				}
				var qs []place
				for _, b := range a.rpo {
					if b.Term == TReturn && len(b.Rets) == 2 {
						for _, ret := range b.Rets {
							qs = append(qs, place{a.at(ret, b), a.endOf(b)})
						}
					}
				}
				for _, i := range a.calls("runtime.KeepAlive") {
					qs = append(qs, place{a.arg(i, 0), i})
				}
				n := len(qs)
				{
					for q, pl := range qs {
						name := sess + " query " + sprint(q+1)
						t, at, b := pl.t, pl.at, pl.at.Blk
						j, i := p.app("param", "#k"), p.app("param", "i"+sprint(q+1))
						data := a.fieldAt(t, k.mat+".data", at)
						e := a.elemAt(data, j, at)
						if k.wide {
							e = p.lin128(e)
						}
						sel := p.eq(i, j)
						var prod, err, secret *T
						for _, c := range []struct {
							t  *T
							j  *T
							at bool
						}{{p.assume(e, sel, false), j, false}, {p.subst(p.assume(e, sel, true), map[*T]*T{j: i}), i, true}} {
							ss, ok := summands(c.t)
							var pr, er, scal *T
							for _, x := range ss {
								m := k.cellOf(a, x, c.j)
								switch {
								case m != nil && callName(m) == full(k.mul) && pr == nil:
									pr = m
								case m != nil && callName(m) == full(k.gauss) && er == nil:
									er = m
								case k.cellOf(a, x, p.c(0)) != nil && callName(k.cellOf(a, x, p.c(0))) == full(k.random) && scal == nil:
									scal = k.cellOf(a, x, p.c(0))
								default:
									ok = false
								}
							}
							ok = ok && pr != nil && er != nil && (scal != nil) == c.at
							what := "the other rows"
							if c.at {
								what = "the queried row"
							}
							if !r.ob(lwe, name+", "+what, a.f.whereB(b), ok, "an element is %s", short2(c.t)) {
								continue
							}
							secret = pr.args[0]
							pub := pr.args[1]
							good := callName(secret) == full(k.random) && len(secret.args) >= 3 && secret.args[0] == p.app("param", "rnd") && isConst(secret.args[1], 1) && secret.args[2] == par("N")
							r.ob(lwe, name+", secret, "+what, a.f.whereB(b), good, "the secret is %s, not a random row of the dimension of the parameters", short2(secret))
							good = callName(pub) == full(k.random) && len(pub.args) >= 3 && callName(pub.args[0]) == full("lib/utils.NewPRG") && pub.args[0].args[0] == par("SeedA") && pub.args[1] == par("N") && pub.args[2] == par("L")
							r.ob(lwe, name+", public matrix, "+what, a.f.whereB(b), good, "the public matrix is %s", short2(pub))
							good = len(er.args) >= 2 && isConst(er.args[0], 1) && er.args[1] == par("L")
							r.ob(dim, name+", error, "+what, a.f.whereB(b), good, "the error is %s", short2(er))
							if prod == nil {
								prod, err = pr, er
								for _, x := range []*T{secret, er} {
									good := used[x] == "" && len(x.vars) == map[bool]int{true: 1}[amp]
									r.ob(fresh, name+" "+callName(x), a.f.whereB(b), good, "%s is also used by %s", short2(x), used[x])
									used[x] = name
								}
							} else {
								r.ob(lwe, name+", same masks", a.f.whereB(b), prod == pr && err == er, "rows are masked differently")
							}
							if scal != nil {
								good := used[scal] == "" && len(scal.args) > 0 && scal.args[0] == p.app("param", "rnd") && len(scal.vars) == map[bool]int{true: 1}[amp]
								r.ob(fresh, name+" scaling value", a.f.whereB(b), good, "%s is also used by %s", short2(scal), used[scal])
								used[scal] = name
							}
						}
					}
				}
				r.ob(lwe, sess+" queries", "", n == 2, "%d queries found", n)
				for _, i := range a.calls(k.mul) {
					for q, what := range []string{"secret", "public matrix"} {
						w := a.changedBefore(k.mat, a.arg(i, q), i)
						r.ob(fresh, sess+" "+what+" as drawn", a.f.where(i), w == "", "the %s is changed at %s before it is multiplied", what, w)
					}
				}
			})
		}
		r.gaussMatrix(k, noise, dim)
	}
	r.part("S_TwoDH", func() {
		a := r.flat("zzverif.S_TwoDH")
		p := a.p
		g := p.app("ld", "", p.app("fa", "Auth.Group", p.app("ld", "", p.app("fa", "Info.Auth", p.app("param", "info")))))
		nc := p.app("ld", "", p.app("fa", "Info.NumColumns", p.app("param", "info")))
		seen := map[*T]string{}
		scalar := func(t *T) *T {
			if t.op == "ld" && t.args[0].op == "fa" && t.args[0].aux == "Group.val" {
				c := t.args[0].args[0]
				if callName(c) == groupPkg+"Group).RandomScalar" && c.args[0] == g && c.args[1] == p.app("param", "rnd") && len(c.vars) == 0 {
					return c
				}
			}
			return nil
		}
		which := map[int]int{}
		for _, b := range a.rpo {
			for _, i := range b.Ins {
				if i.Op != OpCall {
					continue
				}
				e := a.term(i)
				if e.op != "gEnc" {
					continue
				}
				l := a.loopOf[b]
				if l == nil {
					r.ob(dh, "S_TwoDH", a.f.where(i), false, "an element is sent outside of the loop over the columns")
					continue
				}
				k := p.k(l.ID)
				if tr := a.TripOf(l); !r.ob(dim, "S_TwoDH", a.f.where(i), tr == nc, "the loop over the elements has %s iterations", short2(tr)) {
					continue
				}
				hit := 0
				for q := 1; q <= 2; q++ {
					col := p.rem(p.app("param", "i"+sprint(q)), nc)
					sel := p.eq(col, k)
					if !containsTerm(e, sel) {
						continue
					}
					hit = q
					name := "S_TwoDH query " + sprint(q)
					v := e.args[0]
					no := p.assume(v, sel, false)
					yes := p.subst(p.assume(v, sel, true), map[*T]*T{k: col})
					ok := no.op == "gMul" && scalar(no.args[1]) != nil && a.groupBase(no.args[0], g, i) == k
					if !r.ob(dh, name+", other columns", a.f.where(i), ok, "an element is %s", short2(no)) {
						continue
					}
					rs := scalar(no.args[1])
					var ts *T
					ok = yes.op == "gAdd" && len(yes.args) == 2
					if ok {
						n := 0
						for _, x := range yes.args {
							if x.op != "gMul" || a.groupBase(x.args[0], g, i) != col || scalar(x.args[1]) == nil {
								ok = false
								continue
							}
							if scalar(x.args[1]) == rs {
								n++
							} else {
								ts = scalar(x.args[1])
							}
						}
						ok = ok && n == 1
					}
					r.ob(dh, name+", queried column", a.f.where(i), ok, "the element is %s", short2(yes))
					r.ob(fresh, name, a.f.where(i), seen[rs] == "" && (ts == nil || seen[ts] == ""), "a scalar is also used by %s %s", seen[rs], seen[ts])
					seen[rs] = name
					if ts != nil {
						seen[ts] = name
					}
				}
				r.ob(dh, "S_TwoDH blinded column", a.f.where(i), hit > 0, "no element is blinded: %s", short2(e))
				which[hit]++
			}
		}
		r.ob(dh, "S_TwoDH queries", "", which[1] == 1 && which[2] == 1, "queries recognised: %v", which)
	})
}

// gaussMatrix: the error matrix holds one sample per element.
func (r *Run) gaussMatrix(k lweKind, noise, dim string) {
	r.part(k.gauss, func() {
		a := r.flat(k.gauss, "lib/utils.GaussSample")
		p := a.p
		for _, b := range a.rpo {
			if b.Term != TReturn {
				continue
			}
			at := a.endOf(b)
			j := p.app("param", "#k")
			data := a.fieldAt(a.at(b.Rets[0], b), k.mat+".data", at)
			e := a.elemAt(data, j, at)
			if k.wide {
				e = p.lin128(e)
			}
			ok := callName(e) == full("lib/utils.GaussSample") && containsTerm(e, j)
			r.ob(noise, k.gauss, a.f.whereB(b), ok, "an element is %s", short2(e))
			n := p.mul(p.app("param", parName(a.f.Root, 0)), p.app("param", parName(a.f.Root, 1)))
			r.ob(dim, k.gauss, a.f.whereB(b), a.lenT(data) == n, "the error has %s elements", short2(a.lenT(data)))
		}
	})
}

// changedBefore: a place that writes elements of the matrix m before at, "" if there is none.
func (a *Analysis) changedBefore(mat string, m *T, at *Ins) string {
	// the matrix an address of an element is in
	base := func(t *T) *T {
		in := false
		for t.op == "ia" || t.op == "sl" || t.op == "ld" || t.op == "mem" || t.op == "conv" || t.op == "fa" {
			if t.op == "fa" {
				if t.aux == mat+".data" {
					return t.args[0]
				}
				if !in {
					return nil
				}
			}
			in = true
			t = t.args[0]
		}
		return nil
	}
	for _, s := range a.stores {
		if !a.mayPrecede(s.i, at) || s.addr == nil || s.i == at {
			continue
		}
		ts := []*T{s.addr}
		switch {
		case s.name == "copy" || s.name == "clear":
			ts = []*T{a.op(s.i, 0)}
		case s.name != "":
			ts = s.addr.args
		case s.addr.op != "ia":
			continue
		}
		for _, t := range ts {
			b := base(t)
			if s.name != "" && t == m {
				return a.f.where(s.i)
			}
			if b == nil {
				continue
			}
			switch b.op {
			case "call":
				if b != m && (m.op == "call" && callID(b) != callID(m) || m.op != "call") {
					continue
				}
			case "param", "obj":
				if b != m {
					continue
				}
			default:
				if !a.mayAlias(b, m) {
					continue
				}
			}
			return a.f.where(s.i)
		}
	}
	return ""
}
