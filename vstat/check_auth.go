package main

// A01-A05: acceptance conditions of the authenticated schemes.

import "strconv"

func init() {
	checks["A01"] = checkA01
	assumptions["A01"] = []string{"the MAC keys and key shares themselves are subject of P01, P03"}
}

const randElem = "lib/field.RandElementWithPRG"
const genTree = "lib/fss.Fss.GenerateTreePF"

func checkA01(r *Run) {
	tag := r.rule("tag-per-key", "every path that returns a number has run a loop over all MAC keys which leaves with an error unless key*aggregate equals the recombined tag, for every aggregate in the returned number")
	val := r.rule("verified-value", "the returned number is an aggregate recombined from both answers modulo the field prime, or the quotient of two such aggregates")
	key := r.rule("key-binding", "the key used by the tag test is the field element drawn for this position and handed to key generation at the next position; element 0 is 1")
	shp := r.rule("answer-shape", "a number is returned only for two answers of the same length, which is one aggregate or two")
	div := r.rule("non-zero-count", "an average is returned only if the verified count is not zero")
	for _, sess := range []string{"zzverif.S_PredicateAPIR", "zzverif.S_PredicateAPIRBytes"} {
		sess := sess
		r.part(sess, func() {
			a := r.flat(sess, genTree, "lib/fss.ClientInitialize", randElem)
			p := a.p
			gens := a.calls("(lib/fss.Fss).GenerateTreePF", "(*lib/fss.Fss).GenerateTreePF")
			if len(gens) == 0 {
				panic(unresolved("no key generation in " + sess))
			}
			gen := gens[0]
			vec := a.arg(gen, 2)
			n := p.sub(a.lenT(vec), p.c(1))
			first := a.elemAt(vec, p.c(0), gen)
			r.ob(key, sess+" element 0", a.f.where(gen), first == p.c(1), "element 0 of the vector is %s, not 1", short(first))
			ex := a.accepts()
			if len(ex) == 0 {
				r.ob(val, sess, "", false, "no path returns a number")
			}
			for _, e := range ex {
				var aggs []*T
				v := e.vals[0]
				switch {
				case v.op == "mod" && v.aux == strconv.FormatInt(modP, 10):
					aggs = []*T{v}
				case v.op == "/":
					aggs = []*T{v.args[0], v.args[1]}
					want := p.not(p.eq0(v.args[1]))
					path, ok := a.mustPass(func(ed Edge) bool { return a.hasLit(ed, want) }, a.goalAt(e.b))
					r.ob(div, sess+" divisor", a.f.whereB(e.b), ok, "path without the test: %s", a.pathString(path))
				}
				okv := len(aggs) > 0
				for _, d := range aggs {
					if d.op != "mod" || d.aux != strconv.FormatInt(modP, 10) {
						okv = false
					}
				}
				if !r.ob(val, sess+" exit", a.f.whereB(e.b), okv, "returns %s", short(v)) {
					continue
				}
				for k, d := range aggs {
					ms, c := monos(d.args[0])
					if !r.ob(val, sess+" aggregate "+sprint(k), a.f.whereB(e.b), len(ms) == 2 && c == 0 && ms[0].co == 1 && ms[1].co == 1 && len(ms[0].at) == 1 && len(ms[1].at) == 1,
						"aggregate %s is not the sum of one value of each answer", short(d)) {
						continue
					}
					x, y := ms[0].at[0], ms[1].at[0]
					var alphas []*T
					path, ok, sites := a.forall(n, func(lit, kv *T) bool {
						al := tagLiteral(a, lit, kv, x, y)
						if al != nil {
							alphas = append(alphas, al)
							// the key must be the one in the key vector
							want := a.elemAt(vec, p.add(kv, p.c(1)), gen)
							return want == al
						}
						return false
					}, a.goalAt(e.b))
					r.ob(tag, sess+" exit "+sprint(len(aggs))+" aggregate "+sprint(k), a.f.whereB(e.b), ok && sites > 0,
						"number returned without testing the tag of %s for all %s keys (%d tests found); path: %s", short(d), short(n), sites, a.pathString(path))
					for _, al := range alphas {
						ok := callName(al) == full(randElem) && len(al.args) >= 2 && al.args[0] == p.app("param", "rnd") && len(al.vars) == 1
						r.ob(key, sess+" key drawn", a.f.whereB(e.b), ok, "tag test uses %s, not a field element drawn for this position", short(al))
					}
					// the two values come from the two answers
					r.ob(val, sess+" both answers "+sprint(k), a.f.whereB(e.b), fromAnswer(p, x, 0) && fromAnswer(p, y, 1) || fromAnswer(p, x, 1) && fromAnswer(p, y, 0), "aggregate %s does not combine answer 0 with answer 1", short(d))
				}
				// shape
				ans := p.app("param", "answers")
				l := func(i int64) *T { return a.lenT(p.app("ld", "", p.app("ia", "", ans, p.c(i)))) }
				n1 := a.lenT(vec)
				base := []*T{p.eq0(p.sub(a.lenT(ans), p.c(2)))}
				if sess == "zzverif.S_PredicateAPIR" {
					base = append(base, p.eq(l(0), l(1)))
					path, ok := a.provenAt(relLen, a.goalAt(e.b),
						append([]*T{p.eq(l(0), n1)}, base...), append([]*T{p.eq(l(0), p.scale(n1, 2))}, base...))
					r.ob(shp, sess, a.f.whereB(e.b), ok, "path: %s", a.pathString(path))
				} else {
					path, ok := a.provenAt(relLen, a.goalAt(e.b), base)
					r.ob(shp, sess, a.f.whereB(e.b), ok, "path: %s", a.pathString(path))
				}
			}
		})
	}
}

func (a *Analysis) hasLit(e Edge, t *T) bool {
	for _, l := range a.lits(e) {
		if l == t {
			return true
		}
	}
	return false
}

// fromAnswer: the value is read from answer i.
func fromAnswer(p *Pool, x *T, i int64) bool {
	return containsTerm(x, p.app("ia", "", p.app("param", "answers"), p.c(i)))
}

// tagLiteral recognises key*(x+y) == u+w modulo p, where u and w are the values
// k+1 places after x and y; it returns the key.
func tagLiteral(a *Analysis, lit, kv, x, y *T) *T {
	p := a.p
	if lit.op != "==0" || lit.args[0].op != "mod" || lit.args[0].aux != strconv.FormatInt(modP, 10) {
		return nil
	}
	ms, c := monos(lit.args[0].args[0])
	if c != 0 || len(ms) != 4 {
		return nil
	}
	var al *T
	var us []*T
	var cp, cu int64
	xs := map[*T]bool{}
	for _, m := range ms {
		switch len(m.at) {
		case 2:
			var k, f *T
			switch {
			case contains(m.at, x):
				f, k = x, without(m.at, x)[0]
			case contains(m.at, y):
				f, k = y, without(m.at, y)[0]
			default:
				return nil
			}
			if al != nil && al != k || xs[f] || cp != 0 && cp != m.co {
				return nil
			}
			al, cp = k, m.co
			xs[f] = true
		case 1:
			if cu != 0 && cu != m.co {
				return nil
			}
			cu = m.co
			us = append(us, m.at[0])
		default:
			return nil
		}
	}
	if al == nil || len(us) != 2 || (cp+cu)%modP != 0 {
		return nil
	}
	m := map[*T]*T{kv: p.c(-1)}
	if !sameSet([]*T{p.subst(us[0], m), p.subst(us[1], m)}, []*T{x, y}) {
		return nil
	}
	if !us[0].vars[atoi(kv.aux)] || !us[1].vars[atoi(kv.aux)] {
		return nil
	}
	return al
}
