package main

// P06: queries the scheme cannot protect are refused before anything is drawn
// or returned.

import "strings"

func init() {
	checks["P06"] = checkP06
	assumptions["P06"] = []string{"an int has 64 bits, so that a position decoded from four bytes is not negative"}
}

func checkP06(r *Run) {
	two := r.rule("exactly-two", "a predicate client draws randomness and returns queries for exactly two servers only")
	many := r.rule("at-least-two", "a point client draws randomness and returns queries for two servers or more only")
	pos := r.rule("non-negative", "a point client draws randomness and returns queries for non-negative positions only")
	dec := r.rule("undecodable", "when the query cannot be decoded, an error is returned and nothing is drawn")
	r.programs()
	// points: where something secret is drawn or a query leaves the client
	points := func(a *Analysis) []*Ins {
		var r []*Ins
		for _, b := range a.rpo {
			for _, i := range b.Ins {
				if i.Op != OpCall {
					continue
				}
				n := a.callee(i)
				if _, ok := readers[n]; ok || hasSuffix(n, "dpf.Gen") || strings.HasPrefix(n, "crypto/rand.") {
					r = append(r, i)
				}
			}
		}
		for _, b := range a.acceptBlocks() {
			r = append(r, a.endOf(b))
		}
		return r
	}
	for _, c := range []struct {
		fn    string
		pt    bool
		index int
		n     int
	}{
		{"lib/client.PredicateAPIR.Query", false, -1, 2},
		{"lib/client.PredicateAPIR.QueryBytes", false, -1, 2},
		{"lib/client.PredicatePIR.Query", false, -1, 2},
		{"lib/client.PredicatePIR.QueryBytes", false, -1, 2},
		{"lib/client.PIR.Query", true, 1, 2},
		{"lib/client.PIR.QueryBytes", true, -1, 2},
	} {
		c := c
		r.part(c.fn, func() {
			a := r.flat(c.fn)
			p := a.p
			n := p.app("param", a.paramName(c.n))
			ps := points(a)
			if len(ps) == 0 {
				panic(unresolved(c.fn + " returns no query"))
			}
			for _, i := range ps {
				facts := a.factsAt(i.Blk)
				w := a.f.whereB(i.Blk)
				what := "return"
				if i.Op == OpCall {
					what = a.callee(i)
				}
				if !c.pt {
					r.ob(two, c.fn+" "+what, w, a.implied(facts, p.eq(n, p.c(2))), "reached for numbers of servers other than two")
					continue
				}
				r.ob(many, c.fn+" "+what, w, a.implied(facts, p.not(p.lt0(p.sub(n, p.c(2))))) || a.implied(facts, p.lt0(p.sub(p.c(1), n))) || a.implied(facts, p.eq(n, p.c(2))), "reached for fewer than two servers")
				if c.index >= 0 {
					ix := p.app("param", a.paramName(c.index))
					r.ob(pos, c.fn+" "+what, w, a.implied(facts, p.not(p.lt0(ix))) || a.nonNeg(facts, ix), "reached for a negative position")
				}
			}
			if hasSuffix(c.fn, "QueryBytes") && !c.pt {
				k := 0
				for _, b := range a.rpo {
					for _, i := range b.Ins {
						if i.Op != OpCall || !decodes(a.callee(i)) {
							continue
						}
						k++
						ok, at := a.errStops(i, "")
						r.ob(dec, c.fn+" "+a.callee(i), a.f.whereB(b), ok, "after the failure of the decoder a return without error is reached: %s", at)
						for _, q := range ps {
							if q.Op == OpCall {
								r.ob(dec, c.fn+" before "+a.callee(q), a.f.whereB(q.Blk), a.DomI(i, q), "drawn before the query is decoded")
							}
						}
					}
				}
				if k == 0 {
					panic(unresolved(c.fn + " decodes no query"))
				}
			}
		})
	}
}

func decodes(n string) bool {
	return hasSuffix(n, ".Decode") && !strings.Contains(n, modPath) || hasSuffix(n, ".Unmarshal") || hasSuffix(n, ".UnmarshalBinary") || hasSuffix(n, ".DecodeValue")
}
