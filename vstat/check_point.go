package main

// A05: point retrieval from Merkle-authenticated databases.

import "strings"

func init() {
	checks["A05"] = checkA05
	assumptions["A05"] = []string{"what the proof verification computes is subject of A06, how blocks are combined of A08 and C01"}
}

// euclid rewrites x % y to x - y*(x/y).
func (a *Analysis) euclid(t *T) *T {
	p := a.p
	m := map[*T]*T{}
	walkT(t, func(x *T) bool {
		if x.op == "%" {
			m[x] = p.sub(x.args[0], p.mul(x.args[1], p.div(x.args[0], x.args[1])))
		}
		return true
	})
	if len(m) == 0 {
		return t
	}
	return p.subst(t, m)
}

// sameNum: two numbers are equal, up to division with remainder.
func (a *Analysis) sameNum(x, y *T) bool {
	d := a.euclid(a.p.sub(x, y))
	n, ok := d.isC()
	return ok && n == 0
}

// under: an edge is possible when no literal on it contradicts (kill).
func (a *Analysis) under(kill func(lit *T) bool, good func(e Edge) bool, goal func(s *pst) bool) ([]*Block, bool) {
	path, found := a.explore(exploreOpts{
		edge: func(q string, e Edge) (string, bool) {
			for _, l := range a.lits(e) {
				if kill(l) {
					return q, false
				}
			}
			return q, good == nil || !good(e)
		},
		goal: goal,
	})
	return path, !found
}

// strCmp: the literal compares term x with a string constant: the constant and whether they are equal.
func strCmp(lit, x *T) (string, bool, bool) {
	eq := true
	if lit.op == "!" {
		lit, eq = lit.args[0], false
	}
	if lit.op == "==0" && lit.args[0].op == "len" && lit.args[0].args[0] == x {
		return "", eq, true
	}
	if lit.op != "==" || len(lit.args) != 2 {
		return "", false, false
	}
	y := lit.args[0]
	if y == x {
		y = lit.args[1]
	} else if lit.args[1] != x {
		return "", false, false
	}
	if y.op != "str" {
		return "", false, false
	}
	return strings.Trim(y.aux, `"`), eq, true
}

// assumeStr gives the kill function for "x is the string v" ("*": none of the listed ones).
func assumeStr(x *T, v string) func(lit *T) bool {
	return func(lit *T) bool {
		c, eq, ok := strCmp(lit, x)
		if !ok {
			return false
		}
		return (c == v) != eq
	}
}

func checkA05(r *Run) {
	r.also(checkA06, "verifier", "hash")
	ver := r.rule("proof-verified", "with a Merkle-authenticated database, every path that returns bytes has verified a proof for exactly these bytes against the root of the database information")
	pos := r.rule("proof-position", "with a Merkle-authenticated database, every path that returns bytes has tested that the position of the verified proof is the queried one")
	unk := r.rule("unknown-type", "no path returns bytes for a database type that is neither classical nor Merkle")
	r.part("S_PIR", func() {
		const vp, vpu = "lib/merkle.VerifyProof", "lib/merkle.VerifyProofUsing"
		a := r.flat("zzverif.S_PIR", vp, vpu, "lib/merkle.DecodeProof")
		p := a.p
		inf := func(n string) *T { return p.app("ld", "", p.app("fa", "Info."+n, p.app("param", "info"))) }
		typ := inf("PIRType")
		root := p.app("ld", "", p.app("fa", "Merkle.Root", inf("Merkle")))
		merkle := assumeStr(typ, "merkle")
		var exits []*Block
		seen := map[*Block]bool{}
		a.under(merkle, nil, func(s *pst) bool {
			if a.accepting(s) && !seen[s.b] {
				seen[s.b] = true
				exits = append(exits, s.b)
			}
			return false
		})
		if len(exits) == 0 {
			r.ob(ver, "S_PIR", "", false, "no path returns bytes of a Merkle-authenticated database")
		}
		for _, b := range exits {
			v := a.at(b.Rets[0], b)
			proofs := map[*T]bool{}
			good := func(e Edge) bool {
				for _, l := range a.lits(e) {
					if l.op != "x" || l.aux != "0" {
						continue
					}
					c := l.args[0]
					if n := callName(c); n != full(vp) && n != full(vpu) {
						continue
					}
					if c.args[0] == v && c.args[2] == root {
						proofs[c.args[1]] = true
						return true
					}
				}
				return false
			}
			path, ok := a.under(merkle, good, a.goalAt(b))
			r.ob(ver, "S_PIR exit", a.f.whereB(b), ok, "bytes are returned without a verified proof for them against the root: %s", a.pathString(path))
			if !ok {
				continue
			}
			path, ok = a.under(merkle, func(e Edge) bool {
				for _, l := range a.lits(e) {
					if l.op != "==0" {
						continue
					}
					for q := range proofs {
						x := a.proofIndex(l, q)
						if x != nil && (a.sameNum(p.sub(x, p.app("param", "i")), l.args[0]) || a.sameNum(p.sub(p.app("param", "i"), x), l.args[0])) {
							return true
						}
					}
				}
				return false
			}, a.goalAt(b))
			r.ob(pos, "S_PIR exit", a.f.whereB(b), ok, "bytes are returned although the proof may be for another position: %s", a.pathString(path))
		}
		path, ok := a.under(func(lit *T) bool {
			_, eq, ok := strCmp(lit, typ)
			return ok && eq
		}, nil, a.goalAccept())
		r.ob(unk, "S_PIR", a.f.where(a.endOf(a.f.Entry)), ok, "bytes are returned for an unknown database type: %s", a.pathString(path))
		// the test is only meaningful if the classical types are accepted
	})
}

// proofIndex: the index field of a decoded proof inside a literal.
func (a *Analysis) proofIndex(l, proof *T) *T {
	var r *T
	walkT(l, func(x *T) bool {
		if (x.op == "ld" || x.op == "mem") && len(x.args) > 0 && x.args[0].op == "fa" && x.args[0].aux == "Proof.Index" && x.args[0].args[0] == proof {
			r = x
		}
		return r == nil
	})
	return r
}
