package main

import "go/token"

// A08: answers of the wrong shape are refused before use.

func init() {
	checks["A08"] = checkA08
	assumptions["A08"] = []string{"the queried position lies inside the database (C08 and the callers choose it); lengths fit in an int, that of a block in 32 bits"}
}

func checkA08(r *Run) {
	num := r.rule("answer-count", "every path that returns a value has tested that there are as many answers as the query has servers or repetitions")
	ln := r.rule("answer-length", "every path that returns a value has tested that every answer has the length the query implies")
	prf := r.rule("proof-length", "a decoded proof is returned only if the encoding has exactly the length its number of hashes implies")
	wrap := r.rule("no-wrap", "numbers computed from those of a received proof fit the type they are computed in, so that the length test cannot be passed by wrapping around")
	in := r.rule("in-bounds", "every index and slice expression applied to received bytes lies inside them on every path to it")

	inside := func(a *Analysis, name string, root *T, extra ...*T) {
		roots := map[*T]bool{root: true}
		has := func(t *T) bool {
			for x := range roots {
				if containsTerm(t, x) {
					return true
				}
			}
			return false
		}
		// buffers that received bytes are combined into
		for _, b := range a.rpo {
			for _, i := range b.Ins {
				if i.Op == OpStore && has(a.op(i, 1)) {
					walkT(a.op(i, 0), func(t *T) bool {
						if t.op == "obj" {
							roots[t] = true
						}
						return true
					})
				}
				if i.Op != OpCall {
					continue
				}
				in := false
				for k := range i.Args {
					if i.Args[k] != nil && has(a.op(i, k)) {
						in = true
					}
				}
				for k := range i.Args {
					if i.Args[k] != nil && in {
						if t := a.op(i, k); t.op == "obj" {
							roots[t] = true
						}
					}
				}
			}
		}
		for _, b := range a.rpo {
			for _, i := range b.Ins {
				s, bd, ok := a.accessBounds(i)
				if !ok || !(has(s) || s.op != "str" && has(a.lenT(s))) {
					continue
				}
				path, n := a.within(bd, extra...)
				r.ob(in, name, a.f.where(i), n == nil, "%s may be out of range: %s is not shown to be non-negative; path: %s", bd.what, short2(n), a.pathString(path))
			}
		}
	}

	// point retrieval
	for _, sess := range []string{"zzverif.S_PIR", "zzverif.S_PIRBytes"} {
		sess := sess
		r.part(sess, func() {
			a := r.flat(sess, "lib/merkle.DecodeProof", "lib/merkle.VerifyProof", "lib/merkle.VerifyProofUsing")
			p := a.p
			inf := func(n string) *T { return p.app("ld", "", p.app("fa", "Info."+n, p.app("param", "info"))) }
			ans := p.app("param", "a")
			nr, nc, bs := inf("NumRows"), inf("NumColumns"), inf("BlockSize")
			ix := p.app("param", "i")
			if sess == "zzverif.S_PIRBytes" {
				e := func(k int64) *T { return p.app("ld", "", p.app("ia", "", p.app("param", "in"), p.c(k))) }
				ix = p.app("be", "", e(0), e(1), e(2), e(3))
			}
			ex := a.accepts()
			if len(ex) == 0 {
				r.ob(num, sess, "", false, "no path returns a value")
			}
			for _, e := range ex {
				path, ok := a.provenAt(relLen, a.goalAt(e.b), []*T{p.eq(a.lenT(ans), p.app("param", "n"))})
				r.ob(num, sess, a.f.whereB(e.b), ok, "path without the test: %s", a.pathString(path))
				path, ok, _ = a.forall(a.lenT(ans), func(lit, k *T) bool {
					return lit == p.eq(a.lenT(p.app("ld", "", p.app("ia", "", ans, k))), p.mul(nr, bs))
				}, a.goalAt(e.b))
				r.ob(ln, sess, a.f.whereB(e.b), ok, "a value is returned without testing the length of every answer: %s", a.pathString(path))
			}
			inside(a, sess, ans, p.lt0(p.sub(p.div(ix, nc), nr)), p.lt0(p.sub(p.c(-1), p.app("ld", "", p.app("fa", "Merkle.ProofLen", inf("Merkle"))))))
		})
	}
	// amplified retrieval
	r.part("S_Amplify", func() {
		a := r.flat("zzverif.S_Amplify")
		p := a.p
		for _, e := range a.accepts() {
			path, ok := a.provenAt(relLen, a.goalAt(e.b), []*T{p.eq(a.lenT(p.app("param", "a")), p.add(p.scale(p.app("param", "t"), 2), p.c(1)))})
			r.ob(num, "S_Amplify", a.f.whereB(e.b), ok, "path without the test: %s", a.pathString(path))
		}
	})
	// single-server retrieval: the dimensions of the answer
	for _, k := range lweKinds {
		k := k
		r.part(k.sess, func() {
			a := r.flat(k.sess)
			p := a.p
			for _, e := range a.accepts() {
				for _, f := range []string{"rows", "cols"} {
					path, ok := a.mustPass(func(ed Edge) bool {
						for _, l := range a.lits(ed) {
							if l.op != "==0" {
								continue
							}
							hit := false
							for _, m := range must(monos(l.args[0])) {
								if len(m.at) == 1 && (m.co == 1 || m.co == -1) {
									x := m.at[0]
									if (x.op == "ld" || x.op == "mem") && x.args[0].op == "fa" && hasSuffix(x.args[0].aux, "."+f) && x.args[0].args[0] == p.app("param", "a") {
										hit = true
									}
								}
							}
							if hit {
								return true
							}
						}
						return false
					}, a.goalAt(e.b))
					r.ob(ln, k.sess+" "+f, a.f.whereB(e.b), ok, "a value is returned without testing the %s of the answer: %s", f, a.pathString(path))
				}
			}
		})
	}
	// predicates
	for _, s := range []struct {
		f     string
		bytes bool
	}{{"zzverif.S_PredicateAPIR", false}, {"zzverif.S_PredicateAPIRBytes", true}, {"zzverif.S_PredicatePIRBytes", true}} {
		s := s
		r.part(s.f, func() {
			a := r.flat(s.f, genTree, "lib/fss.ClientInitialize", randElem)
			p := a.p
			gens := a.calls("(lib/fss.Fss).GenerateTreePF", "(*lib/fss.Fss).GenerateTreePF")
			if len(gens) == 0 {
				panic(unresolved("no key generation in " + s.f))
			}
			e1 := a.lenT(a.arg(gens[0], 2))
			ans := p.app("param", "answers")
			l := func(i int64) *T {
				n := a.lenT(p.app("ld", "", p.app("ia", "", ans, p.c(i))))
				if s.bytes {
					return p.div(n, p.c(4))
				}
				return n
			}
			ex := a.accepts()
			if len(ex) == 0 {
				r.ob(num, s.f, "", false, "no path returns a value")
			}
			for _, e := range ex {
				path, ok := a.provenAt(relLen, a.goalAt(e.b), []*T{p.eq(a.lenT(ans), p.c(2))})
				r.ob(num, s.f, a.f.whereB(e.b), ok, "path without the test: %s", a.pathString(path))
				path, ok = a.provenAt(relLen, a.goalAt(e.b),
					[]*T{p.eq(l(0), e1), p.eq(l(1), l(0))}, []*T{p.eq(l(0), p.scale(e1, 2)), p.eq(l(1), l(0))})
				r.ob(ln, s.f, a.f.whereB(e.b), ok, "path without the test: %s", a.pathString(path))
				if s.bytes {
					path, ok, _ = a.forall(a.lenT(ans), func(lit, k *T) bool {
						return lit == p.eq0(p.rem(a.lenT(p.app("ld", "", p.app("ia", "", ans, k))), p.c(4)))
					}, a.goalAt(e.b))
					r.ob(ln, s.f+" whole elements", a.f.whereB(e.b), ok, "a value is returned from an answer that may end inside an element: %s", a.pathString(path))
				}
			}
			inside(a, s.f, ans)
		})
	}
	// Diffie-Hellman
	r.part("S_DH", func() {
		a := r.flat("zzverif.S_DH")
		p := a.p
		es := p.app("ld", "", p.app("fa", "Auth.ElementSize", p.app("ld", "", p.app("fa", "Info.Auth", p.app("param", "info")))))
		nr := p.app("ld", "", p.app("fa", "Info.NumRows", p.app("param", "info")))
		ans := p.app("param", "a")
		n := a.lenT(ans)
		for _, e := range a.accepts() {
			path, ok := a.provenAt(relLen, a.goalAt(e.b),
				[]*T{p.eq0(p.rem(n, es)), p.eq(p.ceildiv(n, es), nr)},
				[]*T{p.eq0(p.rem(n, es)), p.eq(p.div(n, es), nr)},
				[]*T{p.eq(n, p.mul(nr, es))})
			r.ob(ln, "S_DH", a.f.whereB(e.b), ok, "path: %s", a.pathString(path))
		}
		inside(a, "S_DH", ans)
	})
	// proofs
	r.part("DecodeProof", func() {
		a := r.flat("lib/merkle.DecodeProof")
		p := a.p
		b := p.app("param", parName(a.f.Root, 0))
		cnt := func(k int64) *T { return p.app("ld", "", p.app("ia", "", b, p.c(k))) }
		hashes := p.app("be", "", cnt(3), cnt(2), cnt(1), cnt(0))
		for _, x := range a.rpo {
			if x.Term != TReturn || len(x.Rets) != 1 || a.at(x.Rets[0], x).op == "nil" {
				continue
			}
			path, ok := a.provenAt(relLen, a.goalBlock(x), []*T{p.eq(a.lenT(b), p.add(p.scale(hashes, 32), p.c(8)))},
				[]*T{p.eq0(p.rem(p.sub(a.lenT(b), p.c(8)), p.c(32))), p.eq(p.div(p.sub(a.lenT(b), p.c(8)), p.c(32)), hashes)})
			r.ob(prf, "DecodeProof", a.f.whereB(x), ok, "path: %s", a.pathString(path))
		}
		inside(a, "DecodeProof", b)
		// what is computed from received numbers fits the type it is computed in
		most := p.lt0(p.sub(a.lenT(b), p.c(1<<32)))
		for _, x := range a.rpo {
			for _, i := range x.Ins {
				if i.Op != OpBin || i.Tok != token.ADD && i.Tok != token.MUL && i.Tok != token.SUB && i.Tok != token.SHL {
					continue
				}
				tr := typeRange(i.Typ)
				t := a.term(i)
				if tr == nil || t == nil || a.p.sub(t, p.c(1)).op == "k" /* a counter below a number of the same type */ || tr.hi.BitLen() > 32 || hasOp(t, "phi") || hasOp(t, "rec") {
					continue
				}
				bd := bound{i: i, what: "computing " + short(t), need: []*T{p.sub(p.c(tr.hi.Int64()), t), p.sub(t, p.c(tr.lo.Int64()))}}
				path, n := a.within(bd, most)
				r.ob(wrap, "DecodeProof "+short(t), a.f.where(i), n == nil, "the result may not fit %s; path: %s", i.Typ, a.pathString(path))
			}
		}
	})
}
