package main

// A04: the Diffie-Hellman client.

func init() {
	checks["A04"] = checkA04
	assumptions["A04"] = []string{"group operations compute what their names say; the query itself is subject of P05, the digests of C07"}
}

// equal: the literal says that two byte strings are equal.
func equalLit(p *Pool, lit *T) (x, y *T) {
	t := lit
	if t.op == "==0" {
		t = t.args[0]
		if t.op == "call" && (callName(t) == "bytes.Compare" || callName(t) == "strings.Compare") {
			return t.args[0], t.args[1]
		}
		ts, co, c := parts(t)
		if len(ts) == 1 && co[0] == 1 && c == -1 && callName(ts[0]) == "crypto/subtle.ConstantTimeCompare" {
			return ts[0].args[0], ts[0].args[1]
		}
		return nil, nil
	}
	if t.op == "call" && callName(t) == "bytes.Equal" {
		return t.args[0], t.args[1]
	}
	return nil, nil
}

// hashInput: the data written, in order, to the hash whose Sum is t; false when
// it is not a plain sequence of writes.
func (a *Analysis) hashInput(t *T) ([]*T, bool) {
	switch callName(t) {
	case "golang.org/x/crypto/blake2b.Sum256", "lukechampine.com/blake3.Sum256", "crypto/sha256.Sum256":
		return []*T{t.args[0]}, true
	case "(hash.Hash).Sum":
	default:
		return nil, false
	}
	sum := a.insOf[callID(t)]
	if sum == nil || t.args[1].op != "nil" {
		return nil, false
	}
	recv := t.args[0]
	var r []*T
	for _, b := range a.rpo {
		for _, i := range b.Ins {
			if i.Op != OpCall || i == sum {
				continue
			}
			n := a.callee(i)
			if n != "(io.Writer).Write" && n != "(hash.Hash).Write" && n != "(hash.Hash).Reset" {
				continue
			}
			if a.arg(i, 0) != recv || !a.mayPrecede(i, sum) {
				continue
			}
			if !a.DomI(i, sum) || n == "(hash.Hash).Reset" || a.loopOf[i.Blk] != a.loopOf[sum.Blk] {
				return nil, false
			}
			r = append(r, a.arg(i, 1))
		}
	}
	return r, true
}

// littleEndian: the number whose eight bytes, lowest first, fill the object a slice leads to.
func (a *Analysis) littleEndian(s *T, at *Ins) *T { return a.bytesOf(s, 8, false, at) }

// bytesOf: the number whose n bytes are the first n elements of a slice.
func (a *Analysis) bytesOf(s *T, n int64, big bool, at *Ins) *T {
	var x *T
	for j := int64(0); j < n; j++ {
		e := a.elemAt(s, a.p.c(j), at)
		if e.op != "byteof" || len(e.args) != 2 {
			return nil
		}
		w := j
		if big {
			w = n - 1 - j
		}
		if n, ok := e.args[1].isC(); !ok || n != w || x != nil && x != e.args[0] {
			return nil
		}
		x = e.args[0]
	}
	return x
}

// base: t is the hash of a position to the group; it returns the position.
func (a *Analysis) groupBase(t *T, g *T, at *Ins) *T {
	if t.op != "gHash" || t.args[0] != g {
		return nil
	}
	return a.littleEndian(t.args[1], at)
}

func checkA04(r *Run) {
	dig := r.rule("digest-bound", "a client exists only if the hash of the row digests equals the global digest")
	row := r.rule("every-row", "a bit is returned only after a loop over all rows which leaves with an error unless answer - secret*digest of that row is the identity or the blinding element")
	sec := r.rule("query-state", "the secret exponent and the blinding element are those of the query: the element of every column carries that exponent, the blinding element is the queried column's base raised to another fresh secret")
	dec := r.rule("decoded-row", "the bit returned is the class of the queried row")
	shp := r.rule("answer-shape", "a bit is returned only if the answer has one element per row")
	r.part("S_DH", func() {
		a := r.flat("zzverif.S_DH")
		p := a.p
		au := p.app("ld", "", p.app("fa", "Info.Auth", p.app("param", "info")))
		f := func(n string) *T { return p.app("ld", "", p.app("fa", n, au)) }
		inf := func(n string) *T { return p.app("ld", "", p.app("fa", "Info."+n, p.app("param", "info"))) }
		g, es, sub := f("Auth.Group"), f("Auth.ElementSize"), f("Auth.SubDigests")
		nr, nc := inf("NumRows"), inf("NumColumns")
		qi := p.app("param", "i")
		ans := p.app("param", "a")
		ex := a.accepts()
		if len(ex) == 0 {
			r.ob(row, "S_DH", "", false, "no path returns a bit")
		}
		for _, e := range ex {
			path, ok := a.mustPass(func(ed Edge) bool {
				for _, l := range a.lits(ed) {
					x, y := equalLit(p, l)
					if x == nil {
						continue
					}
					if y != f("Auth.Digest") {
						x, y = y, x
					}
					if y != f("Auth.Digest") {
						continue
					}
					if in, ok := a.hashInput(x); ok && len(in) == 1 && in[0] == sub {
						return true
					}
				}
				return false
			}, a.goalAt(e.b))
			r.ob(dig, "S_DH", a.f.whereB(e.b), ok, "path without the test: %s", a.pathString(path))

			piece := func(s, k *T) *T { return p.app("gDecFix", "", p.app("sl", "", s, p.mul(k, es), es)) }
			var exps, blinds []*T
			split := func(v, k *T) *T { // the exponent in answer - exponent*digest
				v = a.canonDec(v)
				if v.op != "gAdd" || len(v.args) != 2 {
					return nil
				}
				rest := without(v.args, piece(ans, k))
				if len(rest) != 1 || rest[0].op != "gMul" {
					return nil
				}
				m := rest[0]
				if m.args[0] == piece(sub, k) && m.args[1].op == "gNeg" {
					return m.args[1].args[0]
				}
				return nil
			}
			zero := func(lit, k *T) bool {
				if lit.op != "gIsId" {
					return false
				}
				x := split(lit.args[0], k)
				if x == nil {
					return false
				}
				if !contains(exps, x) {
					exps = append(exps, x)
				}
				return true
			}
			one := func(lit, k *T) bool {
				if lit.op != "gEq" {
					return false
				}
				v, h := lit.args[0], lit.args[1]
				x := split(v, k)
				if x == nil {
					v, h = h, v
					x = split(v, k)
				}
				if x == nil {
					return false
				}
				if !contains(exps, x) {
					exps = append(exps, x)
				}
				if !contains(blinds, h) {
					blinds = append(blinds, h)
				}
				return true
			}
			path, ok, n := a.forall(nr, func(lit, k *T) bool { return zero(lit, k) || one(lit, k) }, a.goalAt(e.b))
			r.ob(row, "S_DH", a.f.whereB(e.b), ok && n >= 2, "a bit is returned without testing every row (%d tests): %s", n, a.pathString(path))
			// query state
			end := a.endOf(e.b)
			okS, d := len(exps) == 1 && len(blinds) == 1, "the rows are not tested against one exponent and one blinding element"
			if okS {
				x, h := exps[0], blinds[0]
				sc := func(t *T) bool {
					return t.op == "ld" && t.args[0].op == "fa" && callName(t.args[0].args[0]) == groupPkg+"Group).RandomScalar" && t.args[0].args[0].args[1] == p.app("param", "rnd") && len(t.vars) == 0
				}
				switch {
				case !sc(x):
					okS, d = false, "the exponent "+short(x)+" is not a random scalar of the query"
				case h.op != "gMul" || !sc(h.args[1]) || h.args[1] == x:
					okS, d = false, "the blinding element "+short(h)+" does not carry a second random scalar"
				default:
					if pos := a.groupBase(h.args[0], g, end); pos != p.rem(qi, nc) {
						okS, d = false, "the blinding element belongs to "+short(h.args[0])+", not to the queried column"
					}
				}
				if okS {
					used := false
					for _, s := range a.stores {
						if s.name == "" {
							v := a.StoreVal(s)
							if v.op == "gMul" && v.args[0].op == "gHash" && v.args[1] == x && len(v.vars) > 0 {
								used = true
							}
						}
					}
					if !used {
						okS, d = false, "the exponent removed is not the one of the query's elements"
					}
				}
			}
			r.ob(sec, "S_DH", a.f.whereB(e.b), okS, "%s", d)
			ls := a.loopsWith(nr, func(lit, k *T) bool { return zero(lit, k) || one(lit, k) })
			if len(ls) == 0 {
				r.ob(dec, "S_DH", a.f.whereB(e.b), false, "no loop tests the rows")
			}
			for _, l := range ls {
				d, ok := a.decoded(l, func(lit, k *T) (bool, bool) { return zero(lit, k), one(lit, k) }, p.div(qi, nc), e.b, e.b.Rets[0])
				r.ob(dec, "S_DH", a.f.whereB(e.b), ok, "%s", d)
			}
			ln := a.lenT(ans)
			path, ok = a.provenAt(relLen, a.goalAt(e.b),
				[]*T{p.eq0(p.rem(ln, es)), p.eq(p.ceildiv(ln, es), nr)},
				[]*T{p.eq0(p.rem(ln, es)), p.eq(p.div(ln, es), nr)},
				[]*T{p.eq(ln, p.mul(nr, es))})
			r.ob(shp, "S_DH", a.f.whereB(e.b), ok, "path: %s", a.pathString(path))
		}
	})
}
