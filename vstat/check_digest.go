package main

// C07: digests.

import "strings"

func init() {
	checks["C07"] = checkC07
	assumptions["C07"] = []string{"the pseudo-random generator is a function of its seed", "a client's parameters are those for the number of rows and columns of the database", "the C toolchain compiles the kernels according to the C standard"}
}

func checkC07(r *Run) {
	pub := r.rule("lwe-digest", "the digest published with an LWE database is the product of the public matrix and the very matrix the database answers from, which is not changed any more")
	mat := r.rule("public-matrix", "the public matrix of a digest is drawn from the seed, with the dimension and the number of rows, that clients draw theirs from")
	srv := r.rule("served-matrix", "an LWE server multiplies queries with the matrix of the database its digest is published with")
	wrp := r.rule("kernel-arguments", "matrix products hand the kernel the dimensions and the buffers of the operands, and return its output")
	krn := r.rule("kernel-loops", "the kernels add the product of row i and column j to element (i, j) once for every inner index")
	row := r.rule("row-digest", "the digest of each row in order is the encoded sum of the bases of all columns whose entry in the served data is one")
	bas := r.rule("column-base", "the base of a column is the hash of its number, the same for digests and queries")
	glb := r.rule("global-digest", "the global digest is the hash of all row digests in order, with the hash function that is published")
	seed := r.rule("seeded", "the generator of the public matrix depends on its seed alone")

	for _, k := range []struct{ ctor, mul, random, params, client, field, db, answer, session string }{
		{"lib/database.CreateRandomBinaryLWE", "lib/matrix.BinaryMul", "lib/matrix.NewRandom", "lib/utils.ParamsWithDatabaseSize", "ParamsLWE", "Auth.DigestLWE", "LWE", "lib/server.LWE.Answer", "zzverif.S_LWE"},
		{"lib/database.CreateRandomBinaryLWE128", "lib/matrix.BinaryMul128", "lib/matrix.NewRandom128", "lib/utils.ParamsWithDatabaseSize128", "ParamsLWE", "Auth.DigestLWE128", "LWE128", "lib/server.LWE128.Answer", "zzverif.S_LWE128"},
	} {
		k := k
		for _, ctor := range []string{k.ctor, strings.Replace(k.ctor, "BinaryLWE", "BinaryLWEWithLength", 1)} {
			ctor := ctor
			r.part(ctor, func() {
				a := r.flat(ctor, k.mul, k.random, "lib/utils.NewPRG", "lib/database.CalculateNumRowsAndColumns")
				p := a.p
				n := 0
				for _, e := range a.accepts() {
					if e.vals[0].op == "nil" {
						continue
					}
					n++
					end, w := a.endOf(e.b), a.f.whereB(e.b)
					info := p.app("fa", k.db+".Info", e.vals[0])
					m := a.fieldAt(e.vals[0], k.db+".Matrix", end)
					au := a.fieldAt(info, "Info.Auth", end)
					d := a.fieldAt(au, k.field, end)
					ok := d.op == "call" && callName(d) == full(k.mul) && d.args[1] == m
					if !r.ob(pub, ctor, w, ok, "the digest is %s, the matrix %s", short(d), short(m)) {
						continue
					}
					// the matrix is as it is served
					at := a.insOf[callID(d)]
					var late *store
					data := a.fieldAt(m, map[string]string{"LWE": "MatrixBytes.data", "LWE128": "MatrixBytes.data"}[k.db], at)
					for _, s := range a.stores {
						if s.name == "readonly" || s.addr == nil {
							continue
						}
						if (containsTerm(s.addr, data) || containsTerm(s.addr, m)) && s.i != at && a.mayPrecede(at, s.i) {
							late = s
						}
					}
					if late != nil {
						w = a.f.where(late.i)
					}
					r.ob(pub, ctor+" unchanged", w, late == nil, "the matrix is changed after its digest was made")
					// the public matrix
					x := d.args[0]
					ok = x.op == "call" && callName(x) == full(k.random)
					if !r.ob(mat, ctor, w, ok, "the matrix multiplied is %s", short(x)) {
						continue
					}
					rows := a.fieldAt(info, "Info.NumRows", end)
					r.ob(mat, ctor+" rows", w, x.args[2] == rows || x.args[2] == a.fieldAt(m, "MatrixBytes.rows", at), "the public matrix has %s columns, the database %s rows", short(x.args[2]), short(rows))
					r.ob(mat, ctor+" served rows", w, a.fieldAt(m, "MatrixBytes.rows", at) == rows && a.fieldAt(m, "MatrixBytes.cols", at) == a.fieldAt(info, "Info.NumColumns", end), "the matrix is not of the announced size")
					g := x.args[0]
					ok = g.op == "call" && callName(g) == full("lib/utils.NewPRG")
					if !r.ob(mat, ctor+" generator", w, ok, "the public matrix is drawn from %s", short(g)) {
						continue
					}
					// clients draw it with the parameters for the database
					b := r.flat(k.params)
					m2 := 0
					for _, f := range b.accepts() {
						m2++
						e2 := b.endOf(f.b)
						sd, dim, ln := b.fieldAt(f.vals[0], "ParamsLWE.SeedA", e2), b.fieldAt(f.vals[0], "ParamsLWE.N", e2), b.fieldAt(f.vals[0], "ParamsLWE.L", e2)
						r.ob(mat, ctor+" seed", b.f.whereB(f.b), sameText(b.pointee(sd, e2), a.pointee(g.args[0], a.insOf[callID(g)])), "clients use the seed %s, the digest %s", short(b.pointee(sd, e2)), short(a.pointee(g.args[0], at)))
						r.ob(mat, ctor+" dimension", b.f.whereB(f.b), sameText(dim, x.args[1]), "clients use the dimension %s, the digest %s", short(dim), short(x.args[1]))
						r.ob(mat, ctor+" length", b.f.whereB(f.b), ln == b.p.app("param", b.paramName(0)), "clients use %s rows", short(ln))
					}
					r.ob(mat, ctor+" parameters", w, m2 > 0, "no parameters")
				}
				r.ob(pub, ctor+" reached", "", n > 0, "no database")
			})
		}
		r.part(k.session, func() {
			for _, lk := range lweKinds {
				if lk.sess != k.session {
					continue
				}
				a := lk.flat(r)
				p := a.p
				par := func(f string) *T { return p.app("ld", "", p.app("fa", "ParamsLWE."+f, p.app("param", "params"))) }
				n := 0
				for _, i := range a.calls(lk.mul) {
					x := a.arg(i, 1)
					if x.op != "call" || callName(x) != full(lk.random) {
						continue
					}
					n++
					ok := callName(x.args[0]) == full("lib/utils.NewPRG") && x.args[0].args[0] == par("SeedA") && x.args[1] == par("N") && x.args[2] == par("L")
					r.ob(mat, k.session, a.f.where(i), ok, "the client's public matrix is %s", short(x))
				}
				r.ob(mat, k.session+" reached", "", n == 1, "%d public matrices", n)
			}
		})
		r.part(k.answer, func() {
			a := r.flat(k.answer, k.mul)
			p := a.p
			own := p.app("ld", "", p.app("fa", k.db+".Matrix", p.app("ld", "", p.app("fa", k.db+".db", p.app("param", a.paramName(0))))))
			n := 0
			for _, e := range a.accepts() {
				n++
				v := e.vals[0]
				r.ob(srv, k.answer, a.f.whereB(e.b), v.op == "call" && callName(v) == full(k.mul) && v.args[1] == own, "the answer is %s", short(v))
			}
			r.ob(srv, k.answer+" reached", "", n > 0, "no answer")
		})
	}
	r.part("NewPRG", func() {
		a := r.flat("lib/utils.NewPRG")
		key := a.p.app("param", a.paramName(0))
		n := 0
		for _, b := range a.rpo {
			for _, i := range b.Ins {
				if i.Op != OpCall {
					continue
				}
				switch a.callee(i) {
				case "crypto/aes.NewCipher":
					n++
					r.ob(seed, "key", a.f.where(i), a.mentions(a.arg(i, 0), key), "the cipher's key is %s", short(a.arg(i, 0)))
					for _, s := range a.stores {
						if s.addr == nil || s.i == i || s.name == "readonly" || !a.mayPrecede(s.i, i) || rootKey(s.addr) != rootKey(a.arg(i, 0)) && !containsTerm(s.addr, key) {
							continue
						}
						// nothing but the seed makes up the key
						v := a.StoreVal(s)
						ok := v != nil && rootKey(s.addr) != rootKey(key)
						if ok {
							walkT(v, func(t *T) bool {
								if t.op == "global" || t.op == "call" || t.op == "param" && t != key {
									ok = false
								}
								return true
							})
						}
						r.ob(seed, "only the seed", a.f.where(s.i), ok, "%s is stored into the key", short(v))
					}
				case "crypto/cipher.NewCTR":
					iv := a.arg(i, 1)
					zero := iv.op == "obj"
					for _, s := range a.byRoot[rootKey(iv)] {
						zero = zero && s.i == i
					}
					r.ob(seed, "start", a.f.where(i), zero, "the counter starts at %s", short(iv))
				default:
					r.ob(seed, "other", a.f.where(i), false, "the generator depends on %s", a.callee(i))
				}
			}
		}
		r.ob(seed, "NewPRG", "", n == 1, "%d ciphers", n)
	})
	r.kernels(wrp, krn, "multiply", "multiply128", "binary_multiply", "binary_multiply128")

	r.part("CreateRandomEllipticWithDigest", func() {
		a := r.flat("lib/database.CreateRandomEllipticWithDigest", "lib/database.CalculateNumRowsAndColumns")
		p := a.p
		a.joined(r, row)
		n := 0
		var dst []string
		for _, e := range a.accepts() {
			if e.vals[0].op == "nil" {
				continue
			}
			n++
			end, w := a.endOf(e.b), a.f.whereB(e.b)
			info := p.app("fa", "Elliptic.Info", e.vals[0])
			data := a.fieldAt(e.vals[0], "Elliptic.Entries", end)
			rows, cols := a.fieldAt(info, "Info.NumRows", end), a.fieldAt(info, "Info.NumColumns", end)
			au := a.fieldAt(info, "Info.Auth", end)
			g := a.fieldAt(au, "Auth.Group", end)
			sub := a.fieldAt(au, "Auth.SubDigests", end)
			dig := a.fieldAt(au, "Auth.Digest", end)
			hs := a.fieldAt(au, "Auth.Hash", end)
			in, ok := a.hashInput(dig)
			ok = ok && len(in) == 1 && in[0] == sub
			r.ob(glb, "input", w, ok, "the global digest hashes %s, the row digests are %s", shorts(in), short(sub))
			r.ob(glb, "hash", w, dig.op == "call" && callName(dig.args[0]) == "(crypto.Hash).New" && dig.args[0].args[0] == hs, "the global digest is %s, the hash published %s", short(dig), short(hs))
			s := a.streamOf(sub, end)
			if !r.ob(row, "in order", w, len(s.loops) > 0 && len(s.loops) <= 2 && s.bytes, "the row digests are not appended one by one: %s", s.why) {
				continue
			}
			enc := s.leaf
			var x *T
			es := a.fieldAt(au, "Auth.ElementSize", end)
			if x = a.fixedEnc(enc, func(t *T) bool { return t == es || a.elemSizeOf(t) == g && a.elemSizeOf(es) == g }); x != nil {
				r.ob(row, "compressed", w, encMethod(enc) == "MarshalBinaryCompress", "row digests are encoded by %s", encMethod(enc))
			}
			if !r.ob(row, "encoded", w, x != nil, "a row digest is %s", short(enc)) {
				continue
			}
			for x.op == "mem" || x.op == "fa" || x.op == "ld" {
				x = x.args[0]
			}
			gs := a.groupSumOf(x)
			if !r.ob(row, "sum", w, gs.why == "", "a row digest: %s", gs.why) {
				continue
			}
			r.ob(row, "group", w, x.args[0] == g, "the sum is in %s, the group published is %s", short(x), short(g))
			a.rowSum(r, row, w, gs, s, func(t *T) bool { return t == rows }, func(t *T) bool { return t == cols }, func(t *T) bool { return t == data }, func(k *T) bool {
				return a.baseOf(gs.elem, g, gs.add, &dst) == k
			})
			// the data are not changed afterwards
			var late *store
			for _, st := range a.stores {
				if st.addr != nil && st.addr.op == "ia" && st.addr.args[0] == data && a.mayPrecede(gs.add, st.i) {
					late = st
				}
			}
			r.ob(row, "unchanged", w, late == nil, "the data are changed after their digests are made")
		}
		r.ob(row, "reached", "", n > 0, "no database")
		// the client's bases
		b := r.flat("zzverif.S_DH")
		k := 0
		for _, blk := range b.rpo {
			for _, i := range blk.Ins {
				if i.Op != OpCall || !strings.HasSuffix(b.callee(i), "group.Group).HashToElement") {
					continue
				}
				k++
				t := b.p.app("gHash", "", b.arg(i, 0), b.arg(i, 1), b.arg(i, 2))
				base := b.groupBase(t, b.arg(i, 0), i)
				r.ob(bas, "client", b.f.where(i), base != nil && len(dst) > 0 && dst[0] == b.arg(i, 2).String(), "the client hashes %s (%s)", short2(base), short(b.arg(i, 2)))
			}
		}
		r.ob(bas, "client reached", "", k > 0, "the client hashes no column")
	})
}

// pointee: what a pointer to an array or the like leads to.
func (a *Analysis) pointee(t *T, at *Ins) *T {
	v := a.resolve(t, at)
	if v == nil {
		return t
	}
	return v
}

// baseOf: the number whose hash to the group the element is.
func (a *Analysis) baseOf(el, g *T, at *Ins, dst *[]string) *T {
	if el.op == "call" && strings.HasSuffix(callName(el), "group.Group).HashToElement") {
		i := a.insOf[callID(el)]
		*dst = append(*dst, el.args[2].String())
		return a.groupBase(a.p.app("gHash", "", el.args[0], el.args[1], el.args[2]), g, i)
	}
	return nil
}
