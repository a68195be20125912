package main

// C05: decoders invert encoders.

import (
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C05"] = checkC05
	assumptions["C05"] = []string{"matrices have as many elements as rows times columns, at least one of each, and lists of matrices hold matrices of one size", "hashes have 32 bytes, encoded group elements other than the identity the size announced", "lengths fit in 32 bits", "encoding/gob, uint128 and the group library invert their own encodings of exported data"}
}

func checkC05(r *Run) {
	rt := r.rule("round-trip", "decoding what was encoded gives the same number of elements, each with the value it had")
	acc := r.rule("accepted", "a decoder refuses nothing that the encoder makes")
	gob := r.rule("gob-types", "data sent by encoding/gob consist of exported fields only and are decoded as the type they were encoded as")
	pair := r.rule("pairs", "each end decodes with the inverse of what the other end encoded with")

	// integers
	r.part("zzverif.S_RoundUint32", func() {
		a := r.flat("zzverif.S_RoundUint32")
		in := a.p.app("param", "in")
		n := 0
		for _, e := range a.accepts() {
			n++
			v, why := e.vals[0], ""
			if a.lenT(v) != a.p.app("len", "", in) {
				why = "it has " + short(a.lenT(v)) + " elements"
			} else if x, k := a.anyElem(v, a.endOf(e.b)); x != a.p.app("ld", "", a.p.app("ia", "", in, k)) {
				why = "element " + k.String() + " is " + short(x)
			}
			r.ob(rt, "integers", a.f.whereB(e.b), why == "", "the integers decoded: %s", why)
		}
		r.ob(rt, "integers reached", "", n > 0, "nothing is decoded")
		r.refusesNothing(acc, a, "integers", nil)
	})

	// matrices
	for _, k := range []struct{ sess, typ string }{{"zzverif.S_RoundMatrix", "Matrix"}, {"zzverif.S_RoundMatrix128", "Matrix128"}} {
		k := k
		r.part(k.sess, func() {
			a := r.flat(k.sess)
			p := a.p
			in := p.app("param", "in")
			fld := func(f string) *T { return p.app("ld", "", p.app("fa", k.typ+"."+f, in)) }
			n := 0
			for _, e := range a.accepts() {
				n++
				end, w := a.endOf(e.b), a.f.whereB(e.b)
				for _, f := range []string{"rows", "cols"} {
					x := a.fieldAt(e.vals[0], k.typ+"."+f, end)
					r.ob(rt, k.typ+" "+f, w, x == fld(f), "%s becomes %s", short(fld(f)), short(x))
				}
				d := a.fieldAt(e.vals[0], k.typ+".data", end)
				r.ob(rt, k.typ+" length", w, a.lenT(d) == p.app("len", "", fld("data")), "the matrix decoded has %s elements", short(a.lenT(d)))
				x, kk := a.anyElem(d, end)
				ok := x == p.app("ld", "", p.app("ia", "", fld("data"), kk))
				if !ok {
					x, ok = a.wideElem(x, d, fld("data"), end)
				}
				r.ob(rt, k.typ+" elements", w, ok, "element %s becomes %s", kk.String(), short(x))
			}
			r.ob(rt, k.typ+" reached", "", n > 0, "nothing is decoded")
			one := func(n string) *T { return p.add(p.app("len", "", p.app("param", n)), p.c(1)) }
			r.refusesNothing(acc, a, k.typ, map[*T]*T{
				fld("rows"): one("R"), fld("cols"): one("C"),
				p.app("len", "", fld("data")): p.mul(one("R"), one("C")),
			})
		})
	}
	r.part("zzverif.S_RoundMatrices", func() {
		a := r.flat("zzverif.S_RoundMatrices", "lib/matrix.MatrixToBytes", "lib/matrix.BytesToMatrix")
		p := a.p
		in := p.app("param", "in")
		cnt := p.app("len", "", in)
		n := 0
		for _, e := range a.accepts() {
			n++
			end, w := a.endOf(e.b), a.f.whereB(e.b)
			v := e.vals[0]
			r.ob(rt, "matrices length", w, a.lenT(v) == cnt, "%s matrices are decoded", short(a.lenT(v)))
			x, k := a.anyElem(v, end)
			if !r.ob(rt, "matrices decoded", w, x.op == "call" && callName(x) == full("lib/matrix.BytesToMatrix") && x.args[0].op == "sl", "matrix %s is %s", k.String(), short(x)) {
				continue
			}
			why := a.piecewise(x.args[0], k, cnt, end, func(enc, i *T) bool {
				return enc.op == "call" && callName(enc) == full("lib/matrix.MatrixToBytes") && enc.args[0] == p.app("ld", "", p.app("ia", "", in, i))
			})
			r.ob(rt, "matrices elements", w, why == "", "matrix %s is not decoded from its encoding: %s", k.String(), why)
		}
		r.ob(rt, "matrices reached", "", n > 0, "nothing is decoded")
		// matrices of one size
		sub := map[*T]*T{}
		for _, b := range a.rpo {
			if b.Cond == nil {
				continue
			}
			walkT(a.at(b.Cond, b), func(t *T) bool {
				if t.op == "ld" && t.args[0].op == "fa" && (t.args[0].aux == "Matrix.rows" || t.args[0].aux == "Matrix.cols") {
					sub[t] = p.app("param", t.args[0].aux)
				}
				return true
			})
		}
		r.refusesNothing(acc, a, "matrices", sub)
	})

	// group elements
	r.part("zzverif.S_RoundElements", func() {
		a := r.flat("zzverif.S_RoundElements")
		p := a.p
		in, size := p.app("param", "in"), p.app("param", "size")
		n := 0
		for _, e := range a.accepts() {
			if e.vals[0].op == "nil" {
				continue
			}
			n++
			end, w := a.endOf(e.b), a.f.whereB(e.b)
			why := a.decodedElems(e.vals[0], in, size, end)
			r.ob(rt, "group elements", w, why == "", "the elements decoded: %s", why)
		}
		r.ob(rt, "group elements reached", "", n > 0, "nothing is decoded")
		// the encodings have the size announced
		sub := map[*T]*T{}
		for _, b := range a.rpo {
			if b.Cond == nil {
				continue
			}
			walkT(a.at(b.Cond, b), func(t *T) bool {
				if t.op == "len" && (t.args[0].op == "last" || t.args[0].op == "build") {
					if s := a.streamOf(t.args[0], a.endOf(b)); s.bytes && len(s.loops) == 1 && a.TripOf(s.loops[0]) == p.app("len", "", in) {
						sub[t] = p.mul(size, p.app("len", "", in))
					}
				}
				return true
			})
		}
		r.refusesNothing(acc, a, "group elements", sub)
		// (the size announced is that of the encoding used)
		used := map[string]bool{}
		for _, b := range a.rpo {
			for _, i := range b.Ins {
				if i.Op == OpCall && a.term(i).op == "gEnc" {
					used[a.term(i).aux] = true
				}
			}
		}
		c := r.flat("lib/database.CreateRandomEllipticWithDigest")
		for _, s := range c.stores {
			if s.name != "" || s.addr == nil || s.addr.op != "fa" || s.addr.aux != "Auth.ElementSize" {
				continue
			}
			walkT(c.StoreVal(s), func(t *T) bool {
				if t.op == "gEnc" {
					r.ob(rt, "size of an encoded group element", c.f.where(s.i), used[t.aux] && len(used) == 1, "the size is that of %s, the elements are encoded otherwise", t.aux)
				}
				return true
			})
		}
	})

	// proofs
	r.part("zzverif.S_RoundProof", func() {
		a := r.flat("zzverif.S_RoundProof")
		p := a.p
		in, index := p.app("param", "hashes"), p.app("param", "index")
		n := 0
		for _, e := range a.accepts() {
			if e.vals[0].op == "nil" {
				continue
			}
			n++
			end, w := a.endOf(e.b), a.f.whereB(e.b)
			x := a.fieldAt(e.vals[0], "Proof.Index", end)
			r.ob(rt, "proof index", w, x == index, "the index becomes %s", short(x))
			hs := a.fieldAt(e.vals[0], "Proof.Hashes", end)
			r.ob(rt, "proof length", w, a.lenT(hs) == p.app("len", "", in), "%s hashes are decoded", short(a.lenT(hs)))
			h, k := a.anyElem(hs, end)
			r.ob(rt, "proof hash length", w, a.isC(a.lenT(h), 32), "hash %s has %s bytes", k.String(), short(a.lenT(h)))
			var y *T
			j := p.app("param", "#byte")
			a.assuming(map[*T]*T{k: p.app("len", "", in), j: p.c(32)}, func() { y = a.elemAt(h, j, end) })
			r.ob(rt, "proof hashes", w, y == p.app("ld", "", p.app("ia", "", p.app("ia", "", in, k), j)), "byte %s of hash %s is %s", j.String(), k.String(), short(y))
		}
		r.ob(rt, "proof reached", "", n > 0, "nothing is decoded")
		r.refusesNothing(acc, a, "proof", nil)
	})

	// padding
	for _, s := range []string{"zzverif.S_RoundSignal", "zzverif.S_RoundPad"} {
		s := s
		r.part(s, func() {
			a := r.flat(s)
			in := a.p.app("param", "in")
			n := 0
			for _, e := range a.accepts() {
				v := e.vals[0]
				if x := a.unpadded(v, 0); x != nil {
					// nothing but zeros was left: there is a mark that is not zero
					n := a.lenT(v)
					why := a.padOf(x, in)
					_, ok := a.mustPass(func(e Edge) bool {
						for _, l := range a.lits(e) {
							if l == a.p.eq(n, a.p.c(0)) || l == a.p.lt0(a.p.add(n, a.p.c(-1))) || l == a.p.not(a.p.lt0(a.p.scale(n, -1))) {
								return true
							}
						}
						return false
					}, a.goalAt(e.b))
					r.ob(rt, s[8:]+" empty", a.f.whereB(e.b), why == "" && ok, "a padded block is returned without taking off the mark (%s)", why)
					continue
				}
				n++
				why := ""
				if x := a.unpadded(v, 1); x == nil {
					why = "it is " + short(v)
				} else {
					why = a.padOf(x, in)
				}
				r.ob(rt, s[8:], a.f.whereB(e.b), why == "", "the block without padding: %s", why)
			}
			r.ob(rt, s[8:]+" reached", "", n > 0, "nothing is returned")
		})
	}

	r.gobTypes(gob)
	r.codecPairs(pair)
}

// anyElem: element k of a list, for any k below its length.
func (a *Analysis) anyElem(v *T, at *Ins) (x, k *T) {
	k = a.p.app("param", "#k")
	a.assuming(map[*T]*T{k: a.lenT(v)}, func() { x = a.elemAt(v, k, at) })
	return x, k
}

func (a *Analysis) isC(t *T, n int64) bool {
	m, ok := t.isC()
	return ok && m == n
}

// refusesNothing: no panic and no empty result under the premises.
func (r *Run) refusesNothing(rule string, a *Analysis, name string, sub map[*T]*T) {
	impossible := func(l *T) bool {
		// errors of the encoders used
		if l.op == "!" && l.args[0].op == "==" {
			for _, x := range l.args[0].args {
				if x.op == "x" && x.args[0].op == "gEnc" || x.op == "gDecErr" || x.op == "last" && (x.args[0].op == "gDecErr" || x.args[0].op == "x" && x.args[0].args[0].op == "gEnc") {
					return true
				}
			}
		}
		if len(sub) > 0 {
			l = a.p.subst(l, sub)
		}
		return l.op == "false" || a.never(l)
	}
	n := 0
	for _, b := range a.rpo {
		empty := false
		if b.Term == TReturn && len(b.Rets) > 0 {
			empty = a.at(b.Rets[0], b).op == "nil"
		}
		if b.Term != TPanic && !empty {
			continue
		}
		n++
		goal := a.goalBlock(b)
		path, ok := a.mustPass(func(e Edge) bool {
			for _, l := range a.lits(e) {
				if impossible(l) && !a.countsOut(e, l) {
					return true
				}
			}
			return false
		}, goal)
		r.ob(rule, name, a.f.whereB(b), ok, "data as they are encoded are refused: %s", a.pathString(path))
	}
	r.ob(rule, name+" examined", "", true, "")
}

// never: the literal is false for all values.
// countsOut: the literal mentions the counter of a loop at that loop's header,
// where the counter may have reached the trip count.
func (a *Analysis) countsOut(e Edge, l *T) bool {
	for _, lp := range a.loopsOf(e.B) {
		if lp.Header == e.B && containsTerm(l, a.p.k(lp.ID)) {
			return true
		}
	}
	return false
}

func (a *Analysis) never(l *T) bool {
	neg := l.op == "!"
	if neg {
		l = l.args[0]
	}
	switch l.op {
	case "<0":
		x := l.args[0]
		if neg {
			x = a.p.sub(a.p.scale(x, -1), a.p.c(1)) // -x-1 < 0 is never
		}
		lo, ok := a.lower(x)
		return ok && lo >= 0
	case "==0":
		if neg {
			return a.isC(l.args[0], 0)
		}
		lo, ok := a.lower(l.args[0])
		hi, ok2 := a.lower(a.p.scale(l.args[0], -1))
		return ok && lo >= 1 || ok2 && hi >= 1
	}
	return false
}

// wideElem: the element is read from the bytes that the same element of the data was written to.
func (a *Analysis) wideElem(x, d, data *T, at *Ins) (*T, bool) {
	p := a.p
	k := p.app("param", "#k")
	big := hasSuffix(callName(x), "uint128.FromBytesBE")
	if x.op != "call" || !big && !hasSuffix(callName(x), "uint128.FromBytes") || x.args[0].op != "sl" {
		return x, false
	}
	src := x.args[0]
	type piece struct{ t, off *T }
	var ps []piece
	off := p.c(0)
	for _, t := range flattenCat(src.args[0], nil) {
		ps = append(ps, piece{t, off})
		off = p.add(off, a.lenT(t))
	}
	n := 0
	ok := false
	for _, b := range a.rpo {
		for _, i := range b.Ins {
			if i.Op != OpCall || !strings.Contains(a.callee(i), "uint128.Uint128).PutBytes") {
				continue
			}
			dst := a.arg(i, 1)
			for _, q := range ps {
				if dst.op != "sl" || dst.args[0] != q.t {
					continue
				}
				n++
				l := a.loopOf[b]
				if l == nil || strings.HasSuffix(a.callee(i), "BE") != big || !a.everyTime(l, i) || !a.allIterations(l) || a.TripOf(l) != p.app("len", "", data) {
					continue
				}
				kl := p.k(l.ID)
				to := map[*T]*T{kl: k}
				ok = a.arg(i, 0) == p.app("ld", "", p.app("ia", "", data, kl)) && p.subst(p.add(dst.args[1], q.off), to) == src.args[1]
			}
		}
	}
	return x, ok && n == 1
}

// piecewise: the slice at position k of a buffer of cnt slices of one size
// holds what isEnc accepts for element k.
func (a *Analysis) piecewise(s, k, cnt *T, at *Ins, isEnc func(enc, i *T) bool) string {
	p := a.p
	base, off, size := s.args[0], s.args[1], s.args[2]
	if st := a.streamOf(base, at); base.op != "obj" && st.why == "" {
		_ = st
	}
	head := p.subst(off, map[*T]*T{k: p.c(0)})
	if p.add(head, p.mul(size, k)) != off {
		return "it is read at " + short(off)
	}
	if a.lenT(base) != p.add(head, p.mul(size, cnt)) {
		return "there are " + short(a.lenT(base)) + " bytes"
	}
	type span struct{ from, n *T }
	var got []span
	for _, st := range a.byRoot[rootKey(base)] {
		if st.addr == nil || st.addr.op != "ia" || st.addr.args[0] != base || st.name != "" {
			return "it is written at " + a.f.where(st.i)
		}
		ix := st.addr.args[1]
		// a constant place before the first element
		if hi, ok := a.lower(p.sub(p.sub(head, p.c(1)), ix)); ok && hi >= 0 {
			continue
		}
		v := a.StoreVal(st)
		var enc, j *T
		switch {
		case v.op == "ld" && v.args[0].op == "ia":
			enc, j = v.args[0].args[0], v.args[0].args[1]
		case v.op == "elem":
			enc, j = v.args[0], v.args[1]
		default:
			return "byte " + short(ix) + " is " + short(v)
		}
		l := a.loopOf[st.i.Blk]
		if l == nil || !a.everyTime(l, st.i) {
			return "not all bytes are written"
		}
		kl := p.k(l.ID)
		if j != kl {
			return "byte " + short(j) + " is written at " + short(ix)
		}
		// the length copied: of the encoding, or what there is room for
		start := p.sub(ix, kl)
		i := p.quo(p.sub(start, head), size)
		if p.sub(start, head) == p.c(0) {
			i = p.c(0)
		}
		if i == nil {
			return "an element is written at " + short(start)
		}
		room := p.sub(a.lenT(base), start)
		tr := a.TripOf(l)
		if tr == nil {
			return "the bytes copied are not counted"
		}
		lens := []*T{tr}
		if tr.op == "min" {
			lens = tr.args
		}
		for _, x := range lens {
			if x != room && x != size && x != a.lenT(enc) {
				return short(x) + " bytes are copied"
			}
		}
		if !isEnc(enc, i) {
			return "element " + short(i) + " is " + short(enc)
		}
		o := l.Parent
		switch {
		case o == nil && len(i.vars) == 0:
			got = append(got, span{i, p.c(1)})
		case o != nil && o.Parent == nil && a.everyTime(o, a.endOf(a.dom[l.Header])) && a.allIterations(o) && a.TripOf(o) != nil:
			from := p.sub(i, p.k(o.ID))
			if len(from.vars) > 0 {
				return "the elements written are " + short(i)
			}
			got = append(got, span{from, a.TripOf(o)})
		default:
			return "not all elements are written"
		}
		if !a.Dom(l.Header, at.Blk) && (o == nil || !a.Dom(o.Header, at.Blk)) {
			return "it is not always written"
		}
	}
	// together from 0 to cnt
	next := p.c(0)
	for range got {
		for _, g := range got {
			if g.from == next {
				next = p.add(next, g.n)
				break
			}
		}
		if next == cnt {
			return ""
		}
	}
	return "the elements up to " + short(next) + " are written"
}

// decodedElems: the list holds the elements of in decoded from their encodings.
func (a *Analysis) decodedElems(v, in, size *T, at *Ins) string {
	p := a.p
	el, k := a.anyElem(v, at)
	// where each element is decoded
	for _, b := range a.rpo {
		for _, i := range b.Ins {
			if i.Op != OpCall || a.term(i).op != "gDecErr" {
				continue
			}
			l := a.loopOf[b]
			src := a.arg(i, 1)
			if l == nil || src.op != "sl" || len(l.Latches) != 1 {
				return "they are not decoded from slices"
			}
			val := a.canonDec(a.resolve(a.groupAddr(a.arg(i, 0)), a.endOf(l.Latches[0])))
			if val.op != "gDecFix" || val.args[0] != src {
				return "an element is decoded as " + short(val)
			}
			kl := p.k(l.ID)
			if p.subst(a.arg(i, 0), map[*T]*T{kl: k}) != el {
				return "element " + k.String() + " is " + short(el)
			}
			if src.args[1] != p.mul(size, kl) || src.args[2] != size {
				return "element " + k.String() + " is decoded from " + short(src)
			}
			s := a.streamOf(src.args[0], i)
			if s.why != "" || !s.bytes || len(s.loops) != 1 || a.TripOf(s.loops[0]) != p.app("len", "", in) || !a.allIterationsOrFail(s.loops[0]) {
				return "the elements are not encoded one after the other: " + s.why
			}
			x := a.fixedEnc(s.leaf, func(t *T) bool { return t == size })
			if x == nil {
				return "they are encoded as " + short(s.leaf)
			}
			ptr := p.app("ld", "", p.app("ia", "", in, p.k(s.loops[0].ID)))
			if x != p.app("ld", "", p.app("fa", "Group.val", ptr)) && x != ptr {
				return "what is encoded is " + short(x)
			}
			if tr := a.TripOf(l); tr == nil || !(tr.op == "/" || tr.op == "ceildiv") || tr.args[0] != a.lenT(src.args[0]) || tr.args[1] != size {
				if tr != p.app("len", "", in) {
					return short(tr) + " elements are decoded"
				}
			}
			return ""
		}
	}
	return "nothing is decoded"
}

// allIterationsOrFail: the loop ends early only with an error.
func (a *Analysis) allIterationsOrFail(l *Loop) bool {
	for _, e := range l.Exits {
		if l.Main != nil && e.B == l.Main.B && e.K == l.Main.K {
			continue
		}
		fails := false
		for _, x := range a.lits(e) {
			if x.op == "!" && x.args[0].op == "==" {
				for _, y := range x.args[0].args {
					fails = fails || y.op == "x" && y.args[0].op == "gEnc"
				}
			}
		}
		if !fails {
			return false
		}
	}
	return l.Main != nil
}

// trimmed: the slice without the zeros at its end.
func (a *Analysis) trimmed(t *T) *T {
	switch callName(t) {
	case "bytes.TrimRight":
		if t.args[1].op == "str" && (t.args[1].aux == "\x00" || t.args[1].aux == strconv.Quote("\x00")) {
			return t.args[0]
		}
	case "bytes.TrimRightFunc":
		fn := a.f.P.fnByName(t.args[1].aux)
		if t.args[1].op != "func" || fn == nil {
			return nil
		}
		b := a.f.P.NewFlat(fn, func(*ssa.Function) bool { return false }).Analyze()
		for _, e := range b.accepts() {
			x := b.p.app("param", b.paramName(0))
			if e.vals[0] != b.p.eq(x, b.p.c(0)) {
				return nil
			}
		}
		return t.args[0]
	}
	return nil
}

// trimLoop: n and x are the length and the list that a loop leaves which drops
// the zeros at the end of a list one by one, either by counting n down or by
// reslicing x; it returns the list that the loop starts with.
func (a *Analysis) trimLoop(x, n *T) *T {
	p := a.p
	for _, l := range a.loops {
		for _, ph := range l.Header.phis() {
			cur, kend := a.term(ph), p.app("kend", strconv.Itoa(l.ID))
			fin := p.app("last", strconv.Itoa(l.ID), p.subst(cur, map[*T]*T{p.k(l.ID): kend}))
			init, next := a.initOf(l, ph), a.nextOf(l, ph)
			if init == nil || next == nil {
				continue
			}
			in, length := x, cur
			switch {
			case fin == n: // for n > 0 && x[n-1] == 0 { n-- }
				if init != a.lenT(x) || next != p.add(cur, p.c(-1)) {
					continue
				}
			case fin == x && n == a.lenT(x): // for len(x) > 0 && x[len(x)-1] == 0 { x = x[:len(x)-1] }
				in, length = init, a.lenT(cur)
				if next != p.app("sl", "", cur, p.c(0), p.add(length, p.c(-1))) {
					continue
				}
				x = cur
			default:
				continue
			}
			good := len(l.Exits) > 0
			for _, e := range l.Exits {
				ok := false
				for _, y := range a.lits(e) {
					ok = ok || y == p.eq(length, p.c(0)) || y == p.lt0(p.add(length, p.c(-1))) || y == p.not(p.lt0(p.scale(length, -1)))
					ok = ok || y == p.not(p.eq(a.elemAt(x, p.add(length, p.c(-1)), a.endOf(e.B)), p.c(0)))
				}
				good = good && ok
			}
			if good {
				return in
			}
		}
	}
	return nil
}

// unpadded: x is the padded block that t comes from, without the zeros at its
// end and the last drop bytes before them.
func (a *Analysis) unpadded(t *T, drop int64) *T {
	base, n := t, a.lenT(t)
	if t.op == "sl" && a.isC(t.args[1], 0) {
		base, n = t.args[0], t.args[2]
	}
	n = a.p.add(n, a.p.c(drop))
	if x := a.trimLoop(base, n); x != nil {
		return x
	}
	if n == a.lenT(base) {
		return a.trimmed(base)
	}
	return nil
}
func (a *Analysis) padOf(x, in *T) string {
	ps := flattenCat(x, nil)
	if len(ps) < 2 || ps[0] != in {
		return "the block is " + short(x)
	}
	if m, ok := ps[1].args, ps[1].op == "one"; !ok || len(m) != 1 {
		return "no mark follows the data: " + short(ps[1])
	} else if c, ok := m[0].isC(); !ok || c == 0 {
		return "the mark is " + short(m[0])
	}
	for _, z := range ps[2:] {
		if z.op != "obj" || len(a.byRoot[rootKey(z)]) > 0 {
			return "the mark is followed by " + short(z)
		}
	}
	return ""
}

// gobTypes: the types that are encoded and decoded by encoding/gob.
func (r *Run) gobTypes(rule string) {
	p := r.p
	enc, dec := map[string]types.Type{}, map[string]types.Type{}
	at := map[string]string{}
	n := 0
	base := func(t types.Type) types.Type {
		for {
			q, ok := t.Underlying().(*types.Pointer)
			if !ok {
				return t
			}
			t = q.Elem()
		}
	}
	for _, fn := range p.productFuncs() {
		for _, c := range callsIn(fn) {
			name := calleeName(c.Common())
			k := map[string]map[string]types.Type{"(*encoding/gob.Encoder).Encode": enc, "(*encoding/gob.Decoder).Decode": dec}[name]
			if k == nil {
				continue
			}
			n++
			t := argType(c.Common(), 0)
			if t == nil {
				r.ob(rule, "type", p.relPos(c.Pos()), false, "the type that is sent is not known")
				continue
			}
			b := base(t)
			k[types.TypeString(b, nil)] = b
			at[types.TypeString(b, nil)] = p.relPos(c.Pos())
		}
	}
	var names []string
	for s := range enc {
		names = append(names, s)
	}
	sort.Strings(names)
	for _, s := range names {
		r.ob(rule, shortN(s)+" decoded", at[s], dec[s] != nil, "%s is encoded but never decoded as such", s)
		hid := hiddenField(enc[s], map[types.Type]bool{})
		r.ob(rule, shortN(s)+" exported", at[s], hid == "", "the field %s is lost", hid)
	}
	for s := range dec {
		r.ob(rule, shortN(s)+" encoded", at[s], enc[s] != nil, "%s is decoded but never encoded as such", s)
	}
	r.ob(rule, "found", "", n > 0, "nothing is sent by encoding/gob")
}

// hiddenField: a field that gob does not send.
func hiddenField(t types.Type, seen map[types.Type]bool) string {
	if seen[t] {
		return ""
	}
	seen[t] = true
	if m := types.NewMethodSet(types.NewPointer(t)); m.Lookup(nil, "GobEncode") != nil || m.Lookup(nil, "MarshalBinary") != nil {
		return ""
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return hiddenField(u.Elem(), seen)
	case *types.Slice:
		return hiddenField(u.Elem(), seen)
	case *types.Array:
		return hiddenField(u.Elem(), seen)
	case *types.Map:
		if s := hiddenField(u.Key(), seen); s != "" {
			return s
		}
		return hiddenField(u.Elem(), seen)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if !f.Exported() {
				return shortN(types.TypeString(t, nil)) + "." + f.Name()
			}
			if s := hiddenField(f.Type(), seen); s != "" {
				return s
			}
		}
	case *types.Chan, *types.Signature, *types.Interface:
		return types.TypeString(t, nil)
	}
	return ""
}

// codecPairs: what one end encodes with is undone by what the other end decodes with.
func (r *Run) codecPairs(rule string) {
	inverse := map[string]string{
		"lib/matrix.MatrixToBytes": "lib/matrix.BytesToMatrix", "lib/matrix.Matrix128ToBytes": "lib/matrix.BytesToMatrix128",
		"lib/matrix.MatricesToBytes": "lib/matrix.BytesToMatrices", "lib/database.MarshalGroupElements": "lib/database.UnmarshalGroupElements",
		"lib/utils.Uint32SliceToByteSlice": "lib/utils.ByteSliceToUint32Slice",
	}
	var no []string
	enc, dec := map[string]string{}, map[string]string{}
	for x, y := range inverse {
		enc[full(x)], dec[full(y)] = x, y
		no = append(no, x, y)
	}
	sort.Strings(no)
	no = append(no, "lib/database.HashIndexToGroup", "lib/database.CommitScalarToIndex", "lib/fss.Fss.EvaluatePF")
	for _, x := range [][]string{
		{"LWE query", "lib/client.LWE.QueryBytes", "lib/server.LWE.AnswerBytes"},
		{"LWE answer", "lib/server.LWE.AnswerBytes", "lib/client.LWE.ReconstructBytes"},
		{"LWE128 query", "lib/client.LWE128.QueryBytes", "lib/server.LWE128.AnswerBytes"},
		{"LWE128 answer", "lib/server.LWE128.AnswerBytes", "lib/client.LWE128.ReconstructBytes"},
		{"Amplify query", "lib/client.Amplify.QueryBytes", "lib/server.Amplify.AnswerBytes"},
		{"Amplify answer", "lib/server.Amplify.AnswerBytes", "lib/client.Amplify.ReconstructBytes"},
		{"DH query", "lib/client.DH.QueryBytes", "lib/server.DH.AnswerBytes"},
		{"DH answer", "lib/server.DH.AnswerBytes", "lib/client.DH.ReconstructBytes"},
		{"PredicateAPIR answer", "lib/server.PredicateAPIR.AnswerBytes", "lib/client.PredicateAPIR.ReconstructBytes"},
		{"PredicatePIR answer", "lib/server.PredicatePIR.AnswerBytes", "lib/client.PredicatePIR.ReconstructBytes"},
	} {
		name, from, to := x[0], x[1], x[2]
		r.part(name, func() {
			a, b := r.flat(from, no...), r.flat(to, no...)
			e := ""
			for _, x := range a.accepts() {
				v := x.vals[0]
				if v.op == "nil" {
					continue
				}
				if v.op == "x" && v.aux == "0" {
					v = v.args[0]
				}
				m := enc[callName(v)]
				r.ob(rule, name+" encoded", a.f.whereB(x.b), m != "" && (e == "" || e == m), "what is sent is %s", short(v))
				e = m
			}
			n := 0
			for _, blk := range b.rpo {
				for _, i := range blk.Ins {
					if i.Op != OpCall || dec[b.callee(i)] == "" {
						continue
					}
					n++
					d := dec[b.callee(i)]
					r.ob(rule, name+" decoded", b.f.where(i), e == "" || inverse[e] == d, "%s is undone by %s", e, d)
					src := b.arg(i, 0)
					if src.op == "ld" && src.args[0].op == "ia" {
						src = src.args[0].args[0]
					}
					r.ob(rule, name+" whole", b.f.where(i), src.op == "param", "what is decoded is %s", short(src))
					// sizes are those of the elements
					if d == "lib/database.UnmarshalGroupElements" {
						s := b.arg(i, 2)
						r.ob(rule, name+" size", b.f.where(i), s.op == "ld" && s.args[0].op == "fa" && s.args[0].aux == "Auth.ElementSize", "elements of %s bytes are decoded", short(s))
					}
				}
			}
			r.ob(rule, name+" reached", "", e != "" && n > 0, "%q is sent, %d places decode it", e, n)
		})
	}
}

// argType: the type of the value passed as an interface.
func argType(c *ssa.CallCommon, k int) types.Type {
	if !c.IsInvoke() {
		k++ // the receiver
	}
	if k >= len(c.Args) {
		return nil
	}
	switch x := c.Args[k].(type) {
	case *ssa.MakeInterface:
		return x.X.Type()
	}
	if _, ok := c.Args[k].Type().Underlying().(*types.Interface); !ok {
		return c.Args[k].Type()
	}
	return nil
}

func callsIn(fn *ssa.Function) []ssa.CallInstruction {
	var r []ssa.CallInstruction
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if c, ok := i.(ssa.CallInstruction); ok {
				r = append(r, c)
			}
		}
	}
	return r
}
