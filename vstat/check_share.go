package main

// P04: what a server of the point scheme sees is either one of the keys of one
// distributed point function, or a vector that is random or the XOR of the
// random ones and of the unit vector of the queried column.

import "fmt"

func init() {
	checks["P04"] = checkP04
	assumptions["P04"] = []string{
		"the DPF library hides the point from each key holder and its keys evaluate to a point function over 2^d positions",
		"that a failing draw stops the query, and the source of the client's generator, are decided with P01",
	}
}

// acc: the value of an element that a loop adds to by XOR: what it was before
// the loop, the term added in each iteration, and the loop.
type accum struct {
	init, term *T
	loop       *Loop
	ok         bool
	why        string
}

func (a *Analysis) xorAcc(ptr, x *T, at *Ins) accum {
	p := a.p
	addr := a.elemAddr(ptr, x)
	var upd *store
	var others []*store
	var sub map[int]*T
	for _, s := range a.byRoot[rootKey(addr)] {
		if s.i.Op != OpStore || !a.mayPrecede(s.i, at) {
			continue
		}
		private := map[int]bool{}
		for _, l := range a.loopsOf(s.i.Blk) {
			if !l.Blocks[at.Blk] {
				private[l.ID] = true
			}
		}
		m := map[int]*T{}
		sa := a.storeAddr(s)
		q := a.unify(sa, addr, private, m)
		if q == 0 {
			continue
		}
		v := a.StoreVal(s)
		self := false
		if v.op == "^" {
			for _, y := range v.args {
				self = self || (y.op == "mem" || y.op == "ld") && y.args[0] == sa
			}
		}
		if self && q == 2 {
			if upd != nil {
				return accum{why: "two loops add to it"}
			}
			upd, sub = s, m
			continue
		}
		others = append(others, s)
	}
	if upd == nil {
		return accum{why: "no loop adds to it"}
	}
	var sum *Loop
	for _, l := range a.loopsOf(upd.i.Blk) {
		if sub[l.ID] != nil {
			if !a.inRangeSub(sub[l.ID], l, sub) && !a.accessInRange(addr, sub[l.ID], l, sub) {
				return accum{why: "not every element is added to"}
			}
			continue
		}
		if l.Blocks[at.Blk] {
			continue
		}
		if sum != nil {
			return accum{why: "added to in nested loops"}
		}
		sum = l
	}
	if sum == nil {
		return accum{why: "added to once"}
	}
	for _, l := range a.loopsOf(upd.i.Blk) {
		for _, t := range l.Latches {
			if !l.Blocks[at.Blk] && a.loopOf[upd.i.Blk] == l && !a.Dom(upd.i.Blk, t) {
				return accum{why: "some iterations add nothing"}
			}
		}
	}
	top := sum
	for _, l := range a.loopsOf(upd.i.Blk) {
		if !l.Blocks[at.Blk] {
			top = l
		}
	}
	pre := a.dom[top.Header]
	// what is added once after the loop
	post := p.c(0)
	var early []*store
	for _, s := range others {
		v, sa := a.StoreVal(s), a.storeAddr(s)
		if top.Blocks[s.i.Blk] || a.loopOf[s.i.Blk] != nil && !a.loopOf[s.i.Blk].Blocks[at.Blk] || !a.Dom(top.Header, s.i.Blk) || !a.DomI(s.i, at) || v.op != "^" || sa.op != "ia" || addr.op != "ia" || sa.args[0] != addr.args[0] {
			early = append(early, s)
			continue
		}
		self := a.resolve(sa, s.i)
		w := p.xor(v, self)
		if hasOp(w, "mem") || hasOp(w, "ld") && !hasOp(v, "ld") {
			early = append(early, s)
			continue
		}
		post = p.xor(post, p.ite(p.eq(addr.args[1], sa.args[1]), w, p.c(0)))
	}
	others = early
	for _, s := range others {
		if top.Blocks[s.i.Blk] || !a.Dom(a.outside(s.i.Blk, pre), pre) && a.mayPrecede(s.i, at) && a.reach(top.Header)[s.i.Blk] {
			return accum{why: "also written at " + a.f.whereB(s.i.Blk)}
		}
	}
	if !a.allIterations(sum) {
		return accum{why: "the loop may end early"}
	}
	v := a.StoreVal(upd)
	var rest []*T
	n := 0
	for _, y := range v.args {
		if (y.op == "mem" || y.op == "ld") && y.args[0] == a.storeAddr(upd) {
			n++
			continue
		}
		rest = append(rest, y)
	}
	if n != 1 {
		return accum{why: "added to itself"}
	}
	t := p.substLoops(p.xor(rest...), sub)
	return accum{init: p.xor(a.resolve(addr, a.endOf(pre)), post), term: t, loop: sum, ok: true}
}

// allIterations: the loop is left at its test only, or the operation fails.
func (a *Analysis) allIterations(l *Loop) bool {
	if l.Main == nil {
		return false
	}
	if r, ok := a.allIterM[l]; ok {
		return r
	}
	acc := a.acceptBlocks()
	ok := true
	for _, e := range l.Exits {
		if e.B == l.Main.B && e.K == l.Main.K {
			continue
		}
		re := a.reach(e.To())
		for _, b := range acc {
			ok = ok && e.To() != b && !re[b]
		}
	}
	if a.allIterM == nil {
		a.allIterM = map[*Loop]bool{}
	}
	a.allIterM[l] = ok
	return ok
}

// coversBits: 8*n bits are at least m.
func (a *Analysis) coversBits(n, m *T) bool {
	p := a.p
	if lo, ok := a.lower(p.sub(p.scale(n, 8), m)); ok && lo >= 0 {
		return true
	}
	if x, d, ok := ceilOf(n); ok && d == 8 && x == m {
		return true
	}
	// floor(m/8) + 1
	lo, ok := a.lower(p.sub(n, p.add(p.div(m, p.c(8)), p.c(1))))
	return ok && lo >= 0
}

// unitBit: the byte with a single one at bit c mod 8.
func (a *Analysis) unitBit(t, c *T) bool {
	if t.op == "byteof" {
		t = t.args[0]
	}
	return t.op == "<<" && t.args[0] == a.p.c(1) && t.args[1] == a.p.rem(c, a.p.c(8))
}

func checkP04(r *Run) {
	two := r.rule("dpf-keys", "for two servers the query is the two keys of one point function at the queried column")
	dom := r.rule("dpf-domain", "the domain of the point function covers every column")
	num := r.rule("one-per-server", "there is one vector per server, with a bit for every column")
	rnd := r.rule("random-shares", "all vectors but one are bytes of the client's generator, no byte of which is used twice, over their whole length")
	sum := r.rule("xor-is-unit", "the XOR of all vectors has a single one, at the queried column")
	r.programs()
	for _, entry := range []string{"S_PIRQuery", "S_PIRQueryBytes"} {
		r.part(entry, func() {
			a := r.flat("zzverif." + entry)
			p := a.p
			rd, info, ix, n := p.app("param", a.paramName(0)), p.app("param", a.paramName(1)), p.app("param", a.paramName(2)), p.app("param", a.paramName(3))
			if entry == "S_PIRQueryBytes" {
				// the index is encoded in big endian, in four bytes
				var bs []*T
				for k := int64(0); k < 4; k++ {
					bs = append(bs, p.app("ld", "", p.app("ia", "", ix, p.c(k))))
				}
				ix = p.app("be", "", bs...)
			}
			cols := p.app("ld", "", p.app("fa", "Info.NumColumns", info))
			col := p.rem(ix, cols)
			isTwo := p.eq(n, p.c(2))
			nTwo, nShare := 0, 0
			for _, b := range a.rpo {
				if b.Term != TReturn {
					continue
				}
				at, w := a.endOf(b), a.f.whereB(b)
				list := a.at(b.Rets[0], b)
				facts := a.factsAt(b)
				e0, e1 := a.elemAt(list, p.c(0), at), a.elemAt(list, p.c(1), at)
				gen := ""
				for _, t := range []*T{e0, e1} {
					walkT(t, func(x *T) bool {
						if x.op == "call" && hasSuffix(callName(x), "dpf.Gen") {
							gen = x.aux
						}
						return true
					})
				}
				if gen != "" {
					nTwo++
					ok := e0.op == "x" && e1.op == "x" && e0.args[0] == e1.args[0] && e0.aux != e1.aux && a.lenT(list) == p.c(2)
					r.ob(two, "keys", w, ok, "the query is %s and %s, of %s", short2(e0), short2(e1), short2(a.lenT(list)))
					r.ob(two, "for two servers", w, a.implied(facts, isTwo), "the keys are returned also for other numbers of servers")
					if ok {
						g := e0.args[0]
						r.ob(two, "column", w, g.args[0] == col, "the point is %s", short2(g.args[0]))
						d := g.args[1]
						okd := d.op == "bits.Len" || d.op == "call" && hasSuffix(callName(d), "bits.Len")
						if okd {
							lo, ok2 := a.lower(p.sub(d.args[0], p.sub(cols, p.c(1))))
							okd = ok2 && lo >= 0
						}
						r.ob(dom, "domain", w, okd, "the domain has 2^%s positions", short2(d))
					}
					continue
				}
				nShare++
				r.ob(two, "not for two servers", w, a.implied(facts, p.not(isTwo)), "vectors are sent also to two servers")
				last := p.sub(n, p.c(1))
				r.ob(num, "vectors", w, a.lenT(list) == n, "%s vectors for %s servers", short2(a.lenT(list)), short2(n))
				j, x := p.app("param", "#j"), p.app("param", "#x")
				a.assuming(map[*T]*T{j: last}, func() {
					// one of the vectors is the sum: the last, or the first
					a.shares(r, list, at, w, j, x, rd, col, cols, n, num, rnd, sum)
				})
			}
			r.ob(two, "reached", "", nTwo > 0, "no query for two servers")
			r.ob(rnd, "reached", "", nShare > 0, "no query for more servers")
		})
	}
}

func (a *Analysis) shares(r *Run, list *T, at *Ins, w string, j, x, rd, col, cols, n *T, num, rnd, sum string) {
	p := a.p
	last := p.sub(n, p.c(1))
	type lay struct {
		share, sum *T
	}
	var pick *lay
	var ac accum
	for _, l := range []lay{{a.elemAt(list, j, at), a.elemAt(list, last, at)}, {a.elemAt(list, p.add(j, p.c(1)), at), a.elemAt(list, p.c(0), at)}} {
		l := l
		c := a.xorAcc(l.sum, x, at)
		if !c.ok {
			c2 := a.regAcc(a.elemAt(l.sum, x, at))
			if c2.ok {
				c = c2
			}
		}
		if pick == nil || c.ok && !ac.ok {
			pick, ac = &l, c
		}
	}
	vl := a.lenT(pick.share)
	for _, v := range []*T{pick.share, pick.sum} {
		ln := a.lenT(v)
		r.ob(num, "bits", w, a.coversBits(ln, cols), "a vector has %s bytes", short2(ln))
	}
	r.ob(num, "equal lengths", w, a.p.subst(vl, map[*T]*T{j: p.c(0)}) == a.lenT(pick.sum), "vectors have %s and %s bytes", short2(vl), short2(a.lenT(pick.sum)))
	// the shares
	var s *T
	a.assuming(map[*T]*T{x: vl}, func() { s = a.elemAt(pick.share, x, at) })
	ok, why := false, "a byte of a share is "+short2(s)
	if s.op == "filled" && len(s.args) > 0 && s.args[0] == rd {
		pos := s.args[len(s.args)-1]
		d := p.sub(pos, x)
		switch {
		case hasAtom(d, x):
			why = "byte " + short2(pos) + " of the draw is used"
		case d.isZero() && hasLoopArg(s, j):
			ok = true // a draw for each share
		default:
			// j * (at least the length)
			step := p.sub(p.subst(d, map[*T]*T{j: p.c(1)}), p.subst(d, map[*T]*T{j: p.c(0)}))
			if p.add(p.mul(step, j), p.subst(d, map[*T]*T{j: p.c(0)})) == d {
				if lo, k := a.lower(p.sub(step, vl)); k && lo >= 0 {
					ok = true
				}
			}
			why = "byte x of vector j is byte " + short2(pos) + " of the draw"
		}
	}
	r.ob(rnd, "shares", w, ok, "%s", why)
	// the sum
	if !ac.ok {
		r.ob(sum, "sum", w, false, "the last vector is not a sum: %s", ac.why)
		return
	}
	tr := a.TripOf(ac.loop)
	// iteration k adds share k (or, for the second layout, share k-1+1)
	want := p.subst(s, map[*T]*T{j: p.k(ac.loop.ID)})
	r.ob(sum, "all shares", w, tr == last && ac.term == want, "%s of %s shares are added, each as %s", short2(tr), short2(last), short2(ac.term))
	one := ac.init
	okInit := one.op == "ite" && one.args[0] == p.eq(x, p.div(col, p.c(8))) && a.unitBit(one.args[1], col) && one.args[2] == p.c(0)
	r.ob(sum, "unit vector", w, okInit, "the sum starts from %s", short2(one))
}

// regAcc: an element stored after a register was added up in a loop.
func (a *Analysis) regAcc(t *T) accum {
	if t.op != "last" || len(t.args) == 0 {
		return accum{why: "no register"}
	}
	l := a.loopByID(atoi(t.aux))
	if l == nil || !a.allIterations(l) {
		return accum{why: "no register"}
	}
	ph := a.phiOf(l, t.args[0])
	if ph == nil {
		return accum{why: "no register"}
	}
	init, next, base := a.initOf(l, ph), a.nextOf(l, ph), a.term(ph)
	if init == nil || next == nil || next.op != "^" || len(base.args) != len(t.args[0].args) {
		return accum{why: "no sum"}
	}
	term := a.p.xor(next, base)
	if hasAtom(term, base) {
		return accum{why: "no sum"}
	}
	m := map[*T]*T{}
	for k, x := range base.args {
		if x.op == "k" && x.aux != itoa(l.ID) {
			m[x] = t.args[0].args[k]
		}
	}
	return accum{init: a.p.subst(init, m), term: a.p.subst(term, m), loop: l, ok: true}
}

func hasAtom(t, x *T) bool {
	f := false
	walkT(t, func(y *T) bool {
		f = f || y == x
		return !f
	})
	return f
}

func (t *T) isZero() bool {
	c, ok := t.isC()
	return ok && c == 0
}

func hasLoopArg(t, j *T) bool {
	for _, x := range t.args[1 : len(t.args)-1] {
		if x == j {
			return true
		}
	}
	return false
}

var _ = fmt.Sprint
