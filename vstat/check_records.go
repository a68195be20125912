package main

// C01: an answer combines every record exactly once.

import (
	"sort"
	"strings"
)

func init() {
	checks["C01"] = checkC01
	assumptions["C01"] = []string{
		"fastxor XORs the common length of its operands; group additions and the point function library compute what they document",
		"the metadata describes the stored data: lengths of blocks add up to the entries, there is one key per column of a key database, a block is not longer than the block size",
		"index arithmetic in the native kernels does not overflow an int",
	}
}

const evalPF = "(lib/fss.Fss).EvaluatePF"

func isFieldLoad(t *T, f string) bool {
	return (t.op == "ld" || t.op == "mem") && t.args[0].op == "fa" && t.args[0].aux == f
}

// recordAcc: a loop (or a single statement) that adds the evaluation to an answer.
type recordAcc struct {
	s      *store
	inner  *Loop
	base   *T
	weight *T // nil: added as it is
	entry  func(e Edge) bool
}

func (a *Analysis) entersLoop(l *Loop) func(e Edge) bool {
	return func(e Edge) bool { return e.To() == l.Header && !l.Blocks[e.B] }
}

func entersBlock(b *Block) func(e Edge) bool { return func(e Edge) bool { return e.To() == b } }

func checkC01(r *Run) {
	fss := r.rule("every-key", "an evaluation of a key is made for every key of the database: the loop has one iteration per key, handles the key of its number and has no way out before its end")
	add := r.rule("added-once", "in every iteration the evaluation is added exactly once to every element of each vector of the answer, on all paths but those of a record without the predicate's field or with a date after the reference year")
	ret := r.rule("returned", "what is returned are the vectors added up, which start at zero, after one such loop")
	pnt := r.rule("every-block", "a point answer XORs each block of each row into its row of the answer exactly when the query has its column's bit set, at the block's position")
	dh := r.rule("every-element", "a Diffie-Hellman answer adds, for each row in order, the query element of each column whose entry is one")
	lwe := r.rule("whole-matrix", "an LWE answer is the product of the query and the whole database matrix, for each repetition")
	wrp := r.rule("kernel-arguments", "matrix products hand the kernel the dimensions and the buffers of the operands, and return its output")
	krn := r.rule("kernel-loops", "the kernels add the product of row i and column j to element (i, j) once for every inner index")

	for _, f := range []string{"lib/server.PredicateAPIR.Answer", "lib/server.PredicatePIR.Answer"} {
		f := f
		r.part(f, func() { r.keysOnce(f, fss, add, ret) })
	}
	r.part("PIR", func() { r.blocksOnce(pnt) })
	r.part("DH", func() { r.elementsOnce(dh) })
	for _, k := range []struct{ f, mul, db string }{
		{"lib/server.LWE.Answer", "lib/matrix.BinaryMul", "LWE.Matrix"},
		{"lib/server.LWE128.Answer", "lib/matrix.BinaryMul128", "LWE128.Matrix"},
		{"lib/server.Amplify.Answer", "lib/matrix.BinaryMul", "LWE.Matrix"},
	} {
		k := k
		r.part(k.f, func() {
			a := r.flat(k.f, k.mul)
			p := a.p
			n := 0
			for _, e := range a.accepts() {
				n++
				v, q := e.vals[0], p.app("param", a.paramName(1))
				if k.f == "lib/server.Amplify.Answer" {
					x := p.app("param", "#x")
					r.ob(lwe, k.f+" count", a.f.whereB(e.b), a.lenT(v) == a.lenT(q), "%s answers to %s queries", short2(a.lenT(v)), short2(a.lenT(q)))
					a.assuming(map[*T]*T{x: a.lenT(q)}, func() { v = a.elemAt(v, x, a.endOf(e.b)) })
					q = p.app("ld", "", p.app("ia", "", q, x))
				}
				ok := v.op == "call" && callName(v) == full(k.mul) && v.args[0] == q && isFieldLoad(v.args[1], k.db)
				r.ob(lwe, k.f, a.f.whereB(e.b), ok, "the answer is %s", short2(v))
			}
			r.ob(lwe, k.f+" reached", "", n > 0, "no answer")
		})
	}
	r.kernels(wrp, krn, "binary_multiply", "binary_multiply128")
}

func (r *Run) keysOnce(f, fss, add, ret string) {
	a := r.flat(f, evalPF[1:strings.Index(evalPF, ")")]+".EvaluatePF")
	p := a.p
	evals := a.calls(evalPF, "(*lib/fss.Fss).EvaluatePF")
	r.ob(fss, f+" evaluates", "", len(evals) > 0, "no evaluation of a key")
	byLoop := map[*Loop][]*Ins{}
	var loops []*Loop
	for _, e := range evals {
		w := a.f.where(e)
		l := a.loopOf[e.Blk]
		if !r.ob(fss, f+" in loop", w, l != nil, "the evaluation is not repeated for each key") {
			continue
		}
		if byLoop[l] == nil {
			loops = append(loops, l)
		}
		byLoop[l] = append(byLoop[l], e)
	}
	inLoop := map[*Loop]map[*T]*recordAcc{}
	for _, l := range loops {
		w := a.f.whereB(l.Header)
		tr := a.TripOf(l)
		okT := tr != nil && (isFieldLoad(tr, "Info.NumColumns") || tr.op == "len" && isFieldLoad(tr.args[0], "DB.KeysInfo"))
		r.ob(fss, f+" count", w, okT, "the loop runs %s times", short2(tr))
		r.ob(fss, f+" to the end", w, a.allIterations(l), "the loop may end before the last key")
		k := p.k(l.ID)
		nKey := 0
		for _, b := range a.rpo {
			if !l.Blocks[b] {
				continue
			}
			for _, i := range b.Ins {
				if i.Op != OpIndexAddr && i.Op != OpIndex {
					continue
				}
				keys := a.op(i, 0)
				if keys.op == "sl" && a.isC(keys.args[1], 0) {
					keys = keys.args[0]
				}
				if isFieldLoad(keys, "DB.KeysInfo") {
					nKey++
					r.ob(fss, f+" key", a.f.where(i), a.op(i, 1) == k, "iteration %s handles key %s", k, short2(a.op(i, 1)))
				}
			}
		}
		r.ob(fss, f+" keys used", w, nKey > 0, "no key is used")
		// the vectors that evaluations are added to
		accs := map[*T]*recordAcc{}
		var list []*recordAcc
		ids := map[string]*Ins{}
		for _, e := range byLoop[l] {
			ids[sprint(e.ID)] = e
		}
		src := map[*recordAcc]map[*Ins]bool{}
		for _, s := range a.stores {
			if s.i.Op != OpStore || !l.Blocks[s.i.Blk] {
				continue
			}
			v, sa := a.StoreVal(s), a.storeAddr(s)
			from := map[*Ins]bool{}
			var ev *T
			walkT(v, func(x *T) bool {
				if x.op == "mem" {
					for _, id := range memIDs(x) {
						if ids[id] != nil {
							from[ids[id]] = true
							ev = x
						}
					}
				}
				return true
			})
			if len(from) == 0 {
				continue
			}
			ws := a.f.where(s.i)
			v = a.modField(v)
			var inner []*Loop
			for _, x := range a.loopsOf(s.i.Blk) {
				if x == l {
					break
				}
				inner = append(inner, x)
			}
			ac := &recordAcc{s: s}
			src[ac] = from
			ok := sa.op == "ia" && len(inner) <= 1 && v.op == "mod" && v.aux == sprint(modP)
			why := "the evaluation is stored as " + short2(v)
			if ok {
				ac.base = sa.args[0]
				// itself, plus the evaluation (with a weight)
				var self *T
				ts, _, _ := parts(v.args[0])
				for _, x := range ts {
					if (x.op == "mem" || x.op == "ld") && x.args[0] == sa && !containsTerm(x, ev) {
						self = x
					}
				}
				ok = self != nil
				if ok {
					rest := p.mod(p.sub(v.args[0], self), modP)
					switch {
					case rest == p.mod(ev, modP):
					default:
						wgt := a.yearsTo(l)
						if wgt != nil && rest == p.mod(p.mul(wgt, ev), modP) {
							ac.weight = wgt
						} else {
							ok = false
						}
					}
				}
				// element j of the evaluation is added to element j
				ok = ok && ev.args[0].op == "ia" && ev.args[0].args[1] == sa.args[1]
				n := a.lenT(ac.base)
				for e := range from {
					out := a.arg(e, nargs(e)-1)
					ok = ok && ev.args[0].args[0] == out && a.lenT(out) == n
				}
				if len(inner) == 1 {
					ac.inner = inner[0]
					ac.entry = a.entersLoop(ac.inner)
					all := sa.args[1] == p.k(ac.inner.ID) && a.TripOf(ac.inner) == n && a.allIterations(ac.inner)
					for _, t := range ac.inner.Latches {
						all = all && a.Dom(s.i.Blk, t)
					}
					r.ob(add, f+" all elements", ws, all, "not every element of the vector is added to (%s of %s)", short2(a.TripOf(ac.inner)), short2(n))
				} else {
					ac.entry = entersBlock(s.i.Blk)
					r.ob(add, f+" all elements", ws, n == p.c(1) && sa.args[1].isZero(), "one of %s elements is added to", short2(n))
				}
			}
			if r.ob(add, f+" sum", ws, ok, "%s", why) {
				r.ob(add, f+" one sum", ws, accs[ac.base] == nil || accs[ac.base].weight == ac.weight, "the vector is added to in different ways")
				accs[ac.base] = ac
				list = append(list, ac)
			}
		}
		if len(list) == 0 {
			r.ob(add, f+" sum", w, false, "no evaluation is added to an answer")
			continue
		}
		inLoop[l] = accs
		weighted := false
		for _, x := range list {
			weighted = weighted || x.weight != nil
		}
		// each iteration
		var bases []*T
		num := map[*T]string{}
		for b := range accs {
			bases = append(bases, b)
		}
		sort.Slice(bases, func(i, j int) bool { return bases[i].id < bases[j].id })
		want := ""
		for k, b := range bases {
			num[b] = string(rune('a' + k))
			want += num[b]
		}
		path, found := a.explore(exploreOpts{
			from: l.Header,
			edge: func(q string, e Edge) (string, bool) {
				if strings.HasPrefix(q, "!") {
					return q, false
				}
				if !l.Blocks[e.To()] {
					return q, false
				}
				// q: evaluation made, vectors added to, record skipped
				ev, got, skip := "", "", ""
				if x := strings.Split(q, "|"); len(x) == 3 {
					ev, got, skip = x[0], x[1], x[2]
				}
				for _, lit := range a.lits(e) {
					if a.noField(lit, e.B, l) || weighted && a.afterYear(lit, l) {
						skip = "s"
					}
				}
				for _, i := range byLoop[l] {
					if e.To() == i.Blk {
						ev = sprint(i.ID)
					}
				}
				for _, ac := range list {
					if ac.entry(e) {
						fresh := false
						for i := range src[ac] {
							fresh = fresh || ev == sprint(i.ID)
						}
						if !fresh || strings.Contains(got, num[ac.base]) {
							return "!", true
						}
						x := []byte(got + num[ac.base])
						sort.Slice(x, func(i, j int) bool { return x[i] < x[j] })
						got = string(x)
					}
				}
				if e.To() == l.Header {
					if skip == "" && got == want || skip != "" && got == "" {
						return q, false
					}
					return "!", true
				}
				return ev + "|" + got + "|" + skip, true
			},
			goal: func(s *pst) bool { return s.q == "!" },
		})
		r.ob(add, f+" each key", w, !found, "a key is left out, or added more than once, on the path %s", a.pathString(path))
	}
	// what is returned
	n := 0
	for _, b := range a.acceptBlocks() {
		n++
		w := a.f.whereB(b)
		path, ok := a.mustPass(func(e Edge) bool {
			for _, l := range loops {
				if e.To() == l.Header && inLoop[l] != nil {
					return true
				}
			}
			return false
		}, a.goalAt(b))
		r.ob(ret, f+" after the loop", w, ok, "an answer is returned without evaluating the keys: %s", a.pathString(path))
		pieces := flattenCat(a.at(b.Rets[0], b), nil)
		for _, l := range loops {
			if inLoop[l] == nil || !a.reach(l.Header)[b] {
				continue
			}
			good := len(pieces) == len(inLoop[l])
			for k, x := range pieces {
				ac := inLoop[l][x]
				good = good && ac != nil && (ac.weight != nil) == (k == 1)
			}
			r.ob(ret, f+" vectors", w, good, "%s is returned", short2(a.at(b.Rets[0], b)))
			for x := range inLoop[l] {
				j := p.app("param", "#j")
				var z *T
				a.assuming(map[*T]*T{j: a.lenT(x)}, func() { z = a.elemAt(x, j, a.endOf(a.dom[l.Header])) })
				r.ob(ret, f+" from zero", w, z.isZero(), "the sum starts at %s", short2(z))
			}
			for _, l2 := range loops {
				if l2 != l && a.reach(l2.Header)[l.Header] {
					r.ob(ret, f+" one loop", w, false, "the keys are evaluated twice, also at %s", a.f.whereB(l2.Header))
				}
			}
		}
	}
	r.ob(ret, f+" reached", "", n > 0, "nothing is returned")
}

// yearsTo: the years from the creation of the key of this iteration to the reference year.
func (a *Analysis) yearsTo(l *Loop) *T {
	var ref, year *T
	for _, b := range a.rpo {
		for _, i := range b.Ins {
			if !l.Blocks[b] || i.Op != OpBin && i.Op != OpCall && i.Op != OpLoad && i.Op != OpStore {
				continue
			}
			var t *T
			if i.Op == OpStore {
				t = a.op(i, 1)
			} else {
				t = a.term(i)
			}
			walkT(t, func(x *T) bool {
				if isFieldLoad(x, "Info.RefYear") {
					ref = x
				}
				if a.yearOf(x, l) {
					year = x
				}
				return true
			})
		}
	}
	if ref == nil || year == nil {
		return nil
	}
	return a.p.sub(ref, year)
}

// yearOf: the calendar year, in a fixed time zone, of the creation of this key.
func (a *Analysis) yearOf(x *T, l *Loop) bool {
	return x.op == "call" && callName(x) == "(time.Time).Year" && len(x.args) > 0 && x.args[0].op == "call" && callName(x.args[0]) == "(time.Time).UTC" &&
		isFieldLoad(x.args[0].args[0], "KeyInfo.CreationTime") && containsTerm(x, a.p.k(l.ID))
}

// afterYear: the key was created after the reference year.
func (a *Analysis) afterYear(lit *T, l *Loop) bool {
	w := a.yearsTo(l)
	return w != nil && lit == a.p.lt0(w)
}

// noField: the literal says that the e-mail address of this key is shorter than the part asked for.
func (a *Analysis) noField(lit *T, b *Block, l *Loop) bool {
	if lit.op != "<0" {
		return false
	}
	var ln, part *T
	walkT(lit, func(x *T) bool {
		if x.op == "len" && isFieldLoad(x.args[0], "UserId.Email") && containsTerm(x, a.p.k(l.ID)) {
			ln = x
		}
		if isFieldLoad(x, "Info.FromStart") || isFieldLoad(x, "Info.FromEnd") {
			part = x
		}
		return true
	})
	if ln == nil || part == nil || lit != a.p.lt0(a.p.sub(ln, part)) {
		return false
	}
	if part.args[0].aux == "Info.FromEnd" {
		// the end counts only when no start is asked for
		st := a.p.app(part.op, part.aux, append([]*T{a.p.app("fa", "Info.FromStart", part.args[0].args...)}, part.args[1:]...)...)
		return a.implied(a.factsAt(b), a.p.eq(st, a.p.c(0)))
	}
	return true
}

// bitTest: the literal tests bit s of the byte x; set tells for which value it holds.
func (a *Analysis) bitTest(lit *T) (x, s *T, set, ok bool) {
	set = true
	if lit.op == "!" {
		lit, set = lit.args[0], false
	}
	if lit.op != "==0" {
		return
	}
	t, c := lit.args[0], int64(0)
	if ts, co, k := parts(t); t.op == "+" && len(ts) == 1 && (co[0] == 1 || co[0] == -1) {
		t, c = ts[0], -k*co[0]
	}
	if t.op == "%" && t.args[1] == a.p.c(2) && (c == 0 || c == 1) {
		if c == 0 {
			set = !set
		}
		y := t.args[0]
		if y.op == ">>" {
			return y.args[0], y.args[1], set, true
		}
		return
	}
	if t.op == "&" && len(t.args) == 2 && c == 0 {
		for k := 0; k < 2; k++ {
			if y := t.args[k]; y.op == "<<" && y.args[0] == a.p.c(1) {
				return t.args[1-k], y.args[1], !set, true
			}
		}
	}
	return
}

func (r *Run) blocksOnce(rule string) {
	f := "lib/server.PIR.Answer"
	a := r.flat(f)
	p := a.p
	q := p.app("param", a.paramName(1))
	nRet := 0
	for _, b := range a.acceptBlocks() {
		nRet++
		w := a.f.whereB(b)
		out := a.at(b.Rets[0], b)
		var rows, cols, size *T
		var xs []*store
		for _, s := range a.byRoot[rootKey(out)] {
			sa := a.storeAddr(s)
			if sa.op == "ia" && sa.args[0] == out && s.i.Op == OpStore {
				xs = append(xs, s)
			} else {
				r.ob(rule, "written", a.f.where(s.i), false, "the answer is written as %s", short2(sa))
			}
		}
		for _, bl := range a.rpo {
			for _, i := range bl.Ins {
				if i.Op != OpLoad {
					continue
				}
				switch t := a.term(i); {
				case isFieldLoad(t, "Info.NumRows"):
					rows = t
				case isFieldLoad(t, "Info.NumColumns"):
					cols = t
				case isFieldLoad(t, "Info.BlockSize"):
					size = t
				}
			}
		}
		if rows == nil || cols == nil || size == nil || len(xs) != 1 {
			r.ob(rule, "blocks", w, false, "the answer is written at %d places", len(xs))
			continue
		}
		r.ob(rule, "length", w, a.lenT(out) == p.mul(rows, size), "the answer has %s bytes", short2(a.lenT(out)))
		s := xs[0]
		ws := a.f.where(s.i)
		sa, v := a.storeAddr(s), a.StoreVal(s)
		ls := a.loopsOf(s.i.Blk)
		var self, ent *T
		if v.op == "^" && len(v.args) == 2 {
			for k, x := range v.args {
				if (x.op == "mem" || x.op == "ld") && x.args[0] == sa {
					self, ent = x, v.args[1-k]
				}
			}
		}
		ok := self != nil && ent.op == "ld" && ent.args[0].op == "ia" && isFieldLoad(ent.args[0].args[0], "Bytes.Entries") && len(ls) >= 2
		if !r.ob(rule, "xor", ws, ok, "byte %s becomes %s", short2(sa.args[1]), short2(v)) {
			continue
		}
		// bytes of a block
		in := ls[0]
		kb := p.k(in.ID)
		A, B := p.sub(sa.args[1], kb), a.canonSums(p.sub(ent.args[0].args[1], kb))
		r.ob(rule, "bytes", ws, !hasAtom(A, kb) && !hasAtom(B, kb), "byte %s of the answer takes byte %s", short2(sa.args[1]), short2(ent.args[0].args[1]))
		// the block at this position
		var blk, bl *T
		if B.op == "sum" {
			blk = B.args[0]
			bl = p.subst(B.args[1], map[*T]*T{p.bound(1): blk})
		} else if B.isZero() {
			blk = p.c(0)
		}
		if !r.ob(rule, "position", ws, blk != nil && bl != nil && bl.op == "ld" && bl.args[0].op == "ia" && isFieldLoad(bl.args[0].args[0], "Info.BlockLengths") && bl.args[0].args[1] == blk,
			"a block is taken from %s", short2(B)) {
			continue
		}
		tr := a.TripOf(in)
		okT := tr == bl || tr != nil && tr.op == "min" && len(tr.args) == 2 && contains(tr.args, bl) && contains(tr.args, size)
		r.ob(rule, "block length", ws, okT && a.allIterations(in), "%s bytes of a block are used", short2(tr))
		// which column and row
		col, row := (*T)(nil), (*T)(nil)
		outer := ls[1:]
		var head *Loop
		switch len(outer) {
		case 2:
			c, ro := p.k(outer[0].ID), p.k(outer[1].ID)
			if a.TripOf(outer[0]) == rows {
				c, ro = ro, c
			}
			col, row = c, ro
			full := a.tripOfK(col) == cols && a.tripOfK(row) == rows && blk == p.add(p.mul(row, cols), col)
			r.ob(rule, "all blocks", ws, full && a.allIterations(outer[0]) && a.allIterations(outer[1]), "block %s of %s times %s is handled", short2(blk), short2(a.TripOf(outer[1])), short2(a.TripOf(outer[0])))
			head = outer[0]
			// every row has all its columns
			if a.loopOf[outer[0].Header] == outer[0] {
				all := true
				for _, t := range outer[1].Latches {
					all = all && a.Dom(outer[0].Header, t)
				}
				r.ob(rule, "all rows", ws, all, "some rows are left out")
			}
		case 1:
			k := p.k(outer[0].ID)
			col, row = p.rem(k, cols), p.div(k, cols)
			r.ob(rule, "all blocks", ws, blk == k && a.TripOf(outer[0]) == p.mul(rows, cols) && a.allIterations(outer[0]), "block %s of %s is handled", short2(blk), short2(a.TripOf(outer[0])))
			head = outer[0]
		default:
			r.ob(rule, "all blocks", ws, false, "the blocks are handled in %d nested loops", len(outer))
			continue
		}
		r.ob(rule, "row", ws, A == p.mul(size, row), "a block is added at %s", short2(A))
		// exactly when the bit is set
		sel := func(want bool) func(e Edge) bool {
			return func(e Edge) bool {
				for _, lit := range a.lits(e) {
					x, sh, set, ok := a.bitTest(lit)
					if ok && set == want && sh == p.rem(col, p.c(8)) && a.queryByte(x, q, p.div(col, p.c(8))) {
						return true
					}
				}
				return false
			}
		}
		within := func(bad func(e Edge) bool, goal func(e Edge) bool) ([]*Block, bool) {
			return a.explore(exploreOpts{from: head.Header, edge: func(st string, e Edge) (string, bool) {
				if st == "!" || !head.Blocks[e.To()] || bad(e) {
					return st, false
				}
				if goal(e) {
					return "!", true
				}
				if e.To() == head.Header {
					return st, false
				}
				return st, true
			}, goal: func(s *pst) bool { return s.q == "!" }})
		}
		path, found := within(sel(true), a.entersLoop(in))
		r.ob(rule, "only if set", ws, !found, "a block is added without the column's bit being set: %s", a.pathString(path))
		path, found = within(func(e Edge) bool { return sel(false)(e) || a.entersLoop(in)(e) }, func(e Edge) bool { return e.To() == head.Header })
		r.ob(rule, "if set", ws, !found, "a block is left out although the column's bit is set: %s", a.pathString(path))
		x := p.app("param", "#x")
		var z *T
		a.assuming(map[*T]*T{x: a.lenT(out)}, func() { z = a.elemAt(out, x, a.endOf(a.dom[ls[len(ls)-1].Header])) })
		r.ob(rule, "from zero", ws, z.isZero(), "the answer starts as %s", short2(z))
		for _, t := range in.Latches {
			r.ob(rule, "every byte", ws, a.Dom(s.i.Blk, t), "some bytes are left out")
		}
	}
	r.ob(rule, "reached", "", nRet > 0, "nothing is returned")
}

func (a *Analysis) tripOfK(k *T) *T {
	if l := a.loopByID(atoi(k.aux)); l != nil {
		return a.TripOf(l)
	}
	return nil
}

// queryByte: byte n of the query, or of the evaluation of the query's key.
func (a *Analysis) queryByte(x, q, n *T) bool {
	if x.op == "ite" {
		return a.queryByte(x.args[1], q, n) && a.queryByte(x.args[2], q, n)
	}
	if x.op != "ld" && x.op != "mem" || x.args[0].op != "ia" || x.args[0].args[1] != n {
		return false
	}
	v := x.args[0].args[0]
	var is func(v *T) bool
	is = func(v *T) bool {
		switch {
		case v == q:
			return true
		case v.op == "ite":
			return is(v.args[1]) && is(v.args[2])
		case v.op == "call":
			return hasSuffix(callName(v), "dpf.EvalFull") && v.args[0] == q
		}
		return false
	}
	return is(v)
}

// groupSum: an element that is built up from the identity by additions in a loop.
type groupSum struct {
	add  *Ins
	loop *Loop
	elem *T // what is added
	why  string
}

const (
	elementAdd    = "(github.com/cloudflare/circl/group.Element).Add"
	groupIdentity = "(github.com/cloudflare/circl/group.Group).Identity"
)

func (a *Analysis) groupSumOf(x *T) groupSum {
	if x.op != "call" || callName(x) != groupIdentity {
		return groupSum{why: "it is " + short2(x)}
	}
	var r groupSum
	for _, i := range a.calls(elementAdd) {
		if a.arg(i, 0) != x {
			continue
		}
		if r.add != nil {
			return groupSum{why: "it is added to twice"}
		}
		u, v := a.arg(i, 1), a.arg(i, 2)
		if v == x {
			u, v = v, u
		}
		if u != x {
			return groupSum{why: "it becomes the sum of " + short2(u) + " and " + short2(v)}
		}
		r = groupSum{add: i, loop: a.loopOf[i.Blk], elem: v}
	}
	if r.add == nil {
		return groupSum{why: "nothing is added to it"}
	}
	if id := a.insOf[callID(x)]; id == nil || r.loop == nil || r.loop.Blocks[id.Blk] {
		return groupSum{why: "one element is added to it"}
	}
	return r
}

// addedIff: in each iteration of the loop the instruction is executed exactly when the literal holds.
func (a *Analysis) addedIff(l *Loop, i *Ins, lit func(x *T) int) (string, bool) {
	run := func(bad func(e Edge) bool, goal func(e Edge) bool) ([]*Block, bool) {
		return a.explore(exploreOpts{from: l.Header, edge: func(q string, e Edge) (string, bool) {
			if q == "!" || !l.Blocks[e.To()] || bad(e) {
				return q, false
			}
			if goal(e) {
				return "!", true
			}
			return q, e.To() != l.Header
		}, goal: func(s *pst) bool { return s.q == "!" }})
	}
	says := func(v int) func(e Edge) bool {
		return func(e Edge) bool {
			for _, x := range a.lits(e) {
				if lit(x) == v {
					return true
				}
			}
			return false
		}
	}
	if path, found := run(says(1), func(e Edge) bool { return e.To() == i.Blk }); found {
		return "without the test: " + a.pathString(path), false
	}
	if path, found := run(func(e Edge) bool { return says(-1)(e) || e.To() == i.Blk }, func(e Edge) bool { return e.To() == l.Header }); found {
		return "left out: " + a.pathString(path), false
	}
	return "", true
}

func (r *Run) elementsOnce(rule string) {
	mar, unm := "lib/database.MarshalGroupElements", "lib/database.UnmarshalGroupElements"
	a := r.flat("lib/server.DH.AnswerBytes", mar, unm)
	a.joined(r, rule)
	p := a.p
	q := p.app("param", a.paramName(1))
	n := 0
	for _, e := range a.accepts() {
		n++
		w := a.f.whereB(e.b)
		v := e.vals[0]
		if v.op == "x" && v.aux == "0" {
			v = v.args[0]
		}
		if !r.ob(rule, "encoded", w, v.op == "call" && callName(v) == full(mar), "the answer is %s", short2(v)) {
			continue
		}
		at := a.insOf[callID(v)]
		s := a.streamOf(v.args[0], at)
		if !r.ob(rule, "in order", w, len(s.loops) > 0 && len(s.loops) <= 2 && !s.bytes, "the elements of the answer are not one per row, in order: %s", s.why) {
			continue
		}
		g := a.groupSumOf(s.leaf)
		if !r.ob(rule, "sum", w, g.why == "", "a row's element: %s", g.why) {
			continue
		}
		a.rowSum(r, rule, w, g, s, func(t *T) bool { return isFieldLoad(t, "Info.NumRows") }, func(t *T) bool { return isFieldLoad(t, "Info.NumColumns") }, func(t *T) bool { return isFieldLoad(t, "Elliptic.Entries") }, func(k *T) bool {
			x := g.elem
			if x.op != "ld" && x.op != "mem" || x.args[0].op != "ia" || x.args[0].args[1] != k {
				return false
			}
			y := x.args[0].args[0]
			return y.op == "x" && y.aux == "0" && y.args[0].op == "call" && callName(y.args[0]) == full(unm) && y.args[0].args[0] == q
		})
	}
	r.ob(rule, "DH reached", "", n > 0, "no answer")
}

// rowSum: the sums of a stream are, for each row in order, over all columns whose entry is one.
func (a *Analysis) rowSum(r *Run, rule, w string, g groupSum, s stream, isRows, isCols, isData func(t *T) bool, isElem func(k *T) bool) {
	p := a.p
	l := g.loop
	k := p.k(l.ID)
	cols := a.TripOf(l)
	wa := a.f.where(g.add)
	r.ob(rule, "columns", wa, a.allIterations(l) && cols != nil && isCols(cols), "%s columns are added", short2(cols))
	r.ob(rule, "element of the column", wa, isElem(k), "column %s adds %s", k, short2(g.elem))
	var row *T
	why, ok := a.addedIff(l, g.add, func(x *T) int {
		y, v := x, 1
		if y.op == "!" {
			y, v = y.args[0], -1
		}
		if y.op != "==0" {
			return 0
		}
		ts, co, c := parts(y.args[0])
		if len(ts) != 1 || !(co[0] == 1 && c == -1 || co[0] == -1 && c == 1 || c == 0) {
			return 0
		}
		if c == 0 {
			v = -v
		}
		d := a.readFrom(ts[0], l, isData)
		if d.op == "%" && isConst(d.args[1], 2) {
			d = a.readFrom(d.args[0], l, isData) // the entries are bits
		}
		if d.op != "ld" && d.op != "mem" || d.args[0].op != "ia" || !isData(d.args[0].args[0]) {
			return 0
		}
		rw := p.divide(p.sub(d.args[0].args[1], k), cols)
		if rw == nil || hasAtom(rw, k) || row != nil && row != rw {
			return 0
		}
		row = rw
		return v
	})
	r.ob(rule, "if the entry is one", wa, ok, "an element is added %s", why)
	if row == nil {
		return
	}
	in := s.loops[len(s.loops)-1]
	begin := p.sub(row, p.k(in.ID))
	tr := a.TripOf(in)
	if len(s.loops) == 1 {
		r.ob(rule, "rows", w, begin.isZero() && isRows(tr), "row %s of %s is handled", short2(row), short2(tr))
		return
	}
	var n *T
	for _, x := range a.minSet(p.add(begin, tr)) {
		if isRows(x) {
			n = x
		}
		if x.op == "ite" {
			for _, y := range x.args[1:] {
				if isRows(y) {
					n = y
				}
			}
		}
	}
	r.ob(rule, "rows", w, n != nil && !hasAtom(begin, p.k(in.ID)) && a.consecutive(s.loops[0], begin, tr, n), "the routines handle rows from %s, %s of them", short2(begin), short2(tr))
}

// readFrom: the value of a term as it is read from the data in the loop.
func (a *Analysis) readFrom(d *T, l *Loop, isData func(t *T) bool) *T {
	if (d.op == "ld" || d.op == "mem") && d.args[0].op == "ia" && isData(d.args[0].args[0]) {
		return d
	}
	for b := range l.Blocks {
		for _, i := range b.Ins {
			if i.Op != OpLoad || a.term(i) != d {
				continue
			}
			if ad := a.op(i, 0); ad.op == "ia" && isData(ad.args[0]) {
				return a.p.app("ld", "", ad)
			}
		}
	}
	// the value written last to some element of the data, read from a copy
	for _, s := range a.stores {
		if s.i.Op != OpStore || s.addr == nil || s.addr.op != "ia" || !isData(s.addr.args[0]) || len(s.addr.args[0].args) != 0 {
			continue
		}
		last := true
		for _, o := range a.byRoot[rootKey(s.addr)] {
			last = last && (o == s || o.name == "readonly" || !a.mayPrecede(s.i, o.i))
		}
		w := a.loopOf[s.i.Blk]
		if !last || w == nil || s.addr.args[1] != a.p.k(w.ID) || !a.allIterations(w) {
			continue
		}
		if idx := matchAt(a.StoreVal(s), d, a.p.k(w.ID)); idx != nil {
			return a.p.app("ld", "", a.p.app("ia", "", s.addr.args[0], idx))
		}
	}
	return d
}

// matchAt: what stands for k where x is t.
func matchAt(t, x, k *T) *T {
	var at *T
	var rec func(t, x *T) bool
	rec = func(t, x *T) bool {
		if t == k {
			if at == nil {
				at = x
			}
			return at == x
		}
		if t == x && !hasAtom(t, k) {
			return true
		}
		if t.op != x.op || t.aux != x.aux || len(t.args) != len(x.args) || len(t.args) == 0 {
			return false
		}
		for i := range t.args {
			if !rec(t.args[i], x.args[i]) {
				return false
			}
		}
		return true
	}
	if !rec(t, x) {
		return nil
	}
	return at
}

// modField: a sum from which the prime is taken away when it is too large is the sum modulo the prime.
func (a *Analysis) modField(v *T) *T {
	if v.op != "ite" {
		return v
	}
	x, y := a.modField(v.args[1]), a.modField(v.args[2])
	strip := func(t *T) *T {
		if t.op == "mod" && t.aux == sprint(modP) {
			return t.args[0]
		}
		return t
	}
	x, y = strip(x), strip(y)
	if c, ok := a.p.sub(x, y).isC(); ok && c%modP == 0 {
		return a.p.mod(x, modP)
	}
	return v
}
