package main

// Streams: a slice that is put together piece by piece, in loops, over channels
// from goroutines or in place, is described by the loops that produce it and
// the piece each iteration contributes.

// level is one loop of a stream, outermost first.
type stream struct {
	loops []*Loop
	leaf  *T   // the piece
	bytes bool // the piece is a slice that is appended; otherwise one element
	why   string
}

// streamOf describes the slice v as seen at an instruction.
func (a *Analysis) streamOf(v *T, at *Ins) stream { return a.streamAt(v, at, 0) }

func (a *Analysis) streamAt(v *T, at *Ins, depth int) stream {
	p := a.p
	if depth > 5 {
		return stream{why: "too deep"}
	}
	sub := func(l *Loop, piece *T, bytes bool) stream {
		s := stream{loops: []*Loop{l}, leaf: piece, bytes: bytes}
		if !bytes {
			return s
		}
		if in, ok := a.received(piece, l); ok {
			r := a.streamAt(in.v, in.at, depth+1)
			if len(r.loops) == 0 {
				return stream{why: "what is received: " + r.why}
			}
			r.loops = append([]*Loop{in.l}, r.loops...)
			return r
		}
		if r := a.streamAt(piece, a.endOf(l.Latches[0]), depth+1); len(r.loops) > 0 && a.within1(r.loops[0], l) {
			r.loops = append([]*Loop{l}, r.loops...)
			return r
		}
		// put together in the same iteration of an earlier loop
		var o *Loop
		kl := p.k(l.ID)
		switch {
		case piece.op == "last":
			if in := a.loopByID(atoi(piece.aux)); in != nil {
				o = in.Parent
			}
		case piece.op == "obj" && len(piece.args) == 1 && piece.args[0] == kl:
			if m := a.insOf[piece.aux]; m != nil {
				o = a.loopOf[m.Blk]
			}
		}
		if o != nil && o != l && !a.within1(o, l) {
			ko := p.k(o.ID)
			if o.Parent == l.Parent && a.TripOf(o) == a.TripOf(l) && a.allIterations(o) && !containsTerm(piece, ko) {
				if r := a.streamAt(p.subst(piece, map[*T]*T{kl: ko}), a.endOf(o.Latches[0]), depth+1); len(r.loops) > 0 && a.within1(r.loops[0], o) {
					r.loops = append([]*Loop{o}, r.loops...)
					return r
				}
			}
		}
		return s
	}
	switch v.op {
	case "build":
		l := a.loopByID(atoi(v.aux))
		if l == nil || !a.lenT(v.args[0]).isZero() || len(v.args) != 2 || !a.allIterations(l) {
			return stream{why: "built as " + short2(v)}
		}
		if v.args[1].op == "one" {
			return sub(l, v.args[1].args[0], false)
		}
		return sub(l, v.args[1], true)
	case "recv":
		if i := a.soleSend(v); i != nil {
			return a.streamAt(a.op(i, 1), i, depth+1)
		}
	case "last":
		l := a.loopByID(atoi(v.aux))
		if l == nil || !a.allIterations(l) {
			return stream{why: "not every iteration is run"}
		}
		ph := a.phiOf(l, v.args[0])
		if ph == nil {
			return stream{why: "it is " + short2(v)}
		}
		init, next, base := a.initOf(l, ph), a.nextOf(l, ph), a.term(ph)
		if v.args[0] != p.subst(base, map[*T]*T{p.k(l.ID): p.app("kend", itoa(l.ID))}) {
			return stream{why: "it is that of another iteration: " + short2(v)}
		}
		if init == nil || next == nil || !a.lenT(init).isZero() {
			return stream{why: "it starts as " + short2(init)}
		}
		ps := flattenCat(next, nil)
		if len(ps) < 2 || ps[0] != base {
			return stream{why: "an iteration makes it " + short2(next)}
		}
		for len(ps) > 2 {
			ps = append([]*T{ps[0], p.app("cat", "", ps[1], ps[2])}, ps[3:]...)
		}
		if ps[1].op == "one" {
			return sub(l, ps[1].args[0], false)
		}
		return sub(l, ps[1], true)
	case "obj":
		var st *store
		for _, s := range a.byRoot[rootKey(v)] {
			sa := a.storeAddr(s)
			if s.i.Op != OpStore || sa.op != "ia" || sa.args[0].op != "obj" || sa.args[0].aux != v.aux || st != nil {
				return stream{why: "it is written at " + a.f.where(s.i)}
			}
			st = s
		}
		if st == nil {
			return stream{why: "it is never written"}
		}
		l := a.loopOf[st.i.Blk]
		sa := a.storeAddr(st)
		if l != nil && l.Parent != nil && l.Parent.Parent == nil && sa.args[1] != p.k(l.ID) && len(sa.args[0].args) == 0 {
			// a range of elements in each iteration of an outer loop
			o, tr, n := l.Parent, a.TripOf(l), a.lenT(sa.args[0])
			begin := p.sub(sa.args[1], p.k(l.ID))
			all := a.allIterations(l) && a.allIterations(o) && tr != nil && !hasAtom(begin, p.k(l.ID)) && a.consecutive(o, begin, tr, n)
			for _, x := range []*Loop{l, o} {
				blk := st.i.Blk
				if x == o {
					blk = l.Header
				}
				for _, t := range x.Latches {
					all = all && a.Dom(blk, t)
				}
			}
			if !all {
				return stream{why: "not every element is written"}
			}
			return stream{loops: []*Loop{o, l}, leaf: a.StoreVal(st)}
		}
		if l == nil || sa.args[1] != p.k(l.ID) || a.TripOf(l) != a.lenT(sa.args[0]) || !a.allIterations(l) {
			return stream{why: "not every element is written"}
		}
		for _, t := range l.Latches {
			if !a.Dom(st.i.Blk, t) {
				return stream{why: "some elements are not written"}
			}
		}
		return stream{loops: []*Loop{l}, leaf: a.StoreVal(st)}
	}
	return stream{why: "it is " + short2(v)}
}

func (a *Analysis) within1(in, out *Loop) bool {
	for l := in.Parent; l != nil; l = l.Parent {
		if l == out {
			return true
		}
	}
	return false
}

type sent struct {
	v  *T
	l  *Loop
	at *Ins
}

// received: what iteration k of a loop receives is what iteration k of another
// loop, or a goroutine it starts, sends on a channel of its own.
func (a *Analysis) received(piece *T, l *Loop) (sent, bool) {
	if piece.op != "recv" || len(piece.args) == 0 {
		return sent{}, false
	}
	ch := piece.args[0]
	if ch.op != "obj" || len(ch.args) != 1 || ch.args[0] != a.p.k(l.ID) {
		return sent{}, false
	}
	var r sent
	n := 0
	for _, b := range a.rpo {
		for _, i := range b.Ins {
			if i.Op != OpSend {
				continue
			}
			c := a.op(i, 0)
			if c.op != "obj" || c.aux != ch.aux {
				continue
			}
			n++
			sl := a.loopOf[b]
			if sl == nil || len(c.args) != 1 || c.args[0] != a.p.k(sl.ID) || a.TripOf(sl) != a.TripOf(l) || !a.allIterations(sl) {
				return sent{}, false
			}
			for _, t := range sl.Latches {
				if !a.Dom(b, t) {
					return sent{}, false
				}
			}
			r = sent{a.op(i, 1), sl, i}
		}
	}
	return r, n == 1
}

// soleSend: the one send, outside loops, on the channel v is received from.
func (a *Analysis) soleSend(v *T) *Ins {
	ch := v.args[0]
	if ch.op != "obj" || len(ch.args) != 0 {
		return nil
	}
	var r *Ins
	for _, b := range a.rpo {
		for _, i := range b.Ins {
			if i.Op != OpSend || a.op(i, 0) != ch {
				continue
			}
			if r != nil || a.loopOf[b] != nil {
				return nil
			}
			r = i
		}
	}
	return r
}

// minSet: the operands of a minimum, without those that cannot be the smallest.
func (a *Analysis) minSet(t *T) []*T {
	var r []*T
	var rec func(t *T)
	rec = func(t *T) {
		t = a.chosenMin(t)
		if t.op == "min" {
			for _, x := range t.args {
				rec(x)
			}
			return
		}
		// min(x, y)+z is min(x+z, y+z)
		ms, _ := monos(t)
		for _, m := range ms {
			if m.co != 1 || len(m.at) != 1 || len(ms) > 6 {
				continue
			}
			if q := a.chosenMin(m.at[0]); q.op == "min" {
				rest := a.p.sub(t, m.at[0])
				for _, x := range q.args {
					rec(a.p.add(x, rest))
				}
				return
			}
		}
		if !contains(r, t) {
			r = append(r, t)
		}
	}
	rec(t)
	var s []*T
	for _, x := range r {
		more := false
		for _, y := range r {
			d := a.p.sub(x, y)
			if x != y && d.op == "ceildiv" { // of sizes, not negative
				more = true
			}
		}
		if !more {
			s = append(s, x)
		}
	}
	return s
}

// chosenMin: a choice of the smaller of two values as their minimum.
func (a *Analysis) chosenMin(t *T) *T {
	if t.op != "ite" || t.args[0].op != "<0" {
		return t
	}
	x, y := t.args[1], t.args[2]
	d := a.p.sub(x, y)
	if c := t.args[0].args[0]; c == d || c == a.p.add(d, a.p.c(-1)) {
		return a.p.app("min", "", x, y)
	}
	return t
}

// consecutive: the ranges from begin, of the given length, for the iterations of
// the loop are consecutive and cover [0, n).
func (a *Analysis) consecutive(l *Loop, begin, length, n *T) bool {
	p := a.p
	k := p.k(l.ID)
	tr := a.TripOf(l)
	end := p.add(begin, length)
	next := func(t *T) *T { return p.subst(t, map[*T]*T{k: p.add(k, p.c(1))}) }
	// the unbounded starts are k times a step
	for _, b := range a.minSet(begin) {
		step := p.sub(next(b), b)
		if hasAtom(step, k) || p.mul(step, k) != b {
			continue
		}
		// begin is min(k*step, n), or k*step where that is not beyond n
		okB := true
		for _, x := range a.minSet(begin) {
			okB = okB && (x == b || x == n || x == next(b))
		}
		es := a.minSet(end)
		okE := len(es) == 2 && contains(es, n) && contains(es, next(b))
		if end.op == "ite" && end.args[0] == p.eq(k, p.sub(tr, p.c(1))) {
			okE = end.args[1] == n && end.args[2] == next(b)
			if okB && okE {
				return true
			}
		}
		if (end.op == "phi" || p.sub(end, begin) != length) && okB && a.endChosen(end, n, next(b), p.sub(k, p.sub(tr, p.c(1)))) {
			return true
		}
		// the last range reaches n
		okN := step.op == "ceildiv" && step.args[0] == n && step.args[1] == tr
		if lo, ok := a.lower(p.sub(p.mul(step, tr), n)); ok && lo >= 0 {
			okN = true
		}
		if okB && okE && okN {
			return true
		}
	}
	return false
}

// endChosen: a value chosen by branches: n in the last iteration or where the
// regular end is beyond it, the regular end only in other iterations.
func (a *Analysis) endChosen(end, n, regular, last *T) bool {
	p := a.p
	if end.op != "phi" {
		return false
	}
	id := end.aux
	for _, b := range a.rpo {
		for _, i := range b.Ins {
			if i.Op != OpPhi || itoa(i.ID) != id || len(i.Args) != len(b.Preds) {
				continue
			}
			for k, pr := range b.Preds {
				v := a.op(i, k)
				var have []*T
				have = append(have, a.factsAt(pr)...)
				for j := range pr.Succs {
					if pr.Succs[j] == b {
						have = append(have, a.lits(Edge{pr, j})...)
					}
				}
				switch v {
				case n:
					// every way in: the last iteration, or the regular end is beyond n
					if !a.eachWayIn(pr, b, func(lit *T) bool {
						return lit == p.eq(last, p.c(0)) || lit == p.lt0(p.sub(n, regular)) || lit == p.lt0(p.add(p.sub(n, regular), p.c(-1)))
					}) {
						return false
					}
				case regular:
					ok := false
					for _, f := range have {
						ok = ok || f == p.not(p.eq(last, p.c(0))) || f == p.lt0(last)
					}
					if !ok {
						return false
					}
				default:
					return false
				}
			}
			return true
		}
	}
	return false
}

// eachWayIn: every edge into the block, or on to its successor, says so.
func (a *Analysis) eachWayIn(b, to *Block, says func(lit *T) bool) bool {
	for j := range b.Succs {
		if b.Succs[j] == to && len(b.Succs) > 1 {
			for _, l := range a.lits(Edge{b, j}) {
				if says(l) {
					return true
				}
			}
		}
	}
	if len(b.Preds) == 0 || len(b.Succs) > 1 {
		return false
	}
	for _, q := range b.Preds {
		ok := false
		for j := range q.Succs {
			if q.Succs[j] == b {
				for _, l := range a.lits(Edge{q, j}) {
					ok = ok || says(l)
				}
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// divide is t/d when every term has the factor d.
func (p *Pool) divide(t, d *T) *T {
	r := p.c(0)
	ms, c := monos(t)
	if c != 0 {
		return nil
	}
	for _, m := range ms {
		if !contains(m.at, d) {
			return nil
		}
		x := p.c(m.co)
		for _, f := range without(m.at, d) {
			x = p.mul(x, f)
		}
		r = p.add(r, x)
	}
	return r
}
