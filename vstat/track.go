package main

// Decoding rules: which class of a tested quantity a returned constant stands for.

import (
	"strings"
)

// valTracker follows constants through phis (and through single-cell stores).
type valTracker struct {
	a   *Analysis
	web []*Ins
	idx map[*Ins]int
}

func (a *Analysis) newTracker(roots ...*Ins) *valTracker {
	v := &valTracker{a: a, idx: map[*Ins]int{}}
	var add func(i *Ins)
	add = func(i *Ins) {
		switch i.Op {
		case OpConvert, OpMakeIface:
			add(i.Args[0])
		case OpPhi:
			if _, ok := v.idx[i]; ok {
				return
			}
			v.idx[i] = len(v.web)
			v.web = append(v.web, i)
			for _, x := range i.Args {
				add(x)
			}
		}
	}
	for _, r := range roots {
		add(r)
	}
	return v
}

// eval gives '0', '1', 'n' (no value: nil) or 'x' (anything else).
func (v *valTracker) eval(i *Ins, st string) byte {
	switch i.Op {
	case OpConvert, OpMakeIface:
		return v.eval(i.Args[0], st)
	case OpPhi:
		if k, ok := v.idx[i]; ok {
			return st[k]
		}
	case OpConst:
		if i.isNil() {
			return 'n'
		}
		if n, ok := i.isConstInt(); ok && (n == 0 || n == 1) {
			return '0' + byte(n)
		}
		if b, ok := i.isConstBool(); ok {
			if b {
				return '1'
			}
			return '0'
		}
	}
	return 'x'
}

func (v *valTracker) init() string { return strings.Repeat("n", len(v.web)) }

func (v *valTracker) step(e Edge, st string) string {
	to := e.To()
	pi := predIndex(e.B, e.K)
	out := []byte(st)
	for _, ph := range to.phis() {
		if k, ok := v.idx[ph]; ok {
			out[k] = v.eval(ph.Args[pi], st)
		}
	}
	return string(out)
}

// decoded: whatever class (0, 1) the tests of loop l put the element of index
// idx in, is the constant that exit e returns. cls lists, for an edge, the
// classes it establishes for iteration k. The loop has to be complete (checked
// elsewhere with forall).
// ret is the returned value; the value reaches it through the cells of an array
// written in l, or through variables set in the iteration where the index is idx.
func (a *Analysis) decoded(l *Loop, cls func(lit, k *T) (zero, one bool), idx *T, b *Block, ret *Ins) (string, bool) {
	p := a.p
	k := p.k(l.ID)
	type info struct{ z, o, j bool }
	edges := map[string]info{}
	for _, x := range a.rpo {
		if !l.Blocks[x] {
			continue
		}
		for s := range x.Succs {
			e := Edge{x, s}
			var in info
			for _, t := range a.lits(e) {
				z := a.entails(t, func(t *T) bool { z, _ := cls(t, k); return z })
				o := a.entails(t, func(t *T) bool { _, o := cls(t, k); return o })
				in.z = in.z || z
				in.o = in.o || o
				in.j = in.j || t == p.eq(k, idx)
			}
			if in != (info{}) {
				edges[e.key()] = in
			}
		}
	}
	// tests collected in a flag that is known to hold at the exit
	not := map[string]bool{}
	var flags []*T
	for _, f := range a.passed(b) {
		if w, xs := a.collected(f); w == l {
			flags = append(flags, xs...)
		} else {
			a.lowered(l, f, not)
		}
	}
	for _, x := range a.rpo {
		if !l.Blocks[x] {
			continue
		}
		for s := range x.Succs {
			known := append(append([]*T{}, a.factsAt(x)...), a.lits(Edge{x, s})...)
			for _, f := range flags {
				if a.decide(f, known) == -1 {
					not[Edge{x, s}.key()] = true
				}
			}
		}
	}
	rt := a.at(ret, b)
	for rt.op == "conv" || rt.op == "iface" {
		rt = rt.args[0]
	}
	// cell variant
	var cells []*store
	src := ret
	for src.Op == OpConvert || src.Op == OpMakeIface {
		src = src.Args[0]
	}
	var cell *T
	if src.Op == OpLoad {
		if t := a.op(src, 0); t.op == "ia" && rootOf(t).op == "obj" {
			cell = t
		}
	}
	if cell == nil && rt.op == "mem" && rt.args[0].op == "ia" {
		cell = rt.args[0]
	}
	if cell != nil {
		if cell.args[1] != idx {
			return "the element returned is number " + short(cell.args[1]) + ", the queried one is " + short(idx), false
		}
		for _, s := range a.stores {
			if s.addr == nil {
				continue
			}
			if s.name == "" && s.addr.op == "ia" && s.addr.args[0] == cell.args[0] {
				if s.addr.args[1] != k || !l.Blocks[s.i.Blk] {
					return "written elsewhere: " + a.f.where(s.i), false
				}
				cells = append(cells, s)
			} else if s.name != "" && contains(s.addr.args, rootOf(cell)) {
				return "changed by a call: " + a.f.where(s.i), false
			}
		}
		var vs []*Ins
		at := map[*Block][]*store{}
		for _, s := range cells {
			vs = append(vs, s.i.Args[len(s.i.Args)-1])
			at[s.i.Blk] = append(at[s.i.Blk], s)
		}
		tr := a.newTracker(vs...)
		n := len(tr.web)
		// state: web, classes seen (2), last value stored in this iteration
		path, found := a.explore(exploreOpts{
			init: tr.init() + "--n",
			edge: func(q string, e Edge) (string, bool) {
				if q == "bad" {
					return q, true
				}
				if not[e.key()] {
					return q, false
				}
				st := []byte(q)
				for _, i := range e.B.Ins {
					for _, s := range at[e.B] {
						if s.i == i {
							st[n+2] = tr.eval(s.i.Args[len(s.i.Args)-1], q[:n])
						}
					}
				}
				if in, ok := edges[e.key()]; ok {
					if in.z {
						st[n] = 'z'
					}
					if in.o {
						st[n+1] = 'o'
					}
				}
				if e.To() == l.Header && l.Blocks[e.B] {
					v := st[n+2]
					if v == 'x' || v == '1' && st[n+1] != 'o' || (v == '0' || v == 'n') && st[n] != 'z' {
						return "bad", true
					}
					st[n], st[n+1], st[n+2] = '-', '-', 'n'
				}
				if !l.Blocks[e.To()] {
					st[n], st[n+1], st[n+2] = '-', '-', 'n'
				}
				copy(st, tr.step(e, string(st[:n])))
				return string(st), true
			},
			goal: func(s *pst) bool { return s.q == "bad" },
		})
		if found {
			return "an iteration stores a value its tests do not justify: " + a.pathString(path), false
		}
		return "", true
	}
	// variable variant
	tr := a.newTracker(ret)
	if len(tr.web) == 0 {
		return "the value returned (" + short(rt) + ") does not follow from the tests", false
	}
	n := len(tr.web)
	// state: web, classes seen in this iteration (2), is this iteration the queried one, classes of the queried one (2)
	path, found := a.explore(exploreOpts{
		init: tr.init() + "------",
		edge: func(q string, e Edge) (string, bool) {
			if q == "bad" {
				return q, true
			}
			st := []byte(q)
			if in, ok := edges[e.key()]; ok {
				if in.z {
					st[n] = 'z'
				}
				if in.o {
					st[n+1] = 'o'
				}
				if in.j {
					if st[n+5] == 'q' && l.Parent == nil {
						return q, false // only one iteration is
					}
					st[n+2] = 'j'
				}
			}
			nw := tr.step(e, q[:n])
			copy(st, nw)
			if e.To() == l.Header || !l.Blocks[e.To()] && l.Blocks[e.B] {
				if st[n+2] == 'j' {
					st[n+3], st[n+4], st[n+5] = st[n], st[n+1], 'q'
				}
				st[n], st[n+1], st[n+2] = '-', '-', '-'
			}
			return string(st), true
		},
		goal: func(s *pst) bool {
			if s.b != b || b.Term == TReturn && !a.accepting(s) {
				return false
			}
			v := tr.eval(ret, s.q[:n])
			if s.q[n+5] != 'q' {
				return false // no iteration is the queried one
			}
			return v == 'x' || v == 'n' || v == '1' && s.q[n+4] != 'o' || v == '0' && s.q[n+3] != 'z'
		},
	})
	if found {
		return "the value returned is not the class of the queried element: " + a.pathString(path), false
	}
	// an iteration that is not the queried one must not set the value
	path, found = a.explore(exploreOpts{
		init: tr.init() + "-",
		edge: func(q string, e Edge) (string, bool) {
			if q == "bad" {
				return q, true
			}
			st := []byte(q)
			if in, ok := edges[e.key()]; ok && in.j {
				st[n] = 'j'
			}
			nw := tr.step(e, q[:n])
			if l.Blocks[e.B] && e.To() == l.Header {
				// what the loop carries
				for _, ph := range l.Header.phis() {
					if w, ok := tr.idx[ph]; ok && nw[w] != q[w] && st[n] != 'j' && nw[w] != 'n' {
						return "bad", true
					}
				}
				st[n] = '-'
			}
			copy(st, nw)
			return string(st), true
		},
		goal: func(s *pst) bool { return s.q == "bad" },
	})
	if found {
		return "the value is set in an iteration that is not the queried one: " + a.pathString(path), false
	}
	return "", true
}

// loopsWith: loops of at least n iterations with an edge where pred holds.
func (a *Analysis) loopsWith(n *T, pred func(lit, k *T) bool) []*Loop {
	var r []*Loop
	for _, l := range a.loops {
		if l.Main == nil {
			continue
		}
		hit := false
		for b := range l.Blocks {
			for k := range b.Succs {
				for _, t := range a.lits(Edge{b, k}) {
					hit = hit || pred(t, a.p.k(l.ID))
				}
			}
		}
		if hit && a.tripAtLeast(l, n) {
			r = append(r, l)
		}
	}
	return r
}

// decide: 1 when the condition holds given the facts, -1 when it does not, 0 when that is not known.
func (a *Analysis) decide(t *T, facts []*T) int {
	switch {
	case t.op == "true" || contains(facts, t):
		return 1
	case t.op == "false" || contains(facts, a.p.not(t)):
		return -1
	case t.op == "!":
		return -a.decide(t.args[0], facts)
	case t.op == "ite":
		switch a.decide(t.args[0], facts) {
		case 1:
			return a.decide(t.args[1], facts)
		case -1:
			return a.decide(t.args[2], facts)
		}
		if y := a.decide(t.args[1], facts); y == a.decide(t.args[2], facts) {
			return y
		}
	}
	return 0
}

// lowered: the edges of the loop on which a flag, known to be up at the end, would be taken down for good.
func (a *Analysis) lowered(l *Loop, f *T, edges map[string]bool) {
	u, down := f, "false"
	if f.op == "!" {
		u, down = f.args[0], "true"
	}
	if u.op != "last" || u.aux != itoa(l.ID) {
		return
	}
	ph := a.phiOf(l, a.p.subst(u.args[0], map[*T]*T{a.p.app("kend", itoa(l.ID)): a.p.k(l.ID)}))
	if ph == nil {
		ph = a.phiOf(l, u.args[0])
	}
	if ph == nil {
		return
	}
	var at []Edge
	walk := func(v *Ins, b *Block, s int) bool {
		if v == ph {
			return true
		}
		if v.Op == OpConst && a.term(v).op == down {
			at = append(at, Edge{b, s})
			return true
		}
		return false
	}
	var next *Ins
	for q, b := range l.Header.Preds {
		if !l.Blocks[b] {
			continue
		}
		v := ph.Args[q]
		if next != nil && next != v {
			return
		}
		next = v
		if v.Op == OpPhi && v != ph && l.Blocks[v.Blk] {
			for q, b := range v.Blk.Preds {
				for s := range b.Succs {
					if b.Succs[s] == v.Blk && (b.Term != TIf || b.Succs[1-s] != v.Blk) && !walk(v.Args[q], b, s) {
						return
					}
				}
			}
			continue
		}
		for s := range b.Succs {
			if b.Succs[s] == l.Header && !walk(v, b, s) {
				return
			}
		}
	}
	for _, e := range at {
		edges[e.key()] = true
	}
}

// passed: the tests on the way to b that a single edge decides.
func (a *Analysis) passed(b *Block) []*T {
	var r []*T
	for x := b; x != nil; x = a.dom[x] {
		if len(x.Preds) != 1 {
			continue
		}
		for k, s := range x.Preds[0].Succs {
			if s == x {
				r = append(r, a.lits(Edge{x.Preds[0], k})...)
			}
		}
	}
	return r
}
