package main

import (
	"strconv"
	"strings"
)

// Bounds: which facts hold wherever an instruction runs, and whether they imply
// that an index or slice expression stays inside its operand.

// factsAt: literals that hold whenever the instruction is reached, in the same
// iteration of the loops around it.
func (a *Analysis) factsAt(b *Block) []*T {
	r := a.domFacts(b)
	// what every iteration of an earlier loop has tested holds for every index of that loop
	for _, l := range a.loops {
		if l.Blocks[b] || l.Parent != nil && !l.Parent.Blocks[b] || l.Main == nil || !a.Dom(l.Header, b) || a.earlyExit(l, b) {
			continue
		}
		tr := a.TripOf(l)
		if tr == nil {
			continue
		}
		var per []*T
		for n, t := range l.Latches {
			var fs []*T
			for k, s := range t.Succs {
				if s == l.Header && (t.Term != TIf || t.Succs[1-k] != s) {
					fs = append(a.domFacts(t), a.lits(Edge{t, k})...)
				}
			}
			var keep []*T
			for _, f := range fs {
				if f.vars[l.ID] && f.op != "<0" && (n == 0 || contains(per, f)) {
					keep = append(keep, f)
				}
			}
			per = keep
		}
		if len(per) == 0 {
			continue
		}
		for _, m := range a.loopsOf(b) {
			if t := a.TripOf(m); t == tr {
				for _, f := range per {
					r = append(r, a.p.substLoops(f, map[int]*T{l.ID: a.p.k(m.ID)}))
				}
			}
		}
	}
	return r
}

func (a *Analysis) domFacts(b *Block) []*T {
	inl := map[int]bool{}
	for _, l := range a.loopsOf(b) {
		inl[l.ID] = true
	}
	var r []*T
	for x := b; x != nil; x = a.dom[x] {
		if len(x.Preds) != 1 {
			continue
		}
		p := x.Preds[0]
		for k, s := range p.Succs {
			if s != x || p.Term != TIf || p.Succs[1-k] == x {
				continue
			}
			for _, l := range a.lits(Edge{p, k}) {
				ok := l.op != "true" && !hasOp(l, "phi") && !hasOp(l, "rec")
				for v := range l.vars {
					if !inl[v] {
						ok = false
					}
				}
				if ok {
					r = append(r, l)
				}
			}
		}
	}
	return r
}

// nonNeg: the facts imply t >= 0.
func (a *Analysis) nonNeg(facts []*T, t *T) bool {
	p := a.p
	if lo, ok := a.lower(t); ok && lo >= 0 {
		return true
	}
	// solve the equalities for one unknown each and remove it everywhere
	type sub struct{ v, by *T }
	var subs []sub
	app := func(x *T) *T {
		for _, s := range subs {
			x = p.subst(x, map[*T]*T{s.v: s.by})
		}
		return x
	}
	var ineq []*T // >= 0
	for _, f := range facts {
		switch f.op {
		case "==0":
			if f.args[0].op == "mod" {
				continue
			}
			e := app(f.args[0])
			ts, co, _ := parts(e)
			var v *T
			var c int64
			for j, x := range ts {
				if (co[j] == 1 || co[j] == -1) && x.op != "*" && x.op != "k" && (v == nil || x.op == "len") {
					v, c = x, co[j]
				}
			}
			if v == nil {
				continue
			}
			rest := p.scale(p.sub(e, p.scale(v, c)), -c)
			if !containsTerm(rest, v) {
				subs = append(subs, sub{v, rest})
			}
		case "<0":
			ineq = append(ineq, p.sub(p.scale(f.args[0], -1), p.c(1)))
		case "!":
			// a length that is not zero
			if g := f.args[0]; g.op == "==0" && g.args[0].op == "len" {
				ineq = append(ineq, p.sub(g.args[0], p.c(1)))
			}
		}
	}
	// quotients the facts speak of
	for _, f := range facts {
		if f.op != "==0" {
			continue
		}
		walkT(f, func(y *T) bool {
			if y.op == "/" {
				nn := func(z *T) bool {
					if lo, ok := a.lower(z); ok && lo >= 0 {
						return true
					}
					for _, g := range ineq {
						if lo, ok := a.lower(p.sub(z, g)); ok && lo >= 0 {
							return true
						}
					}
					return false
				}
				if nn(y.args[0]) && nn(y.args[1]) {
					ineq = append(ineq, p.sub(y.args[0], p.mul(y.args[1], y)))
				}
			}
			return true
		})
	}
	for k := range ineq {
		ineq[k] = app(ineq[k])
	}
	t = app(t)
	// quotients of nonnegative numbers
	var quo func(x *T)
	done := map[*T]bool{}
	quo = func(x *T) {
		walkT(x, func(y *T) bool {
			if y.op == "/" && !done[y] {
				done[y] = true
				nn := func(z *T) bool {
					if lo, ok := a.lower(z); ok && lo >= 0 {
						return true
					}
					for _, g := range ineq {
						if lo, ok := a.lower(p.sub(z, g)); ok && lo >= 0 {
							return true
						}
					}
					return false
				}
				if nn(y.args[0]) && nn(y.args[1]) {
					ineq = append(ineq, y, p.sub(y.args[0], p.mul(y.args[1], y)))
				}
			}
			return true
		})
	}
	// loop variables that count against t are at most one less than the trip count
	for n := 0; n < 4; n++ {
		var kv *T
		ms, _ := monos(t)
		for _, m := range ms {
			if m.co < 0 {
				for _, x := range m.at {
					if x.op == "k" {
						kv = x
					}
				}
			}
		}
		if kv == nil {
			break
		}
		tr := a.TripOf(a.loopByID(atoi(kv.aux)))
		if tr == nil || tr.vars[atoi(kv.aux)] {
			break
		}
		t = app(p.subst(t, map[*T]*T{kv: p.sub(tr, p.c(1))}))
	}
	quo(t)
	walkT(t, func(y *T) bool {
		if y.op == "ceildiv" && contains(facts, p.eq0(p.rem(y.args[0], y.args[1]))) {
			// exact quotient
			d := p.sub(y.args[0], p.mul(y.args[1], y))
			ineq = append(ineq, d, p.scale(d, -1))
		}
		return true
	})
	// a nonnegative unknown in a fact may multiply another fact
	mult := []*T{p.c(1)}
	seen := map[*T]bool{}
	ms, _ := monos(t)
	for _, m := range ms {
		for _, x := range m.at {
			if !seen[x] && (nonNegAtom(x) || a.assumeNonNeg(x)) {
				seen[x] = true
				mult = append(mult, x)
			}
		}
	}
	var try func(t *T, depth int) bool
	try = func(t *T, depth int) bool {
		if lo, ok := a.lower(t); ok && lo >= 0 {
			return true
		}
		if depth == 0 {
			return false
		}
		for _, g := range ineq {
			for _, m := range mult {
				if try(p.sub(t, p.mul(m, g)), depth-1) {
					return true
				}
			}
		}
		return false
	}
	return try(t, 2)
}

type bound struct {
	i    *Ins
	what string
	need []*T // each >= 0
}

// accessBounds: what an instruction needs to stay inside its operand.
func (a *Analysis) accessBounds(i *Ins) (s *T, b bound, ok bool) {
	p := a.p
	b.i = i
	switch i.Op {
	case OpIndexAddr, OpIndex:
		s = a.op(i, 0)
		j := a.op(i, 1)
		b.what = "index " + short(j)
		b.need = []*T{j, p.sub(p.sub(a.lenT(s), j), p.c(1))}
		return s, b, true
	case OpSlice:
		s = a.op(i, 0)
		n := a.lenT(s)
		lo := p.c(0)
		hi := n
		if len(i.Args) > 1 && i.Args[1] != nil && !i.Args[1].isNilArg() {
			lo = a.op(i, 1)
		}
		if len(i.Args) > 2 && i.Args[2] != nil && !i.Args[2].isNilArg() {
			hi = a.op(i, 2)
		}
		b.what = "slice " + short(lo) + ":" + short(hi)
		b.need = []*T{lo, p.sub(hi, lo), p.sub(n, hi)}
		return s, b, true
	}
	return nil, b, false
}

// within: every path to the instruction establishes what it needs. extra are assumptions.
func (a *Analysis) within(bd bound, extra ...*T) ([]*Block, *T) {
	dom := append(a.factsAt(bd.i.Blk), extra...)
	for _, n := range bd.need {
		if a.nonNeg(dom, n) {
			continue
		}
		byID := map[string]*T{}
		memo := map[string]bool{}
		path, found := a.explore(exploreOpts{
			edge: func(q string, e Edge) (string, bool) {
				for _, l := range a.lits(e) {
					if len(l.vars) > 0 || l.op == "true" || l.op == "false" || l.op == "!" || hasOp(l, "mem") || hasOp(l, "phi") || hasOp(l, "rec") || !relLen(l) {
						continue
					}
					id := strconv.Itoa(l.id)
					byID[id] = l
					have := map[string]bool{id: true}
					for _, x := range strings.Split(q, ",") {
						if x != "" {
							have[x] = true
						}
					}
					q = strings.Join(sortedKeys(have), ",")
				}
				return q, true
			},
			goal: func(s *pst) bool {
				if s.b != bd.i.Blk {
					return false
				}
				v, ok := memo[s.q]
				if !ok {
					fs := append([]*T{}, dom...)
					for _, x := range strings.Split(s.q, ",") {
						if x != "" {
							fs = append(fs, byID[x])
						}
					}
					v = a.nonNeg(fs, n)
					memo[s.q] = v
				}
				return !v
			},
		})
		if found {
			return path, n
		}
	}
	return nil, nil
}
