package main

// Canonical sums: values added up over a loop, whether in one running variable,
// in several, or block by block, become sum[d](n, body): the sum of body over
// the first n values of the variable #sum<d>.

import "strconv"

func (p *Pool) bound(d int) *T { return p.app("param", "#sum"+strconv.Itoa(d)) }

func sumDepth(t *T) int {
	d := 0
	walkT(t, func(x *T) bool {
		if x.op == "sum" {
			if n := atoi(x.aux); n > d {
				d = n
			}
		}
		return true
	})
	return d
}

// sum builds the canonical sum of body over v in [0, n).
func (p *Pool) sum(n, v, body *T) *T {
	if body.isZero() || n.isZero() {
		return p.c(0)
	}
	if !containsTerm(body, v) {
		return p.mul(n, body)
	}
	// a sum over rows of sums over columns
	if body.op == "sum" && !containsTerm(body.args[0], v) {
		m, in, f := body.args[0], p.bound(atoi(body.aux)), body.args[1]
		w := p.app("param", "#flat")
		g := p.subst(f, map[*T]*T{in: p.sub(w, p.mul(m, v))})
		if !containsTerm(g, v) && !containsTerm(g, in) {
			return p.sum(p.mul(n, m), w, g)
		}
	}
	d := sumDepth(body) + 1
	b := p.bound(d)
	return p.app("sum", strconv.Itoa(d), n, p.subst(body, map[*T]*T{v: b}))
}

// joinSums joins a sum and the sum over the values that follow.
func (p *Pool) joinSums(t *T) *T {
	for {
		ts, co, _ := parts(t)
		done := true
	search:
		for i, x := range ts {
			for j, y := range ts {
				if i == j || x.op != "sum" || y.op != "sum" || co[i] != co[j] || x.aux != y.aux {
					continue
				}
				b := p.bound(atoi(x.aux))
				if p.subst(x.args[1], map[*T]*T{b: p.add(b, x.args[0])}) == y.args[1] {
					z := p.sum(p.add(x.args[0], y.args[0]), b, x.args[1])
					t = p.add(p.sub(t, p.add(p.scale(x, co[i]), p.scale(y, co[i]))), p.scale(z, co[i]))
					done = false
					break search
				}
			}
		}
		if done {
			return t
		}
	}
}

// canonSums rewrites running sums in a term.
func (a *Analysis) canonSums(t *T) *T { return a.p.joinSums(a.canonSums1(t, map[string]bool{})) }

func (a *Analysis) canonSums1(t *T, busy map[string]bool) *T {
	p := a.p
	m := map[*T]*T{}
	walkT(t, func(x *T) bool {
		if m[x] != nil {
			return false
		}
		y := x
		if x.op == "last" && len(x.args) > 0 && x.args[0].op == "phi" {
			l := a.loopByID(atoi(x.aux))
			if l == nil || a.phiOf(l, x.args[0]) == nil || !a.allIterations(l) || a.TripOf(l) == nil {
				return false
			}
			y = p.subst(x.args[0], map[*T]*T{p.app("kend", x.aux): a.TripOf(l)})
		}
		if y.op != "phi" {
			return true
		}
		if busy[y.aux] {
			return false
		}
		for _, l := range a.loops {
			if ph := a.phiOf(l, y); ph != nil {
				if z := a.runningSum(l, ph, y, busy); z != nil {
					m[x] = z
					return false
				}
			}
		}
		return false
	})
	if len(m) == 0 {
		return t
	}
	return p.joinSums(p.subst(t, m))
}

func hasPhiOf(t *T, id string) bool {
	f := false
	walkT(t, func(x *T) bool {
		f = f || x.op == "phi" && x.aux == id
		return !f
	})
	return f
}

// runningSum: the value of a header variable, with the given arguments, as a sum.
func (a *Analysis) runningSum(l *Loop, ph *Ins, y *T, busy map[string]bool) *T {
	p := a.p
	init, next, base := a.initOf(l, ph), a.nextOf(l, ph), a.term(ph)
	if init == nil || next == nil || base.op != "phi" || len(base.args) != len(y.args) {
		return nil
	}
	pos := -1
	for k, z := range base.args {
		if z == p.k(l.ID) {
			pos = k
		}
	}
	if pos < 0 {
		return nil
	}
	// the variables of this loop stay as they are in the value of the next iteration
	var mine []string
	for _, q := range l.Header.phis() {
		if id := itoa(q.ID); !busy[id] {
			busy[id] = true
			mine = append(mine, id)
		}
	}
	free := func() {
		for _, id := range mine {
			delete(busy, id)
		}
	}
	cn := a.canonSums1(next, busy)
	// another variable may always have the same value
	for _, q := range l.Header.phis() {
		if q != ph && a.initOf(l, q) == init && a.nextOf(l, q) == next && a.term(q).op == "phi" && len(a.term(q).args) == len(base.args) && hasPhiOf(cn, a.term(q).aux) {
			base = a.term(q)
		}
	}
	inc := p.sub(cn, base)
	if hasPhiOf(inc, base.aux) || hasPhiOf(inc, itoa(ph.ID)) {
		free()
		return nil
	}
	free()
	// the other loop variables have the values of this occurrence
	sub := map[*T]*T{}
	for k, z := range base.args {
		if k != pos {
			sub[z] = y.args[k]
		}
	}
	init = a.canonSums1(p.subst(init, sub), busy)
	v := p.app("param", "#k")
	sub[p.k(l.ID)] = v
	inc = a.canonSums1(p.subst(inc, sub), busy)
	return p.joinSums(p.add(init, p.sum(y.args[pos], v, inc)))
}
