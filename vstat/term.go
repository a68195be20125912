package main

// Canonical terms: values of the flat program in a normal form that does not
// depend on statement order, temporaries, helper functions or the direction in
// which a loop runs. Integers are polynomials over atoms, sums modulo a prime
// are polynomials modulo that prime, XORs are multisets.

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

type T struct {
	id   int
	op   string
	aux  string
	args []*T
	co   []int64 // op "+": coefficient of each argument; the constant part is in aux
	vars map[int]bool
}

type Pool struct {
	m map[string]*T
	n int
}

func NewPool() *Pool { return &Pool{m: map[string]*T{}} }

func (p *Pool) mk(op, aux string, co []int64, args ...*T) *T {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(aux)
	for i, a := range args {
		sb.WriteByte('|')
		if co != nil {
			sb.WriteString(strconv.FormatInt(co[i], 10))
			sb.WriteByte('*')
		}
		sb.WriteString(strconv.Itoa(a.id))
	}
	k := sb.String()
	if t, ok := p.m[k]; ok {
		return t
	}
	p.n++
	t := &T{id: p.n, op: op, aux: aux, args: args, co: co}
	if op == "k" {
		n, _ := strconv.Atoi(aux)
		t.vars = map[int]bool{n: true}
	}
	for _, a := range args {
		for v := range a.vars {
			if t.vars == nil {
				t.vars = map[int]bool{}
			}
			t.vars[v] = true
		}
	}
	if op == "build" {
		n, _ := strconv.Atoi(aux)
		delete(t.vars, n) // bound
	}
	p.m[k] = t
	return t
}

func (p *Pool) app(op, aux string, args ...*T) *T { return p.mk(op, aux, nil, args...) }
func (p *Pool) c(n int64) *T                      { return p.mk("c", strconv.FormatInt(n, 10), nil) }
func (p *Pool) k(loop int) *T                     { return p.mk("k", strconv.Itoa(loop), nil) }

func (t *T) isC() (int64, bool) {
	if t.op == "c" {
		n, err := strconv.ParseInt(t.aux, 10, 64)
		return n, err == nil
	}
	return 0, false
}

func (t *T) is(op string) bool { return t != nil && t.op == op }

func (t *T) String() string { return t.str(0) }

func (t *T) str(d int) string {
	if t == nil {
		return "<nil>"
	}
	if d > 12 {
		return "…"
	}
	switch t.op {
	case "c":
		return t.aux
	case "k":
		return "k" + t.aux
	case "+":
		var s []string
		for i, a := range t.args {
			switch t.co[i] {
			case 1:
				s = append(s, a.str(d+1))
			case -1:
				s = append(s, "-"+a.str(d+1))
			default:
				s = append(s, fmt.Sprintf("%d*%s", t.co[i], a.str(d+1)))
			}
		}
		if t.aux != "0" {
			s = append(s, t.aux)
		}
		return "(" + strings.Join(s, " + ") + ")"
	case "*", "^":
		var s []string
		for _, a := range t.args {
			s = append(s, a.str(d+1))
		}
		return "(" + strings.Join(s, t.op) + ")"
	}
	var s []string
	for _, a := range t.args {
		s = append(s, a.str(d+1))
	}
	r := t.op
	if t.aux != "" {
		r += "[" + t.aux + "]"
	}
	if len(s) > 0 {
		r += "(" + strings.Join(s, ",") + ")"
	}
	return r
}

// ---- polynomials ---------------------------------------------------------------

// parts returns the terms and the constant of a polynomial.
func parts(t *T) (ts []*T, co []int64, c int64) {
	switch t.op {
	case "c":
		n, _ := t.isC()
		return nil, nil, n
	case "+":
		n, _ := strconv.ParseInt(t.aux, 10, 64)
		return t.args, t.co, n
	}
	return []*T{t}, []int64{1}, 0
}

func (p *Pool) lin(ts []*T, co []int64, c int64) *T {
	m := map[*T]int64{}
	for i, t := range ts {
		m[t] += co[i]
	}
	var as []*T
	for t, n := range m {
		if n != 0 {
			as = append(as, t)
		}
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	if len(as) == 0 {
		return p.c(c)
	}
	if len(as) == 1 && c == 0 && m[as[0]] == 1 {
		return as[0]
	}
	cs := make([]int64, len(as))
	for i, a := range as {
		cs[i] = m[a]
	}
	return p.mk("+", strconv.FormatInt(c, 10), cs, as...)
}

func (p *Pool) add(a, b *T) *T {
	ta, ca, na := parts(a)
	tb, cb, nb := parts(b)
	return p.lin(append(append([]*T{}, ta...), tb...), append(append([]int64{}, ca...), cb...), na+nb)
}

func (p *Pool) scale(a *T, n int64) *T {
	ta, ca, na := parts(a)
	cs := make([]int64, len(ca))
	for i := range ca {
		cs[i] = ca[i] * n
	}
	return p.lin(ta, cs, na*n)
}

func (p *Pool) sub(a, b *T) *T { return p.add(a, p.scale(b, -1)) }

func atoms(t *T) []*T {
	if t.op == "*" {
		return t.args
	}
	return []*T{t}
}

func (p *Pool) mul(a, b *T) *T {
	ta, ca, na := parts(a)
	tb, cb, nb := parts(b)
	var ts []*T
	var co []int64
	for i, x := range ta {
		for j, y := range tb {
			as := append(append([]*T{}, atoms(x)...), atoms(y)...)
			sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
			ts = append(ts, p.mk("*", "", nil, as...))
			co = append(co, ca[i]*cb[j])
		}
		if nb != 0 {
			ts = append(ts, x)
			co = append(co, ca[i]*nb)
		}
	}
	if na != 0 {
		for j, y := range tb {
			ts = append(ts, y)
			co = append(co, cb[j]*na)
		}
	}
	return p.lin(ts, co, na*nb)
}

func modNorm(n, m int64) int64 {
	n %= m
	if n < 0 {
		n += m
	}
	return n
}

// mod is t modulo the constant m, with inner reductions by the same modulus dropped.
func (p *Pool) mod(t *T, m int64) *T {
	t = p.unmod(t, m)
	ts, co, c := parts(t)
	cs := make([]int64, len(co))
	for i := range co {
		cs[i] = modNorm(co[i], m)
	}
	r := p.lin(ts, cs, modNorm(c, m))
	if n, ok := r.isC(); ok {
		return p.c(modNorm(n, m))
	}
	return p.app("mod", strconv.FormatInt(m, 10), r)
}

func (p *Pool) unmod(t *T, m int64) *T {
	ms := strconv.FormatInt(m, 10)
	ts, co, c := parts(t)
	r := p.c(c)
	for i, x := range ts {
		f := p.c(1)
		for _, a := range atoms(x) {
			if a.op == "mod" && a.aux == ms {
				a = p.unmod(a.args[0], m)
			}
			f = p.mul(f, a)
		}
		f = p.scale(f, modNorm(co[i], m))
		r = p.add(r, f)
	}
	return r
}

func (p *Pool) xor(as ...*T) *T {
	cnt := map[*T]int{}
	var c int64
	var flat func(t *T)
	flat = func(t *T) {
		if t.op == "^" {
			for _, a := range t.args {
				flat(a)
			}
			return
		}
		if n, ok := t.isC(); ok {
			c ^= n
			return
		}
		cnt[t]++
	}
	for _, a := range as {
		flat(a)
	}
	var out []*T
	for t, n := range cnt {
		if n%2 == 1 {
			out = append(out, t)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	if c != 0 {
		out = append(out, p.c(c))
	}
	if len(out) == 0 {
		return p.c(0)
	}
	if len(out) == 1 {
		return out[0]
	}
	return p.app("^", "", out...)
}

// comm is a commutative associative operation.
func (p *Pool) comm(op string, as ...*T) *T {
	var fl []*T
	for _, a := range as {
		if a.op == op {
			fl = append(fl, a.args...)
		} else {
			fl = append(fl, a)
		}
	}
	sort.Slice(fl, func(i, j int) bool { return fl[i].id < fl[j].id })
	var out []*T
	for i, a := range fl {
		if i == 0 || a != fl[i-1] {
			out = append(out, a)
		}
	}
	if len(out) == 1 {
		return out[0]
	}
	return p.app(op, "", out...)
}

// ---- conditions ---------------------------------------------------------------

// sign-normalised zero test
func (p *Pool) eq0(d *T) *T {
	if n, ok := d.isC(); ok {
		return p.boolT(n == 0)
	}
	ts, co, c := parts(d)
	if len(co) > 0 && co[0] < 0 {
		cs := make([]int64, len(co))
		for i := range co {
			cs[i] = -co[i]
		}
		d = p.lin(ts, cs, -c)
	}
	return p.app("==0", "", d)
}

func (p *Pool) boolT(b bool) *T {
	if b {
		return p.app("true", "")
	}
	return p.app("false", "")
}

func (p *Pool) lt0(d *T) *T {
	if n, ok := d.isC(); ok {
		return p.boolT(n < 0)
	}
	return p.app("<0", "", d)
}

func (p *Pool) eq(a, b *T) *T {
	if a == b {
		return p.boolT(true)
	}
	if a.op == "mod" && b.op == "mod" && a.aux == b.aux {
		m, _ := strconv.ParseInt(a.aux, 10, 64)
		return p.modEq0(p.sub(a.args[0], b.args[0]), m)
	}
	return p.eq0(p.sub(a, b))
}

// modEq0: d == 0 modulo m, sign-normalised.
func (p *Pool) modEq0(d *T, m int64) *T {
	x := p.mod(d, m)
	y := p.mod(p.scale(d, -1), m)
	if n, ok := x.isC(); ok {
		return p.boolT(n == 0)
	}
	if y.id < x.id {
		x = y
	}
	return p.app("==0", "", x)
}

func (p *Pool) not(t *T) *T {
	switch t.op {
	case "true":
		return p.boolT(false)
	case "false":
		return p.boolT(true)
	case "!":
		return t.args[0]
	case "<0":
		return p.lt0(p.sub(p.scale(t.args[0], -1), p.c(1)))
	}
	return p.app("!", "", t)
}

// ---- substitution --------------------------------------------------------------

// rebuild re-applies the normalising constructor of t to new arguments.
func (p *Pool) rebuild(t *T, args []*T) *T {
	switch t.op {
	case "+":
		n, _ := strconv.ParseInt(t.aux, 10, 64)
		r := p.c(n)
		for i, a := range args {
			r = p.add(r, p.scale(a, t.co[i]))
		}
		return r
	case "*":
		r := p.c(1)
		for _, a := range args {
			r = p.mul(r, a)
		}
		return r
	case "mod":
		m, _ := strconv.ParseInt(t.aux, 10, 64)
		return p.mod(args[0], m)
	case "^":
		return p.xor(args...)
	case "&", "|", "&&", "||":
		return p.comm(t.op, args...)
	case "==0":
		if args[0].op == "mod" {
			m, _ := strconv.ParseInt(args[0].aux, 10, 64)
			return p.modEq0(args[0].args[0], m)
		}
		return p.eq0(args[0])
	case "<0":
		return p.lt0(args[0])
	case "!":
		return p.not(args[0])
	case "ite":
		return p.ite(args[0], args[1], args[2])
	case "/":
		return p.div(args[0], args[1])
	case "%":
		return p.rem(args[0], args[1])
	}
	return p.mk(t.op, t.aux, nil, args...)
}

// subst replaces atoms (any terms) according to m.
func (p *Pool) subst(t *T, m map[*T]*T) *T {
	memo := map[*T]*T{}
	var rec func(t *T) *T
	rec = func(t *T) *T {
		if r, ok := m[t]; ok {
			return r
		}
		if t.op == "build" {
			n, _ := strconv.Atoi(t.aux)
			if _, bound := m[p.k(n)]; bound {
				m2 := map[*T]*T{}
				for x, y := range m {
					if x != p.k(n) {
						m2[x] = y
					}
				}
				if len(m2) == 0 {
					return t
				}
				return p.subst(t, m2)
			}
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		ch := false
		na := make([]*T, len(t.args))
		for i, a := range t.args {
			na[i] = rec(a)
			if na[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = p.rebuild(t, na)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func (p *Pool) substLoops(t *T, m map[int]*T) *T {
	if len(m) == 0 {
		return t
	}
	any := false
	for v := range t.vars {
		if _, ok := m[v]; ok {
			any = true
		}
	}
	if !any {
		return t
	}
	mm := map[*T]*T{}
	for v, x := range m {
		mm[p.k(v)] = x
	}
	return p.subst(t, mm)
}

// div is integer division of non-negative values by a positive divisor.
func (p *Pool) div(a, b *T) *T {
	if m, ok := b.isC(); ok && m > 0 {
		if m == 1 {
			return a
		}
		if n, ok := a.isC(); ok {
			return p.c(n / m)
		}
		ts, co, c := parts(a)
		all := true
		for _, x := range co {
			if x%m != 0 {
				all = false
			}
		}
		if all && modNorm(c, m) == c%m {
			// (m*x + c)/m = x + c/m
			cs := make([]int64, len(co))
			for i := range co {
				cs[i] = co[i] / m
			}
			return p.lin(ts, cs, c/m)
		}
	}
	if q := p.quo(a, b); q != nil {
		return q
	}
	// (a + b - 1) / b
	x := p.add(p.sub(a, b), p.c(1))
	if _, isC := b.isC(); isC {
		_, _, c := parts(a)
		bc, _ := b.isC()
		if c == bc-1 && bc > 1 {
			return p.ceildiv(x, b)
		}
	} else if containsTerm(a, b) && !containsTerm(x, b) {
		return p.ceildiv(x, b)
	}
	return p.app("/", "", a, b)
}

func (p *Pool) rem(a, b *T) *T {
	if m, ok := b.isC(); ok && m > 0 {
		if n, ok := a.isC(); ok {
			return p.c(n % m)
		}
		if m == 1 {
			return p.c(0)
		}
		if m > 1<<20 {
			return p.mod(a, m)
		}
		ts, co, c := parts(a)
		all := true
		for _, x := range co {
			if x%m != 0 {
				all = false
			}
		}
		if all {
			return p.c(modNorm(c, m))
		}
		_ = ts
	}
	if p.quo(a, b) != nil {
		return p.c(0)
	}
	return p.app("%", "", a, b)
}

func containsTerm(t, x *T) bool {
	if t == x {
		return true
	}
	for _, a := range t.args {
		if containsTerm(a, x) {
			return true
		}
	}
	return false
}

// walkT visits the subterms once each.
func walkT(t *T, visit func(*T) bool) {
	seen := map[*T]bool{}
	var rec func(t *T)
	rec = func(t *T) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if !visit(t) {
			return
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(t)
}

func hasOp(t *T, op string) bool {
	r := false
	walkT(t, func(x *T) bool {
		if x.op == op {
			r = true
		}
		return !r
	})
	return r
}

// ite is a choice; equal arms and negated conditions are simplified.
func (p *Pool) ite(c, x, y *T) *T {
	if c.op == "!" {
		c, x, y = c.args[0], y, x
	}
	if x == y || c.op == "true" {
		return x
	}
	if c.op == "false" {
		return y
	}
	// x/b, and one more unless it divides: rounded up
	for _, o := range [][3]*T{{c, x, y}, {p.not(c), y, x}} {
		if q := o[0]; q.op == "==0" && q.args[0].op == "%" {
			if n, b := q.args[0].args[0], q.args[0].args[1]; p.div(n, b) == o[1] && o[2] == p.add(o[1], p.c(1)) {
				return p.ceildiv(n, b)
			}
		}
	}
	return p.app("ite", "", c, x, y)
}

// assume simplifies the choices of a term that a literal decides.
func (p *Pool) assume(t, lit *T, val bool) *T {
	if lit.op == "!" {
		lit, val = lit.args[0], !val
	}
	for n := 0; n < 20; n++ {
		m := map[*T]*T{}
		walkT(t, func(x *T) bool {
			if x.op == "ite" && x.args[0] == lit {
				if val {
					m[x] = x.args[1]
				} else {
					m[x] = x.args[2]
				}
				return false
			}
			return true
		})
		if len(m) == 0 {
			break
		}
		t = p.subst(t, m)
	}
	return t
}

// ceildiv is x/b, rounded up.
func (p *Pool) ceildiv(x, b *T) *T {
	n, isC := b.isC()
	if isC && n == 1 {
		return x
	}
	if c, ok := x.isC(); ok && isC && n > 0 && c >= 0 {
		return p.c((c + n - 1) / n)
	}
	if isC && n > 1 {
		// a common factor
		ts, co, c := parts(x)
		g := gcd(n, c)
		for _, k := range co {
			g = gcd(g, k)
		}
		if g > 1 {
			cs := make([]int64, len(co))
			for i := range co {
				cs[i] = co[i] / g
			}
			return p.ceildiv(p.lin(ts, cs, c/g), p.c(n/g))
		}
	}
	return p.app("ceildiv", "", x, b)
}

// quo is the polynomial q with a = q*b, or nil.
func (p *Pool) quo(a, b *T) *T {
	if _, ok := b.isC(); ok {
		return nil
	}
	// monomials by degree, then by the terms they are made of
	lead := func(t *T) (mono, bool) {
		ms, c := monos(t)
		var best mono
		key := func(m mono) []int {
			r := []int{len(m.at)}
			for _, x := range m.at {
				r = append(r, x.id)
			}
			sort.Ints(r[1:])
			return r
		}
		less := func(x, y []int) bool {
			for i := range x {
				if i >= len(y) {
					return false
				}
				if x[i] != y[i] {
					return x[i] < y[i]
				}
			}
			return false
		}
		ok := false
		for _, m := range ms {
			if !ok || less(key(best), key(m)) {
				best, ok = m, true
			}
		}
		if !ok && c != 0 {
			return mono{co: c}, true
		}
		return best, ok
	}
	lb, ok := lead(b)
	if !ok || len(lb.at) == 0 {
		return nil
	}
	q, r := p.c(0), a
	for n := 0; n < 20; n++ {
		la, ok := lead(r)
		if !ok {
			return q
		}
		rest := append([]*T{}, la.at...)
		for _, x := range lb.at {
			if !contains(rest, x) {
				return nil
			}
			rest = without(rest, x)
		}
		if la.co%lb.co != 0 {
			return nil
		}
		m := p.c(la.co / lb.co)
		for _, x := range rest {
			m = p.mul(m, x)
		}
		q = p.add(q, m)
		r = p.sub(r, p.mul(m, b))
	}
	return nil
}
