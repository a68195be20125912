package main

// Path-sensitive exploration of the flat program: a product of the control-flow
// graph, the known outcomes of boolean and nil tests, and the automaton of a rule.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

const (
	fFalse = 1 // boolean false
	fTrue  = 2
	fNil   = 3
	fNon   = 4
)

type pst struct {
	b   *Block
	env map[int]int8
	q   string
}

func (s *pst) key() string {
	var ks []int
	for k := range s.env {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	var sb strings.Builder
	sb.WriteString(strconv.Itoa(s.b.ID))
	for _, k := range ks {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(k))
		sb.WriteByte('=')
		sb.WriteByte('0' + byte(s.env[k]))
	}
	sb.WriteByte('|')
	sb.WriteString(s.q)
	return sb.String()
}

// trackedSet: instructions whose truth or nilness decides branches or results.
func (a *Analysis) trackedSet() map[*Ins]bool {
	if a.tracked != nil {
		return a.tracked
	}
	tr := map[*Ins]bool{}
	uses := map[*Ins]int{}
	var add func(i *Ins, weight int)
	add = func(i *Ins, w int) {
		if i == nil {
			return
		}
		switch i.Op {
		case OpUn:
			if i.Tok == token.NOT {
				add(i.Args[0], w)
				return
			}
		case OpBin:
			if i.Tok == token.EQL || i.Tok == token.NEQ {
				if i.Args[0].isNil() {
					add(i.Args[1], w)
					return
				}
				if i.Args[1].isNil() {
					add(i.Args[0], w)
					return
				}
			}
		case OpPhi:
			if tr[i] {
				return
			}
			if basicOf(i.Typ) == nil && !isNillable(i.Typ) {
				return
			}
			tr[i] = true
			for _, x := range i.Args {
				add(x, 1)
			}
			return
		}
		uses[i] += w
		if uses[i] >= 2 && i.Op != OpConst {
			tr[i] = true
		}
	}
	for _, b := range a.rpo {
		if b.Term == TIf && b.Cond != nil {
			add(b.Cond, 1)
		}
		if b.Term == TReturn {
			for _, r := range b.Rets {
				if isErrorType(r.Typ) || isBool(r.Typ) {
					add(r, 1)
				}
			}
		}
	}
	a.tracked = tr
	return tr
}

func isErrorType(t types.Type) bool {
	if t == nil {
		return false
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "error" && n.Obj().Pkg() == nil
}

func isBool(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&types.IsBoolean != 0
}

// repeated: conditions tested at more than one branch; their outcome is remembered.
func (a *Analysis) repeated() map[*T]bool {
	if a.condRep != nil {
		return a.condRep
	}
	n := map[*T]int{}
	for _, b := range a.rpo {
		if b.Term != TIf || b.Cond == nil || b.Succs[0] == b.Succs[1] {
			continue
		}
		t := a.at(b.Cond, b)
		if t.op == "!" {
			t = t.args[0]
		} else if t.op == "<0" {
			if u := a.p.not(t); u.id < t.id {
				t = u
			}
		}
		if t.op == "true" || t.op == "false" || hasOp(t, "mem") || hasOp(t, "rec") || hasOp(t, "callmem") {
			continue
		}
		// the test of a loop header changes with every pass
		if l := a.byHead[b]; l != nil {
			continue
		}
		n[t]++
	}
	a.condRep = map[*T]bool{}
	for t, c := range n {
		if c > 1 {
			a.condRep[t] = true
		}
	}
	return a.condRep
}

// fact returns the remembered condition an edge decides, and its outcome.
func (a *Analysis) fact(b *Block, k int) (*T, bool) {
	if b.Term != TIf || b.Cond == nil || b.Succs[0] == b.Succs[1] {
		return nil, false
	}
	v := k == 0
	t := a.at(b.Cond, b)
	if t.op == "!" {
		t, v = t.args[0], !v
	} else if t.op == "<0" {
		if u := a.p.not(t); u.id < t.id {
			t, v = u, !v
		}
	}
	if !a.repeated()[t] || a.byHead[b] != nil {
		return nil, false
	}
	return t, v
}

// val: known truth or nilness of i. 0 when unknown.
func (a *Analysis) val(i *Ins, env map[int]int8) int8 {
	if v, ok := env[i.ID]; ok {
		return v
	}
	if v, ok := i.isConstBool(); ok {
		if v {
			return fTrue
		}
		return fFalse
	}
	switch i.Op {
	case OpUn:
		if i.Tok == token.NOT {
			switch a.val(i.Args[0], env) {
			case fTrue:
				return fFalse
			case fFalse:
				return fTrue
			}
			return 0
		}
	case OpBin:
		if i.Tok == token.EQL || i.Tok == token.NEQ {
			var x *Ins
			if i.Args[0].isNil() {
				x = i.Args[1]
			} else if i.Args[1].isNil() {
				x = i.Args[0]
			}
			if x != nil {
				v := a.val(x, env)
				if v == fNil || v == fNon {
					if (v == fNil) == (i.Tok == token.EQL) {
						return fTrue
					}
					return fFalse
				}
			}
		}
	}
	if i.Typ != nil && isNillable(i.Typ) {
		switch nilness(i) {
		case 1:
			return fNil
		case 2:
			return fNon
		}
	}
	return 0
}

// assume records the outcome of a condition.
func (a *Analysis) assume(c *Ins, v bool, env map[int]int8) {
	tr := a.trackedSet()
	switch {
	case c.Op == OpUn && c.Tok == token.NOT:
		a.assume(c.Args[0], !v, env)
		return
	case c.Op == OpBin && (c.Tok == token.EQL || c.Tok == token.NEQ):
		var x *Ins
		if c.Args[0].isNil() {
			x = c.Args[1]
		} else if c.Args[1].isNil() {
			x = c.Args[0]
		}
		if x != nil {
			if tr[x] {
				if v == (c.Tok == token.EQL) {
					env[x.ID] = fNil
				} else {
					env[x.ID] = fNon
				}
			}
			return
		}
	}
	if tr[c] {
		if v {
			env[c.ID] = fTrue
		} else {
			env[c.ID] = fFalse
		}
	}
}

// enter moves over an edge: phis of the target take the values of the edge.
func (a *Analysis) enter(s *pst, k int) *pst {
	to := s.b.Succs[k]
	env := map[int]int8{}
	for i, v := range s.env {
		env[i] = v
	}
	if t, v := a.fact(s.b, k); t != nil {
		if v {
			env[-t.id] = fTrue
		} else {
			env[-t.id] = fFalse
		}
		a.factOf[t.id] = t
	}
	for i := range env {
		if i >= 0 {
			continue
		}
		for v := range a.factOf[-i].vars {
			l := a.loopByID(v)
			if l == nil || !l.Blocks[to] || to == l.Header {
				delete(env, i)
				break
			}
		}
	}
	if s.b.Term == TIf && s.b.Cond != nil && s.b.Succs[0] != s.b.Succs[1] {
		a.assume(s.b.Cond, k == 0, env)
	}
	tr := a.trackedSet()
	pi := predIndex(s.b, k)
	vals := map[int]int8{}
	for _, ph := range to.phis() {
		if tr[ph] {
			vals[ph.ID] = a.val(ph.Args[pi], env)
		}
	}
	for _, i := range to.Ins {
		delete(env, i.ID)
	}
	for i, v := range vals {
		if v != 0 {
			env[i] = v
		}
	}
	// forget what lies in loops that are left or re-entered
	return &pst{b: to, env: env}
}

type exploreOpts struct {
	init string
	from *Block
	// start is the state to begin with, when given
	start *pst
	// edge gives the next automaton state; false kills the path
	edge func(q string, e Edge) (string, bool)
	goal func(s *pst) bool
	max  int
}

// explore searches for a path on which goal holds and returns it.
func (a *Analysis) explore(o exploreOpts) ([]*Block, bool) {
	start := &pst{b: a.f.Entry, env: map[int]int8{}, q: o.init}
	if o.from != nil {
		start.b = o.from
	}
	if o.start != nil {
		start = o.start
	}
	if o.max == 0 {
		o.max = 400000
	}
	type node struct {
		s    *pst
		prev int
	}
	nodes := []node{{start, -1}}
	seen := map[string]bool{start.key(): true}
	for n := 0; n < len(nodes); n++ {
		s := nodes[n].s
		a.States++
		if n > o.max {
			return []*Block{s.b}, true // undecided counts as found
		}
		if o.goal(s) {
			var path []*Block
			for k := n; k >= 0; k = nodes[k].prev {
				path = append(path, nodes[k].s.b)
			}
			for l, r := 0, len(path)-1; l < r; l, r = l+1, r-1 {
				path[l], path[r] = path[r], path[l]
			}
			return path, true
		}
		for k := range s.b.Succs {
			// conditions that the values decide
			if s.b.Term == TIf && s.b.Cond != nil && s.b.Succs[0] != s.b.Succs[1] {
				if t := a.at(s.b.Cond, s.b); t == a.p.boolT(k == 1) {
					continue
				}
			}
			if s.b.Term == TIf && s.b.Cond != nil {
				switch a.val(s.b.Cond, s.env) {
				case fTrue:
					if k == 1 {
						continue
					}
				case fFalse:
					if k == 0 {
						continue
					}
				}
			}
			if t, v := a.fact(s.b, k); t != nil {
				if w := s.env[-t.id]; w != 0 && (w == fTrue) != v {
					continue
				}
			}
			q, ok := s.q, true
			if o.edge != nil {
				q, ok = o.edge(s.q, Edge{s.b, k})
			}
			if !ok {
				continue
			}
			t := a.enter(s, k)
			t.q = q
			key := t.key()
			if seen[key] {
				continue
			}
			seen[key] = true
			nodes = append(nodes, node{t, n})
		}
	}
	return nil, false
}

// lits are the facts that hold on an edge, in normal form.
func (a *Analysis) lits(e Edge) []*T {
	if e.B.Term != TIf || e.B.Cond == nil || e.B.Succs[0] == e.B.Succs[1] {
		return nil
	}
	t := a.at(e.B.Cond, e.B)
	if e.K == 1 {
		t = a.p.not(t)
	}
	return a.conjuncts(t, nil)
}

// conjuncts: the fact and those it is a conjunction of.
func (a *Analysis) conjuncts(t *T, r []*T) []*T {
	r = append(r, t)
	u, neg := t, false
	if t.op == "!" {
		u, neg = t.args[0], true
	}
	if u.op != "ite" {
		return r
	}
	x, y, z := u.args[0], u.args[1], u.args[2]
	switch {
	case !neg && z.op == "false": // x && y
		r = a.conjuncts(y, a.conjuncts(x, r))
	case !neg && y.op == "false": // !x && z
		r = a.conjuncts(z, a.conjuncts(a.p.not(x), r))
	case neg && y.op == "true": // !(x || z)
		r = a.conjuncts(a.p.not(z), a.conjuncts(a.p.not(x), r))
	case neg && z.op == "true": // !(!x || y)
		r = a.conjuncts(a.p.not(y), a.conjuncts(x, r))
	}
	return r
}

// entails: pred holds for the fact, or for each case of a disjunction.
func (a *Analysis) entails(t *T, pred func(*T) bool) bool {
	if pred(t) {
		return true
	}
	u, neg := t, false
	if t.op == "!" {
		u, neg = t.args[0], true
	}
	if u.op != "ite" {
		return false
	}
	x, y, z := u.args[0], u.args[1], u.args[2]
	switch {
	case !neg && y.op == "true": // x || z
		return a.entails(x, pred) && a.entails(z, pred)
	case !neg && z.op == "true": // !x || y
		return a.entails(a.p.not(x), pred) && a.entails(y, pred)
	case neg && z.op == "false": // !x || !y
		return a.entails(a.p.not(x), pred) && a.entails(a.p.not(y), pred)
	case neg && y.op == "false": // x || !z
		return a.entails(x, pred) && a.entails(a.p.not(z), pred)
	}
	return false
}

// collected: a loop that keeps whether tests failed, in a flag, a count or the
// bits that differ: what the fact, about the end of the loop, says of every iteration.
func (a *Analysis) collected(t *T) (*Loop, []*T) {
	p := a.p
	u, neg := t, false
	if t.op == "!" {
		u, neg = t.args[0], true
	}
	zero := false
	var total *T
	switch {
	case u.op == "==0" && !neg:
		u, zero = u.args[0], true
		if u.op != "last" { // the number of tests that held
			ts, co, c := parts(u)
			for j, x := range ts {
				if x.op == "last" && (co[j] == 1 || co[j] == -1) {
					total = p.sub(p.lin(ts, co, c), p.mul(p.c(co[j]), x))
					if co[j] == 1 {
						total = p.mul(p.c(-1), total)
					}
					u = x
					break
				}
			}
		}
	case u.op == "<0" && neg: // a count is not above 0
		if x := p.mul(p.c(-1), u.args[0]); x.op == "last" {
			u, zero, neg = x, true, false
		}
	case u.op == "<0" && !neg: // or below 1
		if x := p.add(u.args[0], p.c(1)); x.op == "last" {
			u, zero = x, true
		}
	}
	if u.op != "last" {
		return nil, nil
	}
	l := a.loopByID(atoi(u.aux))
	if l == nil || l.Parent != nil {
		return nil, nil
	}
	ph := a.phiOf(l, u.args[0])
	if ph == nil || u.args[0] != p.subst(a.term(ph), map[*T]*T{p.k(l.ID): p.app("kend", itoa(l.ID))}) {
		return nil, nil
	}
	init, next, base := a.initOf(l, ph), a.nextOf(l, ph), a.term(ph)
	if init == nil || next == nil {
		return nil, nil
	}
	if zero {
		if !init.isZero() {
			return nil, nil
		}
		up := next.op == "ite" && next.args[1] == p.add(base, p.c(1)) && next.args[2] == base
		down := next.op == "ite" && next.args[2] == p.add(base, p.c(1)) && next.args[1] == base
		switch {
		case total != nil && total != a.TripOf(l):
			return nil, nil
		case total != nil && up:
			return l, []*T{next.args[0]}
		case total != nil && down:
			return l, []*T{p.not(next.args[0])}
		case total != nil:
			return nil, nil
		case next.op == "|" && contains(next.args, base):
			var xs []*T
			for _, x := range next.args {
				if x == base {
					continue
				}
				xs = append(xs, p.eq(x, p.c(0)))
				if x.op == "^" && len(x.args) == 2 {
					xs = append(xs, p.eq(x.args[0], x.args[1]))
				}
			}
			return l, xs
		case up:
			return l, []*T{p.not(next.args[0])}
		case down:
			return l, []*T{next.args[0]}
		}
		return nil, nil
	}
	if neg {
		if init.op != "false" {
			return nil, nil
		}
		next, base = p.not(next), p.not(base)
	} else if init.op != "true" {
		return nil, nil
	}
	cs := a.conjuncts(next, nil)
	if !contains(cs, base) {
		return nil, nil
	}
	var xs []*T
	for _, c := range cs {
		if c != base && c != next {
			xs = append(xs, c)
		}
	}
	return l, xs
}

// exits where the function may return successfully (error result not known to be set).
func (a *Analysis) accepting(s *pst) bool {
	if s.b.Term == TAbort {
		return a.exitsWell(s.b)
	}
	if s.b.Term != TReturn {
		return false
	}
	for _, r := range s.b.Rets {
		if isErrorType(r.Typ) && a.val(r, s.env) == fNon {
			return false
		}
		if isErrorType(r.Typ) && isNewError(r) {
			return false
		}
	}
	return true
}

func isNewError(i *Ins) bool {
	return i.Op == OpCall && nilness(i) == 2
}

// exitBlocks: blocks that return, possibly successfully.
// exitsWell: the program ends with status 0.
func (a *Analysis) exitsWell(b *Block) bool {
	if n := len(b.Ins); n > 0 && b.Ins[n-1].Op == OpCall && a.callee(b.Ins[n-1]) == "os.Exit" {
		return isConst(a.arg(b.Ins[n-1], 0), 0)
	}
	return false
}

func (a *Analysis) acceptBlocks() []*Block {
	set := map[*Block]bool{}
	var r []*Block
	a.explore(exploreOpts{goal: func(s *pst) bool {
		if a.accepting(s) && !set[s.b] {
			set[s.b] = true
			r = append(r, s.b)
		}
		return false
	}})
	return r
}

func (a *Analysis) hasErrorResult() bool {
	for _, b := range a.rpo {
		if b.Term == TReturn {
			for _, r := range b.Rets {
				if isErrorType(r.Typ) {
					return true
				}
			}
		}
	}
	return false
}

func (a *Analysis) pathString(path []*Block) string {
	var out []string
	last := ""
	for _, b := range path {
		w := a.f.whereB(b)
		if w != last && w != "" && !strings.HasPrefix(w, "?") {
			out = append(out, w)
		}
		last = w
	}
	if len(out) > 14 {
		out = append(append(append([]string{}, out[:5]...), "..."), out[len(out)-8:]...)
	}
	return strings.Join(out, " -> ")
}

// mustPass: every path from the entry to a goal state takes an edge of the set.
func (a *Analysis) mustPass(good func(e Edge) bool, goal func(s *pst) bool) ([]*Block, bool) {
	path, found := a.explore(exploreOpts{
		edge: func(q string, e Edge) (string, bool) { return q, !good(e) },
		goal: goal,
	})
	return path, !found
}

// mustPassBlock: every path from the entry to a goal state executes one of the blocks.
func (a *Analysis) mustPassBlock(good map[*Block]bool, goal func(s *pst) bool) ([]*Block, bool) {
	if good[a.f.Entry] {
		return nil, true
	}
	return a.mustPass(func(e Edge) bool { return good[e.To()] }, goal)
}

// edgesWith lists the edges on which a fact satisfying pred holds.
func (a *Analysis) edgesWith(pred func(lit *T, b *Block) bool) map[string]Edge {
	r := map[string]Edge{}
	for _, b := range a.rpo {
		for k := range b.Succs {
			e := Edge{b, k}
			for _, l := range a.lits(e) {
				if pred(l, b) {
					r[e.key()] = e
				}
			}
		}
	}
	return r
}

func (e Edge) key() string { return fmt.Sprintf("%d.%d", e.B.ID, e.K) }

// tripAtLeast: the loop has at least n iterations, by its count or because a
// test before it has shown that its count is n.
func (a *Analysis) tripAtLeast(l *Loop, n *T) bool {
	tr := a.TripOf(l)
	if tr == nil {
		return false
	}
	if lo, ok := a.lower(a.p.sub(tr, n)); ok && lo >= 0 {
		return true
	}
	eq := a.p.eq(tr, n)
	_, ok := a.mustPass(func(e Edge) bool { return contains(a.lits(e), eq) }, a.goalBlock(l.Header))
	return ok
}

// forall: on every path to a goal state, some loop has run over its whole range
// (of at least n iterations, when n is given) and has taken, in every iteration,
// an edge on which good holds for that loop's index.
// good gets the literal and the loop variable. Returns a witness when not.
func (a *Analysis) forall(n *T, good func(lit, k *T) bool, goal func(s *pst) bool) (path []*Block, ok bool, sites int) {
	type cand struct {
		l     *Loop
		edges map[string]bool
	}
	var cs []cand
	for _, l := range a.loops {
		if l.Main == nil {
			continue
		}
		if n != nil && a.TripOf(l) == nil {
			continue
		}
		c := cand{l: l, edges: map[string]bool{}}
		for _, b := range a.rpo {
			if !l.Blocks[b] {
				continue
			}
			for k := range b.Succs {
				e := Edge{b, k}
				for _, t := range a.lits(e) {
					if a.entails(t, func(t *T) bool { return good(t, a.p.k(l.ID)) }) {
						c.edges[e.key()] = true
						sites++
					}
				}
			}
		}
		if len(c.edges) == 0 {
			continue
		}
		if n != nil && !a.tripAtLeast(l, n) {
			sites -= len(c.edges)
			continue
		}
		cs = append(cs, c)
	}
	// tests collected over the iterations and looked at afterwards
	after := map[string]bool{}
	for _, b := range a.rpo {
		for k := range b.Succs {
			e := Edge{b, k}
			for _, t := range a.lits(e) {
				l, xs := a.collected(t)
				if l == nil || l.Blocks[b] || !a.allIterations(l) || n != nil && !a.tripAtLeast(l, n) {
					continue
				}
				for _, x := range xs {
					if a.entails(x, func(t *T) bool { return good(t, a.p.k(l.ID)) }) {
						after[e.key()] = true
						sites++
					}
				}
			}
		}
	}
	if len(after) > 0 {
		was := goal
		goal = func(s *pst) bool { return !strings.HasPrefix(s.q, "+") && was(s) }
	}
	if len(cs) == 0 && len(after) == 0 {
		p, found := a.explore(exploreOpts{goal: goal})
		return p, !found, 0
	}
	init := strings.Repeat("0", len(cs))
	path, found := a.explore(exploreOpts{
		init: init,
		edge: func(q string, e Edge) (string, bool) {
			if after[e.key()] || strings.HasPrefix(q, "+") {
				return "+", true
			}
			st := []byte(q)
			for j, c := range cs {
				to := e.To()
				in, out := c.l.Blocks[e.B], c.l.Blocks[to]
				switch {
				case !in && out:
					st[j] = '1'
				case in && to == c.l.Header:
					if st[j] == '2' || c.edges[e.key()] && st[j] == '1' {
						st[j] = '1'
					} else {
						st[j] = '3'
					}
				case in && !out:
					if e.B == c.l.Main.B && e.K == c.l.Main.K && (st[j] == '1' || st[j] == '2') {
						st[j] = '4'
					} else {
						st[j] = '0'
					}
				case in && c.edges[e.key()] && st[j] == '1':
					st[j] = '2'
				}
			}
			return string(st), true
		},
		goal: func(s *pst) bool { return !strings.Contains(s.q, "4") && goal(s) },
	})
	return path, !found, sites
}
