package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

type Edge struct {
	B *Block
	K int // successor number
}

func (e Edge) To() *Block { return e.B.Succs[e.K] }

type Loop struct {
	ID      int
	Header  *Block
	Blocks  map[*Block]bool
	Latches []*Block
	Parent  *Loop
	Depth   int
	Exits   []Edge
	Main    *Edge // exit taken when the loop is exhausted
	Trip    *T    // number of iterations, when exhausted
	TripIns bool
	Desc    bool // runs from the last index to the first
	Over    *Ins // OpRange operand of a map, string or channel loop
	Kind    string
	ivs     map[*Ins]*iv
	prim    *Ins
	computing,
	computed bool
}

type iv struct {
	phi  *Ins
	init *Ins
	step *T
}

type store struct {
	i      *Ins
	addr   *T
	val    *T
	name   string // clobbering call, if any
	hidden bool
}

type Analysis struct {
	allIterM map[*Loop]bool
	rng      map[*T]*T // indices under study that are not negative, with what they are below
	differ   []*T      // terms that are not zero where an access is being resolved
	f        *Flat
	p        *Pool
	dom      map[*Block]*Block
	depth    map[*Block]int
	pre      map[*Block]int
	post     map[*Block]int
	loops    []*Loop
	loopOf   map[*Block]*Loop // innermost
	byHead   map[*Block]*Loop
	order    map[*Ins]int // position within its block
	reachM   map[*Block]map[*Block]bool
	terms    map[*Ins]*T
	busy     map[*Ins]bool
	stores   []*store
	byRoot   map[string][]*store
	stReady,
	stBuild bool
	objLen   map[string]*T
	insOf    map[string]*Ins // object or call id -> instruction
	rpo      []*Block
	resolveD int
	addrMemo map[*Ins]*T
	resMemo  map[string]*T
	Truncs   int
	States   int
	tracked  map[*Ins]bool
	condRep  map[*T]bool
	factOf   map[int]*T
}

func (f *Flat) Analyze() *Analysis {
	if f.an != nil {
		return f.an
	}
	a := &Analysis{f: f, p: NewPool(), terms: map[*Ins]*T{}, busy: map[*Ins]bool{}, objLen: map[string]*T{}, insOf: map[string]*Ins{}, addrMemo: map[*Ins]*T{}, resMemo: map[string]*T{}, factOf: map[int]*T{}}
	f.an = a
	a.dom = f.dominators()
	a.order = map[*Ins]int{}
	for _, b := range f.Blocks {
		for k, i := range b.Ins {
			a.order[i] = k
			i.Blk = b
		}
	}
	a.numberDom()
	a.findLoops()
	a.reachM = map[*Block]map[*Block]bool{}
	a.collectStores()
	return a
}

func (a *Analysis) numberDom() {
	kids := map[*Block][]*Block{}
	for b, d := range a.dom {
		if d != nil {
			kids[d] = append(kids[d], b)
		}
	}
	a.pre, a.post = map[*Block]int{}, map[*Block]int{}
	n := 0
	var dfs func(b *Block)
	dfs = func(b *Block) {
		n++
		a.pre[b] = n
		for _, c := range kids[b] {
			dfs(c)
		}
		n++
		a.post[b] = n
	}
	dfs(a.f.Entry)
	seen := map[*Block]bool{}
	var po []*Block
	var d2 func(b *Block)
	d2 = func(b *Block) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				d2(s)
			}
		}
		po = append(po, b)
	}
	d2(a.f.Entry)
	for i := len(po) - 1; i >= 0; i-- {
		a.rpo = append(a.rpo, po[i])
	}
}

func (a *Analysis) Dom(x, y *Block) bool { return a.pre[x] <= a.pre[y] && a.post[y] <= a.post[x] }

// DomI: instruction x is executed before y whenever y is executed.
func (a *Analysis) DomI(x, y *Ins) bool {
	if x.Blk == y.Blk {
		return a.order[x] < a.order[y]
	}
	return a.Dom(x.Blk, y.Blk)
}

func (a *Analysis) findLoops() {
	a.byHead = map[*Block]*Loop{}
	for _, b := range a.rpo {
		for _, s := range b.Succs {
			if a.Dom(s, b) {
				l := a.byHead[s]
				if l == nil {
					l = &Loop{ID: len(a.loops) + 1, Header: s, Blocks: map[*Block]bool{s: true}}
					a.byHead[s] = l
					a.loops = append(a.loops, l)
				}
				l.Latches = append(l.Latches, b)
				st := []*Block{b}
				for len(st) > 0 {
					x := st[len(st)-1]
					st = st[:len(st)-1]
					if l.Blocks[x] {
						continue
					}
					l.Blocks[x] = true
					st = append(st, x.Preds...)
				}
			}
		}
	}
	sort.Slice(a.loops, func(i, j int) bool { return len(a.loops[i].Blocks) > len(a.loops[j].Blocks) })
	a.loopOf = map[*Block]*Loop{}
	for _, l := range a.loops { // big to small: the innermost wins
		l.Parent = a.loopOf[l.Header]
		if l.Parent == l {
			l.Parent = nil
		}
		if l.Parent != nil {
			l.Depth = l.Parent.Depth + 1
		}
		for b := range l.Blocks {
			a.loopOf[b] = l
		}
	}
	for i, l := range a.loops {
		l.ID = i + 1
		for _, b := range a.rpo {
			if !l.Blocks[b] {
				continue
			}
			for k, s := range b.Succs {
				if !l.Blocks[s] {
					l.Exits = append(l.Exits, Edge{b, k})
				}
			}
		}
		a.findIVs(l)
	}
}

func (a *Analysis) loopsOf(b *Block) []*Loop { // innermost first
	var r []*Loop
	for l := a.loopOf[b]; l != nil; l = l.Parent {
		r = append(r, l)
	}
	return r
}

func (a *Analysis) invariant(l *Loop, i *Ins) bool {
	switch i.Op {
	case OpConst, OpParam, OpGlobal, OpFunc:
		return true
	}
	return !l.Blocks[i.Blk]
}

func (a *Analysis) findIVs(l *Loop) {
	l.ivs = map[*Ins]*iv{}
	for _, ph := range l.Header.phis() {
		if !isIntType(ph.Typ) {
			continue
		}
		var init *Ins
		ok := true
		var step *stepv
		for k, p := range l.Header.Preds {
			v := ph.Args[k]
			if !l.Blocks[p] {
				if init != nil && init != v {
					ok = false
				}
				init = v
				continue
			}
			d := a.delta(v, ph, l, 0)
			if d == nil || (step != nil && *step != *d) {
				ok = false
				break
			}
			step = d
		}
		if !ok || init == nil || step == nil || (step.n == 0 && step.i == nil) {
			continue
		}
		x := &iv{phi: ph, init: init}
		l.ivs[ph] = x
		_ = step
		x.step = nil
		ivSteps[x] = step
	}
	a.findMainExit(l)
}

type stepv struct {
	n int64
	i *Ins // symbolic step (n is then its sign)
}

var ivSteps = map[*iv]*stepv{}

// delta computes v - phi when it is constant.
func (a *Analysis) delta(v, phi *Ins, l *Loop, d int) *stepv {
	if v == phi {
		return &stepv{}
	}
	if d > 8 {
		return nil
	}
	switch v.Op {
	case OpBin:
		if v.Tok == token.ADD || v.Tok == token.SUB {
			x, y := v.Args[0], v.Args[1]
			for k := 0; k < 2; k++ {
				if s := a.delta(x, phi, l, d+1); s != nil {
					if n, ok := y.isConstInt(); ok && s.i == nil {
						if v.Tok == token.SUB {
							n = -n
						}
						return &stepv{n: s.n + n}
					}
					if a.invariant(l, y) && s.n == 0 && s.i == nil {
						sg := int64(1)
						if v.Tok == token.SUB {
							sg = -1
						}
						return &stepv{n: sg, i: y}
					}
					if y.Op == OpBuiltin && y.Name == "len" && s.n == 0 && s.i == nil && v.Tok == token.ADD {
						return &stepv{n: 1, i: y}
					}
					return nil
				}
				if v.Tok == token.SUB {
					break
				}
				x, y = y, x
			}
		}
	case OpPhi:
		if v.Blk == l.Header || !l.Blocks[v.Blk] {
			return nil
		}
		if a.loopOf[v.Blk] != nil && a.loopOf[v.Blk].Header == v.Blk {
			return nil
		}
		var r *stepv
		for _, x := range v.Args {
			s := a.delta(x, phi, l, d+1)
			if s == nil || (r != nil && *r != *s) {
				return nil
			}
			r = s
		}
		return r
	case OpConvert:
		if isIntType(v.Typ) {
			return a.delta(v.Args[0], phi, l, d+1)
		}
	}
	return nil
}

// linear writes v as phi + c for an induction variable of l.
func (a *Analysis) linear(v *Ins, l *Loop) (*iv, int64, bool) {
	if x, ok := l.ivs[v]; ok {
		return x, 0, true
	}
	switch v.Op {
	case OpBin:
		if v.Tok == token.ADD {
			if n, ok := v.Args[1].isConstInt(); ok {
				x, c, k := a.linear(v.Args[0], l)
				return x, c + n, k
			}
			if n, ok := v.Args[0].isConstInt(); ok {
				x, c, k := a.linear(v.Args[1], l)
				return x, c + n, k
			}
		}
		if v.Tok == token.SUB {
			if n, ok := v.Args[1].isConstInt(); ok {
				x, c, k := a.linear(v.Args[0], l)
				return x, c - n, k
			}
		}
	case OpConvert:
		if isIntType(v.Typ) {
			return a.linear(v.Args[0], l)
		}
	}
	return nil, 0, false
}

func (a *Analysis) findMainExit(l *Loop) {
	for _, e := range l.Exits {
		if e.B.Term != TIf || e.B.Cond == nil {
			continue
		}
		domAll := true
		for _, t := range l.Latches {
			if !a.Dom(e.B, t) {
				domAll = false
			}
		}
		if !domAll || a.loopOf[e.B] != l {
			continue
		}
		c := e.B.Cond
		stay := e.K == 1 // the true edge stays in the loop
		for c.Op == OpUn && c.Tok == token.NOT {
			c = c.Args[0]
			stay = !stay
		}
		ee := e
		// map, string and channel ranges
		if c.Op == OpExtract && c.Args[0].Op == OpNext && c.Idx == 0 {
			l.Kind = "map"
			rg := c.Args[0].Args[0]
			if rg.Op == OpRange {
				l.Over = rg.Args[0]
				if b, ok := l.Over.Typ.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
					l.Kind = "string"
				}
			}
			l.Main = &ee
			return
		}
		if c.Op == OpExtract && c.Args[0].Op == OpRecv && c.Idx == 1 {
			l.Kind = "chan"
			l.Over = c.Args[0].Args[0]
			l.Main = &ee
			return
		}
		if c.Op != OpBin {
			continue
		}
		x, y, tok := c.Args[0], c.Args[1], c.Tok
		v, off, ok := a.linear(x, l)
		if !ok || !a.invariantExpr(l, y) {
			v, off, ok = a.linear(y, l)
			if !ok || !a.invariantExpr(l, x) {
				continue
			}
			x, y = y, x
			tok = flip(tok)
		}
		if !stay {
			tok = negate(tok)
		}
		s := ivSteps[v]
		good := false
		switch tok {
		case token.LSS, token.LEQ:
			good = s.n > 0
		case token.GTR, token.GEQ:
			good = s.n < 0
		case token.NEQ:
			good = s.i == nil && (s.n == 1 || s.n == -1)
		}
		if !good {
			continue
		}
		// nothing but computation may happen before the test
		if e.B != l.Header && a.effectsBetween(l.Header, e.B, l) {
			continue
		}
		l.Main = &ee
		l.prim = v.phi
		l.Kind = "int"
		mainTests[l] = &mainTest{v: v, off: off, bound: y, tok: tok}
		l.Desc = s.n < 0
		return
	}
}

type mainTest struct {
	v     *iv
	off   int64
	bound *Ins
	tok   token.Token
}

var mainTests = map[*Loop]*mainTest{}

// invariantExpr: the value does not change while the loop runs, though it may be recomputed in it.
func (a *Analysis) invariantExpr(l *Loop, i *Ins) bool {
	if a.invariant(l, i) {
		return true
	}
	switch i.Op {
	case OpBuiltin:
		if i.Name == "len" || i.Name == "cap" || i.Name == "min" || i.Name == "max" {
			for _, x := range i.Args {
				if !a.invariantExpr(l, x) {
					return false
				}
			}
			return true
		}
	case OpBin, OpUn, OpConvert, OpField, OpFieldAddr, OpExtract, OpPure:
		for _, x := range i.Args {
			if !a.invariantExpr(l, x) {
				return false
			}
		}
		return true
	case OpLoad:
		return a.invariantExpr(l, i.Args[0])
	case OpIndexAddr:
		return a.invariantExpr(l, i.Args[0]) && a.invariantExpr(l, i.Args[1])
	}
	return false
}

func (a *Analysis) effectsBetween(h, b *Block, l *Loop) bool {
	// blocks on paths h -> b inside the loop (without the back edge)
	seen := map[*Block]bool{}
	var back func(x *Block) bool
	back = func(x *Block) bool {
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, i := range x.Ins {
			if hasEffect(i) {
				return true
			}
		}
		if x == h {
			return false
		}
		for _, p := range x.Preds {
			if l.Blocks[p] && back(p) {
				return true
			}
		}
		return false
	}
	for _, p := range b.Preds {
		if l.Blocks[p] && back(p) {
			return true
		}
	}
	return false
}

func flip(t token.Token) token.Token {
	switch t {
	case token.LSS:
		return token.GTR
	case token.LEQ:
		return token.GEQ
	case token.GTR:
		return token.LSS
	case token.GEQ:
		return token.LEQ
	}
	return t
}

func negate(t token.Token) token.Token {
	switch t {
	case token.LSS:
		return token.GEQ
	case token.LEQ:
		return token.GTR
	case token.GTR:
		return token.LEQ
	case token.GEQ:
		return token.LSS
	case token.EQL:
		return token.NEQ
	case token.NEQ:
		return token.EQL
	}
	return t
}

// TripOf computes the number of iterations of an exhausted loop.
func (a *Analysis) TripOf(l *Loop) *T {
	if l.computed {
		return l.Trip
	}
	if l.computing {
		return nil
	}
	l.computing = true
	defer func() { l.computing = false; l.computed = true }()
	if l.Main == nil {
		return nil
	}
	p := a.p
	switch l.Kind {
	case "map", "string", "chan":
		var o *T
		if l.Over != nil {
			o = a.at(l.Over, l.Header)
		} else {
			o = p.c(0)
		}
		l.Trip = p.app("len", "", o)
		return l.Trip
	}
	m := mainTests[l]
	init := a.at(m.v.init, l.Header)
	bound := a.at(m.bound, l.Header)
	s := ivSteps[m.v]
	var st *T
	if s.i != nil {
		st = a.at(s.i, l.Header)
	} else {
		n := s.n
		if n < 0 {
			n = -n
		}
		st = p.c(n)
	}
	var span *T
	start := p.add(init, p.c(m.off))
	switch m.tok {
	case token.LSS:
		span = p.sub(bound, start)
	case token.LEQ:
		span = p.add(p.sub(bound, start), p.c(1))
	case token.GTR:
		span = p.sub(start, bound)
	case token.GEQ:
		span = p.add(p.sub(start, bound), p.c(1))
	case token.NEQ:
		if s.n > 0 {
			span = p.sub(bound, start)
		} else {
			span = p.sub(start, bound)
		}
	}
	if n, ok := st.isC(); ok && n == 1 {
		l.Trip = span
	} else {
		l.Trip = p.ceildiv(span, st)
	}
	return l.Trip
}

// ivTerm is the value of an induction variable in the canonical iteration k of its loop.
func (a *Analysis) ivTerm(l *Loop, v *iv) *T {
	p := a.p
	init := a.at(v.init, l.Header)
	s := ivSteps[v]
	st := p.c(s.n)
	if s.i != nil {
		st = p.scale(a.at(s.i, l.Header), s.n)
	}
	k := p.k(l.ID)
	if l.Kind == "int" && l.Desc {
		t := a.TripOf(l)
		if t == nil {
			return p.app("iv", strconv.Itoa(v.phi.ID), k)
		}
		// canonical iterations are numbered against the running direction
		return p.add(init, p.mul(st, p.sub(p.sub(t, p.c(1)), k)))
	}
	return p.add(init, p.mul(st, k))
}

func (a *Analysis) loopByID(id int) *Loop {
	if id >= 1 && id <= len(a.loops) {
		return a.loops[id-1]
	}
	return nil
}

// ---- reachability ---------------------------------------------------------------

func (a *Analysis) reach(b *Block) map[*Block]bool {
	if r, ok := a.reachM[b]; ok {
		return r
	}
	r := map[*Block]bool{}
	st := append([]*Block{}, b.Succs...)
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if r[x] {
			continue
		}
		r[x] = true
		st = append(st, x.Succs...)
	}
	a.reachM[b] = r
	return r
}

// mayPrecede: x can be executed before y.
func (a *Analysis) mayPrecede(x, y *Ins) bool {
	if x.Blk == y.Blk && a.order[x] < a.order[y] {
		return true
	}
	return a.reach(x.Blk)[y.Blk]
}

// reachAvoid: control can go from just after x to y without executing the barrier block (or barrier instruction).
func (a *Analysis) reachAvoid(x, y *Ins, bar func(b *Block) bool, barI *Ins) bool {
	if x.Blk == y.Blk && a.order[x] < a.order[y] {
		if barI != nil && barI.Blk == x.Blk && a.order[x] < a.order[barI] && a.order[barI] < a.order[y] {
			// blocked within the block; only a trip around a loop remains
		} else {
			return true
		}
	}
	if barI != nil && barI.Blk == x.Blk && a.order[x] < a.order[barI] {
		return false // leaves through the barrier
	}
	seen := map[*Block]bool{}
	st := append([]*Block{}, x.Blk.Succs...)
	for len(st) > 0 {
		b := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[b] {
			continue
		}
		seen[b] = true
		if b == y.Blk {
			if barI == nil || barI.Blk != b || a.order[barI] > a.order[y] {
				if bar == nil || !bar(b) {
					return true
				}
			}
		}
		if bar != nil && bar(b) {
			continue
		}
		if barI != nil && barI.Blk == b {
			continue
		}
		st = append(st, b.Succs...)
	}
	return false
}

// ---- terms ----------------------------------------------------------------------

// at is the value of i seen from block b.
func (a *Analysis) at(i *Ins, b *Block) *T {
	t := a.term(i)
	if i.Blk == nil || b == nil {
		return t
	}
	switch i.Op {
	case OpConst, OpParam, OpGlobal, OpFunc:
		return t
	}
	for l := a.loopOf[i.Blk]; l != nil; l = l.Parent {
		if l.Blocks[b] {
			break
		}
		if !t.vars[l.ID] && !(t.op == "build" && atoi(t.aux) == l.ID) {
			continue
		}
		// value after the loop
		if i.Op == OpPhi && i.Blk == l.Header && len(l.Exits) == 1 && l.Main != nil && l.ivs[i] != nil {
			if tr := a.TripOf(l); tr != nil {
				s := ivSteps[l.ivs[i]]
				st := a.p.c(s.n)
				if s.i != nil {
					st = a.p.scale(a.at(s.i, l.Header), s.n)
				}
				t = a.p.add(a.at(l.ivs[i].init, l.Header), a.p.mul(st, tr))
				continue
			}
		}
		if t.op == "build" && atoi(t.aux) == l.ID && !a.earlyExit(l, b) {
			continue
		}
		t = a.p.app("last", strconv.Itoa(l.ID), t)
		// a value that leaves the loop no longer varies with it
		t = a.p.substLoops(t, map[int]*T{l.ID: a.p.app("kend", strconv.Itoa(l.ID))})
	}
	return t
}

// earlyExit: b can be reached from the loop other than by running it to its end.
func (a *Analysis) earlyExit(l *Loop, b *Block) bool {
	if l.Main == nil || !a.Dom(l.Header, b) {
		return true
	}
	for _, e := range l.Exits {
		if e.B == l.Main.B && e.K == l.Main.K {
			continue
		}
		if e.To() == b || a.reachNoLoop(e.To(), b, l) {
			return true
		}
	}
	return false
}

func (a *Analysis) kvars(b *Block) []*T {
	var r []*T
	for _, l := range a.loopsOf(b) {
		r = append([]*T{a.p.k(l.ID)}, r...)
	}
	return r
}

func (a *Analysis) op(i *Ins, k int) *T { return a.at(i.Args[k], i.Blk) }

func (a *Analysis) term(i *Ins) *T {
	if t, ok := a.terms[i]; ok {
		return t
	}
	if a.busy[i] {
		return a.p.app("rec", strconv.Itoa(i.ID), a.kvars(i.Blk)...)
	}
	a.busy[i] = true
	t := a.term1(i)
	delete(a.busy, i)
	a.terms[i] = t
	return t
}

func typeKey(t types.Type) string {
	if t == nil {
		return ""
	}
	return shortType(t)
}

func structName(t types.Type) string {
	if e := ptrElem(t); e != nil {
		t = e
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return "struct"
}

func fieldName(t types.Type, k int) string {
	if e := ptrElem(t); e != nil {
		t = e
	}
	if s, ok := t.Underlying().(*types.Struct); ok && k < s.NumFields() {
		return s.Field(k).Name()
	}
	return strconv.Itoa(k)
}

func (a *Analysis) obj(i *Ins) *T {
	id := strconv.Itoa(i.ID)
	a.insOf[id] = i
	return a.p.app("obj", id, a.kvars(i.Blk)...)
}

func (a *Analysis) term1(i *Ins) *T {
	p := a.p
	switch i.Op {
	case OpParam:
		return p.app("param", i.Name)
	case OpConst:
		if i.Val == nil {
			if isNillable(i.Typ) {
				return p.app("nil", "")
			}
			return p.app("zero", typeKey(i.Typ))
		}
		switch i.Val.Kind() {
		case constant.Int:
			if n, ok := constant.Int64Val(i.Val); ok {
				return p.c(n)
			}
			return p.app("big", i.Val.ExactString())
		case constant.Bool:
			return p.boolT(constant.BoolVal(i.Val))
		case constant.Float:
			if n, ok := constant.Int64Val(constant.ToInt(i.Val)); ok {
				return p.c(n)
			}
			return p.app("flt", i.Val.ExactString())
		case constant.String:
			return p.app("str", constant.StringVal(i.Val))
		}
		return p.app("const", i.Val.ExactString())
	case OpGlobal:
		return p.app("global", i.Glob.String())
	case OpFunc:
		if i.SFn == nil {
			return p.app("func", i.Name)
		}
		return p.app("func", fnName(i.SFn))
	case OpAlloc:
		return a.obj(i)
	case OpMakeSlice:
		t := a.obj(i)
		a.objLen[t.aux] = a.op(i, 0)
		return t
	case OpMakeMap, OpMakeChan:
		return a.obj(i)
	case OpClosure:
		var as []*T
		for k := range i.Args {
			as = append(as, a.op(i, k))
		}
		return p.app("closure", fnName(i.SFn), as...)
	case OpMakeIface:
		return a.op(i, 0)
	case OpTypeAssert:
		t := a.op(i, 0)
		if i.CommaOk {
			return p.app("assert2", typeKey(i.Typ), t)
		}
		return p.app("assert", typeKey(i.Typ), t)
	case OpTuple, OpAgg:
		var as []*T
		for k := range i.Args {
			as = append(as, a.op(i, k))
		}
		return p.app("tuple", "", as...)
	case OpExtract:
		t := a.op(i, 0)
		if t.op == "tuple" {
			return t.args[i.Idx]
		}
		if t.op == "assert2" && i.Idx == 0 {
			return p.app("assert", t.aux, t.args[0])
		}
		return p.app("x", strconv.Itoa(i.Idx), t)
	case OpField:
		x := i.Args[0]
		if x.Op == OpLoad {
			ad := p.app("fa", structName(x.Typ)+"."+fieldName(x.Typ, i.Idx), a.op(x, 0))
			return a.resolve(ad, x)
		}
		t := a.op(i, 0)
		if t.op == "tuple" && i.Idx < len(t.args) {
			return t.args[i.Idx]
		}
		return p.app("f", structName(x.Typ)+"."+fieldName(x.Typ, i.Idx), t)
	case OpFieldAddr:
		return p.app("fa", structName(i.Args[0].Typ)+"."+fieldName(i.Args[0].Typ, i.Idx), a.op(i, 0))
	case OpIndexAddr:
		return a.elemAddr(a.op(i, 0), a.op(i, 1))
	case OpIndex:
		if i.Args[0].Op == OpLoad {
			ad := a.elemAddr(a.op(i.Args[0], 0), a.op(i, 1))
			return a.resolve(ad, i.Args[0])
		}
		return p.app("idx", "", a.op(i, 0), a.op(i, 1))
	case OpLookup:
		if b, ok := i.Args[0].Typ.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return p.app("idx", "", a.op(i, 0), a.op(i, 1))
		}
		ad := p.app("mi", "", a.op(i, 0), a.op(i, 1))
		v := a.resolve(ad, i)
		if i.CommaOk {
			return p.app("tuple", "", v, p.app("has", strconv.Itoa(i.ID), a.op(i, 0), a.op(i, 1)))
		}
		return v
	case OpLoad:
		return a.resolve(a.op(i, 0), i)
	case OpSlice:
		return a.sliceTerm(i)
	case OpConvert:
		return a.convert(i)
	case OpUn:
		x := a.op(i, 0)
		switch i.Tok {
		case token.NOT:
			return p.not(x)
		case token.SUB:
			if isIntType(i.Typ) {
				return p.scale(x, -1)
			}
			return p.app("neg", "", x)
		case token.XOR:
			return p.app("~", typeKey(i.Typ), x)
		}
	case OpBin:
		return a.binTerm(i)
	case OpPhi:
		return a.phiTerm(i)
	case OpPure:
		if i.Name == "be" {
			var as []*T
			for k := range i.Args {
				as = append(as, a.op(i, k))
			}
			if v := undoBytes(as); v != nil {
				if len(as) < 4 {
					return p.mod(v, 1<<(8*len(as)))
				}
				return v
			}
		}
		if strings.HasPrefix(i.Name, "filled:") {
			c := i.Args[0]
			id := strconv.Itoa(c.ID)
			a.insOf[id] = c
			ks := a.kvars(c.Blk)
			return p.app("filled", strings.TrimPrefix(i.Name, "filled:")+"#"+id, append(append([]*T{a.callReader(c)}, ks...), a.op(i, 1))...)
		}
		if i.Name == "math.Ceil" {
			return a.ceil(i)
		}
		var as []*T
		for k := range i.Args {
			as = append(as, a.op(i, k))
		}
		if i.Name == "math.Pow" {
			x, ok := as[0].isC()
			y, ok2 := as[1].isC()
			if ok && ok2 && y >= 0 && y < 16 && x > 0 && x < 16 {
				n := int64(1)
				for ; y > 0; y-- {
					n *= x
				}
				return p.c(n)
			}
		}
		return p.app(i.Name, "", as...)
	case OpBuiltin:
		switch i.Name {
		case "len":
			return a.lenT(a.op(i, 0))
		case "append":
			return a.appendTerm(i)
		case "min", "max":
			var as []*T
			for k := range i.Args {
				as = append(as, a.op(i, k))
			}
			return a.minT(i.Name, as)
		}
		var as []*T
		for k := range i.Args {
			as = append(as, a.op(i, k))
		}
		id := strconv.Itoa(i.ID)
		a.insOf[id] = i
		return p.app("builtin", i.Name+"#"+id, as...)
	case OpCall:
		return a.callTerm(i)
	case OpRecv, OpSelect, OpNext, OpUnknown, OpRange:
		id := strconv.Itoa(i.ID)
		a.insOf[id] = i
		var as []*T
		for k := range i.Args {
			as = append(as, a.op(i, k))
		}
		if i.Op == OpNext && i.Args[0].Op == OpRange {
			l := a.loopOf[i.Blk]
			if l != nil && l.Over == i.Args[0].Args[0] {
				return p.app("next", strconv.Itoa(l.ID), a.at(l.Over, l.Header), p.k(l.ID))
			}
		}
		return p.app(opNames[i.Op], id, append(as, a.kvars(i.Blk)...)...)
	}
	id := strconv.Itoa(i.ID)
	a.insOf[id] = i
	return p.app("?"+opNames[i.Op], id, a.kvars(i.Blk)...)
}

// callReader is the reader argument of a buffer-filling call.
func (a *Analysis) callReader(c *Ins) *T {
	if c.Invoke {
		return a.op(c, 0)
	}
	if c.Method != nil && strings.HasPrefix(c.Method.FullName(), "io.") {
		return a.op(c, 1)
	}
	return a.p.app("os", "")
}

// joinedBytes: bytes shifted and put together are the number with these bytes.
func (a *Analysis) joinedBytes(i *Ins) *T {
	var bs [8]*T
	n := 0
	var walk func(v *Ins) bool
	walk = func(v *Ins) bool {
		if v.Op == OpBin && v.Tok == token.OR {
			return walk(v.Args[0]) && walk(v.Args[1])
		}
		s := int64(0)
		if v.Op == OpBin && v.Tok == token.SHL {
			c, ok := a.op(v, 1).isC()
			if !ok || c%8 != 0 || c > 56 {
				return false
			}
			v, s = v.Args[0], c/8
		}
		if b := basicOf(v.Typ); b != nil && b.Info()&types.IsUnsigned == 0 && intBits(v.Typ) <= 8*int(s)+8 {
			return false
		}
		if v.Op == OpConvert && intBits(v.Typ) > 8*int(s) {
			v = v.Args[0]
		} else if s > 0 {
			return false
		}
		if b, ok := v.Typ.Underlying().(*types.Basic); !ok || b.Kind() != types.Uint8 || bs[s] != nil {
			return false
		}
		bs[s] = a.term(v)
		n++
		return true
	}
	if !walk(i) || n != 2 && n != 4 && n != 8 {
		return nil
	}
	var as []*T
	for k := n - 1; k >= 0; k-- {
		if bs[k] == nil {
			return nil
		}
		as = append(as, bs[k])
	}
	if v := undoBytes(as); v != nil {
		if n < 4 {
			return a.p.mod(v, 1<<(8*n))
		}
		return v
	}
	return a.p.app("be", "", as...)
}

func undoBytes(as []*T) *T {
	// be(byteof(v,n-1), ..., byteof(v,0)) = v
	n := len(as)
	var v *T
	for k, x := range as {
		if x.op != "byteof" {
			return nil
		}
		if c, ok := x.args[1].isC(); !ok || int(c) != n-1-k {
			return nil
		}
		if v != nil && v != x.args[0] {
			return nil
		}
		v = x.args[0]
	}
	return v
}

// neverNeg: a sum of values that are not negative.
func neverNeg(t *T) bool {
	ts, co, c := parts(t)
	for k, x := range ts {
		if co[k] < 0 || !nonNegAtom(x) {
			return false
		}
	}
	return c >= 0
}

func (a *Analysis) minT(name string, as []*T) *T {
	// minimum of values that differ by constants
	p := a.p
	best := as[0]
	for _, x := range as[1:] {
		d, ok := p.sub(x, best).isC()
		if !ok && neverNeg(p.sub(x, best)) {
			d, ok = 1, true
		}
		if !ok && neverNeg(p.sub(best, x)) {
			d, ok = -1, true
		}
		if !ok {
			sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
			var out []*T
			for k, y := range as {
				if k == 0 || y != as[k-1] {
					out = append(out, y)
				}
			}
			return p.app(name, "", out...)
		}
		if (name == "min") == (d < 0) {
			best = x
		}
	}
	return best
}

func (a *Analysis) ceil(i *Ins) *T {
	p := a.p
	x := i.Args[0]
	if x.Op == OpBin && x.Tok == token.QUO {
		return p.ceildiv(a.op(x, 0), a.op(x, 1))
	}
	return p.app("math.Ceil", "", a.op(i, 0))
}

func basicOf(t types.Type) *types.Basic {
	if t == nil {
		return nil
	}
	b, _ := t.Underlying().(*types.Basic)
	return b
}

func intBits(t types.Type) int {
	b := basicOf(t)
	if b == nil {
		return 0
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.UntypedInt:
		return 64
	}
	return 0
}

func (a *Analysis) convert(i *Ins) *T {
	p := a.p
	x := a.op(i, 0)
	from, to := i.Args[0].Typ, i.Typ
	fb, tb := intBits(from), intBits(to)
	if fb > 0 && tb > 0 {
		if tb >= fb || tb >= 32 {
			return x
		}
		if n, ok := x.isC(); ok {
			return p.c(n & (1<<uint(tb) - 1))
		}
		if tb == 8 {
			// byte(v >> 8s) is byte s of v
			if x.op == "/" {
				if d, ok := x.args[1].isC(); ok {
					for s := 0; s < 8; s++ {
						if d == 1<<(8*uint(s)) {
							return p.app("byteof", "", x.args[0], p.c(int64(s)))
						}
					}
				}
			}
			return p.app("byteof", "", x, p.c(0))
		}
		return p.app("trunc", strconv.Itoa(tb), x)
	}
	if fb > 0 || tb > 0 { // int <-> float
		if basicOf(from) != nil && basicOf(to) != nil && basicOf(to).Info()&types.IsString == 0 {
			return x
		}
	}
	if b := basicOf(from); b != nil && basicOf(to) != nil && b.Info()&types.IsFloat != 0 {
		return x
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return x
	}
	return p.app("conv", typeKey(to), x)
}

func (a *Analysis) binTerm(i *Ins) *T {
	p := a.p
	x, y := a.op(i, 0), a.op(i, 1)
	num := isIntType(i.Args[0].Typ) && isIntType(i.Args[1].Typ)
	isF := false
	if b := basicOf(i.Args[0].Typ); b != nil && b.Info()&types.IsFloat != 0 {
		isF = true
	}
	uns := isUnsigned(i.Args[0].Typ)
	if !num && !isF {
		switch i.Tok {
		case token.EQL, token.NEQ:
			if y.id < x.id {
				x, y = y, x
			}
			t := p.app("==", "", x, y)
			if x == y {
				t = p.boolT(true)
			}
			if i.Tok == token.NEQ {
				return p.not(t)
			}
			return t
		case token.ADD:
			return p.app("concat", "", x, y)
		}
		return p.app(i.Tok.String(), "", x, y)
	}
	if isF {
		switch i.Tok {
		case token.ADD:
			return p.add(x, y)
		case token.SUB:
			return p.sub(x, y)
		case token.MUL:
			return p.mul(x, y)
		case token.EQL:
			return p.eq(x, y)
		case token.NEQ:
			return p.not(p.eq(x, y))
		}
		return p.app("f"+i.Tok.String(), "", x, y)
	}
	switch i.Tok {
	case token.ADD:
		return p.add(x, y)
	case token.SUB:
		return p.sub(x, y)
	case token.MUL:
		return p.mul(x, y)
	case token.QUO:
		return p.div(x, y)
	case token.REM:
		return p.rem(x, y)
	case token.XOR:
		if _, isBool := i.Typ.Underlying().(*types.Basic); isBool {
			return p.xor(x, y)
		}
		return p.xor(x, y)
	case token.AND:
		for k := 0; k < 2; k++ {
			if n, ok := y.isC(); ok && n > 0 && (n+1)&n == 0 {
				return p.rem(x, p.c(n+1))
			}
			x, y = y, x
		}
		return p.comm("&", x, y)
	case token.OR:
		if n, ok := x.isC(); ok && n == 0 {
			return y
		}
		if n, ok := y.isC(); ok && n == 0 {
			return x
		}
		if v := a.joinedBytes(i); v != nil {
			return v
		}
		return p.comm("|", x, y)
	case token.AND_NOT:
		return p.app("&^", "", x, y)
	case token.SHL:
		if n, ok := y.isC(); ok && n < 62 {
			return p.scale(x, 1<<uint(n))
		}
		return p.app("<<", "", x, y)
	case token.SHR:
		if n, ok := y.isC(); ok && n < 62 {
			return p.div(x, p.c(1<<uint(n)))
		}
		return p.app(">>", "", x, y)
	case token.EQL:
		return p.eq(x, y)
	case token.NEQ:
		return p.not(p.eq(x, y))
	}
	if uns && !lenLike(x) && !lenLike(y) {
		// order of unsigned values cannot be moved across the sign
		if n, ok := y.isC(); ok {
			if i.Tok == token.GTR && n == 0 || i.Tok == token.GEQ && n == 1 {
				return p.not(p.eq0(x))
			}
			if i.Tok == token.LSS && n == 1 || i.Tok == token.LEQ && n == 0 {
				return p.eq0(x)
			}
		}
		switch i.Tok {
		case token.LSS:
			return p.app("<u", "", x, y)
		case token.GTR:
			return p.app("<u", "", y, x)
		case token.LEQ:
			return p.not(p.app("<u", "", y, x))
		case token.GEQ:
			return p.not(p.app("<u", "", x, y))
		}
	}
	switch i.Tok {
	case token.LSS:
		return p.lt0(p.sub(x, y))
	case token.GTR:
		return p.lt0(p.sub(y, x))
	case token.LEQ:
		return p.lt0(p.sub(p.sub(x, y), p.c(1)))
	case token.GEQ:
		return p.lt0(p.sub(p.sub(y, x), p.c(1)))
	}
	return p.app(i.Tok.String(), "", x, y)
}

func lenLike(t *T) bool { return t.op == "len" }

func (a *Analysis) callTerm(i *Ins) *T {
	p := a.p
	if t := a.groupCall(i); t != nil {
		return t
	}
	id := strconv.Itoa(i.ID)
	a.insOf[id] = i
	var as []*T
	from := 1
	if i.Invoke {
		from = 0
	}
	for k := from; k < len(i.Args); k++ {
		as = append(as, a.op(i, k))
	}
	name := "dyn"
	if i.Method != nil {
		name = i.Method.FullName()
	} else if len(i.Args) > 0 && i.Args[0].SFn != nil {
		name = fnName(i.Args[0].SFn)
	} else if !i.Invoke && len(i.Args) > 0 {
		as = append([]*T{a.op(i, 0)}, as...)
	}
	if pureCalls[name] || isPureMethod(name) {
		return p.app("call", name, as...)
	}
	return p.app("call", name+"#"+id, append(as, a.kvars(i.Blk)...)...)
}

// callName strips the instance of a call term.
func callName(t *T) string {
	if t.op != "call" {
		return ""
	}
	if k := strings.IndexByte(t.aux, '#'); k >= 0 {
		return t.aux[:k]
	}
	return t.aux
}

func callID(t *T) string {
	if k := strings.LastIndexByte(t.aux, '#'); k >= 0 {
		return t.aux[k+1:]
	}
	return ""
}

// isPureMethod: arithmetic on values of the 128-bit integer package.
func isPureMethod(name string) bool {
	return strings.HasPrefix(name, "(lukechampine.com/uint128.Uint128).") && name != "(lukechampine.com/uint128.Uint128).PutBytes" ||
		name == "lukechampine.com/uint128.From64" || name == "lukechampine.com/uint128.New"
}

var pureCalls = map[string]bool{
	"strings.HasPrefix": true, "strings.HasSuffix": true, "strings.Contains": true, "strings.ToLower": true, "strings.TrimSpace": true, "strings.Split": true,
	"reflect.DeepEqual": true, "bytes.Equal": true, "strings.EqualFold": true, "strconv.Itoa": true,
	"(time.Time).UTC": true, "(time.Time).Year": true, "(time.Time).Month": true, "(time.Time).MarshalBinary": true, "(time.Time).Truncate": true,
	"strings.LastIndex": true, "strings.Index": true, "net/mail.ParseAddress": true,
}

func (a *Analysis) lenT(t *T) *T {
	p := a.p
	switch t.op {
	case "sl":
		return t.args[2]
	case "ite":
		if len(t.args) == 3 && t.args[0].op != "rec" {
			if x, y := a.lenT(t.args[1]), a.lenT(t.args[2]); x == y {
				return x
			}
		}
	case "ld":
		if g := t.args[0]; g.op == "global" {
			if n, ok := a.f.P.globalLen(g.aux); ok {
				return p.c(n)
			}
		}
	case "builtin":
		if strings.HasPrefix(t.aux, "Slice") && len(t.args) == 2 {
			return t.args[1]
		}
	case "obj":
		if n, ok := a.objLen[t.aux]; ok {
			// the length may depend on the loops the object was made in
			if i := a.insOf[t.aux]; i != nil && len(t.args) > 0 && len(n.vars) > 0 {
				m := map[int]*T{}
				for k, v := range a.kvars(i.Blk) {
					if k < len(t.args) && v != t.args[k] {
						m[atoi(v.aux)] = t.args[k]
					}
				}
				if len(m) > 0 {
					return p.substLoops(n, m)
				}
			}
			return n
		}
		if i := a.insOf[t.aux]; i != nil && i.Op == OpAlloc {
			if e := ptrElem(i.Typ); e != nil {
				if at, ok := e.Underlying().(*types.Array); ok {
					return p.c(at.Len())
				}
			}
		}
	case "str":
		return p.c(int64(len(t.aux)))
	case "nil":
		return p.c(0)
	case "cat":
		return p.add(a.lenT(t.args[0]), a.lenT(t.args[1]))
	case "one":
		return p.c(int64(len(t.args)))
	case "build":
		l := a.loopByID(atoi(t.aux))
		if tr := a.TripOf(l); tr != nil {
			return p.add(a.lenT(t.args[0]), p.mul(tr, a.lenT(t.args[1])))
		}
	case "conv":
		if t.aux == "[]byte" || t.aux == "string" {
			return a.lenT(t.args[0])
		}
	}
	return p.app("len", "", t)
}

func atoi(s string) int {
	n, _ := strconv.Atoi(s)
	return n
}

func (a *Analysis) sliceTerm(i *Ins) *T {
	p := a.p
	x := a.op(i, 0)
	base, off := x, p.c(0)
	var ln *T
	if x.op == "sl" {
		base, off = x.args[0], x.args[1]
	}
	lo := p.c(0)
	if !i.Args[1].isNilArg() {
		lo = a.op(i, 1)
	}
	if !i.Args[2].isNilArg() {
		ln = p.sub(a.op(i, 2), lo)
	} else {
		if e := ptrElem(i.Args[0].Typ); e != nil {
			if at, ok := e.Underlying().(*types.Array); ok {
				ln = p.sub(p.c(at.Len()), lo)
			}
		}
		if ln == nil {
			ln = p.sub(a.lenT(x), lo)
		}
	}
	if n, ok := lo.isC(); ok && n == 0 && x.op != "sl" && ln == a.lenT(x) {
		return x
	}
	return p.app("sl", "", base, p.add(off, lo), ln)
}

func (i *Ins) isNilArg() bool {
	return i == nil || (i.Op == OpConst && i.Val == nil)
}

func (a *Analysis) elemAddr(s, idx *T) *T {
	if s.op == "sl" {
		return a.p.app("ia", "", s.args[0], a.p.add(s.args[1], idx))
	}
	return a.p.app("ia", "", s, idx)
}

func (a *Analysis) appendTerm(i *Ins) *T {
	p := a.p
	if len(i.Args) == 1 {
		return a.op(i, 0)
	}
	x, y := a.op(i, 0), a.op(i, 1)
	// append(s, v1, ..., vn): the second argument is a fresh array
	if y.op == "sl" || y.op == "obj" {
		base := y
		if y.op == "sl" {
			base = y.args[0]
		}
		if base.op == "obj" {
			if n, ok := a.lenT(y).isC(); ok && n <= 8 {
				if o := a.insOf[base.aux]; o != nil && o.Op == OpAlloc && (o.Name == "varargs" || o.Name == "slicelit") {
					var vs []*T
					for k := int64(0); k < n; k++ {
						vs = append(vs, a.resolve(a.elemAddr(y, p.c(k)), i))
					}
					y = p.app("one", "", vs...)
				}
			}
		}
	}
	if n, ok := a.lenT(x).isC(); ok && n == 0 && y.op == "one" {
		return y
	}
	if n, ok := a.lenT(x).isC(); ok && n == 0 {
		x = p.app("nil", "")
	}
	if x.op == "one" && y.op == "one" {
		return p.app("one", "", append(append([]*T{}, x.args...), y.args...)...)
	}
	return p.app("cat", "", x, y)
}

func (a *Analysis) phiTerm(i *Ins) *T {
	p := a.p
	b := i.Blk
	id := strconv.Itoa(i.ID)
	a.insOf[id] = i
	l := a.byHead[b]
	if l != nil {
		if v, ok := l.ivs[i]; ok {
			return a.ivTerm(l, v)
		}
		// slice built by append in every iteration
		if _, ok := i.Typ.Underlying().(*types.Slice); ok {
			var init, step *Ins
			ok := true
			for k, q := range b.Preds {
				if l.Blocks[q] {
					if step != nil && step != i.Args[k] {
						ok = false
					}
					step = i.Args[k]
				} else {
					if init != nil && init != i.Args[k] {
						ok = false
					}
					init = i.Args[k]
				}
			}
			if ok && step != nil && init != nil && step.Op == OpBuiltin && step.Name == "append" && step.Args[0] == i && len(l.Exits) >= 1 && l.Main != nil && a.everyIter(step.Blk, l) {
				// value of the phi at iteration k is not needed; users see the finished list
				y := a.op(step, 1)
				st := a.appendPiece(step, y)
				if a.lenIndependent(st) {
					it := a.at(init, b)
					if n, ok := a.lenT(it).isC(); ok && n == 0 {
						it = p.app("nil", "")
					}
					return p.app("build", strconv.Itoa(l.ID), it, st)
				}
			}
		}
		// accumulators: phi = op(phi, x)
		if t := a.accTerm(i, l); t != nil {
			return t
		}
		return p.app("phi", id, a.kvars(b)...)
	}
	// merge of equal values
	var vals []*T
	same := true
	for _, x := range i.Args {
		v := a.at(x, b)
		if len(vals) > 0 && v != vals[0] {
			same = false
		}
		vals = append(vals, v)
	}
	if same {
		return vals[0]
	}
	// two-way decision right above the merge
	if c, x, y := a.diamond(i); c != nil {
		cond := a.at(c, c.Blk)
		// min/max idioms
		if t := a.minIdiom(cond, a.at(x, b), a.at(y, b)); t != nil {
			return t
		}
		return p.ite(cond, a.at(x, b), a.at(y, b))
	}
	var as []*T
	as = append(as, vals...)
	return p.app("phi", id, as...)
}

func (a *Analysis) minIdiom(c, x, y *T) *T {
	// cond: u - v < 0 (or <= ); value x if true else y
	p := a.p
	if c.op != "<0" {
		return nil
	}
	d := c.args[0]
	e := p.sub(x, y)
	for _, k := range []int64{0, -1} {
		if p.sub(d, p.c(k)) == e { // x - y + k < 0 ? x : y
			return a.minT("min", []*T{x, y})
		}
	}
	ne := p.sub(y, x)
	for _, k := range []int64{0, -1} {
		if p.sub(d, p.c(k)) == ne { // y - x < 0 ? x : y
			return a.minT("max", []*T{x, y})
		}
	}
	return nil
}

// lenIndependent: the appended piece has a length that does not vary between iterations.
func (a *Analysis) lenIndependent(y *T) bool {
	_, ok := a.lenT(y).isC()
	return ok
}

func (a *Analysis) appendPiece(i *Ins, y *T) *T {
	p := a.p
	base := y
	if y.op == "sl" {
		base = y.args[0]
	}
	if base.op == "obj" {
		if n, ok := a.lenT(y).isC(); ok && n <= 8 {
			var vs []*T
			for k := int64(0); k < n; k++ {
				vs = append(vs, a.resolve(a.elemAddr(y, p.c(k)), i))
			}
			return p.app("one", "", vs...)
		}
	}
	return y
}

// everyIter: b is executed in every complete iteration of l.
func (a *Analysis) everyIter(b *Block, l *Loop) bool {
	for _, t := range l.Latches {
		if !a.Dom(b, t) {
			return false
		}
	}
	return a.loopOf[b] == l
}

// diamond: phi with two values selected by one condition; returns it with the value for true and false.
func (a *Analysis) diamond(i *Ins) (*Ins, *Ins, *Ins) {
	b := i.Blk
	if len(i.Args) != 2 {
		return nil, nil, nil
	}
	d := a.dom[b]
	if d == nil || d.Term != TIf || d.Cond == nil {
		return nil, nil, nil
	}
	side := func(k int) int { // which successor of d leads to pred k
		pr := b.Preds[k]
		if pr == d {
			if d.Succs[0] == b && d.Succs[1] == b {
				return -1
			}
			if d.Succs[0] == b {
				return 0
			}
			return 1
		}
		for s := 0; s < 2; s++ {
			if d.Succs[s] != b && len(d.Succs[s].Preds) == 1 && a.Dom(d.Succs[s], pr) {
				return s
			}
		}
		return -1
	}
	s0, s1 := side(0), side(1)
	if s0 < 0 || s1 < 0 || s0 == s1 {
		return nil, nil, nil
	}
	if s0 == 0 {
		return d.Cond, i.Args[0], i.Args[1]
	}
	return d.Cond, i.Args[1], i.Args[0]
}

// accTerm recognises phi = phi + x, phi ^ x (also modulo), executed in every iteration.
func (a *Analysis) accTerm(i *Ins, l *Loop) *T {
	return nil
}
