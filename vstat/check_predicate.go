package main

// C04: the bits a client queries for and the bits a server derives from a record.

import (
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C04"] = checkC04
	assumptions["C04"] = []string{"the standard library's time and blake2b functions are functions of their arguments", "lengths fit in 63 bits"}
}

const toBits = "lib/utils.ByteToBits"

// encoder derives the bits that a program gives away under an assumption.
type encoder struct {
	a     *Analysis
	to    map[*T]*T // the inputs of the program: email, time, algorithm, fields of the query
	asm   map[*T]*T // the assumption on them
	alive map[*Block]bool
	from  map[*T]*Ins // the branch a value comes from
}

func (e *encoder) norm(t *T) *T { return e.a.p.subst(e.a.p.subst(t, e.to), e.asm) }

// dead: the assumption contradicts the condition of the edge.
func (e *encoder) dead(x Edge) bool {
	for _, l := range e.a.lits(x) {
		if n := e.norm(l); n.op == "false" || !e.a.countsOut(x, l) && e.a.never(n) {
			return true
		}
	}
	return false
}

func (e *encoder) reach() {
	e.alive = map[*Block]bool{e.a.f.Entry: true}
	e.from = map[*T]*Ins{}
	work := []*Block{e.a.f.Entry}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		for k, s := range b.Succs {
			if !e.alive[s] && !e.dead(Edge{b, k}) {
				e.alive[s] = true
				work = append(work, s)
			}
		}
	}
}

// options: the values a term may have, choices between branches resolved.
func (e *encoder) options(t *T, depth int) []*T {
	a := e.a
	if depth > 40 {
		panic(unresolved("a value is made in too many steps: " + short(t)))
	}
	if t.op == "phi" {
		ph := a.insByID(t.aux)
		if ph == nil || a.loopOf[ph.Blk] != nil && a.loopOf[ph.Blk].Header == ph.Blk {
			return []*T{t}
		}
		var r []*T
		for q, b := range ph.Blk.Preds {
			if !e.alive[b] {
				continue
			}
			ok := false
			for k, s := range b.Succs {
				ok = ok || s == ph.Blk && !e.dead(Edge{b, k})
			}
			if !ok {
				continue
			}
			for _, x := range e.options(a.at(ph.Args[q], b), depth+1) {
				if e.from[x] == nil {
					e.from[x] = a.endOf(b)
				}
				if !contains(r, x) {
					r = append(r, x)
				}
			}
		}
		return r
	}
	if t.op == "ite" && len(t.args) == 3 {
		c := e.norm(t.args[0])
		var r []*T
		if c.op != "false" && !a.never(c) {
			r = append(r, e.options(t.args[1], depth+1)...)
		}
		if n := a.p.not(c); n.op != "false" && !a.never(n) {
			r = append(r, e.options(t.args[2], depth+1)...)
		}
		return r
	}
	if !hasChoice(t) || t.op == "build" {
		return []*T{t}
	}
	sets := [][]*T{nil}
	for _, x := range t.args {
		var next [][]*T
		for _, y := range e.options(x, depth+1) {
			for _, s := range sets {
				next = append(next, append(append([]*T{}, s...), y))
			}
		}
		sets = next
		if len(sets) > 64 {
			panic(unresolved("a value has too many alternatives: " + short(t)))
		}
	}
	var r []*T
	for _, s := range sets {
		r = append(r, a.p.withArgs(t, s))
	}
	return r
}

func hasChoice(t *T) bool {
	r := false
	walkT(t, func(x *T) bool {
		if x.op == "phi" || x.op == "ite" {
			r = true
		}
		return !r
	})
	return r
}

// withArgs: the term with other arguments.
func (p *Pool) withArgs(t *T, args []*T) *T {
	same := true
	m := map[*T]*T{}
	for k, x := range t.args {
		if args[k] != x {
			same = false
			m[x] = args[k]
		}
	}
	if same {
		return t
	}
	if t.op == "+" || t.op == "*" {
		return p.subst(t, m)
	}
	return p.app(t.op, t.aux, args...)
}

// plain: the term without the marks of the call sites.
func (e *encoder) plain(t *T) string {
	a := e.a
	memo := map[*T]*T{}
	var rec func(t *T) *T
	rec = func(t *T) *T {
		if r, ok := memo[t]; ok {
			return r
		}
		r := t
		if len(t.args) > 0 {
			args := make([]*T, len(t.args))
			for k, x := range t.args {
				args[k] = rec(x)
			}
			r = a.p.withArgs(t, args)
			if t.op == "call" && callID(t) != "" {
				if i := a.insOf[callID(t)]; i != nil && nargs(i) <= len(args) && strings.IndexByte(callName(t), '[') < 0 {
					r = a.p.app("call", callName(t), args[:nargs(i)]...)
				}
			}
		}
		memo[t] = r
		return r
	}
	return rec(e.norm(t)).String()
}

// bits: the pieces of a list of bits.
func (e *encoder) bits(t *T, at *Ins) []string {
	var r []string
	for _, x := range flattenCat(t, nil) {
		if n, ok := e.a.lenT(x).isC(); ok && n == 0 || x.op == "nil" {
			continue
		}
		if hasSuffix(callName(x), toBits) {
			if i := e.a.insOf[callID(x)]; i != nil {
				for _, y := range e.bytes(x.args[0], i) {
					r = append(r, "bits("+y+")")
				}
				continue
			}
		}
		r = append(r, "raw "+e.plain(x))
	}
	return r
}

// bytes: the pieces of a list of bytes.
func (e *encoder) bytes(t *T, at *Ins) []string {
	a, p := e.a, e.a.p
	var r []string
	for _, x := range flattenCat(t, nil) {
		if x.op == "nil" {
			continue
		}
		at := at
		if i := e.from[x]; i != nil {
			at = i
		}
		off, n, s := p.c(0), a.lenT(x), x
	strip:
		for {
			switch {
			case s.op == "sl":
				off, s = p.add(off, s.args[1]), s.args[0]
			case strings.HasPrefix(s.op, "conv") || s.op == "conv":
				s = s.args[0]
			default:
				break strip
			}
		}
		if s.op == "obj" {
			// an array that holds a value as a whole
			if y := a.resolve(s, at); y.op == "call" {
				s = y
			}
		}
		if n, ok := a.lenT(x).isC(); ok && n <= 64 && s.op != "call" {
			for k := int64(0); k < n; k++ {
				r = append(r, e.plain(a.elemAt(x, p.c(k), at)))
			}
			continue
		}
		r = append(r, e.plain(s)+"["+e.norm(off).String()+":+"+e.norm(n).String()+"]")
	}
	return r
}

func (e *encoder) encodings(t *T, at *Ins) []string {
	set := map[string]bool{}
	for _, x := range e.options(t, 0) {
		set[strings.Join(e.bits(x, at), " ")] = true
	}
	var r []string
	for s := range set {
		r = append(r, s)
	}
	sort.Strings(r)
	return r
}

// part of the identifier that is selected
type partMode struct {
	name  string
	start bool
	end   bool
	short int // 1: shorter than the prefix asked for, 2: than the suffix
}

var partModes = []partMode{{"exact", false, false, 0}, {"prefix", true, false, 0}, {"suffix", false, true, 0}, {"prefix of a shorter identifier", true, false, 1}, {"suffix of a shorter identifier", false, true, 2}}

func (m partMode) assume(p *Pool) map[*T]*T {
	sym := func(s string) *T { return p.app("len", "", p.app("param", "#"+s)) }
	asm := map[*T]*T{}
	one := func(on bool, name string) *T {
		t := p.c(0)
		if on {
			t = p.add(sym(name), p.c(1))
		}
		asm[p.app("param", "#"+name)] = t
		return t
	}
	fs, fe := one(m.start, "FromStart"), one(m.end, "FromEnd")
	n := p.app("len", "", p.app("param", "#email"))
	switch {
	case m.short == 1:
		asm[p.app("param", "#FromStart")] = p.add(n, p.add(sym("more"), p.c(1)))
	case m.short == 2:
		asm[p.app("param", "#FromEnd")] = p.add(n, p.add(sym("more"), p.c(1)))
	case m.start || m.end:
		asm[n] = p.add(p.add(fs, fe), sym("rest"))
	}
	return asm
}

type kindMode struct {
	name          string
	ctor          string // name of the method of query.Info
	target        string // constant, "" when it does not matter
	and, avg, sum bool
	parts         bool // the selection of a part of the identifier applies
}

var kindModes = []kindMode{
	{"email", "ToEmailClientFSS", "UserId", false, false, false, true},
	{"algorithm", "ToPKAClientFSS", "PubKeyAlgo", false, false, false, false},
	{"creation time", "ToCreationTimeClientFSS", "CreationTime", false, false, false, false},
	{"conjunction", "ToAndClientFSS", "", true, false, false, true},
	{"average", "ToAvgClientFSS", "", true, true, false, true},
}

func (m kindMode) assume(p *Pool, pr *Program, asm map[*T]*T) {
	asm[p.app("param", "#And")] = p.boolT(m.and)
	asm[p.app("param", "#Avg")] = p.boolT(m.avg)
	asm[p.app("param", "#Sum")] = p.boolT(m.sum)
	if m.target != "" {
		asm[p.app("param", "#Target")] = p.c(pr.pkgConst("lib/query", m.target).Int64())
	}
}

var queryFields = []string{"FromStart", "FromEnd", "And", "Avg", "Sum", "Target"}

// inputs gives the names to the terms for the inputs of the program.
func (a *Analysis) inputs(isInfo func(base *T) bool, isEmail, isTime, isAlgo func(t *T) bool) map[*T]*T {
	to := map[*T]*T{}
	seen := map[*T]bool{}
	visit := func(t *T) {
		walkT(t, func(x *T) bool {
			if seen[x] {
				return false
			}
			seen[x] = true
			switch {
			case isEmail(x):
				to[x] = a.p.app("param", "#email")
			case isTime(x):
				to[x] = a.p.app("param", "#time")
			case isAlgo(x):
				to[x] = a.p.app("param", "#algo")
			case (x.op == "ld" || x.op == "mem") && x.args[0].op == "fa" && strings.HasPrefix(x.args[0].aux, "Info.") && isInfo(x.args[0].args[0]):
				f := strings.TrimPrefix(x.args[0].aux, "Info.")
				for _, q := range queryFields {
					if f == q {
						to[x] = a.p.app("param", "#"+f)
					}
				}
			}
			return true
		})
	}
	for _, b := range a.rpo {
		if b.Cond != nil {
			visit(a.at(b.Cond, b))
		}
		for _, i := range b.Ins {
			visit(a.term(i))
			if i.Op == OpCall {
				for k := 0; k < nargs(i); k++ {
					visit(a.arg(i, k))
				}
			}
		}
		for _, x := range b.Rets {
			visit(a.at(x, b))
		}
	}
	for _, s := range a.stores {
		if s.i.Op == OpStore {
			visit(a.StoreVal(s))
		}
	}
	return to
}

func cutS(s string) string {
	if len(s) > 300 {
		s = s[:300] + "…"
	}
	return s
}

func none(t *T) bool { return false }

func checkC04(r *Run) {
	same := r.rule("same-encoding", "for every kind of predicate the bits of the client are the bits the server evaluates the key on for a record with the queried value")
	few := r.rule("too-short", "a record that is shorter than the prefix or suffix asked for never reaches the evaluation of the key")
	zone := r.rule("time-zone", "times are compared in one time zone")
	alg := r.rule("algorithm", "each algorithm name stands for the algorithm of that name")
	inj := r.rule("bits", "the conversion to bits gives 8 bits for each byte, each bit of it once")
	snt := r.rule("query-sent", "a server gets the parameters the client's bits were made with, and a key made from these bits")
	sit := r.rule("call-site", "every program that makes a predicate query sets the parameters with which servers derive the same kind of bits")
	client := map[string]map[string][]string{}
	for _, k := range kindModes {
		k := k
		r.part(k.ctor, func() { client[k.name] = r.clientBits(k, same, alg, snt) })
	}
	for _, s := range []string{"zzverif.S_ServerPredicateAPIR", "zzverif.S_ServerPredicatePIR", "zzverif.S_ServerPredicateAPIRBytes", "zzverif.S_ServerPredicatePIRBytes"} {
		s := s
		r.part(s, func() { r.serverBits(s, client, same, few, zone) })
	}
	r.part("bits", func() { r.bitConversion(inj) })
	for _, s := range []string{"zzverif.S_PredicateAPIRQuery", "zzverif.S_PredicatePIRQuery"} {
		s := s
		r.part(s, func() { r.queryParts(s, snt) })
	}
	r.querySites(sit)
}

// clientBits: for each part mode, the encodings the client gives away.
func (r *Run) clientBits(k kindMode, same, alg, snt string) map[string][]string {
	a := r.flat("lib/query.Info."+k.ctor, toBits)
	p := a.p
	in, info := p.app("param", a.paramName(1)), p.app("param", a.paramName(0))
	to := a.inputs(func(b *T) bool { return b == info }, func(t *T) bool { return k.parts && t == in }, func(t *T) bool { return callName(t) == "time.Date" }, none)
	res := map[string][]string{}
	run := func(asm map[*T]*T, name string) []string {
		k.assume(p, a.f.P, asm)
		e := &encoder{a: a, to: to, asm: asm}
		e.reach()
		set := map[string]bool{}
		for _, x := range a.accepts() {
			if !e.alive[x.b] || x.vals[0].op == "nil" {
				continue
			}
			end := a.endOf(x.b)
			for _, v := range e.options(x.vals[0], 0) {
				r.ob(snt, k.ctor+" parameters", a.f.whereB(x.b), a.fieldAt(v, "ClientFSS.Info", end) == info, "the query is sent with other parameters")
				for _, s := range e.encodings(a.fieldAt(v, "ClientFSS.Input", end), end) {
					set[s] = true
				}
			}
		}
		var ss []string
		for s := range set {
			ss = append(ss, s)
		}
		sort.Strings(ss)
		return ss
	}
	if k.name == "algorithm" {
		// one constant for each name
		names := map[string]bool{}
		for _, b := range a.rpo {
			for n := range b.Succs {
				for _, l := range a.lits(Edge{b, n}) {
					if s, _, ok := strCmp(l, in); ok {
						names[s] = true
					}
				}
			}
		}
		delete(names, "")
		r.ob(alg, "names", p0(a), len(names) > 0, "no algorithm name is recognised")
		for s := range names {
			asm := partModes[0].assume(p)
			for _, b := range a.rpo {
				for n := range b.Succs {
					for _, l := range a.lits(Edge{b, n}) {
						if c, eq, ok := strCmp(l, in); ok {
							asm[l] = p.boolT((c == s) == eq)
							asm[p.not(l)] = p.boolT((c == s) != eq)
						}
					}
				}
			}
			want := a.f.P.algorithm(s)
			got := run(asm, s)
			r.ob(alg, s, p0(a), want != "" && len(got) == 1 && got[0] == "bits("+want+")", "algorithm %s is encoded as %s, not as %s", s, strings.Join(got, " or "), want)
		}
		res["exact"] = []string{"bits(param[#algo])"}
		return res
	}
	for _, m := range partModes {
		if m.short != 0 || !k.parts && m.name != "exact" {
			continue
		}
		res[m.name] = run(m.assume(p), m.name)
		r.ob(same, k.ctor+" "+m.name, p0(a), len(res[m.name]) == 1 && res[m.name][0] != "", "the client's bits are %s", strings.Join(res[m.name], " or "))
	}
	return res
}

func p0(a *Analysis) string { return a.f.P.relPos(a.f.Root.Pos()) }

// algorithm: the number of the public key algorithm with the name.
func (p *Program) algorithm(name string) string {
	sp := p.SPkg[modPath+"/lib/query"]
	for _, i := range sp.Pkg.Imports() {
		if strings.HasSuffix(i.Path(), "openpgp/packet") {
			if c, ok := i.Scope().Lookup("PubKeyAlgo" + name).(*types.Const); ok {
				n, _ := constant.Int64Val(constant.ToInt(c.Val()))
				return strconv.FormatInt(n, 10)
			}
		}
	}
	return ""
}

func (r *Run) serverBits(s string, client map[string]map[string][]string, same, few, zone string) {
	a := r.flat(s, toBits, "lib/fss.Fss.EvaluatePF")
	p := a.p
	name := s[8:]
	var calls []*Ins
	for _, b := range a.rpo {
		for _, i := range b.Ins {
			if i.Op == OpCall && strings.HasSuffix(a.callee(i), "lib/fss.Fss).EvaluatePF") {
				calls = append(calls, i)
			}
		}
	}
	q := p.app("param", "q")
	isInfo := func(b *T) bool {
		if !isFieldLoad(b, "FSS.Info") {
			return false
		}
		x := b.args[0].args[0]
		return x == q || x.op == "mem" && !containsTerm(x, p.app("param", "db")) // decoded
	}
	keys := p.app("ld", "", p.app("fa", "DB.KeysInfo", p.app("param", "db")))
	// record: the loop whose current record the pointer leads to
	record := func(t *T) *Loop {
		if t == nil || t.op != "ld" || t.args[0].op != "ia" || t.args[0].args[0] != keys || t.args[0].args[1].op != "k" {
			return nil
		}
		return a.loopByID(atoi(t.args[0].args[1].aux))
	}
	for _, k := range kindModes {
		for _, m := range partModes {
			if !k.parts && m.name != "exact" {
				continue
			}
			reached := false
			for _, c := range calls {
				cur := func(t *T) bool {
					l := record(t)
					return l != nil && l.Blocks[c.Blk] && a.innermost(c.Blk) == l
				}
				to := a.inputs(isInfo, func(t *T) bool {
					u := fieldLoadOf(t, "UserId.Email")
					return u != nil && cur(fieldLoadOf(u, "KeyInfo.UserId"))
				}, func(t *T) bool { return cur(fieldLoadOf(t, "KeyInfo.CreationTime")) }, func(t *T) bool { return cur(fieldLoadOf(t, "KeyInfo.PubKeyAlgo")) })
				asm := m.assume(p)
				k.assume(p, a.f.P, asm)
				e := &encoder{a: a, to: to, asm: asm}
				e.reach()
				w := a.f.where(c)
				if m.short != 0 {
					if !e.alive[c.Blk] {
						r.ob(few, name+" "+k.name+" "+m.name, w, true, "")
						continue
					}
					path, ok := a.mustPass(e.dead, func(s *pst) bool { return s.b == c.Blk })
					r.ob(few, name+" "+k.name+" "+m.name, w, ok, "the key is evaluated on the %s: %s", m.name, a.pathString(path))
					continue
				}
				if !e.alive[c.Blk] {
					continue
				}
				reached = true
				want := client[k.name][m.name]
				got := e.encodings(a.arg(c, 3), c)
				if k.name == "creation time" || k.name == "conjunction" {
					ok := true
					for _, g := range append(append([]string{}, got...), want...) {
						for _, f := range []string{"UTC", "Unix", "UnixNano", "UnixMilli", "UnixMicro"} {
							g = strings.ReplaceAll(g, "call[(time.Time)."+f+"](param[#time])", "")
						}
						ok = ok && !strings.Contains(g, "param[#time]")
					}
					r.ob(zone, name+" "+k.name+" "+m.name, w, ok, "the bits depend on the time zone of the record: %s", cutS(strings.Join(got, " or ")))
				}
				r.ob(same, name+" "+k.name+" "+m.name, w, len(got) == 1 && len(want) == 1 && got[0] == want[0], "the server evaluates the key on %s, the client's bits are %s", cutS(strings.Join(got, " or ")), cutS(strings.Join(want, " or ")))
			}
			if m.short == 0 {
				r.ob(same, name+" "+k.name+" "+m.name+" reached", p0(a), reached, "the key is not evaluated for any record")
			}
		}
	}
}

// bitConversion: bit by bit.
func (r *Run) bitConversion(rule string) {
	a := r.flat(toBits)
	p := a.p
	in := p.app("param", a.paramName(0))
	n := 0
	for _, e := range a.accepts() {
		v := e.vals[0]
		if v.op == "nil" {
			continue
		}
		n++
		w := a.f.whereB(e.b)
		if st := a.streamOf(v, a.endOf(e.b)); len(st.loops) == 2 && !st.bytes {
			// appended bit by bit
			o, l := st.loops[0], st.loops[1]
			r.ob(rule, "length", w, a.TripOf(o) == p.app("len", "", in) && a.isC(a.TripOf(l), 8), "not 8 bits for each byte")
			base, k, why := a.bitOfByte(st.leaf)
			kl := p.k(l.ID)
			ok := why == "" && base == p.app("ld", "", p.app("ia", "", in, p.k(o.ID))) && (k == kl || k == p.sub(p.c(7), kl))
			r.ob(rule, "value", w, ok, "bit j of byte i is %s", short(st.leaf))
			continue
		}
		r.ob(rule, "length", w, a.lenT(v) == p.scale(p.app("len", "", in), 8), "%s bits are returned", short(a.lenT(v)))
		i, j := p.app("param", "#i"), p.app("param", "#j")
		var x *T
		a.assuming(map[*T]*T{i: p.app("len", "", in), j: p.c(8)}, func() {
			x = a.elemAt(v, p.add(p.scale(i, 8), j), a.endOf(e.b))
		})
		base, k, why := a.bitOfByte(x)
		ok := why == "" && base == p.app("ld", "", p.app("ia", "", in, i)) && (k == j || k == p.sub(p.c(7), j))
		if why == "" && !ok {
			why = "bit " + short(k) + " of " + short(base)
		}
		r.ob(rule, "value", w, ok, "bit 8·i+j is %s", why)
	}
	r.ob(rule, "reached", p0(a), n > 0, "nothing is returned")
}

// bitOfByte: t is true exactly if bit k (0: the lowest) of the byte is set.
func (a *Analysis) bitOfByte(t *T) (base, k *T, why string) {
	p := a.p
	neg := false
	if t.op == "ite" && len(t.args) == 3 && t.args[1].op == "true" && t.args[2].op == "false" {
		t = t.args[0]
	} else if t.op == "ite" && len(t.args) == 3 && t.args[1].op == "false" && t.args[2].op == "true" {
		t = p.not(t.args[0])
	}
	if t.op == "!" {
		t, neg = t.args[0], true
	}
	no := func() (*T, *T, string) { return nil, nil, "the value of " + short(t) }
	if y, s, set, ok := a.bitTest(t); ok && s != nil {
		if set == neg {
			return nil, nil, "the negation of a bit"
		}
		return y, s, ""
	}
	// the highest bit of a byte that is shifted left in every iteration
	top := func(x *T) (*T, *T, string) {
		for _, l := range a.loops {
			for _, ph := range l.Header.phis() {
				cur := a.term(ph)
				if cur.op != "phi" || x.op != "phi" || cur.aux != x.aux {
					continue
				}
				init, next := a.initOf(l, ph), a.nextOf(l, ph)
				if init == nil || next == nil || !(next == p.scale(cur, 2) || next == p.mod(p.scale(cur, 2), 256) || next == p.app("<<", "", cur, p.c(1))) {
					return nil, nil, "the value of a changed byte " + short(next)
				}
				// the arguments of the phi are the counters
				m := map[*T]*T{}
				for n, arg := range cur.args {
					m[arg] = x.args[n]
				}
				it := m[p.k(l.ID)]
				if it == nil {
					return nil, nil, "the value of " + short(x)
				}
				return p.subst(init, m), p.sub(p.c(7), it), ""
			}
		}
		if x.op == "mod" && x.aux == "256" && x.args[0].op == "<<" {
			return x.args[0].args[0], p.sub(p.c(7), x.args[0].args[1]), ""
		}
		if x.op == "<<" {
			return x.args[0], p.sub(p.c(7), x.args[1]), ""
		}
		return nil, nil, "the highest bit of " + short(x)
	}
	if t.op == "==0" {
		x := t.args[0]
		if x.op == "bits.LeadingZeros8" && !neg {
			return top(x.args[0])
		}
		if x.op == "&" && neg && len(x.args) == 2 {
			for q := 0; q < 2; q++ {
				if a.isC(x.args[q], 128) {
					return top(x.args[1-q])
				}
			}
		}
	}
	if t.op == "<u" && neg && a.isC(t.args[1], 128) {
		return top(t.args[0])
	}
	if t.op == "<u" && !neg && a.isC(t.args[0], 127) {
		return top(t.args[1])
	}
	if t.op == "<0" && neg {
		// x >= 128
		if ts, co, c := parts(t.args[0]); len(ts) == 1 && co[0] == 1 && c == -128 {
			return top(ts[0])
		}
	}
	return no()
}

// queryParts: what the client makes for each server.
func (r *Run) queryParts(s, rule string) {
	a := r.flat(s, "lib/fss.Fss.GenerateTreePF")
	p := a.p
	q := p.app("param", "q")
	n := 0
	for _, e := range a.accepts() {
		v := e.vals[0]
		if v.op == "nil" {
			continue
		}
		n++
		w := a.f.whereB(e.b)
		var xs []*T
		if m, ok := a.lenT(v).isC(); ok && m <= 16 {
			for k := int64(0); k < m; k++ {
				xs = append(xs, a.elemAt(v, p.c(k), a.endOf(e.b)))
			}
		} else {
			x, _ := a.anyElem(v, a.endOf(e.b))
			xs = append(xs, x)
		}
		for k, x := range xs {
			got := a.fieldAt(x, "FSS.Info", a.endOf(e.b))
			r.ob(rule, s[8:]+" parameters", w, got == p.app("ld", "", p.app("fa", "ClientFSS.Info", q)), "server %d gets the parameters %s", k, short(got))
		}
	}
	r.ob(rule, s[8:]+" reached", p0(a), n > 0, "no queries are made")
	m := 0
	for _, b := range a.rpo {
		for _, i := range b.Ins {
			if i.Op == OpCall && strings.HasSuffix(a.callee(i), "lib/fss.Fss).GenerateTreePF") {
				m++
				r.ob(rule, s[8:]+" bits", a.f.where(i), a.arg(i, 1) == p.app("ld", "", p.app("fa", "ClientFSS.Input", q)), "the key is made from %s", short(a.arg(i, 1)))
			}
		}
	}
	r.ob(rule, s[8:]+" key", p0(a), m > 0, "no key is made")
}

// querySites: the parameters at the calls of the constructors in the programs.
func (r *Run) querySites(rule string) {
	ctors := map[*ssa.Function]kindMode{}
	for _, k := range kindModes {
		if f := r.p.Func("lib/query.Info." + k.ctor); f != nil {
			ctors[f] = k
		}
	}
	n := 0
	roots := r.p.clientRoots(func(f *ssa.Function) bool { _, ok := ctors[f]; return ok })
	for _, fn := range roots {
		fn := fn
		r.part(fnName(fn), func() {
			a := r.flatFn(fn, "predicates "+fnName(fn), func(f *ssa.Function) bool {
				_, ok := ctors[f]
				return ok || fnPkgPath(f) == modPath+"/lib/client"
			})
			for _, b := range a.rpo {
				for _, i := range b.Ins {
					if i.Op != OpCall || i.Args[0].SFn == nil {
						continue
					}
					k, ok := ctors[i.Args[0].SFn]
					if !ok {
						continue
					}
					n++
					r.kindAt(rule, a, i, k)
				}
			}
		})
	}
	r.ob(rule, "sites", "", n > 0, "no program makes a predicate query")
}

func (r *Run) kindAt(rule string, a *Analysis, i *Ins, k kindMode) {
	p := a.p
	info, w := a.arg(i, 0), a.f.where(i)
	name := k.ctor + " in " + fnName(a.f.Root)
	for _, f := range []struct {
		name string
		want bool
	}{{"And", k.and}, {"Avg", k.avg}, {"Sum", k.sum}} {
		v := a.fieldAt(info, "Info."+f.name, i)
		ok := v == p.boolT(f.want) || v.isZero() && !f.want
		if !ok {
			lit := v
			if !f.want {
				lit = p.not(v)
			}
			ok = a.mustPassBlockLit(lit, i.Blk)
		}
		r.ob(rule, name+" "+f.name, w, ok, "the servers may not take this for a query for %s: %s is %s", k.name, f.name, short(v))
	}
	if k.target == "" {
		return
	}
	v := a.fieldAt(info, "Info.Target", i)
	r.ob(rule, name+" Target", w, v == p.c(a.f.P.pkgConst("lib/query", k.target).Int64()), "the target is %s, not %s", short(v), k.target)
}

// mustPassBlockLit: every path to the block passes an edge with the literal.
func (a *Analysis) mustPassBlockLit(lit *T, b *Block) bool {
	_, ok := a.mustPass(func(e Edge) bool {
		for _, l := range a.lits(e) {
			if l == lit {
				return true
			}
		}
		return false
	}, func(s *pst) bool { return s.b == b })
	return ok
}
