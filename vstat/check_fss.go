package main

// P03: the keys of the function secret sharing hide the shared function: seeds
// are independent, control bits complementary, correction words common, and
// the last correction word is masked, element by element, by the outputs of a
// one-way function expanded from both parties' last seeds. Key generation and
// evaluation expand seeds in the same way.

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["P03"] = checkP03
	assumptions["P03"] = []string{
		"AES under distinct fixed keys is a correlation-robust one-way function in Matyas-Meyer-Oseas mode",
		"crypto/rand yields fresh independent bytes (that its error stops the client is decided with P01)",
		"the counter that separates reuses of the PRF keys is one byte: at most 256 reuses (1024 blocks) per key are distinct",
	}
}

// prfStore: a store of one byte of AES_k(x) ^ x.
type prfStore struct {
	s      *store
	addr   *T
	kb     *T   // index of the byte of the AES output
	cipher *T   // the block cipher
	key    *T   // index of the key in the table
	in     []*T // the 16 bytes of the input
	fwd    *T   // what the output is combined with
}

func (a *Analysis) prfStores() []*prfStore {
	var r []*prfStore
	for _, s := range a.stores {
		if s.i.Op != OpStore {
			continue
		}
		v := a.StoreVal(s)
		if v.op != "^" {
			continue
		}
		var out *T
		for _, x := range v.args {
			if x.op == "aesbyte" && x.args[0].op == "aes" && len(x.args[0].args) == 17 {
				out = x
			}
		}
		if out == nil {
			continue
		}
		ps := &prfStore{s: s, addr: a.storeAddr(s), kb: out.args[len(out.args)-1], cipher: out.args[0].args[0], in: out.args[0].args[1:]}
		ps.fwd = a.p.xor(v, out)
		walkT(ps.cipher, func(x *T) bool {
			if x.op == "ia" && contains1(x.args[0], "global") {
				ps.key = x.args[1]
			}
			return true
		})
		r = append(r, ps)
	}
	return r
}

func contains1(t *T, op string) bool { return hasOp(t, op) }

func memIDs(t *T) []string {
	k := strings.IndexByte(t.aux, '@')
	return strings.Split(t.aux[:k], ",")
}

func (a *Analysis) storeOf(id string) *store {
	for _, s := range a.stores {
		if fmt.Sprint(s.i.ID) == id {
			return s
		}
	}
	return nil
}

// before: the state that a memory term names is the state after the store (and its loops).
func (a *Analysis) verBlock(t *T) *Block {
	v := strings.TrimSuffix(t.aux[strings.IndexByte(t.aux, '@')+1:], "+0")
	if len(v) == 0 {
		return nil
	}
	if v[0] == 's' {
		if s := a.storeOf(v[1:]); s != nil {
			return s.i.Blk
		}
		return nil
	}
	for _, b := range a.rpo {
		if v[0] == 'b' && fmt.Sprint(b.ID) == v[1:] {
			return b
		}
	}
	return nil
}

// lastFill: of the PRF fills of the memory a term reads, the last before it.
func (a *Analysis) lastFill(t *T, fills []*prfStore) *prfStore {
	ids := memIDs(t)
	at := a.verBlock(t)
	var best *prfStore
	for _, f := range fills {
		is := false
		for _, id := range ids {
			is = is || id == fmt.Sprint(f.s.i.ID)
		}
		if !is {
			continue
		}
		hd := a.outside(f.s.i.Blk, at)
		if at == nil || hd == nil || !a.Dom(hd, at) {
			continue
		}
		if best == nil || a.Dom(a.outside(best.s.i.Blk, f.s.i.Blk), a.outside(f.s.i.Blk, best.s.i.Blk)) {
			best = f
		}
	}
	return best
}

// outside: the header of the outermost loop around b that does not hold c, else b.
func (a *Analysis) outside(b, c *Block) *Block {
	r := b
	for _, l := range a.loopsOf(b) {
		if c == nil || !l.Blocks[c] {
			r = l.Header
		}
	}
	return r
}

// chain: the objects that hold the seed a byte is computed from, back to the
// fills of the generator; what is xored under a factor does not count.
func (a *Analysis) chain(t *T, fills []*prfStore) map[string]bool {
	return a.chain1(t, fills, map[*T]bool{})
}

func (a *Analysis) chain1(t *T, fills []*prfStore, up map[*T]bool) map[string]bool {
	p := a.p
	out := map[string]bool{}
	seen := map[*T]bool{}
	for x := range up {
		seen[x] = true
	}
	var rec func(t *T)
	rec = func(t *T) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch t.op {
		case "^":
			for _, x := range t.args {
				if x.op != "*" && x.op != "byteof" {
					rec(x)
				}
			}
		case "ite":
			// the part that both branches have in common
			m1, m2 := a.chain1(t.args[1], fills, seen), a.chain1(t.args[2], fills, seen)
			n := 0
			for k := range m1 {
				if m2[k] {
					out[k] = true
					n++
				}
			}
			if n == 0 {
				for k := range m1 {
					out[k] = true
				}
				for k := range m2 {
					out[k] = true
				}
			}
		case "filled":
			if osSource(t) {
				out[fmt.Sprint(t.aux)] = true
			} else {
				out["?"+short2(t)] = true
			}
		case "last":
			rec(t.args[0])
		case "mem", "aesbyte":
			if t.op == "aesbyte" {
				for _, x := range t.args[0].args[1:] {
					rec(x)
				}
				return
			}
			if f := a.lastFill(t, fills); f != nil {
				for _, x := range f.in {
					rec(x)
				}
				return
			}
			// a conditional update of what was just stored counts for what it keeps
			kept := map[*store]bool{}
			for _, id := range memIDs(t) {
				for _, id1 := range memIDs(t) {
					s, s1 := a.storeOf(id), a.storeOf(id1)
					if s == nil || s1 == nil || s == s1 || s.i.Op != OpStore || s1.i.Op != OpStore || a.storeAddr(s) != a.storeAddr(s1) || !a.DomI(s1.i, s.i) {
						continue
					}
					if v, v1 := a.StoreVal(s), a.StoreVal(s1); v.op == "^" {
						w := p.xor(v, v1)
						if w.op != "^" && w != v || w.op == "^" && len(w.args) < len(v.args) {
							kept[s] = true
						}
					}
				}
			}
			for _, id := range memIDs(t) {
				s := a.storeOf(id)
				switch {
				case s == nil:
					out["?"+id] = true
				case kept[s]:
				case s.i.Op == OpStore:
					rec(a.StoreVal(s))
				}
			}
		case "ld":
			if rootOf(t.args[0]).op == "param" {
				out["param"+rootOf(t.args[0]).aux] = true
			} else {
				out["?"+short2(t)] = true
			}
		default:
			if v, ok := t.isC(); ok && v == 0 {
				return
			}
			out["?"+short2(t)] = true
		}
	}
	rec(t)
	return out
}

func keysOf(m map[string]bool) string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	return strings.Join(sortedStr(r), " ")
}

func sortedStr(r []string) []string {
	for i := range r {
		for j := i + 1; j < len(r); j++ {
			if r[j] < r[i] {
				r[i], r[j] = r[j], r[i]
			}
		}
	}
	return r
}

// atLeast: c*t >= need for every value of the lengths.
func (a *Analysis) scaledAtLeast(c int64, t, need *T) bool {
	p := a.p
	if d := p.sub(p.scale(t, c), need); a.isNonNeg(d) {
		return true
	}
	if x, d, ok := ceilOf(t); ok && d > 0 && c%d == 0 {
		// c*ceil(x/d) >= (c/d)*x
		return a.scaledAtLeast(c/d, x, need)
	}
	return false
}

func (a *Analysis) isNonNeg(t *T) bool {
	v, ok := a.lower(t)
	return ok && v >= 0
}

// ceilOf: t = ceil(x/d).
func ceilOf(t *T) (*T, int64, bool) {
	if t.op == "ceildiv" && len(t.args) == 2 {
		if d, ok := t.args[1].isC(); ok {
			return t.args[0], d, true
		}
	}
	return nil, 0, false
}

// covers: the stores of the fill reach every index below need of the object.
func (a *Analysis) covers(f *prfStore, need *T) (bool, string) {
	p := a.p
	if f.addr.op != "ia" {
		return false, "address " + short2(f.addr)
	}
	type lv struct {
		c int64
		l *Loop
	}
	var ls []lv
	m, k := monos(f.addr.args[1])
	if k != 0 {
		return false, "the fill starts at " + fmt.Sprint(k)
	}
	for _, x := range m {
		if len(x.at) != 1 || x.at[0].op != "k" {
			return false, "index " + short2(f.addr.args[1])
		}
		ls = append(ls, lv{x.co, a.loopByID(atoi(x.at[0].aux))})
	}
	for i := range ls {
		for j := i + 1; j < len(ls); j++ {
			if ls[j].c > ls[i].c {
				ls[i], ls[j] = ls[j], ls[i]
			}
		}
	}
	if len(ls) == 0 || ls[len(ls)-1].c != 1 {
		return false, "index " + short2(f.addr.args[1])
	}
	for i, x := range ls {
		t := a.TripOf(x.l)
		if t == nil {
			return false, "a loop of the fill has no known count"
		}
		args := []*T{t}
		if t.op == "min" {
			args = t.args
		}
		for _, y := range args {
			if c, ok := y.isC(); ok && i > 0 {
				if c*x.c < ls[i-1].c {
					return false, fmt.Sprintf("only %d of %d bytes of a step are filled", c*x.c, ls[i-1].c)
				}
				continue
			}
			// y = M - sum (c_o/c) k_o
			M := y
			for _, o := range ls[:i] {
				M = p.add(M, p.scale(p.k(o.l.ID), o.c/x.c))
			}
			hasK := false
			for _, o := range ls[:i] {
				hasK = hasK || M.vars[o.l.ID]
			}
			if hasK {
				return false, "count " + short2(y)
			}
			if !a.scaledAtLeast(x.c, M, need) {
				return false, fmt.Sprintf("%d * %s may be less than %s", x.c, short2(M), short2(need))
			}
		}
	}
	return true, ""
}

// alpha renames the loop variables of a term by their role.
func alpha(p *Pool, t *T, role map[int]string) *T {
	m := map[*T]*T{}
	for v := range t.vars {
		if r, ok := role[v]; ok {
			m[p.k(v)] = p.app("param", r)
		}
	}
	return p.subst(t, m)
}

// shape of a fill: address, counter and key, with the loops named by their step.
func (a *Analysis) fillShape(f *prfStore) string {
	p := a.p
	role := map[int]string{}
	m, _ := monos(f.addr.args[1])
	for _, x := range m {
		if len(x.at) == 1 && x.at[0].op == "k" {
			role[atoi(x.at[0].aux)] = fmt.Sprintf("#step%d", x.co)
		}
	}
	var cs []string
	for q, x := range f.in {
		var tw []string
		if x.op == "^" {
			for _, y := range x.args {
				for v := range y.vars {
					if _, ok := role[v]; ok {
						tw = append(tw, alpha(p, y, role).String())
						break
					}
				}
			}
		}
		if len(tw) > 0 {
			cs = append(cs, fmt.Sprintf("%d^%s", q, strings.Join(sortedStr(tw), "^")))
		}
	}
	var steps []string
	for _, x := range m {
		steps = append(steps, fmt.Sprint(x.co))
	}
	return fmt.Sprintf("steps %s key %s byte %s twist %s", strings.Join(sortedStr(steps), ","), alpha(p, f.key, role), alpha(p, f.kb, role), strings.Join(cs, ","))
}

// constTrips: the fill has a constant number of blocks (the expansion of a level).
func constTrips(a *Analysis, f *prfStore) (string, bool) {
	m, _ := monos(f.addr.args[1])
	var cs []string
	role := map[int]string{}
	for _, x := range m {
		if len(x.at) != 1 || x.at[0].op != "k" {
			return "", false
		}
		role[atoi(x.at[0].aux)] = fmt.Sprintf("#step%d", x.co)
	}
	for _, x := range m {
		t := a.TripOf(a.loopByID(atoi(x.at[0].aux)))
		if t == nil || hasOp(t, "len") || hasOp(t, "ld") {
			return "", false
		}
		as := []*T{t}
		if t.op == "min" {
			as = t.args
		}
		var ts []string
		for _, y := range as {
			ts = append(ts, alpha(a.p, y, role).String())
		}
		cs = append(cs, fmt.Sprintf(" %d*%s", x.co, strings.Join(sortedStr(ts), ",")))
	}
	return strings.Join(sortedStr(cs), ""), true
}

func checkP03(r *Run) {
	seeds := r.rule("independent-seeds", "the first seeds of the two keys are distinct bytes of fills of the system's generator")
	bits := r.rule("complementary-bits", "the first control bits of the two keys differ, whatever was drawn")
	cw := r.rule("common-words", "both keys carry the same correction words at every level and element")
	mask := r.rule("masked", "an element of the last correction word is the shared value minus the first party's plus the second party's expansion of that element, modulo the field prime")
	ow := r.rule("one-way", "the masks are outputs of the one-way function: AES under a key of the table, combined with its input, over the party's last seed")
	cov := r.rule("covered", "the expansion covers every byte of every element, for every number of elements")
	uniq := r.rule("distinct-blocks", "no two blocks of the expansion use the same key and input, and the keys of the table are distinct")
	same := r.rule("same-expansion", "evaluation expands seeds as key generation does, per level and for the last block")
	r.programs()

	var gen, ev, genLvl, evLvl []string
	r.part("keys", func() {
		a := r.flat("zzverif.S_FSSKeys")
		p := a.p
		fills := a.prfStores()
		n := 0
		bpar := p.app("param", a.paramName(1))
		for _, b := range a.rpo {
			if b.Term != TReturn {
				continue
			}
			n++
			at := a.endOf(b)
			w := a.f.whereB(b)
			list := a.at(b.Rets[0], b)
			key := func(s int64, f string) *T {
				return a.resolve(p.app("fa", "FssKeyEq2P."+f, p.app("ia", "", list, p.c(s))), at)
			}
			src := [2]string{}
			used := map[*T]bool{}
			for s := int64(0); s < 2; s++ {
				si := key(s, "SInit")
				one, why := "", ""
				for k := int64(0); k < 16; k++ {
					e := a.elemAt(si, p.c(k), at)
					if !osSource(e) || e.op != "filled" {
						why = "byte " + fmt.Sprint(k) + " is " + short2(e)
					} else if used[e] {
						why = "byte " + fmt.Sprint(k) + " is used twice"
					}
					used[e] = true
					one = e.aux
				}
				src[s] = one
				r.ob(seeds, fmt.Sprintf("seed %d", s), w, why == "", "%s", why)
			}
			// control bits
			t0, t1 := key(0, "TInit"), key(1, "TInit")
			okb := p.xor(t0, t1) == p.c(1)
			for k, t := range []*T{t0, t1} {
				// one minus a bit
				okb = okb || t.op == "%" && isConst(t.args[1], 2) && p.sub(p.c(1), t) == []*T{t1, t0}[k]
			}
			ran := false
			walkT(t0, func(x *T) bool {
				ran = ran || x.op == "filled" && osSource(x)
				return true
			})
			r.ob(bits, "bits", w, okb && ran, "%s and %s", short2(t0), short2(t1))
			// correction words
			i := p.app("param", "#i")
			for j := int64(0); j < 18; j++ {
				c0 := a.elemAt(a.elemAt(key(0, "CW"), i, at), p.c(j), at)
				c1 := a.elemAt(a.elemAt(key(1, "CW"), i, at), p.c(j), at)
				r.ob(cw, fmt.Sprintf("level word byte %d", j), w, c0 == c1, "%s and %s", short2(c0), short2(c1))
			}
			k := p.app("param", "#k")
			f0, f1 := a.elemAt(key(0, "FinalCW"), k, at), a.elemAt(key(1, "FinalCW"), k, at)
			r.ob(cw, "last word", w, f0 == f1, "%s and %s", short2(f0), short2(f1))
			be := p.app("ld", "", p.app("ia", "", bpar, k))
			need := p.scale(p.app("len", "", bpar), 4)
			a.checkMask(r, f0, be, k, need, src, fills, mask, ow, cov, uniq, w)
		}
		if n == 0 {
			panic(unresolved("key generation does not return"))
		}
		for _, f := range fills {
			if f.key == nil {
				continue
			}
			if s, ok := constTrips(a, f); ok {
				genLvl = append(genLvl, a.fillShape(f)+s)
			} else {
				gen = append(gen, a.fillShape(f))
			}
		}
		a.keyTable(r, uniq)
	})
	r.part("evaluation", func() {
		a := r.flat("zzverif.S_FSSEval")
		fills := a.prfStores()
		for _, f := range fills {
			if f.key == nil {
				continue
			}
			if s, ok := constTrips(a, f); ok {
				evLvl = append(evLvl, a.fillShape(f)+s)
			} else {
				ev = append(ev, a.fillShape(f))
			}
		}
		out := a.p.app("param", a.paramName(3))
		need := a.p.scale(a.p.app("len", "", out), 4)
		for _, f := range fills {
			if _, c := constTrips(a, f); !c {
				ok, why := a.covers(f, need)
				r.ob(cov, "evaluation", a.f.whereB(f.s.i.Blk), ok, "%s", why)
			}
		}
	})
	uni := func(xs []string) string { return strings.Join(dedup(sortedStr(xs)), " | ") }
	r.ob(same, "last block", "", len(gen) > 0 && uni(gen) == uni(ev) && len(dedup(gen)) == 1, "generation: %s; evaluation: %s", uni(gen), uni(ev))
	r.ob(same, "levels", "", len(genLvl) > 0 && uni(genLvl) == uni(evLvl) && len(dedup(genLvl)) == 1, "generation: %s; evaluation: %s", uni(genLvl), uni(evLvl))
}

func dedup(xs []string) []string {
	var r []string
	for i, x := range xs {
		if i == 0 || xs[i-1] != x {
			r = append(r, x)
		}
	}
	return r
}

func (a *Analysis) checkMask(r *Run, f, be, k, need *T, src [2]string, fills []*prfStore, mask, ow, cov, uniq string, w string) {
	p := a.p
	// the value before the choice of the sign
	vals := []*T{f}
	if f.op == "ite" {
		vals = []*T{a.modField(f.args[1]), a.modField(f.args[2])}
		for k, v := range vals { // the negation of such a sum
			if n := p.scale(v, -1); v.op != "mod" && n.op == "+" {
				ts, co, c := parts(v)
				if len(ts) == 1 && co[0] == -1 && c == modP && ts[0].op == "ite" {
					vals[k] = p.sub(p.c(c), a.modField(ts[0]))
				}
			}
		}
	}
	type part struct {
		t    *T
		sign int
	}
	var base *T
	for _, v := range vals {
		if v.op == "mod" {
			base = v
		}
	}
	if base == nil {
		r.ob(mask, "value", w, false, "the last correction word is %s", short2(f))
		return
	}
	for _, v := range vals {
		// the other choice is the negation
		ok := v == base || p.mod(p.add(v, base), modP) == p.c(0)
		r.ob(mask, "sign", w, ok, "the last correction word is %s", short2(v))
	}
	var ps []part
	seenB := false
	m, c := monos(base.args[0])
	okc := ((c%modP)+modP)%modP == 0
	for _, x := range m {
		co := ((x.co % modP) + modP) % modP
		if len(x.at) != 1 || co != 1 && co != modP-1 {
			r.ob(mask, "value", w, false, "a term of the last correction word is %s", short2(x.at[0]))
			return
		}
		s := 1
		if co == modP-1 {
			s = -1
		}
		if x.at[0] == be && s == 1 {
			seenB = true
			continue
		}
		ps = append(ps, part{x.at[0], s})
	}
	r.ob(mask, "value", w, okc && seenB && base.aux == sprint(modP) && len(ps) == 2 && ps[0].sign+ps[1].sign == 0, "the last correction word is %s", short2(base))
	for _, x := range ps {
		s := 0
		if x.sign > 0 {
			s = 1
		}
		inst := fmt.Sprintf("party %d", s)
		var fs []*prfStore
		pos := map[int64]bool{}
		why := ""
		walkT(x.t, func(y *T) bool {
			if y.op == "mem" && y.args[0].op == "ia" {
				d := p.sub(y.args[0].args[1], p.scale(k, 4))
				if q, ok := d.isC(); ok && q >= 0 && q < 4 {
					pos[q] = true
				} else {
					why = "an element reads byte " + short2(y.args[0].args[1])
				}
				if g := a.lastFill(y, fills); g != nil {
					fs = append(fs, g)
				} else {
					why = "not filled: " + short2(y)
				}
				return false
			}
			return true
		})
		if len(pos) != 4 {
			why = fmt.Sprintf("%s; %d bytes of the expansion", why, len(pos))
		}
		for _, g := range fs {
			if g != fs[0] {
				why = "bytes of an element come from different fills"
			}
		}
		r.ob(mask, inst, w, why == "", "%s", why)
		if len(fs) == 0 {
			continue
		}
		g := fs[0]
		gw := a.f.whereB(g.s.i.Blk)
		ci := map[string]bool{}
		for _, y := range g.in {
			for z := range a.chain(y, fills) {
				ci[z] = true
			}
		}
		r.ob(ow, inst+" seed", gw, len(ci) == 1 && ci[src[s]], "the last block of party %d is expanded from %s, its first seed is %s", s, keysOf(ci), src[s])
		fw := a.chain(g.fwd, fills)
		r.ob(ow, inst+" feed-forward", gw, g.fwd.op != "c" && len(fw) == 1 && fw[src[s]], "AES is combined with %s", short2(g.fwd))
		ok, cw := a.covers(g, need)
		r.ob(cov, inst, gw, ok, "%s", cw)
		// blocks
		un := g.key != nil
		whyU := "no key table"
		if un {
			un, whyU = a.blockUnique(g)
		}
		r.ob(uniq, inst, gw, un, "%s", whyU)
	}
}

// blockUnique: distinct positions of blocks use distinct keys or inputs.
func (a *Analysis) blockUnique(g *prfStore) (bool, string) {
	// loops of one iteration do not count
	one := map[*T]*T{}
	for v := range g.addr.vars {
		if l := a.loopByID(v); l != nil {
			if t := a.TripOf(l); t != nil && t == a.p.c(1) {
				one[a.p.k(v)] = a.p.c(0)
			}
		}
	}
	if len(one) > 0 {
		h := *g
		h.addr, h.key, h.kb, h.in = a.p.subst(g.addr, one), a.p.subst(g.key, one), a.p.subst(g.kb, one), nil
		for _, x := range g.in {
			h.in = append(h.in, a.p.subst(x, one))
		}
		g = &h
	}
	m, _ := monos(g.addr.args[1])
	for _, x := range m {
		v := atoi(x.at[0].aux)
		if x.co == 1 {
			if g.kb != x.at[0] {
				return false, "byte " + short2(g.kb) + " of a block is stored at " + short2(g.addr)
			}
			continue
		}
		if g.key == x.at[0] {
			continue
		}
		// the key and the counter are remainder and quotient of the block number
		cnt := x.at[0]
		if g.key.op == "%" && g.key.args[0] == cnt {
			cnt = a.p.div(cnt, g.key.args[1])
		}
		// the counter enters the input as it is
		found := false
		for _, y := range g.in {
			if !y.vars[v] || y.op != "^" {
				continue
			}
			for _, z := range y.args {
				if z.op == "byteof" && z.args[0] == cnt {
					found = true
				}
			}
		}
		if !found {
			return false, "blocks of different steps of " + short2(g.addr.args[1]) + " use the same key and input"
		}
	}
	return true, ""
}

// keyTable: the rows of the table of PRF keys are distinct constants of 16 bytes.
func (a *Analysis) keyTable(r *Run, uniq string) {
	var table *ssa.Global
	prog := a.f.P
	for _, f := range prog.Funcs {
		if f.Pkg == nil || f.Pkg.Pkg.Path() != modPath+"/lib/fss" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok && calleeName(c.Common()) == "crypto/aes.NewCipher" {
					var dig func(v ssa.Value)
					dig = func(v ssa.Value) {
						switch x := v.(type) {
						case *ssa.UnOp:
							dig(x.X)
						case *ssa.IndexAddr:
							dig(x.X)
						case *ssa.Global:
							table = x
						}
					}
					dig(c.Call.Args[0])
				}
			}
		}
	}
	if table == nil {
		r.ob(uniq, "table", "", false, "the table of PRF keys is not found")
		return
	}
	rows, w := prog.constRows(table)
	seen := map[string]bool{}
	ok := len(rows) > 0
	why := fmt.Sprintf("%d rows", len(rows))
	for _, x := range rows {
		if seen[x] {
			ok, why = false, "a row is repeated"
		}
		seen[x] = true
	}
	r.ob(uniq, "table", w, ok, "%s", why)
}

// constRows: the constant rows that the package initialiser stores in a table of byte slices.
func (p *Program) constRows(g *ssa.Global) ([]string, string) {
	var rows []string
	where := ""
	for _, f := range p.Funcs {
		if f.Pkg != g.Pkg || !strings.HasPrefix(f.Name(), "init") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				al, ok := in.(*ssa.Alloc)
				if !ok {
					continue
				}
				n, isArr := byteArray(al.Type())
				if !isArr {
					continue
				}
				row := make([]byte, n)
				all := true
				for _, u := range *al.Referrers() {
					ia, ok := u.(*ssa.IndexAddr)
					if !ok {
						continue
					}
					ci, ok := ia.Index.(*ssa.Const)
					if !ok {
						all = false
						continue
					}
					ix, _ := constant.Int64Val(ci.Value)
					for _, s := range *ia.Referrers() {
						if st, ok := s.(*ssa.Store); ok && st.Addr == ia {
							cv, ok := st.Val.(*ssa.Const)
							if !ok {
								all = false
								continue
							}
							v, _ := constant.Int64Val(cv.Value)
							row[ix] = byte(v)
						}
					}
				}
				if all && (n == 16 || n == 24 || n == 32) {
					rows = append(rows, string(row))
					where = p.relPos(al.Pos())
				}
			}
		}
	}
	return rows, where
}

func byteArray(t types.Type) (int64, bool) {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		if at, ok := pt.Elem().Underlying().(*types.Array); ok {
			if b, ok := at.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				return at.Len(), true
			}
		}
	}
	return 0, false
}
