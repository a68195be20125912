package main

// L07: the arithmetic on field elements never wraps around. An interval
// analysis of the flattened functions of the FSS scheme: what is read from a
// vector of elements is at most the prime, and so has to be what is written.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

func init() {
	checks["L07"] = checkL07
	assumptions["L07"] = []string{
		"numbers received in keys and answers are at most the field prime, as honest parties send them, and control bits are 0 or 1",
		"integers that are not field elements, such as years and counters, are less than 2^31 in absolute value, and so is the number of iterations of a loop",
	}
}

type ival struct{ lo, hi *big.Int }

func ivOf(lo, hi int64) *ival { return &ival{big.NewInt(lo), big.NewInt(hi)} }

func (x *ival) join(y *ival) *ival {
	if x == nil {
		return y
	}
	if y == nil {
		return x
	}
	r := &ival{x.lo, x.hi}
	if y.lo.Cmp(r.lo) < 0 {
		r.lo = y.lo
	}
	if y.hi.Cmp(r.hi) > 0 {
		r.hi = y.hi
	}
	return r
}

func (x *ival) in(y *ival) bool { return x.lo.Cmp(y.lo) >= 0 && x.hi.Cmp(y.hi) <= 0 }

func (x *ival) String() string { return fmt.Sprintf("[%v, %v]", x.lo, x.hi) }

// typeRange: the values of an integer type; integers of Go's own size are taken to be small.
func typeRange(t types.Type) *ival {
	if t == nil {
		return nil
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return nil
	}
	one := big.NewInt(1)
	pow := func(n uint) *big.Int { return new(big.Int).Lsh(one, n) }
	u := func(n uint) *ival { return &ival{big.NewInt(0), new(big.Int).Sub(pow(n), one)} }
	s := func(n uint) *ival { return &ival{new(big.Int).Neg(pow(n - 1)), new(big.Int).Sub(pow(n-1), one)} }
	switch b.Kind() {
	case types.Uint8:
		return u(8)
	case types.Uint16:
		return u(16)
	case types.Uint32:
		return u(32)
	case types.Uint64, types.Uint, types.Uintptr:
		return u(64)
	case types.Int8:
		return s(8)
	case types.Int16:
		return s(16)
	case types.Int32, types.UntypedRune:
		return s(32)
	case types.Int64, types.Int, types.UntypedInt:
		return s(64)
	}
	return nil
}

type ranges struct {
	a       *Analysis
	p       *big.Int
	v       map[*Ins]*ival
	derived map[*Ins]bool
	facts   map[*Block][]*T
}

func elemLoad(i *Ins) bool {
	if i.Op != OpLoad || len(i.Args) == 0 || i.Args[0].Op != OpIndexAddr {
		return false
	}
	b, ok := i.Typ.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint32 || b.Kind() == types.Uint64)
}

func elemStore(i *Ins) bool {
	if i.Op != OpStore || i.Args[0].Op != OpIndexAddr {
		return false
	}
	b, ok := i.Args[1].Typ.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint32
}

func (g *ranges) factsAt(b *Block) []*T {
	f, ok := g.facts[b]
	if !ok {
		f = g.a.factsAt(b)
		g.facts[b] = f
	}
	return f
}

// term: the interval of a term by its form alone.
func (g *ranges) term(t *T, bytes bool) *ival {
	switch t.op {
	case "c":
		if n, ok := t.isC(); ok {
			return ivOf(n, n)
		}
	case "%":
		if n, ok := t.args[1].isC(); ok && n > 0 {
			if x := g.term(t.args[0], bytes); x != nil && x.lo.Sign() >= 0 {
				if x.hi.Cmp(big.NewInt(n)) < 0 {
					return x
				}
				return ivOf(0, n-1)
			}
		}
	case "mod":
		n := atoi(t.aux)
		if n > 0 {
			return ivOf(0, int64(n)-1)
		}
	case "&":
		for k := 0; k < 2; k++ {
			if n, ok := t.args[k].isC(); ok && n >= 0 {
				return ivOf(0, n)
			}
		}
	case "be", "le":
		lo, hi := new(big.Int), new(big.Int)
		for k := range t.args {
			x := t.args[k]
			if t.op == "le" {
				x = t.args[len(t.args)-1-k]
			}
			b := g.term(x, true)
			lo = lo.Add(lo.Lsh(lo, 8), b.lo)
			hi = hi.Add(hi.Lsh(hi, 8), b.hi)
		}
		return &ival{lo, hi}
	case "ite":
		return g.term(t.args[1], bytes).join(g.term(t.args[2], bytes))
	}
	if bytes {
		return ivOf(0, 255)
	}
	return nil
}

// at: the values an operand may have when the block is reached.
func (g *ranges) at(i *Ins, b *Block) *ival {
	x := g.val(i)
	if x == nil || i.Op == OpConst {
		return x
	}
	if i.Op == OpConvert {
		if y := g.at(i.Args[0], b); y != nil && y.in(typeRange(i.Typ)) {
			x = y
		}
	}
	for c := b; c != nil; c = g.a.dom[c] {
		if len(c.Preds) != 1 {
			continue
		}
		for k, s := range c.Preds[0].Succs {
			if s == c {
				x = g.tested(i, x, Edge{c.Preds[0], k})
			}
		}
	}
	return g.refine(i, x, g.factsAt(b))
}

// tested: a branch on a comparison of this very value.
func (g *ranges) tested(i *Ins, x *ival, e Edge) *ival {
	if e.B.Term != TIf || e.B.Cond == nil || e.B.Succs[0] == e.B.Succs[1] {
		return x
	}
	c, want := e.B.Cond, e.K == 0
	for c.Op == OpUn && c.Tok == token.NOT {
		c, want = c.Args[0], !want
	}
	if c.Op != OpBin {
		return x
	}
	var y *ival
	tok := c.Tok
	switch i {
	case c.Args[0]:
		y = g.val(c.Args[1])
	case c.Args[1]:
		y = g.val(c.Args[0])
		tok = map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}[tok]
	}
	if y == nil {
		return x
	}
	if !want {
		tok = map[token.Token]token.Token{token.LSS: token.GEQ, token.GTR: token.LEQ, token.LEQ: token.GTR, token.GEQ: token.LSS, token.EQL: token.NEQ, token.NEQ: token.EQL}[tok]
	}
	one := big.NewInt(1)
	r := &ival{x.lo, x.hi}
	switch tok {
	case token.LSS:
		r.hi = new(big.Int).Sub(y.hi, one)
	case token.LEQ:
		r.hi = y.hi
	case token.GTR:
		r.lo = new(big.Int).Add(y.lo, one)
	case token.GEQ:
		r.lo = y.lo
	case token.EQL:
		r.lo, r.hi = y.lo, y.hi
	case token.NEQ:
		if y.lo.Cmp(y.hi) == 0 && y.lo.Cmp(x.hi) == 0 {
			r.hi = new(big.Int).Sub(x.hi, one)
		} else if y.lo.Cmp(y.hi) == 0 && y.lo.Cmp(x.lo) == 0 {
			r.lo = new(big.Int).Add(x.lo, one)
		}
	}
	if r.lo.Cmp(x.lo) < 0 {
		r.lo = x.lo
	}
	if r.hi.Cmp(x.hi) > 0 {
		r.hi = x.hi
	}
	if r.lo.Cmp(r.hi) > 0 {
		return x
	}
	return r
}

func (g *ranges) refine(i *Ins, x *ival, facts []*T) *ival {
	t := g.a.term(i)
	if t == nil {
		return x
	}
	p := g.a.p
	r := &ival{x.lo, x.hi}
	for _, f := range facts {
		var d *T
		switch f.op {
		case "<0":
			d = f.args[0]
		case "<u":
			d = p.sub(f.args[0], f.args[1])
		case "!":
			if f.args[0].op == "<u" {
				// y <= x
				d = p.sub(p.sub(f.args[0].args[1], f.args[0].args[0]), p.c(1))
			}
		case "==0":
			e := p.sub(f.args[0], t)
			if n, ok := e.isC(); ok {
				v := big.NewInt(-n)
				r = &ival{v, v}
			}
			continue
		}
		if d == nil {
			continue
		}
		if n, ok := p.sub(d, t).isC(); ok { // t + n < 0
			if h := big.NewInt(-n - 1); h.Cmp(r.hi) < 0 {
				r.hi = h
			}
		}
		if n, ok := p.add(d, t).isC(); ok { // n - t < 0
			if l := big.NewInt(n + 1); l.Cmp(r.lo) > 0 {
				r.lo = l
			}
		}
	}
	if r.lo.Cmp(r.hi) > 0 {
		return x
	}
	return r
}

func (g *ranges) val(i *Ins) *ival {
	if i.Op == OpConst {
		if n, ok := g.a.term(i).isC(); ok {
			return ivOf(n, n)
		}
		return typeRange(i.Typ)
	}
	if x, ok := g.v[i]; ok {
		return x
	}
	switch i.Op {
	case OpBin, OpUn, OpPhi, OpConvert:
		return nil // not reached yet
	}
	return g.leaf(i)
}

// leaf: what is not computed here.
func (g *ranges) leaf(i *Ins) *ival {
	tr := typeRange(i.Typ)
	if tr == nil {
		return nil
	}
	if elemLoad(i) {
		b := i.Typ.Underlying().(*types.Basic)
		if t := g.a.term(i); t != nil && t.op == "mod" { // put there reduced
			if x := g.term(t, false); x != nil {
				return x
			}
		}
		if b.Kind() == types.Uint32 {
			return &ival{big.NewInt(0), g.p}
		}
		if g.accumulates(i) {
			return &ival{big.NewInt(0), new(big.Int).Lsh(big.NewInt(1), 62)}
		}
		return tr
	}
	t := g.a.term(i)
	if t != nil {
		f := t
		if isLoad(f) {
			f = f.args[0]
		}
		if (f.op == "fa" || f.op == "f") && strings.HasSuffix(f.aux, ".TInit") {
			return ivOf(0, 1)
		}
		if x := g.term(t, tr.hi.Cmp(big.NewInt(255)) == 0); x != nil && x.in(tr) && i.Op != OpCall {
			return x
		}
	}
	b := i.Typ.Underlying().(*types.Basic)
	switch b.Kind() {
	case types.Int, types.Int64:
		return ivOf(-1<<31+1, 1<<31-1)
	case types.Uint:
		return ivOf(0, 1<<31-1)
	}
	return tr
}

// accumulates: the elements of a vector of 64 bits grow by one element of the field at a time.
func (g *ranges) accumulates(ld *Ins) bool {
	a := g.a
	root := a.op(ld.Args[0], 0)
	if root.op != "obj" {
		return false
	}
	for _, b := range a.rpo {
		for _, s := range b.Ins {
			if s.Op != OpStore || s.Args[0].Op != OpIndexAddr || a.op(s.Args[0], 0) != root {
				continue
			}
			v := s.Args[1]
			if v.Op == OpConst {
				continue
			}
			if v.Op == OpBin && v.Tok == token.REM {
				continue
			}
			if v.Op != OpBin || v.Tok != token.ADD {
				return false
			}
			ok := false
			for k := 0; k < 2; k++ {
				x, y := v.Args[k], v.Args[1-k]
				if x.Op == OpLoad && x.Args[0].Op == OpIndexAddr && a.term(x.Args[0]) == a.term(s.Args[0]) {
					if e := g.v[y]; e != nil && e.lo.Sign() >= 0 && e.hi.Cmp(g.p) <= 0 {
						ok = true
					}
				}
			}
			if !ok {
				return false
			}
		}
	}
	return true
}

// step: by how much a value that is carried through a loop grows in one iteration.
func (g *ranges) step(phi, x *Ins, seen map[*Ins]bool) *big.Int {
	if x == phi {
		return new(big.Int)
	}
	if seen[x] {
		return nil
	}
	seen[x] = true
	defer delete(seen, x)
	switch x.Op {
	case OpBin:
		if x.Tok != token.ADD {
			return nil
		}
		for k := 0; k < 2; k++ {
			if s := g.step(phi, x.Args[k], seen); s != nil {
				y := g.at(x.Args[1-k], x.Blk)
				if y == nil {
					return s
				}
				if y.lo.Sign() < 0 {
					return nil
				}
				return new(big.Int).Add(s, y.hi)
			}
		}
	case OpPhi:
		if l := g.a.loopOf[x.Blk]; l != nil && l.Header == x.Blk {
			// an inner loop
			r := new(big.Int)
			for k, y := range x.Args {
				if l.Blocks[x.Blk.Preds[k]] {
					s := g.step(x, y, map[*Ins]bool{})
					if s == nil {
						return nil
					}
					r.Add(r, s.Lsh(s, 31))
				} else {
					s := g.step(phi, y, seen)
					if s == nil {
						return nil
					}
					r.Add(r, s)
				}
			}
			return r
		}
		r := new(big.Int)
		for _, y := range x.Args {
			s := g.step(phi, y, seen)
			if s == nil {
				return nil
			}
			if s.Cmp(r) > 0 {
				r = s
			}
		}
		return r
	}
	return nil
}

// bin is the exact result of an operation, before it is put into its type.
func (g *ranges) bin(i *Ins) *ival {
	x, y := g.at(i.Args[0], i.Blk), g.at(i.Args[1], i.Blk)
	if x == nil || y == nil {
		return nil
	}
	z := func() *big.Int { return new(big.Int) }
	switch i.Tok {
	case token.ADD:
		return &ival{z().Add(x.lo, y.lo), z().Add(x.hi, y.hi)}
	case token.SUB:
		r := &ival{z().Sub(x.lo, y.hi), z().Sub(x.hi, y.lo)}
		return g.refine(i, r, g.factsAt(i.Blk))
	case token.MUL:
		var r *ival
		for _, a := range []*big.Int{x.lo, x.hi} {
			for _, b := range []*big.Int{y.lo, y.hi} {
				m := z().Mul(a, b)
				r = r.join(&ival{m, m})
			}
		}
		return r
	case token.REM:
		if y.lo.Sign() > 0 && x.lo.Sign() >= 0 {
			h := z().Sub(y.hi, big.NewInt(1))
			if x.hi.Cmp(h) < 0 {
				h = x.hi
			}
			return &ival{z(), h}
		}
		if y.lo.Sign() > 0 {
			h := z().Sub(y.hi, big.NewInt(1))
			return &ival{z().Neg(h), h}
		}
	case token.QUO:
		if y.lo.Sign() > 0 && x.lo.Sign() >= 0 {
			return &ival{z().Quo(x.lo, y.hi), z().Quo(x.hi, y.lo)}
		}
	case token.AND:
		if x.lo.Sign() >= 0 && y.lo.Sign() >= 0 {
			h := x.hi
			if y.hi.Cmp(h) < 0 {
				h = y.hi
			}
			return &ival{z(), h}
		}
	case token.OR, token.XOR:
		if x.lo.Sign() >= 0 && y.lo.Sign() >= 0 {
			h := x.hi
			if y.hi.Cmp(h) > 0 {
				h = y.hi
			}
			return &ival{z(), z().Sub(z().Lsh(big.NewInt(1), uint(h.BitLen())), big.NewInt(1))}
		}
	case token.AND_NOT:
		if x.lo.Sign() >= 0 {
			return &ival{z(), x.hi}
		}
	case token.SHR:
		if n := y.lo; x.lo.Sign() >= 0 && n.Sign() >= 0 && n.IsInt64() && n.Int64() < 128 {
			return &ival{z(), z().Rsh(x.hi, uint(n.Int64()))}
		}
	case token.SHL:
		if n := y.hi; x.lo.Sign() >= 0 && n.IsInt64() && n.Int64() < 128 && y.lo.Sign() >= 0 {
			return &ival{z().Lsh(x.lo, uint(y.lo.Int64())), z().Lsh(x.hi, uint(n.Int64()))}
		}
	}
	return typeRange(i.Typ)
}

// solve finds the values of all integer instructions.
func (g *ranges) solve() {
	a := g.a
	for round := 0; round < 40; round++ {
		changed := false
		set := func(i *Ins, x *ival) {
			tr := typeRange(i.Typ)
			if x == nil || tr == nil {
				return
			}
			if !x.in(tr) {
				x = tr
			}
			if o := g.v[i]; o != nil {
				x = o.join(x)
				if x.lo.Cmp(o.lo) == 0 && x.hi.Cmp(o.hi) == 0 {
					return
				}
			}
			g.v[i] = x
			changed = true
		}
		for _, b := range a.rpo {
			for _, i := range b.Ins {
				if typeRange(i.Typ) == nil {
					continue
				}
				switch i.Op {
				case OpPhi:
					var x *ival
					for k, y := range i.Args {
						v := g.at(y, b.Preds[k])
						if v != nil {
							fs := []*T{}
							for n, s := range b.Preds[k].Succs {
								if s == b && (b.Preds[k].Term != TIf || b.Preds[k].Succs[1-n] != b) {
									fs = a.lits(Edge{b.Preds[k], n})
									v = g.tested(y, v, Edge{b.Preds[k], n})
								}
							}
							v = g.refine(y, v, fs)
						}
						x = x.join(v)
					}
					if round > 4 && g.v[i] != nil && x != nil && !x.in(g.v[i]) {
						x = g.widen(i, x)
					}
					set(i, x)
				case OpBin:
					set(i, g.bin(i))
				case OpUn:
					if x := g.at(i.Args[0], b); x != nil && i.Tok == token.SUB {
						set(i, &ival{new(big.Int).Neg(x.hi), new(big.Int).Neg(x.lo)})
					} else if x != nil {
						set(i, typeRange(i.Typ))
					}
				case OpConvert:
					x := g.at(i.Args[0], b)
					if x == nil {
						if typeRange(i.Args[0].Typ) == nil {
							set(i, typeRange(i.Typ))
						}
						continue
					}
					set(i, x)
				case OpConst:
				default:
					set(i, g.leaf(i))
				}
			}
		}
		if !changed {
			return
		}
	}
}

func (g *ranges) widen(i *Ins, x *ival) *ival {
	tr := typeRange(i.Typ)
	l := g.a.loopOf[i.Blk]
	if l == nil || l.Header != i.Blk {
		return tr
	}
	var init *ival
	grow := new(big.Int)
	for k, y := range i.Args {
		if !l.Blocks[i.Blk.Preds[k]] {
			init = init.join(g.at(y, i.Blk.Preds[k]))
			continue
		}
		s := g.step(i, y, map[*Ins]bool{})
		if s == nil {
			return tr
		}
		grow.Add(grow, s)
	}
	if init == nil {
		return tr
	}
	h := new(big.Int).Add(init.hi, grow.Lsh(grow, 31))
	r := &ival{init.lo, h}
	if !r.in(tr) {
		return tr
	}
	return r
}

// derive marks what is computed from field elements.
func (g *ranges) derive() {
	for ch := true; ch; {
		ch = false
		for _, b := range g.a.rpo {
			for _, i := range b.Ins {
				if g.derived[i] || typeRange(i.Typ) == nil {
					continue
				}
				d := elemLoad(i)
				switch i.Op {
				case OpBin, OpUn, OpPhi, OpConvert:
					if i.Op == OpBin && i.Tok == token.XOR {
						continue // the bits that differ are no element
					}
					for _, x := range i.Args {
						d = d || g.derived[x]
					}
				}
				if d {
					g.derived[i] = true
					ch = true
				}
			}
		}
	}
}

func checkL07(r *Run) {
	wrap := r.rule("no-wrap", "no sum, difference or product of field elements leaves the range of its type, and none is cut by a conversion")
	red := r.rule("reduced", "what is put into a vector of field elements is at most the prime")
	can := r.rule("canonical", "field elements are fully reduced before they are compared, divided or handed to the caller")
	prime := r.p.pkgConst("lib/field", "ModP")
	if prime == nil {
		panic(unresolved("no constant lib/field.ModP"))
	}
	type root struct {
		name string
	}
	var roots []root
	for _, fn := range r.p.productFuncs() {
		pk := fnPkgPath(fn)
		n := fnName(fn)
		if fn.Synthetic != "" || fn.Parent() != nil {
			continue
		}
		if (pk == modPath+"/lib/field" || pk == modPath+"/lib/fss") && fn.Object() != nil && fn.Object().Exported() {
			roots = append(roots, root{name: n})
		}
		for _, t := range []string{"PredicateAPIR", "PredicatePIR"} {
			if strings.HasPrefix(n, "(*lib/client."+t+").") || strings.HasPrefix(n, "(*lib/server."+t+").") || strings.HasPrefix(n, "(lib/client."+t+").") || strings.HasPrefix(n, "(lib/server."+t+").") {
				if fn.Object() != nil && fn.Object().Exported() {
					roots = append(roots, root{name: n})
				}
			}
		}
	}
	sort.Slice(roots, func(i, j int) bool { return roots[i].name < roots[j].name })
	type verdict struct {
		rule, where, what string
		ok                bool
	}
	all := map[string]*verdict{}
	var order []string
	nOps := map[string]int{}
	note := func(rule string, a *Analysis, i *Ins, ok bool, what string) {
		w := a.f.where(i)
		key := rule + w + fmt.Sprint(i.Tok, i.Op)
		v := all[key]
		if v == nil {
			v = &verdict{rule: rule, where: w, ok: true}
			all[key] = v
			order = append(order, key)
			nOps[rule]++
		}
		if !ok && v.ok {
			v.ok, v.what = false, what
		}
	}
	nRoots := 0
	for _, rt := range roots {
		rt := rt
		r.part(rt.name, func() {
			var a *Analysis
			for _, fn := range r.p.productFuncs() {
				if fnName(fn) == rt.name {
					a = r.flatFn(fn, "L07 "+rt.name, nil)
				}
			}
			nRoots++
			g := &ranges{a: a, p: prime, v: map[*Ins]*ival{}, derived: map[*Ins]bool{}, facts: map[*Block][]*T{}}
			g.solve()
			g.derive()
			for _, b := range a.rpo {
				for _, x := range b.Rets {
					if b.Term != TReturn || typeRange(x.Typ) == nil || !g.derived[x] {
						continue
					}
					if v := g.at(x, b); v != nil {
						note(can, a, x, v.hi.Cmp(prime) < 0, fmt.Sprintf("a number in %v is returned", v))
					}
				}
				for _, i := range b.Ins {
					switch {
					case i.Op == OpMakeIface && g.derived[i.Args[0]]:
						if v := g.at(i.Args[0], b); v != nil {
							note(can, a, i, v.hi.Cmp(prime) < 0, fmt.Sprintf("a number in %v is returned", v))
						}
					case i.Op == OpBin && g.derived[i] && typeRange(i.Typ) != nil:
						switch i.Tok {
						case token.ADD, token.SUB, token.MUL, token.SHL:
							x := g.bin(i)
							if x == nil {
								continue // never reached
							}
							note(wrap, a, i, x.in(typeRange(i.Typ)), fmt.Sprintf("the result of %v is in %v, which %s does not hold", i.Tok, x, i.Typ))
						case token.QUO:
							for k := 0; k < 2; k++ {
								if x := g.at(i.Args[k], b); x != nil && g.derived[i.Args[k]] {
									note(can, a, i, x.hi.Cmp(prime) < 0, fmt.Sprintf("a number in %v is divided", x))
								}
							}
						}
					case i.Op == OpUn && i.Tok == token.SUB && g.derived[i]:
						if x := g.v[i.Args[0]]; x != nil {
							n := &ival{new(big.Int).Neg(x.hi), new(big.Int).Neg(x.lo)}
							note(wrap, a, i, n.in(typeRange(i.Typ)), fmt.Sprintf("the negative is in %v, which %s does not hold", n, i.Typ))
						}
					case i.Op == OpConvert && g.derived[i.Args[0]] && typeRange(i.Typ) != nil:
						if x := g.at(i.Args[0], b); x != nil {
							note(wrap, a, i, x.in(typeRange(i.Typ)), fmt.Sprintf("a number in %v is converted to %s", x, i.Typ))
						}
					case elemStore(i):
						if fn := i.Ctx.Fn; fn != nil && fnPkgPath(fn) == modPath+"/lib/utils" {
							continue // decoding
						}
						if x := g.at(i.Args[1], b); x != nil {
							note(red, a, i, x.hi.Cmp(prime) <= 0, fmt.Sprintf("a number in %v is put into the vector", x))
						}
					case i.Op == OpBin && (i.Tok == token.EQL || i.Tok == token.NEQ):
						x, y := i.Args[0], i.Args[1]
						if !g.derived[x] && !g.derived[y] {
							continue
						}
						if n, ok := a.term(x).isC(); ok && prime.Cmp(big.NewInt(n)) == 0 {
							continue
						}
						if n, ok := a.term(y).isC(); ok && prime.Cmp(big.NewInt(n)) == 0 {
							continue
						}
						for k := 0; k < 2; k++ {
							if v := g.at(i.Args[k], b); v != nil {
								note(can, a, i, v.hi.Cmp(prime) < 0, fmt.Sprintf("a number in %v is compared", v))
							}
						}
					}
				}
			}
		})
	}
	cnt := map[string]int{}
	for _, k := range order {
		v := all[k]
		cnt[v.where+v.rule]++
		r.ob(v.rule, fmt.Sprintf("%s %d", v.where, cnt[v.where+v.rule]), v.where, v.ok, "%s", v.what)
	}
	r.ob(wrap, "functions", "", nRoots >= 10, "%d functions analysed", nRoots)
	r.ob(wrap, "operations", "", nOps[wrap] >= 10, "%d operations on field elements found", nOps[wrap])
	r.ob(red, "vectors", "", nOps[red] >= 5, "%d stores into vectors of field elements found", nOps[red])
}
