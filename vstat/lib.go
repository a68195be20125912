package main

// Helpers shared by the rules.

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const modP = int64(1<<31 - 1)

// exits: the blocks that may return success, with the terms of their results.
type exitT struct {
	b    *Block
	vals []*T
}

func (a *Analysis) accepts() []exitT {
	var r []exitT
	for _, b := range a.acceptBlocks() {
		e := exitT{b: b}
		for _, x := range b.Rets {
			e.vals = append(e.vals, a.at(x, b))
		}
		r = append(r, e)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].b.ID < r[j].b.ID })
	return r
}

func (a *Analysis) goalAt(b *Block) func(s *pst) bool {
	return func(s *pst) bool { return s.b == b && (b.Term != TReturn || a.accepting(s)) }
}

func (a *Analysis) goalBlock(b *Block) func(s *pst) bool {
	return func(s *pst) bool { return s.b == b }
}

func (a *Analysis) goalAccept() func(s *pst) bool { return a.accepting }

// calls lists the reachable calls of a function or method by full name
// ("lib/..." names are completed with the module path).
func (a *Analysis) calls(names ...string) []*Ins {
	want := map[string]bool{}
	for _, n := range names {
		want[n] = true
		want[full(n)] = true
	}
	var r []*Ins
	for _, b := range a.rpo {
		for _, i := range b.Ins {
			if i.Op == OpCall && want[a.callee(i)] {
				r = append(r, i)
			}
		}
	}
	return r
}

func full(n string) string {
	n = strings.ReplaceAll(n, "(*lib/", "(*"+modPath+"/lib/")
	n = strings.ReplaceAll(n, "(lib/", "("+modPath+"/lib/")
	if strings.HasPrefix(n, "lib/") || strings.HasPrefix(n, "cmd/") {
		n = modPath + "/" + n
	}
	return n
}

func (a *Analysis) callee(i *Ins) string {
	if i.Method != nil {
		return i.Method.FullName()
	}
	if !i.Invoke && len(i.Args) > 0 && i.Args[0].SFn != nil {
		f := i.Args[0].SFn
		if o, ok := f.Object().(*types.Func); ok {
			return o.FullName()
		}
		return f.String()
	}
	return ""
}

// arg is the k-th argument of a call (receiver included for methods).
func (a *Analysis) arg(i *Ins, k int) *T {
	if i.Invoke {
		return a.op(i, k)
	}
	return a.op(i, k+1)
}

func nargs(i *Ins) int {
	if i.Invoke {
		return len(i.Args)
	}
	return len(i.Args) - 1
}

// elemAt is element j of a slice value as seen by instruction at.
func (a *Analysis) elemAt(s, j *T, at *Ins) *T { return a.elemOf(s, j, at) }

// fieldAt is a field of the object a pointer leads to.
func (a *Analysis) fieldAt(ptr *T, field string, at *Ins) *T {
	return a.resolve(a.p.app("fa", field, ptr), at)
}

// endOf gives an instruction that stands for the end of the block.
func (a *Analysis) endOf(b *Block) *Ins {
	i := &Ins{ID: 1000000 + b.ID, Op: OpUnknown, Blk: b}
	a.order[i] = len(b.Ins)
	return i
}

// facts implied along a path: conjunction of literals without loop variables.

// implied: the conjunction of facts implies the literal (linear reasoning).
func (a *Analysis) implied(facts []*T, want *T) bool {
	p := a.p
	for _, f := range facts {
		if f == want {
			return true
		}
	}
	if want.op == "true" {
		return true
	}
	sub := func(d *T) *T {
		// eliminate with the equalities
		eqs := []*T{}
		for _, f := range facts {
			if f.op == "==0" && f.args[0].op != "mod" {
				eqs = append(eqs, f.args[0])
			}
		}
		for k := 0; k < len(eqs); k++ {
			e := eqs[k]
			ts, co, _ := parts(e)
			var v *T
			var c int64
			for j, t := range ts {
				if (co[j] == 1 || co[j] == -1) && (v == nil || len(t.args) > 0 && t.op == "len") {
					v, c = t, co[j]
				}
			}
			if v == nil {
				continue
			}
			rest := p.scale(p.sub(e, p.scale(v, c)), -c)
			if containsTerm(rest, v) {
				continue
			}
			m := map[*T]*T{v: rest}
			d = p.subst(d, m)
			for j := k + 1; j < len(eqs); j++ {
				eqs[j] = p.subst(eqs[j], m)
			}
		}
		return d
	}
	switch want.op {
	case "==0":
		d := sub(want.args[0])
		if n, ok := d.isC(); ok {
			return n == 0
		}
		// neither negative nor positive
		e := want.args[0]
		ge := func(e *T) bool {
			for _, f := range facts {
				if f == p.not(p.lt0(e)) {
					return true
				}
				if f.op == "<0" {
					// f.args[0] <= -1, so e >= 0 when e + f.args[0] >= -1
					if n, ok := p.add(e, f.args[0]).isC(); ok && n >= -1 {
						return true
					}
				}
				if f.op == "!" && f.args[0].op == "<0" {
					// f >= 0, so e >= 0 when e - f >= 0
					if n, ok := p.sub(e, f.args[0].args[0]).isC(); ok && n >= 0 {
						return true
					}
				}
			}
			return false
		}
		return ge(e) && ge(p.scale(e, -1))
	case "<0":
		d := sub(want.args[0])
		if n, ok := d.isC(); ok {
			return n < 0
		}
		if lo, ok := a.lower(p.scale(d, -1)); ok && lo >= 1 {
			return true
		}
		for _, f := range facts {
			if f.op != "<0" {
				continue
			}
			g := sub(f.args[0])
			// d <= g + c with c <= 0
			if lo, ok := a.lower(p.sub(g, d)); ok && lo >= 0 {
				return true
			}
		}
	case "!":
		// d != 0 follows from d < 0 or d > 0
		if want.args[0].op == "==0" {
			d := want.args[0].args[0]
			return a.implied(facts, p.lt0(d)) || a.implied(facts, p.lt0(p.scale(d, -1)))
		}
	}
	return false
}

// provenAt: on every path to a goal state, the facts seen imply one of the
// alternatives (each a conjunction). rel selects the literals worth remembering.
func (a *Analysis) provenAt(rel func(lit *T) bool, goal func(s *pst) bool, alts ...[]*T) ([]*Block, bool) {
	byID := map[string]*T{}
	bad := func(q string) bool {
		var fs []*T
		for _, x := range strings.Split(q, ",") {
			if x != "" {
				fs = append(fs, byID[x])
			}
		}
		for _, alt := range alts {
			all := true
			for _, w := range alt {
				if !a.implied(fs, w) {
					all = false
					break
				}
			}
			if all {
				return false
			}
		}
		return true
	}
	path, found := a.explore(exploreOpts{
		edge: func(q string, e Edge) (string, bool) {
			for _, l := range a.lits(e) {
				if len(l.vars) > 0 || l.op == "true" || l.op == "false" || hasOp(l, "mem") || hasOp(l, "phi") || hasOp(l, "rec") || !rel(l) {
					continue
				}
				id := strconv.Itoa(l.id)
				byID[id] = l
				have := map[string]bool{id: true}
				for _, x := range strings.Split(q, ",") {
					if x != "" {
						have[x] = true
					}
				}
				q = strings.Join(sortedKeys(have), ",")
			}
			return q, true
		},
		goal: func(s *pst) bool { return goal(s) && bad(s.q) },
	})
	return path, !found
}

func relLen(lit *T) bool { return hasOp(lit, "len") }

// monos splits a polynomial into monomials.
type mono struct {
	co int64
	at []*T
}

func monos(t *T) ([]mono, int64) {
	ts, co, c := parts(t)
	var r []mono
	for i, x := range ts {
		r = append(r, mono{co[i], atoms(x)})
	}
	return r, c
}

func contains(ts []*T, x *T) bool {
	for _, t := range ts {
		if t == x {
			return true
		}
	}
	return false
}

func without(ts []*T, x *T) []*T {
	for k, t := range ts {
		if t == x {
			return append(append([]*T{}, ts[:k]...), ts[k+1:]...)
		}
	}
	return ts
}

func sameSet(a, b []*T) bool {
	if len(a) != len(b) {
		return false
	}
	for _, x := range a {
		if !contains(b, x) {
			return false
		}
	}
	return true
}

func (a *Analysis) whereT(t *T) string {
	w := ""
	walkT(t, func(x *T) bool {
		if x.op == "call" && w == "" {
			if i := a.insOf[callID(x)]; i != nil {
				w = a.f.where(i)
			}
		}
		return w == ""
	})
	return w
}

func short(t *T) string {
	s := t.String()
	s = strings.ReplaceAll(s, modPath+"/", "")
	if len(s) > 300 {
		s = s[:300] + "…"
	}
	return s
}

// ---- module-wide helpers ---------------------------------------------------------

// staticCallee resolves a call, looking through bound closures.
func staticCallee(c *ssa.CallCommon) *ssa.Function {
	if f := c.StaticCallee(); f != nil {
		return f
	}
	if mc, ok := c.Value.(*ssa.MakeClosure); ok {
		if f, ok := mc.Fn.(*ssa.Function); ok {
			return f
		}
	}
	return nil
}

func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return c.Method.FullName()
	}
	if f := staticCallee(c); f != nil {
		if o, ok := f.Object().(*types.Func); ok {
			return o.FullName()
		}
		return f.String()
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return "builtin " + b.Name()
	}
	return ""
}

// nonTest: the function is part of the product (not of tests or of the session package).
func (p *Program) product(fn *ssa.Function) bool {
	pos := p.relPos(fn.Pos())
	return !strings.Contains(pos, "_test.go") && !strings.HasPrefix(fnPkgPath(fn), modPath+"/zzverif")
}

func (r *Run) note(fn *ssa.Function) { r.funcs[fnName(fn)] = true }

func sprint(v ...any) string { return fmt.Sprint(v...) }

func must(m []mono, _ int64) []mono { return m }

func hasSuffix(s, suf string) bool { return strings.HasSuffix(s, suf) }

func short2(t *T) string {
	if t == nil {
		return ""
	}
	return short(t)
}

// parName is the name of the k-th parameter of a function.
func parName(fn *ssa.Function, k int) string {
	if k < len(fn.Params) {
		return fn.Params[k].Name()
	}
	return ""
}

// assuming evaluates f with the index known to be in [0, below).
func (a *Analysis) assuming(ix map[*T]*T, f func()) {
	oldR, oldM := a.rng, a.resMemo
	a.rng, a.resMemo = map[*T]*T{}, map[string]*T{}
	for k, v := range oldR {
		a.rng[k] = v
	}
	for k, v := range ix {
		a.rng[k] = v
	}
	defer func() { a.rng, a.resMemo = oldR, oldM }()
	f()
}
