package main

// flow.go: where values may go. A flow- and context-insensitive closure over the
// SSA of the whole repository: nodes are SSA values, struct fields, globals and
// function results; what is stored in memory reaches the memory's other names.

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type flow struct {
	p      *Program
	val    map[ssa.Value]bool
	fld    map[*types.Var]bool
	ret    map[*ssa.Function]map[int]bool
	why    map[any]any
	work   []ssa.Value
	loads  map[*types.Var][]ssa.Value // FieldAddr and Field by field
	callOf map[*ssa.Function][]ssa.CallInstruction
	fns    []*ssa.Function
	arith  func(fn *ssa.Function) bool // arithmetic carries the value on
	stop   func(c *ssa.CallCommon) bool
	globs  map[*ssa.Global][]ssa.Value
}

func fieldVar(v ssa.Value) *types.Var {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(x.Field)
	case *ssa.Field:
		return x.X.Type().Underlying().(*types.Struct).Field(x.Field)
	}
	return nil
}

func (p *Program) newFlow() *flow {
	f := &flow{p: p, val: map[ssa.Value]bool{}, fld: map[*types.Var]bool{}, ret: map[*ssa.Function]map[int]bool{}, loads: map[*types.Var][]ssa.Value{}, callOf: map[*ssa.Function][]ssa.CallInstruction{}, globs: map[*ssa.Global][]ssa.Value{}}
	f.arith = func(*ssa.Function) bool { return true }
	f.stop = func(*ssa.CallCommon) bool { return false }
	for _, fn := range p.Funcs {
		if !p.inRepo(fn) {
			continue
		}
		f.fns = append(f.fns, fn)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.FieldAddr, *ssa.Field:
					v := fieldVar(x.(ssa.Value))
					f.loads[v] = append(f.loads[v], x.(ssa.Value))
				case ssa.CallInstruction:
					for _, g := range f.callees(x.Common()) {
						f.callOf[g] = append(f.callOf[g], x)
					}
				}
			}
		}
	}
	return f
}

func (f *flow) callees(c *ssa.CallCommon) []*ssa.Function {
	if c.IsInvoke() {
		hs, _ := f.p.impls(c)
		return hs
	}
	switch v := c.Value.(type) {
	case *ssa.Function:
		return []*ssa.Function{v}
	case *ssa.MakeClosure:
		return []*ssa.Function{v.Fn.(*ssa.Function)}
	}
	return nil
}

// mark: the value (or what it points to) holds what is followed.
func (f *flow) mark(v ssa.Value) {
	if v == nil || f.val[v] {
		return
	}
	if _, ok := v.(*ssa.Const); ok {
		return
	}
	if t, ok := v.Type().Underlying().(*types.Basic); ok && t.Info()&types.IsBoolean != 0 {
		return
	}
	if v.Type().String() == "error" {
		return
	}
	f.val[v] = true
	f.work = append(f.work, v)
}

func (f *flow) markField(v *types.Var) {
	if v == nil || f.fld[v] {
		return
	}
	f.fld[v] = true
	for _, x := range f.loads[v] {
		f.mark(x)
	}
}

func refLike(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Interface:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if refLike(u.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}

// written: what the reference leads to now holds it, so every name of it does.
func (f *flow) written(v ssa.Value) {
	if v == nil {
		return
	}
	switch x := v.(type) {
	case *ssa.FieldAddr:
		f.markField(fieldVar(x))
		return
	case *ssa.Const, *ssa.Function:
		return
	}
	if f.val[v] {
		return
	}
	f.mark(v)
	switch x := v.(type) {
	case *ssa.IndexAddr:
		f.written(x.X)
	case *ssa.Slice:
		f.written(x.X)
	case *ssa.Phi:
		for _, e := range x.Edges {
			f.written(e)
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			f.written(x.X)
		}
	case *ssa.ChangeType:
		f.written(x.X)
	case *ssa.ChangeInterface:
		f.written(x.X)
	case *ssa.MakeInterface:
		f.written(x.X)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			f.writtenRet(c, x.Index)
		}
	case *ssa.Call:
		f.writtenRet(x, 0)
	case *ssa.Parameter:
		fn := x.Parent()
		for k, q := range fn.Params {
			if q != x {
				continue
			}
			for _, c := range f.callOf[fn] {
				f.written(argOf(c.Common(), k))
			}
		}
	case *ssa.FreeVar:
		f.free(x, f.written)
	}
}

func (f *flow) free(x *ssa.FreeVar, do func(ssa.Value)) {
	fn := x.Parent()
	for k, q := range fn.FreeVars {
		if q != x || fn.Parent() == nil {
			continue
		}
		for _, b := range fn.Parent().Blocks {
			for _, in := range b.Instrs {
				if m, ok := in.(*ssa.MakeClosure); ok && m.Fn == fn {
					do(m.Bindings[k])
				}
			}
		}
	}
}

func argOf(c *ssa.CallCommon, k int) ssa.Value {
	if c.IsInvoke() {
		if k == 0 {
			return c.Value
		}
		k--
	}
	if k < len(c.Args) {
		return c.Args[k]
	}
	return nil
}

func (f *flow) writtenRet(c *ssa.Call, k int) {
	for _, g := range f.callees(c.Common()) {
		if !f.p.inRepo(g) {
			continue
		}
		for _, b := range g.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && k < len(r.Results) {
				f.written(r.Results[k])
			}
		}
	}
}

// run closes the marks; external(call, arg) says whether what a call outside the
// repository is given reaches its results and its other references.
func (f *flow) run(external func(x ssa.CallInstruction) bool) {
	for len(f.work) > 0 {
		v := f.work[len(f.work)-1]
		f.work = f.work[:len(f.work)-1]
		if g, ok := v.(*ssa.Global); ok {
			for _, fn := range f.fns {
				for _, b := range fn.Blocks {
					for _, in := range b.Instrs {
						for _, o := range in.Operands(nil) {
							if *o == g {
								f.use(g, in, external)
							}
						}
					}
				}
			}
			continue
		}
		if v.Referrers() == nil {
			continue
		}
		for _, in := range *v.Referrers() {
			f.use(v, in, external)
		}
	}
}

func (f *flow) use(v ssa.Value, in ssa.Instruction, external func(x ssa.CallInstruction) bool) {
	switch x := in.(type) {
	case *ssa.Phi, *ssa.Convert, *ssa.ChangeType, *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.TypeAssert,
		*ssa.Slice, *ssa.Extract, *ssa.Index, *ssa.Range, *ssa.Next, *ssa.SliceToArrayPointer:
		if s, ok := x.(*ssa.Slice); ok && s.X != v {
			return
		}
		if s, ok := x.(*ssa.Index); ok && s.X != v {
			return
		}
		if e, ok := x.(*ssa.Extract); ok {
			if _, isCall := e.Tuple.(*ssa.Call); isCall {
				return // results are marked one by one
			}
		}
		f.mark(x.(ssa.Value))
	case *ssa.Lookup:
		if x.X == v {
			f.mark(x)
		}
	case *ssa.IndexAddr:
		if x.X == v {
			f.mark(x)
		}
	case *ssa.FieldAddr, *ssa.Field:
		// the fields of what is held are followed on their own
	case *ssa.UnOp:
		if x.Op == token.MUL || x.Op == token.ARROW || f.arith(x.Parent()) {
			f.mark(x)
		}
	case *ssa.BinOp:
		switch x.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return
		}
		if (x.Op == token.SHL || x.Op == token.SHR) && x.X != v {
			return
		}
		if t, ok := x.Type().Underlying().(*types.Basic); f.arith(x.Parent()) || ok && t.Info()&types.IsString != 0 {
			f.mark(x)
		}
	case *ssa.Store:
		if x.Val == v {
			f.written(x.Addr)
		}
	case *ssa.MapUpdate:
		if x.Value == v || x.Key == v {
			f.written(x.Map)
		}
	case *ssa.Send:
		if x.X == v {
			f.written(x.Chan)
		}
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		for k, b := range x.Bindings {
			if b == v {
				f.mark(fn.FreeVars[k])
			}
		}
	case *ssa.Return:
		fn := x.Parent()
		for k, r := range x.Results {
			if r != v {
				continue
			}
			if f.ret[fn] == nil {
				f.ret[fn] = map[int]bool{}
			}
			if f.ret[fn][k] {
				continue
			}
			f.ret[fn][k] = true
			for _, c := range f.callOf[fn] {
				if f.stop(c.Common()) {
					continue
				}
				f.markResult(c, k)
			}
		}
	case ssa.CallInstruction:
		f.call(v, x, external)
	}
}

func (f *flow) markResult(c ssa.CallInstruction, k int) {
	r := c.Value()
	if r == nil {
		return
	}
	if t, ok := r.Type().(*types.Tuple); ok {
		if t.Len() == 0 {
			return
		}
		for _, u := range *r.Referrers() {
			if e, ok := u.(*ssa.Extract); ok && (e.Index == k || k < 0) {
				f.mark(e)
			}
		}
		return
	}
	f.mark(r)
}

func (f *flow) call(v ssa.Value, x ssa.CallInstruction, external func(x ssa.CallInstruction) bool) {
	c := x.Common()
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			f.mark(x.Value())
			if c.Args[0] != v {
				f.written(c.Args[0])
			}
		case "copy":
			if c.Args[1] == v {
				f.written(c.Args[0])
			}
		case "min", "max":
			f.mark(x.Value())
		}
		return
	}
	if f.stop(c) {
		return
	}
	in := false
	for _, g := range f.callees(c) {
		if !f.p.inRepo(g) || g.Blocks == nil {
			continue
		}
		in = true
		for k := range g.Params {
			if argOf(c, k) == v {
				f.mark(g.Params[k])
			}
		}
	}
	if in {
		return
	}
	if external(x) {
		f.markResult(x, -1)
		as := c.Args
		if c.IsInvoke() {
			as = append([]ssa.Value{c.Value}, as...)
		}
		for _, y := range as {
			if y != v && refLike(y.Type()) {
				f.written(y)
			}
		}
	}
}

// holds: a value of the type contains (behind pointers too) a marked field.
func (f *flow) holds(t types.Type) *types.Var {
	seen := map[types.Type]bool{}
	var rec func(t types.Type) *types.Var
	rec = func(t types.Type) *types.Var {
		if seen[t] {
			return nil
		}
		seen[t] = true
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return rec(u.Elem())
		case *types.Slice:
			return rec(u.Elem())
		case *types.Array:
			return rec(u.Elem())
		case *types.Map:
			return rec(u.Elem())
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				if f.fld[u.Field(i)] {
					return u.Field(i)
				}
				if w := rec(u.Field(i).Type()); w != nil {
					return w
				}
			}
		}
		return nil
	}
	return rec(t)
}

// joined: what a goroutine leaves in memory it shares with its creator is only
// looked at after the creator has waited for it.
func (a *Analysis) joined(r *Run, rule string) {
	alloc := map[string]*Ins{}
	for _, b := range a.rpo {
		for _, i := range b.Ins {
			if t := a.term(i); t != nil && t.op == "obj" && t.aux == itoa(i.ID) {
				alloc[rootKey(t)] = i
			}
		}
	}
	after := func(s *Ins, g *Ins) []*Ins { // what tells of the end of the goroutine
		var out []*Ins
		var outer *Loop // the outermost loop of the goroutine around the write
		for l := a.loopOf[s.Blk]; l != nil && a.Dom(g.Blk, l.Header) && !l.Blocks[g.Blk]; l = l.Parent {
			outer = l
		}
		past := func(i *Ins) bool {
			if outer == nil {
				return a.DomI(s, i)
			}
			return !outer.Blocks[i.Blk] && a.Dom(outer.Header, i.Blk)
		}
		for _, b := range a.rpo {
			for _, i := range b.Ins {
				if inThread(i) != g || !past(i) {
					continue
				}
				if i.Op == OpSend || i.Op == OpCall && a.callee(i) == "(*sync.WaitGroup).Done" {
					out = append(out, i)
				}
			}
		}
		return out
	}
	for _, s := range a.stores {
		g := inThread(s.i)
		if g == nil || g.Name != "expanded" || s.addr == nil || s.name != "" {
			continue
		}
		key := rootKey(s.addr)
		m := alloc[key]
		if m == nil || inThread(m) == g {
			continue
		}
		// the points at which the creator knows
		var waits []*Ins
		for _, e := range after(s.i, g) {
			for _, b := range a.rpo {
				for _, i := range b.Ins {
					if inThread(i) != nil {
						continue
					}
					switch {
					case e.Op == OpSend && i.Op == OpRecv && rootKey(a.op(i, 0)) == rootKey(a.op(e, 0)),
						e.Op == OpCall && i.Op == OpCall && a.callee(i) == "(*sync.WaitGroup).Wait" && a.arg(i, 0) == a.arg(e, 0):
						waits = append(waits, i)
					}
				}
			}
		}
		root := rootOf(s.addr)
		var bad *Ins
		for _, b := range a.rpo {
			for _, i := range b.Ins {
				if bad != nil || inThread(i) != nil || i == g || !a.mayPrecede(g, i) || i.Op != OpLoad && i.Op != OpCall && i.Op != OpBuiltin {
					continue
				}
				reads := false
				for _, x := range i.Args {
					t := a.term(x)
					reads = reads || t != nil && i.Op == OpLoad && rootOf(t) == root || t == root
				}
				ok := !reads
				for _, w := range waits {
					ok = ok || w == i || a.DomI(w, i)
				}
				if !ok {
					bad = i
				}
			}
		}
		at := ""
		if bad != nil {
			at = a.f.where(bad)
		}
		r.ob(rule, "joined", a.f.where(s.i), bad == nil, "what a goroutine writes is read at %s without waiting for it", at)
	}
	// goroutines started in a loop do not write the same memory
	for _, s := range a.stores {
		g := inThread(s.i)
		if g == nil || g.Name != "expanded" || s.addr == nil || s.hidden || s.name == "readonly" || strings.Contains(s.name, "sync.") {
			continue
		}
		m, l := alloc[rootKey(s.addr)], a.loopOf[g.Blk]
		if m == nil || l == nil || inThread(m) == g || l.Blocks[m.Blk] || a.runsOnce(l) || hasAtom(s.addr, a.p.k(l.ID)) {
			continue
		}
		locked := false
		for _, c := range a.calls("(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.Once).Do") {
			locked = locked || inThread(c) == g && a.DomI(c, s.i)
		}
		r.ob(rule, "shared", a.f.where(s.i), locked, "all goroutines write %s", short(s.addr))
	}
	// what a goroutine reads is not overwritten once it has been started
	for _, b := range a.rpo {
		for _, i := range b.Ins {
			g := inThread(i)
			if g == nil || g.Name != "expanded" || i.Op != OpLoad {
				continue
			}
			at := a.op(i, 0)
			if at == nil || at.op != "obj" && at.op != "fa" {
				continue
			}
			m := alloc[rootKey(at)]
			if m == nil || inThread(m) == g {
				continue
			}
			for _, s := range a.stores {
				if s.i.Op != OpStore || inThread(s.i) == g || a.op(s.i, 0).op != at.op || rootKey(a.op(s.i, 0)) != rootKey(at) || a.op(s.i, 0).aux != at.aux {
					continue
				}
				late := a.reaches(g, s.i, func(x *Ins) bool {
					return x == m || x.Op == OpRecv || x.Op == OpCall && a.callee(x) == "(*sync.WaitGroup).Wait"
				})
				r.ob(rule, "captured", a.f.where(i), !late, "what a goroutine reads is overwritten at %s while it runs", a.f.where(s.i))
			}
		}
	}
}

// reaches: control gets from one instruction to another without passing some.
func (a *Analysis) reaches(from, to *Ins, stop func(i *Ins) bool) bool {
	seen := map[*Block]bool{}
	// loops around the first that are run at most once do not come back to it
	once := map[*Loop]bool{}
	for l := a.loopOf[from.Blk]; l != nil; l = l.Parent {
		once[l] = a.runsOnce(l)
	}
	var rec func(ins []*Ins, b *Block) bool
	rec = func(ins []*Ins, b *Block) bool {
		for _, i := range ins {
			if i == to {
				return true
			}
			if stop(i) {
				return false
			}
		}
		for _, s := range b.Succs {
			if l := a.loopOf[b]; once[l] && l.Header == b && l.Blocks[s] {
				continue
			}
			if !seen[s] {
				seen[s] = true
				if rec(s.Ins, s) {
					return true
				}
			}
		}
		return false
	}
	for k, i := range from.Blk.Ins {
		if i == from {
			return rec(from.Blk.Ins[k+1:], from.Blk)
		}
	}
	return false
}

func (a *Analysis) runsOnce(l *Loop) bool {
	if tr := a.TripOf(l); tr != nil {
		for _, x := range a.minSet(tr) {
			if n, ok := x.isC(); ok && n <= 1 {
				return true
			}
		}
	}
	return false
}
