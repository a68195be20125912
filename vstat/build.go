package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const maxDepth = 60

// NewFlat translates an entry function; its parameters stay symbolic.
func (p *Program) NewFlat(fn *ssa.Function, noInl func(*ssa.Function) bool) *Flat {
	f := &Flat{P: p, Name: fnName(fn), Root: fn, NoInl: noInl, consts: map[string]*Ins{}, Inlined: map[*ssa.Function]int{}}
	ctx := &Ctx{Fn: fn}
	var args []*Ins
	for i, q := range fn.Params {
		a := f.newIns(OpParam, q.Type())
		a.Idx = i
		a.Name = q.Name()
		a.Pos = q.Pos()
		a.Ctx = ctx
		args = append(args, a)
	}
	f.Params = args
	var fvs []*Ins
	for i, q := range fn.FreeVars {
		a := f.newIns(OpParam, q.Type())
		a.Idx = len(fn.Params) + i
		a.Name = "free." + q.Name()
		a.Ctx = ctx
		fvs = append(fvs, a)
	}
	entry, rets := f.translate(fn, args, fvs, ctx)
	f.Entry = f.newBlock(ctx)
	f.Entry.Term = TJump
	link(f.Entry, entry)
	for _, r := range rets {
		r.blk.Term = TReturn
		r.blk.Rets = r.vals
	}
	f.Inlined[fn]++
	f.optimize()
	return f
}

type retSite struct {
	blk  *Block
	vals []*Ins
}

type trans struct {
	f    *Flat
	fn   *ssa.Function
	ctx  *Ctx
	vals map[ssa.Value]*Ins
	cur  *Block
}

func (f *Flat) translate(fn *ssa.Function, args, fvs []*Ins, ctx *Ctx) (*Block, []retSite) {
	t := &trans{f: f, fn: fn, ctx: ctx, vals: map[ssa.Value]*Ins{}}
	for i, q := range fn.Params {
		t.vals[q] = args[i]
	}
	for i, q := range fn.FreeVars {
		t.vals[q] = fvs[i]
	}
	reach := map[*ssa.BasicBlock]bool{}
	var order []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		if reach[b] {
			return
		}
		reach[b] = true
		for _, s := range b.Succs {
			dfs(s)
		}
		order = append(order, b)
	}
	dfs(fn.Blocks[0])
	for i, j := 0, len(order)-1; i < j; i, j = i+1, j-1 {
		order[i], order[j] = order[j], order[i]
	}
	head := map[*ssa.BasicBlock]*Block{}
	tail := map[*ssa.BasicBlock]*Block{}
	var phis []*ssa.Phi
	// create phis and heads first so that forward references resolve
	for _, b := range order {
		h := f.newBlock(ctx)
		head[b] = h
		for _, in := range b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			i := f.newIns(OpPhi, ph.Type())
			i.Pos = ph.Pos()
			i.Ctx = ctx
			i.Name = ph.Comment
			h.add(i)
			t.vals[ph] = i
			phis = append(phis, ph)
		}
	}
	var rets []retSite
	for _, b := range order {
		t.cur = head[b]
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
			case *ssa.Jump:
				t.cur.Term = TJump
			case *ssa.If:
				t.cur.Term = TIf
				t.cur.Cond = t.val(x.Cond)
				t.cur.Pos = x.Cond.Pos()
			case *ssa.Return:
				var vs []*Ins
				for _, r := range x.Results {
					vs = append(vs, t.val(r))
				}
				t.cur.Pos = x.Pos()
				rets = append(rets, retSite{t.cur, vs})
			case *ssa.Panic:
				t.cur.Term = TPanic
				t.cur.Pos = x.Pos()
				t.cur.Rets = []*Ins{t.val(x.X)}
			default:
				t.instr(in, b)
			}
		}
		tail[b] = t.cur
	}
	for _, b := range order {
		for _, s := range b.Succs {
			tail[b].Succs = append(tail[b].Succs, head[s])
		}
		for _, q := range b.Preds {
			if reach[q] {
				head[b].Preds = append(head[b].Preds, tail[q])
			}
		}
	}
	for _, ph := range phis {
		i := t.vals[ph]
		for k, e := range ph.Edges {
			if reach[ph.Block().Preds[k]] {
				i.Args = append(i.Args, t.val(e))
			}
		}
	}
	return head[fn.Blocks[0]], rets
}

func (t *trans) val(v ssa.Value) *Ins {
	if i, ok := t.vals[v]; ok {
		return i
	}
	f := t.f
	switch x := v.(type) {
	case *ssa.Const:
		return f.constIns(x.Value, x.Type())
	case *ssa.Global:
		key := "global|" + x.String()
		if c, ok := f.consts[key]; ok {
			return c
		}
		i := f.newIns(OpGlobal, x.Type())
		i.Glob = x
		i.Name = x.Name()
		f.consts[key] = i
		return i
	case *ssa.Function:
		key := "func|" + x.String()
		if c, ok := f.consts[key]; ok && c.SFn == x {
			return c
		}
		i := f.newIns(OpFunc, x.Type())
		i.SFn = x
		f.consts[key] = i
		return i
	case *ssa.Builtin:
		i := f.newIns(OpFunc, x.Type())
		i.Name = x.Name()
		return i
	}
	// forward reference outside a phi: cannot happen in reverse postorder of reducible SSA
	panic("unresolved value " + v.String() + " in " + t.fn.String())
}

func (t *trans) emit(op Op, typ types.Type, pos token.Pos, args ...*Ins) *Ins {
	i := t.f.newIns(op, typ, args...)
	i.Pos = pos
	i.Ctx = t.ctx
	return t.cur.add(i)
}

func (t *trans) instr(in ssa.Instruction, sb *ssa.BasicBlock) {
	switch x := in.(type) {
	case *ssa.Alloc:
		i := t.emit(OpAlloc, x.Type(), x.Pos())
		i.Name = x.Comment
		t.vals[x] = i
	case *ssa.BinOp:
		i := t.emit(OpBin, x.Type(), x.Pos(), t.val(x.X), t.val(x.Y))
		i.Tok = x.Op
		t.vals[x] = i
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			t.vals[x] = t.emit(OpLoad, x.Type(), x.Pos(), t.val(x.X))
		case token.ARROW:
			i := t.emit(OpRecv, x.Type(), x.Pos(), t.val(x.X))
			i.CommaOk = x.CommaOk
			t.vals[x] = i
		default:
			i := t.emit(OpUn, x.Type(), x.Pos(), t.val(x.X))
			i.Tok = x.Op
			t.vals[x] = i
		}
	case *ssa.ChangeType:
		t.vals[x] = t.val(x.X)
	case *ssa.ChangeInterface:
		t.vals[x] = t.val(x.X)
	case *ssa.Convert:
		t.vals[x] = t.emit(OpConvert, x.Type(), x.Pos(), t.val(x.X))
	case *ssa.MultiConvert:
		t.vals[x] = t.emit(OpConvert, x.Type(), x.Pos(), t.val(x.X))
	case *ssa.SliceToArrayPointer:
		t.vals[x] = t.emit(OpConvert, x.Type(), x.Pos(), t.val(x.X))
	case *ssa.MakeInterface:
		t.vals[x] = t.emit(OpMakeIface, x.Type(), x.Pos(), t.val(x.X))
	case *ssa.MakeClosure:
		var as []*Ins
		for _, b := range x.Bindings {
			as = append(as, t.val(b))
		}
		i := t.emit(OpClosure, x.Type(), x.Pos(), as...)
		i.SFn = x.Fn.(*ssa.Function)
		t.vals[x] = i
	case *ssa.MakeMap:
		t.vals[x] = t.emit(OpMakeMap, x.Type(), x.Pos())
	case *ssa.MakeChan:
		t.vals[x] = t.emit(OpMakeChan, x.Type(), x.Pos(), t.val(x.Size))
	case *ssa.MakeSlice:
		t.vals[x] = t.emit(OpMakeSlice, x.Type(), x.Pos(), t.val(x.Len), t.val(x.Cap))
	case *ssa.Slice:
		as := []*Ins{t.val(x.X), nil, nil, nil}
		for k, v := range []ssa.Value{x.Low, x.High, x.Max} {
			if v != nil {
				as[k+1] = t.val(v)
			} else {
				as[k+1] = t.f.constIns(nil, types.Typ[types.UntypedNil])
			}
		}
		t.vals[x] = t.emit(OpSlice, x.Type(), x.Pos(), as...)
	case *ssa.FieldAddr:
		i := t.emit(OpFieldAddr, x.Type(), x.Pos(), t.val(x.X))
		i.Idx = x.Field
		t.vals[x] = i
	case *ssa.Field:
		i := t.emit(OpField, x.Type(), x.Pos(), t.val(x.X))
		i.Idx = x.Field
		t.vals[x] = i
	case *ssa.IndexAddr:
		t.vals[x] = t.emit(OpIndexAddr, x.Type(), x.Pos(), t.val(x.X), t.val(x.Index))
	case *ssa.Index:
		t.vals[x] = t.emit(OpIndex, x.Type(), x.Pos(), t.val(x.X), t.val(x.Index))
	case *ssa.Lookup:
		if i := t.lowerLookup(x); i != nil {
			t.vals[x] = i
			return
		}
		i := t.emit(OpLookup, x.Type(), x.Pos(), t.val(x.X), t.val(x.Index))
		i.CommaOk = x.CommaOk
		t.vals[x] = i
	case *ssa.Select:
		var as []*Ins
		i := t.f.newIns(OpSelect, x.Type())
		for _, s := range x.States {
			snd := t.f.constIns(nil, types.Typ[types.UntypedNil])
			if s.Dir == types.SendOnly {
				snd = t.val(s.Send)
			}
			as = append(as, t.val(s.Chan), snd)
			i.States = append(i.States, selState{Send: s.Dir == types.SendOnly})
		}
		i.Args = as
		i.Block = x.Blocking
		i.Pos = x.Pos()
		i.Ctx = t.ctx
		t.cur.add(i)
		t.vals[x] = i
	case *ssa.Range:
		t.vals[x] = t.emit(OpRange, x.Type(), x.Pos(), t.val(x.X))
	case *ssa.Next:
		i := t.emit(OpNext, x.Type(), x.Pos(), t.val(x.Iter))
		t.vals[x] = i
	case *ssa.TypeAssert:
		i := t.emit(OpTypeAssert, x.Type(), x.Pos(), t.val(x.X))
		i.CommaOk = x.CommaOk
		i.Typ = x.Type()
		t.vals[x] = i
	case *ssa.Extract:
		i := t.emit(OpExtract, x.Type(), x.Pos(), t.val(x.Tuple))
		i.Idx = x.Index
		t.vals[x] = i
	case *ssa.Send:
		t.emit(OpSend, nil, x.Pos(), t.val(x.Chan), t.val(x.X))
	case *ssa.Store:
		t.emit(OpStore, nil, x.Pos(), t.val(x.Addr), t.val(x.Val))
	case *ssa.MapUpdate:
		t.emit(OpMapUpdate, nil, x.Pos(), t.val(x.Map), t.val(x.Key), t.val(x.Value))
	case *ssa.Call:
		t.vals[x] = t.call(x.Common(), x.Type(), x.Pos(), OpCall)
	case *ssa.Go:
		t.call(x.Common(), nil, x.Pos(), OpGo)
	case *ssa.Defer:
		// executed at RunDefers
	case *ssa.RunDefers:
		t.runDefers(sb)
	default:
		panic("unsupported instruction " + in.String())
	}
}

func (t *trans) runDefers(sb *ssa.BasicBlock) {
	var ds []*ssa.Defer
	for _, b := range t.fn.Blocks {
		for _, in := range b.Instrs {
			if d, ok := in.(*ssa.Defer); ok {
				ds = append(ds, d)
			}
		}
	}
	for k := len(ds) - 1; k >= 0; k-- {
		d := ds[k]
		if d.Block().Dominates(sb) {
			t.call(d.Common(), d.Common().Signature().Results(), d.Pos(), OpCall)
			continue
		}
		if !ssaReaches(d.Block(), sb) {
			continue
		}
		// executed only on some paths
		if _, ok := t.vals[d.Common().Value]; !ok && !isStaticValue(d.Common().Value) {
			continue
		}
		ready := true
		for _, a := range d.Common().Args {
			if _, ok := t.vals[a]; !ok && !isStaticValue(a) {
				ready = false
			}
		}
		if !ready {
			continue
		}
		u := t.emit(OpUnknown, types.Typ[types.Bool], d.Pos())
		u.Name = "deferred"
		yes, after := t.f.newBlock(t.ctx), t.f.newBlock(t.ctx)
		t.cur.Term = TIf
		t.cur.Cond = u
		link(t.cur, yes)
		link(t.cur, after)
		t.cur = yes
		t.call(d.Common(), d.Common().Signature().Results(), d.Pos(), OpCall)
		t.cur.Term = TJump
		link(t.cur, after)
		t.cur = after
	}
}

func ssaReaches(from, to *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{from: true}
	for todo := []*ssa.BasicBlock{from}; len(todo) > 0; {
		b := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if b == to {
			return true
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				todo = append(todo, s)
			}
		}
	}
	return false
}

func isStaticValue(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return true
	}
	return false
}

var noReturn = map[string]bool{
	"log.Fatal": true, "log.Fatalf": true, "log.Fatalln": true, "os.Exit": true, "runtime.Goexit": true,
	"(*log.Logger).Fatal": true, "(*log.Logger).Fatalf": true, "(*log.Logger).Fatalln": true,
}
var panics = map[string]bool{"log.Panic": true, "log.Panicf": true, "log.Panicln": true,
	"(*log.Logger).Panic": true, "(*log.Logger).Panicf": true, "(*log.Logger).Panicln": true}

func (t *trans) call(c *ssa.CallCommon, typ types.Type, pos token.Pos, op Op) *Ins {
	f := t.f
	if c.IsInvoke() {
		as := []*Ins{t.val(c.Value)}
		for _, a := range c.Args {
			as = append(as, t.val(a))
		}
		full := c.Method.FullName()
		if op == OpCall {
			if r := t.lowerInvoke(full, as, typ, pos); r != nil {
				return r
			}
		}
		i := t.emit(op, typ, pos, as...)
		i.Invoke = true
		i.Method = c.Method
		return i
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		var as []*Ins
		for _, a := range c.Args {
			as = append(as, t.val(a))
		}
		switch b.Name() {
		case "recover":
			return f.constIns(nil, types.NewInterfaceType(nil, nil))
		case "ssa:wrapnilchk":
			return as[0]
		case "copy":
			return t.lowerCopy(as, pos)
		case "append":
			if len(as) == 2 && emptySlice(c.Args[0]) && !varargs(c.Args[1]) {
				return t.lowerClone(as[1], typ, pos)
			}
		}
		i := t.emit(OpBuiltin, typ, pos, as...)
		i.Name = b.Name()
		return i
	}
	callee := t.val(c.Value)
	as := []*Ins{callee}
	for _, a := range c.Args {
		as = append(as, t.val(a))
	}
	var m *types.Func
	if fn := c.StaticCallee(); fn != nil {
		if o, ok := fn.Object().(*types.Func); ok {
			m = o
		}
	}
	if m != nil && op == OpCall {
		full := m.FullName()
		if r := t.lowerStatic(full, as, typ, pos); r != nil {
			return r
		}
		if noReturn[full] {
			i := t.emit(OpCall, typ, pos, as...)
			i.Method = m
			t.cur.Term = TAbort
			t.cur.Pos = pos
			t.cur = f.newBlock(t.ctx) // unreachable
			return i
		}
		if panics[full] {
			i := t.emit(OpCall, typ, pos, as...)
			i.Method = m
			t.cur.Term = TPanic
			t.cur.Pos = pos
			t.cur = f.newBlock(t.ctx)
			return i
		}
	}
	i := t.emit(op, typ, pos, as...)
	i.Method = m
	return i
}

// loop emits for k := 0; k < n; k++ { body(k) } at the current position.
func (t *trans) loop(n *Ins, pos token.Pos, body func(k *Ins)) {
	f := t.f
	h, bd, after := f.newBlock(t.ctx), f.newBlock(t.ctx), f.newBlock(t.ctx)
	t.cur.Term = TJump
	link(t.cur, h)
	k := f.newIns(OpPhi, types.Typ[types.Int])
	k.Pos = pos
	k.Ctx = t.ctx
	h.add(k)
	t.cur = h
	c := t.emit(OpBin, types.Typ[types.Bool], pos, k, n)
	c.Tok = token.LSS
	h.Term = TIf
	h.Cond = c
	h.Pos = pos
	link(h, bd)
	link(h, after)
	t.cur = bd
	body(k)
	k1 := t.emit(OpBin, types.Typ[types.Int], pos, k, f.intConst(1))
	k1.Tok = token.ADD
	t.cur.Term = TJump
	link(t.cur, h)
	k.Args = []*Ins{f.intConst(0), k1}
	t.cur = after
}

func (t *trans) lenOf(a *Ins, pos token.Pos) *Ins {
	i := t.emit(OpBuiltin, types.Typ[types.Int], pos, a)
	i.Name = "len"
	return i
}

func (t *trans) minOf(pos token.Pos, as ...*Ins) *Ins {
	i := t.emit(OpBuiltin, types.Typ[types.Int], pos, as...)
	i.Name = "min"
	return i
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return elemType(u.Elem())
	case *types.Basic:
		return types.Typ[types.Byte]
	}
	return types.Typ[types.Int]
}

func (t *trans) at(s, k *Ins, pos token.Pos) *Ins {
	if b, ok := s.Typ.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		return t.emit(OpIndex, types.Typ[types.Byte], pos, s, k)
	}
	et := elemType(s.Typ)
	a := t.emit(OpIndexAddr, types.NewPointer(et), pos, s, k)
	return t.emit(OpLoad, et, pos, a)
}

func (t *trans) put(s, k, v *Ins, pos token.Pos) {
	a := t.emit(OpIndexAddr, types.NewPointer(elemType(s.Typ)), pos, s, k)
	t.emit(OpStore, nil, pos, a, v)
}

func (t *trans) lowerCopy(as []*Ins, pos token.Pos) *Ins {
	n := t.minOf(pos, t.lenOf(as[0], pos), t.lenOf(as[1], pos))
	t.loop(n, pos, func(k *Ins) { t.put(as[0], k, t.at(as[1], k, pos), pos) })
	return n
}

// lowerClone emits a copy of s.
func (t *trans) lowerClone(s *Ins, typ types.Type, pos token.Pos) *Ins {
	n := t.lenOf(s, pos)
	m := t.emit(OpMakeSlice, typ, pos, n, n)
	t.loop(n, pos, func(k *Ins) { t.put(m, k, t.at(s, k, pos), pos) })
	return m
}

// emptySlice: nil or a literal without elements.
func emptySlice(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value == nil
	case *ssa.Slice:
		if al, ok := x.X.(*ssa.Alloc); ok {
			if at, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
				return at.Len() == 0
			}
		}
	}
	return false
}

func varargs(v ssa.Value) bool {
	if x, ok := v.(*ssa.Slice); ok {
		if al, ok := x.X.(*ssa.Alloc); ok {
			return al.Comment == "varargs"
		}
	}
	return false
}

// constMap returns the entries of a package-level map that is filled with
// constants when the package is initialised and only looked up afterwards.
func (p *Program) constMap(v ssa.Value) (keys, vals []*ssa.Const, ok bool) {
	ld, isLd := v.(*ssa.UnOp)
	if !isLd || ld.Op != token.MUL {
		return
	}
	g, isG := ld.X.(*ssa.Global)
	if !isG || g.Pkg == nil {
		return
	}
	if g.Object() != nil && g.Object().Exported() {
		// assigned by other packages?
		for _, q := range p.SSA.AllPackages() {
			if q != g.Pkg && !onlyLookups(q, g, nil) {
				return
			}
		}
	}
	init := g.Pkg.Func("init")
	var mk ssa.Value
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			if st, isSt := in.(*ssa.Store); isSt && st.Addr == g {
				if mk != nil {
					return
				}
				mk = st.Val
			}
		}
	}
	m, isM := mk.(*ssa.MakeMap)
	if !isM || !onlyLookups(g.Pkg, g, init) {
		return
	}
	for _, ref := range *m.Referrers() {
		switch u := ref.(type) {
		case *ssa.MapUpdate:
			k, ok1 := u.Key.(*ssa.Const)
			e, ok2 := u.Value.(*ssa.Const)
			if !ok1 || !ok2 || u.Map != m {
				return
			}
			keys, vals = append(keys, k), append(vals, e)
		case *ssa.Store:
			if u.Val != m || u.Addr != g {
				return
			}
		case *ssa.DebugRef:
		default:
			return
		}
	}
	return keys, vals, true
}

// onlyLookups: outside of skip the package only looks up elements of the map.
func onlyLookups(q *ssa.Package, g *ssa.Global, skip *ssa.Function) bool {
	ok := true
	var visit func(fn *ssa.Function)
	visit = func(fn *ssa.Function) {
		for _, a := range fn.AnonFuncs {
			visit(a)
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if fn == skip {
					if st, isSt := in.(*ssa.Store); isSt && st.Addr == g {
						continue
					}
				}
				for _, o := range in.Operands(nil) {
					if *o != ssa.Value(g) {
						continue
					}
					ld, isLd := in.(*ssa.UnOp)
					if !isLd || ld.Op != token.MUL {
						ok = false
						continue
					}
					for _, r := range *ld.Referrers() {
						switch u := r.(type) {
						case *ssa.Lookup:
							if u.X != ld {
								ok = false
							}
						case *ssa.DebugRef:
						default:
							ok = false
						}
					}
				}
			}
		}
	}
	for _, m := range q.Members {
		switch x := m.(type) {
		case *ssa.Function:
			visit(x)
		case *ssa.Type:
			for _, tt := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
				ms := q.Prog.MethodSets.MethodSet(tt)
				for k := 0; k < ms.Len(); k++ {
					if fn := q.Prog.MethodValue(ms.At(k)); fn != nil && fn.Pkg == q {
						visit(fn)
					}
				}
			}
		}
	}
	return ok
}

// lowerLookup compares the key with each key of a constant map.
func (t *trans) lowerLookup(x *ssa.Lookup) *Ins {
	keys, vals, ok := t.f.P.constMap(x.X)
	if !ok || len(keys) == 0 || len(keys) > 64 {
		return nil
	}
	f := t.f
	elem := x.X.Type().Underlying().(*types.Map).Elem()
	key, pos := t.val(x.Index), x.Pos()
	after := f.newBlock(t.ctx)
	v := f.newIns(OpPhi, elem)
	found := f.newIns(OpPhi, types.Typ[types.Bool])
	for k := range keys {
		c := t.emit(OpBin, types.Typ[types.Bool], pos, key, t.val(keys[k]))
		c.Tok = token.EQL
		next := f.newBlock(t.ctx)
		hit := f.newBlock(t.ctx)
		t.cur.Term, t.cur.Cond, t.cur.Pos = TIf, c, pos
		link(t.cur, hit)
		link(t.cur, next)
		hit.Term = TJump
		link(hit, after)
		v.Args = append(v.Args, t.val(vals[k]))
		found.Args = append(found.Args, f.boolConst(true))
		t.cur = next
	}
	t.cur.Term = TJump
	link(t.cur, after)
	v.Args = append(v.Args, zeroOf(f, elem))
	found.Args = append(found.Args, f.boolConst(false))
	for _, i := range []*Ins{v, found} {
		i.Pos, i.Ctx = pos, t.ctx
		after.add(i)
	}
	t.cur = after
	if x.CommaOk {
		return t.emit(OpTuple, x.Type(), pos, v, found)
	}
	return v
}

// pure emits a side-effect free named operation.
func (t *trans) pure(name string, typ types.Type, pos token.Pos, as ...*Ins) *Ins {
	i := t.emit(OpPure, typ, pos, as...)
	i.Name = name
	return i
}

func (t *trans) lowerInvoke(full string, as []*Ins, typ types.Type, pos token.Pos) *Ins {
	switch full {
	case "(encoding/binary.ByteOrder).Uint32", "(encoding/binary.ByteOrder).Uint64", "(encoding/binary.ByteOrder).Uint16":
		return nil
	case "(io.Reader).Read":
		i := t.emit(OpCall, typ, pos, as...)
		i.Invoke = true
		i.Method = readerRead(t.f.P)
		t.fill("partial", i, as[1], pos)
		return i
	case "(crypto/cipher.Block).Encrypt":
		i := t.emit(OpCall, typ, pos, as...)
		i.Invoke = true
		i.Method = t.f.P.lookupIfaceMethod("crypto/cipher", "Block", "Encrypt")
		// dst[k] depends on the block, the source region and k
		src := as[2]
		var ins []*Ins
		for k := 0; k < 16; k++ {
			_ = k
		}
		ins = append(ins, as[0])
		for k := 0; k < 16; k++ {
			ins = append(ins, t.at(src, t.f.intConst(int64(k)), pos))
		}
		blk := t.pure("aes", types.Typ[types.Int], pos, ins...)
		t.loop(t.f.intConst(16), pos, func(k *Ins) {
			t.put(as[1], k, t.pure("aesbyte", types.Typ[types.Byte], pos, blk, k), pos)
		})
		return i
	}
	return nil
}

// fill overwrites a byte buffer with bytes produced by call i.
func (t *trans) fill(name string, i *Ins, buf *Ins, pos token.Pos) {
	t.loop(t.lenOf(buf, pos), pos, func(k *Ins) {
		t.put(buf, k, t.pure("filled:"+name, types.Typ[types.Byte], pos, i, k), pos)
	})
}

func readerRead(p *Program) *types.Func { return p.lookupIfaceMethod("io", "Reader", "Read") }

func (p *Program) lookupIfaceMethod(pkg, typ, m string) *types.Func {
	for _, q := range p.SSA.AllPackages() {
		if q.Pkg.Path() == pkg {
			if o := q.Pkg.Scope().Lookup(typ); o != nil {
				if it, ok := o.Type().Underlying().(*types.Interface); ok {
					for k := 0; k < it.NumMethods(); k++ {
						if it.Method(k).Name() == m {
							return it.Method(k)
						}
					}
				}
			}
		}
	}
	return nil
}

func (t *trans) lowerStatic(full string, as []*Ins, typ types.Type, pos token.Pos) *Ins {
	f := t.f
	mk := func() *Ins {
		i := t.emit(OpCall, typ, pos, as...)
		if as[0].SFn != nil {
			if o, ok := as[0].SFn.Object().(*types.Func); ok {
				i.Method = o
			}
		}
		return i
	}
	if strings.HasPrefix(full, "(lukechampine.com/uint128.Uint128).PutBytes") {
		// the call stays visible, what it writes too
		c := mk()
		for k := 0; k < 16; k++ {
			sig := k
			if strings.HasSuffix(full, "BE") {
				sig = 15 - k
			}
			t.put(as[2], f.intConst(int64(k)), t.pure("byteof", types.Typ[types.Byte], pos, as[1], f.intConst(int64(sig))), pos)
		}
		return c
	}
	end := strings.HasPrefix(full, "(encoding/binary.bigEndian).") || strings.HasPrefix(full, "(encoding/binary.littleEndian).")
	if end {
		le := strings.HasPrefix(full, "(encoding/binary.littleEndian).")
		m := full[strings.LastIndex(full, ".")+1:]
		put := strings.HasPrefix(m, "Put")
		add := strings.HasPrefix(m, "Append")
		w := 0
		switch strings.TrimPrefix(strings.TrimPrefix(m, "Put"), "Append") {
		case "Uint16":
			w = 2
		case "Uint32":
			w = 4
		case "Uint64":
			w = 8
		default:
			return nil
		}
		// as: fn, receiver, buf[, val]
		if put {
			for k := 0; k < w; k++ {
				sig := w - 1 - k
				if le {
					sig = k
				}
				// byte number sig counted from the least significant
				v := t.pure("byteof", types.Typ[types.Byte], pos, as[3], f.intConst(int64(sig)))
				t.put(as[2], f.intConst(int64(k)), v, pos)
			}
			return f.constIns(nil, types.NewTuple())
		}
		if add {
			// append(buf, byte...)
			al := t.emit(OpAlloc, types.NewPointer(types.NewArray(types.Typ[types.Byte], int64(w))), pos)
			al.Name = "varargs"
			for k := 0; k < w; k++ {
				sig := w - 1 - k
				if le {
					sig = k
				}
				t.put(al, f.intConst(int64(k)), t.pure("byteof", types.Typ[types.Byte], pos, as[3], f.intConst(int64(sig))), pos)
			}
			no := f.constIns(nil, types.Typ[types.UntypedNil])
			sl := t.emit(OpSlice, typ, pos, al, no, no, no)
			i := t.emit(OpBuiltin, typ, pos, as[2], sl)
			i.Name = "append"
			return i
		}
		var bs []*Ins
		for k := 0; k < w; k++ {
			j := k
			if le {
				j = w - 1 - k
			}
			bs = append(bs, t.at(as[2], f.intConst(int64(j)), pos))
		}
		return t.pure("be", typ, pos, bs...)
	}
	switch full {
	case "github.com/lukechampine/fastxor.Bytes":
		n := t.minOf(pos, t.lenOf(as[1], pos), t.lenOf(as[2], pos), t.lenOf(as[3], pos))
		t.loop(n, pos, func(k *Ins) {
			x := t.emit(OpBin, types.Typ[types.Byte], pos, t.at(as[2], k, pos), t.at(as[3], k, pos))
			x.Tok = token.XOR
			t.put(as[1], k, x, pos)
		})
		return n
	case "github.com/lukechampine/fastxor.Block":
		t.loop(f.intConst(16), pos, func(k *Ins) {
			x := t.emit(OpBin, types.Typ[types.Byte], pos, t.at(as[2], k, pos), t.at(as[3], k, pos))
			x.Tok = token.XOR
			t.put(as[1], k, x, pos)
		})
		return f.constIns(nil, types.NewTuple())
	case "github.com/lukechampine/fastxor.Byte":
		n := t.minOf(pos, t.lenOf(as[1], pos), t.lenOf(as[2], pos))
		t.loop(n, pos, func(k *Ins) {
			x := t.emit(OpBin, types.Typ[types.Byte], pos, t.at(as[2], k, pos), as[3])
			x.Tok = token.XOR
			t.put(as[1], k, x, pos)
		})
		return n
	case "io.ReadFull":
		i := mk()
		t.fill("full", i, as[2], pos)
		return i
	case "io.ReadAtLeast":
		i := mk()
		t.fill("atleast", i, as[2], pos)
		return i
	case "crypto/rand.Read":
		i := mk()
		t.fill("osrand", i, as[1], pos)
		return i
	case "math/rand.Read":
		i := mk()
		t.fill("mathrand", i, as[1], pos)
		return i
	case "math/bits.Reverse8", "math/bits.LeadingZeros8", "math/bits.TrailingZeros8", "math/bits.Len", "math/bits.Len64", "math/bits.Len32", "math/bits.Len8":
		return t.pure(full[strings.LastIndex(full, "/")+1:], typ, pos, as[1:]...)
	case "math.Ceil", "math.Floor", "math.Sqrt", "math.Log2", "math.Pow", "math.Min", "math.Max":
		return t.pure(full, typ, pos, as[1:]...)
	}
	return nil
}

// ---- expansion of calls -------------------------------------------------------

func (f *Flat) target(i *Ins) (*ssa.Function, []*Ins, []*Ins) {
	if i.Invoke {
		r := i.Args[0]
		if r.Op == OpMakeIface {
			ct := r.Args[0].Typ
			sel := f.P.SSA.MethodSets.MethodSet(ct).Lookup(i.Method.Pkg(), i.Method.Name())
			if sel == nil {
				return nil, nil, nil
			}
			fn := f.P.SSA.MethodValue(sel)
			return fn, append([]*Ins{r.Args[0]}, i.Args[1:]...), nil
		}
		return nil, nil, nil
	}
	c := i.Args[0]
	switch c.Op {
	case OpFunc:
		if m := f.modelled(c.SFn, i.Args[1:]); m != nil {
			return m, i.Args[1:], nil
		}
		return c.SFn, i.Args[1:], nil
	case OpClosure:
		return c.SFn, i.Args[1:], c.Args
	}
	return nil, nil, nil
}

// modelled gives the function of sessions/lib.go.txt that does what this call
// of a library function does.
func (f *Flat) modelled(fn *ssa.Function, args []*Ins) *ssa.Function {
	if fn.Pkg == nil || fn.String() != "bytes.Join" || len(args) != 2 {
		return nil
	}
	if !args[1].isNil() {
		return nil
	}
	return f.P.Func("zzverif.L_BytesJoin")
}

func (f *Flat) expandable(fn *ssa.Function, ctx *Ctx) bool {
	if fn == nil || len(fn.Blocks) == 0 {
		return false
	}
	path := fnPkgPath(fn)
	if fn.Synthetic == "" || fn.Parent() != nil {
		if !strings.HasPrefix(path, modPath) || path == modPath+"/lib/proto" {
			return false
		}
	} else if strings.HasPrefix(fn.Name(), "init") && fn.Signature.Recv() == nil {
		return false
	}
	if strings.Contains(fn.Name(), "_Cfunc") || strings.HasPrefix(fn.Name(), "_cgo") || strings.HasPrefix(fn.Name(), "_Cgo") {
		return false
	}
	if ctx.has(fn) || ctx.Depth > maxDepth {
		return false
	}
	if f.NoInl != nil && f.NoInl(fn) {
		return false
	}
	return true
}

// expandCalls inlines all currently resolvable calls once.
func (f *Flat) expandCalls() bool {
	changed := false
	repl := map[*Ins]*Ins{}
	for bi := 0; bi < len(f.Blocks); bi++ {
		b := f.Blocks[bi]
		if b.dead {
			continue
		}
		for k := 0; k < len(b.Ins); k++ {
			i := b.Ins[k]
			if (i.Op != OpCall && i.Op != OpGo) || len(i.Args) == 0 || (i.Once && i.Args[0].Op == OpFunc) || i.Op == OpGo && i.Name == "expanded" {
				continue
			}
			fn, args, fvs := f.target(i)
			if fn == nil {
				continue
			}
			i.Once = true
			if i.Method == nil || i.Invoke {
				if o, ok := fn.Object().(*types.Func); ok && fn.Synthetic == "" {
					_ = o
				}
			}
			if !f.expandable(fn, i.Ctx) {
				// remember the concrete callee of a resolved interface call
				if i.Invoke && fn.Synthetic == "" {
					i.Invoke = false
					i.Args = append([]*Ins{f.funcIns(fn)}, args...)
					if o, ok := fn.Object().(*types.Func); ok {
						i.Method = o
					}
					changed = true
				}
				continue
			}
			if len(f.Blocks) > 60000 {
				panic("entry " + f.Name + " is too large to flatten")
			}
			changed = true
			f.Inlined[fn]++
			ctx := &Ctx{Fn: fn, CallPos: i.Pos, Parent: i.Ctx, Depth: i.Ctx.Depth + 1}
			for j, a := range args { // the map may have replaced arguments already
				args[j] = resolveRepl(repl, a)
			}
			for j, a := range fvs {
				_ = j
				_ = a
			}
			async := i.Op == OpGo
			if async {
				ctx.Async = i
			}
			entry, rets := f.translate(fn, args, fvs, ctx)
			after := f.newBlock(b.Ctx)
			after.Ins = append([]*Ins{}, b.Ins[k+1:]...)
			for _, x := range after.Ins {
				x.Blk = after
			}
			after.Term, after.Cond, after.Rets, after.Pos, after.Succs = b.Term, b.Cond, b.Rets, b.Pos, b.Succs
			for _, s := range after.Succs {
				for pi, q := range s.Preds {
					if q == b {
						s.Preds[pi] = after
					}
				}
			}
			b.Succs = nil
			b.Rets = nil
			b.Cond = nil
			b.Pos = i.Pos
			if async {
				b.Ins = b.Ins[: k+1 : k+1] // keep the go marker
				i.Name = "expanded"
				if spawns(fn) {
					b.Term = TIf // cond nil: both
					link(b, after)
					link(b, entry)
					for _, r := range rets {
						r.blk.Term = TThreadEnd
					}
				} else {
					b.Term = TJump
					link(b, entry)
					for _, r := range rets {
						r.blk.Term = TJump
						link(r.blk, after)
					}
				}
				break
			}
			b.Ins = b.Ins[:k:k]
			b.Term = TJump
			link(b, entry)
			nres := fn.Signature.Results().Len()
			for _, r := range rets {
				r.blk.Term = TJump
				link(r.blk, after)
			}
			var vals []*Ins
			for q := 0; q < nres; q++ {
				if len(rets) == 1 {
					vals = append(vals, rets[0].vals[q])
					continue
				}
				ph := f.newIns(OpPhi, fn.Signature.Results().At(q).Type())
				ph.Pos = i.Pos
				ph.Ctx = i.Ctx
				ph.Blk = after
				for _, r := range rets {
					ph.Args = append(ph.Args, r.vals[q])
				}
				after.Ins = append([]*Ins{ph}, after.Ins...)
				vals = append(vals, ph)
			}
			if nres == 1 {
				repl[i] = vals[0]
			} else if nres > 1 {
				tp := f.newIns(OpTuple, i.Typ, vals...)
				tp.Pos = i.Pos
				tp.Ctx = i.Ctx
				tp.Blk = after
				np := len(after.phis())
				after.Ins = append(after.Ins[:np:np], append([]*Ins{tp}, after.Ins[np:]...)...)
				repl[i] = tp
			}
			break
		}
	}
	if len(repl) > 0 {
		f.applyRepl(repl)
	}
	return changed
}

func (f *Flat) funcIns(fn *ssa.Function) *Ins {
	key := "func|" + fn.String()
	if c, ok := f.consts[key]; ok && c.SFn == fn {
		return c
	}
	i := f.newIns(OpFunc, fn.Type())
	i.SFn = fn
	f.consts[key] = i
	return i
}

// spawns tells whether a goroutine body runs alongside its creator (it waits
// for something or never returns) rather than computing something and ending.
func spawns(fn *ssa.Function) bool {
	hasRet := false
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Return:
				hasRet = true
			case *ssa.Select:
				return true
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					return true
				}
			}
		}
	}
	return !hasRet
}

func resolveRepl(m map[*Ins]*Ins, i *Ins) *Ins {
	for {
		r, ok := m[i]
		if !ok || r == i {
			return i
		}
		i = r
	}
}

func (f *Flat) applyRepl(m map[*Ins]*Ins) {
	for _, b := range f.Blocks {
		if b.dead {
			continue
		}
		for _, i := range b.Ins {
			for k, a := range i.Args {
				if a != nil {
					i.Args[k] = resolveRepl(m, a)
				}
			}
		}
		if b.Cond != nil {
			b.Cond = resolveRepl(m, b.Cond)
		}
		for k, a := range b.Rets {
			b.Rets[k] = resolveRepl(m, a)
		}
	}
}

var _ = constant.MakeInt64
