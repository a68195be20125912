package main

import (
	"go/constant"
	"go/token"
	"go/types"
)

func (f *Flat) optimize() {
	f.cleanup()
	for round := 0; round < 60; round++ {
		ch := false
		if f.expandCalls() {
			ch = true
		}
		for k := 0; k < 20; k++ {
			c2 := f.cleanup()
			if f.simplify() {
				c2 = true
			}
			if f.promote() {
				c2 = true
			}
			if f.dce() {
				c2 = true
			}
			if !c2 {
				break
			}
			ch = true
		}
		if f.cursors() {
			ch = true
		}
		for f.combineStores() {
			ch = true
		}
		if f.threadJumps() {
			f.cleanup()
			ch = true
		}
		if !ch {
			break
		}
	}
	f.cleanup()
	for k := 0; k < 400 && f.splitReturn(); k++ {
		f.cleanup()
	}
	f.splitStores()
	f.dce()
	f.cleanup()
	f.compact()
}

// cursors turns a slice that a loop cuts from the front, s = s[n:], into an
// offset into the slice before the loop.
func (f *Flat) cursors() bool {
	changed := false
	dom := f.dominators()
	repl := map[*Ins]*Ins{}
	for _, b := range f.Blocks {
		if b.dead {
			continue
		}
	phi:
		for _, i := range b.phis() {
			if _, isSl := i.Typ.Underlying().(*types.Slice); !isSl {
				continue
			}
			var from *Ins
			cut := make([]*Ins, len(i.Args))
			n := 0
			for k, a := range i.Args {
				if a.Op == OpSlice && a.Args[0] == i && a.Args[2].isNil() && a.Args[3].isNil() {
					cut[k] = a
					n++
					continue
				}
				if from != nil && from != a || a == i || dominates(dom, b, b.Preds[k]) {
					continue phi
				}
				from = a
			}
			if n == 0 || from == nil {
				continue
			}
			off := f.newIns(OpPhi, types.Typ[types.Int])
			off.Pos, off.Ctx, off.Blk = i.Pos, i.Ctx, b
			for _, c := range cut {
				switch {
				case c == nil:
					off.Args = append(off.Args, f.intConst(0))
				case c.Args[1].isNil():
					off.Args = append(off.Args, off)
				default:
					sum := f.newIns(OpBin, types.Typ[types.Int], off, c.Args[1])
					if !types.Identical(c.Args[1].Typ.Underlying(), types.Typ[types.Int]) {
						cv := f.newIns(OpConvert, types.Typ[types.Int], c.Args[1])
						f.insertBefore(cv, c)
						sum.Args[1] = cv
					}
					sum.Tok = token.ADD
					f.insertBefore(sum, c)
					off.Args = append(off.Args, sum)
				}
			}
			no := f.constIns(nil, types.Typ[types.UntypedNil])
			sl := f.newIns(OpSlice, i.Typ, from, off, no, no)
			sl.Pos, sl.Ctx, sl.Blk = i.Pos, i.Ctx, b
			var ins []*Ins
			np := len(b.phis())
			for k, x := range b.Ins {
				if k == np {
					ins = append(ins, sl)
				}
				if x == i {
					x = off
				}
				ins = append(ins, x)
			}
			if np == len(b.Ins) {
				ins = append(ins, sl)
			}
			b.Ins = ins
			repl[i] = sl
			f.applyRepl(repl)
			f.cursorTests(sl, from, off)
			changed = true
		}
	}
	return changed
}

// cursorTests expresses what remains of a slice by the offset.
func (f *Flat) cursorTests(sl, from, off *Ins) {
	uses := f.uses()
	bin := func(tok token.Token, typ types.Type, x, y, at *Ins) *Ins {
		i := f.newIns(OpBin, typ, x, y)
		i.Tok = tok
		f.insertBefore(i, at)
		return i
	}
	repl := map[*Ins]*Ins{}
	for _, u := range uses[sl] {
		if u.Op != OpBuiltin || u.Name != "len" {
			continue
		}
		ln := f.newIns(OpBuiltin, types.Typ[types.Int], from)
		ln.Name = "len"
		f.insertBefore(ln, u)
		repl[u] = bin(token.SUB, types.Typ[types.Int], ln, off, u)
		for _, c := range uses[u] {
			if c.Op != OpBin || c.Args[0] != u && c.Args[1] != u || c.Args[0] == c.Args[1] {
				continue
			}
			tok, y := c.Tok, c.Args[1]
			if y == u {
				tok, y = flip(tok), c.Args[0]
			}
			switch tok {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
				// len - off < y: off > len - y
				rest := ln
				if !y.isIntZero() {
					rest = bin(token.SUB, types.Typ[types.Int], ln, y, c)
				}
				repl[c] = bin(flip(tok), c.Typ, off, rest, c)
			}
		}
	}
	if len(repl) > 0 {
		f.applyRepl(repl)
	}
}

func (i *Ins) isIntZero() bool {
	n, ok := i.isConstInt()
	return ok && n == 0
}

func (f *Flat) insertBefore(n, at *Ins) {
	n.Pos, n.Ctx, n.Blk = at.Pos, at.Ctx, at.Blk
	var ins []*Ins
	for _, x := range at.Blk.Ins {
		if x == at {
			ins = append(ins, n)
		}
		ins = append(ins, x)
	}
	at.Blk.Ins = ins
}

// splitStores stores composite values field by field.
func (f *Flat) splitStores() {
	for _, b := range f.Blocks {
		var out []*Ins
		var put func(i, addr, v *Ins)
		put = func(i, addr, v *Ins) {
			st, ok := v.Typ.Underlying().(*types.Struct)
			if v.Op != OpAgg || !ok {
				if addr != i.Args[0] {
					n := f.newIns(OpStore, i.Typ, addr, v)
					n.Blk, n.Ctx, n.Pos = b, i.Ctx, i.Pos
					out = append(out, n)
				} else {
					out = append(out, i)
				}
				return
			}
			for k := 0; k < st.NumFields(); k++ {
				g := f.newIns(OpFieldAddr, types.NewPointer(st.Field(k).Type()), addr)
				g.Idx = k
				g.Blk, g.Ctx, g.Pos = b, i.Ctx, i.Pos
				out = append(out, g)
				put(i, g, v.Args[k])
			}
		}
		for _, i := range b.Ins {
			if i.Op == OpStore && i.Args[1] != nil && i.Args[1].Op == OpAgg {
				put(i, i.Args[0], i.Args[1])
				continue
			}
			out = append(out, i)
		}
		b.Ins = out
	}
}

// splitReturn gives every predecessor of a merged return its own return, so
// that each exit has one value.
func (f *Flat) splitReturn() bool {
	for _, b := range f.Blocks {
		if b.dead || (b.Term != TReturn && b.Term != TPanic) || len(b.Preds) < 2 || len(b.Ins) > 60 || len(b.phis()) == 0 {
			continue
		}
		for k, p := range append([]*Block{}, b.Preds...) {
			c := f.newBlock(b.Ctx)
			c.Pos = b.Pos
			c.Term = b.Term
			m := map[*Ins]*Ins{}
			for _, i := range b.Ins {
				if i.Op == OpPhi {
					m[i] = i.Args[k]
					continue
				}
				n := *i
				f.nextI++
				n.ID = f.nextI
				n.Args = append([]*Ins{}, i.Args...)
				for q, a := range n.Args {
					if r, ok := m[a]; ok {
						n.Args[q] = r
					}
				}
				c.add(&n)
				m[i] = &n
			}
			for _, r := range b.Rets {
				if x, ok := m[r]; ok {
					r = x
				}
				c.Rets = append(c.Rets, r)
			}
			q := -1
			for j := range p.Succs {
				if p.Succs[j] == b && predIndex(p, j) == k {
					q = j
				}
			}
			if q < 0 {
				for j := range p.Succs {
					if p.Succs[j] == b {
						q = j
					}
				}
			}
			c.Preds = []*Block{p}
			defer func(p *Block, q int, c *Block) { p.Succs[q] = c }(p, q, c)
		}
		b.Preds = nil
		b.dead = true
		return true
	}
	return false
}

// cleanup removes unreachable blocks and merges straight-line blocks.
func (f *Flat) cleanup() bool {
	changed := false
	reach := map[*Block]bool{}
	stack := []*Block{f.Entry}
	for len(stack) > 0 {
		b := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if reach[b] {
			continue
		}
		reach[b] = true
		stack = append(stack, b.Succs...)
	}
	for _, b := range f.Blocks {
		if b.dead || !reach[b] {
			b.dead = true
			continue
		}
		for i := len(b.Preds) - 1; i >= 0; i-- {
			if !reach[b.Preds[i]] {
				b.removePredAt(i)
				changed = true
			}
		}
	}
	f.compactBlocks()
	// straight-line merging
	repl := map[*Ins]*Ins{}
	for _, b := range f.Blocks {
		if b.dead {
			continue
		}
		for b.Term == TJump && len(b.Succs) == 1 {
			s := b.Succs[0]
			if s == b || s == f.Entry || len(s.Preds) != 1 || b == f.Entry {
				break
			}
			for _, p := range s.phis() {
				repl[p] = p.Args[0]
			}
			rest := s.Ins[len(s.phis()):]
			for _, x := range rest {
				x.Blk = b
			}
			b.Ins = append(b.Ins, rest...)
			b.Term, b.Cond, b.Rets, b.Succs = s.Term, s.Cond, s.Rets, s.Succs
			if s.Pos.IsValid() {
				b.Pos = s.Pos
			}
			if s.Term != TJump {
				b.Ctx = s.Ctx
			}
			for _, t := range b.Succs {
				for i, q := range t.Preds {
					if q == s {
						t.Preds[i] = b
					}
				}
			}
			s.dead = true
			s.Succs = nil
			s.Preds = nil
			changed = true
		}
	}
	if len(repl) > 0 {
		f.applyRepl(repl)
	}
	f.compactBlocks()
	return changed
}

func (f *Flat) compactBlocks() {
	var live []*Block
	for _, b := range f.Blocks {
		if !b.dead {
			live = append(live, b)
		}
	}
	f.Blocks = live
}

func (f *Flat) compact() {}

func zeroOf(f *Flat, t types.Type) *Ins {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return f.constIns(constant.MakeBool(false), t)
		case u.Info()&types.IsString != 0:
			return f.constIns(constant.MakeString(""), t)
		case u.Info()&types.IsInteger != 0:
			return f.constIns(constant.MakeInt64(0), t)
		case u.Info()&types.IsFloat != 0:
			return f.constIns(constant.MakeFloat64(0), t)
		}
	}
	return f.constIns(nil, t)
}

var errorMakers = map[string]bool{"errors.New": true, "fmt.Errorf": true, "golang.org/x/xerrors.Errorf": true, "golang.org/x/xerrors.New": true,
	"google.golang.org/grpc/status.Error": true, "google.golang.org/grpc/status.Errorf": true}

func nonNil(i *Ins) bool {
	switch i.Op {
	case OpAlloc, OpMakeIface, OpMakeSlice, OpMakeMap, OpMakeChan, OpClosure, OpFieldAddr, OpIndexAddr, OpGlobal:
		return true
	case OpFunc:
		return true
	case OpCall:
		return i.Method != nil && errorMakers[i.Method.FullName()]
	}
	return false
}

// nilness: 1 nil, 2 not nil, 0 unknown
func nilness(i *Ins) int {
	if i.isNil() {
		return 1
	}
	if nonNil(i) {
		return 2
	}
	return 0
}

func wrapInt(v constant.Value, t types.Type) constant.Value {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || v.Kind() != constant.Int {
		return v
	}
	bitsN, uns := 64, b.Info()&types.IsUnsigned != 0
	switch b.Kind() {
	case types.Int8, types.Uint8:
		bitsN = 8
	case types.Int16, types.Uint16:
		bitsN = 16
	case types.Int32, types.Uint32:
		bitsN = 32
	}
	mod := constant.Shift(constant.MakeInt64(1), token.SHL, uint(bitsN))
	mask := constant.BinaryOp(mod, token.SUB, constant.MakeInt64(1))
	w := constant.BinaryOp(v, token.AND, mask)
	if !uns {
		half := constant.Shift(constant.MakeInt64(1), token.SHL, uint(bitsN-1))
		if constant.Compare(w, token.GEQ, half) {
			w = constant.BinaryOp(w, token.SUB, mod)
		}
	}
	return w
}

func (f *Flat) simplify() bool {
	repl := map[*Ins]*Ins{}
	changed := false
	for _, b := range f.Blocks {
		if b.dead {
			continue
		}
		for _, i := range b.Ins {
			if r := f.simp(i, repl); r != nil && r != i {
				repl[i] = r
			}
		}
	}
	if len(repl) > 0 {
		// resolve phi cycles safely
		for k := range repl {
			seen := map[*Ins]bool{}
			x := k
			for {
				if seen[x] {
					delete(repl, k)
					break
				}
				seen[x] = true
				r, ok := repl[x]
				if !ok {
					break
				}
				x = r
			}
		}
		f.applyRepl(repl)
		for _, b := range f.Blocks {
			var keep []*Ins
			for _, i := range b.Ins {
				if _, ok := repl[i]; !ok {
					keep = append(keep, i)
				}
			}
			b.Ins = keep
		}
		changed = true
	}
	for _, b := range f.Blocks {
		if b.dead || b.Term != TIf || b.Cond == nil {
			continue
		}
		if v, ok := b.Cond.isConstBool(); ok {
			drop := 1
			if !v {
				drop = 0
			}
			removeEdge(b, drop)
			b.Term = TJump
			b.Cond = nil
			changed = true
		} else if b.Succs[0] == b.Succs[1] && len(b.Succs[0].phis()) == 0 {
			removeEdge(b, 1)
			b.Term = TJump
			b.Cond = nil
			changed = true
		}
	}
	return changed
}

func (f *Flat) simp(i *Ins, repl map[*Ins]*Ins) *Ins {
	arg := func(k int) *Ins { return resolveRepl(repl, i.Args[k]) }
	switch i.Op {
	case OpPhi:
		var same *Ins
		for k := range i.Args {
			a := arg(k)
			if a == i || a == same {
				continue
			}
			if same != nil {
				return nil
			}
			same = a
		}
		if same != nil {
			return same
		}
	case OpExtract:
		if t := arg(0); t.Op == OpTuple {
			return t.Args[i.Idx]
		}
	case OpField:
		a := arg(0)
		if a.Op == OpAgg {
			return a.Args[i.Idx]
		}
		if a.Op == OpConst && a.Val == nil {
			return zeroOf(f, i.Typ)
		}
	case OpIndex:
		a := arg(0)
		if a.Op == OpAgg {
			if k, ok := arg(1).isConstInt(); ok && int(k) < len(a.Args) {
				return a.Args[k]
			}
		}
	case OpTypeAssert:
		a := arg(0)
		if a.Op == OpMakeIface {
			at := i.Typ
			if tp, ok := at.(*types.Tuple); ok {
				at = tp.At(0).Type()
			}
			okv := false
			var v *Ins
			if it, isI := at.Underlying().(*types.Interface); isI {
				okv = types.Implements(a.Args[0].Typ, it)
				v = a
			} else {
				okv = types.Identical(a.Args[0].Typ, at)
				v = a.Args[0]
			}
			if i.CommaOk {
				tp := f.newIns(OpTuple, i.Typ, v, f.boolConst(okv))
				if !okv {
					tp.Args[0] = zeroOf(f, at)
				}
				tp.Ctx, tp.Pos, tp.Blk = i.Ctx, i.Pos, i.Blk
				return tp
			}
			if okv {
				return v
			}
		}
	case OpUn:
		a := arg(0)
		if i.Tok == token.NOT {
			if v, ok := a.isConstBool(); ok {
				return f.boolConst(!v)
			}
			if a.Op == OpUn && a.Tok == token.NOT {
				return a.Args[0]
			}
		}
		if a.Op == OpConst && a.Val != nil && a.Val.Kind() == constant.Int && i.Tok == token.SUB {
			return f.constIns(wrapInt(constant.UnaryOp(token.SUB, a.Val, 0), i.Typ), i.Typ)
		}
	case OpConvert:
		a := arg(0)
		if a.Op == OpConst && a.Val != nil {
			if bt, ok := i.Typ.Underlying().(*types.Basic); ok {
				if a.Val.Kind() == constant.Int && bt.Info()&types.IsInteger != 0 {
					return f.constIns(wrapInt(a.Val, i.Typ), i.Typ)
				}
				if a.Val.Kind() == constant.Int && bt.Info()&types.IsFloat != 0 {
					return f.constIns(constant.ToFloat(a.Val), i.Typ)
				}
			}
		}
	case OpBuiltin:
		if (i.Name == "min" || i.Name == "max") && len(i.Args) == 1 {
			return arg(0)
		}
		if i.Name == "len" {
			a := arg(0)
			if a.Op == OpConst && a.Val != nil && a.Val.Kind() == constant.String {
				return f.intConst(int64(len(constant.StringVal(a.Val))))
			}
			if a.isNil() {
				return f.intConst(0)
			}
		}
	case OpBin:
		x, y := arg(0), arg(1)
		if x.Op == OpConst && y.Op == OpConst && x.Val != nil && y.Val != nil {
			return foldBin(f, i, x.Val, y.Val)
		}
		if i.Tok == token.EQL || i.Tok == token.NEQ {
			nx, ny := nilness(x), nilness(y)
			if nx == 1 && ny == 1 {
				return f.boolConst(i.Tok == token.EQL)
			}
			if nx+ny == 3 && nx != 0 && ny != 0 {
				return f.boolConst(i.Tok == token.NEQ)
			}
			if x == y && isIntType(x.Typ) {
				return f.boolConst(i.Tok == token.EQL)
			}
			// b == true, b == false
			for k := 0; k < 2; k++ {
				if v, ok := y.isConstBool(); ok {
					if v == (i.Tok == token.EQL) {
						return x
					}
				}
				x, y = y, x
			}
		}
	}
	return nil
}

func isIntType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isUnsigned(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func foldBin(f *Flat, i *Ins, x, y constant.Value) (res *Ins) {
	defer func() {
		if recover() != nil {
			res = nil
		}
	}()
	switch i.Tok {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		if x.Kind() == constant.Bool || y.Kind() == constant.Bool {
			if i.Tok == token.EQL {
				return f.boolConst(constant.BoolVal(x) == constant.BoolVal(y))
			}
			return f.boolConst(constant.BoolVal(x) != constant.BoolVal(y))
		}
		return f.boolConst(constant.Compare(x, i.Tok, y))
	case token.SHL, token.SHR:
		s, ok := constant.Uint64Val(y)
		if !ok || s > 128 {
			return nil
		}
		return f.constIns(wrapInt(constant.Shift(x, i.Tok, uint(s)), i.Typ), i.Typ)
	case token.QUO:
		if isIntType(i.Typ) {
			return f.constIns(wrapInt(constant.BinaryOp(x, token.QUO_ASSIGN, y), i.Typ), i.Typ)
		}
		return f.constIns(constant.BinaryOp(x, token.QUO, y), i.Typ)
	case token.ADD, token.SUB, token.MUL, token.REM, token.AND, token.OR, token.XOR, token.AND_NOT:
		return f.constIns(wrapInt(constant.BinaryOp(x, i.Tok, y), i.Typ), i.Typ)
	}
	return nil
}

// uses maps each value to the instructions using it.
func (f *Flat) uses() map[*Ins][]*Ins {
	u := map[*Ins][]*Ins{}
	for _, b := range f.Blocks {
		for _, i := range b.Ins {
			for _, a := range i.Args {
				if a != nil {
					u[a] = append(u[a], i)
				}
			}
		}
		if !b.dead && b.Term == TReturn {
			for _, a := range b.Rets {
				if a != nil {
					u[a] = append(u[a], &Ins{Op: OpUnknown, Blk: b})
				}
			}
		}
	}
	return u
}

func hasEffect(i *Ins) bool {
	switch i.Op {
	case OpStore, OpMapUpdate, OpCall, OpSend, OpRecv, OpSelect, OpGo, OpNext:
		return true
	case OpBuiltin:
		switch i.Name {
		case "len", "cap", "append", "min", "max", "complex", "real", "imag":
			return false
		}
		return true
	}
	return false
}

func (f *Flat) dce() bool {
	live := map[*Ins]bool{}
	var work []*Ins
	mark := func(i *Ins) {
		if i != nil && !live[i] {
			live[i] = true
			work = append(work, i)
		}
	}
	for _, b := range f.Blocks {
		if b.Cond != nil {
			mark(b.Cond)
		}
		for _, r := range b.Rets {
			mark(r)
		}
		for _, i := range b.Ins {
			if hasEffect(i) {
				mark(i)
			}
		}
	}
	for len(work) > 0 {
		i := work[len(work)-1]
		work = work[:len(work)-1]
		for _, a := range i.Args {
			mark(a)
		}
	}
	changed := false
	for _, b := range f.Blocks {
		var keep []*Ins
		for _, i := range b.Ins {
			if live[i] {
				keep = append(keep, i)
			} else {
				changed = true
			}
		}
		b.Ins = keep
	}
	return changed
}

// ---- promotion of local variables (scalar replacement + SSA construction) -----

type leaf struct {
	al   *Ins
	path string
	typ  types.Type
}

func ptrElem(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

// promote replaces variables whose address is only used for direct accesses.
func (f *Flat) promote() bool {
	uses := f.uses()
	type addr struct {
		al   *Ins
		path []int
	}
	addrOf := map[*Ins]addr{}
	cands := map[*Ins]bool{}
	for _, b := range f.Blocks {
		for _, i := range b.Ins {
			if i.Op != OpAlloc {
				continue
			}
			ok := true
			var walk func(a *Ins, t types.Type, path []int)
			var found []*Ins
			var foundA []addr
			walk = func(a *Ins, t types.Type, path []int) {
				found = append(found, a)
				foundA = append(foundA, addr{i, append([]int{}, path...)})
				for _, u := range uses[a] {
					if !ok {
						return
					}
					switch u.Op {
					case OpLoad:
					case OpStore:
						if u.Args[1] == a {
							ok = false
						}
					case OpFieldAddr:
						st, isS := t.Underlying().(*types.Struct)
						if !isS {
							ok = false
							return
						}
						walk(u, st.Field(u.Idx).Type(), append(path, u.Idx))
					case OpIndexAddr:
						at, isA := t.Underlying().(*types.Array)
						k, isC := u.Args[1].isConstInt()
						if !isA || !isC || at.Len() > 32 || k >= at.Len() || u.Args[0] != a {
							ok = false
							return
						}
						walk(u, at.Elem(), append(path, int(k)))
					default:
						ok = false
					}
				}
			}
			walk(i, ptrElem(i.Typ), nil)
			// arrays are only split when they are accessed by constant index
			if ok {
				cands[i] = true
				for k, a := range found {
					addrOf[a] = foundA[k]
				}
			}
		}
	}
	if len(cands) == 0 {
		return false
	}
	// which aggregates are split: those with an element address taken
	split := map[string]bool{} // alloc id + path
	key := func(al *Ins, path []int) string {
		s := make([]byte, 0, 16)
		s = append(s, itoa(al.ID)...)
		for _, p := range path {
			s = append(s, '.')
			s = append(s, itoa(p)...)
		}
		return string(s)
	}
	for _, a := range addrOf {
		for k := 0; k < len(a.path); k++ {
			split[key(a.al, a.path[:k])] = true
		}
	}
	// leaves under a path
	var leaves func(al *Ins, t types.Type, path []int, visit func(path []int, t types.Type))
	leaves = func(al *Ins, t types.Type, path []int, visit func(path []int, t types.Type)) {
		if split[key(al, path)] {
			switch u := t.Underlying().(type) {
			case *types.Struct:
				for k := 0; k < u.NumFields(); k++ {
					leaves(al, u.Field(k).Type(), append(append([]int{}, path...), k), visit)
				}
				return
			case *types.Array:
				for k := 0; k < int(u.Len()); k++ {
					leaves(al, u.Elem(), append(append([]int{}, path...), k), visit)
				}
				return
			}
		}
		visit(path, t)
	}
	typeAt := func(a addr) types.Type {
		t := ptrElem(a.al.Typ)
		for _, p := range a.path {
			switch u := t.Underlying().(type) {
			case *types.Struct:
				t = u.Field(p).Type()
			case *types.Array:
				t = u.Elem()
			}
		}
		return t
	}
	end := map[*Block]map[string]*Ins{}
	place := map[*Block]map[string]*Ins{}
	ltyp := map[string]types.Type{}
	repl := map[*Ins]*Ins{}
	for _, b := range f.Blocks {
		cur := map[string]*Ins{}
		var out []*Ins
		read := func(k string, t types.Type) *Ins {
			if v, ok := cur[k]; ok {
				return v
			}
			ltyp[k] = t
			ph := f.newIns(OpUnknown, t)
			ph.Blk = b
			ph.Ctx = b.Ctx
			if place[b] == nil {
				place[b] = map[string]*Ins{}
			}
			place[b][k] = ph
			cur[k] = ph
			return ph
		}
		for _, i := range b.Ins {
			switch {
			case i.Op == OpAlloc && cands[i]:
				leaves(i, ptrElem(i.Typ), nil, func(path []int, t types.Type) { cur[key(i, path)] = zeroOf(f, t) })
				continue
			case (i.Op == OpFieldAddr || i.Op == OpIndexAddr) && addrOf[i].al != nil:
				continue
			case i.Op == OpLoad && addrOf[i.Args[0]].al != nil:
				a := addrOf[i.Args[0]]
				var build func(t types.Type, path []int) *Ins
				build = func(t types.Type, path []int) *Ins {
					k := key(a.al, path)
					if split[k] {
						g := f.newIns(OpAgg, t)
						switch u := t.Underlying().(type) {
						case *types.Struct:
							for q := 0; q < u.NumFields(); q++ {
								g.Args = append(g.Args, build(u.Field(q).Type(), append(append([]int{}, path...), q)))
							}
						case *types.Array:
							for q := 0; q < int(u.Len()); q++ {
								g.Args = append(g.Args, build(u.Elem(), append(append([]int{}, path...), q)))
							}
						}
						g.Blk, g.Ctx, g.Pos = b, i.Ctx, i.Pos
						out = append(out, g)
						return g
					}
					return read(k, t)
				}
				repl[i] = build(typeAt(a), a.path)
				continue
			case i.Op == OpStore && addrOf[i.Args[0]].al != nil:
				a := addrOf[i.Args[0]]
				base := len(a.path)
				leaves(a.al, typeAt(a), a.path, func(path []int, t types.Type) {
					v := i.Args[1]
					tt := typeAt(a)
					for _, q := range path[base:] {
						switch u := tt.Underlying().(type) {
						case *types.Struct:
							tt = u.Field(q).Type()
							if v.Op == OpAgg {
								v = v.Args[q]
							} else if v.Op == OpConst && v.Val == nil {
								v = zeroOf(f, tt)
							} else {
								n := f.newIns(OpField, tt, v)
								n.Idx = q
								n.Blk, n.Ctx, n.Pos = b, i.Ctx, i.Pos
								out = append(out, n)
								v = n
							}
						case *types.Array:
							tt = u.Elem()
							if v.Op == OpAgg {
								v = v.Args[q]
							} else if v.Op == OpConst && v.Val == nil {
								v = zeroOf(f, tt)
							} else {
								n := f.newIns(OpIndex, tt, v, f.intConst(int64(q)))
								n.Blk, n.Ctx, n.Pos = b, i.Ctx, i.Pos
								out = append(out, n)
								v = n
							}
						}
					}
					cur[key(a.al, path)] = v
				})
				continue
			}
			out = append(out, i)
		}
		b.Ins = out
		end[b] = cur
	}
	// values at block starts
	start := map[*Block]map[string]*Ins{}
	var startVal func(b *Block, k string) *Ins
	endVal := func(b *Block, k string) *Ins {
		if v, ok := end[b][k]; ok {
			return v
		}
		return startVal(b, k)
	}
	startVal = func(b *Block, k string) *Ins {
		if v, ok := start[b][k]; ok {
			return v
		}
		if start[b] == nil {
			start[b] = map[string]*Ins{}
		}
		if len(b.Preds) == 0 {
			v := zeroOf(f, ltyp[k])
			start[b][k] = v
			return v
		}
		if len(b.Preds) == 1 {
			// break cycles of single-predecessor blocks (cannot occur when reachable)
			v := endVal(b.Preds[0], k)
			start[b][k] = v
			return v
		}
		ph := f.newIns(OpPhi, ltyp[k])
		ph.Blk, ph.Ctx = b, b.Ctx
		start[b][k] = ph
		for _, p := range b.Preds {
			ph.Args = append(ph.Args, endVal(p, k))
		}
		b.Ins = append([]*Ins{ph}, b.Ins...)
		return ph
	}
	for _, b := range f.Blocks {
		for _, k := range sortedKeys(place[b]) {
			repl[place[b][k]] = startVal(b, k)
		}
	}
	f.applyRepl(repl)
	return true
}

func itoa(n int) string {
	if n == 0 {
		return "0"
	}
	var d [20]byte
	k := len(d)
	for n > 0 {
		k--
		d[k] = byte('0' + n%10)
		n /= 10
	}
	return string(d[k:])
}

// ---- jump threading -----------------------------------------------------------

// threadJumps lets control that arrives at a decision whose outcome is settled
// by the way it came in go straight to that outcome.
func (f *Flat) threadJumps() bool {
	changed := false
	for iter := 0; iter < 400; iter++ {
		dom := f.dominators()
		did := false
		nb := len(f.Blocks)
		for bi := 0; bi < nb; bi++ {
			b := f.Blocks[bi]
			if b.dead || b == f.Entry {
				continue
			}
			if f.foldForward(b, dom) || f.threadBlock(b, dom) {
				did = true
				break
			}
		}
		if !did {
			break
		}
		changed = true
		f.cleanup()
		f.simplify()
		f.cleanup()
	}
	return changed
}

func threadable(i *Ins) bool {
	switch i.Op {
	case OpPhi, OpBin, OpUn, OpConvert, OpExtract, OpTuple, OpField, OpMakeIface, OpAgg, OpPure:
		return true
	case OpStore, OpFieldAddr, OpIndexAddr, OpMapUpdate, OpLoad: // x.f, err = g()
		return true
	}
	return false
}

func dominates(dom map[*Block]*Block, a, b *Block) bool {
	for x := b; x != nil; x = dom[x] {
		if x == a {
			return true
		}
	}
	return false
}

// foldForward removes a block that only merges values for its successor's phis.
func (f *Flat) foldForward(b *Block, dom map[*Block]*Block) bool {
	if b.Term != TJump || len(b.Succs) != 1 || len(b.Preds) < 2 || len(b.phis()) != len(b.Ins) || len(b.Ins) == 0 {
		return false
	}
	s := b.Succs[0]
	if s == b || dominates(dom, s, b) || len(s.Preds) < 1 {
		return false
	}
	for _, p := range b.Preds {
		if dominates(dom, b, p) {
			return false // loop header
		}
	}
	for _, p := range s.Preds {
		if p != b && dominates(dom, s, p) {
			return false // successor is a loop header
		}
	}
	own := map[*Ins]bool{}
	for _, p := range b.phis() {
		own[p] = true
	}
	var pi int
	for k, p := range s.Preds {
		if p == b {
			pi = k
		}
	}
	for _, x := range f.Blocks {
		for _, i := range x.Ins {
			for k, a := range i.Args {
				if own[a] && !(x == s && i.Op == OpPhi && k == pi) {
					return false
				}
			}
		}
		if x.Cond != nil && own[x.Cond] {
			return false
		}
		for _, r := range x.Rets {
			if own[r] {
				return false
			}
		}
	}
	// redirect
	preds := b.Preds
	for _, ph := range s.phis() {
		a := ph.Args[pi]
		for k := range preds {
			v := a
			if own[a] {
				v = a.Args[k]
			}
			ph.Args = append(ph.Args, v)
		}
	}
	for _, p := range preds {
		for k, t := range p.Succs {
			if t == b {
				p.Succs[k] = s
			}
		}
		s.Preds = append(s.Preds, p)
	}
	s.removePredAt(pi)
	b.Preds = nil
	b.Succs = nil
	b.dead = true
	return true
}

// known evaluates a condition on entering b through predecessor edge pi. 0 unknown, 1 true, 2 false.
func (f *Flat) known(c *Ins, b *Block, pi int, dom map[*Block]*Block) int {
	sub := func(a *Ins) *Ins {
		if a.Op == OpPhi && a.Blk == b {
			return a.Args[pi]
		}
		return a
	}
	bool2 := func(v bool) int {
		if v {
			return 1
		}
		return 2
	}
	p := b.Preds[pi]
	switch {
	case c.Op == OpPhi && c.Blk == b:
		a := c.Args[pi]
		if v, ok := a.isConstBool(); ok {
			return bool2(v)
		}
		if r := f.factAt(a, p, b, dom); r != 0 {
			return r
		}
	case c.Op == OpUn && c.Tok == token.NOT && c.Blk == b:
		r := f.known(c.Args[0], b, pi, dom)
		if r != 0 {
			return 3 - r
		}
	case c.Op == OpBin && c.Blk == b && (c.Tok == token.EQL || c.Tok == token.NEQ):
		x, y := sub(c.Args[0]), sub(c.Args[1])
		if x == c.Args[0] && y == c.Args[1] {
			return f.factAt(c, p, b, dom)
		}
		if x.Op == OpConst && y.Op == OpConst && x.Val != nil && y.Val != nil {
			r := foldBin(f, c, x.Val, y.Val)
			if r != nil {
				v, _ := r.isConstBool()
				return bool2(v)
			}
		}
		nx, ny := nilness(x), nilness(y)
		if nx == 0 && ny == 1 {
			nx = f.nilFact(x, p, b, dom)
		}
		if ny == 0 && nx == 1 {
			ny = f.nilFact(y, p, b, dom)
		}
		if nx == 1 && ny == 1 {
			return bool2(c.Tok == token.EQL)
		}
		if nx+ny == 3 && nx != 0 && ny != 0 {
			return bool2(c.Tok == token.NEQ)
		}
	case c.Op == OpBin && c.Blk == b:
		x, y := sub(c.Args[0]), sub(c.Args[1])
		if x.Op == OpConst && y.Op == OpConst && x.Val != nil && y.Val != nil {
			r := foldBin(f, c, x.Val, y.Val)
			if r != nil {
				if v, ok := r.isConstBool(); ok {
					return bool2(v)
				}
			}
		}
	case c.Blk != b:
		return f.factAt(c, p, b, dom)
	}
	return 0
}

// edgeOutcome: which way did control go at the end of q to reach x (single predecessor)?
func edgeCond(q, x *Block) (*Ins, bool, bool) {
	if q.Term == TIf && q.Cond != nil && q.Succs[0] != q.Succs[1] {
		if q.Succs[0] == x {
			return q.Cond, true, true
		}
		if q.Succs[1] == x {
			return q.Cond, false, true
		}
	}
	return nil, false, false
}

// walkFacts visits the branch outcomes that must hold when control goes from p to b.
func (f *Flat) walkFacts(p, b *Block, dom map[*Block]*Block, visit func(c *Ins, v bool) bool) {
	if c, v, ok := edgeCond(p, b); ok {
		if visit(c, v) {
			return
		}
	}
	for x := p; x != nil; x = dom[x] {
		if len(x.Preds) == 1 {
			if c, v, ok := edgeCond(x.Preds[0], x); ok {
				if visit(c, v) {
					return
				}
			}
		}
	}
}

func (f *Flat) factAt(c *Ins, p, b *Block, dom map[*Block]*Block) int {
	res := 0
	f.walkFacts(p, b, dom, func(d *Ins, v bool) bool {
		if d == c {
			if v {
				res = 1
			} else {
				res = 2
			}
			return true
		}
		return false
	})
	return res
}

func (f *Flat) nilFact(x *Ins, p, b *Block, dom map[*Block]*Block) int {
	res := 0
	f.walkFacts(p, b, dom, func(d *Ins, v bool) bool {
		if d.Op == OpBin && (d.Tok == token.EQL || d.Tok == token.NEQ) {
			o := (*Ins)(nil)
			if d.Args[0] == x && d.Args[1].isNil() {
				o = d.Args[1]
			} else if d.Args[1] == x && d.Args[0].isNil() {
				o = d.Args[0]
			}
			if o != nil {
				if (d.Tok == token.EQL) == v {
					res = 1
				} else {
					res = 2
				}
				return true
			}
		}
		return false
	})
	return res
}

func (f *Flat) threadBlock(b *Block, dom map[*Block]*Block) bool {
	if b.Term != TIf || b.Cond == nil || len(b.Preds) < 2 || len(b.Ins) > 14 {
		return false
	}
	for _, i := range b.Ins {
		if !threadable(i) {
			return false
		}
	}
	for _, p := range b.Preds {
		if p == b || dominates(dom, b, p) {
			return false
		}
	}
	outcome := make([]int, len(b.Preds))
	any := false
	for k := range b.Preds {
		outcome[k] = f.known(b.Cond, b, k, dom)
		if outcome[k] != 0 {
			any = true
		}
	}
	if !any {
		return false
	}
	type def struct{ m map[*Ins]*Ins }
	defs := map[*Block]map[*Ins]*Ins{}
	idt := map[*Ins]*Ins{}
	for _, i := range b.Ins {
		idt[i] = i
	}
	defs[b] = idt
	for _, o := range []int{1, 2} {
		var ks []int
		for k, x := range outcome {
			if x == o {
				ks = append(ks, k)
			}
		}
		if len(ks) == 0 {
			continue
		}
		c := f.newBlock(b.Ctx)
		c.Pos = b.Pos
		m := map[*Ins]*Ins{}
		for _, i := range b.Ins {
			if i.Op == OpPhi {
				if len(ks) == 1 {
					m[i] = i.Args[ks[0]]
					continue
				}
				ph := f.newIns(OpPhi, i.Typ)
				ph.Pos, ph.Ctx, ph.Name = i.Pos, i.Ctx, i.Name
				for _, k := range ks {
					ph.Args = append(ph.Args, i.Args[k])
				}
				c.add(ph)
				m[i] = ph
				continue
			}
			n := *i
			f.nextI++
			n.ID = f.nextI
			n.Args = append([]*Ins{}, i.Args...)
			for q, a := range n.Args {
				if r, ok := m[a]; ok {
					n.Args[q] = r
				}
			}
			c.add(&n)
			m[i] = &n
		}
		defs[c] = m
		for _, k := range ks {
			p := b.Preds[k]
			c.Preds = append(c.Preds, p)
			for q := range p.Succs {
				if p.Succs[q] == b && predIndex(p, q) == k {
					p.Succs[q] = c
					break
				}
			}
			// keep predIndex consistent: mark the slot
			b.Preds[k] = nil
		}
		s := b.Succs[o-1]
		si := predIndex(b, o-1)
		c.Term = TJump
		c.Succs = []*Block{s}
		s.Preds = append(s.Preds, c)
		for _, ph := range s.phis() {
			a := ph.Args[si]
			if r, ok := m[a]; ok {
				a = r
			}
			ph.Args = append(ph.Args, a)
		}
	}
	for k := len(outcome) - 1; k >= 0; k-- {
		if outcome[k] != 0 {
			b.removePredAt(k)
		}
	}
	// repair uses of b's values outside of its copies
	skip := map[*Block]bool{}
	for c := range defs {
		skip[c] = true
	}
	for _, v := range append([]*Ins{}, b.Ins...) {
		f.repair(v, defs, skip)
	}
	if len(b.Preds) == 0 {
		f.cleanup()
	}
	return true
}

// repair rewrites the uses of v, which now has one definition per block of defs.
func (f *Flat) repair(v *Ins, defs map[*Block]map[*Ins]*Ins, skip map[*Block]bool) {
	start := map[*Block]*Ins{}
	var startVal func(b *Block) *Ins
	endVal := func(b *Block) *Ins {
		if m, ok := defs[b]; ok {
			return m[v]
		}
		return startVal(b)
	}
	startVal = func(b *Block) *Ins {
		if x, ok := start[b]; ok {
			return x
		}
		if len(b.Preds) == 0 {
			x := zeroOf(f, v.Typ)
			start[b] = x
			return x
		}
		if len(b.Preds) == 1 {
			x := endVal(b.Preds[0])
			start[b] = x
			return x
		}
		ph := f.newIns(OpPhi, v.Typ)
		ph.Blk, ph.Ctx, ph.Pos, ph.Name = b, v.Ctx, v.Pos, v.Name
		start[b] = ph
		for _, p := range b.Preds {
			ph.Args = append(ph.Args, endVal(p))
		}
		b.Ins = append([]*Ins{ph}, b.Ins...)
		return ph
	}
	type use struct {
		i *Ins
		k int
	}
	var us []use
	type buse struct {
		b *Block
		k int // -1 cond
	}
	var bs []buse
	for _, b := range f.Blocks {
		if b.dead {
			continue
		}
		for _, i := range b.Ins {
			for k, a := range i.Args {
				if a != v {
					continue
				}
				if i.Op == OpPhi {
					if _, ok := defs[b.Preds[k]]; ok {
						continue // already the right copy
					}
				} else if skip[b] {
					continue
				}
				us = append(us, use{i, k})
			}
		}
		if !skip[b] {
			if b.Cond == v {
				bs = append(bs, buse{b, -1})
			}
			for k, r := range b.Rets {
				if r == v {
					bs = append(bs, buse{b, k})
				}
			}
		}
	}
	for _, u := range us {
		if u.i.Op == OpPhi {
			u.i.Args[u.k] = endVal(u.i.Blk.Preds[u.k])
		} else {
			u.i.Args[u.k] = startVal(u.i.Blk)
		}
	}
	for _, u := range bs {
		if u.k < 0 {
			u.b.Cond = startVal(u.b)
		} else {
			u.b.Rets[u.k] = startVal(u.b)
		}
	}
}

// dominators computes immediate dominators.
func (f *Flat) dominators() map[*Block]*Block {
	var order []*Block
	num := map[*Block]int{}
	seen := map[*Block]bool{}
	var dfs func(b *Block)
	dfs = func(b *Block) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		order = append(order, b)
	}
	dfs(f.Entry)
	for i, j := 0, len(order)-1; i < j; i, j = i+1, j-1 {
		order[i], order[j] = order[j], order[i]
	}
	for i, b := range order {
		num[b] = i
	}
	idom := map[*Block]*Block{}
	idom[f.Entry] = f.Entry
	inter := func(a, b *Block) *Block {
		for a != b {
			for num[a] > num[b] {
				a = idom[a]
			}
			for num[b] > num[a] {
				b = idom[b]
			}
		}
		return a
	}
	for ch := true; ch; {
		ch = false
		for _, b := range order[1:] {
			var n *Block
			for _, p := range b.Preds {
				if idom[p] == nil {
					continue
				}
				if n == nil {
					n = p
				} else {
					n = inter(p, n)
				}
			}
			if n != nil && idom[b] != n {
				idom[b] = n
				ch = true
			}
		}
	}
	idom[f.Entry] = nil
	return idom
}
