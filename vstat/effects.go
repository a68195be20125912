package main

// Effects: which memory a repository function may write, in terms of what its
// parameters (and captured variables) lead to.

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// roots: what a pointer value may lead to. Memory allocated by the function
// itself is not listed.
type roots struct {
	par  uint64 // parameters
	free uint64 // captured variables
	glob bool   // globals or unknown
}

func (r roots) none() bool { return r == roots{} }
func (r roots) or(s roots) roots {
	return roots{r.par | s.par, r.free | s.free, r.glob || s.glob}
}

type effect struct {
	writes bool  // may write caller-visible memory
	w      roots // which
	ret    roots // what the results may lead to
	why    string
	pos    string
	busy   bool
}

// writesCaller: the arguments whose memory a call of m may write; all when not known.
func (p *Program) writesCaller(m *types.Func) (roots, bool) {
	fn := p.SSA.FuncValue(m)
	if fn == nil || fn.Blocks == nil {
		return roots{}, false
	}
	e := p.Effect(fn)
	return e.w, true
}

type effCtx struct {
	p    *Program
	fn   *ssa.Function
	memo map[ssa.Value]roots
	busy map[ssa.Value]bool
}

// Effect computes the summary of a function.
func (p *Program) Effect(fn *ssa.Function) effect {
	if p.effects == nil {
		p.effects = map[*ssa.Function]*effect{}
	}
	if e, ok := p.effects[fn]; ok {
		return *e
	}
	e := &effect{busy: true}
	p.effects[fn] = e // recursion: assume no effect, the other calls decide
	if fn.Blocks == nil {
		*e = effect{writes: true, w: roots{glob: true, par: ^uint64(0)}, ret: roots{glob: true}, why: "no body: " + fn.String()}
		return *e
	}
	c := &effCtx{p: p, fn: fn, memo: map[ssa.Value]roots{}, busy: map[ssa.Value]bool{}}
	wr := func(r roots, w string, in ssa.Instruction) {
		if r.none() {
			return
		}
		if !e.writes {
			e.why, e.pos = w, p.relPos(in.Pos())
			if in.Pos() == token.NoPos {
				e.pos = p.relPos(fn.Pos())
			}
		}
		e.writes = true
		e.w = e.w.or(r)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				wr(c.roots(x.Addr), "store in "+fnName(fn), in)
			case *ssa.MapUpdate:
				wr(c.roots(x.Map), "map update in "+fnName(fn), in)
			case *ssa.Return:
				for _, v := range x.Results {
					if pointerLike(v.Type()) {
						e.ret = e.ret.or(c.roots(v))
					}
				}
			case ssa.CallInstruction:
				if w := c.callWrites(x); !w.none() {
					n := calleeName(x.Common())
					why, pos := "call of "+n+" in "+fnName(fn), ""
					if f := staticCallee(x.Common()); f != nil && p.inRepo(f) {
						if q := p.Effect(f); q.why != "" {
							why, pos = q.why, q.pos
						}
					}
					wr(w, why, in)
					if pos != "" && e.why == why {
						e.pos = pos
					}
				}
			}
		}
	}
	e.busy = false
	return *e
}

func (c *effCtx) args(vs []ssa.Value) roots {
	var r roots
	for _, v := range vs {
		if pointerLike(v.Type()) {
			r = r.or(c.roots(v))
		}
	}
	return r
}

// mapRoots translates a summary of a callee to the caller.
func (c *effCtx) mapRoots(s roots, call *ssa.CallCommon, args []ssa.Value) roots {
	r := roots{glob: s.glob}
	for k, a := range args {
		if k < 64 && s.par&(1<<k) != 0 {
			r = r.or(c.roots(a))
		}
	}
	if s.free != 0 {
		if mc, ok := call.Value.(*ssa.MakeClosure); ok {
			for k, b := range mc.Bindings {
				if s.free&(1<<k) != 0 {
					r = r.or(c.roots(b))
				}
			}
		} else {
			r.glob = true
		}
	}
	return r
}

// impls: the repository functions an invoke can reach; ok when the interface
// belongs to the repository.
func (p *Program) impls(cc *ssa.CallCommon) ([]*ssa.Function, bool) {
	if cc.Method.Pkg() == nil || !strings.HasPrefix(cc.Method.Pkg().Path(), modPath) {
		return nil, false
	}
	it, ok := cc.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil, false
	}
	var r []*ssa.Function
	for _, fn := range p.Funcs {
		if fn.Signature.Recv() == nil || fn.Name() != cc.Method.Name() || fn.Blocks == nil {
			continue
		}
		if types.Implements(fn.Signature.Recv().Type(), it) {
			r = append(r, fn)
		}
	}
	return r, len(r) > 0
}

// callWrites: the caller's memory a call may write.
func (c *effCtx) callWrites(in ssa.CallInstruction) roots {
	cc := in.Common()
	p := c.p
	if cc.IsInvoke() {
		nm := cc.Method.FullName()
		if isGroupRead(nm) {
			return roots{}
		}
		if fs, ok := p.impls(cc); ok {
			var r roots
			for _, f := range fs {
				r = r.or(c.mapRoots(p.Effect(f).w, cc, append([]ssa.Value{cc.Value}, cc.Args...)))
			}
			return r
		}
		if strings.HasPrefix(nm, groupPkg) || strings.HasPrefix(nm, "(encoding.Binary") {
			if strings.HasPrefix(nm, "(encoding.BinaryM") {
				return roots{}
			}
			return c.roots(cc.Value)
		}
		if strings.HasSuffix(nm, ").Error") {
			return roots{}
		}
		if k, ok := extWrites[nm]; ok { // arguments without receiver
			return c.pick(k, cc.Args, cc.Value)
		}
		if readOnly[nm] || pureCalls[nm] || isPureMethod(nm) || writesOwn[nm] {
			return roots{}
		}
		return c.roots(cc.Value).or(c.args(cc.Args))
	}
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "copy", "clear", "delete":
			return c.roots(cc.Args[0])
		case "append":
			// writes the spare room of the slice
			return roots{}
		}
		return roots{}
	}
	f := staticCallee(cc)
	if f == nil {
		return roots{glob: true}.or(c.args(cc.Args))
	}
	if k, ok := cgoWrites[f.Name()]; ok {
		if k >= 0 && k < len(cc.Args) {
			return c.roots(cc.Args[k])
		}
		return roots{}
	}
	if strings.HasPrefix(f.Name(), "_cgoCheck") || f.Name() == "_cgo_runtime_cgocall" {
		return roots{}
	}
	if p.inRepo(f) && f.Blocks != nil && !strings.HasPrefix(f.Name(), "_C") {
		return c.mapRoots(p.Effect(f).w, cc, cc.Args)
	}
	nm := calleeName(cc)
	if k, ok := extWrites[nm]; ok {
		return c.pick(k, cc.Args, nil)
	}
	if readOnly[nm] || pureCalls[nm] || isPureMethod(nm) || writesOwn[nm] {
		return roots{}
	}
	r := roots{}
	for _, a := range cc.Args {
		if !pointerLike(a.Type()) {
			continue
		}
		if mc, ok := a.(*ssa.MakeClosure); ok {
			e := p.Effect(mc.Fn.(*ssa.Function))
			r = r.or(roots{glob: e.w.glob})
			for k, b := range mc.Bindings {
				if e.w.free&(1<<k) != 0 {
					r = r.or(c.roots(b))
				}
			}
			continue
		}
		if _, ok := a.(*ssa.Function); ok {
			continue
		}
		r = r.or(c.roots(a))
	}
	return r
}

func (c *effCtx) pick(k int, args []ssa.Value, recv ssa.Value) roots {
	if k < 0 {
		if recv != nil {
			return c.roots(recv)
		}
		return roots{}
	}
	if k < len(args) {
		return c.roots(args[k])
	}
	return roots{}
}

// roots of a pointer value.
func (c *effCtx) roots(v ssa.Value) roots {
	if r, ok := c.memo[v]; ok {
		return r
	}
	if c.busy[v] {
		return roots{}
	}
	c.busy[v] = true
	r := c.roots1(v)
	delete(c.busy, v)
	if len(c.busy) == 0 {
		c.memo[v] = r
	}
	return r
}

func (c *effCtx) roots1(v ssa.Value) roots {
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan, *ssa.Const, *ssa.Function, *ssa.Builtin:
		return roots{}
	case *ssa.MakeInterface:
		if pointerLike(x.X.Type()) {
			return c.roots(x.X)
		}
		return roots{}
	case *ssa.MakeClosure:
		return c.args(x.Bindings)
	case *ssa.FieldAddr:
		return c.roots(x.X)
	case *ssa.Field:
		return c.roots(x.X)
	case *ssa.IndexAddr:
		return c.roots(x.X)
	case *ssa.Index:
		return c.roots(x.X)
	case *ssa.Lookup:
		return c.roots(x.X)
	case *ssa.Slice:
		return c.roots(x.X)
	case *ssa.SliceToArrayPointer:
		return c.roots(x.X)
	case *ssa.ChangeType:
		return c.roots(x.X)
	case *ssa.Convert:
		return c.roots(x.X)
	case *ssa.ChangeInterface:
		return c.roots(x.X)
	case *ssa.TypeAssert:
		return c.roots(x.X)
	case *ssa.Extract:
		return c.roots(x.Tuple)
	case *ssa.Range:
		return c.roots(x.X)
	case *ssa.Next:
		return c.roots(x.Iter)
	case *ssa.Phi:
		var r roots
		for _, e := range x.Edges {
			r = r.or(c.roots(e))
		}
		return r
	case *ssa.Parameter:
		for k, q := range c.fn.Params {
			if q == x && k < 64 {
				return roots{par: 1 << k}
			}
		}
		return roots{glob: true}
	case *ssa.FreeVar:
		for k, q := range c.fn.FreeVars {
			if q == x && k < 64 {
				return roots{free: 1 << k}
			}
		}
		return roots{glob: true}
	case *ssa.Global:
		return roots{glob: true}
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			if !pointerLike(x.Type()) {
				return roots{}
			}
			r := c.roots(x.X)
			// what was stored into local memory
			if b, ok := baseOf(x.X); ok {
				for _, s := range storesTo(b) {
					if pointerLike(s.Type()) {
						r = r.or(c.roots(s))
					}
				}
			}
			return r
		case token.ARROW:
			return c.received(x)
		}
		return roots{}
	case *ssa.Select:
		return roots{glob: true}
	case *ssa.BinOp:
		return roots{}
	case *ssa.Call:
		cc := x.Common()
		if b, ok := cc.Value.(*ssa.Builtin); ok {
			if b.Name() == "append" {
				return c.args(cc.Args)
			}
			return roots{}
		}
		if cc.IsInvoke() {
			nm := cc.Method.FullName()
			if fs, ok := c.p.impls(cc); ok {
				var r roots
				for _, f := range fs {
					r = r.or(c.mapRoots(c.p.Effect(f).ret, cc, append([]ssa.Value{cc.Value}, cc.Args...)))
				}
				return r
			}
			if strings.HasPrefix(nm, groupPkg+"Group)") {
				return roots{}
			}
			if strings.HasPrefix(nm, groupPkg) {
				return c.roots(cc.Value)
			}
			if nm == "(hash.Hash).Sum" {
				return c.args(cc.Args)
			}
			return c.roots(cc.Value).or(c.args(cc.Args))
		}
		f := staticCallee(cc)
		if f == nil {
			return roots{glob: true}
		}
		if c.p.inRepo(f) && f.Blocks != nil && !strings.HasPrefix(f.Name(), "_C") {
			return c.mapRoots(c.p.Effect(f).ret, cc, cc.Args)
		}
		if freshCalls[calleeName(cc)] {
			return roots{}
		}
		return c.args(cc.Args)
	}
	return roots{glob: true}
}

// received: what a value taken from a channel leads to: the memory of whoever sends it.
func (c *effCtx) received(x *ssa.UnOp) roots {
	if !pointerLike(x.Type()) {
		return roots{}
	}
	if r := c.roots(x.X); !r.none() {
		return r
	}
	key := x.X.Type().Underlying().(*types.Chan).Elem()
	var bad roots
	for _, fn := range c.p.Funcs {
		if fnPkgPath(fn) != fnPkgPath(c.fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Send)
				if !ok || !types.Identical(s.X.Type(), key) {
					continue
				}
				q := &effCtx{p: c.p, fn: fn, memo: map[ssa.Value]roots{}, busy: map[ssa.Value]bool{}}
				if r := q.roots(s.X); !r.none() {
					bad.glob = true
				}
			}
		}
	}
	return bad
}

// extWrites: external calls that write through one argument only (-1: the receiver only).
var extWrites = map[string]int{
	"io.ReadFull": 1, "io.ReadAtLeast": 1, "(io.Reader).Read": 0, "crypto/rand.Read": 0, "math/rand.Read": 0,
	"(crypto/cipher.Block).Encrypt": 0, "(crypto/cipher.Block).Decrypt": 0, "(crypto/cipher.Stream).XORKeyStream": 0,
	"github.com/lukechampine/fastxor.Bytes": 0, "github.com/lukechampine/fastxor.Block": 0, "github.com/lukechampine/fastxor.Byte": 0,
	"(hash.Hash).Write": -1, "(io.Writer).Write": -1, "(hash.Hash).Reset": -1, "(hash.Hash).Sum": -1,
	"(encoding/binary.littleEndian).PutUint16": 1, "(encoding/binary.littleEndian).PutUint32": 1, "(encoding/binary.littleEndian).PutUint64": 1,
	"(encoding/binary.bigEndian).PutUint16": 1, "(encoding/binary.bigEndian).PutUint32": 1, "(encoding/binary.bigEndian).PutUint64": 1,
	"(lukechampine.com/uint128.Uint128).PutBytes": 1, "(lukechampine.com/uint128.Uint128).PutBytesBE": 1,
	"sort.Slice": 0, "sort.SliceStable": 0, "sort.Ints": 0, "sort.Strings": 0, "sort.Sort": 0,
	"(*bytes.Buffer).Write": 0, "(*bytes.Buffer).WriteString": 0, "(*bytes.Buffer).WriteByte": 0,
	"(*encoding/gob.Encoder).Encode": 0, "(*encoding/gob.Decoder).Decode": 1, "(*sync.Mutex).Lock": 0, "(*sync.Mutex).Unlock": 0,
}

// freshCalls: external calls whose result is new memory whatever their arguments.
var freshCalls = map[string]bool{
	"bytes.Repeat": true, "strings.Split": true, "encoding/hex.DecodeString": true, "fmt.Sprintf": true, "fmt.Sprint": true,
	"fmt.Errorf": true, "golang.org/x/xerrors.Errorf": true, "errors.New": true, "errors.Wrap": true,
	"github.com/dkales/dpf-go/dpf.EvalFull": true, "github.com/dkales/dpf-go/dpf.Gen": true, "encoding/json.Marshal": true,
	"time.Now": true, "time.Date": true, "(time.Time).UTC": true, "io/ioutil.ReadAll": true, "io/ioutil.ReadFile": true, "io.ReadAll": true,
	"lukechampine.com/blake3.New": true, "lukechampine.com/blake3.Sum256": true, "crypto/aes.NewCipher": true,
}

// cgoWrites: the argument a native kernel writes through (that it writes
// nothing else is decided by the rules on the kernels themselves).
var cgoWrites = map[string]int{"_Cfunc_multiply": 5, "_Cfunc_binary_multiply": 5, "_Cfunc_multiply128": 5, "_Cfunc_binary_multiply128": 5}

// external calls that write only to their receiver's own state or to nothing
var writesOwn = map[string]bool{
	"golang.org/x/xerrors.Errorf": true, "log.Fatal": true, "log.Fatalf": true, "log.Panic": true, "log.Fatalln": true,
	"math/bits.Len": true, "math.Ceil": true, "math.Floor": true,
}

func pointerLike(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Signature, *types.Chan:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Array:
		return pointerLike(u.Elem())
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if pointerLike(u.At(i).Type()) {
				return true
			}
		}
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if pointerLike(u.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}

// baseOf: the object a local address lies in.
func baseOf(v ssa.Value) (ssa.Value, bool) {
	for {
		switch x := v.(type) {
		case *ssa.Alloc, *ssa.MakeSlice, *ssa.Call:
			return x, true
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		default:
			return nil, false
		}
	}
}

// storesTo lists the values stored at or inside a local object.
func storesTo(al ssa.Value) []ssa.Value {
	var r []ssa.Value
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		if v.Referrers() == nil {
			return
		}
		for _, u := range *v.Referrers() {
			switch x := u.(type) {
			case *ssa.Store:
				if x.Addr == v {
					r = append(r, x.Val)
				}
			case *ssa.FieldAddr:
				walk(x)
			case *ssa.IndexAddr:
				walk(x)
			case *ssa.Slice:
				walk(x)
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "copy" || b.Name() == "append") && len(x.Call.Args) > 1 && x.Call.Args[0] == v {
					r = append(r, x.Call.Args[1])
				}
			}
		}
	}
	walk(al)
	return r
}
