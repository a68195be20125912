package main

// Flat intermediate representation. An entry point of the analysed program is
// translated from go/ssa into one control-flow graph in which calls of the
// repository's own functions, closures and resolvable methods are expanded at
// their call sites, so that rules see what the code does and not how it is cut
// into functions.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Op uint8

const (
	OpParam Op = iota
	OpConst
	OpGlobal
	OpFunc
	OpPhi
	OpBin
	OpUn
	OpLoad
	OpStore
	OpFieldAddr
	OpIndexAddr
	OpField
	OpIndex
	OpLookup
	OpMapUpdate
	OpSlice
	OpAlloc
	OpMakeSlice
	OpMakeMap
	OpMakeChan
	OpCall
	OpBuiltin
	OpPure
	OpExtract
	OpTuple
	OpConvert
	OpMakeIface
	OpTypeAssert
	OpClosure
	OpRange
	OpNext
	OpSend
	OpRecv
	OpSelect
	OpAgg
	OpGo
	OpUnknown
)

var opNames = map[Op]string{OpParam: "param", OpConst: "const", OpGlobal: "global", OpFunc: "func", OpPhi: "phi", OpBin: "bin", OpUn: "un", OpLoad: "load", OpStore: "store", OpFieldAddr: "fieldaddr", OpIndexAddr: "indexaddr", OpField: "field", OpIndex: "index", OpLookup: "lookup", OpMapUpdate: "mapupdate", OpSlice: "slice", OpAlloc: "alloc", OpMakeSlice: "makeslice", OpMakeMap: "makemap", OpMakeChan: "makechan", OpCall: "call", OpBuiltin: "builtin", OpPure: "pure", OpExtract: "extract", OpTuple: "tuple", OpConvert: "convert", OpMakeIface: "makeiface", OpTypeAssert: "typeassert", OpClosure: "closure", OpRange: "range", OpNext: "next", OpSend: "send", OpRecv: "recv", OpSelect: "select", OpAgg: "agg", OpGo: "go", OpUnknown: "unknown"}

// Ctx is the inlining context of an instruction.
type Ctx struct {
	Fn      *ssa.Function
	CallPos token.Pos
	Parent  *Ctx
	Async   *Ins // the go statement that started this goroutine, if any
	Depth   int
}

func (c *Ctx) has(fn *ssa.Function) bool {
	for x := c; x != nil; x = x.Parent {
		if x.Fn == fn {
			return true
		}
	}
	return false
}

func (c *Ctx) async() *Ins {
	for x := c; x != nil; x = x.Parent {
		if x.Async != nil {
			return x.Async
		}
	}
	return nil
}

type Ins struct {
	ID     int
	Op     Op
	Args   []*Ins
	Typ    types.Type
	Blk    *Block
	Pos    token.Pos
	Ctx    *Ctx
	Val    constant.Value // OpConst; nil for nil and zero values of composite types
	Tok    token.Token
	Idx    int
	Name   string        // builtin or pure operation
	SFn    *ssa.Function // OpFunc, OpClosure
	Glob   *ssa.Global
	Method *types.Func // OpCall: the called function or method, nil for calls of function values
	Invoke bool        // interface method call; Args[0] is the receiver
	States []selState  // OpSelect
	CommaOk,
	Block bool // Block: OpSelect blocking
	Once bool // already tried to expand
}

type selState struct {
	Send bool
}

type TermKind uint8

const (
	TJump TermKind = iota
	TIf
	TReturn
	TPanic
	TAbort // call of a function that does not return
	TThreadEnd
)

type Block struct {
	ID    int
	Ins   []*Ins
	Term  TermKind
	Cond  *Ins
	Rets  []*Ins // TReturn, TPanic
	Preds []*Block
	Succs []*Block
	Pos   token.Pos
	Ctx   *Ctx
	dead  bool
}

type Flat struct {
	P      *Program
	Name   string
	Entry  *Block
	Blocks []*Block
	Params []*Ins
	nextI  int
	nextB  int
	NoInl  func(*ssa.Function) bool
	Root   *ssa.Function
	consts map[string]*Ins
	// analyses
	an *Analysis
	// measured
	Inlined map[*ssa.Function]int
}

func (f *Flat) newIns(op Op, typ types.Type, args ...*Ins) *Ins {
	f.nextI++
	return &Ins{ID: f.nextI, Op: op, Typ: typ, Args: args}
}

func (f *Flat) newBlock(ctx *Ctx) *Block {
	f.nextB++
	b := &Block{ID: f.nextB, Ctx: ctx}
	f.Blocks = append(f.Blocks, b)
	return b
}

func (f *Flat) constIns(v constant.Value, t types.Type) *Ins {
	k := "nil"
	if v != nil {
		k = v.ExactString()
	}
	key := k + "|" + t.String()
	if c, ok := f.consts[key]; ok {
		return c
	}
	c := f.newIns(OpConst, t)
	c.Val = v
	f.consts[key] = c
	return c
}

func (f *Flat) intConst(n int64) *Ins {
	return f.constIns(constant.MakeInt64(n), types.Typ[types.Int])
}
func (f *Flat) boolConst(b bool) *Ins {
	return f.constIns(constant.MakeBool(b), types.Typ[types.Bool])
}

func (b *Block) add(i *Ins) *Ins {
	i.Blk = b
	b.Ins = append(b.Ins, i)
	return i
}

func link(a, b *Block) {
	a.Succs = append(a.Succs, b)
	b.Preds = append(b.Preds, a)
}

func (b *Block) phis() []*Ins {
	n := 0
	for n < len(b.Ins) && b.Ins[n].Op == OpPhi {
		n++
	}
	return b.Ins[:n]
}

// removePredAt drops the i-th incoming edge together with its phi arguments.
func (b *Block) removePredAt(i int) {
	for _, p := range b.phis() {
		p.Args = append(append([]*Ins{}, p.Args[:i]...), p.Args[i+1:]...)
	}
	b.Preds = append(append([]*Block{}, b.Preds[:i]...), b.Preds[i+1:]...)
}

// removeEdge drops one edge a->b (the k-th successor of a).
func removeEdge(a *Block, k int) {
	b := a.Succs[k]
	// which occurrence of a among the predecessors of b?
	occ := 0
	for j := 0; j < k; j++ {
		if a.Succs[j] == b {
			occ++
		}
	}
	for i, p := range b.Preds {
		if p == a {
			if occ == 0 {
				b.removePredAt(i)
				break
			}
			occ--
		}
	}
	a.Succs = append(append([]*Block{}, a.Succs[:k]...), a.Succs[k+1:]...)
}

// predIndex returns the position among b's predecessors of a's k-th successor edge.
func predIndex(a *Block, k int) int {
	b := a.Succs[k]
	occ := 0
	for j := 0; j < k; j++ {
		if a.Succs[j] == b {
			occ++
		}
	}
	for i, p := range b.Preds {
		if p == a {
			if occ == 0 {
				return i
			}
			occ--
		}
	}
	panic("predIndex: broken edge")
}

func (i *Ins) isConstInt() (int64, bool) {
	if i.Op == OpConst && i.Val != nil && i.Val.Kind() == constant.Int {
		v, ok := constant.Int64Val(i.Val)
		if !ok {
			if u, ok2 := constant.Uint64Val(i.Val); ok2 {
				return int64(u), true
			}
		}
		return v, ok
	}
	return 0, false
}

func (i *Ins) isConstBool() (bool, bool) {
	if i.Op == OpConst && i.Val != nil && i.Val.Kind() == constant.Bool {
		return constant.BoolVal(i.Val), true
	}
	return false, false
}

func (i *Ins) isNil() bool {
	return i.Op == OpConst && i.Val == nil && isNillable(i.Typ)
}

func isNillable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Interface, *types.Signature:
		return true
	}
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.UntypedNil {
		return true
	}
	return false
}

func (f *Flat) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	ps := f.P.Fset.Position(p)
	return strings.TrimPrefix(ps.Filename, f.P.Dir+"/") + ":" + fmt.Sprint(ps.Line)
}

// where describes an instruction for reports.
func (f *Flat) where(i *Ins) string {
	p := i.Pos
	c := i.Ctx
	if !p.IsValid() && c != nil {
		p = c.CallPos
	}
	s := f.pos(p)
	if c != nil && c.Fn != nil {
		s += " (" + fnName(c.Fn) + ")"
	}
	return s
}

func (f *Flat) whereB(b *Block) string {
	p := b.Pos
	if !p.IsValid() {
		for k := len(b.Ins) - 1; k >= 0; k-- {
			if b.Ins[k].Pos.IsValid() {
				p = b.Ins[k].Pos
				break
			}
		}
	}
	s := f.pos(p)
	if b.Ctx != nil && b.Ctx.Fn != nil {
		s += " (" + fnName(b.Ctx.Fn) + ")"
	}
	return s
}

func fnName(fn *ssa.Function) string {
	s := fn.RelString(nil)
	return strings.ReplaceAll(s, modPath+"/", "")
}

func (f *Flat) dump() string {
	var sb strings.Builder
	for _, b := range f.Blocks {
		if b.dead {
			continue
		}
		var ps []string
		for _, p := range b.Preds {
			ps = append(ps, fmt.Sprint("b", p.ID))
		}
		fmt.Fprintf(&sb, "b%d: <- %s\n", b.ID, strings.Join(ps, ","))
		for _, i := range b.Ins {
			fmt.Fprintf(&sb, "   %s\n", f.insString(i))
		}
		switch b.Term {
		case TJump:
			if len(b.Succs) == 1 {
				fmt.Fprintf(&sb, "   jump b%d\n", b.Succs[0].ID)
			} else {
				fmt.Fprintf(&sb, "   jump ?? %d\n", len(b.Succs))
			}
		case TIf:
			c := "spawn"
			if b.Cond != nil {
				c = ref(b.Cond)
			}
			fmt.Fprintf(&sb, "   if %s b%d else b%d\n", c, b.Succs[0].ID, b.Succs[1].ID)
		case TReturn:
			fmt.Fprintf(&sb, "   return %s\n", refs(b.Rets))
		case TPanic:
			fmt.Fprintf(&sb, "   panic %s\n", refs(b.Rets))
		case TAbort:
			fmt.Fprintf(&sb, "   abort\n")
		case TThreadEnd:
			fmt.Fprintf(&sb, "   threadend\n")
		}
	}
	return sb.String()
}

func ref(i *Ins) string {
	switch i.Op {
	case OpConst:
		if i.Val == nil {
			return "nil:" + shortType(i.Typ)
		}
		return i.Val.String()
	case OpGlobal:
		return i.Glob.Name()
	case OpParam:
		return "$" + i.Name
	case OpFunc:
		return "fn " + fnName(i.SFn)
	}
	return fmt.Sprint("v", i.ID)
}

func refs(is []*Ins) string {
	var s []string
	for _, i := range is {
		if i == nil {
			s = append(s, "<nil>")
			continue
		}
		s = append(s, ref(i))
	}
	return strings.Join(s, ", ")
}

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (f *Flat) insString(i *Ins) string {
	ex := ""
	switch i.Op {
	case OpBin, OpUn:
		ex = i.Tok.String()
	case OpField, OpFieldAddr, OpExtract:
		ex = fmt.Sprint("#", i.Idx)
	case OpBuiltin, OpPure:
		ex = i.Name
	case OpCall:
		if i.Method != nil {
			ex = i.Method.FullName()
		}
	case OpClosure:
		ex = fnName(i.SFn)
	}
	t := ""
	if i.Typ != nil {
		t = shortType(i.Typ)
	}
	return fmt.Sprintf("v%d = %s %s (%s) :%s  @%s", i.ID, opNames[i.Op], ex, refs(i.Args), t, f.where(i))
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
