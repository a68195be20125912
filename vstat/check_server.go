package main

// L01: the query servers answer every request once and survive malformed ones.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["L01"] = checkL01
	assumptions["L01"] = []string{
		"(*grpc.Server).GracefulStop returns when all handlers have; gRPC sends what a handler returns, once",
		"resource exhaustion (memory, stack) by a query is not a panic and not covered; out of bounds accesses of the C kernels are decided with L06",
	}
}

// answerCalls: calls of a server's answer method.
func answerCall(n string) bool { return strings.HasSuffix(n, ".AnswerBytes") }

type server1 struct {
	r  *Run
	h  *ssa.Function // Query
	a  *Analysis
	ch *Ins // of the requests

	guard, once, right, live, stop, exit, lock string
}

func checkL01(r *Run) {
	p := r.p
	guard := r.rule("panic-is-error", "an answer is computed below a deferred function that turns a panic into an error of its caller, and not in a goroutine of its own")
	once := r.rule("one-reply", "every path of the handler returns an answer or an error; the worker sends exactly one reply per request, on a channel that is never full")
	right := r.rule("right-reply", "what is sent as answer is the answer to the request's own query, only when there was no error; otherwise the error is reported")
	live := r.rule("worker-lives", "the worker is started, takes requests until the channel is closed and is not ended by one of them")
	stop := r.rule("shutdown", "the channel of requests is closed once, after the RPC server has finished the pending requests")
	exit := r.rule("no-exit", "nothing reached from answering a request ends the process")
	lock := r.rule("unlocked", "a lock taken while answering is released also when answering panics")
	n := 0
	for _, h := range r.handlers() {
		if h.Name() != "Query" || h.Signature.Recv() == nil {
			continue
		}
		n++
		h := h
		r.part(fnName(h), func() {
			s := &server1{r: r, h: h, guard: guard, once: once, right: right, live: live, stop: stop, exit: exit, lock: lock}
			s.handler()
		})
	}
	r.ob(once, "handlers", "", n >= 2, "%d query handlers found", n)

	// what answering reaches
	var roots []*ssa.Function
	roots = append(roots, r.answerRoots()...)
	roots = append(roots, r.handlers()...)
	set := p.reachedFns(roots)
	served := p.servedTypes(func(pkg string) bool {
		for _, h := range r.handlers() {
			if fnPkgPath(h) == pkg {
				return true
			}
		}
		return false
	})
	r.ob(guard, "served types", "", len(served) >= 3, "%d types of servers in the programs", len(served))
	var sroots []*ssa.Function
	for _, f := range r.answerRoots() {
		if t := namedOf(f.Signature.Recv().Type()); t != nil && served[t.Obj()] {
			sroots = append(sroots, f)
		}
	}
	sset := p.reachedStatic(sroots)
	ne, nl := 0, 0
	for _, fn := range p.Funcs {
		if !set[fn] {
			continue
		}
		ne++
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				nm := calleeName(c.Common())
				if noReturn[nm] {
					r.ob(exit, fnName(fn)+" "+shortN(nm), p.relPos(in.Pos()), p.onlyWhen(fn, b), "%s is called while a request is answered", shortN(nm))
				}
				if _, ok := in.(*ssa.Go); ok && sset[fn] {
					r.ob(guard, fnName(fn)+" goroutine", p.relPos(in.Pos()), false, "part of an answer is computed in a goroutine, whose panic ends the process")
				}
				if d, ok := in.(*ssa.Call); ok && lockCall(nm) && !strings.HasSuffix(nm, "nlock") && argOf(c.Common(), 0) != nil {
					nl++
					r.ob(lock, fnName(fn)+" lock", p.relPos(in.Pos()), releasedAlways(d), "the lock stays taken when what follows panics")
				}
			}
		}
	}
	r.ob(exit, "functions", "", ne >= 20, "%d functions are reached from answering", ne)
	r.ob(lock, "locks", "", true, "%d locks are taken while answering", nl)
}

// onlyWhen: the block is not reached at all.
func (p *Program) onlyWhen(fn *ssa.Function, b *ssa.BasicBlock) bool {
	return len(fn.Blocks) > 0 && b != fn.Blocks[0] && len(b.Preds) == 0
}

// reachedStatic: as reachedFns, calls of interface methods left out.
func (p *Program) reachedStatic(roots []*ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var dfs func(g *ssa.Function)
	dfs = func(g *ssa.Function) {
		if g == nil || seen[g] || !p.inRepo(g) {
			return
		}
		seen[g] = true
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				var ops [16]*ssa.Value
				for _, o := range in.Operands(ops[:0]) {
					if h, ok := (*o).(*ssa.Function); ok {
						dfs(h)
					}
				}
			}
		}
	}
	for _, f := range roots {
		dfs(f)
	}
	return seen
}

// servedTypes: the types of servers the programs make.
func (p *Program) servedTypes(serves func(pkg string) bool) map[*types.TypeName]bool {
	r := map[*types.TypeName]bool{}
	for _, fn := range p.productFuncs() {
		if fn.Pkg == nil || fn.Pkg.Pkg.Name() != "main" || fn.Name() != "main" || fn.Parent() != nil || !serves(fnPkgPath(fn)) {
			continue
		}
		for g := range p.reachedStatic([]*ssa.Function{fn}) {
			if fnPkgPath(g) != modPath+"/lib/server" || g.Signature.Recv() != nil {
				continue
			}
			for k := 0; k < g.Signature.Results().Len(); k++ {
				if n := namedOf(g.Signature.Results().At(k).Type()); n != nil {
					r[n.Obj()] = true
				}
			}
		}
	}
	return r
}

// releasedAlways: the unlock is deferred right after the lock, or nothing in between can panic.
func releasedAlways(l *ssa.Call) bool {
	mu := argOf(l.Common(), 0)
	b := l.Block()
	same := func(v ssa.Value) bool {
		if v == mu {
			return true
		}
		x, ok := v.(*ssa.FieldAddr)
		y, ok2 := mu.(*ssa.FieldAddr)
		return ok && ok2 && x.Field == y.Field && (x.X == y.X || sameVar(x.X, y.X))
	}
	unlockOf := func(c *ssa.CallCommon) bool {
		n := calleeName(c)
		return lockCall(n) && strings.HasSuffix(n, "nlock") && argOf(c, 0) != nil && same(argOf(c, 0))
	}
	on := false
	var walk func(b *ssa.BasicBlock, from int, seen map[*ssa.BasicBlock]bool) bool
	walk = func(b *ssa.BasicBlock, from int, seen map[*ssa.BasicBlock]bool) bool {
		for _, in := range b.Instrs[from:] {
			switch x := in.(type) {
			case *ssa.Defer:
				if unlockOf(x.Common()) {
					return true
				}
				if mc, ok := x.Common().Value.(*ssa.MakeClosure); ok {
					if f, ok := mc.Fn.(*ssa.Function); ok && len(f.Blocks) > 0 {
						for _, fi := range f.Blocks[0].Instrs {
							if c, ok := fi.(*ssa.Call); ok && lockCall(calleeName(c.Common())) && strings.HasSuffix(calleeName(c.Common()), "nlock") {
								return true
							}
						}
					}
				}
			case *ssa.Call:
				if unlockOf(x.Common()) {
					return true
				}
				return false
			case *ssa.IndexAddr, *ssa.Index, *ssa.Slice, *ssa.TypeAssert, *ssa.Panic, *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.MakeSlice:
				return false
			case *ssa.BinOp:
				if x.Op == token.QUO || x.Op == token.REM {
					return false
				}
			case *ssa.Return:
				return false
			}
		}
		for _, s := range b.Succs {
			if seen[s] {
				continue
			}
			seen[s] = true
			if !walk(s, 0, seen) {
				return false
			}
		}
		return true
	}
	for k, in := range b.Instrs {
		if in == ssa.Instruction(l) {
			on = true
			return walk(b, k+1, map[*ssa.BasicBlock]bool{})
		}
	}
	return on
}

// sameVar: both values are read from the same local variable.
func sameVar(x, y ssa.Value) bool {
	u, ok := x.(*ssa.UnOp)
	v, ok2 := y.(*ssa.UnOp)
	if !ok || !ok2 || u.Op != token.MUL || v.Op != token.MUL || u.X != v.X {
		return false
	}
	_, ok = u.X.(*ssa.Alloc)
	return ok
}

// recovers: the function turns a panic below it into an error it returns.
func recovers(fn *ssa.Function) (bool, string) {
	er := -1
	for k := 0; k < fn.Signature.Results().Len(); k++ {
		if isErrorType(fn.Signature.Results().At(k).Type()) {
			er = k
		}
	}
	if er < 0 || fn.Recover == nil {
		return false, "it does not recover into an error"
	}
	// the result is a variable of the function
	var ret *ssa.Return
	for _, in := range fn.Recover.Instrs {
		if x, ok := in.(*ssa.Return); ok {
			ret = x
		}
	}
	if ret == nil || len(ret.Results) <= er {
		return false, "it does not return after recovering"
	}
	ld, ok := ret.Results[er].(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return false, "its error is not a named result"
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			d, ok := in.(*ssa.Defer)
			if !ok {
				continue
			}
			// the address of the error in the deferred function
			var g *ssa.Function
			var addr ssa.Value
			switch v := d.Common().Value.(type) {
			case *ssa.MakeClosure:
				g = v.Fn.(*ssa.Function)
				for k, bv := range v.Bindings {
					if bv == ld.X {
						addr = g.FreeVars[k]
					}
				}
				for k, av := range d.Common().Args {
					if av == ld.X && k < len(g.Params) {
						addr = g.Params[k]
					}
				}
			case *ssa.Function:
				g = v
				for k, av := range d.Common().Args {
					if av == ld.X && k < len(g.Params) {
						addr = g.Params[k]
					}
				}
			}
			if g == nil || addr == nil {
				continue
			}
			if why := setsError(g, addr); why != "" {
				return false, why
			}
			return true, ""
		}
	}
	return false, "no deferred function sets its error"
}

// setsError: when recover yields something, the function writes an error to the address.
func setsError(g *ssa.Function, addr ssa.Value) string {
	var rec *ssa.Call
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if bi, ok := c.Common().Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
					rec = c
				}
			}
		}
	}
	if rec == nil {
		return "the deferred function does not recover"
	}
	// explore from the entry; at a test of the recovered value follow the side on which there is one
	type st struct {
		b   *ssa.BasicBlock
		set bool
	}
	seen := map[st]bool{}
	bad := ""
	var walk func(s st)
	walk = func(s st) {
		if seen[s] || bad != "" {
			return
		}
		seen[s] = true
		for _, in := range s.b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if x.Addr == addr {
					s.set = false
					switch v := x.Val.(type) {
					case *ssa.Call:
						n := calleeName(v.Common())
						s.set = strings.HasSuffix(n, ".Errorf") || n == "errors.New" || strings.HasSuffix(n, "xerrors.New") || n == grpcPkg[:len(grpcPkg)-1]+"/status.Error" || n == "google.golang.org/grpc/status.Error"
					case *ssa.MakeInterface:
						s.set = true
					case *ssa.UnOp:
						_, glob := v.X.(*ssa.Global)
						s.set = glob
					case *ssa.Extract:
						// r.(error), tested
						if ta, ok := v.Tuple.(*ssa.TypeAssert); ok && ta.X == ssa.Value(rec) {
							s.set = true
						}
					case *ssa.TypeAssert:
						s.set = v.X == ssa.Value(rec)
					}
				}
			case *ssa.Panic:
				bad = "the deferred function panics again"
				return
			case *ssa.Return:
				if !s.set {
					bad = "the deferred function may leave the error unset after a panic"
				}
				return
			}
		}
		last := s.b.Instrs[len(s.b.Instrs)-1]
		if f, ok := last.(*ssa.If); ok {
			if c, ok := f.Cond.(*ssa.BinOp); ok && (c.X == ssa.Value(rec) || c.Y == ssa.Value(rec)) {
				o := c.Y
				if c.Y == ssa.Value(rec) {
					o = c.X
				}
				if k, ok := o.(*ssa.Const); ok && k.IsNil() {
					if c.Op == token.NEQ {
						walk(st{s.b.Succs[0], s.set})
						return
					} else if c.Op == token.EQL {
						walk(st{s.b.Succs[1], s.set})
						return
					}
				}
			}
		}
		for _, n := range s.b.Succs {
			walk(st{n, s.set})
		}
	}
	walk(st{g.Blocks[0], false})
	return bad
}

// guarded: the functions an instruction is expanded in include one that recovers, entered by a plain call.
func (s *server1) guarded(i *Ins) (bool, string) {
	why := "no function around it recovers"
	for c := i.Ctx; c != nil; c = c.Parent {
		if c.Fn != nil {
			ok, w := recovers(c.Fn)
			if ok {
				if s.deferFirst(c.Fn) {
					return true, ""
				}
				w = "the deferred function is registered too late"
			}
			if w != "it does not recover into an error" {
				why = fnName(c.Fn) + ": " + w
			}
		}
		if c.Async != nil {
			break
		}
	}
	return false, why
}

// deferFirst: the deferred function is registered before anything is called that answers.
func (s *server1) deferFirst(fn *ssa.Function) bool {
	var ds []*ssa.Defer
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if d, ok := in.(*ssa.Defer); ok {
				ds = append(ds, d)
			}
		}
	}
	for _, b := range fn.Blocks {
		for k, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			hit := answerCall(calleeName(c.Common()))
			if g := staticCallee(c.Common()); g != nil && !hit {
				for h := range s.r.p.reachedStatic([]*ssa.Function{g}) {
					for _, hb := range h.Blocks {
						for _, hi := range hb.Instrs {
							if hc, ok := hi.(ssa.CallInstruction); ok && answerCall(calleeName(hc.Common())) {
								hit = true
							}
						}
					}
				}
			}
			if !hit {
				continue
			}
			ok = false
			for _, d := range ds {
				if d.Block() == b {
					for _, e := range b.Instrs[:k] {
						ok = ok || e == ssa.Instruction(d)
					}
				} else if d.Block().Dominates(b) {
					ok = true
				}
			}
			if !ok {
				return false
			}
		}
	}
	return true
}

// queryOf: the term is the query of the request req.
func queryOf(t, req *T) bool {
	if hasSuffix(callName(t), "proto.QueryRequest).GetQuery") {
		return t.args[0] == req
	}
	return (t.op == "ld" || t.op == "mem") && t.args[0].op == "fa" && t.args[0].aux == "QueryRequest.Query" && t.args[0].args[0] == req
}

func (s *server1) handler() {
	r, p := s.r, s.r.p
	noLib := func(f *ssa.Function) bool {
		return strings.HasPrefix(fnPkgPath(f), modPath+"/lib/")
	}
	a := r.flatFn(s.h, "query "+fnName(s.h), noLib)
	s.a = a
	name := fnName(s.h)
	var req *T
	for k, q := range s.h.Params {
		if n := namedOf(q.Type()); n != nil && n.Obj().Name() == "QueryRequest" {
			req = a.p.app("param", a.paramName(k))
		}
	}
	if req == nil {
		panic(unresolved("the request of " + name))
	}
	var calls []*Ins
	for _, b := range a.rpo {
		for _, i := range b.Ins {
			if i.Op == OpCall && answerCall(a.callee(i)) {
				calls = append(calls, i)
			}
		}
	}
	if len(calls) > 0 {
		s.direct(name, req, calls)
		return
	}
	// a worker answers: the request goes to a channel
	type handover struct {
		i    *Ins
		ch   *Ins
		val  *Ins
		when *T
	}
	var sends []handover
	for _, b := range a.rpo {
		for _, i := range b.Ins {
			if i.Op == OpSend {
				sends = append(sends, handover{i, i.Args[0], i.Args[1], nil})
			}
			if i.Op == OpSelect {
				for k, st := range i.States {
					if st.Send {
						sends = append(sends, handover{i, i.Args[2*k], i.Args[2*k+1], a.p.eq(a.p.app("x", "0", a.term(i)), a.p.c(int64(k)))})
					}
				}
			}
		}
	}
	r.ob(s.once, name+": handed over", p.relPos(s.h.Pos()), len(sends) == 1 && a.innermost(sends[0].i.Blk) == nil && inThread(sends[0].i) == nil, "the request is handed over at %d places", len(sends))
	if len(sends) != 1 {
		return
	}
	snd := sends[0].i
	s.ch = sends[0].ch
	val := a.at(sends[0].val, snd.Blk)
	nt := namedOf(sends[0].val.Typ)
	if nt == nil {
		panic(unresolved("what is sent to the worker by " + name))
	}
	for _, b := range a.rpo {
		for _, i := range b.Ins {
			if i == snd || i.Op != OpRecv && i.Op != OpSelect {
				continue
			}
			ok := a.DomI(snd, i)
			if sends[0].when != nil {
				ok = ok && a.mustPassBlockLit(sends[0].when, i.Blk)
			}
			r.ob(s.once, name+": waits at "+a.posOf(i), a.f.where(i), ok, "the handler waits for a reply to a request that it has not handed over")
		}
	}
	stt, ok := nt.Underlying().(*types.Struct)
	if !ok {
		panic(unresolved("what is sent to the worker by " + name))
	}
	fields := map[string]*T{}
	for k := 0; k < stt.NumFields(); k++ {
		f := stt.Field(k).Name()
		if val.op == "tuple" && k < len(val.args) {
			fields[f] = val.args[k]
		} else {
			fields[f] = a.fieldAt(val, nt.Obj().Name()+"."+f, snd)
		}
	}
	// the worker: a goroutine that receives and answers
	workers := p.workersOf(s.h)
	r.ob(s.live, name+": worker", p.relPos(s.h.Pos()), len(workers) == 1, "%d goroutines take the requests and answer them", len(workers))
	if len(workers) != 1 {
		return
	}
	replies := s.worker(name, workers[0], nt, fields, req)
	s.returns(name, fields, replies, snd)
	s.lifecycle(name, workers[0])
}

// direct: the handler computes the answer itself.
func (s *server1) direct(name string, req *T, calls []*Ins) {
	r, a := s.r, s.a
	r.ob(s.once, name+": answers", a.f.where(calls[0]), len(calls) == 1, "%d answers are computed", len(calls))
	if len(calls) != 1 {
		return
	}
	c := calls[0]
	ok, why := s.guarded(c)
	r.ob(s.guard, name, a.f.where(c), ok && inThread(c) == nil, "%s", why)
	q := a.arg(c, nargs(c)-1)
	r.ob(s.right, name+": query", a.f.where(c), queryOf(q, req), "the answer is to %s", short2(q))
	ok, why = a.errStops(c, "1")
	r.ob(s.right, name+": error", a.f.where(c), ok, "the failure of the answer is not reported: %s", why)
	n := 0
	for _, e := range a.accepts() {
		n++
		ans := a.fieldAt(e.vals[0], "QueryResponse.Answer", a.endOf(e.b))
		x := ans != nil && ans.op == "x" && ans.aux == "0" && ans.args[0] == a.term(c)
		r.ob(s.right, fmt.Sprintf("%s: return %d", name, n), a.f.whereB(e.b), x, "the answer returned is %s", short2(ans))
	}
	r.ob(s.once, name, a.f.where(c), n > 0, "no path of the handler returns an answer")
}

// workersOf: the goroutines started in the handler's package that answer queries.
func (p *Program) workersOf(h *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, fn := range p.Funcs {
		if fnPkgPath(fn) != fnPkgPath(h) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				g, ok := in.(*ssa.Go)
				if !ok {
					continue
				}
				var t *ssa.Function
				if t = staticCallee(g.Common()); t == nil {
					if mc, ok := g.Common().Value.(*ssa.MakeClosure); ok {
						t = mc.Fn.(*ssa.Function)
					}
				}
				if t == nil || seen[t] {
					continue
				}
				hit := false
				for x := range p.reachedStatic([]*ssa.Function{t}) {
					for _, xb := range x.Blocks {
						for _, xi := range xb.Instrs {
							if c, ok := xi.(ssa.CallInstruction); ok && answerCall(calleeName(c.Common())) {
								hit = true
							}
						}
					}
				}
				if hit {
					seen[t] = true
					out = append(out, t)
				}
			}
		}
	}
	return out
}

// worker decides the loop that takes requests; it returns which fields carry
// replies and what: "0" the answer, "1" the error, "01" both.
func (s *server1) worker(name string, w *ssa.Function, nt *types.Named, fields map[string]*T, req *T) map[string]string {
	r := s.r
	a := r.flatFn(w, "worker "+fnName(w), func(f *ssa.Function) bool {
		return strings.HasPrefix(fnPkgPath(f), modPath+"/lib/")
	})
	wn := fnName(w)
	at := r.p.relPos(w.Pos())
	var recvs, calls, sends []*Ins
	for _, b := range a.rpo {
		for _, i := range b.Ins {
			switch {
			case i.Op == OpRecv:
				recvs = append(recvs, i)
			case i.Op == OpCall && answerCall(a.callee(i)):
				calls = append(calls, i)
			case i.Op == OpSend:
				sends = append(sends, i)
			}
		}
	}
	r.ob(s.once, wn+": takes", at, len(recvs) == 1 && len(calls) == 1, "requests are taken at %d places and answered at %d", len(recvs), len(calls))
	if len(recvs) != 1 || len(calls) != 1 {
		return nil
	}
	rc, c := recvs[0], calls[0]
	l := a.innermost(rc.Blk)
	if l == nil || a.innermost(c.Blk) != l || inThread(c) != nil {
		r.ob(s.live, wn+": loop", a.f.where(rc), false, "requests are not taken and answered in one loop")
		return nil
	}
	// the loop goes on until the channel is closed
	closed := 0
	for _, e := range l.Exits {
		ok := false
		for _, x := range a.lits(e) {
			if x.op == "!" && x.args[0].op == "x" && x.args[0].aux == "1" && x.args[0].args[0] == a.term(rc) {
				ok = true
			}
		}
		if ok {
			closed++
			continue
		}
		r.ob(s.live, wn+": goes on", a.f.whereB(e.B), false, "the worker stops taking requests here")
	}
	r.ob(s.live, wn+": loop", a.f.where(rc), closed >= 1, "the worker takes requests until the channel is closed")
	ok, why := s.guardedAs(a, c)
	r.ob(s.guard, wn, a.f.where(c), ok, "%s", why)

	el := a.term(rc)
	if rc.CommaOk {
		el = a.p.app("x", "0", el)
	}
	fieldOf := func(t *T) string {
		if t.op == "f" && len(t.args) == 1 && t.args[0] == el {
			return strings.TrimPrefix(t.aux, nt.Obj().Name()+".")
		}
		if (t.op == "ld" || t.op == "mem") && t.args[0].op == "fa" && t.args[0].args[0] == el {
			return strings.TrimPrefix(t.args[0].aux, nt.Obj().Name()+".")
		}
		return ""
	}
	// the query
	q := a.arg(c, nargs(c)-1)
	okq := false
	if f := fieldOf(q); f != "" {
		okq = fields[f] != nil && queryOf(fields[f], req)
	} else {
		var in *T
		if hasSuffix(callName(q), "proto.QueryRequest).GetQuery") {
			in = q.args[0]
		} else if (q.op == "ld" || q.op == "mem") && q.args[0].op == "fa" && q.args[0].aux == "QueryRequest.Query" {
			in = q.args[0].args[0]
		}
		if in != nil {
			f := fieldOf(in)
			okq = f != "" && fields[f] == req
		}
	}
	r.ob(s.right, wn+": query", a.f.where(c), okq, "the worker answers %s", short2(q))

	// the replies
	kinds := map[string]string{}
	set := map[*Ins]bool{}
	cerr := a.p.app("x", "1", a.term(c))
	for _, x := range sends {
		set[x] = true
		f := fieldOf(a.op(x, 0))
		v := a.op(x, 1)
		kind := s.kindOf(a, v, c)
		r.ob(s.right, wn+" sends at "+a.posOf(x), a.f.where(x), f != "" && kind != "", "the worker sends %s to %s", short2(v), short2(a.op(x, 0)))
		if f == "" || kind == "" {
			continue
		}
		part := kind
		if kind == "0-" || kind == "-1" {
			part, kind = kind, "01"
		}
		if old, ok := kinds[f]; ok && old != kind {
			r.ob(s.right, wn+" sends at "+a.posOf(x), a.f.where(x), false, "answers and errors go to the same channel")
		}
		kinds[f] = kind
		switch part {
		case "0", "0-":
			r.ob(s.right, wn+" answer at "+a.posOf(x), a.f.where(x), a.whenNil(cerr, true, x.Blk), "an answer is sent although answering failed")
		case "1", "-1":
			ok := a.whenNil(cerr, false, x.Blk)
			if v := x.Args[1]; !ok && part == "1" && nilness(v) == 2 {
				ok = true
			}
			r.ob(s.right, wn+" error at "+a.posOf(x), a.f.where(x), ok, "an error is sent that may be nil")
		}
	}
	lo, hi := a.perIteration(l, set)
	r.ob(s.once, wn, a.f.where(c), lo == 1 && hi == 1, "for a request %d to %d replies are sent", lo, hi)
	return kinds
}

func (s *server1) guardedAs(a *Analysis, c *Ins) (bool, string) { return s.guarded(c) }

// kindOf: what a value tells of the result of the call.
func (s *server1) kindOf(a *Analysis, v *T, c *Ins) string {
	x0, x1 := a.p.app("x", "0", a.term(c)), a.p.app("x", "1", a.term(c))
	switch {
	case v == x0:
		return "0"
	case v == x1:
		return "1"
	case strings.HasSuffix(callName(v), ".Errorf") && len(v.args) > 0:
		return "1"
	case v.op == "tuple":
		has0, has1 := false, false
		for _, y := range v.args {
			has0 = has0 || y == x0
			has1 = has1 || y == x1
		}
		if has0 && has1 {
			return "01"
		}
		rest := true
		for _, y := range v.args {
			rest = rest && (y == x0 || y == x1 || y.op == "nil" || strings.HasSuffix(callName(y), ".Errorf"))
			has1 = has1 || strings.HasSuffix(callName(y), ".Errorf")
		}
		if rest && has0 {
			return "0-"
		}
		if rest && has1 {
			return "-1"
		}
	}
	return ""
}

// returns: the handler returns what it receives, or an error.
func (s *server1) returns(name string, fields map[string]*T, kinds map[string]string, snd *Ins) {
	r, a := s.r, s.a
	chans := map[*T]string{}
	for f, k := range kinds {
		ch := fields[f]
		if ch == nil {
			continue
		}
		chans[ch] = k
		ok := false
		for _, b := range a.rpo {
			for _, i := range b.Ins {
				if i.Op == OpMakeChan && a.term(i) == ch {
					n, c := a.op(i, 0).isC()
					ok = c && n >= 1
				}
			}
		}
		r.ob(s.once, name+": room in "+f, a.f.where(snd), ok, "the worker blocks when nobody takes the reply any more")
	}
	r.ob(s.once, name+": reply channels", a.f.where(snd), len(chans) >= 1, "the worker's replies have %d channels", len(chans))
	// a received value: the channel, and the condition under which it is one
	from := func(t *T) (*T, *T) {
		if t == nil {
			return nil, nil
		}
		if t.op == "recv" {
			return t.args[0], nil
		}
		if t.op == "x" && t.args[0].op == "recv" && t.aux == "0" {
			return t.args[0].args[0], nil
		}
		if t.op == "x" && t.args[0].op == "select" {
			sel := t.args[0]
			i := a.insOf[sel.aux]
			if i == nil {
				return nil, nil
			}
			k, n := atoi(t.aux), 2
			for j, stt := range i.States {
				if stt.Send {
					continue
				}
				if n == k {
					return sel.args[2*j], a.p.eq(a.p.app("x", "0", sel), a.p.c(int64(j)))
				}
				n++
			}
		}
		return nil, nil
	}
	n := 0
	for _, b := range a.rpo {
		if b.Term != TReturn || len(b.Rets) != 2 {
			continue
		}
		n++
		inst := fmt.Sprintf("%s: return %d", name, n)
		resp, err := a.at(b.Rets[0], b), a.at(b.Rets[1], b)
		w := a.f.whereB(b)
		if err.op != "nil" {
			// an error: one received from the worker, or one that is never nil
			ch, cond := from(err)
			switch {
			case ch != nil:
				ok := chans[ch] == "1" && (cond == nil || a.mustPassBlockLit(cond, b))
				r.ob(s.right, inst, w, ok, "the error returned is %s", short2(err))
			default:
				ok := err.op == "ld" && err.args[0].op == "global" || nilness(b.Rets[1]) == 2 || strings.HasPrefix(callName(err), "(context.Context).Err") || a.whenNil(err, false, b)
				if !ok && (err.op == "f" || err.op == "x") && resp.op != "nil" {
					ok = s.pairOf(resp, err, from, chans, b)
				}
				r.ob(s.right, inst, w, ok, "the error returned, %s, may be nil", short2(err))
			}
			continue
		}
		ans := a.fieldAt(resp, "QueryResponse.Answer", a.endOf(b))
		ch, cond := from(ans)
		if ch == nil && ans != nil && ans.op == "f" {
			// one part of a reply with answer and error
			ch, cond = from(ans.args[0])
			ok := ch != nil && chans[ch] == "01" && (cond == nil || a.mustPassBlockLit(cond, b))
			hit := a.mustPassLit(func(x *T) bool {
				y := nilTest(x)
				return y != nil && y.op == "f" && y.args[0] == ans.args[0]
			}, b)
			r.ob(s.right, inst, w, ok && hit, "the answer returned is %s", short2(ans))
			continue
		}
		ok := ch != nil && chans[ch] == "0" && (cond == nil || a.mustPassBlockLit(cond, b))
		r.ob(s.right, inst, w, ok, "the answer returned is %s", short2(ans))
	}
	r.ob(s.once, name, "", n > 0, "the handler returns at %d places", n)
}

func (s *server1) pairOf(resp, err *T, from func(*T) (*T, *T), chans map[*T]string, b *Block) bool {
	ans := s.a.fieldAt(resp, "QueryResponse.Answer", s.a.endOf(b))
	if ans == nil || ans.op != "f" || err.op != "f" || ans.args[0] != err.args[0] {
		return false
	}
	ch, cond := from(ans.args[0])
	return ch != nil && chans[ch] == "01" && (cond == nil || s.a.mustPassBlockLit(cond, b))
}

// lifecycle: the program starts the worker, and stops it when no handler runs any more.
func (s *server1) lifecycle(name string, w *ssa.Function) {
	r, p := s.r, s.r.p
	for _, fn := range p.productFuncs() {
		if fn.Name() != "main" || fn.Parent() != nil || fn.Signature.Recv() != nil || fnPkgPath(fn) != fnPkgPath(s.h) {
			continue
		}
		a := r.flatFn(fn, "main "+fnName(fn), func(f *ssa.Function) bool {
			return strings.HasPrefix(fnPkgPath(f), modPath+"/lib/") || f == w
		})
		var starts, graceful, hard, closes, serves []*Ins
		for _, b := range a.rpo {
			for _, i := range b.Ins {
				switch {
				case i.Op == OpGo && len(i.Args) > 0:
					if f, _, _ := a.f.target(i); f == w {
						starts = append(starts, i)
					}
				case i.Op == OpCall && strings.HasSuffix(a.callee(i), "grpc.Server).GracefulStop"):
					graceful = append(graceful, i)
				case i.Op == OpCall && strings.HasSuffix(a.callee(i), "grpc.Server).Stop"):
					hard = append(hard, i)
				case i.Op == OpCall && strings.HasSuffix(a.callee(i), "grpc.Server).Serve"):
					serves = append(serves, i)
				case i.Op == OpBuiltin && i.Name == "close":
					if i.Args[0].Typ != nil && types.Identical(i.Args[0].Typ.Underlying().(*types.Chan).Elem(), s.chanElem()) {
						closes = append(closes, i)
					}
				}
			}
		}
		at := p.relPos(fn.Pos())
		ok := len(starts) >= 1
		for _, x := range starts {
			for _, sv := range serves {
				ok = ok && a.Dom(x.Blk, sv.Blk) && inThread(x) == nil
			}
		}
		r.ob(s.live, name+": started", at, ok && len(serves) > 0, "the worker is started at %d places, before the RPC server", len(starts))
		r.ob(s.stop, name+": graceful", at, len(graceful) >= 1 && len(hard) == 0, "the RPC server is stopped gracefully at %d places, at once at %d", len(graceful), len(hard))
		for _, c := range closes {
			ok := false
			for _, g := range graceful {
				ok = ok || a.DomI(g, c) && inThread(g) == inThread(c)
			}
			r.ob(s.stop, name+": closed at "+a.posOf(c), a.f.where(c), ok && a.innermost(c.Blk) == nil, "the channel of requests is closed while requests may be pending")
		}
		r.ob(s.stop, name+": closed once", at, len(closes) <= 1, "the channel of requests is closed at %d places", len(closes))
	}
	// nobody else closes it
	for _, fn := range p.Funcs {
		if fnPkgPath(fn) != fnPkgPath(s.h) {
			continue
		}
		for g := range p.reachedStatic([]*ssa.Function{s.h, w}) {
			if g != fn {
				continue
			}
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok {
						if bi, ok := c.Common().Value.(*ssa.Builtin); ok && bi.Name() == "close" {
							r.ob(s.stop, fnName(g)+" closes", p.relPos(in.Pos()), false, "a channel is closed while requests are served")
						}
					}
				}
			}
		}
	}
}

func (s *server1) chanElem() types.Type { return s.ch.Typ.Underlying().(*types.Chan).Elem() }

// nilTest: the literal says that the result is nil.
func nilTest(x *T) *T {
	if x.op == "==" && len(x.args) == 2 {
		for k := 0; k < 2; k++ {
			if x.args[k].op == "nil" {
				return x.args[1-k]
			}
		}
	}
	return nil
}

// mustPassLit: every way to the block passes an edge with such a condition.
func (a *Analysis) mustPassLit(is func(x *T) bool, b *Block) bool {
	_, ok := a.mustPass(func(e Edge) bool {
		for _, l := range a.lits(e) {
			if is(l) {
				return true
			}
		}
		return false
	}, func(s *pst) bool { return s.b == b })
	return ok
}

// whenNil: the block is reached only when x is (not) nil.
func (a *Analysis) whenNil(x *T, want bool, b *Block) bool {
	return a.mustPassLit(func(l *T) bool {
		if !want {
			if l.op != "!" {
				return false
			}
			l = l.args[0]
		}
		return nilTest(l) == x
	}, b)
}
