package main

// L02: clients talk to every configured server and combine one answer of each.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["L02"] = checkL02
	assumptions["L02"] = []string{
		"the addresses in a configuration are different from each other (two equal ones share a connection)",
		"sync.WaitGroup, channels and gRPC behave as documented; a call that never returns is bounded by the deadline of its context",
	}
}

// connsIn: the type is a connection, or a list or map of them, or of structs that hold one.
func connsIn(t types.Type, depth int) bool {
	if t == nil || depth > 3 {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return connsIn(u.Elem(), depth+1)
	case *types.Array:
		return connsIn(u.Elem(), depth+1)
	case *types.Map:
		return connsIn(u.Elem(), depth+1)
	case *types.Pointer:
		return u.Elem().String() == "google.golang.org/grpc.ClientConn" || depth > 0 && connsIn(u.Elem(), depth+1)
	case *types.Struct:
		for k := 0; k < u.NumFields(); k++ {
			if f, ok := u.Field(k).Type().(*types.Pointer); ok && f.Elem().String() == "google.golang.org/grpc.ClientConn" {
				return true
			}
		}
	case *types.Interface:
		return u.String() == "google.golang.org/grpc.ClientConnInterface"
	}
	return false
}

type fan struct {
	r     *Run
	a     *Analysis
	dials []*Ins
	cnt   map[*T]int8
	typ   map[*T]types.Type
}

func (r *Run) newFan(a *Analysis) *fan {
	f := &fan{r: r, a: a, cnt: map[*T]int8{}, typ: map[*T]types.Type{}}
	for _, b := range a.rpo {
		for _, i := range b.Ins {
			if i.Op == OpCall && dialCall(a.callee(i)) {
				f.dials = append(f.dials, i)
			}
			if i.Typ != nil && (i.Op == OpLoad || i.Op == OpMakeMap || i.Op == OpParam || i.Op == OpField || i.Op == OpMakeSlice || i.Op == OpAlloc) {
				f.typ[a.term(i)] = i.Typ
			}
		}
	}
	return f
}

// inThread: the goroutine an instruction belongs to.
func inThread(i *Ins) *Ins {
	if i.Ctx == nil {
		return nil
	}
	return i.Ctx.async()
}

// loopAt: the loop an instruction, or the goroutine it belongs to, is repeated in.
func (f *fan) loopAt(i *Ins) *Loop {
	if g := inThread(i); g != nil {
		return f.a.innermost(g.Blk)
	}
	return f.a.innermost(i.Blk)
}

// servers: the term is the number of servers.
func (f *fan) servers(t *T) bool {
	if v, ok := f.cnt[t]; ok {
		return v == 1
	}
	f.cnt[t] = 0
	ok := f.isServers(t)
	if ok {
		f.cnt[t] = 1
	}
	return ok
}

func (f *fan) isServers(t *T) bool {
	a := f.a
	for _, d := range f.dials {
		if l := f.loopAt(d); l != nil && a.TripOf(l) == t {
			return true
		}
	}
	if t.op != "len" {
		return false
	}
	x := t.args[0]
	// the queries made
	if x.op == "x" && x.aux == "0" && hasSuffix(callName(x.args[0]), ".QueryBytes") {
		for _, c := range a.calls(callName(x.args[0])) {
			if a.term(c) == x.args[0] {
				return f.servers(a.arg(c, 2))
			}
		}
	}
	if x.op == "param" && a.f.Root.Object() != nil && a.f.Root.Object().Exported() {
		for k, q := range a.f.Root.Params {
			if q.Type().String() == "[][]byte" && x.aux == parName(a.f.Root, k) {
				return true // the queries given, judged where the programs make them
			}
		}
	}
	// a list of connections, or a map filled by the loop that connects
	if ty := f.typ[x]; connsIn(ty, 0) {
		if x.op != "obj" {
			return true
		}
		n, all := 0, true
		for _, s := range a.stores {
			if s.i.Op == OpMapUpdate && a.storeAddr(s).op == "mi" && a.storeAddr(s).args[0] == x {
				n++
				l := f.loopAt(s.i)
				all = all && l != nil && f.servers(a.TripOf(l)) && a.everyTime(l, s.i) && a.dialled(a.StoreVal(s)) != nil
			}
		}
		return n == 1 && all
	}
	// what is in a channel when every server's goroutine has sent
	n, all := 0, true
	for _, i := range f.sends(x) {
		n++
		l := f.loopAt(i)
		all = all && l != nil && f.servers(a.TripOf(l)) && a.everyTime(l, i)
	}
	return n == 1 && all
}

func (f *fan) sends(ch *T) []*Ins {
	var r []*Ins
	for _, b := range f.a.rpo {
		for _, i := range b.Ins {
			if i.Op == OpSend && f.a.op(i, 0) == ch {
				r = append(r, i)
			}
		}
	}
	return r
}

// perIteration: how often one of the instructions is executed in an iteration that goes on.
func (a *Analysis) perIteration(l *Loop, set map[*Ins]bool) (int, int) {
	type mm struct{ lo, hi int }
	memo := map[*Block]*mm{}
	latch := map[*Block]bool{}
	for _, b := range l.Latches {
		latch[b] = true
	}
	var rec func(b *Block) *mm
	rec = func(b *Block) *mm {
		if m, ok := memo[b]; ok {
			return m
		}
		memo[b] = nil
		n := 0
		for _, i := range b.Ins {
			if set[i] {
				n++
				if a.innermost(b) != l {
					n = 100
				}
			}
		}
		var m *mm
		if latch[b] {
			m = &mm{0, 0}
		}
		for _, s := range b.Succs {
			if s == l.Header || !a.inLoop(s, l) {
				continue
			}
			if x := rec(s); x != nil {
				if m == nil {
					m = &mm{x.lo, x.hi}
				} else {
					if x.lo < m.lo {
						m.lo = x.lo
					}
					if x.hi > m.hi {
						m.hi = x.hi
					}
				}
			}
		}
		if m != nil {
			m = &mm{m.lo + n, m.hi + n}
		}
		memo[b] = m
		return m
	}
	m := rec(l.Header)
	if m == nil {
		return 0, 0
	}
	return m.lo, m.hi
}

// answerOf: the RPC whose answer the value is.
func (f *fan) answerOf(v *T, at *Ins) *Ins {
	a := f.a
	if v == nil {
		return nil
	}
	var call *T
	switch {
	case hasSuffix(callName(v), "proto.QueryResponse).GetAnswer"):
		call = v.args[0]
	case v.op == "ld" || v.op == "mem":
		if fa := v.args[0]; fa.op == "fa" && fa.aux == "QueryResponse.Answer" {
			call = fa.args[0]
		}
	}
	if call == nil { // metadata
		n := a.fieldAt(v, "Info.NumRows", at)
		if v.op == "tuple" {
			n = v.args[0]
		}
		if n != nil {
			call = metaCall(n)
		}
	}
	for call != nil && call.op == "x" {
		call = call.args[0]
	}
	if call == nil || !rpcMethod(callName(call)) {
		return nil
	}
	return a.insOf[callID(call)]
}

// metaCall: the metadata request whose answer's number of rows the value is.
func metaCall(n *T) *T {
	if b := responseOf(n, "NumRows"); b != nil {
		var call *T
		walkT(b, func(x *T) bool {
			if hasSuffix(callName(x), "VPIRClient).DatabaseInfo") && call == nil {
				call = x
			}
			return call == nil
		})
		return call
	}
	return nil
}

// responseOf: the metadata response the value is a field of.
func responseOf(n *T, field string) *T {
	var r *T
	walkT(n, func(x *T) bool {
		switch {
		case hasSuffix(callName(x), "proto.DatabaseInfoResponse).Get"+field):
			r = x.args[0]
		case x.op == "fa" && x.aux == "DatabaseInfoResponse."+field:
			r = x.args[0]
		}
		return r == nil
	})
	return r
}

func rpcMethod(n string) bool {
	return hasSuffix(n, "proto.VPIRClient).Query") || hasSuffix(n, "proto.VPIRClient).DatabaseInfo")
}

func checkL02(r *Run) {
	conn := r.rule("connects", "a program connects to every configured server, keeps every connection, and goes on only when all could be made")
	every := r.rule("every-server", "a query or metadata request is sent on every connection: the loop around the call has as many iterations as there are servers and none is left out")
	fails := r.rule("failure-stops", "when a server fails, no result is produced from the other answers")
	one := r.rule("one-answer", "per server exactly one answer is handed over, and it is the one the server gave")
	wait := r.rule("waits", "answers are combined only after the goroutines of all servers have ended, or one has been received for each")
	dead := r.rule("no-deadlock", "goroutines can hand over their answers before anyone receives, the list of answers is closed before it is read to its end, and each goroutine reports its end once")
	all := r.rule("all-combined", "reconstruction gets all answers, as many as there are servers, and queries are made for the same number")
	ctx := r.rule("not-cancelled", "the context of the requests is not cancelled before all have been answered")
	nd, nq, nc := 0, 0, 0
	as := r.programs()
	seen := map[*ssa.Function]bool{}
	for _, a := range as {
		seen[a.f.Root] = true
	}
	for _, fn := range r.p.productFuncs() {
		if fn.Object() == nil || !fn.Object().Exported() || seen[fn] || !strings.HasPrefix(fnPkgPath(fn), modPath+"/cmd/grpc/client") {
			continue
		}
		if r.p.reaches(fn, func(g *ssa.Function) bool {
			return fnPkgPath(g) == "google.golang.org/grpc" && strings.HasPrefix(g.Name(), "Dial") || hasSuffix(fnName(g), "vPIRClient.Query") || hasSuffix(fnName(g), "vPIRClient.DatabaseInfo")
		}) || r.p.callsRPC(fn) {
			as = append(as, r.flatFn(fn, "dial "+fnName(fn), func(f *ssa.Function) bool { return fnPkgPath(f) == modPath+"/lib/client" }))
		}
	}
	for _, a := range as {
		a := a
		r.part(a.f.Name, func() {
			f := r.newFan(a)
			root := fnName(a.f.Root)
			for k, d := range f.dials {
				nd++
				f.dial(conn, fmt.Sprintf("%s connection %d", root, k+1), d)
			}
			k := 0
			for _, b := range a.rpo {
				for _, i := range b.Ins {
					if i.Op != OpCall || !rpcMethod(a.callee(i)) {
						continue
					}
					nq++
					k++
					f.rpc(fmt.Sprintf("%s request %d", root, k), i, every, fails, one, wait, dead, ctx)
				}
			}
			for _, b := range a.rpo {
				for _, i := range b.Ins {
					if i.Op != OpCall {
						continue
					}
					switch n := a.callee(i); {
					case hasSuffix(n, ".QueryBytes"):
						nc++
						w := a.f.where(i)
						cnt := a.arg(i, 2)
						r.ob(all, root+" queries at "+a.posOf(i), w, f.servers(cnt), "the queries are made for %s servers", short2(cnt))
					case hasSuffix(n, ".ReconstructBytes"):
						nc++
						ok, why := f.combined(a.arg(i, 1), i)
						r.ob(all, root+" answers at "+a.posOf(i), a.f.where(i), ok, "%s", why)
					}
				}
			}
			if root == "cmd/grpc/client/manager.Actor.RunQueries" {
				for _, e := range a.accepts() {
					nc++
					ok, why := f.combined(e.vals[0], nil)
					r.ob(all, root+" answers", a.f.whereB(e.b), ok, "%s", why)
				}
			}
		})
	}
	r.ob(conn, "connections", "", nd >= 2, "%d places where a connection is made", nd)
	r.ob(every, "requests", "", nq >= 8, "%d places where a request is sent", nq)
	r.ob(all, "uses", "", nc >= 10, "%d places where queries are made or answers combined", nc)
}

// callsRPC: the function, or a product function it calls, sends a request.
func (p *Program) callsRPC(fn *ssa.Function) bool {
	found := false
	seen := map[*ssa.Function]bool{}
	var rec func(g *ssa.Function)
	rec = func(g *ssa.Function) {
		if g == nil || seen[g] || found || !p.inRepo(g) {
			return
		}
		seen[g] = true
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(ssa.CallInstruction); ok {
					if rpcMethod(calleeName(c.Common())) {
						found = true
						return
					}
					rec(staticCallee(c.Common()))
				}
				for _, o := range i.Operands(nil) {
					if h, ok := (*o).(*ssa.Function); ok && h.Parent() != nil {
						rec(h)
					}
					if mc, ok := (*o).(*ssa.MakeClosure); ok {
						rec(mc.Fn.(*ssa.Function))
					}
				}
			}
		}
	}
	rec(fn)
	return found
}

// dial: the connection is one of a loop over all configured addresses.
func (f *fan) dial(rule, inst string, d *Ins) {
	a, r := f.a, f.r
	w := a.f.where(d)
	l := f.loopAt(d)
	if l == nil {
		r.ob(rule, inst, w, false, "the connection is not made in a loop")
		return
	}
	trip := a.TripOf(l)
	r.ob(rule, inst+": all addresses", w, a.allIterations(l) && f.addresses(trip), "the loop makes %s connections", short2(trip))
	lo, hi := a.perIteration(l, map[*Ins]bool{d: true})
	r.ob(rule, inst+": each address", w, lo >= 1 && hi <= 99, "an iteration makes %d to %d connections", lo, hi)
	ok, why := a.failStops(d)
	r.ob(rule, inst+": failure", w, ok, "the program goes on when the connection could not be made: %s", why)
	n := 0
	call := a.term(d)
	for _, s := range a.stores {
		if s.i.Op != OpStore && s.i.Op != OpMapUpdate {
			continue
		}
		v := a.StoreVal(s)
		if v == nil || !a.everyTime(l, s.i) || !a.inLoop(s.i.Blk, l) && inThread(s.i) == nil {
			continue
		}
		sa := a.storeAddr(s)
		for sa.op == "fa" {
			sa = sa.args[0]
		}
		if (sa.op == "mi" || sa.op == "ia") && containsTerm(v, call) {
			n++
		}
	}
	r.ob(rule, inst+": kept", w, n > 0, "the connection is kept in %d lists", n)
}

// addresses: the number is that of the configured addresses, or the number the
// experiments give on the command line.
func (f *fan) addresses(t *T) bool {
	ok := false
	if t.op == "len" {
		walkT(t, func(x *T) bool {
			if (x.op == "fa" || x.op == "f") && (x.aux == "Config.Servers" || x.aux == "Config.Addresses") {
				ok = true
			}
			return !ok
		})
		return ok
	}
	if !strings.HasPrefix(fnPkgPath(f.a.f.Root), modPath+"/simulations/") {
		return false
	}
	switch {
	case t.op == "mem" && t.args[0].op == "fa":
		// a flag
		for _, i := range f.a.calls("flag.IntVar", "(*flag.FlagSet).IntVar") {
			for k := 0; k < nargs(i); k++ {
				if f.a.arg(i, k) == t.args[0] {
					return true
				}
			}
		}
	case t.op == "ld" || t.op == "mem":
		return hasSuffix(callName(t.args[0]), "flag.Int")
	}
	return false
}

func (f *fan) rpc(inst string, i *Ins, every, fails, one, wait, dead, ctx string) {
	a, r := f.a, f.r
	w := a.f.where(i)
	l := f.loopAt(i)
	if l == nil {
		r.ob(every, inst, w, false, "the request is not sent in a loop over the servers")
		return
	}
	trip := a.TripOf(l)
	lo, _ := a.perIteration(l, map[*Ins]bool{i: true})
	r.ob(every, inst, w, a.allIterations(l) && f.servers(trip) && lo >= 1, "the loop sends %s requests, at least %d in each iteration", short2(trip), lo)
	ok, why := a.failStops(i)
	r.ob(fails, inst, w, ok, "the failure of the request is not the end: %s", why)

	// what is done with the answer
	g := inThread(i)
	var ch *T
	set := map[*Ins]bool{}
	for _, b := range a.rpo {
		for _, s := range b.Ins {
			if s.Op == OpSend && inThread(s) == g && f.answerOf(a.op(s, 1), s) == i {
				set[s] = true
				ch = a.op(s, 0)
			}
		}
	}
	var sink []*Ins
	if ch != nil {
		for _, s := range f.sends(ch) {
			if set[s] {
				continue
			}
			set[s] = true
			r.ob(one, inst+": other sends", a.f.where(s), false, "something else is sent to the channel of the answers: %s", short2(a.op(s, 1)))
		}
	} else {
		for _, s := range a.stores {
			if s.i.Op != OpStore || inThread(s.i) != g {
				continue
			}
			sa := a.storeAddr(s)
			if sa.op == "ia" && f.answerOf(a.StoreVal(s), s.i) == i {
				k := sa.args[1]
				if _, c := k.isC(); c && sa.args[0].op == "obj" {
					// the argument list of an append
					if g != nil {
						_, held := a.held(s.i)
						r.ob(one, inst+": shared list", a.f.where(s.i), held, "goroutines append to one list without a lock")
					}
				} else if k.op != "k" || atoi(k.aux) != l.ID {
					r.ob(one, inst+": place", a.f.where(s.i), false, "the answer of a server is put at %s", short2(k))
				}
				set[s.i] = true
			}
		}
	}
	for s := range set {
		sink = append(sink, s)
	}
	lo, hi := a.perIteration(l, set)
	r.ob(one, inst, w, lo == 1 && hi == 1, "for a server %d to %d answers are handed over", lo, hi)

	// the end of the wait
	var end []*Ins
	var endLoop *Loop
	if ch != nil {
		var recvs []*Ins
		for _, b := range a.rpo {
			for _, x := range b.Ins {
				if x.Op == OpRecv && a.op(x, 0) == ch {
					recvs = append(recvs, x)
				}
			}
		}
		r.ob(wait, inst+": received", w, len(recvs) == 1, "the answers are received at %d places", len(recvs))
		if len(recvs) != 1 {
			return
		}
		x := recvs[0]
		rl := a.innermost(x.Blk)
		if rl == nil || !a.everyTimeRecv(rl, x) || !a.allIterations(rl) {
			r.ob(wait, inst+": received", w, false, "not all answers are received")
			return
		}
		rt := a.TripOf(rl)
		if f.servers(rt) && !(rt.op == "len" && rt.args[0] == ch) {
			endLoop = rl
			r.ob(wait, inst, w, true, "")
			wt := f.waitFor(l, g)
			if wt != nil && a.DomI(wt, x) {
				f.capacity(dead, inst, w, ch)
			}
		} else {
			var closes []*Ins
			for _, b := range a.rpo {
				for _, y := range b.Ins {
					if y.Op == OpBuiltin && y.Name == "close" && a.op(y, 0) == ch {
						closes = append(closes, y)
					}
				}
			}
			ok := rt.op == "len" && rt.args[0] == ch && len(closes) == 1 && a.DomI(closes[0], x)
			r.ob(dead, inst+": closed", w, ok, "the channel is read to its end, and closed at %d places before", len(closes))
			if !ok {
				return
			}
			wt := f.waitFor(l, g)
			ok = g == nil || wt != nil && a.DomI(wt, closes[0])
			r.ob(wait, inst, w, ok, "the channel is closed before all goroutines have ended")
			if !ok {
				return
			}
			if g == nil || inThread(wt) == nil {
				f.capacity(dead, inst, w, ch)
			}
			end = append(end, closes[0])
		}
	} else if g != nil {
		wt := f.waitFor(l, g)
		r.ob(wait, inst, w, wt != nil, "nothing waits for the goroutines")
		if wt == nil {
			return
		}
		end = append(end, wt)
		// every use of what they wrote comes after
		for _, b := range a.rpo {
			for _, x := range b.Ins {
				if x.Op == OpCall && hasSuffix(a.callee(x), ".ReconstructBytes") {
					if e := a.elemAt(a.arg(x, 1), a.p.app("param", "#server"), x); f.answerOf(e, x) == i {
						r.ob(wait, inst+": use", a.f.where(x), a.DomI(wt, x), "the answers are combined before the goroutines have ended")
					}
				}
			}
		}
	}
	if g != nil {
		wt := f.waitFor(l, g)
		if wt != nil {
			f.counted(dead, inst, w, l, g, wt, sink)
		}
	}
	// the context
	c := a.arg(i, 1)
	if c.op == "x" && c.aux == "0" && strings.HasPrefix(callName(c.args[0]), "context.With") {
		cancel := a.p.app("x", "1", c.args[0])
		for _, b := range a.rpo {
			for _, x := range b.Ins {
				if x.Op != OpCall || a.op(x, 0) != cancel {
					continue
				}
				ok := false
				for _, e := range end {
					ok = ok || a.DomI(e, x)
				}
				if endLoop != nil {
					ok = a.Dom(endLoop.Header, x.Blk) && !a.inLoop(x.Blk, endLoop)
				}
				if g == nil {
					ok = a.Dom(l.Header, x.Blk) && !a.inLoop(x.Blk, l)
				}
				r.ob(ctx, inst+" at "+a.posOf(x), a.f.where(x), ok, "the context of the requests is cancelled before all answers are there")
			}
		}
	}
}

// everyTimeRecv: the loop receives in every iteration; that of a range receives in its header.
func (a *Analysis) everyTimeRecv(l *Loop, x *Ins) bool {
	return x.Blk == l.Header || a.everyTime(l, x)
}

func (f *fan) capacity(rule, inst, w string, ch *T) {
	a := f.a
	for _, b := range a.rpo {
		for _, i := range b.Ins {
			if i.Op == OpMakeChan && a.term(i) == ch {
				n := a.op(i, 0)
				ok := f.servers(n)
				f.r.ob(rule, inst+": capacity", w, ok, "the channel holds %s answers, and is read only when all have been sent", short2(n))
				return
			}
		}
	}
	f.r.ob(rule, inst+": capacity", w, false, "the capacity of the channel is not known")
}

// waitFor: the call that waits for the goroutines started in the loop.
func (f *fan) waitFor(l *Loop, g *Ins) *Ins {
	a := f.a
	if g == nil {
		return nil
	}
	for _, x := range a.calls("(*sync.WaitGroup).Wait") {
		wg := a.arg(x, 0)
		for _, d := range a.calls("(*sync.WaitGroup).Done") {
			if inThread(d) == g && a.arg(d, 0) == wg && !a.inLoop(x.Blk, l) && a.Dom(l.Header, x.Blk) {
				return x
			}
		}
	}
	return nil
}

// counted: the counter waited for goes up once per goroutine before it starts,
// and down once at its end.
func (f *fan) counted(rule, inst, w string, l *Loop, g, wt *Ins, sink []*Ins) {
	a, r := f.a, f.r
	wg := a.arg(wt, 0)
	set := map[*Ins]bool{}
	for _, d := range a.calls("(*sync.WaitGroup).Done") {
		if a.arg(d, 0) != wg {
			continue
		}
		set[d] = true
		for _, s := range sink {
			if !a.DomI(s, d) && a.mayPrecede(d, s) && inThread(d) == g {
				r.ob(rule, inst+": end", a.f.where(d), false, "a goroutine reports its end before it has handed over the answer")
			}
		}
		r.ob(rule, inst+": reported", a.f.where(d), inThread(d) == g, "the counter is lowered outside the goroutines")
	}
	lo, hi := a.perIteration(l, set)
	r.ob(rule, inst+": reports", w, lo == 1 && hi == 1, "a goroutine lowers the counter %d to %d times", lo, hi)
	adds := map[*Ins]bool{}
	outer, n := 0, 0
	for _, d := range a.calls("(*sync.WaitGroup).Add") {
		if a.arg(d, 0) != wg {
			continue
		}
		n++
		switch {
		case a.inLoop(d.Blk, l):
			adds[d] = true
			r.ob(rule, inst+": counter", a.f.where(d), isConst(a.arg(d, 1), 1) && inThread(d) == nil && a.DomI(d, g), "the counter is raised by %s, before the goroutine starts: %v", short2(a.arg(d, 1)), a.DomI(d, g) && inThread(d) == nil)
		default:
			outer++
			r.ob(rule, inst+": counter", a.f.where(d), f.servers(a.arg(d, 1)) && a.Dom(d.Blk, l.Header), "the counter is raised by %s", short2(a.arg(d, 1)))
		}
	}
	lo, hi = a.perIteration(l, adds)
	r.ob(rule, inst+": raised", w, outer == 0 && lo == 1 && hi == 1 || outer == 1 && n == 1, "the counter is raised %d to %d times per goroutine and %d times before", lo, hi, outer)
}

// combined: the list holds the answers of one round of queries, one per server.
func (f *fan) combined(list *T, at *Ins) (bool, string) {
	a := f.a
	k := a.p.app("param", "#server")
	n := a.lenT(list)
	e := a.elemAt(list, k, at)
	if e == nil {
		return false, "the answers are " + short2(list)
	}
	if rc := e; e.op == "recv" || e.op == "x" && e.aux == "0" && e.args[0].op == "recv" {
		if e.op == "x" {
			rc = e.args[0]
		}
		if rc.args[len(rc.args)-1] != k {
			return false, "the answers are " + short2(list)
		}
		if !f.servers(n) {
			return false, "there are " + short2(n) + " answers"
		}
		ss := f.sends(rc.args[0])
		if len(ss) != 1 {
			return false, fmt.Sprintf("the answers come from %d places", len(ss))
		}
		i := f.answerOf(a.op(ss[0], 1), ss[0])
		if i == nil || !hasSuffix(a.callee(i), ".Query") {
			return false, "the answers are " + short2(a.op(ss[0], 1))
		}
		return true, ""
	}
	if i := f.answerOf(e, at); i != nil && hasSuffix(a.callee(i), ".Query") && containsTerm(e, k) {
		if !f.servers(n) {
			return false, "there are " + short2(n) + " answers"
		}
		return true, ""
	}
	return false, "the answers are " + short2(list) + ", for instance " + short2(e)
}
