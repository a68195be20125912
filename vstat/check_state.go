package main

// C02, C03: what an answer depends on and what answering writes.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C02"] = checkC02
	checks["C03"] = checkC03
	assumptions["C02"] = []string{
		"decoding, hashing, AES and the group operations are functions of their arguments",
		"that scratch memory is filled as far as it is read is decided with P03, the order in which goroutines' parts are combined with C01",
	}
	assumptions["C03"] = []string{
		"functions of other modules write only memory they are given, and the ones known as readers write nothing",
		"memory decoded from a request belongs to that request",
	}
}

// answerRoots: the exported methods of the servers.
func (r *Run) answerRoots() []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range r.p.Funcs {
		if fnPkgPath(fn) == modPath+"/lib/server" && fn.Signature.Recv() != nil && strings.HasPrefix(fn.Name(), "Answer") && fn.Synthetic == "" {
			out = append(out, fn)
		}
	}
	sort.Slice(out, func(i, j int) bool { return fnName(out[i]) < fnName(out[j]) })
	if len(out) < 4 {
		panic(unresolved("the answer functions of lib/server"))
	}
	return out
}

// handlers: the methods that serve requests, and what they leave to goroutines.
func (r *Run) handlers() []*ssa.Function {
	var out []*ssa.Function
	recv := map[*types.Named]bool{}
	for _, fn := range r.p.Funcs {
		if fn.Signature.Recv() == nil || fn.Synthetic != "" || !r.p.product(fn) {
			continue
		}
		ps := fn.Signature.Params()
		if (fn.Name() == "Query" || fn.Name() == "DatabaseInfo") && ps.Len() == 2 && strings.HasSuffix(ps.At(0).Type().String(), "context.Context") && !strings.Contains(fnPkgPath(fn), "/lib/proto") {
			out = append(out, fn)
			if n := namedOf(fn.Signature.Recv().Type()); n != nil {
				recv[n] = true
			}
		}
	}
	for _, fn := range r.p.Funcs {
		if !r.p.inRepo(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				g, ok := in.(*ssa.Go)
				if !ok {
					continue
				}
				h := staticCallee(g.Common())
				if h != nil && h.Signature.Recv() != nil && recv[namedOf(h.Signature.Recv().Type())] {
					out = append(out, h)
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return fnName(out[i]) < fnName(out[j]) })
	return out
}

func namedOf(t types.Type) *types.Named {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := t.(*types.Named)
	return n
}

// pathOf: where an address lies: "" when in memory made by the function itself,
// otherwise the parameter or global and the fields that lead to it.
func pathOf(t *T) string {
	switch t.op {
	case "obj", "build", "makeslice", "zero", "nil":
		return ""
	case "call", "x[0]", "x[1]", "x[2]":
		// what functions of the program give out may be theirs; of other modules it is new
		c := t
		if c.op != "call" && len(c.args) > 0 {
			c = c.args[0]
		}
		n := c.aux
		if k := strings.IndexByte(n, '#'); k >= 0 {
			n = n[:k]
		}
		if strings.Contains(n, modPath+"/") && !strings.Contains(n, modPath+"/lib/proto.") {
			return "result of " + n[strings.LastIndexByte(n, '/')+1:]
		}
		return ""
	case "out":
		return ""
	case "param":
		return t.aux
	case "global":
		return "global " + t.aux
	case "ia", "sl", "ld", "mem", "lk", "mi":
		q := pathOf(t.args[0])
		if q == "" {
			return ""
		}
		if t.op == "ia" {
			return q + "[]"
		}
		return q
	case "fa", "f":
		q := pathOf(t.args[0])
		if q == "" {
			return ""
		}
		return q + "." + t.aux
	}
	s := ""
	for _, x := range t.args {
		if x.op == "poly" || x.op == "k" {
			continue
		}
		if q := pathOf(x); q != "" {
			s = q
		}
	}
	return s
}

// writeAt: one write to memory the function did not make.
type writeAt struct {
	i    *Ins
	addr *T
	path string
	what string
}

func (a *Analysis) sharedWrites() []writeAt {
	var out []writeAt
	for _, s := range a.stores {
		if s.i.Op == OpMapUpdate {
			continue
		}
		t := a.storeAddr(s)
		n := "store"
		if s.i.Op != OpStore && s.i.Op != OpMapUpdate {
			n = a.callee(s.i)
			if lockCall(n) || strings.HasPrefix(n, "(context.Context).") || strings.HasPrefix(n, "(time.Time).") || strings.HasPrefix(n, "log.") || r0(n) {
				continue
			}
		}
		ts := []*T{t}
		if t.op == "any" {
			ts = t.args
			if k, ok := cgoWrites[n[strings.LastIndexByte(n, '.')+1:]]; ok && nargs(s.i) > k {
				ts = []*T{a.arg(s.i, k)}
			}
		}
		for _, x := range ts {
			if q := pathOf(x); q != "" {
				out = append(out, writeAt{s.i, x, q, n})
			}
		}
	}
	for _, b := range a.rpo {
		for _, i := range b.Ins {
			if i.Op == OpMapUpdate {
				if q := pathOf(a.term(i.Args[0])); q != "" {
					out = append(out, writeAt{i, a.term(i.Args[0]), q + "[]", "map update"})
				}
			}
		}
	}
	return out
}

// ownerIs: the field belongs to a type of that name.
func (f *flow) ownerIs(v *types.Var, name string) bool {
	for _, l := range f.loads[v] {
		switch x := l.(type) {
		case *ssa.FieldAddr:
			if n := namedOf(x.X.Type()); n != nil && n.Obj().Name() == name {
				return true
			}
		case *ssa.Field:
			if n := namedOf(x.X.Type()); n != nil && n.Obj().Name() == name {
				return true
			}
		}
	}
	return false
}

// r0: the servers' own methods behind the interface, analysed on their own.
func r0(n string) bool {
	return strings.HasPrefix(n, "("+modPath+"/lib/server.Server).")
}

func lockCall(n string) bool {
	return n == "(*sync.Mutex).Lock" || n == "(*sync.Mutex).Unlock" || n == "(*sync.RWMutex).Lock" || n == "(*sync.RWMutex).Unlock" || n == "(*sync.RWMutex).RLock" || n == "(*sync.RWMutex).RUnlock" || n == "(sync.Locker).Lock" || n == "(sync.Locker).Unlock"
}

// dbTypes: the names of the types that make up a database.
func (p *Program) dbPath(path string) string {
	c := strings.Split(path, ".")
	for k := 0; k+1 < len(c); k++ {
		for _, pk := range []string{"lib/database", "lib/matrix", "lib/merkle"} {
			t := p.lookupType(pk, c[k])
			if t == nil {
				continue
			}
			st, ok := t.Underlying().(*types.Struct)
			for q := 0; ok && q < st.NumFields(); q++ {
				if st.Field(q).Name() == strings.TrimRight(c[k+1], "[]") {
					return c[k] + "." + c[k+1]
				}
			}
		}
	}
	return ""
}

// held: an exclusive lock of the receiver is held wherever i is executed.
func (a *Analysis) held(i *Ins) (string, bool) {
	type lk struct {
		i    *Ins
		path string
	}
	var locks, unlocks []lk
	for _, b := range a.rpo {
		for _, c := range b.Ins {
			if c.Op != OpCall {
				continue
			}
			n := a.callee(c)
			if !lockCall(n) || nargs(c) < 1 {
				continue
			}
			q := pathOf(a.arg(c, 0))
			if strings.HasSuffix(n, ".RLock") || strings.HasSuffix(n, ".RUnlock") {
				continue
			}
			if strings.HasSuffix(n, ".Unlock") {
				unlocks = append(unlocks, lk{c, q})
			} else {
				locks = append(locks, lk{c, q})
			}
		}
	}
	pos := func(c *Ins) int {
		for k, x := range c.Blk.Ins {
			if x == c {
				return k
			}
		}
		return -1
	}
	before := func(c, d *Ins) bool { // c is always executed before d
		if c.Blk == d.Blk {
			return pos(c) < pos(d)
		}
		return a.Dom(c.Blk, d.Blk)
	}
	for _, l := range locks {
		if l.path == "" || !before(l.i, i) || l.i.Ctx.async() != i.Ctx.async() {
			continue
		}
		ok := true
		for _, u := range unlocks {
			if u.path != l.path {
				continue
			}
			if u.i.Blk == i.Blk && pos(u.i) < pos(i) && !(u.i.Blk == l.i.Blk && pos(u.i) < pos(l.i)) {
				ok = false
			}
			// from the unlock to i without taking the lock again
			seen := map[*Block]bool{l.i.Blk: true}
			var walk func(b *Block) bool
			walk = func(b *Block) bool {
				if seen[b] {
					return false
				}
				seen[b] = true
				if b == i.Blk {
					return true
				}
				for _, s := range b.Succs {
					if walk(s) {
						return true
					}
				}
				return false
			}
			for _, s := range u.i.Blk.Succs {
				if walk(s) {
					ok = false
				}
			}
		}
		if ok {
			return l.path, true
		}
	}
	return "", false
}

func checkC03(r *Run) {
	p := r.p
	db := r.rule("database-unwritten", "no write while a request is processed reaches the database or its metadata")
	sh := r.rule("shared-under-lock", "memory that outlives the request is read and written only while an exclusive lock of the server is held")
	al := r.rule("own-result", "what is returned does not share memory with the server")
	go_ := r.rule("goroutines-disjoint", "goroutines of one request write only memory of their own or positions of their own")
	kr := r.rule("kernel-output", "the native kernels write their output only")
	roots := r.answerRoots()
	for _, fn := range roots {
		fn := fn
		r.part(fnName(fn), func() { r.requestEffects(fn, db, sh, go_) })
		e := p.Effect(fn)
		r.ob(al, fnName(fn), p.relPos(fn.Pos()), e.ret.par&1 == 0 && !e.ret.glob, "the result may lead to the server's memory")
	}
	// each server has its own scratch memory
	fl := p.newFlow()
	for _, pk := range p.SSA.AllPackages() {
		if !strings.HasPrefix(pk.Pkg.Path(), modPath) {
			continue
		}
		for _, m := range pk.Members {
			if g, ok := m.(*ssa.Global); ok && !strings.HasPrefix(g.Name(), "_") {
				if t := g.Type().(*types.Pointer).Elem(); refLike(t) {
					fl.mark(g)
				}
			}
		}
	}
	fl.run(func(ssa.CallInstruction) bool { return false })
	hs := r.handlers()
	if len(hs) < 4 {
		panic(unresolved("the request handlers"))
	}
	for _, fn := range hs {
		fn := fn
		r.part(fnName(fn), func() { r.requestEffects(fn, db, sh, go_) })
	}
	for _, fn := range p.Funcs {
		if fnPkgPath(fn) == modPath+"/lib/server" && fn.Signature.Recv() == nil && strings.HasPrefix(fn.Name(), "New") && fn.Object() != nil {
			r.ob(al, fnName(fn), p.relPos(fn.Pos()), !p.Effect(fn).ret.glob, "the server shares memory with package variables")
		}
	}
	for _, path := range pathsOf(r.sharedPaths) {
		c := strings.Split(path, ".")
		bad := ""
		for k := 0; k+1 < len(c); k++ {
			for v := range fl.fld {
				if strings.TrimRight(c[k+1], "[]") == v.Name() && fl.ownerIs(v, c[k]) {
					bad = c[k] + "." + v.Name()
				}
			}
		}
		r.ob(al, "scratch "+path, "lib/server", bad == "", "%s is a package variable, which the lock of one server does not protect", bad)
	}
	// DBInfo gives the metadata out: nothing in the servers' programs writes through it
	for _, fn := range p.Funcs {
		if fn.Name() == "DBInfo" && fnPkgPath(fn) == modPath+"/lib/server" && fn.Synthetic == "" {
			e := p.Effect(fn)
			r.ob(db, fnName(fn), p.relPos(fn.Pos()), e.w.none(), "%s", e.why)
		}
	}
	cf, err := r.cFuncs(p.Dir + "/lib/matrix")
	if err != nil {
		panic(unresolved(err.Error()))
	}
	var names []string
	for n := range cgoWrites {
		names = append(names, strings.TrimPrefix(n, "_Cfunc_"))
	}
	sort.Strings(names)
	for _, n := range names {
		f := cf[n]
		if f == nil {
			continue
		}
		bad := f.err
		for _, c := range f.acc {
			if c.store && c.array != "arg5" {
				bad = "writes " + c.array
			}
		}
		r.ob(kr, n, "lib/matrix:"+n, bad == "", "%s", bad)
	}
}

func (r *Run) requestEffects(fn *ssa.Function, db, sh, gr string) {
	p := r.p
	name := fnName(fn)
	a := r.flatFn(fn, name, func(*ssa.Function) bool { return false })
	ws := a.sharedWrites()
	shared := map[string]bool{}
	for _, w := range ws {
		t := p.dbPath(w.path)
		r.ob(db, fmt.Sprintf("%s: %s to %s", name, w.what, w.path), a.posOf(w.i), t == "", "%s writes %s of the database", w.what, w.path)
		if t != "" {
			continue
		}
		shared[w.path] = true
		if r.sharedPaths == nil {
			r.sharedPaths = map[string]bool{}
		}
		r.sharedPaths[w.path] = true
		l, ok := a.held(w.i)
		r.ob(sh, fmt.Sprintf("%s: %s to %s", name, w.what, w.path), a.posOf(w.i), ok, "%s to %s without the lock %s", w.what, w.path, l)
	}
	r.ob(db, name, p.relPos(fn.Pos()), true, "")
	for _, b := range a.rpo {
		for _, i := range b.Ins {
			if i.Op == OpLoad || i.Op == OpLookup {
				q := pathOf(a.term(i.Args[0]))
				if i.Op == OpLookup {
					q += "[]"
				}
				if q != "" && shared[q] {
					_, ok := a.held(i)
					r.ob(sh, name+": read of "+q, a.posOf(i), ok, "%s is read without the lock", q)
				}
			}
		}
	}
	// goroutines
	for _, s := range a.stores {
		g := s.i.Ctx.async()
		if g == nil || s.i.Op != OpStore {
			continue
		}
		t := a.storeAddr(s)
		base := t
		var idx []*T
		for base.op == "ia" || base.op == "fa" || base.op == "sl" {
			if base.op == "ia" {
				idx = append(idx, base.args[1])
			}
			base = base.args[0]
		}
		own := false
		if base.op == "obj" {
			for _, b := range a.rpo {
				for _, i := range b.Ins {
					if fmt.Sprint(i.ID) == base.aux {
						own = i.Ctx.async() == g
					}
				}
			}
		}
		if own || base.op == "call" {
			continue
		}
		ok := len(a.loopsOf(g.Blk)) == 0 && false
		for _, l := range a.loopsOf(g.Blk) {
			for _, x := range idx {
				ok = ok || x.vars[l.ID]
			}
		}
		if _, h := a.held(s.i); h {
			ok = true
		}
		r.ob(gr, name+": "+cut(t), a.posOf(s.i), ok, "%s is written by goroutines running side by side", cut(t))
	}
}

func (a *Analysis) posOf(i *Ins) string {
	if i.Pos == token.NoPos {
		return fnName(a.f.Root)
	}
	return a.f.P.relPos(i.Pos)
}

// ---- C02 ----------------------------------------------------------------------

// ambient: what a call yields that is neither of its arguments nor of the
// program's data.
func ambient(n string) bool {
	switch n {
	case "time.Now", "time.Since", "time.Until", "os.Getenv", "os.LookupEnv", "os.Hostname", "os.Getpid", "os.Getwd", "os.Environ",
		"runtime.NumGoroutine", "runtime.GOMAXPROCS", "crypto/rand.Read", "crypto/rand.Int", "crypto/rand.Prime", "crypto/rand.Text":
		return true
	}
	return strings.HasPrefix(n, "math/rand.") || strings.HasPrefix(n, "math/rand/v2.") || strings.HasPrefix(n, "(*math/rand.Rand).") || strings.HasPrefix(n, "(*math/rand/v2.Rand).")
}

// calendar: methods of a time that depend on its time zone.
var calendar = map[string]bool{}

func init() {
	for _, m := range []string{"Year", "Month", "Day", "Date", "Clock", "Hour", "Minute", "Second", "Weekday", "YearDay", "ISOWeek", "Zone", "ZoneBounds", "Format", "AppendFormat", "String", "GoString", "MarshalBinary", "AppendBinary", "MarshalText", "AppendText", "MarshalJSON", "GobEncode", "Location", "IsDST"} {
		calendar["(time.Time)."+m] = true
	}
}

// inUTC: the time's zone is UTC, wherever it comes from.
func (p *Program) inUTC(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Call:
		n := calleeName(x.Common())
		switch n {
		case "(time.Time).UTC":
			return true
		case "(time.Time).In":
			return isUTCLoc(x.Call.Args[1])
		case "time.Date":
			return isUTCLoc(x.Call.Args[7])
		case "(time.Time).Add", "(time.Time).AddDate", "(time.Time).Truncate", "(time.Time).Round":
			return p.inUTC(x.Call.Args[0], seen)
		}
		if g := staticCallee(x.Common()); g != nil && p.inRepo(g) && g.Blocks != nil {
			for _, b := range g.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && (len(ret.Results) != 1 || !p.inUTC(ret.Results[0], seen)) {
					return false
				}
			}
			return true
		}
		return false
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !p.inUTC(e, seen) {
				return false
			}
		}
		return true
	case *ssa.ChangeType:
		return p.inUTC(x.X, seen)
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok {
			for _, s := range storesTo(al) {
				if !p.inUTC(s, seen) {
					return false
				}
			}
			return len(storesTo(al)) > 0
		}
		return false
	case *ssa.Parameter:
		fn := x.Parent()
		k := -1
		for q, y := range fn.Params {
			if y == x {
				k = q
			}
		}
		n := 0
		for _, g := range p.Funcs {
			if !p.product(g) && !p.inRepo(g) {
				continue
			}
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok && staticCallee(c.Common()) == fn {
						n++
						if !p.inUTC(argOf(c.Common(), k), seen) {
							return false
						}
					}
				}
			}
		}
		return n > 0
	}
	return false
}

func isUTCLoc(v ssa.Value) bool {
	if u, ok := v.(*ssa.UnOp); ok {
		if g, ok := u.X.(*ssa.Global); ok {
			return g.String() == "time.UTC"
		}
	}
	return false
}

func checkC02(r *Run) {
	p := r.p
	amb := r.rule("no-ambient-input", "no value of the clock, of randomness, of the environment or of map iteration order reaches an answer or decides how it is computed")
	utc := r.rule("utc", "dates are taken apart and encoded in UTC")
	his := r.rule("no-history", "memory kept between queries is filled anew in every query before it is read")
	glb := r.rule("globals-constant", "package variables that answering reads are set by package initialisation only")

	roots := r.answerRoots()
	for _, n := range []string{"lib/field.BytesToElements", "lib/query.Info.IdForEmail", "lib/query.Info.IdForPubKeyAlgo", "lib/query.Info.IdForCreationTime", "lib/query.Info.IdForYearCreationTime"} {
		fn := p.Func(n)
		if fn == nil {
			panic(unresolved("no function " + n))
		}
		roots = append(roots, fn)
	}
	isRoot := map[*ssa.Function]bool{}
	for _, fn := range roots {
		isRoot[fn] = true
	}
	reached := p.reachedFns(roots)
	// constructors and initialisers may not smuggle it in
	setup := map[*ssa.Function]bool{}
	var ctors []*ssa.Function
	for _, fn := range p.Funcs {
		if p.inRepo(fn) && (fnPkgPath(fn) == modPath+"/lib/server" && fn.Signature.Recv() == nil || fn.Name() == "init" && strings.HasPrefix(fnPkgPath(fn), modPath+"/lib/")) {
			ctors = append(ctors, fn)
		}
	}
	for fn := range p.reachedFns(ctors) {
		setup[fn] = true
	}
	f := p.newFlow()
	nsrc := 0
	var fns []*ssa.Function
	for fn := range reached {
		fns = append(fns, fn)
	}
	for fn := range setup {
		if !reached[fn] {
			fns = append(fns, fn)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fnName(fns[i]) < fnName(fns[j]) })
	src := map[*ssa.Function]string{}
	calls := 0
	for _, fn := range fns {
		r.note(fn)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case ssa.CallInstruction:
					calls++
					n := calleeName(x.Common())
					if !ambient(n) {
						continue
					}
					nsrc++
					src[fn] = n
					f.markResult(x, -1)
					if strings.HasSuffix(n, ".Read") {
						f.written(x.Common().Args[len(x.Common().Args)-1])
					}
				case *ssa.Next:
					if !x.IsString {
						nsrc++
						src[fn] = "map iteration"
						f.mark(x)
						for _, u := range *x.Referrers() {
							if e, ok := u.(*ssa.Extract); ok && e.Index > 0 {
								f.mark(e)
							}
						}
					}
				case *ssa.Select:
					if len(x.States) > 1 || !x.Blocking {
						nsrc++
						src[fn] = "select"
						for _, u := range *x.Referrers() {
							if e, ok := u.(*ssa.Extract); ok && e.Index == 0 {
								f.mark(e)
							}
						}
					}
				}
			}
		}
		// randomness read through a generator
		if reached[fn] {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
						if g, ok := u.X.(*ssa.Global); ok && g.String() == "crypto/rand.Reader" {
							nsrc++
							src[fn] = "crypto/rand.Reader"
						}
					}
				}
			}
		}
	}
	f.run(func(x ssa.CallInstruction) bool {
		n := calleeName(x.Common())
		return !isLog(n)
	})
	for _, fn := range fns {
		if !reached[fn] {
			continue
		}
		where := p.relPos(fn.Pos())
		bad := ""
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.BinOp:
					switch x.Op {
					case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
						if f.val[x.X] || f.val[x.Y] {
							bad, where = "a comparison", p.relPos(x.Pos())
						}
					}
				case *ssa.Return:
					if !isRoot[fn] {
						continue
					}
					for _, v := range x.Results {
						if f.val[v] {
							bad, where = "a result", p.relPos(x.Pos())
						}
					}
				case *ssa.UnOp:
					if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL && g.String() == "crypto/rand.Reader" {
						bad, where = "a randomness source", p.relPos(x.Pos())
					}
				}
			}
		}
		r.ob(amb, fnName(fn), where, bad == "", "%s depends on %s", bad, srcList(src))
	}
	// UTC
	nt := 0
	for _, fn := range fns {
		if !reached[fn] {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || !calendar[calleeName(c.Common())] {
					continue
				}
				nt++
				ok = p.inUTC(c.Common().Args[0], map[ssa.Value]bool{})
				r.ob(utc, calleeName(c.Common())+" in "+fnName(fn), p.relPos(c.Pos()), ok, "the date is taken apart in the time zone of the machine")
			}
		}
	}
	if nt == 0 {
		panic(unresolved("the dates of the records"))
	}
	// globals
	initOnly := map[*ssa.Global]bool{}
	for _, fn := range fns {
		if !reached[fn] {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var ops [16]*ssa.Value
				for _, o := range in.Operands(ops[:0]) {
					g, ok := (*o).(*ssa.Global)
					if !ok || g.Pkg == nil || !strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) || initOnly[g] || strings.HasPrefix(g.Name(), "_cgo") {
						continue
					}
					initOnly[g] = true
					bad, where := p.globalWritten(g)
					r.ob(glb, g.String(), where, bad == "", "%s", bad)
				}
			}
		}
	}
	// history
	for _, fn := range r.answerRoots() {
		fn := fn
		r.part(fnName(fn), func() { r.noHistory(fn, his) })
	}
}

func srcList(m map[*ssa.Function]string) string {
	var s []string
	for fn, n := range m {
		s = append(s, n+" in "+fnName(fn))
	}
	sort.Strings(s)
	return strings.Join(s, ", ")
}

// globalWritten: a store to the variable (or to what it holds) outside package
// initialisation.
func (p *Program) globalWritten(g *ssa.Global) (string, string) {
	for _, fn := range p.Funcs {
		if !p.inRepo(fn) || fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var addr ssa.Value
				switch x := in.(type) {
				case *ssa.Store:
					addr = x.Addr
				case *ssa.MapUpdate:
					addr = x.Map
				default:
					continue
				}
				for addr != nil {
					switch y := addr.(type) {
					case *ssa.Global:
						if y == g {
							return fnName(fn) + " writes it", p.relPos(in.Pos())
						}
						addr = nil
					case *ssa.FieldAddr:
						addr = y.X
					case *ssa.IndexAddr:
						addr = y.X
					case *ssa.UnOp:
						addr = y.X
					case *ssa.Slice:
						addr = y.X
					default:
						addr = nil
					}
				}
			}
		}
	}
	return "", g.Name()
}

func (r *Run) noHistory(fn *ssa.Function, rule string) {
	name := fnName(fn)
	a := r.flatFn(fn, name, func(*ssa.Function) bool { return false })
	ws := a.sharedWrites()
	byPath := map[string][]writeAt{}
	for _, w := range ws {
		byPath[w.path] = append(byPath[w.path], w)
	}
	n := 0
	for _, b := range a.rpo {
		for _, i := range b.Ins {
			if i.Op != OpLoad && i.Op != OpLookup {
				continue
			}
			q := pathOf(a.term(i.Args[0]))
			if i.Op == OpLookup {
				q += "[]"
			}
			if q == "" || byPath[q] == nil {
				continue
			}
			n++
			ok := false
			for _, w := range byPath[q] {
				if w.i.Op != OpStore {
					continue
				}
				var v *T
				for _, s := range a.stores {
					if s.i == w.i {
						v = a.StoreVal(s)
					}
				}
				old := false
				walkT(v, func(x *T) bool {
					if (x.op == "ld" || x.op == "mem") && pathOf(x.args[0]) == q {
						old = true
					}
					return !old
				})
				if old {
					continue
				}
				hd := a.outside(w.i.Blk, i.Blk)
				if hd == i.Blk && w.i.Blk == i.Blk {
					ok = ok || a.term(i.Args[0]) == w.addr
					continue
				}
				ok = ok || a.Dom(hd, i.Blk)
			}
			r.ob(rule, name+": "+q, a.posOf(i), ok, "%s is read before this query fills it", q)
		}
	}
	r.ob(rule, name, r.p.relPos(fn.Pos()), true, "%d reads of memory kept between queries", n)
}

func pathsOf(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
