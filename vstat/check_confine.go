package main

// P02: a server is sent its own share of the query and public parameters only,
// the j-th share goes to the j-th server, and secrets are not logged.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["P02"] = checkP02
	assumptions["P02"] = []string{
		"gRPC delivers a request to the peer of the connection only (the peers' identity is decided with L04)",
		"what the shares themselves reveal is decided with P03, P04 and P05; the order of the configured addresses with L05",
		"the programs show the user's own identifier and its bucket on their local output",
	}
}

// secretFlow follows everything drawn at random by the client's libraries.
func (r *Run) secretFlow() (*flow, int) {
	p := r.p
	f := p.newFlow()
	lib := func(fn *ssa.Function) string { return strings.TrimPrefix(fnPkgPath(fn), modPath+"/") }
	in := func(fn *ssa.Function) bool {
		switch lib(fn) {
		case "lib/client", "lib/fss", "lib/field", "lib/matrix", "lib/utils", "lib/ecc":
			return true
		}
		return false
	}
	// reconstruction ends in the user's result, a server's answer in what the server says
	var rec, qry []*ssa.Function
	for _, fn := range f.fns {
		if fnPkgPath(fn) == modPath+"/lib/client" && fn.Object() != nil && fn.Object().Exported() {
			if strings.HasPrefix(fn.Name(), "Reconstruct") {
				rec = append(rec, fn)
			} else {
				qry = append(qry, fn)
			}
		}
	}
	onlyRec := p.reachedFns(rec)
	for g := range p.reachedFns(qry) {
		delete(onlyRec, g)
	}
	f.arith = func(fn *ssa.Function) bool { return !onlyRec[fn] }
	f.stop = func(c *ssa.CallCommon) bool {
		for _, g := range f.callees(c) {
			if onlyRec[g] || lib(g) == "lib/server" || lib(g) == "cmd/grpc/server" || lib(g) == "lib/database" {
				return true
			}
		}
		return false
	}
	n := 0
	for _, fn := range f.fns {
		if !in(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				c, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				switch s := calleeName(c.Common()); s {
				case "io.ReadFull", "io.ReadAtLeast":
					f.written(c.Common().Args[1])
				case "crypto/rand.Read":
					f.written(c.Common().Args[0])
				case "(io.Reader).Read", "(*bufio.Reader).Read", "(crypto/cipher.Stream).XORKeyStream":
					f.written(argOf(c.Common(), 1))
				case "crypto/rand.Int", "(*math/rand.Rand).Uint64", "(*math/rand.Rand).Uint32", "(*math/rand.Rand).Float64", "(*math/rand.Rand).NormFloat64":
					f.markResult(c, -1)
				default:
					if !strings.HasSuffix(s, ".RandomScalar") && !strings.HasSuffix(s, ".RandomElement") && !strings.HasSuffix(s, "dpf.Gen") {
						continue
					}
					f.markResult(c, -1)
				}
				n++
			}
		}
	}
	// the private state of the clients, and the input of their queries
	for _, fn := range f.fns {
		if lib(fn) != "lib/client" || fn.Signature.Recv() == nil || fn.Object() == nil || !fn.Object().Exported() || !strings.HasPrefix(fn.Name(), "Query") {
			continue
		}
		for k, q := range fn.Params {
			if k == 0 || k == len(fn.Params)-1 && k > 1 && q.Type().String() == "int" && fn.Params[1].Type().String() != "int" {
				continue // the receiver, the number of servers
			}
			f.mark(q)
			n++
		}
		seen := map[types.Type]bool{}
		var state func(t types.Type)
		state = func(t types.Type) {
			if q, ok := t.Underlying().(*types.Pointer); ok {
				t = q.Elem()
			}
			s, ok := t.Underlying().(*types.Struct)
			if !ok || seen[t] {
				return
			}
			seen[t] = true
			for i := 0; i < s.NumFields(); i++ {
				x := s.Field(i)
				el := x.Type()
				if q, ok := el.(*types.Pointer); ok {
					el = q.Elem()
				}
				nt, ok := el.(*types.Named)
				if !ok || nt.Obj().Pkg() == nil || nt.Obj().Pkg().Path() != modPath+"/lib/client" {
					continue
				}
				if ss, ok := nt.Underlying().(*types.Struct); ok {
					client := false
					for m := 0; m < ss.NumFields(); m++ {
						client = client || ss.Field(m).Type().String() == "io.Reader"
					}
					if !client {
						for m := 0; m < ss.NumFields(); m++ {
							f.markField(ss.Field(m))
							n++
						}
						continue
					}
				}
				state(x.Type())
			}
		}
		state(fn.Params[0].Type())
	}
	for _, fn := range f.fns {
		if lib(fn) != "lib/query" || fn.Signature.Recv() == nil || fn.Signature.Results().Len() == 0 || !strings.HasSuffix(fn.Signature.Results().At(0).Type().String(), "lib/query.ClientFSS") {
			continue
		}
		for k, q := range fn.Params {
			if t, ok := q.Type().Underlying().(*types.Basic); ok && k > 0 && t.Info()&types.IsString != 0 {
				f.mark(q)
				n++
			}
		}
	}
	// what becomes the input of a query
	for _, fn := range f.fns {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if st, ok := i.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldVar(fa).Name() == "Input" && strings.HasSuffix(fa.X.Type().String(), "lib/query.ClientFSS") {
						f.mark(st.Val)
						n++
					}
				}
			}
		}
	}
	for _, q := range []struct{ pkg, typ, field string }{{"lib/query", "ClientFSS", "Input"}, {"lib/fss", "FssKeyEq2P", ""}} {
		t := p.lookupType(q.pkg, q.typ)
		if t == nil {
			panic(unresolved("no type " + q.typ))
		}
		s := t.Underlying().(*types.Struct)
		for m := 0; m < s.NumFields(); m++ {
			if q.field == "" || q.field == s.Field(m).Name() {
				f.markField(s.Field(m))
				n++
			}
		}
	}
	f.run(func(x ssa.CallInstruction) bool {
		s := calleeName(x.Common())
		if onlyRec[x.Parent()] && !strings.HasPrefix(s, "fmt.") && !strings.HasPrefix(s, "str") && !strings.HasPrefix(s, "encoding/") && !strings.HasPrefix(s, "bytes.") {
			return false // a computation of the result
		}
		return !isLog(s) && !strings.HasPrefix(s, "os.") && !strings.HasPrefix(s, "(*os.File)")
	})
	return f, n
}

func isLog(s string) bool {
	for _, q := range []string{"log.", "(*log.Logger).", "log/slog.", "(*log/slog.Logger).", "fmt.Print", "os.WriteFile", "io/ioutil.WriteFile", "(*os.File).Write", "fmt.Errorf", "errors.New", "golang.org/x/xerrors.Errorf", "golang.org/x/xerrors.New", "(*flag.FlagSet)"} {
		if strings.HasPrefix(s, q) {
			return true
		}
	}
	return false
}

func (p *Program) lookupType(pkg, name string) types.Type {
	for _, q := range p.SSA.AllPackages() {
		if q.Pkg.Path() == modPath+"/"+pkg {
			if o := q.Pkg.Scope().Lookup(name); o != nil {
				return o.Type()
			}
		}
	}
	return nil
}

// leaf: the secret an argument carries, as it is printed.
func (f *flow) leaks(v ssa.Value) string {
	show := func(x ssa.Value) string {
		if m, ok := x.(*ssa.MakeInterface); ok {
			x = m.X
		}
		if x.Type().String() == "error" {
			return ""
		}
		if f.val[x] {
			return x.Type().String() + " derived from a secret"
		}
		t := x.Type()
		if q, ok := t.Underlying().(*types.Pointer); ok {
			t = q.Elem()
		}
		if w := f.printed(t); w != nil {
			return "field " + w.Name() + " of " + x.Type().String()
		}
		return ""
	}
	// the list of the variadic arguments
	if s, ok := v.(*ssa.Slice); ok {
		if al, ok := s.X.(*ssa.Alloc); ok {
			for _, u := range *al.Referrers() {
				ia, ok := u.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				for _, w := range *ia.Referrers() {
					if st, ok := w.(*ssa.Store); ok && st.Addr == ia {
						if d := show(st.Val); d != "" {
							return d
						}
					}
				}
			}
			return ""
		}
	}
	if c, ok := v.(*ssa.Const); ok {
		_ = c
		return ""
	}
	return show(v)
}

// printed: printing a value of the type shows a marked field (nested pointers show addresses).
func (f *flow) printed(t types.Type) *types.Var {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return f.printed(u.Elem())
	case *types.Array:
		return f.printed(u.Elem())
	case *types.Map:
		return f.printed(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if f.fld[u.Field(i)] {
				return u.Field(i)
			}
			if w := f.printed(u.Field(i).Type()); w != nil {
				return w
			}
		}
	}
	return nil
}

// atK: x depends on the loop variable k only as the index of an element of a list; the lists.
func atK(x, k *T, id int) ([]*T, bool) {
	var lists []*T
	ok := true
	var rec func(t *T, inArgs bool)
	rec = func(t *T, may bool) {
		if !t.vars[id] {
			return
		}
		if t == k {
			ok = ok && may
			return
		}
		switch t.op {
		case "ia":
			if t.args[1] == k && !t.args[0].vars[id] {
				lists = append(lists, t.args[0])
				return
			}
			rec(t.args[0], false)
			rec(t.args[1], false)
		case "call", "obj", "mem", "closure", "x", "recv":
			for _, y := range t.args {
				rec(y, true)
			}
		case "ld", "fa", "mi":
			for _, y := range t.args {
				rec(y, false)
			}
		case "ite":
			for _, y := range t.args {
				rec(y, false)
			}
		default:
			ok = false
		}
	}
	rec(x, false)
	return lists, ok
}

func checkP02(r *Run) {
	msg := r.rule("message", "the message for server j of a predicate query is the j-th key of one key generation and the public parameters of the query")
	enc := r.rule("encoding", "the bytes for server j encode the message for server j and nothing else")
	key := r.rule("key-fields", "a key holds its own seed and bit, and the correction words: a field beyond these is constant")
	disp := r.rule("dispatch", "the request on the connection to server j carries the j-th of the messages, as returned by the client")
	conn := r.rule("connections", "connection j is dialled to the j-th address of the configuration")
	logs := r.rule("no-logging", "nothing drawn for the client, no key, share or client state is printed, logged or put into an error; nor does the library log the input of a query")
	p := r.p

	for _, kind := range []string{"PredicateAPIR", "PredicatePIR"} {
		r.part(kind, func() {
			a := r.flat("zzverif.S_"+kind+"Query", "lib/fss.Fss.GenerateTreePF")
			q := a.p.app("param", a.paramName(2))
			n := 0
			for _, b := range a.rpo {
				if b.Term != TReturn {
					continue
				}
				n++
				list := a.at(b.Rets[0], b)
				l := a.lenT(list)
				r.ob(msg, kind+" messages", a.f.whereB(b), l == a.p.c(2) || a.keyCount(l) || a.isTwoAt(l, b), "%s messages", short2(l))
				var gens []string
				for j := int64(0); j < 2; j++ {
					gens = append(gens, a.message(r, msg, fmt.Sprintf("%s message %d", kind, j), a.elemAt(list, a.p.c(j), a.endOf(b)), j, func(t *T) bool {
						return t.op == "ld" && t.args[0].op == "fa" && t.args[0].aux == "ClientFSS.Info" && t.args[0].args[0] == q
					}, a.endOf(b)))
				}
				r.ob(msg, kind+" one generation", a.f.whereB(b), gens[0] != "" && gens[0] == gens[1], "the keys come from %s and %s", gens[0], gens[1])
			}
			r.ob(msg, kind+" returns", "", n > 0, "no message is returned")
		})
		r.part(kind+" bytes", func() {
			a := r.flat("zzverif.S_"+kind+"QueryBytes", "lib/fss.Fss.GenerateTreePF")
			n := 0
			for _, e := range a.accepts() {
				n++
				at := a.endOf(e.b)
				l := a.lenT(e.vals[0])
				r.ob(enc, kind+" messages", a.f.whereB(e.b), l == a.p.c(2) || a.keyCount(l) || a.isTwoAt(l, e.b), "%s messages", short2(l))
				for j := int64(0); j < 2; j++ {
					a.encoded(r, enc, msg, fmt.Sprintf("%s message %d", kind, j), a.elemAt(e.vals[0], a.p.c(j), at), j, at)
				}
			}
			r.ob(enc, kind+" returns", "", n > 0, "no message is returned")
		})
	}
	r.part("keys", func() {
		a := r.flat("zzverif.S_FSSKeys")
		p := a.p
		t, _ := r.p.lookupType("lib/fss", "FssKeyEq2P").Underlying().(*types.Struct)
		in, bs := p.app("param", a.paramName(0)), p.app("param", a.paramName(1))
		for _, b := range a.rpo {
			if b.Term != TReturn {
				continue
			}
			at, w := a.endOf(b), a.f.whereB(b)
			list := a.at(b.Rets[0], b)
			r.ob(key, "two keys", w, a.lenT(list) == p.c(2), "%s keys", short2(a.lenT(list)))
			for s := int64(0); s < 2; s++ {
				for m := 0; m < t.NumFields(); m++ {
					name := t.Field(m).Name()
					v := a.resolve(p.app("fa", "FssKeyEq2P."+name, p.app("ia", "", list, p.c(s))), at)
					inst := fmt.Sprintf("key %d %s", s, name)
					ok, d := true, ""
					switch name {
					case "SInit":
						ok, d = a.lenT(v) == p.c(16), "length "+short2(a.lenT(v))
					case "TInit":
						d = v.op
					case "CW":
						row := a.lenT(a.elemAt(v, p.app("param", "#i"), at))
						ok, d = a.lenT(v) == p.app("len", "", in) && row == p.c(18), "length "+short2(a.lenT(v))+" of "+short2(row)
					case "FinalCW":
						ok, d = a.lenT(v) == p.app("len", "", bs), "length "+short2(a.lenT(v))
					default:
						_, c := v.isC()
						ok, d = c || v.op == "nil" || v.op == "zero", short2(v)
					}
					r.ob(key, inst, w, ok, "%s", d)
				}
			}
		}
	})
	r.dispatch(disp, conn)
	r.part("logging", func() {
		f, n := r.secretFlow()
		r.ob(logs, "sources", "", n >= 20, "%d sources of secrets found", n)
		sinks := 0
		for _, fn := range f.fns {
			pk := strings.TrimPrefix(fnPkgPath(fn), modPath+"/")
			if !strings.HasPrefix(pk, "cmd/grpc/client") && !strings.HasPrefix(pk, "lib/") && !strings.HasPrefix(pk, "simulations/multi/client") {
				continue
			}
			r.note(fn)
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					s := calleeName(c.Common())
					if bi, ok := c.Common().Value.(*ssa.Builtin); ok && strings.HasPrefix(bi.Name(), "print") {
						s = "log." + bi.Name()
					}
					if strings.HasPrefix(s, "fmt.Fprint") {
						w := c.Common().Args[0]
						if m, ok := w.(*ssa.MakeInterface); ok && m.X.Type().String() == "*os.File" {
							s = "log." + s
						}
					}
					if !isLog(s) {
						continue
					}
					sinks++
					bad := ""
					for _, x := range c.Common().Args {
						if d := f.leaks(x); d != "" {
							bad = d
						}
					}
					r.ob(logs, fmt.Sprintf("%s call %d", fnName(fn), sinks), p.relPos(in.Pos()), bad == "", "%s is given to %s", bad, s)
				}
			}
		}
		r.sites += sinks
	})
	_ = token.ADD
}

// keyCount: the number of keys of one generation (that it is two is an obligation of its own).
func (a *Analysis) isTwoAt(l *T, b *Block) bool {
	return contains(a.factsAt(b), a.p.eq(l, a.p.c(2)))
}

func (a *Analysis) keyCount(l *T) bool {
	return l.op == "len" && hasSuffix(callName(l.args[0]), "fss.Fss).GenerateTreePF")
}

func (a *Analysis) bareLoad(t *T) *T {
	if (t.op == "ld" || t.op == "mem") && len(t.args) > 0 {
		return t.args[0]
	}
	return nil
}

// dialled: the call that opened the connection a value holds.
func (a *Analysis) dialled(v *T) *T {
	for v.op == "x" && v.aux == "0" {
		v = v.args[0]
	}
	if v.op == "call" && strings.HasPrefix(callName(v), "google.golang.org/grpc.Dial") {
		if !strings.HasSuffix(callName(v), "Context") {
			return a.p.app("call", v.aux, append([]*T{nil}, v.args...)...)
		}
		return v
	}
	return nil
}

// message checks the fields of a message and returns the key generation its key is from.
func (a *Analysis) message(r *Run, rule, inst string, m *T, j int64, isInfo func(*T) bool, at *Ins) string {
	w := a.f.whereB(at.Blk)
	t, _ := r.p.lookupType("lib/query", "FSS").Underlying().(*types.Struct)
	gen := ""
	if m.op != "obj" {
		r.ob(rule, inst, w, false, "the message is %s", short2(m))
		return ""
	}
	for k := 0; k < t.NumFields(); k++ {
		name := t.Field(k).Name()
		v := a.fieldAt(m, "FSS."+name, at)
		in := inst + " " + name
		if name == "FssKey" {
			ok := v.op == "ld" && v.args[0].op == "ia" && v.args[0].args[1] == a.p.c(j) && hasSuffix(callName(v.args[0].args[0]), "fss.Fss).GenerateTreePF")
			if ok {
				gen = v.args[0].args[0].String()
			}
			r.ob(rule, in, w, ok, "the key is %s", short2(v))
			continue
		}
		d := a.public(v, isInfo, at, 0)
		r.ob(rule, in, w, d == "", "%s", d)
	}
	return gen
}

// public: the value is a constant, or comes from the public parameters only.
func (a *Analysis) public(v *T, isInfo func(*T) bool, at *Ins, depth int) string {
	if isInfo(v) {
		return ""
	}
	switch v.op {
	case "nil", "zero", "c", "str", "true", "false":
		return ""
	case "obj":
		if depth > 3 {
			break
		}
		for _, s := range a.stores {
			if s.i.Op == OpStore && rootOf(a.storeAddr(s)) == v && a.mayPrecede(s.i, at) {
				if d := a.public(a.StoreVal(s), isInfo, at, depth+1); d != "" {
					return d
				}
			}
		}
		return ""
	case "ld", "mem":
		x := v.args[0]
		for x.op == "fa" || x.op == "ia" {
			b := x.args[0]
			if isInfo(b) {
				return ""
			}
			x = b
			if x.op == "ld" || x.op == "mem" {
				if isInfo(x) {
					return ""
				}
				x = x.args[0]
			}
		}
	case "and", "or", "!", "==", "<0", "ite", "+", "*":
		for _, x := range v.args {
			if d := a.public(x, isInfo, at, depth+1); d != "" {
				return d
			}
		}
		return ""
	}
	return "it holds " + short2(v)
}

// encoded: the bytes are the encoding of the j-th message alone.
func (a *Analysis) encoded(r *Run, enc, msg, inst string, e *T, j int64, at *Ins) {
	w := a.f.whereB(at.Blk)
	if !hasSuffix(callName(e), "bytes.Buffer).Bytes") || e.args[0].op != "obj" {
		r.ob(enc, inst, w, false, "the message is %s", short2(e))
		return
	}
	buf := e.args[0]
	n := 0
	for _, b := range a.rpo {
		for _, i := range b.Ins {
			if i.Op != OpCall {
				continue
			}
			name := a.callee(i)
			// the calls of this message: loop variables take the value they have for it
			var t *T
			for k := 0; k < nargs(i); k++ {
				x := a.arg(i, k)
				m := map[*T]*T{}
				if !matchObj(x, buf, m, a.p) {
					continue
				}
				t = x
				switch {
				case hasSuffix(name, "gob.Encoder).Encode") && k == 0:
					n++
					v := a.p.subst(a.arg(i, 1), m)
					r.ob(enc, inst+" source", a.f.whereB(b), v.op == "obj", "encodes %s", short2(v))
					if v.op == "obj" {
						a.message(r, msg, inst+" encoded", v, j, func(t *T) bool {
							return (t.op == "ld" || t.op == "mem") && t.args[0].op == "fa" && t.args[0].aux == "ClientFSS.Info"
						}, i)
					}
				case hasSuffix(name, "gob.NewEncoder"), hasSuffix(name, "bytes.Buffer).Bytes"), hasSuffix(name, "bytes.Buffer).Len"), hasSuffix(name, "bytes.Buffer).Grow"):
				default:
					r.ob(enc, inst+" written", a.f.whereB(b), false, "%s also uses the message's buffer", name)
				}
			}
			_ = t
		}
	}
	r.ob(enc, inst+" once", w, n == 1, "%d values are encoded into it", n)
}

// matchObj: x is, or is made from, the object buf for some values of the loop variables.
func matchObj(x, buf *T, m map[*T]*T, p *Pool) bool {
	found := false
	walkT(x, func(y *T) bool {
		if y.op == "obj" && y.aux == buf.aux && len(y.args) == len(buf.args) {
			ok := true
			for k := range y.args {
				if y.args[k] == buf.args[k] {
					continue
				}
				if y.args[k].op != "k" {
					ok = false
					break
				}
				m[y.args[k]] = buf.args[k]
			}
			found = found || ok
		}
		return !found
	})
	return found
}

// dispatched: the request carries element k of the messages and the connection is the k-th.
func (a *Analysis) dispatched(i *Ins) (bool, string) {
	q := a.fieldAt(a.arg(i, 2), "QueryRequest.Query", i)
	x := a.bareLoad(q)
	if x == nil || x.op != "ia" {
		return false, "the request carries " + short2(q)
	}
	src, k := x.args[0], x.args[1]
	if src.op != "x" || src.aux != "0" || !hasSuffix(callName(src.args[0]), ".QueryBytes") {
		return false, "the messages are " + short2(src)
	}
	c := a.arg(i, 0)
	if !hasSuffix(callName(c), "proto.NewVPIRClient") {
		return false, "the stub is " + short2(c)
	}
	if k.op != "k" {
		if y := a.bareLoad(c.args[0]); y != nil {
			ok := false
			walkT(y, func(z *T) bool {
				ok = ok || z.op == "ia" && z.args[1] == k
				return true
			})
			return ok, "message " + short2(k) + " goes to " + short2(c.args[0])
		}
		return false, "message " + short2(k) + " goes to " + short2(c.args[0])
	}
	ls, ok := atK(c.args[0], k, atoi(k.aux))
	if !ok || len(ls) == 0 {
		return false, "message " + short2(k) + " goes to " + short2(c.args[0])
	}
	// a list of servers that has been built in other order than that of the configuration is judged where it is built
	return true, ""
}

// dispatch: every request goes, with the message made for it, to the server it is for.
func (r *Run) dispatch(disp, conn string) {
	p := r.p
	r.part("dispatch", func() {
		nq, nd := 0, 0
		as := r.programs()
		seen := map[*ssa.Function]bool{}
		for _, a := range as {
			seen[a.f.Root] = true
		}
		for _, fn := range p.productFuncs() {
			// functions of other programs and packages that connect
			if fn.Object() != nil && fn.Object().Exported() && !seen[fn] && strings.HasPrefix(fnPkgPath(fn), modPath+"/cmd/grpc/client") && p.reaches(fn, func(g *ssa.Function) bool {
				return fnPkgPath(g) == "google.golang.org/grpc" && strings.HasPrefix(g.Name(), "Dial")
			}) {
				as = append(as, r.flatFn(fn, "dial "+fnName(fn), func(f *ssa.Function) bool { return fnPkgPath(f) == modPath+"/lib/client" }))
			}
		}
		for _, a := range as {
			for _, b := range a.rpo {
				for _, i := range b.Ins {
					if i.Op != OpCall || !hasSuffix(a.callee(i), "proto.VPIRClient).Query") {
						continue
					}
					nq++
					inst := fmt.Sprintf("%s query %d", fnName(a.f.Root), nq)
					w := a.f.whereB(b)
					ok, why := a.dispatched(i)
					r.ob(disp, inst, w, ok, "%s", why)
				}
			}
			for _, s := range a.stores {
				if s.i.Op != OpStore && s.i.Op != OpMapUpdate {
					continue
				}
				if v := a.StoreVal(s); v != nil {
					d := a.dialled(v)
					sa := a.storeAddr(s)
					if d == nil || len(d.args) < 2 {
						continue
					}
					addr := d.args[1]
					el := sa
					for el.op == "fa" {
						el = el.args[0]
					}
					switch el.op {
					case "mi":
						nd++
						r.ob(conn, fmt.Sprintf("%s connection %d", fnName(a.f.Root), nd), a.f.whereB(s.i.Blk), el.args[1] == addr, "the connection for %s is dialled to %s", short2(el.args[1]), short2(addr))
					case "ia":
						nd++
						ok := false
						k := el.args[1]
						if _, c := k.isC(); c && el.args[0].op == "obj" && len(el.args[0].args) > 0 {
							k = el.args[0].args[len(el.args[0].args)-1] // the list of an append, in the order of the loop
						}
						if k.op == "k" {
							ls, only := atK(addr, k, atoi(k.aux))
							ok = only && len(ls) > 0
						} else {
							x := a.bareLoad(addr)
							ok = x != nil && x.op == "ia" && x.args[1] == el.args[1]
						}
						r.ob(conn, fmt.Sprintf("%s connection %d", fnName(a.f.Root), nd), a.f.whereB(s.i.Blk), ok, "connection %s is dialled to %s", short2(el.args[1]), short2(addr))
					}
				}
			}
		}
		r.ob(disp, "requests", "", nq >= 5, "%d requests found", nq)
		r.ob(conn, "dials", "", nd >= 2, "%d connections found", nd)
	})
}
