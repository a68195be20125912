package main

// L04: transport security and message sizes.

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["L04"] = checkL04
	assumptions["L04"] = []string{"a certificate pool and a TLS configuration are what the calls listed here made of them: grpc and crypto/tls verify the peer unless told otherwise"}
}

const grpcPkg = "google.golang.org/grpc."

// netFlats: the flow graphs of the programs and handlers that reach one of the named
// functions, with only their own packages and lib/utils expanded.
func (r *Run) netFlats(names ...string) []*Analysis {
	want := map[string]bool{}
	for _, n := range names {
		want[n] = true
	}
	p := r.p
	var fns []*ssa.Function
	for _, fn := range p.productFuncs() {
		if fn.Name() == "main" && fn.Signature.Recv() == nil && fn.Parent() == nil && fn.Pkg != nil && fn.Pkg.Pkg.Name() == "main" || isHandler(fn) {
			if p.reaches(fn, func(g *ssa.Function) bool { return want[fnName(g)] || want[g.RelString(nil)] }) {
				fns = append(fns, fn)
			}
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fnName(fns[i]) < fnName(fns[j]) })
	lc := p.Func(loadConfig)
	var as []*Analysis
	for _, fn := range fns {
		as = append(as, r.flatFn(fn, "net "+fnName(fn), func(f *ssa.Function) bool {
			pk := fnPkgPath(f)
			return f == lc || strings.HasPrefix(pk, modPath+"/lib/") && pk != modPath+"/lib/utils"
		}))
	}
	return as
}

// listed: the elements of a list of options; of a package variable, those it is initialised with.
func (r *Run) listed(a *Analysis, v *T, at *Ins) (*Analysis, []*T, *Ins, bool) {
	if v.op == "ld" && v.args[0].op == "global" {
		for _, pk := range r.p.SSA.AllPackages() {
			if !strings.HasPrefix(v.args[0].aux, pk.Pkg.Path()+".") {
				continue
			}
			g, ok := pk.Members[strings.TrimPrefix(v.args[0].aux, pk.Pkg.Path()+".")].(*ssa.Global)
			if !ok {
				continue
			}
			if f, _ := r.p.globalWritten(g); f != "" {
				return nil, nil, nil, false
			}
			ini := pk.Func("init")
			b := r.flatFn(ini, "init "+pk.Pkg.Path(), func(f *ssa.Function) bool { return true })
			for _, bl := range b.rpo {
				for _, i := range bl.Ins {
					if i.Op == OpStore && b.op(i, 0).op == "global" && b.op(i, 0).aux == v.args[0].aux {
						return r.listed(b, b.op(i, 1), b.endOf(bl))
					}
				}
			}
			return nil, nil, nil, false
		}
		return nil, nil, nil, false
	}
	if v.op == "nil" {
		return a, nil, at, true
	}
	if v.op == "cat" {
		var es []*T
		for _, x := range v.args {
			if x.op == "one" {
				es = append(es, x.args...)
				continue
			}
			b, l, _, ok := r.listed(a, x, at)
			if !ok || b != a && len(l) > 0 {
				return nil, nil, nil, false
			}
			es = append(es, l...)
		}
		return a, es, at, true
	}
	n, ok := a.lenT(v).isC()
	if !ok || n > 64 {
		return nil, nil, nil, false
	}
	var es []*T
	for k := int64(0); k < n; k++ {
		es = append(es, a.elemAt(v, a.p.c(k), at))
	}
	return a, es, at, true
}

// pinned: the credentials verify the peer against the servers' certificates only.
func (a *Analysis) pinned(c *T, at *Ins) string {
	var pool *T
	switch callName(c) {
	case "google.golang.org/grpc/credentials.NewClientTLSFromCert":
		pool = c.args[0]
	case "google.golang.org/grpc/credentials.NewTLS":
		pool = a.fieldAt(c.args[0], "Config.RootCAs", a.insOr(callID(c), at))
	default:
		return "the credentials are " + short(c)
	}
	if callName(pool) != "crypto/x509.NewCertPool" {
		return "the certificate pool is " + short(pool)
	}
	n := 0
	for _, b := range a.rpo {
		for _, i := range b.Ins {
			if i.Op != OpCall || nargs(i) == 0 || a.arg(i, 0) != pool {
				continue
			}
			switch a.callee(i) {
			case "google.golang.org/grpc/credentials.NewClientTLSFromCert":
			case "(*crypto/x509.CertPool).AppendCertsFromPEM":
				x := a.arg(i, 1)
				if x.op == "conv" {
					x = x.args[0]
				}
				l := a.innermost(i.Blk)
				if (x.op != "ld" && x.op != "mem") || x.args[0].op != "ia" || x.args[0].args[0].op != "global" || x.args[0].args[0].aux != full("lib/utils.ServerPublicKeys") {
					return "a certificate added to the pool is " + short(x)
				}
				if l == nil || x.args[0].args[1] != a.p.k(l.ID) {
					return "one certificate is added only"
				}
				if g, ok := a.f.P.tableLen("lib/utils", "ServerPublicKeys"); !ok || a.TripOf(l) == nil || !isConst(a.TripOf(l), g) || !a.everyTime(l, i) {
					return "not every certificate is added"
				}
				n++
			default:
				return "the pool is also used by " + a.callee(i)
			}
		}
	}
	if n == 0 {
		return "no certificate is added to the pool"
	}
	return ""
}

func (a *Analysis) insOr(id string, at *Ins) *Ins {
	if i := a.insByID(id); i != nil {
		return i
	}
	return at
}

func checkL04(r *Run) {
	dial := r.rule("client-tls", "every connection is opened with transport credentials that verify the server against a pool holding exactly the servers' certificates")
	plain := r.rule("no-plaintext", "no program disables transport security or the verification of certificates")
	srv := r.rule("server-tls", "every query server is created with TLS credentials holding the certificate of its own index, the index of the address it listens at")
	cert := r.rule("server-certificates", "the certificate of index i is made of public and secret key i, for every i")
	size := r.rule("message-size", "every call and every server sets message limits so that what one side may send the other accepts, at least 1 GiB")
	cov := r.rule("all-sites", "every place where a connection or server is made or a request sent is reached from an analysed program")
	p := r.p
	// forbidden anywhere
	forbidden := map[string]bool{grpcPkg + "WithInsecure": true, "google.golang.org/grpc/credentials/insecure.NewCredentials": true, "google.golang.org/grpc/credentials/insecure.NewBundle": true,
		"google.golang.org/grpc/credentials/local.NewCredentials": true, grpcPkg + "WithCredentialsBundle": true, grpcPkg + "WithContextDialer": true}
	sites := map[token.Pos]string{}
	for _, fn := range p.productFuncs() {
		if fn.Name() == "init" || strings.Contains(fnPkgPath(fn), "/lib/proto") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case ssa.CallInstruction:
					n := calleeName(x.Common())
					if forbidden[n] {
						r.ob(plain, n, p.relPos(in.Pos()), false, "called in %s", fnName(fn))
					}
					if dialCall(n) || n == grpcPkg+"NewServer" || rpcCall(n) {
						sites[in.Pos()] = n
					}
				case *ssa.Store:
					fa, ok := x.Addr.(*ssa.FieldAddr)
					if !ok || fieldVar(fa) == nil || fieldVar(fa).Pkg() == nil || fieldVar(fa).Pkg().Path() != "crypto/tls" {
						continue
					}
					switch fieldVar(fa).Name() {
					case "InsecureSkipVerify":
						c, ok := x.Val.(*ssa.Const)
						r.ob(plain, "InsecureSkipVerify in "+shortN(fnName(fn)), p.relPos(in.Pos()), ok && c.Value != nil && !constant.BoolVal(c.Value), "set")
					case "CipherSuites", "MinVersion", "MaxVersion":
						r.ob(plain, fieldVar(fa).Name()+" in "+shortN(fnName(fn)), p.relPos(in.Pos()), weakOK(x.Val), "weak protocol settings")
					}
				}
			}
		}
	}
	seen := map[token.Pos]bool{}
	type lims struct {
		inst       string
		send, recv int64
		where      string
	}
	var cl, sv []lims
	const unlimited, deflt = int64(1<<31 - 1), int64(4 << 20)
	limits := func(es []*T, send, recv string) (int64, int64, bool) {
		s, v := unlimited, deflt
		for _, e := range es {
			switch callName(e) {
			case grpcPkg + send, grpcPkg + recv:
				c, ok := e.args[0].isC()
				if !ok {
					return 0, 0, false
				}
				if callName(e) == grpcPkg+send {
					s = c
				} else {
					v = c
				}
			}
		}
		return s, v, true
	}
	// clients
	for _, a := range r.netFlats(grpcPkg+"Dial", grpcPkg+"DialContext", grpcPkg+"NewClient") {
		name := shortN(fnName(a.f.Root))
		r.part(name, func() {
			for _, b := range a.rpo {
				for _, i := range b.Ins {
					if i.Op != OpCall {
						continue
					}
					n := a.callee(i)
					switch {
					case dialCall(n):
						seen[i.Pos] = true
						c, es, at, ok := r.listed(a, a.arg(i, nargs(i)-1), i)
						why := "the options are not known"
						if ok {
							why = "no transport credentials"
							for _, e := range es {
								if callName(e) == grpcPkg+"WithTransportCredentials" {
									why = c.pinned(e.args[0], at)
								}
							}
						}
						r.ob(dial, name+" "+p.relPos(i.Pos), a.posOf(i), why == "", "%s", why)
					}
				}
			}
		})
	}
	// requests: every list of options the call may be made with
	for _, fn := range p.productFuncs() {
		if strings.Contains(fnPkgPath(fn), "/lib/proto") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				x, ok := in.(ssa.CallInstruction)
				if !ok || !rpcCall(calleeName(x.Common())) {
					continue
				}
				n := calleeName(x.Common())
				seen[in.Pos()] = true
				r.note(fn)
				inst := shortN(fnName(fn)) + " " + n[strings.LastIndex(n, ".")+1:]
				o := &optLists{p: p, seen: map[ssa.Value]bool{}}
				o.trace(x.Common().Args[len(x.Common().Args)-1])
				r.ob(size, inst+" options", p.relPos(in.Pos()), o.bad == "" && len(o.lists) > 0, "the options are not known: %s", o.bad)
				for _, l := range o.lists {
					s, v := unlimited, deflt
					okl := true
					for _, e := range l.elems {
						c, isCall := e.(*ssa.Call)
						if !isCall {
							okl = false
							continue
						}
						switch m := calleeName(c.Common()); m {
						case grpcPkg + "MaxCallSendMsgSize", grpcPkg + "MaxCallRecvMsgSize":
							k, isC := c.Common().Args[0].(*ssa.Const)
							if !isC || k.Value == nil {
								okl = false
								continue
							}
							if m == grpcPkg+"MaxCallSendMsgSize" {
								s = k.Int64()
							} else {
								v = k.Int64()
							}
						}
					}
					w := l.where + " and " + p.relPos(in.Pos())
					if r.ob(size, inst+" with the options at "+l.where, w, okl && s >= 1<<30 && v >= 1<<30, "the call may send %d and receive %d bytes", s, v) {
						cl = append(cl, lims{inst, s, v, w})
					}
				}
			}
		}
	}
	// servers
	for _, a := range r.netFlats(grpcPkg + "NewServer") {
		name := shortN(fnName(a.f.Root))
		r.part(name, func() {
			for _, i := range a.calls(grpcPkg + "NewServer") {
				seen[i.Pos] = true
				w := a.posOf(i)
				c, es, at, ok := r.listed(a, a.arg(i, nargs(i)-1), i)
				if !ok {
					r.ob(srv, name, w, false, "the options are not known")
					continue
				}
				s, v, okl := limits(es, "MaxSendMsgSize", "MaxRecvMsgSize")
				if r.ob(size, name, w, okl && s >= 1<<30 && v >= 1<<30, "the server may send %d and receive %d bytes", s, v) {
					sv = append(sv, lims{name, s, v, w})
				}
				var sid *T
				why := "no credentials"
				for _, e := range es {
					if callName(e) == grpcPkg+"Creds" {
						sid, why = c.certOf(r, e.args[0], at)
					}
				}
				me := a.term(i)
				if why == "" {
					why = a.servedAt(me, sid)
				}
				r.ob(srv, name, w, why == "", "%s", why)
			}
			for _, i := range a.calls("lib/proto.RegisterVPIRServer") {
				x := a.arg(i, 0)
				r.ob(srv, name+" registration", a.posOf(i), callName(x) == grpcPkg+"NewServer", "the service is registered with %s", short(x))
			}
		})
	}
	if len(cl) == 0 || len(sv) == 0 {
		r.ob(size, "sides", "", false, "no client or no server sets limits")
	}
	for _, c := range cl {
		for _, s := range sv {
			// a simulation client talks to simulation servers
			if strings.Contains(c.inst, "simulations/") != strings.Contains(s.inst, "simulations/") {
				continue
			}
			r.ob(size, c.inst+" and "+s.inst, c.where, c.recv >= s.send && s.recv >= c.send, "client sends %d, receives %d; server sends %d, receives %d", c.send, c.recv, s.send, s.recv)
		}
	}
	for pos, n := range sites {
		r.ob(cov, n+" at "+p.relPos(pos), p.relPos(pos), seen[pos], "not reached from a program analysed")
	}
	// the table of certificates
	r.part("lib/utils.ServerCertificates", func() {
		pk := p.Func(loadConfig).Pkg
		n := 0
		for _, fn := range p.productFuncs() {
			if fn.Pkg != pk || !strings.HasPrefix(fn.Name(), "init#") {
				continue
			}
			a := r.flatFn(fn, "cert "+fnName(fn), func(f *ssa.Function) bool { return false })
			for _, i := range a.calls("crypto/tls.X509KeyPair") {
				n++
				pub, sec := a.keyText(a.arg(i, 0)), a.keyText(a.arg(i, 1))
				l := a.innermost(i.Blk)
				stored := false
				for _, s := range a.stores {
					if s.i.Op != OpStore || s.addr == nil || s.addr.op != "ia" || l == nil || s.addr.args[1] != a.p.k(l.ID) {
						continue
					}
					if v := a.StoreVal(s); v.op == "x" && v.aux == "0" && v.args[0] == a.term(i) {
						stored = stored || a.listOf(s.addr.args[0], full("lib/utils.ServerCertificates"))
					}
				}
				w := a.posOf(i)
				okp := pub != nil && sec != nil && pub.args[0].aux == full("lib/utils.ServerPublicKeys") && sec.args[0].aux == full("lib/utils.serverSecretKeys") && pub.args[1] == sec.args[1] && l != nil && pub.args[1] == a.p.k(l.ID)
				r.ob(cert, "pair", w, okp, "public key %s, secret key %s", short(a.arg(i, 0)), short(a.arg(i, 1)))
				r.ob(cert, "place", w, stored, "the certificate is not stored at its own index")
				okf, why := a.failStops(i)
				r.ob(cert, "failure", w, okf, "%s", why)
				if l != nil {
					g, okg := p.tableLen("lib/utils", "ServerPublicKeys")
					r.ob(cert, "all", w, okg && a.TripOf(l) != nil && isConst(a.TripOf(l), g) && a.allIterations(l), "not for every key")
				}
			}
		}
		r.ob(cert, "table", "", n > 0, "no certificate is made")
		for _, g := range []string{"ServerPublicKeys", "serverSecretKeys", "ServerCertificates"} {
			gl, ok := pk.Members[g].(*ssa.Global)
			if !ok {
				continue
			}
			f, where := p.globalWritten(gl)
			r.ob(cert, g+" fixed", where, f == "", "written by %s", f)
		}
	})
}

// listOf: the object is what the package variable holds.
func (a *Analysis) listOf(o *T, g string) bool {
	if o.op == "ld" && o.args[0].op == "global" && o.args[0].aux == g {
		return true
	}
	for _, b := range a.rpo {
		for _, i := range b.Ins {
			if i.Op == OpStore && a.op(i, 0).op == "global" && a.op(i, 0).aux == g && a.op(i, 1) == o {
				return true
			}
		}
	}
	return false
}

// keyText: the element of a package table a key is read from, as index address.
func (a *Analysis) keyText(t *T) *T {
	if t.op == "conv" {
		t = t.args[0]
	}
	if (t.op == "ld" || t.op == "mem") && t.args[0].op == "ia" && t.args[0].args[0].op == "global" {
		return t.args[0]
	}
	return nil
}

// certOf: the index of the one certificate server credentials hold.
func (a *Analysis) certOf(r *Run, c *T, at *Ins) (*T, string) {
	elem := func(x *T) (*T, string) {
		if (x.op == "ld" || x.op == "mem") && x.args[0].op == "ia" {
			l := x.args[0].args[0]
			if l.op == "ld" && l.args[0].op == "global" && l.args[0].aux == full("lib/utils.ServerCertificates") {
				return x.args[0].args[1], ""
			}
		}
		return nil, "the certificate is " + short(x)
	}
	switch callName(c) {
	case "google.golang.org/grpc/credentials.NewTLS":
		i := a.insOr(callID(c), at)
		_, es, _, ok := r.listed(a, a.fieldAt(c.args[0], "Config.Certificates", i), i)
		if !ok || len(es) != 1 {
			return nil, "not exactly one certificate"
		}
		return elem(es[0])
	case "google.golang.org/grpc/credentials.NewServerTLSFromCert":
		x := c.args[0]
		if x.op == "ia" {
			x = a.p.app("ld", "", x)
		} else {
			x = a.resolve(x, a.insOr(callID(c), at))
		}
		return elem(x)
	}
	return nil, "the credentials are " + short(c)
}

// servedAt: the server accepts connections only at the address of the same index.
func (a *Analysis) servedAt(srv, sid *T) string {
	n := 0
	for _, i := range a.calls("(*google.golang.org/grpc.Server).Serve") {
		if a.arg(i, 0) != srv {
			return "another server is started"
		}
		n++
		l := a.arg(i, 1)
		if l.op == "x" && l.aux == "0" {
			l = l.args[0]
		}
		if callName(l) != "net.Listen" {
			return "the listener is " + short(l)
		}
		ad := l.args[1]
		if (ad.op != "ld" && ad.op != "mem") || ad.args[0].op != "ia" || fieldLoadOf(ad.args[0].args[0], "Config.Addresses") == nil {
			return "it listens at " + short(ad)
		}
		if ad.args[0].args[1] != sid {
			return "the certificate of server " + short(sid) + " is used at the address of server " + short(ad.args[0].args[1])
		}
	}
	if n == 0 {
		return "it never serves"
	}
	return ""
}

func dialCall(n string) bool {
	return n == grpcPkg+"Dial" || n == grpcPkg+"DialContext" || n == grpcPkg+"NewClient"
}

func rpcCall(n string) bool {
	return n == full("(lib/proto.VPIRClient).Query") || n == full("(lib/proto.VPIRClient).DatabaseInfo")
}

func weakOK(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil {
		return false
	}
	n, ok := constant.Int64Val(c.Value)
	return ok && n >= 0x0303
}

// tableLen: the number of elements of an array variable, or of a list assigned once.
func (p *Program) tableLen(pkg, name string) (int64, bool) {
	for _, pk := range p.SSA.AllPackages() {
		if pk.Pkg.Path() != modPath+"/"+pkg {
			continue
		}
		if g, ok := pk.Members[name].(*ssa.Global); ok {
			if t, ok := g.Type().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
				return t.Len(), true
			}
		}
	}
	return p.globalLen(modPath + "/" + pkg + "." + name)
}

// optLists finds the lists of options a value may be, through variables, fields,
// parameters and results of the whole program.
type optLists struct {
	p     *Program
	seen  map[ssa.Value]bool
	lists []optList
	bad   string
}

type optList struct {
	where string
	elems []ssa.Value
}

func (o *optLists) fail(v ssa.Value) {
	o.bad = v.String() + " at " + o.p.relPos(v.Pos())
}

func (o *optLists) trace(v ssa.Value) {
	if o.seen[v] {
		return
	}
	o.seen[v] = true
	p := o.p
	each := func(f func(in ssa.Instruction)) {
		for _, fn := range p.Funcs {
			if !p.inRepo(fn) || !p.product(fn) && fn.Name() != "init" {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					f(in)
				}
			}
		}
	}
	field := func(fv *types.Var) {
		n := 0
		each(func(in ssa.Instruction) {
			if st, ok := in.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldVar(fa) == fv {
					n++
					o.trace(st.Val)
				}
			}
		})
		if n == 0 {
			o.bad = "field " + fv.Name() + " is never set"
		}
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			o.lists = append(o.lists, optList{"no list", nil})
			return
		}
		o.fail(v)
	case *ssa.ChangeType:
		o.trace(x.X)
	case *ssa.Phi:
		for _, e := range x.Edges {
			o.trace(e)
		}
	case *ssa.Slice:
		al, ok := x.X.(*ssa.Alloc)
		if !ok {
			o.trace(x.X)
			return
		}
		l := optList{where: p.relPos(al.Pos())}
		for _, ref := range *al.Referrers() {
			ia, ok := ref.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			for _, u := range *ia.Referrers() {
				if st, ok := u.(*ssa.Store); ok && st.Addr == ia {
					e := st.Val
					for {
						if m, ok := e.(*ssa.MakeInterface); ok {
							e = m.X
							continue
						}
						if m, ok := e.(*ssa.ChangeInterface); ok {
							e = m.X
							continue
						}
						break
					}
					l.elems = append(l.elems, e)
				}
			}
		}
		o.lists = append(o.lists, l)
	case *ssa.UnOp:
		switch y := x.X.(type) {
		case *ssa.Global:
			n := 0
			each(func(in ssa.Instruction) {
				if st, ok := in.(*ssa.Store); ok && st.Addr == y {
					n++
					o.trace(st.Val)
				}
			})
			if n == 0 {
				o.fail(v)
			}
		case *ssa.FieldAddr:
			field(fieldVar(y))
		case *ssa.Alloc, *ssa.FreeVar:
			o.cell(y)
		default:
			o.fail(v)
		}
	case *ssa.Field:
		field(fieldVar(x))
	case *ssa.FreeVar:
		o.cell(x)
	case *ssa.Parameter:
		k := -1
		for j, q := range x.Parent().Params {
			if q == x {
				k = j
			}
		}
		n := 0
		each(func(in ssa.Instruction) {
			if c, ok := in.(ssa.CallInstruction); ok && staticCallee(c.Common()) == x.Parent() {
				n++
				o.trace(c.Common().Args[k])
			}
		})
		if n == 0 {
			o.fail(v)
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			// the elements of both lists
			var both [2]optLists
			for k := 0; k < 2; k++ {
				both[k] = optLists{p: p, seen: map[ssa.Value]bool{}}
				both[k].trace(x.Call.Args[k])
				if both[k].bad != "" {
					o.bad = both[k].bad
				}
			}
			for _, l := range both[0].lists {
				for _, m := range both[1].lists {
					o.lists = append(o.lists, optList{l.where, append(append([]ssa.Value{}, l.elems...), m.elems...)})
				}
			}
			return
		}
		f := staticCallee(x.Common())
		if f == nil || !p.inRepo(f) || f.Signature.Results().Len() != 1 {
			o.fail(v)
			return
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if rt, ok := in.(*ssa.Return); ok {
					o.trace(rt.Results[0])
				}
			}
		}
	default:
		o.fail(v)
	}
}

// cell: a local variable shared with function literals.
func (o *optLists) cell(v ssa.Value) {
	if fv, ok := v.(*ssa.FreeVar); ok {
		k := -1
		for j, q := range fv.Parent().FreeVars {
			if q == fv {
				k = j
			}
		}
		for _, b := range fv.Parent().Parent().Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fv.Parent() {
					if _, ok := fv.Type().Underlying().(*types.Pointer); ok {
						o.cell(mc.Bindings[k])
					} else {
						o.trace(mc.Bindings[k])
					}
				}
			}
		}
		return
	}
	al, ok := v.(*ssa.Alloc)
	if !ok {
		o.fail(v)
		return
	}
	for _, ref := range *al.Referrers() {
		if st, ok := ref.(*ssa.Store); ok && st.Addr == al {
			o.trace(st.Val)
		}
	}
}
