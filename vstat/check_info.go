package main

// C06: the metadata of a database on its way to the client.

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C06"] = checkC06
	assumptions["C06"] = []string{"rows, columns, block size and proof length fit in 32 bits", "protobuf transports the fields of a message unchanged"}
}

// field of the message, field of the metadata
var infoFields = [][2]string{
	{"NumRows", "Info.NumRows"}, {"NumColumns", "Info.NumColumns"}, {"BlockLength", "Info.BlockSize"},
	{"PirType", "Info.PIRType"}, {"Root", "Merkle.Root"}, {"ProofLen", "Merkle.ProofLen"},
}

const respType = "DatabaseInfoResponse"

func checkC06(r *Run) {
	snd := r.rule("sent-field", "each field of the metadata message is the corresponding field of the metadata the answering server reports")
	com := r.rule("complete-message", "every metadata message has all fields set; where a simulation sends predicate databases, the number of columns")
	own := r.rule("own-database", "the metadata a server reports is that of the database its answers are computed from")
	set := r.rule("restored-field", "each field of the metadata a client uses is the corresponding field of one server's message")
	all := r.rule("complete-metadata", "a client restores all fields of the metadata")
	get := r.rule("accessor", "an accessor of a message returns the field it is named after")
	mk := r.rule("tree-metadata", "every database loaded for the query server has tree metadata, which the message is made from")
	p := r.p
	// accessors
	for _, m := range []struct {
		typ    string
		fields []string
	}{
		{respType, []string{"NumRows", "NumColumns", "BlockLength", "PirType", "Root", "ProofLen"}},
		{"QueryRequest", []string{"Query"}}, {"QueryResponse", []string{"Answer"}},
	} {
		for _, f := range m.fields {
			m, f := m, f
			r.part(m.typ+".Get"+f, func() {
				a := r.flat("lib/proto." + m.typ + ".Get" + f)
				ok, n := true, 0
				for _, e := range a.accepts() {
					v := e.vals[0]
					if b := fieldLoadOf(v, m.typ+"."+f); b != nil && b.op == "param" {
						n++
						continue
					}
					ok = ok && (v.op == "nil" || v.isZero() || v.op == "str" && v.aux == "")
				}
				r.ob(get, m.typ+".Get"+f, p.relPos(a.f.Root.Pos()), ok && n > 0, "it does not return the field")
			})
		}
	}
	// servers: the message
	nh := 0
	for _, fn := range r.handlers() {
		if fn.Name() != "DatabaseInfo" {
			continue
		}
		fn := fn
		nh++
		sim := strings.Contains(fnPkgPath(fn), "/simulations/")
		r.part(fnName(fn), func() {
			a := r.flatFn(fn, "info "+fnName(fn), func(f *ssa.Function) bool {
				return strings.HasPrefix(fnPkgPath(f), modPath+"/lib/")
			})
			for k, e := range a.accepts() {
				at := a.endOf(e.b)
				inst := shortN(fnName(fn))
				if k > 0 {
					inst += " " + strconv.Itoa(k)
				}
				w := a.f.whereB(e.b)
				m := e.vals[0]
				if m.op != "obj" {
					r.ob(com, inst, w, false, "the message is %s", short(m))
					continue
				}
				missing := ""
				for _, f := range infoFields {
					v := a.fieldAt(m, respType+"."+f[0], at)
					if isUnset(v) {
						missing += " " + f[0]
						continue
					}
					for v.op == "conv" {
						v = v.args[0]
					}
					if v.op == "ite" && isUnset(v.args[1]) && v.args[0].op == "==" && len(v.args[0].args) == 2 {
						// nothing of a part there is not
						for j := 0; j < 2; j++ {
							if m := fieldLoadOf(v.args[2], f[1]); m != nil && v.args[0].args[j] == m && v.args[0].args[1-j].op == "nil" {
								v = v.args[2]
								break
							}
						}
					}
					b := fieldLoadOf(v, f[1])
					if b != nil && strings.HasPrefix(f[1], "Merkle.") {
						b = fieldLoadOf(b, "Info.Merkle")
					}
					ok := b != nil && hasSuffix(callName(b), "lib/server.Server).DBInfo") && strings.HasPrefix(pathOf(b.args[0]), a.paramName(0)+".")
					r.ob(snd, inst+" "+f[0], w, ok, "the value sent is %s", short(v))
				}
				need := missing == ""
				if sim && !need {
					need = !strings.Contains(missing, "NumColumns")
				}
				r.ob(com, inst, w, need, "not set:%s", missing)
			}
		})
	}
	if nh == 0 {
		panic(unresolved("no handler of metadata requests"))
	}
	// servers: the database
	for _, fn := range r.answerRoots() {
		fn := fn
		if fn.Name() != "AnswerBytes" {
			continue
		}
		rt := namedOf(fn.Signature.Recv().Type())
		if rt == nil {
			continue
		}
		tn := rt.Obj().Name()
		if p.Func("lib/server."+tn+".DBInfo") == nil {
			continue
		}
		r.part(tn, func() {
			a := r.flat("lib/server." + tn + ".DBInfo")
			b := r.flat("lib/server." + tn + ".AnswerBytes")
			dbs := map[string]bool{}
			for _, bl := range b.rpo {
				for _, i := range bl.Ins {
					if i.Op != OpLoad || i.Typ == nil {
						continue
					}
					if n := namedOf(i.Typ); n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == modPath+"/lib/database" && isPtr(i.Typ) && n.Obj().Name() != "Merkle" && n.Obj().Name() != "Auth" {
						dbs[pathOf(b.term(i))] = true
					}
				}
			}
			for _, e := range a.accepts() {
				v := e.vals[0]
				base := ""
				if v.op == "fa" && strings.HasSuffix(v.aux, ".Info") {
					base = pathOf(v.args[0])
				} else if v.op == "obj" {
					// a copy
					for k, f := range []string{"Info.NumRows", "Info.NumColumns", "Info.BlockSize", "Info.PIRType", "Info.Merkle"} {
						b := fieldLoadOf(a.fieldAt(v, f, a.endOf(e.b)), f)
						if b == nil || b.op != "fa" || k > 0 && pathOf(b.args[0]) != base {
							base = ""
							break
						}
						base = pathOf(b.args[0])
					}
				}
				ok := base != "" && len(dbs) > 0
				for d := range dbs {
					ok = ok && (d == base || strings.HasPrefix(d, base+"."))
				}
				r.ob(own, tn, a.f.whereB(e.b), ok, "metadata %s, answers from %s", short(v), strings.Join(pathsOf(dbs), ", "))
			}
		})
	}
	// clients
	nc := 0
	for _, a := range r.netFlats(full("(lib/proto.VPIRClient).DatabaseInfo"), grpcPkg+"DialContext", grpcPkg+"Dial", grpcPkg+"NewClient") {
		a := a
		name := shortN(fnName(a.f.Root))
		rpcs := a.calls("(lib/proto.VPIRClient).DatabaseInfo")
		if len(rpcs) == 0 {
			continue
		}
		r.part(name, func() {
			fields := dbInfoFields(p)
			val := func(inst, w, f string, v *T, msg **T) bool {
				if isUnset(v) {
					return false
				}
				for v.op == "conv" {
					v = v.args[0]
				}
				m := msgField(v, f)
				if *msg == nil {
					*msg = m
				}
				r.ob(set, inst+" "+f, w, m != nil && m == *msg, "the value is %s", short(v))
				return true
			}
			// built field by field
			seen := map[*T]bool{}
			for _, s := range a.stores {
				if s.i.Op != OpStore || s.addr == nil || s.addr.op != "fa" || !fields[s.addr.aux] {
					continue
				}
				b := s.addr.args[0]
				w := p.relPos(s.i.Pos)
				if s.addr.aux == "Info.Merkle" || s.addr.aux == "Info.Auth" {
					if a.StoreVal(s).op != "obj" {
						r.ob(set, name+" "+s.addr.aux+" "+w, w, false, "the value is %s", short(a.StoreVal(s)))
					}
					continue
				}
				var msg *T
				for _, f := range infoFields {
					if f[1] == s.addr.aux {
						val(name+" "+w, w, f[0], a.StoreVal(s), &msg)
					}
				}
				if strings.HasPrefix(s.addr.aux, "Merkle.") || seen[b] {
					continue
				}
				seen[b] = true
				nc++
				msg = nil
				at := a.endOf(s.i.Blk)
				for _, s2 := range a.stores {
					if s2.i.Op == OpStore && s2.addr != nil && s2.addr.op == "fa" && s2.addr.args[0] == b && a.Dom(at.Blk, s2.i.Blk) {
						at = a.endOf(s2.i.Blk)
					}
				}
				missing := ""
				for _, f := range infoFields {
					v := a.infoField(b, f[1], at)
					if !val(name+" "+w+" whole", w, f[0], v, &msg) {
						missing += " " + f[1]
					}
				}
				r.ob(all, name+" "+w, w, missing == "", "not restored:%s", missing)
			}
			// as a value
			st := p.lookupType("lib/database", "Info").Underlying().(*types.Struct)
			done := map[*T]bool{}
			for _, bl := range a.rpo {
				for _, i := range bl.Ins {
					for k := range i.Args {
						v := a.op(i, k)
						if v == nil || v.op != "tuple" || len(v.args) != st.NumFields() || done[v] || !fromMessage(v) {
							continue
						}
						done[v] = true
						nc++
						w := p.relPos(i.Pos)
						var msg *T
						missing := ""
						for _, f := range infoFields {
							var x *T
							for q := 0; q < st.NumFields(); q++ {
								switch {
								case "Info."+st.Field(q).Name() == f[1]:
									x = v.args[q]
								case st.Field(q).Name() == "Merkle" && strings.HasPrefix(f[1], "Merkle."):
									x = a.fieldAt(v.args[q], f[1], a.endOf(bl))
								}
							}
							if x == nil || !val(name+" "+w+" value", w, f[0], x, &msg) {
								missing += " " + f[1]
							}
						}
						r.ob(all, name+" "+w, w, missing == "", "not restored:%s", missing)
					}
				}
			}
		})
	}
	if nc == 0 {
		r.ob(all, "clients", "", false, "no client restores metadata")
	}
	// databases of the query server
	for _, n := range []string{"GenerateRealKeyDB", "GenerateRealKeyBytes", "GenerateRealKeyMerkle"} {
		n := n
		r.part(n, func() {
			a := r.flat("lib/database." + n)
			k := 0
			for _, e := range a.accepts() {
				if e.vals[0].op == "nil" {
					continue
				}
				k++
				at := a.endOf(e.b)
				var v *T
				for _, t := range []string{"DB", "Bytes"} {
					v = a.fieldAt(a.p.app("fa", t+".Info", e.vals[0]), "Info.Merkle", at)
					if v.op == "obj" {
						break
					}
				}
				r.ob(mk, n, a.f.whereB(e.b), v.op == "obj", "the tree metadata is %s", short(v))
			}
			if k == 0 {
				r.ob(mk, n, "", false, "no database is returned")
			}
		})
	}
}

func isPtr(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

// fromMessage: some part of the value comes from a metadata message.
func fromMessage(v *T) bool {
	found := false
	for _, x := range v.args {
		for x.op == "conv" {
			x = x.args[0]
		}
		for _, f := range infoFields {
			found = found || msgField(x, f[0]) != nil
		}
	}
	return found
}

// infoField: a field of the metadata, through its tree part where it is one of that.
func (a *Analysis) infoField(b *T, f string, at *Ins) *T {
	if strings.HasPrefix(f, "Merkle.") {
		b = a.fieldAt(b, "Info.Merkle", at)
	}
	return a.fieldAt(b, f, at)
}

// dbInfoFields: the names of the fields of the metadata in address terms.
func dbInfoFields(p *Program) map[string]bool {
	m := map[string]bool{}
	for _, n := range []string{"Info", "Merkle"} {
		st, ok := p.lookupType("lib/database", n).Underlying().(*types.Struct)
		if !ok {
			panic(unresolved("lib/database." + n))
		}
		for q := 0; q < st.NumFields(); q++ {
			m[n+"."+st.Field(q).Name()] = true
		}
	}
	return m
}

// isUnset: the zero value of a field nothing was stored to.
func isUnset(v *T) bool {
	return v.op == "nil" || v.isZero() || v.op == "str" && v.aux == "" || v.op == "zero"
}

// msgField: the message whose field, read directly or by its accessor, the value is.
func msgField(v *T, f string) *T {
	var m *T
	if callName(v) == full("(*lib/proto."+respType+").Get"+f) {
		m = v.args[0]
	} else {
		m = fieldLoadOf(v, respType+"."+f)
	}
	if m != nil && m.op == "x" && m.aux == "0" && callName(m.args[0]) == full("(lib/proto.VPIRClient).DatabaseInfo") {
		return m
	}
	return nil
}
