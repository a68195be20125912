package main

// C09: which keys of a dump are kept, how they are written and read back, and
// which key of a block a client takes.

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C09"] = checkC09
	assumptions["C09"] = []string{
		"openpgp.ReadKeyRing, (*openpgp.Entity).Serialize, encoding/gob and bytes.Buffer do what their documentation says",
		"Entity.Revocations holds the revocations of a key; subkeys are removed on purpose",
	}
}

const (
	primaryEmail = "lib/pgp.PrimaryEmail"
	openpgpPath  = "github.com/nikirill/go-crypto/openpgp"
)

// emailOf: the entity whose primary address the term is.
func emailOf(t *T) *T {
	if callName(t) == full(primaryEmail) {
		return t.args[0]
	}
	return nil
}

func isLoad(t *T) bool { return t.op == "ld" || t.op == "mem" }

// createdOf: the entity whose creation time the term is.
func createdOf(t *T) *T {
	if !isLoad(t) || t.args[0].op != "fa" || t.args[0].aux != "PublicKey.CreationTime" {
		return nil
	}
	k := t.args[0].args[0]
	if !isLoad(k) || k.args[0].op != "fa" || k.args[0].aux != "Entity.PrimaryKey" {
		return nil
	}
	return k.args[0].args[0]
}

// keyOf: the entity whose primary address a map entry has.
func entryOf(t *T) (m, key *T) {
	if isLoad(t) && t.args[0].op == "mi" {
		return t.args[0].args[0], t.args[0].args[1]
	}
	return nil, nil
}

func checkC09(r *Run) {
	filter := r.rule("filter", "a key of the dump enters the map only if it is not revoked, has an address, and no newer key of this address is there; it is left out only for one of these reasons")
	write := r.rule("own-bytes", "every entity of the map that is not above the limit is written once, under its address, as exactly the bytes of its own serialisation")
	read := r.rule("read-back", "reading back keeps every key decoded, each in an object of its own, and ends well only at the end of each file")
	rec := r.rule("requested", "a key is returned from a block only if its primary address is the one asked for")
	errs := r.rule("errors", "a failure of reading, parsing, serialising or writing is returned")
	r.part("filter", func() { r.keysKept(filter, r.flat("lib/pgp.AnalyzeKeyDump", primaryEmail)) })
	r.part("write", func() { r.keysWritten(write, r.flat("lib/pgp.WriteKeysOnDisk", primaryEmail)) })
	r.part("read", func() { r.keysRead(read) })
	r.part("recover", func() { r.keyRequested(rec, r.flat("lib/pgp.RecoverKeyFromBlock", primaryEmail)) })
	r.part("use", func() { r.keyUsed(rec) })
	r.part("email", func() { r.primary(filter) })
	n := r.fallible(errs, func(name string) bool {
		switch name {
		case "os.Open", "os.OpenFile", "os.Create", openpgpPath + ".ReadKeyRing", "(*" + openpgpPath + ".Entity).Serialize", "(*encoding/gob.Encoder).Encode":
			return true
		}
		return false
	}, func(fn *ssa.Function) bool {
		pk := fnPkgPath(fn)
		return pk == modPath+"/lib/pgp" || pk == modPath+"/data" || pk == modPath+"/lib/database"
	})
	r.ob(errs, "steps", "", n >= 8, "%d calls found", n)
}

func (r *Run) keysKept(rule string, a *Analysis) {
	name := "lib/pgp.AnalyzeKeyDump"
	rk := a.calls(openpgpPath + ".ReadKeyRing")
	if len(rk) != 1 {
		r.ob(rule, name+": rings", "", false, "keys are parsed at %d places", len(rk))
		return
	}
	list := a.p.app("x", "0", a.term(rk[0]))
	// every file
	outer := a.innermost(rk[0].Blk)
	ok := outer != nil && outer.Parent == nil && a.TripOf(outer) == a.lenT(a.p.app("param", a.paramName(0))) && a.allIterations(outer) && a.everyTimeOrFails(outer, rk[0])
	r.ob(rule, name+": files", a.f.where(rk[0]), ok, "not every file is read")
	if f := a.term(rk[0]).args[0]; true {
		src := f
		if src.op == "x" && len(src.args) == 1 {
			src = src.args[0]
		}
		ok := callName(src) == "os.Open" && isElemOf(src.args[0], a.p.app("param", a.paramName(0)), a.p.k(outerID(outer)))
		r.ob(rule, name+": file", a.f.where(rk[0]), ok, "what is parsed is %s", short2(f))
	}
	// the map returned
	var m *T
	for _, e := range a.accepts() {
		if m != nil && m != e.vals[0] {
			r.ob(rule, name+": map", a.f.whereB(e.b), false, "different maps are returned")
		}
		m = e.vals[0]
	}
	if m == nil || m.op != "obj" {
		r.ob(rule, name+": map", "", false, "no map of the function is returned: %s", short2(m))
		return
	}
	var ups []*Ins
	for _, b := range a.rpo {
		for _, i := range b.Ins {
			if i.Op == OpMapUpdate && a.op(i, 0) == m {
				ups = append(ups, i)
			}
			if i.Op == OpBuiltin && (i.Name == "delete" || i.Name == "clear") && a.op(i, 0) == m {
				r.ob(rule, name+": removed at "+a.posOf(i), a.f.where(i), false, "keys are removed from the map")
			}
		}
	}
	if len(ups) == 0 {
		r.ob(rule, name+": stored", "", false, "no key is stored")
		return
	}
	l := a.innermost(ups[0].Blk)
	r.ob(rule, name+": keys", a.f.where(ups[0]), l != nil && a.lenT(list) == a.TripOf(l) && a.allIterations(l) && l.Parent == outer, "not every key of a file is looked at")
	if l == nil {
		return
	}
	k := a.p.k(l.ID)
	isE := func(t *T) bool { return t != nil && isElemOf(t, list, k) }
	// conditions
	revoked := func(x *T) *bool {
		// len(e.Revocations) > 0
		neg := false
		if x.op == "!" {
			neg, x = true, x.args[0]
		}
		f := func(b bool) *bool { b = b != neg; return &b }
		isLen := func(t *T) bool {
			return t.op == "len" && isLoad(t.args[0]) && t.args[0].args[0].op == "fa" && t.args[0].args[0].aux == "Entity.Revocations" && isE(t.args[0].args[0].args[0])
		}
		if x.op == "<0" || x.op == "==0" {
			ts, co, c := parts(x.args[0])
			if len(ts) == 1 && isLen(ts[0]) {
				switch {
				case x.op == "<0" && co[0] == -1 && c == 0: // -len < 0
					return f(true)
				case x.op == "<0" && co[0] == 1 && c == -1: // len-1 < 0
					return f(false)
				case x.op == "==0" && c == 0:
					return f(false)
				}
			}
		}
		return nil
	}
	noMail := func(x *T) *bool {
		neg := false
		if x.op == "!" {
			neg, x = true, x.args[0]
		}
		if x.op == "==" && len(x.args) == 2 {
			for j := 0; j < 2; j++ {
				if x.args[1-j].op == "str" && x.args[1-j].aux == "" && isE(emailOf(x.args[j])) {
					b := !neg
					return &b
				}
			}
		}
		if x.op == "<0" || x.op == "==0" {
			ts, co, c := parts(x.args[0])
			if len(ts) == 1 && ts[0].op == "len" && isE(emailOf(ts[0].args[0])) {
				var b bool
				switch {
				case x.op == "<0" && co[0] == -1 && c == 0:
					b = false
				case x.op == "<0" && co[0] == 1 && c == -1, x.op == "==0" && c == 0:
					b = true
				default:
					return nil
				}
				b = b != neg
				return &b
			}
		}
		return nil
	}
	isPrev := func(t *T) bool {
		if t == nil {
			return false
		}
		mm, key := entryOf(t)
		return mm == m && isE(emailOf(key))
	}
	absent := func(x *T) *bool {
		neg := false
		if x.op == "!" {
			neg, x = true, x.args[0]
		}
		if x.op == "has" && x.args[0] == m && isE(emailOf(x.args[1])) {
			b := neg
			return &b
		}
		if y := nilTest(x); y != nil && isPrev(y) {
			b := !neg
			return &b
		}
		return nil
	}
	// newer: the key is (strictly or not) newer than the stored one
	newer := func(x *T) *bool {
		neg := false
		if x.op == "!" {
			neg, x = true, x.args[0]
		}
		n := callName(x)
		var b bool
		switch {
		case n != "(time.Time).Before" && n != "(time.Time).After":
			return nil
		case isPrev(createdOf(x.args[0])) && isE(createdOf(x.args[1])):
			b = n == "(time.Time).Before"
		case isE(createdOf(x.args[0])) && isPrev(createdOf(x.args[1])):
			b = n == "(time.Time).After"
		default:
			return nil
		}
		b = b != neg
		return &b
	}
	is := func(f func(x *T) *bool, want bool) func(x *T) bool {
		return func(x *T) bool { v := f(x); return v != nil && *v == want }
	}
	stores := map[*Block]bool{}
	for j, u := range ups {
		inst := fmt.Sprintf("%s: stored %d", name, j+1)
		w := a.f.where(u)
		if a.innermost(u.Blk) != l {
			r.ob(rule, inst, w, false, "a key is stored outside of the loop over the keys")
			continue
		}
		r.ob(rule, inst+" address", w, isE(emailOf(a.op(u, 1))), "it is stored under %s", short2(a.op(u, 1)))
		r.ob(rule, inst+" key", w, isE(a.op(u, 2)), "stored is %s", short2(a.op(u, 2)))
		stores[u.Blk] = true
		for _, c := range []struct {
			what string
			good func(x *T) bool
		}{
			{"not revoked", is(revoked, false)},
			{"has an address", is(noMail, false)},
			{"newest", func(x *T) bool { return is(absent, true)(x) || is(newer, true)(x) }},
		} {
			path, ok := a.iterMust(l, c.good, u.Blk)
			r.ob(rule, inst+" "+c.what, w, ok, "it is stored without this test (%s): %s", c.what, a.pathString(path))
		}
	}
	// left out only with a reason
	body := l.Header
	path, found := a.explore(exploreOpts{
		start: &pst{b: body, env: map[int]int8{}},
		edge: func(q string, e Edge) (string, bool) {
			if stores[e.B] {
				return q, false
			}
			if q == "" && e.B == l.Header && !l.Blocks[e.To()] {
				return q, false
			}
			for _, x := range a.lits(e) {
				if is(revoked, true)(x) || is(noMail, true)(x) || is(newer, false)(x) {
					return q, false
				}
			}
			return "i", true
		},
		goal: func(s *pst) bool { return s.q == "i" && (s.b == l.Header || a.accepting(s)) },
	})
	r.ob(rule, name+": left out", a.f.where(ups[0]), !found, "a key is left out for no such reason: %s", a.pathString(path))
	// nothing but the subkeys changes
	for _, s := range a.stores {
		if s.i.Op != OpStore || s.addr.op != "fa" {
			continue
		}
		root := s.addr
		for root.op == "fa" || root.op == "ia" || isLoad(root) {
			if isE(root) {
				r.ob(rule, name+": unchanged at "+a.posOf(s.i), a.f.where(s.i), s.addr.op == "fa" && s.addr.aux == "Entity.Subkeys" && isE(s.addr.args[0]), "the key is changed: %s", short2(s.addr))
				break
			}
			root = root.args[0]
		}
	}
}

func outerID(l *Loop) int {
	if l == nil {
		return -1
	}
	return l.ID
}

// everyTimeOrFails: every iteration that does not leave the function with an error executes i.
func (a *Analysis) everyTimeOrFails(l *Loop, i *Ins) bool { return a.everyTime(l, i) }

// iterMust: within an iteration the block is reached only over an edge with such a condition.
func (a *Analysis) iterMust(l *Loop, good func(x *T) bool, b *Block) ([]*Block, bool) {
	path, found := a.explore(exploreOpts{
		start: &pst{b: l.Header, env: map[int]int8{}},
		edge: func(q string, e Edge) (string, bool) {
			if q != "" && e.To() == l.Header || !l.Blocks[e.To()] {
				return q, false
			}
			for _, x := range a.lits(e) {
				if good(x) {
					return q, false
				}
			}
			return "i", true
		},
		goal: func(s *pst) bool { return s.b == b },
	})
	return path, !found
}

func (r *Run) keysWritten(rule string, a *Analysis) {
	name := "lib/pgp.WriteKeysOnDisk"
	ents := a.p.app("param", a.paramName(1))
	encs := a.calls("(*encoding/gob.Encoder).Encode")
	sers := a.calls("(*" + openpgpPath + ".Entity).Serialize")
	if len(encs) != 1 || len(sers) != 1 {
		r.ob(rule, name, "", false, "keys are serialised at %d places and written at %d", len(sers), len(encs))
		return
	}
	enc, ser := encs[0], sers[0]
	l := a.innermost(enc.Blk)
	w := a.f.where(enc)
	r.ob(rule, name+": loop", w, l != nil && l == a.innermost(ser.Blk) && a.TripOf(l) == a.lenT(ents) && a.allIterations(l) && l.Parent == nil, "not every entity is visited once")
	if l == nil {
		return
	}
	// the file
	fileOK := false
	if e := a.term(enc).args[0]; callName(e) == "encoding/gob.NewEncoder" {
		x := e.args[0]
		if x.op == "x" && x.aux == "0" {
			c := x.args[0]
			switch callName(c) {
			case "os.Create":
				fileOK = true
			case "os.OpenFile":
				fl, ok := c.args[1].isC()
				fileOK = ok && fl&0x200 != 0 && fl&0x40 != 0 && fl&3 != 0 && fl&0x400 == 0
			}
		}
		r.ob(rule, name+": encoder", w, a.innermost(a.insOf[callID(e)].Blk) == nil, "an encoder is made for every key")
	}
	r.ob(rule, name+": file", w, fileOK, "the keys are not written to a file that is empty at first")
	// the entry
	obj := a.term(enc).args[1]
	if obj.op == "mi" || obj.op == "mkiface" {
		obj = obj.args[0]
	}
	id := a.fieldAt(obj, "Key.ID", enc)
	pkt := a.fieldAt(obj, "Key.Packet", enc)
	ent := a.term(ser).args[0]
	nx := func(t *T, k string) *T {
		if t != nil && t.op == "x" && t.aux == k && t.args[0].op == "next" && t.args[0].args[0] == ents {
			return t.args[0]
		}
		return nil
	}
	okID := nx(id, "1") != nil && nx(id, "1") == nx(ent, "2")
	if !okID && id != nil {
		// by a list of the keys of the map
		if m, key := entryOf(ent); m == ents && key == id && nx(id, "1") != nil {
			okID = true
		}
	}
	r.ob(rule, name+": address", w, okID, "what is written under %s is entity %s", short2(id), short2(ent))
	// the bytes: those of the buffer
	buf := a.term(ser).args[1]
	isBytes := func(t *T) bool {
		return t != nil && callName(t) == "(*bytes.Buffer).Bytes" && t.args[0] == buf
	}
	okP := isBytes(pkt)
	if pkt != nil && !okP {
		// a copy
		x := pkt
		if x.op == "cat" && len(x.args) == 2 && (x.args[0].op == "nil" || x.args[0].op == "obj") {
			x = x.args[1]
		}
		if callName(x) == "bytes.Clone" || callName(x) == "slices.Clone" {
			x = x.args[0]
		}
		okP = isBytes(x)
	}
	r.ob(rule, name+": bytes", w, okP, "written is %s", short2(pkt))
	// the buffer
	step := func(q string, b *Block) (string, string) {
		for _, i := range b.Ins {
			if i.Op == OpAlloc && a.term(i) == buf {
				q = "e"
				continue
			}
			if i.Op != OpCall {
				continue
			}
			touches := false
			for k := 0; k < nargs(i); k++ {
				touches = touches || a.arg(i, k) == buf
			}
			if !touches {
				continue
			}
			switch n := a.callee(i); {
			case i == ser:
				if q != "e" {
					return q, "the buffer holds something when the key is serialised into it"
				}
				q = "s"
			case n == "(*bytes.Buffer).Reset", n == "(*bytes.Buffer).Truncate" && a.arg(i, 1) == a.p.c(0):
				q = "e"
			case n == "(*bytes.Buffer).Bytes", n == "(*bytes.Buffer).Len":
				if q != "s" {
					return q, "the buffer does not hold the key when it is read"
				}
			case n == "(*bytes.Buffer).Cap", n == "(*bytes.Buffer).Grow":
			default:
				q = "x"
			}
		}
		return q, ""
	}
	bad := ""
	path, found := a.explore(exploreOpts{
		init: "x",
		edge: func(q string, e Edge) (string, bool) {
			q, _ = step(q, e.B)
			return q, true
		},
		goal: func(s *pst) bool {
			_, why := step(s.q, s.b)
			if why != "" {
				bad = why
				return true
			}
			return false
		},
	})
	r.ob(rule, name+": buffer", a.f.where(ser), !found, "%s: %s", bad, a.pathString(path))
	// the limit
	limit := r.p.pkgConstOr("lib/pgp", "keySizeLimit", 8192)
	size := func(t *T) bool {
		return callName(t) == "(*bytes.Buffer).Len" && t.args[0] == buf || t.op == "len" && isBytes(t.args[0])
	}
	over := func(x *T) *bool {
		neg := false
		if x.op == "!" {
			neg, x = true, x.args[0]
		}
		if x.op != "<0" {
			return nil
		}
		ts, co, c := parts(x.args[0])
		if len(ts) != 1 || !size(ts[0]) {
			return nil
		}
		var b bool
		switch {
		case co[0] == -1 && c == limit: // limit - size < 0
			b = true
		case co[0] == 1 && c == -limit-1: // size - limit - 1 < 0
			b = false
		default:
			return nil
		}
		b = b != neg
		return &b
	}
	pth, ok := a.iterMust(l, func(x *T) bool { v := over(x); return v != nil && !*v }, enc.Blk)
	r.ob(rule, name+": limit", w, ok, "a key above the limit may be written: %s", a.pathString(pth))
	pth, found = a.explore(exploreOpts{
		start: &pst{b: l.Header, env: map[int]int8{}},
		edge: func(q string, e Edge) (string, bool) {
			if e.B == enc.Blk || q == "" && !l.Blocks[e.To()] {
				return q, false
			}
			for _, x := range a.lits(e) {
				if v := over(x); v != nil && *v {
					return q, false
				}
			}
			return "i", true
		},
		goal: func(s *pst) bool { return s.q == "i" && (s.b == l.Header || a.accepting(s)) },
	})
	r.ob(rule, name+": all written", w, !found, "a key is left out that is not above the limit: %s", a.pathString(pth))
}

// pkgConstOr: the value of a constant if there is one of this name.
func (p *Program) pkgConstOr(pkg, name string, d int64) (v int64) {
	v = d
	defer func() { recover() }()
	if c := p.pkgConst(pkg, name); c != nil && c.IsInt64() {
		v = c.Int64()
	}
	return
}

func (r *Run) keysRead(rule string) {
	n := 0
	for _, fn := range r.p.productFuncs() {
		hit := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if ok && calleeName(c.Common()) == "(*encoding/gob.Decoder).Decode" {
					if v := argOf(c.Common(), 1); v != nil {
						if mi, ok := v.(*ssa.MakeInterface); ok {
							if nt := namedOf(mi.X.Type()); nt != nil && nt.Obj().Name() == "Key" && nt.Obj().Pkg().Path() == modPath+"/lib/pgp" {
								hit = true
							}
						}
					}
				}
			}
		}
		if !hit {
			continue
		}
		n++
		r.part(fnName(fn), func() { r.decodeLoop(rule, fn) })
	}
	r.ob(rule, "readers", "", n >= 1, "%d functions read keys", n)
	// all the files
	a := r.flat("lib/pgp.LoadKeysFromDisk")
	files := a.p.app("param", a.paramName(0))
	op := a.calls("os.Open")
	ok := len(op) == 1 && a.innermost(op[0].Blk) != nil
	if ok {
		l := a.innermost(op[0].Blk)
		ok = a.TripOf(l) == a.lenT(files) && a.allIterations(l) && a.everyTime(l, op[0]) && isElemOf(a.arg(op[0], 0), files, a.p.k(l.ID))
		dec := a.calls("(*encoding/gob.Decoder).Decode")
		for _, d := range dec {
			ok = ok && a.inLoop(d.Blk, l) && a.everyTime(l, d) == false || a.inLoop(d.Blk, l)
			nd := a.arg(d, 0)
			ok = ok && callName(nd) == "encoding/gob.NewDecoder" && nd.args[0].op == "x" && nd.args[0].args[0] == a.term(op[0])
		}
	}
	r.ob(rule, "lib/pgp.LoadKeysFromDisk: files", "", ok, "not every file is read")
}

func (r *Run) decodeLoop(rule string, fn *ssa.Function) {
	a := r.flatFn(fn, "read "+fnName(fn), func(f *ssa.Function) bool { return false })
	name := fnName(fn)
	for j, d := range a.calls("(*encoding/gob.Decoder).Decode") {
		obj := a.arg(d, 1)
		if obj.op != "obj" {
			continue
		}
		inst := fmt.Sprintf("%s: read %d", name, j+1)
		w := a.f.where(d)
		l := a.innermost(d.Blk)
		al := a.insOf[obj.aux]
		r.ob(rule, inst+" own object", w, l == nil || al != nil && a.innermost(al.Blk) == l, "every key is decoded into the same object")
		e, _ := a.errIns(d)
		if e == nil {
			r.ob(rule, inst+" error", w, false, "the error is dropped")
			continue
		}
		et := a.term(e)
		isEOF := func(x *T) bool {
			g := func(t *T) bool { return isLoad(t) && t.args[0].op == "global" && t.args[0].aux == "io.EOF" }
			same := func(t *T) bool {
				return t == et || t.op == "last" && len(t.args) == 1 && callName(t.args[0]) == callName(et) && callID(t.args[0]) == callID(et)
			}
			if x.op == "==" {
				return g(x.args[0]) && same(x.args[1]) || g(x.args[1]) && same(x.args[0])
			}
			return callName(x) == "errors.Is" && same(x.args[0]) && g(x.args[1])
		}
		path, found := a.explore(exploreOpts{
			start: &pst{b: d.Blk, env: map[int]int8{e.ID: fNon}},
			edge: func(q string, ed Edge) (string, bool) {
				for _, x := range a.lits(ed) {
					if isEOF(x) {
						return q, false
					}
				}
				return "i", true
			},
			goal: func(s *pst) bool { return s.q == "i" && s.b == d.Blk || s.q == "i" && a.silently(s, e) },
		})
		r.ob(rule, inst+" error", w, !found, "goes on after an error other than the end of the file: %s", a.pathString(path))
		// kept once
		kept := map[*Ins]bool{}
		for _, b := range a.rpo {
			for _, i := range b.Ins {
				if i.Op == OpBuiltin && i.Name == "append" {
					if t := a.term(i); t.op == "cat" && len(t.args) == 2 && t.args[1].op == "one" && len(t.args[1].args) == 1 && t.args[1].args[0] == obj {
						kept[i] = true
					}
				}
				if i.Op == OpCall && a.callee(i) == "(*encoding/gob.Encoder).Encode" && a.arg(i, 1) == obj {
					kept[i] = true
				}
			}
		}
		count := func(q string, b *Block) string {
			for _, i := range b.Ins {
				if kept[i] && (b != d.Blk || a.order[i] > a.order[d]) {
					q += "k"
				}
			}
			if len(q) > 2 {
				q = "kk"
			}
			return q
		}
		path, found = a.explore(exploreOpts{
			start: &pst{b: d.Blk, env: map[int]int8{e.ID: fNil}},
			edge: func(q string, ed Edge) (string, bool) {
				if q != "" && ed.B == d.Blk {
					return q, false
				}
				for _, x := range a.lits(ed) {
					if isEOF(x) {
						return q, false // there is no error here
					}
				}
				q = strings.TrimPrefix(q, "i")
				return "i" + count(q, ed.B), true
			},
			goal: func(s *pst) bool {
				if s.q == "" {
					return false
				}
				if s.b == d.Blk {
					return s.q != "ik"
				}
				return a.accepting(s) && "i"+count(s.q[1:], s.b) != "ik"
			},
		})
		r.ob(rule, inst+" kept", w, !found && len(kept) > 0, "a key that was read is not kept exactly once: %s", a.pathString(path))
		// the list returned is the one appended to
		for _, b := range a.acceptBlocks() {
			if len(b.Rets) != 2 {
				continue
			}
			seen := map[*Ins]bool{}
			ok, used := true, false
			var dfs func(x *Ins)
			dfs = func(x *Ins) {
				if seen[x] {
					return
				}
				seen[x] = true
				switch {
				case x.Op == OpPhi:
					for _, y := range x.Args {
						dfs(y)
					}
				case kept[x]:
					used = true
					dfs(x.Args[0])
				case x.Op == OpSlice, x.Op == OpMakeSlice, x.Op == OpConst:
					ok = ok && a.lenT(a.term(x)) == a.p.c(0)
				default:
					ok = false
				}
			}
			dfs(b.Rets[0])
			r.ob(rule, inst+" returned", a.f.whereB(b), ok && used, "the list returned is not that of the keys read")
		}
	}
}

// silently: the function ends without reporting the error.
func (a *Analysis) silently(s *pst, e *Ins) bool {
	if !a.accepting(s) {
		return false
	}
	for _, x := range s.b.Rets {
		if x == e {
			return false
		}
	}
	return true
}

func (r *Run) keyRequested(rule string, a *Analysis) {
	name := "lib/pgp.RecoverKeyFromBlock"
	block, email := a.p.app("param", a.paramName(0)), a.p.app("param", a.paramName(1))
	n := 0
	for _, b := range a.acceptBlocks() {
		for _, lf := range a.leaves(b.Rets[0], b) {
			if a.term(lf.v).op == "nil" {
				continue
			}
			n++
			inst := fmt.Sprintf("%s: return %d", name, n)
			v := a.at(lf.v, lf.b)
			if v.op == "last" {
				v = v.args[0]
			}
			// an entity of the block
			var list *T
			if isLoad(v) && v.args[0].op == "ia" {
				list = v.args[0].args[0]
			}
			from := list != nil && list.op == "x" && list.aux == "0" && callName(list.args[0]) == openpgpPath+".ReadKeyRing"
			if from {
				src := list.args[0].args[0]
				from = (callName(src) == "bytes.NewReader" || callName(src) == "bytes.NewBuffer") && src.args[0] == block
			}
			w := a.f.whereB(lf.b)
			r.ob(rule, inst+" from the block", w, from, "returned is %s", short2(v))
			if !from {
				continue
			}
			idx := v.args[0].args[1]
			if idx.op == "last" {
				idx = idx.args[0]
			}
			isV := func(t *T) bool {
				if t == nil || !isLoad(t) || t.args[0].op != "ia" || t.args[0].args[0] != list {
					return false
				}
				i := t.args[0].args[1]
				return i == idx || i.op == "k" && idx.op == "kend" && i.aux == idx.aux
			}
			mail := func(x, y *T) bool { return isV(emailOf(x)) && y == email }
			test := func(x *T) bool {
				if callName(x) == "strings.EqualFold" || x.op == "==" && len(x.args) == 2 {
					return mail(x.args[0], x.args[1]) || mail(x.args[1], x.args[0])
				}
				return false
			}
			start := a.f.Entry
			for _, l := range a.loops {
				if idx == a.p.k(l.ID) || idx.op == "kend" && idx.aux == a.p.k(l.ID).aux {
					start = l.Header
				}
			}
			path, found := a.explore(exploreOpts{
				start: &pst{b: start, env: map[int]int8{}},
				edge: func(q string, e Edge) (string, bool) {
					if e.To() == start {
						return q, false
					}
					for _, x := range a.lits(e) {
						if test(x) {
							return q, false
						}
					}
					return q, true
				},
				goal: func(s *pst) bool { return s.b == lf.b },
			})
			r.ob(rule, inst, w, !found, "it is returned without a test that its primary address is the one asked for: %s", a.pathString(path))
		}
	}
	r.ob(rule, name, "", n > 0, "no key is ever returned")
}

// keyUsed: clients show the key recovered for the address they asked for.
func (r *Run) keyUsed(rule string) {
	n := 0
	for _, fn := range r.p.productFuncs() {
		hit := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && calleeName(c.Common()) == full("lib/pgp.RecoverKeyFromBlock") {
					hit = true
				}
			}
		}
		if !hit {
			continue
		}
		// callers that also choose the index
		roots := []*ssa.Function{fn}
		for _, g := range roots {
			r.part(fnName(g), func() {
				a := r.flatFn(g, "use "+fnName(g), func(f *ssa.Function) bool { return strings.HasPrefix(fnPkgPath(f), modPath+"/lib/") })
				idx := a.calls("lib/database.HashToIndex")
				for _, c := range a.calls("lib/pgp.RecoverKeyFromBlock") {
					n++
					w := a.f.where(c)
					for _, h := range idx {
						r.ob(rule, fnName(g)+": address", w, a.arg(h, 0) == a.arg(c, 1), "the key recovered is that of %s, asked for was %s", short2(a.arg(c, 1)), short2(a.arg(h, 0)))
					}
					for _, x := range a.calls("lib/pgp.ArmorKey") {
						k := a.arg(x, 0)
						r.ob(rule, fnName(g)+": key", a.f.where(x), k.op == "x" && k.aux == "0" && k.args[0] == a.term(c), "the key shown is %s", short2(k))
					}
				}
			})
		}
	}
	r.ob(rule, "clients", "", n >= 1, "%d clients recover keys", n)
}

// primary: the primary address is that of the primary identity unless it has none.
func (r *Run) primary(rule string) {
	a := r.flat(primaryEmail)
	e := a.p.app("param", a.paramName(0))
	mailOf := func(t *T) *T {
		if !isLoad(t) || t.args[0].op != "fa" || !strings.HasSuffix(t.args[0].aux, "UserId.Email") {
			return nil
		}
		u := t.args[0].args[0]
		if isLoad(u) && u.args[0].op == "fa" && u.args[0].aux == "Identity.UserId" {
			return u.args[0].args[0]
		}
		return nil
	}
	isPrim := func(t *T) bool {
		x := mailOf(t)
		return x != nil && callName(x) == "(*"+openpgpPath+".Entity).PrimaryIdentity" && x.args[0] == e
	}
	n := 0
	for _, x := range a.accepts() {
		n++
		v := x.vals[0]
		low := callName(v) == "strings.ToLower"
		r.ob(rule, fmt.Sprintf("%s: lower case %d", primaryEmail, n), a.f.whereB(x.b), low, "the address is not lower-cased: %s", short2(v))
		if !low {
			continue
		}
		if isPrim(v.args[0]) {
			continue
		}
		ok := a.mustPassLit(func(l *T) bool {
			e := emptyStr(l)
			return e != nil && isPrim(e)
		}, x.b)
		r.ob(rule, fmt.Sprintf("%s: return %d", primaryEmail, n), a.f.whereB(x.b), ok, "another address is used although the primary identity may have one: %s", short2(v))
	}
	r.ob(rule, primaryEmail, "", n > 0, "no address is returned")
}

type leafT struct {
	v *Ins
	b *Block
}

// leaves: the values a merged value may stand for, each with the block it comes from.
func (a *Analysis) leaves(v *Ins, b *Block) (out []leafT) {
	seen := map[*Ins]bool{}
	var dfs func(v *Ins, b *Block)
	dfs = func(v *Ins, b *Block) {
		if v.Op != OpPhi {
			out = append(out, leafT{v, b})
			return
		}
		if seen[v] {
			return
		}
		seen[v] = true
		for k, x := range v.Args {
			dfs(x, v.Blk.Preds[k])
		}
	}
	dfs(v, b)
	return
}

// emptyStr: the string a literal says is empty.
func emptyStr(l *T) *T {
	if l.op == "==" && len(l.args) == 2 {
		for k := 0; k < 2; k++ {
			if l.args[k].op == "str" && l.args[k].aux == "" {
				return l.args[1-k]
			}
		}
	}
	if l.op == "<0" || l.op == "==0" {
		ts, co, c := parts(l.args[0])
		if len(ts) == 1 && ts[0].op == "len" && (l.op == "<0" && co[0] == 1 && c == -1 || l.op == "==0" && c == 0) {
			return ts[0].args[0]
		}
	}
	return nil
}
