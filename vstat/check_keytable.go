package main

// C08: the key table.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C08"] = checkC08
	assumptions["C08"] = []string{"all servers read the same files in the same order", "sort functions of the standard library sort by the comparison they are given", "two keys of a dump have different ids"}
}

const (
	loadKeys  = "lib/pgp.LoadKeysFromDisk"
	hashIndex = "lib/database.HashToIndex"
)

func checkC08(r *Run) {
	srt := r.rule("sorted", "the keys read are sorted by their id before anything else depends on their order")
	ord := r.rule("order", "the comparison orders keys by id")
	hsh := r.rule("hash", "the index of an id is made from the id alone and is below the number of blocks")
	bkt := r.rule("bucket", "every key is appended to the bucket its id hashes to over the number of blocks of the table")
	blk := r.rule("block", "every non-empty bucket becomes the block of its own index, padded; no other order reaches the table")
	pos := r.rule("position", "the blocks are stored in order of their indices, each with its own length")
	row := r.rule("record", "the predicate database has one record per key, in order, made from that key, and counts them")
	cli := r.rule("client-index", "clients look up the index the id hashes to over rows times columns of the metadata, and look for the key of that id in the block")
	wir := r.rule("client-bytes", "the index is sent and decoded as four bytes, big-endian")

	r.part("HashToIndex", func() {
		a := r.flat(hashIndex)
		p := a.p
		id, n := p.app("param", a.paramName(0)), p.app("param", a.paramName(1))
		k := 0
		for _, e := range a.accepts() {
			k++
			v := e.vals[0]
			for v.op == "conv" {
				v = v.args[0]
			}
			ok := v.op == "%" && v.args[1] == n && !hasAtom(v.args[0], n)
			r.ob(hsh, "range", a.f.whereB(e.b), ok, "the index is %s", short(v))
			if !ok {
				continue
			}
			// made of bytes of one hash of the id
			ofID := func(x *T) bool {
				return x != nil && x.op == "call" && strings.Contains(callName(x), "Sum") && len(x.args) == 1 && x.args[0].op == "conv" && x.args[0].args[0] == id
			}
			good := true
			var src *T
			var bytes func(b *T)
			bytes = func(b *T) {
				switch b.op {
				case "be", "le", "+", "*", "|", "^", "<<", ">>", "conv", "poly", "&":
					for _, x := range b.args {
						bytes(x)
					}
					return
				case "idx":
					_, c := b.args[1].isC()
					if c && ofID(b.args[0]) {
						src = b.args[0]
						return
					}
				case "mem", "at", "ld":
					if b.args[0].op == "ia" {
						if _, c := b.args[0].args[1].isC(); c {
							return
						}
					}
				default:
					if _, c := b.isC(); c {
						return
					}
					if ts, _, _ := parts(b); len(ts) > 0 && ts[0] != b {
						for _, x := range ts {
							bytes(x)
						}
						return
					}
				}
				good = false
			}
			bytes(v.args[0])
			walkT(v.args[0], func(t *T) bool {
				if t.op == "obj" {
					for _, s := range a.byRoot[rootKey(t)] {
						src = a.StoreVal(s)
						if ofID(src) {
							continue
						}
						good = false
					}
				}
				if t.op == "ld" || t.op == "global" || t.op == "recv" || t.op == "next" {
					good = false
				}
				return true
			})
			r.ob(hsh, "id", a.f.whereB(e.b), good && src != nil, "the index is made from %s (%s)", short(v.args[0]), short2(src))
		}
		r.ob(hsh, "reached", "", k > 0, "no index")
	})

	for _, name := range []string{"GenerateRealKeyBytes", "GenerateRealKeyMerkle"} {
		name := name
		r.part(name, func() {
			full := "lib/database." + name
			a := r.flat(full, loadKeys, hashIndex, "lib/merkle.New", "lib/merkle.MerkleTree.GenerateProofForIndex", "lib/merkle.EncodeProof", "lib/merkle.MerkleTree.EncodedProofLength", "lib/database.CalculateNumRowsAndColumns")
			r.keyTable(a, name, srt, ord, bkt, blk, pos)
		})
	}
	r.part("GenerateRealKeyDB", func() {
		a := r.flat("lib/database.GenerateRealKeyDB", loadKeys)
		p := a.p
		keys := r.sortedKeys(a, "GenerateRealKeyDB", srt, ord)
		if keys == nil {
			return
		}
		n := 0
		for _, e := range a.accepts() {
			if e.vals[0].op == "nil" {
				continue
			}
			n++
			end, w := a.endOf(e.b), a.f.whereB(e.b)
			s := a.fieldStream(e.vals[0], "DB.KeysInfo", end)
			ok := len(s.loops) == 1 && !s.bytes && a.TripOf(s.loops[0]) == a.lenT(keys)
			r.ob(row, "one per key", w, ok, "records are %s %s", short2(s.leaf), s.why)
			if ok {
				l := s.loops[0]
				// made from key k
				el := p.app("ia", "", keys, p.k(l.ID))
				for _, f := range []string{"UserId", "CreationTime", "PubKeyAlgo"} {
					v := a.fieldAt(s.leaf, "KeyInfo."+f, a.endOf(l.Latches[0]))
					src, others := false, false
					walkT(v, func(t *T) bool {
						if t.op == "ia" && t.args[0] == keys {
							src = src || t == el
							others = others || t != el
							return false
						}
						return true
					})
					src = src || a.mentions(v, el)
					ld := isLoad(v) && v.args[0].op == "fa" && strings.HasSuffix(v.args[0].aux, "."+f)
					r.ob(row, f, w, src && !others && ld, "the record's %s is %s", f, short(v))
				}
			}
			info := p.app("fa", "DB.Info", e.vals[0])
			r.ob(row, "count", w, a.fieldAt(info, "Info.NumColumns", end) == a.lenT(keys), "the database announces %s records", short(a.fieldAt(info, "Info.NumColumns", end)))
		}
		r.ob(row, "reached", "", n > 0, "no database")
	})

	// clients
	hashes, queries := 0, 0
	for _, fn := range r.clientQueryRoots() {
		fn := fn
		r.part(fnName(fn), func() {
			a := r.flatFn(fn, "c08 "+fnName(fn), func(f *ssa.Function) bool {
				return fnPkgPath(f) == modPath+"/lib/client" || fnName(f) == hashIndex || fnName(f) == "lib/pgp.RecoverKeyFromBlock" || hasSuffix(fnName(f), "Encode") && fnPkgPath(f) == modPath+"/lib/query"
			})
			p := a.p
			var hs []*T
			for _, i := range a.calls(hashIndex) {
				hashes++
				hs = append(hs, a.term(i))
				ms, c := monos(a.arg(i, 1))
				ok := c == 0 && len(ms) == 1 && ms[0].co == 1 && len(ms[0].at) == 2
				if ok {
					x, y := ms[0].at[0], ms[0].at[1]
					bx, by := fieldLoadOf(x, "Info.NumRows"), fieldLoadOf(y, "Info.NumColumns")
					if bx == nil {
						bx, by = fieldLoadOf(y, "Info.NumRows"), fieldLoadOf(x, "Info.NumColumns")
					}
					if bx == nil {
						bx, by = responseOf(x, "NumRows"), responseOf(y, "NumColumns")
						if bx == nil {
							bx, by = responseOf(y, "NumRows"), responseOf(x, "NumColumns")
						}
					}
					ok = bx != nil && bx == by
				}
				r.ob(cli, fnName(fn), a.f.where(i), ok, "the id is hashed over %s", short(a.arg(i, 1)))
			}
			// the key looked for in the block is that of the id that was hashed
			for _, i := range a.calls("lib/pgp.RecoverKeyFromBlock") {
				ok := false
				var ids []*T
				for _, h := range a.calls(hashIndex) {
					ids = append(ids, a.arg(h, 0))
					ok = ok || a.arg(h, 0) == a.arg(i, 1)
				}
				r.ob(cli, fnName(fn)+" id", a.f.where(i), ok, "the key of %s is looked for in the bucket of %s", short(a.arg(i, 1)), shorts(ids))
			}
			for _, b := range a.rpo {
				for _, i := range b.Ins {
					if i.Op != OpCall {
						continue
					}
					nm := a.callee(i)
					if !strings.HasSuffix(nm, ".QueryBytes") || !strings.Contains(nm, "lib/client.") {
						continue
					}
					k := 1
					in := a.arg(i, k)
					if callName(in) != "" && in.op == "x" || in.op == "x" && in.args[0].op == "call" {
						if strings.HasSuffix(callName(in.args[0]), ".Encode") {
							continue
						}
					}
					queries++
					ok := false
					var got []*T
					for q := 0; q < 4; q++ {
						got = append(got, a.elemAt(in, p.c(int64(q)), i))
					}
					for _, h := range hs {
						good := true
						for q := range got {
							good = good && got[q] == p.app("byteof", "", h, p.c(int64(3-q)))
						}
						ok = ok || good
					}
					ok = ok && isConst(a.lenT(in), 4)
					r.ob(wir, fnName(fn), a.f.where(i), ok, "the bytes queried are %s, the indices hashed %s", short2(got[0]), shorts(hs))
				}
			}
		})
	}
	r.ob(cli, "clients", "", hashes >= 2, "%d clients hash an id", hashes)
	r.ob(wir, "clients", "", queries >= 2, "%d clients query an index", queries)
	r.part("PIR.QueryBytes", func() {
		a := r.flat("lib/client.PIR.QueryBytes", "lib/client.PIR.Query")
		p := a.p
		in := p.app("param", a.paramName(1))
		n := 0
		for _, i := range a.calls("(*lib/client.PIR).Query") {
			n++
			ix := a.arg(i, 1)
			ok := ix.op == "be" && len(ix.args) == 4
			for k := 0; ok && k < 4; k++ {
				ok = ix.args[k] == p.app("ld", "", p.app("ia", "", in, p.c(int64(k))))
			}
			r.ob(wir, "decode", a.f.where(i), ok, "the index is decoded as %s", short(ix))
		}
		r.ob(wir, "decoded", "", n > 0, "no query")
	})
}

func shorts(ts []*T) string {
	var s []string
	for _, t := range ts {
		s = append(s, short2(t))
	}
	return strings.Join(s, ", ")
}

// clientQueryRoots: client programs and handlers that make queries from bytes.
func (r *Run) clientQueryRoots() []*ssa.Function {
	set := r.p.funcSet(ctorNames...)
	var fs []*ssa.Function
	for _, fn := range r.p.clientRoots(func(f *ssa.Function) bool { return set[f] }) {
		if !strings.Contains(fnPkgPath(fn), "simulations") {
			fs = append(fs, fn)
		}
	}
	return fs
}

// mentions: the value of the term comes from the address, directly or through what calls return.
func (a *Analysis) mentions(v, el *T) bool {
	found := false
	seen := map[*T]bool{}
	var rec func(t *T)
	rec = func(t *T) {
		if seen[t] || found {
			return
		}
		seen[t] = true
		if t == el {
			found = true
			return
		}
		if t.op == "obj" {
			for _, s := range a.byRoot[rootKey(t)] {
				if s.i.Op == OpStore {
					rec(a.StoreVal(s))
				}
			}
		}
		for _, x := range t.args {
			rec(x)
		}
	}
	rec(v)
	return found
}

// fieldStream: the list in a field of an object, also if it is appended to in place.
func (a *Analysis) fieldStream(ptr *T, field string, at *Ins) stream {
	addr := a.p.app("fa", field, ptr)
	var init, app *store
	n := 0
	for _, s := range a.byRoot[rootKey(addr)] {
		sa := a.storeAddr(s)
		if s.i.Op != OpStore || sa != addr {
			continue
		}
		n++
		v := a.StoreVal(s)
		ps := flattenCat(v, nil)
		if len(ps) >= 2 && (ps[0].op == "mem" || ps[0].op == "ld" || ps[0].op == "at") && ps[0].args[0] == addr {
			app = s
			continue
		}
		init = s
	}
	if app == nil {
		v := a.resolve(addr, at)
		return a.streamOf(v, at)
	}
	if n > 2 || init != nil && !a.lenT(a.StoreVal(init)).isZero() || init != nil && !a.Dom(init.i.Blk, app.i.Blk) {
		return stream{why: "the list is set at several places"}
	}
	l := a.loopOf[app.i.Blk]
	if l == nil || !a.allIterations(l) || init != nil && a.inLoop(init.i.Blk, l) {
		return stream{why: "it is not appended to in every iteration"}
	}
	ps := flattenCat(a.StoreVal(app), nil)[1:]
	for len(ps) > 1 {
		ps = append([]*T{a.p.app("cat", "", ps[0], ps[1])}, ps[2:]...)
	}
	if !a.everyTime(l, app.i) && (ps[0].op == "one" || !a.unlessEmpty(l, app.i, ps[0])) {
		return stream{why: "it is not appended to in every iteration"}
	}
	if ps[0].op == "one" {
		return stream{loops: []*Loop{l}, leaf: ps[0].args[0]}
	}
	return stream{loops: []*Loop{l}, leaf: ps[0], bytes: true}
}

func (a *Analysis) inLoop(b *Block, l *Loop) bool {
	for _, x := range a.loopsOf(b) {
		if x == l {
			return true
		}
	}
	return false
}

// sortedKeys: the list of keys read, if it is sorted by id before it is used.
func (r *Run) sortedKeys(a *Analysis, name, srt, ord string) *T {
	loads := a.calls(loadKeys)
	if !r.ob(srt, name+" read", "", len(loads) == 1, "the keys are read %d times", len(loads)) {
		return nil
	}
	keys := a.p.app("x", "0", a.term(loads[0]))
	var sorts []*Ins
	for _, b := range a.rpo {
		for _, i := range b.Ins {
			if i.Op != OpCall {
				continue
			}
			switch a.callee(i) {
			case "sort.Slice", "sort.SliceStable", "sort.Sort", "sort.Stable":
				if containsTerm(a.arg(i, 0), keys) {
					sorts = append(sorts, i)
				}
			}
		}
	}
	if !r.ob(srt, name+" sorted", a.f.where(loads[0]), len(sorts) == 1, "the keys read are sorted at %d places", len(sorts)) {
		return nil
	}
	s := sorts[0]
	r.ob(srt, name+" always", a.f.where(s), a.loopOf[s.Blk] == nil && a.everyAccept(s), "the keys are not always sorted")
	// before any use of an element
	var early *Ins
	for _, b := range a.rpo {
		for _, i := range b.Ins {
			if (i.Op == OpLoad || i.Op == OpCall) && i != s && i != loads[0] && !a.Dom(s.Blk, b) {
				t := a.term(i)
				if t != nil && a.usesElem(t, keys) {
					early = i
				}
			}
			if i.Op == OpLoad && b == s.Blk && a.order[i] < a.order[s] && a.usesElem(a.term(i), keys) {
				early = i
			}
		}
	}
	w := a.f.where(s)
	if early != nil {
		w = a.f.where(early)
	}
	r.ob(srt, name+" first", w, early == nil, "a key is used before the keys are sorted")
	// nothing reorders them afterwards
	var st *store
	for _, x := range a.stores {
		if x.addr != nil && x.addr.op == "ia" && x.addr.args[0] == keys {
			st = x
		}
	}
	r.ob(srt, name+" stays", w, st == nil, "keys are moved after they are sorted")
	// the comparison
	fn := a.lessOf(s)
	if !r.ob(ord, name+" comparison", a.f.where(s), fn != nil, "the comparison is not a function of the repository") {
		return keys
	}
	c := r.flatFn(fn, "less "+fnName(fn), nil)
	np := len(fn.Params)
	if np < 2 {
		r.ob(ord, name+" comparison", a.f.where(s), false, "the comparison has %d parameters", np)
		return keys
	}
	pi, pj := c.p.app("param", fn.Params[np-2].Name()), c.p.app("param", fn.Params[np-1].Name())
	idOf := func(t, ix *T) *T {
		b := fieldLoadOf(t, "Key.ID")
		if b == nil || b.op != "ld" && b.op != "mem" || b.args[0].op != "ia" || b.args[0].args[1] != ix {
			return nil
		}
		return b.args[0].args[0]
	}
	dir := 0
	n := 0
	for _, e := range c.accepts() {
		v := e.vals[0]
		n++
		var d int
		x, y := v, v
		neg := false
		if v.op == "!" {
			v, neg = v.args[0], true
		}
		switch {
		case (v.op == ">" || v.op == "<") && len(v.args) == 2 && !neg:
			x, y = v.args[0], v.args[1]
			d = 1
			if v.op == "<" {
				d = -1
			}
		case v.op == "<0" && !neg:
			ts, co, k := parts(v.args[0])
			if len(ts) == 1 && k == 0 && callName(ts[0]) == "strings.Compare" && (co[0] == 1 || co[0] == -1) {
				x, y = ts[0].args[0], ts[0].args[1]
				d = -int(co[0])
			}
		}
		if d != 0 {
			bi, bj := idOf(x, pi), idOf(y, pj)
			if bi == nil || bj == nil {
				bi, bj = idOf(x, pj), idOf(y, pi)
				d = -d
			}
			if bi == nil || bi != bj {
				d = 0
			}
		}
		if d == 0 || dir != 0 && d != dir {
			// only where the ids are equal
			path, ok := c.mustPass(func(ed Edge) bool {
				for _, lit := range c.lits(ed) {
					if lit.op == "==" && (idOf(lit.args[0], pi) != nil && idOf(lit.args[1], pj) != nil || idOf(lit.args[1], pi) != nil && idOf(lit.args[0], pj) != nil) {
						return true
					}
				}
				return false
			}, c.goalAt(e.b))
			_ = path
			r.ob(ord, name+" tie", c.f.whereB(e.b), ok, "keys are ordered by %s", short(e.vals[0]))
			continue
		}
		dir = d
		r.ob(ord, name, c.f.whereB(e.b), true, "")
	}
	r.ob(ord, name+" by id", a.f.where(s), dir != 0, "no path of the comparison orders by id")
	return keys
}

func (a *Analysis) everyAccept(i *Ins) bool {
	for _, e := range a.accepts() {
		if e.vals[0].op == "nil" {
			continue
		}
		if !a.Dom(i.Blk, e.b) {
			return false
		}
	}
	return true
}

// usesElem: the term is, or is read through, an element of the list.
func (a *Analysis) usesElem(t, list *T) bool {
	found := false
	walkT(t, func(x *T) bool {
		if (x.op == "ld" || x.op == "mem" || x.op == "at") && len(x.args) > 0 && x.args[0].op == "ia" && x.args[0].args[0] == list {
			found = true
		}
		return !found
	})
	return found
}

// lessOf: the comparison function of a call of sort.Slice or sort.Sort.
func (a *Analysis) lessOf(s *Ins) *ssa.Function {
	if strings.HasPrefix(a.callee(s), "sort.Slice") {
		f := a.arg(s, 1)
		if f.op == "closure" || f.op == "func" {
			return a.f.P.fnByName(f.aux)
		}
		return nil
	}
	if len(s.Args) < 2 {
		return nil
	}
	t := s.Args[1].Typ
	if s.Args[1].Op == OpMakeIface {
		t = s.Args[1].Args[0].Typ
	}
	if n := namedOf(t); n != nil {
		return a.f.P.method(n, "Less")
	}
	// the conversion is not kept: the one type of this form with a comparison
	var r *ssa.Function
	for _, f := range a.f.P.Funcs {
		rv := f.Signature.Recv()
		if f.Name() != "Less" || rv == nil || !types.Identical(rv.Type().Underlying(), t.Underlying()) {
			continue
		}
		if r != nil && r != f {
			return nil
		}
		r = f
	}
	return r
}

func isElemOf(t, list, k *T) bool {
	return (t.op == "mem" || t.op == "ld" || t.op == "at") && t.args[0].op == "ia" && t.args[0].args[0] == list && t.args[0].args[1] == k
}

func (r *Run) keyTable(a *Analysis, name, srt, ord, bkt, blk, pos string) {
	p := a.p
	keys := r.sortedKeys(a, name, srt, ord)
	if keys == nil {
		return
	}
	n := 0
	for _, e := range a.accepts() {
		if e.vals[0].op == "nil" {
			continue
		}
		n++
		end, w := a.endOf(e.b), a.f.whereB(e.b)
		info := p.app("fa", "Bytes.Info", e.vals[0])
		size := p.mul(a.fieldAt(info, "Info.NumRows", end), a.fieldAt(info, "Info.NumColumns", end))
		s := a.fieldStream(e.vals[0], "Bytes.Entries", end)
		if !r.ob(pos, name+" in order", w, len(s.loops) > 0 && len(s.loops) <= 2 && s.bytes, "the blocks are not appended one after the other: %s", s.why) {
			continue
		}
		in := s.loops[len(s.loops)-1]
		leaf := flattenCat(s.leaf, nil)[0]
		var list, ix *T
		if (leaf.op == "mem" || leaf.op == "ld" || leaf.op == "at") && leaf.args[0].op == "ia" {
			list, ix = leaf.args[0].args[0], leaf.args[0].args[1]
			for list.op == "sl" {
				ix = p.add(ix, list.args[1])
				list = list.args[0]
			}
		}
		var from *T // the map the blocks are directly taken from
		if list == nil {
			x := leaf
			if x.op == "ite" && x.args[0].op == "has" && a.lenT(x.args[2]).isZero() {
				x = x.args[1]
			}
			if y := padded(x); y != nil && (y.op == "mem" || y.op == "ld") && y.args[0].op == "mi" && (leaf == x || leaf.args[0].args[0] == y.args[0].args[0] && leaf.args[0].args[1] == y.args[0].args[1]) {
				from, ix = y.args[0].args[0], y.args[0].args[1]
			}
		}
		if !r.ob(pos, name+" blocks", w, from != nil || list != nil && list.op == "obj", "what is appended is %s", short(leaf)) {
			continue
		}
		tr := a.TripOf(in)
		if len(s.loops) == 1 {
			r.ob(pos, name+" all", w, ix == p.k(in.ID) && tr == size, "blocks %s of %s are stored", short(ix), short(tr))
		} else {
			begin := p.sub(ix, p.k(in.ID))
			ok := !hasAtom(begin, p.k(in.ID)) && a.consecutive(s.loops[0], begin, tr, size)
			r.ob(pos, name+" all", w, ok, "the routines store blocks from %s, %s of them", begin, tr)
		}
		r.ob(pos, name+" number", w, from != nil || a.lenT(list) == size, "the table has another number of blocks than the %s announced", short(size))
		// lengths
		lens := a.fieldAt(info, "Info.BlockLengths", end)
		k := 0
		for _, st := range a.byRoot[rootKey(lens)] {
			sa := a.storeAddr(st)
			if sa == nil || sa.op != "ia" || sa.args[0] != lens {
				continue
			}
			k++
			l := a.loopOf[st.i.Blk]
			ok := l != nil && a.allIterations(l) && a.TripOf(l) == size && sa.args[1] == p.k(l.ID)
			if v := a.StoreVal(st); ok && !a.everyTime(l, st.i) {
				ok = v.op == "len" && lens.op == "obj" && a.unlessEmpty(l, st.i, v.args[0])
			}
			r.ob(pos, name+" every length", a.f.where(st.i), ok, "the length of block %s is set", short(sa.args[1]))
			if !ok {
				continue
			}
			got := a.StoreVal(st)
			extra := p.sub(got, p.c(0))
			found := false
			if from != nil {
				lt := a.lenT(p.subst(leaf, map[*T]*T{ix: p.k(l.ID)}))
				extra, found = p.sub(got, lt), true
			}
			walkT(got, func(t *T) bool {
				if from == nil && t.op == "len" && isElemOf(t.args[0], list, p.k(l.ID)) {
					extra, found = p.sub(got, t), true
				}
				return true
			})
			want := p.c(0)
			ps := flattenCat(s.leaf, nil)
			if len(ps) > 1 { // followed by the proof and its padding
				want = p.add(a.fieldAt(a.resolve(p.app("fa", "Info.Merkle", info), end), "Merkle.ProofLen", end), p.c(1))
				found = found && len(ps) == 3 && callName(ps[1]) == "github.com/si-co/vpir-code/lib/merkle.EncodeProof" && ps[2].op == "one"
			}
			r.ob(pos, name+" length", a.f.where(st.i), found && extra == want, "the length announced is %s, the blocks have their own and %s", short(got), short(want))
		}
		r.ob(pos, name+" lengths", w, k == 1, "%d places set the lengths", k)
		r.bucketsOf(a, name, list, from, keys, size, bkt, blk)
	}
	r.ob(pos, name+" reached", "", n > 0, "no database")
}

// bucketsOf: how the list of blocks is filled from the keys.
func (r *Run) bucketsOf(a *Analysis, name string, list, from, keys, size *T, bkt, blk string) {
	p := a.p
	var buckets []store // the places that fill buckets: of a map, or of the list itself
	pads := 0
	maps := map[*T]bool{}
	var sts []*store
	if from != nil {
		maps[from] = true
		pads = 1
	} else {
		sts = a.byRoot[rootKey(list)]
	}
	for _, st := range sts {
		sa := a.storeAddr(st)
		w := a.f.where(st.i)
		if st.i.Op != OpStore || sa == nil || sa.op != "ia" || sa.args[0] != list {
			r.ob(blk, name, w, false, "the blocks are changed")
			continue
		}
		v := a.StoreVal(st)
		x := padded(v)
		if x == nil {
			buckets = append(buckets, *st)
			continue
		}
		pads++
		l := a.loopOf[st.i.Blk]
		if !r.ob(blk, name+" loop", w, l != nil && a.allIterations(l), "not every bucket becomes a block") {
			continue
		}
		ix := sa.args[1]
		switch {
		case x.op == "x" && x.aux == "2" && x.args[0].op == "next":
			// ranging over the map
			maps[x.args[0].args[0]] = true
			ok := ix.op == "x" && ix.aux == "1" && ix.args[0] == x.args[0] && a.everyTime(l, st.i)
			r.ob(blk, name+" index", w, ok, "the bucket of an index becomes block %s", short(ix))
		case (x.op == "mem" || x.op == "ld") && x.args[0].op == "mi":
			m := x.args[0].args[0]
			maps[m] = true
			ok := ix == x.args[0].args[1] && ix == p.k(l.ID) && a.TripOf(l) == size && a.unlessEmpty(l, st.i, x)
			r.ob(blk, name+" index", w, ok, "bucket %s becomes block %s", short(x.args[0].args[1]), short(ix))
		case isElemOf(x, list, ix):
			ok := ix == p.k(l.ID) && a.TripOf(l) == size && a.unlessEmpty(l, st.i, x)
			r.ob(blk, name+" index", w, ok, "bucket %s is padded", short(ix))
		default:
			r.ob(blk, name+" bucket", w, false, "block %s is %s", short(ix), short(v))
		}
	}
	r.ob(blk, name+" filled", "", pads == 1 && len(maps)+len(buckets) == 1, "%d places make blocks of buckets of %d tables", pads, len(maps)+len(buckets))
	for m := range maps {
		for _, st := range a.byRoot[rootKey(m)] {
			buckets = append(buckets, *st)
		}
	}
	for _, st := range buckets {
		st := st
		sa := a.storeAddr(&st)
		w := a.f.where(st.i)
		l := a.loopOf[st.i.Blk]
		if !r.ob(bkt, name+" every key", w, l != nil && sa != nil && a.allIterations(l) && a.everyTime(l, st.i) && a.TripOf(l) == a.lenT(keys), "not every key gets into its bucket") {
			continue
		}
		k := p.k(l.ID)
		h := sa.args[len(sa.args)-1]
		for h.op == "conv" {
			h = h.args[0]
		}
		key := func(t *T, f string) bool {
			b := fieldLoadOf(t, "Key."+f)
			return b != nil && (isElemOf(b, keys, k) || isElemOf(b, keys, p.sub(p.sub(a.TripOf(l), p.c(1)), k)))
		}
		ok := callName(h) == full(hashIndex) && len(h.args) >= 2
		r.ob(bkt, name+" id", w, ok && key(h.args[0], "ID"), "a key is put in bucket %s", short(h))
		r.ob(bkt, name+" size", w, ok && h.args[1] == size, "the bucket is chosen by %s, the table has %s", short(h), short(size))
		v := a.StoreVal(&st)
		ps := flattenCat(v, nil)
		same := false
		for q := 0; q < 2 && len(ps) == 2; q++ {
			same = same || (ps[q].op == "mem" || ps[q].op == "ld") && ps[q].args[0] == sa && key(ps[1-q], "Packet")
		}
		r.ob(bkt, name+" appended", w, same, "a bucket becomes %s", short(v))
	}
	r.ob(bkt, name+" filled", "", len(buckets) == 1, "%d places fill buckets", len(buckets))
}

// unlessEmpty: every iteration that goes on makes the store, unless the value is empty or absent.
func (a *Analysis) unlessEmpty(l *Loop, i *Ins, x *T) bool {
	if a.everyTime(l, i) {
		return true
	}
	// without the edges that say so, the store is always made
	seen := map[*Block]bool{l.Header: true}
	todo := []*Block{l.Header}
	for len(todo) > 0 {
		b := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if b == i.Blk {
			continue
		}
		for k := range b.Succs {
			e := Edge{b, k}
			ex := false
			for _, lit := range a.lits(e) {
				if lit.op == "==0" && lit.args[0].op == "len" && lit.args[0].args[0] == x || lit.op == "!" && lit.args[0].op == "has" && x.args != nil && lit.args[0].args[1] == x.args[0].args[len(x.args[0].args)-1] || lit.op == "==" && (lit.args[0] == x || lit.args[1] == x) && (lit.args[0].op == "nil" || lit.args[1].op == "nil") {
					ex = true
				}
			}
			if ex {
				continue
			}
			if e.To() == l.Header {
				return false
			}
			if !seen[e.To()] && a.inLoop(e.To(), l) {
				seen[e.To()] = true
				todo = append(todo, e.To())
			}
		}
	}
	return true
}

func (p *Program) fnByName(name string) *ssa.Function {
	for _, f := range p.Funcs {
		if fnName(f) == name || fnName(f) == modPath+"/"+name || full(f.String()) == full(name) {
			return f
		}
	}
	return nil
}

func (p *Program) method(t types.Type, name string) *ssa.Function {
	for _, ty := range []types.Type{t, types.NewPointer(t)} {
		ms := p.SSA.MethodSets.MethodSet(ty)
		for k := 0; k < ms.Len(); k++ {
			if s := ms.At(k); s.Obj().Name() == name {
				return p.SSA.MethodValue(s)
			}
		}
	}
	return nil
}

// padded: what is followed by the padding byte.
func padded(t *T) *T {
	ps := flattenCat(t, nil)
	if len(ps) != 2 || ps[1].op != "one" || !isConst(ps[1].args[0], 128) {
		return nil
	}
	return ps[0]
}
