package main

import "strings"

// A06: Merkle tree, proofs and the databases that carry them.

func init() {
	checks["A06"] = checkA06
	assumptions["A06"] = []string{"the hash is collision resistant; trees have at most 2^31 leaves"}
}

// phiOf: the header phi of loop l that a term names.
func (a *Analysis) phiOf(l *Loop, t *T) *Ins {
	if t.op != "phi" {
		return nil
	}
	for _, x := range l.Header.phis() {
		if t.aux == itoa(x.ID) {
			return x
		}
	}
	return nil
}

// initOf: the value a header phi has when the loop is entered.
func (a *Analysis) initOf(l *Loop, ph *Ins) *T {
	var r *T
	for q, b := range l.Header.Preds {
		if l.Blocks[b] {
			continue
		}
		t := a.at(ph.Args[q], b)
		if r != nil && r != t {
			return nil
		}
		r = t
	}
	return r
}

// nextOf: the value a header phi gets at the end of an iteration.
func (a *Analysis) nextOf(l *Loop, ph *Ins) *T {
	var r *T
	for q, b := range l.Header.Preds {
		if !l.Blocks[b] {
			continue
		}
		t := a.at(ph.Args[q], b)
		if r != nil && r != t {
			return nil
		}
		r = t
	}
	return r
}

// hash2: the two inputs of a hash of the tree.
func hash2(t *T) (x, y *T) {
	switch callName(t) {
	case full("(*lib/merkle.BLAKE3).Hash"), full("(lib/merkle.HashType).Hash"):
		return t.args[1], t.args[2]
	}
	return nil, nil
}

func checkA06(r *Run) {
	ver := r.rule("verifier", "verification succeeds only if the root equals the hash folded from hash(data, position) over all hashes of the proof, left or right by the bits of the position")
	tree := r.rule("tree", "leaves hash the data and its position, every inner node hashes its left then its right child, children before parents, for all nodes")
	prf := r.rule("proof", "the proof of a position lists the siblings from its leaf up to below the root")
	hsh := r.rule("hash", "hashing two parts starts afresh and absorbs both parts in order")
	bld := r.rule("builder", "every block of a database is followed by the proof of its own position in the tree of exactly these blocks")
	inf := r.rule("published", "the database publishes root and proof length of the tree its proofs are from")
	const H = "lib/merkle.BLAKE3.Hash"

	r.part("Hash", func() {
		a := r.flat(H)
		for _, e := range a.accepts() {
			in := a.hashWrites(e.vals[0])
			ok := len(in) == 3 && in[0] == nil && in[1] == a.p.app("param", "a") && in[2] == a.p.app("param", "b")
			if !ok && len(in) == 3 && in[0] == nil { // parameters by position
				ok = in[1].op == "param" && in[2].op == "param" && in[1].aux == a.paramName(1) && in[2].aux == a.paramName(2)
			}
			r.ob(hsh, "Hash", a.f.whereB(e.b), ok, "the hash returned is not one of both parts in order: %v", in)
		}
	})

	r.part("VerifyProof", func() {
		a := r.flat("lib/merkle.VerifyProof", H)
		p := a.p
		data, proof, root := p.app("param", a.paramName(0)), p.app("param", a.paramName(1)), p.app("param", a.paramName(2))
		hashes := p.app("ld", "", p.app("fa", "Proof.Hashes", proof))
		index := p.app("ld", "", p.app("fa", "Proof.Index", proof))
		var tops []*T
		eq := func(l *T) bool {
			x, y := equalLit(p, l)
			if x == nil {
				return false
			}
			if x != root {
				x, y = y, x
			}
			if x != root {
				return false
			}
			if !contains(tops, y) {
				tops = append(tops, y)
			}
			return true
		}
		n := 0
		for _, b := range a.acceptBlocks() {
			v := a.at(b.Rets[0], b)
			if v.op == "false" {
				continue
			}
			n++
			if eq(v) {
				r.ob(ver, "success", a.f.whereB(b), true, "")
				continue
			}
			path, ok := a.mustPass(func(e Edge) bool {
				for _, l := range a.lits(e) {
					if eq(l) {
						return true
					}
				}
				return false
			}, a.goalAt(b))
			r.ob(ver, "success", a.f.whereB(b), ok, "succeeds without comparing with the root: %s", a.pathString(path))
		}
		if n == 0 {
			r.ob(ver, "success", "", false, "verification never succeeds")
		}
		for _, x := range tops {
			d := "the value compared with the root is " + short(x)
			ok := false
			if x.op == "last" && x.args[0].op == "phi" {
				d, ok = a.foldOK(x, data, hashes, index)
			}
			r.ob(ver, "fold", a.f.where(a.endOf(a.f.Entry)), ok, "%s", d)
		}
	})

	nodesField := "MerkleTree.nodes"
	r.part("Root", func() {
		a := r.flat("lib/merkle.MerkleTree.Root")
		for _, e := range a.accepts() {
			v := e.vals[0]
			ok := v.op == "ld" && v.args[0].op == "ia" && v.args[0].args[1] == a.p.c(1) && v.args[0].args[0].op == "ld" && v.args[0].args[0].args[0].op == "fa"
			if ok {
				nodesField = v.args[0].args[0].args[0].aux
			}
			r.ob(tree, "Root", a.f.whereB(e.b), ok, "the root is not node 1 of the tree: %s", short(v))
		}
	})
	r.part("New", func() {
		a := r.flat("lib/merkle.New", H)
		p := a.p
		data := p.app("param", a.paramName(0))
		for _, e := range a.accepts() {
			nodes := a.fieldAt(e.vals[0], nodesField, a.endOf(e.b))
			if nodes.op != "obj" {
				r.ob(tree, "New", a.f.whereB(e.b), false, "the nodes are %s", short(nodes))
				continue
			}
			ln := a.lenT(nodes)
			half := p.div(ln, p.c(2))
			if p.scale(half, 2) != ln {
				// length 2*B as a linear term
				ts, co, c := parts(ln)
				ok := c%2 == 0
				cs := append([]int64{}, co...)
				for k := range cs {
					ok = ok && cs[k]%2 == 0
					cs[k] /= 2
				}
				if !ok {
					r.ob(tree, "New", a.f.whereB(e.b), false, "the number of nodes %s is not twice the number of leaves", short(ln))
					continue
				}
				half = p.lin(ts, cs, c/2)
			}
			r.ob(tree, "New leaves", a.f.whereB(e.b), a.powerOver(half, p.app("len", "", data)), "the number of leaves %s is not a power of two that the blocks fit in", short(half))
			var leaf, inner *store
			for _, s := range a.stores {
				if s.name != "" {
					if contains(s.addr.args, nodes) {
						r.ob(tree, "New", a.f.where(s.i), false, "the nodes are changed by a call")
					}
					continue
				}
				if s.addr == nil || s.addr.op != "ia" || s.addr.args[0] != nodes {
					continue
				}
				v := a.StoreVal(s)
				l := a.loopOf[s.i.Blk]
				if v.op == "obj" && l != nil {
					continue // padding
				}
				x, y := hash2(v)
				if x == nil || l == nil {
					r.ob(tree, "New store", a.f.where(s.i), false, "a node is set to %s", short(v))
					continue
				}
				k := p.k(l.ID)
				tr := a.TripOf(l)
				m := s.addr.args[1]
				ok := a.everyIter(s.i.Blk, l) && !a.earlyExit(l, e.b)
				if pos := p.sub(m, half); x == p.app("ld", "", p.app("ia", "", data, pos)) {
					leaf = s
					r.ob(tree, "leaf data", a.f.where(s.i), ok && pos == k && tr == p.app("len", "", data), "not every leaf is set: node %s over %s elements", short(m), short(tr))
					r.ob(tree, "leaf position", a.f.where(s.i), a.bytesOf(y, 4, false, s.i) == pos, "the position hashed is not that of the leaf")
					r.ob(tree, "leaf order", a.f.where(s.i), true, "")
					continue
				}
				inner = s
				child := func(t *T, off int64) bool {
					return (t.op == "mem" || t.op == "ld" || t.op == "at") && t.args[0].op == "ia" && t.args[0].args[0] == nodes && t.args[0].args[1] == p.add(p.scale(m, 2), p.c(off))
				}
				r.ob(tree, "inner children", a.f.where(s.i), child(x, 0) && child(y, 1), "node %s is the hash of %s and %s", short(m), short(x), short(y))
				// from the last inner node down to node 1
				first := p.subst(m, map[*T]*T{k: p.c(0)})
				if l.Desc {
					r.ob(tree, "inner order", a.f.where(s.i), ok && p.sub(m, k) == p.c(1) && tr == p.sub(half, p.c(1)), "inner nodes set: %s over %s", short(m), short(tr))
				} else {
					r.ob(tree, "inner order", a.f.where(s.i), ok && first == p.sub(half, p.c(1)) && p.add(m, k) == first && tr == p.sub(half, p.c(1)), "inner nodes are not set from the last one to the root: %s over %s", short(m), short(tr))
				}
			}
			r.ob(tree, "New", a.f.whereB(e.b), leaf != nil && inner != nil, "leaves or inner nodes are not set by a loop over all")
			if leaf != nil && inner != nil {
				r.ob(tree, "children first", a.f.where(inner.i), !a.mayPrecede(inner.i, leaf.i), "inner nodes are computed before the leaves")
			}
		}
	})
	r.part("GenerateProofForIndex", func() {
		a := r.flat("lib/merkle.MerkleTree.GenerateProofForIndex")
		p := a.p
		nodes := p.app("ld", "", p.app("fa", nodesField, p.app("param", a.paramName(0))))
		idx := p.app("param", a.paramName(1))
		for _, e := range a.accepts() {
			end := a.endOf(e.b)
			if e.vals[0].op == "nil" {
				continue
			}
			r.ob(prf, "position", a.f.whereB(e.b), a.fieldAt(e.vals[0], "Proof.Index", end) == idx, "the proof names another position")
			hs := a.fieldAt(e.vals[0], "Proof.Hashes", end)
			n := 0
			for _, s := range a.stores {
				if s.addr == nil || s.name != "" || s.addr.op != "ia" || s.addr.args[0] != hs {
					continue
				}
				n++
				ok, d := a.siblings(s, nodes, idx)
				r.ob(prf, "siblings", a.f.where(s.i), ok, "%s", d)
			}
			if n > 0 {
				// as many hashes as the path has steps
				ln := a.lenT(hs)
				ok := levelsOf(ln, p.div(p.app("len", "", nodes), p.c(2)))
				r.ob(prf, "number", a.f.whereB(e.b), ok, "the proof has %s hashes", short(ln))
			}
			if n == 0 && hs.op == "phi" || hs.op == "last" { // built by appending
				ok, d := a.siblingsAppended(hs, nodes, idx)
				r.ob(prf, "siblings", a.f.whereB(e.b), ok, "%s", d)
				n++
			}
			r.ob(prf, "hashes", a.f.whereB(e.b), n == 1, "%d places fill the proof's hashes %s", n, short(hs))
		}
	})

	const (
		gen, enc, nw, epl, rt, mk = "lib/merkle.MerkleTree.GenerateProofForIndex", "lib/merkle.EncodeProof", "lib/merkle.New", "lib/merkle.MerkleTree.EncodedProofLength", "lib/merkle.MerkleTree.Root", "lib/database.makeHashTable"
	)
	for _, name := range []string{"lib/database.CreateRandomMerkle", "lib/database.GenerateRealKeyMerkle"} {
		r.part(name, func() {
			a := r.flat(name, gen, enc, nw, epl, rt)
			p := a.p
			var news []*Ins
			news = a.calls(nw)
			if len(news) != 1 {
				r.ob(bld, name, "", false, "%d trees are built", len(news))
				return
			}
			blocks := a.arg(news[0], 0)
			tr := p.app("x", "0", a.term(news[0]))
			encs := a.calls(enc)
			if len(encs) == 0 {
				r.ob(bld, name, "", false, "no proof is encoded")
			}
			for _, c := range encs {
				ct := a.term(c)
				g := ct.args[0]
				okg := g.op == "x" && g.aux == "0" && callName(g.args[0]) == full("(*lib/merkle.MerkleTree).GenerateProofForIndex") && g.args[0].args[0] == tr
				if !r.ob(bld, name+" proof", a.f.where(c), okg, "the proof encoded is %s", short(g)) {
					continue
				}
				pos := g.args[0].args[1]
				found := false
				for _, b := range a.rpo {
					for _, i := range b.Ins {
						if i.Op != OpBuiltin || i.Name != "append" {
							continue
						}
						ps := flattenCat(a.term(i), nil)
						for k, x := range ps {
							if x != ct || k == 0 {
								continue
							}
							w := a.elemAt(blocks, pos, i)
							if ps[k-1] != w {
								r.ob(bld, name+" block", a.f.where(i), false, "the proof of position %s follows %s", short(pos), short(ps[k-1]))
							}
							if k+1 < len(ps) {
								found = true
								n, ok := int64(0), false
								if ps[k+1].op == "one" {
									n, ok = ps[k+1].args[0].isC()
								}
								r.ob(bld, name+" padding", a.f.where(i), ok && n == 128, "the proof is followed by %s", short(ps[k+1]))
							}
						}
					}
				}
				r.ob(bld, name+" append", a.f.where(c), found, "the encoded proof is not appended to the database, followed by the padding byte")
			}
			// published values
			for _, e := range a.accepts() {
				if e.vals[0].op == "nil" {
					continue
				}
				end := a.endOf(e.b)
				m := a.resolve(p.app("fa", "Info.Merkle", p.app("fa", "Bytes.Info", e.vals[0])), end)
				root, pl := a.fieldAt(m, "Merkle.Root", end), a.fieldAt(m, "Merkle.ProofLen", end)
				is := func(t *T, n string) bool { return callName(t) == full(n) && t.args[0] == tr }
				r.ob(inf, name+" root", a.f.whereB(e.b), is(root, "(*lib/merkle.MerkleTree).Root"), "the root published is %s", short(root))
				r.ob(inf, name+" proof length", a.f.whereB(e.b), is(pl, "(*lib/merkle.MerkleTree).EncodedProofLength"), "the proof length published is %s", short(pl))
			}
		})
	}
	r.part("EncodedProofLength", func() {
		// the proof has as many hashes as the published length counts
		a := r.flat(epl)
		p := a.p
		b := r.flat(gen)
		for _, e := range a.accepts() {
			for _, f := range b.accepts() {
				if f.vals[0].op == "nil" {
					continue
				}
				hs := b.fieldAt(f.vals[0], "Proof.Hashes", b.endOf(f.b))
				n := b.lenT(hs)
				appended := hs.op == "last" // one for each level, see above
				d := p.sub(e.vals[0], p.c(8))
				// d == n * hash length
				got := monosString(d)
				ok := false
				ms, c := monos(d)
				if c == 0 && len(ms) == 1 && ms[0].co == 1 && len(ms[0].at) == 2 {
					for k, x := range ms[0].at {
						y := ms[0].at[1-k]
						same := sameText(x, n) || appended && levelsOf(x, p.div(p.app("len", "", p.app("ld", "", p.app("fa", nodesField, p.app("param", a.paramName(0))))), p.c(2)))
						if same && (callName(y) == full("(lib/merkle.HashType).HashLength") || callName(y) == full("(*lib/merkle.BLAKE3).HashLength") || callName(y) == "(hash.Hash).Size") {
							ok = true
						}
					}
				} else if c == 0 && len(ms) == 1 && ms[0].co == 32 && len(ms[0].at) == 1 {
					ok = sameText(ms[0].at[0], n)
				}
				r.ob(inf, "length", a.f.whereB(e.b), ok, "the published length is %s, proofs have %s hashes", got, short(n))
			}
		}
	})
}

func monosString(t *T) string { return short(t) }

// sameText compares terms of different pools (receiver names aside they are the same expression).
func sameText(x, y *T) bool { return x.String() == y.String() }

func flattenCat(t *T, r []*T) []*T {
	if t.op == "cat" {
		for _, x := range t.args {
			r = flattenCat(x, r)
		}
		return r
	}
	return append(r, t)
}

// foldOK: x is the hash of the leaf folded over all hashes of a proof.
func (a *Analysis) foldOK(x, data, hashes, index *T) (string, bool) {
	p := a.p
	l := a.loopByID(atoi(x.aux))
	cur := a.phiOf(l, x.args[0])
	if cur == nil {
		return "the value compared with the root is not carried through a loop", false
	}
	if tr := a.TripOf(l); tr != p.app("len", "", hashes) || l.Desc {
		return "the loop does not run over all hashes of the proof", false
	}
	if len(l.Exits) != 1 {
		return "the loop may end before the last hash", false
	}
	in := a.initOf(l, cur)
	if in == nil {
		return "no single start value", false
	}
	d, ib := hash2(in)
	if d != data || a.bytesOf(ib, 4, false, a.insOf[callID(in)]) != index {
		return "the fold starts with " + short(in) + " instead of the hash of data and position", false
	}
	k := p.k(l.ID)
	hk := p.app("ld", "", p.app("ia", "", hashes, k))
	hcur := a.at(cur, l.Header)
	// the parity variable
	var par *Ins
	bit := func(lit *T) (even, odd bool) {
		t := lit
		if t.op == "!" {
			e, o := false, false
			if t.args[0].op == "==0" {
				e, o = a.parity(t.args[0].args[0], l, index, &par)
				return o, e
			}
			return e, o
		}
		if t.op == "==0" {
			return a.parity(t.args[0], l, index, &par)
		}
		return false, false
	}
	s := a.symTrack(l, cur)
	path, ok := s.iterations(func(lit *T) string {
		e, o := bit(lit)
		if e {
			return "E"
		}
		if o {
			return "O"
		}
		return ""
	}, func(fl string, vals []string) bool {
		v := vals[s.hidx[cur]]
		if len(v) == 0 || v[0] != 't' {
			return false
		}
		x, y := hash2(s.tm[atoi(v[1:])])
		if x == nil || y == nil {
			return false
		}
		// arguments chosen by the bit
		given := func(t *T, even bool) *T {
			for n := 0; t.op == "ite" && n < 8; n++ {
				switch e, o := bit(t.args[0]); {
				case e && even, o && !even:
					t = t.args[1]
				case e || o:
					t = t.args[2]
				default:
					return t
				}
			}
			return t
		}
		okE := given(x, true) == hcur && given(y, true) == hk
		okO := given(x, false) == hk && given(y, false) == hcur
		switch fl {
		case "E":
			return okE
		case "O":
			return okO
		}
		return okE && okO
	})
	if !ok {
		return "the sides of the two hashes do not follow the bit of the position: " + a.pathString(path), false
	}
	if par != nil {
		in, nx := a.initOf(l, par), a.nextOf(l, par)
		v := a.at(par, l.Header)
		if in == nil || nx != p.div(v, p.c(2)) {
			return "the position is not halved in every step", false
		}
		if in != index {
			// index + 2^len(hashes)
			top := p.sub(in, index)
			if !(top.op == "<<" || top.op == "shl" || top.op == "pow2") || !containsTerm(top, p.app("len", "", hashes)) {
				return "the bits start from " + short(in), false
			}
		}
	}
	return "", true
}

// parity: t is (bits of the position)%2, or that minus one.
func (a *Analysis) parity(t *T, l *Loop, index *T, par **Ins) (even, odd bool) {
	p := a.p
	is := func(t *T) bool {
		if t.op != "%" || t.args[1] != p.c(2) {
			return false
		}
		if ph := a.phiOf(l, t.args[0]); ph != nil && (*par == nil || *par == ph) {
			*par = ph
			return true
		}
		// (index >> k) % 2
		x := t.args[0]
		if x.op == ">>" && x.args[0] == index && x.args[1] == p.k(l.ID) {
			return true
		}
		return false
	}
	if is(t) {
		return true, false
	}
	if u := p.add(t, p.c(1)); is(u) {
		return false, true
	}
	if u := p.scale(p.sub(t, p.c(1)), -1); is(u) {
		return false, true
	}
	return false, false
}

// siblings: the store puts the sibling of the k-th ancestor of a leaf at position k.
func (a *Analysis) siblings(s *store, nodes, idx *T) (bool, string) {
	p := a.p
	l := a.loopOf[s.i.Blk]
	if l == nil || s.addr.args[1] != p.k(l.ID) || l.Desc {
		return false, "the hashes are not filled one after the other"
	}
	v := a.StoreVal(s)
	return a.siblingLoop(l, v, nodes, idx, a.everyIter(s.i.Blk, l))
}

func (a *Analysis) siblingsAppended(hs, nodes, idx *T) (bool, string) {
	if hs.op != "last" {
		return false, "hashes are " + short(hs)
	}
	l := a.loopByID(atoi(hs.aux))
	ph := a.phiOf(l, hs.args[0])
	if ph == nil {
		return false, "hashes are " + short(hs)
	}
	nx := a.nextOf(l, ph)
	if nx == nil {
		return false, "hashes are appended on some paths only"
	}
	ps := flattenCat(nx, nil)
	if len(ps) != 2 || ps[0] != a.at(ph, l.Header) || ps[1].op != "one" {
		return false, "hashes are " + short(nx)
	}
	return a.siblingLoop(l, ps[1].args[0], nodes, idx, true)
}

func (a *Analysis) siblingLoop(l *Loop, v, nodes, idx *T, every bool) (bool, string) {
	p := a.p
	if v.op != "ld" || v.args[0].op != "ia" || v.args[0].args[0] != nodes {
		return false, "a hash of the proof is " + short(v)
	}
	x := v.args[0].args[1]
	var ph *Ins
	for _, c := range l.Header.phis() {
		t := a.at(c, l.Header)
		if x == p.xor(t, p.c(1)) || x == p.app("^", "", t, p.c(1)) || x.op == "^" && x.args[0] == t && x.args[1] == p.c(1) {
			ph = c
		}
	}
	if ph == nil {
		return false, "the hash stored is that of node " + short(x) + ", not of the sibling"
	}
	t := a.at(ph, l.Header)
	in := a.initOf(l, ph)
	half := p.div(p.app("len", "", nodes), p.c(2))
	if in != p.add(idx, half) {
		return false, "the path starts at node " + short(in)
	}
	if a.nextOf(l, ph) != p.div(t, p.c(2)) {
		return false, "the path does not go to the parent in every step"
	}
	if !every {
		return false, "a sibling may be left out"
	}
	if len(l.Exits) != 1 {
		return false, "the path may end early"
	}
	for _, e := range l.Exits {
		// one step for each level of a tree of half leaves
		ok := e.B == l.Header && !l.Desc && levelsOf(a.TripOf(l), half)
		for _, lit := range a.lits(e) {
			n := lit
			neg := false
			if n.op == "!" {
				n, neg = n.args[0], true
			}
			switch {
			case n.op == "<u" && neg && n.args[1] == t && a.isOne(n.args[0]): // !(1 < t)
				ok = true
			case n.op == "<u" && !neg && n.args[0] == t && isConst(n.args[1], 2): // t < 2
				ok = true
			case n.op == "<0" && !neg && p.sub(t, p.c(2)) == n.args[0]:
				ok = true
			case n.op == "==0" && !neg && n.args[0] == p.sub(t, p.c(1)):
				ok = true
			}
		}
		if !ok {
			return false, "the path does not end just below the root"
		}
	}
	return true, ""
}

// levelsOf: t is the number of levels above half leaves, a power of two.
func levelsOf(t, half *T) bool {
	if t == nil {
		return false
	}
	ms, c := monos(t)
	if len(ms) != 1 || ms[0].co != 1 || len(ms[0].at) != 1 {
		return false
	}
	x := ms[0].at[0]
	if x.op == "call" && strings.HasPrefix(callName(x), "math/bits.Len") || strings.HasPrefix(x.op, "bits.Len") {
		return c == -1 && x.args[len(x.args)-1] == half
	}
	for x.op == "math.Ceil" || x.op == "math.Floor" {
		x = x.args[0]
	}
	return c == 0 && x.op == "math.Log2" && x.args[0] == half
}

// powerOver: t is a power of two that is at least n.
func (a *Analysis) powerOver(t, n *T) bool {
	p := a.p
	log := func(x *T) bool { return x.op == "math.Ceil" && x.args[0].op == "math.Log2" && x.args[0].args[0] == n }
	for t.op == "math.Ceil" || t.op == "math.Floor" {
		t = t.args[0]
	}
	switch {
	case callName(t) == "math.Exp2":
		return log(t.args[0])
	case t.op == "math.Pow":
		return isConst(t.args[0], 2) && log(t.args[1])
	case t.op == "<<" || t.op == "shl" || t.op == "pow2":
		e := t.args[len(t.args)-1]
		if t.op != "pow2" && !isConst(t.args[0], 1) {
			return false
		}
		return log(e) || (strings.HasPrefix(callName(e), "math/bits.Len") || strings.HasPrefix(e.op, "bits.Len")) && e.args[len(e.args)-1] == p.sub(n, p.c(1))
	case t.op == "last":
		// doubled until it is large enough
		l := a.loopByID(atoi(t.aux))
		ph := a.phiOf(l, t.args[0])
		if ph == nil || len(l.Exits) != 1 {
			return false
		}
		v := a.at(ph, l.Header)
		in := a.initOf(l, ph)
		if in == nil || !isConst(in, 1) || a.nextOf(l, ph) != p.scale(v, 2) {
			return false
		}
		for _, lit := range a.lits(l.Exits[0]) {
			// !(v < n), n - v - 1 < 0
			if lit.op == "<0" && lit.args[0] == p.sub(p.sub(n, v), p.c(1)) {
				return true
			}
			if lit.op == "!" && lit.args[0].op == "<0" && lit.args[0].args[0] == p.sub(v, n) {
				return true
			}
			if lit.op == "!" && lit.args[0].op == "<u" && lit.args[0].args[0] == v && lit.args[0].args[1] == n {
				return true
			}
		}
	}
	return false
}

func isConst(t *T, n int64) bool {
	c, ok := t.isC()
	return ok && c == n
}

func (a *Analysis) isOne(t *T) bool { return isConst(t, 1) }

// paramName: the name of the k-th parameter (receiver included) of the entry function.
func (a *Analysis) paramName(k int) string { return a.f.Root.Params[k].Name() }

// hashWrites: what is done to the hash whose Sum is t, in order; nil stands for Reset.
func (a *Analysis) hashWrites(t *T) []*T {
	sum := a.insOf[callID(t)]
	if sum == nil || callName(t) != "(hash.Hash).Sum" || t.args[1].op != "nil" {
		return nil
	}
	recv := t.args[0]
	var r []*T
	for _, b := range a.rpo {
		for _, i := range b.Ins {
			if i.Op != OpCall || i == sum {
				continue
			}
			n := a.callee(i)
			if n != "(io.Writer).Write" && n != "(hash.Hash).Write" && n != "(hash.Hash).Reset" {
				continue
			}
			if a.arg(i, 0) != recv || !a.mayPrecede(i, sum) {
				continue
			}
			if !a.DomI(i, sum) || a.loopOf[i.Blk] != a.loopOf[sum.Blk] {
				return nil
			}
			if n == "(hash.Hash).Reset" {
				r = []*T{nil}
			} else {
				r = append(r, a.arg(i, 1))
			}
		}
	}
	return r
}
