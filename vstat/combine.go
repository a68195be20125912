package main

// combineStores: a cell that is written, tested and written again is written
// once, with the value it ends up with.
func (f *Flat) combineStores() bool {
	same := func(x, y *Ins) bool {
		if x == y {
			return true
		}
		if x.Op != y.Op || x.Op != OpIndexAddr && x.Op != OpFieldAddr || x.Idx != y.Idx || len(x.Args) != len(y.Args) {
			return false
		}
		for k := range x.Args {
			if x.Args[k] != y.Args[k] {
				return false
			}
		}
		return true
	}
	// scan: the first instruction of a block, from the n-th on, that writes the cell;
	// stop if other memory is used before; the loads of the cell on the way
	scan := func(b *Block, n int, addr *Ins) (next int, loads []*Ins, ok bool) {
		for k := n; k < len(b.Ins); k++ {
			i := b.Ins[k]
			switch {
			case i.Op == OpStore && same(i.Args[0], addr):
				return k, loads, true
			case i.Op == OpLoad && same(i.Args[0], addr):
				loads = append(loads, i)
			case i.Op == OpLoad || hasEffect(i) || i.Op == OpClosure || i.Op == OpRange || i.Op == OpPure || i.Op == OpLookup:
				return k, loads, false
			}
		}
		return len(b.Ins), loads, true
	}
	replace := func(loads []*Ins, v *Ins) {
		is := map[*Ins]bool{}
		for _, l := range loads {
			is[l] = true
		}
		if len(is) == 0 {
			return
		}
		for _, b := range f.Blocks {
			for _, i := range b.Ins {
				for k, x := range i.Args {
					if is[x] {
						i.Args[k] = v
					}
				}
			}
			for k, x := range b.Rets {
				if is[x] {
					b.Rets[k] = v
				}
			}
			if is[b.Cond] {
				b.Cond = v
			}
		}
	}
	remove := func(s *Ins) {
		var ins []*Ins
		for _, i := range s.Blk.Ins {
			if i != s {
				ins = append(ins, i)
			}
		}
		s.Blk.Ins = ins
	}
	for _, b := range f.Blocks {
		if b.dead {
			continue
		}
		for n, s := range b.Ins {
			if s.Op != OpStore || s.Args[0].Op != OpIndexAddr {
				continue
			}
			addr := s.Args[0]
			next, loads, ok := scan(b, n+1, addr)
			if !ok {
				continue
			}
			if next < len(b.Ins) {
				replace(loads, s.Args[1])
				remove(s)
				return true
			}
			if b.Term != TIf || b.Succs[0] == b.Succs[1] {
				continue
			}
			for q, t := range b.Succs {
				j := b.Succs[1-q]
				if len(t.Preds) != 1 || t.Term != TJump || len(t.Succs) != 1 || t.Succs[0] != j || t == b || j == b {
					continue
				}
				k, ls, ok := scan(t, 0, addr)
				if !ok || k == len(t.Ins) {
					continue
				}
				s2 := t.Ins[k]
				rest, after, ok := scan(t, k+1, addr)
				if !ok || rest < len(t.Ins) {
					continue
				}
				if j = f.joinOf(b, t, j); j == nil {
					continue
				}
				ph := f.newIns(OpPhi, s2.Args[1].Typ)
				ph.Blk, ph.Pos, ph.Ctx = j, s2.Pos, s2.Ctx
				for _, p := range j.Preds {
					if p == t {
						ph.Args = append(ph.Args, s2.Args[1])
					} else {
						ph.Args = append(ph.Args, s.Args[1])
					}
				}
				st := f.newIns(OpStore, nil, addr, ph)
				st.Typ, st.Blk, st.Pos, st.Ctx = s.Typ, j, s2.Pos, s2.Ctx
				np := 0
				for np < len(j.Ins) && j.Ins[np].Op == OpPhi {
					np++
				}
				ins := append([]*Ins{}, j.Ins[:np]...)
				ins = append(ins, ph, st)
				j.Ins = append(ins, j.Ins[np:]...)
				replace(append(loads, ls...), s.Args[1])
				replace(after, s2.Args[1])
				remove(s)
				remove(s2)
				return true
			}
		}
	}
	return false
}

// joinOf: the block where only b and t, which both go to j, come together.
func (f *Flat) joinOf(b, t, j *Block) *Block {
	pb, pt := -1, -1
	for k, p := range j.Preds {
		if p == b && pb >= 0 || p == t && pt >= 0 {
			return nil
		}
		if p == b {
			pb = k
		}
		if p == t {
			pt = k
		}
	}
	if pb < 0 || pt < 0 {
		return nil
	}
	if len(j.Preds) == 2 {
		return j
	}
	n := f.newBlock(j.Ctx)
	n.Pos = j.Pos
	n.Term, n.Preds, n.Succs = TJump, []*Block{b, t}, []*Block{j}
	for k := range b.Succs {
		if b.Succs[k] == j {
			b.Succs[k] = n
		}
	}
	t.Succs[0] = n
	var preds []*Block
	for k, p := range j.Preds {
		if k != pb && k != pt {
			preds = append(preds, p)
		}
	}
	j.Preds = append(preds, n)
	for _, i := range j.Ins {
		if i.Op != OpPhi {
			break
		}
		x, y := i.Args[pb], i.Args[pt]
		var args []*Ins
		for k, v := range i.Args {
			if k != pb && k != pt {
				args = append(args, v)
			}
		}
		if x != y {
			ph := f.newIns(OpPhi, i.Typ, x, y)
			ph.Blk, ph.Pos, ph.Ctx = n, i.Pos, i.Ctx
			n.Ins = append(n.Ins, ph)
			x = ph
		}
		i.Args = append(args, x)
	}
	return n
}
