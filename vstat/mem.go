package main

import (
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// Memory: a load is resolved to the value of the store that reaches it, when
// the addresses match for a solution of the loop variables of the store.

// rootOf is the object an address belongs to.
func rootOf(t *T) *T {
	for {
		switch t.op {
		case "fa", "ia", "sl", "mi":
			t = t.args[0]
			continue
		case "conv":
			t = t.args[0]
			continue
		}
		return t
	}
}

func rootKey(t *T) string {
	r := rootOf(t)
	if r.op == "obj" {
		return "obj" + r.aux
	}
	if r.op == "global" || r.op == "param" {
		return r.op + r.aux
	}
	if r.op == "call" {
		return "call" + r.aux
	}
	return "other"
}

// calls that only read what their arguments point to
var readOnly = map[string]bool{
	// locks change nothing but themselves
	"(*sync.Mutex).Lock": true, "(*sync.Mutex).Unlock": true, "(*sync.RWMutex).Lock": true, "(*sync.RWMutex).Unlock": true, "(*sync.RWMutex).RLock": true, "(*sync.RWMutex).RUnlock": true,
	"(" + modPath + "/lib/proto.VPIRClient).Query": true, "(" + modPath + "/lib/proto.VPIRClient).DatabaseInfo": true, modPath + "/lib/proto.NewVPIRClient": true,
	"reflect.DeepEqual": true, "runtime.KeepAlive": true, "bytes.Equal": true, "bytes.Compare": true, "log.Printf": true, "log.Println": true, "log.Print": true, "fmt.Println": true, "fmt.Printf": true,
	"fmt.Sprintf": true, "fmt.Sprint": true, "fmt.Errorf": true, "golang.org/x/xerrors.Errorf": true, "errors.New": true, "fmt.Fprintf": true, "fmt.Fprintln": true,
	"(*encoding/gob.Encoder).Encode": true, "encoding/gob.NewEncoder": true, "encoding/gob.NewDecoder": true,
	"bytes.NewBuffer": true, "bytes.NewReader": true, "(*bytes.Buffer).Bytes": true, "(*bytes.Buffer).Write": true,
	"(io.Writer).Write": true, "(hash.Hash).Write": true, "(hash.Hash).Sum": true, "(crypto.Hash).New": true, "crypto/aes.NewCipher": true,
	"github.com/dkales/dpf-go/dpf.EvalFull": true, "github.com/dkales/dpf-go/dpf.Gen": true,
	"lukechampine.com/blake3.Sum256": true, "encoding/json.Marshal": true, "strings.Join": true, "log.Fatal": true, "log.Fatalf": true, "math.Ceil": true,
	"time.Now": true, "time.Date": true, "golang.org/x/crypto/blake2b.Sum256": true, "google.golang.org/grpc.DialContext": true,
	"(lukechampine.com/uint128.Uint128).PutBytes": true, "(lukechampine.com/uint128.Uint128).PutBytesBE": true,
	"crypto/cipher.NewCTR": true, "(encoding/binary.bigEndian).Uint16": true, "(encoding/binary.bigEndian).Uint32": true, "(encoding/binary.bigEndian).Uint64": true,
	"(encoding/binary.littleEndian).Uint16": true, "(encoding/binary.littleEndian).Uint32": true, "(encoding/binary.littleEndian).Uint64": true,
	"encoding/hex.EncodeToString": true, "lukechampine.com/uint128.FromBytes": true, "math/bits.Len": true,
	"io.ReadFull": true, "(io.Reader).Read": true, "crypto/rand.Read": true, "(crypto/cipher.Block).Encrypt": true, "io.ReadAtLeast": true,
}

func (a *Analysis) collectStores() {
	a.byRoot = map[string][]*store{}
	a.stBuild = true
	for _, b := range a.rpo {
		for _, i := range b.Ins {
			switch i.Op {
			case OpStore, OpMapUpdate:
				a.stores = append(a.stores, &store{i: i})
			case OpCall:
				nm := ""
				if i.Method != nil {
					nm = i.Method.FullName()
				}
				if gm := groupMethod(i); gm != "" && isGroupWrite(gm) {
					a.stores = append(a.stores, &store{i: i})
					continue
				}
				if isGroupRead(nm) || groupMethod(i) == "MarshalBinary" {
					continue
				}
				if readOnly[nm] || pureCalls[nm] || isPureMethod(nm) || a.repoReadOnly(i) {
					continue
				}
				ptr := false
				for _, x := range i.Args {
					if mayPoint(x) {
						ptr = true
					}
				}
				if ptr {
					if nm == "" {
						nm = "dyn"
					}
					a.stores = append(a.stores, &store{i: i, name: nm})
				}
			case OpBuiltin:
				if i.Name == "copy" || i.Name == "clear" || i.Name == "delete" {
					a.stores = append(a.stores, &store{i: i, name: i.Name})
				}
			}
		}
	}
	a.stBuild = false
	// The address of a store may itself be loaded from memory: start from what
	// needs no memory and iterate until nothing changes.
	for pass := 0; pass < 10; pass++ {
		next := make([]*T, len(a.stores))
		for k, s := range a.stores {
			next[k] = a.storeAddr(s)
		}
		a.throughMemory(next)
		same := true
		a.byRoot = map[string][]*store{}
		for k, s := range a.stores {
			if s.addr != next[k] {
				same = false
			}
			s.addr = next[k]
			s.val = nil
			seen := map[string]bool{}
			rs := []*T{s.addr}
			if s.name != "" {
				rs = s.addr.args
			}
			for _, r := range rs {
				k := rootKey(r)
				if !seen[k] {
					seen[k] = true
					a.byRoot[k] = append(a.byRoot[k], s)
				}
			}
		}
		a.terms = map[*Ins]*T{}
		a.resMemo = map[string]*T{}
		a.objLen = map[string]*T{}
		for _, l := range a.loops {
			l.computed = false
			l.Trip = nil
		}
		if same {
			break
		}
	}
	a.stReady = true
}

// throughMemory: a call may also change what the memory of its arguments points to.
func (a *Analysis) throughMemory(next []*T) {
	held := map[string]map[*T]bool{}
	for k, s := range a.stores {
		if s.i.Op != OpStore || s.name != "" {
			continue
		}
		v := s.i.Args[len(s.i.Args)-1]
		if !mayPoint(v) {
			continue
		}
		r := rootKey(rootOf(next[k]))
		if held[r] == nil {
			held[r] = map[*T]bool{}
		}
		held[r][rootOf(a.at(v, s.i.Blk))] = true
	}
	for k, s := range a.stores {
		if s.name == "" || s.i.Op == OpBuiltin || next[k].op != "any" {
			continue
		}
		seen := map[*T]bool{}
		todo := append([]*T{}, next[k].args...)
		for _, t := range todo {
			seen[t] = true
		}
		var add []*T
		for len(todo) > 0 {
			t := todo[0]
			todo = todo[1:]
			for v := range held[rootKey(t)] {
				if !seen[v] {
					seen[v] = true
					todo = append(todo, v)
					add = append(add, v)
				}
			}
		}
		if len(add) > 0 {
			sort.Slice(add, func(i, j int) bool { return add[i].id < add[j].id })
			next[k] = a.p.app("any", "", append(append([]*T{}, next[k].args...), add...)...)
		}
	}
}

// repoWrites: the parameters whose memory a call of a repository function may write.
func (a *Analysis) repoWrites(i *Ins) (roots, bool) {
	if i.Op != OpCall || i.Method == nil || i.Invoke || i.Method.Pkg() == nil || !strings.HasPrefix(i.Method.Pkg().Path(), modPath) {
		return roots{}, false
	}
	return a.f.P.writesCaller(i.Method)
}

func (a *Analysis) repoReadOnly(i *Ins) bool {
	w, known := a.repoWrites(i)
	return known && w.par == 0
}

func mayPoint(i *Ins) bool {
	switch i.Op {
	case OpFunc, OpConst:
		return false
	case OpMakeIface:
		return mayPoint(i.Args[0])
	}
	if i.Typ == nil {
		return false
	}
	switch i.Typ.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Signature:
		return true
	}
	return false
}

func (a *Analysis) storeAddr(s *store) *T {
	switch {
	case s.name != "":
		// a call may change whatever its pointer arguments lead to
		var rs []*T
		w, known := a.repoWrites(s.i)
		for k, x := range s.i.Args {
			if k > 0 && known && k <= 64 && w.par&(1<<(k-1)) == 0 {
				continue
			}
			if mayPoint(x) {
				rs = append(rs, rootOf(a.at(x, s.i.Blk)))
			}
		}
		return a.p.app("any", "", rs...)
	case s.i.Op == OpCall:
		return a.groupAddr(a.op(s.i, 0))
	case s.i.Op == OpMapUpdate:
		return a.p.app("mi", "", a.op(s.i, 0), a.op(s.i, 1))
	}
	return a.op(s.i, 0)
}

// StoreVal is the stored value, in the loop variables of the store.
func (a *Analysis) StoreVal(s *store) *T {
	if s.val == nil {
		if s.name != "" {
			s.val = a.p.app("callmem", s.name+"#"+strconv.Itoa(s.i.ID))
		} else if s.i.Op == OpCall {
			s.val = a.groupStoreVal(s.i)
		} else {
			s.val = a.op(s.i, len(s.i.Args)-1)
		}
	}
	return s.val
}

// resolve gives the value at an address when instruction at is executed.
func (a *Analysis) resolve(addr *T, at *Ins) *T {
	key := strconv.Itoa(addr.id) + "@" + strconv.Itoa(at.ID)
	if t, ok := a.resMemo[key]; ok {
		return t
	}
	a.resMemo[key] = a.p.app("mem", "rec@"+strconv.Itoa(at.ID), addr) // cut recursion
	t := a.resolve1(addr, at)
	a.resMemo[key] = t
	return t
}

func (a *Analysis) resolve1(addr *T, at *Ins) *T {
	p := a.p
	if a.resolveD > 60 {
		a.Truncs++
		return p.app("mem", "deep@"+strconv.Itoa(at.ID), addr)
	}
	a.resolveD++
	defer func() { a.resolveD-- }()
	// elements of lists built by append
	if addr.op == "ia" {
		if t := a.listElem(addr.args[0], addr.args[1], at); t != nil {
			return t
		}
	}
	// a field or element of a whole value
	root := rootOf(addr)
	switch root.op {
	case "nil":
		return p.app("nilderef", "")
	case "ite":
		// the address is one of two: same choice for the value
		if len(root.args) == 3 && root.args[0].op != "rec" {
			m1 := map[*T]*T{root: root.args[1]}
			m2 := map[*T]*T{root: root.args[2]}
			x := a.resolve(p.subst(addr, m1), at)
			y := a.resolve(p.subst(addr, m2), at)
			if x == y {
				return x
			}
			return p.ite(root.args[0], x, y)
		}
	}
	type cand struct {
		s    *store
		sub  map[int]*T
		must bool
		path []*T
	}
	var cs []cand
	chain := []*T{root}
	for x := root; x.op == "ld" || x.op == "mem"; {
		x = rootOf(x.args[0])
		chain = append(chain, x)
	}
	pool := a.byRoot[rootKey(addr)]
	for _, r := range chain[1:] {
		for _, s := range a.byRoot[rootKey(r)] {
			if s.name != "" {
				pool = append(pool[:len(pool):len(pool)], s)
			}
		}
	}
	seen := map[*store]bool{}
	for _, s := range pool {
		if seen[s] {
			continue
		}
		seen[s] = true
		if s.i == at || s.hidden || !a.mayPrecede(s.i, at) {
			continue
		}
		if s.name != "" {
			hit := false
			for _, r := range s.addr.args {
				for _, c := range chain {
					if r == c || (r.op == c.op && r.aux == c.aux && (r.op == "obj" || r.op == "call" || r.op == "phi")) {
						hit = true
					}
				}
			}
			if hit {
				cs = append(cs, cand{s: s})
			}
			continue
		}
		// a part of a value stored as a whole
		anc := addr
		var path []*T
		if s.i.Op == OpStore {
			for d := addrDepth(addr) - addrDepth(s.addr); d > 0; d-- {
				path = append(path, anc)
				anc = anc.args[0]
			}
		}
		sub, res := a.match(s, anc, at)
		if res == 0 {
			continue
		}
		if len(path) > 0 && res == 2 && !a.projectable(s, path, sub) {
			res = 1
		}
		cs = append(cs, cand{s, sub, res == 2, path})
	}
	fresh := root.op == "obj"
	if len(cs) == 0 {
		if fresh {
			if i := a.insOf[root.aux]; i != nil {
				return a.zeroAt(addr, i)
			}
		}
		if addr.op == "fa" && addr.aux == "Group.val" && callName(addr.args[0]) == groupPkg+"Group).Identity" {
			return p.app("gId", "")
		}
		if addr.op == "fa" && addr.aux == "Group.val" && callName(addr.args[0]) == groupPkg+"Group).HashToElement" {
			c := addr.args[0]
			return p.app("gHash", "", c.args[0], c.args[1], c.args[2])
		}
		return p.app("ld", "", addr)
	}
	// a store that certainly wrote this address last
	for _, c := range cs {
		if !c.must || !a.settled(c.s, at) {
			continue
		}
		last := true
		for _, o := range cs {
			if o.s != c.s && a.survives(o.s, c.s, at) {
				last = false
				break
			}
		}
		if last {
			v := a.project(c.s, c.path)
			w := a.p.substLoops(v, c.sub)
			if v.op == "elem" && w.op == "elem" && w != v {
				// a known element now
				return a.elemOf(w.args[0], w.args[1], c.s.i)
			}
			return w
		}
	}
	// one of two stores in the arms of a branch wrote it last
	for q, c1 := range cs {
		for _, c2 := range cs[q+1:] {
			t := a.armStores(c1.s, c2.s, addr, at, func(fake *store) bool {
				for _, o := range cs {
					if o.s != c1.s && o.s != c2.s && a.survives(o.s, fake, at) {
						return false
					}
				}
				return true
			})
			if t != nil {
				return t
			}
		}
	}
	// the last store is made in one arm of a branch only
	for _, c := range cs {
		if t := a.armStore(c.s, addr, at, func(fake *store) bool {
			for _, o := range cs {
				if o.s != c.s && a.survives(o.s, fake, at) {
					return false
				}
			}
			return true
		}); t != nil {
			return t
		}
	}
	// the last store hits this address for one value of an index
	for _, c := range cs {
		if c.must || c.s.name != "" {
			continue
		}
		inner := a.loopOf[c.s.i.Blk] != nil && !a.loopOf[c.s.i.Blk].Blocks[at.Blk]
		var ix, iy *T
		var sub map[int]*T
		if inner {
			// of objects made in the iterations of a loop that has ended
			if c.s.addr.op != "ia" || addr.op != "ia" || !a.settled(c.s, at) {
				continue
			}
			sub = map[int]*T{}
			private := map[int]bool{}
			ok := a.ownRoot(c.s.addr, c.s.i.Blk)
			for _, l := range a.loopsOf(c.s.i.Blk) {
				ok = ok && !l.Blocks[at.Blk]
				private[l.ID] = true
			}
			if !ok || a.unify(c.s.addr.args[0], addr.args[0], private, sub) != 2 {
				continue
			}
			for _, l := range a.loopsOf(c.s.i.Blk) {
				t := sub[l.ID]
				ok = ok && t != nil && (a.inRangeSub(t, l, sub) || a.accessInRange(addr, t, l, sub))
			}
			if !ok {
				continue
			}
			ix, iy = p.substLoops(c.s.addr.args[1], sub), addr.args[1]
			if ix == iy {
				continue
			}
		} else {
			if !a.DomI(c.s.i, at) {
				continue
			}
			ix, iy = diffIndex(c.s.addr, addr)
		}
		if ix == nil {
			continue
		}
		last := true
		for _, o := range cs {
			if o.s != c.s && a.survives(o.s, c.s, at) {
				last = false
			}
		}
		if !last {
			continue
		}
		// in a common loop an earlier iteration may have hit it
		if !inner && a.loopOf[c.s.i.Blk] != nil && !(a.ownRoot(c.s.addr, c.s.i.Blk) && rootOf(c.s.addr) == rootOf(addr)) {
			continue
		}
		c.s.hidden = true
		old := a.resMemo
		a.resMemo = map[string]*T{}
		a.differ = append(a.differ, p.sub(ix, iy))
		rest := a.resolve1(addr, at)
		a.differ = a.differ[:len(a.differ)-1]
		a.resMemo = old
		c.s.hidden = false
		v := a.StoreVal(c.s)
		if inner {
			v = p.substLoops(v, sub)
		}
		if v == rest {
			return v
		}
		return p.ite(p.eq(ix, iy), v, rest)
	}
	// value carried around a loop: the store follows the load
	var ids []string
	var ss []*store
	for _, c := range cs {
		ids = append(ids, strconv.Itoa(c.s.i.ID))
		ss = append(ss, c.s)
	}
	sort.Strings(ids)
	ver, vars := a.version(ss, at)
	return p.app("mem", strings.Join(ids, ",")+"@"+ver+map[bool]string{true: "+0"}[fresh], append([]*T{addr}, vars...)...)
}

// version names the state of the memory written by the stores at an
// instruction: the last place where it may have changed, and the iteration.
func (a *Analysis) version(ss []*store, at *Ins) (string, []*T) {
	vars := func(b *Block) []*T {
		var r []*T
		for _, l := range a.loopsOf(b) {
			for _, s := range ss {
				if l.Blocks[s.i.Blk] {
					r = append(r, a.p.k(l.ID))
					break
				}
			}
		}
		return r
	}
	b, lim := at.Blk, a.order[at]
	for {
		var last *Ins
		for _, s := range ss {
			if s.i.Blk == b && a.order[s.i] < lim && (last == nil || a.order[last] < a.order[s.i]) {
				last = s.i
			}
		}
		if last != nil {
			return "s" + strconv.Itoa(last.ID), vars(b)
		}
		d := a.dom[b]
		if d == nil {
			return "0", nil
		}
		changed := false
		for _, l := range a.loopsOf(d) {
			if !l.Blocks[b] {
				for _, s := range ss {
					changed = changed || l.Blocks[s.i.Blk]
				}
			}
		}
		seen := map[*Block]bool{d: true}
		st := append([]*Block{}, b.Preds...)
		for len(st) > 0 && !changed {
			x := st[len(st)-1]
			st = st[:len(st)-1]
			if seen[x] {
				continue
			}
			seen[x] = true
			for _, s := range ss {
				changed = changed || s.i.Blk == x
			}
			st = append(st, x.Preds...)
		}
		if changed {
			return "b" + strconv.Itoa(b.ID), vars(b)
		}
		b, lim = d, 1<<30
	}
}

// projectable: the part of the stored value that the path leads to is known.
func (a *Analysis) projectable(s *store, path []*T, sub map[int]*T) bool {
	v := s.i.Args[len(s.i.Args)-1]
	if v.Op == OpLoad {
		if len(sub) > 0 {
			for _, x := range path {
				if x.op == "ia" && len(x.args[1].vars) > 0 {
					return false
				}
			}
		}
		return true
	}
	for _, x := range path {
		if x.op != "fa" {
			return false
		}
	}
	return true
}

// project: the part of the stored value (path: outermost address last).
func (a *Analysis) project(s *store, path []*T) *T {
	if len(path) == 0 {
		return a.StoreVal(s)
	}
	v := s.i.Args[len(s.i.Args)-1]
	if v.Op == OpLoad {
		ad := a.op(v, 0)
		for k := len(path) - 1; k >= 0; k-- {
			ad = a.p.app(path[k].op, path[k].aux, append([]*T{ad}, path[k].args[1:]...)...)
		}
		return a.resolve(ad, v)
	}
	t := a.StoreVal(s)
	for k := len(path) - 1; k >= 0; k-- {
		if t.op == "ite" && len(t.args) == 3 {
			break
		}
		t = a.p.app("f", path[k].aux, t)
	}
	return t
}

// equalAddr: the store writes the address, for the returned values of its loop variables.
func (a *Analysis) equalAddr(s *store, addr *T, at *Ins) (map[int]*T, bool) {
	if s.name != "" {
		return nil, false
	}
	private := map[int]bool{}
	for _, l := range a.loopsOf(s.i.Blk) {
		if !l.Blocks[at.Blk] {
			private[l.ID] = true
		}
	}
	sub := map[int]*T{}
	if a.unify(s.addr, addr, private, sub) != 2 {
		return nil, false
	}
	for v, t := range sub {
		if t == nil || !a.inRangeSub(t, a.loopByID(v), sub) && !a.accessInRange(addr, t, a.loopByID(v), sub) {
			return nil, false
		}
	}
	for v := range private {
		if _, ok := sub[v]; !ok && s.addr.vars[v] {
			return nil, false
		}
	}
	return sub, true
}

// armStores: the value at an address of which the two arms of a branch each write.
func (a *Analysis) armStores(s1, s2 *store, addr *T, at *Ins, last func(fake *store) bool) *T {
	if s1.i.Blk == s2.i.Blk || a.loopOf[s1.i.Blk] != a.loopOf[s2.i.Blk] {
		return nil
	}
	sub1, ok1 := a.equalAddr(s1, addr, at)
	if !ok1 {
		return nil
	}
	sub2, ok2 := a.equalAddr(s2, addr, at)
	if !ok2 || len(sub1) != len(sub2) {
		return nil
	}
	for v, t := range sub1 {
		if sub2[v] != t {
			return nil
		}
	}
	// the nearest block that dominates both
	var br *Block
	for _, b := range a.rpo {
		if a.Dom(b, s1.i.Blk) && a.Dom(b, s2.i.Blk) && (br == nil || a.Dom(br, b)) {
			br = b
		}
	}
	if br == nil || br.Cond == nil || len(br.Succs) != 2 || br.Succs[0] == br.Succs[1] || a.loopOf[br] != a.loopOf[s1.i.Blk] {
		return nil
	}
	arm := func(k int, s *store) bool {
		to := br.Succs[k]
		if len(to.Preds) != 1 || !a.Dom(to, s.i.Blk) {
			return false
		}
		seen := map[*Block]bool{}
		st := []*Block{to}
		for len(st) > 0 {
			x := st[len(st)-1]
			st = st[:len(st)-1]
			if x == s.i.Blk || seen[x] {
				continue
			}
			seen[x] = true
			if !a.Dom(to, x) || x == at.Blk {
				return false
			}
			st = append(st, x.Succs...)
		}
		return true
	}
	x, y := s1, s2
	if !arm(0, x) {
		x, y = s2, s1
		if !arm(0, x) {
			return nil
		}
	}
	if !arm(1, y) {
		return nil
	}
	fake := &store{i: a.endOf(br), addr: s1.addr}
	if !a.settled(fake, at) || !last(fake) {
		return nil
	}
	v1, v2 := a.p.substLoops(a.StoreVal(x), sub1), a.p.substLoops(a.StoreVal(y), sub1)
	if v1 == v2 {
		return v1
	}
	return a.p.ite(a.p.substLoops(a.at(br.Cond, br), sub1), v1, v2)
}

// armStore: the value at an address written in one arm of a branch, and before it.
func (a *Analysis) armStore(s *store, addr *T, at *Ins, last func(fake *store) bool) *T {
	if a.Dom(s.i.Blk, at.Blk) {
		return nil
	}
	sub, ok := a.equalAddr(s, addr, at)
	if !ok {
		return nil
	}
	var br *Block
	for _, b := range a.rpo {
		if b != s.i.Blk && a.Dom(b, s.i.Blk) && (br == nil || a.Dom(br, b)) {
			br = b
		}
	}
	if br == nil || br.Cond == nil || len(br.Succs) != 2 || br.Succs[0] == br.Succs[1] || a.loopOf[br] != a.loopOf[s.i.Blk] {
		return nil
	}
	k := 0
	if br.Succs[1] == s.i.Blk {
		k = 1
	} else if br.Succs[0] != s.i.Blk {
		return nil
	}
	if len(s.i.Blk.Preds) != 1 {
		return nil
	}
	common := map[int]bool{}
	for _, l := range a.loopsOf(s.i.Blk) {
		if l.Blocks[at.Blk] {
			common[l.ID] = true
		}
	}
	if len(common) > 0 && !(a.injective(s.addr, a.varsUpTo(s.i.Blk, nil)) && a.injective(addr, common)) {
		return nil
	}
	fake := &store{i: a.endOf(br), addr: s.addr}
	if !a.settled(fake, at) || !last(fake) {
		return nil
	}
	s.hidden = true
	old := a.resMemo
	a.resMemo = map[string]*T{}
	rest := a.resolve1(addr, at)
	a.resMemo = old
	s.hidden = false
	v := a.p.substLoops(a.StoreVal(s), sub)
	if v == rest {
		return v
	}
	cond := a.p.substLoops(a.at(br.Cond, br), sub)
	if k == 1 {
		v, rest = rest, v
	}
	return a.p.ite(cond, v, rest)
}

// diffIndex: the addresses are equal exactly if two indices are.
func diffIndex(x, y *T) (*T, *T) {
	if x.op != y.op || x == y {
		return nil, nil
	}
	switch x.op {
	case "ia":
		if x.args[0] == y.args[0] {
			return x.args[1], y.args[1]
		}
		if x.args[1] == y.args[1] {
			return diffIndex(x.args[0], y.args[0])
		}
	case "fa":
		if x.aux == y.aux {
			return diffIndex(x.args[0], y.args[0])
		}
	case "obj", "call":
		// objects made in a loop, one per iteration: the last arguments are the loop indices
		if x.aux != y.aux || len(x.args) != len(y.args) || x.op == "call" && callID(x) == "" {
			return nil, nil
		}
		n := len(x.args) - 1
		for k := 0; k < n; k++ {
			if x.args[k] != y.args[k] {
				return nil, nil
			}
		}
		if n >= 0 && (len(x.args[n].vars) > 0 || len(y.args[n].vars) > 0) {
			return x.args[n], y.args[n]
		}
	}
	return nil, nil
}

// zeroAt is the initial content of a fresh object.
func (a *Analysis) zeroAt(addr *T, i *Ins) *T {
	t := i.Typ
	if i.Op == OpAlloc {
		t = ptrElem(t)
	}
	// follow the path for the type
	var path []*T
	for x := addr; x.op != "obj"; x = x.args[0] {
		path = append(path, x)
	}
	for k := len(path) - 1; k >= 0; k-- {
		if t == nil {
			break
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			nm := path[k].aux[strings.LastIndexByte(path[k].aux, '.')+1:]
			t = nil
			for q := 0; q < u.NumFields(); q++ {
				if u.Field(q).Name() == nm {
					t = u.Field(q).Type()
				}
			}
		case *types.Slice:
			t = u.Elem()
		case *types.Array:
			t = u.Elem()
		case *types.Map:
			t = u.Elem()
		default:
			t = nil
		}
	}
	if t != nil {
		return a.term(zeroOf(a.f, t))
	}
	return a.p.c(0)
}

// settled: when at is executed, the store has been executed (for all its iterations, if its loop does not contain at).
func (a *Analysis) settled(s *store, at *Ins) bool {
	// outermost loop around the store that does not contain the load
	var out *Loop
	for _, l := range a.loopsOf(s.i.Blk) {
		if !l.Blocks[at.Blk] {
			out = l
		}
	}
	if out == nil {
		return a.DomI(s.i, at)
	}
	// all loops from the store's innermost to out must run to exhaustion and execute the store in every iteration
	for _, l := range a.loopsOf(s.i.Blk) {
		if l.Blocks[at.Blk] {
			break
		}
		if l.Main == nil {
			return false
		}
		inner := s.i.Blk
		// lift to the header of the loop directly inside l
		for x := a.loopOf[s.i.Blk]; x != nil && x != l; x = x.Parent {
			inner = x.Header
		}
		if a.loopOf[s.i.Blk] == l {
			inner = s.i.Blk
		}
		for _, t := range l.Latches {
			if !a.Dom(inner, t) {
				return false
			}
		}
	}
	// the load is reached only through the exhausted exit of the outer loop
	if !a.Dom(out.Header, at.Blk) {
		return false
	}
	for _, e := range out.Exits {
		if out.Main != nil && e.B == out.Main.B && e.K == out.Main.K {
			continue
		}
		to := e.To()
		if to == at.Blk || a.reachNoLoop(to, at.Blk, out) {
			return false
		}
	}
	return true
}

// reachNoLoop: b is reachable from x without re-entering loop l.
func (a *Analysis) reachNoLoop(x, b *Block, l *Loop) bool {
	seen := map[*Block]bool{}
	st := []*Block{x}
	for len(st) > 0 {
		y := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[y] || y == l.Header {
			continue
		}
		seen[y] = true
		if y == b {
			return true
		}
		st = append(st, y.Succs...)
	}
	return false
}

// survives: what o wrote can still be there when at is executed although s wrote the same address.
func (a *Analysis) survives(o, s *store, at *Ins) bool {
	var out *Loop
	for _, l := range a.loopsOf(s.i.Blk) {
		if !l.Blocks[at.Blk] {
			out = l
		}
	}
	if out == nil {
		return a.reachAvoid(o.i, at, nil, s.i)
	}
	if out.Blocks[o.i.Blk] {
		// same outer loop: the other store may come later in it
		if o.i.Blk == s.i.Blk {
			return a.order[o.i] > a.order[s.i]
		}
		// o precedes s in every iteration?
		if a.DomI(o.i, s.i) && a.loopOf[o.i.Blk] == a.loopOf[s.i.Blk] {
			return false
		}
		// o never follows s in an iteration, and other iterations write elsewhere
		if o.name == "" && o.addr != nil && !a.reachAvoid(s.i, o.i, func(b *Block) bool { return b == out.Header }, nil) && a.injective(o.addr, a.varsUpTo(o.i.Blk, out)) {
			return false
		}
		return true
	}
	return a.reachAvoid(o.i, at, func(b *Block) bool { return b == out.Header }, nil)
}

// match compares the address of a store with a load address.
// 0: different; 1: may be equal; 2: equal under the returned substitution of the store's private loops.
func (a *Analysis) match(s *store, addr *T, at *Ins) (map[int]*T, int) {
	private := map[int]bool{}
	for _, l := range a.loopsOf(s.i.Blk) {
		if !l.Blocks[at.Blk] {
			private[l.ID] = true
		}
	}
	sa := s.addr
	// a store that follows the load in a common loop happened in an earlier iteration
	common := map[int]bool{}
	for _, l := range a.loopsOf(s.i.Blk) {
		if l.Blocks[at.Blk] {
			common[l.ID] = true
		}
	}
	sub := map[int]*T{}
	r := a.unify(sa, addr, private, sub)
	if r == 0 {
		// may still be equal for different iterations of common loops
		if len(common) > 0 && !a.DomI(s.i, at) {
			if a.mayAlias(sa, addr) {
				return nil, 1
			}
		} else if len(common) > 0 {
			// written in this iteration at another place; an earlier iteration may have hit this one
			if a.mayAlias(sa, addr) {
				return nil, 1
			}
		}
		return nil, 0
	}
	if r == 2 {
		for v, t := range sub {
			l := a.loopByID(v)
			if t == nil {
				r = 1
			} else if !a.inRangeSub(t, l, sub) && !a.accessInRange(addr, t, l, sub) {
				r = 1
			}
		}
		for v := range private {
			if _, ok := sub[v]; !ok && sa.vars[v] {
				r = 1
			}
		}
		if r == 2 && !a.DomI(s.i, at) && len(common) > 0 && (sa == addr || len(private) > 0) && a.sameIterAfter(s, at) && a.injective(addr, common) && a.injective(sa, a.varsUpTo(s.i.Blk, nil)) {
			// written after the load in the same iteration, elsewhere in the others
			return nil, 0
		}
		if r == 2 && !a.DomI(s.i, at) && len(private) == 0 {
			r = 1
		}
	}
	return sub, r
}

// accessInRange: the access at addr itself shows that t is below the trip count of l.
func (a *Analysis) accessInRange(addr, t *T, l *Loop, sub map[int]*T) bool {
	tr := a.tripSub(l, sub)
	// the object was made in iteration t of l
	if r := rootOf(addr); r.op == "obj" || r.op == "call" {
		id := r.aux
		if r.op == "call" {
			id = callID(r)
		}
		if i := a.insOf[id]; i != nil {
			ls := a.loopsOf(i.Blk)
			for k, x := range ls {
				if x == l && len(r.args)-1-k >= 0 && r.args[len(r.args)-1-k] == t {
					return true
				}
			}
		}
	}
	// an object made in iteration t of a loop with as many iterations
	if r := rootOf(addr); r.op == "obj" && tr != nil {
		if i := a.insOf[r.aux]; i != nil {
			for k, x := range a.loopsOf(i.Blk) {
				if q := len(r.args) - 1 - k; q >= 0 && r.args[q] == t && a.TripOf(x) != nil && a.tripSub(x, nil) == tr {
					return true
				}
			}
		}
	}
	for x := addr; x.op == "ia" || x.op == "fa"; x = x.args[0] {
		if x.op != "ia" {
			continue
		}
		n := a.lenT(x.args[0])
		// index of the access = t + c, length = trip + c
		d, ok := a.p.sub(x.args[1], t).isC()
		if tr == nil || !ok {
			continue
		}
		lo, ok2 := a.lower(t)
		if lo2, ok3 := a.lower(a.p.sub(tr, a.p.sub(n, a.p.c(d)))); ok3 && lo2 >= 0 && (ok2 && lo >= 0 || d <= 0) {
			return true
		}
	}
	return false
}

// sameIterAfter: the store is executed after the load within one iteration of their innermost common loop.
func (a *Analysis) sameIterAfter(s *store, at *Ins) bool {
	if a.DomI(at, s.i) {
		return true
	}
	var l *Loop
	for _, x := range a.loopsOf(s.i.Blk) {
		if x.Blocks[at.Blk] && (l == nil || x.Depth > l.Depth) {
			l = x
		}
	}
	if l == nil {
		return false
	}
	return !a.reachAvoid(s.i, at, func(b *Block) bool { return b == l.Header }, nil)
}

// injective: different iterations of the loops give different addresses.
func (a *Analysis) injective(addr *T, vars map[int]bool) bool {
	open := map[int]bool{}
	for v := range vars {
		if !addr.vars[v] {
			return false
		}
		open[v] = true
	}
	var idx []*T
	for x := addr; ; x = x.args[0] {
		if x.op == "ia" {
			idx = append(idx, x.args[1])
		} else if x.op == "ld" || x.op == "fa" || x.op == "sl" {
			// pointers stored at different places are taken to be different
		} else if x.op == "obj" {
			for _, k := range x.args {
				idx = append(idx, k) // one object per iteration
			}
			break
		} else if x.op == "call" && callID(x) != "" {
			// results of different executions of a call are taken to be different
			for k := len(x.args) - 1; k >= 0 && x.args[k].op == "k"; k-- {
				idx = append(idx, x.args[k])
			}
			break
		} else {
			break
		}
	}
	for again := true; again; {
		again = false
		for _, t := range idx {
			var vs []int
			for v := range open {
				if t.vars[v] {
					vs = append(vs, v)
				}
			}
			ts, co, _ := parts(t)
			if len(vs) == 1 {
				n := 0
				for j, x := range ts {
					if x.vars[vs[0]] {
						n++
						if x == a.p.k(vs[0]) && co[j] != 0 {
							continue
						}
						if x.op == "*" && containsTerm(x, a.p.k(vs[0])) {
							continue
						}
						n += 2
					}
				}
				if n == 1 {
					delete(open, vs[0])
					again = true
				}
			}
			if len(vs) == 2 {
				for q := 0; q < 2; q++ {
					k1, k2 := a.p.k(vs[q]), a.p.k(vs[1-q])
					tr := a.TripOf(a.loopByID(vs[1-q]))
					if tr == nil {
						continue
					}
					rest := a.p.sub(a.p.sub(t, k2), a.p.mul(tr, k1))
					if !rest.vars[vs[0]] && !rest.vars[vs[1]] {
						delete(open, vs[0])
						delete(open, vs[1])
						again = true
						break
					}
				}
			}
		}
	}
	return len(open) == 0
}

// mayAlias: conservative comparison ignoring the loop variables.
func (a *Analysis) mayAlias(x, y *T) bool {
	if dx, dy := addrDepth(x), addrDepth(y); dx > 0 && dy > 0 && dx != dy {
		for ; dx > dy; dx-- {
			x = x.args[0]
		}
		for ; dy > dx; dy-- {
			y = y.args[0]
		}
		return a.mayAlias(x, y)
	}
	if x.op != y.op {
		return rootOf(x).op != "obj" || rootOf(y).op != "obj" || rootOf(x).aux == rootOf(y).aux
	}
	switch x.op {
	case "fa":
		return x.aux == y.aux && a.mayAlias(x.args[0], y.args[0])
	case "ia":
		if !a.mayAlias(x.args[0], y.args[0]) {
			return false
		}
		if n, ok := a.p.sub(x.args[1], y.args[1]).isC(); ok && n != 0 && len(x.args[1].vars) == 0 {
			return false
		}
		return !apart(x.args[1], y.args[1]) && !a.distinct(x.args[1], y.args[1])
	case "mi":
		return a.mayAlias(x.args[0], y.args[0])
	case "ld":
		// pointers kept at different places are taken to be different
		if x == y || len(x.vars) == 0 && len(y.vars) == 0 {
			return x == y
		}
		if rootOf(x.args[0]).op != rootOf(y.args[0]).op {
			return false
		}
		return a.mayAlias(x.args[0], y.args[0])
	case "obj":
		if x.aux == y.aux && len(x.args) == len(y.args) {
			for k := range x.args {
				if a.distinct(x.args[k], y.args[k]) {
					return false
				}
			}
		}
		return x.aux == y.aux
	case "call":
		if callID(x) != "" && callID(y) != "" {
			return x.aux == y.aux
		}
	}
	return x == y || len(x.vars) > 0
}

// distinct: the indices have no variable in common and differ for all values
// of their variables.
func (a *Analysis) distinct(x, y *T) bool {
	for v := range x.vars {
		if y.vars[v] {
			return false
		}
	}
	d := a.p.sub(x, y)
	if lo, ok := a.lower(d); ok && lo >= 1 {
		return true
	}
	if lo, ok := a.lower(a.p.scale(d, -1)); ok && lo >= 1 {
		return true
	}
	return a.known(d)
}

// known: the term is known not to be zero where an access is being resolved.
func (a *Analysis) known(d *T) bool {
	for _, e := range a.differ {
		if d == e || a.p.scale(d, -1) == e {
			return true
		}
	}
	return false
}

// apart: the indices differ for all values of their variables, taken to be
// independent, because of their remainders.
func apart(x, y *T) bool {
	g := int64(0)
	co := map[string]int64{}
	add := func(t *T, sign int64) int64 {
		ms, c := monos(t)
		for _, m := range ms {
			key, dep := "", false
			for _, f := range m.at {
				key += itoa(f.id) + "*"
				dep = dep || len(f.vars) > 0
			}
			if dep {
				g = gcd(g, m.co)
			} else {
				co[key] += sign * m.co
			}
		}
		return c
	}
	d := add(x, 1) - add(y, -1)
	for _, c := range co {
		g = gcd(g, c)
	}
	return g != 0 && d%g != 0
}

func gcd(x, y int64) int64 {
	for y != 0 {
		x, y = y, x%y
	}
	if x < 0 {
		return -x
	}
	return x
}

// unify solves x = y for the private loop variables of x.
func (a *Analysis) unify(x, y *T, private map[int]bool, sub map[int]*T) int {
	x = a.p.substLoops(x, sub)
	if x == y {
		return 2
	}
	if dx, dy := addrDepth(x), addrDepth(y); dx > 0 && dy > 0 && dx != dy {
		// a part of the other?
		for ; dx > dy; dx-- {
			x = x.args[0]
		}
		for ; dy > dx; dy-- {
			y = y.args[0]
		}
		if a.unify(x, y, private, sub) != 0 {
			return 1
		}
		return 0
	}
	switch {
	case x.op == "fa" && y.op == "fa":
		if x.aux != y.aux {
			return 0
		}
		return a.unify(x.args[0], y.args[0], private, sub)
	case x.op == "ia" && y.op == "ia":
		r := a.unify(x.args[0], y.args[0], private, sub)
		if r == 0 {
			return 0
		}
		q := a.unifyInt(x.args[1], y.args[1], private, sub)
		if q < r {
			return q
		}
		return r
	case x.op == "mi" && y.op == "mi":
		r := a.unify(x.args[0], y.args[0], private, sub)
		if r == 0 {
			return 0
		}
		if a.p.substLoops(x.args[1], sub) == y.args[1] {
			return r
		}
		return 1
	case x.op == "obj" && y.op == "obj":
		if x.aux != y.aux {
			return 0
		}
		r := 2
		for k := range x.args {
			if k >= len(y.args) {
				return 1
			}
			q := a.unifyInt(x.args[k], y.args[k], private, sub)
			if q < r {
				r = q
			}
		}
		return r
	case x.op == "fa" || y.op == "fa" || x.op == "ia" || y.op == "ia":
		// one is an address inside the other, or unrelated
		if x.op != y.op {
			if prefixOf(x, y) || prefixOf(y, x) {
				return 1
			}
			return 0
		}
	}
	if (x.op == "mem" || x.op == "phi" || x.op == "ite" || x.op == "rec") || (y.op == "mem" || y.op == "phi" || y.op == "ite" || y.op == "rec") {
		return 1
	}
	if x.op == y.op && (len(x.vars) > 0 || len(y.vars) > 0) {
		// the same expression of another iteration
		return a.unifyArgs(x, y, private, sub)
	}
	return 0
}

func (a *Analysis) unifyArgs(x, y *T, private map[int]bool, sub map[int]*T) int {
	if x.aux != y.aux || len(x.args) != len(y.args) {
		return 0
	}
	if x.op == "+" || x.op == "*" {
		return a.unifyInt(x, y, private, sub)
	}
	r := 2
	for k := range x.args {
		xa := a.p.substLoops(x.args[k], sub)
		if xa == y.args[k] {
			continue
		}
		q := 0
		if xa.op == "k" || xa.op == "+" || y.args[k].op == "+" || y.args[k].op == "k" {
			q = a.unifyInt(xa, y.args[k], private, sub)
		} else {
			q = a.unify(xa, y.args[k], private, sub)
		}
		if q < r {
			r = q
		}
	}
	return r
}

// prefixOf: x is an address on the way to y (whole-value store or load).
// addrDepth: the number of fields and indices from the root.
func addrDepth(t *T) int {
	n := 0
	for t.op == "fa" || t.op == "ia" {
		t = t.args[0]
		n++
	}
	return n
}

func prefixOf(x, y *T) bool {
	for y.op == "fa" || y.op == "ia" {
		y = y.args[0]
		if x == y {
			return true
		}
	}
	return false
}

// unifyInt solves integer terms.
// inLoopRange: 0 when x is never a value of the counter of loop v, else 2.
func (a *Analysis) inLoopRange(v int, x *T) int {
	p := a.p
	tr := a.TripOf(a.loopByID(v))
	if n, ok := x.isC(); ok {
		if n < 0 {
			return 0
		}
		if tr != nil {
			if m, ok := tr.isC(); ok && n >= m {
				return 0
			}
		}
	} else if lo, ok := a.lower(p.scale(x, -1)); ok && lo >= 1 {
		return 0 // always negative
	} else if tr != nil {
		if lo, ok := a.lower(p.sub(x, tr)); ok && lo >= 0 {
			return 0 // always beyond the end
		}
	}
	return 2
}

func (a *Analysis) unifyInt(x, y *T, private map[int]bool, sub map[int]*T) int {
	p := a.p
	x = p.substLoops(x, sub)
	d := p.sub(x, y)
	if n, ok := d.isC(); ok {
		if n == 0 {
			return 2
		}
		return 0
	}
	ts, co, c := parts(d)
	// one unknown with coefficient ±1
	var pv []int
	for v := range private {
		if _, ok := sub[v]; !ok && d.vars[v] {
			pv = append(pv, v)
		}
	}
	sort.Ints(pv)
	if len(pv) == 1 {
		v := pv[0]
		kv := p.k(v)
		for j, t := range ts {
			if t == kv && (co[j] == 1 || co[j] == -1) {
				// kv*co + rest = 0
				rest := p.sub(d, p.scale(kv, co[j]))
				if !rest.vars[v] {
					sub[v] = p.scale(rest, -co[j])
					return a.inLoopRange(v, sub[v])
				}
			}
		}
		// c * kv with a common factor
		for j, t := range ts {
			if t == kv && len(ts) >= 1 {
				m := co[j]
				if m < 0 {
					m = -m
				}
				rest := p.sub(d, p.scale(kv, co[j]))
				if rest.vars[v] {
					break
				}
				rt, rc, rn := parts(rest)
				div := true
				for q := range rt {
					if rc[q]%m != 0 {
						div = false
					}
				}
				if div && rn%m != 0 {
					return 0 // the remainders differ
				}
				if div {
					cs := make([]int64, len(rc))
					for q := range rc {
						cs[q] = -rc[q] / co[j]
					}
					sub[v] = p.lin(rt, cs, -rn/co[j])
					return a.inLoopRange(v, sub[v])
				}
				// constants only: never equal
				if len(rt) == 0 {
					return 0
				}
			}
		}
		// C*k + r with symbolic C: r = C*q
		for _, t := range ts {
			if t.op == "*" && containsTerm(t, kv) {
				return a.unifyFactor(d, kv, v, sub)
			}
		}
		return 1
	}
	if len(pv) == 2 {
		if lo, ok := a.lower(d); ok && lo >= 1 {
			return 0
		}
		if lo, ok := a.lower(p.scale(d, -1)); ok && lo >= 1 {
			return 0
		}
		return a.unifyRowCol(x, y, pv, sub)
	}
	if len(pv) == 0 {
		_ = c
		if len(d.vars) > 0 || len(ts) > 0 {
			// symbolic difference: provably non-zero?
			if lo, ok := a.lower(d); ok && lo >= 1 {
				return 0
			}
			if lo, ok := a.lower(p.scale(d, -1)); ok && lo >= 1 {
				return 0
			}
			if a.known(d) {
				return 0
			}
			return 1
		}
	}
	return 1
}

// unifyFactor solves C*k = y where y is C*q.
func (a *Analysis) unifyFactor(d, kv *T, v int, sub map[int]*T) int {
	p := a.p
	ts, co, c := parts(d)
	var fac *T
	var sign int64
	rest := p.c(c)
	for j, t := range ts {
		if t.op == "*" && containsTerm(t, kv) && fac == nil {
			var fs []*T
			used := false
			for _, x := range t.args {
				if x == kv && !used {
					used = true
					continue
				}
				fs = append(fs, x)
			}
			if !used {
				return 1
			}
			fac = p.c(1)
			for _, x := range fs {
				fac = p.mul(fac, x)
			}
			sign = co[j]
			continue
		}
		rest = p.add(rest, p.scale(t, co[j]))
	}
	if fac == nil || rest.vars[v] {
		return 1
	}
	q := a.quotient(p.scale(rest, -1), fac)
	if q == nil || (sign != 1 && sign != -1) {
		return 1
	}
	sub[v] = p.scale(q, sign)
	return 2
}

// quotient returns q with t = f*q, or nil.
func (a *Analysis) quotient(t, f *T) *T {
	p := a.p
	if n, ok := t.isC(); ok && n == 0 {
		return p.c(0)
	}
	ts, co, c := parts(t)
	if c != 0 {
		return nil
	}
	q := p.c(0)
	fa := atoms(f)
	if _, ok := f.isC(); ok || f.op == "+" {
		return nil
	}
	for j, x := range ts {
		xs := append([]*T{}, atoms(x)...)
		for _, g := range fa {
			found := false
			for k, y := range xs {
				if y == g {
					xs = append(xs[:k:k], xs[k+1:]...)
					found = true
					break
				}
			}
			if !found {
				return nil
			}
		}
		r := p.c(co[j])
		for _, y := range xs {
			r = p.mul(r, y)
		}
		q = p.add(q, r)
	}
	return q
}

// unifyRowCol: C*k1 + k2 against C*q + r, where k2 runs below C.
func (a *Analysis) unifyRowCol(x, y *T, pv []int, sub map[int]*T) int {
	p := a.p
	for t := 0; t < 2; t++ {
		k1, k2 := p.k(pv[t]), p.k(pv[1-t])
		tr := a.TripOf(a.loopByID(pv[1-t]))
		if tr == nil {
			continue
		}
		// x - k2 must be C*k1 with C = trip of k2
		rx := p.sub(x, k2)
		q := p.sub(rx, p.mul(tr, k1))
		if len(q.vars) > 0 {
			continue
		}
		// split y into multiples of C and the rest
		ts, co, c := parts(p.sub(y, q))
		quo, rem := p.c(0), p.c(c)
		for j, z := range ts {
			var m *T
			if n, isC := tr.isC(); isC {
				if co[j]%n == 0 {
					m = p.scale(z, co[j]/n)
				}
			} else if g := a.quotient(p.scale(z, co[j]), tr); g != nil {
				m = g
			}
			if m != nil {
				quo = p.add(quo, m)
			} else {
				rem = p.add(rem, p.scale(z, co[j]))
			}
		}
		if n, isC := tr.isC(); isC {
			if m, ok := rem.isC(); ok {
				fl := (m - modNorm(m, n)) / n
				quo = p.add(quo, p.c(fl))
				rem = p.c(m - fl*n)
				if hi, ok := quo.isC(); ok && hi < 0 {
					return 0
				}
			}
		}
		sub[pv[t]] = quo
		sub[pv[1-t]] = rem
		return 2
	}
	return 1
}

// tripSub is the trip count of a loop for given values of the loops around it.
func (a *Analysis) tripSub(l *Loop, sub map[int]*T) *T {
	tr := a.TripOf(l)
	if tr == nil || len(tr.vars) == 0 {
		return tr
	}
	m := map[int]*T{}
	for v, t := range sub {
		if t != nil && tr.vars[v] {
			m[v] = t
		}
	}
	if len(m) == 0 {
		return tr
	}
	return a.p.substLoops(tr, m)
}

func (a *Analysis) inRange(t *T, l *Loop) bool { return a.inRangeSub(t, l, nil) }

// inRangeSub: 0 <= t < trip(l), provably.
func (a *Analysis) inRangeSub(t *T, l *Loop, sub map[int]*T) bool {
	tr := a.tripSub(l, sub)
	if tr == nil {
		return false
	}
	lo, ok := a.lower(t)
	if !ok || lo < 0 {
		return false
	}
	d := a.p.sub(tr, t) // must be >= 1
	lo, ok = a.lower(d)
	// values that are excluded where the access is resolved
	for n := 0; ok && lo < 1 && n < len(a.differ); n++ {
		x, hit := a.p.sub(d, a.p.c(lo)), false
		for _, e := range a.differ {
			hit = hit || e == x || a.p.scale(e, -1) == x
		}
		if !hit {
			break
		}
		lo++
	}
	if ok && lo >= 1 {
		return true
	}
	return false
}

// nonNegAtom: values that cannot be negative.
func nonNegAtom(t *T) bool {
	switch t.op {
	case "len", "k", "%", "mod", "byteof", "be":
		return true
	case "*":
		for _, x := range t.args {
			if !nonNegAtom(x) {
				return false
			}
		}
		return true
	}
	return false
}

// lower is a provable lower bound of an integer term: loop variables are below their trip counts.
func (a *Analysis) lower(t *T) (int64, bool) {
outer:
	for try := 0; try < 6; try++ {
		ts, co, c := parts(t)
		ok := true
		var neg *T
		for j, x := range ts {
			if co[j] >= 0 {
				if !nonNegAtom(x) && !a.assumeNonNeg(x) && a.rng[x] == nil {
					ok = false
				}
				continue
			}
			ok = false
			if neg == nil && a.rng[x] != nil {
				t = a.p.subst(t, map[*T]*T{x: a.p.sub(a.rng[x], a.p.c(1))})
				continue outer
			}
			if neg == nil && (x.op == "k" || x.op == "*") {
				neg = x
			}
		}
		if ok {
			return c, true
		}
		// replace a negative loop variable k by trip-1
		if neg == nil {
			return 0, false
		}
		var kv *T
		for _, x := range atoms(neg) {
			if x.op == "k" {
				kv = x
			}
		}
		if kv == nil {
			return 0, false
		}
		tr := a.TripOf(a.loopByID(atoi(kv.aux)))
		if tr == nil || tr.vars[atoi(kv.aux)] {
			return 0, false
		}
		t = a.p.subst(t, map[*T]*T{kv: a.p.sub(tr, a.p.c(1))})
	}
	return 0, false
}

// assumeNonNeg: sizes read from descriptions of databases and matrices.
func (a *Analysis) assumeNonNeg(t *T) bool {
	if t.op == "*" {
		for _, x := range t.args {
			if !nonNegAtom(x) && !a.assumeNonNeg(x) {
				return false
			}
		}
		return true
	}
	if t.op == "ld" && t.args[0].op == "fa" {
		switch t.args[0].aux[strings.LastIndexByte(t.args[0].aux, '.')+1:] {
		case "NumRows", "NumColumns", "BlockSize", "rows", "cols", "N", "L", "M", "ElementSize", "NumServers", "repetitions", "executions":
			return true
		}
	}
	if t.op == "k" || t.op == "kend" {
		return true
	}
	return false
}

// listElem: element j of a list built by append.
func (a *Analysis) listElem(s, j *T, at *Ins) *T {
	p := a.p
	switch s.op {
	case "one":
		if n, ok := j.isC(); ok && n >= 0 && int(n) < len(s.args) {
			return s.args[n]
		}
		return p.app("elem", "", s, j)
	case "cat":
		la := a.lenT(s.args[0])
		d := p.sub(j, la)
		if lo, ok := a.lower(d); ok && lo >= 0 {
			return a.elemOf(s.args[1], d, at)
		}
		if lo, ok := a.lower(p.sub(p.sub(la, j), p.c(1))); ok && lo >= 0 {
			return a.elemOf(s.args[0], j, at)
		}
		return p.app("elem", "", s, j)
	case "build":
		n0, ok := a.lenT(s.args[0]).isC()
		n1, ok1 := a.lenT(s.args[1]).isC()
		if !ok || !ok1 || n1 < 1 {
			return p.app("elem", "", s, j)
		}
		if lo, ok := a.lower(p.sub(p.c(n0-1), j)); ok && lo >= 0 && n0 > 0 {
			return a.elemOf(s.args[0], j, at)
		}
		// element r of piece q
		d := p.sub(j, p.c(n0))
		if lo, ok := a.lower(d); !ok || lo < 0 {
			if n0 != 0 {
				return p.app("elem", "", s, j)
			}
		}
		q, m := d, p.c(0)
		if n1 > 1 {
			ts, co, c := parts(d)
			q, m = p.c((c-modNorm(c, n1))/n1), p.c(modNorm(c, n1))
			for k, t := range ts {
				if co[k]%n1 == 0 {
					q = p.add(q, p.scale(t, co[k]/n1))
				} else {
					m = p.add(m, p.scale(t, co[k]))
				}
			}
			lo, ok := a.lower(m)
			hi, ok2 := a.lower(p.sub(p.c(n1-1), m))
			if !ok || !ok2 || lo < 0 || hi < 0 {
				return p.app("elem", "", s, j)
			}
		}
		id := atoi(s.aux)
		to := map[int]*T{id: a.dirIndex(q, a.loopByID(id))}
		if n1 == 1 && s.args[1].op == "one" {
			return p.substLoops(s.args[1].args[0], to)
		}
		return a.elemOf(p.substLoops(s.args[1], to), m, at)
	}
	return nil
}

// dirIndex converts the order of execution into the canonical iteration number.
func (a *Analysis) dirIndex(j *T, l *Loop) *T {
	if l != nil && l.Kind == "int" && l.Desc {
		if tr := a.TripOf(l); tr != nil {
			return a.p.sub(a.p.sub(tr, a.p.c(1)), j)
		}
	}
	return j
}

func (a *Analysis) elemOf(s, j *T, at *Ins) *T {
	if t := a.listElem(s, j, at); t != nil {
		return t
	}
	return a.resolve(a.elemAddr(s, j), at)
}

// ownRoot: the object written is made anew in every iteration of the loops around b.
func (a *Analysis) ownRoot(addr *T, b *Block) bool {
	r := rootOf(addr)
	for r.op == "ld" || r.op == "mem" {
		r = rootOf(r.args[0])
	}
	if r.op != "obj" && r.op != "call" {
		return false
	}
	for _, l := range a.loopsOf(b) {
		if !contains(r.args, a.p.k(l.ID)) {
			return false
		}
	}
	return true
}

// varsUpTo: the loops around b, up to and including out.
func (a *Analysis) varsUpTo(b *Block, out *Loop) map[int]bool {
	m := map[int]bool{}
	for _, l := range a.loopsOf(b) {
		m[l.ID] = true
		if l == out {
			break
		}
	}
	return m
}
