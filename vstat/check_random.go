package main

// P01: secrets are fresh cryptographic randomness.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["P01"] = checkP01
	assumptions["P01"] = []string{"crypto/rand, AES and counter mode, and the group library's RandomScalar are sound"}
}

// reachedFns: the functions of the repository that may run in a call of the roots.
func (p *Program) reachedFns(roots []*ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var dfs func(g *ssa.Function)
	dfs = func(g *ssa.Function) {
		if seen[g] || !p.inRepo(g) {
			return
		}
		seen[g] = true
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				var ops [16]*ssa.Value
				for _, o := range in.Operands(ops[:0]) {
					if h, ok := (*o).(*ssa.Function); ok {
						dfs(h)
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
					hs, _ := p.impls(c.Common())
					for _, h := range hs {
						dfs(h)
					}
				}
			}
		}
	}
	for _, f := range roots {
		dfs(f)
	}
	return seen
}

// readers: the calls that read random bytes, and which result is their error.
var readers = map[string]string{
	"io.ReadFull": "1", "io.ReadAtLeast": "1", "crypto/rand.Read": "1", "(io.Reader).Read": "1", "crypto/rand.Int": "1",
	"(*bufio.Reader).Read": "1",
}

// errStops: when the call fails, no return is reached except with an error.
func (a *Analysis) errStops(i *Ins, res string) (bool, string) {
	call := a.term(i)
	isErr := func(lit *T) (bool, bool) {
		neg := false
		if lit.op == "!" {
			lit, neg = lit.args[0], true
		}
		if lit.op != "==" || len(lit.args) != 2 {
			return false, false
		}
		for k := 0; k < 2; k++ {
			if x := lit.args[k]; lit.args[1-k].op == "nil" && (x.op == "x" && x.aux == res && x.args[0] == call || res == "" && x == call) {
				return true, !neg
			}
		}
		return false, false
	}
	type st struct {
		b      *Block
		failed bool
	}
	seen := map[st]bool{}
	var bad *Block
	var walk func(s st)
	walk = func(s st) {
		if seen[s] || bad != nil {
			return
		}
		seen[s] = true
		b := s.b
		if b.Term == TReturn {
			// an error that is not nil is fine
			if n := len(b.Rets); n > 0 && s.failed || n > 0 && !s.failed {
				t := a.at(b.Rets[n-1], b)
				if t.op == "x" && t.aux == res && t.args[0] == call || res == "" && t == call || a.isErrResult(b) {
					return
				}
			}
			bad = b
			return
		}
		if b.Cond != nil && len(b.Succs) == 2 {
			if is, nilOnTrue := isErr(a.at(b.Cond, b)); is {
				k := 0
				if nilOnTrue {
					k = 1
				}
				walk(st{b.Succs[k], true})
				return
			}
		}
		for _, x := range b.Succs {
			walk(st{x, s.failed})
		}
	}
	walk(st{i.Blk, false})
	if bad != nil {
		return false, a.f.whereB(bad)
	}
	return true, ""
}

// isErrResult: the block returns an error that is certainly not nil.
func (a *Analysis) isErrResult(b *Block) bool {
	if len(b.Rets) == 0 {
		return false
	}
	for _, e := range a.acceptBlocks() {
		if e == b {
			return false
		}
	}
	return true
}

// osBytes: the bytes 0..n-1 of the object are distinct bytes of one fill from the system's generator.
func (a *Analysis) osBytes(ptr *T, n int, at *Ins) (*T, string) {
	var src *T
	seen := map[*T]bool{}
	for k := 0; k < n; k++ {
		e := a.elemAt(ptr, a.p.c(int64(k)), at)
		if e.op != "filled" || !osSource(e) || seen[e] {
			return nil, "byte " + sprint(k) + " is " + short2(e)
		}
		seen[e] = true
		s := a.p.app("src", e.aux, e.args[:len(e.args)-1]...)
		if src == nil {
			src = s
		}
		if s != src {
			src = a.p.app("src", "several")
		}
	}
	return src, ""
}

// osSource: bytes of crypto/rand.
func osSource(e *T) bool {
	if strings.HasPrefix(e.aux, "osrand#") {
		return true
	}
	x := e.args[0]
	return x.op == "ld" && x.args[0].op == "global" && x.args[0].aux == "crypto/rand.Reader"
}

// prgFromOS: the pointer is a generator keyed with 16 bytes of the system's generator.
func (a *Analysis) prgFromOS(ptr *T, at *Ins) string {
	s := a.fieldAt(ptr, "PRGReader.stream", at)
	if callName(s) != "crypto/cipher.NewCTR" {
		return "the stream is " + short2(s)
	}
	blk := s.args[0]
	if blk.op == "x" {
		blk = blk.args[0]
	}
	if callName(blk) != "crypto/aes.NewCipher" {
		return "the block cipher is " + short2(blk)
	}
	if l := a.lenT(blk.args[0]); !isConst(l, 16) {
		if blk.args[0].op != "obj" {
			return "the key is " + short2(blk.args[0])
		}
	}
	_, d := a.osBytes(blk.args[0], 16, at)
	return d
}

func checkP01(r *Run) {
	src := r.rule("cryptographic-source", "no function that a client runs uses the generators of math/rand, except over a source that is the library's cryptographic generator")
	fail := r.rule("failing-generator", "when reading randomness fails, no result is returned")
	fill := r.rule("whole-buffer", "every byte of a buffer drawn is used as drawn, and the whole buffer is filled")
	fld := r.rule("field-rejection", "an element of the field is four random bytes without their highest bit, and the field prime is rejected")
	key := r.rule("generator-key", "a generator is keyed with sixteen bytes of the operating system's generator")
	seed := r.rule("key-seeds", "the seeds and the control bit of predicate keys are drawn from the operating system, sixteen bytes each, independently for the two servers and for every query")
	mac := r.rule("mac-keys", "every MAC key of every query is a draw of its own from the client's generator")
	prog := r.rule("programs", "the client programs give their clients a cryptographic generator")

	r.also(checkP05, "lwe-query", "own-secrets", "noise-per-coordinate", "dh-query")
	r.also(checkP04, "random-shares")

	p := r.p
	roots := []*ssa.Function{}
	for _, fn := range p.Funcs {
		pk := fnPkgPath(fn)
		if (pk == modPath+"/lib/client" || strings.HasPrefix(pk, modPath+"/cmd/grpc/client")) && fn.Object() != nil && (fn.Object().Exported() || fn.Name() == "main") {
			roots = append(roots, fn)
		}
	}
	reached := p.reachedFns(roots)
	if f := p.Func("lib/utils.BufPRGReader.Uint64"); f != nil {
		reached[f] = true // called by the methods of math/rand's generator
	}
	r.part("sources", func() {
		n := 0
		for _, fn := range p.Funcs {
			pk := fnPkgPath(fn)
			if !reached[fn] || !strings.HasPrefix(pk, modPath+"/lib/") && !strings.HasPrefix(pk, modPath+"/cmd/grpc/client") {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					var ops [16]*ssa.Value
					for _, o := range in.Operands(ops[:0]) {
						h, ok := (*o).(*ssa.Function)
						if !ok || h.Pkg == nil && h.Object() == nil {
							continue
						}
						hp := fnPkgPath(h)
						if hp != "math/rand" && hp != "math/rand/v2" {
							continue
						}
						if h.Signature.Recv() != nil {
							continue // methods of *rand.Rand: its source is judged where it is made
						}
						n++
						ok = false
						if c, isCall := in.(*ssa.Call); isCall && h.Name() == "New" && c.Call.StaticCallee() == h {
							x := c.Call.Args[0]
							for {
								if m, ok := x.(*ssa.MakeInterface); ok {
									x = m.X
									continue
								}
								if m, ok := x.(*ssa.ChangeInterface); ok {
									x = m.X
									continue
								}
								break
							}
							ok = strings.HasSuffix(x.Type().String(), "/lib/utils.BufPRGReader")
						}
						r.ob(src, fnName(fn)+" uses "+hp+"."+h.Name(), p.Fset.Position(in.Pos()).String(), ok, "a generator that is not cryptographic")
					}
				}
			}
		}
		r.ob(src, "functions", "", len(reached) > 50, "only %d functions reached", len(reached))
	})
	r.part("buffered generator", func() {
		// the global generators are made from the system's
		n := 0
		for _, fn := range p.Funcs {
			if fnPkgPath(fn) != modPath+"/lib/utils" {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					st, ok := in.(*ssa.Store)
					if !ok || !strings.HasSuffix(st.Val.Type().String(), "/lib/utils.BufPRGReader") {
						continue
					}
					if _, g := st.Addr.(*ssa.Global); !g {
						continue
					}
					n++
					a := r.flatFn(fn, "whole "+fnName(fn), func(*ssa.Function) bool { return false })
					cnt := 0
					for _, s := range a.stores {
						if s.addr == nil || s.addr.op != "global" || s.i.Op != OpStore || a.f.where(s.i) == "" {
							continue
						}
						v := a.StoreVal(s)
						if v.op == "nil" {
							continue
						}
						st := a.fieldAt(v, "BufPRGReader.stream", s.i)
						if nm := callName(st); nm != "bufio.NewReaderSize" && nm != "bufio.NewReader" {
							continue
						}
						cnt++
						in := st.args[0]
						for in.op == "iface" {
							in = in.args[0]
						}
						at := s.i
						for _, i := range a.calls(callName(st)) {
							if a.term(i) == st {
								at = i
							}
						}
						d := a.prgFromOS(in, at)
						r.ob(key, "buffered generator", a.f.where(s.i), d == "", "%s", d)
					}
					r.ob(key, "buffered generator in "+fnName(fn), "", cnt > 0, "the generator is made in another way")
				}
			}
		}
		r.ob(key, "buffered generator", "", n > 0, "never made")
	})
	r.part("RandomPRG", func() {
		a := r.flat("lib/utils.RandomPRG")
		for _, b := range a.rpo {
			if b.Term == TReturn {
				d := a.prgFromOS(a.at(b.Rets[0], b), a.endOf(b))
				r.ob(key, "lib/utils.RandomPRG", a.f.whereB(b), d == "", "%s", d)
			}
		}
		a = r.flat("lib/utils.NewPRG")
		for _, b := range a.rpo {
			if b.Term != TReturn {
				continue
			}
			s := a.fieldAt(a.at(b.Rets[0], b), "PRGReader.stream", a.endOf(b))
			k := a.p.app("param", parName(a.f.Root, 0))
			ok := callName(s) == "crypto/cipher.NewCTR"
			if ok {
				x := s.args[0]
				if x.op == "x" {
					x = x.args[0]
				}
				ok = callName(x) == "crypto/aes.NewCipher" && rootOf(x.args[0]) == k
			}
			r.ob(key, "lib/utils.NewPRG", a.f.whereB(b), ok, "the stream is %s", short2(s))
		}
	})
	r.part("PRGReader.Read", func() {
		a := r.flat("lib/utils.PRGReader.Read")
		pp := a.p
		buf := pp.app("param", parName(a.f.Root, 1))
		stream := pp.app("ld", "", pp.app("fa", "PRGReader.stream", pp.app("param", parName(a.f.Root, 0))))
		xor := map[*Ins]bool{}
		whole := map[*Block]bool{}
		objs := map[*T]bool{}
		for _, i := range a.calls("(crypto/cipher.Stream).XORKeyStream") {
			if a.arg(i, 0) != stream {
				continue
			}
			xor[i] = true
			if a.arg(i, 1) == buf {
				whole[i.Blk] = true
			} else if o := a.arg(i, 1); o.op == "obj" {
				objs[o] = true
			}
		}
		r.ob(fill, "PRGReader.Read", "", len(xor) > 0, "no key stream is used")
		for _, b := range a.rpo {
			if b.Term != TReturn {
				continue
			}
			good := func(ed Edge) bool {
				if whole[ed.B] {
					return true
				}
				// the exhausted exit of a loop that copies key stream to all elements
				for _, l := range a.loops {
					if l.Main == nil || l.Main.B != ed.B || l.Main.K != ed.K {
						continue
					}
					tr := a.TripOf(l)
					lb := pp.app("len", "", buf)
					if tr != lb && !(tr.op == "min" && contains(tr.args, lb)) {
						continue
					}
					for _, s := range a.stores {
						if s.addr != nil && s.name == "" && l.Blocks[s.i.Blk] && s.addr == pp.app("ia", "", buf, pp.k(l.ID)) {
							v := a.StoreVal(s)
							if (v.op == "mem" || v.op == "ld") && objs[rootOf(v.args[0])] && v.args[0].args[1] == pp.k(l.ID) {
								return true
							}
						}
					}
				}
				return false
			}
			path, ok := a.mustPass(good, a.goalBlock(b))
			if whole[b] {
				ok = true
			}
			r.ob(fill, "PRGReader.Read", a.f.whereB(b), ok, "returns without filling the buffer: %s", a.pathString(path))
			t := a.at(b.Rets[0], b)
			lb := pp.app("len", "", buf)
			ok = t == lb
			if t.op == "min" && contains(t.args, lb) {
				// the smaller one is the length
				ok = true
				for _, x := range t.args {
					if x == lb {
						continue
					}
					d := pp.sub(lb, x)
					_, pass := a.mustPass(func(ed Edge) bool {
						return a.hasLit(ed, pp.lt0(d)) || a.hasLit(ed, pp.lt0(pp.add(d, pp.c(-1)))) || a.hasLit(ed, pp.eq(lb, x))
					}, a.goalBlock(b))
					ok = ok && pass
				}
			}
			r.ob(fill, "PRGReader.Read count", a.f.whereB(b), ok, "returns %s", short2(t))
		}
	})
	r.part("BufPRGReader.Uint64", func() {
		a := r.flat("lib/utils.BufPRGReader.Uint64")
		for _, b := range a.rpo {
			if b.Term != TReturn {
				continue
			}
			t := a.at(b.Rets[0], b)
			ok := t.op == "be" && len(t.args) == 8
			seen := map[*T]bool{}
			var loop *Loop
			var cntr *T
			for _, x := range t.args {
				ok = ok && !seen[x]
				seen[x] = true
				if x.op == "filled" {
					continue
				}
				if (x.op != "mem" && x.op != "ld") || x.args[0].op != "ia" {
					ok = false
					continue
				}
				// read piecewise
				found := false
				for _, i := range a.calls("(*bufio.Reader).Read", "(io.Reader).Read") {
					s := a.arg(i, 1)
					if l := a.loopOf[i.Blk]; l != nil && s.op == "sl" && s.args[0] == x.args[0].args[0] && s.args[1].op == "phi" {
						n := a.p.app("x", "0", a.term(i))
						ph := a.phiOf(l, s.args[1])
						if ph != nil && isConst(a.initOf(l, ph), 0) && a.nextOf(l, ph) == a.p.add(s.args[1], n) && a.p.add(s.args[1], s.args[2]) == a.p.c(8) {
							found, loop, cntr = true, l, s.args[1]
						}
					}
				}
				ok = ok && found
			}
			r.ob(fill, "BufPRGReader.Uint64", a.f.whereB(b), ok, "returns %s", short2(t))
			if loop != nil {
				path, ok := a.mustPass(func(ed Edge) bool {
					for _, l := range a.lits(ed) {
						if l == a.p.not(a.p.lt0(a.p.add(cntr, a.p.c(-8)))) || l == a.p.eq(cntr, a.p.c(8)) {
							return true
						}
					}
					return false
				}, a.goalBlock(b))
				r.ob(fill, "BufPRGReader.Uint64 complete", a.f.whereB(b), ok, "returns before eight bytes are read: %s", a.pathString(path))
			}
		}
	})
	r.randElement(fld)
	for _, k := range lweKinds {
		r.part(k.random, func() {
			a := r.flat(k.random)
			pp := a.p
			size := int64(4)
			if k.wide {
				size = 16
			}
			rnd := pp.app("param", parName(a.f.Root, 0))
			n := pp.mul(pp.app("param", parName(a.f.Root, 1)), pp.app("param", parName(a.f.Root, 2)))
			for _, b := range a.rpo {
				if b.Term != TReturn {
					continue
				}
				at := a.endOf(b)
				j := pp.app("param", "#k")
				data := a.fieldAt(a.at(b.Rets[0], b), k.mat+".data", at)
				e := a.elemAt(data, j, at)
				ok, d := false, "an element is "+short2(e)
				alts := []*T{data}
				if data.op == "ite" {
					alts = data.args[1:]
				}
				for _, x := range alts {
					if x.op == "builtin" && strings.HasPrefix(x.aux, "Slice") {
						base := x.args[0]
						for base.op == "conv" {
							base = base.args[0]
						}
						if base.op == "ia" && isConst(base.args[1], 0) {
							by := a.elemAt(base.args[0], j, at)
							ok = by.op == "filled" && by.args[0] == rnd && by.args[len(by.args)-1] == j && a.lenT(base.args[0]) == pp.scale(n, size) && x.args[1] == n
							d = "a byte is " + short2(by) + " of " + short2(a.lenT(base.args[0]))
						}
					}
				}
				if !ok && (e.op == "be" || callName(e) != "") {
					seen := map[*T]bool{}
					ok = int64(len(e.args)) == size
					for _, x := range e.args {
						if x.op != "filled" || x.args[0] != rnd || seen[x] {
							ok = false
							break
						}
						seen[x] = true
						d := pp.sub(x.args[len(x.args)-1], pp.scale(j, size))
						if c, isC := d.isC(); !isC || c < 0 || c >= size {
							ok = false
						}
					}
				}
				if fb := e; !ok && callName(e) == "lukechampine.com/uint128.FromBytes" && k.wide && fb.args[0].op == "sl" {
					sl := fb.args[0]
					by := a.elemAt(sl.args[0], j, at)
					ok = sl.args[1] == pp.scale(j, 16) && isConst(sl.args[2], 16) && by.op == "filled" && by.args[0] == rnd && by.args[len(by.args)-1] == j && a.lenT(sl.args[0]) == pp.scale(n, 16)
					d = "a byte is " + short2(by) + " of " + short2(a.lenT(sl.args[0]))
				}
				r.ob(fill, k.random, a.f.whereB(b), ok, "%s", d)
				r.ob(fill, k.random+" size", a.f.whereB(b), a.lenT(data) == n, "the matrix has %s elements", short2(a.lenT(data)))
			}
		})
	}
	r.part("failing generator", func() {
		sess := []string{"S_TwoPredicateAPIR", "S_TwoPIR", "S_TwoDH", "S_TwoLWE", "S_TwoLWE128", "S_TwoAmplify"}
		covered := map[*ssa.Function]bool{}
		var as []*Analysis
		for _, s := range sess {
			as = append(as, r.flat("zzverif."+s))
		}
		as = append(as, r.flat("lib/utils.RandomPRG"), r.flat("lib/utils.BufPRGReader.Uint64"))
		names := []string{}
		for n := range readers {
			names = append(names, n)
		}
		do := func(a *Analysis) {
			for g := range a.f.Inlined {
				covered[g] = true
			}
			covered[a.f.Root] = true
			for _, i := range a.calls(names...) {
				ok, where := a.errStops(i, readers[a.callee(i)])
				r.ob(fail, a.f.Name+": "+a.callee(i), a.f.where(i), ok, "a result is returned although the call failed, or without a test of its error, at %s", where)
				if nm := a.callee(i); nm == "(io.Reader).Read" || nm == "(*bufio.Reader).Read" {
					cnt := a.p.app("x", "0", a.term(i))
					used := false
					for _, b := range a.rpo {
						for _, j := range b.Ins {
							if j.Op != OpPhi && j != i && containsTerm(a.term(j), cnt) {
								used = true
							}
							if j.Op == OpPhi {
								for q := range j.Args {
									if containsTerm(a.at(j.Args[q], j.Blk.Preds[q]), cnt) {
										used = true
									}
								}
							}
						}
					}
					r.ob(fill, a.f.Name+": "+nm, a.f.where(i), used, "a read that may be partial is taken for the whole buffer")
				}
			}
		}
		for _, a := range as {
			do(a)
		}
		for _, fn := range p.Funcs {
			if !reached[fn] || covered[fn] || !strings.HasPrefix(fnPkgPath(fn), modPath+"/lib/") || strings.HasSuffix(fnPkgPath(fn), "/lib/database") {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok && !covered[fn] {
						nm := calleeName(c.Common())
						if readers[nm] != "" {
							do(r.flatFn(fn, "whole "+fnName(fn), func(*ssa.Function) bool { return false }))
						}
					}
				}
			}
		}
	})
	r.part("key seeds", func() {
		a := r.flat("zzverif.S_TwoPredicateAPIR")
		pp := a.p
		used := map[*T]string{}
		keys := 0
		for _, b := range a.rpo {
			if b.Term != TReturn {
				continue
			}
			at := a.endOf(b)
			for q, ret := range b.Rets {
				list := a.at(ret, b)
				for s := int64(0); s < 2; s++ {
					name := "query " + sprint(q+1) + ", server " + sprint(int(s))
					ptr := a.elemAt(list, pp.c(s), at)
					sd := a.resolve(pp.app("fa", "FssKeyEq2P.SInit", pp.app("fa", "FSS.FssKey", ptr)), at)
					src, d := a.osBytes(sd, 16, at)
					if !r.ob(seed, name, a.f.whereB(b), src != nil, "the seed is not drawn from the system: %s", d) {
						continue
					}
					r.ob(seed, name+" length", a.f.whereB(b), isConst(a.lenT(sd), 16), "the seed has %s bytes", short2(a.lenT(sd)))
					// no byte is part of two seeds
					other := ""
					for k := int64(0); k < 16; k++ {
						if e := a.elemAt(sd, pp.c(k), at); used[e] != "" {
							other = used[e]
						} else {
							used[e] = name
						}
					}
					r.ob(seed, name+" independent", a.f.whereB(b), other == "", "the same bytes as the seed of %s", other)
					keys++
					ti := a.resolve(pp.app("fa", "FssKeyEq2P.TInit", pp.app("fa", "FSS.FssKey", ptr)), at)
					ok := false
					var walk func(t *T)
					walk = func(t *T) {
						if t.op == "filled" && osSource(t) {
							ok = true
							for k := int64(0); k < 16; k++ {
								for s2 := int64(0); s2 < 2; s2++ {
									sd2 := a.resolve(pp.app("fa", "FssKeyEq2P.SInit", pp.app("fa", "FSS.FssKey", a.elemAt(list, pp.c(s2), at))), at)
									if a.elemAt(sd2, pp.c(k), at) == t {
										ok = false
									}
								}
							}
						}
						for _, x := range t.args {
							walk(x)
						}
					}
					walk(ti)
					r.ob(seed, name+" control bit", a.f.whereB(b), ok, "the control bit is %s", short2(ti))
				}
			}
		}
		r.ob(seed, "keys", "", keys == 4, "%d seeds found", keys)
	})
	r.part("MAC keys", func() {
		a := r.flat("zzverif.S_TwoPredicateAPIR", "lib/fss.Fss.GenerateTreePF", "lib/field.RandElementWithPRG")
		pp := a.p
		used := map[*T]string{}
		cs := a.calls("(lib/fss.Fss).GenerateTreePF")
		r.ob(mac, "key generations", "", len(cs) == 2, "%d key generations", len(cs))
		for q, c := range cs {
			v := a.arg(c, 2)
			n, ok := a.lenT(v).isC()
			if !r.ob(mac, "query "+sprint(q+1), a.f.where(c), ok && n >= 2, "the vector has %s elements", short2(a.lenT(v))) {
				continue
			}
			one := a.elemAt(v, pp.c(0), c)
			r.ob(mac, "query "+sprint(q+1)+" data", a.f.where(c), isConst(one, 1), "the element of the data is %s", short2(one))
			for k := int64(1); k < n; k++ {
				e := a.elemAt(v, pp.c(k), c)
				name := "query " + sprint(q+1) + ", key " + sprint(int(k))
				good := callName(e) == full("lib/field.RandElementWithPRG") && e.args[0] == pp.app("param", "rnd")
				r.ob(mac, name, a.f.where(c), good && used[e] == "", "the key is %s %s", short2(e), used[e])
				used[e] = "as for " + name
			}
		}
	})
	r.part("programs", func() {
		ctors := map[string]bool{}
		set := map[*ssa.Function]bool{}
		var names []string
		for _, fn := range p.Funcs {
			if fnPkgPath(fn) == modPath+"/lib/client" && fn.Signature.Recv() == nil && fn.Object() != nil && fn.Object().Exported() && fn.Signature.Params().Len() > 0 && fn.Signature.Params().At(0).Type().String() == "io.Reader" {
				ctors[fn.Object().(*types.Func).FullName()] = true
				names = append(names, fn.Object().(*types.Func).FullName())
				set[fn] = true
			}
		}
		n := 0
		for _, fn := range p.clientRoots(func(f *ssa.Function) bool { return set[f] }) {
			if !strings.HasPrefix(fnPkgPath(fn), modPath+"/cmd/") {
				continue
			}
			a := r.flatFn(fn, "prog "+fnName(fn), func(f *ssa.Function) bool { return fnPkgPath(f) == modPath+"/lib/client" })
			for _, c := range a.calls(names...) {
				n++
				x := a.arg(c, 0)
				for x.op == "iface" {
					x = x.args[0]
				}
				d := ""
				if !(x.op == "ld" && x.args[0].op == "global" && x.args[0].aux == "crypto/rand.Reader") {
					d = a.prgFromOS(x, c)
				}
				r.ob(prog, a.f.Name+": "+a.callee(c), a.f.where(c), d == "", "%s", d)
			}
		}
		r.ob(prog, "clients", "", n > 0, "no program makes a client")
	})
}

// randElement: field elements are drawn from the whole field.
func (r *Run) randElement(fld string) {
	r.part("RandElementWithPRG", func() {
		a := r.flat("lib/field.RandElementWithPRG")
		pp := a.p
		rnd := pp.app("param", parName(a.f.Root, 0))
		masked := func(t *T) bool {
			var bs []*T
			switch {
			case t.op == "be" && len(t.args) == 4:
				x := t.args[0]
				if x.op != "%" || !isConst(x.args[1], 128) {
					return false
				}
				bs = []*T{x.args[0], t.args[1], t.args[2], t.args[3]}
			case t.op == "%" && t.args[0].op == "be" && isConst(t.args[1], 1<<31), t.op == "mod" && t.aux == "2147483648" && t.args[0].op == "be":
				bs = t.args[0].args
			}
			seen := map[*T]bool{}
			for _, x := range bs {
				if x.op != "filled" || x.args[0] != rnd || seen[x] {
					return false
				}
				seen[x] = true
			}
			return len(bs) == 4
		}
		for _, b := range a.rpo {
			if b.Term != TReturn {
				continue
			}
			t := a.at(b.Rets[0], b)
			same := map[*T]bool{t: true}
			vals := []*T{t}
			if t.op == "last" && t.args[0].op == "phi" || t.op == "phi" {
				vals = nil
				for _, l := range a.loops {
					for _, ph := range l.Header.phis() {
						x := t
						if t.op == "last" {
							x = t.args[0]
						}
						if x.aux != itoa(ph.ID) {
							continue
						}
						same[a.term(ph)] = true
						vals = append(vals, a.initOf(l, ph), a.nextOf(l, ph))
					}
				}
			} else if t.op == "last" {
				// drawn in the last iteration
				id := atoi(t.aux)
				x := pp.subst(t.args[0], map[*T]*T{pp.app("kend", t.aux): pp.k(id)})
				same[x] = true
				vals = []*T{x}
			}
			ok := len(vals) > 0
			for _, v := range vals {
				if v == nil || !isConst(v, modP) && !masked(v) {
					ok = false
				} else {
					same[v] = true
				}
			}
			r.ob(fld, "value", a.f.whereB(b), ok, "returns %s", short2(t))
			path, ok := a.mustPass(func(ed Edge) bool {
				for _, l := range a.lits(ed) {
					for x := range same {
						if _, isC := x.isC(); isC {
							continue
						}
						d := pp.sub(x, pp.c(modP))
						if l == pp.lt0(d) || l.op == "<u" && l.args[0] == x && isConst(l.args[1], modP) || l == pp.not(pp.eq(x, pp.c(modP))) {
							return true
						}
					}
				}
				return false
			}, a.goalBlock(b))
			r.ob(fld, "rejection", a.f.whereB(b), ok, "the field prime may be returned: %s", a.pathString(path))
		}
	})
}
