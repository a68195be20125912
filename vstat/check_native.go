package main

// L06: the buffers passed to the native kernels, and the lengths given to
// slices made over other memory.

import (
	"fmt"
	"go/token"
	"go/types"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["L06"] = checkL06
	assumptions["L06"] = []string{
		"a dimension of a matrix is not negative and fits in a C int; that of a product does not have to",
		"the C compiler keeps the meaning of code without undefined behaviour",
		"data of a matrix is reached only through package lib/matrix, since its fields are not exported",
	}
}

type matType struct {
	name             string // "Matrix"
	rows, cols, data string
	elem             types.Type
}

// matTypes: the structs of lib/matrix with two dimensions and the data.
func (p *Program) matTypes() map[string]*matType {
	out := map[string]*matType{}
	pk := p.ByPath[modPath+"/lib/matrix"]
	if pk == nil {
		panic(unresolved("no package lib/matrix"))
	}
	for _, n := range pk.Types.Scope().Names() {
		tn, ok := pk.Types.Scope().Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		st, ok := tn.Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		m := &matType{name: n}
		for k := 0; k < st.NumFields(); k++ {
			f := st.Field(k)
			switch strings.ToLower(f.Name()) {
			case "rows":
				m.rows = f.Name()
			case "cols", "columns":
				m.cols = f.Name()
			}
			if sl, ok := f.Type().Underlying().(*types.Slice); ok {
				m.data, m.elem = f.Name(), sl.Elem()
			}
		}
		if m.rows != "" && m.cols != "" && m.data != "" {
			out[n] = m
		}
	}
	return out
}

var amd64 = types.SizesFor("gc", "amd64")

func checkL06(r *Run) {
	inv := r.rule("dimensions", "a matrix that a function makes or changes holds rows times columns elements when the function returns")
	pre := r.rule("made-from-parts", "a matrix made of a caller's slice is given one of at least rows times columns elements")
	buf := r.rule("buffers", "every element a kernel accesses lies within the buffer passed to it, for all dimensions passed")
	wide := r.rule("index-width", "the kernels compute element indexes in at least 64 bits")
	back := r.rule("backing", "a slice made over other memory is not longer than that memory, and memory is not reinterpreted otherwise")
	ms := r.p.matTypes()
	r.ob(inv, "types", "", len(ms) >= 3, "%d matrix types found", len(ms))
	fs, err := r.cFuncs(filepath.Join(r.p.Dir, "lib/matrix"))
	if err != nil {
		panic(unresolved(err.Error()))
	}
	nm, nk, nu := 0, 0, 0
	used := map[string]bool{}
	for _, fn := range r.p.productFuncs() {
		if fn.Synthetic != "" || len(fn.Blocks) == 0 {
			continue
		}
		touches, kern, uns := r.nativeUse(fn, ms)
		if touches {
			nm++
			r.part("dimensions of "+fnName(fn), func() { r.keepsDims(inv, pre, fn, ms) })
		}
		if kern {
			nk++
			r.part("kernel of "+fnName(fn), func() { r.kernelBuffers(buf, fn, ms, fs, used) })
		}
		if uns {
			nu++
			r.part("memory of "+fnName(fn), func() { r.backing(back, fn, ms) })
		}
	}
	r.ob(inv, "functions", "", nm >= 3, "%d functions make or change matrices", nm)
	r.ob(buf, "calls", "", nk >= 1, "%d functions call kernels", nk)
	var names []string
	for n := range used {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		f := fs[n]
		r.ob(wide, n, "lib/matrix/matrix.c", len(f.narrow) == 0, "%s", strings.Join(f.narrow, "; "))
	}
	_ = nu
}

// nativeUse: whether a function writes fields of matrices, calls C functions, or converts unsafe pointers.
func (r *Run) nativeUse(fn *ssa.Function, ms map[string]*matType) (fields, kern, uns bool) {
	isMat := func(t types.Type) bool {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		n := namedOf(t)
		return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == modPath+"/lib/matrix" && ms[n.Obj().Name()] != nil
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok && isMat(fa.X.Type()) {
					fields = true
				}
				if isMat(x.Val.Type()) {
					if _, ok := x.Val.Type().Underlying().(*types.Struct); ok {
						fields = true
					}
				}
			case *ssa.Alloc:
				// &Matrix{} in the package
				if x.Heap && isMat(x.Type()) && fnPkgPath(fn) == modPath+"/lib/matrix" {
					fields = true
				}
			case *ssa.Convert:
				if isUnsafe(x.Type()) {
					uns = true
				}
				if isUnsafe(x.X.Type()) {
					uns = true
				}
			case ssa.CallInstruction:
				n := calleeName(x.Common())
				if strings.Contains(n, "._Cfunc_") && !strings.Contains(n, "._Cfunc__") {
					kern = true
				}
				if bi, ok := x.Common().Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "Slice", "String", "StringData", "SliceData", "Add":
						uns = true
					}
				}
			}
		}
	}
	// the wrappers cgo generates are not the program's
	if strings.HasPrefix(fn.Name(), "_C") || strings.HasPrefix(fn.Name(), "_cgo") {
		return false, false, false
	}
	return
}

func isUnsafe(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.UnsafePointer
}

// matFacts: every matrix not under construction holds rows times columns elements.
func (a *Analysis) matFacts(ms map[string]*matType, but *T) (out []*T) {
	seen := map[*T]bool{}
	for _, b := range a.rpo {
		for _, i := range b.Ins {
			if i.Op != OpFieldAddr {
				continue
			}
			t := a.term(i)
			if t == nil || t.op != "fa" {
				continue
			}
			k := strings.LastIndexByte(t.aux, '.')
			m := ms[strings.TrimPrefix(t.aux[:k], "matrix.")]
			o := t.args[0]
			if m == nil || seen[o] || o == but || o.op == "obj" {
				continue
			}
			seen[o] = true
			ld := func(f string) *T { return a.p.app("ld", "", a.p.app("fa", t.aux[:k]+"."+f, o)) }
			out = append(out, a.p.app("==0", "", a.p.sub(a.lenT(ld(m.data)), a.p.mul(ld(m.rows), ld(m.cols)))))
		}
	}
	return
}

func (r *Run) keepsDims(rule, pre string, fn *ssa.Function, ms map[string]*matType) {
	a := r.flatFn(fn, "L06 "+fnName(fn), nil)
	name := fnName(fn)
	// the objects of this function
	objs := map[*T]*matType{}
	var order []*T
	add := func(o *T, m *matType) {
		if objs[o] == nil {
			objs[o] = m
			order = append(order, o)
		}
	}
	for _, b := range a.rpo {
		for _, i := range b.Ins {
			switch i.Op {
			case OpStore:
				if t := a.op(i, 0); t.op == "fa" {
					k := strings.LastIndexByte(t.aux, '.')
					if m := ms[t.aux[:k]]; m != nil {
						f := t.aux[k+1:]
						if f == m.rows || f == m.cols || f == m.data {
							add(t.args[0], m)
						}
					}
				}
			case OpAlloc:
				if e := ptrElem(i.Typ); e != nil {
					if n := namedOf(e); n != nil && ms[n.Obj().Name()] != nil && n.Obj().Pkg().Path() == modPath+"/lib/matrix" {
						add(a.term(i), ms[n.Obj().Name()])
					}
				}
			}
		}
	}
	// (the terms take numbers of 32 bits as exact)
	if len(order) > 0 {
		r.exactSizes(a, name)
	}
	n := 0
	for _, o := range order {
		m := objs[o]
		for _, b := range a.acceptBlocks() {
			at := a.endOf(b)
			if o.op == "obj" {
				if i := a.insOf[o.aux]; i != nil && (!a.mayPrecede(i, at) || i.Blk != b && !a.reachesBlock(i.Blk, b)) {
					continue
				}
			}
			n++
			inst := fmt.Sprintf("%s: %s %d", name, m.name, n)
			rows := a.fieldAt(o, m.name+"."+m.rows, at)
			cols := a.fieldAt(o, m.name+"."+m.cols, at)
			data := a.fieldAt(o, m.name+"."+m.data, at)
			if rows == nil || cols == nil || data == nil {
				r.ob(rule, inst, a.f.whereB(b), false, "its fields are not known")
				continue
			}
			isP := func(t *T) bool { return t.op == "param" }
			if isP(data) && a.f.Root == fn {
				// the caller's
				r.callersGive(pre, fn, a, data, rows, cols, ms)
				continue
			}
			facts := append(a.factsAt(b), a.matFacts(ms, nil)...)
			// a field that was not changed holds for the one that was
			ok := a.holdsDims(facts, data, rows, cols, b)
			r.ob(rule, inst, a.f.whereB(b), ok, "it has %s by %s and %s elements", short2(rows), short2(cols), short2(a.lenT(data)))
		}
	}
}

// exactSizes: no size that a test or an allocation depends on is a product of fewer than 64 bits.
func (r *Run) exactSizes(a *Analysis, name string) {
	uses := map[*Ins][]*Ins{}
	used := map[*Ins]bool{}
	for _, b := range a.rpo {
		for _, i := range b.Ins {
			for _, x := range i.Args {
				uses[x] = append(uses[x], i)
				if i.Op == OpMakeSlice {
					used[x] = true
				}
			}
		}
		if b.Term == TIf && b.Cond != nil {
			used[b.Cond] = true
		}
	}
	for _, b := range a.rpo {
		for _, i := range b.Ins {
			if i.Op != OpBin || i.Tok != token.MUL && i.Tok != token.SHL || intBits(i.Typ) == 0 || intBits(i.Typ) > 32 {
				continue
			}
			seen := map[*Ins]bool{}
			var flows func(v *Ins) bool
			flows = func(v *Ins) bool {
				if used[v] {
					return true
				}
				if seen[v] {
					return false
				}
				seen[v] = true
				for _, u := range uses[v] {
					if (u.Op == OpBin || u.Op == OpUn || u.Op == OpConvert || u.Op == OpPhi) && flows(u) {
						return true
					}
				}
				return false
			}
			r.ob("index-width", name+": product", a.f.where(i), !flows(i), "a size is computed in %d bits", intBits(i.Typ))
		}
	}
}

func (a *Analysis) reachesBlock(x, y *Block) bool {
	seen := map[*Block]bool{}
	var dfs func(b *Block) bool
	dfs = func(b *Block) bool {
		if b == y {
			return true
		}
		if seen[b] {
			return false
		}
		seen[b] = true
		for _, s := range b.Succs {
			if dfs(s) {
				return true
			}
		}
		return false
	}
	return dfs(x)
}

func (a *Analysis) holdsDims(facts []*T, data, rows, cols *T, b *Block) bool {
	if data.op == "ite" {
		f1 := append(append([]*T{}, facts...), data.args[0])
		f2 := append(append([]*T{}, facts...), a.p.not(data.args[0]))
		return a.holdsDims(f1, data.args[1], rows, cols, b) && a.holdsDims(f2, data.args[2], rows, cols, b)
	}
	if data.op == "phi" || rows.op == "phi" || cols.op == "phi" {
		// each of the values merged
		alts := func(t *T) []*T {
			if t.op != "phi" {
				return []*T{t}
			}
			var out []*T
			if i := a.insOf[t.aux]; i != nil && i.Op == OpPhi {
				for k := range i.Args {
					out = append(out, a.at(i.Args[k], i.Blk.Preds[k]))
				}
			}
			return out
		}
		xs := alts(data)
		if len(xs) == 0 || rows.op == "phi" || cols.op == "phi" {
			return false
		}
		for _, x := range xs {
			if x.op == "phi" || !a.holdsDims(facts, x, rows, cols, b) {
				return false
			}
		}
		return true
	}
	n := a.lenT(data)
	if data.op == "nil" {
		n = a.p.c(0)
	}
	facts = append(append([]*T{}, facts...), a.p.lt0(a.p.sub(a.p.scale(n, -1), a.p.c(1)))) // a length
	return a.nonNeg(facts, a.p.sub(n, a.p.mul(rows, cols)))
}

// callersGive: what is made into a matrix of the given dimensions is long enough in every caller.
func (r *Run) callersGive(rule string, fn *ssa.Function, ca *Analysis, data, rows, cols *T, ms map[string]*matType) {
	idx := func(t *T) int {
		for k := range fn.Params {
			if ca.p.app("param", ca.paramName(k)) == t {
				return k
			}
		}
		return -1
	}
	di, ri, ci := idx(data), idx(rows), idx(cols)
	for _, g := range r.p.productFuncs() {
		hit := false
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && staticCallee(c.Common()) == fn {
					hit = true
				}
			}
		}
		if !hit {
			continue
		}
		a := r.flatFn(g, "L06c "+fnName(g), func(f *ssa.Function) bool { return f == fn })
		for j, c := range a.calls(fnName(fn)) {
			inst := fmt.Sprintf("%s: %s %d", fnName(g), fn.Name(), j+1)
			if di < 0 || ri < 0 || ci < 0 {
				r.ob(rule, inst, a.f.where(c), false, "the dimensions are not those of the caller")
				continue
			}
			facts := append(a.factsAt(c.Blk), a.matFacts(ms, nil)...)
			d, x, y := a.arg(c, di), a.arg(c, ri), a.arg(c, ci)
			ok := a.holdsDims(facts, d, x, y, c.Blk)
			r.ob(rule, inst, a.f.where(c), ok, "%s elements are made into a matrix of %s by %s", short2(a.lenT(d)), short2(x), short2(y))
		}
	}
}

// extent: the memory a pointer is into: its size in bytes and the place in it.
func (a *Analysis) extent(t *T, ms map[string]*matType) (bytes, off *T, why string) {
	p := a.p
	off = p.c(0)
	for n := 0; n < 20; n++ {
		switch {
		case strings.HasPrefix(t.op, "conv"):
			t = t.args[0]
		case t.op == "ia":
			es := a.elemSize(t.args[0], ms)
			if es == 0 {
				return nil, nil, "the size of an element of " + short2(t.args[0]) + " is not known"
			}
			off = p.add(off, p.scale(t.args[1], es))
			t = t.args[0]
		case t.op == "sl":
			es := a.elemSize(t.args[0], ms)
			if es == 0 {
				return nil, nil, "the size of an element of " + short2(t.args[0]) + " is not known"
			}
			off = p.add(off, p.scale(t.args[1], es))
			t = t.args[0]
		case callName(t) == "unsafe.SliceData" || t.op == "builtin" && strings.HasPrefix(t.aux, "SliceData"):
			t = t.args[0]
		default:
			es := a.elemSize(t, ms)
			if es == 0 {
				return nil, nil, "the size of " + short2(t) + " is not known"
			}
			return p.scale(a.lenT(t), es), off, ""
		}
	}
	return nil, nil, "it is not known where " + short2(t) + " points"
}

// elemSize: the size of the elements of a slice or array.
func (a *Analysis) elemSize(t *T, ms map[string]*matType) int64 {
	of := func(ty types.Type) int64 {
		if ty == nil {
			return 0
		}
		if e := ptrElem(ty); e != nil {
			ty = e
		}
		switch u := ty.Underlying().(type) {
		case *types.Slice:
			return amd64.Sizeof(u.Elem())
		case *types.Array:
			return amd64.Sizeof(u.Elem())
		case *types.Basic:
			if u.Info()&types.IsString != 0 {
				return 1
			}
		}
		return 0
	}
	switch {
	case t.op == "obj":
		if i := a.insOf[t.aux]; i != nil {
			return of(i.Typ)
		}
	case t.op == "sl":
		return a.elemSize(t.args[0], ms)
	case (t.op == "ld" || t.op == "mem") && t.args[0].op == "fa":
		k := strings.LastIndexByte(t.args[0].aux, '.')
		if m := ms[t.args[0].aux[:k]]; m != nil && t.args[0].aux[k+1:] == m.data {
			return amd64.Sizeof(m.elem)
		}
	case t.op == "param":
		for _, v := range a.f.Root.Params {
			if v.Name() == t.aux {
				return of(v.Type())
			}
		}
	}
	if i := a.insOf[callID(t)]; i != nil && t.op == "call" {
		return of(i.Typ)
	}
	return 0
}

func (r *Run) kernelBuffers(rule string, fn *ssa.Function, ms map[string]*matType, fs map[string]*cFunc, used map[string]bool) {
	a := r.flatFn(fn, "L06 "+fnName(fn), nil)
	p := a.p
	n := 0
	for _, b := range a.rpo {
		for _, c := range b.Ins {
			if c.Op != OpCall || !strings.Contains(a.callee(c), "._Cfunc_") {
				continue
			}
			name := a.callee(c)
			name = name[strings.Index(name, "._Cfunc_")+len("._Cfunc_"):]
			if strings.HasPrefix(name, "_") {
				continue
			}
			n++
			w := a.f.where(c)
			f := fs[name]
			if !r.ob(rule, fnName(fn)+": "+name, w, f != nil && f.err == "", "the kernel cannot be evaluated") {
				continue
			}
			used[name] = true
			r.funcs["C "+name] = true
			facts := append(a.factsAt(c.Blk), a.matFacts(ms, nil)...)
			type key struct {
				array string
				idx   *T
			}
			seen := map[key]bool{}
			m := 0
			for _, x := range f.acc {
				if seen[key{x.array, x.idx}] {
					continue
				}
				seen[key{x.array, x.idx}] = true
				m++
				inst := fmt.Sprintf("%s: %s access %d of %s", fnName(fn), name, m, x.array)
				why := ""
				func() {
					defer func() {
						if e := recover(); e != nil {
							if s, ok := e.(cUnknown); ok {
								why = string(s)
								return
							}
							panic(e)
						}
					}()
					k := atoi(strings.TrimPrefix(x.array, "arg"))
					bytes, off, bad := a.extent(a.arg(c, k), ms)
					if bad != "" {
						why = bad
						return
					}
					ks := map[*T]*T{} // C loop variable -> trip
					for _, l := range x.loops {
						ks[l.k] = l.trip
					}
					args := func(t *T) *T {
						if strings.HasPrefix(t.aux, "arg") {
							return a.arg(c, atoi(strings.TrimPrefix(t.aux, "arg")))
						}
						panic(cUnknown("an index depends on " + short2(t)))
					}
					q := cPools[f]
					lo := p.cTerm(q.cBound(x.idx, ks, false), args)
					hi := p.cTerm(q.cBound(x.idx, ks, true), args)
					size := int64(f.ptr[x.array] / 8)
					// every loop around the access runs at least once
					fs := facts
					for _, l := range x.loops {
						if !hasParam(l.trip, "#") {
							fs = append(append([]*T{}, fs...), p.lt0(p.scale(p.cTerm(l.trip, args), -1)))
						}
					}
					if !a.nonNeg(fs, p.add(off, p.scale(lo, size))) {
						why = fmt.Sprintf("element %s may be below the start", short2(lo))
						return
					}
					need := p.add(off, p.scale(p.add(hi, p.c(1)), size))
					if !a.nonNeg(fs, p.sub(bytes, need)) {
						why = fmt.Sprintf("%s bytes are accessed, %s are there", short2(need), short2(bytes))
					}
				}()
				r.ob(rule, inst, w, why == "", "%s", why)
			}
		}
	}
	r.ob(rule, fnName(fn)+": calls", "", n > 0, "no kernel is called")
}

type cUnknown string

func hasParam(t *T, pre string) bool {
	f := false
	walkT(t, func(x *T) bool {
		f = f || x.op == "param" && strings.HasPrefix(x.aux, pre)
		return !f
	})
	return f
}

// cTerm carries a term of a kernel over.
func (p *Pool) cTerm(t *T, leaf func(t *T) *T) *T {
	switch t.op {
	case "c":
		n, _ := t.isC()
		return p.c(n)
	case "param":
		return leaf(t)
	case "*":
		x := p.c(1)
		for _, y := range t.args {
			x = p.mul(x, p.cTerm(y, leaf))
		}
		return x
	case "+":
		ts, co, c := parts(t)
		x := p.c(c)
		for k, y := range ts {
			x = p.add(x, p.scale(p.cTerm(y, leaf), co[k]))
		}
		return x
	}
	panic(cUnknown("an index depends on " + short2(t)))
}

// cBound: the largest (or least) value an index takes over the iterations of the loops.
func (q *Pool) cBound(t *T, trips map[*T]*T, up bool) *T {
	for n := 0; n < 8; n++ {
		// an innermost variable first: one no trip count depends on
		var v *T
		ms, _ := monos(t)
		for _, m := range ms {
			for _, x := range m.at {
				if trips[x] != nil && (v == nil || containsTerm(trips[x], v) || !containsTerm(trips[v], x) && x.id > v.id) {
					v = x
				}
			}
		}
		if v == nil {
			break
		}
		// which way it counts
		pos, neg := false, false
		for _, m := range ms {
			for _, x := range m.at {
				if x == v {
					pos = pos || m.co > 0
					neg = neg || m.co < 0
				}
			}
		}
		if pos && neg {
			panic(cUnknown("an index may fall and rise with a loop: " + short2(t)))
		}
		by := q.c(0)
		if pos == up {
			by = q.sub(trips[v], q.c(1))
		}
		t = q.subst(t, map[*T]*T{v: by})
	}
	return t
}

func (r *Run) backing(rule string, fn *ssa.Function, ms map[string]*matType) {
	a := r.flatFn(fn, "L06 "+fnName(fn), nil)
	p := a.p
	n := 0
	for _, b := range a.rpo {
		for _, i := range b.Ins {
			if i.Op == OpBuiltin && (i.Name == "Slice" || i.Name == "String") {
				n++
				inst := fmt.Sprintf("%s: %s %d", fnName(fn), i.Name, n)
				w := a.f.where(i)
				size := int64(1)
				if sl, ok := i.Typ.Underlying().(*types.Slice); ok {
					size = amd64.Sizeof(sl.Elem())
				}
				bytes, off, why := a.extent(a.op(i, 0), ms)
				if !r.ob(rule, inst+" memory", w, why == "", "%s", why) {
					continue
				}
				facts := append(a.factsAt(b), a.matFacts(ms, nil)...)
				need := p.add(off, p.scale(a.op(i, 1), size))
				r.ob(rule, inst, w, a.nonNeg(facts, p.sub(bytes, need)), "%s bytes are taken of %s", short2(need), short2(bytes))
			}
			if i.Op == OpConvert && len(i.Args) == 1 && isUnsafe(i.Args[0].Typ) {
				if e := ptrElem(i.Typ); e != nil {
					n++
					var bad bool
					switch u := e.Underlying().(type) {
					case *types.Slice, *types.Struct, *types.Interface, *types.Array:
						_ = u
						bad = true
					}
					r.ob(rule, fmt.Sprintf("%s: reinterpreted %d", fnName(fn), n), a.f.where(i), !bad, "memory is taken for a %s", types.TypeString(e, nil))
				}
			}
		}
	}
}
