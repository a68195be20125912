package main

// The native kernels: the C sources are parsed by clang, and each function is
// evaluated symbolically, loop by loop, into the list of its memory accesses.

import (
	"encoding/json"
	"fmt"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type cNode struct {
	ID                string
	Kind              string
	Name              string
	Opcode            string
	CastKind          string
	Value             any
	IsPostfix         bool
	Type              struct{ QualType, DesugaredQualType string }
	ComputeResultType struct{ QualType, DesugaredQualType string }
	ReferencedDecl    *cNode
	Init              string
	Inner             []*cNode
	HasElse           bool
	Loc, Range        any
}

type cLoop struct {
	k, trip *T
}

type cAccess struct {
	array string
	idx   *T
	store bool
	val   *T // stores
	loops []cLoop
	conds []*T
	line  string
}

type cFunc struct {
	name   string
	params []string
	ptr    map[string]int // pointer parameters and the width of their elements
	acc    []cAccess
	err    string
	narrow []string // sizes or indexes computed in less than 64 bits
}

type cPtr struct {
	base string
	off  *T
}

type cInterp struct {
	p     *Pool
	f     *cFunc
	env   map[string]*T
	ptr   map[string]*cPtr
	typ   map[string]string
	depth map[string]int // loop depth of the declaration
	loops []cLoop
	conds []*T
	w     int
	n     int
	line  int
	defs  map[string]*cNode // the functions of the file
	calls []string
	ret   *T

	base, cbase int // loops and tests outside the current function
	returned    bool
	skip        bool // the statement list is the body of a for loop
}

func cType(t struct{ QualType, DesugaredQualType string }) string {
	s := t.DesugaredQualType
	if s == "" {
		s = t.QualType
	}
	for _, q := range []string{"const ", "volatile ", "restrict ", "register "} {
		s = strings.ReplaceAll(s, q, "")
	}
	return strings.TrimSpace(s)
}

// cWidth: bits and signedness of an integer type.
func cWidth(s string) (int, bool) {
	switch s {
	case "int", "int32_t":
		return 32, true
	case "unsigned int", "uint32_t", "unsigned":
		return 32, false
	case "unsigned char", "uint8_t", "_Bool", "bool":
		return 8, false
	case "char", "signed char", "int8_t":
		return 8, true
	case "short", "int16_t":
		return 16, true
	case "unsigned short", "uint16_t":
		return 16, false
	case "long", "long long", "int64_t", "ssize_t", "ptrdiff_t":
		return 64, true
	case "unsigned long", "unsigned long long", "uint64_t", "size_t":
		return 64, false
	case "unsigned __int128", "__uint128_t":
		return 128, false
	case "__int128", "__int128_t":
		return 128, true
	}
	return 0, false
}

// cFuncs evaluates the functions of the C files of a directory.
func (r *Run) cFuncs(dir string) (map[string]*cFunc, error) {
	files, _ := filepath.Glob(filepath.Join(dir, "*.c"))
	sort.Strings(files)
	out := map[string]*cFunc{}
	for _, f := range files {
		b, err := exec.Command("clang", "-std=c99", "-fsyntax-only", "-I", dir, "-Xclang", "-ast-dump=json", f).Output()
		if err != nil {
			return nil, fmt.Errorf("clang %s: %v", f, err)
		}
		var tu cNode
		if err := json.Unmarshal(b, &tu); err != nil {
			return nil, err
		}
		defs := map[string]*cNode{}
		for _, d := range tu.Inner {
			if d.Kind == "FunctionDecl" && len(d.Inner) > 0 && d.Inner[len(d.Inner)-1].Kind == "CompoundStmt" {
				defs[d.Name] = d
			}
		}
		for _, d := range tu.Inner {
			if d.Kind != "FunctionDecl" || len(d.Inner) == 0 || d.Inner[len(d.Inner)-1].Kind != "CompoundStmt" {
				continue
			}
			cf := &cFunc{name: d.Name, ptr: map[string]int{}}
			if out[d.Name] != nil {
				cf.err = "defined twice"
			}
			out[d.Name] = cf
			for _, x := range d.Inner {
				if x.Kind == "ParmVarDecl" {
					cf.params = append(cf.params, x.Name)
				}
			}
			p := NewPool()
			ci := &cInterp{p: p, f: cf, env: map[string]*T{}, ptr: map[string]*cPtr{}, typ: map[string]string{}, depth: map[string]int{}, defs: defs}
			func() {
				defer func() {
					if e := recover(); e != nil {
						cf.err = fmt.Sprint(e)
					}
				}()
				for k, x := range d.Inner {
					if x.Kind != "ParmVarDecl" {
						continue
					}
					t := cType(x.Type)
					ci.typ[x.ID] = t
					if strings.HasSuffix(t, "*") || strings.HasSuffix(t, "*restrict") {
						el := strings.TrimSpace(t[:strings.LastIndexByte(t, '*')])
						w, _ := cWidth(el)
						name := fmt.Sprint("arg", k)
						cf.ptr[name] = w
						ci.ptr[x.ID] = &cPtr{name, p.c(0)}
						if w > ci.w {
							ci.w = w
						}
					} else {
						ci.env[x.ID] = p.app("param", fmt.Sprint("arg", k))
					}
				}
				ci.stmt(d.Inner[len(d.Inner)-1])
			}()
			cf.name = d.Name
			cPools[cf] = p
		}
	}
	return out, nil
}

var cPools = map[*cFunc]*Pool{}

func (c *cInterp) fail(n *cNode, what string) {
	panic(c.f.name + ": " + what + " " + n.Kind + " " + n.Opcode)
}

func (c *cInterp) stmt(n *cNode) {
	if n == nil || n.Kind == "" {
		return
	}
	switch n.Kind {
	case "CompoundStmt":
		for q, x := range n.Inner {
			if skips(x) {
				// the rest of the body runs when the test fails
				if !c.skip {
					c.fail(n, "continue in")
				}
				rest := &cNode{Kind: "CompoundStmt", Inner: n.Inner[q+1:]}
				c.branch(c.cond(x.Inner[0]), nil, rest)
				return
			}
			sk := c.skip
			c.skip = false
			c.stmt(x)
			c.skip = sk
		}
	case "NullStmt":
	case "DeclStmt":
		for _, v := range n.Inner {
			if v.Kind != "VarDecl" {
				continue
			}
			t := cType(v.Type)
			c.typ[v.ID] = t
			c.depth[v.ID] = len(c.loops)
			delete(c.env, v.ID)
			delete(c.ptr, v.ID)
			if len(v.Inner) > 0 {
				if strings.HasSuffix(strings.TrimSuffix(t, "restrict"), "*") {
					c.ptr[v.ID] = c.pointer(v.Inner[0])
				} else {
					c.env[v.ID] = c.fit(c.expr(v.Inner[0]), t)
				}
			}
		}
	case "ForStmt":
		in := n.Inner
		if len(in) != 5 {
			c.fail(n, "unexpected")
		}
		c.stmt(in[0])
		c.loop(in[2], in[3], in[4])
	case "WhileStmt":
		c.loop(n.Inner[0], nil, n.Inner[len(n.Inner)-1])
	case "IfStmt":
		cond := c.cond(n.Inner[0])
		if cond.op == "true" {
			c.stmt(n.Inner[1])
			return
		}
		var els *cNode
		if len(n.Inner) > 2 {
			els = n.Inner[2]
		}
		c.branch(cond, n.Inner[1], els)
	case "ReturnStmt":
		if len(c.loops) > c.base || len(c.conds) > c.cbase || c.returned {
			c.fail(n, "early return")
		}
		c.returned = true
		if len(n.Inner) > 0 {
			c.ret = c.expr(n.Inner[0])
		}
	default:
		c.expr(n)
	}
}

func (c *cInterp) branch(cond *T, yes, no *cNode) {
	old := copyEnv(c.env)
	ptr := map[string]*cPtr{}
	for k, v := range c.ptr {
		ptr[k] = v
	}
	c.conds = append(c.conds, cond)
	c.stmt(yes)
	then := c.env
	c.env = copyEnv(old)
	c.conds[len(c.conds)-1] = c.p.not(cond)
	c.stmt(no)
	c.conds = c.conds[:len(c.conds)-1]
	for k, v := range then {
		if w := c.env[k]; w != nil && w != v {
			c.env[k] = c.p.add(w, c.p.ite(cond, c.p.sub(v, w), c.p.c(0)))
		}
	}
	for k, v := range ptr {
		if w := c.ptr[k]; w != nil && *w != *v {
			panic(c.f.name + ": a pointer changes in a branch")
		}
	}
}

// skips: if (...) continue;
func skips(n *cNode) bool {
	if n == nil || n.Kind != "IfStmt" || len(n.Inner) != 2 {
		return false
	}
	b := n.Inner[1]
	for b.Kind == "CompoundStmt" && len(b.Inner) == 1 {
		b = b.Inner[0]
	}
	return b.Kind == "ContinueStmt"
}

// call evaluates a call of a function of the same file.
func (c *cInterp) call(n *cNode) *T {
	f := n.Inner[0]
	for f.Kind == "ImplicitCastExpr" || f.Kind == "ParenExpr" {
		f = f.Inner[0]
	}
	if f.Kind != "DeclRefExpr" || f.ReferencedDecl == nil || c.defs[f.ReferencedDecl.Name] == nil {
		c.fail(n, "call")
	}
	d := c.defs[f.ReferencedDecl.Name]
	for _, x := range c.calls {
		if x == d.Name {
			c.fail(n, "recursion")
		}
	}
	k := 0
	type bind struct {
		id string
		v  *T
		q  *cPtr
		t  string
	}
	var bs []bind
	for _, x := range d.Inner {
		if x.Kind != "ParmVarDecl" {
			continue
		}
		k++
		t := cType(x.Type)
		if strings.HasSuffix(strings.TrimSuffix(t, "restrict"), "*") {
			bs = append(bs, bind{x.ID, nil, c.pointer(n.Inner[k]), t})
		} else {
			bs = append(bs, bind{x.ID, c.fit(c.expr(n.Inner[k]), t), nil, t})
		}
	}
	for _, b := range bs {
		c.typ[b.id] = b.t
		if b.q != nil {
			c.ptr[b.id] = b.q
		} else {
			c.env[b.id] = b.v
		}
	}
	ob, oc, or, od, ov, os := c.base, c.cbase, c.returned, c.calls, c.ret, c.skip
	c.base, c.cbase, c.returned, c.ret, c.skip = len(c.loops), len(c.conds), false, nil, false
	c.calls = append(append([]string{}, c.calls...), d.Name)
	c.stmt(d.Inner[len(d.Inner)-1])
	v := c.ret
	c.base, c.cbase, c.returned, c.calls, c.ret, c.skip = ob, oc, or, od, ov, os
	if v == nil {
		return c.p.app("unknown", "void")
	}
	t := cType(n.Type)
	return c.fit(v, t)
}

func copyEnv(m map[string]*T) map[string]*T {
	r := map[string]*T{}
	for k, v := range m {
		r[k] = v
	}
	return r
}

// loop evaluates a counting loop once, for a symbolic iteration.
func (c *cInterp) loop(cond, inc, body *cNode) {
	p := c.p
	c.n++
	k := p.app("param", fmt.Sprint("#i", c.n))
	// which variables change, and which by one in every iteration
	changed := map[string]int{}
	steps := map[string]int{}
	strides := map[string]*cNode{}
	var scan func(n *cNode, top bool)
	scan = func(n *cNode, top bool) {
		if n == nil {
			return
		}
		id, by := "", 0
		if n.Kind == "UnaryOperator" && (n.Opcode == "++" || n.Opcode == "--") {
			id, by = cRef(n.Inner[0]), 1
			if n.Opcode == "--" {
				by = -1
			}
		}
		if n.Kind == "CompoundAssignOperator" || n.Kind == "BinaryOperator" && n.Opcode == "=" {
			id = cRef(n.Inner[0])
			if n.Opcode == "+=" && cLit(n.Inner[1]) == "1" {
				by = 1
			} else if n.Opcode == "+=" && top && id != "" && changed[id] == 0 {
				strides[id] = n.Inner[1]
			}
		}
		if id != "" {
			changed[id]++
			if top && by != 0 {
				steps[id] += by
			} else {
				steps[id] += 1000
			}
		}
		for _, x := range n.Inner {
			scan(x, top && (n.Kind == "BinaryOperator" && n.Opcode == "," || n.Kind == "ParenExpr" || n.Kind == "ExprWithCleanups"))
		}
	}
	scan(inc, true)
	var last []*cNode
	if body.Kind == "CompoundStmt" {
		last = body.Inner
	}
	for q, x := range last {
		// steps at the end of the body count as steps of the loop
		tail := true
		for _, y := range last[q:] {
			tail = tail && (y.Kind == "UnaryOperator" || y.Kind == "CompoundAssignOperator")
		}
		scan(x, tail)
	}
	if last == nil {
		scan(body, false)
	}
	starts := map[string]*T{}
	accs := map[string]*T{}
	inits := map[string]*T{}
	ptrs := map[string]*cPtr{}
	stride := map[string]*T{}
	for id, e := range strides {
		if changed[id] != 1 || !invariant(e, changed) {
			continue
		}
		if c.ptr[id] != nil || c.env[id] != nil {
			na := len(c.f.acc)
			v := c.expr(e)
			if len(c.f.acc) == na {
				stride[id] = v
			}
			c.f.acc = c.f.acc[:na]
		}
	}
	for id := range changed {
		if v := stride[id]; v != nil {
			by := p.mul(k, v)
			if q := c.ptr[id]; q != nil {
				ptrs[id] = q
				c.ptr[id] = &cPtr{q.base, p.add(q.off, by)}
			} else {
				c.wide(inc, by, c.typ[id])
				starts[id] = c.env[id]
				c.env[id] = p.add(c.env[id], by)
			}
			continue
		}
		switch {
		case c.ptr[id] != nil:
			if steps[id] != 1 {
				panic(c.f.name + ": a pointer is moved irregularly")
			}
			ptrs[id] = c.ptr[id]
			c.ptr[id] = &cPtr{c.ptr[id].base, p.add(c.ptr[id].off, k)}
		case c.env[id] == nil:
			// not set before the loop
		case steps[id] == 1 || steps[id] == -1:
			starts[id] = c.env[id]
			c.env[id] = p.add(c.env[id], p.scale(k, int64(steps[id])))
		default:
			inits[id] = c.env[id]
			accs[id] = p.app("param", fmt.Sprint("#acc", c.n, ":", id))
			c.env[id] = accs[id]
		}
	}
	// the number of iterations
	cd := c.strip(cond)
	if cd == nil || cd.Kind != "BinaryOperator" {
		panic(c.f.name + ": a loop without a bound")
	}
	x, y := c.expr(cd.Inner[0]), c.expr(cd.Inner[1])
	op := cd.Opcode
	switch op {
	case ">":
		x, y, op = y, x, "<"
	case ">=":
		x, y, op = y, x, "<="
	}
	// x < y ends when y-x reaches zero
	d := p.sub(y, x)
	if op == "<=" {
		d = p.add(d, p.c(1))
	} else if op != "<" && op != "!=" {
		panic(c.f.name + ": a loop with the test " + op)
	}
	s := p.sub(d, p.subst(d, map[*T]*T{k: p.c(0)}))
	if op == "!=" && s == k {
		d, s = p.scale(d, -1), p.scale(s, -1)
	}
	if s != p.scale(k, -1) {
		panic(c.f.name + ": a loop that does not count by one")
	}
	trip := p.subst(d, map[*T]*T{k: p.c(0)})
	c.loops = append(c.loops, cLoop{k, trip})
	c.skip = inc != nil && inc.Kind != ""
	c.stmt(body)
	c.skip = false
	c.loops = c.loops[:len(c.loops)-1]
	for id, st := range starts {
		if v := stride[id]; v != nil {
			c.env[id] = p.add(st, p.mul(trip, v))
			continue
		}
		c.env[id] = p.add(st, p.scale(trip, int64(steps[id])))
	}
	for id, q := range ptrs {
		if v := stride[id]; v != nil {
			c.ptr[id] = &cPtr{q.base, p.add(q.off, p.mul(trip, v))}
			continue
		}
		c.ptr[id] = &cPtr{q.base, p.add(q.off, trip)}
	}
	for id, sym := range accs {
		v := c.env[id]
		step := p.sub(v, sym)
		switch {
		case !containsTerm(step, sym):
			c.env[id] = p.add(inits[id], p.sum(trip, k, step))
		case !containsTerm(v, sym):
			c.env[id] = p.app("unknown", fmt.Sprint(c.n, id))
		default:
			c.env[id] = p.app("unknown", fmt.Sprint(c.n, id))
		}
	}
	if inc == nil {
		return
	}
}

func invariant(n *cNode, changed map[string]int) bool {
	if n == nil {
		return true
	}
	if n.Kind == "CallExpr" || changed[cRef(n)] > 0 {
		return false
	}
	for _, x := range n.Inner {
		if !invariant(x, changed) {
			return false
		}
	}
	return true
}

func cRef(n *cNode) string {
	for n != nil && (n.Kind == "ParenExpr" || n.Kind == "ImplicitCastExpr") {
		n = n.Inner[0]
	}
	if n != nil && n.Kind == "DeclRefExpr" && n.ReferencedDecl != nil {
		return n.ReferencedDecl.ID
	}
	return ""
}

func cLit(n *cNode) string {
	for n != nil && (n.Kind == "ParenExpr" || n.Kind == "ImplicitCastExpr") {
		n = n.Inner[0]
	}
	if n != nil && n.Kind == "IntegerLiteral" {
		return fmt.Sprint(n.Value)
	}
	return ""
}

func (c *cInterp) strip(n *cNode) *cNode {
	for n != nil && (n.Kind == "ParenExpr" || n.Kind == "ImplicitCastExpr" && n.CastKind != "IntegralCast") {
		n = n.Inner[0]
	}
	return n
}

func isValue(t *T) bool {
	f := false
	walkT(t, func(x *T) bool {
		f = f || x.op == "cld"
		return !f
	})
	return f
}

// fit converts a value to a type: what the conversion may lose stays visible.
func (c *cInterp) fit(t *T, typ string) *T {
	w, _ := cWidth(typ)
	if w == 0 || w >= c.w || !isValue(t) {
		return t
	}
	if t.op == "cld" && c.f.ptr[t.aux] <= w {
		return t
	}
	if t.op == "narrow" && atoi(t.aux) <= w {
		return t
	}
	if _, ok := t.isC(); ok {
		return t
	}
	return c.p.app("narrow", fmt.Sprint(w), t)
}

func (c *cInterp) pointer(n *cNode) *cPtr {
	switch n.Kind {
	case "ParenExpr", "ImplicitCastExpr", "CStyleCastExpr":
		return c.pointer(n.Inner[0])
	case "DeclRefExpr":
		if q := c.ptr[cRef(n)]; q != nil {
			return q
		}
	case "BinaryOperator":
		if n.Opcode == "+" || n.Opcode == "-" {
			x, y := n.Inner[0], n.Inner[1]
			if n.Opcode == "+" && !strings.Contains(cType(x.Type), "*") {
				x, y = y, x
			}
			q := c.pointer(x)
			d := c.expr(y)
			if n.Opcode == "-" {
				d = c.p.scale(d, -1)
			}
			return &cPtr{q.base, c.p.add(q.off, d)}
		}
	case "UnaryOperator":
		if n.Opcode == "&" {
			return c.place(n.Inner[0])
		}
		if (n.Opcode == "++" || n.Opcode == "--") && n.IsPostfix {
			return c.pointer(n.Inner[0])
		}
	}
	c.fail(n, "pointer")
	return nil
}

// place: the memory an expression denotes, or nil for a variable.
func (c *cInterp) place(n *cNode) *cPtr {
	switch n.Kind {
	case "ParenExpr":
		return c.place(n.Inner[0])
	case "ArraySubscriptExpr":
		q := c.pointer(n.Inner[0])
		return &cPtr{q.base, c.p.add(q.off, c.expr(n.Inner[1]))}
	case "UnaryOperator":
		if n.Opcode == "*" {
			return c.pointer(n.Inner[0])
		}
	case "DeclRefExpr":
		return nil
	}
	c.fail(n, "place")
	return nil
}

func (c *cInterp) load(q *cPtr) *T {
	c.f.acc = append(c.f.acc, cAccess{array: q.base, idx: q.off, loops: append([]cLoop{}, c.loops...), conds: append([]*T{}, c.conds...)})
	return c.p.app("cld", q.base, q.off)
}

func (c *cInterp) assign(n *cNode, v *T) {
	if q := c.place(n); q != nil {
		c.f.acc = append(c.f.acc, cAccess{array: q.base, idx: q.off, store: true, val: v, loops: append([]cLoop{}, c.loops...), conds: append([]*T{}, c.conds...)})
		return
	}
	id := cRef(n)
	c.env[id] = c.fit(v, c.typ[id])
}

// wide notes a size or an index that is a product of variables and is computed in less than 64 bits.
func (c *cInterp) wide(n *cNode, v *T, typ string) {
	w, _ := cWidth(typ)
	if w == 0 || w >= 64 || isValue(v) || !hasOp(v, "*") {
		return
	}
	c.f.narrow = append(c.f.narrow, fmt.Sprintf("%s is computed in %s", short2(v), typ))
}

func (c *cInterp) cond(n *cNode) *T {
	p := c.p
	n = c.strip(n)
	if n.Kind == "UnaryOperator" && n.Opcode == "!" {
		return p.not(c.cond(n.Inner[0]))
	}
	if n.Kind == "BinaryOperator" {
		x, y := n.Inner[0], n.Inner[1]
		switch n.Opcode {
		case "==":
			return p.eq(c.expr(x), c.expr(y))
		case "!=":
			return p.not(p.eq(c.expr(x), c.expr(y)))
		case "<":
			return p.lt0(p.sub(c.expr(x), c.expr(y)))
		case ">":
			return p.lt0(p.sub(c.expr(y), c.expr(x)))
		}
	}
	return p.not(p.eq(c.expr(n), p.c(0)))
}

func (c *cInterp) expr(n *cNode) *T {
	p := c.p
	switch n.Kind {
	case "ParenExpr", "ConstantExpr":
		return c.expr(n.Inner[0])
	case "IntegerLiteral":
		var v int64
		fmt.Sscan(fmt.Sprint(n.Value), &v)
		return p.c(v)
	case "ImplicitCastExpr", "CStyleCastExpr":
		in := n.Inner[0]
		switch n.CastKind {
		case "LValueToRValue":
			if id := cRef(in); id != "" {
				if c.env[id] == nil {
					return p.app("unknown", id)
				}
				return c.env[id]
			}
			return c.load(c.place(in))
		case "IntegralCast", "NoOp":
			v := c.expr(in)
			sw, signed := cWidth(cType(in.Type))
			w, _ := cWidth(cType(n.Type))
			if w < sw && hasOp(v, "*") {
				c.wide(n, v, cType(n.Type))
			}
			if w >= sw && (signed || v.op == "cld" || v.op == "narrow") && w >= c.w {
				return v // keeps the value, or extends the sign
			}
			if w >= sw && !signed && sw >= c.w {
				return v
			}
			if w >= sw && !signed && isValue(v) && sw < c.w {
				return c.fit(v, cType(in.Type))
			}
			_, ts := cWidth(cType(n.Type))
			if w >= sw && ts == signed {
				return v
			}
			return c.fit(v, cType(n.Type))
		}
		c.fail(n, "cast "+n.CastKind)
	case "ArraySubscriptExpr":
		return c.load(c.place(n))
	case "DeclRefExpr":
		if v := c.env[cRef(n)]; v != nil {
			return v
		}
		return p.app("unknown", cRef(n))
	case "UnaryOperator":
		switch n.Opcode {
		case "-":
			v := p.scale(c.expr(n.Inner[0]), -1)
			if _, signed := cWidth(cType(n.Type)); !signed {
				return c.fit(v, cType(n.Type))
			}
			return v
		case "+":
			return c.expr(n.Inner[0])
		case "*":
			return c.load(c.place(n))
		case "++", "--":
			d := int64(1)
			if n.Opcode == "--" {
				d = -1
			}
			if id := cRef(n.Inner[0]); c.ptr[id] != nil {
				// counted by the loop
				return p.c(0)
			}
			old := c.value(n.Inner[0])
			c.assign(n.Inner[0], p.add(old, p.c(d)))
			return old
		}
	case "CompoundAssignOperator":
		if c.ptr[cRef(n.Inner[0])] != nil {
			return p.c(0)
		}
		x, y := c.value(n.Inner[0]), c.expr(n.Inner[1])
		v := c.binary(n, strings.TrimSuffix(n.Opcode, "="), x, y, cType(n.ComputeResultType))
		c.assign(n.Inner[0], v)
		return v
	case "BinaryOperator":
		switch n.Opcode {
		case "=":
			if id := cRef(n.Inner[0]); strings.HasSuffix(strings.TrimSuffix(c.typ[id], "restrict"), "*") && id != "" {
				c.ptr[id] = c.pointer(n.Inner[1])
				return p.c(0)
			}
			v := c.expr(n.Inner[1])
			c.assign(n.Inner[0], v)
			return v
		case ",":
			c.expr(n.Inner[0])
			return c.expr(n.Inner[1])
		}
		return c.binary(n, n.Opcode, c.expr(n.Inner[0]), c.expr(n.Inner[1]), cType(n.Type))
	case "CallExpr":
		return c.call(n)
	case "ConditionalOperator":
		cd := c.cond(n.Inner[0])
		return p.ite(cd, c.expr(n.Inner[1]), c.expr(n.Inner[2]))
	}
	c.fail(n, "expression")
	return nil
}

// value: what an assignable expression holds.
func (c *cInterp) value(n *cNode) *T {
	if q := c.place(n); q != nil {
		return c.load(q)
	}
	if v := c.env[cRef(n)]; v != nil {
		return v
	}
	return c.p.app("unknown", cRef(n))
}

func (c *cInterp) binary(n *cNode, op string, x, y *T, typ string) *T {
	p := c.p
	var v *T
	switch op {
	case "+":
		v = p.add(x, y)
	case "-":
		v = p.sub(x, y)
	case "*":
		v = p.mul(x, y)
		c.wide(n, v, typ)
	case "&", "|", "^", "/", "%", "<<", ">>":
		v = p.app("c"+op, "", x, y)
	default:
		c.fail(n, "operator")
	}
	if isValue(v) && v != x {
		return c.fit(v, typ)
	}
	return v
}

// isProduct: the term is a times b, for b zero or one if binary.
func (p *Pool) isProduct(t, a, b *T, binary bool) bool {
	if t == p.mul(a, b) {
		return true
	}
	if !binary && t.op != "ite" {
		return false
	}
	if t.op == "c&" {
		for k := 0; k < 2; k++ {
			if t.args[k] == a && t.args[1-k] == p.scale(b, -1) {
				return true
			}
		}
	}
	z := p.eq(b, p.c(0))
	if t.op == "ite" {
		// a zero factor is skipped
		for _, f := range []*T{a, b} {
			if t.args[0] == p.eq(f, p.c(0)) && t.args[1].isZero() && p.isProduct(t.args[2], a, b, binary) ||
				t.args[0] == p.not(p.eq(f, p.c(0))) && t.args[2].isZero() && p.isProduct(t.args[1], a, b, binary) {
				return true
			}
		}
		return binary && t.args[0] == z && t.args[1].isZero() && t.args[2] == a ||
			binary && (t.args[0] == p.not(z) || t.args[0] == p.eq(b, p.c(1))) && t.args[1] == a && t.args[2].isZero()
	}
	return false
}

// kernels: the matrix products of the package, down to the C code.
func (r *Run) kernels(wrp, krn string, names ...string) {
	goFns := map[string]string{"multiply": "lib/matrix.Mul", "binary_multiply": "lib/matrix.BinaryMul", "multiply128": "lib/matrix.Mul128", "binary_multiply128": "lib/matrix.BinaryMul128"}
	fs, err := r.cFuncs(filepath.Join(r.p.Dir, "lib/matrix"))
	if err != nil {
		panic(unresolved(err.Error()))
	}
	for _, name := range names {
		name := name
		r.part(name, func() {
			r.product(wrp, goFns[name], func(k string) {
				f := fs[k]
				if f == nil {
					panic(unresolved("no kernel " + k))
				}
				r.funcs["C "+k] = true
				r.kernelLoops(krn, f, strings.HasPrefix(name, "binary"))
			})
		})
	}
}

// kernelLoops: the function adds the product of its second and third matrix to the last.
func (r *Run) kernelLoops(rule string, f *cFunc, binary bool) {
	w := "lib/matrix:" + f.name
	if !r.ob(rule, f.name+" evaluated", w, f.err == "", "%s", f.err) {
		return
	}
	p := cPools[f]
	arg := func(k int) *T { return p.app("param", fmt.Sprint("arg", k)) }
	rows, inner, cols := arg(0), arg(1), arg(2)
	n := 0
	for _, s := range f.acc {
		if !s.store {
			continue
		}
		n++
		if !r.ob(rule, f.name+" output", w, s.array == "arg5", "%s is written", s.array) {
			continue
		}
		self := p.app("cld", "arg5", s.idx)
		d := s.val
		plus := containsTerm(d, self)
		if plus {
			d = p.sub(d, self)
		}
		// an addition made under a condition
		for _, c := range s.conds {
			d = p.ite(c, d, p.c(0))
		}
		ok := false
		why := fmt.Sprintf("element %s becomes %s in %d nested loops", short2(s.idx), short2(s.val), len(s.loops))
		perm(len(s.loops), func(o []int) {
			if ok || len(o) < 2 || len(o) > 3 {
				return
			}
			i, j := s.loops[o[0]], s.loops[o[1]]
			if i.trip != rows || j.trip != cols || s.idx != p.add(p.mul(cols, i.k), j.k) {
				return
			}
			prod := func(t, k *T) bool {
				return p.isProduct(t, p.app("cld", "arg3", p.add(p.mul(inner, i.k), k)), p.app("cld", "arg4", p.add(p.mul(cols, k), j.k)), binary)
			}
			if len(o) == 3 {
				ok = plus && s.loops[o[2]].trip == inner && prod(d, s.loops[o[2]].k)
				return
			}
			ok = d.op == "sum" && d.args[0] == inner && prod(d.args[1], p.bound(atoi(d.aux)))
		})
		r.ob(rule, f.name, w, ok, "%s", why)
	}
	r.ob(rule, f.name+" once", w, n == 1, "the output is written at %d places", n)
}

func perm(n int, f func(o []int)) {
	var rec func(o []int)
	rec = func(o []int) {
		if len(o) == n {
			f(o)
			return
		}
		for k := 0; k < n; k++ {
			in := false
			for _, x := range o {
				in = in || x == k
			}
			if !in {
				rec(append(append([]int{}, o...), k))
			}
		}
	}
	rec(nil)
}

// product: the function returns what one call of a kernel makes of its operands.
func (r *Run) product(rule, fn string, kernel func(name string)) {
	a := r.flat(fn)
	p := a.p
	var calls []*Ins
	for _, b := range a.rpo {
		for _, i := range b.Ins {
			if i.Op == OpCall && strings.Contains(a.callee(i), "._Cfunc_") && nargs(i) == 6 {
				calls = append(calls, i)
			}
		}
	}
	if !r.ob(rule, fn+" kernel", "", len(calls) == 1, "%d kernels are called", len(calls)) {
		return
	}
	c := calls[0]
	w := a.f.where(c)
	name := a.callee(c)
	name = name[strings.Index(name, "._Cfunc_")+len("._Cfunc_"):]
	kernel(name)
	x, y := p.app("param", a.paramName(0)), p.app("param", a.paramName(1))
	dim := func(m *T, f string) func(t *T) bool {
		return func(t *T) bool {
			return (t.op == "ld" || t.op == "mem") && t.args[0].op == "fa" && hasSuffix(t.args[0].aux, "."+f) && t.args[0].args[0] == m
		}
	}
	// inner dimension: tested to be the same for both
	for k, is := range []func(t *T) bool{dim(x, "rows"), func(t *T) bool { return dim(x, "cols")(t) || dim(y, "rows")(t) }, dim(y, "cols")} {
		r.ob(rule, fmt.Sprint(fn, " dimension ", k), w, is(a.arg(c, k)), "dimension %d is %s", k, short2(a.arg(c, k)))
	}
	for k, m := range []*T{x, y} {
		is := dim(m, "data")
		t := a.arg(c, 3+k)
		ok := t.op == "ia" && t.args[1].isZero() && is(t.args[0])
		if !ok {
			ok = a.packed(t, is, c)
		}
		r.ob(rule, fmt.Sprint(fn, " operand ", k), w, ok, "operand %d is %s", k, short2(t))
	}
	out := a.arg(c, 5)
	n := 0
	for _, b := range a.acceptBlocks() {
		n++
		wb := a.f.whereB(b)
		at := a.endOf(b)
		r.ob(rule, fn+" always", wb, a.DomI(c, at), "a product is returned without the kernel's being called")
		res := a.at(b.Rets[0], b)
		el := ptrElem(b.Rets[0].Typ)
		st := structName(el)
		dt := a.fieldAt(res, st+".data", at)
		r.ob(rule, fn+" result rows", wb, dim(x, "rows")(a.fieldAt(res, st+".rows", at)), "the result has %s rows", short2(a.fieldAt(res, st+".rows", at)))
		r.ob(rule, fn+" result columns", wb, dim(y, "cols")(a.fieldAt(res, st+".cols", at)), "the result has %s columns", short2(a.fieldAt(res, st+".cols", at)))
		if out.op == "ia" && out.args[1].isZero() && out.args[0] == dt {
			r.ob(rule, fn+" result", wb, true, "")
			continue
		}
		// unpacked from bytes
		j := p.app("param", "#j")
		var e *T
		a.assuming(map[*T]*T{j: a.lenT(dt)}, func() { e = a.elemAt(dt, j, at) })
		buf := bufferOf(out)
		ok := e.op == "call" && hasSuffix(callName(e), "uint128.FromBytes") && e.args[0].op == "sl" && e.args[0].args[0] == buf && e.args[0].args[1] == p.scale(j, 16)
		r.ob(rule, fn+" result", wb, ok && buf.op == "obj", "element j of the result is %s", short2(e))
	}
	r.ob(rule, fn+" returns", "", n > 0, "nothing is returned")
}

// bufferOf: the array a pointer to its start, or to its first bytes, is into.
func bufferOf(t *T) *T {
	for t != nil {
		switch {
		case t.op == "ia" && t.args[1].isZero(), t.op == "sl" && t.args[1].isZero(), strings.HasPrefix(t.op, "conv"):
			t = t.args[0]
		default:
			return t
		}
	}
	return nil
}

// packed: the buffer holds each element of the data in 16 bytes, in order.
func (a *Analysis) packed(t *T, isData func(t *T) bool, at *Ins) bool {
	p := a.p
	buf := bufferOf(t)
	if buf == nil || buf.op != "obj" {
		return false
	}
	n := 0
	for _, b := range a.rpo {
		for _, i := range b.Ins {
			if i.Op != OpCall || !hasSuffix(a.callee(i), "uint128.Uint128).PutBytes") {
				continue
			}
			d := a.arg(i, 1)
			if d.op != "sl" || d.args[0] != buf {
				continue
			}
			n++
			v := a.arg(i, 0)
			l := a.loopOf[b]
			if l == nil || v.op != "ld" || v.args[0].op != "ia" || !isData(v.args[0].args[0]) || v.args[0].args[1] != p.k(l.ID) || d.args[1] != p.scale(p.k(l.ID), 16) {
				return false
			}
			if tr := a.TripOf(l); tr != a.lenT(v.args[0].args[0]) || !a.allIterations(l) || !a.Dom(l.Header, at.Blk) {
				return false
			}
			for _, x := range l.Latches {
				if !a.Dom(b, x) {
					return false
				}
			}
		}
	}
	return n == 1
}
