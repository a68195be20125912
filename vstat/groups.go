package main

// Group elements and scalars are mutable objects behind an interface. Their
// value is kept at a pseudo field of the object; the methods are stores to it.

import (
	"go/types"
	"strings"
)

const groupPkg = "(github.com/cloudflare/circl/group."

// groupMethod gives the method name for a method of a group element or scalar.
func groupMethod(i *Ins) string {
	if i.Op != OpCall || i.Method == nil || !i.Invoke {
		return ""
	}
	n := i.Method.FullName()
	if n == "(encoding.BinaryUnmarshaler).UnmarshalBinary" && isGroupType(i.Args[0].Typ) {
		return "UnmarshalBinary"
	}
	if n == "(encoding.BinaryMarshaler).MarshalBinary" && isGroupType(i.Args[0].Typ) {
		return "MarshalBinary"
	}
	for _, ty := range []string{"Element).", "Scalar)."} {
		if strings.HasPrefix(n, groupPkg+ty) {
			return strings.TrimPrefix(n, groupPkg+ty)
		}
	}
	return ""
}

func isGroupType(t types.Type) bool {
	if t == nil {
		return false
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "github.com/cloudflare/circl/group" && (n.Obj().Name() == "Element" || n.Obj().Name() == "Scalar")
}

func isGroupRead(n string) bool {
	if strings.HasPrefix(n, groupPkg+"Group).") {
		return true
	}
	for _, ty := range []string{"Element).", "Scalar)."} {
		switch strings.TrimPrefix(n, groupPkg+ty) {
		case "IsIdentity", "IsEqual", "IsZero", "MarshalBinary", "MarshalBinaryCompress", "Copy", "Group", "String":
			return true
		}
	}
	return false
}

func isGroupWrite(m string) bool {
	switch m {
	case "Add", "Mul", "Neg", "Dbl", "MulGen", "UnmarshalBinary", "Set", "Sub", "Inv", "CMov", "CSelect", "SetUint64", "SetBigInt":
		return true
	}
	return false
}

func (a *Analysis) groupAddr(ptr *T) *T { return a.p.app("fa", "Group.val", ptr) }

func (a *Analysis) groupVal(i *Ins, k int) *T {
	t := a.op(i, k)
	if n := callName(t); n == groupPkg+"Group).Identity" || n == groupPkg+"Group).HashToElement" || n == groupPkg+"Group).RandomScalar" {
		return a.resolve(a.groupAddr(t), i)
	}
	return a.resolve(a.groupAddr(t), i)
}

// groupStoreVal is the value a mutating method gives to its receiver.
func (a *Analysis) groupStoreVal(i *Ins) *T {
	p := a.p
	m := groupMethod(i)
	switch m {
	case "Add":
		return p.comm2("gAdd", a.groupVal(i, 1), a.groupVal(i, 2))
	case "Mul":
		return p.app("gMul", "", a.groupVal(i, 1), a.groupVal(i, 2))
	case "Neg":
		return p.app("gNeg", "", a.groupVal(i, 1))
	case "Dbl":
		return p.comm2("gAdd", a.groupVal(i, 1), a.groupVal(i, 1))
	case "MulGen":
		return p.app("gMulGen", "", a.groupVal(i, 1))
	case "UnmarshalBinary":
		return p.app("gDec", "", a.op(i, 1))
	case "Set":
		return a.groupVal(i, 1)
	}
	var as []*T
	for k := 1; k < len(i.Args); k++ {
		as = append(as, a.op(i, k))
	}
	return p.app("g"+m, "", as...)
}

// comm2 is a commutative operation whose arguments are kept with multiplicity.
func (p *Pool) comm2(op string, as ...*T) *T {
	var fl []*T
	for _, a := range as {
		if a.op == op {
			fl = append(fl, a.args...)
		} else if a.op != "gId" {
			fl = append(fl, a)
		}
	}
	if len(fl) == 0 {
		return p.app("gId", "")
	}
	if len(fl) == 1 {
		return fl[0]
	}
	for i := range fl {
		for j := i + 1; j < len(fl); j++ {
			if fl[j].id < fl[i].id {
				fl[i], fl[j] = fl[j], fl[i]
			}
		}
	}
	return p.app(op, "", fl...)
}

// groupCall gives the term of a call of a group method, or nil.
func (a *Analysis) groupCall(i *Ins) *T {
	m := groupMethod(i)
	switch m {
	case "Add", "Mul", "Neg", "Dbl", "MulGen", "Set", "Sub", "Inv", "CMov", "CSelect", "SetUint64", "SetBigInt":
		return a.op(i, 0)
	case "IsIdentity":
		return a.p.app("gIsId", "", a.groupVal(i, 0))
	case "IsEqual":
		x, y := a.groupVal(i, 0), a.groupVal(i, 1)
		if y.id < x.id {
			x, y = y, x
		}
		return a.p.app("gEq", "", x, y)
	case "MarshalBinary", "MarshalBinaryCompress":
		return a.p.app("gEnc", m, a.groupVal(i, 0))
	case "UnmarshalBinary":
		return a.p.app("gDecErr", "", a.op(i, 1))
	}
	return nil
}

// Encodings of fixed size. The library encodes the identity of some groups in
// fewer bytes than the other elements, so that an encoding has a fixed size only
// if the identity is encoded apart, as zeros; gDecFix stands for the inverse.

// zeros: a fresh byte slice that nothing is written into.
func (a *Analysis) zeros(t *T) bool {
	return t.op == "obj" && len(a.byRoot[rootKey(t)]) == 0
}

// fixedEnc: the element that t is the encoding of, in as many bytes as size says.
func (a *Analysis) fixedEnc(t *T, size func(*T) bool) *T {
	if t.op != "ite" || t.args[0].op != "gIsId" || !a.zeros(t.args[1]) || !size(a.lenT(t.args[1])) {
		return nil
	}
	e := t.args[2]
	if e.op != "x" || e.aux != "0" || e.args[0].op != "gEnc" || e.args[0].args[0] != t.args[0].args[0] {
		return nil
	}
	return e.args[0].args[0]
}

// elemSizeOf: the group whose elements, compressed, have as many bytes as t says.
func (a *Analysis) elemSizeOf(t *T) *T {
	if t.op != "len" || t.args[0].op != "x" || t.args[0].aux != "0" {
		return nil
	}
	e := t.args[0].args[0]
	if e.op != "gEnc" || e.aux != "MarshalBinaryCompress" || e.args[0].op != "ld" || e.args[0].args[0].op != "fa" {
		return nil
	}
	el := e.args[0].args[0].args[0]
	if callName(el) != groupPkg+"Group).RandomElement" {
		return nil
	}
	return el.args[0]
}

// encMethod: the method that such an encoding is made with.
func encMethod(t *T) string { return t.args[2].args[0].aux }

// canonDec: the term with decodings of fixed size as gDecFix.
func (a *Analysis) canonDec(t *T) *T {
	sub := map[*T]*T{}
	walkT(t, func(x *T) bool {
		if x.op != "ite" || x.args[1].op != "gId" || x.args[2].op != "gDec" {
			return true
		}
		b := x.args[2].args[0]
		y, z := equalLit(a.p, x.args[0])
		if y != b {
			y, z = z, y
		}
		if y == b && a.zeros(z) && a.lenT(z) == a.lenT(b) {
			sub[x] = a.p.app("gDecFix", "", b)
			return false
		}
		return true
	})
	if len(sub) == 0 {
		return t
	}
	return a.p.subst(t, sub)
}
