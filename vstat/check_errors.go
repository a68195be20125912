package main

// Errors that must not be lost: the calls of fallible steps, followed through
// the functions that pass the failure on to their callers.

import (
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// errIns: the instruction that holds the error result of a call.
func (a *Analysis) errIns(i *Ins) (*Ins, bool) {
	if isErrorType(i.Typ) {
		return i, true
	}
	var n = -1
	if tt, ok := i.Typ.(*types.Tuple); ok {
		for k := 0; k < tt.Len(); k++ {
			if isErrorType(tt.At(k).Type()) {
				n = k
			}
		}
	}
	if n < 0 {
		return nil, false
	}
	for _, b := range a.rpo {
		for _, x := range b.Ins {
			if x.Op == OpExtract && x.Args[0] == i && x.Idx == n {
				return x, true
			}
		}
	}
	return nil, true
}

// failStops: when the call fails, the function neither returns successfully nor,
// in a goroutine of its own, ends; it returns an error or ends the program.
func (a *Analysis) failStops(i *Ins) (bool, string) {
	e, has := a.errIns(i)
	if !has {
		return true, ""
	}
	async := i.Ctx != nil && i.Ctx.async() != nil
	goal := func(s *pst) bool {
		if s.b.Term == TThreadEnd && async {
			return true
		}
		if !a.accepting(s) {
			return false
		}
		for _, x := range s.b.Rets {
			if e != nil && x == e {
				return false
			}
		}
		return true
	}
	start := &pst{b: i.Blk, env: map[int]int8{}}
	if e != nil {
		start.env[e.ID] = fNon
	}
	path, found := a.explore(exploreOpts{start: start, goal: goal})
	if found {
		return false, a.pathString(path)
	}
	return true, ""
}

// fallible: the calls of seed functions, and of the product functions that
// contain such calls and report their failure.
func (r *Run) fallible(rule string, seed func(name string) bool, in func(fn *ssa.Function) bool) int {
	p := r.p
	set := map[*ssa.Function]bool{}
	is := func(c *ssa.CallCommon) bool {
		if f := staticCallee(c); f != nil && set[f] {
			return true
		}
		return seed(calleeName(c))
	}
	outer := func(fn *ssa.Function) *ssa.Function {
		for fn.Parent() != nil {
			fn = fn.Parent()
		}
		return fn
	}
	fns := map[*ssa.Function]bool{}
	for changed := true; changed; {
		changed = false
		for _, fn := range p.productFuncs() {
			if !in(fn) || fns[outer(fn)] {
				continue
			}
			for _, b := range fn.Blocks {
				for _, x := range b.Instrs {
					if c, ok := x.(ssa.CallInstruction); ok && is(c.Common()) {
						o := outer(fn)
						if !fns[o] {
							fns[o] = true
							changed = true
						}
						res := o.Signature.Results()
						if n := res.Len(); n > 0 && isErrorType(res.At(n-1).Type()) && !set[o] {
							set[o] = true
							changed = true
						}
					}
				}
			}
		}
	}
	var list []*ssa.Function
	for fn := range fns {
		list = append(list, fn)
	}
	sort.Slice(list, func(i, j int) bool { return fnName(list[i]) < fnName(list[j]) })
	n := 0
	for _, fn := range list {
		r.part(fnName(fn), func() {
			a := r.flatFn(fn, "own "+fnName(fn), func(f *ssa.Function) bool { return f.Parent() == nil })
			k := map[string]int{}
			for _, b := range a.rpo {
				for _, i := range b.Ins {
					if i.Op != OpCall && i.Op != OpGo {
						continue
					}
					name := a.callee(i)
					f := i.Args[0].SFn
					if !(f != nil && set[f]) && !seed(name) {
						continue
					}
					if _, has := a.errIns(i); !has {
						continue
					}
					n++
					k[name]++
					ok, why := a.failStops(i)
					r.ob(rule, shortN(fnName(fn))+" "+shortN(name)+" "+strconv.Itoa(k[name]), a.posOf(i), ok, "continues after the failure: %s", why)
				}
			}
		})
	}
	return n
}

func shortN(s string) string { return strings.ReplaceAll(s, modPath+"/", "") }
