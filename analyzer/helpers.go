package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// callF runs a function on given arguments in a copy of the state.
func (e *Engine) callF(st *State, f *ssa.Function, args ...*T) []Outcome {
	cur = st
	return e.callFn(st.clone(), f, args, nil, f.Pos())
}

// good are the outcomes that return.
func good(outs []Outcome) []Outcome {
	var res []Outcome
	for _, o := range outs {
		if !o.panic && o.st.consistent() {
			res = append(res, o)
		}
	}
	return res
}

// paramsOf makes symbols for receiver and parameters.
func (e *Engine) paramsOf(f *ssa.Function) []*T {
	var as []*T
	for i, p := range f.Params {
		n := "p" + itoa(i)
		if i == 0 && f.Signature.Recv() != nil {
			n = "self"
		}
		v := mkSym(n)
		for v.vt != nil && !types.Identical(v.vt, p.Type()) {
			n += "'"
			v = mkSym(n)
		}
		as = append(as, withVT(v, p.Type()))
	}
	return as
}

// methodOf is a method of a type.
func (e *Engine) methodOf(t types.Type, name string) *ssa.Function {
	var pkg *types.Package
	el := t
	if p, ok := t.(*types.Pointer); ok {
		el = p.Elem()
	}
	if n, ok := el.(*types.Named); ok {
		pkg = n.Obj().Pkg()
	}
	sel := e.prog.MethodSets.MethodSet(t).Lookup(pkg, name)
	if sel == nil {
		panic(undecided{"no method " + name + " of " + t.String()})
	}
	return e.prog.MethodValue(sel)
}

// storeType is the dynamic type an exported constructor returns.
func (e *Engine) storeType(ctor string) types.Type {
	f := e.lookupFn(ctor)
	if f == nil {
		return nil
	}
	var t types.Type
	for _, o := range good(e.callF(e.base, f, e.paramsOf(f)...)) {
		if len(o.vals) == 0 || o.vals[0].op != "iface" || t != nil && !types.Identical(t, o.vals[0].typ) {
			return nil
		}
		t = o.vals[0].typ
	}
	return t
}

func anyOp(t *T, ops ...string) bool {
	return anySub(t, func(x *T) bool {
		for _, o := range ops {
			if x.op == o {
				return true
			}
		}
		return false
	}) != nil
}
