package main

// Runs of every exported operation of the module on arbitrary inputs.

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// exported are the functions a user of the module can call.
func (e *Engine) exported() []*ssa.Function {
	var out []*ssa.Function
	for f := range ssautil.AllFunctions(e.prog) {
		if f.Pkg == nil || f.Synthetic != "" || f.Parent() != nil || !e.inModule(f) || f.Blocks == nil {
			continue
		}
		p := f.Pkg.Pkg.Path()
		if strings.Contains(p, "/generated/") || strings.Contains(p, "/internal/tools") || strings.HasSuffix(p, "/tests") || strings.HasSuffix(p, ".test") {
			continue
		}
		if f.Object() == nil || !f.Object().Exported() || strings.HasSuffix(e.prog.Fset.Position(f.Pos()).Filename, "_test.go") {
			continue
		}
		if f.TypeParams().Len() > 0 || f.Origin() != nil {
			continue
		}
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func isErrorType(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }

// isPrim: the function is analysed as it is, not through its model.
func (e *Engine) isPrim(f *ssa.Function) bool {
	p := f.Pkg.Pkg.Path()
	return strings.HasPrefix(p, e.mod+"/curve") || strings.HasPrefix(p, e.mod+"/crypto")
}

// runFn analyses a function on symbolic arguments (some given).
func (e *Engine) runFn(st *State, f *ssa.Function, args []*T) (cs []*Case, sc *Scen, err error) {
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(undecided)
			if !ok {
				panic(r)
			}
			err = u
		}
	}()
	n := e.short(f.String())
	sc = &Scen{name: n, fn: n, e: e, args: map[string]*T{}, res: f.Signature.Results()}
	for i, a := range args {
		sc.args["p"+itoa(i)] = a
	}
	e.entry = n
	defer func() { e.entry = "" }()
	outs := e.callF(st, f, args...)
	for i, o := range good(outs) {
		cs = append(cs, e.splitOutcome(sc, i, o)...)
	}
	return cs, sc, nil
}

func (u undecided) Error() string { return u.msg }
