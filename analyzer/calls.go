package main

// Calls: inlining, dispatch and the models of functions outside of the module.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type callCtx struct {
	e    *Engine
	st   *State
	name string
	args []*T // including the receiver of methods
	typs []types.Type
	sig  *types.Signature
	pos  token.Pos
	fn   *ssa.Function
}

type model func(c *callCtx) []Outcome

var models = map[string]model{}

func (e *Engine) isModel(v *T) bool { return e.modelKind[v] != "" }

func (e *Engine) calleeTerm(p *path, v ssa.Value) *T {
	if b, ok := v.(*ssa.Builtin); ok {
		return mkSym("builtin:" + b.Name())
	}
	return e.val(p, v)
}

func (e *Engine) short(name string) string { return strings.ReplaceAll(name, e.mod+"/", "@/") }

func (e *Engine) callInstr(p *path, x *ssa.Call) []*path {
	var fn *T
	if x.Call.IsInvoke() {
		fn = e.val(p, x.Call.Value)
	} else {
		fn = e.calleeTerm(p, x.Call.Value)
	}
	var args []*T
	for _, a := range x.Call.Args {
		args = append(args, withVT(e.val(p, a), a.Type()))
	}
	outs := e.dispatch(p, x.Common(), fn, args, x.Pos())
	var ps []*path
	for i, o := range outs {
		if o.panic || !o.st.consistent() {
			continue
		}
		q := p
		if len(outs) > 1 && i < len(outs)-1 {
			q = p.fork()
		} else if i < len(outs)-1 {
			q = p.fork()
		}
		q.st = o.st
		switch len(o.vals) {
		case 0:
			q.env[x] = tUnit
		case 1:
			q.env[x] = withVT(o.vals[0], x.Type())
		default:
			q.env[x] = app("tuple", o.vals...)
		}
		ps = append(ps, q)
	}
	return ps
}

func (e *Engine) dispatch(p *path, cc *ssa.CallCommon, fn *T, args []*T, pos token.Pos) []Outcome {
	return e.dispatchSt(p.st, cc, fn, args, pos)
}

func (e *Engine) dispatchSt(st *State, cc *ssa.CallCommon, fn *T, args []*T, pos token.Pos) []Outcome {
	if pos != token.NoPos && (len(e.posStk) == 0 || e.posStk[len(e.posStk)-1] != pos) {
		e.posStk = append(e.posStk, pos)
		defer func() { e.posStk = e.posStk[:len(e.posStk)-1] }()
	}
	if cc.IsInvoke() {
		return e.invoke(st, cc.Value.Type(), cc.Method, fn, args, pos)
	}
	if fn.op == "sym" && strings.HasPrefix(fn.s, "builtin:") {
		return e.builtin(st, cc, fn.s[len("builtin:"):], args, pos)
	}
	return e.callTerm(st, fn, args, cc.Signature(), pos)
}

func (e *Engine) callTerm(st *State, fn *T, args []*T, sig *types.Signature, pos token.Pos) []Outcome {
	switch fn.op {
	case "fn":
		return e.callFn(st, e.fnByT[fn], args, nil, pos)
	case "closure":
		f := e.fnByT[fn.args[0]]
		return e.callFn(st, f, args, fn.args[1:], pos)
	}
	e.oblige(st, "nil function call", mkNot(mkEq(tNil, fn)), pos)
	e.note("unknown function value called at %s", e.where(pos))
	return e.unknownCall(&callCtx{e: e, st: st, name: "dyn", args: args, sig: sig, pos: pos})
}

func (e *Engine) callFn(st *State, f *ssa.Function, args, bindings []*T, pos token.Pos) []Outcome {
	name := e.short(f.RelString(nil))
	if o := f.Origin(); o != nil {
		name = e.short(o.RelString(nil))
	}
	c := &callCtx{e: e, st: st, name: name, args: args, sig: f.Signature, pos: pos, fn: f}
	for _, p := range f.Params {
		c.typs = append(c.typs, p.Type())
	}
	if len(c.typs) != len(args) {
		c.typs = nil
		if r := f.Signature.Recv(); r != nil {
			c.typs = append(c.typs, r.Type())
		}
		for i := 0; i < f.Signature.Params().Len(); i++ {
			c.typs = append(c.typs, f.Signature.Params().At(i).Type())
		}
	}
	if m, ok := e.extra[name]; ok {
		return m(e, c)
	}
	if e.opaque {
		if m, ok := opaqueModels[name]; ok {
			return m(c)
		}
	}
	if m, ok := models[name]; ok {
		return m(c)
	}
	if e.inModule(f) {
		if strings.Contains(name, "/generated/") {
			if f.Name() == "init" {
				return c.ret()
			}
			return e.generated(c)
		}
		return e.run(f, args, bindings, st)
	}
	return e.external(c)
}

// inlinePkgs are library packages whose plain Go code is interpreted when there is no model.
var inlinePkgs = map[string]bool{"bytes": true, "slices": true, "strings": true, "encoding/binary": true, "cmp": true, "maps": true,
	"encoding/hex": true, "crypto/subtle": true, "crypto/hmac": false}

func (e *Engine) external(c *callCtx) []Outcome {
	f := c.fn
	if f.Name() == "init" {
		return c.ret()
	}
	pk := f.Package()
	if pk == nil && f.Origin() != nil {
		pk = f.Origin().Package()
	}
	switch f.Name() {
	case "Error", "String":
		if f.Signature.Params().Len() == 0 {
			return c.ret(c.pure(nil)...)
		}
	}
	if pk != nil && inlinePkgs[pk.Pkg.Path()] {
		pk.Build()
		if len(f.Blocks) > 0 {
			if out, ok := e.tryRun(c); ok {
				return out
			}
		}
	}
	if f.Synthetic != "" && len(f.Blocks) > 0 {
		return e.run(f, c.args, nil, c.st)
	}
	e.note("no model for %s", c.name)
	return e.unknownCall(c)
}

func (e *Engine) tryRun(c *callCtx) (outs []Outcome, ok bool) {
	ns, np, m := len(e.stack), len(e.posStk), e.mark()
	ln, ld, sb, sf := e.loopNs, e.loopDep, e.strict, e.strictFail
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(undecided); !is {
				panic(r)
			}
			e.stack, e.posStk = e.stack[:ns], e.posStk[:np]
			e.loopNs, e.loopDep, e.strict, e.strictFail = ln, ld, sb, sf
			e.reset(m)
			ok = false
		}
	}()
	return e.run(c.fn, c.args, nil, c.st.clone()), true
}

// unknownCall: the results are functions of the reified arguments; an error result forks.
func (e *Engine) unknownCall(c *callCtx) []Outcome {
	x := Ext{Name: c.name, Args: c.args, Pos: c.pos, Fn: e.curFn(), Entry: e.entry}
	for i := range c.args {
		x.Flat = append(x.Flat, c.flat(i))
	}
	e.exts = append(e.exts, x)
	return c.fallible(app("okcall", c.appOf("ext:"+c.name)), func(st *State) []*T { return c.pure(st) }, nil)
}

func (c *callCtx) flat(i int) *T {
	if i >= len(c.args) {
		return tUnit
	}
	var t types.Type
	if i < len(c.typs) {
		t = c.typs[i]
	} else {
		t = c.args[i].vt
	}
	return c.e.reify(c.st, c.args[i], t)
}

func (c *callCtx) appOf(op string) *T {
	var as []*T
	for i := range c.args {
		as = append(as, c.flat(i))
	}
	return raw("ext", op, nil, as...)
}

// pure results without the error.
func (c *callCtx) pure(st *State) []*T {
	t := c.appOf("ext:" + c.name)
	var rs []*T
	n := c.sig.Results().Len()
	for i := 0; i < n; i++ {
		rt := c.sig.Results().At(i).Type()
		if i == n-1 && rt.String() == "error" {
			continue
		}
		v := t
		if n > 1 {
			v = raw("extract", fmt.Sprint(i), nil, t)
		}
		rs = append(rs, withVT(v, rt))
	}
	return rs
}

func (c *callCtx) ret(vs ...*T) []Outcome {
	return []Outcome{{st: c.st, vals: vs}}
}

func (c *callCtx) hasErr() bool {
	n := c.sig.Results().Len()
	return n > 0 && c.sig.Results().At(n-1).Type().String() == "error"
}

// fallible forks on cond; results excludes the error. fail (may be nil) prepares the failing state.
func (c *callCtx) fallible(cond *T, ok func(st *State) []*T, fail func(st *State) []*T) []Outcome {
	if !c.hasErr() {
		return []Outcome{{st: c.st, vals: ok(c.st)}}
	}
	var outs []Outcome
	v, k := c.st.eval(cond)
	if !k || v {
		st := c.st.clone()
		if st.assume(cond, true) {
			cur = st
			outs = append(outs, Outcome{st: st, vals: append(ok(st), tNil)})
		}
	}
	if !k || !v {
		st := c.st.clone()
		if st.assume(cond, false) {
			cur = st
			var vs []*T
			if fail != nil {
				vs = fail(st)
			} else {
				for i := 0; i < c.sig.Results().Len()-1; i++ {
					vs = append(vs, zeroOf(c.sig.Results().At(i).Type()))
				}
			}
			outs = append(outs, Outcome{st: st, vals: append(vs, c.newErr(st, c.name))})
		}
	}
	return outs
}

// newErr is an error made by a library or store.
func (c *callCtx) newErr(st *State, what string, args ...*T) *T {
	return raw("err", what+"@"+c.e.where(c.pos), nil, args...)
}

func (c *callCtx) bytes(i int) *T { return c.e.seq(c.st, c.args[i]) }
func (c *callCtx) len(i int) *T   { return c.e.sliceLen(c.st, c.args[i]) }
func (c *callCtx) slice(st *State, content *T) *T {
	return c.e.newSlice(st, content, nil, c.pos)
}

// obj makes a modelled library object.
func (c *callCtx) obj(st *State, kind string) *T {
	o := c.e.newObj(st, "m:"+kind, nil, c.pos)
	c.e.modelKind[o] = kind
	return o
}

func cell(o *T, name string) *T { return mkFa(o, "$"+name) }

func (c *callCtx) get(o *T, name string, def *T) *T {
	if v, ok := c.st.heap[cell(o, name)]; ok {
		return v
	}
	if def != nil {
		return def
	}
	return raw("libval", name, nil, o)
}

// ---------------------------------------------------------------- invoke

func ifaceName(t types.Type) string {
	if n, ok := t.(*types.Named); ok {
		if n.Obj().Pkg() == nil {
			return n.Obj().Name()
		}
		return n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	return types.TypeString(t, nil)
}

func (e *Engine) invoke(st *State, it types.Type, m *types.Func, v *T, args []*T, pos token.Pos) []Outcome {
	sig := m.Type().(*types.Signature)
	full := append([]*T{v}, args...)
	typs := []types.Type{it}
	for i := 0; i < sig.Params().Len(); i++ {
		typs = append(typs, sig.Params().At(i).Type())
	}
	name := "(" + e.short(ifaceName(it)) + ")." + m.Name()
	c := &callCtx{e: e, st: st, name: name, args: full, typs: typs, sig: sig, pos: pos}
	if v.op == "iface" {
		f := e.prog.LookupMethod(v.typ, m.Pkg(), m.Name())
		if f != nil {
			return e.callFn(st, f, append([]*T{v.args[0]}, args...), nil, pos)
		}
	}
	if k := e.modelKind[v]; k != "" {
		if mo, ok := models["$"+k+"."+m.Name()]; ok {
			return mo(c)
		}
	}
	if !e.oblige(st, "nil dereference (method "+m.Name()+")", mkNot(mkEq(tNil, v)), pos) {
		return nil
	}
	if x, ok := e.extra[name]; ok {
		return x(e, c)
	}
	if e.opaque {
		if mo, ok := opaqueModels[name]; ok {
			return mo(c)
		}
	}
	if mo, ok := models[name]; ok {
		return mo(c)
	}
	if m.Name() == "Error" || m.Name() == "String" {
		return c.ret(c.pure(nil)...)
	}
	e.note("no model for interface method %s", name)
	return e.unknownCall(c)
}

// ---------------------------------------------------------------- builtins

func (e *Engine) builtin(st *State, cc *ssa.CallCommon, name string, args []*T, pos token.Pos) []Outcome {
	ret := func(v *T) []Outcome { return []Outcome{{st: st, vals: []*T{v}}} }
	argT := func(i int) types.Type { return cc.Args[i].Type() }
	switch name {
	case "len":
		t := argT(0)
		switch u := t.Underlying().(type) {
		case *types.Slice:
			return ret(withVT(e.sliceLen(st, args[0]), types.Typ[types.Int]))
		case *types.Map:
			return ret(withVT(app("maplen", e.mapVal(st, args[0])), types.Typ[types.Uint]))
		case *types.Array:
			return ret(mkInt(u.Len()))
		case *types.Pointer:
			if a, ok := u.Elem().Underlying().(*types.Array); ok {
				return ret(mkInt(a.Len()))
			}
		}
		return ret(mkLen(args[0]))
	case "cap":
		n := e.sliceLen(st, args[0])
		c := withVT(app("cap", args[0]), types.Typ[types.Int])
		st.assume(mkLe(n, c), true)
		return ret(c)
	case "append":
		return ret(e.appendSlice(st, args[0], args[1], argT(0), argT(1), pos))
	case "copy":
		var src *T
		if b, ok := argT(1).Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			src = args[1]
		} else {
			src = e.seq(st, args[1])
		}
		dn, sn := e.sliceLen(st, args[0]), mkLen(src)
		var n *T
		switch {
		case dn == sn || decidedLe(sn, dn):
			n = sn
		case decidedLe(dn, sn):
			n = dn
		default:
			// fork on which is shorter
			var outs []Outcome
			s1 := st.clone()
			if s1.assume(mkLe(sn, dn), true) {
				cur = s1
				e.overwrite(s1, args[0], mkInt(0), sn, src, "copy")
				outs = append(outs, Outcome{st: s1, vals: []*T{sn}})
			}
			s2 := st.clone()
			if s2.assume(mkLt(dn, sn), true) {
				cur = s2
				e.overwrite(s2, args[0], mkInt(0), dn, mkSubseq(src, mkInt(0), dn), "copy")
				outs = append(outs, Outcome{st: s2, vals: []*T{dn}})
			}
			return outs
		}
		if n != mkInt(0) {
			e.overwrite(st, args[0], mkInt(0), n, mkSubseq(src, mkInt(0), n), "copy")
		}
		return ret(withVT(n, types.Typ[types.Int]))
	case "delete":
		st.set(args[0], app("mdel", e.mapVal(st, args[0]), e.keyTerm(st, args[1], argT(1))))
		return []Outcome{{st: st}}
	case "clear":
		if _, ok := argT(0).Underlying().(*types.Map); ok {
			st.set(args[0], app("emptymap"))
			return []Outcome{{st: st}}
		}
		n := e.sliceLen(st, args[0])
		e.overwrite(st, args[0], mkInt(0), n, mkRep(zeroOf(elemType(argT(0))), n), "clear")
		return []Outcome{{st: st}}
	case "min", "max":
		return ret(withVT(app(name, args...), argT(0)))
	case "print", "println":
		e.sinks = append(e.sinks, Sink{Entry: e.entry, Kind: "log", Args: args, Pos: pos, Fn: e.curFn()})
		return []Outcome{{st: st}}
	case "close", "ssa:wrapnilchk":
		if name == "ssa:wrapnilchk" {
			e.oblige(st, "nil dereference (method value)", mkNot(mkEq(tNil, args[0])), pos)
			return ret(args[0])
		}
		return []Outcome{{st: st}}
	case "recover":
		e.note("recover at %s", e.where(pos))
		return ret(tNil)
	case "ssa:deferstack":
		return ret(tUnit)
	}
	panic(undecided{"builtin " + name})
}

// keyTerm is the form of a map key.
func (e *Engine) keyTerm(st *State, k *T, t types.Type) *T { return e.reify(st, k, t) }

func (e *Engine) appendSlice(st *State, s, x *T, ts, tx types.Type, pos token.Pos) *T {
	var add *T
	if b, ok := tx.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		add = x
	} else {
		add = e.seq(st, x)
	}
	return e.appendSeq(st, s, add, ts, pos)
}

func (e *Engine) appendSeq(st *State, s, add *T, ts types.Type, pos token.Pos) *T {
	if add == tEmpty {
		return s
	}
	old := e.seq(st, s)
	n := mkLen(add)
	if s.op == "slice" {
		arr, _, hi := parts(s)
		c := e.content(st, arr, nil)
		total := mkLen(c)
		if mkLt(hi, total) == tTrue || st.holds(mkLt(hi, total)) {
			if end := mkAdd(hi, n); decidedLe(end, total) {
				// within the capacity: in place
				e.recordWrite(arr, "append in place")
				st.set(arr, mkCat(mkSubseq(c, mkInt(0), hi), add, mkSubseq(c, end, total)))
				return withVT(mkSlice(arr, s.args[1], end), ts)
			}
		}
		e.recordWrite(arr, "append beyond the length")
	} else if s.op != "nil" && s != tEmpty {
		e.recordWrite(s, "append beyond the length")
	}
	return e.newSlice(st, mkCat(old, add), ts, pos)
}

// ---------------------------------------------------------------- generated code

// generated models the accessors of protobuf messages: field selection where a nil message has zero fields.
func (e *Engine) generated(c *callCtx) []Outcome {
	n := c.fn.Name()
	recv := c.fn.Signature.Recv()
	if recv != nil {
		el := namedOf(recv.Type())
		switch {
		case strings.HasPrefix(n, "Get") && el != nil:
			if s, ok := el.Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					f := s.Field(i)
					if f.Name() != n[3:] {
						continue
					}
					rt := c.fn.Signature.Results().At(0).Type()
					if c.args[0].op == "nil" {
						return c.ret(zeroOf(rt))
					}
					e.addrTyp[mkFa(c.args[0], f.Name())] = f.Type()
					v := e.load(c.st, mkFa(c.args[0], f.Name()), f.Type())
					if pt, ok := f.Type().Underlying().(*types.Pointer); ok && !types.Identical(f.Type(), rt) {
						if v.op == "nil" || c.st.holds(mkEq(tNil, v)) {
							return c.ret(zeroOf(rt))
						}
						return c.ret(withVT(e.load(c.st, v, pt.Elem()), rt))
					}
					return c.ret(withVT(v, rt))
				}
			}
		case n == "Reset":
			if s, ok := el.Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					f := s.Field(i)
					e.store(c.st, mkFa(c.args[0], f.Name()), zeroOf(f.Type()), f.Type())
				}
				return c.ret()
			}
		case n == "String":
			return c.ret(c.pure(nil)...)
		}
	}
	e.note("generated function %s not modelled", c.name)
	return e.unknownCall(c)
}

// ---------------------------------------------------------------- entry points

// lookupFn finds a function or method by its short name, e.g. "@/session.NewState" or "(*@/session.State).Bytes".
func (e *Engine) lookupFn(name string) *ssa.Function {
	full := strings.ReplaceAll(name, "@/", e.mod+"/")
	if strings.HasPrefix(full, "(") {
		i := strings.Index(full, ").")
		tn, mn := full[1:i], full[i+2:]
		ptr := strings.HasPrefix(tn, "*")
		tn = strings.TrimPrefix(tn, "*")
		j := strings.LastIndex(tn, ".")
		pk := e.prog.ImportedPackage(tn[:j])
		if pk == nil {
			return nil
		}
		ty := pk.Type(tn[j+1:])
		if ty == nil {
			return nil
		}
		var t types.Type = ty.Type()
		if ptr {
			t = types.NewPointer(t)
		}
		ms := e.prog.MethodSets.MethodSet(t)
		sel := ms.Lookup(pk.Pkg, mn)
		if sel == nil {
			return nil
		}
		return e.prog.MethodValue(sel)
	}
	j := strings.LastIndex(full, ".")
	pk := e.prog.ImportedPackage(full[:j])
	if pk == nil {
		return nil
	}
	return pk.Func(full[j+1:])
}

func (e *Engine) typ(name string) types.Type {
	full := strings.ReplaceAll(name, "@/", e.mod+"/")
	ptr := strings.HasPrefix(full, "*")
	full = strings.TrimPrefix(full, "*")
	j := strings.LastIndex(full, ".")
	pk := e.prog.ImportedPackage(full[:j])
	if pk == nil {
		panic(undecided{"package of " + name + " not found"})
	}
	t := pk.Type(full[j+1:])
	if t == nil {
		panic(undecided{"type " + name + " not found"})
	}
	if ptr {
		return types.NewPointer(t.Type())
	}
	return t.Type()
}

// newEngine makes an engine with the package variables of the module initialised.
func newEngine(prog *ssa.Program, mod string, opaque bool) *Engine {
	e := &Engine{prog: prog, mod: mod, fset: prog.Fset, objInit: map[*T]*T{}, objType: map[*T]types.Type{}, serial: map[*T]int{},
		addrTyp: map[*T]types.Type{}, loops: map[*ssa.Function]*loopInfo{}, notes: map[string]int{}, seen: map[*ssa.Function]int{},
		fnByT: map[*T]*ssa.Function{}, copies: map[*T]bool{}, arrElem: map[*T]types.Type{}, loopMem: map[*T][]*T{}, extra: map[string]func(*Engine, *callCtx) []Outcome{}, modelKind: map[*T]string{}, opaque: opaque, noUnroll: map[*ssa.BasicBlock]bool{}, initObj: map[*T]bool{}}
	structOK = func(t types.Type) bool {
		n, ok := t.(*types.Named)
		if !ok {
			return true
		}
		return n.Obj().Pkg() == nil || strings.HasPrefix(n.Obj().Pkg().Path(), mod)
	}
	st := newState()
	var pkgs []*ssa.Package
	for _, p := range prog.AllPackages() {
		if p.Pkg != nil && strings.HasPrefix(p.Pkg.Path(), mod) && !strings.Contains(p.Pkg.Path(), "/generated/") {
			pkgs = append(pkgs, p)
		}
	}
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].Pkg.Path() < pkgs[j].Pkg.Path() })
	e.inInit = true
	for _, p := range pkgs {
		for n, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok {
				t := g.Type().(*types.Pointer).Elem()
				a := raw("glob", g.RelString(nil), nil)
				e.addrTyp[a] = t
				e.store(st, a, zeroOf(t), t)
				_ = n
			}
		}
	}
	for _, p := range pkgs {
		f := p.Func("init")
		if f == nil || len(f.Blocks) == 0 {
			continue
		}
		outs := e.run(f, nil, nil, st)
		if len(outs) != 1 {
			panic(undecided{fmt.Sprintf("package initialisation of %s is not straight-line", p.Pkg.Path())})
		}
		st = outs[0].st
	}
	e.inInit = false
	st.facts = map[*T]bool{}
	st.ownF = true
	st.alls, st.lf = nil, nil
	e.base = st
	e.obls, e.sinks, e.writes, e.cmps, e.exts, e.puts = nil, nil, nil, nil, nil, nil
	return e
}

// call runs a function by name from a state.
func (e *Engine) call(st *State, name string, args ...*T) []Outcome {
	f := e.lookupFn(name)
	if f == nil {
		panic(undecided{"function " + name + " not found"})
	}
	cur = st
	return e.callFn(st.clone(), f, args, nil, f.Pos())
}
