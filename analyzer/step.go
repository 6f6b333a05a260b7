package main

import (
	"fmt"
	"go/token"
	"go/types"
	bitlen "math/bits"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

func one(p *path) []*path { return []*path{p} }

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return elemType(u.Elem())
	case *types.Basic:
		return types.Typ[types.Byte]
	}
	return nil
}

func (e *Engine) nilCheck(p *path, ptr *T, pos token.Pos, what string) {
	e.oblige(p.st, "nil dereference ("+what+")", mkNot(mkEq(tNil, ptr)), pos)
}

// step interprets one instruction.
func (e *Engine) step(fr *frame, p *path, ins ssa.Instruction) []*path {
	e.steps++
	if e.steps > 40_000_000 {
		panic(undecided{"step budget exceeded"})
	}
	st := p.st
	cur = st
	if pos := ins.Pos(); pos != token.NoPos {
		e.posStk = append(e.posStk, pos)
		defer func() { e.posStk = e.posStk[:len(e.posStk)-1] }()
	}
	switch x := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		el := x.Type().(*types.Pointer).Elem()
		o := e.newObj(st, "alloc", el, allocPos(x))
		if n := el.String(); n == "bytes.Buffer" || n == "strings.Builder" {
			st.set(cell(o, "buf"), tEmpty)
		}
		p.env[x] = withVT(o, x.Type())
	case *ssa.BinOp:
		switch x.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			if qs := e.unwrap(p, x.X, x.Y); qs != nil {
				var out []*path
				for _, q := range qs {
					cur = q.st
					out = append(out, e.step(fr, q, ins)...)
				}
				return out
			}
		}
		p.env[x] = withVT(e.binop(p, x.Op, e.val(p, x.X), e.val(p, x.Y), x.X.Type(), x.Type(), x.Pos()), x.Type())
	case *ssa.UnOp:
		v := e.val(p, x.X)
		switch x.Op {
		case token.MUL:
			if v.op != "glob" {
				e.nilCheck(p, v, x.Pos(), "load")
			}
			p.env[x] = withVT(e.load(st, v, x.Type()), x.Type())
		case token.NOT:
			p.env[x] = mkNot(v)
		case token.SUB:
			p.env[x] = withVT(mkScale(v, -1), x.Type())
		case token.XOR:
			p.env[x] = withVT(app("bitnot", v), x.Type())
		default:
			p.env[x] = e.freshSym(st, "recv", x.Type(), x.Pos())
		}
	case *ssa.ChangeType:
		p.env[x] = e.val(p, x.X)
	case *ssa.ChangeInterface:
		p.env[x] = e.val(p, x.X)
	case *ssa.Convert:
		p.env[x] = withVT(e.convert(p, e.val(p, x.X), x.X.Type(), x.Type(), x.Pos()), x.Type())
	case *ssa.MultiConvert:
		p.env[x] = withVT(e.convert(p, e.val(p, x.X), x.X.Type(), x.Type(), x.Pos()), x.Type())
	case *ssa.MakeInterface:
		v := e.val(p, x.X)
		if v.op == "obj" && e.objType[v] == nil && e.isModel(v) {
			p.env[x] = v
			break
		}
		p.env[x] = raw("iface", "", x.X.Type(), v)
	case *ssa.Extract:
		t := e.val(p, x.Tuple)
		if t.op == "tuple" {
			p.env[x] = withVT(t.args[x.Index], x.Type())
		} else {
			p.env[x] = withVT(raw("extract", fmt.Sprint(x.Index), nil, t), x.Type())
		}
	case *ssa.Field:
		stt := x.X.Type().Underlying().(*types.Struct)
		f := stt.Field(x.Field)
		p.env[x] = mkFld(e.val(p, x.X), f.Name(), f.Type())
	case *ssa.FieldAddr:
		base := e.val(p, x.X)
		stt := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		f := stt.Field(x.Field)
		e.nilCheck(p, base, x.Pos(), "field "+f.Name())
		a := mkFa(base, f.Name())
		e.addrTyp[a] = f.Type()
		p.env[x] = withVT(a, x.Type())
	case *ssa.Index:
		v, i := e.val(p, x.X), e.val(p, x.Index)
		n := mkLen(v)
		e.oblige(st, "index out of range", mkLt(i, n), x.Pos())
		e.oblige(st, "negative index", mkLe(mkInt(0), i), x.Pos())
		p.env[x] = mkIdxT(v, st.known(i), x.Type())
	case *ssa.IndexAddr:
		v, i := e.val(p, x.X), e.val(p, x.Index)
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			e.nilCheck(p, v, x.Pos(), "array")
			n := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
			e.oblige(st, "index out of range", mkLt(i, mkInt(n)), x.Pos())
			e.oblige(st, "negative index", mkLe(mkInt(0), i), x.Pos())
			p.env[x] = app("ia", v, st.known(i))
			break
		}
		n := e.sliceLen(st, v)
		e.oblige(st, "index out of range", mkLt(i, n), x.Pos())
		e.oblige(st, "negative index", mkLe(mkInt(0), i), x.Pos())
		arr, lo, _ := parts(v)
		p.env[x] = withVT(app("ia", arr, st.known(mkAdd(lo, i))), x.Type())
	case *ssa.Slice:
		p.env[x] = e.sliceOp(p, x)
	case *ssa.SliceToArrayPointer:
		v := e.val(p, x.X)
		n := x.Type().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		e.oblige(st, "slice to array conversion", mkLe(mkInt(n), e.sliceLen(st, v)), x.Pos())
		o := e.newObj(st, "s2a", nil, x.Pos())
		st.set(o, mkSubseq(e.seq(st, v), mkInt(0), mkInt(n)))
		p.env[x] = o
	case *ssa.MakeSlice:
		n := e.val(p, x.Len)
		e.oblige(st, "makeslice: negative length", mkLe(mkInt(0), n), x.Pos())
		p.env[x] = e.newSlice(st, mkRep(zeroOf(elemType(x.Type())), n), x.Type(), x.Pos())
	case *ssa.MakeMap:
		o := e.newObj(st, "map", nil, x.Pos())
		st.set(o, app("emptymap"))
		p.env[x] = o
	case *ssa.MakeChan:
		p.env[x] = e.newObj(st, "chan", nil, x.Pos())
	case *ssa.MakeClosure:
		var bs []*T
		bs = append(bs, e.fnTerm(x.Fn.(*ssa.Function)))
		for _, b := range x.Bindings {
			bs = append(bs, e.val(p, b))
		}
		p.env[x] = app("closure", bs...)
	case *ssa.Lookup:
		m, k := e.val(p, x.X), e.val(p, x.Index)
		if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
			e.oblige(st, "index out of range", mkLt(k, mkLen(m)), x.Pos())
			e.oblige(st, "negative index", mkLe(mkInt(0), k), x.Pos())
			p.env[x] = mkIdxT(m, k, x.Type())
			break
		}
		mt := x.X.Type().Underlying().(*types.Map)
		return e.lookup(p, x, e.mapVal(st, m), k, mt, x.CommaOk)
	case *ssa.MapUpdate:
		m := e.val(p, x.Map)
		e.nilCheck(p, m, x.Pos(), "map assignment")
		mv := e.mapVal(st, m)
		st.set(m, app("mset", mv, e.val(p, x.Key), e.val(p, x.Value)))
	case *ssa.Range:
		v := e.val(p, x.X)
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			p.env[x] = app("mapiter", e.mapVal(st, v))
		} else {
			p.env[x] = app("striter", v)
		}
		o := e.newObj(st, "iter", nil, x.Pos())
		st.set(mkFa(o, "$pos"), mkInt(0))
		st.set(mkFa(o, "$src"), p.env[x])
		p.env[x] = o
	case *ssa.Next:
		o := e.val(p, x.Iter)
		pos := st.heap[mkFa(o, "$pos")]
		src := st.heap[mkFa(o, "$src")]
		if pos == nil {
			pos, src = e.freshSym(st, "next", nil, x.Pos()), e.freshSym(st, "iter", nil, x.Pos())
		}
		st.set(mkFa(o, "$pos"), mkAdd(pos, mkInt(1)))
		tt := x.Type().(*types.Tuple)
		k := withVT(app("nextkey", src, pos), tt.At(1).Type())
		v := withVT(app("nextval", src, pos), tt.At(2).Type())
		p.env[x] = app("tuple", app("nextok", src, pos), k, v)
	case *ssa.Store:
		a := e.val(p, x.Addr)
		if a.op != "glob" {
			e.nilCheck(p, a, x.Pos(), "store")
		}
		e.store(st, a, e.val(p, x.Val), x.Val.Type())
	case *ssa.TypeAssert:
		return e.typeAssert(p, x)
	case *ssa.Defer:
		d := &deferred{call: x.Common()}
		if !x.Call.IsInvoke() {
			d.fn = e.calleeTerm(p, x.Call.Value)
		} else {
			d.fn = e.val(p, x.Call.Value)
		}
		for _, a := range x.Call.Args {
			d.args = append(d.args, e.val(p, a))
		}
		p.defers = append(p.defers[:len(p.defers):len(p.defers)], d)
	case *ssa.RunDefers:
		ps := []*path{p}
		for i := len(p.defers) - 1; i >= 0; i-- {
			d := p.defers[i]
			var nps []*path
			for _, q := range ps {
				for _, o := range e.dispatch(q, d.call, d.fn, d.args, ins.Pos()) {
					if o.panic {
						continue
					}
					r := q.fork()
					r.st = o.st
					nps = append(nps, r)
				}
			}
			ps = nps
		}
		for _, q := range ps {
			q.defers = nil
		}
		return ps
	case *ssa.Go:
		e.note("go statement ignored at %s", e.where(x.Pos()))
	case *ssa.Send, *ssa.Select:
		e.note("channel operation at %s", e.where(ins.Pos()))
		if v, ok := ins.(ssa.Value); ok {
			p.env[v] = e.freshSym(st, "select", v.Type(), ins.Pos())
		}
	case *ssa.Call:
		return e.callInstr(p, x)
	default:
		panic(undecided{fmt.Sprintf("instruction %T", ins)})
	}
	return one(p)
}

// allocPos is a position for an allocation that has none of its own.
func allocPos(a *ssa.Alloc) token.Pos {
	if a.Pos() != token.NoPos {
		return a.Pos()
	}
	return a.Parent().Pos() + token.Pos(len(a.Name()))
}

func (e *Engine) mapVal(st *State, m *T) *T {
	if v, ok := st.heap[m]; ok {
		return v
	}
	if m.op == "nil" {
		return app("emptymap")
	}
	return app("mapof", m)
}

func (e *Engine) lookup(p *path, x *ssa.Lookup, m, k *T, mt *types.Map, ok bool) []*path {
	el := mt.Elem()
	e.cmps = append(e.cmps, Cmp{k, k, false, x.Pos(), e.curFn(), e.entry})
	set := func(q *path, v, has *T) {
		if ok {
			q.env[x] = app("tuple", v, has)
		} else {
			q.env[x] = v
		}
	}
	switch m.op {
	case "emptymap":
		set(p, zeroOf(el), tFalse)
		return one(p)
	case "mset", "mdel":
		// found here if all parts of the keys are equal; otherwise the first which is not decides
		var out []*path
		for _, c := range keyEq(m.args[1], k, mt.Key()) {
			q := p.fork()
			if q.st.assume(c, false) {
				out = append(out, e.lookup(q, x, m.args[0], k, mt, ok)...)
			}
			if !p.st.assume(c, true) {
				return out
			}
		}
		if m.op == "mset" {
			set(p, m.args[2], tTrue)
		} else {
			set(p, zeroOf(el), tFalse)
		}
		return append(out, p)
	}
	has := app("mhas", m, k)
	if v, known := p.st.eval(has); known {
		if v {
			set(p, withVT(app("mget", m, k), el), tTrue)
		} else {
			set(p, zeroOf(el), tFalse)
		}
		return one(p)
	}
	q := p.fork()
	var out []*path
	if p.st.assume(has, true) {
		mv := withVT(app("mget", m, k), el)
		if _, isPtr := el.Underlying().(*types.Pointer); isPtr {
			p.st.assume(mkEq(tNil, mv), false)
		}
		set(p, mv, tTrue)
		out = append(out, p)
	}
	if q.st.assume(has, false) {
		set(q, zeroOf(el), tFalse)
		out = append(out, q)
	}
	return out
}

func (e *Engine) sliceOp(p *path, x *ssa.Slice) *T {
	st := p.st
	v := e.val(p, x.X)
	lo := mkInt(0)
	if x.Low != nil {
		lo = st.known(e.val(p, x.Low))
	}
	isStr := false
	if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		isStr = true
	}
	if ptr, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		n := mkInt(ptr.Elem().Underlying().(*types.Array).Len())
		hi := n
		if x.High != nil {
			hi = e.val(p, x.High)
		}
		e.oblige(st, "slice bounds out of range", mkLe(hi, n), x.Pos())
		e.oblige(st, "slice bounds inverted", mkLe(lo, hi), x.Pos())
		e.oblige(st, "negative slice bound", mkLe(mkInt(0), lo), x.Pos())
		return withVT(mkSlice(v, lo, hi), x.Type())
	}
	n := e.sliceLen(st, v)
	if isStr {
		n = mkLen(v)
	}
	hi := n
	if x.High != nil {
		hi = e.val(p, x.High)
	}
	// (reslicing beyond the length but within the capacity is treated as out of range)
	e.oblige(st, "slice bounds out of range", mkLe(hi, n), x.Pos())
	e.oblige(st, "slice bounds inverted", mkLe(lo, hi), x.Pos())
	e.oblige(st, "negative slice bound", mkLe(mkInt(0), lo), x.Pos())
	if isStr {
		return withVT(mkSubseq(v, lo, hi), x.Type())
	}
	if v.op == "nil" {
		return tNil
	}
	arr, off, _ := parts(v)
	if v.op != "slice" && lo == mkInt(0) && hi == mkLen(v) {
		return v
	}
	return withVT(mkSlice(arr, mkAdd(off, lo), mkAdd(off, hi)), x.Type())
}

func intBits(t types.Type) (bits int, unsigned, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB || b.Info()&types.IsInteger == 0 {
		return 0, false, false
	}
	u := b.Info()&types.IsUnsigned != 0
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8, u, true
	case types.Int16, types.Uint16:
		return 16, u, true
	case types.Int32, types.Uint32:
		return 32, u, true
	}
	return 64, u, true
}

func (e *Engine) convert(p *path, v *T, from, to types.Type, pos token.Pos) *T {
	fb, fu, fok := intBits(from)
	tb, tu, tok := intBits(to)
	if fok && tok {
		if n, ok := v.isInt(); ok {
			if tb < 64 {
				m := n & (1<<uint(tb) - 1)
				if !tu && m >= 1<<uint(tb-1) {
					m -= 1 << uint(tb)
				}
				return mkInt(m)
			}
			return v
		}
		if tb == fb && tb < 64 && fu != tu {
			// the same bits read with another sign
			if x := v; (x.op == "sconv" || x.op == "uconv") && x.s == fmt.Sprint(tb) {
				return x.args[0]
			}
			if tu && !p.st.proveLe0(linAdd(lin{}, linOf(v), -1)) {
				return raw("uconv", fmt.Sprint(tb), to, v)
			}
			if !tu && !p.st.proveLe0(linAdd(linOf(v), lin{k: -(int64(1)<<uint(tb-1) - 1)}, 1)) {
				return raw("sconv", fmt.Sprint(tb), to, v)
			}
			return v
		}
		if tb >= fb {
			return v
		}
		l := linOf(v)
		if lo, ok := l.lower(); ok && lo >= 0 {
			max := int64(1)<<uint(tb) - 1
			if hi, ok := l.upper(); ok && hi <= max {
				return v
			}
		}
		if p.st.proveLe0(linAdd(linOf(v), lin{k: -(int64(1)<<uint(tb) - 1)}, 1)) && p.st.proveLe0(linAdd(lin{}, linOf(v), -1)) {
			return v
		}
		return withVT(raw("trunc", fmt.Sprint(tb), nil, v), to)
	}
	isStr := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsString != 0
	}
	_, fs := from.Underlying().(*types.Slice)
	_, ts := to.Underlying().(*types.Slice)
	switch {
	case isStr(from) && ts:
		return e.newSlice(p.st, v, to, pos)
	case fs && isStr(to):
		return e.seq(p.st, v)
	case isStr(from) && isStr(to):
		return v
	case fs:
		if at, ok := to.Underlying().(*types.Array); ok {
			e.oblige(p.st, "slice to array conversion", mkLe(mkInt(at.Len()), e.sliceLen(p.st, v)), pos)
			return mkSubseq(e.seq(p.st, v), mkInt(0), mkInt(at.Len()))
		}
	}
	if _, ok := from.Underlying().(*types.Pointer); ok {
		return v
	}
	return withVT(raw("conv", to.String(), nil, v), to)
}

// unwrap splits the path if a compared number may have wrapped around: into
// the paths on which it has not, and on which it has. The values concerned
// are replaced by what they are on these paths.
func (e *Engine) unwrap(p *path, xs ...ssa.Value) []*path {
	for _, x := range xs {
		if _, _, ok := intBits(x.Type()); !ok {
			continue
		}
		l := linOf(e.val(p, x))
		for _, a := range l.atoms() {
			var in *T // holds if the plain value is in range
			var plain *T
			wrapped := func(v *T, d int64) *T { return linAdd(linOf(v), lin{k: d}, 1).term() }
			var d int64
			switch a.op {
			case "usub":
				bits, uns, ok := intBits(a.vt)
				if !ok || !uns || bits == 64 {
					continue
				}
				in, plain, d = mkLe(a.args[1], a.args[0]), mkSub(a.args[0], a.args[1]), int64(1)<<uint(bits)
			case "sconv":
				bits, _ := strconv.Atoi(a.s)
				in, plain, d = mkLt(a.args[0], mkInt(int64(1)<<uint(bits-1))), a.args[0], -(int64(1) << uint(bits))
			case "uconv":
				bits, _ := strconv.Atoi(a.s)
				in, plain, d = mkLe(mkInt(0), a.args[0]), a.args[0], int64(1)<<uint(bits)
			default:
				continue
			}
			q := p.fork()
			var out []*path
			set := func(r *path, v *T) {
				for k, t := range r.env {
					if _, _, ok := intBits(k.Type()); !ok || t == nil {
						continue
					}
					if lt := linOf(t); lt.m[a] != 0 {
						c := lt.m[a]
						rest := linAdd(lt, linOf(a), -c)
						r.env[k] = withVT(linAdd(rest, linOf(v), c).term(), k.Type())
					}
				}
			}
			if p.st.assume(in, true) {
				set(p, plain)
				out = append(out, p)
			}
			if q.st.assume(in, false) {
				set(q, wrapped(plain, d))
				out = append(out, q)
			}
			return out
		}
	}
	return nil
}

func (e *Engine) binop(p *path, op token.Token, a, b *T, opt, rt types.Type, pos token.Pos) *T {
	bits, uns, isInt := intBits(opt)
	st := p.st
	switch op {
	case token.EQL, token.NEQ:
		var c *T
		if isInt {
			_, k1 := a.isInt()
			_, k2 := b.isInt()
			if bits == 8 && uns && !k1 && !k2 {
				e.cmps = append(e.cmps, Cmp{a, b, false, pos, e.curFn(), e.entry})
			}
			c = mkEq0(mkSub(a, b))
		} else {
			if bs, ok := opt.Underlying().(*types.Basic); ok && bs.Info()&types.IsString != 0 {
				e.cmps = append(e.cmps, Cmp{a, b, false, pos, e.curFn(), e.entry})
			}
			if _, ok := opt.Underlying().(*types.Array); ok {
				e.cmps = append(e.cmps, Cmp{a, b, false, pos, e.curFn(), e.entry})
			}
			if arr, ok := opt.Underlying().(*types.Slice); ok && arr != nil {
				// comparison with nil
				x := a
				if x.op == "nil" {
					x = b
				}
				if x.op == "nil" {
					c = tTrue
				} else {
					c = mkEq(tNil, x)
				}
			} else {
				c = mkEq(a, b)
			}
		}
		if op == token.NEQ {
			return mkNot(c)
		}
		return c
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if !isInt {
			switch op {
			case token.LSS:
				return app("strlt", a, b)
			case token.GTR:
				return app("strlt", b, a)
			case token.LEQ:
				return mkNot(app("strlt", b, a))
			default:
				return mkNot(app("strlt", a, b))
			}
		}
		switch op {
		case token.LSS:
			return mkLt(a, b)
		case token.LEQ:
			return mkLe(a, b)
		case token.GTR:
			return mkLt(b, a)
		default:
			return mkLe(b, a)
		}
	case token.ADD:
		if !isInt {
			return mkCat(a, b)
		}
		return mkAdd(a, b)
	case token.SUB:
		if uns {
			d := linAdd(linOf(a), linOf(b), -1)
			if !st.proveLe0(linAdd(lin{}, d, -1)) {
				return app("usub", a, b) // may wrap around
			}
		}
		return mkSub(a, b)
	case token.MUL:
		if n, ok := a.isInt(); ok {
			return mkScale(b, n)
		}
		if n, ok := b.isInt(); ok {
			return mkScale(a, n)
		}
		return app("mul", a, b)
	case token.QUO:
		x, ok1 := a.isInt()
		y, ok2 := b.isInt()
		if ok1 && ok2 && y != 0 {
			return mkInt(x / y)
		}
		e.oblige(st, "division by zero", mkNot(mkEq0(b)), pos)
		if ok2 && y > 0 && y&(y-1) == 0 && st.proveLe0(linAdd(lin{}, linOf(a), -1)) {
			return mkBit(token.SHR, a, mkInt(int64(bitlen.Len64(uint64(y))-1)), bits)
		}
		return app("div", a, b)
	case token.REM:
		x, ok1 := a.isInt()
		y, ok2 := b.isInt()
		if ok1 && ok2 && y != 0 {
			return mkInt(x % y)
		}
		e.oblige(st, "division by zero", mkNot(mkEq0(b)), pos)
		if ok2 && y > 0 && st.proveLe0(linAdd(lin{}, linOf(a), -1)) {
			return mkMod(a, y)
		}
		return app("rem", a, b)
	}
	if isInt && op == token.AND && bits == 64 {
		if _, k := a.isInt(); k {
			a, b = b, a
		}
		if y, k := b.isInt(); k && y > 0 && y&(y+1) == 0 && st.proveLe0(linAdd(lin{}, linOf(a), -1)) {
			return mkMod(a, y+1)
		}
	}
	if isInt {
		return mkBit(op, a, b, bits)
	}
	return app("bin"+op.String(), a, b)
}

// mkBit builds bit operations.
func mkBit(op token.Token, a, b *T, bits int) *T {
	x, ok1 := a.isInt()
	y, ok2 := b.isInt()
	if ok1 && ok2 {
		var r int64
		switch op {
		case token.AND:
			r = x & y
		case token.OR:
			r = x | y
		case token.XOR:
			r = x ^ y
		case token.SHL:
			r = x << uint(y)
		case token.SHR:
			r = x >> uint(y)
		case token.AND_NOT:
			r = x &^ y
		}
		if bits < 64 {
			r &= 1<<uint(bits) - 1
		}
		return mkInt(r)
	}
	switch op {
	case token.AND:
		if ok1 {
			a, b, x, y, ok1, ok2 = b, a, y, x, ok2, ok1
		}
		if ok2 {
			if y == 0 {
				return mkInt(0)
			}
			if hi, ok := linOf(a).upper(); ok && y&(y+1) == 0 && hi <= y {
				return a
			}
			if a.op == "band" {
				if z, ok := a.args[1].isInt(); ok {
					return mkBit(token.AND, a.args[0], mkInt(z&y), bits)
				}
			}
		}
		if a.op == "b2i" && b.op == "b2i" {
			return mkB2i(mkAnd(a.args[0], b.args[0]))
		}
		if !ok2 && a.id > b.id {
			a, b = b, a
		}
		return app("band", a, b)
	case token.OR:
		if ok1 {
			a, b, ok2, y = b, a, true, x
		}
		if ok2 && y == 0 {
			return a
		}
		if a.op == "b2i" && b.op == "b2i" {
			return mkB2i(mkOr(a.args[0], b.args[0]))
		}
		if !ok2 && a.id > b.id {
			a, b = b, a
		}
		return app("bor", a, b)
	case token.XOR:
		if ok1 {
			a, b, ok2, y = b, a, true, x
		}
		if ok2 && y == 0 {
			return a
		}
		if !ok2 && a.id > b.id {
			a, b = b, a
		}
		return app("bxor", a, b)
	case token.SHL:
		if ok2 && y == 0 {
			return a
		}
		return app("shl", a, b, mkInt(int64(bits)))
	case token.SHR:
		if ok2 {
			if y == 0 {
				return a
			}
			// ((x & 2^k-1) << y | c) >> y with c < 2^y and no overflow
			// masking away bits which are shifted out
			for a.op == "band" && len(a.args) == 2 {
				m, ok := a.args[1].isInt()
				hi, okh := linOf(a.args[0]).upper()
				if !ok || !okh || hi < 0 || m < 0 || y > 40 || hi > (m|(1<<uint(y)-1)) || (m|(1<<uint(y)-1))&(m|(1<<uint(y)-1)+1) != 0 {
					break
				}
				a = a.args[0]
			}
			t := a
			if t.op == "bor" {
				if c, ok := t.args[1].isInt(); ok && c >= 0 && c < 1<<uint(y) {
					t = t.args[0]
				}
			}
			if t.op == "shl" {
				if z, ok := t.args[1].isInt(); ok && z == y {
					if m := t.args[0]; m.op == "band" {
						if k, ok := m.args[1].isInt(); ok && k>>uint(bits-int(y)) == 0 {
							return m
						}
					}
					if hi, ok := linOf(t.args[0]).upper(); ok && hi>>uint(bits-int(y)) == 0 {
						return t.args[0]
					}
				}
			}
		}
		return app("shr", a, b, mkInt(int64(bits)))
	case token.AND_NOT:
		if ok2 && bits < 64 {
			return mkBit(token.AND, a, mkInt(^y&(1<<uint(bits)-1)), bits)
		}
		return app("bandnot", a, b)
	}
	return app("bin"+op.String(), a, b)
}

func init() {
	for name, op := range map[string]token.Token{"band": token.AND, "bor": token.OR, "bxor": token.XOR, "shl": token.SHL, "shr": token.SHR} {
		op := op
		simplify[name] = func(a []*T) *T {
			bits := 64
			if len(a) == 3 {
				n, _ := a[2].isInt()
				bits = int(n)
			}
			return mkBit(op, a[0], a[1], bits)
		}
	}
}

func (e *Engine) typeAssert(p *path, x *ssa.TypeAssert) []*path {
	v := e.val(p, x.X)
	t := x.AssertedType
	toIface := types.IsInterface(t)
	result := func(q *path, val *T, ok bool) {
		if x.CommaOk {
			q.env[x] = app("tuple", val, mkBool(ok))
		} else {
			q.env[x] = val
		}
	}
	var cond *T
	var val *T
	switch {
	case v.op == "nil":
		cond = tFalse
	case v.op == "iface":
		if toIface {
			cond = mkBool(types.AssignableTo(v.typ, t))
			val = v
		} else {
			cond = mkBool(types.Identical(v.typ, t))
			val = v.args[0]
		}
	default:
		cond = raw("typeis", "", t, v)
		if toIface {
			val = v
		} else {
			val = withVT(raw("as", "", t, v), t)
		}
	}
	if !x.CommaOk {
		if !e.oblige(p.st, "failed type assertion", cond, x.Pos()) {
			return nil
		}
		if val == nil {
			return nil
		}
		e.assumeAs(p.st, val, t)
		result(p, val, true)
		return one(p)
	}
	if b, k := p.st.eval(cond); k {
		if b {
			e.assumeAs(p.st, val, t)
			result(p, val, true)
		} else {
			result(p, zeroOf(t), false)
		}
		return one(p)
	}
	q := p.fork()
	var out []*path
	if p.st.assume(cond, true) {
		e.assumeAs(p.st, val, t)
		result(p, val, true)
		out = append(out, p)
	}
	if q.st.assume(cond, false) {
		result(q, zeroOf(t), false)
		out = append(out, q)
	}
	return out
}

func (e *Engine) assumeAs(st *State, val *T, t types.Type) {
	if val.op == "as" {
		if _, ok := t.Underlying().(*types.Pointer); ok {
			st.assume(mkEq(tNil, val), false)
		}
	}
}

// keyEq: the equalities of the comparable parts of two map keys.
func keyEq(a, b *T, t types.Type) []*T {
	if t != nil {
		if s, ok := t.Underlying().(*types.Struct); ok {
			var out []*T
			for i := 0; i < s.NumFields(); i++ {
				f := s.Field(i)
				out = append(out, keyEq(mkFld(a, f.Name(), f.Type()), mkFld(b, f.Name(), f.Type()), f.Type())...)
			}
			return out
		}
		if isIntType(t) {
			return []*T{mkEq0(mkSub(a, b))}
		}
	}
	return []*T{mkEq(a, b)}
}

// unsign is a number read with the sign it is stored with: the same bits.
func unsign(t *T) *T {
	for t != nil && (t.op == "sconv" || t.op == "uconv") {
		t = t.args[0]
	}
	return t
}
