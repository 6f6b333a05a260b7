package main

// Calls of functions and methods on values, and terms over single bytes as functions.

import (
	"go/token"
	"go/types"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

// Res is an outcome of a call made by a specification.
type Res struct {
	st   *State
	raw  []*T // the values as they are
	vals []*T // the values with what they refer to
	pos  token.Pos
	e    *Engine
	fn   *ssa.Function
}

func (r Res) ok() bool { return len(r.vals) == 0 || r.vals[len(r.vals)-1] == tNil }

// cse makes a case of it.
func (r Res) cse() *Case {
	n := r.e.short(r.fn.String())
	c := &Case{sc: &Scen{name: n, fn: n, e: r.e, args: map[string]*T{}, res: r.fn.Signature.Results()}, st: r.st, vals: r.vals, pos: r.pos, e: r.e}
	for _, ev := range r.st.events {
		x := *ev
		c.evs = append(c.evs, &x)
	}
	return c
}

// run calls a function.
func (e *Engine) exec(st *State, f *ssa.Function, args ...*T) []Res {
	var out []Res
	defer func(b bool) { e.split = b }(e.split)
	e.split = true
	for _, o := range good(e.callF(st, f, args...)) {
		for _, q := range o.st.cases() {
			r := Res{st: q, pos: o.pos, e: e, fn: f}
			for j, v := range o.vals {
				v = resolveSels(q, v)
				r.raw = append(r.raw, v)
				r.vals = append(r.vals, resolveSels(q, e.reify(o.st, v, f.Signature.Results().At(j).Type())))
			}
			out = append(out, r)
		}
	}
	return out
}

func (e *Engine) fn(name string) *ssa.Function {
	f := e.lookupFn(name)
	if f == nil {
		panic(undecided{"no function " + name})
	}
	return f
}

// runName calls the named function.
func (e *Engine) runName(st *State, name string, args ...*T) []Res {
	return e.exec(st, e.fn(name), args...)
}

// runM calls a method of a value of type t (an interface value is opened).
func (e *Engine) runM(st *State, t types.Type, v *T, name string, args ...*T) []Res {
	if v.op == "iface" {
		t, v = v.typ, v.args[0]
	}
	return e.exec(st, e.methodOf(t, name), append([]*T{v}, args...)...)
}

func (e *Engine) bytesSym(n string) *T { return withVT(mkSym(n), bytesT) }

// evalT evaluates an integer or truth term given its atoms.
func evalT(t *T, env map[*T]int64) (int64, bool) {
	if v, ok := env[t]; ok {
		return v, true
	}
	b := func(c bool) (int64, bool) {
		if c {
			return 1, true
		}
		return 0, true
	}
	ev := func(i int) (int64, bool) { return evalT(t.args[i], env) }
	switch t.op {
	case "int":
		n, ok := t.isInt()
		return n, ok
	case "bool":
		return b(t == tTrue)
	case "lin":
		l := linOf(t)
		n := l.k
		for a, k := range l.m {
			v, ok := evalT(a, env)
			if !ok {
				return 0, false
			}
			n += k * v
		}
		return n, true
	case "band", "bor", "bxor", "mod", "shl", "shr":
		x, ok1 := ev(0)
		y, ok2 := ev(1)
		if !ok1 || !ok2 {
			return 0, false
		}
		switch t.op {
		case "band":
			return x & y, true
		case "bor":
			return x | y, true
		case "bxor":
			return x ^ y, true
		case "mod":
			if y <= 0 {
				return 0, false
			}
			return ((x % y) + y) % y, true
		case "shr":
			return x >> uint(y&63), true
		case "shl":
			n := x << uint(y&63)
			if len(t.args) > 2 {
				w, ok := t.args[2].isInt()
				if !ok {
					return 0, false
				}
				if w < 63 {
					n &= 1<<uint(w) - 1
				}
			}
			return n, true
		}
	case "be16", "be32", "be64", "le16", "le32", "le64":
		k, _ := strconv.Atoi(t.op[2:])
		k /= 8
		n := int64(0)
		for i := 0; i < k; i++ {
			at := i
			if t.op[0] == 'l' {
				at = k - 1 - i
			}
			x, ok := evalT(byteAt(t.args[0], int64(at)), env)
			if !ok {
				return 0, false
			}
			n = n<<8 | x
		}
		return n, true
	case "trunc":
		x, ok1 := ev(0)
		w, err := strconv.Atoi(t.s)
		if !ok1 || err != nil || w >= 63 {
			return 0, false
		}
		return x & (1<<uint(w) - 1), true
	case "b2i":
		return ev(0)
	case "sel":
		c, ok := ev(0)
		if !ok {
			return 0, false
		}
		if c != 0 {
			return ev(1)
		}
		return ev(2)
	case "eq0", "le0", "not":
		x, ok := ev(0)
		if !ok {
			return 0, false
		}
		switch t.op {
		case "eq0":
			return b(x == 0)
		case "le0":
			return b(x <= 0)
		}
		return b(x == 0)
	case "and", "or":
		and := t.op == "and"
		for i := range t.args {
			x, ok := ev(i)
			if !ok {
				return 0, false
			}
			if and && x == 0 {
				return 0, true
			}
			if !and && x != 0 {
				return 1, true
			}
		}
		return b(and)
	}
	return 0, false
}

// byteFn: under the facts, t is f of the atoms, which range over 0..max-1.
func (c *Case) byteFn(t *T, atoms []*T, max []int64, f func([]int64) int64) bool {
	env := map[*T]int64{}
	var rel []*T
	neg := map[*T]bool{}
	for _, a := range atoms {
		env[a] = 0
	}
	for fa, v := range c.st.facts {
		if _, ok := evalT(fa, env); ok {
			rel = append(rel, fa)
			neg[fa] = !v
		}
	}
	vs := make([]int64, len(atoms))
	n := 0
	var walk func(i int) bool
	walk = func(i int) bool {
		if i < len(atoms) {
			for v := int64(0); v < max[i]; v++ {
				vs[i] = v
				env[atoms[i]] = v
				if !walk(i + 1) {
					return false
				}
			}
			return true
		}
		for _, fa := range rel {
			if x, _ := evalT(fa, env); (x != 0) == neg[fa] {
				return true
			}
		}
		n++
		x, ok := evalT(t, env)
		return ok && x == f(vs)
	}
	return walk(0) && n > 0
}

func byteAt(s *T, i int64) *T { return mkIdxT(s, mkInt(i), types.Typ[types.Byte]) }
