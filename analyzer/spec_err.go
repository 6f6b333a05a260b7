package main

// C03: failures are reported, success is complete.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	specs["C03"] = spec{run: checkC03, rule: "no path of any exported function on which a fallible step failed returns a nil error; every path that returns an error returns zero results; values used on successful paths come from steps whose success is among the path facts"}
}

// okPreds are the success conditions of fallible steps.
var okPreds = map[string]bool{
	"unmok": true, "pkok": true, "skok": true, "dhok": true, "decok": true, "encok": true, "uuidok": true, "verok": true,
	"rndok": true, "rdok": true, "okcall": true, "scanonok": true, "ptok": true, "x25519ok": true,
}

// okOf is the condition under which a partial operation has a value.
func okOf(t *T) *T {
	switch t.op {
	case "unm":
		return apply("unmok", t.args...)
	case "pk":
		return apply("pkok", t.args[0])
	case "sk":
		if t.args[0].op == "rnd" {
			return nil
		}
		return apply("skok", t.args[0])
	case "cbcdec":
		return apply("decok", t.args...)
	case "dh":
		return mkDh("dhok", t.args[0], t.args[1])
	case "uuid":
		return apply("uuidok", t.args[0])
	}
	return nil
}

// zeroResult: nothing is handed out.
func (c *Case) zeroResult(v *T, t types.Type) bool {
	if v == tNil || v == tEmpty || v == tFalse || v == mkInt(0) || v == mkStr("") {
		return true
	}
	if z := zeroOf(t); z != nil && (v == z || c.same(v, z)) {
		return true
	}
	if v.op == "struct" {
		s := t.Underlying().(*types.Struct)
		for i, x := range v.args {
			if i < s.NumFields() && !c.zeroResult(x, s.Field(i).Type()) {
				return false
			}
		}
		return true
	}
	return c.same(v, tNil)
}

func checkC03(k *Chk) {
	ops := map[string]bool{}
	for _, n := range []string{"ENC", "DECW", "DECP", "PPK", "PPB", "GENC", "GDEC", "GPROC", "GNEW"} {
		cs := k.cases(n)
		if len(cs) == 0 {
			continue
		}
		ops[cs[0].sc.fn] = true
		fn := cs[0].sc.fn
		k.errCases(fn, cs)
	}
	for _, prim := range []bool{false, true} {
		e := k.engine(prim)
		for _, f := range e.exported() {
			if e.isPrim(f) != prim || f.Signature.Results().Len() == 0 {
				continue
			}
			r := f.Signature.Results()
			if !isErrorType(r.At(r.Len()-1).Type()) || ops[e.short(f.String())] || k.isSessionOp(e, f) {
				continue
			}
			cs, _, err := e.runFn(e.base, f, e.paramsOf(f))
			if err != nil {
				k.undec = append(k.undec, e.short(f.String())+": "+err.Error())
				continue
			}
			k.counts["functions"]++
			k.errCases(e.short(f.String()), cs)
		}
	}
	k.floor("functions", 25)
	k.floor("success", 40)
	k.floor("failure", 100)
}

// isSessionOp: covered by a scenario.
func (k *Chk) isSessionOp(e *Engine, f *ssa.Function) bool {
	return f.Signature.Recv() != nil && strings.HasSuffix(e.short(f.String()), ".DecryptMessage")
}

func (k *Chk) errCases(fn string, cs []*Case) {
	for _, c := range cs {
		if len(c.vals) == 0 {
			continue
		}
		err := c.vals[len(c.vals)-1]
		switch {
		case err == tNil:
			k.errSuccess(fn, c)
		case err.op == "err" || err.op == "iface" || c.same(err, tNil) == false && c.st.holds(mkNot(mkEq(tNil, err))):
			k.errFailure(fn, c)
		default:
			// whatever an interface or unmodelled call said is passed on
			a, b := c.with(mkEq(tNil, err), true), c.with(mkEq(tNil, err), false)
			if a != nil {
				k.errSuccess(fn, a)
			}
			if b != nil {
				k.errFailure(fn, b)
			}
		}
	}
}

// with adds an assumption to a case; nil when impossible.
func (c *Case) with(f *T, v bool) *Case {
	st := c.st.clone()
	if !st.assume(f, v) || !st.possible() {
		return nil
	}
	q := *c
	q.st = st
	return &q
}

func (k *Chk) errSuccess(fn string, c *Case) {
	k.counts["success"]++
	archived := false
	if c.sc.name == "DECW" || c.sc.name == "DECP" {
		vs := c.views()
		if len(vs) == 0 { // which session state decrypted is not known
			k.counts["unexplained"]++
			if k.counts["unexplained"] == 1 {
				k.undec = append(k.undec, fn+": plaintexts which are not explained by keys of the message (see C01)")
			}
			archived = true
		}
		for _, v := range vs {
			archived = archived || v.kind == "archived" || v.kind == "current" && c.newBob() != nil
		}
	}
	for _, ev := range c.evs {
		if archived && ev.Kind == "rand" {
			continue
		}
		k.ob(ev.Ok != tFalse, "a failed "+ev.Kind+" is never turned into success", c, "%s succeeds although the %s at %s failed", fn, ev.Kind, k.e.where(ev.Pos))
	}
	for f, v := range c.st.facts {
		if v || !okPreds[f.op] {
			continue
		}
		if archived && !strings.Contains(f.op, "unm") && f.op != "pkok" {
			continue // attempts with other session states failed before
		}
		k.ob(false, "a failed step is never turned into success", c, "%s succeeds although %s is false", fn, f.str(6))
	}
	k.ob(true, "a failed step is never turned into success", c, "")
	seen := map[*T]bool{}
	check := func(t *T) {
		anySub(t, func(x *T) bool {
			if seen[x] {
				return false
			}
			seen[x] = true
			if x.lvl > 0 {
				return false
			}
			if ok := okOf(x); ok != nil && ok != tTrue {
				k.ob(c.st.holds(ok) || c.keyParsed(x), "results come only from steps that succeeded", c, "%s uses %s although nothing says that %s", fn, x.str(6), ok.str(4))
			}
			return false
		})
	}
	for i, v := range c.vals[:len(c.vals)-1] {
		t := c.sc.res.At(i).Type()
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Interface:
			if !mustHaveResult(fn) {
				break
			}
			k.ob(v != tNil && !c.same(v, tNil), "success comes with a result", c, "%s returns nil without an error", fn)
		}
		check(v)
	}
	for _, ev := range c.evs {
		if !ev.Loop {
			for _, t := range ev.Flat {
				check(t)
			}
		}
	}
}

func (k *Chk) errFailure(fn string, c *Case) {
	k.counts["failure"]++
	for i, v := range c.vals[:len(c.vals)-1] {
		if b, ok := c.sc.res.At(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool && len(c.vals) > 2 {
			continue // says something about the other result
		}
		k.ob(c.zeroResult(v, c.sc.res.At(i).Type()), "a failure comes without a result", c, "%s returns %s with an error", fn, v.str(6))
	}
}

// keyParsed: the public key was decoded from bytes which begin with its encoding.
func (c *Case) keyParsed(x *T) bool {
	if x.op != "pk" {
		return false
	}
	for f, v := range c.st.facts {
		if v && f.op == "pkok" && mkPk(f.args[0]) == x {
			return true
		}
	}
	return false
}

// mustHaveResult: operations which make something.
func mustHaveResult(fn string) bool {
	n := fn[strings.LastIndexByte(fn, '.')+1:]
	for _, p := range []string{"New", "Parse", "Generate", "Encrypt", "Decrypt", "Sign", "Agreement", "Create"} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}
