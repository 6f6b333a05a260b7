package main

// Framework of the specifications: cases of analysed outcomes, comparison of terms under facts, obligations.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

// Viol is an obligation that does not hold.
type Viol struct {
	Rule  string
	Scen  string
	Where string
	Path  string
	Msg   string
}

// Chk is one run of the check of a property.
type Chk struct {
	id      string
	e       *Engine
	obls    int
	done    int
	viols   []Viol
	undec   []string
	samples []string
	counts  map[string]int
	rules   map[string]int
	known   map[string]string // known findings met
	engine  func(prim bool) *Engine
	angels  func() *Engine
	kinds   func(angels bool) *Engine
}

// Case is one outcome of a scenario, with its disjunctions and selections resolved.
type Case struct {
	sc   *Scen
	n    int
	st   *State
	vals []*T
	evs  []*Event
	pos  token.Pos
	e    *Engine

	usedKeys *T // the saved keys among which the message's is missing
}

func (c *Case) ok() bool { return len(c.vals) == 0 || c.vals[len(c.vals)-1] == tNil }

func (c *Case) String() string {
	r := "success"
	if !c.ok() {
		r = "failure"
	}
	return fmt.Sprintf("%s outcome %d (%s)", c.sc.name, c.n, r)
}

// cases of a scenario: every outcome, split so that no selection is left in results and effects.
func (k *Chk) cases(name string) []*Case {
	sc := k.scen(name)
	if sc == nil {
		return nil
	}
	if sc.cases == nil {
		sc.cases = []*Case{}
		for i, o := range sc.outs {
			for _, c := range k.e.splitOutcome(sc, i, o) {
				if c.withinLimits() {
					sc.cases = append(sc.cases, c)
				}
			}
		}
	}
	k.counts["outcomes"] += len(sc.outs)
	k.counts["cases"] += len(sc.cases)
	return sc.cases
}

// withinLimits assumes that what was stored is within the limits, which no operation exceeds (C13).
func (c *Case) withinLimits() bool {
	if r := c.loaded("session.Store.Load"); r != nil {
		if !c.st.assume(mkLe(mkLen(c.e.recPrev(r)), mkInt(maxPrev)), true) {
			return false
		}
	}
	if r := c.grec(); r != nil {
		return c.st.assume(mkLe(mkLen(c.e.grecStates(r)), mkInt(maxGroup)), true)
	}
	return true
}

func (k *Chk) scen(name string) (sc *Scen) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(undecided); ok {
				k.undec = append(k.undec, name+": "+u.msg)
				sc = nil
				return
			}
			panic(r)
		}
	}()
	sc = k.e.scen(name)
	if len(sc.outs) == 0 {
		k.undec = append(k.undec, name+": no outcome")
		return nil
	}
	return sc
}

func (e *Engine) splitOutcome(sc *Scen, n int, o Outcome) []*Case {
	var out []*Case
	for _, st := range o.st.cases() {
		c := &Case{sc: sc, n: n, st: st, pos: o.pos, e: e}
		for j, v := range o.vals {
			if sc.res != nil && j < sc.res.Len() {
				v = e.reify(o.st, v, sc.res.At(j).Type())
			}
			c.vals = append(c.vals, v)
		}
		for _, ev := range o.st.events {
			x := *ev
			c.evs = append(c.evs, &x)
		}
		out = append(out, c.splitSels(6)...)
	}
	return out
}

// splitSels resolves the selections in results and effects.
func (c *Case) splitSels(depth int) []*Case {
	var sel *T
	look := func(t *T) {
		if sel == nil && t != nil && t.sel {
			sel = anySub(t, func(x *T) bool { return x.op == "sel" && !hasBN(x.args[0]) && !x.args[0].sel })
		}
	}
	for _, v := range c.vals {
		look(v)
	}
	for _, ev := range c.evs {
		if ev.Loop {
			continue
		}
		for _, t := range ev.Flat {
			look(t)
		}
		for _, t := range ev.Res {
			look(t)
		}
	}
	if sel == nil || depth == 0 {
		return []*Case{c}
	}
	var out []*Case
	for b := 0; b < 2; b++ {
		st := c.st.clone()
		if !st.assume(sel.args[0], b == 0) {
			continue
		}
		m := map[*T]*T{sel: sel.args[1+b]}
		q := &Case{sc: c.sc, n: c.n, st: st, pos: c.pos, e: c.e}
		for _, v := range c.vals {
			q.vals = append(q.vals, subst(v, m))
		}
		for _, ev := range c.evs {
			x := *ev
			x.Flat, x.Res = substs(ev.Flat, m), substs(ev.Res, m)
			q.evs = append(q.evs, &x)
		}
		// other selections on the same condition are decided now
		q.decideSels()
		out = append(out, q.splitSels(depth-1)...)
	}
	return out
}

func substs(ts []*T, m map[*T]*T) []*T {
	var out []*T
	for _, t := range ts {
		if t != nil {
			t = subst(t, m)
		}
		out = append(out, t)
	}
	return out
}

func (c *Case) decideSels() {
	f := func(t *T) *T { return resolveSels(c.st, t) }
	for i := range c.vals {
		c.vals[i] = f(c.vals[i])
	}
	for _, ev := range c.evs {
		for i := range ev.Flat {
			ev.Flat[i] = f(ev.Flat[i])
		}
		for i := range ev.Res {
			ev.Res[i] = f(ev.Res[i])
		}
	}
}

func resolveSels(st *State, t *T) *T {
	if t == nil || !t.sel {
		return t
	}
	return substFn(t, func(x *T) *T {
		if x.op == "sel" && !hasBN(x.args[0]) {
			if v, k := st.eval(x.args[0]); k {
				if v {
					return resolveSels(st, x.args[1])
				}
				return resolveSels(st, x.args[2])
			}
		}
		return nil
	})
}

// ---------------------------------------------------------------- comparing

// same: a and b are equal under the facts.
func (c *Case) same(a, b *T) bool { return sameT(c.st, a, b, 0) }

// sameRec compares a recurrence with a value computed in fewer steps of it: no step, or one step less.
func sameRec(st *State, a, b *T, d int) bool {
	if a.op != "rec" || st == nil {
		return false
	}
	n, body := a.args[0], a.args[2]
	if b.op != "rec" && st.holds(mkEq0(n)) {
		return sameT(st, a.args[1], b, d+1)
	}
	if body.op != b.op || body.s != b.s || len(body.args) != len(b.args) || len(b.args) == 0 {
		return false
	}
	at := -1
	for i, x := range body.args {
		switch {
		case x.op == "bl" && x.s == a.s:
			if at >= 0 {
				return false
			}
			at = i
		case hasBN(x) || x != b.args[i]:
			return false
		}
	}
	if at < 0 || !st.holds(mkLe(mkInt(1), n)) {
		return false
	}
	return sameT(st, instRec(raw("rec", a.s, nil, mkSub(n, mkInt(1)), a.args[1], body)), b.args[at], d+1)
}

func sameT(st *State, a, b *T, d int) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil || d > 40 {
		return false
	}
	if a.op == b.op && a.s == b.s && len(a.args) == len(b.args) && len(a.args) > 0 && a.op != "lin" && a.op != "join" {
		if a.typ == b.typ || a.typ != nil && b.typ != nil && types.Identical(a.typ, b.typ) {
			all := true
			for i := range a.args {
				if !sameT(st, a.args[i], b.args[i], d+1) {
					all = false
					break
				}
			}
			if all {
				return true
			}
		}
	}
	if (a.op == "dh" || a.op == "dhok" || a.op == "pkeq") && a.op == b.op {
		if sameT(st, a.args[0], b.args[1], d+1) && sameT(st, a.args[1], b.args[0], d+1) {
			return true
		}
	}
	if isIntTerm(a) || isIntTerm(b) {
		if st.holds(mkEq0(mkSub(a, b))) {
			return true
		}
	}
	if sameRec(st, a, b, d) || sameRec(st, b, a, d) {
		return true
	}
	if st != nil && (a.op == "cat" || b.op == "cat" || a == tEmpty || b == tEmpty) && d < 8 {
		if seqSame(st, a, b, func(st *State, x, y *T) bool { return sameT(st, x, y, d+1) }, 1) {
			return true
		}
	}
	{
		if st.holds(mkEq(a, b)) {
			return true
		}
		if isPkTerm(a) && isPkTerm(b) && st.holds(pkEq(a, b)) {
			return true
		}
		if a.op == "pk" && b.op == "pk" && sameT(st, a.args[0], b.args[0], d+1) {
			return true
		}
		// byte strings known to be equal to the same third one, over one step
		if isSeqTerm(a) && isSeqTerm(b) {
			for f, v := range st.facts {
				if !v {
					continue
				}
				if f.op == "eq" && (f.args[0] == a || f.args[1] == a) {
					o := f.args[0]
					if o == a {
						o = f.args[1]
					}
					if o == b {
						return true
					}
				}
				// encodings of equal keys
				if f.op == "pkeq" && a.op != "pk" {
					x, y := apply("pkbytes", f.args[0]), apply("pkbytes", f.args[1])
					if x == a && y == b || x == b && y == a {
						return true
					}
				}
			}
		}
	}
	return false
}

func isPkTerm(t *T) bool { return t.op == "pk" || t.op == "pub" || t.op == "fld" || t.op == "sym" }

func isIntTerm(t *T) bool {
	switch t.op {
	case "int", "lin", "add", "len", "N", "bN":
		return true
	}
	return t.vt != nil && isIntType(t.vt)
}

func isSeqTerm(t *T) bool {
	switch t.op {
	case "sub", "cat", "str", "list", "hmac256", "sha256", "sha512", "pkbytes", "pkkey", "skbytes", "dh", "sign", "hkdfstream", "rnd":
		return true
	}
	if t.vt == nil {
		return false
	}
	_, ok := t.vt.Underlying().(*types.Slice)
	return ok
}

// ---------------------------------------------------------------- structure

// walk follows fields (through pointers) from a value of type typ; names are field names.
func walk(v *T, typ types.Type, names ...string) (*T, types.Type) {
	for _, n := range names {
		if p, ok := typ.Underlying().(*types.Pointer); ok {
			typ = p.Elem()
			v = mkDeref(v, typ)
		}
		s, ok := typ.Underlying().(*types.Struct)
		if !ok {
			panic(undecided{"no field " + n + " in " + typ.String()})
		}
		found := false
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == n {
				typ = s.Field(i).Type()
				v = mkFld(v, n, typ)
				found = true
				break
			}
		}
		if !found {
			panic(undecided{"no field " + n + " in " + typ.String()})
		}
	}
	return v, typ
}

// fieldBy finds the one field of a struct type whose type satisfies the predicate.
func fieldBy(typ types.Type, pred func(types.Type) bool) string {
	if p, ok := typ.Underlying().(*types.Pointer); ok {
		typ = p.Elem()
	}
	s, ok := typ.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	name, n := "", 0
	for i := 0; i < s.NumFields(); i++ {
		if pred(s.Field(i).Type()) {
			name = s.Field(i).Name()
			n++
		}
	}
	if n != 1 {
		panic(undecided{fmt.Sprintf("%d candidate fields in %s", n, typ)})
	}
	return name
}

func isPtrTo(name string) func(types.Type) bool {
	return func(t types.Type) bool {
		p, ok := t.(*types.Pointer)
		if !ok {
			return false
		}
		n, ok := p.Elem().(*types.Named)
		return ok && n.Obj().Name() == name
	}
}

func (e *Engine) recT() types.Type  { return e.typ("@/session.Record") }
func (e *Engine) sessT() types.Type { return e.typ("@/generated/v1.SessionStructure") }
func (e *Engine) grecT() types.Type { return e.typ("@/session.GroupRecord") }
func (e *Engine) skT() types.Type   { return e.typ("@/generated/v1.SenderKeyStateStructure") }

// recCur is the pointer to the current state of a record (given by its pointer).
func (e *Engine) recCur(rec *T) *T {
	r := types.NewPointer(e.recT())
	v, _ := walk(rec, r, fieldBy(r, isPtrTo("State")))
	return v
}

// stateSess is the session structure in a state (given by its pointer).
func (e *Engine) stateSess(state *T) *T {
	st := types.NewPointer(e.typ("@/session.State"))
	v, t := walk(state, st, fieldBy(st, isPtrTo("SessionStructure")))
	return mkDeref(v, t.Underlying().(*types.Pointer).Elem())
}

func (e *Engine) recPrev(rec *T) *T {
	r := types.NewPointer(e.recT())
	v, _ := walk(rec, r, fieldBy(r, func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		if !ok {
			return false
		}
		_, ok = s.Elem().Underlying().(*types.Slice)
		return ok
	}))
	return v
}

// ss follows fields of a session structure (a struct value).
func (e *Engine) ss(s *T, names ...string) *T {
	v, _ := walk(s, e.sessT(), names...)
	return v
}

func (e *Engine) chainT() types.Type { return e.typ("@/generated/v1.SessionStructure_Chain") }

// ch follows fields of a chain, given by its pointer.
func (e *Engine) ch(c *T, names ...string) *T {
	v, _ := walk(c, types.NewPointer(e.chainT()), names...)
	return v
}

// unmVal is the message parsed from bytes.
func (e *Engine) unmVal(msg string, b *T) *T {
	t := e.typ("@/generated/v1." + msg)
	return withVT(app("unm", tyTerm(t), b), t)
}

// pf follows fields of a parsed message; optional scalars are dereferenced.
func (e *Engine) pf(m *T, msg, name string) *T {
	v, t := walk(m, e.typ("@/generated/v1."+msg), name)
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if _, ok := p.Elem().Underlying().(*types.Basic); ok {
			return mkDeref(v, p.Elem())
		}
	}
	return v
}

func subB(s *T, lo, hi *T) *T { return mkSubseq(s, lo, hi) }

func hkdf(secret, salt *T, info string) *T {
	return app("hkdfstream", mkStr("crypto/sha256.New"), secret, salt, mkStr(info))
}

func hmacT(key *T, msg *T) *T { return app("hmac256", key, msg) }

// ---------------------------------------------------------------- obligations

func (k *Chk) ob(ok bool, rule string, c *Case, format string, a ...any) bool {
	k.obls++
	k.rules[rule]++
	if ok {
		k.done++
		if len(k.samples) < 6 && k.rules[rule] == 1 {
			s := rule
			if c != nil {
				s += " @ " + c.String() + " returning at " + k.e.where(c.pos)
			}
			k.samples = append(k.samples, s)
		}
		return true
	}
	v := Viol{Rule: rule, Msg: fmt.Sprintf(format, a...)}
	if c != nil {
		v.Scen = c.sc.fn
		v.Where = k.e.where(c.pos)
		v.Path = c.path()
	}
	k.viols = append(k.viols, v)
	return false
}

// path describes an outcome: results, effects and facts.
func (c *Case) path() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s, returning at %s\n", c, c.e.where(c.pos))
	for i, v := range c.vals {
		fmt.Fprintf(&b, "  result %d: %s\n", i, v.str(8))
	}
	for _, ev := range c.evs {
		fmt.Fprintf(&b, "  effect %s %s -> %s ok=%v loop=%v at %s\n", ev.Kind, ev.Flat, ev.Res, ev.Ok, ev.Loop, c.e.where(ev.Pos))
	}
	var fs []string
	for f, v := range c.st.facts {
		s := f.str(8)
		if !v {
			s = "not " + s
		}
		fs = append(fs, s)
	}
	sort.Strings(fs)
	for _, f := range fs {
		fmt.Fprintf(&b, "  where %s\n", f)
	}
	return b.String()
}

func (c *Case) ev(kind string) []*Event {
	var out []*Event
	for _, ev := range c.evs {
		if ev.Kind == kind {
			out = append(out, ev)
		}
	}
	return out
}

// okEv: effects of this kind that succeeded.
func (c *Case) okEv(kind string) []*Event {
	var out []*Event
	for _, ev := range c.ev(kind) {
		if ev.Ok == tTrue {
			out = append(out, ev)
		}
	}
	return out
}

// hasBN: a bound variable occurs outside of the binders of exit counts.
func hasBN(t *T) bool {
	if t.lvl == 0 {
		return false
	}
	switch t.op {
	case "bN", "bl":
		return true
	case "Nx", "Lx", "rec", "fm", "fmc", "push", "all", "sig":
		return false
	}
	for _, a := range t.args {
		if hasBN(a) {
			return true
		}
	}
	return false
}
