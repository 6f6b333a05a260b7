package main

// The effects of one-to-one operations, split into the parts the properties speak of.

import (
	"go/constant"
	"go/types"
)

// Dec is a successful decryption explained by a view, with what was stored.
type Dec struct {
	c    *Case
	v    *DecView
	rec  *T // the loaded record, nil if there was none
	cur  *T // its current session structure (a value), nil if there was none
	recN *T // the stored record
	NS   *T // its current session structure
	cN   *T // the receiving chain of the message in NS (pointer)
	newS *T // the session the pre-key message set up, nil if none
	ev   *Event
}

// decs visits every successful decryption with one view and one stored record.
func (k *Chk) decs(f func(d *Dec)) {
	for _, sn := range []string{"DECW", "DECP"} {
		for _, c := range k.cases(sn) {
			if !c.ok() {
				continue
			}
			k.counts["successful decryptions"]++
			vs := c.views()
			if len(vs) == 0 {
				k.counts["unexplained decryptions"]++
				continue
			}
			d := c.dec(k, vs)
			if d != nil {
				f(d)
			}
		}
	}
	if n := k.counts["unexplained decryptions"]; n > 0 {
		k.undec = append(k.undec, "plaintexts which are not explained by keys of the message ("+itoa(n)+", see C01)")
	}
	k.floor("successful decryptions", 8)
}

func (c *Case) dec(k *Chk, vs []*DecView) *Dec {
	e := c.e
	d := &Dec{c: c, v: vs[0]}
	if len(vs) > 1 {
		_, body, tag, _ := c.msgParts()
		for _, v := range vs {
			if c.macHolds(v, body, tag) {
				d.v = v
				break
			}
		}
	}
	d.rec = c.loaded("session.Store.Load")
	if d.rec != nil {
		cur := e.recCur(d.rec)
		if v, kn := c.st.eval(mkEq(tNil, cur)); kn && !v {
			d.cur = e.stateSess(cur)
		}
	}
	d.newS = c.newBob()
	evs := c.okEv("session.Store.Store")
	if len(evs) == 0 {
		return d
	}
	d.ev = evs[len(evs)-1]
	d.recN = d.ev.Flat[2]
	d.NS = e.stateSess(e.recCur(d.recN))
	cs := e.ss(d.NS, "ReceiverChains")
	pt := ptrTo(e.chainT())
	switch d.v.how {
	case "ratchet":
		d.cN = mkIdxT(cs, mkSub(mkLen(cs), mkInt(1)), pt)
	default:
		d.cN = mkIdxT(cs, d.v.j, pt)
	}
	return d
}

// ---------------------------------------------------------------- addresses and stores

func (e *Engine) sessionT() types.Type { return ptrTo(e.typ("@/session.Session")) }
func (e *Engine) groupT() types.Type   { return ptrTo(e.typ("@/session.GroupSession")) }

// own is the field of the operation's receiver with the given type.
func (c *Case) own(pkg, name string) *T {
	t := c.e.sessionT()
	if c.sc.group() {
		t = c.e.groupT()
	}
	v, _ := walk(c.sc.args["self"], t, fieldBy(t, isNamed(pkg, name)))
	return v
}

func (s *Scen) group() bool { return s.name[0] == 'G' }

// sameStruct compares two struct values field by field.
func (c *Case) sameStruct(a, b *T, t types.Type) bool {
	if c.same(a, b) {
		return true
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if isProtoInternal(f.Name()) && isGenerated(t) {
			continue
		}
		if !c.sameStruct(mkFld(a, f.Name(), f.Type()), mkFld(b, f.Name(), f.Type()), f.Type()) {
			return false
		}
	}
	return true
}

func (c *Case) ownAddr(a *T) bool {
	return c.sameStruct(a, c.own("address", "Address"), c.e.typ("@/address.Address"))
}

// constOf is the value of an integer constant of the module.
func (e *Engine) constOf(pkg, name string) *T {
	for _, p := range e.prog.AllPackages() {
		if p.Pkg.Path() == e.mod+"/"+pkg {
			if c, ok := p.Pkg.Scope().Lookup(name).(*types.Const); ok {
				if n, ok := constant.Int64Val(constant.ToInt(c.Val())); ok {
					return mkInt(n)
				}
			}
		}
	}
	panic(undecided{"no constant " + pkg + "." + name})
}

var writeKinds = []string{"session.Store.Store", "session.GroupStore.Store", "identity.Store.Store", "identity.Store.Clear",
	"prekey.Store.Store", "prekey.Store.Delete", "prekey.SignedStore.Store"}

func isWrite(kind string) bool {
	for _, w := range writeKinds {
		if w == kind {
			return true
		}
	}
	return false
}

func (c *Case) writes() []*Event {
	var out []*Event
	for _, ev := range c.evs {
		if isWrite(ev.Kind) {
			out = append(out, ev)
		}
	}
	return out
}

// storeFailed: a call of a store failed on this path.
func (c *Case) storeFailed() bool {
	for _, ev := range c.evs {
		if ev.Kind != "rand" && ev.Ok == tFalse {
			return true
		}
	}
	return false
}

// alts are the possible values of a term that was merged from several paths.
func alts(t *T) []*T {
	if t.op == "join" {
		var out []*T
		for _, a := range t.args {
			out = append(out, alts(a)...)
		}
		return out
	}
	return []*T{t}
}

// ---------------------------------------------------------------- session structures

// sessFields are the names of the fields of a session structure.
func (e *Engine) sessFields() []string { return fieldNames(e.sessT()) }

func fieldNames(t types.Type) []string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st := t.Underlying().(*types.Struct)
	var out []string
	for i := 0; i < st.NumFields(); i++ {
		if !isProtoInternal(st.Field(i).Name()) {
			out = append(out, st.Field(i).Name())
		}
	}
	return out
}

// sameBut: two session structures are equal except for the named fields.
func (d *Dec) keeps(k *Chk, rule string, names ...string) {
	for _, n := range names {
		a, b := d.c.e.ss(d.NS, n), d.c.e.ss(d.v.S, n)
		k.ob(d.c.sameVal(a, b, fieldType(d.c.e.sessT(), n)), rule, d.c, "%s is stored as %s instead of %s", n, a.str(6), b.str(6))
	}
}

func fieldType(t types.Type, name string) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return st.Field(i).Type()
		}
	}
	panic(undecided{"no field " + name})
}

// sameVal compares values of a type, through pointers and structs.
func (c *Case) sameVal(a, b *T, t types.Type) bool { return c.sameValD(a, b, t, 0) }

func (c *Case) sameValD(a, b *T, t types.Type, d int) bool {
	if c.same(a, b) {
		return true
	}
	if d > 12 {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if a == tNil || b == tNil || c.nilness(a) == 1 || c.nilness(b) == 1 {
			return c.nilness(a) == 1 && c.nilness(b) == 1
		}
		if c.nilness(a) != 0 || c.nilness(b) != 0 {
			return false
		}
		return c.sameValD(mkDeref(a, u.Elem()), mkDeref(b, u.Elem()), u.Elem(), d+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if isProtoInternal(f.Name()) && isGenerated(t) {
				continue
			}
			if !c.sameValD(mkFld(a, f.Name(), f.Type()), mkFld(b, f.Name(), f.Type()), f.Type(), d+1) {
				return false
			}
		}
		return true
	case *types.Slice:
		return seqSame(c.st, a, b, func(st *State, x, y *T) bool {
			q := *c
			q.st = st
			return q.sameValD(x, y, u.Elem(), d+1)
		}, 5)
	}
	return false
}

// nilness: 1 nil, 0 not nil, -1 unknown.
func (c *Case) nilness(t *T) int {
	if t == tNil {
		return 1
	}
	if v, kn := c.st.eval(mkEq(tNil, t)); kn {
		if v {
			return 1
		}
		return 0
	}
	if c.st.nonNil(t) {
		return 0
	}
	return -1
}

func typesSliceOfBytes() types.Type { return types.NewSlice(bytesT) }
