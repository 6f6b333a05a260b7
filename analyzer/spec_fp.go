package main

// C26, C27: fingerprints and in-memory stores.

import (
	"go/types"
)

func init() {
	specs["C26"] = spec{run: checkC26, rule: "the displayed and scanned fingerprints are the terms of the iterated hash of version, identity key and identifier of each side, ordered; a comparison is true exactly under the crosswise equalities"}
	specs["C27"] = spec{run: checkC27, rule: "the terms returned by the in-memory stores after symbolic sequences of operations are the ones last stored under an equal key"}
}

// chunkOK: t is the 40-bit number of five bytes of fp from position at, modulo 100000.
func chunkOK(t, fp *T, at int64) bool {
	var atoms []*T
	for i := int64(0); i < 5; i++ {
		atoms = append(atoms, byteAt(fp, at+i))
	}
	try := func(v [5]int64) bool {
		env := map[*T]int64{}
		n := int64(0)
		for i, a := range atoms {
			env[a] = v[i]
			n = n<<8 | v[i]
		}
		x, ok := evalT(t, env)
		return ok && x == n%100000
	}
	seed := uint64(88172645463325252)
	next := func() int64 {
		seed ^= seed << 13
		seed ^= seed >> 7
		seed ^= seed << 17
		return int64(seed & 255)
	}
	for i := 0; i < 5; i++ {
		for b := 0; b < 256; b++ {
			var v [5]int64
			v[i] = int64(b)
			if !try(v) {
				return false
			}
		}
	}
	for i := 0; i < 500; i++ {
		if !try([5]int64{next(), next(), next(), next(), next()}) {
			return false
		}
	}
	return true
}

// encodes: s is the decimal encoding of the first 30 bytes of fp.
func encodes(s, fp *T) (ok, known bool) {
	if s.op != "cat" {
		return false, false
	}
	for _, p := range s.args {
		if p.op != "fmt" || p.s != "fmt.Sprintf" {
			return false, false
		}
	}
	if len(s.args) != 6 {
		return false, true
	}
	for i, p := range s.args {
		if len(p.args) != 2 || p.args[0] != mkStr("%05d") || !chunkOK(p.args[1], fp, int64(5*i)) {
			return false, true
		}
	}
	return true, true
}

func checkC26(k *Chk) {
	e := k.e
	f := e.fn("@/fingerprint.New")
	ps := e.paramsOf(f)
	kt := e.typ("@/identity.Key")
	keyB := func(v *T) *T {
		p, _ := walk(v, kt, fieldBy(kt, isNamed("curve", "PublicKey")))
		return apply("pkbytes", p)
	}
	fp := func(id, key *T) *T {
		kb := keyB(key)
		N, lv := raw("N", "spec", nil), raw("lv", "spec", nil)
		return mkRec(mkSub(ps[1], mkInt(1)), app("sha512", mkCat(mkStr("\x00\x00"), kb, id, kb)), app("sha512", mkCat(lv, kb)), N, lv)
	}
	hashes := [2]*T{fp(ps[2], ps[3]), fp(ps[4], ps[5])}
	ft := f.Signature.Results().At(0).Type()
	scanned := e.bytesSym("scanned")
	for _, r := range e.exec(e.base, f, ps...) {
		if !r.ok() {
			continue
		}
		L, R := hashes[0], hashes[1]
		for i, h := range hashes { // the same hash may be computed with one more step from another beginning
			if o := anySub(app("tuple", r.vals...), func(x *T) bool { return x.op == "rec" && x.s == h.s && x != h && firstStep(x) == h }); o != nil {
				if i == 0 {
					L = o
				} else {
					R = o
				}
			}
		}
		for _, q := range e.runM(r.st, ft, r.raw[0], "String") {
			c := q.cse()
			k.counts["displayed numbers"]++
			a, b, ok := splitCat(q.vals[0])
			if !ok {
				k.undec = append(k.undec, "the displayed number is not recognised: "+q.vals[0].str(5))
				continue
			}
			x, known := encodes(a, L)
			y := false
			first, second := L, R
			if x {
				y, known = encodes(b, R)
			} else if x, known = encodes(a, R); x {
				y, known = encodes(b, L)
				first, second = R, L
			}
			if !known {
				k.undec = append(k.undec, "the displayed number is not recognised: "+q.vals[0].str(5))
				continue
			}
			if !k.ob(x && y, "the number shows both fingerprints", c, "the number is %s", q.vals[0].str(10)) {
				continue
			}
			_, _ = first, second
			lt, k1 := c.st.eval(app("strlt", a, b))
			gt, k2 := c.st.eval(app("strlt", b, a))
			k.ob(k1 && lt || k2 && !gt, "the smaller half is shown first on both sides", c, "the order does not depend on the halves: %s", q.vals[0].str(6))
		}
		sc, sct := walk(r.raw[0], ft, fieldBy(ft, isPtrTo("Scannable")))
		_ = sc
		// the scannable half is reached through the result as it is
		scv := e.reify(r.st, e.fieldOf(r, ft, "Scannable"), sct)
		for _, q := range e.runM(r.st, sct, scv, "Bytes") {
			if !q.ok() {
				continue
			}
			c := q.cse()
			k.counts["scannable codes"]++
			v := q.vals[0]
			cf := e.typ("@/generated/v1.CombinedFingerprints")
			if v.op != "mar" {
				k.ob(false, "the code is the encoding of both fingerprints", c, "the code is %s", v.str(6))
				continue
			}
			m := v.args[1]
			half := func(n string) *T {
				x, _ := walk(m, ptrTo(cf), n, "Content")
				return x
			}
			ver, vt := walk(m, ptrTo(cf), "Version")
			if p, ok := vt.Underlying().(*types.Pointer); ok {
				ver = mkDeref(ver, p.Elem())
			}
			k.ob(c.same(ver, ps[0]), "the code names the version", c, "it names %s", ver.str(4))
			k.ob(c.same(half("LocalFingerprint"), part(L, 0, 32)), "the code has 32 bytes of the own fingerprint", c, "it has %s", half("LocalFingerprint").str(6))
			k.ob(c.same(half("RemoteFingerprint"), part(R, 0, 32)), "the code has 32 bytes of the other fingerprint", c, "it has %s", half("RemoteFingerprint").str(6))
		}
		for _, q := range e.runM(r.st, sct, scv, "Compare", scanned) {
			c := q.cse()
			cf := e.typ("@/generated/v1.CombinedFingerprints")
			u := apply("unm", tyTerm(cf), scanned)
			half := func(n string) *T {
				x, _ := walk(u, cf, n, "Content")
				return x
			}
			ver, vt := walk(u, cf, "Version")
			if p, ok := vt.Underlying().(*types.Pointer); ok {
				ver = mkDeref(ver, p.Elem())
			}
			conds := []*T{apply("unmok", tyTerm(cf), scanned), mkEq0(mkSub(ver, ps[0])), mkEq(half("RemoteFingerprint"), part(L, 0, 32)), mkEq(half("LocalFingerprint"), part(R, 0, 32))}
			if q.ok() {
				if t := c.with(q.vals[0], true); t != nil {
					k.counts["matching codes"]++
					for i, cond := range conds {
						k.ob(t.st.holds(cond), []string{"a code which does not parse never matches", "a code of another version never matches", "the own half of a matching code is this side's other half", "the other half of a matching code is this side's own half"}[i],
							t, "matches although %s is not known", cond.str(6))
					}
				}
				if n := c.with(q.vals[0], false); n != nil {
					k.counts["refused codes"]++
					k.ob(n.excluded(conds), "the peer's code matches", n, "does not match although everything is equal")
				}
			} else {
				k.counts["refused codes"]++
				k.ob(c.excluded(conds), "the peer's code matches", c, "an error although everything is equal")
			}
		}
	}
	for _, n := range []string{"displayed numbers", "scannable codes", "matching codes"} {
		k.floor(n, 1)
	}
	k.floor("refused codes", 3)
}

// fieldOf is the field of a result whose type is a pointer to the named type, as a value of the final state.
func (e *Engine) fieldOf(r Res, t types.Type, name string) *T {
	v, _ := walk(r.vals[0], t, fieldBy(t, isPtrTo(name)))
	return v
}

// splitCat splits a concatenation of strings into two halves of equal number of parts.
func splitCat(s *T) (a, b *T, ok bool) {
	if s.op != "cat" || len(s.args)%2 != 0 {
		return nil, nil, false
	}
	n := len(s.args) / 2
	return mkCat(s.args[:n]...), mkCat(s.args[n:]...), true
}

// ---------------------------------------------------------------- stores

// tryStore runs operations one after another on each possible state.
type storeRun struct {
	k  *Chk
	e  *Engine
	t  types.Type
	st *State
	s  *T
	ok bool
}

func (x storeRun) op(name string, args []*T, then func(y storeRun, r Res)) {
	for _, r := range x.e.exec(x.st, x.e.methodOf(x.t, name), append([]*T{x.s}, args...)...) {
		y := x
		y.st = r.st
		then(y, r)
	}
}

func checkC27(k *Chk) {
	e := k.e
	addr := e.typ("@/address.Address")
	dist := e.typ("@/distribution.ID")
	ctx := mkSym("ctx")
	sym := func(n string, t types.Type) *T { return withVT(mkSym(n), t) }
	type keyed struct {
		ctor  string
		keys  []types.Type
		val   types.Type
		found int // position of the flag in the results of Load
		del   bool
	}
	for n, s := range []keyed{
		{"@/session.NewInMemStore", []types.Type{addr}, ptrTo(e.typ("@/session.Record")), 1, false},
		{"@/session.NewInMemGroupStore", []types.Type{addr, dist}, ptrTo(e.typ("@/session.GroupRecord")), 1, false},
		{"@/prekey.NewInMemStore", []types.Type{e.typ("@/prekey.ID")}, ptrTo(e.typ("@/prekey.PreKey")), 1, true},
		{"@/prekey.NewInMemSignedStore", []types.Type{e.typ("@/prekey.ID")}, ptrTo(e.typ("@/prekey.SignedPreKey")), 1, false},
		{"@/identity.NewInMemStore", []types.Type{addr}, e.typ("@/identity.Key"), 1, false},
	} {
		f := e.fn(s.ctor)
		cps := e.paramsOf(f)
		var A, B []*T
		for i, t := range s.keys {
			A = append(A, sym("a"+itoa(n)+itoa(i), t))
			B = append(B, sym("b"+itoa(n)+itoa(i), t))
		}
		// equality of the keys, in full
		var eqs []*T
		for i, t := range s.keys {
			eqs = append(eqs, keyEq(A[i], B[i], t)...)
		}
		V, W := sym("v"+itoa(n), s.val), sym("w"+itoa(n), s.val)
		for _, r := range e.exec(e.base, f, cps...) {
			if r.raw[0].op != "iface" {
				k.undec = append(k.undec, s.ctor+" returns "+r.raw[0].str(4))
				continue
			}
			x := storeRun{k: k, e: e, t: r.raw[0].typ, st: r.st, s: r.raw[0].args[0]}
			for _, v := range []*T{V, W} {
				if s.val.Underlying() != e.typ("@/identity.Key").Underlying() {
					x.st = x.st.clone()
					x.st.assume(mkNot(mkEq(tNil, v)), true)
				}
			}
			args := func(key []*T, more ...*T) []*T { return append(append([]*T{ctx}, key...), more...) }
			load := func(y storeRun, key []*T, what string, want *T) {
				y.op("Load", args(key), func(z storeRun, r Res) {
					c := r.cse()
					k.counts["loads"]++
					if !r.ok() {
						k.ob(false, "in-memory stores do not fail", c, "%s of %s fails", "Load", s.ctor)
						return
					}
					if want == nil {
						k.ob(c.same(r.vals[s.found], tFalse), what, c, "an entry %s is reported", r.vals[0].str(5))
						return
					}
					if !c.same(r.vals[s.found], tTrue) {
						k.ob(false, what, c, "no entry is reported")
						return
					}
					k.ob(c.sameEntry(r.vals[0], want, s.val), what, c, "the entry is %s instead of %s", r.vals[0].str(8), want.str(4))
				})
			}
			load(x, A, "nothing is stored in a new store", nil)
			x.op("Store", args(A, V), func(y storeRun, r Res) {
				if !r.ok() {
					k.ob(false, "in-memory stores do not fail", r.cse(), "Store of %s fails", s.ctor)
					return
				}
				load(y, A, "what was stored is loaded", V)
				// other keys
				y.op("Load", args(B), func(z storeRun, r Res) {
					c := r.cse()
					k.counts["loads"]++
					if t := c.with(r.vals[s.found], true); t != nil {
						for _, q := range eqs {
							k.ob(t.st.holds(q), "an entry is found only under its full key", t, "%s finds the entry of a key although %s is not known", s.ctor, q.str(4))
						}
					}
					if n := c.with(r.vals[s.found], false); n != nil {
						k.ob(n.excluded(eqs), "an entry is found under an equal key", n, "%s does not find the entry of an equal key", s.ctor)
					}
				})
				y.op("Store", args(A, W), func(z storeRun, r Res) { load(z, A, "what was stored last is loaded", W) })
				for _, q := range eqs {
					d := y
					d.st = y.st.clone()
					if !d.st.assume(q, false) {
						continue
					}
					d.op("Store", args(B, W), func(z storeRun, r Res) {
						load(z, A, "storing under one key leaves the others", V)
						load(z, B, "what was stored is loaded", W)
						if s.del {
							z.op("Delete", args(B), func(u storeRun, r Res) {
								k.counts["deletions"]++
								load(u, A, "deleting one key leaves the others", V)
								load(u, B, "what was deleted is gone", nil)
							})
						}
					})
				}
				if s.del {
					y.op("Delete", args(B), func(z storeRun, r Res) {
						z.op("Load", args(A), func(u storeRun, r Res) {
							c := r.cse()
							if n := c.with(r.vals[s.found], false); n != nil {
								for _, q := range eqs {
									k.ob(n.st.holds(q), "deleting one key leaves the others", n, "deleting another key deletes the entry")
								}
							}
						})
					})
				}
			})
			if s.ctor == "@/identity.NewInMemStore" {
				k.identityStore(x, cps, A, B, eqs, ctx)
			}
		}
	}
	k.floor("loads", 40)
	k.floor("deletions", 1)
	k.floor("identity answers", 8)
}

// sameEntry: what is loaded equals what was stored, itself or as a copy.
func (c *Case) sameEntry(a, b *T, t types.Type) bool {
	if c.same(a, b) || c.sameVal(a, b, t) {
		return true
	}
	// copies: compare what the fields are made of
	return c.copyOf(a, b, t, 0)
}

func (k *Chk) identityStore(x storeRun, cps, A, B, eqs []*T, ctx *T) {
	e := k.e
	kt := e.typ("@/identity.Key")
	sym := func(n string) *T { return withVT(mkSym(n), kt) }
	K1, K2 := sym("k1"), sym("k2")
	pub := func(v *T) *T {
		p, _ := walk(v, kt, fieldBy(kt, isNamed("curve", "PublicKey")))
		return p
	}
	for _, p := range []*T{pub(K1), pub(K2)} {
		x.st = x.st.clone()
		x.st.assume(mkNot(mkEq(tNil, p)), true)
	}
	same := pkEq(pub(K1), pub(K2))
	dir := withVT(mkSym("dir"), e.typ("@/direction.Direction"))
	answer := func(r Res, what string, want *T) {
		c := r.cse()
		k.counts["identity answers"]++
		if !r.ok() {
			k.ob(false, "in-memory stores do not fail", c, "an error")
			return
		}
		if t := c.with(r.vals[0], true); t != nil {
			k.ob(t.st.holds(want), what, t, "true although %s is not known", want.str(5))
		}
		if f := c.with(r.vals[0], false); f != nil {
			k.ob(f.excluded([]*T{want}), what, f, "false although %s is possible", want.str(5))
		}
	}
	a := func(key []*T, more ...*T) []*T { return append(append([]*T{ctx}, key...), more...) }
	x.op("IsTrustedIdentity", a(A, K1, dir), func(y storeRun, r Res) { answer(r, "an unknown address is trusted on first use", tTrue) })
	x.op("Store", a(A, K1), func(y storeRun, r Res) {
		answer(r, "a first key replaces nothing", tFalse)
		y.op("IsTrustedIdentity", a(A, K2, dir), func(z storeRun, r Res) { answer(r, "only the recorded key is trusted", same) })
		y.op("Store", a(A, K2), func(z storeRun, r Res) {
			answer(r, "a replacement is reported exactly when the key changed", mkNot(same))
			z.op("IsTrustedIdentity", a(A, K1, dir), func(u storeRun, r Res) { answer(r, "only the key recorded last is trusted", same) })
		})
		for _, q := range eqs {
			d := y
			d.st = y.st.clone()
			if !d.st.assume(q, false) {
				continue
			}
			d.op("IsTrustedIdentity", a(B, K2, dir), func(z storeRun, r Res) {
				answer(r, "another address is still trusted on first use", tTrue)
			})
			d.op("Store", a(B, K2), func(z storeRun, r Res) { answer(r, "a first key replaces nothing", tFalse) })
		}
		y.op("Clear", nil, func(z storeRun, r Res) {
			z.op("Load", a(A), func(u storeRun, r Res) {
				k.counts["identity answers"]++
				k.ob(r.cse().same(r.vals[1], tFalse), "clearing forgets every key", r.cse(), "a key is found after clearing")
			})
		})
	})
	x.op("KeyPair", []*T{ctx}, func(y storeRun, r Res) {
		k.counts["identity answers"]++
		k.ob(r.cse().sameEntry(r.vals[0], cps[0], e.typ("@/identity.KeyPair")), "the store has the key pair given", r.cse(), "it has %s", r.vals[0].str(5))
	})
	x.op("LocalRegistrationID", []*T{ctx}, func(y storeRun, r Res) {
		k.counts["identity answers"]++
		k.ob(r.cse().same(r.vals[0], cps[1]), "the store has the registration ID given", r.cse(), "it has %s", r.vals[0].str(5))
	})
}

// copyOf: a deep copy of b, as far as fields, pointers and lists go.
func (c *Case) copyOf(a, b *T, t types.Type, d int) bool {
	if d > 12 {
		return false
	}
	if c.same(a, b) {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if c.nilness(b) == 1 {
			return c.nilness(a) == 1
		}
		if c.nilness(a) == 1 {
			return c.st.holds(mkEq(tNil, b))
		}
		return c.copyOf(mkDeref(a, u.Elem()), mkDeref(b, u.Elem()), u.Elem(), d+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if isProtoInternal(f.Name()) && isGenerated(t) {
				continue
			}
			if !c.copyOf(mkFld(a, f.Name(), f.Type()), mkFld(b, f.Name(), f.Type()), f.Type(), d+1) {
				return false
			}
		}
		return true
	case *types.Slice:
		if !c.same(mkLen(a), mkLen(b)) {
			return false
		}
		m := withVT(mkSym("$m"+itoa(d)), types.Typ[types.Int])
		q := *c
		q.st = c.st.clone()
		if !q.st.assume(mkLe(mkInt(0), m), true) || !q.st.assume(mkLt(m, mkLen(b)), true) {
			return true
		}
		return q.copyOf(mkIdxT(a, m, u.Elem()), mkIdxT(b, m, u.Elem()), u.Elem(), d+1)
	}
	return false
}
