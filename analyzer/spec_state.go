package main

// C17: what is put into stored state is what comes out.

import (
	"go/types"
)

func init() {
	specs["C17"] = spec{run: checkC17, rule: "after every setter on arbitrary state, the terms returned by the matching accessors are the values given, and the fields the setter is not about hold the terms they held before"}
}

// val is an arbitrary, well-formed value of a type.
func (k *Chk) val(st *State, name string, t types.Type) *T {
	v := withVT(mkSym(name), t)
	k.wellFormed(st, v, t, 0)
	return v
}

func (k *Chk) wellFormed(st *State, v *T, t types.Type, d int) {
	switch {
	case d > 3:
		return
	case isNamed("curve", "PublicKey")(t), isNamed("curve", "PrivateKey")(t):
		st.assume(mkEq(tNil, v), false)
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if _, ok := u.Elem().Underlying().(*types.Struct); ok {
			st.assume(mkEq(tNil, v), false)
			k.wellFormed(st, mkDeref(v, u.Elem()), u.Elem(), d+1)
		}
	case *types.Struct:
		n, _ := t.(*types.Named)
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			x := mkFld(v, f.Name(), f.Type())
			if isBytes(f.Type()) && n != nil && n.Obj().Pkg().Name() == "ratchet" {
				sz := int64(32)
				if f.Name() == "iv" {
					sz = 16
				}
				st.assume(mkEq0(mkSub(mkLen(x), mkInt(sz))), true)
				st.assume(mkEq(tNil, x), false)
				continue
			}
			if isNamed("curve", "PublicKey")(f.Type()) || isNamed("curve", "PrivateKey")(f.Type()) {
				k.wellFormed(st, x, f.Type(), d+1)
			}
		}
	}
}

// getter is an accessor and what it has to return.
type getter struct {
	name string
	args []*T
	want []*T // nil: not checked
}

// gets checks an accessor's results in a state.
func (k *Chk) gets(st *State, t types.Type, self *T, what string, g getter) {
	e := k.e
	f := e.methodOf(t, g.name)
	rs := e.exec(st, f, append([]*T{self}, g.args...)...)
	n := 0
	for _, r := range rs {
		c := r.cse()
		res := f.Signature.Results()
		if isErrorType(res.At(res.Len()-1).Type()) && !r.ok() {
			k.ob(!c.st.possible(), what, c, "%s fails", g.name)
			continue
		}
		n++
		k.counts["read values"]++
		for i, w := range g.want {
			if w == nil {
				continue
			}
			rt := res.At(i).Type()
			w = e.reify(r.st, w, rt)
			k.ob(c.sameVal(r.vals[i], w, rt), what, c, "%s returns %s instead of %s", g.name, r.vals[i].str(6), w.str(6))
		}
	}
	if n == 0 {
		k.undec = append(k.undec, g.name+" has no successful outcome")
	}
}

// sets runs a setter and checks the accessors; inner gives the stored structure, whose fields other than those named stay.
func (k *Chk) sets(st *State, t types.Type, self *T, setter string, args []*T, inner func(*State) (*T, types.Type), fields []string, gs ...getter) {
	e := k.e
	f := e.methodOf(t, setter)
	n := 0
	for _, r := range e.exec(st, f, append([]*T{self}, args...)...) {
		c := r.cse()
		res := f.Signature.Results()
		if res.Len() > 0 && isErrorType(res.At(res.Len()-1).Type()) && !r.ok() {
			k.ob(!c.st.possible(), "setting a value succeeds", c, "%s fails", setter)
			continue
		}
		n++
		k.counts["setters"]++
		for _, g := range gs {
			k.gets(r.st, t, self, "what is set is what is read ("+setter+")", g)
		}
		if inner == nil {
			continue
		}
		before, it := inner(st)
		after, _ := inner(r.st)
		s := it.Underlying().(*types.Struct)
	next:
		for i := 0; i < s.NumFields(); i++ {
			fl := s.Field(i)
			if isProtoInternal(fl.Name()) {
				continue
			}
			for _, n := range fields {
				if n == fl.Name() {
					continue next
				}
			}
			k.counts["other fields"]++
			x, y := mkFld(after, fl.Name(), fl.Type()), mkFld(before, fl.Name(), fl.Type())
			k.ob(c.sameVal(x, y, fl.Type()), "setting one value leaves the others", c, "%s changes %s from %s to %s", setter, fl.Name(), y.str(5), x.str(6))
		}
	}
	if n == 0 {
		k.undec = append(k.undec, setter+" has no successful outcome")
	}
}

func checkC17(k *Chk) {
	k.stateValues()
	k.recordValues()
	k.groupValues()
	k.keyValues()
	k.floor("setters", 12)
	k.floor("read values", 40)
	k.floor("other fields", 60)
}

func (k *Chk) stateValues() {
	e := k.e
	t := ptrTo(e.typ("@/session.State"))
	st := e.base.clone()
	self := k.val(st, "state", t)
	sp, spt := walk(self, t, fieldBy(t, isPtrTo("SessionStructure")))
	st.assume(mkEq(tNil, sp), false)
	inner := func(q *State) (*T, types.Type) {
		return mkDeref(e.reify(q, sp, spt), e.sessT()), e.sessT()
	}
	S, _ := inner(st)
	ck := k.val(st, "ck", e.typ("@/ratchet.ChainKey"))
	rk := k.val(st, "rk", e.typ("@/ratchet.RootKey"))
	mk := k.val(st, "mk", e.typ("@/ratchet.MessageKeys"))
	kp := k.val(st, "kp", ptrTo(e.typ("@/curve.KeyPair")))
	pub := k.val(st, "pub", e.typ("@/curve.PublicKey"))
	u32 := func(n string) *T { return withVT(mkSym(n), types.Typ[types.Uint32]) }
	kpub, _, _ := k.acc(st, ptrTo(e.typ("@/curve.KeyPair")), kp, "PublicKey")
	kpriv, _, _ := k.acc(st, ptrTo(e.typ("@/curve.KeyPair")), kp, "PrivateKey")
	bk := e.bytesSym("basekey")
	k.sets(st, t, self, "SetAliceBaseKey", []*T{bk}, inner, []string{"AliceBaseKey"}, getter{"AliceBaseKey", nil, []*T{bk}})
	k.sets(st, t, self, "SetPreviousCounter", []*T{u32("counter")}, inner, []string{"PreviousCounter"}, getter{"PreviousCounter", nil, []*T{u32("counter")}})
	k.sets(st, t, self, "SetRootKey", []*T{rk}, inner, []string{"RootKey"}, getter{"RootKey", nil, []*T{rk}})
	k.sets(st, t, self, "SetLocalRegistrationID", []*T{u32("regid")}, inner, []string{"LocalRegistrationId"}, getter{"LocalRegistrationID", nil, []*T{u32("regid")}})
	k.sets(st, t, self, "SetRemoteRegistrationID", []*T{u32("regid")}, inner, []string{"RemoteRegistrationId"})
	k.sets(st, t, self, "SetSenderChain", []*T{kp, ck}, inner, []string{"SenderChain"},
		getter{"SenderChainKey", nil, []*T{ck}}, getter{"SenderRatchetKey", nil, []*T{kpub}}, getter{"SenderRatchetPrivateKey", nil, []*T{kpriv}})
	// with and without a chain
	q := st.clone()
	q.assume(mkEq(tNil, e.ss(S, "SenderChain")), true)
	k.sets(q, t, self, "SetSenderChainKey", []*T{ck}, inner, []string{"SenderChain"}, getter{"SenderChainKey", nil, []*T{ck}})
	q = st.clone()
	q.assume(mkEq(tNil, e.ss(S, "SenderChain")), false)
	q.assume(apply("pkok", e.ss(S, "SenderChain", "SenderRatchetKey")), true)
	q.assume(apply("skok", e.ss(S, "SenderChain", "SenderRatchetKeyPrivate")), true)
	k.sets(q, t, self, "SetSenderChainKey", []*T{ck}, inner, []string{"SenderChain"},
		getter{"SenderChainKey", nil, []*T{ck}}, getter{"SenderRatchetKey", nil, []*T{mkPk(e.ss(S, "SenderChain", "SenderRatchetKey"))}}, getter{"SenderRatchetPrivateKey", nil, []*T{apply("sk", e.ss(S, "SenderChain", "SenderRatchetKeyPrivate"))}})
	// the pending handshake
	idT := ptrTo(e.typ("@/prekey.ID"))
	for _, none := range []bool{true, false} {
		q := st.clone()
		id := withVT(mkSym("otid"), idT)
		q.assume(mkEq(tNil, id), none)
		if !none {
			q.assume(mkEq0(mkDeref(id, e.typ("@/prekey.ID"))), false) // (finding: 0 counts as none)
		}
		k.sets(q, t, self, "SetUnacknowledgedPreKeyMessage", []*T{id, u32("spid"), pub}, inner, []string{"PendingPreKey"})
		it := ptrTo(e.typ("@/session.UnacknowledgedPreKeyMessageItems"))
		for _, r := range e.exec(q, e.methodOf(t, "SetUnacknowledgedPreKeyMessage"), self, id, u32("spid"), pub) {
			for _, u := range e.exec(r.st, e.methodOf(t, "UnacknowledgedPreKeyMessages"), self) {
				c := u.cse()
				if !u.ok() || u.vals[0] == tNil {
					k.ob(!c.st.possible(), "a pending handshake is read as it was set", c, "there is none")
					continue
				}
				for _, g := range []getter{{"PreKeyID", nil, []*T{id}}, {"SignedPreKeyID", nil, []*T{u32("spid")}}, {"BaseKey", nil, []*T{pub}}} {
					k.gets(u.st, it.Underlying().(*types.Pointer).Elem(), mkDeref(u.vals[0], it.Underlying().(*types.Pointer).Elem()), "a pending handshake is read as it was set", g)
				}
			}
		}
	}
	k.sets(st, t, self, "ClearUnacknowledgedPreKeyMessage", nil, inner, []string{"PendingPreKey"}, getter{"UnacknowledgedPreKeyMessages", nil, []*T{tNil}})
	// receiving chains
	list := func(q *State) *T { S, _ := inner(q); return e.ss(S, "ReceiverChains") }
	lt := types.NewSlice(ptrTo(e.chainT()))
	ckey, cidx := mkFld(ck, fieldBy(ck.vt, isBytes), nil), mkFld(ck, fieldBy(ck.vt, isIntType), nil)
	ckBox := func() *T {
		v, _ := walk(e.mkChain(apply("pkbytes", pub), nil, ckey, cidx), ptrTo(e.chainT()), "ChainKey")
		return v
	}()
	old := list(st)
	all := st.clone()
	for _, r := range e.exec(all, e.methodOf(t, "ReceiverChain"), self, pub) {
		found, chain := r.vals[0], r.raw[1]
		if chain == tNil {
			k.counts["unknown chains"]++
			for _, a := range e.exec(r.st, e.methodOf(t, "AddReceiverChain"), self, pub, ck) {
				c := a.cse()
				add := mkList(e.mkChain(apply("pkbytes", pub), nil, ckey, cidx))
				want := mkCat(old, add)
				if full, known := a.st.eval(mkLe(mkInt(5), mkLen(old))); known && full {
					want = mkCat(mkSubseq(old, mkInt(1), mkLen(old)), add)
				}
				k.ob(c.over(old, maxChains) || c.sameVal(list(a.st), want, lt), "a new receiving chain is added behind the others", c, "the chains are %s", list(a.st).str(6))
				k.gets(a.st, t, self, "an added receiving chain is found", getter{"ReceiverChainKey", []*T{pub}, []*T{ck, tTrue}})
			}
			k.gets(r.st, t, self, "an unknown chain is reported as absent", getter{"ReceiverChainKey", []*T{pub}, []*T{nil, tFalse}})
			for _, n := range []string{"SetReceiverChainKey", "SetMessageKeys"} {
				v := ck
				if n == "SetMessageKeys" {
					v = mk
				}
				for _, a := range e.exec(r.st, e.methodOf(t, n), self, pub, v) {
					k.ob(!a.ok(), "an unknown chain is not set", a.cse(), "%s succeeds", n)
					k.unchanged(a, inner, st, n)
				}
			}
			continue
		}
		k.counts["known chains"]++
		c := r.cse()
		k.ob(c.same(chain, mkIdx(old, found)), "a chain is found with its number", c, "chain %s is %s", found.str(4), chain.str(6))
		k.ob(c.same(e.ch(chain, "SenderRatchetKey"), apply("pkbytes", pub)), "a chain is found by its ratchet key", c, "it has %s", e.ch(chain, "SenderRatchetKey").str(6))
		swap := func(field string, v *T) *T {
			n := mkWith(mkDeref(chain, e.chainT()), map[string]*T{field: v})
			return mkCat(mkSubseq(old, mkInt(0), found), mkList(app("box", n)), mkSubseq(old, mkAdd(found, mkInt(1)), mkLen(old)))
		}
		k.sets(r.st, t, self, "SetReceiverChainKey", []*T{pub, ck}, inner, []string{"ReceiverChains"}, getter{"ReceiverChainKey", []*T{pub}, []*T{ck, tTrue}})
		for _, a := range e.exec(r.st, e.methodOf(t, "SetReceiverChainKey"), self, pub, ck) {
			c := a.cse()
			k.ob(c.sameVal(list(a.st), swap("ChainKey", ckBox), lt), "setting a chain's key leaves everything else", c, "the chains are %s", list(a.st).str(7))
		}
		mt := mk.vt
		key := func(n string) *T {
			switch n {
			case "Index":
				v, _, _ := k.acc(r.st, mt, mk, "Counter")
				return v
			case "CipherKey":
				v, _, _ := k.acc(r.st, mt, mk, "CipherKey")
				return v
			case "MacKey":
				v, _, _ := k.acc(r.st, mt, mk, "MACKey")
				return v
			}
			v, _, _ := k.acc(r.st, mt, mk, "IV")
			return v
		}
		keys := e.ch(chain, "MessageKeys")
		kt := e.typ("@/generated/v1.SessionStructure_Chain_MessageKey")
		set := map[string]*T{}
		for _, n := range []string{"Index", "CipherKey", "MacKey", "Iv"} {
			set[n] = key(n)
		}
		entry := mkList(app("box", structWith(kt, set)))
		k.sets(r.st, t, self, "SetMessageKeys", []*T{pub, mk}, inner, []string{"ReceiverChains"})
		// no other key is saved for the same counter
		unsaved := r.st.clone()
		N := withVT(mkSym("$saved"), types.Typ[types.Int])
		of, _ := walk(mkIdxT(keys, N, nil), ptrTo(kt), "Index")
		unsaved.assume(mkLe(mkLen(keys), mkInt(maxKeys)), true)
		unsaved.assume(mkAll(mkLen(keys), mkNot(mkEq0(mkSub(key("Index"), of))), N), true)
		for _, a := range e.exec(unsaved, e.methodOf(t, "SetMessageKeys"), self, pub, mk) {
			c := a.cse()
			want := mkCat(keys, entry)
			if full, known := a.st.eval(mkLe(mkInt(2000), mkLen(keys))); known && full {
				want = mkCat(mkSubseq(keys, mkInt(1), mkLen(keys)), entry)
			}
			k.ob(c.sameVal(list(a.st), swap("MessageKeys", want), lt), "saving a message key leaves everything else", c, "the chains are %s", list(a.st).str(7))
			for _, g := range e.exec(a.st, e.methodOf(t, "MessageKeys"), self, pub, key("Index")) {
				if !g.ok() {
					continue
				}
				c := g.cse()
				k.counts["read values"]++
				k.ob(c.same(g.vals[1], tTrue) && c.sameVal(g.vals[0], mk, mt), "a saved message key is found", c, "MessageKeys returns %s, %s", g.vals[0].str(6), g.vals[1].str(3))
			}
		}
	}
	// what is read is what is stored
	idt := e.typ("@/identity.Key")
	ident := func(f string) *T {
		return structWith(idt, map[string]*T{fieldBy(idt, isNamed("curve", "PublicKey")): mkPk(e.ss(S, f))})
	}
	for _, known := range []bool{true, false} {
		q := st.clone()
		q.assume(mkEq0(mkLen(e.ss(S, "RemoteIdentityPublic"))), !known)
		if !known {
			k.gets(q, t, self, "an unknown remote identity is absent", getter{"RemoteIdentityKey", nil, []*T{nil, tFalse}})
			continue
		}
		q.assume(apply("pkok", e.ss(S, "RemoteIdentityPublic")), true)
		q.assume(apply("pkok", e.ss(S, "LocalIdentityPublic")), true)
		k.gets(q, t, self, "what is read is what is stored", getter{"RemoteIdentityKey", nil, []*T{ident("RemoteIdentityPublic"), tTrue}})
		k.gets(q, t, self, "what is read is what is stored", getter{"LocalIdentityKey", nil, []*T{ident("LocalIdentityPublic")}})
		k.gets(q, t, self, "a session with oneself has equal identities", getter{"SessionWithSelf", nil, []*T{pkEq(mkPk(e.ss(S, "RemoteIdentityPublic")), mkPk(e.ss(S, "LocalIdentityPublic")))}})
	}
	q = st.clone()
	q.assume(mkEq0(e.ss(S, "SessionVersion")), false)
	k.gets(q, t, self, "what is read is what is stored", getter{"Version", nil, []*T{e.ss(S, "SessionVersion")}})
	k.gets(st, t, self, "what is read is what is stored", getter{"AliceBaseKey", nil, []*T{e.ss(S, "AliceBaseKey")}})
	k.gets(st, t, self, "what is read is what is stored", getter{"PreviousCounter", nil, []*T{e.ss(S, "PreviousCounter")}})
	k.gets(st, t, self, "what is read is what is stored", getter{"LocalRegistrationID", nil, []*T{e.ss(S, "LocalRegistrationId")}})
	// reading changes nothing
	for _, n := range []string{"AliceBaseKey", "Version", "RemoteIdentityKey", "LocalIdentityKey", "SessionWithSelf", "PreviousCounter", "RootKey", "SenderRatchetPrivateKey", "SenderRatchetKey",
		"ReceiverChain", "ReceiverChainKey", "SenderChainKey", "UnacknowledgedPreKeyMessages", "LocalRegistrationID", "Bytes", "Clone"} {
		var as []*T
		if n == "ReceiverChain" || n == "ReceiverChainKey" {
			as = []*T{pub}
		}
		for _, r := range e.exec(st, e.methodOf(t, n), append([]*T{self}, as...)...) {
			k.counts["reads"]++
			k.unchanged(r, inner, st, n)
		}
	}
	// copies and encodings
	for _, r := range e.exec(st, e.methodOf(t, "Clone"), self) {
		c := r.cse()
		k.ob(c.copyOf(r.vals[0], e.reify(st, self, t), t, 0), "a copy has all values", c, "it is %s", r.vals[0].str(8))
	}
	for _, r := range e.exec(st, e.methodOf(t, "Bytes"), self) {
		c := r.cse()
		for _, u := range e.exec(r.st, e.fn("@/session.NewRecordBytes"), r.raw[0]) {
			if !u.ok() {
				k.ob(!u.st.possible(), "an encoded state parses", u.cse(), "it does not")
				continue
			}
			k.counts["restored states"]++
			got := e.stateSess(e.recCur(u.vals[0]))
			c := u.cse()
			k.ob(c.sameVal(got, S, e.sessT()) || c.copyOf(got, S, e.sessT(), 0), "a restored state has all values", c, "it is %s", got.str(8))
		}
		_ = c
	}
}

// unchanged checks that an outcome has the same structure as before.
func (k *Chk) unchanged(r Res, inner func(*State) (*T, types.Type), st *State, name string) {
	before, it := inner(st)
	after, _ := inner(r.st)
	c := r.cse()
	k.ob(c.sameVal(after, before, it), "reading changes nothing", c, "%s leaves %s", name, after.str(6))
}

func (k *Chk) recordValues() {
	e := k.e
	t := ptrTo(e.recT())
	stT := ptrTo(e.typ("@/session.State"))
	st := e.base.clone()
	self := k.val(st, "record", t)
	S := k.val(st, "newstate", stT)
	sp, _ := walk(S, stT, fieldBy(stT, isPtrTo("SessionStructure")))
	st.assume(mkEq(tNil, sp), false)
	inner := func(q *State) (*T, types.Type) { return mkDeref(e.reify(q, self, t), e.recT()), e.recT() }
	curT := fieldBy(t, isPtrTo("State"))
	cur, prev := e.recCur(self), e.recPrev(self)
	st.assume(mkLe(mkLen(prev), mkInt(maxPrev)), true)
	k.sets(st, t, self, "SetSessionState", []*T{S}, inner, []string{curT}, getter{"State", nil, []*T{S}})
	for _, r := range e.exec(st, e.fn("@/session.NewRecord"), S) {
		k.gets(r.st, t, r.raw[0], "a new record has its state", getter{"State", nil, []*T{S}})
		for _, p := range e.exec(r.st, e.methodOf(t, "PreviousStates"), r.raw[0]) {
			k.ob(p.ok() && p.cse().same(mkLen(p.vals[0]), mkInt(0)), "a new record has no archived states", p.cse(), "it has %s", p.vals[0].str(4))
		}
	}
	pt := types.NewSlice(bytesT)
	for _, none := range []bool{true, false} {
		q := st.clone()
		q.assume(mkEq(tNil, cur), none)
		if !none {
			p, _ := walk(cur, stT, fieldBy(stT, isPtrTo("SessionStructure")))
			q.assume(mkEq(tNil, p), false)
		}
		arch := func(x *State, old *T) *T {
			if none {
				return old
			}
			v, vt := walk(cur, stT, fieldBy(stT, isPtrTo("SessionStructure")))
			b := mkList(marTerm(vt, e.reify(q, v, vt)))
			if full, known := x.eval(mkLe(mkInt(40), mkLen(old))); known && full {
				old = mkSubseq(old, mkInt(1), mkLen(old))
			}
			return mkCat(old, b)
		}
		for _, r := range e.exec(q, e.methodOf(t, "ArchiveCurrentState"), self) {
			c := r.cse()
			k.counts["archivings"]++
			got := e.recPrev(e.reify(r.st, self, t))
			k.ob(c.sameVal(got, arch(r.st, prev), pt), "archiving keeps every archived state and adds the current one", c, "the archive is %s", got.str(7))
		}
		for _, r := range e.exec(q, e.methodOf(t, "PromoteState"), self, S) {
			c := r.cse()
			k.counts["archivings"]++
			got := e.recPrev(e.reify(r.st, self, t))
			k.ob(c.sameVal(got, arch(r.st, prev), pt), "promoting keeps every archived state and adds the current one", c, "the archive is %s", got.str(7))
			k.gets(r.st, t, self, "a promoted state is current", getter{"State", nil, []*T{S}})
		}
		idx := withVT(mkSym("idx"), types.Typ[types.Int])
		for _, r := range e.exec(q, e.methodOf(t, "PromoteOldState"), self, idx, S) {
			c := r.cse()
			k.counts["archivings"]++
			rec := e.reify(r.st, self, t)
			got := e.recPrev(rec)
			in, known := r.st.eval(mkAnd(mkLe(mkInt(0), idx), mkLt(idx, mkLen(prev))))
			if !known {
				k.undec = append(k.undec, "PromoteOldState does not tell whether the number is in range")
				continue
			}
			if !in {
				k.ob(c.sameVal(got, prev, pt) && c.same(e.recCur(rec), e.recCur(e.reify(q, self, t))), "a number out of range changes nothing", c, "the archive is %s", got.str(7))
				continue
			}
			left := mkCat(mkSubseq(prev, mkInt(0), idx), mkSubseq(prev, mkAdd(idx, mkInt(1)), mkLen(prev)))
			k.ob(c.sameVal(got, arch(r.st, left), pt), "promoting an archived state removes it and keeps the others", c, "the archive is %s", got.str(7))
			k.gets(r.st, t, self, "a promoted state is current", getter{"State", nil, []*T{S}})
		}
		// what the record says is what its state says
		pub := k.val(q, "pub", e.typ("@/curve.PublicKey"))
		for _, n := range []string{"Version", "LocalIdentityKey", "RemoteIdentityKey", "ReceiverChainKey", "SenderChainKey"} {
			var as []*T
			if n == "ReceiverChainKey" {
				as = []*T{pub}
			}
			f := e.methodOf(t, n)
			for _, r := range e.exec(q, f, append([]*T{self}, as...)...) {
				c := r.cse()
				k.counts["reads"]++
				k.unchanged(r, inner, q, n)
				if none {
					k.ob(!r.ok(), "a record without a state says so", c, "%s succeeds", n)
					continue
				}
				if !r.ok() {
					continue
				}
				sf := e.methodOf(stT, n)
				for _, s := range e.exec(r.st, sf, append([]*T{cur}, as...)...) {
					m := s.cse()
					rt := sf.Signature.Results()
					if isErrorType(rt.At(rt.Len()-1).Type()) && !s.ok() {
						k.ob(!m.st.possible(), "a record says what its state says", m, "%s of the state fails", n)
						continue
					}
					k.counts["read values"]++
					for i := 0; i < f.Signature.Results().Len()-1; i++ {
						k.ob(m.sameVal(r.vals[i], s.vals[i], rt.At(i).Type()), "a record says what its state says", m, "%s is %s instead of %s", n, r.vals[i].str(6), s.vals[i].str(6))
					}
				}
			}
		}
	}
	// archived states are read as they were archived
	for _, r := range e.exec(st, e.methodOf(t, "PreviousStates"), self) {
		c := r.cse()
		k.unchanged(r, inner, st, "PreviousStates")
		if !r.ok() {
			continue
		}
		k.counts["reads"]++
		k.ob(c.same(mkLen(r.vals[0]), mkLen(prev)), "every archived state is read", c, "%s of %s are", mkLen(r.vals[0]).str(5), mkLen(prev).str(5))
		i := withVT(mkSym("i"), types.Typ[types.Int])
		q := *c
		q.st = c.st.clone()
		if !q.st.assume(mkLe(mkInt(0), i), true) || !q.st.assume(mkLt(i, mkLen(prev)), true) {
			continue
		}
		x := mkIdxT(r.vals[0], i, stT)
		got := e.stateSess(x)
		k.ob(q.sameVal(got, e.unmVal("SessionStructure", mkIdxT(prev, i, bytesT)), e.sessT()), "archived states are read as they were archived", &q, "number i is %s", got.str(8))
	}
	// copies
	for _, r := range e.exec(st, e.methodOf(t, "Clone"), self) {
		c := r.cse()
		k.ob(c.copyOf(r.vals[0], e.reify(st, self, t), t, 0), "a copy has all values", c, "it is %s", r.vals[0].str(8))
	}
	k.floor("archivings", 6)
}

func (k *Chk) groupValues() {
	e := k.e
	t := e.gstateT()
	st := e.base.clone()
	self := k.val(st, "gstate", t)
	sp, spt := walk(self, t, fieldBy(t, isPtrTo("SenderKeyStateStructure")))
	st.assume(mkEq(tNil, sp), false)
	inner := func(q *State) (*T, types.Type) { return mkDeref(e.reify(q, sp, spt), e.skT()), e.skT() }
	S, _ := inner(st)
	ct, mt := e.typ("@/senderkey.ChainKey"), e.typ("@/senderkey.MessageKey")
	ck, mk := k.val(st, "gck", ct), k.val(st, "gmk", mt)
	seed, _, _ := k.acc(st, ct, ck, "Seed")
	it, _, _ := k.acc(st, ct, ck, "Iteration")
	k.sets(st, t, self, "SetSenderChainKey", []*T{ck}, inner, []string{"SenderChainKey"}, getter{"SenderChainKey", nil, []*T{ck}})
	// made from a configuration
	f := e.fn("@/session.NewGroupState")
	cfgT := f.Params[0].Type()
	cfg := withVT(mkSym("gcfg"), cfgT)
	cf := func(n string) *T { return mkFld(cfg, n, fieldType(cfgT, n)) }
	for _, own := range []bool{true, false} {
		q := st.clone()
		q.assume(mkEq(tNil, cf("SignatureKey")), false)
		q.assume(mkEq(tNil, cf("SignaturePrivateKey")), !own)
		q.assume(mkEq0(cf("MessageVersion")), false)
		for _, r := range e.exec(q, f, cfg) {
			k.counts["setters"]++
			gs := []getter{{"Version", nil, []*T{cf("MessageVersion")}}, {"ChainID", nil, []*T{cf("ChainID")}}, {"PublicSigningKey", nil, []*T{cf("SignatureKey")}},
				{"SenderChainKey", nil, []*T{structWith(ct, map[string]*T{fieldBy(ct, isBytes): cf("ChainKey"), fieldBy(ct, isIntType): cf("Iteration")})}}}
			if own {
				gs = append(gs, getter{"PrivateSigningKey", nil, []*T{cf("SignaturePrivateKey")}})
			}
			for _, g := range gs {
				k.gets(r.st, t, r.raw[0], "a new state has what it was built from", g)
			}
			g := e.gstate(r.vals[0])
			c := r.cse()
			k.ob(c.same(mkLen(e.sk(g, "SenderMessageKeys")), mkInt(0)), "a new state has no saved keys", c, "it has %s", e.sk(g, "SenderMessageKeys").str(4))
			if !own {
				k.ob(c.same(mkLen(e.sk(g, "SenderSigningKey", "Private")), mkInt(0)), "a state without private key has none", c, "it has %s", e.sk(g, "SenderSigningKey", "Private").str(4))
			}
		}
	}
	// saved keys
	keys := e.sk(S, "SenderMessageKeys")
	kt := e.typ("@/generated/v1.SenderKeyStateStructure_SenderMessageKey")
	mseed, _, _ := k.acc(st, mt, mk, "Seed")
	miter, _, _ := k.acc(st, mt, mk, "Iteration")
	entry := mkList(app("box", structWith(kt, map[string]*T{"Iteration": miter, "Seed": mseed})))
	list := types.NewSlice(ptrTo(kt))
	st.assume(mkLe(mkLen(keys), mkInt(maxKeys)), true)
	k.sets(st, t, self, "AddMessageKey", []*T{mk}, inner, []string{"SenderMessageKeys"})
	for _, r := range e.exec(st, e.methodOf(t, "AddMessageKey"), self, mk) {
		c := r.cse()
		want := mkCat(keys, entry)
		if full, known := r.st.eval(mkLe(mkInt(2000), mkLen(keys))); known && full {
			want = mkCat(mkSubseq(keys, mkInt(1), mkLen(keys)), entry)
		}
		A, _ := inner(r.st)
		got := e.sk(A, "SenderMessageKeys")
		k.ob(c.sameVal(got, want, list), "a saved key is added behind the others", c, "the keys are %s", got.str(7))
		n := 0
		for _, g := range e.exec(r.st, e.methodOf(t, "RemoveMessageKeys"), self, miter) {
			if !g.ok() {
				continue
			}
			n++
			c := g.cse()
			k.ob(c.same(g.vals[1], tTrue), "a saved key is found", c, "it is not")
		}
		if n == 0 {
			k.undec = append(k.undec, "RemoveMessageKeys never succeeds")
		}
	}
	for _, r := range e.exec(st, e.methodOf(t, "RemoveMessageKeys"), self, miter) {
		c := r.cse()
		if !r.ok() || r.vals[1] == tFalse {
			k.unchanged(r, inner, st, "RemoveMessageKeys")
			continue
		}
		k.counts["removed keys"]++
		x, _, _ := k.acc(r.st, mt, r.raw[0], "Iteration")
		k.ob(x != nil && c.same(x, miter), "the key removed is the one asked for", c, "it is number %s", str(x, 5))
		s, _, _ := k.acc(r.st, mt, r.raw[0], "Seed")
		A, _ := inner(r.st)
		got := e.sk(A, "SenderMessageKeys")
		var at *T
		if s != nil {
			anySub(s, func(x *T) bool {
				if x.op == "idx" && x.args[0] == keys && !hasBN(x) {
					at = x.args[1]
				}
				return false
			})
		}
		if at == nil {
			k.undec = append(k.undec, "the removed key is not recognised: "+str(s, 6))
			continue
		}
		el, _ := walk(mkIdxT(keys, at, ptrTo(kt)), ptrTo(kt), "Seed")
		k.ob(c.same(s, el), "the key removed has the seed saved", c, "it is %s", s.str(6))
		want := mkCat(mkSubseq(keys, mkInt(0), at), mkSubseq(keys, mkAdd(at, mkInt(1)), mkLen(keys)))
		k.ob(c.sameVal(got, want, list), "removing a key keeps the others", c, "the keys are %s", got.str(7))
		for _, n := range []string{"SenderChainKey", "SenderSigningKey", "ChainId", "MessageVersion"} {
			ft := fieldType(e.skT(), n)
			k.ob(c.sameVal(mkFld(A, n, ft), mkFld(S, n, ft), ft), "removing a key leaves everything else", c, "%s is changed", n)
		}
	}
	q := st.clone()
	q.assume(mkEq0(e.sk(S, "MessageVersion")), false)
	q.assume(apply("pkok", e.sk(S, "SenderSigningKey", "Public")), true)
	q.assume(apply("skok", e.sk(S, "SenderSigningKey", "Private")), true)
	q.assume(mkEq(tNil, e.sk(S, "SenderChainKey")), false)
	q.assume(mkEq(tNil, e.sk(S, "SenderSigningKey")), false)
	for _, g := range []getter{{"Version", nil, []*T{e.sk(S, "MessageVersion")}}, {"ChainID", nil, []*T{e.sk(S, "ChainId")}}, {"PublicSigningKey", nil, []*T{mkPk(e.sk(S, "SenderSigningKey", "Public"))}},
		{"PrivateSigningKey", nil, []*T{apply("sk", e.sk(S, "SenderSigningKey", "Private"))}},
		{"SenderChainKey", nil, []*T{structWith(ct, map[string]*T{fieldBy(ct, isBytes): e.sk(S, "SenderChainKey", "Seed"), fieldBy(ct, isIntType): e.sk(S, "SenderChainKey", "Iteration")})}}} {
		k.gets(q, t, self, "what is read is what is stored", g)
		for _, r := range e.exec(st, e.methodOf(t, g.name), self) {
			k.counts["reads"]++
			k.unchanged(r, inner, st, g.name)
		}
	}
	for _, r := range e.exec(st, e.methodOf(t, "Clone"), self) {
		c := r.cse()
		k.ob(c.copyOf(r.vals[0], e.reify(st, self, t), t, 0), "a copy has all values", c, "it is %s", r.vals[0].str(8))
	}
	_, _ = seed, it
	// records
	rt := ptrTo(e.grecT())
	rec := k.val(st, "grecord", rt)
	for _, r := range e.exec(st, e.methodOf(rt, "Clone"), rec) {
		c := r.cse()
		k.ob(c.copyOf(r.vals[0], e.reify(st, rec, rt), rt, 0), "a copy has all values", c, "it is %s", r.vals[0].str(8))
	}
	states := e.grecStates(rec)
	id := withVT(mkSym("chainid"), types.Typ[types.Uint32])
	for _, r := range e.exec(st, e.methodOf(rt, "StateForChainID"), rec, id) {
		c := r.cse()
		k.counts["reads"]++
		if r.raw[0] == tNil {
			k.ob(c.refutes(states, t, func(x *T) []*T { return []*T{mkEq0(mkSub(e.sk(e.gstate(x), "ChainId"), id))} }), "a state is found by its chain ID", c, "none is found although one may have it")
			continue
		}
		k.ob(c.same(e.sk(e.gstate(r.vals[0]), "ChainId"), id), "a state is found by its chain ID", c, "the one found has %s", e.sk(e.gstate(r.vals[0]), "ChainId").str(5))
	}
	k.floor("removed keys", 1)
}

func (k *Chk) keyValues() {
	e := k.e
	st := e.base.clone()
	kp := k.val(st, "kp", ptrTo(e.typ("@/curve.KeyPair")))
	kpt := ptrTo(e.typ("@/curve.KeyPair"))
	kpub, _, _ := k.acc(st, kpt, kp, "PublicKey")
	kpriv, _, _ := k.acc(st, kpt, kp, "PrivateKey")
	u := func(n string, t types.Type) *T { return withVT(mkSym(n), t) }
	id := u("id", e.typ("@/prekey.ID"))
	sig := e.bytesSym("signature")
	ts := u("time", types.Typ[types.Uint64])
	// a constructor's values come out of its accessors
	made := func(ctor string, args []*T, gs ...getter) {
		f := e.fn(ctor)
		n := 0
		for _, r := range e.exec(st, f, args...) {
			rs := f.Signature.Results()
			if isErrorType(rs.At(rs.Len()-1).Type()) && !r.ok() {
				k.ob(!r.st.possible(), "a valid value is accepted", r.cse(), "%s fails", ctor)
				continue
			}
			n++
			k.counts["setters"]++
			for _, g := range gs {
				k.gets(r.st, rs.At(0).Type(), r.raw[0], "a value has what it was built from", g)
			}
		}
		if n == 0 {
			k.undec = append(k.undec, ctor+" never succeeds")
		}
	}
	pair := app("box", structWith(e.typ("@/curve.KeyPair"), map[string]*T{fieldBy(kpt, isNamed("curve", "PrivateKey")): kpriv, fieldBy(kpt, isNamed("curve", "PublicKey")): kpub}))
	made("@/prekey.NewPreKey", []*T{id, kp}, getter{"KeyPair", nil, []*T{pair}})
	made("@/prekey.NewSigned", []*T{id, ts, kp, sig}, getter{"KeyPair", nil, []*T{pair}})
	for _, x := range []struct {
		ctor, msg string
		args      []*T
		want      map[string]*T
	}{
		{"@/prekey.NewPreKey", "PreKeyRecordStructure", []*T{id, kp}, map[string]*T{"Id": id, "PublicKey": apply("pkbytes", kpub), "PrivateKey": apply("skbytes", kpriv)}},
		{"@/prekey.NewSigned", "SignedPreKeyRecordStructure", []*T{id, ts, kp, sig}, map[string]*T{"Id": id, "PublicKey": apply("pkbytes", kpub), "PrivateKey": apply("skbytes", kpriv), "Signature": sig, "Timestamp": ts}},
	} {
		f := e.fn(x.ctor)
		for _, r := range e.exec(st, f, x.args...) {
			rt := f.Signature.Results().At(0).Type()
			v, _ := walk(r.vals[0], rt, fieldBy(rt, isPtrTo(x.msg)))
			mt := e.typ("@/generated/v1." + x.msg)
			for n, w := range x.want {
				k.counts["other fields"]++
				got, _ := walk(v, ptrTo(mt), n)
				k.ob(r.cse().same(got, w), "a stored pre-key has what it was built from", r.cse(), "%s.%s is %s instead of %s", x.msg, n, got.str(5), w.str(5))
			}
		}
	}
	b := func(n string, size int64) *T {
		v := e.bytesSym(n)
		st.assume(mkEq0(mkSub(mkLen(v), mkInt(size))), true)
		return v
	}
	cipher, mac, iv, key := b("cipher", 32), b("mac", 32), b("iv16", 16), b("key32", 32)
	n := u("index", types.Typ[types.Uint32])
	made("@/ratchet.NewMessageKeys", []*T{cipher, mac, iv, n}, getter{"CipherKey", nil, []*T{cipher}}, getter{"MACKey", nil, []*T{mac}}, getter{"IV", nil, []*T{iv}}, getter{"Counter", nil, []*T{n}})
	made("@/ratchet.NewChainKey", []*T{key, n}, getter{"Key", nil, []*T{key}}, getter{"Index", nil, []*T{n}})
	made("@/ratchet.NewRootKey", []*T{key}, getter{"Bytes", nil, []*T{key}})
	made("@/senderkey.NewChainKey", []*T{key, n}, getter{"Seed", nil, []*T{key}}, getter{"Iteration", nil, []*T{n}})
	made("@/senderkey.DeriveMessageKey", []*T{key, n}, getter{"Seed", nil, []*T{key}}, getter{"Iteration", nil, []*T{n}})
	ik := k.val(st, "ident", e.typ("@/identity.Key"))
	ipub, _, _ := k.acc(st, ik.vt, ik, "PublicKey")
	made("@/identity.NewKeyPair", []*T{kpriv, ik}, getter{"PrivateKey", nil, []*T{kpriv}}, getter{"IdentityKey", nil, []*T{ik}}, getter{"PublicKey", nil, []*T{ipub}})
	made("@/curve.NewKeyPair", []*T{apply("skbytes", kpriv), apply("pkbytes", kpub)}, getter{"PrivateKey", nil, []*T{kpriv}}, getter{"PublicKey", nil, []*T{kpub}})
}
