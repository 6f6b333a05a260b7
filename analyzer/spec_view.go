package main

// What a decryption did: which session, which chain, which keys, derived from the terms of the outcome.

import (
	"go/types"
)

// inner is the received one-to-one message inside the received bytes of the scenario.
func (c *Case) inner() *T {
	w := c.sc.args["wire"]
	if c.sc.name == "DECP" || c.sc.name == "PPK" {
		return c.e.pf(c.outer(), "PreKeySignalMessage", "Message")
	}
	return w
}

// outer is the parsed pre-key message.
func (c *Case) outer() *T {
	w := c.sc.args["wire"]
	return c.e.unmVal("PreKeySignalMessage", subB(w, mkInt(1), mkLen(w)))
}

func (c *Case) msgParts() (w, body, tag, msg *T) {
	w = c.inner()
	n := mkLen(w)
	cut := mkSub(n, mkInt(8))
	return w, subB(w, mkInt(0), cut), subB(w, cut, n), c.e.unmVal("SignalMessage", subB(w, mkInt(1), cut))
}

// loaded is the session record loaded by the operation, or nil.
func (c *Case) loaded(kind string) *T {
	for _, ev := range c.okEv(kind) {
		if len(ev.Res) == 2 && ev.Res[0] == tTrue {
			return ev.Res[1]
		}
	}
	return nil
}

// DecView is one way to explain a plaintext.
type DecView struct {
	c    *Case
	S    *T     // the session state used (a SessionStructure value), before the operation
	kind string // current, archived, new
	i    *T     // number of the archived session
	how  string // ahead, late, ratchet
	ch   *T     // the receiving chain (pointer), for ahead and late
	j    *T     // its number
	l    *T     // number of the saved key, for late
	R    *T     // the message's ratchet key
	n    *T     // the message's counter
	ck0  *T     // chain key and index before the message
	ix0  *T
	ck   *T // chain key of the message
	key  *T // cipher key, mac key, iv
	mac  *T
	iv   *T
	root *T // for ratchet: the output of the receiving root step
}

func recChain(n, key *T) *T {
	N, lv := raw("N", "spec", nil), raw("lv", "spec", nil)
	return mkRec(n, key, hmacT(lv, mkStr("\x02")), N, lv)
}

// msgKeys are cipher key, MAC key and IV of a chain key.
func msgKeys(ck *T) (k, m, iv *T) {
	s := hkdf(hmacT(ck, mkStr("\x01")), tEmpty, "WhisperMessageKeys")
	return subB(s, mkInt(0), mkInt(32)), subB(s, mkInt(32), mkInt(64)), subB(s, mkInt(64), mkInt(80))
}

// sessions are the session states an outcome could have used.
func (c *Case) sessions() []*DecView {
	var out []*DecView
	e := c.e
	if rec := c.loaded("session.Store.Load"); rec != nil {
		cur := e.recCur(rec)
		if v, k := c.st.eval(mkEq(tNil, cur)); !k || !v {
			out = append(out, &DecView{c: c, S: e.stateSess(cur), kind: "current"})
		}
		prev := e.recPrev(rec)
		seen := map[*T]bool{}
		ty := tyTerm(e.sessT())
		look := func(t *T) {
			anySub(t, func(x *T) bool {
				if x.op == "unm" && x.args[0] == ty && !hasBN(x) && !seen[x] {
					seen[x] = true
					b := x.args[1]
					if b.op == "idx" && b.args[0] == prev {
						out = append(out, &DecView{c: c, S: x, kind: "archived", i: b.args[1]})
					}
				}
				return false
			})
		}
		if len(c.vals) > 0 {
			look(c.vals[0])
		}
		for f := range c.st.facts {
			if f.op == "eq" {
				look(f)
			}
		}
	}
	if s := c.newBob(); s != nil {
		out = append(out, &DecView{c: c, S: s, kind: "new"})
	}
	return out
}

func structWith(t types.Type, set map[string]*T) *T {
	s := t.Underlying().(*types.Struct)
	var args []*T
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if v, ok := set[f.Name()]; ok {
			args = append(args, v)
		} else if isProtoInternal(f.Name()) {
			args = append(args, tUnit)
		} else {
			args = append(args, zeroOf(f.Type()))
		}
	}
	return mkStruct(t, args)
}

// newBob is the session the responder builds for the received pre-key message, by the protocol.
func (c *Case) newBob() *T {
	e := c.e
	if c.sc.name != "DECP" && c.sc.name != "PPK" {
		return nil
	}
	sp := c.loaded("prekey.SignedStore.Load")
	if sp == nil {
		return nil
	}
	spT := types.NewPointer(e.typ("@/prekey.SignedPreKey"))
	spRec, _ := walk(sp, spT, fieldBy(spT, isPtrTo("SignedPreKeyRecordStructure")))
	rt := types.NewPointer(e.typ("@/generated/v1.SignedPreKeyRecordStructure"))
	spPriv, _ := walk(spRec, rt, "PrivateKey")
	spPub, _ := walk(spRec, rt, "PublicKey")
	var otPriv *T
	if ot := c.loaded("prekey.Store.Load"); ot != nil {
		otT := types.NewPointer(e.typ("@/prekey.PreKey"))
		otRec, _ := walk(ot, otT, fieldBy(otT, isPtrTo("PreKeyRecordStructure")))
		otPriv, _ = walk(otRec, types.NewPointer(e.typ("@/generated/v1.PreKeyRecordStructure")), "PrivateKey")
	}
	idPriv, idPub := e.ownIdentity(c.sc.args["self"])
	m := c.outer()
	base := mkPk(e.pf(m, "PreKeySignalMessage", "BaseKey"))
	their := mkPk(e.pf(m, "PreKeySignalMessage", "IdentityKey"))
	sps := apply("sk", spPriv)
	secrets := []*T{mkStr(ff32), mkDh("dh", mkPub(sps), their), mkDh("dh", mkPub(idPriv), base), mkDh("dh", mkPub(sps), base)}
	if otPriv != nil {
		secrets = append(secrets, mkDh("dh", mkPub(apply("sk", otPriv)), base))
	}
	root, ck := x3dh(secrets)
	return structWith(e.sessT(), map[string]*T{
		"SessionVersion":       mkInt(3),
		"LocalIdentityPublic":  apply("pkbytes", idPub),
		"RemoteIdentityPublic": apply("pkbytes", their),
		"RootKey":              root,
		"SenderChain":          e.mkChain(apply("pkbytes", mkPk(spPub)), apply("skbytes", sps), ck, mkInt(0)),
		"LocalRegistrationId":  e.ownRegID(c.sc.args["self"]),
		"RemoteRegistrationId": e.pf(m, "PreKeySignalMessage", "RegistrationId"),
		"AliceBaseKey":         apply("pkbytes", base),
		"ReceiverChains":       tEmpty,
	})
}

const ff32 = "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff"

func x3dh(secrets []*T) (root, ck *T) {
	s := hkdf(mkCat(secrets...), tEmpty, "WhisperText")
	return subB(s, mkInt(0), mkInt(32)), subB(s, mkInt(32), mkInt(64))
}

// rootStep is a Diffie-Hellman ratchet step.
func rootStep(root, priv, pub *T) (*T, *T) {
	s := hkdf(mkDh("dh", mkPub(priv), pub), root, "WhisperRatchet")
	return subB(s, mkInt(0), mkInt(32)), subB(s, mkInt(32), mkInt(64))
}

// mkChain is a pointer to a chain.
func (e *Engine) mkChain(pub, priv, key, index *T) *T {
	ckT := e.typ("@/generated/v1.SessionStructure_Chain_ChainKey")
	set := map[string]*T{
		"SenderRatchetKey": pub,
		"ChainKey":         app("box", structWith(ckT, map[string]*T{"Index": index, "Key": key})),
		"MessageKeys":      tEmpty,
	}
	set["SenderRatchetKeyPrivate"] = tEmpty
	if priv != nil {
		set["SenderRatchetKeyPrivate"] = priv
	}
	return app("box", structWith(e.chainT(), set))
}

// ownIdentity is the private and public identity key of the local user of a session.
func (e *Engine) ownIdentity(self *T) (priv, pub *T) {
	sT := types.NewPointer(e.typ("@/session.Session"))
	f := fieldBy(sT, isNamed("identity", "Store"))
	is, _ := walk(self, sT, f)
	kt := e.typ("@/identity.KeyPair")
	kp := withVT(app("storeval", mkStr("KeyPair"), is), kt)
	priv, _ = walk(kp, kt, fieldBy(kt, isNamed("curve", "PrivateKey")))
	pub, _ = walk(kp, kt, fieldBy(kt, isNamed("identity", "Key")))
	ik := e.typ("@/identity.Key")
	pub, _ = walk(pub, ik, fieldBy(ik, isNamed("curve", "PublicKey")))
	return
}

func (e *Engine) ownRegID(self *T) *T {
	sT := types.NewPointer(e.typ("@/session.Session"))
	is, _ := walk(self, sT, fieldBy(sT, isNamed("identity", "Store")))
	return withVT(app("storeval", mkStr("LocalRegistrationID"), is), types.Typ[types.Uint32])
}

// idKey is the public key inside an identity.Key value.
func (e *Engine) idKey(k *T) *T {
	ik := e.typ("@/identity.Key")
	v, _ := walk(k, ik, fieldBy(ik, isNamed("curve", "PublicKey")))
	return v
}

func isNamed(pkg, name string) func(types.Type) bool {
	return func(t types.Type) bool {
		n, ok := t.(*types.Named)
		return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Name() == pkg
	}
}

// idxOf are the index terms i for which idx(seq, i) occurs in t.
func idxOf(t, seq *T) []*T {
	var out []*T
	for _, x := range t.idxSubs() {
		if x.args[0] == seq && !hasBN(x) {
			out = append(out, x.args[1])
		}
	}
	return out
}

// views explain the plaintext of a successful decryption.
func (c *Case) views() []*DecView {
	e := c.e
	p := c.vals[0]
	if p.op != "cbcdec" {
		return nil
	}
	_, _, _, msg := c.msgParts()
	R := mkPk(e.pf(msg, "SignalMessage", "RatchetKey"))
	n := e.pf(msg, "SignalMessage", "Counter")
	var out []*DecView
	for _, s := range c.sessions() {
		s.R, s.n = R, n
		chains := e.ss(s.S, "ReceiverChains")
		for _, j := range idxOf(p, chains) {
			v := *s
			v.j = j
			v.ch = mkIdxT(chains, j, types.NewPointer(e.chainT()))
			v.ck0, v.ix0 = e.ch(v.ch, "ChainKey", "Key"), e.ch(v.ch, "ChainKey", "Index")
			late := e.ch(v.ch, "MessageKeys")
			for _, l := range idxOf(p, late) {
				w := v
				w.how, w.l = "late", l
				mk := mkIdxT(late, l, nil)
				mt := types.NewPointer(e.typ("@/generated/v1.SessionStructure_Chain_MessageKey"))
				w.key, _ = walk(mk, mt, "CipherKey")
				w.mac, _ = walk(mk, mt, "MacKey")
				w.iv, _ = walk(mk, mt, "Iv")
				out = append(out, &w)
			}
			v.how = "ahead"
			v.ck = recChain(mkSub(n, v.ix0), v.ck0)
			v.key, v.mac, v.iv = msgKeys(v.ck)
			out = append(out, &v)
		}
		v := *s
		v.how = "ratchet"
		v.root, v.ck0 = rootStep(e.ss(s.S, "RootKey"), apply("sk", e.ss(s.S, "SenderChain", "SenderRatchetKeyPrivate")), R)
		v.ix0 = mkInt(0)
		v.ck = recChain(n, v.ck0)
		v.key, v.mac, v.iv = msgKeys(v.ck)
		out = append(out, &v)
	}
	var hit []*DecView
	for _, v := range out {
		if c.same(p.args[0], v.key) && c.same(p.args[1], v.iv) {
			hit = append(hit, v)
		}
	}
	return hit
}
