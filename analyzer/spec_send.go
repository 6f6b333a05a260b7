package main

// C18, C19, C36: what two parties have in common.

import (
	"go/token"
	"go/types"
)

func init() {
	specs["C36"] = spec{run: checkC36, rule: "on every successful path of encrypting, the bytes returned are version, the session's own ratchet key and counters and ciphertext, followed by the MAC or signature term over everything before under the session's own keys"}
	specs["C19"] = spec{run: checkC19, rule: "the terms of root, chain and message keys on every successful path are the ones of X3DH, the double ratchet and sender keys"}
	specs["C18"] = spec{run: checkC18, rule: "with the messages and keys of the one substituted for the inputs of the other, the terms of initiator's and responder's stored session are equal"}
}

// keyOf is the public key encoded by bytes, in the way the code's terms have it.
func keyOf(b *T) *T { return mkPk(b) }

// forVersion3 replaces the session's version.
func forVersion3(t, v *T) *T {
	return substFn(t, func(x *T) *T {
		if x == v {
			return mkInt(3)
		}
		return nil
	})
}

func (c *Case) isVersion3(w, v *T) bool {
	if w = forVersion3(w, v); w == mkList(mkInt(0x33)) {
		return true
	}
	return c.same(forVersion3(w, v), mkStr("\x33"))
}

func checkC36(k *Chk) {
	e := k.e
	for _, c := range k.cases("ENC") {
		if !c.ok() {
			continue
		}
		S := c.encS()
		if S == nil {
			continue
		}
		q := c.st.clone()
		if !q.assume(mkEq0(mkSub(e.ss(S, "SessionVersion"), mkInt(3))), true) || !q.possible() {
			k.counts["messages of other versions"]++
			continue
		}
		k.counts["sent messages"]++
		sig, pre := c.sent()
		w := c.bytesOf("Signal", sig)
		ver, m, rest := e.wireParts(w, "SignalMessage")
		if m == nil {
			k.undec = append(k.undec, "wire form of the sent message not recognised")
			continue
		}
		V := e.ss(S, "SessionVersion")
		k.ob(c.isVersion3(ver, V), "the message begins with the version", c, "it begins with %s", forVersion3(ver, V).str(6))
		f := func(n string) *T { return e.pf(m, "SignalMessage", n) }
		k.ob(c.sameKeyBytes(f("RatchetKey"), e.ss(S, "SenderChain", "SenderRatchetKey")), "the message carries the session's own ratchet key", c, "it carries %s", f("RatchetKey").str(6))
		k.ob(c.same(f("PreviousCounter"), e.ss(S, "PreviousCounter")), "the message carries the previous chain's counter", c, "it carries %s", f("PreviousCounter").str(6))
		k.ob(c.same(f("Counter"), e.ss(S, "SenderChain", "ChainKey", "Index")), "the message carries the chain's index", c, "it carries %s", f("Counter").str(6))
		key, mac, iv := msgKeys(e.ss(S, "SenderChain", "ChainKey", "Key"))
		k.ob(c.same(f("Ciphertext"), apply("cbcenc", key, iv, c.sc.args["p1"])), "the message carries the plaintext under the chain's cipher key and IV", c, "it carries %s", f("Ciphertext").str(8))
		body := mkSubseq(w, mkInt(0), mkSub(mkLen(w), mkLen(rest)))
		want := subB(hmacT(mac, mkCat(apply("pkbytes", keyOf(e.ss(S, "LocalIdentityPublic"))), apply("pkbytes", keyOf(e.ss(S, "RemoteIdentityPublic"))), body)), mkInt(0), mkInt(8))
		k.ob(c.same(rest, want), "the message ends with the MAC over sender, receiver and everything before it", c, "it ends with %s", rest.str(8))
		if pre == nil {
			continue
		}
		k.counts["sent pre-key messages"]++
		pver, pm, _ := e.wireParts(c.bytesOf("PreKey", pre), "PreKeySignalMessage")
		if pm == nil {
			k.undec = append(k.undec, "wire form of the pre-key message not recognised")
			continue
		}
		k.ob(c.isVersion3(pver, V), "the pre-key message begins with the version", c, "it begins with %s", pver.str(6))
		k.ob(c.same(e.pf(pm, "PreKeySignalMessage", "Message"), w), "the pre-key message carries the whole message", c, "it carries %s", e.pf(pm, "PreKeySignalMessage", "Message").str(6))
	}
	k.floor("sent messages", 2)
	k.floor("sent pre-key messages", 1)
	for _, c := range k.cases("GENC") {
		if !c.ok() || c.grec() == nil {
			continue
		}
		k.counts["sent group messages"]++
		w := c.bytesOf("SenderKey", c.vals[0])
		ver, m, rest := e.wireParts(w, "SenderKeyMessage")
		if m == nil {
			k.undec = append(k.undec, "wire form of the sent group message not recognised")
			continue
		}
		f := func(n string) *T { return e.pf(m, "SenderKeyMessage", n) }
		states := e.grecStates(c.grec())
		is := idxOf(f("Ciphertext"), states)
		if !k.ob(len(is) > 0, "the message is encrypted under a stored chain", c, "the ciphertext is %s", f("Ciphertext").str(6)) {
			continue
		}
		S := e.gstate(mkIdxT(states, is[0], e.gstateT()))
		k.ob(c.isVersion3(ver, e.sk(S, "MessageVersion")), "the group message begins with the version", c, "it begins with %s", ver.str(6))
		key, iv := groupKeys(e.sk(S, "SenderChainKey", "Seed"))
		k.ob(c.same(f("Ciphertext"), apply("cbcenc", key, iv, c.sc.args["p2"])), "the message carries the plaintext under the chain's cipher key and IV", c, "it carries %s", f("Ciphertext").str(8))
		k.ob(c.same(f("ChainId"), e.sk(S, "ChainId")), "the message names the chain used", c, "it names %s", f("ChainId").str(6))
		k.ob(c.same(f("Iteration"), e.sk(S, "SenderChainKey", "Iteration")), "the message carries the chain's iteration", c, "it carries %s", f("Iteration").str(6))
		k.ob(c.same(apply("uuid", f("DistributionUuid")), e.uuidOf(c.own("distribution", "ID"))), "the message names the session's distribution", c, "it names %s", f("DistributionUuid").str(6))
		body := mkSubseq(w, mkInt(0), mkSub(mkLen(w), mkLen(rest)))
		ok := rest.op == "sign" && c.same(rest.args[0], apply("sk", e.sk(S, "SenderSigningKey", "Private"))) && c.same(rest.args[2], body)
		k.ob(ok, "the group message ends with the chain's own signature over everything before it", c, "it ends with %s", rest.str(8))
	}
	k.floor("sent group messages", 1)
	for _, c := range k.cases("GNEW") {
		if !c.ok() {
			continue
		}
		k.counts["distributions"]++
		w := c.bytesOf("SenderKeyDistribution", c.vals[0])
		ver, m, rest := e.wireParts(w, "SenderKeyDistributionMessage")
		if m == nil {
			k.undec = append(k.undec, "wire form of the distribution not recognised")
			continue
		}
		f := func(n string) *T { return e.pf(m, "SenderKeyDistributionMessage", n) }
		k.ob(rest == tEmpty, "a distribution ends with its fields", c, "it ends with %s", rest.str(6))
		k.ob(c.same(apply("uuid", f("DistributionUuid")), e.uuidOf(c.own("distribution", "ID"))), "the distribution names the session's distribution", c, "it names %s", f("DistributionUuid").str(6))
		var S *T
		if ev, rec := c.lastStore(); ev != nil {
			S = e.gstate(mkIdxT(e.grecStates(rec), mkInt(0), e.gstateT()))
		} else if rec := c.grec(); rec != nil {
			states := e.grecStates(rec)
			for _, i := range idxOf(f("ChainKey"), states) {
				S = e.gstate(mkIdxT(states, i, e.gstateT()))
			}
		}
		if !k.ob(S != nil, "the distribution describes a stored sender key", c, "the chain key handed out is %s", f("ChainKey").str(6)) {
			continue
		}
		k.ob(c.isVersion3(ver, e.sk(S, "MessageVersion")), "the distribution begins with the version", c, "it begins with %s", ver.str(6))
		for _, x := range []struct{ a, b *T }{
			{f("ChainId"), e.sk(S, "ChainId")}, {f("Iteration"), e.sk(S, "SenderChainKey", "Iteration")}, {f("ChainKey"), e.sk(S, "SenderChainKey", "Seed")},
		} {
			k.ob(c.same(x.a, x.b), "the distribution describes the stored sender key", c, "it says %s instead of %s", x.a.str(6), x.b.str(6))
		}
		k.ob(c.sameKeyBytes(f("SigningKey"), e.sk(S, "SenderSigningKey", "Public")), "the distribution describes the stored sender key", c, "the signing key is %s", f("SigningKey").str(6))
	}
	k.floor("distributions", 2)
}

// uuidOf is the identifier inside a distribution.ID value.
func (e *Engine) uuidOf(d *T) *T {
	t := e.typ("@/distribution.ID")
	s := t.Underlying().(*types.Struct)
	return mkFld(d, s.Field(0).Name(), s.Field(0).Type())
}

// recAfter is the record passed to ProcessPreKey, after it.
func (c *Case) recAfter() *T {
	return resolveSels(c.st, c.e.reify(c.st, c.sc.args["p1"], c.e.recPtrT(false)))
}

func checkC19(k *Chk) {
	e := k.e
	sess := func(c *Case, NS *T, want map[string]*T, what string) {
		for _, f := range []string{"RootKey", "SenderChain", "ReceiverChains"} {
			if w, ok := want[f]; ok {
				k.ob(c.sameVal(e.ss(NS, f), w, fieldType(e.sessT(), f)), what, c, "%s is %s", f, e.ss(NS, f).str(9))
			}
		}
	}
	for _, c := range k.cases("PPB") {
		if _, rec := c.lastStore(); c.ok() && rec != nil {
			NS := e.stateSess(e.recCur(rec))
			want, _, _ := c.newAlice(NS)
			if !k.ob(want != nil, "the initiator's keys are those of X3DH and a ratchet step", c, "the base key is %s", e.ss(NS, "AliceBaseKey").str(6)) {
				continue
			}
			k.counts["initiated sessions"]++
			sess(c, NS, want, "the initiator's keys are those of X3DH and a ratchet step")
		}
	}
	k.floor("initiated sessions", 2)
	for _, c := range k.cases("PPK") {
		if !c.ok() {
			continue
		}
		want := c.newBob()
		if want == nil {
			continue
		}
		k.counts["accepted sessions"]++
		NS := e.stateSess(e.recCur(c.recAfter()))
		w := map[string]*T{}
		for _, f := range []string{"RootKey", "SenderChain", "ReceiverChains"} {
			w[f] = e.ss(want, f)
		}
		sess(c, NS, w, "the responder's keys are those of X3DH")
	}
	k.floor("accepted sessions", 2)
	for _, sn := range []string{"DECW", "DECP"} {
		for _, c := range k.cases(sn) {
			if c.ok() {
				k.ob(len(c.views()) > 0, "message keys are derived from the chain by HMAC and HKDF, a new chain by a ratchet step", c, "the plaintext is %s", c.vals[0].str(9))
			}
		}
	}
	k.decs(func(d *Dec) {
		if d.ev == nil {
			return
		}
		c := d.c
		ck := e.ch(d.cN, "ChainKey", "Key")
		if d.v.how != "late" {
			k.ob(c.same(ck, hmacT(d.v.ck, mkStr("\x02"))), "the next chain key is derived by HMAC", c, "it is %s", ck.str(9))
		}
		if d.v.how == "ratchet" {
			k.counts["ratchet steps"]++
			p := e.ss(d.NS, "SenderChain", "SenderRatchetKeyPrivate")
			if p.op != "skbytes" {
				k.ob(false, "root key and sending chain are derived by a ratchet step", c, "the new ratchet key is %s", p.str(6))
				return
			}
			root, sck := rootStep(d.v.root, p.args[0], d.v.R)
			k.ob(c.same(e.ss(d.NS, "RootKey"), root) && c.same(e.ss(d.NS, "SenderChain", "ChainKey", "Key"), sck), "root key and sending chain are derived by a ratchet step", c, "the root key is %s", e.ss(d.NS, "RootKey").str(9))
		}
	})
	k.floor("ratchet steps", 2)
	for _, c := range k.cases("ENC") {
		S := c.encS()
		if !c.ok() || S == nil {
			continue
		}
		k.counts["encryptions"]++
		sig, _ := c.sent()
		_, m, rest := e.wireParts(c.bytesOf("Signal", sig), "SignalMessage")
		_, rec := c.lastStore()
		if m == nil || rec == nil {
			k.undec = append(k.undec, "sent message not recognised")
			continue
		}
		ck := e.ss(S, "SenderChain", "ChainKey", "Key")
		key, mac, iv := msgKeys(ck)
		ct := e.pf(m, "SignalMessage", "Ciphertext")
		k.ob(c.same(ct, apply("cbcenc", key, iv, c.sc.args["p1"])), "cipher key and IV are derived from the chain by HMAC and HKDF", c, "the ciphertext is %s", ct.str(9))
		k.ob(rest.op == "sub" && rest.args[0].op == "hmac256" && c.same(rest.args[0].args[0], mac), "the MAC key is derived from the chain by HMAC and HKDF", c, "the tag is %s", rest.str(9))
		next := e.ss(e.stateSess(e.recCur(rec)), "SenderChain", "ChainKey", "Key")
		k.ob(c.same(next, hmacT(ck, mkStr("\x02"))), "the next chain key is derived by HMAC", c, "it is %s", next.str(9))
	}
	k.floor("encryptions", 2)
	for _, c := range k.cases("GENC") {
		rec := c.grec()
		_, nrec := c.lastStore()
		if !c.ok() || rec == nil || nrec == nil {
			continue
		}
		_, m, _ := e.wireParts(c.bytesOf("SenderKey", c.vals[0]), "SenderKeyMessage")
		if m == nil {
			k.undec = append(k.undec, "sent group message not recognised")
			continue
		}
		k.counts["group encryptions"]++
		ct := e.pf(m, "SenderKeyMessage", "Ciphertext")
		states := e.grecStates(rec)
		hit, nextOK := false, false
		for _, i := range idxOf(ct, states) {
			seed := e.sk(e.gstate(mkIdxT(states, i, e.gstateT())), "SenderChainKey", "Seed")
			key, iv := groupKeys(seed)
			if c.same(ct, apply("cbcenc", key, iv, c.sc.args["p2"])) {
				hit = true
				nextOK = c.same(e.sk(e.gstate(mkIdxT(e.grecStates(nrec), i, e.gstateT())), "SenderChainKey", "Seed"), hmacT(seed, mkStr("\x02")))
			}
		}
		k.ob(hit, "group message keys are derived from the chain by HMAC and HKDF", c, "the ciphertext is %s", ct.str(9))
		if hit {
			k.ob(nextOK, "the next group chain key is derived by HMAC", c, "the next chain key is not the HMAC of the chain key")
		}
	}
	k.floor("group encryptions", 1)
	for _, c := range k.cases("GDEC") {
		if c.ok() {
			k.counts["group decryptions"]++
			k.ob(len(c.gviews()) > 0, "group message keys are derived from the chain by HMAC and HKDF", c, "the plaintext is %s", c.vals[0].str(9))
		}
	}
	k.gdecs(func(c *Case, v *GView, rec, NS *T) {
		if v.how != "late" {
			seed := e.sk(NS, "SenderChainKey", "Seed")
			k.ob(c.same(seed, hmacT(recChain(mkSub(v.n, v.it0), v.s0), mkStr("\x02"))), "the next group chain key is derived by HMAC", c, "the next chain key is %s", seed.str(9))
		}
	})
}

// ---------------------------------------------------------------- C18

func checkC18(k *Chk) {
	e := k.e
	type bob struct {
		c  *Case
		NS *T
		ot bool
	}
	var bobs []bob
	for _, c := range k.cases("PPK") {
		if !c.ok() || c.loaded("prekey.SignedStore.Load") == nil {
			continue
		}
		bobs = append(bobs, bob{c, e.stateSess(e.recCur(c.recAfter())), c.loaded("prekey.Store.Load") != nil})
	}
	sym := func(n string) *T { return withVT(mkSym(n), nil) }
	idA, idB, spB, otB := sym("$identity of A"), sym("$identity of B"), sym("$signed pre-key of B"), sym("$one-time pre-key of B")
	for _, a := range k.cases("PPB") {
		_, rec := a.lastStore()
		if !a.ok() || rec == nil {
			continue
		}
		S := e.stateSess(e.recCur(rec))
		abk, rp := e.ss(S, "AliceBaseKey"), e.ss(S, "SenderChain", "SenderRatchetKeyPrivate")
		rc := e.ss(S, "ReceiverChains")
		if !k.ob(abk.op == "pkbytes" && abk.args[0].op == "pub" && rp.op == "skbytes" && a.same(mkLen(rc), mkInt(1)), "the initiator has a base key, a ratchet key and one receiving chain", a, "the receiving chains are %s", rc.str(6)) {
			continue
		}
		base, ratchet := abk.args[0].args[0], rp.args[0]
		b := a.sc.args["p2"]
		ownPriv, ownPub := e.ownIdentity(a.sc.args["self"])
		ot := e.bundle(b, "PreKeyPublic")
		// The bundle names a one-time pre-key iff it has one: either of the two decides, and if the operation has asked for
		// neither, it treats both kinds of bundle alike.
		kind := a.nilness(ot)
		if kind < 0 {
			kind = a.nilness(e.bundle(b, "PreKeyID"))
		}
		ma := map[*T]*T{
			ownPriv: idA, ownPub: mkPub(idA),
			e.idKey(e.bundle(b, "IdentityKey")): mkPub(idB), e.bundle(b, "SignedPreKeyPublic"): mkPub(spB), ot: mkPub(otB),
		}
		fa := func(t *T) *T { return subst(t, ma) }
		k.counts["initiated sessions"]++
		for _, o := range bobs {
			if kind >= 0 && o.ot != (kind == 0) {
				continue
			}
			k.counts["pairs of sessions"]++
			c := o.c
			m := c.outer()
			spT := types.NewPointer(e.typ("@/prekey.SignedPreKey"))
			spRec, _ := walk(c.loaded("prekey.SignedStore.Load"), spT, fieldBy(spT, isPtrTo("SignedPreKeyRecordStructure")))
			rt := types.NewPointer(e.typ("@/generated/v1.SignedPreKeyRecordStructure"))
			spPriv, _ := walk(spRec, rt, "PrivateKey")
			spPub, _ := walk(spRec, rt, "PublicKey")
			bPriv, bPub := e.ownIdentity(c.sc.args["self"])
			mb := map[*T]*T{
				bPriv: idB, bPub: mkPub(idB),
				mkPk(e.pf(m, "PreKeySignalMessage", "IdentityKey")): mkPub(idA),
				mkPk(e.pf(m, "PreKeySignalMessage", "BaseKey")):     mkPub(fa(base)),
				apply("sk", spPriv):           spB,
				mkPk(spPub):                   mkPub(spB),
				apply("pkbytes", mkPk(spPub)): apply("pkbytes", mkPub(spB)),
				apply("pkbytes", mkPk(e.pf(m, "PreKeySignalMessage", "BaseKey"))):     apply("pkbytes", mkPub(fa(base))),
				apply("pkbytes", mkPk(e.pf(m, "PreKeySignalMessage", "IdentityKey"))): apply("pkbytes", mkPub(idA)),
				apply("skbytes", apply("sk", spPriv)):                                 apply("skbytes", spB),
			}
			if o.ot {
				otT := types.NewPointer(e.typ("@/prekey.PreKey"))
				otRec, _ := walk(c.loaded("prekey.Store.Load"), otT, fieldBy(otT, isPtrTo("PreKeyRecordStructure")))
				p, _ := walk(otRec, types.NewPointer(e.typ("@/generated/v1.PreKeyRecordStructure")), "PrivateKey")
				mb[apply("sk", p)] = otB
			}
			fb := func(t *T) *T { return subst(t, mb) }
			N := o.NS
			eq := func(x, y *T, what string) {
				k.ob(c.same(x, y), what, a, "the initiator has %s, the responder (returning at %s) has %s", x.str(10), e.where(c.pos), y.str(10))
			}
			ch := mkIdxT(rc, mkInt(0), ptrTo(e.chainT()))
			eq(fa(e.ch(ch, "ChainKey", "Key")), fb(e.ss(N, "SenderChain", "ChainKey", "Key")), "the responder's first sending chain is the initiator's first receiving chain")
			eq(fa(e.ch(ch, "ChainKey", "Index")), fb(e.ss(N, "SenderChain", "ChainKey", "Index")), "the responder's first sending chain is the initiator's first receiving chain")
			eq(fa(e.ch(ch, "SenderRatchetKey")), fb(e.ss(N, "SenderChain", "SenderRatchetKey")), "the initiator's first receiving chain is the one of the responder's ratchet key")
			bp := fb(e.ss(N, "SenderChain", "SenderRatchetKeyPrivate"))
			if !k.ob(bp.op == "skbytes", "the responder's ratchet key is its signed pre-key", c, "it is %s", bp.str(6)) {
				continue
			}
			root, sck := rootStep(fb(e.ss(N, "RootKey")), bp.args[0], mkPub(fa(ratchet)))
			eq(fa(e.ss(S, "RootKey")), root, "both have the same root key after the initiator's first message")
			eq(fa(e.ss(S, "SenderChain", "ChainKey", "Key")), sck, "the initiator's sending chain is the one the responder derives from its first message")
			eq(fa(e.ss(S, "SenderChain", "ChainKey", "Index")), mkInt(0), "the initiator's sending chain starts at zero")
			eq(fa(e.ss(S, "SenderChain", "SenderRatchetKey")), apply("pkbytes", mkPub(fa(ratchet))), "the initiator sends the public key of its ratchet key")
			eq(fa(e.ss(S, "LocalIdentityPublic")), fb(e.ss(N, "RemoteIdentityPublic")), "the responder's remote identity is the initiator's own")
			eq(fa(e.ss(S, "RemoteIdentityPublic")), fb(e.ss(N, "LocalIdentityPublic")), "the initiator's remote identity is the responder's own")
			eq(fa(e.ss(S, "SessionVersion")), fb(e.ss(N, "SessionVersion")), "both have the same version")
			eq(fa(abk), fb(e.ss(N, "AliceBaseKey")), "both have the same base key")
		}
	}
	k.floor("initiated sessions", 2)
	k.floor("pairs of sessions", 2)
}

// ---------------------------------------------------------------- C32

func init() {
	specs["C32"] = spec{run: checkC32, rule: "the facts of every successful parse and decryption fix version, marker and state version; every other message type leads to an error without effects"}
}

func checkC32(k *Chk) {
	e := k.e
	wire := e.symT("wire", bytesT)
	b0 := mkIdxT(wire, mkInt(0), nil)
	run := func(fn string, st *State, args ...*T) []*Case {
		f := e.lookupFn(fn)
		if f == nil {
			panic(undecided{"no function " + fn})
		}
		sc := &Scen{name: fn, fn: fn, e: e, args: map[string]*T{"wire": wire}, res: f.Signature.Results()}
		var cs []*Case
		for i, o := range good(e.call(st, fn, args...)) {
			cs = append(cs, e.splitOutcome(sc, i, o)...)
		}
		return cs
	}
	kinds := []struct {
		fn, typ string
		code    int64
		version bool
	}{
		{"@/message.NewSignalFromBytes", "Signal", 2, true},
		{"@/message.NewPreKeyFromBytes", "PreKey", 3, true},
		{"@/message.NewSenderKeyFromBytes", "SenderKey", 7, true},
		{"@/message.NewPlaintextFromBytes", "Plaintext", 8, false},
		{"@/message.NewSenderKeyDistributionFromBytes", "SenderKeyDistribution", 0, true},
	}
	decode := func(t *T) *T { // the pointer in a parsed message
		if t.op == "iface" {
			return t.args[0]
		}
		return t
	}
	for _, x := range kinds {
		n := 0
		for _, c := range run(x.fn, e.base, wire) {
			if !c.ok() {
				continue
			}
			n++
			k.counts["successful parses"]++
			if !x.version {
				k.ob(c.st.holds(mkEq0(mkSub(b0, mkInt(0xC0)))), "plaintext content begins with its marker", c, "plaintext content is accepted without its first byte having been found to be 0xC0")
			} else {
				k.ob(c.st.holds(mkEq0(mkSub(mkBit(tokenSHR, b0, mkInt(4), 8), mkInt(3)))), "only messages of the supported version are accepted", c, "a message is accepted without its version having been found to be 3")
				for _, o := range c.method("(*@/message."+x.typ+").Version", decode(c.vals[0])) {
					k.ob(o.st.holds(mkEq0(mkSub(o.vals[0], mkInt(3)))), "a parsed message reports its version", c, "Version returns %s", o.vals[0].str(6))
				}
			}
			if x.code != 0 {
				for _, o := range c.method("(*@/message."+x.typ+").Type", decode(c.vals[0])) {
					k.ob(o.vals[0] == mkInt(x.code), "each message reports its own type", c, "Type returns %s", o.vals[0].str(6))
				}
			}
		}
		if n == 0 {
			k.undec = append(k.undec, x.fn+" never succeeds")
		}
	}
	// a message is decrypted only with a state of its version
	k.decs(func(d *Dec) {
		k.ob(d.c.st.holds(mkEq0(mkSub(e.ss(d.v.S, "SessionVersion"), mkInt(3)))), "a message is decrypted only by a session of its version", d.c, "the session's version was not found to be the message's: %s", e.ss(d.v.S, "SessionVersion").str(6))
	})
	k.gdecs(func(c *Case, v *GView, rec, NS *T) {
		mv := e.sk(v.S, "MessageVersion")
		q := c.st.clone() // a state without version is one of version 3
		none := !q.assume(mkNot(mkEq0(mv)), true) || !q.possible()
		k.ob(none || q.holds(mkEq0(mkSub(mv, mkInt(3)))), "a group message is decrypted only by a state of its version", c, "the state's version was not found to be the message's: %s", e.sk(v.S, "MessageVersion").str(6))
	})
	// other messages are not decrypted by a session
	fn := "(*@/session.Session).DecryptMessage"
	for _, x := range []struct{ fn, typ string }{{"@/message.NewSenderKeyFromBytes", "SenderKey"}, {"@/message.NewPlaintextFromBytes", "Plaintext"}} {
		t := ptrTo(e.typ("@/message." + x.typ))
		for _, o := range e.prep(e.base, x.fn, wire) {
			as := e.params(fn)
			as[3] = raw("iface", "", t, decode(o.vals[0]))
			for _, c := range run(fn, o.st, as...) {
				k.counts["messages of other types"]++
				k.ob(!c.ok() && len(c.evs) == 0, "a message of another type is rejected", c, "a session deals with a %s message", x.typ)
			}
		}
	}
	// the type decides on the handling: a pre-key message may set up a session, a plain one never does
	for _, c := range k.cases("DECW") {
		k.ob(len(c.ev("prekey.SignedStore.Load"))+len(c.ev("prekey.Store.Load"))+len(c.ev("prekey.Store.Delete")) == 0, "a plain message never sets up a session", c, "pre-keys are used for a plain message")
	}
	k.floor("successful parses", 5)
	k.floor("messages of other types", 2)
}

const tokenSHR = token.SHR
