package main

// C09 .. C14, C20, C28, C29, C32: what operations store, and where.

import "go/types"

// encS is the session an encryption starts from.
func (c *Case) encS() *T {
	rec := c.loaded("session.Store.Load")
	if rec == nil {
		return nil
	}
	return c.e.stateSess(c.e.recCur(rec))
}

// method runs a method of the module on (reified) values in the state of the case.
func (c *Case) method(fn string, args ...*T) []Outcome {
	var out []Outcome
	for _, o := range c.e.call(c.st, fn, args...) {
		if !o.panic && o.st.consistent() {
			out = append(out, o)
		}
	}
	return out
}

// bytesOf is the wire form of a message (a pointer to it).
func (c *Case) bytesOf(typ string, p *T) *T {
	os := c.method("(*@/message."+typ+").Bytes", p)
	if len(os) == 0 {
		return nil
	}
	return os[0].vals[0]
}

// wireParts splits a built message: version byte, message structure, what follows.
func (e *Engine) wireParts(w *T, msg string) (ver, body, rest *T) {
	if w == nil || w.op != "cat" || len(w.args) < 2 {
		return nil, nil, nil
	}
	t := e.typ("@/generated/v1." + msg)
	for i, p := range w.args {
		if p.op == "mar" && p.args[0] == tyTerm(t) && i > 0 {
			return mkCat(w.args[:i]...), mkDeref(p.args[1], t), mkCat(w.args[i+1:]...)
		}
	}
	return nil, nil, nil
}

// gencS is the sender-key state a group encryption starts from, by what the store loaded.
func (c *Case) grec() *T { return c.loaded("session.GroupStore.Load") }

func (e *Engine) grecStates(rec *T) *T {
	r := ptrTo(e.grecT())
	v, _ := walk(rec, r, fieldBy(r, func(t types.Type) bool {
		_, ok := t.Underlying().(*types.Slice)
		return ok
	}))
	return v
}

// gstate is the structure in a group state (given by its pointer).
func (e *Engine) gstate(p *T) *T {
	st := ptrTo(e.typ("@/session.GroupState"))
	v, t := walk(p, st, fieldBy(st, isPtrTo("SenderKeyStateStructure")))
	return mkDeref(v, t.Underlying().(*types.Pointer).Elem())
}

func (e *Engine) sk(s *T, names ...string) *T {
	v, _ := walk(s, e.skT(), names...)
	return v
}

// lastStore is the last successful storing of a record.
func (c *Case) lastStore() (*Event, *T) {
	kind, at := "session.Store.Store", 2
	if c.sc.group() {
		kind, at = "session.GroupStore.Store", 3
	}
	evs := c.okEv(kind)
	if len(evs) == 0 {
		return nil, nil
	}
	ev := evs[len(evs)-1]
	return ev, ev.Flat[at]
}

// ---------------------------------------------------------------- C09

func groupKeys(seed *T) (key, iv *T) {
	s := hkdf(hmacT(seed, mkStr("\x01")), tEmpty, "WhisperGroup")
	return subB(s, mkInt(16), mkInt(48)), subB(s, mkInt(0), mkInt(16))
}

func checkC09(k *Chk) {
	e := k.e
	for _, c := range k.cases("ENC") {
		if !c.ok() {
			continue
		}
		k.counts["successful encryptions"]++
		S := c.encS()
		if !k.ob(S != nil, "encrypting uses the loaded session", c, "a message is encrypted without a loaded session") {
			continue
		}
		ck, ix := e.ss(S, "SenderChain", "ChainKey", "Key"), e.ss(S, "SenderChain", "ChainKey", "Index")
		ev, rec := c.lastStore()
		if !k.ob(ev != nil, "the session is stored before a ciphertext is returned", c, "a ciphertext is returned without the session having been stored") {
			continue
		}
		NS := e.stateSess(e.recCur(rec))
		k.ob(c.same(e.ss(NS, "SenderChain", "ChainKey", "Key"), hmacT(ck, mkStr("\x02"))), "the stored sending chain is the next one", c,
			"the stored sending chain key is %s", e.ss(NS, "SenderChain", "ChainKey", "Key").str(8))
		k.ob(c.same(e.ss(NS, "SenderChain", "ChainKey", "Index"), mkAdd(ix, mkInt(1))), "the stored sending chain's index is one higher", c,
			"the stored index is %s", e.ss(NS, "SenderChain", "ChainKey", "Index").str(8))
		sig, _ := c.sent()
		_, m, _ := e.wireParts(c.bytesOf("Signal", sig), "SignalMessage")
		if m == nil {
			k.undec = append(k.undec, "wire form of the sent message not recognised")
			continue
		}
		key, _, iv := msgKeys(ck)
		want := apply("cbcenc", key, iv, c.sc.args["p1"])
		k.ob(c.same(e.pf(m, "SignalMessage", "Ciphertext"), want), "the message is encrypted under the key of the loaded sending chain", c,
			"the ciphertext is %s", e.pf(m, "SignalMessage", "Ciphertext").str(8))
		k.ob(c.same(e.pf(m, "SignalMessage", "Counter"), ix), "the counter on the wire is the index of the key", c, "the counter is %s", e.pf(m, "SignalMessage", "Counter").str(8))
	}
	k.floor("successful encryptions", 1)
	for _, c := range k.cases("GENC") {
		if !c.ok() {
			continue
		}
		k.counts["successful group encryptions"]++
		rec := c.grec()
		if !k.ob(rec != nil, "encrypting uses the loaded sender key", c, "a message is encrypted without a loaded sender key") {
			continue
		}
		ev, nrec := c.lastStore()
		if !k.ob(ev != nil, "the sender key is stored before a ciphertext is returned", c, "a ciphertext is returned without the sender key having been stored") {
			continue
		}
		_, m, _ := e.wireParts(c.bytesOf("SenderKey", c.vals[0]), "SenderKeyMessage")
		if m == nil {
			k.undec = append(k.undec, "wire form of the sent group message not recognised")
			continue
		}
		states, nstates := e.grecStates(rec), e.grecStates(nrec)
		ct := e.pf(m, "SenderKeyMessage", "Ciphertext")
		hit := false
		for _, i := range idxOf(ct, states) {
			S := e.gstate(mkIdxT(states, i, ptrTo(e.typ("@/session.GroupState"))))
			seed, it := e.sk(S, "SenderChainKey", "Seed"), e.sk(S, "SenderChainKey", "Iteration")
			key, iv := groupKeys(seed)
			if !c.same(ct, apply("cbcenc", key, iv, c.sc.args["p2"])) {
				continue
			}
			hit = true
			k.ob(c.same(e.pf(m, "SenderKeyMessage", "Iteration"), it), "the iteration on the wire is that of the key", c, "the iteration is %s", e.pf(m, "SenderKeyMessage", "Iteration").str(8))
			k.ob(c.same(e.pf(m, "SenderKeyMessage", "ChainId"), e.sk(S, "ChainId")), "the chain named on the wire is that of the key", c, "the chain is %s", e.pf(m, "SenderKeyMessage", "ChainId").str(8))
			NS := e.gstate(mkIdxT(nstates, i, ptrTo(e.typ("@/session.GroupState"))))
			k.ob(c.same(e.sk(NS, "SenderChainKey", "Seed"), hmacT(seed, mkStr("\x02"))), "the stored chain is the next one", c, "the stored seed is %s", e.sk(NS, "SenderChainKey", "Seed").str(8))
			k.ob(c.same(e.sk(NS, "SenderChainKey", "Iteration"), mkAdd(it, mkInt(1))), "the stored chain's iteration is one higher", c, "the stored iteration is %s", e.sk(NS, "SenderChainKey", "Iteration").str(8))
		}
		k.ob(hit, "the message is encrypted under the key of a loaded chain", c, "the ciphertext is %s", ct.str(8))
	}
	k.floor("successful group encryptions", 1)
}

// ---------------------------------------------------------------- C10, C11

func checkC10(k *Chk) {
	e := k.e
	for _, sn := range []string{"ENC", "DECW", "DECP", "PPB", "GENC", "GDEC", "GPROC", "GNEW"} {
		store, load := "session.Store.Store", "session.Store.Load"
		stT, dist := "Store", false
		if sn[0] == 'G' {
			store, load, stT, dist = "session.GroupStore.Store", "session.GroupStore.Load", "GroupStore", true
		}
		for _, c := range k.cases(sn) {
			if !c.ok() {
				continue
			}
			k.counts["successful "+sn]++
			own := c.own("session", stT)
			loads := c.okEv(load)
			for _, ev := range append(append([]*Event{}, loads...), c.okEv(store)...) {
				k.ob(ev.Recv == own && c.ownAddr(ev.Flat[1]), "records are loaded and stored at the operation's own address", c, "%s uses %s at %s", ev.Kind, ev.Flat[1].str(6), e.where(ev.Pos))
				if dist {
					k.ob(c.sameDist(ev.Flat[2]), "records are loaded and stored for the operation's own distribution", c, "%s uses distribution %s at %s", ev.Kind, ev.Flat[2].str(6), e.where(ev.Pos))
				}
			}
			k.ob(len(loads) > 0, "the record is loaded", c, "no record was loaded")
			for _, kind := range writeKinds {
				for _, ev := range c.ev(kind) {
					k.ob(ev.Ok == tTrue, "every write of a successful operation succeeded", c, "%s failed at %s but the operation succeeds", kind, e.where(ev.Pos))
				}
			}
			ev, rec := c.lastStore()
			if sn == "GNEW" && ev == nil {
				k.ob(c.grec() != nil, "without storing, an existing sender key is used", c, "a distribution is returned for a sender key which is not stored")
				continue
			}
			if !k.ob(ev != nil, "the record is stored", c, "the operation succeeds without storing the record") {
				continue
			}
			// the record is not changed after it has been stored
			at := len(ev.Flat) - 1
			if at < len(ev.Args) {
				fin := e.reify(c.st, ev.Args[at], c.e.recPtrT(dist))
				k.ob(c.sameVal(resolveSels(c.st, fin), rec, c.e.recPtrT(dist)), "the record is not changed after having been stored", c, "the stored record is changed afterwards to %s", fin.str(6))
			}
			k.stored(c, sn, rec)
		}
		k.floor("successful "+sn, 1)
	}
}

func (e *Engine) recPtrT(group bool) types.Type {
	if group {
		return ptrTo(e.grecT())
	}
	return ptrTo(e.recT())
}

// stored checks that the stored record is the loaded one with the operation's update.
func (k *Chk) stored(c *Case, sn string, rec *T) {
	e := k.e
	keep := func(NS, S *T, names ...string) {
		for _, n := range names {
			a, b := e.ss(NS, n), e.ss(S, n)
			k.ob(c.sameVal(a, b, fieldType(e.sessT(), n)), "what the operation does not update is stored as loaded", c, "%s is stored as %s instead of %s", n, a.str(6), b.str(6))
		}
	}
	switch sn {
	case "ENC":
		old := c.loaded("session.Store.Load")
		NS, S := e.stateSess(e.recCur(rec)), c.encS()
		keep(NS, S, "SessionVersion", "LocalIdentityPublic", "RemoteIdentityPublic", "RootKey", "PreviousCounter", "ReceiverChains", "PendingPreKey", "RemoteRegistrationId", "LocalRegistrationId", "AliceBaseKey")
		k.ob(c.sameVal(e.recPrev(rec), e.recPrev(old), prevType), "the archived sessions are stored as loaded", c, "the archived sessions are %s", e.recPrev(rec).str(6))
		for _, f := range []string{"SenderRatchetKey", "SenderRatchetKeyPrivate"} {
			k.ob(c.same(e.ss(NS, "SenderChain", f), e.ss(S, "SenderChain", f)), "what the operation does not update is stored as loaded", c, "%s is stored as %s", f, e.ss(NS, "SenderChain", f).str(6))
		}
	case "DECW", "DECP":
		vs := c.views()
		if len(vs) == 0 {
			k.counts["unexplained decryptions"]++
			k.undec = append(k.undec, "plaintext not explained by keys of the message (see C01)")
			return
		}
		d := c.dec(k, vs)
		keep(d.NS, d.v.S, "SessionVersion", "LocalIdentityPublic", "RemoteIdentityPublic", "RemoteRegistrationId", "LocalRegistrationId", "AliceBaseKey")
		k.ob(c.prevExplained(d) != nil, "the archived sessions are stored as they have to be", c, "the archived sessions are %s", e.recPrev(rec).str(6))
		// all receiving chains but the message's own are kept
		k.ob(d.otherChains(), "the other receiving chains are stored as loaded", c, "the receiving chains are %s", e.ss(d.NS, "ReceiverChains").str(6))
	case "PPB":
		NS := e.stateSess(e.recCur(rec))
		want, base, ratchet := c.newAlice(NS)
		if !k.ob(want != nil, "the session built for the bundle is stored", c, "the stored session is %s", NS.str(4)) {
			return
		}
		k.ob(base != ratchet && !c.same(base, ratchet), "base key and ratchet key are different fresh keys", c, "base key and ratchet key are both %s", base.str(6))
		for _, f := range e.sessFields() {
			if w, ok := want[f]; ok {
				k.ob(c.sameVal(e.ss(NS, f), w, fieldType(e.sessT(), f)), "the session built for the bundle is stored", c, "%s is stored as %s", f, e.ss(NS, f).str(8))
			}
		}
		k.pending(c, NS, base)
		k.archivedPPB(c, rec)
	case "GENC", "GDEC":
		k.groupStored(c, rec)
	case "GPROC":
		k.procStored(c, rec)
	case "GNEW":
		k.newStored(c, rec)
	}
}

// otherChains: the receiving chains are the old ones but for the message's own (or the new one, with the oldest dropped).
func (d *Dec) otherChains() bool {
	c, e := d.c, d.c.e
	old, now := e.ss(d.v.S, "ReceiverChains"), e.ss(d.NS, "ReceiverChains")
	t := fieldType(e.sessT(), "ReceiverChains")
	if d.v.how == "ratchet" {
		last := mkList(d.cN)
		return c.sameVal(now, mkCat(old, last), t) || c.sameVal(now, mkCat(subB(old, mkInt(1), mkLen(old)), last), t)
	}
	return c.sameVal(now, mkCat(subB(old, mkInt(0), d.v.j), mkList(d.cN), subB(old, mkAdd(d.v.j, mkInt(1)), mkLen(old))), t)
}

// pending: the stored session waits for the peer's confirmation of the bundle's keys.
func (k *Chk) pending(c *Case, NS, base *T) {
	e := k.e
	b := c.sc.args["p2"]
	p := e.ss(NS, "PendingPreKey")
	if !k.ob(c.nilness(p) == 0, "after processing a bundle the handshake is pending", c, "the pending pre-key is %s", p.str(6)) {
		return
	}
	k.ob(c.same(unsign(e.ss(NS, "PendingPreKey", "SignedPreKeyId")), e.bundle(b, "SignedPreKeyID")), "the pending handshake names the bundle's signed pre-key", c,
		"the signed pre-key ID is %s", e.ss(NS, "PendingPreKey", "SignedPreKeyId").str(6))
	k.ob(c.same(e.ss(NS, "PendingPreKey", "BaseKey"), apply("pkbytes", mkPub(base))), "the pending handshake carries the session's base key", c,
		"the base key is %s", e.ss(NS, "PendingPreKey", "BaseKey").str(6))
	id := e.bundle(b, "PreKeyID")
	got := e.ss(NS, "PendingPreKey", "PreKeyId")
	switch c.nilness(id) {
	case 1:
		k.ob(c.same(got, mkInt(0)), "the pending handshake names no one-time pre-key if the bundle has none", c, "the one-time pre-key ID is %s", got.str(6))
	case 0:
		k.ob(c.same(got, mkDeref(id, types.Typ[types.Uint32])), "the pending handshake names the bundle's one-time pre-key", c, "the one-time pre-key ID is %s", got.str(6))
	default:
		k.ob(false, "the pending handshake names the bundle's one-time pre-key, if any", c, "the one-time pre-key ID is %s whether or not the bundle has one", got.str(6))
	}
}

// sameDist: the distribution is the one the operation is about.
func (c *Case) sameDist(d *T) bool {
	t := c.e.typ("@/distribution.ID")
	switch c.sc.name {
	case "GENC", "GNEW":
		return c.sameStruct(d, c.own("distribution", "ID"), t)
	}
	msg := map[string]string{"GDEC": "SenderKey", "GPROC": "SenderKeyDistribution"}[c.sc.name]
	_ = msg
	return c.sameStruct(d, c.msgDist(), t)
}

func checkC11(k *Chk) {
	for _, sn := range []string{"ENC", "DECW", "DECP", "PPK", "PPB", "GENC", "GDEC", "GPROC", "GNEW"} {
		for _, c := range k.cases(sn) {
			if c.ok() || c.storeFailed() {
				continue
			}
			k.counts["failures of "+sn]++
			k.ob(len(c.writes()) == 0, "a failed operation has written nothing", c, "the operation fails after %s", evKinds(c.writes()))
		}
		k.floor("failures of "+sn, 1)
	}
	// what is stored after a success does not depend on failed attempts with other sessions
	k.decs(func(d *Dec) {
		if d.ev == nil {
			return
		}
		k.ob(d.c.prevExplained(d) != nil, "failed attempts with other sessions leave no trace", d.c, "the archived sessions afterwards are %s", k.e.recPrev(d.recN).str(8))
	})
	k.inMemCopies()
}

func evKinds(evs []*Event) string {
	s := ""
	for i, ev := range evs {
		if i > 0 {
			s += ", "
		}
		s += ev.Kind
	}
	return s
}

// archivedPPB: the session replaced by a processed bundle is archived, the others are kept.
func (k *Chk) archivedPPB(c *Case, rec *T) *Arch {
	e := k.e
	got := e.recPrev(rec)
	old := c.loaded("session.Store.Load")
	cands := []Arch{{want: tEmpty}}
	if old != nil {
		P0 := e.recPrev(old)
		cur := e.recCur(old)
		switch c.nilness(cur) {
		case 1:
			cands = []Arch{{want: P0}}
		case 0:
			cands = archive(Arch{want: P0}, e.marSess(e.sessPtr(cur)))
		default:
			k.ob(false, "the replaced session is archived", c, "the archived sessions do not depend on there being a current session: %s", got.str(6))
			return nil
		}
	}
	for i := range cands {
		if c.sameVal(got, cands[i].want, prevType) {
			k.ob(true, "the replaced session is archived, the others are kept", c, "")
			return &cands[i]
		}
	}
	k.ob(false, "the replaced session is archived, the others are kept", c, "the archived sessions are %s", got.str(8))
	return nil
}
