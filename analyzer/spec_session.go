package main

// C04 .. C14, C20, C28, C29, C32 for one-to-one sessions.

// ---------------------------------------------------------------- trust

// trustedBy finds the trust decisions about a key in a list of effects.
func (c *Case) trustEvents(st *State, evs []*Event, key *T, dir *T) []*Event {
	var out []*Event
	for _, ev := range evs {
		if ev.Kind != "identity.Store.IsTrustedIdentity" || ev.Ok != tTrue || ev.Loop || len(ev.Flat) < 4 {
			continue
		}
		if ev.Recv != c.own("identity", "Store") || !c.ownAddr(ev.Flat[1]) {
			continue
		}
		if dir != nil && ev.Flat[3] != dir {
			continue
		}
		if !sameT(st, c.e.idKey(ev.Flat[2]), key, 0) {
			continue
		}
		out = append(out, ev)
	}
	return out
}

// identities are the identity keys an operation may deal with: its session's remote identity.
func (c *Case) remoteIdentity(k *Chk) *T {
	e := c.e
	switch c.sc.name {
	case "ENC":
		if rec := c.loaded("session.Store.Load"); rec != nil {
			return mkPk(e.ss(e.stateSess(e.recCur(rec)), "RemoteIdentityPublic"))
		}
	case "PPB":
		return e.idKey(e.bundle(c.sc.args["p2"], "IdentityKey"))
	case "PPK":
		return mkPk(e.pf(c.outer(), "PreKeySignalMessage", "IdentityKey"))
	case "DECW", "DECP":
		vs := c.views()
		if len(vs) == 0 {
			return nil
		}
		return mkPk(e.ss(c.dec(k, vs).v.S, "RemoteIdentityPublic"))
	}
	return nil
}

func (e *Engine) bundle(b *T, field string) *T {
	v, _ := walk(b, ptrTo(e.typ("@/prekey.Bundle")), field)
	return v
}

func checkC04(k *Chk) {
	for _, sn := range []string{"ENC", "PPB", "PPK", "DECW", "DECP"} {
		dir := k.e.constOf("direction", "Receiving")
		if sn == "ENC" || sn == "PPB" {
			dir = k.e.constOf("direction", "Sending")
		}
		for _, c := range k.cases(sn) {
			for _, ev := range c.ev("identity.Store.IsTrustedIdentity") {
				if ev.Loop || ev.Ok != tTrue {
					continue
				}
				if v, kn := c.st.eval(ev.Res[0]); kn && !v {
					k.counts["refused identities"]++
					ok := !c.ok() && len(c.writes()) == 0
					k.ob(ok, "an identity the store does not trust ends the operation with an error and without effects", c,
						"the store said that the identity is not trusted at %s, but the operation goes on", k.e.where(ev.Pos))
				}
			}
			if !c.ok() {
				continue
			}
			k.counts["successful "+sn]++
			key := c.remoteIdentity(k)
			if key == nil {
				k.counts["unexplained decryptions"]++
				continue
			}
			found, trusted := false, false
			for _, ev := range c.trustEvents(c.st, c.evs, key, dir) {
				found = true
				if c.st.holds(ev.Res[0]) {
					trusted = true
				}
			}
			k.ob(found, "the store was asked about this session's identity key, address and direction", c,
				"success without asking the identity store whether %s is trusted for the session's own address and direction", key.str(6))
			if found {
				k.ob(trusted, "success only if the store said the identity is trusted", c, "success although the store was not found to trust the identity %s", key.str(6))
			}
		}
		k.floor("successful "+sn, 1)
	}
	if n := k.counts["unexplained decryptions"]; n > 0 {
		k.undec = append(k.undec, "plaintexts which are not explained by keys of the message ("+itoa(n)+", see C01)")
	}
	k.floor("refused identities", 5)
}

// provenMAC: the facts of a state say that the received message carries a MAC over the identity key.
func (c *Case) provenMAC(st *State, key *T) bool {
	_, body, tag, _ := c.msgParts()
	for f, t := range st.facts {
		if !t || f.op != "eq" {
			continue
		}
		for s := 0; s < 2; s++ {
			if !sameT(st, f.args[s], tag, 0) {
				continue
			}
			h := f.args[1-s]
			if h.op != "sub" || h.args[0].op != "hmac256" {
				continue
			}
			m := h.args[0].args[1]
			if m.op != "cat" || len(m.args) < 3 {
				continue
			}
			if !sameT(st, m.args[0], apply("pkbytes", key), 0) {
				continue
			}
			if mkCat(m.args[2:]...) == body || sameT(st, mkCat(m.args[2:]...), body, 0) {
				return true
			}
		}
	}
	return false
}

func (c *Case) bundleVerified(st *State) bool {
	e := c.e
	b := c.sc.args["p2"]
	want := apply("verify", e.idKey(e.bundle(b, "IdentityKey")), e.bundle(b, "SignedPreKeySignature"), apply("pkbytes", e.bundle(b, "SignedPreKeyPublic")))
	return st.holds(want)
}

func checkC05(k *Chk) {
	for _, sn := range []string{"ENC", "PPB", "PPK", "DECW", "DECP"} {
		for _, c := range k.cases(sn) {
			if sn == "PPK" {
				k.ob(len(c.ev("identity.Store.Store")) == 0, "processing an unauthenticated pre-key message records no identity", c, "the identity of an unauthenticated pre-key message is recorded")
			}
			for _, ev := range c.ev("identity.Store.Clear") {
				k.ob(false, "recorded identities are not cleared by an operation", c, "the recorded identities are cleared at %s", k.e.where(ev.Pos))
			}
			for _, ev := range c.ev("identity.Store.Store") {
				k.counts["recordings"]++
				k.ob(ev.Recv == c.own("identity", "Store") && c.ownAddr(ev.Flat[1]), "an identity is recorded for the session's own address", c,
					"the identity is recorded for %s at %s", ev.Flat[1].str(5), k.e.where(ev.Pos))
				trusted, proven := false, false
				for _, a := range alts(ev.Flat[2]) {
					key := k.e.idKey(a)
					for _, t := range c.trustEvents(ev.St, ev.St.events, key, nil) {
						if ev.St.holds(t.Res[0]) {
							trusted = true
						}
					}
					switch sn {
					case "ENC":
						if x := c.remoteIdentity(k); x != nil && sameT(ev.St, key, x, 0) {
							proven = true
						}
					case "PPB":
						if c.bundleVerified(ev.St) && sameT(ev.St, key, c.remoteIdentity(k), 0) {
							proven = true
						}
					default:
						if c.provenMAC(ev.St, key) {
							proven = true
						}
					}
				}
				k.ob(trusted, "an identity is recorded only after the store accepted it", c, "%s is recorded at %s without having been accepted as trusted before", ev.Flat[2].str(6), k.e.where(ev.Pos))
				k.ob(proven, "an identity is recorded only after the peer proved it", c, "%s is recorded at %s without proof", ev.Flat[2].str(6), k.e.where(ev.Pos))
				if c.ok() && sn[0] == 'D' {
					if x := c.remoteIdentity(k); x != nil {
						k.ob(sameT(c.st, k.e.idKey(ev.Flat[2]), x, 0), "the identity recorded is the one of the session used", c, "%s is recorded, the session's identity is %s", ev.Flat[2].str(6), x.str(6))
					}
				}
			}
		}
	}
	k.floor("recordings", 5)
}

// ---------------------------------------------------------------- bundles

// newAlice is the session the initiator builds for a bundle, given the key pairs found in the stored one.
func (c *Case) newAlice(NS *T) (want map[string]*T, base, ratchet *T) {
	e := c.e
	b := c.sc.args["p2"]
	abk := e.ss(NS, "AliceBaseKey")
	if abk.op != "pkbytes" || abk.args[0].op != "pub" {
		return nil, nil, nil
	}
	base = abk.args[0].args[0]
	rp := e.ss(NS, "SenderChain", "SenderRatchetKeyPrivate")
	if rp.op != "skbytes" {
		return nil, nil, nil
	}
	ratchet = rp.args[0]
	idPriv, idPub := e.ownIdentity(c.sc.args["self"])
	spk := e.bundle(b, "SignedPreKeyPublic")
	their := e.idKey(e.bundle(b, "IdentityKey"))
	ot := e.bundle(b, "PreKeyPublic")
	secrets := []*T{mkStr(ff32), mkDh("dh", mkPub(idPriv), spk), mkDh("dh", mkPub(base), their), mkDh("dh", mkPub(base), spk)}
	if c.nilness(ot) == 0 {
		secrets = append(secrets, mkDh("dh", mkPub(base), ot))
	}
	root, ck := x3dh(secrets)
	sroot, sck := rootStep(root, ratchet, spk)
	return map[string]*T{
		"SessionVersion":       mkInt(3),
		"LocalIdentityPublic":  apply("pkbytes", idPub),
		"RemoteIdentityPublic": apply("pkbytes", their),
		"RootKey":              sroot,
		"PreviousCounter":      mkInt(0),
		"SenderChain":          e.mkChain(apply("pkbytes", mkPub(ratchet)), apply("skbytes", ratchet), sck, mkInt(0)),
		"ReceiverChains":       mkList(e.mkChain(apply("pkbytes", spk), nil, ck, mkInt(0))),
		"LocalRegistrationId":  e.ownRegID(c.sc.args["self"]),
		"RemoteRegistrationId": e.bundle(b, "RegistrationID"),
		"AliceBaseKey":         abk,
	}, base, ratchet
}

func checkC06(k *Chk) {
	for _, c := range k.cases("PPB") {
		for _, ev := range c.writes() {
			k.counts["effects"]++
			k.ob(c.bundleVerified(ev.St), "no effect before the signed pre-key's signature has been verified", c, "%s at %s happens without the bundle's signature having been verified", ev.Kind, k.e.where(ev.Pos))
		}
		if !c.ok() {
			continue
		}
		k.counts["sessions set up"]++
		k.ob(c.bundleVerified(c.st), "success only with a verified signed pre-key", c, "the bundle is accepted without its signature having been verified over the encoded signed pre-key under its identity key")
		for _, ev := range c.okEv("session.Store.Store") {
			NS := k.e.stateSess(k.e.recCur(ev.Flat[2]))
			want, _, _ := c.newAlice(NS)
			if want == nil {
				k.undec = append(k.undec, "key pairs of the new session not recognised")
				continue
			}
			for _, f := range []string{"RootKey", "SenderChain", "ReceiverChains", "RemoteIdentityPublic"} {
				got := k.e.ss(NS, f)
				k.ob(c.sameVal(got, want[f], fieldType(k.e.sessT(), f)), "the session is built from the verified signed pre-key and identity", c, "%s is %s", f, got.str(8))
			}
		}
	}
	k.floor("sessions set up", 1)
	k.floor("effects", 2)
}

// ---------------------------------------------------------------- replay

func checkC07(k *Chk) {
	k.decs(func(d *Dec) {
		e, c := k.e, d.c
		if !k.ob(d.ev != nil, "the session is stored after decrypting", c, "no session is stored, so the message can be decrypted again") {
			return
		}
		if d.v.how == "late" {
			keys := e.ch(d.cN, "MessageKeys")
			old := e.ch(d.v.ch, "MessageKeys")
			k.ob(c.keyGone(keys, old, d.v.l, d.v.n, "Index"), "the saved key of a late message is gone afterwards", c, "the saved keys afterwards are %s", keys.str(8))
		} else {
			ix := e.ch(d.cN, "ChainKey", "Index")
			k.ob(c.st.holds(mkLt(d.v.n, ix)), "the receiving chain is past the message's counter afterwards", c, "the chain's index afterwards is %s, the message's counter %s", ix.str(6), d.v.n.str(6))
			k.ob(c.savedBelow(e.ch(d.cN, "MessageKeys"), e.chKeys(d), d.v.n, "Index"), "the key of the message itself is not saved", c, "the saved keys afterwards are %s", e.ch(d.cN, "MessageKeys").str(8))
			if d.v.how == "ahead" {
				k.ob(c.st.holds(mkLe(d.v.ix0, d.v.n)), "a message behind the chain is only decrypted with a saved key", c, "the counter was not found to be at or after the chain's index")
			}
		}
		// the state used before is not left behind
		k.ob(c.prevExplained(d) != nil, "the state used is replaced by the updated one, no copy of it is left behind", c, "the archived sessions afterwards are %s", e.recPrev(d.recN).str(8))
	})
}

func (e *Engine) chKeys(d *Dec) *T {
	if d.v.how == "ratchet" {
		return tEmpty
	}
	return e.ch(d.v.ch, "MessageKeys")
}

// keyGone: keys are the old ones without the one at l (or without all of counter n).
func (c *Case) keyGone(keys, old, l, n *T, ix string) bool {
	if keys.op == "fmc" && keys.args[0] == mkLen(old) {
		// kept only if the counter differs
		bn := raw("bN", keys.s, nil)
		el := mkIdxT(old, bn, nil)
		if keys.args[2] != mkList(el) {
			return false
		}
		return c.filterDrops(keys, old, l)
	}
	want := mkCat(subB(old, mkInt(0), l), subB(old, mkAdd(l, mkInt(1)), mkLen(old)))
	return c.same(keys, want)
}

// filterDrops: a filter over old drops the entry at l.
func (c *Case) filterDrops(f, old, l *T) bool {
	cond := instB(f.args[1], f.s, l)
	v, kn := c.st.eval(cond)
	return kn && !v
}

// over: the facts say that a stored sequence is above its limit, which no operation makes it (C13).
func (c *Case) over(old *T, n int64) bool {
	return old != tEmpty && c.st.holds(mkLe(mkInt(n+1), mkLen(old)))
}

// savedBelow: every key newly saved belongs to a counter below n.
func (c *Case) savedBelow(keys, old, n *T, ix string) bool {
	if c.same(keys, old) || c.over(old, maxKeys) {
		return true
	}
	if keys.op == "push" || keys.op == "fm" {
		N := withVT(mkSym("$i"), nil)
		cnt, body := keys.args[len(keys.args)-2], keys.args[len(keys.args)-1]
		if keys.op == "fm" && old != tEmpty {
			return false
		}
		if keys.op == "push" && !c.same(keys.args[1], old) {
			return false
		}
		b := instB(body, keys.s, N)
		if b.op != "list" || len(b.args) != 1 {
			return false
		}
		q := c.st.clone()
		q.assume(mkLe(mkInt(0), N), true)
		q.assume(mkLt(N, cnt), true)
		i := c.keyField(b.args[0], ix)
		return i != nil && q.holds(mkLt(i, n))
	}
	if keys.op == "cat" && c.same(keys.args[0], old) {
		for _, p := range keys.args[1:] {
			switch p.op {
			case "fm":
				if !c.savedBelow(p, tEmpty, n, ix) {
					return false
				}
			case "list":
				for _, x := range p.args {
					if i := c.keyField(x, ix); i == nil || !c.st.holds(mkLt(i, n)) {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	if keys.op == "list" && old == tEmpty {
		for _, x := range keys.args {
			if i := c.keyField(x, ix); i == nil || !c.st.holds(mkLt(i, n)) {
				return false
			}
		}
		return true
	}
	return false
}

// keyField is a field of a saved key, given by its pointer.
func (c *Case) keyField(p *T, name string) *T {
	if p.op != "box" || p.args[0].op != "struct" {
		return nil
	}
	return mkFld(p.args[0], name, nil)
}

// ---------------------------------------------------------------- archived sessions

// Arch tells how the archived sessions of a stored record came about.
type Arch struct {
	want  *T
	drops []*T // lengths at which the oldest was dropped
	adds  []*T // lengths at which one was added without dropping
}

// archive appends a session; the oldest may be dropped.
func archive(a Arch, s *T) []Arch {
	n := mkLen(a.want)
	return []Arch{
		{mkCat(a.want, mkList(s)), a.drops, append(append([]*T{}, a.adds...), n)},
		{mkCat(subB(a.want, mkInt(1), n), mkList(s)), append(append([]*T{}, a.drops...), n), a.adds},
	}
}

// marSess is the encoding of a session structure given by its pointer.
func (e *Engine) marSess(ptr *T) *T { return marTerm(ptrTo(e.sessT()), ptr) }

func (e *Engine) sessPtr(state *T) *T {
	st := ptrTo(e.typ("@/session.State"))
	v, _ := walk(state, st, fieldBy(st, isPtrTo("SessionStructure")))
	return v
}

// prevExplained: the archived sessions of the stored record are the ones the protocol asks for.
func (c *Case) prevExplained(d *Dec) *Arch {
	e := c.e
	got := e.recPrev(d.recN)
	P0, cur := tEmpty, (*T)(nil)
	if d.rec != nil {
		P0 = e.recPrev(d.rec)
		if d.cur != nil {
			cur = e.marSess(e.sessPtr(e.recCur(d.rec)))
		}
	}
	cands := []Arch{{want: P0}}
	curN := cur
	if d.newS != nil {
		if cur != nil {
			cands = archive(cands[0], cur)
		}
		curN = e.marSess(app("box", d.newS))
	}
	switch {
	case d.v.kind == "archived", d.v.kind == "current" && d.newS != nil:
		var next []Arch
		for _, a := range cands {
			i := d.v.i
			if d.v.kind == "current" {
				i = mkSub(mkLen(a.want), mkInt(1))
			} else if len(a.drops) > 0 {
				i = mkSub(i, mkInt(1))
			}
			n := mkLen(a.want)
			a.want = mkCat(subB(a.want, mkInt(0), i), subB(a.want, mkAdd(i, mkInt(1)), n))
			if curN == nil {
				next = append(next, a)
			} else {
				next = append(next, archive(a, curN)...)
			}
		}
		cands = next
	}
	for i := range cands {
		if c.sameVal(got, cands[i].want, prevType) {
			return &cands[i]
		}
	}
	return nil
}

var prevType = typesSliceOfBytes()

// ---------------------------------------------------------------- sending

// sent is the message inside of an encryption result: the Signal (pointer) and, if any, the PreKey (pointer).
func (c *Case) sent() (sig, pre *T) {
	v := c.vals[0]
	if v.op != "iface" {
		return nil, nil
	}
	p := v.args[0]
	e := c.e
	if isPtrTo("PreKey")(v.typ) {
		t := ptrTo(e.typ("@/message.PreKey"))
		m, _ := walk(p, t, fieldBy(t, isPtrTo("Signal")))
		return m, p
	}
	return p, nil
}
