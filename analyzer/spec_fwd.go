package main

// C39: keys that are no longer needed are not kept.

import "go/types"

func init() {
	specs["C39"] = spec{run: checkC39, rule: "in every successful outcome no field of the stored record shows the chain key a message's keys were derived from or an earlier one, the message's seed or keys, a replaced root key, ratchet private key or sending chain key, a one-time or base private key, an intermediate root key or a Diffie-Hellman result, other than through a one-way function (HMAC, HKDF, key agreement, public key); saved keys are those of skipped counters; no other store is given such a key"}
}

// shown calls f for everything that can be read out of t.
func shown(t *T, f func(x *T)) {
	seen := map[*T]bool{}
	var rec func(t *T)
	rec = func(t *T) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		f(t)
		switch t.op {
		case "cat", "list", "box", "iface", "slice", "struct", "deref", "push", "fm", "rec", "skbytes", "sk", "hex", "pair", "join":
			for _, a := range t.args {
				rec(a)
			}
		case "with":
			for _, a := range t.args {
				rec(a)
			}
		case "sub", "idx":
			rec(t.args[0])
		case "fmc":
			rec(t.args[2])
		case "sel":
			rec(t.args[1])
			rec(t.args[2])
		case "mar":
			rec(t.args[1])
		}
	}
	rec(t)
}

// secretsOf is a set of keys which must not be kept.
type secretsOf struct {
	c    *Case
	keys map[*T]string
}

func (s *secretsOf) add(what string, ts ...*T) {
	for _, t := range ts {
		if t == nil || t == tEmpty || t == tNil || t.op == "int" {
			continue
		}
		s.keys[t] = what
		if t.op == "skbytes" || t.op == "sk" {
			s.keys[t.args[0]] = what
			s.keys[apply("sk", t)] = what
		}
	}
}

// seed adds what the keys of a message are made of.
func (s *secretsOf) message(ck *T) {
	m := hmacT(ck, mkStr("\x01"))
	s.add("the message's keys", m, hkdf(m, tEmpty, "WhisperMessageKeys"), hkdf(m, tEmpty, "WhisperGroup"))
}

// chain adds a chain key which is used up.
func (s *secretsOf) chain(ck *T) { s.add("a chain key that is used up", ck) }

// found is a secret shown by a term, and what it is.
func (s *secretsOf) found(t *T, next *T) (*T, string) {
	var hit *T
	what := ""
	shown(t, func(x *T) {
		if hit != nil {
			return
		}
		if w, ok := s.keys[x]; ok {
			hit, what = x, w
			return
		}
		switch x.op {
		case "dh", "x25519":
			hit, what = x, "a Diffie-Hellman result"
		case "rec":
			if w, ok := s.keys[x.args[1]]; ok && (next == nil || !s.c.same(x, next)) {
				hit, what = x, w+" or a later one"
			}
		}
	})
	return hit, what
}

// fields visits the fields of a record or state, through pointers; list fields are visited as a whole.
func (e *Engine) fields(v *T, t types.Type, path string, f func(path string, v *T, t types.Type)) {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if s, ok := u.Elem().Underlying().(*types.Struct); ok && v != tNil {
			e.fields(mkDeref(v, u.Elem()), u.Elem(), path, f)
			_ = s
			return
		}
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if n := u.Field(i).Name(); !isProtoInternal(n) || !isGenerated(t) {
				e.fields(mkFld(v, n, u.Field(i).Type()), u.Field(i).Type(), path+"."+n, f)
			}
		}
		return
	}
	f(path, v, t)
}

func (k *Chk) forgets(c *Case, s *secretsOf, where string, v *T, t types.Type, next *T, skip map[string]bool) {
	k.e.fields(v, t, where, func(path string, x *T, xt types.Type) {
		if skip[path] {
			return
		}
		k.counts["stored fields"]++
		hit, what := s.found(x, next)
		if hit == nil {
			k.ob(true, "keys no longer needed are not kept", c, "")
			return
		}
		k.ob(false, "keys no longer needed are not kept", c, "%s keeps %s: %s", path, what, hit.str(6))
	})
}

// elsewhere: no store but that of the sessions is given a secret.
func (k *Chk) elsewhere(c *Case, s *secretsOf) {
	for _, ev := range c.writes() {
		if ev.Kind == "session.Store.Store" || ev.Kind == "session.GroupStore.Store" {
			continue
		}
		for _, t := range ev.Flat {
			if t == nil {
				continue
			}
			if hit, what := s.found(t, nil); hit != nil {
				k.ob(false, "keys no longer needed are not kept", c, "%s is given %s: %s", ev.Kind, what, hit.str(6))
			}
		}
	}
}

// otherStates: the states are the old ones but for the one at i.
func (c *Case) otherStates(old, now, i *T) bool {
	t := c.e.gstateT()
	want := mkCat(subB(old, mkInt(0), i), mkList(mkIdxT(now, i, t)), subB(old, mkAdd(i, mkInt(1)), mkLen(old)))
	return c.sameVal(now, want, types.NewSlice(t))
}

func checkC39(k *Chk) {
	e := k.e
	recP, grecP := ptrTo(e.recT()), ptrTo(e.grecT())
	prevField := fieldBy(recP, func(t types.Type) bool { return types.Identical(t.Underlying(), prevType) })
	curField := fieldBy(recP, isPtrTo("State"))
	stT := ptrTo(e.typ("@/session.State"))
	sessField := fieldBy(stT, isPtrTo("SessionStructure"))
	// the record but for its current session and its archive
	rest := func(c *Case, s *secretsOf, rec *T) {
		skip := map[string]bool{"record." + prevField: true}
		e.fields(rec, recP, "record", func(path string, _ *T, _ types.Type) {
			if len(path) > len("record."+curField+"."+sessField) && path[:len("record."+curField+"."+sessField)] == "record."+curField+"."+sessField {
				skip[path] = true
			}
		})
		k.forgets(c, s, "record", rec, recP, nil, skip)
	}
	for _, c := range k.cases("ENC") {
		S := c.encS()
		ev, rec := c.lastStore()
		if !c.ok() || S == nil || ev == nil {
			continue
		}
		k.counts["encryptions"]++
		ck := e.ss(S, "SenderChain", "ChainKey", "Key")
		s := &secretsOf{c: c, keys: map[*T]string{}}
		s.chain(ck)
		s.message(ck)
		NS := e.stateSess(e.recCur(rec))
		k.forgets(c, s, "session", NS, e.sessT(), hmacT(ck, mkStr("\x02")), nil)
		k.ob(c.sameVal(e.recPrev(rec), e.recPrev(c.loaded("session.Store.Load")), prevType), "no copy of the state used is kept", c, "the archived sessions are %s", e.recPrev(rec).str(6))
		rest(c, s, rec)
		k.elsewhere(c, s)
	}
	k.floor("encryptions", 1)
	k.decs(func(d *Dec) {
		c := d.c
		if d.ev == nil {
			return
		}
		v := d.v
		s := &secretsOf{c: c, keys: map[*T]string{}}
		var next *T
		skip := map[string]bool{"session.ReceiverChains": true}
		if v.how == "late" {
			k.counts["late messages"]++
			old := e.ch(v.ch, "MessageKeys")
			p := ptrTo(e.typ("@/generated/v1.SessionStructure_Chain_MessageKey"))
			for _, n := range []string{"CipherKey", "MacKey", "Iv"} {
				x, _ := walk(mkIdxT(old, v.l, p), p, n)
				s.add("the message's keys", x)
			}
			keys := e.ch(d.cN, "MessageKeys")
			k.ob(c.keyGone(keys, old, v.l, v.n, "Index"), "the saved key of a decrypted message is not kept", c, "the saved keys afterwards are %s", keys.str(8))
		} else {
			k.counts["messages ahead"]++
			s.chain(v.ck0)
			s.chain(v.ck)
			s.message(v.ck)
			next = hmacT(v.ck, mkStr("\x02"))
			keys := e.ch(d.cN, "MessageKeys")
			k.ob(c.savedBelow(keys, e.chKeys(d), v.n, "Index"), "only the keys of skipped messages are saved", c, "the saved keys afterwards are %s", keys.str(8))
			if s0 := v.ck0; s0.op == "sub" && v.how == "ratchet" {
				s.add("the shared secret of a ratchet step", s0.args[0])
			}
		}
		if v.how == "ratchet" {
			k.counts["ratchet steps"]++
			s.add("the replaced root key", e.ss(v.S, "RootKey"), v.root)
			s.add("the replaced ratchet private key", e.ss(v.S, "SenderChain", "SenderRatchetKeyPrivate"))
			s.add("the replaced sending chain key", e.ss(v.S, "SenderChain", "ChainKey", "Key"))
		}
		if v.kind == "new" || d.newS != nil {
			if ot := c.loaded("prekey.Store.Load"); ot != nil {
				otT := ptrTo(e.typ("@/prekey.PreKey"))
				otRec, _ := walk(ot, otT, fieldBy(otT, isPtrTo("PreKeyRecordStructure")))
				x, _ := walk(otRec, ptrTo(e.typ("@/generated/v1.PreKeyRecordStructure")), "PrivateKey")
				s.add("the one-time pre-key", x)
			}
		}
		k.forgets(c, s, "session", d.NS, e.sessT(), next, skip)
		k.forgets(c, s, "chain", d.cN, ptrTo(e.chainT()), next, nil)
		k.ob(d.otherChains(), "no copy of the chain used is kept", c, "the receiving chains are %s", e.ss(d.NS, "ReceiverChains").str(6))
		k.ob(c.prevExplained(d) != nil, "no copy of the state used is kept", c, "the archived sessions are %s", e.recPrev(d.recN).str(6))
		rest(c, s, d.recN)
		k.elsewhere(c, s)
	})
	k.floor("late messages", 2)
	k.floor("messages ahead", 4)
	k.floor("ratchet steps", 2)
	for _, c := range k.cases("PPB") {
		ev, rec := c.lastStore()
		if !c.ok() || ev == nil {
			continue
		}
		NS := e.stateSess(e.recCur(rec))
		want, base, _ := c.newAlice(NS)
		if want == nil {
			k.undec = append(k.undec, "key pairs of the new session not recognised")
			continue
		}
		k.counts["sessions set up"]++
		s := &secretsOf{c: c, keys: map[*T]string{}}
		s.add("the base private key", base, apply("skbytes", base))
		if r := want["RootKey"]; r.op == "sub" && r.args[0].op == "hkdfstream" {
			s.add("the first root key", r.args[0].args[2])
			if x := r.args[0].args[2]; x.op == "sub" {
				// the rest of the handshake's secret is the first chain key
				s.add("the handshake's shared secret", x.args[0].args[1])
			}
		}
		k.forgets(c, s, "session", NS, e.sessT(), nil, nil)
		rest(c, s, rec)
		k.elsewhere(c, s)
	}
	k.floor("sessions set up", 1)
	for _, c := range k.cases("GENC") {
		rec := c.grec()
		ev, nrec := c.lastStore()
		if !c.ok() || rec == nil || ev == nil {
			continue
		}
		_, m, _ := e.wireParts(c.bytesOf("SenderKey", c.vals[0]), "SenderKeyMessage")
		if m == nil {
			k.undec = append(k.undec, "wire form of the sent group message not recognised")
			continue
		}
		states, nstates := e.grecStates(rec), e.grecStates(nrec)
		ct := e.pf(m, "SenderKeyMessage", "Ciphertext")
		for _, i := range idxOf(ct, states) {
			S := e.gstate(mkIdxT(states, i, e.gstateT()))
			ck := e.sk(S, "SenderChainKey", "Seed")
			key, iv := groupKeys(ck)
			if !c.same(ct, apply("cbcenc", key, iv, c.sc.args["p2"])) {
				continue
			}
			k.counts["group encryptions"]++
			s := &secretsOf{c: c, keys: map[*T]string{}}
			s.chain(ck)
			s.message(ck)
			k.forgets(c, s, "state", mkIdxT(nstates, i, e.gstateT()), e.gstateT(), hmacT(ck, mkStr("\x02")), nil)
			k.forgets(c, s, "record", nrec, grecP, nil, map[string]bool{"record." + fieldBy(grecP, isSlice): true})
			k.ob(c.otherStates(states, nstates, i), "no copy of the state used is kept", c, "the states are %s", nstates.str(6))
			k.elsewhere(c, s)
		}
	}
	k.floor("group encryptions", 1)
	k.gdecs(func(c *Case, v *GView, rec, NS *T) {
		k.counts["group decryptions"]++
		s := &secretsOf{c: c, keys: map[*T]string{}}
		var next *T
		keys, old := e.sk(NS, "SenderMessageKeys"), e.sk(v.S, "SenderMessageKeys")
		if v.how == "late" {
			s.add("the message's keys", v.seed, hkdf(v.seed, tEmpty, "WhisperGroup"))
			k.ob(c.keyGone(keys, old, v.l, v.n, "Iteration"), "the saved key of a decrypted message is not kept", c, "the saved keys afterwards are %s", keys.str(8))
		} else {
			ck := recChain(mkSub(v.n, v.it0), v.s0)
			s.chain(v.s0)
			s.chain(ck)
			s.message(ck)
			next = hmacT(ck, mkStr("\x02"))
			k.ob(c.savedBelow(keys, old, v.n, "Iteration"), "only the keys of skipped messages are saved", c, "the saved keys afterwards are %s", keys.str(8))
		}
		k.forgets(c, s, "state", mkIdxT(e.grecStates(rec), v.i, e.gstateT()), e.gstateT(), next, nil)
		k.forgets(c, s, "record", rec, grecP, nil, map[string]bool{"record." + fieldBy(grecP, isSlice): true})
		now := e.grecStates(rec)
		k.ob(c.otherStates(e.grecStates(c.grec()), now, v.i), "no copy of the state used is kept", c, "the states are %s", now.str(6))
		k.elsewhere(c, s)
	})
}
