package main

// C12, C13, C14, C20, C28, C29, C32.

import (
	"go/token"
	"go/types"
)

type tokenPos = token.Pos

// required: the operation can do this at all; it is a violation if no analysed path does.
func (k *Chk) required(what string, n int) {
	if k.counts[what] >= n || len(k.viols) > 0 {
		return
	}
	if len(k.undec) > 0 {
		k.undec = append(k.undec, "only "+itoa(k.counts[what])+" "+what)
		return
	}
	k.ob(false, "the operation is possible", nil, "there is no path with %s (%d found, %d expected)", what, k.counts[what], n)
}

// outerField is an optional field (a pointer) of the received pre-key message.
func (c *Case) outerField(name string) *T {
	v, _ := walk(c.outer(), c.e.typ("@/generated/v1.PreKeySignalMessage"), name)
	return v
}

// ---------------------------------------------------------------- C12

func checkC12(k *Chk) {
	e := k.e
	for _, sn := range []string{"ENC", "DECW", "DECP", "PPK", "PPB"} {
		for _, c := range k.cases(sn) {
			dels := c.ev("prekey.Store.Delete")
			var okDels []*Event
			for _, ev := range dels {
				if ev.Ok != tFalse {
					okDels = append(okDels, ev)
				}
			}
			for _, kind := range []string{"prekey.Store.Store", "prekey.SignedStore.Store"} {
				k.ob(len(c.ev(kind)) == 0, "pre-keys are not stored by operations of a session", c, "%s is called", kind)
			}
			if sn != "DECP" && sn != "PPK" {
				k.ob(len(dels) == 0, "only pre-key messages consume one-time pre-keys", c, "a one-time pre-key is deleted")
				continue
			}
			id := c.outerField("PreKeyId")
			sid := e.pf(c.outer(), "PreKeySignalMessage", "SignedPreKeyId")
			for _, ev := range c.ev("prekey.Store.Load") {
				k.ob(ev.Recv == c.own("prekey", "Store") && c.nilness(id) == 0 && c.same(ev.Flat[1], mkDeref(id, types.Typ[types.Uint32])),
					"the one-time pre-key loaded is the one the message names", c, "one-time pre-key %s is loaded at %s", ev.Flat[1].str(6), e.where(ev.Pos))
			}
			for _, ev := range c.ev("prekey.SignedStore.Load") {
				k.ob(ev.Recv == c.own("prekey", "SignedStore") && c.same(ev.Flat[1], sid),
					"the signed pre-key loaded is the one the message names", c, "signed pre-key %s is loaded at %s", ev.Flat[1].str(6), e.where(ev.Pos))
			}
			for _, ev := range dels {
				k.ob(ev.Recv == c.own("prekey", "Store") && c.nilness(id) == 0 && c.same(ev.Flat[1], mkDeref(id, types.Typ[types.Uint32])),
					"the one-time pre-key deleted is the one the message names", c, "one-time pre-key %s is deleted at %s", ev.Flat[1].str(6), e.where(ev.Pos))
			}
			if !c.ok() {
				k.ob(len(okDels) == 0, "a one-time pre-key is not deleted when the operation fails", c, "the operation fails after a one-time pre-key was deleted at %s", e.where(posOf(okDels)))
				continue
			}
			fresh := len(c.okEv("prekey.SignedStore.Load")) > 0
			if sn == "PPK" {
				k.counts["processed pre-key messages"]++
				k.ob(len(dels) == 0, "a one-time pre-key is not deleted before the message is decrypted", c, "the one-time pre-key is deleted although nothing has been decrypted")
				r := c.vals[0]
				switch {
				case fresh && c.nilness(id) == 0:
					k.ob(c.nilness(r) == 0 && c.same(mkDeref(r, types.Typ[types.Uint32]), mkDeref(id, types.Typ[types.Uint32])), "the pre-key reported as used is the message's", c, "%s is reported as used", r.str(6))
					if c.loaded("prekey.Store.Load") != nil {
						otT := types.NewPointer(e.typ("@/prekey.PreKey"))
						otRec, _ := walk(c.loaded("prekey.Store.Load"), otT, fieldBy(otT, isPtrTo("PreKeyRecordStructure")))
						p, _ := walk(otRec, types.NewPointer(e.typ("@/generated/v1.PreKeyRecordStructure")), "PrivateKey")
						ck := e.ss(e.stateSess(e.recCur(c.recAfter())), "SenderChain", "ChainKey", "Key")
						k.counts["one-time pre-keys used"]++
						if !contains(ck, apply("sk", p)) && anySub(ck, func(x *T) bool {
							return x.op == "all" || x.op == "rec" || x.op == "Lx" || x.op == "Nx" || x.op == "ext" || x.op == "join"
						}) != nil {
							k.undec = append(k.undec, "the chain key of the new session is not understood")
							continue
						}
						k.ob(contains(ck, apply("sk", p)), "the pre-key reported as used goes into the session", c, "the chain key of the new session is %s", ck.str(8))
					}
				default:
					k.ob(c.nilness(r) == 1 || c.same(r, id) && c.nilness(id) == 1, "no pre-key is reported as used for a known handshake or a message without one", c, "%s is reported as used", r.str(6))
				}
				continue
			}
			k.counts["decrypted pre-key messages"]++
			switch {
			case !fresh:
				k.counts["decrypted in a known session"]++
				k.ob(len(dels) == 0, "a repeated handshake deletes no one-time pre-key", c, "a one-time pre-key is deleted at %s although no session was set up", e.where(posOf(dels)))
			case c.nilness(id) == 1:
				k.counts["without one-time pre-key"]++
				k.ob(len(dels) == 0, "nothing is deleted for a message without one-time pre-key", c, "a one-time pre-key is deleted at %s", e.where(posOf(dels)))
			case c.nilness(id) == 0:
				if len(c.okEv("prekey.Store.Load")) == 0 {
					k.ob(false, "the one-time pre-key named is loaded", c, "the one-time pre-key named by the message is not loaded")
					continue
				}
				if c.loaded("prekey.Store.Load") == nil {
					break // it did not exist: deleting it or not makes no difference
				}
				k.counts["with one-time pre-key"]++
				k.ob(len(okDels) == 1, "the one-time pre-key used is deleted", c, "the one-time pre-key used is deleted %d times", len(okDels))
			default:
				k.ob(false, "the one-time pre-key is deleted if there is one", c, "whether the message names a one-time pre-key makes no difference")
			}
		}
	}
	k.required("with one-time pre-key", 1)
	k.floor("decrypted in a known session", 1)
	k.floor("without one-time pre-key", 1)
	k.floor("processed pre-key messages", 2)
}

// ---------------------------------------------------------------- C13, C14

// lenOf tells how long the saved keys may get, given a bound for the old ones.
func (c *Case) atMost(seq, old *T, n int64) bool {
	q := c.st.clone()
	if old != nil && old != tEmpty && !q.assume(mkLe(mkLen(old), mkInt(n)), true) {
		return true // not with a record within the limits
	}
	return lenAtMost(q, seq, n)
}

func lenAtMost(st *State, seq *T, n int64) bool {
	if st.holds(mkLe(mkLen(seq), mkInt(n))) {
		return true
	}
	switch seq.op {
	case "push": // bounded by its capacity if it started within it
		if cp, ok := seq.args[0].isInt(); ok && cp <= n {
			return lenAtMost(st, seq.args[1], n)
		}
	case "sub":
		return lenAtMost(st, seq.args[0], n)
	}
	return false
}

const (
	maxAhead  = 25000
	maxKeys   = 2000
	maxChains = 5
	maxPrev   = 40
	maxGroup  = 5
)

// withSelf: the facts say that the session is one with oneself.
func withSelf(st *State, S *T, e *Engine) bool {
	l, r := e.ss(S, "LocalIdentityPublic"), e.ss(S, "RemoteIdentityPublic")
	if sameT(st, mkPk(l), mkPk(r), 0) || sameT(st, l, r, 0) {
		return true
	}
	return st.holds(pkEq(mkPk(l), mkPk(r))) || st.holds(mkEq(l, r))
}

// selfFact: some session of the state was found to be one with oneself.
func selfFact(st *State) bool {
	for f, v := range st.facts {
		if v && (f.op == "pkeq" || f.op == "eq") {
			l, r := fieldsIn(f.args[0]), fieldsIn(f.args[1])
			if l["LocalIdentityPublic"] && r["RemoteIdentityPublic"] || r["LocalIdentityPublic"] && l["RemoteIdentityPublic"] ||
				l["KeyPair"] && r["IdentityKey"] || r["KeyPair"] && l["IdentityKey"] {
				return true
			}
		}
	}
	return false
}

func fieldsIn(t *T) map[string]bool {
	m := map[string]bool{}
	anySub(t, func(x *T) bool {
		switch {
		case x.op == "fld":
			m[x.s] = true
		case x.op == "storeval":
			m[x.args[0].s] = true
		}
		return false
	})
	return m
}

// bounded: the number of iterations is limited, or no more than the length of something stored or received.
func (w *Work) bounded() bool {
	if w.Limit != nil {
		return true
	}
	for _, st := range w.St.cases() {
		if !w.boundedIn(st) {
			return false
		}
	}
	return true
}

func (w *Work) boundedIn(st *State) bool {
	if st.holds(mkLe(mkAdd(w.N, mkInt(1)), mkInt(maxAhead))) {
		return true
	}
	seen := map[*T]bool{}
	for _, l := range st.linFacts() {
		if _, ok := l.m[w.N]; !ok {
			continue
		}
		for a := range l.m {
			if seen[a] || a == w.N {
				continue
			}
			seen[a] = true
			if a.op == "len" && !contains(a, w.N) || a.op == "Nx" || a.op == "Lx" {
				if st.holds(mkLt(w.N, a)) {
					return true
				}
			}
		}
	}
	return selfFact(st)
}

func checkC13(k *Chk) {
	e := k.e
	k.decs(func(d *Dec) {
		c := d.c
		if d.v.how != "late" {
			jump := mkSub(d.v.n, d.v.ix0)
			k.ob(c.st.holds(mkLe(jump, mkInt(maxAhead))) || withSelf(c.st, d.v.S, e), "a message too far ahead is rejected", c,
				"a message is accepted which may be %s ahead of its chain", jump.str(6))
		}
		if d.ev == nil {
			return
		}
		keys := e.ch(d.cN, "MessageKeys")
		k.ob(c.atMost(keys, e.chKeys(d), maxKeys), "a chain keeps at most 2,000 saved keys", c, "the saved keys are %s", keys.str(6))
		cs := e.ss(d.NS, "ReceiverChains")
		k.ob(c.atMost(cs, e.ss(d.v.S, "ReceiverChains"), maxChains), "a session keeps at most five receiving chains", c, "the receiving chains are %s", cs.str(6))
		old := tEmpty
		if d.rec != nil {
			old = e.recPrev(d.rec)
		}
		k.ob(c.atMost(e.recPrev(d.recN), old, maxPrev), "a record keeps at most forty archived sessions", c, "the archived sessions are %s", e.recPrev(d.recN).str(6))
	})
	for _, c := range k.cases("PPB") {
		if ev, rec := c.lastStore(); c.ok() && ev != nil {
			old := tEmpty
			if r := c.loaded("session.Store.Load"); r != nil {
				old = e.recPrev(r)
			}
			k.ob(c.atMost(e.recPrev(rec), old, maxPrev), "a record keeps at most forty archived sessions", c, "the archived sessions are %s", e.recPrev(rec).str(6))
		}
	}
	k.gdecs(func(c *Case, v *GView, rec, NS *T) {
		if v.how != "late" {
			k.ob(c.st.holds(mkLe(mkSub(v.n, v.it0), mkInt(maxAhead))), "a message too far ahead is rejected", c, "a message is accepted which may be %s ahead of its chain", mkSub(v.n, v.it0).str(6))
		}
		keys := e.sk(NS, "SenderMessageKeys")
		k.ob(c.atMost(keys, e.sk(v.S, "SenderMessageKeys"), maxKeys), "a chain keeps at most 2,000 saved keys", c, "the saved keys are %s", keys.str(6))
	})
	for _, c := range k.cases("GPROC") {
		if ev, rec := c.lastStore(); c.ok() && ev != nil {
			old := tEmpty
			if r := c.grec(); r != nil {
				old = e.grecStates(r)
			}
			k.ob(c.atMost(e.grecStates(rec), old, maxGroup), "a group record keeps at most five states", c, "the states are %s", e.grecStates(rec).str(6))
		}
	}
	for _, sn := range []string{"ENC", "PPB", "PPK", "GENC"} {
		k.cases(sn)
	}
	for i := range e.works {
		w := &e.works[i]
		if e.scens[w.Entry] == nil {
			continue
		}
		k.counts["loop iterations"]++
		k.ob(w.bounded(), "the number of iterations caused by a peer is bounded", nil, "the loop in %s (from %s) is not known to do a bounded number of iterations", e.short(w.Fn), w.Entry)
	}
	k.floor("loop iterations", 20)
}

// keptBut: keys are the old ones in order, except (some of) those at l or with its counter.
func (c *Case) keptBut(keys, old, l, n *T, el types.Type, ix string) bool {
	want := mkCat(subB(old, mkInt(0), l), subB(old, mkAdd(l, mkInt(1)), mkLen(old)))
	if c.same(keys, want) {
		return true
	}
	if keys.op == "fmc" && c.same(keys.args[0], mkLen(old)) {
		m := withVT(mkSym("$m"), nil)
		if instB(keys.args[2], keys.s, m) != mkList(mkIdxT(old, m, nil)) {
			return false
		}
		q := c.st.clone()
		q.assume(mkLe(mkInt(0), m), true)
		q.assume(mkLt(m, mkLen(old)), true)
		i, _ := walk(mkIdxT(old, m, nil), ptrTo(el), ix)
		q.assume(mkEq0(mkSub(i, n)), false)
		return q.holds(instB(keys.args[1], keys.s, m))
	}
	return false
}

// savedAhead: keys are the old ones followed by one for each skipped counter, the oldest dropped only at the limit.
func (c *Case) savedAhead(keys, old, cnt *T, entry func(st *State, i, p *T) bool) (ok bool, why string) {
	if c.over(old, maxKeys) {
		return true, ""
	}
	if c.same(cnt, mkInt(0)) {
		return c.same(keys, old), "nothing was skipped, but the saved keys changed"
	}
	i := withVT(mkSym("$i"), nil)
	q := c.st.clone()
	q.assume(mkLe(mkInt(0), i), true)
	q.assume(mkLt(i, cnt), true)
	body := func(t *T) bool {
		b := instB(t.args[len(t.args)-1], t.s, i)
		return b.op == "list" && len(b.args) == 1 && entry(q, i, b.args[0])
	}
	switch keys.op {
	case "push":
		if cp, isC := keys.args[0].isInt(); !isC || cp < maxKeys {
			return false, "saved keys are dropped before there are 2,000"
		}
		if !c.same(keys.args[1], old) {
			return false, "the keys saved before are not kept"
		}
		if !c.same(keys.args[2], cnt) {
			return false, "not one key per skipped message is saved"
		}
		return body(keys), "a saved key is not the one of its counter"
	case "fm", "cat":
		fm := keys
		if keys.op == "cat" {
			if len(keys.args) != 2 || !c.same(keys.args[0], old) {
				return false, "the keys saved before are not kept"
			}
			fm = keys.args[1]
		} else if !c.same(mkLen(old), mkInt(0)) {
			return false, "the keys saved before are not kept"
		}
		if fm.op == "list" && len(fm.args) == 1 && c.same(cnt, mkInt(1)) {
			return entry(c.st, mkInt(0), fm.args[0]), "a saved key is not the one of its counter"
		}
		if fm.op != "fm" || !c.same(fm.args[0], cnt) {
			return false, "not one key per skipped message is saved"
		}
		return body(fm), "a saved key is not the one of its counter"
	}
	return false, "the saved keys are not the ones of the skipped messages"
}

func checkC14(k *Chk) {
	e := k.e
	mkT := e.typ("@/generated/v1.SessionStructure_Chain_MessageKey")
	skT := e.typ("@/generated/v1.SenderKeyStateStructure_SenderMessageKey")
	k.decs(func(d *Dec) {
		c := d.c
		if d.ev == nil {
			return
		}
		keys := e.ch(d.cN, "MessageKeys")
		ck, ix := e.ch(d.cN, "ChainKey", "Key"), e.ch(d.cN, "ChainKey", "Index")
		k.ob(d.otherChains(), "the other receiving chains are kept", c, "the receiving chains are %s", e.ss(d.NS, "ReceiverChains").str(6))
		if d.v.how == "late" {
			k.counts["late messages"]++
			k.ob(c.keptBut(keys, e.ch(d.v.ch, "MessageKeys"), d.v.l, d.v.n, mkT, "Index"), "the other saved keys are kept", c, "the saved keys afterwards are %s", keys.str(8))
			k.ob(c.same(ck, d.v.ck0) && c.same(ix, d.v.ix0), "a late message leaves the chain where it is", c, "the chain's index afterwards is %s", ix.str(6))
			return
		}
		k.counts["messages ahead"]++
		k.ob(c.same(ck, hmacT(d.v.ck, mkStr("\x02"))), "the chain continues after the message", c, "the chain key afterwards is %s", ck.str(8))
		k.ob(c.same(ix, mkAdd(d.v.n, mkInt(1))), "the chain's index is the one after the message", c, "the index afterwards is %s", ix.str(6))
		ok, why := c.savedAhead(keys, e.chKeys(d), mkSub(d.v.n, d.v.ix0), func(st *State, i, p *T) bool {
			if p.op != "box" {
				return false
			}
			cipher, mac, iv := msgKeys(recChain(i, d.v.ck0))
			f := func(n string) *T { v, _ := walk(p.args[0], mkT, n); return v }
			return sameT(st, f("Index"), mkAdd(d.v.ix0, i), 0) && sameT(st, f("CipherKey"), cipher, 0) && sameT(st, f("MacKey"), mac, 0) && sameT(st, f("Iv"), iv, 0)
		})
		k.ob(ok, "the keys of all skipped messages are saved", c, "%s: %s", why, keys.str(8))
		if d.v.how == "ratchet" && d.otherChains() {
			old, now := e.ss(d.v.S, "ReceiverChains"), e.ss(d.NS, "ReceiverChains")
			k.ob(c.st.holds(mkLt(mkLen(old), mkLen(now))) || c.st.holds(mkLe(mkInt(maxChains), mkLen(old))), "a receiving chain is dropped only at the limit", c, "the oldest receiving chain is dropped although there are %s", mkLen(old).str(4))
		}
	})
	k.floor("late messages", 2)
	k.floor("messages ahead", 4)
	k.gdecs(func(c *Case, v *GView, rec, NS *T) {
		keys, old := e.sk(NS, "SenderMessageKeys"), e.sk(v.S, "SenderMessageKeys")
		seed, it := e.sk(NS, "SenderChainKey", "Seed"), e.sk(NS, "SenderChainKey", "Iteration")
		if v.how == "late" {
			k.ob(c.keptBut(keys, old, v.l, v.n, skT, "Iteration"), "the other saved keys are kept", c, "the saved keys afterwards are %s", keys.str(8))
			k.ob(c.same(seed, v.s0) && c.same(it, v.it0), "a late message leaves the chain where it is", c, "the chain's iteration afterwards is %s", it.str(6))
			return
		}
		k.ob(c.same(seed, hmacT(recChain(mkSub(v.n, v.it0), v.s0), mkStr("\x02"))), "the chain continues after the message", c, "the chain key afterwards is %s", seed.str(8))
		k.ob(c.same(it, mkAdd(v.n, mkInt(1))), "the chain's index is the one after the message", c, "the iteration afterwards is %s", it.str(6))
		ok, why := c.savedAhead(keys, old, mkSub(v.n, v.it0), func(st *State, i, p *T) bool {
			if p.op != "box" {
				return false
			}
			f := func(n string) *T { x, _ := walk(p.args[0], skT, n); return x }
			return sameT(st, f("Iteration"), mkAdd(v.it0, i), 0) && sameT(st, f("Seed"), hmacT(recChain(i, v.s0), mkStr("\x01")), 0)
		})
		k.ob(ok, "the keys of all skipped messages are saved", c, "%s: %s", why, keys.str(8))
	})
	for _, n := range []string{"DECW", "DECP", "GDEC"} {
		k.accept(n, (*Case).behind)
	}
}

// ---------------------------------------------------------------- C20

// refutes: the facts exclude that an element of seq satisfies the conditions.
func (c *Case) refutes(seq *T, el types.Type, conds func(x *T) []*T) bool {
	q := c.st.clone()
	m := withVT(mkSym("$m"), nil)
	if !q.assume(mkLe(mkInt(0), m), true) || !q.assume(mkLt(m, mkLen(seq)), true) {
		return true
	}
	x := mkIdxT(seq, m, el)
	for _, f := range conds(x) {
		if !q.assume(f, true) {
			return true
		}
	}
	return q.refuted(mkIdxT(seq, m, el))
}

// excluded: the facts contradict the conjunction of the conditions.
func (c *Case) excluded(conds []*T) bool {
	q := c.st.clone()
	for _, f := range conds {
		if !q.assume(f, true) {
			return true
		}
	}
	if !q.possible() {
		return true
	}
	for f, v := range q.facts {
		if f.op != "or" && f.op != "and" || v != (f.op == "or") {
			continue
		}
		possible := false
		for _, d := range f.args {
			r := q.clone()
			possible = possible || r.assume(d, v) && r.possible()
		}
		if !possible {
			return true
		}
	}
	return false
}

func checkC20(k *Chk) {
	e := k.e
	k.decs(func(d *Dec) {
		c := d.c
		if d.ev == nil {
			return
		}
		S, NS := d.v.S, d.NS
		if d.v.how != "ratchet" {
			d.keeps(k, "with a known ratchet key, root key and sending chain stay", "RootKey", "SenderChain", "PreviousCounter")
			return
		}
		k.counts["ratchet steps"]++
		R := d.v.R
		priv := e.ss(NS, "SenderChain", "SenderRatchetKeyPrivate")
		fresh := priv.op == "skbytes" && c.isFresh(priv.args[0])
		k.ob(fresh, "the new ratchet key pair is freshly generated", c, "the ratchet key afterwards is %s", priv.str(8))
		if !fresh {
			return
		}
		nk := priv.args[0]
		root, ck := rootStep(d.v.root, nk, R)
		k.ob(c.same(e.ss(NS, "RootKey"), root), "the root key is the result of both steps", c, "the root key is %s", e.ss(NS, "RootKey").str(8))
		k.ob(c.same(e.ss(NS, "SenderChain", "ChainKey", "Key"), ck) && c.same(e.ss(NS, "SenderChain", "ChainKey", "Index"), mkInt(0)),
			"the new sending chain starts at the sending step", c, "the sending chain is %s", e.ss(NS, "SenderChain", "ChainKey").str(8))
		k.ob(c.same(e.ss(NS, "SenderChain", "SenderRatchetKey"), apply("pkbytes", mkPub(nk))), "the public ratchet key belongs to the private one", c, "the public ratchet key is %s", e.ss(NS, "SenderChain", "SenderRatchetKey").str(8))
		k.ob(c.same(e.ch(d.cN, "SenderRatchetKey"), apply("pkbytes", R)), "the new receiving chain is recorded for the message's ratchet key", c, "it is recorded for %s", e.ch(d.cN, "SenderRatchetKey").str(8))
		ix, pc := e.ss(S, "SenderChain", "ChainKey", "Index"), e.ss(NS, "PreviousCounter")
		q := c.st.clone()
		z := q.assume(mkEq0(ix), true) && q.consistent()
		okZ := !z || sameT(q, resolveSels(q, pc), mkInt(0), 0)
		p := c.st.clone()
		pos := p.assume(mkLe(mkInt(1), ix), true) && p.consistent()
		okP := !pos || sameT(p, resolveSels(p, pc), mkSub(ix, mkInt(1)), 0)
		k.ob(okZ && okP, "the previous sending chain's last counter is recorded", c, "the previous counter is %s", pc.str(6))
		k.ob(c.refutes(e.ss(S, "ReceiverChains"), ptrTo(e.chainT()), func(x *T) []*T {
			return []*T{mkEq(apply("pkbytes", R), e.ch(x, "SenderRatchetKey"))}
		}) || c.refutes(e.ss(S, "ReceiverChains"), ptrTo(e.chainT()), func(x *T) []*T {
			b := e.ch(x, "SenderRatchetKey")
			return []*T{apply("pkok", b), pkEq(R, mkPk(b))}
		}), "a ratchet step is made only for a new ratchet key", c, "a ratchet step is made although there may be a receiving chain for the ratchet key")
	})
	k.floor("ratchet steps", 2)
	k.required("ratchet steps", 1)
}

// isFresh: a key made of fresh random bytes.
func (c *Case) isFresh(key *T) bool {
	return anySub(key, func(x *T) bool { return x.op == "rnd" }) != nil
}

// ---------------------------------------------------------------- C28

func checkC28(k *Chk) {
	e := k.e
	for _, c := range k.cases("ENC") {
		if !c.ok() {
			continue
		}
		S := c.encS()
		if S == nil {
			continue
		}
		sig, pre := c.sent()
		if sig == nil {
			k.undec = append(k.undec, "the encrypted message is not recognised")
			continue
		}
		pk := e.ss(S, "PendingPreKey")
		switch c.nilness(pk) {
		case 1:
			k.counts["plain messages"]++
			k.ob(pre == nil, "after the handshake is confirmed, plain messages are sent", c, "a pre-key message is sent although no handshake is pending")
			continue
		case -1:
			k.ob(false, "pre-key messages are sent exactly while the handshake is pending", c, "whether a handshake is pending makes no difference")
			continue
		}
		k.counts["pre-key messages"]++
		if !k.ob(pre != nil, "until the handshake is confirmed, pre-key messages are sent", c, "a plain message is sent although the handshake is pending") {
			continue
		}
		_, m, rest := e.wireParts(c.bytesOf("PreKey", pre), "PreKeySignalMessage")
		if m == nil {
			k.undec = append(k.undec, "wire form of the pre-key message not recognised")
			continue
		}
		f := func(n string) *T { return e.pf(m, "PreKeySignalMessage", n) }
		k.ob(rest == tEmpty && c.same(f("Message"), c.bytesOf("Signal", sig)), "the pre-key message carries the whole message", c, "it carries %s", f("Message").str(6))
		_, idPub := e.ownIdentity(c.sc.args["self"])
		k.ob(c.same(unsign(f("SignedPreKeyId")), e.ss(S, "PendingPreKey", "SignedPreKeyId")), "the pre-key message names the handshake's signed pre-key", c, "it names %s", f("SignedPreKeyId").str(6))
		k.ob(c.sameKeyBytes(f("BaseKey"), e.ss(S, "PendingPreKey", "BaseKey")), "the pre-key message carries the handshake's base key", c, "it carries %s", f("BaseKey").str(6))
		k.ob(c.sameKeyBytes(f("IdentityKey"), e.ss(S, "LocalIdentityPublic")) || c.same(f("IdentityKey"), apply("pkbytes", idPub)), "the pre-key message carries the local identity key", c, "it carries %s", f("IdentityKey").str(6))
		k.ob(c.same(f("RegistrationId"), e.ss(S, "LocalRegistrationId")), "the pre-key message carries the local registration ID", c, "it carries %s", f("RegistrationId").str(6))
		id := e.ss(S, "PendingPreKey", "PreKeyId")
		got, _ := walk(m, e.typ("@/generated/v1.PreKeySignalMessage"), "PreKeyId")
		zero, kn := c.st.eval(mkEq0(id))
		switch {
		case kn && zero:
			k.ob(c.nilness(got) == 1, "without a one-time pre-key, none is named", c, "the one-time pre-key named is %s", got.str(6))
		case c.nilness(got) == 0:
			k.ob(c.same(mkDeref(got, types.Typ[types.Uint32]), id), "the pre-key message names the handshake's one-time pre-key", c, "it names %s", got.str(6))
			if !kn {
				k.counts["one-time pre-key always named"]++
			}
		default:
			k.ob(false, "the pre-key message names the handshake's one-time pre-key", c, "it names %s", got.str(6))
		}
	}
	k.floor("plain messages", 1)
	k.floor("pre-key messages", 1)
	for _, c := range k.cases("PPB") {
		if !c.ok() {
			continue
		}
		_, rec := c.lastStore()
		if rec == nil {
			k.ob(false, "the handshake is stored", c, "the bundle is processed without storing the session")
			continue
		}
		k.counts["processed bundles"]++
		NS := e.stateSess(e.recCur(rec))
		_, base, _ := c.newAlice(NS)
		if base == nil {
			k.undec = append(k.undec, "key pairs of the new session not recognised")
			continue
		}
		k.pending(c, NS, base)
		id := e.bundle(c.sc.args["p2"], "PreKeyID")
		if c.nilness(id) == 0 {
			k.ob(!c.same(e.ss(NS, "PendingPreKey", "PreKeyId"), mkDeref(id, types.Typ[types.Uint32])) || c.st.holds(mkLe(mkInt(1), mkDeref(id, types.Typ[types.Uint32]))),
				"a one-time pre-key with ID 0 is told apart from none", c, "the ID of a bundle's one-time pre-key is recorded as a number whose zero means that there is none")
		}
	}
	k.floor("processed bundles", 2)
	k.decs(func(d *Dec) {
		if d.ev == nil {
			return
		}
		p := e.ss(d.NS, "PendingPreKey")
		k.ob(d.c.nilness(p) == 1, "an authenticated message from the peer confirms the handshake", d.c, "the pending handshake afterwards is %s", p.str(6))
	})
	// one session per handshake
	for _, sn := range []string{"DECP", "PPK"} {
		for _, c := range k.cases(sn) {
			if !c.ok() {
				continue
			}
			base := apply("pkbytes", mkPk(e.pf(c.outer(), "PreKeySignalMessage", "BaseKey")))
			cur, prev := c.recBefore()
			is := func(S *T) []*T {
				v := e.ss(S, "SessionVersion")
				return []*T{mkEq0(mkSub(v, mkInt(3))), mkEq(e.ss(S, "AliceBaseKey"), base)}
			}
			if len(c.okEv("prekey.SignedStore.Load")) == 0 {
				k.counts["repeated handshakes"]++
				continue
			}
			k.counts["new handshakes"]++
			if cur != nil && c.nilness(cur) != 1 {
				k.ob(c.excluded(append([]*T{mkNot(mkEq(tNil, cur))}, is(e.stateSess(cur))...)), "a repeated handshake uses the session it has set up", c, "a new session is set up although the current one may belong to the same handshake")
			}
			if prev != nil && prev != tEmpty {
				k.ob(c.refutes(prev, bytesT, func(x *T) []*T { return is(e.unmVal("SessionStructure", x)) }),
					"a repeated handshake uses the session it has set up, also if archived", c, "a new session is set up although an archived one may belong to the same handshake")
			}
		}
	}
	k.floor("new handshakes", 2)
	k.required("repeated handshakes", 1)
}

// recBefore: current state (pointer) and archived sessions before the operation.
func (c *Case) recBefore() (cur, prev *T) {
	if c.sc.name == "PPK" {
		r := c.sc.args["p1"]
		return c.e.recCur(r), c.e.recPrev(r)
	}
	if r := c.loaded("session.Store.Load"); r != nil {
		return c.e.recCur(r), c.e.recPrev(r)
	}
	return nil, nil
}

// sameKeyBytes: encodings of the same key.
func (c *Case) sameKeyBytes(a, b *T) bool {
	return c.same(a, b) || c.same(a, apply("pkbytes", mkPk(b)))
}

// ---------------------------------------------------------------- C29

func checkC29(k *Chk) {
	e := k.e
	k.decs(func(d *Dec) {
		c := d.c
		k.counts[d.v.kind+" session used"]++
		if d.v.kind == "archived" {
			k.counts["archived, "+d.v.how]++
		}
		if !k.ob(d.ev != nil, "the session used is stored", c, "nothing is stored") {
			return
		}
		a := c.prevExplained(d)
		if !k.ob(a != nil, "replaced sessions are archived unchanged, the one used becomes current, the others stay in order", c, "the archived sessions afterwards are %s", e.recPrev(d.recN).str(8)) {
			return
		}
		for _, n := range a.drops {
			k.ob(c.st.holds(mkLe(mkInt(maxPrev), n)), "an archived session is dropped only at the limit", c, "the oldest archived session is dropped although there are only %s", n.str(4))
		}
		d.keeps(k, "the session that decrypted the message becomes the current one", "SessionVersion", "LocalIdentityPublic", "RemoteIdentityPublic", "AliceBaseKey", "RemoteRegistrationId", "LocalRegistrationId")
	})
	for _, w := range []string{"current session used", "archived session used", "new session used", "archived, ahead", "archived, late", "archived, ratchet"} {
		k.required(w, 1)
	}
	for _, c := range k.cases("PPB") {
		if !c.ok() {
			continue
		}
		_, rec := c.lastStore()
		if !k.ob(rec != nil, "the new session is stored", c, "nothing is stored") {
			continue
		}
		if a := k.archivedPPB(c, rec); a != nil {
			for _, n := range a.drops {
				k.ob(c.st.holds(mkLe(mkInt(maxPrev), n)), "an archived session is dropped only at the limit", c, "the oldest archived session is dropped although there are only %s", n.str(4))
			}
		}
	}
	// a record processed without storing (ProcessPreKey): the caller's record is updated
}

func init() {
	specs["C12"] = spec{run: checkC12, rule: "on every path, a one-time pre-key is deleted if and only if the path succeeds with a session newly set up from it, and loads and deletions carry the message's own ids"}
	specs["C13"] = spec{run: checkC13, rule: "on every successful path the jump is bounded among the path facts; every loop iteration reachable has a bound; stored sequences stay within their limits if they were before"}
	specs["C14"] = spec{run: checkC14, rule: "on every successful path the stored chain holds, for an arbitrary skipped counter, exactly the keys of that counter, and all other saved keys"}
	specs["C20"] = spec{run: checkC20, rule: "on every successful path with a new ratchet key the stored root key, chains and previous counter are the terms of a full ratchet step, else the loaded ones"}
	specs["C28"] = spec{run: checkC28, rule: "on every successful path of encrypting, a pre-key message with the pending handshake's fields is sent iff a handshake is pending; decrypting clears it; a new session is set up only if the facts exclude a known handshake"}
	specs["C29"] = spec{run: checkC29, rule: "on every successful path the stored archived sessions equal the term the protocol asks for"}
}

func posOf(evs []*Event) (p0 tokenPos) {
	if len(evs) > 0 {
		return evs[0].Pos
	}
	return 0
}
