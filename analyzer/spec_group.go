package main

import "go/types"

// Group sessions: C02, C08 and the group parts of C09 .. C14.

func (c *Case) gmsg() (msg *T, name string) {
	w := c.sc.args["wire"]
	switch c.sc.name {
	case "GDEC":
		return c.e.unmVal("SenderKeyMessage", subB(w, mkInt(1), mkSub(mkLen(w), mkInt(64)))), "SenderKeyMessage"
	case "GPROC":
		return c.e.unmVal("SenderKeyDistributionMessage", subB(w, mkInt(1), mkLen(w))), "SenderKeyDistributionMessage"
	}
	return nil, ""
}

// msgDist is the distribution the received message names.
func (c *Case) msgDist() *T {
	m, n := c.gmsg()
	t := c.e.typ("@/distribution.ID")
	b := c.e.pf(m, n, "DistributionUuid")
	return mkStruct(t, []*T{apply("uuid", b)})
}

func (e *Engine) gstateT() types.Type { return ptrTo(e.typ("@/session.GroupState")) }

// GView explains the plaintext of a group message.
type GView struct {
	S    *T // the sender-key state used (a structure)
	i    *T // its number in the record
	how  string
	n    *T // the message's iteration
	it0  *T
	s0   *T
	l    *T // number of the saved key, for late
	key  *T
	iv   *T
	seed *T // message key seed
}

func (c *Case) gviews() []*GView {
	e := c.e
	p := c.vals[0]
	rec := c.grec()
	if p.op != "cbcdec" || rec == nil {
		return nil
	}
	m, mn := c.gmsg()
	n := e.pf(m, mn, "Iteration")
	states := e.grecStates(rec)
	var out []*GView
	for _, i := range idxOf(p, states) {
		S := e.gstate(mkIdxT(states, i, e.gstateT()))
		v := GView{S: S, i: i, n: n, it0: e.sk(S, "SenderChainKey", "Iteration"), s0: e.sk(S, "SenderChainKey", "Seed")}
		keys := e.sk(S, "SenderMessageKeys")
		for _, l := range idxOf(p, keys) {
			w := v
			w.how, w.l = "late", l
			mt := ptrTo(e.typ("@/generated/v1.SenderKeyStateStructure_SenderMessageKey"))
			w.seed, _ = walk(mkIdxT(keys, l, nil), mt, "Seed")
			s := hkdf(w.seed, tEmpty, "WhisperGroup")
			w.key, w.iv = subB(s, mkInt(16), mkInt(48)), subB(s, mkInt(0), mkInt(16))
			out = append(out, &w)
		}
		v.how = "ahead"
		v.key, v.iv = groupKeys(recChain(mkSub(n, v.it0), v.s0))
		out = append(out, &v)
	}
	var hit []*GView
	for _, v := range out {
		if c.same(p.args[0], v.key) && c.same(p.args[1], v.iv) {
			hit = append(hit, v)
		}
	}
	return hit
}

func (e *Engine) gkeyIter(v *GView) *T {
	x, _ := walk(mkIdxT(e.sk(v.S, "SenderMessageKeys"), v.l, nil), ptrTo(e.typ("@/generated/v1.SenderKeyStateStructure_SenderMessageKey")), "Iteration")
	return x
}

func checkC02(k *Chk) {
	e := k.e
	for _, c := range k.cases("GDEC") {
		if !c.ok() {
			continue
		}
		k.counts["successful decryptions"]++
		w := c.sc.args["wire"]
		cut := mkSub(mkLen(w), mkInt(64))
		m, mn := c.gmsg()
		vs := c.gviews()
		if !k.ob(len(vs) > 0, "the plaintext is a decryption under the key of the message's own iteration on its own chain", c, "the plaintext is %s", c.vals[0].str(8)) {
			continue
		}
		v := vs[0]
		k.ob(c.same(c.vals[0].args[2], e.pf(m, mn, "Ciphertext")), "the decrypted bytes are the signed ciphertext field", c, "the decrypted bytes are %s", c.vals[0].args[2].str(6))
		k.ob(c.holdsVerify(mkPk(e.sk(v.S, "SenderSigningKey", "Public")), subB(w, cut, mkLen(w)), subB(w, mkInt(0), cut)),
			"the signature over all received bytes before it was verified under the chain's signing key", c, "a plaintext is returned without the signature having been verified over all preceding bytes under the stored signing key")
		k.ob(c.same(e.sk(v.S, "ChainId"), e.pf(m, mn, "ChainId")), "the chain used is the one the message names", c, "the chain used was not found to be the one the message names")
		if v.how == "late" {
			k.ob(c.same(e.gkeyIter(v), v.n), "the saved key used is that of the message's iteration", c, "the saved key's iteration was not found to be the message's")
		} else {
			k.ob(c.st.holds(mkLe(v.it0, v.n)), "a key is only derived forward", c, "the iteration was not found to be at or after the chain's")
		}
		for _, ev := range c.okEv("session.GroupStore.Load") {
			k.ob(c.ownAddr(ev.Flat[1]) && c.sameStruct(ev.Flat[2], c.msgDist(), e.typ("@/distribution.ID")), "the keys are those stored for the message's sender and distribution", c, "the record is loaded for %s, %s", ev.Flat[1].str(6), ev.Flat[2].str(6))
		}
	}
	k.floor("successful decryptions", 2)
}

// holdsVerify: the facts say that a signature verified.
func (c *Case) holdsVerify(pk, sig, msg *T) bool {
	if c.st.holds(apply("verify", pk, sig, msg)) {
		return true
	}
	for f, v := range c.st.facts {
		if v && f.op == "verify" && c.same(f.args[0], pk) && c.same(f.args[1], sig) && c.same(f.args[2], msg) {
			return true
		}
	}
	return false
}

// gdecs visits every explained successful group decryption with its stored state.
func (k *Chk) gdecs(f func(c *Case, v *GView, rec, NS *T)) {
	e := k.e
	for _, c := range k.cases("GDEC") {
		if !c.ok() {
			continue
		}
		k.counts["successful group decryptions"]++
		vs := c.gviews()
		if len(vs) == 0 {
			k.undec = append(k.undec, "plaintext not explained by keys of the message (see C02)")
			continue
		}
		ev, rec := c.lastStore()
		if ev == nil {
			k.ob(false, "the sender-key state is stored after decrypting", c, "nothing is stored after decrypting")
			continue
		}
		f(c, vs[0], rec, e.gstate(mkIdxT(e.grecStates(rec), vs[0].i, e.gstateT())))
	}
	k.floor("successful group decryptions", 2)
}

func checkC08(k *Chk) {
	e := k.e
	k.gdecs(func(c *Case, v *GView, rec, NS *T) {
		keys, old := e.sk(NS, "SenderMessageKeys"), e.sk(v.S, "SenderMessageKeys")
		if v.how == "late" {
			k.ob(c.keyGone(keys, old, v.l, v.n, "Iteration"), "the saved key of a late message is gone afterwards", c, "the saved keys afterwards are %s", keys.str(8))
			return
		}
		it := e.sk(NS, "SenderChainKey", "Iteration")
		k.ob(c.st.holds(mkLt(v.n, it)), "the chain is past the message's iteration afterwards", c, "the iteration afterwards is %s", it.str(6))
		k.ob(c.st.holds(mkLe(v.it0, v.n)), "a message behind the chain is only decrypted with a saved key", c, "the iteration was not found to be at or after the chain's")
		k.ob(c.savedBelow(keys, old, v.n, "Iteration"), "the key of the message itself is not saved", c, "the saved keys afterwards are %s", keys.str(8))
	})
	for _, c := range k.cases("GPROC") {
		if c.ok() {
			k.procStored(c, nil)
		}
	}
	k.floor("chains kept", 1)
	k.floor("chains added", 1)
}

// ---------------------------------------------------------------- stored records

// groupStored: the record stored by encrypting or decrypting is the loaded one but for the state used.
func (k *Chk) groupStored(c *Case, nrec *T) {
	e := k.e
	rec := c.grec()
	if rec == nil {
		k.ob(false, "the record loaded is the one that is updated", c, "no record was loaded")
		return
	}
	old, now := e.grecStates(rec), e.grecStates(nrec)
	var i *T
	if c.sc.name == "GDEC" {
		vs := c.gviews()
		if len(vs) == 0 {
			k.undec = append(k.undec, "plaintext not explained by keys of the message (see C02)")
			return
		}
		i = vs[0].i
	} else {
		_, m, _ := e.wireParts(c.bytesOf("SenderKey", c.vals[0]), "SenderKeyMessage")
		if m == nil {
			k.undec = append(k.undec, "wire form of the sent group message not recognised")
			return
		}
		is := idxOf(e.pf(m, "SenderKeyMessage", "Ciphertext"), old)
		if len(is) == 0 {
			k.undec = append(k.undec, "chain used for the message not recognised")
			return
		}
		i = is[0]
	}
	p := mkIdxT(now, i, e.gstateT())
	want := mkCat(subB(old, mkInt(0), i), mkList(p), subB(old, mkAdd(i, mkInt(1)), mkLen(old)))
	k.ob(c.sameVal(now, want, types.NewSlice(e.gstateT())), "the other sender-key states are stored as loaded", c, "the states are %s", now.str(8))
	NS, S := e.gstate(p), e.gstate(mkIdxT(old, i, e.gstateT()))
	for _, f := range []string{"MessageVersion", "ChainId", "SenderSigningKey"} {
		k.ob(c.sameVal(e.sk(NS, f), e.sk(S, f), fieldType(e.skT(), f)), "what the operation does not update is stored as loaded", c, "%s is stored as %s", f, e.sk(NS, f).str(6))
	}
	if c.sc.name == "GENC" {
		k.ob(c.sameVal(e.sk(NS, "SenderMessageKeys"), e.sk(S, "SenderMessageKeys"), fieldType(e.skT(), "SenderMessageKeys")), "what the operation does not update is stored as loaded", c, "the saved keys are %s", e.sk(NS, "SenderMessageKeys").str(6))
	}
}

// wantState checks a sender-key state made from a distribution.
func (k *Chk) wantState(c *Case, rule string, S, version, chain, iter, seed, pub, priv *T) {
	e := k.e
	get := func(what string, got, want *T) {
		if want == nil {
			return
		}
		k.ob(c.same(got, want), rule, c, "%s is %s", what, got.str(8))
	}
	get("the version", e.sk(S, "MessageVersion"), version)
	get("the chain ID", e.sk(S, "ChainId"), chain)
	get("the iteration", e.sk(S, "SenderChainKey", "Iteration"), iter)
	get("the chain key", e.sk(S, "SenderChainKey", "Seed"), seed)
	get("the signing key", e.sk(S, "SenderSigningKey", "Public"), pub)
	get("the private signing key", e.sk(S, "SenderSigningKey", "Private"), priv)
	get("the number of saved keys", mkLen(e.sk(S, "SenderMessageKeys")), mkInt(0))
}

// procStored: the record stored for a distribution message.
func (k *Chk) procStored(c *Case, nrec *T) {
	e := k.e
	if nrec == nil {
		ev, r := c.lastStore()
		if ev == nil {
			k.ob(false, "the record is stored", c, "a distribution message is processed without storing the record")
			return
		}
		nrec = r
	}
	now := e.grecStates(nrec)
	old := tEmpty
	if rec := c.grec(); rec != nil {
		old = e.grecStates(rec)
	}
	m, mn := c.gmsg()
	id := e.pf(m, mn, "ChainId")
	signing := mkPk(e.pf(m, mn, "SigningKey"))
	// all but the last; the oldest may have been dropped
	dropped := false
	front, lastL := tEmpty, now
	if a := now.args; now.op == "sub" && a[0].op == "cat" && a[1] == mkInt(1) && c.same(a[2], mkLen(a[0])) {
		now = a[0]
		dropped = true
		k.ob(c.st.holds(mkLe(mkInt(6), mkLen(now))), "a chain is dropped only at the limit", c, "the oldest chain is dropped although there are at most five with the new one")
	}
	if now.op == "cat" {
		front, lastL = mkCat(now.args[:len(now.args)-1]...), now.args[len(now.args)-1]
	}
	if lastL.op != "list" {
		k.ob(false, "the chain of the message is the last one of the record", c, "the stored states are %s", now.str(8))
		return
	}
	if n := len(lastL.args); n > 1 {
		front, lastL = mkCat(front, mkList(lastL.args[:n-1]...)), mkList(lastL.args[n-1])
	}
	if !dropped && front.op == "sub" && front.args[1] == mkInt(1) && c.same(front.args[2], mkLen(front.args[0])) && front.args[0] != old {
		dropped = true
		front = front.args[0]
		k.ob(c.st.holds(mkLe(mkInt(5), mkLen(front))), "a chain is dropped only at the limit", c, "the oldest chain is dropped although there are fewer than five")
	}
	rest, und := flatten(c.st, front)
	last := lastL.args[0]
	var kept *T
	if last.op == "idx" && last.args[0] == old {
		kept = last.args[1]
		S := e.gstate(last)
		k.counts["chains kept"]++
		k.ob(c.same(e.sk(S, "ChainId"), id), "an existing state is kept only for the message's chain", c, "the state kept was not found to be of the message's chain")
		k.ob(c.same(mkPk(e.sk(S, "SenderSigningKey", "Public")), signing), "an existing state is kept only for the message's signing key", c, "the state kept was not found to have the message's signing key")
	} else {
		k.counts["chains added"]++
		w := c.sc.args["wire"]
		_ = w
		k.wantState(c, "a new chain is the one of the message", e.gstate(last), mkInt(3), id, e.pf(m, mn, "Iteration"), e.pf(m, mn, "ChainKey"), apply("pkbytes", signing), tEmpty)
		// no state of that chain and key existed
		if old != tEmpty {
			q := c.st.clone()
			x := withVT(mkSym("$m"), nil)
			S := e.gstate(mkIdxT(old, x, e.gstateT()))
			may := q.assume(mkLe(mkInt(0), x), true) && q.assume(mkLt(x, mkLen(old)), true) &&
				q.assume(mkEq0(mkSub(e.sk(S, "ChainId"), id)), true) &&
				q.assume(apply("pkok", e.sk(S, "SenderSigningKey", "Public")), true) &&
				q.assume(pkEq(signing, mkPk(e.sk(S, "SenderSigningKey", "Public"))), true)
			k.ob(!may || q.refuted(idxRef(old, x)), "a distribution of a known chain keeps the existing, advanced chain", c, "the chain of the message is replaced although a state of the same chain and signing key may exist")
		}
	}
	// the rest: all other chains, in order, except those of the same ID; the oldest may be dropped at the limit
	k.ob(und == nil && c.filtered(rest, old, id, kept), "the other chains are kept in order", c, "the stored states are %s", now.str(10))
	if !dropped {
		q := c.st.clone()
		q.assume(mkLe(mkLen(old), mkInt(5)), true)
		k.ob(q.holds(mkLe(mkLen(now), mkInt(5))), "a group record keeps at most five states", c, "the number of states afterwards is not bounded: %s", mkLen(now).str(6))
	}
}

// filtered: the parts are the states of old whose chain is not id, in order, leaving out the one kept.
func (c *Case) filtered(parts []*T, old, id, kept *T) bool {
	e := c.e
	pos := mkInt(0)
	skip := func() {
		if kept != nil && c.same(pos, kept) {
			pos = mkAdd(pos, mkInt(1))
		}
	}
	for _, p := range parts {
		skip()
		switch p.op {
		case "fmc":
			N := withVT(mkSym("$f"), nil)
			q := *c
			q.st = c.st.clone()
			q.st.assume(mkLe(mkInt(0), N), true)
			q.st.assume(mkLt(N, p.args[0]), true)
			at := mkIdxT(old, mkAdd(pos, N), e.gstateT())
			b := instB(p.args[2], p.s, N)
			if b.op != "list" || len(b.args) != 1 || resolveIdx(q.st, b.args[0]) != at {
				return false
			}
			cond := instB(p.args[1], p.s, N)
			cond = substFn(cond, func(t *T) *T {
				if t.op == "idx" {
					if r := resolveIdx(q.st, t); r != t {
						return r
					}
				}
				return nil
			})
			want := mkEq0(mkSub(id, e.sk(e.gstate(at), "ChainId")))
			a, b2 := q.st.clone(), q.st.clone()
			a.assume(want, true)
			b2.assume(want, false)
			if a.consistent() {
				if v, kn := a.eval(cond); !kn || v {
					return false
				}
			}
			if b2.consistent() && !b2.holds(cond) {
				return false
			}
			pos = mkAdd(pos, p.args[0])
		default:
			return false
		}
	}
	skip()
	return c.same(pos, mkLen(old))
}

// resolveIdx finds the part of a concatenation an index falls into.
func resolveIdx(st *State, t *T) *T {
	if t.op != "idx" || t.args[0].op != "cat" {
		return t
	}
	pos := mkInt(0)
	for _, p := range t.args[0].args {
		end := mkAdd(pos, mkLen(p))
		if st.holds(mkLe(pos, t.args[1])) && st.holds(mkLt(t.args[1], end)) {
			return mkIdxT(p, mkSub(t.args[1], pos), t.vt)
		}
		pos = end
	}
	return t
}

// newStored: the record stored for a newly made sender key.
func (k *Chk) newStored(c *Case, nrec *T) {
	e := k.e
	now := e.grecStates(nrec)
	if !k.ob(c.same(mkLen(now), mkInt(1)), "a new sender key is the only one of its record", c, "the stored states are %s", now.str(8)) {
		return
	}
	S := e.gstate(mkIdxT(now, mkInt(0), e.gstateT()))
	// the distribution describes the stored state
	_, m, _ := e.wireParts(c.bytesOf("SenderKeyDistribution", c.vals[0]), "SenderKeyDistributionMessage")
	if m == nil {
		k.undec = append(k.undec, "wire form of the distribution not recognised")
		return
	}
	g := func(f string) *T { return e.pf(m, "SenderKeyDistributionMessage", f) }
	k.wantState(c, "the distribution describes the stored sender key", S, nil, g("ChainId"), g("Iteration"), g("ChainKey"), g("SigningKey"), nil)
	priv := e.sk(S, "SenderSigningKey", "Private")
	k.ob(priv.op == "skbytes" && c.same(e.sk(S, "SenderSigningKey", "Public"), apply("pkbytes", mkPub(priv.args[0]))), "the stored signing keys belong together", c, "the private signing key is %s", priv.str(6))
}

// inMemCopies: what the in-memory stores hand out shares no changeable memory with what they keep.
func (k *Chk) inMemCopies() {
	e := k.e
	for _, x := range []struct {
		ctor string
		rec  types.Type
	}{{"@/session.NewInMemStore", e.recPtrT(false)}, {"@/session.NewInMemGroupStore", e.recPtrT(true)}} {
		t := e.storeType(x.ctor)
		if t == nil {
			k.undec = append(k.undec, x.ctor+": type of the store not recognised")
			continue
		}
		fn := e.methodOf(t, "Load")
		since := e.nSerial
		for _, o := range e.callF(e.base, fn, e.paramsOf(fn)...) {
			if o.panic || !o.st.consistent() || o.vals[1] == tFalse || o.vals[2] != tNil {
				continue
			}
			k.counts["in-memory loads"]++
			k.ob(e.fresh(o.st, o.vals[0], x.rec, since, false, 0), "the in-memory store hands out a copy", nil,
				"%s hands out %s, which shares memory with what is stored, at %s", e.short(fn.String()), o.vals[0].str(6), e.where(o.pos))
		}
	}
	k.floor("in-memory loads", 2)
}

// fresh: everything changeable that v refers to has been made since the given serial number.
func (e *Engine) fresh(st *State, v *T, typ types.Type, since int, cloned bool, d int) bool {
	if v == nil || v == tNil || d > 8 {
		return v != nil && d <= 8
	}
	switch u := typ.Underlying().(type) {
	case *types.Pointer:
		if st.holds(mkEq(tNil, v)) {
			return true
		}
		switch v.op {
		case "obj":
			if e.serial[v] <= since {
				return false
			}
		case "cp":
			return true
		case "box":
			return e.fresh(st, v.args[0], u.Elem(), since, cloned, d+1)
		default:
			return false
		}
		s, ok := isPlainStruct(u.Elem())
		if !ok {
			return true
		}
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if isProtoInternal(f.Name()) && isGenerated(u.Elem()) {
				continue
			}
			if !e.fresh(st, e.load(st, mkFa(v, f.Name()), f.Type()), f.Type(), since, cloned, d+1) {
				return false
			}
		}
		return true
	case *types.Struct:
		if !cloned && isGenerated(typ) {
			cloned = anySub(v, func(x *T) bool { return x.op == "cp" }) != nil
		}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if isProtoInternal(f.Name()) && isGenerated(typ) {
				continue
			}
			if !e.fresh(st, mkFld(v, f.Name(), f.Type()), f.Type(), since, cloned, d+1) {
				return false
			}
		}
		return true
	case *types.Slice:
		if bt, ok := u.Elem().Underlying().(*types.Basic); ok && bt.Kind() != types.UnsafePointer {
			return true // bytes are never changed in place (C23)
		}
		if cloned || v.op == "cps" || v == tEmpty {
			return true
		}
		if v.op != "slice" || v.args[0].op != "obj" || e.serial[v.args[0]] <= since {
			return false
		}
		return e.freshElems(st, st.heap[v.args[0]], u.Elem(), since, d+1)
	case *types.Map:
		return v.op == "obj" && e.serial[v] > since
	}
	return true
}

func (e *Engine) freshElems(st *State, c *T, el types.Type, since, d int) bool {
	if s, ok := el.Underlying().(*types.Slice); ok {
		if _, ok := s.Elem().Underlying().(*types.Basic); ok {
			return true
		}
	}
	if _, ok := el.Underlying().(*types.Basic); ok || c == tEmpty {
		return true
	}
	if c == nil {
		return false
	}
	switch c.op {
	case "cat":
		for _, p := range c.args {
			if !e.freshElems(st, p, el, since, d) {
				return false
			}
		}
		return true
	case "list":
		for _, p := range c.args {
			if !e.fresh(st, p, el, since, false, d) {
				return false
			}
		}
		return true
	case "fm", "fmc", "push":
		return e.freshElems(st, c.args[len(c.args)-1], el, since, d)
	case "sub":
		return e.freshElems(st, c.args[0], el, since, d)
	}
	return false
}

// refuted: the facts contradict each other, given the quantified facts about the element.
func (s *State) refuted(about *T) bool {
	if !s.consistent() {
		return true
	}
	for _, i := range s.instances(about, true) {
		if !s.assume(i, true) {
			return true
		}
	}
	return !s.consistent()
}

func idxRef(seq, i *T) *T { return mkIdxT(seq, i, nil) }
