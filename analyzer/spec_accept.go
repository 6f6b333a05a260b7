package main

// C37: what is valid is not refused.

import "go/types"

func init() {
	specs["C37"] = spec{run: checkC37, rule: "in runs where stores and randomness work, everything parses, tags and signatures are right and identities trusted, every failing path of an operation has one of the reasons of the protocol: no record, no signed pre-key, no such chain, a counter already used, a counter too far ahead"}
}

// accept looks at the failing paths of runs in which nothing outside the code fails.
func (k *Chk) accept(name string, only func(c *Case) bool) {
	e := k.angels()
	defer func(old *Engine) { k.e = old }(k.e)
	k.e = e
	sc := k.scen(name)
	if sc == nil {
		return
	}
	okN := 0
	seen := map[string]bool{}
	for i, o := range sc.outs {
		for _, c := range e.splitOutcome(sc, i, o) {
			if !c.st.possible() {
				continue
			}
			k.counts["paths without outside failures"]++
			if c.ok() {
				okN++
				continue
			}
			if only != nil && !only(c) {
				continue
			}
			why, sure := c.refusal()
			if why == "" && !sure {
				s := sc.fn + ": a refusal at " + e.where(c.pos) + " is not understood"
				if !seen[s] {
					seen[s] = true
					k.undec = append(k.undec, s)
				}
				k.obls++
				continue
			}
			k.counts["refusals explained"]++
			k.ob(why != "", "a refusal has a reason of the protocol", c, "%s refuses, with %s, although nothing is missing, used or out of range", sc.fn, c.vals[len(c.vals)-1].str(3))
		}
	}
	k.obls++
	if okN > 0 {
		k.done++
	} else {
		k.viols = append(k.viols, Viol{Rule: "what is valid is accepted", Scen: sc.fn, Msg: sc.fn + " never succeeds"})
	}
}

// refusal is the protocol's reason for a failure, or whether there certainly is none.
func (c *Case) refusal() (why string, sure bool) {
	e := c.e
	absent := map[string]string{
		"ENC": "session.Store.Load", "DECW": "session.Store.Load", "GENC": "session.GroupStore.Load", "GDEC": "session.GroupStore.Load",
		"DECP": "prekey.SignedStore.Load", "PPK": "prekey.SignedStore.Load",
	}
	for _, ev := range c.okEv(absent[c.sc.name]) {
		if len(ev.Res) > 0 && ev.Res[0] == tFalse {
			return "not found", true
		}
	}
	sure = true
	clear := map[*T]bool{}
	for f := range c.st.facts {
		if unsureFact(f, clear) {
			sure = false
		}
	}
	switch c.sc.name {
	case "DECW", "DECP":
		for f, v := range c.st.facts {
			if !v && (f.op == "pkeq" || f.op == "eq") && hasFld(f, "IdentityKey") && hasFld(f, "RemoteIdentityPublic") {
				return "of another identity", true
			}
		}
		_, _, _, msg := c.msgParts()
		n := e.pf(msg, "SignalMessage", "Counter")
		if c.st.holds(mkLt(mkInt(maxAhead), n)) {
			return "too far ahead", true // of a new chain
		}
		mt := types.NewPointer(e.typ("@/generated/v1.SessionStructure_Chain_MessageKey"))
		for _, ch := range c.chainsIn() {
			r, s := c.position(n, e.ch(ch, "ChainKey", "Index"), e.ch(ch, "MessageKeys"), mt, "Index")
			if r != "" {
				return r, true
			}
			sure = sure && s
		}
	case "GDEC":
		m, mn := c.gmsg()
		n := e.pf(m, mn, "Iteration")
		rec := c.grec()
		if rec == nil {
			return "", sure
		}
		states := e.grecStates(rec)
		id := e.pf(m, mn, "ChainId")
		if c.refutes(states, e.gstateT(), func(x *T) []*T {
			return []*T{mkEq(e.sk(e.gstate(x), "ChainId"), id)}
		}) {
			return "no such chain", true
		}
		mt := types.NewPointer(e.typ("@/generated/v1.SenderKeyStateStructure_SenderMessageKey"))
		for _, i := range c.idxInFacts(states) {
			S := e.gstate(mkIdxT(states, i, e.gstateT()))
			r, s := c.position(n, e.sk(S, "SenderChainKey", "Iteration"), e.sk(S, "SenderMessageKeys"), mt, "Iteration")
			if r != "" {
				return r, true
			}
			sure = sure && s
		}
	}
	return "", sure
}

// unsureFact: a condition on values the analysis knows too little about to tell that it can hold.
// How long a sequence is after a known number of additions does not depend on what was added.
func unsureFact(f *T, clear map[*T]bool) bool {
	if clear[f] {
		return false
	}
	switch f.op {
	case "ext", "Lx", "rec", "join", "storebool":
		return true
	case "len":
		if p := f.args[0]; p.op == "push" {
			return unsureFact(p.args[0], clear) || unsureFact(p.args[1], clear) || unsureFact(p.args[2], clear)
		}
	}
	for _, a := range f.args {
		if unsureFact(a, clear) {
			return true
		}
	}
	clear[f] = true
	return false
}

// position: the reason to refuse a message at counter n of a chain at index ix with saved keys.
func (c *Case) position(n, ix, keys *T, mt types.Type, field string) (why string, sure bool) {
	if c.st.holds(mkLt(mkAdd(ix, mkInt(maxAhead)), n)) {
		return "too far ahead", true
	}
	if !c.st.holds(mkLt(n, ix)) {
		return "", true
	}
	if c.refutes(keys, mt, func(x *T) []*T {
		v, _ := walk(x, mt, field)
		return []*T{mkEq(v, n)}
	}) {
		return "used", true
	}
	// a search which is not understood
	all, other := false, false
	for f := range c.st.facts {
		if anySub(f, func(x *T) bool { return x.op == "idx" && x.args[0] == keys }) != nil {
			all = all || f.op == "all"
			other = other || f.op != "all"
		}
	}
	return "", all || !other
}

func (c *Case) idxInFacts(seq *T) []*T {
	seen := map[*T]bool{}
	var out []*T
	for f := range c.st.facts {
		for _, i := range idxOf(f, seq) {
			if !seen[i] {
				seen[i] = true
				out = append(out, i)
			}
		}
	}
	return out
}

// chainsIn are the receiving chains which the facts talk about.
func (c *Case) chainsIn() []*T {
	seen := map[*T]bool{}
	var out []*T
	for f := range c.st.facts {
		anySub(f, func(x *T) bool {
			if x.op == "idx" && x.args[0].op == "fld" && x.args[0].s == "ReceiverChains" && !hasBN(x) && !seen[x] {
				seen[x] = true
				out = append(out, mkIdxT(x.args[0], x.args[1], types.NewPointer(c.e.chainT())))
			}
			return false
		})
	}
	return out
}

func checkC37(k *Chk) {
	for _, n := range []string{"ENC", "DECW", "DECP", "PPK", "PPB", "GENC", "GDEC", "GPROC", "GNEW"} {
		k.accept(n, nil)
	}
	k.padded()
	k.floor("paths without outside failures", 60)
	k.floor("refusals explained", 8)
}

// padded: the other runs take encryption as an operator; that it takes every plaintext, and that decryption takes all it
// makes, is seen in its implementation.
func (k *Chk) padded() {
	sub := &Chk{id: "C31", e: k.engine(true), counts: map[string]int{}, rules: map[string]int{}, known: map[string]string{}, engine: k.engine}
	checkC31(sub)
	for _, r := range []string{"every plaintext is encrypted", "every well-formed ciphertext is decrypted"} {
		n := sub.rules[r]
		for _, v := range sub.viols {
			if v.Rule == r {
				k.viols = append(k.viols, v)
				n--
			}
		}
		k.obls += sub.rules[r]
		k.done += n
		k.rules[r] += sub.rules[r]
	}
}

func hasFld(t *T, name string) bool {
	return anySub(t, func(x *T) bool { return x.op == "fld" && x.s == name }) != nil
}

// behind: the message is behind a chain that was found for it.
func (c *Case) behind() bool {
	e := c.e
	switch c.sc.name {
	case "DECW", "DECP":
		_, _, _, msg := c.msgParts()
		n := e.pf(msg, "SignalMessage", "Counter")
		for _, ch := range c.chainsIn() {
			if c.st.holds(mkLt(n, e.ch(ch, "ChainKey", "Index"))) {
				return true
			}
		}
	case "GDEC":
		m, mn := c.gmsg()
		if rec := c.grec(); rec != nil {
			states := e.grecStates(rec)
			for _, i := range c.idxInFacts(states) {
				S := e.gstate(mkIdxT(states, i, e.gstateT()))
				if c.st.holds(mkLt(e.pf(m, mn, "Iteration"), e.sk(S, "SenderChainKey", "Iteration"))) {
					return true
				}
			}
		}
	}
	return false
}
