package main

// C01: only authentic one-to-one messages yield a plaintext.
func checkC01(k *Chk) {
	for _, sn := range []string{"DECW", "DECP"} {
		for _, c := range k.cases(sn) {
			if !c.ok() {
				continue
			}
			k.counts["successful decryptions"]++
			e := c.e
			_, body, tag, msg := c.msgParts()
			ct := e.pf(msg, "SignalMessage", "Ciphertext")
			vs := c.views()
			if !k.ob(len(vs) > 0, "plaintext is a decryption under keys of the message's own chain and counter", c,
				"the plaintext %s is not the decryption under a key of this message's chain and counter", c.vals[0].str(6)) {
				continue
			}
			k.ob(c.same(c.vals[0].args[2], ct), "the decrypted bytes are the authenticated ciphertext field", c, "the decrypted bytes are %s", c.vals[0].args[2].str(6))
			okMac, okChain, okCtr := false, false, false
			for _, v := range vs {
				if c.macHolds(v, body, tag) {
					okMac = true
				}
				switch v.how {
				case "ratchet":
					okChain, okCtr = true, true
				default:
					if c.same(e.ch(v.ch, "SenderRatchetKey"), apply("pkbytes", v.R)) {
						okChain = true
					}
					if v.how == "ahead" && c.st.holds(mkLe(v.ix0, v.n)) {
						okCtr = true
					}
					if v.how == "late" && c.same(e.mkIndex(v), v.n) {
						okCtr = true
					}
				}
			}
			k.ob(okMac, "the tag was compared with the HMAC of both identities and all received bytes", c, "a plaintext is returned without the tag %s having been found equal to the HMAC of the message", tag.str(5))
			k.ob(okChain, "the chain is the one of the message's ratchet key", c, "the chain used is not the chain of the message's ratchet key")
			k.ob(okCtr, "the key is the one of the message's counter", c, "the key used is not the key of the message's counter")
		}
	}
	k.floor("successful decryptions", 8)
}

// mkIndex is the counter of the saved key a late message uses.
func (e *Engine) mkIndex(v *DecView) *T {
	mk := mkIdxT(e.ch(v.ch, "MessageKeys"), v.l, nil)
	x, _ := walk(mk, ptrTo(e.typ("@/generated/v1.SessionStructure_Chain_MessageKey")), "Index")
	return x
}

// macHolds: the facts say that the tag is the MAC of the message.
func (c *Case) macHolds(v *DecView, body, tag *T) bool {
	e := c.e
	want := subB(hmacT(v.mac, mkCat(apply("pkbytes", mkPk(e.ss(v.S, "RemoteIdentityPublic"))),
		apply("pkbytes", mkPk(e.ss(v.S, "LocalIdentityPublic"))), body)), mkInt(0), mkInt(8))
	for f, t := range c.st.facts {
		if !t || f.op != "eq" {
			continue
		}
		for s := 0; s < 2; s++ {
			if c.same(f.args[s], tag) && c.same(f.args[1-s], want) {
				return true
			}
		}
	}
	return c.st.holds(mkEq(tag, want))
}
