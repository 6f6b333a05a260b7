package main

// C22, C30, C31: keys, signatures and encryption, in terms of the primitives of the libraries.

import (
	"go/types"
	"strings"
)

func init() {
	specs["C22"] = spec{prim: true, run: checkC22, rule: "signatures are the XEdDSA terms over the concatenation of all parts; verification is true only with the Ed25519 verification, among the path facts, of all parts under the Edwards form of the given key and the received signature without its sign bit"}
	specs["C30"] = spec{prim: true, run: checkC30, rule: "the decoding of a key succeeds exactly when its length and type byte are right, encodings, equality, public keys and agreements are the terms over the bytes given"}
	specs["C31"] = spec{prim: true, run: checkC31, rule: "encryption returns the CBC term over plaintext and PKCS #7 padding; decryption returns the stripped CBC term only with key, IV, length and padding conditions among the path facts"}
}

// allParts is the concatenation of a list of byte strings.
func allParts(list *T) *T {
	n := raw("N", "spec", nil)
	return mkFm(mkLen(list), mkIdxT(list, n, bytesT), n)
}

// privKeys are the private keys made of 32 bytes.
func (k *Chk) privKeys(b *T) []Res {
	var out []Res
	for _, r := range k.e.runName(k.e.base, "@/curve.NewPrivateKey", b) {
		if r.ok() {
			out = append(out, r)
		}
	}
	return out
}

func (k *Chk) pubKeys(st *State, b *T) []Res {
	var out []Res
	for _, r := range k.e.runName(st, "@/curve.NewPublicKey", b) {
		if r.ok() {
			out = append(out, r)
		}
	}
	return out
}

// clampSame: two 32 byte strings are the same scalar.
func (c *Case) clampSame(a, b *T) bool {
	if c.same(a, b) {
		return true
	}
	if !c.st.holds(mkEq0(mkSub(mkLen(a), mkInt(32)))) || !c.same(mkSubseq(a, mkInt(1), mkInt(31)), mkSubseq(b, mkInt(1), mkInt(31))) {
		return false
	}
	f := func(t, o *T, want func(int64) int64) bool {
		m := byteAt(b, int64(map[bool]int{true: 0, false: 31}[o == byteAt(b, 0)]))
		env := map[*T]int64{}
		for v := int64(0); v < 256; v++ {
			env[m] = v
			x, ok := evalT(t, env)
			if !ok || want(x) != want(v) {
				return false
			}
		}
		return true
	}
	return f(byteAt(a, 0), byteAt(b, 0), func(x int64) int64 { return x & 248 }) &&
		f(byteAt(a, 31), byteAt(b, 31), func(x int64) int64 { return x&63 | 64 })
}

// parts of a byte string of known length, by position.
func part(s *T, lo, hi int64) *T { return mkSubseq(s, mkInt(lo), mkInt(hi)) }

// clampedKeys replaces clamp(x) by clamp(b) where x and b are the same scalar.
func (c *Case) clampedKeys(t, b *T) *T {
	return substFn(t, func(x *T) *T {
		if x.op == "clamp" && c.clampSame(x.args[0], b) {
			return app("clamp", b)
		}
		return nil
	})
}

func checkC22(k *Chk) {
	e := k.e
	b, msgs := e.bytesSym("key"), withVT(mkSym("messages"), types.NewSlice(bytesT))
	rd := withVT(mkSym("random"), e.fn("@/curve.GeneratePrivateKey").Signature.Params().At(0).Type())
	M := allParts(msgs)
	for _, pk := range k.privKeys(b) {
		for _, r := range e.runM(pk.st, nil, pk.raw[0], "Sign", rd, msgs) {
			if !r.ok() {
				continue
			}
			k.counts["signatures"]++
			c := r.cse()
			sig := c.clampedKeys(r.vals[0], b)
			var Z *T
			for _, ev := range c.okEv("rand") {
				Z = ev.Res[0]
			}
			if !k.ob(Z != nil, "the nonce is randomised", c, "nothing is read from the source of randomness") {
				continue
			}
			a := app("clamp", b)
			A := app("ptbytes", app("bmul", a))
			prefix := mkStr("\xfe" + strings.Repeat("\xff", 31))
			rr := app("scred", app("sha512", mkCat(prefix, app("scbytes", a), M, Z)))
			R := app("ptbytes", app("bmul", rr))
			h := app("scred", app("sha512", mkCat(R, A, M)))
			s := app("scbytes", mkScAdd(mkScMul(a, h), rr))
			k.ob(c.same(part(sig, 0, 32), R), "R is the nonce point of prefix, private key, all parts and randomness", c, "R is %s", part(sig, 0, 32).str(12))
			k.ob(c.same(part(sig, 32, 63), part(s, 0, 31)), "s answers the challenge of R, public key and all parts", c, "s is %s", part(sig, 32, 63).str(14))
			k.ob(c.st.holds(mkEq0(mkSub(mkLen(sig), mkInt(64)))), "a signature has 64 bytes", c, "length %s", mkLen(sig).str(4))
			k.ob(c.byteFn(byteAt(sig, 63), []*T{byteAt(s, 31), byteAt(A, 31)}, []int64{128, 256}, func(v []int64) int64 { return v[0]&127 | v[1]&128 }),
				"the top bit of a signature is the sign of the public key", c, "the last byte is %s", byteAt(sig, 63).str(8))
			q := *c
			k.samples = append(k.samples, "signature: "+q.vals[0].str(6))
		}
	}
	k.floor("signatures", 1)
	sg := e.bytesSym("signature")
	for _, pk := range k.pubKeys(e.base, b) {
		u := app("feof", part(b, 1, 33))
		y := app("febytes", feMul(app("fesub", u, app("feone")), app("feinv", feAdd(u, app("feone")))))
		minus := mkEq(app("feneg", app("feone")), u)
		match := func(c *Case, x *T) bool {
			ky, m, s := x.args[0], x.args[1], x.args[2]
			if !c.same(m, M) || !c.same(part(ky, 0, 31), part(y, 0, 31)) || !c.same(part(s, 0, 63), part(sg, 0, 63)) {
				return false
			}
			s63 := byteAt(sg, 63)
			return c.byteFn(byteAt(s, 63), []*T{s63}, []int64{256}, func(v []int64) int64 { return v[0] & 127 }) &&
				c.byteFn(byteAt(ky, 31), []*T{byteAt(y, 31), s63}, []int64{128, 256}, func(v []int64) int64 { return v[0] | v[1]&128 }) &&
				c.st.holds(mkEq0(mkSub(mkLen(ky), mkInt(32)))) && c.st.holds(mkEq0(mkSub(mkLen(s), mkInt(64))))
		}
		for _, r := range e.runM(pk.st, nil, pk.raw[0], "VerifySignature", sg, msgs) {
			c := r.cse()
			if !r.ok() {
				k.ob(c.excluded([]*T{mkEq0(mkSub(mkLen(sg), mkInt(64))), mkNot(minus)}), "verification fails only without a point or signature", c, "an error for a well-formed key and signature")
				continue
			}
			if t := c.with(r.vals[0], true); t != nil {
				k.counts["verifications"]++
				ok := false
				for f, v := range t.st.facts {
					ok = ok || v && f.op == "edverify" && match(t, f)
				}
				ok = ok && t.st.holds(mkEq0(mkSub(mkLen(sg), mkInt(64))))
				k.ob(ok, "a signature is valid only if Ed25519 verifies all parts under the key", t, "the answer is %s", r.vals[0].str(12))
			}
			if f := c.with(r.vals[0], false); f != nil {
				k.counts["rejections"]++
				var E []*T
				find := func(t *T) {
					anySub(t, func(x *T) bool {
						if x.op == "edverify" && match(f, x) {
							E = append(E, x)
						}
						return false
					})
				}
				find(r.vals[0])
				for fa := range f.st.facts {
					find(fa)
				}
				conds := []*T{mkEq0(mkSub(mkLen(sg), mkInt(64))), mkNot(minus)}
				if len(E) > 0 {
					conds = append(conds, E[0])
				}
				k.ob(f.excluded(conds), "a signature Ed25519 verifies is valid", f, "the answer is %s", r.vals[0].str(12))
			}
		}
	}
	k.floor("verifications", 1)
	k.floor("rejections", 2)
	// the wrappers hand over every part
	e2 := k.engine(false)
	k.e = e2
	k.passThrough("(*@/curve.KeyPair).Sign")
	k.altIdentity()
}

func feMul(a, b *T) *T {
	if a.id > b.id {
		a, b = b, a
	}
	return app("femul", a, b)
}

func feAdd(a, b *T) *T {
	if a.id > b.id {
		a, b = b, a
	}
	return app("feadd", a, b)
}

// passThrough: signing with a pair is signing with its private key.
func (k *Chk) passThrough(name string) {
	e := k.e
	f := e.fn(name)
	ps := e.paramsOf(f)
	priv, _ := walk(ps[0], f.Params[0].Type(), fieldBy(f.Params[0].Type(), isNamed("curve", "PrivateKey")))
	for _, r := range e.exec(e.base, f, ps...) {
		if !r.ok() {
			continue
		}
		c := r.cse()
		k.counts["pair signatures"]++
		v := r.vals[0]
		k.ob(v.op == "sign" && c.same(v.args[0], priv) && c.same(v.args[2], allPartsOp(ps[2])), "a pair signs all parts with its private key", c, "the signature is %s", v.str(6))
	}
	k.floor("pair signatures", 1)
}

func allPartsOp(list *T) *T { return app("concat", list) }

// altIdentity: alternate identities are signed and verified over the same bytes.
func (k *Chk) altIdentity() {
	e := k.e
	f, g := e.fn("(@/identity.KeyPair).SignAlternateIdentity"), e.fn("(@/identity.Key).VerifyAlternateIdentity")
	ps, qs := e.paramsOf(f), e.paramsOf(g)
	pt := f.Params[0].Type()
	priv, _ := walk(ps[0], pt, fieldBy(pt, isNamed("curve", "PrivateKey")))
	kt := g.Params[0].Type()
	pubOf := func(v *T) *T {
		p, _ := walk(v, kt, fieldBy(kt, isNamed("curve", "PublicKey")))
		return p
	}
	want := func(other *T) *T {
		return mkCat(mkStr(strings.Repeat("\xff", 32)), mkStr("Signal_PNI_Signature"), apply("pkbytes", pubOf(other)))
	}
	for _, r := range e.exec(e.base, f, ps...) {
		if !r.ok() {
			continue
		}
		c := r.cse()
		k.counts["alternate identities signed"]++
		v := r.vals[0]
		k.ob(v.op == "sign" && c.same(v.args[0], priv) && c.same(v.args[2], want(ps[2])), "alternate identities are signed under their own label", c, "the signature is %s", v.str(8))
	}
	for _, r := range e.exec(e.base, g, qs...) {
		if !r.ok() {
			continue
		}
		c := r.cse()
		t := c.with(r.vals[0], true)
		if t == nil {
			continue
		}
		k.counts["alternate identities verified"]++
		k.ob(t.st.holds(apply("verify", pubOf(qs[0]), qs[1], want(qs[2]))), "alternate identities are verified under their own label", t, "the answer is %s", r.vals[0].str(8))
	}
	k.floor("alternate identities signed", 1)
	k.floor("alternate identities verified", 1)
}

func checkC30(k *Chk) {
	e := k.e
	b, b2 := e.bytesSym("key"), e.bytesSym("other")
	good33 := func(x *T) []*T {
		return []*T{mkLe(mkInt(33), mkLen(x)), mkEq0(mkSub(byteAt(x, 0), mkInt(5)))}
	}
	for _, r := range e.runName(e.base, "@/curve.NewPublicKey", b) {
		c := r.cse()
		if !r.ok() {
			k.counts["public keys rejected"]++
			k.ob(c.excluded(good33(b)), "every well-formed public key is accepted", c, "an error for a well-formed key")
			continue
		}
		k.counts["public keys"]++
		k.ob(c.st.holds(good33(b)[0]) && c.st.holds(good33(b)[1]), "only public keys with type byte and 32 bytes are accepted", c, "accepted without these conditions")
		P := r.raw[0]
		for _, q := range e.runM(r.st, nil, P, "Bytes") {
			c := q.cse()
			k.counts["encodings"]++
			k.ob(c.same(q.vals[0], mkCat(mkList(mkInt(5)), part(b, 1, 33))) || c.same(q.vals[0], part(b, 0, 33)), "the encoding is the type byte and the key's 32 bytes", c, "the encoding is %s", q.vals[0].str(8))
		}
		for _, q := range e.runM(r.st, nil, P, "KeyBytes") {
			c := q.cse()
			k.counts["encodings"]++
			k.ob(c.same(q.vals[0], part(b, 1, 33)), "the raw encoding is the key's 32 bytes", c, "the encoding is %s", q.vals[0].str(8))
		}
		for _, r2 := range k.pubKeys(r.st, b2) {
			for _, q := range e.runM(r2.st, nil, P, "Equal", r2.raw[0]) {
				c := q.cse()
				eq := mkEq(part(b, 1, 33), part(b2, 1, 33))
				if t := c.with(q.vals[0], true); t != nil {
					k.counts["equalities"]++
					k.ob(t.st.holds(eq), "keys are equal only if all bytes are", t, "the answer is %s", q.vals[0].str(8))
				}
				if f := c.with(q.vals[0], false); f != nil {
					k.counts["inequalities"]++
					k.ob(f.excluded([]*T{eq}), "keys are equal if all bytes are", f, "the answer is %s", q.vals[0].str(8))
				}
			}
		}
	}
	for _, n := range []string{"public keys rejected", "public keys", "encodings", "equalities", "inequalities"} {
		k.floor(n, 1)
	}
	for _, r := range e.runName(e.base, "@/curve.NewPrivateKey", b) {
		c := r.cse()
		l := mkEq0(mkSub(mkLen(b), mkInt(32)))
		if !r.ok() {
			k.counts["private keys rejected"]++
			k.ob(c.excluded([]*T{l}), "every private key of 32 bytes is accepted", c, "an error for a well-formed key")
			continue
		}
		k.counts["private keys"]++
		k.ob(c.st.holds(l), "only private keys of 32 bytes are accepted", c, "accepted without this condition")
		S := r.raw[0]
		for _, q := range e.runM(r.st, nil, S, "Bytes") {
			c := q.cse()
			k.counts["private encodings"]++
			k.ob(c.clampSame(q.vals[0], b), "a private key's encoding is the same key", c, "the encoding is %s", q.vals[0].str(8))
		}
		for _, q := range e.runM(r.st, nil, S, "PublicKey") {
			for _, x := range e.runM(q.st, nil, q.raw[0], "Bytes") {
				c := x.cse()
				k.counts["public keys of private keys"]++
				v := c.clampedKeys(x.vals[0], b)
				k.ob(c.same(v, mkCat(mkList(mkInt(5)), app("ptmont", app("bmul", app("clamp", b))))), "the public key is the one of the scalar", c, "it is %s", v.str(8))
			}
		}
		for _, r2 := range k.pubKeys(r.st, b2) {
			for _, q := range e.runM(r2.st, nil, S, "Agreement", r2.raw[0]) {
				if !q.ok() {
					continue
				}
				c := q.cse()
				k.counts["agreements"]++
				v := q.vals[0]
				ok := v.op == "x25519" && c.clampSame(v.args[0], b) && c.same(v.args[1], part(b2, 1, 33)) && c.st.holds(v)
				ok = ok || v.op == "x25519" && c.clampSame(v.args[0], b) && c.same(v.args[1], part(b2, 1, 33)) && c.st.holds(app("x25519ok", v.args...))
				k.ob(ok, "an agreement is X25519 of the private and the given key", c, "it is %s", v.str(8))
			}
		}
	}
	for _, n := range []string{"private keys rejected", "private keys", "private encodings", "public keys of private keys", "agreements"} {
		k.floor(n, 1)
	}
	// pairs
	for _, r := range e.runName(e.base, "@/curve.NewKeyPair", b, b2) {
		if !r.ok() {
			continue
		}
		pt := r.fn.Signature.Results().At(0).Type()
		for _, q := range e.runM(r.st, pt, r.raw[0], "PrivateKey") {
			for _, x := range e.runM(q.st, nil, q.raw[0], "Bytes") {
				k.counts["pairs"]++
				k.ob(x.cse().clampSame(x.vals[0], b), "a pair has the private key given", x.cse(), "it is %s", x.vals[0].str(8))
			}
		}
		for _, q := range e.runM(r.st, pt, r.raw[0], "PublicKey") {
			for _, x := range e.runM(q.st, nil, q.raw[0], "Bytes") {
				k.counts["pairs"]++
				c := x.cse()
				k.ob(c.same(x.vals[0], part(b2, 0, 33)) || c.same(x.vals[0], mkCat(mkList(mkInt(5)), part(b2, 1, 33))), "a pair has the public key given", c, "it is %s", x.vals[0].str(8))
			}
		}
	}
	k.floor("pairs", 2)
	for _, name := range []string{"@/curve.GenerateKeyPair", "@/identity.GenerateKeyPair"} {
		for _, r := range e.runName(e.base, name, e.paramsOf(e.fn(name))...) {
			if !r.ok() {
				continue
			}
			pt := r.fn.Signature.Results().At(0).Type()
			for _, q := range e.runM(r.st, pt, r.raw[0], "PublicKey") {
				for _, p := range e.runM(q.st, pt, r.raw[0], "PrivateKey") {
					for _, o := range e.runM(p.st, nil, p.raw[0], "PublicKey") {
						for _, x := range e.runM(o.st, nil, q.raw[0], "Bytes") {
							for _, y := range e.runM(x.st, nil, o.raw[0], "Bytes") {
								k.counts["generated pairs"]++
								k.ob(y.cse().same(x.vals[0], y.vals[0]), "a generated pair's public key belongs to its private key", y.cse(), "%s is not %s", x.vals[0].str(8), y.vals[0].str(8))
							}
						}
					}
				}
			}
		}
	}
	k.floor("generated pairs", 2)
	k.keyLengths()
}

// keyLengths: constructors of keys accept exactly the right lengths.
func (k *Chk) keyLengths() {
	e := k.engine(false)
	for _, x := range []struct {
		name string
		lens []int64
	}{{"@/ratchet.NewMessageKeys", []int64{32, 32, 16}}, {"@/ratchet.NewChainKey", []int64{32}}, {"@/ratchet.NewRootKey", []int64{32}}} {
		f := e.fn(x.name)
		ps := e.paramsOf(f)
		var conds []*T
		for i, n := range x.lens {
			conds = append(conds, mkEq0(mkSub(mkLen(ps[i]), mkInt(n))))
		}
		for _, r := range e.exec(e.base, f, ps...) {
			c := r.cse()
			if !r.ok() {
				k.ob(c.excluded(conds), "keys of the right length are accepted", c, "an error for keys of the right length")
				continue
			}
			k.counts["keys made"]++
			for _, cond := range conds {
				k.ob(c.st.holds(cond), "only keys of the right length are accepted", c, "accepted although %s is not known", cond.str(4))
			}
		}
	}
	k.floor("keys made", 3)
	f := e.fn("@/identity.NewKey")
	ps := e.paramsOf(f)
	for _, r := range e.exec(e.base, f, ps...) {
		if !r.ok() {
			continue
		}
		for _, q := range e.runM(r.st, f.Signature.Results().At(0).Type(), r.raw[0], "Bytes") {
			k.counts["identity keys"]++
			k.ob(q.cse().same(q.vals[0], apply("pkbytes", mkPk(ps[0]))), "an identity key's encoding is the key's", q.cse(), "it is %s", q.vals[0].str(6))
		}
	}
	k.floor("identity keys", 1)
	g := e.fn("(@/identity.Key).Equal")
	gs := e.paramsOf(g)
	kt := g.Params[0].Type()
	for _, r := range e.exec(e.base, g, gs...) {
		a, _ := walk(gs[0], kt, fieldBy(kt, isNamed("curve", "PublicKey")))
		b, _ := walk(gs[1], kt, fieldBy(kt, isNamed("curve", "PublicKey")))
		c := r.cse()
		eq := pkEq(a, b)
		if t := c.with(r.vals[0], true); t != nil {
			k.counts["identity comparisons"]++
			k.ob(t.st.holds(eq), "identities are equal only if their keys are", t, "the answer is %s", r.vals[0].str(6))
		}
		if f := c.with(r.vals[0], false); f != nil {
			k.counts["identity comparisons"]++
			k.ob(f.excluded([]*T{eq}), "identities are equal if their keys are", f, "the answer is %s", r.vals[0].str(6))
		}
	}
	k.floor("identity comparisons", 2)
}

func checkC31(k *Chk) {
	e := k.e
	f := e.fn("@/crypto/aes.CBCEncrypt")
	key, iv, p := e.bytesSym("key"), e.bytesSym("iv"), e.bytesSym("text")
	inputs := []*T{app("aeskeylen", mkLen(key)), mkEq0(mkSub(mkLen(iv), mkInt(16)))}
	for _, r := range e.exec(e.base, f, key, iv, p) {
		c := r.cse()
		if !r.ok() {
			k.counts["encryptions refused"]++
			k.ob(c.excluded(inputs), "every plaintext is encrypted", c, "an error for a well-formed key and IV")
			continue
		}
		k.counts["encryptions"]++
		for _, cond := range inputs {
			k.ob(c.st.holds(cond), "only keys and IVs of the right length are used", c, "encrypts although %s is not known", cond.str(4))
		}
		v := r.vals[0]
		n := mkSub(mkInt(16), mkMod(mkLen(p), 16))
		padded := mkCat(p, mkRep(n, n))
		ok := v.op == "cbcraw" && v.args[0] == mkStr("enc") && c.same(v.args[1], key) && c.same(v.args[2], iv) && c.same(v.args[3], padded) && c.same(v.args[4], mkAdd(mkLen(p), n))
		k.ob(ok, "the whole plaintext and its padding are encrypted under key and IV", c, "the ciphertext is %s", v.str(8))
	}
	k.floor("encryptions", 1)
	k.floor("encryptions refused", 1)
	f = e.fn("@/crypto/aes.CBCDecrypt")
	inputs = append(inputs, mkNot(mkEq0(mkLen(p))), mkEq0(mkMod(mkLen(p), 16)))
	D := app("cbcraw", mkStr("dec"), key, iv, p, mkLen(p))
	n := mkIdxT(D, mkSub(mkLen(p), mkInt(1)), types.Typ[types.Byte])
	pad := []*T{mkLe(mkInt(1), n), mkLe(n, mkInt(16))}
	for _, r := range e.exec(e.base, f, key, iv, p) {
		c := r.cse()
		if !r.ok() {
			k.counts["decryptions refused"]++
			all := append(append(append([]*T{}, inputs...), pad...), mkEq(mkSubseq(D, mkSub(mkLen(p), n), mkLen(p)), mkRep(n, n)), mkLe(mkInt(16), mkLen(p)))
			if !c.loopFacts() {
				k.ob(c.excluded(all), "every well-formed ciphertext is decrypted", c, "an error for a well-formed ciphertext")
			}
			continue
		}
		k.counts["decryptions"]++
		for _, cond := range inputs {
			k.ob(c.st.holds(cond), "only keys, IVs and ciphertexts of the right length are used", c, "decrypts although %s is not known", cond.str(4))
		}
		v := r.vals[0]
		if !k.ob(c.same(v, mkSubseq(D, mkInt(0), mkSub(mkLen(p), n))), "the plaintext is the decryption without its padding", c, "the plaintext is %s", v.str(8)) {
			continue
		}
		for _, cond := range pad {
			k.ob(c.st.holds(cond), "only padding of 1 to 16 bytes is accepted", c, "decrypts although %s is not known", cond.str(4))
		}
		ok := c.st.holds(mkEq(mkSubseq(D, mkSub(mkLen(p), n), mkLen(p)), mkRep(n, n)))
		if !ok {
			// byte by byte
			m := withVT(mkSym("$m"), types.Typ[types.Int])
			q := c.st.clone()
			if q.assume(mkLe(mkSub(mkLen(p), n), m), true) && q.assume(mkLt(m, mkLen(p)), true) {
				x := mkIdxT(D, m, types.Typ[types.Byte])
				ok = q.holds(mkEq0(mkSub(x, n)))
				if !ok {
					// under the assumption that this byte differs, the facts about every byte are contradicted
					ok = q.assume(mkNot(mkEq0(mkSub(x, n))), true) && (!q.possible() || q.refuted(x))
				}
			}
		}
		if !ok && c.loopFacts() {
			k.undec = append(k.undec, "the padding check is a loop which is not understood")
			continue
		}
		k.ob(ok, "every byte of the padding is checked", c, "nothing says that the last bytes are all the padding byte")
	}
	k.floor("decryptions", 1)
	k.floor("decryptions refused", 1)
}

// loopFacts: something is known only by way of a loop.
func (c *Case) loopFacts() bool {
	for f := range c.st.facts {
		if anySub(f, func(x *T) bool {
			return x.op == "all" || x.op == "rec" || x.op == "Lx" || x.op == "Nx" || x.op == "ext" || x.op == "join"
		}) != nil {
			return true
		}
	}
	return false
}
