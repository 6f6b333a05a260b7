package main

// C21: randomness.

import (
	"go/types"
	"strings"
)

func init() {
	specs["C21"] = spec{run: checkC21, rule: "every read of randomness on a successful path is a full read from the caller's reader or crypto/rand, and every generated secret is exactly the term of one such read, used under no other key"}
}

// srcOf is the source of randomness a read must use: the operation's reader, or the system's.
func (c *Case) isSource(src *T, params map[*T]bool) bool {
	if params[src] {
		return true
	}
	return src.op == "deref" && src.args[0].op == "glob" && src.args[0].s == "crypto/rand.Reader"
}

// fullReads checks the reads of randomness on a successful path.
func (k *Chk) fullReads(c *Case, readers map[*T]bool) {
	for _, ev := range c.evs {
		if ev.Kind != "rand" || ev.Ok == tFalse {
			continue
		}
		k.counts["reads"]++
		k.ob(c.isSource(ev.Args[0], readers), "randomness comes from the caller's reader or the system's", c, "randomness is read from %s", ev.Args[0].str(5))
		v := ev.Res[0]
		if v.op == "rndpart" {
			id := v.args[1]
			k.ob(c.st.holds(mkEq0(mkSub(app("rdn", id), v.args[2]))), "a short read is an error", c, "the read at %s may be short", k.e.where(ev.Pos))
		}
	}
}

// readers are the parameters of a function which are readers.
func readersOf(sig *types.Signature, ps []*T) map[*T]bool {
	m := map[*T]bool{}
	off := 0
	if sig.Recv() != nil {
		off = 1
	}
	for i := 0; i < sig.Params().Len(); i++ {
		if strings.HasSuffix(sig.Params().At(i).Type().String(), "io.Reader") && i+off < len(ps) {
			m[ps[i+off]] = true
		}
	}
	return m
}

// rndKey is the random value a private key consists of.
func rndKey(sk *T) *T {
	if sk.op == "skbytes" {
		sk = sk.args[0]
	}
	if sk.op == "sk" && sk.args[0].op == "rnd" {
		return sk.args[0]
	}
	return nil
}

// rndID identifies a read.
func rndID(v *T) *T { return v.args[1] }

// purposes: every random value found in results and effects serves one purpose.
func (k *Chk) purposes(c *Case, uses map[*T]string, seed *T) {
	look := func(t *T, what string) {
		var rec func(x *T)
		seen := map[*T]bool{}
		rec = func(x *T) {
			if x == nil || seen[x] || x.lvl > 0 {
				return
			}
			seen[x] = true
			if x.op == "sk" && x.args[0].op == "rnd" || x.op == "sign" && len(x.args) > 1 && x.args[1].op == "rnd" {
				// a key, or the nonce of a signature
				for i, a := range x.args {
					if !(a.op == "rnd" && (x.op == "sk" || i == 1)) {
						rec(a)
					}
				}
				return
			}
			if x.op == "rnd" {
				if _, ok := uses[rndID(x)]; ok && x != seed {
					k.ob(false, "random bytes of a secret serve one purpose", c, "%s also uses the random bytes of %s", what, uses[rndID(x)])
				}
				return
			}
			for _, a := range x.args {
				rec(a)
			}
		}
		rec(t)
	}
	for _, v := range c.vals {
		look(v, "the result")
	}
	for _, ev := range c.evs {
		if ev.Loop || ev.Kind == "rand" {
			continue
		}
		for _, v := range ev.Flat {
			look(v, ev.Kind)
		}
	}
	k.ob(true, "random bytes of a secret serve one purpose", c, "")
}

func checkC21(k *Chk) {
	e := k.e
	for _, sn := range []string{"ENC", "DECW", "DECP", "PPK", "PPB", "GENC", "GDEC", "GPROC", "GNEW"} {
		for _, c := range k.cases(sn) {
			if c.ok() {
				f := e.fn(c.sc.fn)
				var ps []*T
				ps = append(ps, c.sc.args["self"])
				for i := 0; i < f.Signature.Params().Len(); i++ {
					ps = append(ps, c.sc.args["p"+itoa(i)])
				}
				k.fullReads(c, readersOf(f.Signature, ps))
			}
		}
	}
	for _, prim := range []bool{false, true} {
		e := k.engine(prim)
		for _, f := range e.exported() {
			if e.isPrim(f) != prim || k.isSessionOp(e, f) {
				continue
			}
			ps := e.paramsOf(f)
			if len(readersOf(f.Signature, ps)) == 0 {
				continue
			}
			cs, _, err := e.runFn(e.base, f, ps)
			if err != nil {
				k.undec = append(k.undec, e.short(f.String())+": "+err.Error())
				continue
			}
			for _, c := range cs {
				if c.ok() {
					k.fullReads(c, readersOf(f.Signature, ps))
				}
			}
		}
	}
	k.floor("reads", 12)
	k.generated()

	fresh := func(c *Case, key *T, reader *T, what string, uses map[*T]string) {
		k.counts[what]++
		v := rndKey(key)
		if !k.ob(v != nil && v.args[2] == mkInt(32), "a generated private key is 32 fresh random bytes", c, "the %s is %s", what, key.str(8)) {
			return
		}
		k.ob(v.args[0] == reader, "a generated private key comes from the caller's reader", c, "the %s comes from %s", what, v.args[0].str(6))
		o, dup := uses[rndID(v)]
		k.ob(!dup, "random bytes of a secret serve one purpose", c, "%s and %s are the same random bytes", what, o)
		uses[rndID(v)] = what
	}
	for _, c := range k.cases("PPB") {
		_, rec := c.lastStore()
		if !c.ok() || rec == nil {
			continue
		}
		NS := e.stateSess(e.recCur(rec))
		uses := map[*T]string{}
		fresh(c, e.ss(NS, "SenderChain", "SenderRatchetKeyPrivate"), c.sc.args["p1"], "first ratchet key", uses)
		abk := e.ss(NS, "AliceBaseKey")
		if abk.op == "pkbytes" && abk.args[0].op == "pub" {
			abk = abk.args[0].args[0]
		}
		fresh(c, abk, c.sc.args["p1"], "base key", uses)
		k.purposes(c, uses, nil)
	}
	k.floor("first ratchet key", 2)
	k.floor("base key", 2)
	k.decs(func(d *Dec) {
		if d.v.how != "ratchet" || d.NS == nil {
			return
		}
		uses := map[*T]string{}
		fresh(d.c, e.ss(d.NS, "SenderChain", "SenderRatchetKeyPrivate"), d.c.sc.args["p1"], "new ratchet key", uses)
		k.purposes(d.c, uses, nil)
	})
	k.floor("new ratchet key", 2)
	k.required("new ratchet key", 1)
	for _, c := range k.cases("GNEW") {
		_, rec := c.lastStore()
		if !c.ok() || rec == nil {
			continue
		}
		S := e.gstate(mkIdxT(e.grecStates(rec), mkInt(0), e.gstateT()))
		uses := map[*T]string{}
		fresh(c, e.sk(S, "SenderSigningKey", "Private"), c.sc.args["p1"], "sender signing key", uses)
		seed := e.sk(S, "SenderChainKey", "Seed")
		k.counts["sender-key seed"]++
		if k.ob(seed.op == "rnd" && seed.args[2] == mkInt(32) && seed.args[0] == c.sc.args["p1"], "a sender-key seed is 32 fresh random bytes of the caller's reader", c, "the seed is %s", seed.str(8)) {
			_, dup := uses[rndID(seed)]
			k.ob(!dup, "random bytes of a secret serve one purpose", c, "the seed is the signing key")
			uses[rndID(seed)] = "sender-key seed"
		}
		id := e.sk(S, "ChainId")
		k.counts["chain ID"]++
		var src *T
		n := 0
		anySub(id, func(x *T) bool {
			if x.op == "rnd" {
				src = x
				n++
			}
			return false
		})
		if k.ob(n > 0, "a chain ID is random", c, "the chain ID is %s", id.str(8)) {
			k.ob(c.isSource(src.args[0], map[*T]bool{c.sc.args["p1"]: true}), "a chain ID comes from a cryptographic source", c, "it comes from %s", src.args[0].str(5))
			_, dup := uses[rndID(src)]
			k.ob(!dup, "random bytes of a secret serve one purpose", c, "the chain ID is made of the random bytes of %s", uses[rndID(src)])
			b, known := randomBits(id)
			if known {
				k.ob(b >= 31, "a chain ID has at least 31 random bits", c, "%d bits of the chain ID %s are random", b, id.str(8))
			} else {
				k.counts["chain IDs of unknown form"]++
			}
		}
		k.purposes(c, uses, seed)
	}
	k.floor("sender signing key", 1)
	k.floor("sender-key seed", 1)
	k.floor("chain ID", 1)
	for _, sn := range []string{"GENC"} {
		for _, c := range k.cases(sn) {
			if !c.ok() {
				continue
			}
			anySub(c.vals[0], func(x *T) bool {
				if x.op == "sign" {
					k.counts["group signatures"]++
					k.ob(x.args[1].op == "rnd" && x.args[1].args[0] == c.sc.args["p1"], "signing uses the caller's reader", c, "the nonce comes from %s", x.args[1].str(6))
					return true
				}
				return false
			})
		}
	}
	k.floor("group signatures", 1)
}

// randomBits counts the bits of an integer made of one random integer.
func randomBits(id *T) (int, bool) {
	var atom *T
	anySub(id, func(x *T) bool {
		if atom == nil && (strings.HasPrefix(x.op, "le") || strings.HasPrefix(x.op, "be")) && len(x.args) > 0 && x.op != "le0" && x.args[len(x.args)-1].op == "rnd" {
			atom = x
		}
		return false
	})
	if atom == nil {
		return 0, false
	}
	if anySub(id, func(x *T) bool { return x == atom }) == nil {
		return 0, false
	}
	// every output bit as a function of single input bits
	out := int64(0)
	for i := uint(0); i < 32; i++ {
		a, ok1 := evalT(id, map[*T]int64{atom: 0})
		b, ok2 := evalT(id, map[*T]int64{atom: 1 << i})
		if !ok1 || !ok2 {
			return 0, false
		}
		out |= a ^ b
	}
	n := 0
	for ; out != 0; out &= out - 1 {
		n++
	}
	return n, true
}

// generated: key generation of the curve and identity packages.
func (k *Chk) generated() {
	p := k.engine(true)
	for _, name := range []string{"@/curve.GeneratePrivateKey", "@/curve.GenerateKeyPair", "@/identity.GenerateKeyPair"} {
		f := p.fn(name)
		ps := p.paramsOf(f)
		rs := readersOf(f.Signature, ps)
		for _, r := range p.exec(p.base, f, ps...) {
			if !r.ok() {
				continue
			}
			keys := []Res{r}
			if strings.HasSuffix(name, "Pair") {
				keys = p.runM(r.st, f.Signature.Results().At(0).Type(), r.raw[0], "PrivateKey")
			}
			for _, q := range keys {
				for _, b := range p.runM(q.st, nil, q.raw[0], "Bytes") {
					c := b.cse()
					k.counts["generated keys"]++
					evs := c.okEv("rand")
					if !k.ob(len(evs) == 1, "a private key is generated by one read", c, "%d reads of randomness", len(evs)) {
						continue
					}
					v := evs[0].Res[0]
					k.ob(v.op == "rnd" && v.args[2] == mkInt(32) && c.clampSame(b.vals[0], v), "a generated private key is 32 fresh random bytes", c, "the key is %s", b.vals[0].str(8))
					src := evs[0].Args[0]
					ok := rs[src]
					if !ok {
						for x := range rs {
							ok = ok || c.isSource(src, rs) && (c.st.holds(mkEq(tNil, x)))
						}
					}
					k.ob(ok, "the reader given is used unless it is nil", c, "the key comes from %s", src.str(6))
				}
			}
		}
	}
	k.floor("generated keys", 3)
	f := p.fn("(*@/curve/curve25519.PrivateKey).Sign")
	ps := p.paramsOf(f)
	rs := readersOf(f.Signature, ps)
	for _, r := range p.exec(p.base, f, ps...) {
		if !r.ok() {
			continue
		}
		c := r.cse()
		k.counts["signature nonces"]++
		evs := c.okEv("rand")
		if !k.ob(len(evs) == 1, "a signature reads its nonce once", c, "%d reads of randomness", len(evs)) {
			continue
		}
		v := evs[0].Res[0]
		k.ob(v.op == "rnd" && v.args[2] == mkInt(64) && contains(r.vals[0], v), "a signature uses 64 fresh random bytes", c, "%s is read", v.str(6))
		ok := rs[evs[0].Args[0]]
		for x := range rs {
			ok = ok || c.isSource(evs[0].Args[0], rs) && c.st.holds(mkEq(tNil, x))
		}
		k.ob(ok, "the reader given is used unless it is nil", c, "the nonce comes from %s", evs[0].Args[0].str(6))
	}
	k.floor("signature nonces", 1)
}
