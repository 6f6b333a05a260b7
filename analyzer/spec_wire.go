package main

// C16: messages and their wire form.

import (
	"go/types"
)

func init() {
	specs["C16"] = spec{run: checkC16, rule: "for every message type, the terms of all accessors of the message parsed from the bytes of a built message equal those it was built from, and the wire fields are the corresponding ones"}
}

// wireField is one value carried by a message: its accessor, its field in the configuration and on the wire.
type wireField struct{ acc, cfg, wire string }

type wireMsg struct {
	typ, build, parse, wire string
	trailer                 int64 // bytes after the encoded fields
	fields                  []wireField
}

var wireMsgs = []wireMsg{
	{"Signal", "NewSignal", "NewSignalFromBytes", "SignalMessage", 8, []wireField{
		{"SenderRatchetKey", "SenderRatchetKey", "RatchetKey"}, {"Counter", "Counter", "Counter"}, {"", "PreviousCounter", "PreviousCounter"}, {"Message", "Ciphertext", "Ciphertext"}}},
	{"PreKey", "NewPreKey", "NewPreKeyFromBytes", "PreKeySignalMessage", 0, []wireField{
		{"RegistrationID", "RegistrationID", "RegistrationId"}, {"PreKeyID", "PreKeyID", "PreKeyId"}, {"SignedPreKeyID", "SignedPreKeyID", "SignedPreKeyId"},
		{"BaseKey", "BaseKey", "BaseKey"}, {"IdentityKey", "IdentityKey", "IdentityKey"}, {"Message", "Message", "Message"}}},
	{"SenderKey", "NewSenderKey", "NewSenderKeyFromBytes", "SenderKeyMessage", 64, []wireField{
		{"DistributionID", "DistID", "DistributionUuid"}, {"ChainID", "ChainID", "ChainId"}, {"Iteration", "Iteration", "Iteration"}, {"Message", "Ciphertext", "Ciphertext"}}},
	{"SenderKeyDistribution", "NewSenderKeyDistribution", "NewSenderKeyDistributionFromBytes", "SenderKeyDistributionMessage", 0, []wireField{
		{"DistributionID", "DistID", "DistributionUuid"}, {"ChainID", "ChainID", "ChainId"}, {"Iteration", "Iteration", "Iteration"}, {"ChainKey", "ChainKey", "ChainKey"}, {"SigningKey", "SigningKey", "SigningKey"}}},
}

// built is a message made from a configuration.
type built struct {
	st       *State
	cfg, msg *T // the message as the constructor returns it
	rand     *T
}

// build runs the constructor of a message with arbitrary contents.
func (k *Chk) build(m wireMsg, st *State, then func(b built, c *Case)) {
	e := k.e
	f := e.fn("@/message." + m.build)
	ps := e.paramsOf(f)
	ci := len(ps) - 1
	ct := f.Params[ci].Type()
	ks := ct.Underlying().(*types.Struct)
	st = st.clone()
	set := map[string]*T{"Version": mkInt(3)}
	var sub *wireMsg
	for i := 0; i < ks.NumFields(); i++ {
		f := ks.Field(i)
		v := mkFld(ps[ci], f.Name(), f.Type())
		switch {
		case isNamed("curve", "PublicKey")(f.Type()), isNamed("curve", "PrivateKey")(f.Type()):
			st.assume(mkEq(tNil, v), false)
		case isNamed("identity", "Key")(f.Type()):
			p, _ := walk(v, f.Type(), fieldBy(f.Type(), isNamed("curve", "PublicKey")))
			st.assume(mkEq(tNil, p), false)
		case isPtrTo("Signal")(f.Type()):
			sub = &wireMsgs[0]
		case f.Name() == "ChainKey":
			st.assume(mkEq0(mkSub(mkLen(v), mkInt(32))), true)
		}
	}
	run := func(st *State) {
		for _, pre := range []bool{true, false} {
			cfg := mkWith(ps[ci], set)
			q := st.clone()
			if id := mkFld(cfg, "PreKeyID", nil); ks.NumFields() > 0 && hasField(ks, "PreKeyID") {
				q.assume(mkEq(tNil, id), pre)
			} else if !pre {
				continue
			}
			for _, r := range e.exec(q, f, append(append([]*T{}, ps[:ci]...), cfg)...) {
				if !r.ok() {
					continue
				}
				msg := r.raw[0]
				if msg.op == "iface" {
					msg = msg.args[0]
				}
				then(built{st: r.st, cfg: cfg, msg: msg}, r.cse())
			}
		}
	}
	if sub != nil {
		k.build(*sub, st, func(b built, _ *Case) {
			set["Message"] = b.msg
			run(b.st)
		})
		return
	}
	run(st)
}

func hasField(s *types.Struct, n string) bool {
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == n {
			return true
		}
	}
	return false
}

// acc calls an accessor that has one outcome.
func (k *Chk) acc(st *State, t types.Type, v *T, name string) (*T, types.Type, *Case) {
	e := k.e
	f := e.methodOf(t, name)
	rs := e.exec(st, f, v)
	if len(rs) != 1 {
		return nil, nil, nil
	}
	return rs[0].vals[0], f.Signature.Results().At(0).Type(), rs[0].cse()
}

func checkC16(k *Chk) {
	e := k.e
	for _, m := range wireMsgs {
		m := m
		mt := ptrTo(e.typ("@/message." + m.typ))
		bt := e.typ("@/generated/v1." + m.wire)
		parse := e.fn("@/message." + m.parse)
		cfgT := e.fn("@/message." + m.build).Params
		ct := cfgT[len(cfgT)-1].Type().Underlying().(*types.Struct)
		ctype := func(n string) types.Type {
			for i := 0; i < ct.NumFields(); i++ {
				if ct.Field(i).Name() == n {
					return ct.Field(i).Type()
				}
			}
			panic(undecided{"no field " + n + " of the configuration"})
		}
		open := func(v *T) *T {
			if v.op == "iface" {
				return v.args[0]
			}
			return v
		}
		// what the fields look like on the wire
		onWire := func(v *T, t types.Type) *T {
			switch {
			case isNamed("curve", "PublicKey")(t):
				return apply("pkbytes", v)
			case isNamed("identity", "Key")(t):
				p, _ := walk(v, t, fieldBy(t, isNamed("curve", "PublicKey")))
				return apply("pkbytes", p)
			case isNamed("distribution", "ID")(t):
				return app("uuidstr", e.uuidOf(v))
			}
			return v
		}
		n := 0
		k.build(m, e.base, func(b built, bc *Case) {
			n++
			k.counts["built messages"]++
			w, _, bytesC := k.acc(b.st, mt, b.msg, "Bytes")
			if w == nil {
				k.undec = append(k.undec, m.typ+".Bytes has several outcomes")
				return
			}
			// on the wire
			if first, body, rest := e.wireParts(w, m.wire); body == nil {
				k.undec = append(k.undec, "wire form of "+m.typ+" not recognised: "+w.str(5))
			} else {
				k.ob(bc.same(first, mkStr("\x33")) || first == mkList(mkInt(0x33)), "a message begins with the two versions", bc, "%s begins with %s", m.typ, first.str(6))
				k.ob(bc.same(mkLen(rest), mkInt(m.trailer)), "nothing but the authenticator follows the fields", bc, "%s has %s behind its fields", m.typ, rest.str(6))
				for _, f := range m.fields {
					k.counts["wire fields"]++
					got, want := mkFld(body, f.wire, nil), mkFld(b.cfg, f.cfg, nil)
					t := ctype(f.cfg)
					if pt := fieldType(bt, f.wire); pt != nil {
						if p, ok := pt.Underlying().(*types.Pointer); ok {
							if f.wire == "PreKeyId" {
								nb, nw := bc.nilness(got), bc.nilness(want)
								if !k.ob(nb == nw && nb >= 0, "an absent one-time pre-key is absent on the wire", bc, "%s is %s for %s", f.wire, got.str(4), want.str(4)) || nb == 1 {
									continue
								}
								want = mkDeref(want, e.typ("@/prekey.ID"))
							}
							k.ob(bc.nilness(got) == 0, "every field is on the wire", bc, "%s may be absent", f.wire)
							got = mkDeref(got, p.Elem())
						}
					}
					if f.cfg == "Message" {
						want, _, _ = k.acc(b.st, ptrTo(e.typ("@/message.Signal")), want, "Bytes")
					} else {
						want = onWire(want, t)
					}
					k.ob(bc.same(got, want), "every wire field is filled from its own field", bc, "%s.%s is %s instead of %s", m.wire, f.wire, got.str(6), want.str(6))
				}
			}
			// an encoding is no shorter than the byte strings in it
			for _, p := range w.args {
				if p.op != "mar" {
					continue
				}
				sum := mkInt(0)
				bs := bt.Underlying().(*types.Struct)
				for i := 0; i < bs.NumFields(); i++ {
					if f := bs.Field(i); !isProtoInternal(f.Name()) && isBytes(f.Type()) {
						sum = mkAdd(sum, mkLen(mkFld(mkDeref(p.args[1], bt), f.Name(), f.Type())))
					}
				}
				b.st.assume(mkLe(sum, mkLen(p)), true)
			}
			// parsed again
			parsed := 0
			for _, r := range e.exec(b.st, parse, w) {
				c := r.cse()
				if !r.ok() {
					k.ob(!c.st.possible(), "a built message parses", c, "%s fails on a message %s built", m.parse, m.build)
					continue
				}
				parsed++
				k.counts["parsed messages"]++
				pm := open(r.raw[0])
				pw, _, _ := k.acc(r.st, mt, pm, "Bytes")
				k.ob(pw != nil && c.same(pw, w), "a parsed message keeps the bytes", c, "it has %s", str(pw, 6))
				v, _, _ := k.acc(r.st, mt, pm, "Version")
				k.ob(v != nil && c.same(v, mkInt(3)), "the version survives the wire", c, "it is %s", str(v, 6))
				v, _, _ = k.acc(b.st, mt, b.msg, "Version")
				k.ob(v != nil && bc.same(v, mkInt(3)), "a built message has the version it was built with", bc, "it is %s", str(v, 6))
				for _, f := range m.fields {
					if f.acc == "" {
						continue
					}
					k.counts["accessors"]++
					got, at, _ := k.acc(r.st, mt, pm, f.acc)
					was, _, _ := k.acc(b.st, mt, b.msg, f.acc)
					if got == nil || was == nil {
						k.undec = append(k.undec, "accessor "+f.acc+" has several outcomes")
						continue
					}
					want := e.reify(r.st, mkFld(b.cfg, f.cfg, ctype(f.cfg)), at)
					if f.cfg == "Message" {
						st := ptrTo(e.typ("@/message.Signal"))
						for _, a := range []string{"Version", "SenderRatchetKey", "Counter", "Message", "Bytes"} {
							x, xt, _ := k.acc(r.st, st, got, a)
							y, _, _ := k.acc(r.st, st, want, a)
							k.ob(x != nil && y != nil && c.sameVal(x, y, xt), "the inner message survives the wire", c, "%s is %s instead of %s", a, str(x, 6), str(y, 6))
						}
						continue
					}
					k.ob(c.sameVal(was, want, at), "a built message has what it was built from", c, "%s is %s instead of %s", f.acc, was.str(6), want.str(6))
					k.ob(c.sameVal(got, want, at), "what is sent is what is received", c, "%s is %s instead of %s", f.acc, got.str(6), want.str(6))
				}
			}
			k.ob(parsed > 0, "a built message parses", bytesC, "%s never parses what %s built", m.parse, m.build)
		})
		if n == 0 {
			k.undec = append(k.undec, m.build+" never succeeds")
		}
		// parsing arbitrary bytes
		w := e.paramsOf(parse)[0]
		for _, r := range e.exec(e.base, parse, w) {
			if !r.ok() {
				continue
			}
			c := r.cse()
			k.counts["received messages"]++
			pm := open(r.raw[0])
			pw, _, _ := k.acc(r.st, mt, pm, "Bytes")
			k.ob(pw == w, "a received message keeps the received bytes", c, "it has %s", str(pw, 6))
			v := e.unmVal(m.wire, subB(w, mkInt(1), mkSub(mkLen(w), mkInt(m.trailer))))
			for _, f := range m.fields {
				if f.acc == "" || f.cfg == "Message" {
					continue
				}
				got, at, _ := k.acc(r.st, mt, pm, f.acc)
				if got == nil {
					k.undec = append(k.undec, "accessor "+f.acc+" has several outcomes")
					continue
				}
				fv := mkFld(v, f.wire, fieldType(bt, f.wire))
				if f.acc == "PreKeyID" {
					ng, nw := c.nilness(got), c.nilness(fv)
					if !k.ob(ng == nw && (ng >= 0 || got == fv), "an absent one-time pre-key is parsed as absent", c, "it is %s", got.str(5)) || ng == 1 {
						continue
					}
					got, at, fv = mkDeref(got, e.typ("@/prekey.ID")), e.typ("@/prekey.ID"), e.pf(v, m.wire, f.wire)
				} else {
					fv = e.pf(v, m.wire, f.wire)
				}
				ok := c.same(got, fv)
				switch {
				case isNamed("distribution", "ID")(at):
					ok = c.same(e.uuidOf(got), apply("uuid", fv))
				case isNamed("curve", "PublicKey")(at):
					ok = c.same(got, mkPk(subB(fv, mkInt(0), mkInt(33)))) || c.same(got, mkPk(fv))
				case isNamed("identity", "Key")(at):
					got, _ = walk(got, at, fieldBy(at, isNamed("curve", "PublicKey")))
					ok = c.same(got, mkPk(subB(fv, mkInt(0), mkInt(33)))) || c.same(got, mkPk(fv))
				}
				k.counts["parsed fields"]++
				k.ob(ok, "every field is parsed from its own wire field", c, "%s is %s instead of %s", f.acc, got.str(6), fv.str(6))
			}
		}
	}
	// plaintext content
	f := e.fn("@/message.NewPlaintextFromBytes")
	w := e.paramsOf(f)[0]
	pt := ptrTo(e.typ("@/message.Plaintext"))
	for _, r := range e.exec(e.base, f, w) {
		if !r.ok() {
			continue
		}
		c := r.cse()
		k.counts["received messages"]++
		b, _, _ := k.acc(r.st, pt, open1(r.raw[0]), "Bytes")
		k.ob(b == w, "a received message keeps the received bytes", c, "it has %s", str(b, 6))
		b, _, _ = k.acc(r.st, pt, open1(r.raw[0]), "Message")
		k.ob(b != nil && c.same(b, subB(w, mkInt(1), mkLen(w))), "plaintext content is everything after the marker", c, "it is %s", str(b, 6))
	}
	k.floor("built messages", 5)
	k.floor("parsed messages", 5)
	k.floor("received messages", 5)
	k.floor("wire fields", 20)
	k.floor("accessors", 15)
	k.floor("parsed fields", 15)
}

func open1(v *T) *T {
	if v.op == "iface" {
		return v.args[0]
	}
	return v
}

func str(t *T, d int) string {
	if t == nil {
		return "nothing"
	}
	return t.str(d)
}

func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}
