package main

// The algebra of the curve and aes packages (opaque mode), and of the primitives they are built from.

import (
	"go/types"
)

var opaqueModels = map[string]model{}

func mkPk(b *T) *T {
	if b.op == "pkbytes" {
		return b.args[0]
	}
	return app("pk", mkSubseq(b, mkInt(0), mkInt(33)))
}

// mkDh is the shared secret of the owners of two public keys.
func mkDh(op string, a, b *T) *T {
	if a.id > b.id {
		a, b = b, a
	}
	return app(op, a, b)
}

func mkPub(sk *T) *T { return apply("pub", sk) }

func init() {
	for _, n := range []string{"block", "aesblk"} {
		nonNilOps[n] = true
	}
	fixedLen["x25519"] = 32
	fixedLen["scbytes"] = 32
	fixedLen["ptbytes"] = 32
	fixedLen["ptmont"] = 32
	fixedLen["febytes"] = 32
	delete(fixedLen, "dh")
	fixedLen["dh"] = 32
	simplify["pk"] = func(a []*T) *T { return mkPk(a[0]) }
	simplify["pkok"] = func(a []*T) *T {
		if a[0].op == "pkbytes" {
			return tTrue
		}
		return nil
	}
	simplify["skok"] = func(a []*T) *T {
		if a[0].op == "skbytes" {
			return tTrue
		}
		return nil
	}
	simplify["sk"] = func(a []*T) *T {
		if a[0].op == "skbytes" {
			return a[0].args[0]
		}
		return nil
	}
	simplify["pkbytes"] = func(a []*T) *T {
		if a[0].op == "pk" {
			return a[0].args[0]
		}
		return nil
	}
	simplify["pkkey"] = func(a []*T) *T {
		if a[0].op == "pk" {
			return mkSubseq(a[0].args[0], mkInt(1), mkInt(33))
		}
		return nil
	}
	simplify["dh"] = func(a []*T) *T { return mkDh("dh", a[0], a[1]) }
	simplify["dhok"] = func(a []*T) *T { return mkDh("dhok", a[0], a[1]) }
	simplify["pkeq"] = func(a []*T) *T { return pkEq(a[0], a[1]) }
	simplify["verify"] = func(a []*T) *T {
		if a[1].op == "sign" && a[1].args[2] == a[2] && a[0] == mkPub(a[1].args[0]) {
			return tTrue
		}
		return nil
	}
	simplify["b2i"] = func(a []*T) *T { return mkB2i(a[0]) }
	simplify["decok"] = func(a []*T) *T {
		if a[2].op == "cbcenc" && a[2].args[0] == a[0] && a[2].args[1] == a[1] {
			return tTrue
		}
		return nil
	}
	simplify["cbcdec"] = func(a []*T) *T {
		if a[2].op == "cbcenc" && a[2].args[0] == a[0] && a[2].args[1] == a[1] {
			return a[2].args[2]
		}
		return nil
	}

	o := opaqueModels
	o["@/curve.NewPublicKey"] = func(c *callCtx) []Outcome {
		b := c.bytes(0)
		return c.fallible(apply("pkok", b), func(st *State) []*T {
			st.assume(mkLe(mkInt(33), mkLen(b)), true)
			st.assume(mkEq0(mkSub(mkIdxT(b, mkInt(0), types.Typ[types.Byte]), mkInt(5))), true)
			return []*T{withVT(mkPk(b), c.sig.Results().At(0).Type())}
		}, nil)
	}
	o["@/curve.NewPrivateKey"] = func(c *callCtx) []Outcome {
		b := c.bytes(0)
		return c.fallible(apply("skok", b), func(st *State) []*T {
			st.assume(mkEq0(mkSub(mkLen(b), mkInt(32))), true)
			return []*T{withVT(apply("sk", b), c.sig.Results().At(0).Type())}
		}, nil)
	}
	o["@/curve.GeneratePrivateKey"] = func(c *callCtx) []Outcome {
		r := c.args[0]
		src := r
		if r == tNil || c.st.holds(mkEq(tNil, r)) {
			src = app("deref", raw("glob", "crypto/rand.Reader", nil))
		}
		id := c.e.freshSym(c.st, "rnd", nil, c.pos)
		base := c.st
		c.st = base.clone()
		v := app("rnd", src, id, mkInt(32))
		ev := func(st *State, ok *T) {
			e := &Event{Kind: "rand", Args: []*T{src, mkInt(32)}, Res: []*T{v}, Ok: ok, Pos: c.pos, St: c.st}
			e.setKey()
			st.addEvent(e)
		}
		s1, s2 := base.clone(), base.clone()
		ev(s1, tFalse)
		ev(s2, tTrue)
		if angel {
			return []Outcome{{st: s2, vals: []*T{withVT(app("sk", v), c.sig.Results().At(0).Type()), tNil}}}
		}
		return []Outcome{{st: s1, vals: []*T{tNil, raw("err", "GeneratePrivateKey@"+c.e.where(c.pos), nil)}},
			{st: s2, vals: []*T{withVT(app("sk", v), c.sig.Results().At(0).Type()), tNil}}}
	}
	pub := "(@/curve.PublicKey)."
	o[pub+"Bytes"] = func(c *callCtx) []Outcome { return c.ret(c.slice(c.st, apply("pkbytes", c.args[0]))) }
	o[pub+"KeyBytes"] = func(c *callCtx) []Outcome { return c.ret(c.slice(c.st, apply("pkkey", c.args[0]))) }
	o[pub+"keyType"] = func(c *callCtx) []Outcome { return c.ret(mkInt(5)) }
	o[pub+"Equal"] = func(c *callCtx) []Outcome {
		c.e.oblige(c.st, "nil dereference (key argument)", mkNot(mkEq(tNil, c.args[1])), c.pos)
		return c.ret(pkEq(c.args[0], c.args[1]))
	}
	o[pub+"VerifySignature"] = func(c *callCtx) []Outcome {
		sig, msg := c.bytes(1), c.catArgs(2)
		return c.fallible(app("verok", c.args[0], sig), func(st *State) []*T {
			return []*T{apply("verify", c.args[0], sig, msg)}
		}, nil)
	}
	priv := "(@/curve.PrivateKey)."
	o[priv+"Bytes"] = func(c *callCtx) []Outcome { return c.ret(c.slice(c.st, apply("skbytes", c.args[0]))) }
	o[priv+"PublicKey"] = func(c *callCtx) []Outcome {
		return c.ret(withVT(mkPub(c.args[0]), c.sig.Results().At(0).Type()))
	}
	o[priv+"Agreement"] = func(c *callCtx) []Outcome {
		c.e.oblige(c.st, "nil dereference (key argument)", mkNot(mkEq(tNil, c.args[1])), c.pos)
		a, b := mkPub(c.args[0]), c.args[1]
		return c.fallible(mkDh("dhok", a, b), func(st *State) []*T {
			return []*T{c.slice(st, mkDh("dh", a, b))}
		}, nil)
	}
	o[priv+"Sign"] = func(c *callCtx) []Outcome {
		msg := c.catArgs(2)
		r := c.args[1]
		src := r
		if r == tNil || c.st.holds(mkEq(tNil, r)) {
			src = app("deref", raw("glob", "crypto/rand.Reader", nil))
		}
		id := c.e.freshSym(c.st, "rnd", nil, c.pos)
		base := c.st
		c.st = base.clone()
		v := app("rnd", src, id, mkInt(64))
		ev := func(st *State, ok *T) {
			e := &Event{Kind: "rand", Args: []*T{src, mkInt(64)}, Res: []*T{v}, Ok: ok, Pos: c.pos, St: c.st}
			e.setKey()
			st.addEvent(e)
		}
		s1, s2 := base.clone(), base.clone()
		ev(s1, tFalse)
		ev(s2, tTrue)
		if angel {
			return []Outcome{{st: s2, vals: []*T{c.slice(s2, app("sign", c.args[0], v, msg)), tNil}}}
		}
		return []Outcome{{st: s1, vals: []*T{tNil, raw("err", "Sign@"+c.e.where(c.pos), nil)}},
			{st: s2, vals: []*T{c.slice(s2, app("sign", c.args[0], v, msg)), tNil}}}
	}
	o["@/crypto/aes.CBCEncrypt"] = func(c *callCtx) []Outcome {
		k, iv, p := c.bytes(0), c.bytes(1), c.bytes(2)
		cond := tTrue
		if mkLen(k) != mkInt(32) || mkLen(iv) != mkInt(16) {
			cond = app("encok", mkLen(k), mkLen(iv))
		}
		return c.fallible(cond, func(st *State) []*T {
			return []*T{c.slice(st, app("cbcenc", k, iv, p))}
		}, nil)
	}
	o["@/crypto/aes.CBCDecrypt"] = func(c *callCtx) []Outcome {
		k, iv, p := c.bytes(0), c.bytes(1), c.bytes(2)
		return c.fallible(apply("decok", k, iv, p), func(st *State) []*T {
			return []*T{c.slice(st, apply("cbcdec", k, iv, p))}
		}, nil)
	}
	prim()
}

// catArgs is the concatenation of the byte strings in a variadic parameter.
func (c *callCtx) catArgs(i int) *T {
	s := c.bytes(i)
	if s == tEmpty {
		return tEmpty
	}
	if s.op == "list" {
		var ps []*T
		for _, x := range s.args {
			ps = append(ps, c.e.seq(c.st, x))
		}
		return mkCat(ps...)
	}
	return app("concat", s)
}

// prim: models of the primitives under the curve and aes packages.
func prim() {
	m := models
	const ed = "filippo.io/edwards25519."
	const fe = "filippo.io/edwards25519/field."
	get := func(c *callCtx, i int) *T {
		c.e.oblige(c.st, "nil dereference (curve value)", mkNot(mkEq(tNil, c.args[i])), c.pos)
		if v, ok := c.st.heap[cell(c.args[i], "v")]; ok {
			return v
		}
		if c.args[i].op == "obj" {
			return app("curvezero")
		}
		return raw("libval", "v", nil, c.args[i])
	}
	set := func(c *callCtx, st *State, v *T) *T {
		st.set(cell(c.args[0], "v"), v)
		return c.args[0]
	}
	ctor := func(c *callCtx) []Outcome {
		return c.ret(c.e.newObj(c.st, "m:curve", nil, c.pos))
	}
	m[ed+"NewScalar"] = ctor
	m[ed+"NewIdentityPoint"] = ctor
	m[ed+"NewGeneratorPoint"] = func(c *callCtx) []Outcome {
		o := c.e.newObj(c.st, "m:curve", nil, c.pos)
		c.st.set(cell(o, "v"), app("generator"))
		return c.ret(o)
	}
	fromBytes := func(op string, n int64, extra *T) model {
		return func(c *callCtx) []Outcome {
			b := c.bytes(1)
			cond := mkEq0(mkSub(mkLen(b), mkInt(n)))
			if extra != nil {
				cond = mkAnd(cond, app(extra.s, b))
			}
			return c.fallible(cond, func(st *State) []*T {
				return []*T{set(c, st, app(op, b))}
			}, func(st *State) []*T { return []*T{tNil} })
		}
	}
	S := "(*" + ed + "Scalar)."
	m[S+"SetBytesWithClamping"] = fromBytes("clamp", 32, nil)
	m[S+"SetUniformBytes"] = fromBytes("scred", 64, nil)
	m[S+"SetCanonicalBytes"] = fromBytes("scanon", 32, mkStr("scanonok"))
	op := func(name string, n int, comm bool) model {
		return func(c *callCtx) []Outcome {
			var as []*T
			for i := 1; i <= n; i++ {
				as = append(as, get(c, i))
			}
			if comm && n == 2 && as[0].id > as[1].id {
				as[0], as[1] = as[1], as[0]
			}
			return c.ret(set(c, c.st, app(name, as...)))
		}
	}
	m[S+"MultiplyAdd"] = func(c *callCtx) []Outcome {
		a, b, d := get(c, 1), get(c, 2), get(c, 3)
		return c.ret(set(c, c.st, mkScAdd(mkScMul(a, b), d)))
	}
	m[S+"Multiply"] = func(c *callCtx) []Outcome { return c.ret(set(c, c.st, mkScMul(get(c, 1), get(c, 2)))) }
	m[S+"Add"] = func(c *callCtx) []Outcome { return c.ret(set(c, c.st, mkScAdd(get(c, 1), get(c, 2)))) }
	m[S+"Subtract"] = op("scsub", 2, false)
	m[S+"Negate"] = op("scneg", 1, false)
	m[S+"Set"] = func(c *callCtx) []Outcome { return c.ret(set(c, c.st, get(c, 1))) }
	m[S+"Bytes"] = func(c *callCtx) []Outcome { return c.ret(c.slice(c.st, app("scbytes", get(c, 0)))) }
	m[S+"Equal"] = func(c *callCtx) []Outcome { return c.ret(mkB2i(mkEq(get(c, 0), get(c, 1)))) }
	P := "(*" + ed + "Point)."
	m[P+"ScalarBaseMult"] = op("bmul", 1, false)
	m[P+"ScalarMult"] = func(c *callCtx) []Outcome {
		s, q := get(c, 1), get(c, 2)
		if q == app("generator") {
			return c.ret(set(c, c.st, app("bmul", s)))
		}
		return c.ret(set(c, c.st, app("ptmul", s, q)))
	}
	m[P+"Negate"] = op("ptneg", 1, false)
	m[P+"Add"] = op("ptadd", 2, true)
	m[P+"Set"] = func(c *callCtx) []Outcome { return c.ret(set(c, c.st, get(c, 1))) }
	m[P+"SetBytes"] = fromBytes("ptof", 32, mkStr("ptok"))
	m[P+"Bytes"] = func(c *callCtx) []Outcome { return c.ret(c.slice(c.st, app("ptbytes", get(c, 0)))) }
	m[P+"BytesMontgomery"] = func(c *callCtx) []Outcome { return c.ret(c.slice(c.st, app("ptmont", get(c, 0)))) }
	F := "(*" + fe + "Element)."
	m[F+"One"] = func(c *callCtx) []Outcome { return c.ret(set(c, c.st, app("feone"))) }
	m[F+"Zero"] = func(c *callCtx) []Outcome { return c.ret(set(c, c.st, app("fezero"))) }
	m[F+"Set"] = func(c *callCtx) []Outcome { return c.ret(set(c, c.st, get(c, 1))) }
	m[F+"SetBytes"] = fromBytes("feof", 32, nil)
	m[F+"Add"] = op("feadd", 2, true)
	m[F+"Multiply"] = op("femul", 2, true)
	m[F+"Subtract"] = op("fesub", 2, false)
	m[F+"Negate"] = op("feneg", 1, false)
	m[F+"Invert"] = op("feinv", 1, false)
	m[F+"Bytes"] = func(c *callCtx) []Outcome { return c.ret(c.slice(c.st, app("febytes", get(c, 0)))) }
	m[F+"Equal"] = func(c *callCtx) []Outcome { return c.ret(mkB2i(mkEq(get(c, 0), get(c, 1)))) }

	// crypto/ecdh
	m["crypto/ecdh.X25519"] = func(c *callCtx) []Outcome {
		o := raw("obj", "x25519curve", nil)
		c.e.modelKind[o] = "ecdhcurve"
		return c.ret(o)
	}
	ek := func(kind string) model {
		return func(c *callCtx) []Outcome {
			b := c.bytes(1)
			return c.fallible(mkEq0(mkSub(mkLen(b), mkInt(32))), func(st *State) []*T {
				o := c.e.newObj(st, "m:ecdh"+kind, nil, c.pos)
				st.set(cell(o, "v"), b)
				return []*T{o}
			}, func(st *State) []*T { return []*T{tNil} })
		}
	}
	m["$ecdhcurve.NewPrivateKey"] = ek("priv")
	m["$ecdhcurve.NewPublicKey"] = ek("pub")
	m["(*crypto/ecdh.PrivateKey).ECDH"] = func(c *callCtx) []Outcome {
		a, b := get(c, 0), get(c, 1)
		return c.fallible(app("x25519ok", a, b), func(st *State) []*T {
			return []*T{c.slice(st, app("x25519", a, b))}
		}, nil)
	}
	m["(*crypto/ecdh.PrivateKey).Bytes"] = func(c *callCtx) []Outcome { return c.ret(c.slice(c.st, get(c, 0))) }
	m["(*crypto/ecdh.PublicKey).Bytes"] = func(c *callCtx) []Outcome { return c.ret(c.slice(c.st, get(c, 0))) }
	m["(*crypto/ecdh.PrivateKey).PublicKey"] = func(c *callCtx) []Outcome {
		o := c.e.newObj(c.st, "m:ecdhpub", nil, c.pos)
		c.st.set(cell(o, "v"), app("ptmont", app("bmul", app("clamp", get(c, 0)))))
		return c.ret(o)
	}
	m["crypto/ed25519.Verify"] = func(c *callCtx) []Outcome {
		k, msg, sig := c.bytes(0), c.bytes(1), c.bytes(2)
		c.e.oblige(c.st, "ed25519: bad public key length", mkEq0(mkSub(mkLen(k), mkInt(32))), c.pos)
		return c.ret(app("edverify", k, msg, sig))
	}

	// crypto/aes, crypto/cipher
	m["crypto/aes.NewCipher"] = func(c *callCtx) []Outcome {
		k := c.bytes(0)
		n := mkLen(k)
		var cond *T
		if l, ok := n.isInt(); ok {
			cond = mkBool(l == 16 || l == 24 || l == 32)
		} else {
			cond = app("aeskeylen", n)
		}
		return c.fallible(cond, func(st *State) []*T {
			o := c.obj(st, "block")
			st.set(cell(o, "key"), k)
			return []*T{o}
		}, nil)
	}
	m["$block.BlockSize"] = func(c *callCtx) []Outcome { return c.ret(mkInt(16)) }
	mode := func(dir string) model {
		return func(c *callCtx) []Outcome {
			iv := c.bytes(1)
			c.e.oblige(c.st, "cipher: IV length must equal block size", mkEq0(mkSub(mkLen(iv), mkInt(16))), c.pos)
			o := c.obj(c.st, "cbc")
			c.st.set(cell(o, "key"), c.get(c.args[0], "key", nil))
			c.st.set(cell(o, "iv"), iv)
			c.st.set(cell(o, "dir"), mkStr(dir))
			return c.ret(o)
		}
	}
	m["crypto/cipher.NewCBCEncrypter"] = mode("enc")
	m["crypto/cipher.NewCBCDecrypter"] = mode("dec")
	m["$cbc.BlockSize"] = func(c *callCtx) []Outcome { return c.ret(mkInt(16)) }
	m["$cbc.CryptBlocks"] = func(c *callCtx) []Outcome {
		o := c.args[0]
		src := c.bytes(2)
		n := mkLen(src)
		c.e.oblige(c.st, "cipher: input not full blocks", mkEq0(mkMod(n, 16)), c.pos)
		c.e.oblige(c.st, "cipher: output smaller than input", mkLe(n, c.len(1)), c.pos)
		iv := c.get(o, "iv", nil)
		res := app("cbcraw", c.get(o, "dir", nil), c.get(o, "key", nil), iv, src, n)
		c.e.overwrite(c.st, c.args[1], mkInt(0), n, res, "CryptBlocks")
		c.st.set(cell(o, "iv"), app("nextiv", res))
		return c.ret()
	}
	fixedLen["nextiv"] = 16
	simplify["mod"] = func(a []*T) *T {
		if n, ok := a[1].isInt(); ok && n > 0 {
			return mkMod(a[0], n)
		}
		return nil
	}
}

func mkScMul(a, b *T) *T {
	if a.id > b.id {
		a, b = b, a
	}
	return app("scmul", a, b)
}

func mkScAdd(a, b *T) *T {
	if a.id > b.id {
		a, b = b, a
	}
	return app("scadd", a, b)
}

// mkMod is t mod n for a non-negative t.
func mkMod(t *T, n int64) *T {
	l := linOf(t)
	r := lin{k: l.k, m: map[*T]int64{}}
	for changed := true; changed; {
		changed = false
		r = lin{k: l.k, m: map[*T]int64{}}
		for a, c := range l.m {
			if a.op == "mod" && a.args[1] == mkInt(n) {
				r = linAdd(r, linOf(a.args[0]), c)
				changed = true
				continue
			}
			r = linAdd(r, lin{m: map[*T]int64{a: 1}}, c)
		}
		l = r
	}
	red := lin{k: ((l.k % n) + n) % n, m: map[*T]int64{}}
	for a, c := range l.m {
		if c = ((c % n) + n) % n; c != 0 {
			red.m[a] = c
		}
	}
	if len(red.m) == 0 {
		return mkInt(red.k)
	}
	return app("mod", red.term(), mkInt(n))
}
