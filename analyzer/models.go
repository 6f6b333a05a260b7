package main

// Models of library functions and of the store interfaces.

import (
	"fmt"
	"go/types"
	"strings"
)

func init() {
	m := models
	// ---- errors
	m["errors.New"] = func(c *callCtx) []Outcome {
		c.e.sinks = append(c.e.sinks, Sink{Entry: c.e.entry, Kind: "error text", Args: []*T{c.args[0]}, Pos: c.pos, Fn: c.e.curFn()})
		if c.e.inInit {
			return c.ret(raw("obj", "errglob@"+c.e.stackKey(c.pos), nil))
		}
		return c.ret(raw("err", "errors.New@"+c.e.where(c.pos), nil, c.args[0]))
	}
	m["fmt.Errorf"] = func(c *callCtx) []Outcome {
		args := c.variadic(1)
		c.e.sinks = append(c.e.sinks, Sink{Entry: c.e.entry, Kind: "error text", Args: append([]*T{c.args[0]}, args...), Pos: c.pos, Fn: c.e.curFn()})
		if c.e.inInit {
			return c.ret(raw("obj", "errglob@"+c.e.stackKey(c.pos), nil))
		}
		kind := "fmt.Errorf@"
		if c.args[0].op == "str" && strings.Contains(c.args[0].s, "%w") {
			kind = "wrap@"
		}
		return c.ret(raw("err", kind+c.e.where(c.pos), nil, append([]*T{c.args[0]}, args...)...))
	}
	m["errors.Join"] = func(c *callCtx) []Outcome {
		var nn []*T
		for _, a := range c.variadic(0) {
			if a == tNil {
				continue
			}
			if !c.st.nonNil(a) {
				return c.e.unknownCall(c)
			}
			nn = append(nn, a)
		}
		if len(nn) == 0 {
			return c.ret(tNil)
		}
		return c.ret(raw("err", "wrap@"+c.e.where(c.pos), nil, nn...))
	}
	m["errors.Is"] = func(c *callCtx) []Outcome { return c.ret(c.errIs(c.args[0], c.args[1])) }
	m["errors.Unwrap"] = func(c *callCtx) []Outcome {
		return c.ret(withVT(app("unwrap", c.args[0]), c.sig.Results().At(0).Type()))
	}

	// ---- formatting and logging
	for _, n := range []string{"fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln"} {
		n := n
		m[n] = func(c *callCtx) []Outcome {
			var as []*T
			i := 0
			if n == "fmt.Sprintf" {
				as = append(as, c.args[0])
				i = 1
			}
			as = append(as, c.variadic(i)...)
			return c.ret(fmtTerm(n, as))
		}
	}
	for _, lv := range []string{"Info", "Warning", "Error"} {
		for _, suf := range []string{"", "ln", "f", "Depth"} {
			m["github.com/golang/glog."+lv+suf] = func(c *callCtx) []Outcome { return c.logSink() }
		}
	}
	for _, suf := range []string{"", "ln", "f"} {
		for _, lv := range []string{"Fatal", "Exit"} {
			m["github.com/golang/glog."+lv+suf] = func(c *callCtx) []Outcome {
				c.logSink()
				c.e.oblige(c.st, "process exit", tFalse, c.pos)
				return nil
			}
		}
		m["(github.com/golang/glog.Verbose).Info"+suf] = func(c *callCtx) []Outcome { return c.logSink() }
		m["log.Print"+suf] = func(c *callCtx) []Outcome { return c.logSink() }
		m["fmt.Print"+suf] = func(c *callCtx) []Outcome { c.logSink(); return c.ret(mkInt(0), tNil) }
		suf := suf
		m["fmt.Fprint"+suf] = func(c *callCtx) []Outcome {
			w := c.args[0]
			if w.op == "iface" {
				if n := w.typ.String(); n == "*bytes.Buffer" || n == "*strings.Builder" {
					as := append([]*T{}, c.args[1:len(c.args)-1]...)
					x := fmtTerm("fmt.Sprint"+suf, append(as, c.variadic(len(c.args)-1)...))
					c.st.set(cell(w.args[0], "buf"), mkCat(c.get(w.args[0], "buf", tEmpty), x))
					return c.ret(mkLen(x), tNil)
				}
			}
			c.logSink()
			return c.ret(mkInt(0), tNil)
		}
	}
	m["github.com/golang/glog.V"] = func(c *callCtx) []Outcome { return c.ret(c.pure(nil)...) }
	pureStr := func(op string) model {
		return func(c *callCtx) []Outcome {
			var as []*T
			for i := range c.args {
				as = append(as, c.flat(i))
			}
			return c.ret(withVT(apply(op, as...), c.sig.Results().At(0).Type()))
		}
	}
	m["encoding/hex.EncodeToString"] = pureStr("hex")
	m["strconv.FormatUint"] = pureStr("fmtuint")
	m["strconv.FormatInt"] = pureStr("fmtuint")
	m["strconv.Itoa"] = func(c *callCtx) []Outcome { return c.ret(apply("fmtuint", c.args[0], mkInt(10))) }
	m["strconv.Quote"] = pureStr("quote")

	// ---- comparisons
	cmp := func(constant bool, asInt bool) model {
		return func(c *callCtx) []Outcome {
			a, b := c.bytes(0), c.bytes(1)
			c.e.cmps = append(c.e.cmps, Cmp{A: a, B: b, Const: constant, Pos: c.pos, Fn: c.e.curFn(), Entry: c.e.entry})
			eq := seqEq(a, b)
			if asInt {
				return c.ret(withVT(mkB2i(eq), types.Typ[types.Int]))
			}
			return c.ret(eq)
		}
	}
	m["bytes.Equal"] = cmp(false, false)
	m["crypto/hmac.Equal"] = cmp(true, false)
	m["crypto/subtle.ConstantTimeCompare"] = cmp(true, true)
	m["bytes.Compare"] = func(c *callCtx) []Outcome {
		a, b := c.bytes(0), c.bytes(1)
		c.e.cmps = append(c.e.cmps, Cmp{A: a, B: b, Const: false, Pos: c.pos, Fn: c.e.curFn(), Entry: c.e.entry})
		if a == b {
			return c.ret(mkInt(0))
		}
		t := withVT(app("bcmp", a, b), types.Typ[types.Int])
		return c.ret(t)
	}
	m["crypto/subtle.ConstantTimeEq"] = func(c *callCtx) []Outcome { return c.ret(mkB2i(mkEq0(mkSub(c.args[0], c.args[1])))) }
	m["crypto/subtle.ConstantTimeByteEq"] = m["crypto/subtle.ConstantTimeEq"]

	// ---- byte helpers
	m["bytes.Repeat"] = func(c *callCtx) []Outcome {
		b := c.bytes(0)
		c.e.oblige(c.st, "bytes.Repeat: negative count", mkLe(mkInt(0), c.args[1]), c.pos)
		switch {
		case b.op == "str" && len(b.s) == 1:
			return c.ret(c.slice(c.st, mkRep(mkInt(int64(b.s[0])), c.args[1])))
		case c.st.holds(mkEq0(mkSub(mkLen(b), mkInt(1)))):
			return c.ret(c.slice(c.st, mkRep(mkIdxT(b, mkInt(0), bytesT), c.args[1])))
		case b.op == "list" && len(b.args) == 1:
			return c.ret(c.slice(c.st, mkRep(b.args[0], c.args[1])))
		}
		if n, ok := c.args[1].isInt(); ok && n >= 0 && n < 64 {
			var ps []*T
			for i := int64(0); i < n; i++ {
				ps = append(ps, b)
			}
			return c.ret(c.slice(c.st, mkCat(ps...)))
		}
		return c.ret(c.slice(c.st, app("repeat", b, c.args[1])))
	}
	clone := func(c *callCtx) []Outcome {
		if c.args[0].op == "nil" {
			return c.ret(tNil)
		}
		return c.ret(withVT(c.slice(c.st, c.bytes(0)), c.sig.Results().At(0).Type()))
	}
	m["bytes.Clone"] = clone
	m["slices.Clone"] = clone
	m["bytes.Join"] = func(c *callCtx) []Outcome {
		l, sep := c.bytes(0), c.bytes(1)
		if l == tEmpty {
			return c.ret(c.slice(c.st, tEmpty))
		}
		if l.op != "list" && sep == tEmpty && !anyOp(l, "list", "cat", "obj", "slice") {
			n := raw("N", "join", nil)
			return c.ret(c.slice(c.st, mkFm(mkLen(l), mkIdxT(l, n, bytesT), n)))
		}
		if l.op != "list" {
			return c.e.unknownCall(c)
		}
		var ps []*T
		for i, x := range l.args {
			if i > 0 {
				ps = append(ps, sep)
			}
			ps = append(ps, c.e.seq(c.st, x))
		}
		return c.ret(c.slice(c.st, mkCat(ps...)))
	}
	m["strings.Join"] = func(c *callCtx) []Outcome {
		l := c.bytes(0)
		if l != tEmpty && l.op != "list" {
			return c.e.unknownCall(c)
		}
		var ps []*T
		for i, x := range l.args {
			if i > 0 {
				ps = append(ps, c.args[1])
			}
			ps = append(ps, x)
		}
		return c.ret(mkCat(ps...))
	}
	m["bytes.HasPrefix"] = func(c *callCtx) []Outcome {
		a, b := c.bytes(0), c.bytes(1)
		n := mkLen(b)
		c.e.cmps = append(c.e.cmps, Cmp{A: a, B: b, Const: false, Pos: c.pos, Fn: c.e.curFn(), Entry: c.e.entry})
		le := mkLe(n, mkLen(a))
		return c.ret(mkAnd(le, seqEq(mkSubseq(a, mkInt(0), n), b)))
	}
	m["bytes.HasSuffix"] = func(c *callCtx) []Outcome {
		a, b := c.bytes(0), c.bytes(1)
		n := mkLen(b)
		c.e.cmps = append(c.e.cmps, Cmp{A: a, B: b, Const: false, Pos: c.pos, Fn: c.e.curFn(), Entry: c.e.entry})
		return c.ret(mkAnd(mkLe(n, mkLen(a)), seqEq(mkSubseq(a, mkSub(mkLen(a), n), mkLen(a)), b)))
	}
	m["slices.Equal"] = func(c *callCtx) []Outcome { return cmp(false, false)(c) }

	// ---- bytes.Buffer, strings.Builder
	m["bytes.NewBuffer"] = func(c *callCtx) []Outcome {
		o := c.e.newObj(c.st, "m:buffer", nil, c.pos)
		c.st.set(cell(o, "buf"), c.bytes(0))
		if a, _, _ := parts(c.args[0]); rootOf(a).op != "obj" && a.op != "nil" {
			c.st.set(cell(o, "base"), a)
		}
		return c.ret(o)
	}
	m["bytes.NewBufferString"] = func(c *callCtx) []Outcome {
		o := c.e.newObj(c.st, "m:buffer", nil, c.pos)
		c.st.set(cell(o, "buf"), c.args[0])
		return c.ret(o)
	}
	for _, ty := range []string{"(*bytes.Buffer).", "(*strings.Builder)."} {
		wr := func(n func(c *callCtx) *T, errs bool) model {
			return func(c *callCtx) []Outcome {
				o := c.args[0]
				c.e.oblige(c.st, "nil dereference (buffer)", mkNot(mkEq(tNil, o)), c.pos)
				x := n(c)
				if b, ok := c.st.heap[cell(o, "base")]; ok {
					c.e.recordWrite(b, "write to a buffer over it")
				}
				c.st.set(cell(o, "buf"), mkCat(c.get(o, "buf", tEmpty), x))
				if errs {
					return c.ret(tNil)
				}
				return c.ret(mkLen(x), tNil)
			}
		}
		m[ty+"Write"] = wr(func(c *callCtx) *T { return c.bytes(1) }, false)
		m[ty+"WriteString"] = wr(func(c *callCtx) *T { return c.args[1] }, false)
		m[ty+"WriteByte"] = wr(func(c *callCtx) *T { return mkList(c.args[1]) }, true)
		m[ty+"String"] = func(c *callCtx) []Outcome { return c.ret(c.get(c.args[0], "buf", tEmpty)) }
		m[ty+"Bytes"] = func(c *callCtx) []Outcome { return c.ret(c.slice(c.st, c.get(c.args[0], "buf", tEmpty))) }
		m[ty+"Len"] = func(c *callCtx) []Outcome { return c.ret(mkLen(c.get(c.args[0], "buf", tEmpty))) }
		m[ty+"Reset"] = func(c *callCtx) []Outcome { c.st.set(cell(c.args[0], "buf"), tEmpty); return c.ret() }
		m[ty+"Grow"] = func(c *callCtx) []Outcome { return c.ret() }
	}

	// ---- hashes
	hashNew := func(op string) model {
		return func(c *callCtx) []Outcome {
			o := c.obj(c.st, "hash")
			c.st.set(cell(o, "algo"), app(op))
			c.st.set(cell(o, "buf"), tEmpty)
			return c.ret(o)
		}
	}
	m["crypto/sha256.New"] = hashNew("sha256")
	m["crypto/sha512.New"] = hashNew("sha512")
	m["crypto/sha512.New384"] = hashNew("sha384")
	m["crypto/sha256.New224"] = hashNew("sha224")
	m["crypto/sha1.New"] = hashNew("sha1")
	m["crypto/md5.New"] = hashNew("md5")
	m["crypto/sha512.New512_256"] = hashNew("sha512_256")
	m["crypto/sha256.Sum256"] = func(c *callCtx) []Outcome { return c.ret(app("sha256", c.bytes(0))) }
	m["crypto/sha512.Sum512"] = func(c *callCtx) []Outcome { return c.ret(app("sha512", c.bytes(0))) }
	m["crypto/hmac.New"] = func(c *callCtx) []Outcome {
		o := c.obj(c.st, "hash")
		c.st.set(cell(o, "algo"), app("hmac", hashAlg(c.args[0]), c.bytes(1)))
		c.st.set(cell(o, "buf"), tEmpty)
		return c.ret(o)
	}
	m["$hash.Write"] = func(c *callCtx) []Outcome {
		o := c.args[0]
		x := c.bytes(1)
		c.st.set(cell(o, "buf"), mkCat(c.get(o, "buf", nil), x))
		return c.ret(mkLen(x), tNil)
	}
	m["$hash.Reset"] = func(c *callCtx) []Outcome { c.st.set(cell(c.args[0], "buf"), tEmpty); return c.ret() }
	m["$hash.Sum"] = func(c *callCtx) []Outcome {
		o := c.args[0]
		d := digest(c.get(o, "algo", nil), c.get(o, "buf", nil))
		return c.ret(c.e.appendSeq(c.st, c.args[1], d, c.sig.Results().At(0).Type(), c.pos))
	}
	m["$hash.Size"] = func(c *callCtx) []Outcome { return c.ret(mkLen(digest(c.get(c.args[0], "algo", nil), tEmpty))) }
	m["$hash.BlockSize"] = func(c *callCtx) []Outcome { return c.ret(c.pure(nil)...) }
	m["io.WriteString"] = func(c *callCtx) []Outcome {
		if c.e.modelKind[c.args[0]] == "hash" {
			o := c.args[0]
			c.st.set(cell(o, "buf"), mkCat(c.get(o, "buf", nil), c.args[1]))
			return c.ret(mkLen(c.args[1]), tNil)
		}
		return c.e.unknownCall(c)
	}

	// ---- hkdf and randomness
	m["golang.org/x/crypto/hkdf.New"] = func(c *callCtx) []Outcome {
		o := c.obj(c.st, "hkdf")
		salt := c.bytes(2)
		if salt.op == "str" && len(salt.s) <= 64 && strings.Trim(salt.s, "\x00") == "" {
			salt = tEmpty // HMAC pads its key with zeros
		}
		c.st.set(cell(o, "stream"), app("hkdfstream", hashAlg(c.args[0]), c.bytes(1), salt, c.bytes(3)))
		c.st.set(cell(o, "off"), mkInt(0))
		return c.ret(o)
	}
	m["golang.org/x/crypto/hkdf.Extract"] = func(c *callCtx) []Outcome {
		salt := c.bytes(2)
		if salt.op == "str" && len(salt.s) <= 64 && strings.Trim(salt.s, "\x00") == "" {
			salt = tEmpty
		}
		return c.ret(c.slice(c.st, digest(app("hmac", hashAlg(c.args[0]), salt), c.bytes(1))))
	}
	m["golang.org/x/crypto/hkdf.Expand"] = func(c *callCtx) []Outcome {
		o := c.obj(c.st, "hkdf")
		prk, alg := c.bytes(1), hashAlg(c.args[0])
		t := app("hkdfexpand", alg, prk, c.bytes(2))
		if len(prk.args) == 2 && prk == digest(app("hmac", alg, prk.args[0]), prk.args[1]) {
			t = app("hkdfstream", alg, prk.args[1], prk.args[0], c.bytes(2))
		}
		c.st.set(cell(o, "stream"), t)
		c.st.set(cell(o, "off"), mkInt(0))
		return c.ret(o)
	}
	read := func(full bool) func(c *callCtx) []Outcome {
		return func(c *callCtx) []Outcome {
			r, buf := c.args[0], c.args[1]
			n := c.e.sliceLen(c.st, buf)
			if c.e.modelKind[r] == "hkdf" {
				off := c.get(r, "off", nil)
				end := mkAdd(off, n)
				return c.fallible(mkLe(end, mkInt(8160)), func(st *State) []*T {
					c.e.overwrite(st, buf, mkInt(0), n, mkSubseq(st.heap[cell(r, "stream")], off, end), "read")
					st.set(cell(r, "off"), end)
					return []*T{n}
				}, nil)
			}
			if !c.e.oblige(c.st, "nil dereference (reader)", mkNot(mkEq(tNil, r)), c.pos) {
				return nil
			}
			return c.random(r, buf, n, full)
		}
	}
	m["io.ReadFull"] = read(true)
	m["(io.Reader).Read"] = read(false)
	m["$hkdf.Read"] = read(true) // the HKDF reader fills the buffer or fails
	m["io.ReadAtLeast"] = func(c *callCtx) []Outcome {
		if c.args[2] == c.e.sliceLen(c.st, c.args[1]) {
			return read(true)(c)
		}
		return read(false)(c)
	}
	m["crypto/rand.Read"] = func(c *callCtx) []Outcome {
		src := app("deref", raw("glob", "crypto/rand.Reader", nil))
		return c.random(src, c.args[0], c.e.sliceLen(c.st, c.args[0]), true)
	}
	m["encoding/binary.Read"] = func(c *callCtx) []Outcome { // an unsigned integer in a fixed byte order
		order, data := c.args[1], c.args[2]
		if order.op != "iface" || data.op != "iface" || c.e.modelKind[c.args[0]] != "" {
			return c.e.unknownCall(c)
		}
		pt, isPtr := data.typ.Underlying().(*types.Pointer)
		if !isPtr {
			return c.e.unknownCall(c)
		}
		b, isBasic := pt.Elem().Underlying().(*types.Basic)
		pre := map[string]string{"encoding/binary.littleEndian": "le", "encoding/binary.bigEndian": "be"}[order.typ.String()]
		if !isBasic || pre == "" {
			return c.e.unknownCall(c)
		}
		size, ok := map[types.BasicKind]int64{types.Uint16: 2, types.Uint32: 4, types.Uint64: 8}[b.Kind()]
		if !ok {
			return c.e.unknownCall(c)
		}
		n := mkInt(size)
		buf := c.slice(c.st, mkRep(mkInt(0), n))
		outs := c.random(c.args[0], buf, n, true)
		for i, o := range outs {
			if o.vals[1] == tNil {
				cur = o.st
				v := app(pre+fmt.Sprint(8*size), c.e.seq(o.st, buf))
				c.e.store(o.st, data.args[0], withVT(v, pt.Elem()), pt.Elem())
			}
			outs[i].vals = o.vals[1:]
		}
		return outs
	}
	for _, o := range []string{"littleEndian", "bigEndian"} {
		o := o
		pre := map[string]string{"littleEndian": "le", "bigEndian": "be"}[o]
		for _, sz := range []struct {
			n string
			b int64
		}{{"16", 2}, {"32", 4}, {"64", 8}} {
			sz := sz
			m["(encoding/binary."+o+").Uint"+sz.n] = func(c *callCtx) []Outcome {
				b := c.bytes(len(c.args) - 1)
				c.e.oblige(c.st, "index out of range", mkLe(mkInt(sz.b), mkLen(b)), c.pos)
				return c.ret(withVT(app(pre+sz.n, mkSubseq(b, mkInt(0), mkInt(sz.b))), c.sig.Results().At(0).Type()))
			}
		}
	}

	// ---- protobuf
	for n, k := range map[string]types.BasicKind{"Uint32": types.Uint32, "Uint64": types.Uint64, "Int32": types.Int32, "Int64": types.Int64, "Bool": types.Bool, "String": types.String} {
		typ := types.Typ[k]
		m["google.golang.org/protobuf/proto."+n] = func(c *callCtx) []Outcome {
			o := c.e.newObj(c.st, "new", typ, c.pos)
			c.e.store(c.st, o, c.args[0], typ)
			return c.ret(o)
		}
	}
	m["google.golang.org/protobuf/proto.Marshal"] = func(c *callCtx) []Outcome {
		x := c.args[0]
		if x.op != "iface" {
			return c.e.unknownCall(c)
		}
		v := c.e.reify(c.st, x.args[0], x.typ)
		t := marTerm(x.typ, v)
		return c.ret(c.slice(c.st, t), tNil)
	}
	m["google.golang.org/protobuf/proto.Unmarshal"] = func(c *callCtx) []Outcome {
		x := c.args[1]
		if x.op != "iface" {
			return c.e.unknownCall(c)
		}
		p := x.args[0]
		c.e.oblige(c.st, "nil dereference (Unmarshal)", mkNot(mkEq(tNil, p)), c.pos)
		b := c.bytes(0)
		el := x.typ.Underlying().(*types.Pointer).Elem()
		put := func(st *State, v *T) {
			s := el.Underlying().(*types.Struct)
			for i := 0; i < s.NumFields(); i++ {
				f := s.Field(i)
				if isProtoInternal(f.Name()) {
					continue
				}
				a := mkFa(p, f.Name())
				c.e.addrTyp[a] = f.Type()
				fv := mkFld(v, f.Name(), f.Type())
				if _, ok := f.Type().Underlying().(*types.Slice); ok && fv == tEmpty {
					fv = tNil
				}
				c.e.store(st, a, fv, f.Type())
			}
		}
		return c.fallible(apply("unmok", tyTerm(el), b), func(st *State) []*T {
			put(st, withVT(apply("unm", tyTerm(el), b), el))
			return nil
		}, func(st *State) []*T {
			put(st, withVT(raw("unmpart", typeKey(el), nil, b), el))
			return nil
		})
	}
	m["google.golang.org/protobuf/proto.Clone"] = func(c *callCtx) []Outcome {
		x := c.args[0]
		if x.op != "iface" {
			return c.e.unknownCall(c)
		}
		src := c.e.reify(c.st, x.args[0], x.typ)
		if src == tNil {
			return c.ret(raw("iface", "", x.typ, tNil))
		}
		el := x.typ.Underlying().(*types.Pointer).Elem()
		content := c.e.defaultContent(src, el)
		if src.op != "box" {
			content = mkDeref(src, el)
		}
		site := "clone@" + c.e.stackKey(c.pos)
		o := raw("obj", site+"#"+itoa(c.e.counter(c.st, site))+"="+itoa(content.id), nil, c.e.loopNs...)
		c.e.objType[o] = el
		c.e.nSerial++
		c.e.serial[o] = c.e.nSerial
		c.e.objInit[o] = content
		c.e.copies[o] = true
		for k := range c.st.heap {
			if rootOf(k) == o {
				c.st.del(k)
			}
		}
		return c.ret(raw("iface", "", x.typ, o))
	}
	m["google.golang.org/protobuf/proto.Equal"] = func(c *callCtx) []Outcome {
		a, b := c.flat(0), c.flat(1)
		return c.ret(mkEq(a, b))
	}
	m["google.golang.org/protobuf/proto.Size"] = func(c *callCtx) []Outcome { return c.ret(c.pure(nil)...) }
	m["google.golang.org/protobuf/proto.Merge"] = func(c *callCtx) []Outcome {
		c.e.note("proto.Merge")
		return c.e.unknownCall(c)
	}

	// ---- uuid
	uu := func(arg func(c *callCtx) *T) model {
		return func(c *callCtx) []Outcome {
			b := arg(c)
			return c.fallible(apply("uuidok", b), func(st *State) []*T {
				return []*T{withVT(apply("uuid", b), c.sig.Results().At(0).Type())}
			}, nil)
		}
	}
	const U = "github.com/google/uuid."
	m[U+"ParseBytes"] = uu(func(c *callCtx) *T { return c.bytes(0) })
	m[U+"Parse"] = uu(func(c *callCtx) *T { return c.args[0] })
	m[U+"MustParse"] = func(c *callCtx) []Outcome {
		c.e.oblige(c.st, "uuid.MustParse", apply("uuidok", c.args[0]), c.pos)
		return c.ret(withVT(apply("uuid", c.args[0]), c.sig.Results().At(0).Type()))
	}
	m["("+U+"UUID).String"] = func(c *callCtx) []Outcome { return c.ret(app("uuidstr", c.args[0])) }
	m[U+"FromBytes"] = func(c *callCtx) []Outcome {
		b := c.bytes(0)
		return c.fallible(mkEq0(mkSub(mkLen(b), mkInt(16))), func(st *State) []*T {
			return []*T{withVT(b, c.sig.Results().At(0).Type())}
		}, nil)
	}

	simplify["uuidok"] = func(a []*T) *T {
		if a[0].op == "uuidstr" {
			return tTrue
		}
		return nil
	}
	simplify["uuid"] = func(a []*T) *T {
		if a[0].op == "uuidstr" {
			return a[0].args[0]
		}
		return nil
	}
	simplify["unmok"] = func(a []*T) *T {
		if a[1].op == "mar" && a[1].args[0] == a[0] {
			return tTrue
		}
		return nil
	}
	simplify["unm"] = func(a []*T) *T {
		if a[1].op == "mar" && a[1].args[0] == a[0] {
			return mkDeref(a[1].args[1], nil)
		}
		return nil
	}
	simplify["mar"] = func(a []*T) *T { return nil }
	simplify["fmt"] = nil
	delete(simplify, "fmt")

	stores()
}

func itoa(n int) string { return mkInt(int64(n)).s }

func fmtTerm(n string, as []*T) *T { return raw("fmt", n, nil, as...) }

func mkB2i(c *T) *T {
	switch c {
	case tTrue:
		return mkInt(1)
	case tFalse:
		return mkInt(0)
	}
	return app("b2i", c)
}

// seqEq is the equality of two byte strings.
func seqEq(a, b *T) *T {
	if a == b {
		return tTrue
	}
	if n := mkEq0(mkSub(mkLen(a), mkLen(b))); n == tFalse {
		return tFalse
	}
	if a == tEmpty || b == tEmpty {
		return mkEq0(mkSub(mkLen(a), mkLen(b)))
	}
	// encodings which are injective
	if a.op == b.op && (a.op == "pkbytes" || a.op == "pkkey") {
		return pkEq(a.args[0], b.args[0])
	}
	return mkEq(a, b)
}

func pkEq(a, b *T) *T {
	if a == b {
		return tTrue
	}
	if a.id > b.id {
		a, b = b, a
	}
	return app("pkeq", a, b)
}

func tyTerm(t types.Type) *T { return raw("type", types.TypeString(t, nil), nil) }

func marTerm(pt types.Type, boxed *T) *T {
	el := pt.Underlying().(*types.Pointer).Elem()
	// marshalling what was parsed is not the identity on bytes, but keeps the value
	return app("mar", tyTerm(el), boxed)
}

func hashAlg(f *T) *T {
	if f.op == "fn" {
		return mkStr(f.s)
	}
	return f
}

func digest(algo, buf *T) *T {
	switch algo.op {
	case "sha256", "sha512":
		if len(algo.args) == 0 {
			return app(algo.op, buf)
		}
	case "hmac":
		if algo.args[0] == mkStr("crypto/sha256.New") {
			return app("hmac256", algo.args[1], buf)
		}
		if algo.args[0] == mkStr("crypto/sha512.New") {
			return app("hmac512", algo.args[1], buf)
		}
	}
	return app("digest", algo, buf)
}

// variadic are the elements of a trailing interface or slice parameter.
func (c *callCtx) variadic(i int) []*T {
	if i >= len(c.args) {
		return nil
	}
	s := c.bytes(i)
	var out []*T
	one := func(x *T) {
		t := x.vt
		if x.op == "iface" {
			t = x.typ
			x = x.args[0]
			if t.String() == "error" {
				out = append(out, x)
				return
			}
		}
		if n := namedOf(t); n != nil && c.errorImpl(n) {
			out = append(out, x)
			return
		}
		out = append(out, c.e.reify(c.st, x, t))
	}
	switch s.op {
	case "list":
		for _, x := range s.args {
			one(x)
		}
	case "str":
	default:
		out = append(out, s)
	}
	return out
}

func (c *callCtx) errorImpl(n *types.Named) bool { return false }

func (c *callCtx) logSink() []Outcome {
	var as []*T
	for i := range c.args {
		if c.sig.Variadic() && i == len(c.args)-1 {
			as = append(as, c.variadic(i)...)
		} else {
			as = append(as, c.args[i])
		}
	}
	c.e.sinks = append(c.e.sinks, Sink{Entry: c.e.entry, Kind: "log", Args: as, Pos: c.pos, Fn: c.e.curFn()})
	return c.ret()
}

func (c *callCtx) errIs(err, target *T) *T {
	if err == target {
		return tTrue
	}
	if target == tNil {
		return mkEq(tNil, err)
	}
	if err == tNil {
		return tFalse
	}
	unknown := app("erris", err, target)
	switch err.op {
	case "obj":
		if target.op == "obj" || target.op == "iface" {
			return tFalse
		}
	case "err":
		if !strings.HasPrefix(err.s, "wrap@") {
			if strings.HasPrefix(err.s, "errors.New@") || strings.HasPrefix(err.s, "fmt.Errorf@") {
				return tFalse
			}
			// an error of a library function: not one of the module's own sentinels
			if target.op == "obj" && strings.HasPrefix(target.s, "errglob") && !strings.HasPrefix(err.s, "store:") {
				return tFalse
			}
			return unknown
		}
		res := tFalse
		for _, a := range err.args {
			if a.op == "str" {
				continue
			}
			switch a.op {
			case "err", "errjoin", "obj", "iface":
				r := c.errIs(a, target)
				if r == tTrue {
					return tTrue
				}
				if r != tFalse {
					res = unknown
				}
			}
		}
		return res
	case "errjoin":
		var all *T
		for i, a := range err.args {
			r := c.errIs(a, target)
			if i == 0 {
				all = r
			} else if r != all {
				return unknown
			}
		}
		if all == tTrue || all == tFalse {
			return all
		}
		return unknown
	case "iface":
		if n := namedOf(err.typ); n != nil {
			for i := 0; i < n.NumMethods(); i++ {
				switch n.Method(i).Name() {
				case "Is", "Unwrap":
					return unknown
				}
			}
		}
		if target.op == "iface" {
			return mkEq(err, target)
		}
		return tFalse
	}
	return unknown
}

// random fills buf from a reader.
func (c *callCtx) random(r, buf, n *T, full bool) []Outcome {
	id := c.e.freshSym(c.st, "rnd", nil, c.pos)
	ev := func(st *State, ok *T, res *T) {
		e := &Event{Kind: "rand", Args: []*T{r, n}, Res: []*T{res}, Ok: ok, Pos: c.pos, St: c.st}
		e.setKey()
		st.addEvent(e)
	}
	okT := app("rndok", r, id)
	if !full {
		okT = app("rdok", r, id)
	}
	base := c.st.clone()
	c.st = base
	return c.fallible(okT, func(st *State) []*T {
		if full {
			v := app("rnd", r, id, n)
			c.e.overwrite(st, buf, mkInt(0), n, v, "read")
			ev(st, tTrue, v)
			return []*T{n}
		}
		k := withVT(app("rdn", id), types.Typ[types.Int])
		st.assume(mkLe(mkInt(0), k), true)
		st.assume(mkLe(k, n), true)
		v := app("rndpart", r, id, n)
		c.e.overwrite(st, buf, mkInt(0), n, app("extbytes", v, n), "read")
		ev(st, tTrue, v)
		return []*T{k}
	}, func(st *State) []*T {
		k := withVT(app("rdn", id), types.Typ[types.Int])
		st.assume(mkLe(mkInt(0), k), true)
		st.assume(mkLt(k, n), true)
		v := app("rndpart", r, id, n)
		c.e.overwrite(st, buf, mkInt(0), n, app("extbytes", v, n), "read")
		ev(st, tFalse, v)
		return []*T{k}
	})
}

// ---------------------------------------------------------------- stores

// storeEvent records an effect on a store.
func (c *callCtx) storeEvent(st *State, kind string, ok *T, flat []*T, res ...*T) {
	ev := &Event{Kind: kind, Recv: c.args[0], Args: c.args[1:], Flat: flat, Res: res, Ok: ok, Pos: c.pos, St: c.st}
	ev.setKey()
	st.addEvent(ev)
}

func stores() {
	m := models
	flats := func(c *callCtx) []*T {
		var fs []*T
		for i := 1; i < len(c.args); i++ {
			fs = append(fs, c.flat(i))
		}
		return fs
	}
	load := func(kind string) model {
		return func(c *callCtx) []Outcome {
			fl := flats(c)
			base := c.st
			id := c.e.freshSym(base, kind, nil, c.pos)
			c.st = base.clone()
			var outs []Outcome
			rt := c.sig.Results().At(0).Type()
			// failure
			if !angel {
				s1 := base.clone()
				c.storeEvent(s1, kind, tFalse, fl)
				outs = append(outs, Outcome{st: s1, vals: []*T{zeroOf(rt), tFalse, raw("err", "store:"+kind+"@"+c.e.where(c.pos), nil)}})
			}
			// absent
			s2 := base.clone()
			c.storeEvent(s2, kind, tTrue, fl, tFalse)
			outs = append(outs, Outcome{st: s2, vals: []*T{zeroOf(rt), tFalse, tNil}})
			// present
			s3 := base.clone()
			v := withVT(app("stored", mkStr(kind), id), rt)
			if _, ok := rt.Underlying().(*types.Pointer); ok {
				s3.assume(mkEq(tNil, v), false)
			}
			c.storeEvent(s3, kind, tTrue, fl, tTrue, v)
			outs = append(outs, Outcome{st: s3, vals: []*T{v, tTrue, tNil}})
			return outs
		}
	}
	write := func(kind string, boolRes bool) model {
		return func(c *callCtx) []Outcome {
			fl := flats(c)
			base := c.st
			id := c.e.freshSym(base, kind, nil, c.pos)
			c.st = base.clone()
			s1 := base.clone()
			c.storeEvent(s1, kind, tFalse, fl)
			s2 := base.clone()
			er := raw("err", "store:"+kind+"@"+c.e.where(c.pos), nil)
			if boolRes {
				r := withVT(app("storebool", id), types.Typ[types.Bool])
				c.storeEvent(s2, kind, tTrue, fl, r)
				if angel {
					return []Outcome{{st: s2, vals: []*T{r, tNil}}}
				}
				return []Outcome{{st: s1, vals: []*T{tFalse, er}}, {st: s2, vals: []*T{r, tNil}}}
			}
			c.storeEvent(s2, kind, tTrue, fl)
			if angel {
				return []Outcome{{st: s2, vals: []*T{tNil}}}
			}
			return []Outcome{{st: s1, vals: []*T{er}}, {st: s2, vals: []*T{tNil}}}
		}
	}
	pure := func(kind string) model {
		return func(c *callCtx) []Outcome {
			return c.ret(withVT(app("storeval", mkStr(kind), c.args[0]), c.sig.Results().At(0).Type()))
		}
	}
	m["(@/session.Store).Load"] = load("session.Store.Load")
	m["(@/session.Store).Store"] = write("session.Store.Store", false)
	m["(@/session.GroupStore).Load"] = load("session.GroupStore.Load")
	m["(@/session.GroupStore).Store"] = write("session.GroupStore.Store", false)
	m["(@/prekey.Store).Load"] = load("prekey.Store.Load")
	m["(@/prekey.Store).Store"] = write("prekey.Store.Store", false)
	m["(@/prekey.Store).Delete"] = write("prekey.Store.Delete", false)
	m["(@/prekey.SignedStore).Load"] = load("prekey.SignedStore.Load")
	m["(@/prekey.SignedStore).Store"] = write("prekey.SignedStore.Store", false)
	m["(@/identity.Store).Load"] = load("identity.Store.Load")
	m["(@/identity.Store).Store"] = write("identity.Store.Store", true)
	m["(@/identity.Store).Clear"] = write("identity.Store.Clear", false)
	m["(@/identity.Store).IsTrustedIdentity"] = write("identity.Store.IsTrustedIdentity", true)
	m["(@/identity.Store).KeyPair"] = pure("KeyPair")
	m["(@/identity.Store).LocalRegistrationID"] = pure("LocalRegistrationID")
}
