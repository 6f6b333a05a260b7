package main

// C15, C23, C24, C25: run-time panics, writes to memory of the caller, comparisons, and flows of secrets.

import (
	"fmt"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	specs["C15"] = spec{run: checkC15, rule: "every operation that can panic (nil dereference, index, slice, conversion, assertion, division, documented library panics, explicit panic) reachable from what handles received bytes is shown not to, whatever the bytes are; conditions on the caller's own values and on stored state are assumed"}
	specs["C23"] = spec{run: checkC23, rule: "no store, append, copy or library call of any exported function writes to a byte array that was not allocated by the analysed code; keys made from bytes and copies handed out have memory of their own"}
	specs["C24"] = spec{run: checkC24, rule: "no variable-time comparison (==, bytes.Equal, prefix tests, map lookups, early-exit loops over bytes) has an operand that contains a secret, a tag, a key, a base key or a fingerprint"}
	specs["C25"] = spec{run: checkC25, rule: "no argument of a log call, error, panic or output function and no field of a built message contains private keys, root, chain or message keys, shared secrets or plaintexts, after removing what encryption, signing, authentication and public-key derivation hide; the chain key of a sender-key distribution message is the exception"}
}

// sweep analyses the scenarios and every exported function (of the packages modelled otherwise: as they are).
func (k *Chk) sweep(prim bool) *Engine {
	e := k.e
	if prim {
		e = k.engine(true)
	} else {
		for _, n := range []string{"ENC", "DECW", "DECP", "PPK", "PPB", "GENC", "GDEC", "GPROC", "GNEW"} {
			k.cases(n)
		}
	}
	if e.swept {
		return e
	}
	e.swept = true
	for _, f := range e.exported() {
		if prim && !e.isPrim(f) {
			continue
		}
		if _, _, err := e.runFn(e.base, f, e.paramsOf(f)); err != nil {
			e.sweepErr = append(e.sweepErr, e.short(f.String())+": "+err.Error())
		}
		e.sweptN++
	}
	return e
}

func (k *Chk) sweepNotes(e *Engine) {
	k.counts["exported functions"] += e.sweptN
	k.undec = append(k.undec, e.sweepErr...)
}

// at is a violation at a place in the code, without a path.
func (k *Chk) at(ok bool, rule string, e *Engine, fn, where, path, format string, a ...any) {
	k.obls++
	k.rules[rule]++
	if ok {
		k.done++
		if len(k.samples) < 6 && k.rules[rule] <= 2 {
			k.samples = append(k.samples, rule+" @ "+fn+" "+where)
		}
		return
	}
	k.viols = append(k.viols, Viol{Rule: rule, Scen: fn, Where: where, Path: path, Msg: fmt.Sprintf(format, a...)})
}

// factsText lists path facts.
func factsText(st *State) string {
	if st == nil {
		return ""
	}
	var fs []string
	for f, v := range st.facts {
		s := f.str(8)
		if !v {
			s = "not " + s
		}
		fs = append(fs, "  where "+s+"\n")
	}
	sort.Strings(fs)
	return strings.Join(fs, "")
}

// ---------------------------------------------------------------- C24

var (
	ratchetRe = regexp.MustCompile(`(?i)ratchet`)
	authFldRe = regexp.MustCompile(`(?i)(rootkey|chainkey|cipherkey|mackey|^iv$|^key$|seed|private|basekey|identity.*(key|public)|fingerprint|signingkey|signature|^public|^mac$|secret|^privatekey$)`)
)

// guarded: comparing this in variable time tells something it should not.
func (e *Engine) guarded(t *T) string {
	memo := map[*T]string{}
	var f func(t *T) string
	f = func(t *T) string {
		if s, ok := memo[t]; ok {
			return s
		}
		memo[t] = ""
		r := ""
		switch t.op {
		case "len", "eq", "eq0", "le0", "not", "and", "or", "mhas", "okcall", "Nx", "b2i", "uuid", "cbcdec", "cbcenc", "int", "str", "pkcs":
			return ""
		case "hmac256":
			r = "an HMAC"
		case "dh":
			r = "a shared secret"
		case "hkdfstream":
			r = "derived key material"
		case "sk", "skbytes":
			r = "a private key"
		case "sign":
			r = "a signature"
		case "rnd":
			if n, ok := t.args[len(t.args)-1].isInt(); !ok || n >= 16 {
				r = "fresh random bytes"
			}
		case "pkbytes", "pkkey":
			if !ratchetRe.MatchString(t.args[0].str(6)) {
				r = "a public key"
			}
		case "fld":
			switch {
			case ratchetRe.MatchString(t.s):
				return ""
			case t.vt != nil && e.bytesLike(t.vt) && (authFldRe.MatchString(t.s) || e.keyPkg(t.args[0].vt)):
				r = "the field " + t.s
			case t.args[0].op == "unm" && ratchetRe.MatchString(t.s):
				return ""
			}
			if r == "" && strings.Contains(t.str(9), "CombinedFingerprints") {
				r = "a fingerprint"
			}
			if r == "" {
				// a part of something parsed or stored is not all of it
				memo[t] = ""
				return ""
			}
		}
		if r == "" {
			for _, a := range t.args {
				if r = f(a); r != "" {
					break
				}
			}
		}
		memo[t] = r
		return r
	}
	return f(t)
}

// hard: the term is made from secrets.
func hard(t *T) bool {
	return anySub(t, func(x *T) bool {
		switch x.op {
		case "hmac256", "dh", "hkdfstream", "skbytes":
			return true
		}
		return false
	}) != nil
}

func (e *Engine) bytesLike(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Byte
	case *types.Array:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Byte
	case *types.Basic:
		return u.Info()&types.IsString != 0
	}
	return false
}

// keyPkg: a type of the packages which only hold keys.
func (e *Engine) keyPkg(t types.Type) bool {
	if t == nil {
		return false
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch strings.TrimPrefix(n.Obj().Pkg().Path(), e.mod) {
	case "/ratchet", "/senderkey", "/curve", "/curve/curve25519", "/fingerprint":
		return true
	}
	return false
}

var cmpExtRe = regexp.MustCompile(`(^|[./])(bytes|strings|slices|reflect|math/big|proto|maps|cmp)\.?.*\.?(Equal|DeepEqual|EqualFold|EqualFunc|Compare|Cmp|CmpAbs|HasPrefix|HasSuffix|Contains|Index|Count|Cut|CutPrefix)$`)

func checkC24(k *Chk) {
	for _, prim := range []bool{false, true} {
		e := k.sweep(prim)
		k.sweepNotes(e)
		for _, c := range e.cmps {
			if c.Entry == "" {
				continue
			}
			a, b := e.guarded(c.A), e.guarded(c.B)
			if a == "" {
				a = b
			}
			if c.Const {
				if a != "" {
					k.counts["constant-time comparisons"]++
				}
				k.at(true, "constant-time comparison", e, c.Fn, e.where(c.Pos), "", "")
				continue
			}
			if a != "" && !hard(c.A) && !hard(c.B) && (ratchetRe.MatchString(c.A.str(6)) || ratchetRe.MatchString(c.B.str(6))) {
				a = "" // a public ratchet key looked up
			}
			k.counts["variable-time comparisons"]++
			k.at(a == "", "variable-time comparison", e, c.Fn, e.where(c.Pos), "", "%s is compared in variable time: %s with %s", a, c.A.str(6), c.B.str(6))
		}
		for _, x := range e.exts {
			if x.Entry == "" {
				continue
			}
			if !cmpExtRe.MatchString(x.Name) {
				continue
			}
			for _, t := range x.Flat {
				a := e.guarded(t)
				k.at(a == "", "variable-time library comparison", e, x.Fn, e.where(x.Pos), "", "%s given to %s: %s", a, x.Name, t.str(6))
			}
		}
	}
	k.floor("constant-time comparisons", 10)
	k.floor("exported functions", 100)
}

// ---------------------------------------------------------------- C25

var secretFldRe = regexp.MustCompile(`(?i)(private|rootkey|chainkey|cipherkey|mackey|seed|secret|^iv$|plaintext)`)

// secretField: a field that holds a secret in itself.
func (e *Engine) secretField(owner types.Type, name string, ft types.Type) bool {
	if p, ok := owner.Underlying().(*types.Pointer); ok {
		owner = p.Elem()
	}
	if n, ok := ft.(*types.Named); ok && n.Obj().Name() == "PublicKey" {
		return false
	}
	leaf := e.bytesLike(ft)
	if _, ok := ft.Underlying().(*types.Interface); ok {
		leaf = true
	}
	if !leaf {
		return false
	}
	if secretFldRe.MatchString(name) {
		return true
	}
	n, ok := owner.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch strings.TrimPrefix(n.Obj().Pkg().Path(), e.mod) {
	case "/ratchet", "/senderkey":
		return e.bytesLike(ft)
	}
	return name == "Key" && strings.HasSuffix(n.Obj().Name(), "ChainKey")
}

// secretType: values of the type contain secrets.
func (e *Engine) secretType(t types.Type) bool {
	if e.secTypes == nil {
		e.secTypes = map[string]bool{}
	}
	k := types.TypeString(t, nil)
	if v, ok := e.secTypes[k]; ok {
		return v
	}
	e.secTypes[k] = false
	v := e.secretType1(t)
	e.secTypes[k] = v
	return v
}

func (e *Engine) secretType1(t types.Type) bool {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		if !strings.HasPrefix(n.Obj().Pkg().Path(), e.mod) {
			return n.String() == "crypto/ecdh.PrivateKey" || n.String() == "crypto/ed25519.PrivateKey"
		}
		if _, ok := n.Underlying().(*types.Interface); ok {
			return n.Obj().Name() == "PrivateKey"
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return e.secretType(u.Elem())
	case *types.Slice:
		return e.secretType(u.Elem())
	case *types.Array:
		return e.secretType(u.Elem())
	case *types.Map:
		return e.secretType(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if e.secretField(t, f.Name(), f.Type()) || e.secretType(f.Type()) {
				return true
			}
		}
	}
	return false
}

// secret says which secret a value contains. wire: the chain key of a distribution message is allowed.
func (e *Engine) secret(t *T, srcs map[*T]string, wire bool) string {
	memo := map[*T]string{}
	var f func(t *T) string
	f = func(t *T) string {
		if s, ok := memo[t]; ok {
			return s
		}
		memo[t] = ""
		s := func() string {
			if s := srcs[t]; s != "" {
				return s
			}
			switch t.op {
			case "len", "eq", "eq0", "le0", "not", "and", "or", "mhas", "okcall", "Nx", "b2i", "uuid", "cbcenc", "sign",
				"pub", "pk", "pkbytes", "pkkey", "dhok", "unmok", "verok", "storebool", "int", "str", "true", "false", "nil":
				return ""
			case "sk", "skbytes":
				return "a private key"
			case "dh":
				return "a shared secret"
			case "hkdfstream":
				return "derived key material"
			case "cbcdec", "cbcraw":
				return "a decrypted plaintext"
			case "hmac256":
				if t.args[1].op == "str" || t.args[1].op == "list" {
					return "derived key material"
				}
				return ""
			case "rnd":
				if n, ok := t.args[len(t.args)-1].isInt(); !ok || n >= 32 {
					return "fresh random bytes for a key"
				}
				return ""
			case "sel":
				for _, a := range t.args[1:] {
					if s := f(a); s != "" {
						return s
					}
				}
				return ""
			case "fld":
				ow := t.args[0].vt
				if ow == nil && t.args[0].op == "unm" {
					ow = t.args[0].vt
				}
				if t.vt != nil && ow != nil && e.secretField(ow, t.s, t.vt) {
					return "the secret " + t.s
				}
				if t.vt != nil && e.secretType(t.vt) {
					return "secrets in " + t.s
				}
				// a part of something is not the whole
				return ""
			case "struct":
				u, ok := t.typ.Underlying().(*types.Struct)
				if !ok {
					break
				}
				for i, a := range t.args {
					if i >= u.NumFields() {
						break
					}
					fl := u.Field(i)
					if wire && isDistMsg(t.typ) && e.bytesLike(fl.Type()) && strings.EqualFold(fl.Name(), "chainkey") {
						continue
					}
					if a == tNil || a == tEmpty || a.op == "unit" {
						continue
					}
					if !wire && e.secretField(t.typ, fl.Name(), fl.Type()) {
						return "the secret " + fl.Name()
					}
					if s := f(a); s != "" {
						return s
					}
				}
				return ""
			case "obj", "sym", "stored":
				if t.vt != nil && e.secretType(t.vt) {
					return "secrets in a value of type " + types.TypeString(t.vt, func(p *types.Package) string { return p.Name() })
				}
				return ""
			case "deref", "idx":
				if t.vt != nil && e.secretType(t.vt) {
					return "secrets in a value of type " + types.TypeString(t.vt, func(p *types.Package) string { return p.Name() })
				}
				if t.op == "idx" {
					return f(t.args[0])
				}
			}
			for _, a := range t.args {
				if s := f(a); s != "" {
					return s
				}
			}
			return ""
		}()
		memo[t] = s
		return s
	}
	return f(t)
}

func isDistMsg(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && strings.HasPrefix(n.Obj().Name(), "SenderKeyDistribution")
}

var outExtRe = regexp.MustCompile(`^\(?\*?(os|log|log/slog|net|net/http|io|fmt|bufio|syscall|expvar|runtime/debug|encoding/csv|text/template|github.com/golang/glog)\b`)

// secretParams are parameters of exported functions which are secrets.
func (e *Engine) secretParams(f *ssa.Function, args []*T, m map[*T]string) {
	path := strings.TrimPrefix(f.Pkg.Pkg.Path(), e.mod)
	for i, p := range f.Params {
		if !e.bytesLike(p.Type()) {
			continue
		}
		n := strings.ToLower(p.Name())
		sec := strings.Contains(n, "plaintext") || secretFldRe.MatchString(n)
		switch {
		case path == "/ratchet" || path == "/senderkey":
			sec = true
		case strings.HasPrefix(path, "/curve") && strings.HasPrefix(f.Name(), "NewPrivateKey"):
			sec = true
		case strings.HasPrefix(path, "/crypto") && !strings.Contains(n, "cipher"):
			sec = true
		}
		if sec {
			m[args[i]] = "the parameter " + p.Name()
		}
	}
}

func checkC25(k *Chk) {
	for _, prim := range []bool{false, true} {
		e := k.sweep(prim)
		k.sweepNotes(e)
		fnSrc := map[string]map[*T]string{}
		for _, f := range e.exported() {
			m := map[*T]string{}
			e.secretParams(f, e.paramsOf(f), m)
			fnSrc[e.short(f.String())] = m
		}
		if !prim {
			for _, n := range []string{"ENC", "GENC"} {
				sc := k.scen(n)
				if sc == nil {
					continue
				}
				m := map[*T]string{}
				for _, a := range sc.args {
					if a.vt != nil && e.bytesLike(a.vt) {
						m[a] = "the plaintext"
					}
				}
				fnSrc[n] = m
				if len(m) == 0 {
					k.undec = append(k.undec, n+": no plaintext parameter")
				}
			}
		}
		for _, s := range e.sinks {
			if s.Entry == "" {
				continue
			}
			k.counts[s.Kind+" calls"]++
			for i, a := range s.Args {
				sec := e.secret(a, fnSrc[s.Entry], false)
				k.at(sec == "", s.Kind, e, s.Fn, e.where(s.Pos), "", "argument %d contains %s: %s", i, sec, a.str(6))
			}
		}
		for _, x := range e.exts {
			if x.Entry == "" {
				continue
			}
			if !outExtRe.MatchString(x.Name) {
				continue
			}
			for i, a := range x.Flat {
				sec := e.secret(a, fnSrc[x.Entry], false)
				k.at(sec == "", "output function", e, x.Fn, e.where(x.Pos), "", "argument %d of %s contains %s: %s", i, x.Name, sec, a.str(6))
			}
		}
		if prim {
			continue
		}
		// returned errors
		for _, n := range []string{"ENC", "DECW", "DECP", "PPK", "PPB", "GENC", "GDEC", "GPROC", "GNEW"} {
			for _, c := range k.cases(n) {
				if len(c.vals) == 0 || c.ok() {
					continue
				}
				v := c.vals[len(c.vals)-1]
				sec := e.secret(v, fnSrc[n], false)
				k.ob(sec == "", "returned error", c, "the error contains %s: %s", sec, v.str(6))
			}
		}
		// what is sent
		for _, n := range []string{"ENC", "GENC", "GNEW"} {
			sc := k.scen(n)
			for _, c := range k.cases(n) {
				if !c.ok() {
					continue
				}
				k.counts["messages built"]++
				for i, v := range c.vals[:len(c.vals)-1] {
					sec := e.secret(v, fnSrc[n], true)
					k.ob(sec == "", "message field", c, "%s hands out %s: %s", sc.fn, sec, v.str(8))
					_ = i
				}
			}
		}
	}
	k.floor("log calls", 10)
	k.floor("error text calls", 10)
	k.floor("messages built", 6)
	k.floor("exported functions", 100)
}

// ---------------------------------------------------------------- C23

var mutExtRe = regexp.MustCompile(`(PutUint(16|32|64)|\.Encode|\.Decode|\.Read|\.ReadFull|XORBytes|\.Reverse|\.Sort\w*|CryptBlocks|XORKeyStream|\.Encrypt|\.Decrypt|\.Seal|\.Open|\.Fill|\.Put)$`)

// foreign: the memory belongs to the caller (or to a message it handed over).
func (e *Engine) foreign(r *T) bool {
	found := anySub(r, func(x *T) bool { return x.op == "obj" || x.op == "cp" || x.op == "cps" })
	if found != nil {
		return false
	}
	return anySub(r, func(x *T) bool { return x.op == "sym" }) != nil
}

func (e *Engine) byteArray(r *T) bool {
	return r.vt == nil || e.bytesLike(r.vt) || func() bool {
		p, ok := r.vt.Underlying().(*types.Pointer)
		return ok && e.bytesLike(p.Elem())
	}()
}

func checkC23(k *Chk) {
	for _, prim := range []bool{false, true} {
		e := k.sweep(prim)
		k.sweepNotes(e)
		for _, w := range e.writes {
			k.counts["writes to memory not allocated here"]++
			bad := w.Entry != "" && e.foreign(w.Root) && e.byteArray(w.Root)
			k.at(!bad, "write", e, w.Entry, e.where(w.Pos), "", "%s (%s) writes to bytes it did not allocate: %s", w.How, w.Fn, w.Root.str(6))
		}
		for _, x := range e.exts {
			if x.Entry == "" {
				continue
			}
			if !mutExtRe.MatchString(x.Name) {
				continue
			}
			for _, a := range x.Args {
				if a.vt == nil || !e.bytesLike(a.vt) {
					continue
				}
				arr, _, _ := parts(a)
				k.at(!e.foreign(arr), "write by a library function", e, x.Entry, e.where(x.Pos), "", "%s may write to bytes of the caller: %s", x.Name, arr.str(6))
			}
		}
	}
	// keys have memory of their own
	p := k.engine(true)
	for _, n := range []string{"@/curve.NewPublicKey", "@/curve.NewPrivateKey", "@/curve/curve25519.NewPrivateKey", "@/identity.NewKey"} {
		k.ownMemory(p, n, p.fn(n), nil)
	}
	// accessors hand out copies
	for _, n := range []string{
		"(*@/curve/curve25519.PrivateKey).Bytes", "(*@/curve/curve25519.PrivateKey).PublicKeyBytes",
		"(*@/curve.DJBPublicKey).Bytes", "(*@/curve.DJBPublicKey).KeyBytes", "(*@/curve.DJBPrivateKey).Bytes", "(*@/curve.DJBPrivateKey).PublicKey",
	} {
		f := p.lookupFn(n)
		if f == nil {
			k.undec = append(k.undec, "no function "+n)
			continue
		}
		k.ownMemory(p, n, f, nil)
	}
	k.floor("results with memory of their own", 8)
	k.floor("exported functions", 100)
}

// ownMemory: no byte slice in the results shares memory with an argument.
func (k *Chk) ownMemory(e *Engine, name string, f *ssa.Function, args []*T) {
	for _, r := range e.exec(e.base, f, e.paramsOf(f)...) {
		if n := len(r.raw); n > 0 && isErrorType(f.Signature.Results().At(n-1).Type()) && !r.ok() {
			continue
		}
		k.counts["results with memory of their own"]++
		for i, v := range r.raw {
			bad := e.shares(r.st, v, f.Signature.Results().At(i).Type(), 0)
			k.ob(bad == nil, "memory of its own", r.cse(), "the result of %s shares memory with %v", name, bad)
		}
	}
}

// shares finds a byte array reachable from a value that was not allocated by the analysed code.
func (e *Engine) shares(st *State, v *T, typ types.Type, d int) *T {
	if v == nil || v == tNil || d > 8 || typ == nil {
		return nil
	}
	if v.op == "iface" {
		return e.shares(st, v.args[0], v.typ, d+1)
	}
	switch u := typ.Underlying().(type) {
	case *types.Slice:
		if !e.bytesLike(typ) {
			return nil
		}
		arr, _, _ := parts(v)
		if rootOf(arr).op != "obj" && anySub(arr, func(x *T) bool { return x.op == "sym" }) != nil && e.foreign(arr) && v.op != "str" {
			return arr
		}
	case *types.Pointer:
		s, ok := isPlainStruct(u.Elem())
		if !ok || v.op != "obj" {
			return nil
		}
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if x, ok := st.heap[mkFa(v, f.Name())]; ok {
				if b := e.shares(st, x, f.Type(), d+1); b != nil {
					return b
				}
			}
		}
	case *types.Struct:
		s, ok := isPlainStruct(typ)
		if !ok {
			return nil
		}
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if b := e.shares(st, mkFld(v, f.Name(), f.Type()), f.Type(), d+1); b != nil {
				return b
			}
		}
	}
	return nil
}

// ---------------------------------------------------------------- C15

// network: the condition depends on received bytes.
func network(t *T, src map[*T]bool) bool {
	return anySub(t, func(x *T) bool { return src[x] }) != nil
}

// nilBase: what a nil condition is about. An element of a stored list is stored state, however it was chosen.
func nilBase(t *T) *T {
	if t.op == "not" {
		t = t.args[0]
	}
	if t.op != "eq" || t.args[0] != tNil && t.args[1] != tNil {
		return t
	}
	x := t.args[0]
	if x == tNil {
		x = t.args[1]
	}
	for y := x; ; {
		switch y.op {
		case "fld", "deref", "idx", "box":
			y = y.args[0]
			continue
		case "unm":
			y = y.args[1]
			continue
		case "stored":
			return y
		}
		return t
	}
}

func hasLoopTerm(t *T) bool {
	return anySub(t, func(x *T) bool {
		switch x.op {
		case "N", "Nx", "Lx", "lv", "bN", "bl", "rec", "mul":
			return true
		case "len": // of what was formatted or made by code that is not modelled
			return x.args[0].op == "fmt" || x.args[0].op == "ext"
		case "div":
			_, ok := divisor(x)
			return !ok
		}
		return false
	}) != nil
}

// judge looks at the panic conditions met in the analysis of something.
func (k *Chk) judge(e *Engine, obls []*Obl, what string, src map[*T]bool) {
	seen := map[string]bool{}
	for _, o := range obls {
		k.counts["panic conditions"]++
		bad := false
		if !o.Proved {
			bad = network(nilBase(o.Cond), src)
			if o.Cond == tFalse && o.St != nil && !bad {
				for f := range o.St.facts {
					if network(f, src) && !e.baseline(f) {
						bad = true
					}
				}
			}
		}
		if bad && hasLoopTerm(o.Cond) {
			s := what + ": " + o.Kind + " at " + e.where(o.Pos) + " not decided: " + o.Cond.str(6)
			if !seen[s] {
				seen[s] = true
				k.undec = append(k.undec, s)
			}
			k.obls++
			continue
		}
		k.at(!bad, "no panic: "+o.Kind, e, what, e.where(o.Pos), factsText(o.St), "%s in %s: not always %s", o.Kind, o.Fn, o.Cond.str(6))
	}
}

// baseline: facts every run starts with.
func (e *Engine) baseline(f *T) bool { return false }

// tryRunning runs something, giving the panic conditions met.
func (k *Chk) tryRunning(e *Engine, what string, run func()) []*Obl {
	n := len(e.obls)
	k.counts["entry points"]++
	func() {
		defer func() {
			if r := recover(); r != nil {
				u, ok := r.(undecided)
				if !ok {
					panic(r)
				}
				k.undec = append(k.undec, what+": "+u.msg)
			}
		}()
		run()
	}()
	return e.obls[n:]
}

func checkC15(k *Chk) {
	e := k.e
	// the exported operations on received messages
	for _, n := range []string{"DECW", "DECP", "PPK", "PPB", "GDEC", "GPROC"} {
		sc := k.scen(n)
		if sc == nil {
			continue
		}
		k.counts["entry points"]++
		src := map[*T]bool{sc.args["wire"]: true}
		var os []*Obl
		for _, o := range e.obls {
			if o.Entry == n {
				os = append(os, o)
			}
		}
		if n == "PPB" {
			k.bundleSources(e, sc, os, src)
		}
		k.judge(e, os, sc.fn, src)
	}
	// exported functions on any bytes; and everything that can be done with what they return
	for _, prim := range []bool{false, true} {
		e := k.engine(prim)
		for _, f := range e.exported() {
			if prim && !e.isPrim(f) {
				continue
			}
			if f.Name() == "MustParse" { // panics as documented
				continue
			}
			args := e.paramsOf(f)
			src := map[*T]bool{}
			bytes := false
			for i, p := range f.Params {
				if i == 0 && f.Signature.Recv() != nil {
					continue
				}
				if e.untrusted(p.Type()) {
					src[args[i]] = true
					bytes = true
				}
			}
			if !bytes {
				continue
			}
			what := e.short(f.String())
			var res []Res
			os := k.tryRunning(e, what, func() { res = e.exec(e.base, f, args...) })
			k.judge(e, os, what, src)
			if f.Signature.Recv() != nil || f.Signature.Results().Len() == 0 {
				continue
			}
			// methods of the result
			n := f.Signature.Results().Len()
			if !isErrorType(f.Signature.Results().At(n-1).Type()) || n < 2 {
				continue
			}
			done := map[string]bool{}
			for _, r := range res {
				if !r.ok() || r.raw[0] == tNil {
					continue
				}
				v, t := r.raw[0], f.Signature.Results().At(0).Type()
				if v.op == "iface" {
					t, v = v.typ, v.args[0]
				}
				if !e.ours(t) {
					continue
				}
				for _, m := range e.methods(t) {
					_ = done
					margs := append([]*T{v}, e.paramsOf(m)[1:]...)
					msrc := map[*T]bool{}
					for x := range src {
						msrc[x] = true
					}
					for i, p := range m.Params[1:] {
						if e.untrusted(p.Type()) {
							msrc[margs[i+1]] = true
						}
					}
					w := what + " then " + e.short(m.String())
					os := k.tryRunning(e, w, func() { e.exec(r.st, m, margs...) })
					k.judge(e, os, w, msrc)
				}
			}
		}
	}
	k.floor("entry points", 60)
	k.floor("panic conditions", 300)
}

// untrusted: types of raw received data.
func (e *Engine) untrusted(t types.Type) bool {
	if e.bytesLike(t) {
		return true
	}
	if s, ok := t.Underlying().(*types.Slice); ok {
		return e.bytesLike(s.Elem())
	}
	return false
}

func (e *Engine) ours(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), e.mod) && !isGenerated(n)
}

// methods of a type, written in the module.
func (e *Engine) methods(t types.Type) []*ssa.Function {
	var out []*ssa.Function
	ms := e.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if !ms.At(i).Obj().Exported() {
			continue
		}
		if f := e.prog.MethodValue(ms.At(i)); f != nil && f.Blocks != nil {
			out = append(out, f)
		}
	}
	return out
}

// bundleSources: bytes and numbers inside of a bundle; that its keys are there is up to the caller.
func (k *Chk) bundleSources(e *Engine, sc *Scen, os []*Obl, src map[*T]bool) {
	for _, o := range os {
		anySub(o.Cond, func(x *T) bool {
			if x.op == "fld" && x.vt != nil && anySub(x, func(y *T) bool { return y == sc.args["p2"] || y == sc.args["p1"] }) != nil {
				if e.bytesLike(x.vt) || isIntType(x.vt) {
					src[x] = true
				}
			}
			return false
		})
	}
}
