package main

// Hash-consed value-number terms: the abstract values of the analysis.

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// T is an abstract value. Two equal terms are the same pointer.
type T struct {
	id   int
	op   string
	s    string
	args []*T
	typ  types.Type // part of the identity for some operators (iface, zero)
	vt   types.Type // type of the value, if known (not part of the identity)
	open bool       // contains a loop placeholder
	lvl  int        // highest bound-variable level inside
	obj  bool       // mentions an allocated object
	sel  bool       // mentions a selection
	idx  bool       // mentions an indexing
	ln   *lin       // cached linear form
	ixs  []*T       // cached indexing subterms
	ixd  bool
}

// idxSubs are the indexing subterms of t.
func (t *T) idxSubs() []*T {
	if !t.idx {
		return nil
	}
	if !t.ixd {
		seen := map[*T]bool{}
		if t.op == "idx" {
			seen[t] = true
			t.ixs = append(t.ixs, t)
		}
		for _, a := range t.args {
			for _, x := range a.idxSubs() {
				if !seen[x] {
					seen[x] = true
					t.ixs = append(t.ixs, x)
				}
			}
		}
		t.ixd = true
	}
	return t.ixs
}

var (
	interned = map[string]*T{}
	allTerms []*T
	typeIDs  = map[string]int{}
)

func typeKey(t types.Type) string {
	if t == nil {
		return ""
	}
	k := types.TypeString(t, nil)
	id, ok := typeIDs[k]
	if !ok {
		id = len(typeIDs) + 1
		typeIDs[k] = id
	}
	return strconv.Itoa(id)
}

func raw(op, s string, typ types.Type, args ...*T) *T {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte(0)
	b.WriteString(s)
	b.WriteByte(0)
	b.WriteString(typeKey(typ))
	for _, a := range args {
		b.WriteByte(0)
		b.WriteString(strconv.Itoa(a.id))
	}
	k := b.String()
	if t, ok := interned[k]; ok {
		return t
	}
	t := &T{id: len(allTerms), op: op, s: s, typ: typ, args: append([]*T(nil), args...)}
	for _, a := range args {
		if a.open {
			t.open = true
		}
		if a.obj {
			t.obj = true
		}
		if a.sel {
			t.sel = true
		}
		if a.idx {
			t.idx = true
		}
		if a.lvl > t.lvl {
			t.lvl = a.lvl
		}
	}
	switch op {
	case "obj":
		t.obj = true
	case "sel":
		t.sel = true
	case "idx":
		t.idx = true
	case "N", "lv":
		t.open = true
	case "bN", "bl":
		n, _ := strconv.Atoi(strings.SplitN(s, ".", 2)[0])
		t.lvl = n
	}
	interned[k] = t
	allTerms = append(allTerms, t)
	return t
}

func app(op string, args ...*T) *T { return raw(op, "", nil, args...) }
func withVT(t *T, vt types.Type) *T {
	if t.vt == nil && vt != nil {
		t.vt = vt
	}
	return t
}

var (
	tTrue  = raw("true", "", nil)
	tFalse = raw("false", "", nil)
	tNil   = raw("nil", "", nil)
	tEmpty = raw("str", "", nil)
	tUnit  = raw("unit", "", nil)
)

func mkBool(b bool) *T {
	if b {
		return tTrue
	}
	return tFalse
}
func mkInt(n int64) *T         { return raw("int", strconv.FormatInt(n, 10), nil) }
func mkStr(s string) *T        { return raw("str", s, nil) }
func mkSym(name string) *T     { return raw("sym", name, nil) }
func (t *T) is(op string) bool { return t.op == op }
func (t *T) isInt() (int64, bool) {
	if t.op == "int" {
		n, err := strconv.ParseInt(t.s, 10, 64)
		return n, err == nil
	}
	return 0, false
}

// ---------------------------------------------------------------- linear integers

type lin struct {
	k int64
	m map[*T]int64
}

func linOf(t *T) lin {
	if t.ln == nil {
		l := linOf1(t)
		t.ln = &l
	}
	return *t.ln
}

func linOf1(t *T) lin {
	if n, ok := t.isInt(); ok {
		return lin{k: n}
	}
	if t.op == "lin" {
		parts := strings.Split(t.s, ",")
		k, _ := strconv.ParseInt(parts[0], 10, 64)
		l := lin{k: k, m: map[*T]int64{}}
		for i, a := range t.args {
			c, _ := strconv.ParseInt(parts[i+1], 10, 64)
			l.m[a] = c
		}
		return l
	}
	return lin{m: map[*T]int64{t: 1}}
}

func (l lin) atoms() []*T {
	as := make([]*T, 0, len(l.m))
	for a := range l.m {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	return as
}

func (l lin) term() *T {
	var as []*T
	for _, a := range l.atoms() {
		if l.m[a] != 0 {
			as = append(as, a)
		}
	}
	if len(as) == 0 {
		return mkInt(l.k)
	}
	if len(as) == 1 && l.k == 0 && l.m[as[0]] == 1 {
		return as[0]
	}
	s := strconv.FormatInt(l.k, 10)
	for _, a := range as {
		s += "," + strconv.FormatInt(l.m[a], 10)
	}
	return raw("lin", s, nil, as...)
}

func linAdd(a, b lin, cb int64) lin {
	r := lin{k: a.k + cb*b.k, m: map[*T]int64{}}
	for x, c := range a.m {
		r.m[x] = c
	}
	for x, c := range b.m {
		r.m[x] += cb * c
		if r.m[x] == 0 {
			delete(r.m, x)
		}
	}
	return r
}
func mkAdd(a, b *T) *T { return linAdd(linOf(a), linOf(b), 1).term() }
func mkSub(a, b *T) *T { return linAdd(linOf(a), linOf(b), -1).term() }
func mkScale(a *T, c int64) *T {
	return linAdd(lin{}, linOf(a), c).term()
}

// le0 is "t <= 0".
func mkLe0(t *T) *T {
	l := linOf(t)
	if len(l.m) == 0 {
		return mkBool(l.k <= 0)
	}
	// all integers: divide by the gcd, rounding the constant
	g := int64(0)
	for _, c := range l.m {
		g = gcd(g, abs(c))
	}
	if g > 1 {
		// sum + k <= 0  <=>  sum/g <= floor(-k/g)
		q := floorDiv(-l.k, g)
		for a := range l.m {
			l.m[a] /= g
		}
		l.k = -q
	}
	// nonneg atoms: trivially false/true
	if lo, ok := l.lower(); ok && lo > 0 {
		return tFalse
	}
	if hi, ok := l.upper(); ok && hi <= 0 {
		return tTrue
	}
	if as := l.atoms(); len(as) == 1 && as[0].op == "b2i" {
		c := l.m[as[0]]
		at0, at1 := l.k <= 0, l.k+c <= 0
		switch {
		case at0 && at1:
			return tTrue
		case at1:
			return as[0].args[0]
		case at0:
			return mkNot(as[0].args[0])
		}
		return tFalse
	}
	return app("le0", l.term())
}
func mkLt(a, b *T) *T { return mkLe0(linAdd(linAdd(linOf(a), linOf(b), -1), lin{k: 1}, 1).term()) }
func mkLe(a, b *T) *T { return mkLe0(mkSub(a, b)) }

func mkEq0(t *T) *T {
	l := linOf(t)
	if len(l.m) == 0 {
		return mkBool(l.k == 0)
	}
	as := l.atoms()
	if l.m[as[0]] < 0 {
		l = linAdd(lin{}, l, -1)
	}
	if len(as) == 1 && as[0].op == "b2i" {
		switch l.k {
		case 0:
			return mkNot(as[0].args[0])
		case -1:
			return as[0].args[0]
		}
	}
	if lo, ok := l.lower(); ok && lo > 0 {
		return tFalse
	}
	if hi, ok := l.upper(); ok && hi < 0 {
		return tFalse
	}
	if len(as) == 1 && l.m[as[0]] == 1 {
		if c := topBit(as[0], -l.k); c != nil {
			return c
		}
	}
	return app("eq0", l.term())
}

// topBit is the condition that the top bits of a number, alone, are v, as a bound of the number.
func topBit(t *T, v int64) *T {
	if t.op != "band" && t.op != "shr" {
		return nil
	}
	x := t.args[0]
	k, ok := t.args[1].isInt()
	hi, okh := linOf(x).upper()
	lo, okl := linOf(x).lower()
	if !ok || !okh || !okl || lo < 0 || hi >= 1<<40 || k <= 0 {
		return nil
	}
	if t.op == "shr" {
		if k > 40 {
			return nil
		}
		switch {
		case v == 0:
			return mkLe0(mkSub(x, mkInt(1<<uint(k)-1)))
		case v == 1 && hi < 1<<uint(k+1):
			return mkNot(mkLe0(mkSub(x, mkInt(1<<uint(k)-1))))
		}
		return nil
	}
	low := k & -k
	if (k+low)&(k+low-1) != 0 || hi >= k+low { // not a mask of all bits from low
		return nil
	}
	switch {
	case v == 0:
		return mkLe0(mkSub(x, mkInt(low-1)))
	case v == k && k == low:
		return mkNot(mkLe0(mkSub(x, mkInt(low-1))))
	}
	return nil
}

func gcd(a, b int64) int64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}
func abs(a int64) int64 {
	if a < 0 {
		return -a
	}
	return a
}
func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// fmtWidth is the least length of a formatted text: its literal characters and the widths of its verbs.
func fmtWidth(t *T) int64 {
	if t.op != "fmt" || len(t.args) == 0 || t.args[0].op != "str" {
		return 0
	}
	f, n := t.args[0].s, int64(0)
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			n++
			continue
		}
		w := int64(0)
		for i++; i < len(f) && strings.IndexByte("0123456789+-# ", f[i]) >= 0; i++ {
			if f[i] >= '0' && f[i] <= '9' && w < 1<<20 {
				w = w*10 + int64(f[i]-'0')
			}
		}
		if i < len(f) && strings.IndexByte("dxXobqsv", f[i]) < 0 {
			return 0
		}
		n += w
	}
	return n
}

// bounds of an atom, from its operator or its type.
func atomLower(t *T) (int64, bool) {
	switch t.op {
	case "len":
		return fmtWidth(t.args[0]), true
	case "N", "bN", "Nx", "Lx", "mod", "cap", "b2i", "band", "le32":
		return 0, true
	case "bvar":
		if strings.HasPrefix(t.s, "bN") {
			return 0, true
		}
	}
	if t.vt != nil {
		if b, ok := t.vt.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
			return 0, true
		}
	}
	return 0, false
}
func atomUpper(t *T) (int64, bool) {
	switch t.op {
	case "mod":
		if n, ok := t.args[1].isInt(); ok && n > 0 {
			return n - 1, true
		}
	case "b2i":
		return 1, true
	case "band":
		if n, ok := t.args[1].isInt(); ok && n >= 0 {
			return n, true
		}
	case "shr":
		if hi, ok := atomUpper(t.args[0]); ok {
			if n, ok := t.args[1].isInt(); ok && n >= 0 && n < 64 {
				return hi >> uint(n), true
			}
		}
	case "len":
		if t.args[0].op == "fmc" {
			if n, ok := t.args[0].args[0].isInt(); ok {
				return n, true
			}
		}
	}
	if t.vt != nil {
		if b, ok := t.vt.Underlying().(*types.Basic); ok {
			switch b.Kind() {
			case types.Uint8:
				return 255, true
			case types.Uint16:
				return 65535, true
			case types.Uint32:
				return 1<<32 - 1, true
			}
		}
	}
	return 0, false
}
func (l lin) lower() (int64, bool) {
	s := l.k
	for a, c := range l.m {
		if c > 0 {
			lo, ok := atomLower(a)
			if !ok {
				return 0, false
			}
			s += c * lo
		} else if c < 0 {
			hi, ok := atomUpper(a)
			if !ok {
				return 0, false
			}
			s += c * hi
		}
	}
	return s, true
}
func (l lin) upper() (int64, bool) {
	lo, ok := linAdd(lin{}, l, -1).lower()
	return -lo, ok
}

// decidedLe reports a <= b when it holds for all values of the atoms.
func decidedLe(a, b *T) bool {
	if c := mkLe(a, b); c == tTrue {
		return true
	} else if c == tFalse || cur == nil {
		return false
	}
	return cur.proveLe0(linOf(mkSub(a, b)))
}

// cur is the state whose facts may be used to simplify terms (nil: none).
var cur *State

// ---------------------------------------------------------------- booleans

func mkNot(t *T) *T {
	switch t.op {
	case "true":
		return tFalse
	case "false":
		return tTrue
	case "not":
		return t.args[0]
	case "le0":
		return mkLe0(linAdd(lin{k: 1}, linOf(t.args[0]), -1).term())
	}
	return app("not", t)
}

func isIntType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// freshPtr reports whether t is the address of something allocated by the analysed code.
func freshPtr(t *T) bool { return t.op == "obj" || t.op == "box" }

func mkEq(a, b *T) *T {
	if a == b {
		return tTrue
	}
	if a.op == "int" || b.op == "int" || a.op == "lin" || b.op == "lin" || isIntType(a.vt) || isIntType(b.vt) {
		return mkEq0(mkSub(a, b))
	}
	if b.op == "nil" {
		a, b = b, a
	}
	if a.op == "nil" {
		switch b.op {
		case "obj", "fa", "ia", "slice", "iface", "fn", "closure", "box", "glob", "str", "list", "struct":
			return tFalse
		case "cp":
			return mkEq(tNil, b.args[1])
		case "lin", "int":
			return tFalse
		}
		if nonNilOps[b.op] {
			return tFalse
		}
		return app("eq", a, b)
	}
	if a.op == "true" || a.op == "false" {
		a, b = b, a
	}
	if b.op == "true" {
		return a
	}
	if b.op == "false" {
		return mkNot(a)
	}
	if a.op == "str" && b.op == "str" {
		return tFalse
	}
	if freshPtr(a) && freshPtr(b) || a.op == "obj" && b.op == "sym" || a.op == "sym" && b.op == "obj" {
		return tFalse
	}
	if a.op == "iface" && b.op == "iface" {
		if !types.Identical(a.typ, b.typ) {
			return tFalse
		}
		return mkEq(a.args[0], b.args[0])
	}
	if a.op == "cat" && b.op == "cat" {
		x, y := a.args, b.args
		for len(x) > 0 && len(y) > 0 && x[0] == y[0] {
			x, y = x[1:], y[1:]
		}
		for len(x) > 0 && len(y) > 0 && x[len(x)-1] == y[len(y)-1] {
			x, y = x[:len(x)-1], y[:len(y)-1]
		}
		if len(x) > 0 && len(y) > 0 && len(x) < len(a.args) {
			return mkEq(mkCat(x...), mkCat(y...))
		}
	}
	if a.op == "struct" && b.op == "struct" && len(a.args) == len(b.args) {
		var cs []*T
		for i := range a.args {
			cs = append(cs, mkEq(a.args[i], b.args[i]))
		}
		return mkAnd(cs...)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return app("eq", a, b)
}

func mkAnd(cs ...*T) *T {
	var out []*T
	seen := map[*T]bool{}
	for _, c := range cs {
		if c == tFalse {
			return tFalse
		}
		if c == tTrue || seen[c] {
			continue
		}
		if c.op == "and" {
			for _, d := range c.args {
				if !seen[d] {
					seen[d] = true
					out = append(out, d)
				}
			}
			continue
		}
		seen[c] = true
		out = append(out, c)
	}
	if len(out) == 0 {
		return tTrue
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return app("and", out...)
}

// nonNilOps are operators whose result is never nil.
var nonNilOps = map[string]bool{"pk": true, "pub": true, "sk": true, "kpair": true, "gensk": true, "kpriv": true, "kpub": true, "genkp": true}

// ---------------------------------------------------------------- structs

// fld selects a field of a struct value.
func mkFld(v *T, name string, vt types.Type) *T {
	switch v.op {
	case "struct":
		st, ok := v.typ.Underlying().(*types.Struct)
		if ok {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == name {
					return v.args[i]
				}
			}
		}
	case "with":
		names := strings.Split(v.s, ",")
		for i, n := range names {
			if n == name {
				return v.args[i+1]
			}
		}
		return mkFld(v.args[0], name, vt)
	case "zero":
		if vt != nil {
			return zeroOf(vt)
		}
	}
	return withVT(raw("fld", name, nil, v), vt)
}

func mkStruct(typ types.Type, args []*T) *T {
	// eta: struct(fld(x,0), fld(x,1), ...) = x
	if st, ok := typ.Underlying().(*types.Struct); ok && len(args) > 0 && st.NumFields() == len(args) {
		var base *T
		all := true
		for i, a := range args {
			if a.op != "fld" || a.s != st.Field(i).Name() {
				all = false
				break
			}
			if base == nil {
				base = a.args[0]
			} else if base != a.args[0] {
				all = false
				break
			}
		}
		if all && base.vt != nil && types.Identical(base.vt, typ) {
			return base
		}
	}
	t := raw("struct", "", typ, args...)
	t.vt = typ
	return t
}

// mkWith replaces fields of a struct value.
func mkWith(v *T, set map[string]*T) *T {
	names := map[string]*T{}
	if v.op == "with" {
		for i, n := range strings.Split(v.s, ",") {
			names[n] = v.args[i+1]
		}
		v = v.args[0]
	}
	for n, x := range set {
		names[n] = x
	}
	var ks []string
	for n, x := range names {
		if x.op == "fld" && x.s == n && x.args[0] == v {
			continue
		}
		ks = append(ks, n)
	}
	if len(ks) == 0 {
		return v
	}
	sort.Strings(ks)
	args := []*T{v}
	for _, k := range ks {
		args = append(args, names[k])
	}
	t := raw("with", strings.Join(ks, ","), nil, args...)
	t.vt = v.vt
	return t
}

func zeroOf(t types.Type) *T {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsInteger != 0:
			return mkInt(0)
		case u.Info()&types.IsString != 0:
			return tEmpty
		case u.Kind() == types.UntypedNil:
			return tNil
		}
		return raw("zero", "", t)
	case *types.Struct:
		if !structOK(t) {
			return raw("zero", "", t)
		}
		var args []*T
		for i := 0; i < u.NumFields(); i++ {
			args = append(args, zeroOf(u.Field(i).Type()))
		}
		return mkStruct(t, args)
	case *types.Array:
		return mkRep(zeroOf(u.Elem()), mkInt(u.Len()))
	case *types.Tuple:
		var args []*T
		for i := 0; i < u.Len(); i++ {
			args = append(args, zeroOf(u.At(i).Type()))
		}
		return app("tuple", args...)
	}
	return tNil
}

// structOK: structs which are expanded field by field (those of the analysed module).
var structOK = func(t types.Type) bool { return true }

// ---------------------------------------------------------------- sequences

var fixedLen = map[string]int64{
	"hmac256": 32, "sha256": 32, "sha512": 64, "hmac512": 64,
	"pkbytes": 33, "pkkey": 32, "skbytes": 32, "dh": 32, "sign": 64,
	"uuidstr": 36,
}

func mkLen(s *T) *T {
	switch s.op {
	case "nil":
		return mkInt(0)
	case "str":
		return mkInt(int64(len(s.s)))
	case "list":
		return mkInt(int64(len(s.args)))
	case "cat":
		r := mkInt(0)
		for _, a := range s.args {
			r = mkAdd(r, mkLen(a))
		}
		return r
	case "sub":
		return mkSub(s.args[2], s.args[1])
	case "rep":
		return s.args[1]
	case "slice":
		return mkSub(s.args[2], s.args[1])
	case "cps":
		return mkLen(s.args[1])
	case "fm":
		if n, ok := mkLen(s.args[1]).isInt(); ok {
			return mkScale(s.args[0], n)
		}
	case "rnd", "hkdf", "cbcraw", "extbytes":
		return s.args[len(s.args)-1]
	}
	if n, ok := fixedLen[s.op]; ok {
		return mkInt(n)
	}
	return app("len", s)
}

func mkList(elems ...*T) *T {
	if len(elems) == 0 {
		return tEmpty
	}
	all := true
	for _, e := range elems {
		n, ok := e.isInt()
		if !ok || n < 0 || n > 255 {
			all = false
			break
		}
	}
	if all {
		b := make([]byte, len(elems))
		for i, e := range elems {
			n, _ := e.isInt()
			b[i] = byte(n)
		}
		return mkStr(string(b))
	}
	return app("list", elems...)
}

func mkRep(v, n *T) *T {
	if c, ok := n.isInt(); ok {
		if c <= 0 {
			return tEmpty
		}
		if b, ok := v.isInt(); ok && b >= 0 && b < 256 && c <= 256 {
			return mkStr(strings.Repeat(string([]byte{byte(b)}), int(c)))
		}
		if c <= 16 {
			es := make([]*T, c)
			for i := range es {
				es[i] = v
			}
			return mkList(es...)
		}
	}
	return app("rep", v, n)
}

// asSeq turns a term used as a slice value into its content term (only for terms without a backing cell).
func seqNorm(s *T) *T {
	if s.op == "nil" {
		return tEmpty
	}
	return s
}

func mkCat(parts ...*T) *T {
	var out []*T
	var add func(p *T)
	add = func(p *T) {
		p = seqNorm(p)
		if p.op == "cat" {
			for _, a := range p.args {
				add(a)
			}
			return
		}
		if p == tEmpty {
			return
		}
		if n := len(out); n > 0 {
			q := out[n-1]
			// copies of neighbouring parts of one sequence
			cps := func(id, a, b *T, rest ...*T) bool {
				m := mkCat(a, b)
				if m.op == "cat" {
					return false
				}
				out = out[:n-1]
				for _, r := range rest {
					add(r)
				}
				out = append(out, mkCps(id, m))
				return true
			}
			if q.op == "cps" && p.op == "cps" && q.args[0] == p.args[0] && cps(q.args[0], q.args[1], p.args[1]) {
				return
			}
			if q.op == "cps" && p.op == "list" {
				if c := p.args[0]; c.op == "cp" && c.args[0] == q.args[0] && c.args[1].op == "idx" && cps(q.args[0], q.args[1], mkList(c.args[1])) {
					if len(p.args) > 1 {
						add(mkList(p.args[1:]...))
					}
					return
				}
			}
			if q.op == "list" && p.op == "cps" {
				k := len(q.args) - 1
				if c := q.args[k]; c.op == "cp" && c.args[0] == p.args[0] && c.args[1].op == "idx" {
					var rest []*T
					if k > 0 {
						rest = append(rest, mkList(q.args[:k]...))
					}
					if cps(p.args[0], mkList(c.args[1]), p.args[1], rest...) {
						return
					}
				}
			}
			switch {
			case q.op == "str" && p.op == "str":
				out[n-1] = mkStr(q.s + p.s)
				return
			case q.op == "list" && p.op == "list":
				out[n-1] = mkList(append(append([]*T{}, q.args...), p.args...)...)
				return
			case q.op == "sub" && p.op == "sub" && q.args[0] == p.args[0] && q.args[2] == p.args[1]:
				out = out[:n-1]
				add(mkSubseq(q.args[0], q.args[1], p.args[2]))
				return
			case p.op == "list" && q.op == "sub" && len(p.args) >= 1 && p.args[0] == mkIdx(q.args[0], q.args[2]) && (p.args[0].op == "idx" || p.args[0].op == "cp"):
				out = out[:n-1]
				add(mkSubseq(q.args[0], q.args[1], mkAdd(q.args[2], mkInt(1))))
				if len(p.args) > 1 {
					add(mkList(p.args[1:]...))
				}
				return
			case q.op == "list" && p.op == "sub" && q.args[len(q.args)-1] == mkIdx(p.args[0], mkSub(p.args[1], mkInt(1))) && (q.args[len(q.args)-1].op == "idx" || q.args[len(q.args)-1].op == "cp"):
				out = out[:n-1]
				if len(q.args) > 1 {
					add(mkList(q.args[:len(q.args)-1]...))
				}
				add(mkSubseq(p.args[0], mkSub(p.args[1], mkInt(1)), p.args[2]))
				return
			case q.op == "fm" && p.op == "list" && len(p.args) == 1 && q.args[1].op == "list" && len(q.args[1].args) == 1 && instFm(q, q.args[0]).args[0] == p.args[0]:
				out = out[:n-1]
				add(app("fm", mkAdd(q.args[0], mkInt(1)), q.args[1]))
				return
			}
		}
		out = append(out, p)
	}
	for _, p := range parts {
		add(p)
	}
	if len(out) == 0 {
		return tEmpty
	}
	if len(out) == 1 {
		return out[0]
	}
	return app("cat", out...)
}

func mkSubseq(s, lo, hi *T) *T {
	s = seqNorm(s)
	if lo == hi {
		return tEmpty
	}
	n := mkLen(s)
	if l, ok := lo.isInt(); ok && l == 0 && hi == n {
		return s
	}
	l, lok := lo.isInt()
	h, hok := hi.isInt()
	switch s.op {
	case "str":
		if lok && hok && l >= 0 && h <= int64(len(s.s)) && l <= h {
			return mkStr(s.s[l:h])
		}
	case "list":
		if lok && hok && l >= 0 && h <= int64(len(s.args)) && l <= h {
			return mkList(s.args[l:h]...)
		}
	case "rep":
		return mkRep(s.args[0], mkSub(hi, lo))
	case "sub":
		return mkSubseq(s.args[0], mkAdd(s.args[1], lo), mkAdd(s.args[1], hi))
	case "cps":
		return mkCps(s.args[0], mkSubseq(s.args[1], lo, hi))
	case "cat":
		var out []*T
		off := mkInt(0)
		ok := true
		for _, p := range s.args {
			end := mkAdd(off, mkLen(p))
			// part [off,end) against [lo,hi)
			switch {
			case decidedLe(end, lo) || decidedLe(hi, off):
			case decidedLe(lo, off) && decidedLe(end, hi):
				out = append(out, p)
			case decidedLe(lo, off) && decidedLe(hi, end) && decidedLe(off, hi):
				out = append(out, mkSubseq(p, mkInt(0), mkSub(hi, off)))
			case decidedLe(off, lo) && decidedLe(end, hi) && decidedLe(lo, end):
				out = append(out, mkSubseq(p, mkSub(lo, off), mkLen(p)))
			case decidedLe(off, lo) && decidedLe(hi, end):
				out = append(out, mkSubseq(p, mkSub(lo, off), mkSub(hi, off)))
			default:
				ok = false
			}
			if !ok {
				break
			}
			off = end
		}
		if ok {
			return mkCat(out...)
		}
	}
	t := app("sub", s, lo, hi)
	t.vt = s.vt
	return t
}

func mkIdx(s, i *T) *T { return mkIdxT(s, i, nil) }

func mkIdxT(s, i *T, vt types.Type) *T {
	s = seqNorm(s)
	c, cok := i.isInt()
	switch s.op {
	case "str":
		if cok && c >= 0 && c < int64(len(s.s)) {
			return mkInt(int64(s.s[c]))
		}
	case "list":
		if cok && c >= 0 && c < int64(len(s.args)) {
			return s.args[c]
		}
	case "rep":
		return s.args[0]
	case "sub":
		return mkIdxT(s.args[0], mkAdd(s.args[1], i), vt)
	case "cps":
		return mkCp(s.args[0], mkIdxT(s.args[1], i, vt))
	case "fm":
		if b := s.args[1]; b.op == "list" && len(b.args) == 1 {
			return instFm(s, i).args[0]
		}
	case "cat":
		off := mkInt(0)
		for _, p := range s.args {
			end := mkAdd(off, mkLen(p))
			if decidedLe(end, i) {
				off = end
				continue
			}
			if decidedLe(off, i) && decidedLe(mkAdd(i, mkInt(1)), end) {
				return mkIdxT(p, mkSub(i, off), vt)
			}
			break
		}
	}
	return withVT(app("idx", s, i), vt)
}

// mkCp is the copy, made by the deep copy with identity id, of pointer q.
// mkCps is the sequence of the copies of the elements of s.
func mkCps(id, s *T) *T {
	if s.op == "nil" || s.op == "cps" || s == tEmpty {
		return s
	}
	return app("cps", id, s)
}

func mkCp(id, q *T) *T {
	switch q.op {
	case "nil":
		return tNil
	case "box":
		t := app("cp", id, q)
		t.vt = q.vt
		return t
	}
	t := app("cp", id, q)
	t.vt = q.vt
	return t
}

// instFm instantiates the body of a mapped sequence at position i; the result is the body term.
func instFm(fm, i *T) *T {
	b := fm.args[1]
	lvl := strconv.Itoa(fm.lvlOf())
	return substFn(b, func(t *T) *T {
		if t.op == "bN" && t.s == lvl {
			return i
		}
		return nil
	})
}

// lvlOf is the level of the variable bound by a binder term (stored in s).
func (t *T) lvlOf() int {
	n, _ := strconv.Atoi(t.s)
	return n
}

// mkFm closes body over loop placeholder n: the concatenation of body(0..count-1).
func mkFm(count, body, n *T) *T {
	lvl := body.lvl + 1
	bn := raw("bN", strconv.Itoa(lvl), nil)
	b := subst(body, map[*T]*T{n: bn})
	if cst, ok := count.isInt(); ok && cst >= 0 && cst <= 8 {
		var parts []*T
		for k := int64(0); k < cst; k++ {
			parts = append(parts, subst(body, map[*T]*T{n: mkInt(k)}))
		}
		return mkCat(parts...)
	}
	if s := elements(count, b, bn); s != nil {
		return s
	}
	return raw("fm", strconv.Itoa(lvl), nil, count, b)
}

// instB instantiates the variable of level lvl in a binder body.
func instB(b *T, lvl string, i *T) *T {
	return substFn(b, func(t *T) *T {
		if t.op == "bN" && t.s == lvl {
			return i
		}
		return nil
	})
}

func reFm(lvl string, count, body *T) *T {
	if n, ok := count.isInt(); ok && n <= 8 {
		var parts []*T
		for k := int64(0); k < n; k++ {
			parts = append(parts, instB(body, lvl, mkInt(k)))
		}
		return mkCat(parts...)
	}
	if s := elements(count, body, raw("bN", lvl, nil)); s != nil {
		return s
	}
	return raw("fm", lvl, nil, count, body)
}

// elements: the concatenation of [s[c+i]] for i < count is a part of s.
func elements(count, body, bn *T) *T {
	if body.op == "str" && len(body.s) == 1 {
		return mkRep(mkInt(int64(body.s[0])), count)
	}
	if body.op != "list" || len(body.args) != 1 {
		return nil
	}
	if isIntTerm(body.args[0]) && anySub(body, func(x *T) bool { return isBoundAt(x, bn.s) }) == nil {
		return mkRep(body.args[0], count) // the same number again and again
	}
	if body.args[0].op != "idx" {
		return nil
	}
	x := body.args[0]
	c := mkSub(x.args[1], bn)
	if contains(c, bn) || contains(x.args[0], bn) {
		return nil
	}
	return mkSubseq(x.args[0], c, mkAdd(c, count))
}

func reFmc(lvl string, count, cond, body *T) *T {
	if cond == tFalse {
		return tEmpty
	}
	if cond == tTrue {
		return reFm(lvl, count, body)
	}
	if n, ok := count.isInt(); ok && n <= 4 {
		var parts []*T
		for k := int64(0); k < n; k++ {
			c := instB(cond, lvl, mkInt(k))
			switch c {
			case tTrue:
				parts = append(parts, instB(body, lvl, mkInt(k)))
			case tFalse:
			default:
				return raw("fmc", lvl, nil, count, cond, body)
			}
		}
		return mkCat(parts...)
	}
	return raw("fmc", lvl, nil, count, cond, body)
}

func rePush(lvl string, c, init, n, body *T) *T {
	if k, ok := n.isInt(); ok && k == 0 {
		return init
	}
	return raw("push", lvl, nil, c, init, n, body)
}

// ---------------------------------------------------------------- substitution

func subst(t *T, m map[*T]*T) *T {
	return substFn(t, func(x *T) *T { return m[x] })
}

// binderBodies are the arguments in which a binder's variables are bound.
func binderBodies(op string, n int) []int {
	switch op {
	case "fm", "all":
		return []int{1}
	case "fmc":
		return []int{1, 2}
	case "rec":
		return []int{2}
	case "push":
		return []int{3}
	case "Lx":
		return []int{1}
	case "sig":
		out := make([]int, n)
		for i := range out {
			out[i] = i
		}
		return out
	}
	return nil
}

func isBoundAt(x *T, lvl string) bool {
	return x.op == "bN" && x.s == lvl || x.op == "bl" && (x.s == lvl || strings.HasPrefix(x.s, lvl+"."))
}

// substFn replaces subterms. Bound variables are renamed where a replacement could be captured.
func substFn(t *T, f func(*T) *T) *T {
	memo := map[*T]*T{}
	var rec func(t *T) *T
	rec = func(t *T) *T {
		if r, ok := memo[t]; ok {
			return r
		}
		var r *T
		if x := f(t); x != nil {
			r = x
		} else if len(t.args) == 0 {
			r = t
		} else {
			ch := false
			args := make([]*T, len(t.args))
			for i, a := range t.args {
				args[i] = rec(a)
				if args[i] != a {
					ch = true
				}
			}
			if !ch {
				r = t
			} else {
				if bb := binderBodies(t.op, len(args)); bb != nil {
					moved := false
					for _, i := range bb {
						moved = moved || args[i] != t.args[i]
					}
					if moved {
						memo[t] = relevel(t, args, bb, f)
						return memo[t]
					}
				}
				r = rebuild(t, args)
			}
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

// relevel rebuilds a binder around bodies that may contain other variables of its level.
func relevel(t *T, args []*T, bodies []int, f func(*T) *T) *T {
	mark := map[*T]*T{}
	back := map[string]*T{}
	lvl := 0
	for _, i := range bodies {
		b := substFn(t.args[i], func(x *T) *T {
			if isBoundAt(x, t.s) {
				p := mark[x]
				if p == nil {
					p = withVT(raw("bvar", x.op+x.s, nil), x.vt)
					mark[x] = p
					back[p.s] = x
				}
				return p
			}
			return nil
		})
		args[i] = substFn(b, f)
		if args[i].lvl > lvl {
			lvl = args[i].lvl
		}
	}
	ns := strconv.Itoa(lvl + 1)
	for _, i := range bodies {
		args[i] = substFn(args[i], func(x *T) *T {
			if x.op != "bvar" {
				return nil
			}
			o := back[x.s]
			if o == nil {
				return nil
			}
			return withVT(raw(o.op, ns+strings.TrimPrefix(o.s, t.s), nil), o.vt)
		})
	}
	n := *t
	n.s = ns
	return rebuild(&n, args)
}

// rebuild applies t's operator to new arguments through the simplifying constructors.
func rebuild(t *T, args []*T) *T {
	switch t.op {
	case "lin":
		l := linOf(t)
		r := lin{k: l.k}
		r = linAdd(r, lin{}, 0)
		for i, a := range t.args {
			r = linAdd(r, linOf(args[i]), l.m[a])
		}
		return r.term()
	case "le0":
		return mkLe0(args[0])
	case "eq0":
		return mkEq0(args[0])
	case "eq":
		return mkEq(args[0], args[1])
	case "not":
		return mkNot(args[0])
	case "and":
		return mkAnd(args...)
	case "cat":
		return mkCat(args...)
	case "sub":
		return mkSubseq(args[0], args[1], args[2])
	case "idx":
		return mkIdxT(args[0], args[1], t.vt)
	case "len":
		return mkLen(args[0])
	case "list":
		return mkList(args...)
	case "rep":
		return mkRep(args[0], args[1])
	case "fld":
		return mkFld(args[0], t.s, t.vt)
	case "struct":
		return mkStruct(t.typ, args)
	case "with":
		set := map[string]*T{}
		for i, n := range strings.Split(t.s, ",") {
			set[n] = args[i+1]
		}
		return mkWith(args[0], set)
	case "cp":
		return mkCp(args[0], args[1])
	case "cps":
		return mkCps(args[0], args[1])
	case "deref":
		return mkDeref(args[0], t.vt)
	case "trunc":
		b, _ := strconv.Atoi(t.s)
		if n, ok := args[0].isInt(); ok && n >= 0 && b < 63 && n < 1<<uint(b-1) {
			return args[0]
		}
	case "or":
		return mkOr(args...)
	case "rec":
		return withVT(instRec(raw("rec", t.s, nil, args...)), t.vt)
	case "fm":
		return reFm(t.s, args[0], args[1])
	case "fmc":
		return reFmc(t.s, args[0], args[1], args[2])
	case "push":
		return rePush(t.s, args[0], args[1], args[2], args[3])
	case "all":
		if n, ok := args[0].isInt(); ok && n <= 4 {
			var cs []*T
			for i := int64(0); i < n; i++ {
				cs = append(cs, instB(args[1], t.s, mkInt(i)))
			}
			return mkAnd(cs...)
		}
		return raw("all", t.s, nil, args...)
	}
	if f, ok := simplify[t.op]; ok {
		if r := f(args); r != nil {
			return withVT(r, t.vt)
		}
	}
	return withVT(raw(t.op, t.s, t.typ, args...), t.vt)
}

// simplify holds the simplification rules of the uninterpreted operators.
var simplify = map[string]func(args []*T) *T{}

// apply builds an uninterpreted application through its simplification rule.
func apply(op string, args ...*T) *T {
	if f, ok := simplify[op]; ok {
		if r := f(args); r != nil {
			return r
		}
	}
	return app(op, args...)
}

// mkDeref is the initial value of the cell p points to.
func mkDeref(p *T, vt types.Type) *T {
	switch p.op {
	case "box":
		return p.args[0]
	case "cp":
		return mkDeref(p.args[1], vt)
	}
	return withVT(app("deref", p), vt)
}

// ---------------------------------------------------------------- queries

func contains(t, x *T) bool {
	if t == x {
		return true
	}
	if x.open && !t.open || x.obj && !t.obj || x.id > t.id {
		return false
	}
	seen := map[*T]bool{}
	var rec func(t *T) bool
	rec = func(t *T) bool {
		if t == x {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func anySub(t *T, f func(*T) bool) *T {
	seen := map[*T]bool{}
	var rec func(t *T) *T
	rec = func(t *T) *T {
		if seen[t] {
			return nil
		}
		seen[t] = true
		if f(t) {
			return t
		}
		for _, a := range t.args {
			if r := rec(a); r != nil {
				return r
			}
		}
		return nil
	}
	return rec(t)
}

func (t *T) String() string { return t.str(7) }

func (t *T) str(d int) string {
	switch t.op {
	case "int":
		return t.s
	case "str":
		if len(t.s) > 40 {
			return fmt.Sprintf("%q..%d", t.s[:8], len(t.s))
		}
		return strconv.Quote(t.s)
	case "sym":
		return t.s
	case "true", "false", "nil":
		return t.op
	}
	if d == 0 {
		return "…"
	}
	if t.op == "lin" {
		l := linOf(t)
		s := ""
		for _, a := range t.args {
			c := l.m[a]
			switch c {
			case 1:
				s += "+" + a.str(d-1)
			case -1:
				s += "-" + a.str(d-1)
			default:
				s += fmt.Sprintf("%+d*%s", c, a.str(d-1))
			}
		}
		if l.k != 0 {
			s += fmt.Sprintf("%+d", l.k)
		}
		return "(" + strings.TrimPrefix(s, "+") + ")"
	}
	if t.op == "fld" {
		if t.args[0].op == "deref" {
			return t.args[0].args[0].str(d) + "->" + t.s
		}
		return t.args[0].str(d) + "." + t.s
	}
	if t.op == "fa" {
		return "&" + t.args[0].str(d) + "." + t.s
	}
	if t.op == "Nx" || t.op == "Lx" {
		return t.op + strconv.Itoa(t.id)
	}
	if t.op == "stored" {
		return "<" + strings.TrimSuffix(t.args[0].s, ".Store.Load") + ">"
	}
	if t.op == "type" {
		return t.s[strings.LastIndex(t.s, ".")+1:]
	}
	if t.op == "storebool" {
		return "storebool." + strings.SplitN(t.args[0].s, "@", 2)[0]
	}
	s := t.op
	if t.op == "struct" || t.op == "iface" {
		n := types.TypeString(t.typ, func(p *types.Package) string { return p.Name() })
		if len(n) > 40 {
			n = n[:40]
		}
		s += "<" + n + ">"
	} else if t.s != "" {
		s += "#" + t.s
	}
	if len(t.args) == 0 {
		return s
	}
	var as []string
	for _, a := range t.args {
		as = append(as, a.str(d-1))
	}
	return s + "(" + strings.Join(as, ", ") + ")"
}

func init() {
	// selection: sel(c, a, b) is a if c holds and b otherwise
	simplify["sel"] = func(a []*T) *T {
		switch {
		case a[0] == tTrue || a[1] == a[2]:
			return a[1]
		case a[0] == tFalse:
			return a[2]
		}
		return nil
	}
}
