package main

// Forward abstract interpretation of SSA functions.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Outcome struct {
	st    *State
	vals  []*T
	panic bool
	pos   token.Pos // of the return statement
}

// Sink is a value that reaches a log, an error text or similar.
type Sink struct {
	Entry string
	Kind  string
	Args  []*T
	Types []types.Type
	Pos   token.Pos
	Fn    string
}

// Write is a store through memory that was not allocated by the analysed code.
type Write struct {
	Root  *T
	How   string
	Pos   token.Pos
	Fn    string
	Entry string
}

// Ext is a call of a function that has no model.
type Ext struct {
	Name  string
	Args  []*T // as they are
	Flat  []*T // with what they refer to
	Pos   token.Pos
	Fn    string
	Entry string
}

// Obl is a run-time panic condition.
type Obl struct {
	Kind   string
	Pos    token.Pos
	Fn     string
	Proved bool
	Cond   *T
	Entry  string
	St     *State // facts on a path where the panic is certain
}

type Engine struct {
	prog      *ssa.Program
	mod       string
	fset      *token.FileSet
	objInit   map[*T]*T
	objType   map[*T]types.Type
	serial    map[*T]int
	nSerial   int
	angel     bool // nothing outside the code fails
	kinds     bool // failures of different kinds are kept apart
	split     bool // paths are kept apart where that is possible
	addrTyp   map[*T]types.Type
	stack     []*ssa.Function
	posStk    []token.Pos
	loopDep   int
	loops     map[*ssa.Function]*loopInfo
	sinks     []Sink
	works     []Work
	writes    []Write
	notes     map[string]int
	opaque    bool // treat the curve and aes packages as the algebra of their operations
	base      *State
	seen      map[*ssa.Function]int
	calls     int
	entry     string
	fnByT     map[*T]*ssa.Function
	steps     int
	copies    map[*T]bool // objects made by a deep copy
	arrElem   map[*T]types.Type
	loopMem   map[*T][]*T // slices a loop variable may be
	nGeneral  int         // loop variables without closed form so far
	peels     int
	extra     map[string]func(e *Engine, c *callCtx) []Outcome
	cmps      []Cmp
	exts      []Ext
	puts      []Write
	initObj   map[*T]bool // objects of package initialisation
	swept     bool
	sweptN    int
	sweepErr  []string
	secTypes  map[string]bool
	joinFails bool

	strict     *ssa.BasicBlock
	strictFail bool
	loopNs     []*T
	floor      int
	obls       []*Obl
	modelKind  map[*T]string
	inInit     bool
	noUnroll   map[*ssa.BasicBlock]bool
	scens      map[string]*Scen
}

// Cmp is a comparison of byte strings.
type Cmp struct {
	A, B  *T
	Const bool
	Pos   token.Pos
	Fn    string
	Entry string
}

type path struct {
	env    map[ssa.Value]*T
	st     *State
	defers []*deferred
}

type deferred struct {
	fn   *T
	args []*T
	call *ssa.CallCommon
}

func (p *path) fork() *path {
	m := make(map[ssa.Value]*T, len(p.env)+8)
	for k, v := range p.env {
		m[k] = v
	}
	return &path{env: m, st: p.st.clone(), defers: p.defers[:len(p.defers):len(p.defers)]}
}

type loopT struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *loopT
}

type loopInfo struct {
	live  map[*ssa.BasicBlock]map[ssa.Value]bool // live at entry, phis of the block included
	rpo   []*ssa.BasicBlock
	inner map[*ssa.BasicBlock]*loopT // innermost loop containing the block
	hdr   map[*ssa.BasicBlock]*loopT
}

func (e *Engine) loopsOf(fn *ssa.Function) *loopInfo {
	if li, ok := e.loops[fn]; ok {
		return li
	}
	li := &loopInfo{inner: map[*ssa.BasicBlock]*loopT{}, hdr: map[*ssa.BasicBlock]*loopT{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		li.rpo = append(li.rpo, post[i])
	}
	for _, b := range li.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := li.hdr[s]
				if l == nil {
					l = &loopT{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					li.hdr[s] = l
				}
				var add func(x *ssa.BasicBlock)
				add = func(x *ssa.BasicBlock) {
					if l.blocks[x] {
						return
					}
					l.blocks[x] = true
					for _, p := range x.Preds {
						if seen[p] {
							add(p)
						}
					}
				}
				add(b)
			}
		}
	}
	for _, b := range li.rpo {
		var best *loopT
		for _, l := range li.hdr {
			if l.blocks[b] && (best == nil || len(l.blocks) < len(best.blocks)) {
				best = l
			}
		}
		li.inner[b] = best
	}
	for _, l := range li.hdr {
		var best *loopT
		for _, m := range li.hdr {
			if m != l && m.blocks[l.header] && (best == nil || len(m.blocks) < len(best.blocks)) {
				best = m
			}
		}
		l.parent = best
	}
	li.live = liveIn(fn)
	e.loops[fn] = li
	return li
}

// liveIn computes the values live at the entry of each block (after its phis).
func liveIn(fn *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	live := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		live[b] = map[ssa.Value]bool{}
	}
	for ch := true; ch; {
		ch = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			set := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range live[s] {
					if ph, ok := v.(*ssa.Phi); ok && ph.Block() == s {
						continue
					}
					set[v] = true
				}
				k := predIdx(s, b)
				for _, ph := range phisOf(s) {
					set[ph.Edges[k]] = true
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				ins := b.Instrs[j]
				if _, ok := ins.(*ssa.Phi); ok {
					continue
				}
				if v, ok := ins.(ssa.Value); ok {
					delete(set, v)
				}
				var ops [10]*ssa.Value
				for _, o := range ins.Operands(ops[:0]) {
					if *o != nil {
						set[*o] = true
					}
				}
			}
			for v := range set {
				if !live[b][v] {
					live[b][v] = true
					ch = true
				}
			}
		}
	}
	return live
}

// sameEnv: the values still needed at b agree.
func (li *loopInfo) sameEnv(b *ssa.BasicBlock, p, q *path) bool {
	for v := range li.live[b] {
		if x, ok := p.env[v]; ok && x != q.env[v] {
			return false
		}
	}
	return len(p.defers) == len(q.defers)
}

type undecided struct{ msg string }

func (e *Engine) note(format string, a ...any) { e.notes[fmt.Sprintf(format, a...)]++ }

func (e *Engine) curFn() string {
	if len(e.stack) == 0 {
		return "?"
	}
	return e.stack[len(e.stack)-1].RelString(nil)
}

func (e *Engine) where(pos token.Pos) string {
	p := e.fset.Position(pos)
	f := p.Filename
	if i := strings.Index(f, "/protocol/"); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, p.Line)
}

func (e *Engine) stackKey(pos token.Pos) string {
	s := e.where(pos) + ":" + strconv.Itoa(e.fset.Position(pos).Column)
	for i := len(e.posStk) - 1; i >= 0; i-- {
		s += "<" + e.where(e.posStk[i])
	}
	return s
}

// counter counts occurrences of a site in a state, so that names are reproducible.
func (e *Engine) counter(st *State, site string) int {
	k := raw("count", site, nil)
	n := 0
	if v, ok := st.heap[k]; ok {
		c, _ := v.isInt()
		n = int(c)
	}
	st.set(k, mkInt(int64(n+1)))
	return n
}

func (e *Engine) newObj(st *State, kind string, typ types.Type, pos token.Pos) *T {
	site := kind + "@" + e.stackKey(pos)
	n := e.counter(st, site)
	o := raw("obj", site+"#"+strconv.Itoa(n), nil)
	e.objType[o] = typ
	e.nSerial++
	e.serial[o] = e.nSerial
	if e.inInit {
		e.initObj[o] = true
	}
	// forget what an earlier pass wrote
	for k := range st.heap {
		if rootOf(k) == o {
			st.del(k)
		}
	}
	delete(e.objInit, o)
	return o
}

func (e *Engine) freshSym(st *State, kind string, vt types.Type, pos token.Pos) *T {
	site := kind + "@" + e.stackKey(pos)
	n := e.counter(st, site)
	if len(e.loopNs) > 0 {
		return withVT(raw("fresh", site+"#"+strconv.Itoa(n), nil, e.loopNs...), vt)
	}
	return withVT(raw("sym", site+"#"+strconv.Itoa(n), nil), vt)
}

func rootOf(a *T) *T {
	for a.op == "fa" || a.op == "ia" {
		a = a.args[0]
	}
	return a
}

// ---------------------------------------------------------------- memory

func mkFa(p *T, name string) *T { return raw("fa", name, nil, p) }

func (e *Engine) defaultContent(p *T, typ types.Type) *T {
	switch p.op {
	case "obj":
		if v, ok := e.objInit[p]; ok {
			return v
		}
		if t := e.objType[p]; t != nil {
			return zeroOf(t)
		}
		return zeroOf(typ)
	case "box":
		return p.args[0]
	case "cp":
		return e.defaultContent(p.args[1], typ)
	case "fa":
		return e.cpWrap(p.args[0], mkFld(e.defaultContent(p.args[0], nil), p.s, typ), typ)
	case "glob":
		return withVT(app("deref", p), typ)
	}
	return mkDeref(p, typ)
}

// cpWrap marks pointers read out of a deep copy as copies.
func (e *Engine) cpWrap(p, v *T, typ types.Type) *T {
	var id *T
	switch {
	case p.op == "cp":
		id = p.args[0]
	case e.copies[p]:
		id = p
	default:
		return v
	}
	if typ == nil {
		return v
	}
	switch u := typ.Underlying().(type) {
	case *types.Pointer:
		if v.op == "cp" || v.op == "nil" || v.op == "obj" {
			return v
		}
		return mkCp(id, v)
	case *types.Slice:
		if _, ok := u.Elem().Underlying().(*types.Pointer); ok {
			if v.op == "nil" || v.op == "cps" || v == tEmpty {
				return v
			}
			t := app("cps", id, v)
			t.vt = typ
			return t
		}
	}
	return v
}

func isPlainStruct(t types.Type) (*types.Struct, bool) {
	s, ok := t.Underlying().(*types.Struct)
	if !ok || !structOK(t) {
		return nil, false
	}
	return s, true
}

func (e *Engine) load(st *State, p *T, typ types.Type) *T {
	if s, ok := isPlainStruct(typ); ok {
		var args []*T
		for i := 0; i < s.NumFields(); i++ {
			args = append(args, e.load(st, mkFa(p, s.Field(i).Name()), s.Field(i).Type()))
		}
		return mkStruct(typ, args)
	}
	if p.op == "ia" {
		return e.elem(st, p.args[0], p.args[1], typ)
	}
	if v, ok := st.heap[p]; ok {
		return v
	}
	if a, names := viaIA(p); a != nil {
		v := e.elem(st, a.args[0], a.args[1], nil)
		for i := len(names) - 1; i >= 0; i-- {
			var t types.Type
			if i == 0 {
				t = typ
			}
			v = mkFld(v, names[i], t)
		}
		return v
	}
	if _, ok := typ.Underlying().(*types.Array); ok {
		return e.content(st, p, typ)
	}
	if p.op == "fa" {
		base := p.args[0]
		return e.cpWrap(base, mkFld(e.defaultContent(base, nil), p.s, typ), typ)
	}
	if p.op == "obj" || p.op == "box" || p.op == "cp" {
		return e.defaultContent(p, typ)
	}
	return mkDeref(p, typ)
}

func (e *Engine) elem(st *State, arr, i *T, typ types.Type) *T {
	c := e.content(st, arr, nil)
	return mkIdxT(c, i, typ)
}

func (e *Engine) store(st *State, p, v *T, typ types.Type) {
	if s, ok := isPlainStruct(typ); ok {
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			e.store(st, mkFa(p, f.Name()), mkFld(v, f.Name(), f.Type()), f.Type())
		}
		return
	}
	if p.op == "ia" {
		arr, i := p.args[0], p.args[1]
		c := e.content(st, arr, nil)
		e.recordWrite(arr, "element assignment")
		if e.arrElem[arr] == nil && needsReify(typ) {
			e.arrElem[arr] = typ
		}
		st.set(arr, mkCat(mkSubseq(c, mkInt(0), i), mkList(v), mkSubseq(c, mkAdd(i, mkInt(1)), mkLen(c))))
		return
	}
	if a, names := viaIA(p); a != nil && len(names) == 1 {
		old := e.elem(st, a.args[0], a.args[1], nil)
		var nv *T
		if old.op == "struct" {
			stt := old.typ.Underlying().(*types.Struct)
			args := append([]*T{}, old.args...)
			for i := 0; i < stt.NumFields(); i++ {
				if stt.Field(i).Name() == names[0] {
					args[i] = v
				}
			}
			nv = mkStruct(old.typ, args)
		} else {
			nv = mkWith(old, map[string]*T{names[0]: v})
		}
		e.store(st, a, nv, types.Typ[types.Int])
		return
	}
	st.set(p, v)
}

// viaIA finds the element address a field address goes through.
func viaIA(p *T) (*T, []string) {
	var names []string
	for p.op == "fa" {
		names = append(names, p.s)
		p = p.args[0]
	}
	if p.op == "ia" && len(names) > 0 {
		return p, names
	}
	return nil, nil
}

// recordPut notes an assignment to a cell of memory that was not allocated by the operation.
func (e *Engine) recordPut(a *T) {
	if e.inInit || e.entry == "" {
		return
	}
	if r := rootOf(a); r.op == "obj" && !e.initObj[r] {
		return
	}
	if strings.HasPrefix(a.op, "$") || a.op == "dirty" || a.op == "count" {
		return
	}
	e.puts = append(e.puts, Write{Root: a, Pos: e.curPos(), Fn: e.curFn(), Entry: e.entry})
}

func (e *Engine) recordWrite(arr *T, how string) {
	r := rootOf(arr)
	if r.op == "obj" {
		// a loop variable: what it is before the first iteration and after one
		if ms := e.loopMem[r]; len(ms) > 0 {
			delete(e.loopMem, r)
			for _, m := range ms {
				if m.op == "slice" {
					m, _, _ = parts(m)
				}
				if m.op != "nil" && m != tEmpty {
					e.recordWrite(m, how)
				}
			}
			e.loopMem[r] = ms
		}
		return
	}
	e.writes = append(e.writes, Write{Root: arr, How: how, Pos: e.curPos(), Fn: e.curFn(), Entry: e.entry})
}

func (e *Engine) curPos() token.Pos {
	if len(e.posStk) == 0 {
		return token.NoPos
	}
	return e.posStk[len(e.posStk)-1]
}

// content is the sequence held by a backing array.
func (e *Engine) content(st *State, arr *T, typ types.Type) *T {
	if v, ok := st.heap[arr]; ok {
		return seqNorm(v)
	}
	switch arr.op {
	case "obj":
		if v, ok := e.objInit[arr]; ok {
			return v
		}
		if t := e.objType[arr]; t != nil {
			return zeroOf(t)
		}
		return tEmpty
	case "fa":
		if typ == nil {
			typ = e.addrTyp[arr]
		}
		return mkFld(e.defaultContent(arr.args[0], nil), arr.s, typ)
	case "glob":
		return app("deref", arr)
	}
	return seqNorm(arr)
}

func parts(v *T) (arr, lo, hi *T) {
	if v.op == "slice" {
		return v.args[0], v.args[1], v.args[2]
	}
	return v, mkInt(0), nil
}

// seq is the content of a slice value.
func (e *Engine) seq(st *State, v *T) *T {
	if v.op == "nil" {
		return tEmpty
	}
	arr, lo, hi := parts(v)
	c := e.content(st, arr, nil)
	if hi == nil {
		return c
	}
	return mkSubseq(c, lo, hi)
}

func (e *Engine) sliceLen(st *State, v *T) *T {
	if v.op == "nil" {
		return mkInt(0)
	}
	if v.op == "slice" {
		return mkSub(v.args[2], v.args[1])
	}
	return mkLen(v)
}

func mkSlice(arr, lo, hi *T) *T { return app("slice", arr, lo, hi) }

// newSlice allocates a slice holding c.
func (e *Engine) newSlice(st *State, c *T, typ types.Type, pos token.Pos) *T {
	o := e.newObj(st, "arr", nil, pos)
	st.set(o, c)
	s := mkSlice(o, mkInt(0), mkLen(c))
	return withVT(s, typ)
}

// overwrite replaces part [lo,hi) (relative to the slice value) by c.
func (e *Engine) overwrite(st *State, v, lo, hi, c *T, how string) {
	if v.op == "nil" {
		return
	}
	arr, off, _ := parts(v)
	old := e.content(st, arr, nil)
	e.recordWrite(arr, how)
	st.set(arr, mkCat(mkSubseq(old, mkInt(0), mkAdd(off, lo)), c, mkSubseq(old, mkAdd(off, hi), mkLen(old))))
}

func isProtoInternal(name string) bool {
	return name == "state" || name == "sizeCache" || name == "unknownFields"
}

func isGenerated(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && strings.Contains(n.Obj().Pkg().Path(), "/generated/")
}

// reify turns a value into a term that does not depend on the heap: slices become their contents,
// pointers to structs of the module become boxes of their contents.
func (e *Engine) reify(st *State, v *T, typ types.Type) *T {
	defer func(old *State) { cur = old }(cur)
	cur = st
	return e.reifyD(st, v, typ, 0)
}

func (e *Engine) reifyD(st *State, v *T, typ types.Type, d int) *T {
	if typ == nil || d > 12 {
		return v
	}
	switch u := typ.Underlying().(type) {
	case *types.Slice:
		return e.reifySeq(st, e.seq(st, v), u.Elem(), d)
	case *types.Array:
		return v
	case *types.Interface:
		if v.op == "iface" {
			return raw("iface", "", v.typ, e.reifyD(st, v.args[0], v.typ, d+1))
		}
		return v
	case *types.Struct:
		s, ok := isPlainStruct(typ)
		if !ok {
			return v
		}
		var args []*T
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			args = append(args, e.reifyD(st, mkFld(v, f.Name(), f.Type()), f.Type(), d+1))
		}
		return mkStruct(typ, args)
	case *types.Map:
		if c, ok := st.heap[v]; ok {
			return app("mapval", c)
		}
		return v
	case *types.Pointer:
		if v.op == "nil" || v.op == "join" {
			return v
		}
		el := u.Elem()
		if e.floor > 0 {
			if r := rootOf(v); r.op != "obj" || e.serial[r] <= e.floor {
				return v
			}
		}
		s, ok := isPlainStruct(el)
		if !ok {
			if c, ok := st.heap[v]; ok {
				return app("box", c)
			}
			if v.op == "obj" {
				return app("box", e.defaultContent(v, el))
			}
			if v.op == "cp" {
				return v.args[1]
			}
			return v
		}
		def := e.defaultContent(v, el)
		set := map[string]*T{}
		all := make([]*T, s.NumFields())
		gen := isGenerated(el)
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if gen && isProtoInternal(f.Name()) {
				all[i] = tUnit
				continue
			}
			x := e.reifyD(st, e.load(st, mkFa(v, f.Name()), f.Type()), f.Type(), d+1)
			all[i] = x
			if d := mkFld(def, f.Name(), f.Type()); x != d && (e.floor == 0 || x != e.cpWrap(v, d, f.Type())) {
				set[f.Name()] = x
			}
		}
		if def.op == "struct" {
			t := app("box", mkStruct(el, all))
			t.vt = typ
			return t
		}
		if len(set) == 0 {
			switch v.op {
			case "cp":
				return v.args[1]
			case "obj":
				if e.floor > 0 && e.copies[v] && def.op == "deref" {
					return withVT(mkCp(v, def.args[0]), typ)
				}
				t := app("box", def)
				t.vt = typ
				return t
			}
			return v
		}
		t := app("box", mkWith(def, set))
		t.vt = typ
		return t
	}
	return v
}

func needsReify(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Struct, *types.Interface:
		return true
	}
	return false
}

// uncopied replaces copies that nothing has changed in place by what they are copies of.
func (e *Engine) uncopied(st *State, s *T) *T {
	return substFn(s, func(t *T) *T {
		switch {
		case t.op == "cps":
			if len(e.elemRoots(st, t)) > 0 || len(e.elemRoots(st, t.args[1])) > 0 {
				return nil
			}
			return e.uncopied(st, t.args[1])
		case t.op == "cp" && t.args[1].op == "idx":
			seq := t.args[1].args[0]
			if len(e.elemRoots(st, seq)) > 0 || len(e.elemRoots(st, app("cps", t.args[0], seq))) > 0 {
				return nil
			}
			return t.args[1]
		}
		return nil
	})
}

// elemRoots are the elements of sequence s (or of its copy) that have been changed in place.
func (e *Engine) elemRoots(st *State, s *T) []*T {
	set := map[*T]bool{}
	for k := range st.heap {
		if k.op != "fa" {
			continue
		}
		r := rootOf(k)
		x := r
		for x.op == "fld" || x.op == "cp" && x.args[1].op != "idx" {
			if x.op == "cp" {
				x = x.args[1]
				continue
			}
			x = x.args[0]
			if x.op == "deref" {
				x = x.args[0]
			}
		}
		if x.op == "idx" && x.args[0] == s {
			set[x] = true
		}
		if x.op == "cp" && x.args[1].op == "idx" && app("cps", x.args[0], x.args[1].args[0]) == s {
			set[x] = true
		}
		if x.op == "cp" && x.args[1].op == "idx" && s.op == "fm" && mkIdxT(s, x.args[1].args[1], x.vt) == x {
			set[x] = true
		}
	}
	var l []*T
	for x := range set {
		l = append(l, x)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	return l
}

func (e *Engine) reifySeq(st *State, s *T, el types.Type, d int) *T {
	if !needsReify(el) {
		return s
	}
	if roots := e.elemRoots(st, s); len(roots) > 0 {
		r := roots[0]
		i := r
		if i.op == "cp" {
			i = i.args[1]
		}
		if len(roots) > 1 {
			e.note("several changed elements of one sequence")
		}
		base := s
		if s.op == "cps" {
			base = s.args[1]
		}
		if e.floor == 0 {
			base = e.uncopied(st, base)
		}
		x := e.reifyD(st, r, el, d+1)
		if e.floor > 0 && x == r {
			return s
		}
		return mkCat(mkSubseq(base, mkInt(0), i.args[1]), mkList(x), mkSubseq(base, mkAdd(i.args[1], mkInt(1)), mkLen(base)))
	}
	switch s.op {
	case "cat":
		var ps []*T
		for _, p := range s.args {
			ps = append(ps, e.reifySeq(st, p, el, d))
		}
		return mkCat(ps...)
	case "list":
		var ps []*T
		for _, p := range s.args {
			ps = append(ps, e.reifyD(st, p, el, d+1))
		}
		return mkList(ps...)
	case "sub":
		b := e.reifySeq(st, s.args[0], el, d)
		return mkSubseq(b, s.args[1], s.args[2])
	case "cps":
		if e.floor > 0 {
			return s
		}
		return s.args[1]
	case "fm", "fmc", "push": // copies of elements that nothing has changed in place
		if e.floor > 0 {
			return s
		}
		return e.uncopied(st, s)
	}
	return s
}

// ---------------------------------------------------------------- functions

func (e *Engine) inModule(fn *ssa.Function) bool {
	p := fn.Package()
	if p == nil && fn.Origin() != nil {
		p = fn.Origin().Package()
	}
	if p == nil && fn.Signature.Recv() != nil { // wrappers
		if n := namedOf(fn.Signature.Recv().Type()); n != nil && n.Obj().Pkg() != nil {
			return strings.HasPrefix(n.Obj().Pkg().Path(), e.mod)
		}
	}
	if p == nil {
		if par := fn.Parent(); par != nil {
			return e.inModule(par)
		}
	}
	return p != nil && p.Pkg != nil && strings.HasPrefix(p.Pkg.Path(), e.mod)
}

func namedOf(t types.Type) *types.Named {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := t.(*types.Named)
	return n
}

// run interprets fn on args.
func (e *Engine) run(fn *ssa.Function, args []*T, bindings []*T, st *State) []Outcome {
	if len(fn.Blocks) == 0 {
		panic(undecided{"no body: " + fn.String()})
	}
	n := 0
	for _, f := range e.stack {
		if f == fn {
			n++
		}
	}
	if n > 2 || len(e.stack) > 60 {
		panic(undecided{"recursion: " + fn.String()})
	}
	e.seen[fn]++
	e.calls++
	onSet = e.recordPut
	e.stack = append(e.stack, fn)
	defer func() {
		if e.stack = e.stack[:len(e.stack)-1]; len(e.stack) == 0 {
			cur = nil
		}
	}()
	p := &path{env: map[ssa.Value]*T{}, st: st.clone()}
	for i, par := range fn.Params {
		p.env[par] = withVT(args[i], par.Type())
	}
	for i, fv := range fn.FreeVars {
		p.env[fv] = bindings[i]
	}
	li := e.loopsOf(fn)
	fr := &frame{fn: fn, li: li}
	fr.since = e.nSerial
	r := e.region(fr, nil, []inPath{{p, nil}})
	for i := range r.rets {
		if !e.inInit {
			e.collect(r.rets[i].st, fr.since, r.rets[i].vals)
		}
	}
	return e.mergeOutcomes(fn, r.rets)
}

// collect drops the cells of objects allocated since the given serial number which can no longer be reached.
func (e *Engine) collect(st *State, since int, roots []*T) {
	young := map[*T][]*T{}
	for k := range st.heap {
		if r := rootOf(k); r.op == "obj" && e.serial[r] > since {
			young[r] = append(young[r], k)
		}
	}
	if len(young) == 0 {
		return
	}
	seen := map[*T]bool{}
	var scan func(t *T)
	scan = func(t *T) {
		if !t.obj || seen[t] {
			return
		}
		seen[t] = true
		if t.op == "obj" {
			for _, k := range young[t] {
				scan(k)
				scan(st.heap[k])
			}
			if c, ok := e.objInit[t]; ok {
				scan(c)
			}
			return
		}
		for _, a := range t.args {
			scan(a)
		}
	}
	for _, r := range roots {
		scan(r)
	}
	for _, ev := range st.events { // what was handed to a store stays visible
		if strings.HasSuffix(ev.Kind, "Store.Store") {
			for _, a := range ev.Args {
				scan(a)
			}
		}
	}
	for k, v := range st.heap {
		if r := rootOf(k); r.op != "obj" || e.serial[r] <= since {
			if k.obj {
				scan(k)
			}
			scan(v)
		}
	}
	for r, ks := range young {
		if !seen[r] {
			for _, k := range ks {
				st.del(k)
			}
		}
	}
}

func (e *Engine) mergeOutcomes(fn *ssa.Function, outs []Outcome) []Outcome {
	var res []Outcome
	if e.split && e.loopDep == 0 && (len(outs) <= 24 || angel) {
		for _, o := range outs {
			o.st = o.st.clone()
			res = append(res, o)
		}
		return res
	}
	for _, o := range outs {
		merged := false
		for i := range res {
			if n := len(o.vals); e.kinds && n > 0 && len(res) < 600 && e.errClass(o.vals[n-1]) != "" {
				break // those with an error of a certain kind are kept apart
			}
			if res[i].panic == o.panic && sameTerms(res[i].vals, o.vals) && e.sameSt(res[i].st, o.st) {
				meetFacts(res[i].st, o.st)
				e.meetCounts(res[i].st, o.st)
				merged = true
				break
			}
		}
		if !merged {
			o.st = o.st.clone()
			res = append(res, o)
		}
	}
	// failing outcomes with the same effects are joined
	sig := fn.Signature.Results()
	if sig.Len() == 0 || sig.At(sig.Len()-1).Type().String() != "error" {
		return res
	}
	var out []Outcome
	for _, o := range res {
		if o.panic {
			out = append(out, o)
			continue
		}
		err := o.vals[len(o.vals)-1]
		if err == tNil || !o.st.nonNil(err) {
			out = append(out, o)
			continue
		}
		merged := false
		for i := range out {
			if e.kinds && len(out) < 600 && e.errClass(err) != "" {
				break
			}
			q := &out[i]
			if q.panic || q.vals[len(q.vals)-1] == tNil || !q.st.nonNil(q.vals[len(q.vals)-1]) {
				continue
			}
			qe := q.vals[len(q.vals)-1]
			if e.errClass(qe) != e.errClass(err) {
				continue
			}
			evs, ok := joinEvents(q.st.events, o.st.events)
			if !ok {
				continue
			}
			q.st.events = evs
			meet(q.st, o.st, false)
			joinHeap(q.st, o.st)
			vs := make([]*T, len(q.vals))
			for j := range vs {
				if q.vals[j] == o.vals[j] {
					vs[j] = o.vals[j]
				} else if j == len(vs)-1 {
					vs[j] = mkErrJoin(q.vals[j], o.vals[j])
				} else {
					vs[j] = mkJoin(q.vals[j], o.vals[j])
				}
			}
			q.vals = vs
			merged = true
			break
		}
		if !merged {
			out = append(out, o)
		}
	}
	return out
}

// joinEvents joins the effects of two failing outcomes: the same store operations in the same order; random reads
// that only one of them made are kept.
func joinEvents(a, b []*Event) ([]*Event, bool) {
	if len(a) == len(b) {
		same := true
		for i := range a {
			if a[i] != b[i] && a[i].key != b[i].key {
				same = false
			}
		}
		if same {
			return a, true
		}
	}
	var out []*Event
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		if i < len(a) && j < len(b) && (a[i] == b[j] || a[i].key == b[j].key) {
			out = append(out, a[i])
			i, j = i+1, j+1
			continue
		}
		if i < len(a) && a[i].Kind == "rand" {
			out = append(out, a[i])
			i++
			continue
		}
		if j < len(b) && b[j].Kind == "rand" {
			out = append(out, b[j])
			j++
			continue
		}
		if i >= len(a) || j >= len(b) {
			return nil, false
		}
		x, y := a[i], b[j]
		if x.Kind != y.Kind || x.Ok != y.Ok || x.Recv != y.Recv || x.Loop != y.Loop || len(x.Flat) != len(y.Flat) || len(x.Res) != len(y.Res) {
			return nil, false
		}
		n := *x
		n.Args, n.Flat, n.Res = nil, nil, nil
		for k := range x.Flat {
			n.Flat = append(n.Flat, mkJoin(x.Flat[k], y.Flat[k]))
		}
		for k := range x.Res {
			if x.Res[k] != y.Res[k] {
				return nil, false
			}
			n.Res = append(n.Res, x.Res[k])
		}
		n.setKey()
		out = append(out, &n)
		i, j = i+1, j+1
	}
	return out, true
}

// errClass separates the exported sentinel errors from all others.
func (e *Engine) errClass(t *T) string {
	if x := anySub(t, func(x *T) bool { return x.op == "obj" && strings.HasPrefix(x.s, "errglob") }); x != nil {
		return x.s
	}
	if e.kinds && t.op == "iface" && len(t.args) == 1 && t.args[0].op == "struct" && t.args[0].typ != nil {
		return t.args[0].typ.String() // an error type of its own, as that for an untrusted identity
	}
	return ""
}

// holdsKind: an error of a certain kind is on its way.
func (e *Engine) holdsKind(fr *frame, b *ssa.BasicBlock, p *path) bool {
	for v := range fr.li.live[b] {
		if x, ok := p.env[v]; ok && v.Type().String() == "error" && x != tNil && e.errClass(x) != "" {
			return true
		}
	}
	return false
}

func mkErrJoin(a, b *T) *T {
	set := map[*T]bool{}
	for _, t := range []*T{a, b} {
		if t.op == "errjoin" {
			for _, x := range t.args {
				set[x] = true
			}
		} else {
			set[t] = true
		}
	}
	var l []*T
	for t := range set {
		l = append(l, t)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	return app("errjoin", l...)
}

func init() {
	for _, o := range []string{"errjoin", "err", "ciph", "reader", "hash", "uuidstr"} {
		nonNilOps[o] = true
	}
}

func (e *Engine) sameEv(a, b *State) bool {
	if len(a.events) != len(b.events) {
		return false
	}
	for i := range a.events {
		if a.events[i] != b.events[i] && a.events[i].key != b.events[i].key {
			return false
		}
	}
	return true
}

func (e *Engine) sameSt(a, b *State) bool {
	if !e.sameEv(a, b) {
		return false
	}
	na, nb := 0, 0
	for k, v := range a.heap {
		if k.op == "count" {
			continue
		}
		na++
		if b.heap[k] != v {
			return false
		}
	}
	for k := range b.heap {
		if k.op != "count" {
			nb++
		}
	}
	return na == nb
}

func (e *Engine) meetCounts(a, b *State) {
	for k, v := range b.heap {
		if k.op != "count" {
			continue
		}
		n, _ := v.isInt()
		m := int64(0)
		if w, ok := a.heap[k]; ok {
			m, _ = w.isInt()
		}
		if n > m {
			a.set(k, v)
		}
	}
}

func sameTerms(a, b []*T) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

type frame struct {
	since int
	fn    *ssa.Function
	li    *loopInfo
}

type inPath struct {
	p    *path
	pred *ssa.BasicBlock
}

type edgePath struct {
	p        *path
	from, to *ssa.BasicBlock
}

type regionRes struct {
	exits []edgePath
	backs []inPath
	rets  []Outcome
}

// region interprets the blocks of a loop body (or of the whole function if l is nil) from its entry, following
// no back edge to the entry.
func (e *Engine) region(fr *frame, l *loopT, entry []inPath) regionRes {
	var res regionRes
	in := map[*ssa.BasicBlock][]inPath{}
	var start *ssa.BasicBlock
	if l == nil {
		start = fr.fn.Blocks[0]
	} else {
		start = l.header
	}
	in[start] = entry
	push := func(p *path, from, to *ssa.BasicBlock) {
		if l != nil && to == l.header {
			res.backs = append(res.backs, inPath{p, from})
			return
		}
		if l != nil && !l.blocks[to] {
			res.exits = append(res.exits, edgePath{p, from, to})
			return
		}
		in[to] = append(in[to], inPath{p, from})
	}
	for _, b := range fr.li.rpo {
		if l != nil && !l.blocks[b] {
			continue
		}
		ins := in[b]
		if len(ins) == 0 {
			continue
		}
		delete(in, b)
		if h := fr.li.hdr[b]; h != nil && h != l {
			for _, q := range e.enter(fr, b, ins) {
				r := e.loopAt(fr, h, q, 0)
				res.rets = append(res.rets, r.rets...)
				for _, x := range r.exits {
					push(x.p, x.from, x.to)
				}
			}
			continue
		}
		var ps []*path
		if b == start && l != nil {
			for _, ip := range ins {
				ps = append(ps, ip.p)
			}
		} else {
			ps = e.enter(fr, b, ins)
		}
		for _, p := range ps {
			e.block(fr, b, p, push, &res)
		}
	}
	return res
}

// enter evaluates the phis of b and joins equal states.
func (e *Engine) enter(fr *frame, b *ssa.BasicBlock, ins []inPath) []*path {
	var phis []*ssa.Phi
	for _, i := range b.Instrs {
		if ph, ok := i.(*ssa.Phi); ok {
			phis = append(phis, ph)
		} else {
			break
		}
	}
	var out []*path
	for _, ip := range ins {
		p := ip.p
		if len(ins) > 1 && fr.since > 0 && !e.inInit {
			var roots []*T
			for v := range fr.li.live[b] {
				if x, ok := p.env[v]; ok {
					roots = append(roots, x)
				}
			}
			for _, ph := range phis {
				if x, ok := p.env[ph.Edges[predIdx(b, ip.pred)]]; ok {
					roots = append(roots, x)
				}
			}
			for _, d := range p.defers {
				roots = append(roots, d.args...)
				if d.fn != nil {
					roots = append(roots, d.fn)
				}
			}
			e.collect(p.st, fr.since, roots)
		}
		vals := make([]*T, len(phis))
		for j, ph := range phis {
			vals[j] = withVT(e.val(p, ph.Edges[predIdx(b, ip.pred)]), ph.Type())
		}
		for j, ph := range phis {
			p.env[ph] = vals[j]
		}
		merged := false
		if e.split && e.loopDep == 0 && fr.li.inner[b] == nil && (len(out) < 24 || angel && len(out) < 200) {
			out = append(out, p)
			continue
		}
		if e.kinds && len(out) < 60 && e.holdsKind(fr, b, p) {
			out = append(out, p)
			continue
		}
		for _, q := range out {
			if e.selPhi(fr, b, phis, q, p) {
				merged = true
				break
			}
			if fr.li.sameEnv(b, q, p) && e.sameSt(q.st, p.st) {
				meetFacts(q.st, p.st)
				e.meetCounts(q.st, p.st)
				merged = true
				break
			}
		}
		if !merged {
			out = append(out, p)
		}
	}
	return out
}

// selPhi joins two paths which differ in integer phis only, decided by one condition, into a selection.
func (e *Engine) selPhi(fr *frame, b *ssa.BasicBlock, phis []*ssa.Phi, q, p *path) bool {
	if fr.li.hdr[b] != nil {
		return false
	}
	var diff []*ssa.Phi
	for _, ph := range phis {
		if q.env[ph] != p.env[ph] {
			if !isIntType(ph.Type()) {
				return false
			}
			diff = append(diff, ph)
		}
	}
	if len(diff) == 0 {
		return false
	}
	for v := range fr.li.live[b] {
		if x, ok := p.env[v]; ok && x != q.env[v] {
			if ph, ok := v.(*ssa.Phi); !ok || ph.Block() != b {
				return false
			}
		}
	}
	if len(p.defers) != len(q.defers) || !e.sameSt(q.st, p.st) {
		return false
	}
	c := selCond(q.st, p.st)
	if c == nil {
		return false
	}
	meetFacts(q.st, p.st)
	e.meetCounts(q.st, p.st)
	for _, ph := range diff {
		q.env[ph] = withVT(app("sel", c, q.env[ph], p.env[ph]), ph.Type())
	}
	return true
}

func predIdx(b, pred *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == pred {
			return i
		}
	}
	return 0
}

func (e *Engine) block(fr *frame, b *ssa.BasicBlock, p0 *path, push func(*path, *ssa.BasicBlock, *ssa.BasicBlock), res *regionRes) {
	ps := []*path{p0}
	for _, ins := range b.Instrs {
		if _, ok := ins.(*ssa.Phi); ok {
			continue
		}
		switch x := ins.(type) {
		case *ssa.If:
			for _, p := range ps {
				c := e.val(p, x.Cond)
				cur = p.st
				if v, k := p.st.eval(c); k {
					i := 1
					if v {
						i = 0
					}
					push(p, b, b.Succs[i])
					continue
				}
				if e.strict == b {
					e.strictFail = true
					return
				}
				q := p.fork()
				if p.st.assume(c, true) {
					push(p, b, b.Succs[0])
				}
				if q.st.assume(c, false) {
					push(q, b, b.Succs[1])
				}
			}
			return
		case *ssa.Jump:
			for _, p := range ps {
				push(p, b, b.Succs[0])
			}
			return
		case *ssa.Return:
			for _, p := range ps {
				var vs []*T
				for _, r := range x.Results {
					vs = append(vs, withVT(e.val(p, r), r.Type()))
				}
				res.rets = append(res.rets, Outcome{st: p.st, vals: vs, pos: x.Pos()})
			}
			return
		case *ssa.Panic:
			for _, p := range ps {
				e.oblige(p.st, "explicit panic", tFalse, x.Pos())
				res.rets = append(res.rets, Outcome{st: p.st, panic: true, pos: x.Pos()})
			}
			return
		}
		var nps []*path
		for _, p := range ps {
			for _, q := range e.step(fr, p, ins) {
				if q.st.consistent() {
					nps = append(nps, q)
				}
			}
		}
		ps = nps
		if len(ps) > 3000 {
			panic(undecided{"too many partitions in " + fr.fn.String()})
		}
	}
}

// oblige records a panic condition and assumes it does not happen.
func (e *Engine) oblige(st *State, kind string, cond *T, pos token.Pos) bool {
	v, k := st.eval(cond)
	o := &Obl{Kind: kind, Pos: pos, Fn: e.curFn(), Proved: k && v, Cond: cond, Entry: e.entry}
	e.obls = append(e.obls, o)
	if k && !v {
		o.St = st.clone()
	}
	if !st.assume(cond, true) {
		st.setFact(tFalse, true)
		return false
	}
	return true
}

// val evaluates an operand.
func (e *Engine) val(p *path, v ssa.Value) *T {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constTerm(x)
	case *ssa.Global:
		g := raw("glob", x.RelString(nil), nil)
		e.addrTyp[g] = x.Type().(*types.Pointer).Elem()
		return g
	case *ssa.Function:
		return e.fnTerm(x)
	case *ssa.Builtin:
		return mkSym("builtin:" + x.Name())
	}
	t, ok := p.env[v]
	if !ok {
		panic(undecided{fmt.Sprintf("no value for %s in %s", v.Name(), e.curFn())})
	}
	return t
}

func (e *Engine) fnTerm(f *ssa.Function) *T {
	t := raw("fn", f.RelString(nil), nil)
	e.fnByT[t] = f
	return t
}

func (e *Engine) constTerm(c *ssa.Const) *T {
	if c.Value == nil {
		return zeroOf(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return mkBool(constant.BoolVal(c.Value))
	case constant.String:
		return mkStr(constant.StringVal(c.Value))
	case constant.Int:
		if n, ok := constant.Int64Val(c.Value); ok {
			return mkInt(n)
		}
		return raw("bigint", c.Value.ExactString(), nil)
	}
	return raw("const", c.Value.ExactString(), nil)
}
