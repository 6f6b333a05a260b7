package main

// Loops: complete unrolling when every header test is decided, otherwise one abstract iteration whose
// variables are closed forms of the iteration number N.

import (
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var debugLoop = os.Getenv("DLOOP") != ""

type leaf struct {
	phi   *ssa.Phi
	path  []string
	key   *T
	typ   types.Type
	initV *T // value at entry
	init  *T // its heap-independent form
	lv    *T
	vari  bool
	val   *T // header value as a function of N (nil: unknown)
	lag   *T // the next value, if it does not depend on the variable itself
	latch bool
	nextV []*T // slices: the values at the back edges
}

type mark struct{ sinks, writes, obls, cmps, works, exts, puts int }

func (e *Engine) mark() mark {
	return mark{len(e.sinks), len(e.writes), len(e.obls), len(e.cmps), len(e.works), len(e.exts), len(e.puts)}
}
func (e *Engine) reset(m mark) {
	e.sinks, e.writes, e.obls, e.cmps = e.sinks[:m.sinks], e.writes[:m.writes], e.obls[:m.obls], e.cmps[:m.cmps]
	e.works, e.exts, e.puts = e.works[:m.works], e.exts[:m.exts], e.puts[:m.puts]
}

// Work is a loop that runs another iteration: N is the number of iterations finished before this one.
type Work struct {
	N     *T
	St    *State
	Pos   token.Pos
	Fn    string
	Entry string
	Limit *T
}

func phisOf(b *ssa.BasicBlock) []*ssa.Phi {
	var phis []*ssa.Phi
	for _, i := range b.Instrs {
		ph, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
	}
	return phis
}

// loopAt interprets a loop from a path standing at its header (phis evaluated).
func (e *Engine) loopAt(fr *frame, l *loopT, p *path, depth int) regionRes {
	if depth > 12 {
		panic(undecided{"loop splitting too deep in " + fr.fn.String()})
	}
	if r, ok := e.clearing(fr, l, p); ok {
		return r
	}
	m := e.mark()
	if r, ok := e.unroll(fr, l, p.fork()); ok {
		return r
	}
	e.reset(m)
	return e.abstract(fr, l, p, depth)
}

// clearing recognises a loop over a map which does nothing but delete the key it stands at: it empties the map.
func (e *Engine) clearing(fr *frame, l *loopT, p *path) (regionRes, bool) {
	h := l.header
	br, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok || len(l.blocks) != 2 || !l.blocks[h.Succs[0]] || l.blocks[h.Succs[1]] {
		return regionRes{}, false
	}
	var next *ssa.Next
	for _, in := range h.Instrs[:len(h.Instrs)-1] {
		switch x := in.(type) {
		case *ssa.Next:
			next = x
		case *ssa.Extract, *ssa.DebugRef:
		default:
			return regionRes{}, false
		}
	}
	if next == nil || next.IsString {
		return regionRes{}, false
	}
	if x, ok := br.Cond.(*ssa.Extract); !ok || x.Tuple != next || x.Index != 0 {
		return regionRes{}, false
	}
	rng, ok := next.Iter.(*ssa.Range)
	if !ok {
		return regionRes{}, false
	}
	mp, known := p.env[rng.X]
	if !known {
		return regionRes{}, false
	}
	if pos := p.st.heap[mkFa(e.val(p, rng), "$pos")]; pos != mkInt(0) {
		return regionRes{}, false
	}
	q := p.fork()
	deleted := false
	for _, in := range h.Succs[0].Instrs {
		switch x := in.(type) {
		case *ssa.Extract:
			if x.Tuple != next || x.Index != 1 {
				return regionRes{}, false
			}
		case *ssa.FieldAddr, *ssa.UnOp:
			if qs := e.step(fr, q, in); len(qs) != 1 {
				return regionRes{}, false
			} else {
				q = qs[0]
			}
		case *ssa.Call:
			b, ok := x.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "delete" {
				return regionRes{}, false
			}
			k, ok := x.Call.Args[1].(*ssa.Extract)
			if !ok || k.Tuple != next || k.Index != 1 || e.val(q, x.Call.Args[0]) != mp {
				return regionRes{}, false
			}
			deleted = true
		case *ssa.Jump, *ssa.DebugRef:
		default:
			return regionRes{}, false
		}
	}
	if !deleted {
		return regionRes{}, false
	}
	p = p.fork()
	for _, in := range h.Instrs[:len(h.Instrs)-1] {
		if qs := e.step(fr, p, in); len(qs) == 1 {
			p = qs[0]
		}
	}
	p.env[br.Cond] = tFalse
	p.st.set(mp, app("emptymap"))
	return regionRes{exits: []edgePath{{p, h, h.Succs[1]}}}, true
}

// toHeader turns back-edge paths into header paths.
func (e *Engine) toHeader(fr *frame, l *loopT, backs []inPath) []*path {
	var out []*path
	phis := phisOf(l.header)
	for _, b := range backs {
		vs := make([]*T, len(phis))
		for i, ph := range phis {
			vs[i] = withVT(e.val(b.p, ph.Edges[predIdx(l.header, b.pred)]), ph.Type())
		}
		for i, ph := range phis {
			b.p.env[ph] = vs[i]
		}
		merged := false
		for _, q := range out {
			if fr.li.sameEnv(l.header, q, b.p) && e.sameSt(q.st, b.p.st) {
				meetFacts(q.st, b.p.st)
				e.meetCounts(q.st, b.p.st)
				merged = true
				break
			}
		}
		if !merged {
			out = append(out, b.p)
		}
	}
	return out
}

func (e *Engine) unroll(fr *frame, l *loopT, p *path) (regionRes, bool) {
	if _, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If); !ok {
		return regionRes{}, false
	}
	if e.noUnroll[l.header] {
		return regionRes{}, false
	}
	var res regionRes
	cur := []*path{p}
	saveH, saveF := e.strict, e.strictFail
	defer func() { e.strict, e.strictFail = saveH, saveF }()
	steps0, serial0 := e.steps, e.nSerial
	for it := 0; it < 70; it++ {
		if len(cur) == 0 {
			return res, true
		}
		if e.steps-steps0 > 3000 || it >= 10 && e.nSerial-serial0 >= it {
			// long, or building many objects one by one
			e.noUnroll[l.header] = true
			return regionRes{}, false
		}
		var backs []inPath
		for _, q := range cur {
			e.strict, e.strictFail = l.header, false
			r := e.region(fr, l, []inPath{{q, nil}})
			if e.strictFail {
				return regionRes{}, false
			}
			res.exits = append(res.exits, r.exits...)
			res.rets = append(res.rets, r.rets...)
			backs = append(backs, r.backs...)
		}
		cur = e.toHeader(fr, l, backs)
		if len(cur) > 100 {
			return regionRes{}, false
		}
	}
	return regionRes{}, false
}

func (e *Engine) leafVals(v *T, t types.Type, path []string, f func(path []string, v *T, t types.Type)) {
	if s, ok := isPlainStruct(t); ok && s.NumFields() > 0 {
		for i := 0; i < s.NumFields(); i++ {
			fl := s.Field(i)
			e.leafVals(mkFld(v, fl.Name(), fl.Type()), fl.Type(), append(append([]string{}, path...), fl.Name()), f)
		}
		return
	}
	f(path, v, t)
}

func isSlice(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

// flat is the heap-independent form of a value at a back edge: only objects younger than floor are unfolded.
func (e *Engine) flat(st *State, v *T, t types.Type, floor int) *T {
	if v == nil {
		return nil
	}
	save := e.floor
	e.floor = floor
	defer func() { e.floor = save }()
	if t == nil {
		return v
	}
	if isSlice(t) {
		return e.reifySeq(st, e.seq(st, v), elemType(t), 0)
	}
	return e.reifyD(st, v, t, 0)
}

// flatCell is flat for the content of a cell: arrays are known by the type of what was stored in them.
func (e *Engine) flatCell(st *State, k, v *T, t types.Type, floor int) *T {
	el := e.arrElem[k]
	if t != nil || el == nil || v == nil {
		return e.flat(st, v, t, floor)
	}
	save := e.floor
	e.floor = floor
	defer func() { e.floor = save }()
	return e.reifySeq(st, v, el, 0)
}

type absLoop struct {
	closeLvl int // the level of the variables in the last closed term
	e        *Engine
	fr       *frame
	l        *loopT
	entry    *path
	depth    int // number of enclosing abstract loops + 1
	N        *T
	floor    int
	leaves   []*leaf
	byKey    map[*T]*leaf
	byPhi    map[*ssa.Phi][]*leaf
	bounds   []*T
	limit    *T
	needs    *T // what would have to hold at the entry for a closed form
	nEv      int
}

func (e *Engine) abstract(fr *frame, l *loopT, p *path, depth int) regionRes {
	e.loopDep++
	e.loopNs = append(e.loopNs, raw("N", strconv.Itoa(e.loopDep), nil))
	defer func() { e.loopDep--; e.loopNs = e.loopNs[:len(e.loopNs)-1] }()
	a := &absLoop{e: e, fr: fr, l: l, entry: p, depth: e.loopDep, N: e.loopNs[len(e.loopNs)-1], floor: e.nSerial,
		byKey: map[*T]*leaf{}, byPhi: map[*ssa.Phi][]*leaf{}, nEv: len(p.st.events)}
	a.N.vt = types.Typ[types.Int]
	for _, ph := range phisOf(l.header) {
		ph := ph
		e.leafVals(p.env[ph], ph.Type(), nil, func(path []string, v *T, t types.Type) {
			lf := &leaf{phi: ph, path: path, typ: t, initV: v, init: e.flat(p.st, v, t, a.floor)}
			a.addLeaf(lf)
		})
	}
	m := e.mark()
	var r regionRes
	for round := 0; ; round++ {
		if round > 12 {
			panic(undecided{"loop variables do not stabilise in " + fr.fn.String()})
		}
		e.reset(m)
		r = a.run(false)
		if !a.discover(r.backs) {
			break
		}
	}
	e.reset(m)
	a.solve(r.backs)
	// split at the boundaries of concatenated sequences indexed by N
	if a.limit == nil {
		if c := a.splitPoint(r); c != nil {
			if res, ok := a.split(c, depth); ok {
				return res
			}
		}
	}
	if a.needs != nil && a.limit == nil && depth < 8 {
		if v, kn := a.entry.st.eval(a.needs); kn && !v {
			res, _ := a.split(&splitAt{list: 1}, depth)
			return res
		} else if !kn {
			return a.fork(a.needs, depth)
		}
	}
	g := e.nGeneral
	m = e.mark()
	res := a.finish(nil)
	if e.nGeneral == g || e.peels >= 2 || a.limit != nil {
		return res
	}
	// the first iteration may be a special one
	e.reset(m)
	e.nGeneral = g
	e.peels++
	peeled, _ := a.split(&splitAt{list: 1}, depth)
	e.peels--
	if e.nGeneral == g {
		return peeled
	}
	e.reset(m)
	return a.finish(nil)
}

// lagging: resolved where the loop is left.
func (lf *leaf) lagging() bool { return lf.lag != nil }

func (a *absLoop) addLeaf(lf *leaf) {
	n := len(a.leaves)
	lf.lv = raw("lv", strconv.Itoa(a.depth)+"."+strconv.Itoa(n)+"/"+typeKey(lf.typ), nil)
	lf.lv.vt = lf.typ
	if isSlice(lf.typ) {
		lf.lv.vt = nil
	}
	a.leaves = append(a.leaves, lf)
	if lf.phi != nil {
		a.byPhi[lf.phi] = append(a.byPhi[lf.phi], lf)
	} else {
		a.byKey[lf.key] = lf
	}
}

// header builds the state at the head of iteration N. If solved, closed forms are used where known.
func (a *absLoop) header(solved bool) *path {
	e := a.e
	p := a.entry.fork()
	if solved {
		for _, b := range a.bounds {
			p.st.assume(b, true)
		}
		if a.limit != nil {
			p.st.assume(mkLt(a.N, a.limit), true)
		}
	}
	cur = p.st
	place := func(lf *leaf, n int) *T {
		if !lf.vari {
			return lf.initV
		}
		v := lf.lv
		if solved && lf.val != nil && !lf.lagging() {
			v = lf.val
		}
		if isSlice(lf.typ) {
			o := e.newObj(p.st, "loop"+strconv.Itoa(a.depth)+"."+strconv.Itoa(n), nil, a.l.header.Instrs[len(a.l.header.Instrs)-1].Pos())
			p.st.set(o, v)
			delete(e.loopMem, o)
			if solved {
				e.loopMem[o] = append([]*T{lf.initV}, lf.nextV...)
			}
			if v == lf.lv && solved && lf.val != nil {
				p.st.assume(mkEq0(mkSub(mkLen(v), mkLen(lf.val))), true)
			}
			return withVT(mkSlice(o, mkInt(0), mkLen(v)), lf.typ)
		}
		return v
	}
	for i, lf := range a.leaves {
		if lf.phi == nil && lf.vari {
			p.st.set(lf.key, place(lf, i))
		}
	}
	idx := map[*leaf]int{}
	for i, lf := range a.leaves {
		idx[lf] = i
	}
	for _, ph := range phisOf(a.l.header) {
		lfs := a.byPhi[ph]
		anyVar := false
		for _, lf := range lfs {
			if lf.vari {
				anyVar = true
			}
		}
		if !anyVar {
			continue
		}
		vals := map[string]*T{}
		for _, lf := range lfs {
			vals[strings.Join(lf.path, ".")] = place(lf, idx[lf])
		}
		p.env[ph] = withVT(buildStruct(ph.Type(), nil, vals), ph.Type())
	}
	return p
}

func buildStruct(t types.Type, path []string, vals map[string]*T) *T {
	if v, ok := vals[strings.Join(path, ".")]; ok {
		return v
	}
	s, ok := isPlainStruct(t)
	if !ok {
		return tUnit
	}
	var args []*T
	for i := 0; i < s.NumFields(); i++ {
		args = append(args, buildStruct(s.Field(i).Type(), append(append([]string{}, path...), s.Field(i).Name()), vals))
	}
	return mkStruct(t, args)
}

func (a *absLoop) run(solved bool) regionRes {
	saveH, saveF := a.e.strict, a.e.strictFail
	a.e.strict = nil
	defer func() { a.e.strict, a.e.strictFail = saveH, saveF }()
	return a.tails(a.e.region(a.fr, a.l, []inPath{{a.header(solved), nil}}))
}

// tails: an iteration after which the loop is always left belongs to the way out.
func (a *absLoop) tails(r regionRes) regionRes {
	if len(r.backs) < 2 {
		return r
	}
	e := a.e
	var backs []inPath
	whole := r
	for _, b := range r.backs {
		flag := false
		for _, ph := range phisOf(a.l.header) {
			if isSlice(ph.Type()) {
				continue
			}
			if v := e.val(b.p, ph.Edges[predIdx(a.l.header, b.pred)]); v != b.p.env[ph] {
				for _, o := range r.backs {
					flag = flag || e.val(o.p, ph.Edges[predIdx(a.l.header, o.pred)]) != v
				}
			}
		}
		if flag {
			m := e.mark()
			q := e.toHeader(a.fr, a.l, []inPath{{b.p.fork(), b.pred}})
			if r2 := e.region(a.fr, a.l, []inPath{{q[0], nil}}); len(r2.backs) == 0 {
				r.exits = append(r.exits[:len(r.exits):len(r.exits)], r2.exits...)
				r.rets = append(r.rets[:len(r.rets):len(r.rets)], r2.rets...)
				continue
			}
			e.reset(m)
		}
		backs = append(backs, b)
	}
	if len(backs) == 0 {
		return whole
	}
	r.backs = backs
	return r
}

// nextOf is the value of a leaf at the end of an iteration.
func (a *absLoop) nextOf(lf *leaf, b inPath) *T {
	e := a.e
	cur = b.p.st
	if lf.phi != nil {
		v := e.val(b.p, lf.phi.Edges[predIdx(a.l.header, b.pred)])
		var t types.Type = lf.phi.Type()
		for _, f := range lf.path {
			s := t.Underlying().(*types.Struct)
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == f {
					t = s.Field(i).Type()
				}
			}
			v = mkFld(v, f, t)
		}
		if !lf.vari && v == lf.initV {
			return lf.init
		}
		return e.flat(b.p.st, v, lf.typ, a.floor)
	}
	v, ok := b.p.st.heap[lf.key]
	if !ok {
		return lf.init
	}
	if !lf.vari && v == lf.initV {
		return lf.init
	}
	return e.flatCell(b.p.st, lf.key, v, lf.typ, a.floor)
}

// discover marks the variables changed by an iteration; it reports whether there are new ones.
func (a *absLoop) discover(backs []inPath) bool {
	e := a.e
	grew := false
	for _, b := range backs {
		// changed cells
		for k := range b.p.st.heap {
			if k.op == "count" || a.byKey[k] != nil {
				continue
			}
			v := b.p.st.heap[k]
			if w, ok := a.entry.st.heap[k]; ok && w == v {
				continue
			}
			r := rootOf(k)
			if r.op == "obj" && e.serial[r] > a.floor {
				continue
			}
			if k.open && a.mentions(k) {
				continue // family of cells, see dirty
			}
			if k.op == "dirty" {
				continue
			}
			t := e.addrTyp[k]
			var init *T
			initV, ok := a.entry.st.heap[k]
			if !ok {
				switch {
				case k.op != "fa" && k.op != "glob" && k.op != "ia" && t == nil:
					initV = e.content(a.entry.st, k, nil)
				case t != nil:
					initV = e.load(a.entry.st, k, t)
				default:
					initV = tUnit
				}
			}
			init = e.flatCell(a.entry.st, k, initV, t, a.floor)
			lf := &leaf{key: k, typ: t, initV: initV, init: init}
			a.addLeaf(lf)
			grew = true
		}
	}
	for _, lf := range a.leaves {
		if lf.vari {
			continue
		}
		for _, b := range backs {
			if a.nextOf(lf, b) != lf.init {
				if debugLoop {
					println("VARI", a.fr.fn.Name(), lf.init.str(6), "->", a.nextOf(lf, b).str(6))
				}
				lf.vari = true
				grew = true
				break
			}
		}
	}
	return grew
}

func sortedFacts(st *State) []*T {
	var ks []*T
	for f := range st.facts {
		ks = append(ks, f)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	return ks
}

func (a *absLoop) mentions(t *T) bool {
	d := strconv.Itoa(a.depth)
	return anySub(t, func(x *T) bool {
		return x == a.N || x.op == "lv" && strings.HasPrefix(x.s, d+".")
	}) != nil
}

func (a *absLoop) lvs(t *T) map[*T]bool {
	m := map[*T]bool{}
	if !t.open {
		return m
	}
	d := strconv.Itoa(a.depth) + "."
	anySub(t, func(x *T) bool {
		if x.op == "lv" && strings.HasPrefix(x.s, d) {
			m[x] = true
		}
		return false
	})
	return m
}

func closeN(body, n *T) (*T, int) {
	lvl := body.lvl + 1
	return subst(body, map[*T]*T{n: raw("bN", strconv.Itoa(lvl), nil)}), lvl
}

// mkRec is the value after n steps of x -> body(k, x), starting with init.
func mkRec(n, init, body, N, lv *T) *T {
	lvl := body.lvl + 1
	b := subst(body, map[*T]*T{N: raw("bN", strconv.Itoa(lvl), nil), lv: raw("bl", strconv.Itoa(lvl), nil)})
	// the whole of a value which keeps its length
	if k, ok := mkLen(init).isInt(); ok && isSeqTerm(b) {
		if k2, ok := mkLen(b).isInt(); ok && k == k2 {
			whole := raw("bl", strconv.Itoa(lvl), nil)
			b = substFn(b, func(t *T) *T {
				if t.op == "sub" && t.args[0] == whole && t.args[1] == mkInt(0) && t.args[2] == mkInt(k) {
					return whole
				}
				return nil
			})
		}
	}
	return instRec(raw("rec", strconv.Itoa(lvl), nil, n, init, b))
}

// firstStep is a recurrence with its first step taken.
func firstStep(t *T) *T {
	init := substFn(t.args[2], func(x *T) *T {
		switch {
		case x.op == "bN" && x.s == t.s:
			return mkInt(0)
		case x.op == "bl" && x.s == t.s:
			return t.args[1]
		}
		return nil
	})
	body := substFn(t.args[2], func(x *T) *T {
		if x.op == "bN" && x.s == t.s {
			return mkAdd(x, mkInt(1))
		}
		return nil
	})
	return raw("rec", t.s, nil, mkSub(t.args[0], mkInt(1)), init, body)
}

// instRec unfolds recurrences with a known small number of steps.
func instRec(t *T) *T {
	n, ok := t.args[0].isInt()
	if !ok {
		return recFrom(t)
	}
	if n > 8 || n < 0 {
		return t
	}
	v := t.args[1]
	for k := int64(0); k < n; k++ {
		v = substFn(t.args[2], func(x *T) *T {
			if x.op == "bN" && x.s == t.s {
				return mkInt(k)
			}
			if x.op == "bl" && x.s == t.s {
				return v
			}
			return nil
		})
	}
	return v
}

// recFrom: n steps from f(x) are n+1 steps from x.
func recFrom(t *T) *T {
	n, init, body := t.args[0], t.args[1], t.args[2]
	if init.op != body.op || init.s != body.s || len(init.args) != len(body.args) {
		return t
	}
	at := -1
	for i, x := range body.args {
		switch {
		case x.op == "bl" && x.s == t.s && at < 0:
			at = i
		case x != init.args[i] || hasBN(x):
			return t
		}
	}
	if at < 0 {
		return t
	}
	return recFrom(raw("rec", t.s, nil, mkAdd(n, mkInt(1)), init.args[at], body))
}

func (a *absLoop) solved() map[*T]*T {
	m := map[*T]*T{}
	for _, lf := range a.leaves {
		if lf.vari && lf.val != nil {
			m[lf.lv] = lf.val
		}
	}
	return m
}

func distinct(ts []*T) []*T {
	var out []*T
	seen := map[*T]bool{}
	for _, t := range ts {
		if !seen[t] {
			seen[t] = true
			out = append(out, t)
		}
	}
	return out
}

// guards are the conditions under which a path was taken, as far as they are new since the header.
func (a *absLoop) guards(st *State, m map[*T]*T) []*T {
	var gs []*T
	for _, f := range sortedFacts(st) {
		v := st.facts[f]
		if w, ok := a.entry.st.facts[f]; ok && w == v {
			continue
		}
		if f.op == "all" {
			continue
		}
		g := f
		if !v {
			g = mkNot(f)
		}
		g = subst(g, m)
		if g == tTrue {
			continue
		}
		gs = append(gs, g)
	}
	return distinct(gs)
}

// solve finds closed forms for the loop variables.
func (a *absLoop) solve(backs []inPath) {
	e := a.e
	cur = nil
	next := map[*leaf][]*T{}
	for _, lf := range a.leaves {
		if !lf.vari {
			continue
		}
		lf.nextV = nil
		for _, b := range backs {
			next[lf] = append(next[lf], a.nextOf(lf, b))
			if lf.phi != nil && isSlice(lf.typ) && len(lf.path) == 0 {
				lf.nextV = append(lf.nextV, e.val(b.p, lf.phi.Edges[predIdx(a.l.header, b.pred)]))
			}
		}
	}
	cur = nil
	for progress := true; progress; {
		progress = false
		m := a.solved()
		for _, lf := range a.leaves {
			if !lf.vari || lf.val != nil {
				continue
			}
			if v := a.classify(lf, next[lf], backs, m); v != nil {
				lf.val = v
				progress = true
				m = a.solved()
			}
		}
		if progress && len(backs) > 1 {
			// ways round that no iteration takes
			for i := 0; i < len(backs); i++ {
				if len(backs) == 1 || !a.never(backs[i], m) {
					continue
				}
				backs = append(append([]inPath{}, backs[:i]...), backs[i+1:]...)
				for lf, ns := range next {
					next[lf] = append(append([]*T{}, ns[:i]...), ns[i+1:]...)
				}
				i--
			}
		}
	}
	// bounds: a linear condition of every back edge held one iteration ago
	m := a.solved()
	if len(backs) > 0 {
		cand := map[*T]int{}
		for _, b := range backs {
			for _, g := range distinct(a.guards(b.p.st, m)) {
				if len(a.lvs(g)) > 0 || !contains(g, a.N) {
					continue
				}
				if g.op == "le0" || g.op == "not" && g.args[0].op == "eq0" {
					cand[g]++
				}
			}
		}
		var gs []*T
		for g, n := range cand {
			if n == len(backs) {
				gs = append(gs, g)
			}
		}
		sort.Slice(gs, func(i, j int) bool { return gs[i].id < gs[j].id })
		for _, g := range gs {
			if g.op == "not" { // the number is never k, and k is not negative
				x := g.args[0].args[0]
				k := mkAdd(x, a.N)
				if contains(k, a.N) {
					k = mkSub(a.N, x)
				}
				if !contains(k, a.N) && a.entry.st.holds(mkLe(mkInt(0), k)) {
					a.bounds = append(a.bounds, mkLe(a.N, k))
				}
				continue
			}
			at := subst(g, map[*T]*T{a.N: mkInt(-1)})
			if a.entry.st.holds(at) {
				b := subst(g, map[*T]*T{a.N: mkSub(a.N, mkInt(1))})
				if b != tTrue {
					a.bounds = append(a.bounds, b)
				}
			}
		}
	}
	if a.limit != nil {
		if a.entry.st.holds(mkLe(mkInt(0), a.limit)) {
			a.bounds = append(a.bounds, mkLe(a.N, a.limit))
		}
	}
}

// never: the conditions of a back edge contradict the values the solved variables have in every iteration.
func (a *absLoop) never(b inPath, m map[*T]*T) bool {
	q := a.entry.st.clone()
	if !q.assume(mkLe(mkInt(0), a.N), true) {
		return false
	}
	for _, g := range a.guards(b.p.st, m) {
		if len(a.lvs(g)) == 0 && !q.assume(g, true) {
			return true
		}
	}
	return false
}

func (a *absLoop) classify(lf *leaf, next []*T, backs []inPath, m map[*T]*T) *T {
	ns := make([]*T, len(next))
	for i, n := range next {
		ns[i] = subst(n, m)
		for x := range a.lvs(ns[i]) {
			if x != lf.lv {
				return nil
			}
		}
	}
	ds := distinct(ns)
	if len(ds) == 0 {
		return nil
	}
	lv := lf.lv
	if len(ds) == 1 {
		n := ds[0]
		if n == lv || !contains(n, lv) && !contains(n, a.N) && n == lf.init {
			return lf.init
		}
		if isIntType(lf.typ) || n.op == "lin" {
			if c, ok := mkSub(n, lv).isInt(); ok {
				return mkAdd(lf.init, mkScale(a.N, c))
			}
		}
		if n.op == "cat" && n.args[0] == lv {
			rest := mkCat(n.args[1:]...)
			if !contains(rest, lv) {
				return mkCat(lf.init, mkFm(a.N, rest, a.N))
			}
		}
		// without its first elements
		if n.op == "sub" && n.args[0] == lv && n.args[2] == mkLen(lv) {
			if c, ok := n.args[1].isInt(); ok && c > 0 {
				return mkSubseq(lf.init, mkScale(a.N, c), mkLen(lf.init))
			}
		}
		if v := a.inPlace(lf, n); v != nil {
			return v
		}
		if v := a.collected(lf, ns[:1], backs, m); v != nil && len(backs) == 1 {
			return v
		}
		if !contains(n, lv) {
			lf.lag = n // what another variable was one iteration ago
		}
		return mkRec(a.N, lf.init, n, a.N, lv)
	}
	// conditional append
	var t *T
	ok := true
	for _, n := range ds {
		if n == lv {
			continue
		}
		if n.op == "cat" && n.args[0] == lv {
			rest := mkCat(n.args[1:]...)
			if !contains(rest, lv) && t == nil {
				t = rest
				continue
			}
		}
		ok = false
	}
	if ok && t != nil {
		return a.condAppend(lf, ns, t, backs, m)
	}
	if v := a.sliding(lf, ns, backs, m); v != nil {
		return v
	}
	return a.collected(lf, ns, backs, m)
}

// collected recognises a number that becomes 1 (or 0) once some condition holds (does not hold).
func (a *absLoop) collected(lf *leaf, ns []*T, backs []inPath, m map[*T]*T) *T {
	init, ok := lf.init.isInt()
	if !ok || init != 0 && init != 1 || !isIntType(lf.typ) {
		return nil
	}
	op := "bor"
	if init == 1 {
		op = "band"
	}
	count := map[*T]int{}
	var per [][]*T
	for _, b := range backs {
		gs := a.guards(b.p.st, m)
		per = append(per, gs)
		for _, g := range gs {
			count[g]++
		}
	}
	var conds []*T
	gathers := false
	for i, n := range ns {
		if n == lf.lv {
			continue
		}
		var c []*T
		switch {
		case n == mkInt(1-init):
		case n.op == op && len(n.args) == 2 && (n.args[0] == lf.lv || n.args[1] == lf.lv):
			gathers = true
			x := n.args[0]
			if x == lf.lv {
				x = n.args[1]
			}
			if x.op != "b2i" || len(a.lvs(x)) > 0 {
				return nil
			}
			x = x.args[0]
			if init == 1 {
				x = mkNot(x)
			}
			c = append(c, x)
		default:
			return nil
		}
		for _, g := range per[i] {
			if count[g] < len(backs) {
				if len(a.lvs(g)) > 0 {
					return nil
				}
				c = append(c, g)
			}
		}
		conds = append(conds, mkAnd(c...))
	}
	if len(conds) == 0 || !gathers {
		return nil
	}
	never := mkAll(a.N, mkNot(mkOr(conds...)), a.N)
	if init == 0 {
		never = mkNot(never)
	}
	return withVT(mkB2i(never), lf.typ)
}

// inPlace: next is lv with the element at N+c replaced by something that depends on later elements only.
func (a *absLoop) inPlace(lf *leaf, n *T) *T {
	lv := lf.lv
	if n.op != "cat" || len(n.args) < 2 {
		return nil
	}
	var i *T
	var x *T
	switch {
	case len(n.args) == 3 && n.args[0].op == "sub" && n.args[0].args[0] == lv && n.args[0].args[1] == mkInt(0) && n.args[2].op == "sub" && n.args[2].args[0] == lv:
		i, x = n.args[0].args[2], n.args[1]
		if n.args[2].args[1] != mkAdd(i, mkLen(x)) || n.args[2].args[2] != mkLen(lv) {
			return nil
		}
	default:
		return nil
	}
	if ln, ok := mkLen(x).isInt(); !ok || ln != 1 {
		return nil
	}
	c := mkSub(i, a.N)
	if a.mentions(c) || contains(c, a.N) {
		return nil
	}
	if k, ok := c.isInt(); ok && k < 0 {
		return nil
	}
	if contains(x, lv) {
		m := map[*T]*T{mkLen(lv): mkLen(lf.init)}
		bad := false
		anySub(x, func(t *T) bool {
			if t.op == "idx" && t.args[0] == lv {
				if d, ok := mkSub(t.args[1], i).isInt(); ok && d >= 0 {
					m[t] = mkIdxT(lf.init, t.args[1], t.vt)
				} else {
					bad = true
				}
			}
			return bad
		})
		if bad {
			return nil
		}
		if x = subst(x, m); contains(x, lv) {
			return nil
		}
	}
	return mkCat(subB(lf.init, mkInt(0), c), mkFm(a.N, x, a.N), subB(lf.init, mkAdd(c, a.N), mkLen(lf.init)))
}

// condAppend: next is either lv or cat(lv, t).
func (a *absLoop) condAppend(lf *leaf, ns []*T, t *T, backs []inPath, m map[*T]*T) *T {
	count := map[*T]int{}
	var per [][]*T
	for _, b := range backs {
		gs := a.guards(b.p.st, m)
		per = append(per, gs)
		for _, g := range gs {
			count[g]++
		}
	}
	var conds []*T
	for i := range backs {
		if ns[i] == lf.lv {
			continue
		}
		var c []*T
		for _, g := range per[i] {
			if count[g] < len(backs) {
				if len(a.lvs(g)) > 0 {
					return nil
				}
				c = append(c, g)
			}
		}
		conds = append(conds, mkAnd(c...))
	}
	cond := mkOr(conds...)
	pair := app("pair", cond, t)
	b, lvl := closeN(pair, a.N)
	return mkCat(lf.init, raw("fmc", strconv.Itoa(lvl), nil, a.N, b.args[0], b.args[1]))
}

func mkOr(cs ...*T) *T {
	cs = distinct(cs)
	for _, c := range cs {
		if c == tTrue {
			return tTrue
		}
	}
	if len(cs) == 1 {
		return cs[0]
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].id < cs[j].id })
	// a or not a
	for _, c := range cs {
		for _, d := range cs {
			if mkNot(c) == d {
				return tTrue
			}
		}
	}
	return app("or", cs...)
}

// sliding recognises a bounded list: append, and drop the first element when there are more than C.
func (a *absLoop) sliding(lf *leaf, ns []*T, backs []inPath, m map[*T]*T) *T {
	var t, c *T
	for i, n := range ns {
		if n.op != "cat" || len(n.args) < 2 {
			return nil
		}
		rest := mkCat(n.args[1:]...)
		if contains(rest, lf.lv) || rest.op != "list" || len(rest.args) != 1 {
			return nil
		}
		if t == nil {
			t = rest
		}
		if t != rest {
			return nil
		}
		ln := mkLen(lf.lv)
		var bound *T
		switch n.args[0] {
		case lf.lv: // len(lv) < C
			for _, g := range a.guards(backs[i].p.st, m) {
				if g.op == "le0" && len(a.lvs(g)) == 1 {
					if x := mkSub(g.args[0], ln); !contains(x, lf.lv) { // len + x <= 0
						bound = mkAdd(mkScale(x, -1), mkInt(1))
					}
				}
			}
		case mkSubseq(lf.lv, mkInt(1), ln): // len(lv) >= C
			for _, g := range a.guards(backs[i].p.st, m) {
				if g.op == "le0" && len(a.lvs(g)) == 1 {
					if x := mkAdd(g.args[0], ln); !contains(x, lf.lv) { // x - len <= 0
						if k, ok := x.isInt(); ok && k <= 1 {
							continue
						}
						bound = x
					}
				}
			}
		default:
			// the last C-1: the same if there are no more than C
			p := n.args[0]
			if p.op != "sub" || p.args[0] != lf.lv || p.args[2] != ln {
				return nil
			}
			x := mkAdd(mkSub(ln, p.args[1]), mkInt(1))
			if a.mentions(x) || !holdsGuard(a.guards(backs[i].p.st, m), mkLe(x, ln)) {
				return nil
			}
			if few := mkLe(mkLen(lf.init), x); !a.entry.st.holds(few) {
				a.needs = few
				return nil
			}
			bound = x
		}
		if bound == nil || c != nil && c != bound {
			return nil
		}
		c = bound
	}
	b, lvl := closeN(t, a.N)
	return raw("push", strconv.Itoa(lvl), nil, c, lf.init, a.N, b)
}

func holdsGuard(gs []*T, g *T) bool {
	for _, h := range gs {
		if h == g {
			return true
		}
	}
	return false
}

// splitPoint finds a concatenation indexed by the iteration number; it returns the number of iterations of
// its first segment.
type splitAt struct {
	limit *T // symbolic segment: iterate N < limit
	list  int
}

func (a *absLoop) splitPoint(r regionRes) *splitAt {
	m := a.solved()
	var found *splitAt
	look := func(t *T) {
		if found != nil || !t.open {
			return
		}
		anySub(t, func(x *T) bool {
			if x.op != "idx" || x.args[0].op != "cat" || !contains(x.args[1], a.N) && len(a.lvs(x.args[1])) == 0 {
				return false
			}
			s := x.args[0]
			i := subst(x.args[1], m)
			c := mkSub(i, a.N)
			if contains(c, a.N) || len(a.lvs(c)) > 0 || a.mentions(s) {
				return false
			}
			off := mkInt(0)
			for _, part := range s.args {
				end := mkAdd(off, mkLen(part))
				// skip the parts before the current position
				if a.entry.st.proveLe0(linOf(mkSub(end, c))) {
					off = end
					continue
				}
				if part.op == "list" || part.op == "str" {
					n, _ := mkLen(part).isInt()
					found = &splitAt{list: int(n)}
				} else {
					found = &splitAt{limit: mkSub(end, c)}
				}
				return true
			}
			return false
		})
	}
	for _, b := range r.backs {
		for f := range b.p.st.facts {
			look(f)
		}
	}
	for _, x := range r.exits {
		for f := range x.p.st.facts {
			look(f)
		}
	}
	for _, x := range r.rets {
		for f := range x.st.facts {
			look(f)
		}
	}
	// an iteration singled out by its number
	for _, b := range r.backs {
		if found != nil {
			break
		}
		for _, f := range sortedFacts(b.p.st) {
			if !b.p.st.facts[f] || f.op != "eq0" || a.entry.st.facts[f] {
				continue
			}
			k := mkAdd(subst(f.args[0], m), a.N)
			if contains(k, a.N) {
				k = mkSub(a.N, subst(f.args[0], m))
			}
			if a.mentions(k) || !a.entry.st.holds(mkLe(mkInt(0), k)) {
				continue
			}
			if n, ok := k.isInt(); ok {
				if n <= 2 {
					found = &splitAt{list: 1}
				}
				break
			}
			found = &splitAt{limit: k}
			break
		}
	}
	if found != nil && found.limit != nil {
		// nothing to split if the loop ends there anyway
		for _, b := range a.bounds {
			if b == mkLe(a.N, found.limit) {
				return nil
			}
		}
	}
	return found
}

// fork distinguishes whether c holds at the entry.
func (a *absLoop) fork(c *T, depth int) regionRes {
	e := a.e
	var res regionRes
	ns, dep := e.loopNs, e.loopDep
	e.loopNs, e.loopDep = ns[:len(ns)-1:len(ns)-1], dep-1
	for _, v := range []bool{true, false} {
		p := a.entry.fork()
		if !p.st.assume(c, v) || !p.st.consistent() {
			continue
		}
		r := e.loopAt(a.fr, a.l, p, depth+1)
		res.exits = append(res.exits, r.exits...)
		res.rets = append(res.rets, r.rets...)
	}
	e.loopNs, e.loopDep = ns, dep
	return res
}

func (a *absLoop) split(c *splitAt, depth int) (regionRes, bool) {
	e := a.e
	var res regionRes
	add := func(r regionRes) {
		res.exits = append(res.exits, r.exits...)
		res.rets = append(res.rets, r.rets...)
	}
	// leave this loop's placeholder scope: callers see no open terms
	outside := func(f func()) {
		ns, dep := e.loopNs, e.loopDep
		e.loopNs, e.loopDep = ns[:len(ns)-1:len(ns)-1], dep-1
		f()
		e.loopNs, e.loopDep = ns, dep
	}
	if c.limit == nil {
		outside(func() {
			saveH, saveF := e.strict, e.strictFail
			e.strict = nil
			r := e.region(a.fr, a.l, []inPath{{a.entry.fork(), nil}})
			e.strict, e.strictFail = saveH, saveF
			add(r)
			for _, q := range e.toHeader(a.fr, a.l, r.backs) {
				add(e.loopAt(a.fr, a.l, q, depth+1))
			}
		})
		return res, true
	}
	b := &absLoop{e: e, fr: a.fr, l: a.l, entry: a.entry, depth: a.depth, N: a.N, floor: a.floor,
		byKey: map[*T]*leaf{}, byPhi: map[*ssa.Phi][]*leaf{}, nEv: a.nEv, limit: c.limit}
	for _, lf := range a.leaves {
		n := &leaf{phi: lf.phi, path: lf.path, key: lf.key, typ: lf.typ, initV: lf.initV, init: lf.init}
		b.addLeaf(n)
	}
	// rediscover under the assumption N < limit
	m := e.mark()
	var r regionRes
	for round := 0; ; round++ {
		if round > 12 {
			return res, false
		}
		e.reset(m)
		save := b.bounds
		b.bounds = nil
		r = b.runLimited()
		b.bounds = save
		if !b.discover(r.backs) {
			break
		}
	}
	e.reset(m)
	b.solve(r.backs)
	var conts []*path
	r2 := b.finish(&conts)
	add(r2)
	outside(func() {
		for _, q := range conts {
			add(e.loopAt(a.fr, a.l, q, depth+1))
		}
	})
	return res, true
}

func (a *absLoop) runLimited() regionRes {
	saveH, saveF := a.e.strict, a.e.strictFail
	a.e.strict = nil
	defer func() { a.e.strict, a.e.strictFail = saveH, saveF }()
	h := a.header(false)
	// the induction variables are not known yet: bound them by their initial value plus N
	for _, lf := range a.leaves {
		if lf.vari && isIntType(lf.typ) {
			d := mkSub(lf.lv, lf.init)
			h.st.assume(mkLt(d, a.limit), true)
			h.st.assume(mkLe(mkInt(0), d), true)
		}
	}
	return a.tails(a.e.region(a.fr, a.l, []inPath{{h, nil}}))
}

// finish runs the final abstract iteration and rewrites what leaves the loop.
func (a *absLoop) finish(conts *[]*path) regionRes {
	e := a.e
	r := a.run(true)
	cur = nil
	for _, b := range r.backs {
		e.works = append(e.works, Work{N: a.N, St: b.p.st, Pos: a.l.header.Instrs[len(a.l.header.Instrs)-1].Pos(), Fn: a.fr.fn.String(), Entry: e.entry, Limit: a.limit})
	}
	// values of the variables without a closed form
	next := map[*leaf][]*T{}
	m0 := a.solved()
	for _, lf := range a.leaves {
		if !lf.vari {
			continue
		}
		for _, b := range r.backs {
			next[lf] = append(next[lf], subst(a.nextOf(lf, b), m0))
		}
	}
	cur = nil
	var per [][]*T
	count := map[*T]int{}
	for _, b := range r.backs {
		gs := a.guards(b.p.st, m0)
		per = append(per, gs)
		for _, g := range gs {
			count[g]++
		}
	}
	var common []*T
	for g, n := range count {
		if n == len(r.backs) && len(a.lvs(g)) == 0 {
			common = append(common, g)
		}
	}
	sort.Slice(common, func(i, j int) bool { return common[i].id < common[j].id })
	// what holds in every iteration that continued: one of the ways to do so
	var some *T
	if len(r.backs) > 1 && len(r.backs) <= 4 {
		var ds []*T
		for i := range r.backs {
			var gs []*T
			for _, g := range per[i] {
				if count[g] < len(r.backs) && len(a.lvs(g)) == 0 {
					gs = append(gs, g)
				}
			}
			if len(gs) == 0 || len(gs) > 10 {
				ds = nil
				break
			}
			ds = append(ds, mkAnd(gs...))
		}
		if len(ds) > 1 {
			if o := mkOr(ds...); o.op == "or" && contains(o, a.N) {
				some = o
			}
		}
	}
	// latches
	used := map[*T]bool{}
	for i := range r.backs {
		for _, g := range per[i] {
			for x := range a.lvs(g) {
				used[x] = true
			}
		}
	}
	for lf, ns := range next {
		for _, n := range ns {
			for x := range a.lvs(n) {
				if x != lf.lv || n != lf.lv {
					used[x] = true
				}
			}
		}
	}
	type group struct {
		key    string
		leaves []*leaf
	}
	var groups []*group
	var general []*leaf
	for _, lf := range a.leaves {
		if !lf.vari || lf.val != nil {
			continue
		}
		ok := !used[lf.lv]
		key := ""
		hasZ := false
		for _, n := range next[lf] {
			if n == lf.lv {
				key += "z"
				hasZ = true
			} else {
				key += "a"
				if len(a.lvs(n)) > 0 {
					ok = false
				}
			}
		}
		if !ok || !hasZ {
			general = append(general, lf)
			continue
		}
		lf.latch = true
		var g *group
		for _, x := range groups {
			if x.key == key {
				g = x
			}
		}
		if g == nil {
			g = &group{key: key}
			groups = append(groups, g)
		}
		g.leaves = append(g.leaves, lf)
	}
	e.nGeneral += len(general)
	// signature: the back-edge conditions (and the recurrences of variables without a closed form)
	var sigParts []*T
	var conj []*T
	for i := range r.backs {
		conj = append(conj, mkAnd(per[i]...))
	}
	sort.Slice(conj, func(i, j int) bool { return conj[i].id < conj[j].id })
	sigParts = append(sigParts, app("backs", distinct(conj)...))
	for _, lf := range general {
		x := []*T{lf.lv, lf.init}
		sigParts = append(sigParts, app("var", append(x, next[lf]...)...))
	}
	sig := a.closeAll(app("sigs", sigParts...))
	sig = raw("sig", strconv.Itoa(a.closeLvl), nil, sig)
	sub := map[*T]*T{}
	for x, v := range m0 {
		sub[x] = v
	}
	for i, lf := range general {
		sub[lf.lv] = withVT(raw("mo", strconv.Itoa(i), nil, a.N, sig), lf.typ)
	}
	if len(general) > 0 {
		e.note("loop variables without closed form in %s", a.fr.fn.String())
	}
	nx := app("Nx", sig)
	// earlier iterations' events and cells
	loopEvents := a.loopEvents(r.backs, sub)
	dirty := a.dirtyCells(r.backs, sub)

	var res regionRes
	type out = struct {
		p    *path
		st   *State
		vals []*T
	}
	var leaveAt func(p *path, st *State, vals []*T, virtual bool, at *T) []out
	leave := func(p *path, st *State, vals []*T, virtual bool) []out {
		// the first iteration number at which the guard does not hold: at once, or later
		if c := a.firstExit(st, sub, common); !virtual && c != nil {
			none, some := st.clone(), st.clone()
			var outs []out
			if none.assume(mkLe(c, mkInt(0)), true) {
				outs = leaveAt(p, none, vals, false, mkInt(0))
			}
			if some.assume(mkLe(mkInt(1), c), true) {
				outs = append(outs, leaveAt(p, some, vals, false, c)...)
			}
			return outs
		}
		return leaveAt(p, st, vals, virtual, nil)
	}
	leaveAt = func(p *path, st *State, vals []*T, virtual bool, at *T) []out {
		var outs []out
		cur = nil
		// the number of completed iterations
		var nv *T
		if virtual {
			nv = a.limit
		} else if nv = at; nv == nil {
			nv = a.exitCount(st, sub)
		}
		exact := nv != nil
		if nv == nil {
			nv = nx
		}
		type choice struct {
			m     map[*T]*T
			facts []*T
		}
		choices := []choice{{m: map[*T]*T{}}}
		// variables which lag behind: as at the start, or as computed in the last iteration
		zero, some1 := choice{m: map[*T]*T{}, facts: []*T{mkEq0(nv)}}, choice{m: map[*T]*T{}, facts: []*T{mkLe(mkInt(1), nv)}}
		for _, lf := range a.leaves {
			if lf.vari && lf.val != nil && lf.lagging() {
				zero.m[lf.lv] = lf.init
				some1.m[lf.lv] = withVT(subst(lf.lag, map[*T]*T{a.N: mkSub(nv, mkInt(1))}), lf.typ)
			}
		}
		if len(zero.m) > 0 {
			choices = []choice{zero, some1}
		}
		for _, g := range groups {
			// assigned classes
			type cls struct {
				vals []*T
				idx  []int
			}
			var classes []*cls
			var z []int
			for i := range r.backs {
				if next[g.leaves[0]][i] == g.leaves[0].lv {
					z = append(z, i)
					continue
				}
				var vs []*T
				for _, lf := range g.leaves {
					vs = append(vs, next[lf][i])
				}
				done := false
				for _, c := range classes {
					if sameTerms(c.vals, vs) {
						c.idx = append(c.idx, i)
						done = true
					}
				}
				if !done {
					classes = append(classes, &cls{vs, []int{i}})
				}
			}
			var more []choice
			for _, ch := range choices {
				// never assigned
				c0 := choice{m: map[*T]*T{}, facts: append([]*T{}, ch.facts...)}
				for k, v := range ch.m {
					c0.m[k] = v
				}
				for _, lf := range g.leaves {
					c0.m[lf.lv] = lf.init
				}
				zc := map[*T]int{}
				for _, i := range z {
					for _, gd := range per[i] {
						zc[gd]++
					}
				}
				for gd, n := range zc {
					if n == len(z) && contains(gd, a.N) && len(a.lvs(gd)) == 0 {
						c0.facts = append(c0.facts, mkAll(nv, gd, a.N))
					}
				}
				more = append(more, c0)
				for ci, c := range classes {
					_ = ci
					gc := map[*T]int{}
					for _, i := range c.idx {
						for _, gd := range per[i] {
							gc[gd]++
						}
					}
					var gs []*T
					for gd, n := range gc {
						if n == len(c.idx) && len(a.lvs(gd)) == 0 {
							gs = append(gs, gd)
						}
					}
					sort.Slice(gs, func(i, j int) bool { return gs[i].id < gs[j].id })
					guards := a.closeAll(mkAnd(gs...))
					last := withVT(raw("Lx", strconv.Itoa(a.closeLvl), nil, sig, guards, nv), types.Typ[types.Int])
					c1 := choice{m: map[*T]*T{}, facts: append([]*T{}, ch.facts...)}
					for k, v := range ch.m {
						c1.m[k] = v
					}
					at := map[*T]*T{a.N: last}
					for j, lf := range g.leaves {
						c1.m[lf.lv] = subst(c.vals[j], at)
					}
					c1.facts = append(c1.facts, mkLt(last, nv), mkLe(mkInt(0), last))
					for _, gd := range gs {
						c1.facts = append(c1.facts, subst(gd, at))
					}
					more = append(more, c1)
				}
			}
			choices = more
		}
		if debugLoop {
			println("LEAVE", a.fr.fn.String(), "choices", len(choices), "groups", len(groups), "general", len(general), "backs", len(r.backs))
			for _, lf := range a.leaves {
				if lf.vari && lf.val != nil {
					lg := "-"
					if lf.lag != nil {
						lg = lf.lag.str(6)
					}
					println("  leaf", lf.lv.s, lf.val.str(6), "lag", lg)
				}
			}
			for _, g := range groups {
				println("  group", g.key)
				for _, lf := range g.leaves {
					println("     ", lf.lv.s, strings.Join(lf.path, "."))
				}
			}
			for _, lf := range general {
				println("  general", lf.lv.s)
				for _, n := range next[lf] {
					println("      ", n.str(5))
				}
			}
		}
		for _, ch := range choices {
			full := map[*T]*T{a.N: nv}
			for x, v := range sub {
				full[x] = subst(v, map[*T]*T{a.N: nv})
			}
			for x, v := range ch.m {
				full[x] = v
			}
			ns := a.substState(st, full)
			okc := true
			if exact {
				okc = ns.assume(mkEq0(mkSub(nx, nv)), true)
			}
			if okc {
				okc = ns.assume(mkLe(mkInt(0), nv), true)
			}
			for _, f := range ch.facts {
				if !okc {
					break
				}
				okc = ns.assume(f, true)
			}
			if !okc {
				continue
			}
			for _, g := range common {
				if contains(g, a.N) {
					ns.assume(mkAll(nv, g, a.N), true)
				}
			}
			if some != nil && ns.consistent() {
				ns.assume(mkAll(nv, some, a.N), true)
			}
			if !ns.consistent() {
				continue
			}
			for _, d := range dirty {
				ns.set(d, tTrue)
			}
			if n, ok := nv.isInt(); !ok || n > 0 {
				var evs []*Event
				evs = append(evs, ns.events[:a.nEv]...)
				for _, ev := range loopEvents {
					evs = append(evs, ev)
				}
				evs = append(evs, ns.events[a.nEv:]...)
				ns.events = evs
			}
			o := out{st: ns}
			if p != nil {
				q := &path{env: make(map[ssa.Value]*T, len(p.env)), st: ns, defers: p.defers}
				for k, v := range p.env {
					if v.open {
						v = subst(v, full)
					}
					q.env[k] = v
				}
				o.p = q
			}
			for _, v := range vals {
				o.vals = append(o.vals, withVT(subst(v, full), v.vt))
			}
			outs = append(outs, o)
		}
		return outs
	}
	for _, x := range r.exits {
		for _, o := range leave(x.p, x.p.st, nil, false) {
			res.exits = append(res.exits, edgePath{o.p, x.from, x.to})
		}
	}
	for _, x := range r.rets {
		for _, o := range leave(nil, x.st, x.vals, false) {
			res.rets = append(res.rets, Outcome{st: o.st, vals: o.vals, panic: x.panic, pos: x.pos})
		}
	}
	if conts != nil {
		// the state at the header when N == limit
		lim := a.limit
		a.limit = nil
		h := a.header(true)
		a.limit = lim
		for _, o := range leave(h, h.st, nil, true) {
			*conts = append(*conts, o.p)
		}
	}
	return res
}

// mkAll: cond holds for every iteration number below n.
func mkAll(n, cond, N *T) *T {
	if !contains(cond, N) {
		return tTrue
	}
	b, lvl := closeN(cond, N)
	return raw("all", strconv.Itoa(lvl), nil, n, b)
}

// closeAll replaces the placeholders of this loop by bound variables.
func (a *absLoop) closeAll(t *T) *T {
	a.closeLvl = t.lvl + 1
	lvl := strconv.Itoa(a.closeLvl)
	d := strconv.Itoa(a.depth) + "."
	names := map[*T]*T{}
	return substFn(t, func(x *T) *T {
		if x == a.N {
			return raw("bN", lvl, nil)
		}
		if x.op == "lv" && strings.HasPrefix(x.s, d) {
			y := names[x]
			if y == nil {
				y = raw("bl", lvl+"."+x.s[len(d):], nil)
				names[x] = y
			}
			return y
		}
		return nil
	})
}

// exitCount finds the number of completed iterations if the exit condition determines it.
func (a *absLoop) exitCount(st *State, sub map[*T]*T) *T {
	for _, l := range st.linFacts() {
		t := subst(l.term(), sub)
		l = linOf(t)
		c := l.m[a.N]
		if c != 1 && c != -1 {
			continue
		}
		// l = c*N + rest  =>  candidate N = -rest/c
		rest := linAdd(l, lin{m: map[*T]int64{a.N: 1}}, -c)
		cand := mkScale(rest.term(), -c)
		if contains(cand, a.N) || a.mentions(cand) {
			continue
		}
		d := linOf(mkSub(a.N, cand))
		if st.proveLe0(d) && st.proveLe0(linAdd(lin{}, d, -1)) {
			return cand
		}
	}
	return nil
}

// firstExit: the loop goes on exactly while its number of iterations is below the result.
func (a *absLoop) firstExit(st *State, sub map[*T]*T, common []*T) *T {
	if a.exitCount(st, sub) != nil {
		return nil
	}
	for _, l := range st.linFacts() {
		l = linOf(subst(l.term(), sub))
		if l.m[a.N] != -1 {
			continue
		}
		c := linAdd(l, lin{m: map[*T]int64{a.N: 1}}, 1).term()
		if contains(c, a.N) || a.mentions(c) {
			continue
		}
		for _, g := range common {
			if g == mkLt(a.N, c) {
				return c
			}
		}
	}
	return nil
}

func (a *absLoop) substState(st *State, m map[*T]*T) *State {
	ns := &State{heap: make(map[*T]*T, len(st.heap)), facts: make(map[*T]bool, len(st.facts)), ownH: true, ownF: true}
	for k, v := range st.heap {
		if k.open {
			k = subst(k, m)
		}
		if v.open {
			v = subst(v, m)
		}
		ns.heap[k] = v
	}
	var open []*T
	for f, v := range st.facts {
		if !f.open {
			ns.setFact(f, v)
			continue
		}
		open = append(open, f)
	}
	sort.Slice(open, func(i, j int) bool { return open[i].id < open[j].id })
	for _, f := range open {
		g := subst(f, m)
		if g == tTrue || g == tFalse {
			if (g == tTrue) != st.facts[f] {
				ns.setFact(tFalse, true)
			}
			continue
		}
		if !ns.assume(g, st.facts[f]) {
			ns.setFact(tFalse, true)
		}
	}
	ns.events = append([]*Event(nil), st.events...)
	for i := a.nEv; i < len(ns.events); i++ {
		ns.events[i] = a.substEvent(ns.events[i], m)
	}
	return ns
}

func (a *absLoop) substEvent(ev *Event, m map[*T]*T) *Event {
	n := *ev
	ch := false
	f := func(t *T) *T {
		if t == nil || !t.open {
			return t
		}
		u := subst(t, m)
		if u != t {
			ch = true
		}
		return u
	}
	n.Recv = f(ev.Recv)
	n.Args = nil
	for _, x := range ev.Args {
		n.Args = append(n.Args, f(x))
	}
	n.Flat = nil
	for _, x := range ev.Flat {
		n.Flat = append(n.Flat, f(x))
	}
	n.Res = nil
	for _, x := range ev.Res {
		n.Res = append(n.Res, f(x))
	}
	if ev.St != nil {
		sub := *a
		if sub.nEv > len(ev.St.events) {
			sub.nEv = len(ev.St.events)
		}
		open := false
		for k, v := range ev.St.heap {
			if k.open || v.open {
				open = true
			}
		}
		for k := range ev.St.facts {
			if k.open {
				open = true
			}
		}
		if open {
			ch = true
			save := ev.St.events
			n.St = sub.substState(&State{heap: ev.St.heap, facts: ev.St.facts}, m)
			n.St.events = save
		}
	}
	if !ch {
		return ev
	}
	n.setKey()
	return &n
}

// loopEvents are the events of completed iterations.
func (a *absLoop) loopEvents(backs []inPath, sub map[*T]*T) []*Event {
	var out []*Event
	seen := map[string]bool{}
	for _, b := range backs {
		for _, ev := range b.p.st.events[a.nEv:] {
			n := a.substEvent(ev, sub)
			c := *n
			c.Loop = true
			c.St = nil
			cl := func(ts []*T) []*T {
				var o []*T
				for _, t := range ts {
					if t != nil && t.open {
						t = a.closeAll(t)
					}
					o = append(o, t)
				}
				return o
			}
			c.Args, c.Res, c.Flat = cl(n.Args), cl(n.Res), cl(n.Flat)
			c.setKey()
			if !seen[c.key] {
				seen[c.key] = true
				out = append(out, &c)
			}
		}
	}
	return out
}

// dirtyCells are the families of cells written by completed iterations.
func (a *absLoop) dirtyCells(backs []inPath, sub map[*T]*T) []*T {
	var out []*T
	for _, b := range backs {
		for k := range b.p.st.heap {
			if k.op == "count" || k.op == "dirty" || !k.open || !a.mentions(k) {
				continue
			}
			if r := rootOf(k); r.op == "obj" {
				continue
			}
			out = append(out, app("dirty", a.closeAll(subst(k, sub))))
		}
	}
	return distinct(out)
}
