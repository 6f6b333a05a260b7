package main

// Abstract states: heap, must-facts and effects.

import (
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// Event is an effect on something outside of the analysed code, or a fresh random read.
type Event struct {
	Kind  string // e.g. "session.Store.Load"
	Recv  *T
	Args  []*T
	Flat  []*T // arguments, independent of the heap
	Res   []*T // results
	Ok    *T   // true/false: whether the operation succeeded on this path
	Pos   token.Pos
	Stack []token.Pos
	St    *State // state when the event happened (before its effects)
	Loop  bool   // happened in an earlier iteration of a loop
	key   string
}

func (ev *Event) setKey() {
	var b strings.Builder
	b.WriteString(ev.Kind)
	f := func(t *T) {
		b.WriteByte(' ')
		if t == nil {
			b.WriteByte('-')
			return
		}
		b.WriteString(strconv.Itoa(t.id))
	}
	f(ev.Recv)
	for _, l := range [][]*T{ev.Args, ev.Flat, ev.Res} {
		b.WriteByte('|')
		for _, t := range l {
			f(t)
		}
	}
	f(ev.Ok)
	if ev.Loop {
		b.WriteString(" loop")
	}
	ev.key = b.String()
}

type State struct {
	heap   map[*T]*T
	facts  map[*T]bool
	alls   []*T
	events []*Event
	ownH   bool
	ownF   bool
	lf     []lin
	lfN    int
}

// consistent: no contradiction was recorded.
func (s *State) consistent() bool { return !s.facts[tFalse] }

// possible: consistent, also when every recorded inequality is reconsidered.
func (s *State) possible() bool {
	if !s.consistent() {
		return false
	}
	for f, v := range s.facts {
		if !v && f.op == "eq0" {
			l := linOf(f.args[0])
			if s.proveLe0(l) && s.proveLe0(linAdd(lin{}, l, -1)) {
				return false
			}
		}
	}
	return true
}

func newState() *State {
	return &State{heap: map[*T]*T{}, facts: map[*T]bool{}, ownH: true, ownF: true}
}

func (s *State) clone() *State {
	s.ownH, s.ownF = false, false
	return &State{heap: s.heap, facts: s.facts, alls: s.alls[:len(s.alls):len(s.alls)], lf: s.lf, lfN: s.lfN, events: s.events[:len(s.events):len(s.events)]}
}

// onSet is told of every assignment to a cell.
var onSet func(a *T)

func (s *State) set(a, v *T) {
	if onSet != nil {
		onSet(a)
	}
	if s.heap[a] == v {
		return
	}
	if !s.ownH {
		m := make(map[*T]*T, len(s.heap)+8)
		for k, x := range s.heap {
			m[k] = x
		}
		s.heap, s.ownH = m, true
	}
	s.heap[a] = v
}

func (s *State) del(a *T) {
	if _, ok := s.heap[a]; !ok {
		return
	}
	s.set(a, tUnit)
	delete(s.heap, a)
}

func (s *State) setFact(a *T, v bool) {
	if x, ok := s.facts[a]; ok && x == v {
		return
	}
	if !s.ownF {
		m := make(map[*T]bool, len(s.facts)+8)
		for k, x := range s.facts {
			m[k] = x
		}
		s.facts, s.ownF = m, true
	}
	s.facts[a] = v
	s.lf = nil
	if v && a.op == "all" {
		s.alls = append(s.alls[:len(s.alls):len(s.alls)], a)
	}
}

func (s *State) addEvent(e *Event) {
	s.events = append(s.events[:len(s.events):len(s.events)], e)
}

// ---------------------------------------------------------------- facts

type linFact struct{ l lin }

func (s *State) linFacts() []lin {
	if s.lf != nil && s.lfN == len(s.facts) {
		return s.lf
	}
	s.lf = s.linFacts1()
	s.lfN = len(s.facts)
	if s.lf == nil {
		s.lf = []lin{}
	}
	return s.lf
}

func (s *State) linFacts1() []lin {
	var ts []*T
	for f, v := range s.facts {
		if v && (f.op == "le0" || f.op == "eq0") {
			ts = append(ts, f)
		}
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	var fs []lin
	for _, f := range ts {
		l := linOf(f.args[0])
		fs = append(fs, l)
		if f.op == "eq0" {
			fs = append(fs, linAdd(lin{}, l, -1))
		}
	}
	// x <= 0 and x != 0: x < 0
	ts = ts[:0]
	for f, v := range s.facts {
		if !v && f.op == "eq0" {
			ts = append(ts, f)
		}
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	for _, f := range ts {
		l := linOf(f.args[0])
		for _, x := range []lin{l, linAdd(lin{}, l, -1)} {
			if s.facts[mkLe0(x.term())] {
				fs = append(fs, linAdd(x, lin{k: 1}, 1))
			}
		}
	}
	return fs
}

func (s *State) proveLe0(l lin) bool {
	if hi, ok := l.upper(); ok && hi <= 0 {
		return true
	}
	if len(l.m) == 0 {
		return l.k <= 0
	}
	facts := s.linFacts()
	for a := range l.m {
		if a.op == "len" && a.args[0].op == "fmc" { // a filtered sequence is no longer than the original
			facts = append(facts[:len(facts):len(facts)], linAdd(linOf(a), linOf(mkScale(a.args[0].args[0], fmcUnit(a.args[0]))), -1))
		}
		if n, ok := divisor(a); ok && s.proveLe0(linAdd(lin{}, linOf(a.args[0]), -1)) {
			// 0 <= a/n, n*(a/n) <= a < n*(a/n)+n
			q, x := linOf(a), linOf(a.args[0])
			facts = append(facts[:len(facts):len(facts)], linAdd(lin{}, q, -1), linAdd(linAdd(lin{}, q, n), x, -1), linAdd(linAdd(lin{k: 1 - n}, x, 1), q, -n))
		}
	}
	var rec func(l lin, depth int) bool
	rec = func(l lin, depth int) bool {
		if hi, ok := l.upper(); ok && hi <= 0 {
			return true
		}
		if len(l.m) == 0 {
			return l.k <= 0
		}
		if depth == 0 {
			return false
		}
		as := l.atoms()
		for _, f := range facts {
			share := false
			var m int64 = 1
			for _, a := range as {
				c := l.m[a]
				if fc, ok := f.m[a]; ok && (fc > 0) == (c > 0) {
					share = true
					if c%fc == 0 && c/fc > 0 {
						m = c / fc
					}
					break
				}
			}
			if !share {
				continue
			}
			if rec(linAdd(l, f, -m), depth-1) {
				return true
			}
		}
		return false
	}
	return rec(l, 3)
}

// divisor of a quotient by a positive constant.
func divisor(t *T) (int64, bool) {
	if t.op == "div" {
		n, ok := t.args[1].isInt()
		return n, ok && n > 0
	}
	return 0, false
}

func fmcUnit(f *T) int64 {
	if n, ok := mkLen(f.args[2]).isInt(); ok {
		return n
	}
	return 1 << 40
}

// instances are the instances of the quantified facts whose indexed terms occur in c.
func (s *State) instances(c *T, ors bool) []*T {
	if len(s.alls) == 0 {
		return nil
	}
	ixs := c.idxSubs()
	if len(ixs) == 0 {
		return nil
	}
	idx := map[*T][]*T{}
	for _, t := range ixs {
		idx[t.args[0]] = append(idx[t.args[0]], t.args[1])
	}
	var out []*T
	for _, al := range s.alls {
		if v, ok := s.facts[al]; !ok || !v {
			continue
		}
		if !ors && al.args[1].op == "or" {
			continue
		}
		body, bn := al.args[1], raw("bN", al.s, nil)
		seen := map[*T]bool{}
		for _, t := range body.idxSubs() {
			if idx[t.args[0]] == nil || !contains(t.args[1], bn) {
				continue
			}
			l := linOf(t.args[1])
			cf := l.m[bn]
			if cf != 1 && cf != -1 {
				continue
			}
			rest := linAdd(l, lin{m: map[*T]int64{bn: 1}}, -cf).term()
			if contains(rest, bn) {
				continue
			}
			for _, i := range idx[t.args[0]] {
				v := mkScale(mkSub(i, rest), cf)
				if seen[v] {
					continue
				}
				seen[v] = true
				if s.proveLe0(linAdd(lin{}, linOf(v), -1)) && s.proveLe0(linOf(mkAdd(mkSub(v, al.args[0]), mkInt(1)))) {
					out = append(out, instB(body, al.s, v))
				}
			}
		}
	}
	return out
}

// eval decides a boolean term under the facts of the state.
func (s *State) eval(c *T) (val, known bool) {
	if val, known = s.eval1(c); known {
		return
	}
	if ins := s.instances(c, false); len(ins) > 0 {
		q := s.clone()
		q.alls = nil
		for _, i := range ins {
			if i == c {
				return true, true
			}
			if i == mkNot(c) {
				return false, true
			}
			if !q.assume(i, true) {
				return false, false
			}
		}
		if val, known = q.eval1(c); known {
			return
		}
	}
	if !c.sel {
		return false, false
	}
	if x := anySub(c, func(x *T) bool { return x.op == "sel" }); x != nil {
		p, q := s.clone(), s.clone()
		okp, okq := p.assume(x.args[0], true), q.assume(x.args[0], false)
		var v1, k1, v2, k2 bool
		if okp {
			v1, k1 = p.eval(subst(c, map[*T]*T{x: x.args[1]}))
		}
		if okq {
			v2, k2 = q.eval(subst(c, map[*T]*T{x: x.args[2]}))
		}
		switch {
		case !okp:
			return v2, k2
		case !okq:
			return v1, k1
		case k1 && k2 && v1 == v2:
			return v1, true
		}
	}
	return false, false
}

func (s *State) eval1(c *T) (val, known bool) {
	switch c.op {
	case "true":
		return true, true
	case "false":
		return false, true
	case "not":
		v, k := s.eval(c.args[0])
		return !v, k
	}
	if v, ok := s.facts[c]; ok {
		return v, true
	}
	if angel {
		if v, k := s.angelic(c); k {
			return v, k
		}
	}
	switch c.op {
	case "le0":
		l := linOf(c.args[0])
		if s.proveLe0(l) {
			return true, true
		}
		if s.proveLe0(linAdd(lin{k: 1}, l, -1)) {
			return false, true
		}
	case "eq0":
		l := linOf(c.args[0])
		le := s.proveLe0(l)
		ge := s.proveLe0(linAdd(lin{}, l, -1))
		if le && ge {
			return true, true
		}
		if s.proveLe0(linAdd(lin{k: 1}, l, 1)) || s.proveLe0(linAdd(lin{k: 1}, l, -1)) {
			return false, true
		}
	case "and":
		all := true
		for _, a := range c.args {
			v, k := s.eval(a)
			if k && !v {
				return false, true
			}
			if !k {
				all = false
			}
		}
		if all {
			return true, true
		}
	case "eq":
		a, b := c.args[0], c.args[1]
		if a.op == "nil" {
			if s.nonNil(b) {
				return false, true
			}
			// an empty slice known to have elements is not nil
			if b.vt != nil {
				if _, ok := b.vt.Underlying().(*types.Slice); ok {
					if v, k := s.eval(mkEq0(mkLen(b))); k && !v {
						return false, true
					}
				}
			}
		}
	case "or":
		all := true
		for _, a := range c.args {
			v, k := s.eval(a)
			if k && v {
				return true, true
			}
			if !k {
				all = false
			}
		}
		if all {
			return false, true
		}
	case "strlt":
		if v, ok := s.facts[app("strlt", c.args[1], c.args[0])]; ok && v {
			return false, true
		}
	case "typeis":
		// another dynamic type is known
		for f, v := range s.facts {
			if v && f.op == "typeis" && f.args[0] == c.args[0] && f != c {
				if !types.IsInterface(f.typ) && !types.IsInterface(c.typ) {
					return false, true
				}
			}
		}
	}
	return false, false
}

func (s *State) holds(c *T) bool {
	v, k := s.eval(c)
	return k && v
}

// known replaces an index by the number the facts make it.
func (s *State) known(t *T) *T {
	if t.op != "lin" {
		return t
	}
	for f, v := range s.facts {
		if v && f.op == "eq0" {
			for _, d := range []*T{mkSub(t, f.args[0]), mkAdd(t, f.args[0])} {
				if _, ok := d.isInt(); ok {
					return d
				}
			}
		}
	}
	return t
}

func (s *State) nonNil(t *T) bool {
	switch t.op {
	case "obj", "fa", "ia", "slice", "iface", "fn", "closure", "box", "glob", "struct", "str":
		return true
	case "cp":
		return s.nonNil(t.args[1])
	}
	if nonNilOps[t.op] {
		return true
	}
	if v, ok := s.facts[mkEq(tNil, t)]; ok && !v {
		return true
	}
	return false
}

// assume adds a condition; it returns false if it contradicts the state.
func (s *State) assume(c *T, val bool) bool {
	switch c.op {
	case "not":
		return s.assume(c.args[0], !val)
	case "le0":
		if !val {
			return s.assume(mkNot(c), true)
		}
	case "and":
		if val {
			for _, a := range c.args {
				if !s.assume(a, true) {
					return false
				}
			}
			return true
		}
		var rest []*T
		for _, a := range c.args {
			if v, k := s.eval(a); k {
				if !v {
					return true
				}
				continue
			}
			rest = append(rest, a)
		}
		if len(rest) == 0 {
			return false
		}
		if len(rest) == 1 {
			return s.assume(rest[0], false)
		}
	case "or":
		if !val {
			for _, a := range c.args {
				if !s.assume(a, false) {
					return false
				}
			}
			return true
		}
	}
	if v, k := s.eval(c); k {
		return v == val
	}
	s.setFact(c, val)
	if c.op == "eq" && val && c.args[0] == tNil && c.args[1].op == "fld" && isDecoded(c.args[1].args[0]) {
		// the getter of an absent field returns zero
		if pt, ok := underPtr(c.args[1].vt); ok && isIntType(pt) {
			s.setFact(mkEq0(mkDeref(c.args[1], pt)), true)
		}
	}
	if c.op == "eq0" && !val {
		l := linOf(c.args[0])
		if s.proveLe0(linAdd(lin{}, l, -1)) { // l >= 0
			s.setFact(mkLe0(linAdd(lin{k: 1}, l, -1).term()), true)
		} else if s.proveLe0(l) {
			s.setFact(mkLe0(linAdd(lin{k: 1}, l, 1).term()), true)
		}
	}
	return true
}

func isDecoded(t *T) bool { return t.op == "unm" || t.op == "unmpart" }

func underPtr(t types.Type) (types.Type, bool) {
	if t == nil {
		return nil, false
	}
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return nil, false
	}
	return p.Elem(), true
}

// ---------------------------------------------------------------- joining

func sameHeap(a, b *State) bool {
	if len(a.heap) != len(b.heap) {
		return false
	}
	for k, v := range a.heap {
		if b.heap[k] != v {
			return false
		}
	}
	return true
}

func sameEvents(a, b *State) bool {
	if len(a.events) != len(b.events) {
		return false
	}
	for i := range a.events {
		if a.events[i] != b.events[i] {
			return false
		}
	}
	return true
}

// meetFacts keeps in a what holds in both states; differences of a few facts are kept as a disjunction.
func meetFacts(a, b *State) { meet(a, b, true) }

func meet(a, b *State, fine bool) {
	m := map[*T]bool{}
	or := meetDiff(a, b)
	for k, v := range a.facts {
		if w, ok := b.facts[k]; ok && v == w {
			m[k] = v
			continue
		}
		// keep a fact of one side which the other side entails
		if w, ok := b.eval(k); ok && w == v {
			m[k] = v
		}
	}
	for k, v := range b.facts {
		if _, ok := m[k]; ok {
			continue
		}
		if w, ok := a.eval(k); ok && w == v {
			m[k] = v
		}
	}
	if or != nil && or != tTrue {
		m[or] = true
	}
	if fine {
		for _, o := range append(extendOrs(a, b), extendOrs(b, a)...) {
			m[o] = true
		}
	}
	a.facts, a.ownF = m, true
	a.lf = nil
	a.alls = nil
	for k, v := range m {
		if v && k.op == "all" {
			a.alls = append(a.alls, k)
		}
	}
	sort.Slice(a.alls, func(i, j int) bool { return a.alls[i].id < a.alls[j].id })
}

// extendOrs adds the case of b to the disjunctions that hold in a only.
func extendOrs(a, b *State) []*T {
	var os []*T
	for k, v := range a.facts {
		if v && k.op == "or" && len(k.args) < 6 {
			if v, known := b.eval(k); known && v {
				continue
			}
			os = append(os, k)
		}
	}
	if len(os) == 0 || len(os) > 2 {
		return nil
	}
	d := literals(b, a, 5)
	if len(d) == 0 {
		return nil
	}
	sort.Slice(os, func(i, j int) bool { return os[i].id < os[j].id })
	var out []*T
	for _, o := range os {
		if x := mkOr(append(append([]*T{}, o.args...), mkAnd(d...))...); x.op == "or" {
			out = append(out, x)
		}
	}
	return out
}

func literals(a, b *State, max int) []*T {
	var out []*T
	for k, v := range a.facts {
		if w, ok := b.facts[k]; ok && v == w {
			continue
		}
		if k.op == "all" || k.op == "or" {
			continue
		}
		if w, ok := b.eval(k); ok && w == v {
			continue
		}
		if !v {
			k = mkNot(k)
		}
		out = append(out, k)
		if len(out) > max {
			return nil
		}
	}
	return out
}

func meetDiff(a, b *State) *T {
	da := literals(a, b, 12)
	if len(da) == 0 {
		return nil
	}
	db := literals(b, a, 12)
	if len(db) == 0 {
		return nil
	}
	if (len(da) > 4 || len(db) > 4) && len(da) != 1 && len(db) != 1 {
		return nil
	}
	// a literal that decides the difference
	for _, x := range da {
		for _, y := range db {
			if mkNot(x) == y && (len(da) == 1 || len(db) == 1) {
				var l []*T
				if len(da) > 1 {
					return mkOr(mkAnd(da...), y)
				}
				if len(db) > 1 {
					return mkOr(x, mkAnd(db...))
				}
				_ = l
				return nil
			}
		}
	}
	return mkOr(mkAnd(da...), mkAnd(db...))
}

// selCond is the literal that separates two states, if there is just one.
func selCond(a, b *State) *T {
	da := literals(a, b, 4)
	if len(da) != 1 {
		return nil
	}
	db := literals(b, a, 4)
	if len(db) != 1 || mkNot(da[0]) != db[0] {
		return nil
	}
	return da[0]
}

// cases expands the disjunctions among the facts of a state.
func (s *State) cases() []*State {
	out := []*State{s}
	var ors []*T
	for f, v := range s.facts {
		if v && f.op == "or" {
			ors = append(ors, f)
		}
	}
	sort.Slice(ors, func(i, j int) bool { return ors[i].id < ors[j].id })
	for _, o := range ors {
		var next []*State
		for _, q := range out {
			if v, k := q.evalOr(o); k && v {
				next = append(next, q)
				continue
			}
			for _, d := range o.args {
				r := q.clone()
				if r.assume(d, true) {
					next = append(next, r)
				}
			}
		}
		out = next
		if len(out) > 64 {
			return []*State{s}
		}
	}
	return out
}

func (s *State) evalOr(o *T) (bool, bool) {
	for _, d := range o.args {
		if v, k := s.eval(d); k && v {
			return true, true
		}
	}
	return false, false
}

// joinHeap makes every cell that differs an unknown.
func joinHeap(a, b *State) {
	for k, v := range a.heap {
		w, ok := b.heap[k]
		if !ok || w != v {
			if !ok {
				w = tUnit
			}
			a.set(k, mkJoin(v, w))
		}
	}
	for k, v := range b.heap {
		if _, ok := a.heap[k]; !ok {
			a.set(k, mkJoin(tUnit, v))
		}
	}
}

func mkJoin(ts ...*T) *T {
	set := map[*T]bool{}
	var vt types.Type
	for _, t := range ts {
		if t.op == "join" {
			for _, a := range t.args {
				set[a] = true
			}
		} else {
			set[t] = true
		}
		if t.vt != nil {
			vt = t.vt
		}
	}
	var l []*T
	for t := range set {
		l = append(l, t)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	if len(l) == 1 {
		return l[0]
	}
	return withVT(app("join", l...), vt)
}
