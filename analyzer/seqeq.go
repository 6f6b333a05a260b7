package main

// Equality of sequences under facts, with case distinctions on undecided boundaries.

// flatten splits a sequence into parts that are not concatenations; undecided boundaries are returned as a condition.
func flatten(st *State, t *T) (parts []*T, und *T) {
	switch t.op {
	case "cat":
		for _, a := range t.args {
			ps, u := flatten(st, a)
			if u != nil {
				return nil, u
			}
			parts = append(parts, ps...)
		}
		return parts, nil
	case "list":
		for _, a := range t.args {
			parts = append(parts, mkList(a))
		}
		return parts, nil
	case "sub":
		if t.args[0].op == "cat" || t.args[0].op == "sub" || t.args[0].op == "list" {
			ps, u := flatten(st, t.args[0])
			if u != nil {
				return nil, u
			}
			if len(ps) == 1 && ps[0] == t.args[0] {
				break
			}
			lo, hi := t.args[1], t.args[2]
			pos := mkInt(0)
			for _, p := range ps {
				end := mkAdd(pos, mkLen(p))
				// [pos,end) with [lo,hi)
				v, kn := st.eval(mkLe(end, lo))
				if !kn {
					return nil, mkLe(end, lo)
				}
				if v {
					pos = end
					continue
				}
				v, kn = st.eval(mkLe(hi, pos))
				if !kn {
					return nil, mkLe(hi, pos)
				}
				if v {
					break
				}
				a, b := mkInt(0), mkLen(p)
				v, kn = st.eval(mkLe(lo, pos))
				if !kn {
					return nil, mkLe(lo, pos)
				}
				if !v {
					a = mkSub(lo, pos)
				}
				v, kn = st.eval(mkLe(end, hi))
				if !kn {
					return nil, mkLe(end, hi)
				}
				if !v {
					b = mkSub(hi, pos)
				}
				q := mkSubseq(p, a, b)
				if q.op == "cat" {
					parts = append(parts, q.args...)
				} else if q != tEmpty {
					parts = append(parts, q)
				}
				pos = end
			}
			return parts, nil
		}
	}
	if t == tEmpty {
		return nil, nil
	}
	return []*T{t}, nil
}

// joinParts drops empty parts and joins neighbouring pieces of one sequence.
func joinParts(st *State, ps []*T) []*T {
	var out []*T
	for _, p := range ps {
		if st.holds(mkEq0(mkLen(p))) || p.op == "fm" && st.holds(mkEq0(p.args[0])) {
			continue
		}
		// f(0), [f(1), f(2), ...] and [f(0), ..., f(n-1)], f(n)
		if p.op == "fm" && len(out) > 0 {
			if k := tailIs(out, instFm(p, mkInt(-1))); k > 0 {
				x := mkSym("shift!")
				if q := mkFm(mkAdd(p.args[0], mkInt(1)), instFm(p, mkSub(x, mkInt(1))), x); q.op != "cat" {
					out = append(out[:len(out)-k], q)
					continue
				}
			}
		}
		if n := len(out); n > 0 && out[n-1].op == "fm" && p == instFm(out[n-1], out[n-1].args[0]) {
			x := mkSym("shift!")
			if q := mkFm(mkAdd(out[n-1].args[0], mkInt(1)), instFm(out[n-1], x), x); q.op != "cat" {
				out[n-1] = q
				continue
			}
		}
		if n := len(out); n > 0 && p.op == "sub" {
			q := out[n-1]
			if q.op == "sub" && q.args[0] == p.args[0] && st.holds(mkEq0(mkSub(q.args[2], p.args[1]))) {
				out[n-1] = raw("sub", "", nil, p.args[0], q.args[1], p.args[2])
				continue
			}
		}
		out = append(out, p)
	}
	return out
}

// tailIs: the last parts are those of t; their number.
func tailIs(ps []*T, t *T) int {
	ts := []*T{t}
	if t.op == "cat" {
		ts = t.args
	}
	if len(ts) > len(ps) {
		return 0
	}
	for i, x := range ts {
		if ps[len(ps)-len(ts)+i] != x {
			return 0
		}
	}
	return len(ts)
}

// seqSame: a and b are the same sequence under the facts of st; el compares elements.
func seqSame(st *State, a, b *T, el func(st *State, x, y *T) bool, depth int) bool {
	if a == b {
		return true
	}
	pa, u := flatten(st, a)
	if u == nil {
		var pb []*T
		pb, u = flatten(st, b)
		if u == nil {
			pa, pb = joinParts(st, pa), joinParts(st, pb)
			if partsSame(st, pa, pb, el) {
				return true
			}
			for _, p := range append(append([]*T{}, pa...), pb...) {
				if p.op == "list" {
					continue
				}
				c := mkEq0(mkLen(p))
				if _, kn := st.eval(c); !kn {
					u = c
					break
				}
			}
		}
	}
	if u == nil || depth == 0 {
		return false
	}
	for _, v := range []bool{true, false} {
		q := st.clone()
		if !q.assume(u, v) || !q.consistent() {
			continue
		}
		if !seqSame(q, a, b, el, depth-1) {
			return false
		}
	}
	return true
}

func partsSame(st *State, a, b []*T, el func(st *State, x, y *T) bool) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		x, y := a[i], b[i]
		if x == y {
			continue
		}
		if x.op == "list" && y.op == "list" {
			if !el(st, x.args[0], y.args[0]) {
				return false
			}
			continue
		}
		if x.op == "sub" && y.op == "sub" {
			if sameT(st, x.args[0], y.args[0], 0) && st.holds(mkEq0(mkSub(x.args[1], y.args[1]))) && st.holds(mkEq0(mkSub(x.args[2], y.args[2]))) {
				continue
			}
			return false
		}
		// a whole sequence against its own piece
		if x.op == "sub" {
			x, y = y, x
		}
		if y.op == "sub" && sameT(st, x, y.args[0], 0) && st.holds(mkEq0(y.args[1])) && st.holds(mkEq0(mkSub(mkLen(x), y.args[2]))) {
			continue
		}
		if !sameT(st, x, y, 0) {
			return false
		}
	}
	return true
}
