package main

// Runs in which nothing outside the code fails: stores and readers work, what is parsed is well-formed, tags and
// signatures are right, identities are trusted, stored state is complete. What still fails was refused by the code.

import (
	"go/types"
	"regexp"
	"strings"
)

var angel bool

func hasOp(t *T, op string) bool {
	return anySub(t, func(x *T) bool { return x.op == op }) != nil
}

// fromStore: a field of something loaded from a store.
func fromStore(t *T) bool {
	for t.op == "fld" || t.op == "idx" || t.op == "deref" {
		t = t.args[0]
	}
	return t.op == "stored"
}

var pubFldRe = regexp.MustCompile(`(?i)(public|ratchetkey$)`)

// angelVal: what a stored number is assumed to be.
func angelVal(a *T) (int64, bool) {
	if !fromStore(a) && (a.op != "len" || !fromStore(a.args[0])) {
		return 0, false
	}
	if a.op == "fld" && (a.s == "SessionVersion" || a.s == "MessageVersion") {
		return 3, true
	}
	if a.op != "len" || a.args[0].op != "fld" || a.args[0].vt == nil {
		return 0, false
	}
	f := a.args[0]
	if f.s == "previousSessions" {
		return 0, true
	}
	sl, ok := f.vt.Underlying().(*types.Slice)
	if !ok {
		return 0, false
	}
	if b, ok := sl.Elem().Underlying().(*types.Basic); !ok || b.Kind() != types.Byte {
		return 0, false
	}
	switch {
	case f.s == "AliceBaseKey":
		return 0, false
	case f.s == "Iv":
		return 16, true
	case pubFldRe.MatchString(f.s) && f.s != "SenderRatchetKeyPrivate":
		return 33, true
	}
	return 32, true
}

var mayBeNil = map[string]bool{"PendingPreKey": true, "PendingKeyExchange": true, "PreKeyId": true}

func (s *State) angelic(c *T) (val, known bool) {
	switch c.op {
	case "verify":
		return true, true
	case "storebool":
		ok := strings.Contains(c.args[0].s, "IsTrusted")
		return ok, ok
	case "eq":
		a, b := c.args[0], c.args[1]
		if isTag(a) && hasWire(b) || isTag(b) && hasWire(a) {
			return true, true
		}
		if a.op == "nil" && (b.op == "fld" && !mayBeNil[b.s] || b.op == "idx") && fromStore(b) {
			if _, ok := b.vt.Underlying().(*types.Pointer); ok {
				return false, true
			}
		}
	case "le0", "eq0":
		l := linOf(c.args[0])
		r := lin{k: l.k}
		subst := false
		for a, n := range l.m {
			if v, ok := angelVal(a); ok {
				r.k += n * v
				subst = true
				continue
			}
			if a.op == "len" && a.args[0].op == "fld" && a.args[0].s == "states" && fromStore(a.args[0]) && len(l.m) == 1 && l.k == 0 {
				return false, true // some sender key
			}
			r = linAdd(r, lin{m: map[*T]int64{a: 1}}, n)
		}
		if subst {
			d := r.term()
			if c.op == "le0" {
				return s.eval1(mkLe0(d))
			}
			return s.eval1(mkEq0(d))
		}
	}
	return okPreds[c.op], okPreds[c.op]
}

func isTag(t *T) bool {
	for t.op == "sub" {
		t = t.args[0]
	}
	return t.op == "hmac256"
}

func hasWire(t *T) bool {
	return anySub(t, func(x *T) bool { return x.op == "sym" && x.s == "wire" }) != nil
}
