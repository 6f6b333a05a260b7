package main

// C40: failures tell their reason.

import (
	"go/types"
	"strings"
)

func init() {
	specs["C40"] = spec{run: checkC40, rule: "on every failing path on which the identity store said that the identity is not trusted the error satisfies perrors.IsErrUntrustedIdentity, and on no other; on every failing path on which the message's counter is behind its chain and its saved key gone the error is perrors.ErrDuplicateMessage, and on no other"}
}

// sentinel is the value of an exported error variable.
func (e *Engine) sentinel(name string) *T {
	for a, v := range e.base.heap {
		if a.op == "glob" && strings.HasSuffix(a.s, name) && strings.HasPrefix(a.s, e.mod) {
			return v
		}
	}
	panic(undecided{"no variable " + name})
}

// isErr: errors.Is of the error and the sentinel.
func (c *Case) isErr(err, target *T) (is, known bool) {
	cc := &callCtx{e: c.e, st: c.st}
	return c.st.eval(cc.errIs(err, target))
}

// untrustedErr: what IsErrUntrustedIdentity says of the error.
func (c *Case) untrustedErr(err *T) (is, known bool) {
	is, known, _ = c.untrustedErr1(err)
	return is, known
}

// untrustedErr1 also tells whether it depends on something else.
func (c *Case) untrustedErr1(err *T) (is, known, depends bool) {
	if err.op == "errjoin" {
		for i, a := range err.args {
			v, k, d := c.untrustedErr1(a)
			if !k || i > 0 && v != is {
				return false, false, d
			}
			is = v
		}
		return is, true, false
	}
	if err.op == "err" && !foreignErr(err) {
		return false, true, false // made by a library function, or with fmt.Errorf
	}
	known = true
	n := 0
	for _, o := range c.method("@/perrors.IsErrUntrustedIdentity", err) {
		v, k := o.st.eval(o.vals[0])
		if !k && understood(o.vals[0]) {
			depends = true
		}
		known = known && k && (n == 0 || v == is)
		is = v
		n++
	}
	return is, known && n > 0, depends
}

// understood: the value is made of nothing but inputs.
func understood(t *T) bool {
	return anySub(t, func(x *T) bool { return strings.Contains(x.op, "fresh") || x.op == "join" || x.op == "unknown" }) == nil
}

// foreignErr: the error comes from a store or the given reader, which may return any error.
func foreignErr(err *T) bool {
	return anySub(err, func(x *T) bool { return x.op == "err" && strings.HasPrefix(x.s, "store:") }) != nil
}

func checkC40(k *Chk) {
	e := k.kinds(false)
	k.e = e
	dup := e.sentinel("perrors.ErrDuplicateMessage")
	where := &usedIn{}
	for _, sn := range []string{"ENC", "PPB", "PPK", "DECW", "DECP", "GENC", "GDEC", "GPROC", "GNEW"} {
		for _, c := range k.cases(sn) {
			if c.ok() {
				continue
			}
			err := c.vals[len(c.vals)-1]
			refused := false
			for _, ev := range c.okEv("identity.Store.IsTrustedIdentity") {
				if v, kn := c.st.eval(ev.Res[0]); kn && !v && !ev.Loop {
					refused = true
				}
			}
			is, known, depends := c.untrustedErr1(err)
			switch {
			case refused:
				k.counts["refused identities"]++
				if !known && !depends {
					k.undec = append(k.undec, c.sc.fn+": the error for an untrusted identity is not known: "+err.str(5))
					continue
				}
				k.ob(known && is, "an untrusted identity is reported as one", c, "the store said that the identity is not trusted, but the error %s does not say so", err.str(4))
			case known && !foreignErr(err):
				k.counts["other failures"]++
				k.ob(!is, "only an untrusted identity is reported as one", c, "an untrusted identity is reported although the store did not say so")
			}
			d, known := c.isErr(err, dup)
			if !known || foreignErr(err) {
				continue
			}
			if !d {
				k.obls++
				k.done++
				continue
			}
			k.counts["duplicates reported"]++
			if k.onlyUsed(c) && sn == "DECW" {
				where.add(c)
			}
		}
	}
	k.archived(where)
	k.floor("refused identities", 5)
	k.floor("other failures", 30)
	k.required("duplicates reported", 1)
	for _, sn := range []string{"DECW", "DECP", "GDEC"} {
		k.usedReported(sn)
	}
	k.floor("used messages", 3)
}

// onlyUsed: a message reported as duplicate was used before.
func (k *Chk) onlyUsed(c *Case) bool {
	why, sure := "", true
	if n := c.sc.name; n == "DECW" || n == "DECP" || n == "GDEC" {
		why, sure = c.used()
	}
	if why != "used" && !sure {
		k.undec = append(k.undec, c.sc.fn+": a duplicate reported at "+k.e.where(c.pos)+" is not understood")
		return false
	}
	return k.ob(why == "used", "only a message used before is reported as duplicate", c, "a duplicate is reported although the message's counter was not found to be behind its chain without a saved key")
}

// usedIn tells for which sessions of a record a used message is reported.
type usedIn struct {
	current, first, last, other int
	sample                      *Case
}

func (u *usedIn) add(c *Case) {
	e := c.e
	u.sample = c
	rec := c.loaded("session.Store.Load")
	if rec == nil || c.usedKeys == nil {
		u.other++
		return
	}
	prev := e.recPrev(rec)
	is := idxOf(c.usedKeys, prev)
	switch {
	case len(is) == 1 && !hasBN(is[0]):
		may := func(i *T) bool {
			st := c.st.clone()
			return st.assume(mkEq(is[0], i), true) && st.possible()
		}
		if may(mkInt(0)) {
			u.first++
		}
		if may(mkAdd(mkLen(prev), mkInt(-1))) {
			u.last++
		}
	case len(is) == 0 && contains(c.usedKeys, e.recCur(rec)):
		u.current++
	default:
		u.other++
	}
}

// archived: a used message is reported for the current session and for the first and the last archived one.
func (k *Chk) archived(u *usedIn) {
	k.counts["duplicates of the current session"] = u.current
	k.counts["duplicates of archived sessions"] = u.last
	if u.sample == nil || u.other > 0 || len(k.undec) > 0 {
		return
	}
	k.ob(u.current > 0 && u.first > 0 && u.last > 0, "a message used before is reported as duplicate", u.sample, "no path reports a used message of the current (%d paths), the first archived (%d) or the last archived session (%d)", u.current, u.first, u.last)
}

// used is "used" if the message is behind a chain that has no saved key for it; it is sure if all of its chains (several
// sessions may have one) show that it is not.
func (c *Case) used() (why string, sure bool) {
	e := c.e
	unknown := false
	one := func(n, ix, keys *T, mt types.Type, field string) {
		switch w, _ := c.position(n, ix, keys, mt, field); {
		case w == "used":
			why, c.usedKeys = "used", keys
		case c.st.holds(mkLe(ix, n)) || c.saved(n, keys, mt, field):
			sure = true
		default:
			unknown = true
		}
	}
	switch c.sc.name {
	case "DECW", "DECP":
		mt := ptrTo(e.typ("@/generated/v1.SessionStructure_Chain_MessageKey"))
		_, _, _, msg := c.msgParts()
		for _, ch := range c.chainsIn() {
			one(e.pf(msg, "SignalMessage", "Counter"), e.ch(ch, "ChainKey", "Index"), e.ch(ch, "MessageKeys"), mt, "Index")
		}
	case "GDEC":
		mt := ptrTo(e.typ("@/generated/v1.SenderKeyStateStructure_SenderMessageKey"))
		m, mn := c.gmsg()
		rec := c.grec()
		if rec == nil {
			return "", true
		}
		states := e.grecStates(rec)
		for _, i := range c.idxInFacts(states) {
			S := e.gstate(mkIdxT(states, i, e.gstateT()))
			one(e.pf(m, mn, "Iteration"), e.sk(S, "SenderChainKey", "Iteration"), e.sk(S, "SenderMessageKeys"), mt, "Iteration")
		}
	}
	return why, sure && !unknown
}

// saved: a saved key for counter n was found.
func (c *Case) saved(n, keys *T, mt types.Type, field string) bool {
	for _, i := range c.idxInFacts(keys) {
		el := mkIdxT(keys, i, mt)
		if v, _ := walk(el, mt, field); c.nilness(el) != 1 && c.st.holds(mkEq(v, n)) {
			return true
		}
	}
	return false
}

// usedReported: where nothing else fails, a used message is reported as such.
func (k *Chk) usedReported(name string) {
	e := k.kinds(true)
	defer func(old *Engine) { k.e = old }(k.e)
	k.e = e
	sc := k.scen(name)
	if sc == nil {
		return
	}
	dup := e.sentinel("perrors.ErrDuplicateMessage")
	for i, o := range sc.outs {
		for _, c := range e.splitOutcome(sc, i, o) {
			if !c.st.possible() || c.ok() {
				continue
			}
			if d, known := c.isErr(c.vals[len(c.vals)-1], dup); known && d {
				k.onlyUsed(c)
			}
			if why, _ := c.used(); why != "used" {
				continue
			}
			k.counts["used messages"]++
			err := c.vals[len(c.vals)-1]
			is, known := c.isErr(err, dup)
			if !known {
				k.undec = append(k.undec, c.sc.fn+": the error for a used message is not known")
				continue
			}
			k.ob(is, "a message used before is reported as duplicate", c, "the message is behind its chain and there is no saved key for it, but the error is %s", err.str(4))
		}
	}
}
