package main

// Scenarios: runs of the exported operations on arbitrary inputs.

import (
	"go/types"
)

// Scen is an analysed run of an exported operation from an arbitrary start.
type Scen struct {
	name  string
	fn    string
	outs  []Outcome
	args  map[string]*T
	e     *Engine
	res   *types.Tuple
	cases []*Case
}

// prep is a preparing step: an exported constructor whose success is assumed.
func (e *Engine) prep(st *State, fn string, args ...*T) []Outcome {
	var ok []Outcome
	for _, o := range e.call(st, fn, args...) {
		if !o.panic && o.st.consistent() && len(o.vals) > 0 && o.vals[len(o.vals)-1] == tNil {
			ok = append(ok, o)
		}
	}
	if len(ok) == 0 {
		panic(undecided{fn + " never succeeds"})
	}
	return ok
}

func (e *Engine) symT(name string, t types.Type) *T { return withVT(mkSym(name), t) }

var bytesT = types.NewSlice(types.Typ[types.Byte])

// params makes symbols for the parameters of fn; given values replace them by name or position.
func (e *Engine) params(fn string) []*T {
	f := e.lookupFn(fn)
	if f == nil {
		panic(undecided{"function " + fn + " not found"})
	}
	var as []*T
	if r := f.Signature.Recv(); r != nil {
		as = append(as, withVT(mkSym("self"), r.Type()))
	}
	for i := 0; i < f.Signature.Params().Len(); i++ {
		p := f.Signature.Params().At(i)
		as = append(as, withVT(mkSym("p"+itoa(i)), p.Type()))
	}
	return as
}

func (e *Engine) scen(name string) *Scen {
	if s, ok := e.scens[name]; ok {
		return s
	}
	s := &Scen{name: name, e: e, args: map[string]*T{}}
	defer func(a bool) { e.entry, angel = "", a }(angel)
	angel = angel || e.angel
	if e.scens == nil {
		e.scens = map[string]*Scen{}
	}
	e.scens[name] = s
	wire := e.symT("wire", bytesT)
	s.args["wire"] = wire
	type pre struct {
		st *State
		v  *T
	}
	parsed := func(fn string) []pre {
		var ps []pre
		for _, o := range e.prep(e.base, fn, wire) {
			ps = append(ps, pre{o.st, o.vals[0]})
		}
		return ps
	}
	plain := []pre{{e.base, nil}}
	run := func(fn string, pres []pre, at int) {
		s.fn = fn
		s.res = e.lookupFn(fn).Signature.Results()
		for _, p := range pres {
			as := e.params(fn)
			if p.v != nil {
				as[at] = p.v
			}
			s.args["self"] = as[0]
			for i, a := range as[1:] {
				s.args["p"+itoa(i)] = a
			}
			e.entry = name
			for _, o := range e.call(p.st, fn, as...) {
				if !o.panic && o.st.consistent() {
					s.outs = append(s.outs, o)
				}
			}
		}
	}
	switch name {
	case "ENC":
		run("(*@/session.Session).EncryptMessage", plain, 0)
	case "DECW":
		run("(*@/session.Session).DecryptMessage", parsed("@/message.NewSignalFromBytes"), 3)
	case "DECP":
		run("(*@/session.Session).DecryptMessage", parsed("@/message.NewPreKeyFromBytes"), 3)
	case "PPK":
		run("(*@/session.Session).ProcessPreKey", parsedPtr(parsed("@/message.NewPreKeyFromBytes"), func(p pre) pre { p.v = p.v.args[0]; return p }), 3)
	case "PPB":
		run("(*@/session.Session).ProcessPreKeyBundle", plain, 0)
	case "GENC":
		run("(*@/session.GroupSession).EncryptMessage", plain, 0)
	case "GDEC":
		run("(*@/session.GroupSession).DecryptMessage", parsed("@/message.NewSenderKeyFromBytes"), 2)
	case "GPROC":
		run("(*@/session.GroupSession).ProcessSenderKeyDistribution", parsed("@/message.NewSenderKeyDistributionFromBytes"), 2)
	case "GNEW":
		run("(*@/session.GroupSession).NewSenderKeyDistribution", plain, 0)
	default:
		panic("scenario " + name)
	}
	return s
}

func parsedPtr[P any](ps []P, f func(P) P) []P {
	for i := range ps {
		ps[i] = f(ps[i])
	}
	return ps
}
