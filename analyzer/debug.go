package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"
)

func debugMain(args []string) {
	prog, _, mod, err := load()
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	opaque := true
	if args[0] == "-prim" {
		opaque = false
		args = args[1:]
	}
	t0 := time.Now()
	e := newEngine(prog, mod, opaque)
	angel = os.Getenv("ANGEL") != ""
	e.split = angel
	fmt.Println("init", time.Since(t0), len(e.base.heap))
	for _, n := range args {
		if !strings.Contains(n, "/") {
			t0 := time.Now()
			s := e.scen(n)
			fmt.Println("== scenario", n, len(s.outs), "outcomes", time.Since(t0), "steps", e.steps)
			if os.Getenv("STORED") != "" {
				e.dumpStored(s)
				continue
			}
			e.dump(s.outs, s.res)
			continue
		}
		f := e.lookupFn(n)
		if f == nil {
			fmt.Println("no function", n)
			continue
		}
		var as []*T
		for _, p := range f.Params {
			as = append(as, withVT(mkSym(p.Name()), p.Type()))
		}
		t0 := time.Now()
		outs := e.call(e.base, n, as...)
		fmt.Println("==", n, len(outs), "outcomes", time.Since(t0), "steps", e.steps)
		e.dump(outs, f.Signature.Results())
	}
	var ns []string
	for n, c := range e.notes {
		ns = append(ns, fmt.Sprint(n, " x", c))
	}
	sort.Strings(ns)
	for _, n := range ns {
		fmt.Println("note", n)
	}
	for _, o := range e.obls {
		if !o.Proved {
			fmt.Println("unproved", o.Kind, e.where(o.Pos), o.Cond)
		}
	}
}

func (e *Engine) dump(outs []Outcome, res *types.Tuple) {
	for i, o := range outs {
		fmt.Printf("-- outcome %d panic=%v at %s\n", i, o.panic, e.where(o.pos))
		for j, v := range o.vals {
			rt := res.At(j).Type()
			fmt.Printf("   val %d: %s\n", j, e.reify(o.st, v, rt).str(9))
		}
		for _, ev := range o.st.events {
			fmt.Printf("   ev %s flat=%s res=%s ok=%v loop=%v @%s\n", ev.Kind, ev.Flat, ev.Res, ev.Ok, ev.Loop, e.where(ev.Pos))
		}
		if os.Getenv("FACTS") == "" {
			continue
		}
		var fs []string
		for f, v := range o.st.facts {
			if !v {
				fs = append(fs, "!"+f.String())
			} else {
				fs = append(fs, f.String())
			}
		}
		sort.Strings(fs)
		for _, f := range fs {
			fmt.Println("   fact", f)
		}
	}
}

func (e *Engine) dumpStored(s *Scen) {
	for i, o := range s.outs {
		for _, c := range e.splitOutcome(s, i, o) {
			if !c.ok() {
				continue
			}
			for _, v := range c.views() {
				fmt.Println("== view", v.kind, v.how)
			}
			for _, ev := range c.okEv("session.Store.Store") {
				rec := ev.Flat[2]
				fmt.Println("  prev", e.recPrev(rec).str(12))
				S := e.stateSess(e.recCur(rec))
				st := e.sessT().Underlying().(*types.Struct)
				for i := 0; i < st.NumFields(); i++ {
					if !isProtoInternal(st.Field(i).Name()) {
						fmt.Println("  ", st.Field(i).Name(), e.ss(S, st.Field(i).Name()).str(14))
					}
				}
			}
			for _, ev := range c.okEv("session.GroupStore.Store") {
				fmt.Println("  rec", ev.Flat[3].str(20))
			}
		}
	}
}
