package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

func ptrTo(t types.Type) types.Type { return types.NewPointer(t) }

type spec struct {
	prim bool // analyse the curve and aes packages themselves
	run  func(k *Chk)
	rule string
}

var specs = map[string]spec{}

// floor: at least n instances of something must have been met, else the check would be vacuous.
func (k *Chk) floor(what string, n int) {
	if k.counts[what] < n && len(k.viols) == 0 {
		k.undec = append(k.undec, fmt.Sprintf("only %d %s (at least %d expected)", k.counts[what], what, n))
	}
}

func (k *Chk) safely(f func(k *Chk)) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(undecided); ok {
				k.undec = append(k.undec, u.msg)
				return
			}
			if os.Getenv("VSA_DEBUG") != "" {
				panic(r)
			}
			k.undec = append(k.undec, fmt.Sprint("analyzer: ", r))
		}
	}()
	f(k)
}

func checkMain(ids []string) int {
	dir := os.Getenv("VSA_OUT")
	if dir == "" {
		dir = "/verif/evidence"
	}
	os.MkdirAll(dir, 0o755)
	prog, _, mod, err := load()
	if err != nil {
		fmt.Println("cannot load /repo:", err)
		for _, id := range ids {
			p := filepath.Join(dir, id+".violation.txt")
			os.WriteFile(p, []byte("the tree does not type-check: "+err.Error()+"\n"), 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, p)
		}
		return 1
	}
	var eng [5]*Engine
	rc := 0
	for _, id := range ids {
		t0 := time.Now()
		sp, ok := specs[id]
		if !ok {
			fmt.Println("no check for", id)
			return 2
		}
		k := &Chk{id: id, counts: map[string]int{}, rules: map[string]int{}, known: map[string]string{}}
		k.engine = func(prim bool) *Engine {
			n := 0
			if prim {
				n = 1
			}
			if eng[n] == nil {
				eng[n] = newEngine(prog, mod, !prim)
			}
			return eng[n]
		}
		k.angels = func() *Engine {
			if eng[2] == nil {
				eng[2] = newEngine(prog, mod, true)
				eng[2].angel, eng[2].split = true, true
			}
			return eng[2]
		}
		k.kinds = func(angels bool) *Engine {
			n := 3
			if angels {
				n = 4
			}
			if eng[n] == nil {
				eng[n] = newEngine(prog, mod, true)
				eng[n].kinds = true
				eng[n].angel, eng[n].split = angels, angels
			}
			return eng[n]
		}
		k.safely(func(k *Chk) { k.e = k.engine(sp.prim) })
		if k.e != nil {
			k.safely(sp.run)
		}
		if k.report(dir, sp, time.Since(t0)) {
			rc = 1
		}
	}
	return rc
}

func (k *Chk) report(dir string, sp spec, wall time.Duration) bool {
	known := loadKnown()
	var viols []Viol
	for _, v := range k.viols {
		if msg := known.match(k.id, v); msg != "" {
			k.known[msg] = v.Rule
			continue
		}
		viols = append(viols, v)
	}
	for m := range k.known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", k.id, m)
	}
	replay := filepath.Join(dir, k.id+".violation.txt")
	os.Remove(replay)
	if len(viols) > 0 {
		var b strings.Builder
		for _, v := range viols {
			fmt.Fprintf(&b, "rule: %s\nin: %s at %s\nwhat: %s\n%s\n", v.Rule, v.Scen, v.Where, v.Msg, v.Path)
		}
		os.WriteFile(replay, []byte(b.String()), 0o644)
		seen := map[string]bool{}
		for _, v := range viols {
			s := fmt.Sprintf("  [%s] %s (%s): %s", v.Rule, v.Scen, v.Where, v.Msg)
			if !seen[s] && len(seen) < 12 {
				seen[s] = true
				fmt.Println(s)
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", k.id, replay)
	}
	for _, u := range k.undec {
		fmt.Printf("UNDECIDED property=%s %s\n", k.id, u)
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]any{
		"obligations":  k.obls,
		"discharged":   k.done,
		"checker_cmd":  "/verif/check.sh " + k.id,
		"trusted_base": trusted,
		"rule":         sp.rule,
		"samples":      k.samples,
		"rules":        k.rules,
		"undecided":    k.undec,
	}
	if k.e != nil {
		cov["functions_analysed"] = len(k.e.seen)
		cov["functions"] = k.e.seenNames()
		cov["ssa_instructions_interpreted"] = k.e.steps
		var ns []string
		for n := range k.e.notes {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		cov["notes"] = ns
	}
	for n, v := range k.counts {
		cov[strings.ReplaceAll(n, " ", "_")] = v
	}
	ev := map[string]any{
		"property": k.id, "tier": tier, "seed": seed, "level": "proof",
		"coverage": cov, "assumptions": assumptions, "wall_s": wall.Seconds(), "violations": len(viols),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, k.id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println(err)
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d violations, %d undecided (%.1fs)\n", k.id, k.obls, k.done, len(viols), len(k.undec), wall.Seconds())
	return len(viols) > 0
}

func (e *Engine) seenNames() []string {
	var ns []string
	for f := range e.seen {
		if e.inModule(f) {
			ns = append(ns, e.short(f.String()))
		}
	}
	sort.Strings(ns)
	return ns
}

var trusted = []string{
	"the Go type checker and golang.org/x/tools/go/ssa",
	"the analyzer's models of the standard library, protobuf, hkdf and the field arithmetic of edwards25519 (analyzer/models.go, analyzer/curvemodel.go)",
	"collision resistance and unforgeability are not decided: hashes, MACs, signatures and ciphers are free operators",
}

var assumptions = []string{
	"integers are treated as unbounded (counters do not wrap around)",
	"stores behave as their interface says: Load does not change what it returns later, errors mean no effect",
	"no two goroutines use one session at the same time",
	"protobuf marshalling followed by unmarshalling yields the same fields",
}

// ---------------------------------------------------------------- known findings

type knownFinding struct{ prop, rule, where, text string }
type knownList []knownFinding

// loadKnown reads known-findings.txt: lines "known: property=<id> rule=<rule> fn=<function> :: <text>".
func loadKnown() knownList {
	p := os.Getenv("VSA_KNOWN")
	if p == "" {
		p = "/verif/known-findings.txt"
	}
	b, err := os.ReadFile(p)
	if err != nil {
		return nil
	}
	var l knownList
	for _, line := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(line, "known: ") {
			continue
		}
		head, text, ok := strings.Cut(line[len("known: "):], " :: ")
		if !ok {
			continue
		}
		f := knownFinding{text: text}
		for _, kv := range strings.Split(head, "; ") {
			n, v, _ := strings.Cut(kv, "=")
			switch n {
			case "property":
				f.prop = v
			case "rule":
				f.rule = v
			case "fn":
				f.where = v
			}
		}
		l = append(l, f)
	}
	return l
}

func (l knownList) match(id string, v Viol) string {
	for _, f := range l {
		if f.prop == id && f.rule == v.Rule && f.where == v.Scen {
			return f.text
		}
	}
	return ""
}
