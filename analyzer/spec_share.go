package main

// C38: nothing outside records and stores changes.

import (
	"go/types"
	"regexp"
	"strings"
)

func init() {
	specs["C38"] = spec{run: checkC38, rule: "no assignment, append, copy, map update or modelled library call reachable from an exported function changes a package variable, an object made by package initialisation, or anything reached through a parameter that is not a record, a state, its protobuf message or an in-memory store; methods that only look at a state, record or store assign nothing at all; no slice or map of a package variable is handed out"}
}

// changeable: operations exist to change values of this type.
func (e *Engine) changeable(t types.Type) bool {
	for {
		switch u := t.(type) {
		case *types.Pointer:
			t = u.Elem()
			continue
		case *types.Slice:
			t = u.Elem()
			continue
		}
		break
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	p := n.Obj().Pkg().Path()
	if strings.HasPrefix(p, e.mod+"/generated/") {
		return true
	}
	if !strings.HasPrefix(p, e.mod) {
		return false
	}
	if p == e.mod+"/session" {
		switch n.Obj().Name() {
		case "State", "Record", "GroupState", "GroupRecord":
			return true
		}
	}
	for _, s := range []string{"@/session.Store", "@/session.GroupStore", "@/identity.Store", "@/prekey.Store", "@/prekey.SignedStore", "@/protocol.Store"} {
		i, ok := e.typ(s).Underlying().(*types.Interface)
		if ok && (types.Implements(n, i) || types.Implements(types.NewPointer(n), i)) {
			return true
		}
	}
	return false
}

// ownType is a type of this module, seen through pointers and slices.
func (e *Engine) ownType(t types.Type) *types.Named {
	for {
		switch u := t.(type) {
		case *types.Pointer:
			t = u.Elem()
			continue
		case *types.Slice:
			t = u.Elem()
			continue
		}
		break
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), e.mod) {
		return nil
	}
	return n
}

// looks are the methods that only look at what they are called on.
var looks = map[string]bool{"Clone": true, "AliceBaseKey": true, "Version": true, "RemoteIdentityKey": true, "LocalIdentityKey": true, "SessionWithSelf": true,
	"PreviousCounter": true, "RootKey": true, "SenderRatchetPrivateKey": true, "SenderRatchetKey": true, "ReceiverChain": true, "ReceiverChainKey": true,
	"SenderChainKey": true, "UnacknowledgedPreKeyMessages": true, "LocalRegistrationID": true, "Bytes": true, "State": true, "PreviousStates": true,
	"HasSessionState": true, "ChainID": true, "PrivateSigningKey": true, "PublicSigningKey": true, "StateForChainID": true, "Load": true, "KeyPair": true,
	"IsTrustedIdentity": true, "ID": true, "Timestamp": true, "Signature": true}

// changerRe: library methods which change the value they are called on (locks and counters aside).
var changerRe = regexp.MustCompile(`^\(\*(sync\.Map|container/|bytes\.|strings\.Builder|math/big\.|bufio\.|crypto/|hash/|sync/atomic\.(Value|Pointer))[^)]*\)\.(Store|LoadOrStore|LoadAndDelete|Swap|CompareAnd|Delete|Clear|Write|Reset|Push|Set|Add|Mul|Mod|Init|Remove|Move|Insert|Read|Discard|XORKeyStream|CryptBlocks)`)

func checkC38(k *Chk) {
	for _, prim := range []bool{false, true} {
		e := k.sweep(prim)
		k.sweepNotes(e)
		for _, f := range e.exported() {
			if r := f.Signature.Recv(); r != nil && e.changeable(r.Type()) && looks[f.Name()] {
				k.counts["methods that only look"]++
			}
		}
		for _, w := range e.puts {
			r := rootOf(w.Root)
			if w.How != "" {
				k.at(false, w.How, e, w.Entry, e.where(w.Pos), "", "%s hands out %s, which belongs to a package variable", w.Entry, w.Root.str(6))
				continue
			}
			k.counts["assignments to memory of others"]++
			if r.op == "glob" || e.initObj[r] {
				k.at(false, "package variables stay as initialised", e, w.Entry, e.where(w.Pos), "", "%s changes %s", w.Fn, w.Root.str(6))
				continue
			}
			ok, what := false, ""
			anySub(w.Root, func(x *T) bool {
				if x.vt != nil {
					if e.changeable(x.vt) {
						ok = true
					} else if n := e.ownType(x.vt); n != nil {
						what = e.short(n.String())
					}
				}
				if x.op == "fld" || x.op == "cp" || x.op == "cps" || x.op == "unm" || x.op == "stored" {
					ok = ok || x.op != "fld"
				}
				return ok
			})
			if !ok && (what == "" || r.op != "sym") {
				k.counts["assignments to memory of another kind"]++
				continue
			}
			k.at(ok, "only records and stores change", e, w.Entry, e.where(w.Pos), "", "%s changes %s of a %s it was given", w.Fn, w.Root.str(6), what)
			if i := strings.LastIndex(w.Entry, "."); i > 0 && looks[w.Entry[i+1:]] {
				k.at(anySub(w.Root, func(x *T) bool { return x.op == "cp" || x.op == "cps" || x.op == "unm" }) != nil,
					"looking changes nothing", e, w.Entry, e.where(w.Pos), "", "%s changes %s", w.Fn, w.Root.str(6))
			}
		}
		// values of library types in package variables
		for _, x := range e.exts {
			if x.Entry == "" || len(x.Args) == 0 || !changerRe.MatchString(x.Name) {
				continue
			}
			r := rootOf(x.Args[0])
			k.at(r.op != "glob" && !e.initObj[r], "package variables stay as initialised", e, x.Entry, e.where(x.Pos), "", "%s changes %s by %s", x.Fn, x.Args[0].str(6), x.Name)
		}
	}
	k.floor("assignments to memory of others", 100)
	k.floor("methods that only look", 20)
	k.floor("exported functions", 100)
}
