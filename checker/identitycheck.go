package main

// C27: labels that are declared identical are one node and keep their own name.
//
// The methods of the identity map are explored path by path, with the two
// storages replaced by their contracts: what is stored for a label or an
// identifier is named by the key, and what is stored during the path is
// recorded. At the end of each path the recorded stores are compared with what
// the operation promises.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type identClient struct {
	BaseClient
	c      *Ctx
	root   *ssa.Function
	exit   func(e *Engine, s *State, instr ssa.Instruction, res []Val)
	visit  func(e *Engine, s *State, instr ssa.Instruction, label, ids Val)
	inIter string
}

func (k *identClient) bad(e *Engine, s *State, instr ssa.Instruction, format string, args ...any) {
	k.c.BadAt("identity", fname(k.root), k.c.W.pos(instr.Pos()), e.Trace(s), format, args...)
}

func (k *identClient) Inline(e *Engine, s *State, cs *CallSite, fn *ssa.Function) bool {
	return isRepo(fn) && (fn.Parent() != nil || fnPkg(fn) == fnPkg(k.root))
}

// part reads a component of a pair of identifiers
func part(e *Engine, s *State, x Val, name string) Val {
	v, _ := e.load(s, x.S+"."+name, types.Typ[types.Uint32])
	return v
}

func (k *identClient) Call(e *Engine, s *State, cs *CallSite) ([]Outcome, bool) {
	com := cs.Instr.Common()
	tup := func(vs ...Val) Val { return Val{K: KTuple, T: vs} }
	nilV := Val{K: KNil}
	if cs.Static != nil && cs.Iface == nil && cs.Static.Signature.Recv() != nil && isIDType(cs.Static.Signature.Recv().Type()) && cs.Static.Name() == "Inc" {
		s.redefine(cs.ResID)
		at := Val{}
		if len(cs.Args) > 0 {
			at = cs.Args[0]
		}
		return []Outcome{{Val: opaque(cs.ResID), Apply: func(s *State) {
			s.D["fresh:"+cs.ResID] = "1"
			if at.S != "" {
				s.mem[at.S] = opaque(cs.ResID)
			}
		}}}, true
	}
	if name := cs.Name(); strings.HasPrefix(name, "(*sync/atomic.Bool)") && len(cs.Args) > 0 {
		// the state of the map is the subject of C05
		return []Outcome{{Val: boolVal(false)}}, true
	}
	m, key, val, ok := hashMapTypes(com)
	if !ok {
		return nil, false
	}
	switch {
	case key == "Label" && val == "TripleID":
		switch m {
		case "Get", "GetZero":
			id := cs.Args[1].String()
			have := term("have", cs.Args[1])
			if set, ok := s.D["fwd:"+id]; ok {
				// stored on this path
				c, l, _ := strings.Cut(set, " ")
				have = term("put", cs.Args[1], opaque(c), opaque(l))
				s.mem[have.S+".Canonical"], s.mem[have.S+".Literal"] = s.vals(c), s.vals(l)
				if m == "Get" {
					return []Outcome{{Val: tup(have, boolVal(true), nilV)}, errOutcome(3)}, true
				}
				return []Outcome{{Val: tup(have, nilV)}, errOutcome(2)}, true
			}
			if m == "GetZero" {
				return []Outcome{{Val: tup(have, nilV)}, errOutcome(2)}, true
			}
			out := []Outcome{}
			if s.D["known:"+id] != "no" {
				out = append(out, Outcome{Val: tup(have, boolVal(true), nilV), Apply: func(s *State) { s.D["known:"+id] = "yes" }})
			}
			if s.D["known:"+id] != "yes" {
				out = append(out, Outcome{Val: tup(opaque("zero;"), boolVal(false), nilV), Apply: func(s *State) { s.D["known:"+id] = "no" }})
			}
			return append(out, errOutcome(3)), true
		case "Set":
			id := cs.Args[1].String()
			c, l := part(e, s, cs.Args[2], "Canonical"), part(e, s, cs.Args[2], "Literal")
			return []Outcome{{Val: nilV, Apply: func(s *State) { s.D["fwd:"+id] = c.String() + " " + l.String() }}, {Val: Val{K: KNonNil, S: "set"}}}, true
		case "Iterate":
			if len(cs.Args) == 2 && cs.Args[1].K == KFunc {
				s.D["iterated"] = "1"
			}
			return nil, false
		case "Has", "Count":
			return nil, false
		case "Delete":
			k.bad(e, s, cs.Instr, "a name is removed")
			return nil, false
		}
	case key == "ID" && val == "Label":
		switch m {
		case "GetZero":
			return []Outcome{{Val: tup(term("name", cs.Args[1]), nilV)}, errOutcome(2)}, true
		case "Get":
			return []Outcome{{Val: tup(term("name", cs.Args[1]), boolVal(true), nilV)}, {Val: tup(opaque("noname;"), boolVal(false), nilV)}, errOutcome(3)}, true
		case "Set":
			a, b := cs.Args[1].String(), cs.Args[2].String()
			return []Outcome{{Val: nilV, Apply: func(s *State) { s.D["rev:"+a] = b }}, {Val: Val{K: KNonNil, S: "set"}}}, true
		}
	case key == "Label" && val == "Label" && m == "Set":
		a, b := cs.Args[1].String(), cs.Args[2].String()
		return []Outcome{{Val: nilV, Apply: func(s *State) { s.D["out"] = a + " " + b }}, {Val: Val{K: KNonNil, S: "set"}}}, true
	}
	return nil, false
}

// vals turns the text of an opaque value back into the value
func (s *State) vals(x string) Val { return opaque(strings.TrimPrefix(x, "o")) }

func (k *identClient) FrameExit(e *Engine, s *State, f *Frame, instr *ssa.Return, res []Val) {
	if f.cont != contArg || len(f.fn.Params) != 2 || len(res) != 1 || k.visit == nil || shortType(f.fn.Params[1].Type()) != "TripleID" {
		return
	}
	if s.isNil(res[0]) == 0 {
		return
	}
	// the arguments by name: the function may have let go of them
	arg := func(i int) Val { return opaque(f.id + ":" + f.fn.Params[i].Name() + ";") }
	k.visit(e, s, instr, arg(0), arg(1))
}

func (k *identClient) Exit(e *Engine, s *State, kind ExitKind, instr ssa.Instruction, res []Val) {
	if kind != ExitReturn || len(res) == 0 || s.isNil(res[len(res)-1]) == 0 {
		return
	}
	k.exit(e, s, instr, res)
}

// equal: what the path knows about the equality of two values
func equal(s *State, a, b string) string {
	if a == b {
		return "t"
	}
	for _, f := range []string{"c:eq:" + a + "|" + b, "c:eq:" + b + "|" + a} {
		if v := s.facts[f]; v != "" {
			return v
		}
	}
	return ""
}

func stores(s *State, prefix string) (out []string) {
	for d := range s.D {
		if strings.HasPrefix(d, prefix) {
			out = append(out, d[len(prefix):])
		}
	}
	return
}

const imapPkg = "triplestore/imap"

func identity(c *Ctx) {
	run := func(name string, params int, set func(k *identClient, fn *ssa.Function, p func(int) string)) {
		fn := methodOf(c.W, imapPkg, "IMap", name)
		if fn == nil || len(fn.Params) != params+1 {
			c.BadAt("identity", "IMap."+name, "internal/triplestore/imap", "", "IMap.%s does not exist in the expected form", name)
			return
		}
		k := &identClient{c: c, root: fn}
		set(k, fn, func(i int) string { return opaque("r:" + fn.Params[i].Name() + ";").String() })
		e := NewEngine(c.W, k)
		e.Strings = true
		e.KeepFacts = true
		e.RootID = "r"
		e.Run(fn, nil)
		c.Counts["abstract_paths_explored"] += e.States
		if e.Over {
			c.BadAt("undecided", fname(fn), c.W.pos(fn.Pos()), "", "too many paths to decide")
		}
	}
	have := func(label, what string) string {
		return opaque("*" + term("have", opaque(strings.TrimPrefix(label, "o"))).S + "." + what + ";").String()
	}
	// ids of a label at the end of a path
	now := func(s *State, label string) (canon, lit string) {
		if v, ok := s.D["fwd:"+label]; ok {
			canon, lit, _ = strings.Cut(v, " ")
			return
		}
		return have(label, "Canonical"), have(label, "Literal")
	}
	// a label that was not known has been entered
	entered := func(k *identClient, e *Engine, s *State, instr ssa.Instruction, label string) {
		if s.D["known:"+label] != "no" {
			return
		}
		_, lit := now(s, label)
		if _, ok := s.D["fwd:"+label]; !ok {
			k.bad(e, s, instr, "a new name is given no identifier")
			return
		}
		if s.D["fresh:"+strings.TrimPrefix(lit, "o")] == "" {
			k.bad(e, s, instr, "a new name is not given an identifier of its own")
		}
		if s.D["rev:"+lit] != label {
			k.bad(e, s, instr, "a new name cannot be found again from the identifier it was given")
		}
	}
	for _, name := range []string{"AddNew", "Add"} {
		run(name, 1, func(k *identClient, fn *ssa.Function, p func(int) string) {
			k.exit = func(e *Engine, s *State, instr ssa.Instruction, res []Val) {
				L := p(1)
				known := s.D["known:"+L]
				c.Ob("names", fmt.Sprintf("%s: known %s %s", fname(fn), known, c.W.pos(instr.Pos())))
				gc, gl := part(e, s, res[0], "Canonical").String(), part(e, s, res[0], "Literal").String()
				switch known {
				case "yes":
					if len(stores(s, "fwd:"))+len(stores(s, "rev:")) > 0 {
						k.bad(e, s, instr, "adding a name that is known changes what is stored")
					}
					if gc != have(L, "Canonical") || gl != have(L, "Literal") {
						k.bad(e, s, instr, "a name that is known is answered with other identifiers than the stored ones")
					}
				case "no":
					entered(k, e, s, instr, L)
					cn, lt := now(s, L)
					if cn != lt {
						k.bad(e, s, instr, "a new name is entered as identical to something else")
					}
					if gc != cn || gl != lt {
						k.bad(e, s, instr, "a new name is answered with other identifiers than those stored for it")
					}
					if len(stores(s, "fwd:")) != 1 || len(stores(s, "rev:")) != 1 {
						k.bad(e, s, instr, "adding a name stores %d and %d entries", len(stores(s, "fwd:")), len(stores(s, "rev:")))
					}
				default:
					k.bad(e, s, instr, "a name is added without asking whether it is known")
				}
				if name == "AddNew" && len(res) == 3 && (s.isTrue(res[1]) != (known == "yes")) {
					k.bad(e, s, instr, "whether the name was known is not reported correctly")
				}
			}
		})
	}
	// identifiers that are given out without a name
	for _, fn := range c.W.Fns {
		r := fn.Signature.Results()
		if !strings.HasSuffix(fnPkg(fn), imapPkg) || fn.Signature.Recv() == nil || recvNamed(fn) == nil || recvNamed(fn).Obj().Name() != "IMap" || len(fn.Params) != 1 || r.Len() == 0 || !isIDType(r.At(0).Type()) {
			continue
		}
		fn := fn
		run(fn.Name(), 0, func(k *identClient, fn *ssa.Function, p func(int) string) {
			c.Ob("own", fname(fn))
			k.exit = func(e *Engine, s *State, instr ssa.Instruction, res []Val) {
				if s.D["fresh:"+strings.TrimPrefix(res[0].String(), "o")] == "" {
					k.bad(e, s, instr, "the identifier that is given out is not a new one: it was given to something else before")
				}
			}
		})
	}
	run("Get", 1, func(k *identClient, fn *ssa.Function, p func(int) string) {
		k.exit = func(e *Engine, s *State, instr ssa.Instruction, res []Val) {
			c.Ob("names", fname(fn)+" "+s.D["known:"+p(1)])
			if len(stores(s, "fwd:"))+len(stores(s, "rev:")) > 0 {
				k.bad(e, s, instr, "looking a name up changes what is stored")
			}
			if s.D["known:"+p(1)] == "yes" && (part(e, s, res[0], "Canonical").String() != have(p(1), "Canonical") || part(e, s, res[0], "Literal").String() != have(p(1), "Literal")) {
				k.bad(e, s, instr, "a known name is answered with other identifiers than the stored ones")
			}
			if s.isTrue(res[1]) != (s.D["known:"+p(1)] == "yes") {
				k.bad(e, s, instr, "whether the name is known is not reported correctly")
			}
		}
	})
	run("Forward", 1, func(k *identClient, fn *ssa.Function, p func(int) string) {
		k.exit = func(e *Engine, s *State, instr ssa.Instruction, res []Val) {
			c.Ob("names", fname(fn)+" "+c.W.pos(instr.Pos()))
			if s.D["known:"+p(1)] == "no" {
				return
			}
			if got := res[0].String(); got != have(p(1), "Canonical") {
				k.bad(e, s, instr, "a name is not looked up under the identifier it shares with the names identical to it")
			}
		}
	})
	run("Reverse", 1, func(k *identClient, fn *ssa.Function, p func(int) string) {
		k.exit = func(e *Engine, s *State, instr ssa.Instruction, res []Val) {
			c.Ob("names", fname(fn)+" "+c.W.pos(instr.Pos()))
			if got := res[0].String(); got != term("name", opaque(strings.TrimPrefix(p(1), "o"))).String() && !strings.HasPrefix(got, "ononame;") {
				k.bad(e, s, instr, "an identifier is not answered with the name stored for it")
			}
		}
	})
	run("MarkIdentical", 2, func(k *identClient, fn *ssa.Function, p func(int) string) {
		// identifiers both names have before the identification itself
		before := func(s *State, label string) string {
			if s.D["known:"+label] == "yes" {
				return have(label, "Canonical")
			}
			_, lit := now(s, label)
			return lit
		}
		k.visit = func(e *Engine, s *State, instr ssa.Instruction, label, ids Val) {
			canon, alias := before(s, p(1)), before(s, p(2))
			cc, ll := part(e, s, ids, "Canonical").String(), part(e, s, ids, "Literal").String()
			is := equal(s, cc, alias)
			skip := is == "f" || equal(s, label.String(), p(1)) == "t" || equal(s, cc, canon) == "t"
			set, ok := s.D["fwd:"+label.String()]
			c.Ob("identified", fmt.Sprintf("%s: visited %s, stored %v", fname(fn), c.W.pos(instr.Pos()), ok))
			switch {
			case !ok && !skip:
				k.bad(e, s, instr, "a name that was identical to the replaced one is left behind")
			case ok && is != "t":
				k.bad(e, s, instr, "a name is made identical that was not identical to the replaced one")
			case ok && set != canon+" "+ll:
				k.bad(e, s, instr, "a name that was identical to the replaced one does not get the shared identifier, or loses its own")
			}
			delete(s.D, "fwd:"+label.String())
		}
		k.exit = func(e *Engine, s *State, instr ssa.Instruction, res []Val) {
			N, O := p(1), p(2)
			kn, ko := s.D["known:"+N], s.D["known:"+O]
			c.Ob("identified", fmt.Sprintf("%s: %s/%s %s", fname(fn), kn, ko, c.W.pos(instr.Pos())))
			if kn == "" || ko == "" {
				k.bad(e, s, instr, "names are made identical without asking for both")
				return
			}
			entered(k, e, s, instr, N)
			entered(k, e, s, instr, O)
			canon, alias := before(s, N), before(s, O)
			if got := res[0].String(); got != canon {
				k.bad(e, s, instr, "the identifier that is returned is not the one of the remaining name")
			}
			if cn, _ := now(s, N); cn != canon {
				k.bad(e, s, instr, "the remaining name changes its identifier")
			}
			switch {
			case equal(s, canon, alias) == "t", s.D["iterated"] != "":
				return
			case ko == "yes":
				k.bad(e, s, instr, "names that were identical to the replaced one are not updated")
			default:
				cn, lt := now(s, O)
				if cn != canon {
					k.bad(e, s, instr, "the replaced name does not get the identifier of the remaining one")
				}
				if lt != alias {
					k.bad(e, s, instr, "the replaced name loses its own identifier")
				}
			}
		}
	})
	run("IdentityMap", 1, func(k *identClient, fn *ssa.Function, p func(int) string) {
		k.visit = func(e *Engine, s *State, instr ssa.Instruction, label, ids Val) {
			name := term("name", part(e, s, ids, "Canonical")).String()
			out, ok := s.D["out"]
			c.Ob("identified", fmt.Sprintf("%s: listed %v %s", fname(fn), ok, c.W.pos(instr.Pos())))
			eq := equal(s, name, label.String())
			switch {
			case ok && out != label.String()+" "+name:
				k.bad(e, s, instr, "a name is listed with another one than the name it is identical to")
			case ok && eq != "f":
				k.bad(e, s, instr, "a name may be listed as identical to itself")
			case !ok && eq != "t":
				k.bad(e, s, instr, "a name that is identical to another one is not listed")
			}
			delete(s.D, "out")
		}
		k.exit = func(e *Engine, s *State, instr ssa.Instruction, res []Val) {
			if s.D["iterated"] == "" {
				k.bad(e, s, instr, "not all names are visited")
			}
		}
	})
}

func (s *State) isTrue(v Val) bool {
	return v.K == KBool && v.N == 1
}

func init() {
	register(&Check{
		Prop: "C27",
		Explain: "Every path of the methods of the identity map is explored with its two storages replaced by their contracts (what is stored is named by its key; a name is known or not; each access may fail). " +
			"names: a known name is answered with exactly what is stored and changes nothing, a new one gets a fresh identifier as both its own and its shared one, entered in both directions; an identifier that is given out without a name is a fresh one (own); a name is looked up under its shared identifier. " +
			"identified: after a successful MarkIdentical either both names already shared an identifier, or the replaced name is new and stored with the shared identifier and its own, or every stored name is visited and exactly those that shared the identifier of the replaced one are stored with the shared identifier of the remaining one and their own; IdentityMap lists a name exactly when the name of its shared identifier differs from it.",
		Assume: []string{
			"a storage answers a lookup with what was stored last (C13, C18), and visits every entry in Iterate (C01, C18)",
			"the finalised state is the subject of C05",
		},
		Floors: map[string]int{"names": 6, "identified": 5},
		Run:    identity,
	})
}
