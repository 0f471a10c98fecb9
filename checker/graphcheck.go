package main

// C21: every statement is reachable from both ends, with its inverse, consistently.
//
// The functions of the graph index that fill and query it are explored path by
// path. Identifiers are named by where they come from (the identifier of the
// n-th argument, the inverse that was looked up, the node that a query stands
// at), so that what is stored and looked up can be compared position by position.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// typeArgs of a named generic type
func typeArgs(t types.Type) []types.Type {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	n, ok := t.(*types.Named)
	if !ok || n.TypeArgs() == nil {
		return nil
	}
	var out []types.Type
	for i := 0; i < n.TypeArgs().Len(); i++ {
		out = append(out, n.TypeArgs().At(i))
	}
	return out
}

func shortType(t types.Type) string {
	if n := namedOf(t); n != nil {
		return n.Obj().Name()
	}
	return t.String()
}

// hashMapTypes: key and value type names when the call goes to a key-value storage
func hashMapTypes(c *ssa.CallCommon) (method, key, val string, ok bool) {
	var recv types.Type
	if c.IsInvoke() {
		recv, method = c.Value.Type(), c.Method.Name()
	} else if sc := c.StaticCallee(); sc != nil && sc.Signature.Recv() != nil && len(c.Args) > 0 {
		recv, method = c.Args[0].Type(), origin(sc).Name()
	} else {
		return
	}
	ta := typeArgs(recv)
	if len(ta) != 2 {
		return
	}
	n := namedOf(recv)
	if n.Obj().Pkg() == nil || !strings.HasSuffix(n.Obj().Pkg().Path(), "triplestore/imap") {
		return
	}
	return method, shortType(ta[0]), shortType(ta[1]), true
}

// isThree: storages for triples of identifiers
func isThree(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	n := 0
	for m := range i.Methods() {
		switch m.Name() {
		case "Add", "Fetch", "Has", "Finalize":
			n++
		}
	}
	return n == 4
}

func isIDType(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Name() == "ID" && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "triplestore/impl")
}

// threeField: which storage of the index the receiver is
func threeField(v Val) string {
	s := strings.TrimSuffix(v.S, ";")
	return s[strings.LastIndexByte(s, '.')+1:]
}

type graphClient struct {
	BaseClient
	c    *Ctx
	root *ssa.Function
	// orders in which storages are filled, e.g. psoIndex -> 1,0,2
	order map[string]map[string]bool
	// lookups in terms of roles
	look []lookup
	// rule for what a completed addition has to look like
	done   func(e *Engine, s *State, instr ssa.Instruction)
	result func(e *Engine, s *State, instr ssa.Instruction, res []Val)
	// parameters of the root by role
	role map[string]string
	bare bool
	// name of the older of two statements that are decided between
	older string
}

type lookup struct {
	field, method, roles, where string
	instr                       ssa.Instruction
}

func (k *graphClient) bad(e *Engine, s *State, instr ssa.Instruction, format string, args ...any) {
	k.c.BadAt("graph-consistent", fname(k.root), k.c.W.pos(instr.Pos()), e.Trace(s), format, args...)
}

func (k *graphClient) Inline(e *Engine, s *State, cs *CallSite, fn *ssa.Function) bool {
	return isRepo(fn) && (fn.Parent() != nil || fnPkg(fn) == fnPkg(k.root) || fnPkg(outermost(fn)) == fnPkg(k.root))
}

func idTerm(label Val) Val   { return term("ids", label) }
func canonOf(ids string) Val { return opaque("*" + ids + ".Canonical;") }

func errOutcome(n int) Outcome {
	t := make([]Val, n)
	for i := range t {
		t[i] = opaque("failed;")
	}
	t[n-1] = Val{K: KNonNil, S: "storage"}
	return Outcome{Val: Val{K: KTuple, T: t}}
}

func (k *graphClient) field(e *Engine, s *State, v Val, path string) string {
	x, _ := e.load(s, v.S+path, types.Typ[types.Uint32])
	return x.String()
}

func (k *graphClient) Call(e *Engine, s *State, cs *CallSite) ([]Outcome, bool) {
	com := cs.Instr.Common()
	tup := func(vs ...Val) Val { return Val{K: KTuple, T: vs} }
	nilV := Val{K: KNil}
	if cs.Iface == nil && cs.Static != nil && cs.Static.Signature.Recv() != nil {
		rn := recvNamed(cs.Static)
		if rn != nil && rn.Obj().Name() == "IMap" {
			switch cs.Static.Name() {
			case "Add":
				return []Outcome{{Val: tup(idTerm(cs.Args[1]), nilV)}, errOutcome(2)}, true
			case "AddNew":
				return []Outcome{{Val: tup(idTerm(cs.Args[1]), opaque(cs.ResID), nilV)}, errOutcome(3)}, true
			case "Get":
				return []Outcome{
					{Val: tup(idTerm(cs.Args[1]), boolVal(true), nilV)},
					{Val: tup(idTerm(cs.Args[1]), boolVal(false), nilV), Apply: func(s *State) { s.D["masked"] = "unknown label" }},
					errOutcome(3),
				}, true
			case "Reverse":
				return []Outcome{{Val: tup(term("label", cs.Args[1]), nilV)}, errOutcome(2)}, true
			case "Forward":
				return []Outcome{{Val: tup(canonOf(idTerm(cs.Args[1]).S), nilV)}, errOutcome(2)}, true
			case "Next":
				s.redefine(cs.ResID)
				return []Outcome{{Val: opaque(cs.ResID)}}, true
			}
			return nil, false
		}
		if isIDType(cs.Static.Signature.Recv().Type()) && cs.Static.Name() == "Inc" {
			s.redefine(cs.ResID)
			return []Outcome{{Val: opaque(cs.ResID)}}, true
		}
	}
	if m, key, val, ok := hashMapTypes(com); ok && key == "ID" {
		switch {
		case m == "Set" && val == "IndexTriple":
			x := cs.Args[2]
			rec := k.field(e, s, x, ".Role")
			for _, part := range []string{"Canonical", "Literal"} {
				for i := 0; i < 3; i++ {
					rec += " " + k.field(e, s, x, fmt.Sprintf(".Items[%d].%s", i, part))
				}
			}
			id := "rec:" + cs.Args[1].String()
			return []Outcome{{Val: nilV, Apply: func(s *State) {
				if s.D[id] != "" {
					s.D["twice"] = "1"
				}
				s.D[id] = rec
			}}, {Val: Val{K: KNonNil, S: "set"}}}, true
		case m == "Set" && val == "ID":
			a, b := cs.Args[1].String(), cs.Args[2].String()
			return []Outcome{{Val: nilV, Apply: func(s *State) { s.D["inv:"+a] = b }}, {Val: Val{K: KNonNil, S: "set"}}}, true
		case m == "Set" && (val == "Datum" || val == "Language"):
			a, b := cs.Args[1].String(), cs.Args[2].String()
			return []Outcome{{Val: nilV, Apply: func(s *State) { s.D[strings.ToLower(val)+":"+a] = b }}, {Val: Val{K: KNonNil, S: "set"}}}, true
		case m == "Get" && val == "IndexTriple":
			return []Outcome{{Val: tup(term("stored", cs.Args[1]), boolVal(true), nilV)}, errOutcome(3)}, true
		case (m == "Get" || m == "GetZero") && (val == "Datum" || val == "Language"):
			v := term(strings.ToLower(val), cs.Args[1])
			if m == "Get" {
				return []Outcome{{Val: tup(v, opaque(cs.ResID), nilV)}, errOutcome(3)}, true
			}
			return []Outcome{{Val: tup(v, nilV)}, errOutcome(2)}, true
		case m == "Get" && val == "ID":
			of := cs.Args[1]
			t := term("inverse", of)
			return []Outcome{
				{Val: tup(t, boolVal(true), nilV), Apply: func(s *State) { s.D["asked:"+of.String()] = "yes" }},
				{Val: tup(opaque("none;"), boolVal(false), nilV), Apply: func(s *State) { s.D["asked:"+of.String()] = "no" }},
				errOutcome(3),
			}, true
		}
		return nil, false
	}
	if com.IsInvoke() && isThree(com.Value.Type()) {
		f := threeField(cs.Args[0])
		switch com.Method.Name() {
		case "Add":
			what := cs.Args[1].String() + " " + cs.Args[2].String() + " " + cs.Args[3].String()
			key := "fill:" + f + ":" + cs.Args[4].String()
			return []Outcome{
				{Val: tup(opaque(cs.ResID), nilV), Apply: func(s *State) {
					if s.D[key] != "" {
						s.D["twice"] = "1"
					}
					s.D[key] = what
				}},
				errOutcome(2),
			}, true
		case "Fetch":
			k.lookup(cs, s, f, "Fetch", cs.Args[1:3])
			return nil, false
		case "Has":
			k.lookup(cs, s, f, "Has", cs.Args[1:4])
			id := opaque("found:" + cs.ResID)
			return []Outcome{
				{Val: tup(id, boolVal(true), nilV), Apply: func(s *State) { s.D["has"], s.D["hasframe"] = "yes", s.top().id }},
				{Val: tup(opaque("none;"), boolVal(false), nilV), Apply: func(s *State) { s.D["has"], s.D["hasframe"] = "no", s.top().id }},
				{Val: tup(opaque("failed;"), boolVal(false), Val{K: KNonNil, S: "has"}), Apply: func(s *State) { s.D["has"] = "err" }},
			}, true
		}
		return nil, false
	}
	if b, ok := com.Value.(*ssa.Builtin); ok && b.Name() == "append" && len(cs.Args) == 2 {
		if el, ok := e.variadic(s, cs.ArgV[1], cs.Args[1]); ok {
			for _, x := range el {
				if strings.HasPrefix(x.S, "found:") {
					s.D["kept"] = "1"
				}
			}
		}
		return nil, false
	}
	if name := cs.Name(); strings.HasSuffix(name, ").Yield") && strings.Contains(name, "traversal") {
		k.yield(e, s, cs)
		return []Outcome{{Val: boolVal(true)}, {Val: boolVal(false)}}, true
	}
	return nil, false
}

// roleOf names the role of an identifier in a lookup
func (k *graphClient) roleOf(v Val) string {
	if r := k.role[v.String()]; r != "" {
		return r
	}
	if strings.HasSuffix(v.S, ".Node;") {
		return "s" // where the paths stand is the subject of the next statement
	}
	return "?"
}

func (k *graphClient) lookup(cs *CallSite, s *State, f, method string, args []Val) {
	roles := ""
	for _, a := range args {
		roles += k.roleOf(a)
	}
	k.c.Ob("lookup-order", fmt.Sprintf("%s.%s(%s) in %s", f, method, roles, fname(k.root)))
	k.look = append(k.look, lookup{f, method, roles, fname(k.root), cs.Instr})
}

// yield checks what is passed on from within a lookup
func (k *graphClient) yield(e *Engine, s *State, cs *CallSite) {
	if len(cs.Args) < 2 {
		return
	}
	x := cs.Args[1]
	s.D["yielded"] = "1"
	switch s.D["has"] {
	case "no":
		k.bad(e, s, cs.Instr, "a path is passed on although the statement it needs does not exist")
		return
	case "yes":
		if s.D["kept"] == "" {
			k.bad(e, s, cs.Instr, "a path is passed on without the statement that was found for it")
		}
		return
	}
	// the innermost callback of a lookup
	for i := len(s.frames) - 1; i >= 0; i-- {
		f := s.frames[i]
		if f.cont != contArg || len(f.fn.Params) != 2 || !isIDType(f.fn.Params[0].Type()) || !isIDType(f.fn.Params[1].Type()) {
			continue
		}
		node, label := e.refine(s, f.env[f.fn.Params[0]]), e.refine(s, f.env[f.fn.Params[1]])
		k.c.ObOnce("found-passed-on", fname(k.root)+" "+k.c.W.pos(cs.Instr.Pos()))
		if got := k.field(e, s, x, ".Node"); got != node.String() {
			k.bad(e, s, cs.Instr, "the path that is passed on does not stand at the node that was found")
		}
		tr, _ := e.load(s, x.S+".Triples", types.NewSlice(types.Typ[types.Int]))
		el, ok := s.elems(tr)
		found := false
		for _, y := range el {
			found = found || y.String() == label.String()
		}
		if !ok || !found {
			k.bad(e, s, cs.Instr, "the path that is passed on does not list the statement that was found")
		}
		par, _ := e.load(s, x.S+".Parent", types.NewPointer(types.Typ[types.Int]))
		if k.bare {
			if s.isNil(par) != 1 {
				k.bad(e, s, cs.Instr, "the first node of a path has a predecessor")
			}
		} else if par.K != KPtr {
			k.bad(e, s, cs.Instr, "the path that is extended is lost")
		}
		return
	}
}

func (k *graphClient) Compare(e *Engine, s *State, op *ssa.BinOp, x, y Val) []Outcome {
	if isStoredRole(x) && isStoredRole(y) && k.older != "" && x.String() != y.String() {
		// relation of the newer role to the older one
		flip := strings.Contains(x.S, "("+k.older+")")
		rel := s.D["roles"]
		if rel == "" {
			rel = "<=>"
		}
		var yes, no string
		for _, r := range rel {
			o := r
			if flip {
				o = []rune(">=<")[strings.IndexRune("<=>", r)]
			}
			if holds := map[string]string{"<": "<", ">": ">", "<=": "<=", ">=": "=>", "==": "=", "!=": "<>"}[op.Op.String()]; strings.ContainsRune(holds, o) {
				yes += string(r)
			} else {
				no += string(r)
			}
		}
		var out []Outcome
		if yes != "" {
			out = append(out, Outcome{Val: boolVal(true), Apply: func(s *State) { s.D["roles"] = yes }})
		}
		if no != "" {
			out = append(out, Outcome{Val: boolVal(false), Apply: func(s *State) { s.D["roles"] = no }})
		}
		return out
	}
	if strings.Contains(x.S, "fn:ids(") && strings.Contains(y.S, "fn:ids(") && x.String() != y.String() {
		eq := op.Op.String() == "=="
		return []Outcome{
			{Val: boolVal(eq), Apply: func(s *State) { s.D["same"] = "yes" }},
			{Val: boolVal(!eq), Apply: func(s *State) { s.D["same"] = "no" }},
		}
	}
	return nil
}

func (k *graphClient) Order(e *Engine, s *State, op *ssa.BinOp, x, y Val) []Outcome {
	if isStoredRole(x) && isStoredRole(y) {
		return k.Compare(e, s, op, x, y)
	}
	return nil
}

func (k *graphClient) FrameExit(e *Engine, s *State, f *Frame, instr *ssa.Return, res []Val) {
	if f.cont != contArg || !strings.HasPrefix(s.D["hasframe"], f.id) {
		return
	}
	if s.D["has"] == "yes" && s.D["yielded"] == "" {
		k.bad(e, s, instr, "a path whose statement exists is dropped")
	}
	delete(s.D, "has")
	delete(s.D, "hasframe")
	delete(s.D, "yielded")
	delete(s.D, "kept")
}

func (k *graphClient) Exit(e *Engine, s *State, kind ExitKind, instr ssa.Instruction, res []Val) {
	if kind != ExitReturn || len(res) == 0 {
		return
	}
	if s.isNil(res[len(res)-1]) == 0 {
		return // failed
	}
	if k.result != nil {
		k.result(e, s, instr, res)
	}
	if k.done == nil {
		return
	}
	k.done(e, s, instr)
}

// maskedOut: the path asked the mask, and the mask does not have the label
func maskedOut(s *State) bool {
	if s.D["masked"] != "" {
		return true
	}
	for f, v := range s.facts {
		if strings.HasPrefix(f, "fn:lookup(") && strings.HasSuffix(f, "#1;") && v == "f" {
			return true
		}
	}
	return false
}

func (k *graphClient) records(s *State) (ids []string) {
	for d := range s.D {
		if id, ok := strings.CutPrefix(d, "rec:"); ok {
			ids = append(ids, id)
		}
	}
	sort.Strings(ids)
	return
}

// filled checks that every record is part of every storage, and nothing else is
func (k *graphClient) filled(e *Engine, s *State, instr ssa.Instruction, fields []string) {
	recs := map[string]bool{}
	for _, id := range k.records(s) {
		recs[id] = true
		part := strings.Fields(s.D["rec:"+id])
		for _, f := range fields {
			k.c.Ob("entered-both-ways", fmt.Sprintf("%s: %s %s", fname(k.root), f, k.c.W.pos(instr.Pos())))
			got, ok := s.D["fill:"+f+":"+id]
			if !ok {
				k.bad(e, s, instr, "a statement that is stored is not entered into %s", f)
				continue
			}
			perm := ""
			used := map[int]bool{}
			for _, x := range strings.Fields(got) {
				at := -1
				for i := 0; i < 3; i++ {
					if part[1+i] == x && !used[i] {
						at = i
						break
					}
				}
				if at < 0 {
					perm = ""
					break
				}
				used[at] = true
				perm += "spo"[at : at+1]
			}
			if perm == "" {
				k.bad(e, s, instr, "%s is filled with other identifiers than the stored statement has", f)
				continue
			}
			if k.order[f] == nil {
				k.order[f] = map[string]bool{}
			}
			k.order[f][perm] = true
		}
	}
	for d := range s.D {
		if rest, ok := strings.CutPrefix(d, "fill:"); ok {
			if i := strings.IndexByte(rest, ':'); !recs[rest[i+1:]] {
				k.bad(e, s, instr, "%s gets an entry of which no statement is stored", rest[:i])
			}
		}
	}
	if s.D["twice"] != "" {
		k.bad(e, s, instr, "an identifier is used for two statements")
	}
}

// roleConsts: names of the roles by value
func roleConsts(pkg *types.Package) map[string]string {
	out := map[string]string{}
	for _, n := range pkg.Scope().Names() {
		c, ok := pkg.Scope().Lookup(n).(*types.Const)
		if ok && shortType(c.Type()) == "Role" {
			out["c("+c.Val().ExactString()+")"] = n
		}
	}
	return out
}

func methodOf(w *World, pkgSuffix, typ, name string) *ssa.Function {
	for _, fn := range w.Fns {
		if fn.Name() != name || fn.Blocks == nil || fn.Parent() != nil || fn.Synthetic != "" {
			continue
		}
		if rn := recvNamed(fn); rn != nil && rn.Obj().Name() == typ && rn.Obj().Pkg() != nil && strings.HasSuffix(rn.Obj().Pkg().Path(), pkgSuffix) {
			return fn
		}
	}
	return nil
}

// isStoredRole: the role of a stored statement
func isStoredRole(v Val) bool {
	return strings.HasPrefix(v.S, "*fn:stored(") && strings.HasSuffix(v.S, ".Role;")
}

// refineStr is the constant a value is known to be, as text
func (s *State) refineStr(v Val) string {
	for f, t := range s.facts {
		if t == "t" && (f == `c:eq:c("")|`+v.String() || f == "c:eq:"+v.String()+`|c("")`) {
			return `c("")`
		}
	}
	return v.String()
}

// preferDirect checks the functions that decide between two statements of the same
// nodes: one that was given takes precedence over one that was inferred.
func preferDirect(c *Ctx, run func(k *graphClient, fn *ssa.Function)) {
	deciders := map[*ssa.Function]bool{}
	for _, fn := range c.W.Fns {
		if !isRepo(fn) || !strings.HasSuffix(fnPkg(fn), graphPkg) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				com := call.Common()
				if !com.IsInvoke() || !isThree(com.Value.Type()) || com.Method.Name() != "Add" || len(com.Args) != 5 {
					continue
				}
				var d *ssa.Function
				switch f := com.Args[4].(type) {
				case *ssa.Function:
					d = f
				case *ssa.MakeClosure:
					d, _ = f.Fn.(*ssa.Function)
				}
				if d != nil && d.Synthetic != "" {
					for _, b := range d.Blocks {
						for _, in := range b.Instrs {
							if c, ok := in.(*ssa.Call); ok && c.Call.StaticCallee() != nil {
								d = c.Call.StaticCallee()
							}
						}
					}
				}
				if d == nil || len(d.Params) < 2 {
					continue // handed through
				}
				deciders[d] = true
			}
		}
	}
	if len(deciders) == 0 {
		c.BadAt("graph-consistent", "conflicts", "internal/triplestore/igraph", "", "nothing decides between two statements of the same nodes")
	}
	for d := range deciders {
		n := len(d.Params)
		old, new := opaque("r:"+d.Params[n-2].Name()+";"), opaque("r:"+d.Params[n-1].Name()+";")
		k := &graphClient{c: c, root: d, order: map[string]map[string]bool{}, role: map[string]string{}, older: old.String()}
		roles := map[string]string{}
		for v, name := range roleConsts(outermost(d).Pkg.Pkg) {
			roles[name] = v
		}
		want, other := "<", ">"
		if len(roles["Regular"]) > len(roles["Inverse"]) || len(roles["Regular"]) == len(roles["Inverse"]) && roles["Regular"] > roles["Inverse"] {
			want, other = ">", "<"
		}
		k.result = func(e *Engine, s *State, instr ssa.Instruction, res []Val) {
			got := res[0].String()
			rel := s.D["roles"]
			c.Ob("prefer-direct", fmt.Sprintf("%s: %q %s", fname(d), rel, c.W.pos(instr.Pos())))
			if rel == "" {
				rel = "<=>"
			}
			switch {
			case got != old.String() && got != new.String():
				k.bad(e, s, instr, "the statement that is kept is neither the old nor the new one")
			case equal(s, old.String(), new.String()) == "t":
			case strings.Contains(rel, want) && got != new.String():
				k.bad(e, s, instr, "an inferred statement is kept although the same one was given")
			case strings.Contains(rel, other) && got != old.String():
				k.bad(e, s, instr, "an inferred statement replaces the one that was given")
			}
		}
		run(k, d)
	}
}

const graphPkg = "triplestore/igraph"

func init() {
	register(&Check{
		Prop:    "C21",
		Explain: "every path of the functions that add statements to and query the graph index is explored with identifiers named by their origin; stored records, index entries and lookups are compared position by position; an inferred statement names the parts of the one it stems from in the given order, a language is stored exactly for its value, and between two statements of the same nodes the given one takes precedence over the inferred one",
		Floors:  map[string]int{"entered-both-ways": 6, "lookup-order": 3, "found-passed-on": 2, "inverse": 2, "read-back": 5, "prefer-direct": 2},
		Run: func(c *Ctx) {
			order := map[string]map[string]bool{}
			var looks []lookup
			var fields []string
			mk := func(typ, name string) (*graphClient, *ssa.Function) {
				fn := methodOf(c.W, graphPkg, typ, name)
				if fn == nil {
					c.BadAt("graph-consistent", typ+"."+name, "internal/triplestore/igraph", "", "%s.%s does not exist", typ, name)
					return nil, nil
				}
				if fields == nil {
					if ix := namedOf(recvNamed(methodOf(c.W, graphPkg, typ, name))); ix != nil && typ == "Index" {
						st := ix.Underlying().(*types.Struct)
						for i := 0; i < st.NumFields(); i++ {
							if isThree(st.Field(i).Type()) {
								fields = append(fields, st.Field(i).Name())
							}
						}
					}
				}
				return &graphClient{c: c, root: fn, order: order, role: map[string]string{}}, fn
			}
			run := func(k *graphClient, fn *ssa.Function) {
				e := NewEngine(c.W, k)
				e.Strings = true
				e.RootID = "r"
				e.KeepFacts = fn.Name() == "AddLangData"
				e.Run(fn, nil)
				if e.Over {
					c.BadAt("undecided", fname(fn), c.W.pos(fn.Pos()), "", "too many paths to decide")
				}
				looks = append(looks, k.look...)
			}
			par := func(fn *ssa.Function, i int) Val { return opaque("r:" + fn.Params[i].Name() + ";") }
			can := func(v Val) string { return canonOf(idTerm(v).S).String() }
			lit := func(v Val) string { return opaque("*" + idTerm(v).S + ".Literal;").String() }

			// statements between nodes
			if k, fn := mk("Index", "AddTriple"); fn != nil && len(fn.Params) == 4 {
				S, P, O := par(fn, 1), par(fn, 2), par(fn, 3)
				roles := roleConsts(fn.Pkg.Pkg)
				k.done = func(e *Engine, s *State, instr ssa.Instruction) {
					ids := k.records(s)
					if len(ids) == 0 {
						if !maskedOut(s) {
							k.bad(e, s, instr, "a statement that is not masked is not stored")
						}
						return
					}
					if maskedOut(s) {
						k.bad(e, s, instr, "a statement that is masked is stored")
					}
					k.filled(e, s, instr, fields)
					direct := can(S) + " " + can(P) + " " + can(O) + " " + lit(S) + " " + lit(P) + " " + lit(O)
					inverse := can(O) + " " + term("inverse", canonOf(idTerm(P).S)).String() + " " + can(S)
					var nd, ni int
					for _, id := range ids {
						role, rest, _ := strings.Cut(s.D["rec:"+id], " ")
						switch roles[role] {
						case "Regular":
							nd++
							if rest != direct {
								k.bad(e, s, instr, "the stored statement is not made of the given subject, predicate and object in this order")
							}
						case "Inverse":
							ni++
							if lits := lit(S) + " " + lit(P) + " " + lit(O); strings.HasPrefix(rest, inverse+" ") && rest != inverse+" "+lits {
								k.bad(e, s, instr, "the inferred statement does not name subject, predicate and object of the statement it stems from in this order")
							}
							if !strings.HasPrefix(rest, inverse+" ") {
								k.bad(e, s, instr, "the inferred statement is not the given one with subject and object exchanged and the inverse predicate")
							}
						default:
							k.bad(e, s, instr, "a statement between nodes is stored with role %s", role)
						}
					}
					asked := s.D["asked:"+can(P)]
					c.Ob("inverse", fmt.Sprintf("%s (%s)", c.W.pos(instr.Pos()), asked))
					switch {
					case nd != 1:
						k.bad(e, s, instr, "the given statement is stored %d times", nd)
					case asked == "":
						k.bad(e, s, instr, "a statement is added without looking for an inverse of its predicate")
					case asked == "yes" && ni != 1:
						k.bad(e, s, instr, "the predicate has an inverse, but the inferred statement is stored %d times", ni)
					case asked == "no" && ni != 0:
						k.bad(e, s, instr, "the predicate has no inverse, but an inferred statement is stored")
					}
				}
				run(k, fn)
			}
			// statements with data
			if k, fn := mk("Index", "AddLangData"); fn != nil && len(fn.Params) == 5 {
				S, P := par(fn, 1), par(fn, 2)
				datum := par(fn, 3).String()
				roles := roleConsts(fn.Pkg.Pkg)
				k.done = func(e *Engine, s *State, instr ssa.Instruction) {
					ids := k.records(s)
					if len(ids) == 0 {
						if !maskedOut(s) {
							k.bad(e, s, instr, "a value that is not masked is not stored")
						}
						return
					}
					if maskedOut(s) {
						k.bad(e, s, instr, "a value that is masked is stored")
					}
					k.filled(e, s, instr, fields)
					if len(ids) != 1 {
						k.bad(e, s, instr, "a value is stored %d times", len(ids))
					}
					for _, id := range ids {
						part := strings.Fields(s.D["rec:"+id])
						if roles[part[0]] != "Data" {
							k.bad(e, s, instr, "a value is not stored as data")
						}
						if part[1] != can(S) || part[2] != can(P) || part[4] != lit(S) || part[5] != lit(P) {
							k.bad(e, s, instr, "the stored statement is not made of the given subject and predicate in this order")
						}
						if s.D["datum:"+part[3]] != datum || s.D["datum:"+part[6]] != datum {
							k.bad(e, s, instr, "the given value is not stored under the object of the statement")
						}
						tag := par(fn, 4)
						none := equal(s, tag.String(), `c("")`) == "t" || s.refineStr(tag) == `c("")`
						if got, ok := s.D["language:"+part[6]]; ok && got != tag.String() || !ok && !none {
							k.bad(e, s, instr, "the language of a value is not stored under the object of the statement")
						}
						for _, id := range stores(s, "language:") {
							if id != part[6] {
								k.bad(e, s, instr, "a language is stored for something else than the value")
							}
						}
					}
				}
				run(k, fn)
			}
			// declaring inverses
			if k, fn := mk("Index", "MarkInverse"); fn != nil && len(fn.Params) == 3 {
				L, R := can(par(fn, 1)), can(par(fn, 2))
				k.done = func(e *Engine, s *State, instr ssa.Instruction) {
					c.Ob("inverse", fmt.Sprintf("%s declared (%s)", c.W.pos(instr.Pos()), s.D["same"]))
					if s.D["same"] == "yes" {
						return
					}
					if s.D["inv:"+L] != R || s.D["inv:"+R] != L {
						k.bad(e, s, instr, "the inverse is not declared in both directions")
					}
				}
				run(k, fn)
			}
			// reading a statement back
			if k, fn := mk("Index", "Triple"); fn != nil && len(fn.Params) == 2 {
				of := term("stored", par(fn, 1)).S
				item := func(i int, part string) Val { return opaque(fmt.Sprintf("*%s.Items[%d].%s;", of, i, part)) }
				want := map[string]Val{
					"Subject": term("label", item(0, "Literal")), "SSubject": term("label", item(0, "Canonical")),
					"Predicate": term("label", item(1, "Literal")), "SPredicate": term("label", item(1, "Canonical")),
					"Object": term("label", item(2, "Literal")), "SObject": term("label", item(2, "Canonical")),
					"Datum": term("datum", item(2, "Literal")), "Language": term("language", item(2, "Literal")),
					"ID": par(fn, 1), "Role": opaque("*" + of + ".Role;"),
				}
				alt := map[string]Val{"Datum": term("datum", item(2, "Canonical")), "Language": term("language", item(2, "Canonical"))}
				k.result = func(e *Engine, s *State, instr ssa.Instruction, res []Val) {
					for _, f := range sortedKeys(want) {
						c.Ob("read-back", f+" "+c.W.pos(instr.Pos()))
						if got := k.field(e, s, res[0], "."+f); got != want[f].String() && (alt[f].S == "" || got != alt[f].String()) {
							k.bad(e, s, instr, "%s of a statement that is read back is not what was stored for it", f)
						}
					}
				}
				run(k, fn)
			}
			// queries
			for _, q := range []struct {
				typ, name string
				p, o      int
			}{{"Index", "PathsStarting", 1, 2}, {"Paths", "Connected", 1, 0}, {"Paths", "Ending", 1, 2}} {
				k, fn := mk(q.typ, q.name)
				if fn == nil {
					continue
				}
				n := len(looks)
				k.role[can(par(fn, q.p))] = "p"
				if q.o > 0 {
					k.role[can(par(fn, q.o))] = "o"
				}
				k.bare = q.name == "PathsStarting"
				run(k, fn)
				if len(looks) == n {
					c.Bad("graph-consistent", fname(fn), fn.Pos(), "the query looks nothing up in the index")
				}
			}
			preferDirect(c, run)
			for _, f := range fields {
				perms := sortedKeys(order[f])
				if len(perms) != 1 {
					c.BadAt("graph-consistent", "order of "+f, "internal/triplestore/igraph", "", "%s is filled in %d different orders: %v", f, len(perms), perms)
				}
			}
			dirs := map[byte]bool{}
			for _, f := range fields {
				for p := range order[f] {
					dirs[p[2]] = true
				}
			}
			if !dirs['s'] || !dirs['o'] {
				c.BadAt("graph-consistent", "orders of the indexes", "internal/triplestore/igraph", "", "the statements cannot be listed both from their subject and from their object")
			}
			for _, l := range looks {
				ok := false
				for p := range order[l.field] {
					ok = ok || strings.HasPrefix(p, l.roles)
				}
				if !ok {
					c.Bad("graph-consistent", l.where, l.instr.Pos(), "%s is asked with (%s), but it is filled in the order %v", l.field, l.roles, sortedKeys(order[l.field]))
				}
			}
		},
	})
}
