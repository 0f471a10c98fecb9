package main

// C18: whether data is kept in memory or on disk, a storage gives the same answers.
//
// Every implementation of the storage interfaces is interpreted with what it is
// asked for being there, not being there, and the database failing. The answers
// must follow the contract of the interface, which is the same for all of them.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type parityClient struct {
	BaseClient
	c     *Ctx
	root  *ssa.Function
	rule  string
	call  func(e *Engine, s *State, cs *CallSite) ([]Outcome, bool)
	instr func(e *Engine, s *State, instr ssa.Instruction)
	exit  func(e *Engine, s *State, instr ssa.Instruction, res []Val)
	keys  map[string]string
}

func (k *parityClient) bad(e *Engine, s *State, pos token.Pos, format string, args ...any) {
	k.c.BadAt(k.rule, recvNamed(k.root).Obj().Name()+"."+k.root.Name(), k.c.W.pos(pos), e.Trace(s), format, args...)
}

func (k *parityClient) Inline(e *Engine, s *State, cs *CallSite, fn *ssa.Function) bool {
	if strings.Contains(fn.Synthetic, "wrapper") || strings.Contains(fn.Synthetic, "thunk") || strings.Contains(fn.Synthetic, "bound method") {
		return true
	}
	return isRepo(fn) && fnPkg(fn) == fnPkg(k.root)
}

// presence says whether what was asked for is there on this path: yes, no, failed, "?" (either) or "" (never looked)
func presence(s *State) string {
	if p := s.D["present"]; p != "" {
		return p
	}
	for d := range s.D {
		if t, ok := strings.CutPrefix(d, "maybe:"); ok && s.facts[t] == "nil" {
			return "no"
		}
	}
	if t := s.D["has"]; t != "" {
		switch s.facts[t+"#1;"] {
		case "t":
			return "yes"
		case "f":
			return "no"
		}
		return "?"
	}
	return ""
}

func isErrNotFound(v Val) bool {
	return v.K == KNonNil && strings.HasSuffix(v.S, "ErrNotFound")
}

func (k *parityClient) Compare(e *Engine, s *State, op *ssa.BinOp, x, y Val) []Outcome {
	if op.Op != token.EQL && op.Op != token.NEQ || x.K != KNonNil || y.K != KNonNil || !isErrorType(op.X.Type()) {
		return nil
	}
	same := x.S == y.S || isErrNotFound(x) && isErrNotFound(y)
	return []Outcome{{Val: boolVal(same == (op.Op == token.EQL))}}
}

func (k *parityClient) special(e *Engine, s *State, instr ssa.Instruction) bool {
	if lk, ok := instr.(*ssa.Lookup); ok {
		m, key := e.eval(s, lk.X), e.eval(s, lk.Index)
		t := term("lookup", m, key)
		recv := "r:" + k.root.Params[0].Name() + ";"
		if !strings.Contains(t.S, recv) && presence(s) != "no" {
			return false
		}
		if lk.CommaOk {
			if presence(s) == "no" && s.D["has"] == "" {
				// nothing can be in what is not there
				e.set(s, lk, Val{K: KTuple, T: []Val{opaque(t.S + "#0;"), boolVal(false)}})
				return true
			}
			s.D["has"] = t.S
			s.D["key"] = key.S
			return false
		}
		switch lk.X.Type().Underlying().(*types.Map).Elem().Underlying().(type) {
		case *types.Pointer, *types.Map:
			s.D["maybe:"+t.S] = "1"
			s.D["mkey:"+key.S] = "1"
		}
		return false
	}
	return neverSet(e, s, instr)
}

func tuple(vs ...Val) Val { return Val{K: KTuple, T: vs} }

// elems are the elements of a list of arguments
func elems(e *Engine, s *State, v Val, n int, t types.Type) (out []Val) {
	base, ok := e.addr(s, v)
	if !ok {
		return nil
	}
	for i := 0; i < n; i++ {
		x, known := e.load(s, fmt.Sprintf("%s[%d]", base, i), t)
		if !known || x.K == KConst && strings.HasPrefix(x.S, "zero:") {
			break
		}
		out = append(out, x)
	}
	return
}

func (k *parityClient) Call(e *Engine, s *State, cs *CallSite) ([]Outcome, bool) {
	if k.call != nil {
		if outs, ok := k.call(e, s, cs); ok {
			return outs, true
		}
	}
	failed := Val{K: KNonNil, S: "database"}
	at := func(p, key string) func(*State) {
		return func(st *State) {
			st.D["present"] = p
			st.D["key"] = key
		}
	}
	switch {
	case isLevelDB(cs, "Get"):
		key := cs.Args[1].S
		return []Outcome{
			{Val: tuple(opaque("dbval;"), Val{K: KNil}), Apply: at("yes", key)},
			{Val: tuple(Val{K: KNil}, Val{K: KNonNil, S: "leveldb.ErrNotFound"}), Apply: at("no", key)},
			{Val: tuple(Val{K: KNil}, failed), Apply: at("failed", key)},
		}, true
	case isLevelDB(cs, "Has"):
		key := cs.Args[1].S
		return []Outcome{
			{Val: tuple(boolVal(true), Val{K: KNil}), Apply: at("yes", key)},
			{Val: tuple(boolVal(false), Val{K: KNil}), Apply: at("no", key)},
			{Val: tuple(boolVal(false), failed), Apply: at("failed", key)},
		}, true
	case isLevelDB(cs, "Put"):
		val, under := cs.Args[2].S, cs.Args[1].S
		return []Outcome{
			{Val: Val{K: KNil}, Apply: func(st *State) {
				st.D["stored"] += val + " "
				st.D["under"] = under
			}},
			{Val: failed, Apply: func(st *State) { st.D["broken"] = "1" }},
		}, true
	case cs.Name() == "errors.Is" && len(cs.Args) == 2:
		x, y := cs.Args[0], cs.Args[1]
		if x.K == KNil || y.K == KNonNil && x.K == KNonNil {
			same := x.K != KNil && (x.S == y.S || isErrNotFound(x) && isErrNotFound(y))
			return []Outcome{{Val: boolVal(same)}}, true
		}
	case cs.Name() == "fmt.Errorf":
		v := Val{K: KNonNil, S: "some error"}
		if len(cs.Args) == 2 {
			for _, x := range elems(e, s, cs.Args[1], 6, types.NewInterfaceType(nil, nil)) {
				if x.K == KNonNil && strings.Contains(x.S, "ErrNo") {
					v = x
				}
			}
		}
		return []Outcome{{Val: v}}, true
	}
	// conversions from and to bytes
	if cs.Closur == nil || cs.Static != nil {
		if outs, ok := k.bytes(e, s, cs); ok {
			return outs, true
		}
	}
	return nil, false
}

func (k *parityClient) bytes(e *Engine, s *State, cs *CallSite) ([]Outcome, bool) {
	if cs.Iface != nil || cs.Static != nil && !isRepo(cs.Static) {
		return nil, false
	}
	if _, ok := cs.Instr.Common().Value.(*ssa.Builtin); ok {
		return nil, false
	}
	res := cs.Sig.Results()
	for _, a := range cs.Args {
		if a.S != "dbval;" && a.S != "dbvalue;" && a.S != "dbkey;" {
			continue
		}
		what := "stored"
		if a.S == "dbkey;" {
			what = "storedkey"
		}
		for i, p := range cs.Args {
			var t types.Type
			if i < len(cs.ArgV) && cs.ArgV[i] != nil {
				t = cs.ArgV[i].Type()
			}
			if t == nil {
				continue
			}
			pt, ok := t.Underlying().(*types.Pointer)
			if !ok || len(cs.Args) != 2 || res.Len() != 1 || !isErrorType(res.At(0).Type()) {
				continue
			}
			key, ok := e.addr(s, p)
			if !ok {
				continue
			}
			return []Outcome{
				{Val: Val{K: KNil}, Apply: func(st *State) {
					if u, ok := pt.Elem().Underlying().(*types.Struct); ok && !isID(pt.Elem()) {
						for j := 0; j < u.NumFields(); j++ {
							st.setMem(key+"."+u.Field(j).Name(), opaque(what+"."+u.Field(j).Name()+";"))
						}
						return
					}
					st.setMem(key, opaque(what+";"))
				}},
				{Val: Val{K: KNonNil, S: "undecodable"}, Apply: func(st *State) { st.D["broken"] = "1" }},
			}, true
		}
		if res.Len() == 1 && isID(res.At(0).Type()) {
			return []Outcome{{Val: opaque(what + ";")}}, true
		}
	}
	if res.Len() == 0 || !isBytes(res.At(0).Type()) {
		return nil, false
	}
	if cs.Static != nil && cs.Static.Signature.Recv() != nil && len(cs.Args) == 1 {
		// an entity is turned into bytes
		if key, ok := e.addr(s, cs.Args[0]); ok && res.Len() == 2 {
			uri, _ := e.load(s, key+".URI", types.Typ[types.String])
			s.D["encoded"] = uri.S
			return []Outcome{{Val: tuple(opaque("enc;"), Val{K: KNil})}, {Val: tuple(Val{K: KNil}, Val{K: KNonNil, S: "encode"}), Apply: func(st *State) { st.D["broken"] = "1" }}}, true
		}
	}
	txt := "bytes("
	for i, a := range cs.Args {
		if i < len(cs.ArgV) && cs.ArgV[i] != nil {
			if sl, ok := cs.ArgV[i].Type().Underlying().(*types.Slice); ok {
				for _, x := range elems(e, s, a, 4, sl.Elem()) {
					txt += x.S + " "
				}
				continue
			}
		}
		txt += a.S + " "
	}
	if res.Len() == 1 {
		return []Outcome{{Val: opaque(txt + ");")}}, true
	}
	return []Outcome{{Val: tuple(opaque(txt+");"), Val{K: KNil})}, {Val: tuple(Val{K: KNil}, Val{K: KNonNil, S: "encode"}), Apply: func(st *State) { st.D["broken"] = "1" }}}, true
}

func (k *parityClient) Instr(e *Engine, s *State, instr ssa.Instruction) bool {
	if k.instr != nil {
		k.instr(e, s, instr)
	}
	return true
}

func (k *parityClient) Exit(e *Engine, s *State, kind ExitKind, instr ssa.Instruction, res []Val) {
	if kind == ExitReturn && k.exit != nil {
		k.exit(e, s, instr, res)
	}
}

func (k *parityClient) run(params map[string]Val) {
	e := NewEngine(k.c.W, k)
	e.RootID, e.Params, e.Strings, e.Numbers = "r", params, true, true
	e.Special = k.special
	e.Run(k.root, nil)
	if e.Over {
		k.c.Bad("undecided", fname(k.root), k.root.Pos(), "too many paths to decide")
	}
}

// siblings are the implementations of the interface that is called name
func siblings(w *World, pkgSuffix, name string) (iface *types.Named, impls []map[string]*ssa.Function) {
	byType := map[*types.Named]map[string]*ssa.Function{}
	for _, fn := range w.Fns {
		rn := recvNamed(fn)
		if rn == nil || !isRepo(fn) || fn.Parent() != nil || fn.Synthetic != "" || fn.Blocks == nil {
			continue
		}
		rn = rn.Origin()
		if byType[rn] == nil {
			byType[rn] = map[string]*ssa.Function{}
		}
		byType[rn][fn.Name()] = fn
	}
	for _, p := range w.Pkgs {
		if p.Types == nil || !strings.HasSuffix(p.Types.Path(), pkgSuffix) {
			continue
		}
		if o := p.Types.Scope().Lookup(name); o != nil {
			iface, _ = types.Unalias(o.Type()).(*types.Named)
		}
	}
	if iface == nil {
		return nil, nil
	}
	it, _ := iface.Underlying().(*types.Interface)
	if it == nil {
		return iface, nil
	}
	for _, rn := range sortedNamed(byType) {
		ms := byType[rn]
		all := true
		for i := 0; i < it.NumMethods(); i++ {
			if ms[it.Method(i).Name()] == nil {
				all = false
			}
		}
		if all {
			impls = append(impls, ms)
		}
	}
	return iface, impls
}

// paramOf is the n-th parameter (0 is the receiver)
func paramOf(fn *ssa.Function, n int) string {
	if n >= len(fn.Params) {
		return "?"
	}
	return "r:" + fn.Params[n].Name() + ";"
}

func unknownEntity(v Val) bool { return v.K == KNonNil && strings.HasSuffix(v.S, "ErrNoEntity") }

func fromStored(v Val) bool {
	return v.S == "stored;" || strings.HasPrefix(v.S, "fn:lookup(")
}

// lookups: Get, GetZero and Has
func lookupParity(c *Ctx, fn *ssa.Function, okAt, valAt int) {
	rule := "lookup"
	n := 0
	k := &parityClient{c: c, root: fn, rule: rule}
	k.exit = func(e *Engine, s *State, instr ssa.Instruction, res []Val) {
		n++
		err := res[len(res)-1]
		p := presence(s)
		c.ObOnce(rule, recvNamed(fn).Obj().Name()+"."+fn.Name()+" when it is "+p)
		if s.D["broken"] != "" {
			if s.isNil(err) != 0 {
				k.bad(e, s, instr.Pos(), "an entry that cannot be converted is not reported")
			}
			return
		}
		switch p {
		case "failed":
			if s.isNil(err) != 0 {
				k.bad(e, s, instr.Pos(), "a failing database is not reported, but answered as if there was no failure")
			}
		case "no":
			if s.isNil(err) != 1 {
				k.bad(e, s, instr.Pos(), "a missing entry is reported as an error, although it is merely absent")
			} else if okAt >= 0 && !(res[okAt].K == KBool && res[okAt].N == 0) {
				k.bad(e, s, instr.Pos(), "a missing entry is not answered as absent")
			}
		case "yes":
			if s.isNil(err) != 1 {
				k.bad(e, s, instr.Pos(), "an existing entry is reported as an error")
			} else if okAt >= 0 && !(res[okAt].K == KBool && res[okAt].N == 1) {
				k.bad(e, s, instr.Pos(), "an existing entry is not answered as present")
			} else if valAt >= 0 && !fromStored(res[valAt]) {
				k.bad(e, s, instr.Pos(), "an existing entry is answered with something else than its value (%s)", res[valAt])
			}
		case "?":
			if s.isNil(err) != 1 || okAt >= 0 && res[okAt].S != s.D["has"]+"#1;" || valAt >= 0 && !fromStored(res[valAt]) {
				k.bad(e, s, instr.Pos(), "the answer does not depend on whether the entry exists")
			}
		default:
			if okAt < 0 && s.isNil(err) == 1 && fromStored(res[valAt]) {
				break
			}
			if s.isNil(err) != 0 {
				k.bad(e, s, instr.Pos(), "an answer is given without looking")
			}
		}
	}
	k.run(nil)
	if n == 0 {
		c.Bad(rule, fname(fn), fn.Pos(), "this never answers")
	}
}

// passing: Iterate and Fetch hand over entries until the callback fails
func passingParity(c *Ctx, fn *ssa.Function, cb string, ordered bool) {
	rule := "iterate"
	name := recvNamed(fn).Obj().Name() + "." + fn.Name()
	n := 0
	k := &parityClient{c: c, root: fn, rule: rule}
	k.call = func(e *Engine, s *State, cs *CallSite) ([]Outcome, bool) {
		if cs.Static != nil || cs.Iface != nil || cs.Fn.S != "r:"+cb+";" {
			if cs.Iface != nil && len(cs.Args) == 1 && strings.Contains(cs.Iface.FullName(), "iterator") {
				switch cs.Iface.Name() {
				case "Key":
					return []Outcome{{Val: opaque("dbkey;")}}, true
				case "Value":
					return []Outcome{{Val: opaque("dbvalue;")}}, true
				case "Error":
					return []Outcome{{Val: Val{K: KNil}}, {Val: Val{K: KNonNil, S: "iterator"}, Apply: func(st *State) { st.D["ended"] = "failed" }}}, true
				}
			}
			return nil, false
		}
		n++
		c.ObOnce(rule, name+" hands over")
		if s.D["stop"] != "" {
			k.bad(e, s, cs.Instr.Pos(), "entries are handed over after an error")
		}
		return []Outcome{
			{Val: Val{K: KNil}},
			{Val: Val{K: KNonNil, S: "callback"}, Apply: func(st *State) { st.D["stop"] = "1" }},
		}, true
	}
	k.exit = func(e *Engine, s *State, instr ssa.Instruction, res []Val) {
		err := res[len(res)-1]
		if s.D["stop"] != "" && s.isNil(err) != 0 {
			k.bad(e, s, instr.Pos(), "an error of the callback is not returned")
		}
		if (s.D["ended"] != "" || s.D["broken"] != "") && s.isNil(err) != 0 {
			k.bad(e, s, instr.Pos(), "an error while reading is not returned")
		}
		if s.D["stop"] == "" && s.D["ended"] == "" && s.D["broken"] == "" && s.isNil(err) == 0 {
			k.bad(e, s, instr.Pos(), "an error is returned although nothing failed")
		}
	}
	k.run(nil)
	if n == 0 {
		c.Bad(rule, name, fn.Pos(), "no entries are handed over")
	}
	if !ordered {
		return
	}
	for _, f := range append([]*ssa.Function{fn}, fn.AnonFuncs...) {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if nx, ok := i.(*ssa.Next); ok && !nx.IsString {
					c.Bad("order", name, i.Pos(), "entries are handed over in the order of a map, which differs every time")
				}
			}
		}
	}
	c.Ob("order", name)
}

// addParity: what exists already is resolved by the conflict function
func addParity(c *Ctx, fn *ssa.Function) {
	rule := "conflict"
	name := recvNamed(fn).Obj().Name()
	label, conflict := paramOf(fn, 4), paramOf(fn, 5)
	seen := map[string]bool{}
	k := &parityClient{c: c, root: fn, rule: rule}
	k.call = func(e *Engine, s *State, cs *CallSite) ([]Outcome, bool) {
		if cs.Static != nil || cs.Iface != nil || cs.Fn.S != conflict {
			return nil, false
		}
		switch {
		case presence(s) != "yes":
			k.bad(e, s, cs.Instr.Pos(), "the conflict function is called although nothing is known to exist")
		case !fromStored(cs.Args[0]) || cs.Args[1].S != label:
			k.bad(e, s, cs.Instr.Pos(), "the conflict function is not given what is stored first and what is new second")
		case s.D["asked"] != "":
			k.bad(e, s, cs.Instr.Pos(), "the conflict function is called twice")
		}
		return []Outcome{
			{Val: tuple(opaque("resolved;"), Val{K: KNil}), Apply: func(st *State) { st.D["asked"] = "ok" }},
			{Val: tuple(opaque("unresolved;"), Val{K: KNonNil, S: "conflict"}), Apply: func(st *State) { st.D["asked"] = "error" }},
		}, true
	}
	k.instr = func(e *Engine, s *State, instr ssa.Instruction) {
		if mu, ok := instr.(*ssa.MapUpdate); ok && isID(mu.Value.Type()) {
			s.D["stored"] += e.eval(s, mu.Value).S + " "
			s.D["under"] = e.eval(s, mu.Map).S + e.eval(s, mu.Key).S
		}
	}
	k.exit = func(e *Engine, s *State, instr ssa.Instruction, res []Val) {
		p := presence(s)
		seen[p+s.D["asked"]] = true
		c.ObOnce(rule, name+".Add when it is "+p+", conflict "+s.D["asked"])
		err := s.isNil(res[1])
		stored := strings.TrimSpace(s.D["stored"])
		stored = strings.TrimSpace(strings.TrimSuffix(strings.TrimPrefix(stored, "bytes("), ");"))
		conflicted := res[0].K == KBool && res[0].N == 1
		not := res[0].K == KBool && res[0].N == 0
		switch {
		case p == "failed" || s.D["asked"] == "error":
			if err != 0 {
				k.bad(e, s, instr.Pos(), "a failure is not reported")
			}
			if stored != "" {
				k.bad(e, s, instr.Pos(), "after a failure something is stored")
			}
		case s.D["broken"] != "":
			if err != 0 {
				k.bad(e, s, instr.Pos(), "a failure is not reported")
			}
		case p == "yes":
			if s.D["asked"] == "" {
				k.bad(e, s, instr.Pos(), "what exists is replaced without calling the conflict function")
			} else if stored != "resolved;" {
				k.bad(e, s, instr.Pos(), "what the conflict function decided on is not what is stored (%q)", stored)
			} else if !conflicted {
				k.bad(e, s, instr.Pos(), "a conflict is not reported as one")
			} else if err == 0 {
				k.bad(e, s, instr.Pos(), "a resolved conflict is an error")
			}
		case p == "no":
			if stored != label {
				k.bad(e, s, instr.Pos(), "a new entry is not stored with its label (%q)", stored)
			} else if !not {
				k.bad(e, s, instr.Pos(), "a new entry is reported as a conflict")
			} else if err == 0 {
				k.bad(e, s, instr.Pos(), "a new entry is an error")
			}
		default:
			k.bad(e, s, instr.Pos(), "it is never found out whether the entry exists")
		}
	}
	k.run(nil)
	for _, want := range []string{"no", "yesok", "yeserror"} {
		if !seen[want] {
			c.Bad(rule, name+".Add", fn.Pos(), "entries are never added when the situation is %q", want)
		}
	}
}

// entityParity: operations on one entity
func entityParity(c *Ctx, fn *ssa.Function) {
	rule := "entity"
	name := recvNamed(fn).Obj().Name() + "." + fn.Name()
	key := paramOf(fn, 1)
	changes := fn.Name() != "Load"
	seen := map[string]bool{}
	k := &parityClient{c: c, root: fn, rule: rule}
	// parameters that have to end up in a field of their type
	var wants []*ssa.Parameter
	if fn.Name() == "AddFieldValue" {
		wants = fn.Params[3:]
	}
	field := ""
	if changes {
		field = paramOf(fn, 2)
	}
	k.call = func(e *Engine, s *State, cs *CallSite) ([]Outcome, bool) {
		if cs.Iface != nil && cs.Iface.Name() == "Load" && len(cs.Args) == 2 {
			if fn.Name() == "AddChild" && cs.Args[1].S == paramOf(fn, 3) {
				s.D["child"] = "1"
			}
			return []Outcome{
				{Val: tuple(opaque("childentity;"), Val{K: KNil})},
				{Val: tuple(opaque("nochild;"), Val{K: KNonNil, S: "child"}), Apply: func(st *State) { st.D["broken"] = "child" }},
			}, true
		}
		if b, ok := cs.Instr.Common().Value.(*ssa.Builtin); ok && b.Name() == "append" && len(cs.Args) == 2 {
			if sl, ok := cs.ArgV[1].Type().Underlying().(*types.Slice); ok && changes {
				for _, x := range elems(e, s, cs.Args[1], 1, sl.Elem()) {
					if fn.Name() == "AddChild" && x.S == paramOf(fn, 3) {
						s.D["child"] = "1"
					}
				}
				return []Outcome{{Val: opaque("appended<" + cs.Args[0].S + ">;")}}, true
			}
		}
		return nil, false
	}
	k.instr = func(e *Engine, s *State, instr ssa.Instruction) {
		switch ins := instr.(type) {
		case *ssa.Store:
			fa, ok := ins.Addr.(*ssa.FieldAddr)
			if !ok {
				return
			}
			v := e.eval(s, ins.Val)
			f := fieldName(fa.X.Type(), fa.Field)
			for _, p := range wants {
				if types.Identical(p.Type(), ins.Val.Type()) && v.S == "r:"+p.Name()+";" {
					s.D["set:"+p.Name()] = "1"
				}
			}
			if n := namedOf(fa.X.Type()); n != nil && n.Obj().Name() == "Entity" && !changes {
				s.D["copied"] = "1"
				if v.S == "stored."+f+";" {
					s.D["set:"+f] = "1"
				}
			}
		case *ssa.MapUpdate:
			if !changes {
				return
			}
			v := e.eval(s, ins.Value)
			if !strings.HasPrefix(v.S, "appended<") {
				return
			}
			s.D["changed"] = "1"
			if kv := e.eval(s, ins.Key); kv.S != field {
				k.bad(e, s, ins.Pos(), "the value is added to another entry than the one that was named")
			}
			if !strings.HasPrefix(v.S, "appended<fn:lookup(") || !strings.Contains(v.S, field) {
				k.bad(e, s, ins.Pos(), "what the entry held before is not kept")
			}
		}
	}
	k.exit = func(e *Engine, s *State, instr ssa.Instruction, res []Val) {
		err := res[len(res)-1]
		p := presence(s)
		seen[p] = true
		c.ObOnce(rule, name+" when it is "+p)
		stored := s.D["stored"] != "" || s.D["changed"] != "" && s.D["has"] != ""
		if p != "" && !strings.Contains(s.D["key"], key) {
			k.bad(e, s, instr.Pos(), "another entity than the one that was named is looked up (%s)", s.D["key"])
		}
		switch {
		case p == "no":
			if !unknownEntity(err) {
				k.bad(e, s, instr.Pos(), "an unknown entity is not reported as such")
			}
			if stored {
				k.bad(e, s, instr.Pos(), "something is stored for an unknown entity")
			}
		case p == "failed":
			if s.isNil(err) != 0 || unknownEntity(err) {
				k.bad(e, s, instr.Pos(), "a failing database is not reported as a failure")
			}
			if stored {
				k.bad(e, s, instr.Pos(), "something is stored after a failure")
			}
		case s.D["broken"] != "":
			if s.isNil(err) != 0 {
				k.bad(e, s, instr.Pos(), "a failure is not reported")
			}
			if stored {
				k.bad(e, s, instr.Pos(), "something is stored after a failure")
			}
		case p == "yes":
			if s.isNil(err) == 0 {
				k.bad(e, s, instr.Pos(), "a known entity is reported as an error")
				return
			}
			if changes && (!stored || s.D["changed"] == "") {
				k.bad(e, s, instr.Pos(), "nothing is added to a known entity")
			}
			if w := s.D["stored"]; w != "" && (strings.TrimSpace(w) != "enc;" || !strings.Contains(s.D["under"], s.D["encoded"])) {
				k.bad(e, s, instr.Pos(), "the changed entity is not stored under its own name")
			}
			for _, w := range wants {
				if s.D["set:"+w.Name()] == "" {
					k.bad(e, s, instr.Pos(), "%s does not become part of the value that is added", w.Name())
				}
			}
			if fn.Name() == "AddChild" && s.D["child"] == "" {
				k.bad(e, s, instr.Pos(), "the child is not what is added")
			}
			if s.D["copied"] != "" {
				for _, f := range []string{"URI", "Path", "Triples", "Fields"} {
					if s.D["set:"+f] == "" {
						k.bad(e, s, instr.Pos(), "the %s of the stored entity is not part of what is loaded", f)
					}
				}
			}
		default:
			k.bad(e, s, instr.Pos(), "it is never found out whether the entity is known")
		}
	}
	k.run(nil)
	for _, want := range []string{"no", "yes"} {
		if !seen[want] {
			c.Bad(rule, name, fn.Pos(), "this never deals with an entity when it is %q", want)
		}
	}
}

// newEntity: a new entity is stored with everything it comes with
func newEntity(c *Ctx, fn *ssa.Function) {
	rule := "new-entity"
	name := recvNamed(fn).Obj().Name() + "." + fn.Name()
	k := &parityClient{c: c, root: fn, rule: rule}
	n := 0
	k.instr = func(e *Engine, s *State, instr ssa.Instruction) {
		switch ins := instr.(type) {
		case *ssa.Store:
			if fa, ok := ins.Addr.(*ssa.FieldAddr); ok {
				v := e.eval(s, ins.Val)
				for i, p := range fn.Params[1:] {
					if types.Identical(p.Type(), ins.Val.Type()) && v.S == "r:"+p.Name()+";" {
						s.D[fmt.Sprintf("set:%d", i)] = fieldName(fa.X.Type(), fa.Field)
					}
				}
			}
		case *ssa.MapUpdate:
			if kv := e.eval(s, ins.Key); types.Identical(ins.Key.Type(), fn.Params[1].Type()) {
				s.D["under"] = kv.S
			}
		}
	}
	k.exit = func(e *Engine, s *State, instr ssa.Instruction, res []Val) {
		if s.D["broken"] != "" || s.isNil(res[0]) == 0 {
			if s.isNil(res[0]) != 0 {
				k.bad(e, s, instr.Pos(), "a failure is not reported")
			}
			return
		}
		n++
		for i, f := range []string{"URI", "Path", "Triples"} {
			c.ObOnce(rule, name+": "+f)
			if s.D[fmt.Sprintf("set:%d", i)] != f {
				k.bad(e, s, instr.Pos(), "the %s of a new entity is not stored", f)
			}
		}
		if !strings.Contains(s.D["under"], paramOf(fn, 1)) {
			k.bad(e, s, instr.Pos(), "a new entity is not stored under its own name (%s)", s.D["under"])
		}
	}
	k.run(nil)
	if n == 0 {
		c.Bad(rule, name, fn.Pos(), "no entity is ever stored")
	}
}

// parents: entities are listed together with the parent that was asked for
func parentsParity(c *Ctx, fn *ssa.Function) {
	rule := "parent"
	name := recvNamed(fn).Obj().Name() + "." + fn.Name()
	for _, idx := range []string{"0", "2", "-1"} {
		n := 0
		k := &parityClient{c: c, root: fn, rule: rule}
		k.call = func(e *Engine, s *State, cs *CallSite) ([]Outcome, bool) {
			if cs.Iface == nil {
				return nil, false
			}
			switch {
			case strings.Contains(cs.Iface.FullName(), "iterator") && len(cs.Args) == 1:
				switch cs.Iface.Name() {
				case "Key":
					return []Outcome{{Val: opaque("dbkey;")}}, true
				case "Value":
					return []Outcome{{Val: opaque("dbvalue;")}}, true
				}
			case cs.Iface.Name() == "YieldError" && len(cs.Args) == 2:
				if e1 := cs.Args[1]; s.isNil(e1) == 0 {
					return []Outcome{{Val: boolVal(false), Apply: func(st *State) { st.D["told"] = "1" }}}, true
				}
			case cs.Iface.Name() == "Yield" && len(cs.Args) == 2:
				if s.D["broken"] != "" {
					k.bad(e, s, cs.Instr.Pos(), "an entity that cannot be read is listed")
					return []Outcome{{Val: boolVal(false)}}, true
				}
				n++
				c.ObOnce(rule, fmt.Sprintf("%s(%s)", name, idx))
				at := cs.Args[1].S
				str := types.Typ[types.String]
				label, known := e.load(s, at+".Label", str)
				parent, pk := e.load(s, at+".Parent", str)
				if !known || label.S != "stored.URI;" && !strings.Contains(label.S, "dbkey;") && !strings.HasSuffix(label.S, ".URI;") {
					k.bad(e, s, cs.Instr.Pos(), "an entity is not listed by its own name (%s)", label)
				}
				empty := !pk || parent.K == KConst && (parent.S == `""` || strings.HasPrefix(parent.S, "zero:")) || parent.K == KStr && parent.S == ""
				if idx == "-1" {
					if !empty {
						k.bad(e, s, cs.Instr.Pos(), "an entity is listed with a parent although none was asked for")
					}
				} else if !strings.Contains(parent.S, "Path") || !strings.Contains(parent.S, "["+idx+"]") {
					k.bad(e, s, cs.Instr.Pos(), "an entity is not listed with the parent at position %s of its path", idx)
				}
				return []Outcome{{Val: boolVal(true)}, {Val: boolVal(false), Apply: func(st *State) { st.D["enough"] = "1" }}}, true
			}
			return nil, false
		}
		k.run(map[string]Val{fn.Params[1].Name(): {K: KConst, S: idx}})
		if n == 0 {
			c.Bad(rule, name, fn.Pos(), "no entities are listed when the parent is at %s", idx)
		}
	}
}

// keptInOrder: keys that are taken from a map to be listed later are put in order
func keptInOrder(c *Ctx, pkg string) {
	for _, fn := range c.W.Fns {
		if !isRepo(fn) || !strings.HasSuffix(fnPkg(fn), pkg) || fn.Blocks == nil {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				st, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				call, ok := st.Val.(*ssa.Call)
				if !ok || call.Call.StaticCallee() == nil || !strings.HasPrefix(call.Call.StaticCallee().Name(), "Keys") {
					continue
				}
				c.Ob("order", "keys kept in "+fieldName(fa.X.Type(), fa.Field))
				if !sortsField(fn, fieldName(fa.X.Type(), fa.Field), st.Val) {
					c.Bad("order", fname(fn), st.Pos(), "the keys are kept in the order of a map, which differs every time")
				}
			}
		}
	}
}

func sortsField(fn *ssa.Function, field string, val ssa.Value) bool {
	var names []string
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			call, ok := i.(ssa.CallInstruction)
			if !ok || call.Common().StaticCallee() == nil || len(call.Common().Args) == 0 {
				continue
			}
			callee := call.Common().StaticCallee()
			name := callee.Name()
			if !strings.HasPrefix(name, "Sort") && !strings.HasPrefix(name, "sort") && !(callee.Pkg != nil && callee.Pkg.Pkg.Path() == "sort") {
				continue
			}
			names = append(names, name)
			a := call.Common().Args[0]
			if a == val {
				return true
			}
			if ld, ok := a.(*ssa.UnOp); ok && ld.Op == token.MUL {
				if fa, ok := ld.X.(*ssa.FieldAddr); ok && fieldName(fa.X.Type(), fa.Field) == field {
					return true
				}
			}
		}
	}
	sort.Strings(names)
	return false
}

func init() {
	register(&Check{
		Prop:    "C18",
		Explain: "every implementation of the key-value, index and entity storages is interpreted with the asked-for entry present, absent and the database failing (for memory: every outcome of the map lookups; for disk: every outcome of the database calls). In each situation the answers, what is stored, the calls of the conflict function and of iteration callbacks, and the listed parents must be those the storage interface specifies, so that the implementations agree with each other",
		Assume: []string{
			"goleveldb answers ErrNotFound exactly for missing keys; encoding and decoding of keys and values is decided by C13",
			"adding an entity twice and adding an unknown child are outside the contract (see DESIGN.md)",
		},
		Floors: map[string]int{"lookup": 9, "iterate": 2, "order": 1, "conflict": 3, "entity": 6, "new-entity": 3, "parent": 3},
		Run: func(c *Ctx) {
			two := func(what string, n int) {
				if n < 2 {
					c.BadAt("siblings", what, "internal", "", "fewer than two implementations of %s were found", what)
				}
			}
			_, hash := siblings(c.W, "triplestore/imap", "HashMap")
			two("key-value storages", len(hash))
			for _, ms := range hash {
				lookupParity(c, ms["Get"], 1, 0)
				lookupParity(c, ms["Has"], 0, -1)
				lookupParity(c, ms["GetZero"], -1, 0)
				passingParity(c, ms["Iterate"], ms["Iterate"].Params[1].Name(), false)
			}
			_, three := siblings(c.W, graphPkg, "ThreeStorage")
			two("index storages", len(three))
			for _, ms := range three {
				lookupParity(c, ms["Has"], 1, 0)
				addParity(c, ms["Add"])
				passingParity(c, ms["Fetch"], ms["Fetch"].Params[3].Name(), true)
			}
			keptInOrder(c, graphPkg)
			_, bundle := siblings(c.W, "sparkl/storages", "BundleStorage")
			two("entity storages", len(bundle))
			for _, ms := range bundle {
				newEntity(c, ms["Add"])
				for _, m := range []string{"AddFieldValue", "AddChild", "Load"} {
					entityParity(c, ms[m])
				}
				parentsParity(c, ms["Get"])
			}
		},
	})
}
