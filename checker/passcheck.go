package main

// C20: every pass over the input sees all of it, in the prescribed order.
// C19 (reading): the kind of a statement is decided by the type of its object.

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// sourceLike recognises an interface for reading statements
func sourceLike(t types.Type) (tok *types.Struct, ok bool) {
	it, isI := t.Underlying().(*types.Interface)
	if !isI {
		return nil, false
	}
	var open, cls bool
	for i := 0; i < it.NumMethods(); i++ {
		m := it.Method(i)
		sig := m.Type().(*types.Signature)
		switch m.Name() {
		case "Open":
			open = true
		case "Close":
			cls = true
		case "Next":
			if sig.Results().Len() == 1 {
				tok, _ = sig.Results().At(0).Type().Underlying().(*types.Struct)
			}
		}
	}
	return tok, open && cls && tok != nil
}

// passClient follows the passes of building an index
type passClient struct {
	BaseClient
	c      *Ctx
	root   *ssa.Function
	kinds  map[string]map[string]bool // what a pass (by the place that opens it) consumes
	where  map[string]ssa.Instruction
	orders map[string][2]string // order of passes -> where it ends, and which passes may be left out
	done   bool
}

func (k *passClient) bad(e *Engine, s *State, instr ssa.Instruction, format string, args ...any) {
	k.c.BadAt("passes", fname(k.root), k.c.W.pos(instr.Pos()), e.Trace(s), format, args...)
}

func (k *passClient) Inline(e *Engine, s *State, cs *CallSite, fn *ssa.Function) bool {
	if !isRepo(fn) {
		return false
	}
	if rn := recvNamed(fn); rn != nil && rn.Obj().Name() == "Index" && strings.HasSuffix(fnPkg(fn), graphPkg) {
		return false
	}
	if fn.Parent() == nil && strings.HasSuffix(fnPkg(fn), "internal/stats") {
		return takesFuncs(fn)
	}
	return true
}

// predsOf tells which list of predicates a collection was made from
func (k *passClient) predsOf(s *State, v Val) string {
	if f := s.D["map:"+v.String()]; f != "" {
		return f
	}
	for _, f := range []string{"SameAs", "InverseOf"} {
		if strings.Contains(v.S, "."+f) {
			return f
		}
	}
	return ""
}

func (k *passClient) special(e *Engine, s *State, instr ssa.Instruction) bool {
	switch ins := instr.(type) {
	case *ssa.MapUpdate:
		m, key := e.eval(s, ins.Map), e.eval(s, ins.Key)
		for _, f := range []string{"SameAs", "InverseOf"} {
			if strings.Contains(key.S, "."+f) {
				if old := s.D["map:"+m.String()]; old != "" && old != f {
					f = "mixed"
				}
				s.D["map:"+m.String()] = f
			}
		}
	case *ssa.UnOp:
		if g, ok := ins.X.(*ssa.Global); ok && ins.Op == token.MUL && g.Pkg != nil && g.Pkg.Pkg.Path() == "io" && g.Name() == "EOF" {
			e.set(s, ins, Val{K: KNonNil, S: "eof"})
			return true
		}
	case *ssa.Lookup:
		if ins.CommaOk {
			m, key := e.eval(s, ins.X), e.eval(s, ins.Index)
			if f := k.predsOf(s, m); f != "" && key.S == "tok.Predicate;" {
				e.set(s, ins, Val{K: KTuple, T: []Val{opaque("member;"), opaque("tok.in." + f + ";")}})
				return true
			}
			if key.S == "tok.Predicate;" && k.empty(s, m) {
				s.D["taken"] = "none of no predicates"
				e.set(s, ins, Val{K: KTuple, T: []Val{opaque("member;"), boolVal(false)}})
				return true
			}
		} else if f := k.predsOf(s, e.eval(s, ins.X)); f != "" && e.eval(s, ins.Index).S == "tok.Predicate;" {
			if b, ok := ins.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
				e.set(s, ins, opaque("tok.in."+f+";"))
				return true
			}
		}
	}
	return false
}

// empty: a map that nothing was put into as one of the lists is empty
func (k *passClient) empty(s *State, m Val) bool {
	if m.K != KOpaque || strings.HasPrefix(m.S, "*") || strings.HasPrefix(m.S, "r:") {
		return false
	}
	return s.D["map:"+m.String()] == "" && (s.D["len:SameAs"] == "0" || s.D["len:InverseOf"] == "0")
}

func (k *passClient) Compare(e *Engine, s *State, op *ssa.BinOp, x, y Val) []Outcome {
	known := func(v Val) bool { return v.K == KNonNil && (v.S == "eof" || v.S == "inerr") }
	if known(x) && known(y) {
		return []Outcome{{Val: boolVal((x.S == y.S) == (op.Op == token.EQL))}}
	}
	return nil
}

// pending checks that the statement read last was taken care of
func (k *passClient) pending(e *Engine, s *State, instr ssa.Instruction) {
	kind := s.D["tok"]
	if kind != "literal" && kind != "node" || s.D["taken"] != "" {
		return
	}
	pass := s.D["pass"]
	k.c.ObOnce("skipped", k.c.W.pos(instr.Pos())+" "+kind)
	for f, p := range map[string]string{"SameAs": "identical", "InverseOf": "inverse"} {
		if s.facts["tok.in."+f+";"] == "f" {
			k.kind(pass, p)
			return
		}
	}
	if kind == "literal" {
		k.kind(pass, "skips literals")
		return
	}
	k.bad(e, s, instr, "a statement about two resources is passed over without being looked at")
}

func (k *passClient) kind(pass, kind string) {
	if k.kinds[pass] == nil {
		k.kinds[pass] = map[string]bool{}
	}
	k.kinds[pass][kind] = true
}

// ended checks that the last pass saw everything
func (k *passClient) ended(e *Engine, s *State, instr ssa.Instruction, what string) {
	if s.D["pass"] != "" && s.D["tok"] != "eof" {
		k.bad(e, s, instr, "%s, although the input was not read to its end", what)
	}
}

func (k *passClient) Call(e *Engine, s *State, cs *CallSite) ([]Outcome, bool) {
	com := cs.Instr.Common()
	nilV := Val{K: KNil}
	if b, ok := com.Value.(*ssa.Builtin); ok && b.Name() == "len" {
		if f := k.predsOf(s, cs.Args[0]); f != "" && f != "mixed" {
			// no predicates, or some
			switch s.D["len:"+f] {
			case "":
				return []Outcome{
					{Val: Val{K: KConst, S: "0"}, Apply: func(s *State) { s.D["len:"+f] = "0" }},
					{Val: Val{K: KConst, S: "1"}, Apply: func(s *State) { s.D["len:"+f] = "1" }},
				}, true
			default:
				return []Outcome{{Val: Val{K: KConst, S: s.D["len:"+f]}}}, true
			}
		}
		return nil, false
	}
	if com.IsInvoke() {
		tok, ok := sourceLike(com.Value.Type())
		if !ok {
			return nil, false
		}
		switch com.Method.Name() {
		case "Open":
			k.ended(e, s, cs.Instr, "another pass starts")
			if cs.Defer {
				return nil, false
			}
			id := cs.ResID
			k.where[id] = cs.Instr
			k.c.ObOnce("pass", k.c.W.pos(cs.Instr.Pos())+" "+id)
			if s.D["final"] != "" {
				k.bad(e, s, cs.Instr, "a pass starts after the index was finalised")
			}
			return []Outcome{{Val: nilV, Apply: func(s *State) {
				if strings.Contains(s.D["order"], id) {
					s.D["order"] += " (again)"
				}
				if len(s.D["order"]) < 2000 {
					s.D["order"] += " " + id
				}
				s.D["pass"], s.D["tok"], s.D["taken"] = id, "none", ""
			}}, {Val: Val{K: KNonNil, S: "open"}, Apply: func(s *State) { s.D["pass"], s.D["tok"] = "", "" }}}, true
		case "Next":
			k.c.ObOnce("read", k.c.W.pos(cs.Instr.Pos()))
			if s.D["pass"] == "" {
				k.bad(e, s, cs.Instr, "the input is read without being opened")
			}
			if s.D["tok"] == "eof" {
				k.bad(e, s, cs.Instr, "the input is read after its end")
			}
			k.pending(e, s, cs.Instr)
			var outs []Outcome
			for _, kind := range []string{"eof", "inerr", "literal", "node"} {
				kind := kind
				outs = append(outs, Outcome{Val: opaque("tok;"), Apply: func(s *State) {
					s.redefine("tok;")
					s.redefineFacts("tok.")
					for i := 0; i < tok.NumFields(); i++ {
						f := tok.Field(i)
						v := opaque("tok." + f.Name() + ";")
						if isErrorType(f.Type()) {
							v = nilV
							if kind == "eof" || kind == "inerr" {
								v = Val{K: KNonNil, S: kind}
							}
						} else if b, ok := f.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
							v = boolVal(kind == "literal")
						}
						s.mem["tok;."+f.Name()] = v
					}
					s.D["tok"], s.D["taken"] = kind, ""
				}})
			}
			return outs, true
		}
		return nil, false
	}
	if cs.Name() == "errors.Is" && len(cs.Args) == 2 {
		a, b := cs.Args[0], cs.Args[1]
		if b.K == KNonNil && b.S == "eof" {
			if a.K == KNil {
				return []Outcome{{Val: boolVal(false)}}, true
			}
			if a.K == KNonNil && (a.S == "eof" || a.S == "inerr") {
				return []Outcome{{Val: boolVal(a.S == "eof")}}, true
			}
		}
		return nil, false
	}
	if name := cs.Name(); strings.HasPrefix(name, "slices.Contains") && len(cs.Args) == 2 {
		if f := k.predsOf(s, cs.Args[0]); f != "" && cs.Args[1].S == "tok.Predicate;" {
			return []Outcome{{Val: opaque("tok.in." + f + ";")}}, true
		}
	}
	if cs.Static == nil || cs.Static.Signature.Recv() == nil {
		return nil, false
	}
	rn := recvNamed(cs.Static)
	if rn == nil || rn.Obj().Name() != "Index" || !strings.HasSuffix(fnPkg(cs.Static), graphPkg) {
		return nil, false
	}
	var args []string
	for _, a := range cs.Args[1:] {
		args = append(args, strings.TrimSuffix(strings.TrimPrefix(a.S, "tok."), ";"))
	}
	got := strings.Join(args, " ")
	res := cs.Sig.Results()
	both := func() ([]Outcome, bool) {
		if res.Len() != 1 || !isErrorType(res.At(0).Type()) {
			return nil, false
		}
		return []Outcome{
			{Val: nilV, Apply: func(s *State) { s.D["taken"] = "yes" }},
			{Val: Val{K: KNonNil, S: "index"}, Apply: func(s *State) { s.D["taken"] = "failed" }},
		}, true
	}
	take := func(kind string, pass string, want ...string) ([]Outcome, bool) {
		k.c.ObOnce("taken", k.c.W.pos(cs.Instr.Pos()))
		ok := false
		for _, w := range want {
			ok = ok || w == got
		}
		if !ok {
			k.bad(e, s, cs.Instr, "%s is given (%s) instead of (%s) of the statement", cs.Static.Name(), got, want[0])
		}
		if s.D["tok"] != kind {
			k.bad(e, s, cs.Instr, "%s is used for what is not a statement with a %s as object (%s)", cs.Static.Name(), kind, s.D["tok"])
		}
		k.kind(s.D["pass"], pass)
		if s.D["taken"] != "" {
			k.bad(e, s, cs.Instr, "a statement is entered twice")
		}
		return both()
	}
	switch cs.Static.Name() {
	case "MarkIdentical", "MarkInverse":
		f := map[string]string{"MarkIdentical": "SameAs", "MarkInverse": "InverseOf"}[cs.Static.Name()]
		p := map[string]string{"MarkIdentical": "identical", "MarkInverse": "inverse"}[cs.Static.Name()]
		if s.facts["tok.in."+f+";"] != "t" {
			k.bad(e, s, cs.Instr, "%s is used for a statement whose predicate is not known to be one of %s", cs.Static.Name(), f)
		}
		if cs.Static.Name() == "MarkIdentical" {
			// the subject is the name that remains
			return take("node", p, "Subject Object")
		}
		return take("node", p, "Subject Object", "Object Subject")
	case "AddTriple":
		return take("node", "data", "Subject Predicate Object")
	case "AddLangData":
		return take("literal", "data", "Subject Predicate Datum Language")
	case "AddData":
		return take("literal", "data", "Subject Predicate Datum, with its language")
	case "Finalize":
		k.c.ObOnce("finalised", k.c.W.pos(cs.Instr.Pos()))
		k.ended(e, s, cs.Instr, "the index is finalised")
		return []Outcome{
			{Val: nilV, Apply: func(s *State) { s.D["final"] = "1" }},
			{Val: Val{K: KNonNil, S: "finalize"}},
		}, true
	case "Reset":
		return []Outcome{{Val: nilV, Apply: func(s *State) {
			if s.D["order"] != "" {
				s.D["order"] += " (reset)"
			}
		}}, {Val: Val{K: KNonNil, S: "reset"}}}, true
	}
	return nil, false
}

func (k *passClient) Exit(e *Engine, s *State, kind ExitKind, instr ssa.Instruction, res []Val) {
	if kind != ExitReturn || len(res) == 0 || s.isNil(res[len(res)-1]) == 0 {
		return
	}
	k.c.ObOnce("finished", k.c.W.pos(instr.Pos()))
	k.ended(e, s, instr, "building the index succeeds")
	if s.D["final"] == "" {
		k.bad(e, s, instr, "building the index succeeds without finalising it")
	}
	if s.D["taken"] == "failed" {
		k.bad(e, s, instr, "building the index succeeds although a statement could not be entered")
	}
	left := ""
	for _, f := range []string{"SameAs", "InverseOf"} {
		if s.D["len:"+f] == "0" {
			left += f
		}
	}
	o := s.D["order"]
	if old, ok := k.orders[o]; !ok || len(left) < len(old[1]) {
		k.orders[o] = [2]string{k.c.W.pos(instr.Pos()), left}
	}
}

func (k *passClient) judge() {
	name := map[string]string{}
	for id := range k.where {
		var real []string
		for _, x := range sortedKeys(k.kinds[id]) {
			if x != "skips literals" {
				real = append(real, x)
			}
		}
		at := k.c.W.pos(k.where[id].Pos())
		switch {
		case len(real) == 0:
			k.c.BadAt("passes", fname(k.root), at, "", "a pass reads the input without using any of it")
		case len(real) > 1:
			k.c.BadAt("passes", fname(k.root), at, "", "one pass does the work of several (%s): identities and inverses have to be known before the statements that depend on them", strings.Join(real, ", "))
		case real[0] == "data" && k.kinds[id]["skips literals"]:
			k.c.BadAt("passes", fname(k.root), at, "", "the pass over the data leaves out literals")
		}
		name[id] = strings.Join(real, "+")
	}
	var orders []string
	for o := range k.orders {
		orders = append(orders, o)
	}
	sort.Strings(orders)
	for _, o := range orders {
		var seq []string
		for _, id := range strings.Fields(o) {
			if n, ok := name[id]; ok {
				seq = append(seq, n)
			} else {
				seq = append(seq, id)
			}
		}
		got := strings.Join(seq, ", ")
		k.c.ObOnce("order", got)
		want := []string{"identical", "inverse", "data"}
		ok := got == strings.Join(want, ", ")
		left := k.orders[o][1]
		if strings.Contains(left, "InverseOf") && got == "identical, data" {
			ok = true
		}
		if strings.Contains(left, "SameAs") && (got == "inverse, data" || got == "data" && strings.Contains(left, "InverseOf")) {
			ok = true
		}
		if !ok {
			k.c.BadAt("passes", fname(k.root), k.orders[o][0], "", "the passes over the input are (%s) instead of (%s)", got, strings.Join(want, ", "))
		}
	}
	if len(orders) == 0 {
		k.c.Bad("passes", fname(k.root), k.root.Pos(), "no way to build an index successfully was found")
	}
}

// sourceRoots finds the functions that build an index from a source
func sourceRoots(w *World) (roots []*ssa.Function) {
	takes := func(fn *ssa.Function) bool {
		for _, p := range fn.Params {
			if _, ok := sourceLike(p.Type()); ok {
				return true
			}
		}
		return false
	}
	for _, fn := range w.Fns {
		if !isRepo(fn) || fn.Blocks == nil || fn.Parent() != nil || fn.Synthetic != "" || !takes(fn) {
			continue
		}
		inner := false
		for _, call := range allCallers(w, fn) {
			if takes(outermost(call.Parent())) {
				inner = true
			}
		}
		if !inner {
			roots = append(roots, fn)
		}
	}
	return
}

func checkPasses(c *Ctx) {
	n := 0
	for _, fn := range sourceRoots(c.W) {
		n++
		k := &passClient{c: c, root: fn, kinds: map[string]map[string]bool{}, where: map[string]ssa.Instruction{}, orders: map[string][2]string{}}
		e := NewEngine(c.W, k)
		e.Strings, e.Special, e.RootID = true, k.special, "r"
		e.Run(fn, func(s *State) { s.D["keep"] = "tok.in.SameAs; tok.in.InverseOf;" })
		if e.Over {
			c.Bad("undecided", fname(fn), fn.Pos(), "too many paths to decide")
			continue
		}
		k.judge()
	}
	if n == 0 {
		c.BadAt("passes", "building an index", "internal/sparkl", "", "no function that builds an index from a source was found")
	}
}

// sourceImpls finds the types that read statements
func sourceImpls(w *World) map[*types.Named]map[string]*ssa.Function {
	out := map[*types.Named]map[string]*ssa.Function{}
	for _, fn := range w.Fns {
		rn := recvNamed(fn)
		if rn == nil || !isRepo(fn) || fn.Blocks == nil || fn.Parent() != nil || fn.Synthetic != "" {
			continue
		}
		switch fn.Name() {
		case "Open", "Close", "Next":
			if out[rn] == nil {
				out[rn] = map[string]*ssa.Function{}
			}
			out[rn][fn.Name()] = fn
		}
	}
	for rn, ms := range out {
		ok := len(ms) == 3 && ms["Next"].Signature.Results().Len() == 1
		if ok {
			st, isS := ms["Next"].Signature.Results().At(0).Type().Underlying().(*types.Struct)
			ok = isS
			if isS {
				ok = false
				for i := 0; i < st.NumFields(); i++ {
					ok = ok || isErrorType(st.Field(i).Type())
				}
			}
		}
		if !ok {
			delete(out, rn)
		}
	}
	return out
}

// rewindClient follows opening a source
type rewindClient struct {
	BaseClient
	c    *Ctx
	root *ssa.Function
	fld  string // the field with the current reader
}

func (k *rewindClient) Inline(e *Engine, s *State, cs *CallSite, fn *ssa.Function) bool {
	return isRepo(fn)
}

func (k *rewindClient) Call(e *Engine, s *State, cs *CallSite) ([]Outcome, bool) {
	switch name := cs.Name(); {
	case strings.HasSuffix(name, ").Seek") || cs.Iface != nil && cs.Iface.Name() == "Seek":
		k.c.ObOnce("rewind", k.c.W.pos(cs.Instr.Pos()))
		if x, ok := intOf(cs.Args[1]); ok && x == 0 {
			if y, ok := intOf(cs.Args[2]); ok && y == 0 {
				return []Outcome{
					{Val: Val{K: KTuple, T: []Val{opaque("pos;"), {K: KNil}}}, Apply: func(s *State) { s.D["start"] = cs.Args[0].String() }},
					errOutcome(2),
				}, true
			}
		}
		k.c.Bad("rewind", fname(k.root), cs.Instr.Pos(), "the input is not moved to its beginning")
	case strings.HasSuffix(name, "nquads.NewReader"):
		raw := boolVal(false)
		if len(cs.Args) > 1 {
			raw = cs.Args[1]
		}
		return []Outcome{{Val: Val{K: KNonNil, S: "reader(" + cs.Args[0].String() + "," + raw.String() + ")"}, Apply: func(s *State) {
			s.D["made"] = cs.Args[0].String()
			if s.D["start"] != "" && s.D["start"] != cs.Args[0].String() {
				k.c.Bad("rewind", fname(k.root), cs.Instr.Pos(), "another input is read than the one that was moved to its beginning")
			}
		}}}, true
	}
	return nil, false
}

func (k *rewindClient) Exit(e *Engine, s *State, kind ExitKind, instr ssa.Instruction, res []Val) {
	if kind != ExitReturn || len(res) == 0 || s.isNil(res[len(res)-1]) == 0 {
		return
	}
	k.c.Ob("opened", k.c.W.pos(instr.Pos()))
	recv := "*r:" + k.root.Params[0].Name() + ";."
	v, known := e.load(s, recv+k.fld, types.Typ[types.UnsafePointer])
	if !known || !strings.HasPrefix(v.S, "reader(") || s.D["made"] == "" {
		k.c.Bad("rewind", fname(k.root), instr.Pos(), "opening the input succeeds without a new reader for it")
	}
	if s.D["start"] == "" && s.D["fresh"] == "" {
		k.c.BadAt("rewind", fname(k.root), k.c.W.pos(instr.Pos()), e.Trace(s), "an input that was read before is read on from where it stands")
	}
}

// Compare is not used; the first opening is recognised by the reader being absent
func (k *rewindClient) Instr(e *Engine, s *State, instr ssa.Instruction) bool {
	if _, ok := instr.(*ssa.Store); ok || s.D["fresh"] != "" || s.D["made"] != "" {
		return true
	}
	key := "*r:" + k.root.Params[0].Name() + ";." + k.fld
	if v, ok := s.mem[key]; ok && s.isNil(v) == 1 || s.isNil(opaque("*"+key+";")) == 1 {
		s.D["fresh"] = "1"
	}
	return true
}

// tokenClient follows reading one statement
type tokenClient struct {
	BaseClient
	c    *Ctx
	rule string
	root *ssa.Function
}

func (k *tokenClient) bad(e *Engine, s *State, instr ssa.Instruction, rule, format string, args ...any) {
	if rule == k.rule {
		k.c.BadAt(rule, fname(k.root), k.c.W.pos(instr.Pos()), e.Trace(s), format, args...)
	}
}

func (k *tokenClient) Inline(e *Engine, s *State, cs *CallSite, fn *ssa.Function) bool {
	return isRepo(fn)
}

func quadKind(t types.Type) string {
	if n := namedOf(t); n != nil && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "cayleygraph/quad") {
		return n.Obj().Name()
	}
	return ""
}

func (k *tokenClient) special(e *Engine, s *State, instr ssa.Instruction) bool {
	switch ins := instr.(type) {
	case *ssa.TypeAssert:
		q := quadKind(ins.AssertedType)
		v := e.eval(s, ins.X)
		if q == "" || !strings.HasPrefix(v.S, "quad.") {
			return false
		}
		if ins.CommaOk {
			e.set(s, ins, Val{K: KTuple, T: []Val{v, e.refine(s, opaque("is:"+q+":"+v.S))}})
			return true
		}
	}
	return false
}

func (k *tokenClient) Call(e *Engine, s *State, cs *CallSite) ([]Outcome, bool) {
	if strings.HasSuffix(cs.Name(), "nquads.Reader).ReadQuad") {
		if s.D["read"] != "" {
			k.c.ObOnce(k.rule, "skipped: "+k.c.W.pos(cs.Instr.Pos()))
			if !k.notNode(s, "Subject") && !k.notNode(s, "Predicate") {
				k.bad(e, s, cs.Instr, "skipped-statement", "a statement about a resource is passed over")
			}
		}
		st, _ := cs.Sig.Results().At(0).Type().Underlying().(*types.Struct)
		return []Outcome{
			{Val: Val{K: KTuple, T: []Val{opaque("quad;"), {K: KNil}}}, Apply: func(s *State) {
				s.redefine("quad;")
				s.redefineFacts(":quad.")
				for i := 0; st != nil && i < st.NumFields(); i++ {
					s.mem["quad;."+st.Field(i).Name()] = opaque("quad." + st.Field(i).Name() + ";")
				}
				s.D["read"] = "1"
				s.D["err"] = ""
			}},
			{Val: Val{K: KTuple, T: []Val{opaque("noquad;"), {K: KNonNil, S: "readerr"}}}, Apply: func(s *State) { s.D["err"] = "1" }},
		}, true
	}
	if _, ok := cs.Instr.Common().Value.(*ssa.Builtin); ok || cs.Sig.Results().Len() != 1 || cs.Static != nil && isRepo(cs.Static) || cs.Static == nil && cs.Iface == nil {
		return nil, false
	}
	// what is computed from a part of the statement
	var args []Val
	for i, a := range cs.Args {
		if cs.Sig.Variadic() && i == len(cs.Args)-1 {
			if el, ok := e.variadic(s, cs.ArgV[i], a); ok {
				args = append(args, el...)
				continue
			}
		}
		if a.K == KOpaque && !strings.HasPrefix(a.S, "quad.") {
			for m, mv := range s.mem {
				if rest, ok := strings.CutPrefix(mv.S, "*quad."); ok && strings.HasPrefix(m, a.S+".") {
					part, _, _ := strings.Cut(rest, ";")
					a = opaque("quad." + part + ";")
					break
				}
			}
		}
		args = append(args, a)
	}
	n := cs.Name()
	return []Outcome{{Val: term(n[strings.LastIndexByte(n, '.')+1:], args...)}}, true
}

func (k *tokenClient) isNode(s *State, part string) bool {
	return s.facts["is:IRI:quad."+part+";"] == "t" || s.facts["is:BNode:quad."+part+";"] == "t"
}

func (k *tokenClient) notNode(s *State, part string) bool {
	return s.facts["is:IRI:quad."+part+";"] == "f" && s.facts["is:BNode:quad."+part+";"] == "f" ||
		s.facts["is:LangString:quad."+part+";"] == "t" || s.facts["is:String:quad."+part+";"] == "t"
}

func (k *tokenClient) Exit(e *Engine, s *State, kind ExitKind, instr ssa.Instruction, res []Val) {
	if kind != ExitReturn || len(res) != 1 {
		return
	}
	st := k.root.Signature.Results().At(0).Type().Underlying().(*types.Struct)
	get := func(name string) Val {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				if res[0].K == KConst {
					return zeroVal(st.Field(i).Type())
				}
				v, _ := e.load(s, res[0].S+"."+name, st.Field(i).Type())
				return v
			}
		}
		return Val{}
	}
	k.c.ObOnce(k.rule, "returned: "+k.c.W.pos(instr.Pos()))
	err := get("Err")
	if s.D["err"] != "" {
		if err.K != KNonNil || err.S != "readerr" {
			k.bad(e, s, instr, "skipped-statement", "the error of reading is not passed on")
		}
		return
	}
	if s.isNil(err) != 1 {
		k.bad(e, s, instr, "skipped-statement", "a statement that was read is reported as an error")
		return
	}
	for _, part := range []string{"Subject", "Predicate"} {
		if v := get(part); v.S != "quad."+part+";" {
			k.bad(e, s, instr, "kind-by-type", "the %s of the statement is %s", strings.ToLower(part), v)
		}
		if !k.isNode(s, part) {
			k.bad(e, s, instr, "kind-by-type", "the %s is used without knowing that it is a resource", strings.ToLower(part))
		}
	}
	has := get("HasDatum")
	switch {
	case has.K != KBool:
		// decided by something that is not the type of the object
		k.bad(e, s, instr, "kind-by-type", "whether the object is a literal is decided by %s", has)
	case has.N == 1:
		if !k.notNode(s, "Object") {
			k.bad(e, s, instr, "kind-by-type", "an object becomes a literal that may be a resource")
		}
		d := get("Datum")
		if !strings.Contains(d.S, "quad.Object") || strings.Contains(d.S, "quad.Subject") || strings.Contains(d.S, "quad.Predicate") || strings.Contains(d.S, "Lang") {
			k.bad(e, s, instr, "kind-by-type", "the text of the literal is %s", d)
		}
		l := get("Language")
		switch {
		case s.facts["is:LangString:quad.Object;"] == "t":
			if l.S != "*quad.Object;.Lang;" {
				k.bad(e, s, instr, "kind-by-type", "the language of the literal is %s", l)
			}
		case s.facts["is:LangString:quad.Object;"] == "f":
			if x, ok := constStr(l); !ok || x != "" {
				k.bad(e, s, instr, "kind-by-type", "a literal without a language gets %s", l)
			}
		default:
			k.bad(e, s, instr, "kind-by-type", "the language of literals is not looked at")
		}
	default:
		if !k.isNode(s, "Object") {
			k.bad(e, s, instr, "kind-by-type", "an object becomes a resource that may be a literal")
		}
		if o := get("Object"); o.S != "quad.Object;" {
			k.bad(e, s, instr, "kind-by-type", "the object of the statement is %s", o)
		}
	}
}

// checkTokens checks the readers of statements; rule is what is of interest
func checkTokens(c *Ctx, rule string) {
	impls := sourceImpls(c.W)
	for _, rn := range sortedNamed(impls) {
		fn := impls[rn]["Next"]
		c.Ob(rule, fname(fn))
		k := &tokenClient{c: c, rule: rule, root: fn}
		e := NewEngine(c.W, k)
		e.Strings, e.Special, e.RootID = true, k.special, "r"
		e.Run(fn, func(s *State) {
			for _, part := range []string{"Subject", "Predicate", "Object"} {
				for _, q := range []string{"IRI", "BNode", "LangString", "String"} {
					s.D["keep"] += "is:" + q + ":quad." + part + "; "
				}
			}
		})
		if e.Over {
			c.Bad("undecided", fname(fn), fn.Pos(), "too many paths to decide")
		}
	}
	if len(impls) == 0 {
		c.BadAt(rule, "reading statements", "internal/sparkl", "", "no reader of statements was found")
	}
}

func checkRewind(c *Ctx) {
	impls := sourceImpls(c.W)
	for _, rn := range sortedNamed(impls) {
		fn := impls[rn]["Open"]
		k := &rewindClient{c: c, root: fn}
		st, _ := rn.Underlying().(*types.Struct)
		for i := 0; st != nil && i < st.NumFields(); i++ {
			if strings.HasSuffix(st.Field(i).Type().String(), "nquads.Reader") {
				k.fld = st.Field(i).Name()
			}
		}
		c.Ob("rewind", fname(fn))
		e := NewEngine(c.W, k)
		e.Strings, e.RootID = true, "r"
		e.Run(fn, nil)
		if e.Over {
			c.Bad("undecided", fname(fn), fn.Pos(), "too many paths to decide")
		}
	}
}

func init() {
	register(&Check{
		Prop:    "C20",
		Explain: "building an index is followed as an automaton over opening, reading and entering statements; opening a source has to start from the beginning; reading passes over statements only by the type of subject and predicate",
		Floors:  map[string]int{"pass": 2, "read": 1, "taken": 2, "skipped": 1, "finalised": 1, "finished": 1, "order": 1, "opened": 1, "rewind": 1, "skipped-statement": 2},
		Run: func(c *Ctx) {
			checkPasses(c)
			checkRewind(c)
			checkTokens(c, "skipped-statement")
		},
	})
}
