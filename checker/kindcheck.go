package main

// C19: whether a value is a literal or a node never depends on its text.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
	"text/template/parse"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		Prop:    "C19",
		Explain: "readers are judged by the types of what they read; entering, reading back, serialising and showing of statements is followed for every role and kind, and compared with what has to come out",
		Floors:  map[string]int{"kind-by-type": 2, "entered": 4, "path-kind": 2, "path-value": 2, "serialised": 6, "template-role": 6, "field-value": 2},
		Run: func(c *Ctx) {
			checkTokens(c, "kind-by-type")
			checkEntered(c)
			checkPathKind(c)
			checkPathValue(c)
			checkSerialised(c)
			checkTemplateRoles(c)
			checkFieldValues(c)
		},
	})
}

// kindClient follows literals through the graph
type kindClient struct {
	BaseClient
	w    *World
	pkg  string
	call func(e *Engine, s *State, cs *CallSite) ([]Outcome, bool)
	exit func(e *Engine, s *State, instr ssa.Instruction, res []Val)
}

func (k *kindClient) Inline(e *Engine, s *State, cs *CallSite, fn *ssa.Function) bool {
	return isRepo(fn) && (fn.Parent() != nil || k.pkg == "" || fnPkg(fn) == k.pkg)
}

func (k *kindClient) Call(e *Engine, s *State, cs *CallSite) ([]Outcome, bool) {
	if cs.Iface == nil && cs.Static != nil && cs.Static.Signature.Recv() != nil {
		rn := recvNamed(cs.Static)
		tup := func(vs ...Val) Val { return Val{K: KTuple, T: vs} }
		if rn != nil && rn.Obj().Name() == "IMap" {
			switch cs.Static.Name() {
			case "Add":
				return []Outcome{{Val: tup(idTerm(cs.Args[1]), Val{K: KNil})}, errOutcome(2)}, true
			case "Next":
				return []Outcome{{Val: opaque("fresh;")}}, true
			}
		}
	}
	if k.call != nil {
		if outs, ok := k.call(e, s, cs); ok {
			return outs, true
		}
	}
	return e.strCall(s, cs)
}

func (k *kindClient) Exit(e *Engine, s *State, kind ExitKind, instr ssa.Instruction, res []Val) {
	if kind == ExitReturn {
		k.exit(e, s, instr, res)
	}
}

func (k *kindClient) run(c *Ctx, fn *ssa.Function, init func(*State)) {
	e := NewEngine(k.w, k)
	e.Strings, e.RootID = true, "r"
	e.Run(fn, init)
	if e.Over {
		c.Bad("undecided", fname(fn), fn.Pos(), "too many paths to decide")
	}
}

func fails(fn *ssa.Function, s *State, res []Val) bool {
	n := len(res)
	return n > 0 && isErrorType(fn.Signature.Results().At(n-1).Type()) && s.isNil(res[n-1]) != 1
}

// lastIsErr: the last result is the error of something that was called last
func mayFail(fn *ssa.Function, s *State, res []Val) bool {
	n := len(res)
	return n > 0 && isErrorType(fn.Signature.Results().At(n-1).Type()) && s.isNil(res[n-1]) == 0
}

// checkEntered: literals are entered as literals, with their language
func checkEntered(c *Ctx) {
	roles := map[string]string{}
	n := 0
	for _, fn := range c.W.Fns {
		rn := recvNamed(fn)
		if rn == nil || rn.Obj().Name() != "Index" || !strings.HasSuffix(fnPkg(fn), graphPkg) || fn.Parent() != nil || fn.Synthetic != "" || fn.Blocks == nil {
			continue
		}
		if len(roles) == 0 {
			roles = roleConsts(fn.Pkg.Pkg)
		}
		var datum, lang, labels string
		for _, p := range fn.Params[1:] {
			switch shortType(p.Type()) {
			case "Datum":
				datum = p.Name()
			case "Language":
				lang = p.Name()
			case "Label":
				labels += p.Name() + " "
			}
		}
		nl := len(strings.Fields(labels))
		if datum == "" && nl != 3 || datum != "" && nl != 2 {
			continue
		}
		res := fn.Signature.Results()
		if res.Len() != 1 || !isErrorType(res.At(0).Type()) {
			continue
		}
		n++
		langs := []string{"-"}
		if lang != "" {
			langs = []string{`""`, `"en"`}
		}
		for _, l := range langs {
			for _, text := range []string{"-", `""`, `"https://example.com/"`} {
				if datum == "" && text != "-" {
					continue
				}
				c.enteredOne(fn, roles, datum, lang, l, text)
			}
		}
	}
	if n == 0 {
		c.BadAt("entered", "Index", "internal/triplestore/igraph", "", "no function that enters statements was found")
	}
}

func (c *Ctx) enteredOne(fn *ssa.Function, roles map[string]string, datum, lang, l, text string) {
	c.Ob("entered", fmt.Sprintf("%s language %s text %s", fname(fn), l, text))
	var langV, textV Val
	if lang != "" {
		langV = Val{K: KConst, S: l}
	}
	if datum != "" {
		textV = opaque("r:" + datum + ";")
		if text != "-" {
			textV = Val{K: KConst, S: text}
		}
	}
	k := &kindClient{w: c.W, pkg: fnPkg(fn)}
	what := func() string {
		if text == "-" {
			return "a literal"
		}
		return "the literal " + text
	}
	k.call = func(e *Engine, s *State, cs *CallSite) ([]Outcome, bool) {
		m, key, val, ok := hashMapTypes(cs.Instr.Common())
		if !ok || key != "ID" {
			return nil, false
		}
		set := func(k, v string) ([]Outcome, bool) {
			return []Outcome{{Val: Val{K: KNil}, Apply: func(s *State) { s.D[k] = v }}, {Val: Val{K: KNonNil, S: "set"}}}, true
		}
		switch {
		case m == "Set" && val == "Datum":
			return set("datum", cs.Args[1].String()+" "+cs.Args[2].String())
		case m == "Set" && val == "Language":
			return set("language", cs.Args[1].String()+" "+cs.Args[2].String())
		case m == "Set" && val == "IndexTriple":
			role, _ := e.load(s, cs.Args[2].S+".Role", types.Typ[types.Uint8])
			obj, _ := e.load(s, cs.Args[2].S+".Items[2].Literal", types.Typ[types.Uint32])
			if cs.Args[2].K == KConst {
				role = Val{K: KConst, S: "0"}
			}
			return set("triple", obj.String()+" "+roles[role.String()])
		}
		return nil, false
	}
	k.exit = func(e *Engine, s *State, instr ssa.Instruction, res []Val) {
		if mayFail(fn, s, res) {
			return
		}
		bad := func(format string, args ...any) {
			c.BadAt("entered", fname(fn), c.W.pos(instr.Pos()), e.Trace(s), format, args...)
		}
		tr := strings.Fields(s.D["triple"])
		if datum == "" {
			if s.D["datum"] != "" || len(tr) == 2 && tr[1] == "Data" {
				bad("a statement about two resources is stored as a literal")
			}
			return
		}
		if len(tr) != 2 {
			// statements whose predicate is not asked for are dropped, whatever the literal is
			if s.D["datum"] != "" {
				bad("the text of a literal is stored without the statement")
			}
			return
		}
		s.D["any"] = "1"
		if tr[1] != "Data" {
			bad("%s is stored in the role %s", what(), tr[1])
		}
		if s.D["datum"] != tr[0]+" "+textV.String() {
			bad("%s is stored without its text (stored for the object %s: %s)", what(), tr[0], s.D["datum"])
		}
		switch {
		case lang == "":
		case l == `""`:
			if s.D["language"] != "" && !strings.HasSuffix(s.D["language"], `c("")`) {
				bad("%s without a language is stored with one", what())
			}
		case s.D["language"] != tr[0]+" "+langV.String():
			bad("%s is stored without its language (stored for the object %s: %q)", what(), tr[0], s.D["language"])
		}
	}
	stored := false
	inner := k.exit
	k.exit = func(e *Engine, s *State, instr ssa.Instruction, res []Val) {
		inner(e, s, instr, res)
		stored = stored || s.D["triple"] != ""
	}
	e := NewEngine(c.W, k)
	e.Strings, e.RootID = true, "r"
	e.Params = map[string]Val{}
	if lang != "" {
		e.Params[lang] = langV
	}
	if datum != "" {
		e.Params[datum] = textV
	}
	e.Run(fn, nil)
	if e.Over {
		c.Bad("undecided", fname(fn), fn.Pos(), "too many paths to decide")
	}
	if !stored {
		c.Bad("entered", fname(fn), fn.Pos(), "%s is never stored", what())
	}
}

// checkPathKind: a path ends in a literal exactly if one is stored for its last element
func checkPathKind(c *Ctx) {
	n := 0
	for _, fn := range c.W.Fns {
		if !isRepo(fn) || fn.Blocks == nil || fn.Synthetic != "" || fn.Parent() != nil || !strings.HasSuffix(fnPkg(fn), graphPkg) {
			continue
		}
		res := fn.Signature.Results()
		if res.Len() != 2 || !isErrorType(res.At(1).Type()) || namedOf(res.At(0).Type()) == nil || namedOf(res.At(0).Type()).Obj().Name() != "Path" {
			continue
		}
		n++
		fn := fn
		k := &kindClient{w: c.W, pkg: fnPkg(fn)}
		k.call = func(e *Engine, s *State, cs *CallSite) ([]Outcome, bool) {
			tup := func(vs ...Val) Val { return Val{K: KTuple, T: vs} }
			if cs.Static != nil && cs.Static.Signature.Recv() != nil && recvNamed(cs.Static) != nil && recvNamed(cs.Static).Obj().Name() == "Index" && cs.Static.Signature.Results().Len() == 2 {
				return []Outcome{{Val: tup(opaque("part;"), Val{K: KNil})}, errOutcome(2)}, true
			}
			m, key, val, ok := hashMapTypes(cs.Instr.Common())
			if !ok || key != "ID" {
				return nil, false
			}
			id := cs.Args[1].String()
			switch {
			case (m == "Get" || m == "GetZero") && val == "Datum":
				c.ObOnce("path-kind", fname(fn)+" "+c.W.pos(cs.Instr.Pos()))
				if m == "GetZero" {
					return nil, false
				}
				return []Outcome{
					{Val: tup(opaque("text;"), boolVal(true), Val{K: KNil}), Apply: func(s *State) { s.D["kind"] = "literal " + id }},
					{Val: tup(opaque("notext;"), boolVal(false), Val{K: KNil}), Apply: func(s *State) { s.D["kind"] = "node" }},
					errOutcome(3),
				}, true
			case (m == "Get" || m == "GetZero") && val == "Language":
				of := "lang:" + id + ";"
				if m == "Get" {
					return []Outcome{{Val: tup(opaque(of), opaque(cs.ResID), Val{K: KNil})}, errOutcome(3)}, true
				}
				return []Outcome{{Val: tup(opaque(of), Val{K: KNil})}, errOutcome(2)}, true
			}
			return nil, false
		}
		k.exit = func(e *Engine, s *State, instr ssa.Instruction, res []Val) {
			if mayFail(fn, s, res) {
				return
			}
			bad := func(format string, args ...any) {
				c.BadAt("path-kind", fname(fn), c.W.pos(instr.Pos()), e.Trace(s), format, args...)
			}
			part := func(name string, t types.Type) Val {
				if res[0].K == KConst {
					return zeroVal(t)
				}
				v, _ := e.load(s, res[0].S+"."+name, t)
				return v
			}
			kind := s.D["kind"]
			c.ObOnce("path-kind", fname(fn)+" "+c.W.pos(instr.Pos())+" "+kind)
			has, d, l := part("HasDatum", types.Typ[types.Bool]), part("Datum", types.Typ[types.String]), part("Language", types.Typ[types.String])
			id, lit := strings.CutPrefix(kind, "literal ")
			switch {
			case kind == "" && res[0].K == KConst, kind == "" && has.K == KBool && has.N == 0:
			case kind == "":
				bad("whether the path ends in a literal is not looked up")
			case has.K != KBool:
				bad("whether the path ends in a literal depends on %s", has)
			case lit && has.N == 0:
				bad("a path that ends in a literal is handled like one that ends in a node")
			case !lit && has.N == 1:
				bad("a path that ends in a node is handled like one that ends in a literal")
			case lit && d.S != "text;":
				bad("the literal at the end of the path is %s", d)
			case lit && l.S != "lang:"+id+";":
				bad("the language of the literal is %s", l)
			}
		}
		k.run(c, fn, nil)
	}
	if n == 0 {
		c.BadAt("path-kind", "Path", "internal/triplestore/igraph", "", "no function that makes paths was found")
	}
}

// checkPathValue: the value of a path is its literal, or the last node
func checkPathValue(c *Ctx) {
	fn := methodOf(c.W, graphPkg, "Path", "Value")
	if fn == nil {
		c.BadAt("path-value", "Path.Value", "internal/triplestore/igraph", "", "it does not exist")
		return
	}
	root := "r:" + fn.Params[0].Name() + ";"
	for _, has := range []bool{true, false} {
		has := has
		c.Ob("path-value", fmt.Sprintf("%s with a literal: %v", fname(fn), has))
		k := &kindClient{w: c.W}
		k.exit = func(e *Engine, s *State, instr ssa.Instruction, res []Val) {
			v := res[0].S
			switch {
			case has && v != "literaltext;":
				c.BadAt("path-value", fname(fn), c.W.pos(instr.Pos()), e.Trace(s), "the value of a path that ends in a literal is %s, not its text", res[0])
			case !has && strings.Contains(v, "literaltext;"):
				c.BadAt("path-value", fname(fn), c.W.pos(instr.Pos()), e.Trace(s), "the value of a path that ends in a node is taken from a literal")
			}
		}
		k.run(c, fn, func(s *State) {
			for _, r := range []string{root, "*" + root} {
				s.mem[r+".HasDatum"] = boolVal(has)
				s.mem[r+".Datum"] = opaque("literaltext;")
			}
		})
	}
}

// checkSerialised: triples are serialised by their role
func checkSerialised(c *Ctx) {
	fn := methodOf(c.W, graphPkg, "Triple", "Triple")
	if fn == nil {
		c.BadAt("serialised", "Triple.Triple", "internal/triplestore/igraph", "", "it does not exist")
		return
	}
	roles := roleConsts(fn.Pkg.Pkg)
	for _, rc := range sortedKeys(roles) {
		role := roles[rc]
		langs := []string{`""`}
		if role == "Data" {
			langs = []string{`""`, `"en"`}
		}
		for _, lang := range langs {
			for _, canonical := range []bool{true, false} {
				for _, text := range []string{"-", `""`, `"https://example.com/"`} {
					c.serialisedOne(fn, rc, role, lang, canonical, text)
				}
			}
		}
	}
}

func (c *Ctx) serialisedOne(fn *ssa.Function, rc, role, lang string, canonical bool, text string) {
	where := fmt.Sprintf("%s role %s, language %s, canonical %v, text %s", fname(fn), role, lang, canonical, text)
	c.Ob("serialised", where)
	root := "r:" + fn.Params[0].Name() + ";"
	textV := opaque("d:Datum;")
	if text != "-" {
		textV = Val{K: KConst, S: text}
	}
	k := &kindClient{w: c.W, pkg: fnPkg(fn)}
	k.call = func(e *Engine, s *State, cs *CallSite) ([]Outcome, bool) {
		n := cs.Name()
		i := strings.LastIndexByte(n, '.')
		if !strings.HasSuffix(n[:i+1], "/rdf.") {
			return nil, false
		}
		var args []string
		for _, a := range cs.Args {
			args = append(args, a.String())
		}
		made := n[i+1:] + "(" + strings.Join(args, ",") + ")"
		return []Outcome{
			{Val: Val{K: KTuple, T: []Val{{K: KNonNil, S: made}, {K: KNil}}}},
			{Val: Val{K: KTuple, T: []Val{opaque("failed;"), {K: KNonNil, S: "rdf"}}}},
		}, true
	}
	ends := 0
	k.exit = func(e *Engine, s *State, instr ssa.Instruction, res []Val) {
		if mayFail(fn, s, res) {
			return
		}
		ends++
		pre := ""
		if canonical {
			pre = "S"
		}
		want := map[string]string{
			"Subj": "NewIRI(od:" + pre + "Subject;)",
			"Pred": "NewIRI(od:" + pre + "Predicate;)",
			"Obj":  "NewIRI(od:" + pre + "Object;)",
		}
		if role == "Data" {
			want["Obj"] = "NewLiteral(" + textV.String() + ")"
			if lang != `""` {
				want["Obj"] = "NewLangLiteral(" + textV.String() + ",c(" + lang + "))"
			}
		}
		for _, part := range sortedKeys(want) {
			v, _ := e.load(s, res[0].S+"."+part, types.NewPointer(types.Typ[types.Int]))
			if v.S != want[part] {
				c.BadAt("serialised", fname(fn), c.W.pos(instr.Pos()), e.Trace(s), "with %s: the part %s is %s instead of %s", where, part, v.S, want[part])
			}
		}
	}
	k.run(c, fn, func(s *State) {
		for _, r := range []string{root, "*" + root} {
			for _, f := range []string{"Subject", "Predicate", "Object", "SSubject", "SPredicate", "SObject"} {
				s.mem[r+"."+f] = opaque("d:" + f + ";")
			}
			s.mem[r+".Datum"] = textV
			s.mem[r+".Language"] = Val{K: KConst, S: lang}
			s.mem[r+".Role"] = Val{K: KConst, S: strings.TrimSuffix(strings.TrimPrefix(rc, "c("), ")")}
		}
		s.facts["r:"+fn.Params[1].Name()+";"] = map[bool]string{true: "t", false: "f"}[canonical]
		s.D["keep"] = "r:" + fn.Params[1].Name() + ";"
	})
	if ends == 0 {
		c.Bad("serialised", fname(fn), fn.Pos(), "with %s: it never succeeds", where)
	}
}

// ---- templates

type roleWalk struct {
	c     *Ctx
	tw    *tmplWorld
	roles map[string]string // "0" -> "Regular"
	data  string
	name  string
	vars  map[string]bool // variables that hold a role
	calls map[string]map[string]bool
	datum int
	node  int
	done  map[string]bool
}

func (k *roleWalk) all() map[string]bool {
	out := map[string]bool{}
	for r := range k.roles {
		out[r] = true
	}
	return out
}

func lastIdent(n parse.Node) string {
	switch n := n.(type) {
	case *parse.FieldNode:
		return n.Ident[len(n.Ident)-1]
	case *parse.VariableNode:
		if len(n.Ident) > 1 {
			return n.Ident[len(n.Ident)-1]
		}
		return n.Ident[0]
	case *parse.ChainNode:
		if len(n.Field) > 0 {
			return n.Field[len(n.Field)-1]
		}
	case *parse.PipeNode:
		if len(n.Cmds) == 1 && len(n.Decl) == 0 && len(n.Cmds[0].Args) == 1 {
			return lastIdent(n.Cmds[0].Args[0])
		}
	}
	return ""
}

func (k *roleWalk) isRole(n parse.Node) bool {
	x := lastIdent(n)
	return x == "Role" || k.vars[x]
}

// cond splits roles by a condition; known is false when it says nothing about roles
func (k *roleWalk) cond(n parse.Node, in map[string]bool) (t, f map[string]bool, known bool) {
	t, f = in, in
	switch n := n.(type) {
	case *parse.PipeNode:
		if len(n.Cmds) != 1 {
			return
		}
		args := n.Cmds[0].Args
		if len(args) == 1 {
			return k.cond(args[0], in)
		}
		id, ok := args[0].(*parse.IdentifierNode)
		if !ok {
			return
		}
		switch id.Ident {
		case "not":
			t, f, known = k.cond(args[1], in)
			return f, t, known
		case "eq", "ne":
			t, f = map[string]bool{}, map[string]bool{}
			if len(args) < 3 || !k.isRole(args[1]) && !(len(args) == 3 && k.isRole(args[2])) {
				return in, in, false
			}
			nums := args[2:]
			if !k.isRole(args[1]) {
				nums = args[1:2]
			}
			for r := range in {
				hit := false
				for _, a := range nums {
					if num, ok := a.(*parse.NumberNode); ok && num.Text == r {
						hit = true
					}
				}
				if hit {
					t[r] = true
				} else {
					f[r] = true
				}
			}
			if id.Ident == "ne" {
				t, f = f, t
			}
			return t, f, true
		case "and":
			t, f = in, map[string]bool{}
			known = true
			for _, a := range args[1:] {
				t2, f2, ok := k.cond(a, t)
				known = known && ok
				for r := range f2 {
					f[r] = true
				}
				t = t2
			}
			return
		case "or":
			t, f = map[string]bool{}, in
			known = true
			for _, a := range args[1:] {
				t2, f2, ok := k.cond(a, f)
				known = known && ok
				for r := range t2 {
					t[r] = true
				}
				f = f2
			}
			return
		}
	case *parse.FieldNode, *parse.VariableNode, *parse.ChainNode:
		if rs := k.method(lastIdent(n)); rs != nil {
			t, f = map[string]bool{}, map[string]bool{}
			for r := range in {
				if rs[r] {
					t[r] = true
				} else {
					f[r] = true
				}
			}
			return t, f, true
		}
	}
	return
}

// method: the roles for which a method of a triple is true
func (k *roleWalk) method(name string) map[string]bool {
	if rs, ok := k.calls[name]; ok {
		return rs
	}
	k.calls[name] = nil
	fn := methodOf(k.c.W, graphPkg, "Triple", name)
	if fn == nil || len(fn.Params) != 1 || fn.Signature.Results().Len() != 1 {
		return nil
	}
	out := map[string]bool{}
	for r := range k.roles {
		kc := &kindClient{w: k.c.W}
		good, val := true, -1
		kc.exit = func(e *Engine, s *State, instr ssa.Instruction, res []Val) {
			if res[0].K != KBool || val >= 0 && val != int(res[0].N) {
				good = false
				return
			}
			val = int(res[0].N)
		}
		kc.run(k.c, fn, func(s *State) {
			root := "r:" + fn.Params[0].Name() + ";"
			s.mem[root+".Role"] = Val{K: KConst, S: r}
			s.mem["*"+root+".Role"] = Val{K: KConst, S: r}
		})
		if !good || val < 0 {
			return nil
		}
		out[r] = val == 1
	}
	k.calls[name] = out
	return out
}

func (k *roleWalk) list(l *parse.ListNode, in map[string]bool) {
	if l == nil {
		return
	}
	for _, n := range l.Nodes {
		k.walk(n, in)
	}
}

func (k *roleWalk) walk(n parse.Node, in map[string]bool) {
	switch n := n.(type) {
	case *parse.ActionNode:
		k.pipe(n.Pipe, in)
	case *parse.IfNode:
		t, f, known := k.cond(n.Pipe, in)
		if !known {
			k.pipe(n.Pipe, in)
		}
		k.list(n.List, t)
		k.list(n.ElseList, f)
	case *parse.RangeNode:
		k.pipe(n.Pipe, in)
		k.list(n.List, k.all())
		k.list(n.ElseList, in)
	case *parse.WithNode:
		k.pipe(n.Pipe, in)
		inner := in
		if x := lastIdent(n.Pipe); x != "Datum" && x != "Language" && x != "Object" {
			inner = k.all()
		}
		k.list(n.List, inner)
		k.list(n.ElseList, in)
	case *parse.TemplateNode:
		k.pipe(n.Pipe, in)
	case *parse.ListNode:
		k.list(n, in)
	}
}

func (k *roleWalk) pipe(p *parse.PipeNode, in map[string]bool) {
	if p == nil {
		return
	}
	for _, d := range p.Decl {
		if k.isRole(p.Cmds[0].Args[0]) && len(p.Cmds) == 1 && len(p.Cmds[0].Args) == 1 {
			k.vars[d.Ident[0]] = true
		}
	}
	for _, cmd := range p.Cmds {
		for _, a := range cmd.Args {
			k.arg(a, in)
		}
	}
}

func (k *roleWalk) arg(a parse.Node, in map[string]bool) {
	switch n := a.(type) {
	case *parse.PipeNode:
		k.pipe(n, in)
		return
	case *parse.ChainNode:
		k.arg(n.Node, in)
	}
	x := lastIdent(a)
	switch x {
	case "Datum":
		k.datum++
		k.c.Ob("template-role", k.name+": Datum")
		for r := range in {
			if r != k.data {
				k.c.BadAt("template-role", k.name, k.name, "", "the text of a literal is used for statements in the role %s as well: what is shown depends on what the text is", k.roles[r])
			}
		}
	case "Object", "SObject":
		k.node++
		k.c.Ob("template-role", k.name+": "+x)
		if in[k.data] {
			k.c.BadAt("template-role", k.name, k.name, "", "the object of a statement is used as a resource although it may be a literal")
		}
	}
}

func checkTemplateRoles(c *Ctx) {
	fn := methodOf(c.W, graphPkg, "Triple", "Triple")
	if fn == nil {
		return
	}
	k := &roleWalk{c: c, tw: templatesOf(c.W), roles: map[string]string{}, calls: map[string]map[string]bool{}, done: map[string]bool{}}
	for rc, name := range roleConsts(fn.Pkg.Pkg) {
		r := strings.TrimSuffix(strings.TrimPrefix(rc, "c("), ")")
		k.roles[r] = name
		if name == "Data" {
			k.data = r
		}
	}
	both := 0
	for _, set := range sortedKeys(k.tw.sets) {
		trees := k.tw.trees(set)
		for _, name := range sortedKeys(trees) {
			tr := trees[name]
			if tr == nil || tr.Root == nil || k.done[name+tr.Root.String()] {
				continue
			}
			k.done[name+tr.Root.String()] = true
			k.name, k.vars = name, map[string]bool{}
			d, o := k.datum, k.node
			k.list(tr.Root, k.all())
			if k.datum > d && k.node > o {
				both++
			} else if k.datum > d || k.node > o {
				// statements of which only one kind is shown
				c.BadAt("template-role", name, name, "", "only one kind of statements (literals: %v, resources: %v) is shown", k.datum > d, k.node > o)
			}
		}
	}
	if both == 0 {
		c.BadAt("template-role", "templates", "internal/assets/templates", "", "no template that shows statements was found")
	}
}

// ---- values of fields

// checkFieldValues: a value of a field comes with its own language
func checkFieldValues(c *Ctx) {
	n := 0
	for _, fn := range c.W.Fns {
		if !isRepo(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, instr := range b.Instrs {
				call, ok := instr.(ssa.CallInstruction)
				if !ok {
					continue
				}
				com := call.Common()
				if !com.IsInvoke() && com.StaticCallee() == nil {
					continue
				}
				name := ""
				if com.IsInvoke() {
					name = com.Method.Name()
				} else if rn := recvNamed(com.StaticCallee()); rn != nil {
					name = com.StaticCallee().Name()
				}
				if name != "AddFieldValue" || fn.Synthetic != "" {
					continue
				}
				var val, lang ssa.Value
				for _, a := range com.Args {
					switch shortType(a.Type()) {
					case "Datum":
						val = a
					case "Language":
						lang = a
					}
				}
				if val == nil || lang == nil {
					continue
				}
				n++
				c.Ob("field-value", c.W.pos(call.Pos()))
				v, l := pathPart(c.W, val, 0), pathPart(c.W, lang, 0)
				vp, ok1 := strings.CutPrefix(v, "value of ")
				lp, ok2 := strings.CutPrefix(l, "Language of ")
				if !ok1 || !ok2 || vp != lp {
					c.Bad("field-value", fname(fn), call.Pos(), "the value (%s) and the language (%s) that are added are not those of one path", v, l)
				}
			}
		}
	}
	if n == 0 {
		c.BadAt("field-value", "AddFieldValue", "internal/sparkl", "", "no place where values of fields are added was found")
	}
	// storing keeps both
	for _, fn := range c.W.Fns {
		rn := recvNamed(fn)
		if rn == nil || fn.Name() != "AddFieldValue" || !isRepo(fn) || fn.Blocks == nil || fn.Synthetic != "" || fn.Parent() != nil {
			continue
		}
		c.fieldValueStored(fn)
	}
}

// pathPart describes a value as part of a path
func pathPart(w *World, v ssa.Value, depth int) string {
	if depth > 8 {
		return "?"
	}
	switch x := v.(type) {
	case *ssa.ChangeType:
		return pathPart(w, x.X, depth+1)
	case *ssa.Convert:
		return pathPart(w, x.X, depth+1)
	case *ssa.Call:
		sc := x.Call.StaticCallee()
		if sc != nil && sc.Name() == "Value" && recvNamed(sc) != nil && recvNamed(sc).Obj().Name() == "Path" {
			return "value of " + objectOf(w, x.Call.Args[0], depth+1)
		}
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
			return fieldName(fa.X.Type(), fa.Field) + " of " + objectOf(w, fa.X, depth+1)
		}
		if a, ok := x.X.(*ssa.Alloc); ok {
			if st := onlyStore(a); st != nil {
				return pathPart(w, st, depth+1)
			}
		}
	case *ssa.Field:
		return fieldName(x.X.Type(), x.Field) + " of " + objectOf(w, x.X, depth+1)
	case *ssa.Parameter:
		out := ""
		for _, call := range callersOf(x.Parent()) {
			i := paramIndex(x)
			if i < 0 || i >= len(call.Common().Args) {
				return "?"
			}
			p := pathPart(w, call.Common().Args[i], depth+1)
			if out != "" && p != out {
				return "?"
			}
			out = p
		}
		return out
	}
	return "?" + v.Name()
}

func paramIndex(p *ssa.Parameter) int {
	for i, q := range p.Parent().Params {
		if q == p {
			return i
		}
	}
	return -1
}

// objectOf names the object that a value is (a copy of)
func objectOf(w *World, v ssa.Value, depth int) string {
	if depth > 12 {
		return "?"
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return objectOf(w, x.X, depth+1)
		}
	case *ssa.Alloc:
		if st := onlyStore(x); st != nil {
			return objectOf(w, st, depth+1)
		}
	}
	return v.Parent().String() + "." + v.Name()
}

// fieldValueStored: what is appended has the value and the language that were given
func (c *Ctx) fieldValueStored(fn *ssa.Function) {
	var val, lang string
	for _, p := range fn.Params {
		switch shortType(p.Type()) {
		case "Datum":
			val = p.Name()
		case "Language":
			lang = p.Name()
		}
	}
	if val == "" || lang == "" {
		return
	}
	k := &kindClient{w: c.W}
	n := 0
	k.call = func(e *Engine, s *State, cs *CallSite) ([]Outcome, bool) {
		com := cs.Instr.Common()
		b, ok := com.Value.(*ssa.Builtin)
		if !ok || b.Name() != "append" || len(cs.Args) != 2 {
			return nil, false
		}
		sl, ok := com.Args[0].Type().Underlying().(*types.Slice)
		if !ok || shortType(sl.Elem()) != "FieldValue" {
			return nil, false
		}
		el, ok := e.variadic(s, cs.ArgV[1], cs.Args[1])
		if !ok || len(el) != 1 {
			c.Bad("field-value", fname(fn), cs.Instr.Pos(), "it cannot be told which value is added")
			return nil, false
		}
		n++
		for f, p := range map[string]string{"Value": val, "Language": lang} {
			c.ObOnce("field-value", fname(fn)+" "+f)
			v, _ := e.load(s, el[0].S+"."+f, types.Typ[types.String])
			if v.S != "r:"+p+";" {
				c.BadAt("field-value", fname(fn), c.W.pos(cs.Instr.Pos()), e.Trace(s), "the %s that is stored is %s", strings.ToLower(f), v)
			}
		}
		return nil, false
	}
	k.exit = func(e *Engine, s *State, instr ssa.Instruction, res []Val) {}
	k.run(c, fn, nil)
	if n == 0 {
		c.Bad("field-value", fname(fn), fn.Pos(), "the value is never added")
	}
}
