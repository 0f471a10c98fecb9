package main

// C15, for the graphical program: an entry of the settings form is connected to the
// place where the setting has its effect.
//
// The program is interpreted from RunAndWait on. What is asked for next to an entry
// (its label and hint) says what the entry is to set; the binding of the entry is
// followed to where it is read.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// guiSettings are the settings, the words that ask for them, and where they are used
var guiSettings = []struct {
	name  string
	words []string
	sinks []string
	def   string
}{
	{"addr", []string{"address"}, []string{"net.Listen 1"}, ""},
	{"nq", []string{"triplestore", ".nq"}, []string{"glass.Create 1"}, ""},
	{"xml", []string{"pathbuilder", ".xml"}, []string{"glass.Create 0"}, ""},
	{"sameas", []string{"sameas"}, []string{"glass.Create 3.Predicates.SameAs"}, "owl#sameAs"},
	{"inverseof", []string{"inverseof"}, []string{"glass.Create 3.Predicates.InverseOf"}, "owl#inverseOf"},
	{"public", []string{"public"}, []string{"Prepare 0.RenderFlags.PublicURL"}, ""},
	{"html", []string{"html"}, []string{"Prepare 0.RenderFlags.HTMLRender"}, ""},
	{"images", []string{"image"}, []string{"Prepare 0.RenderFlags.ImageRender"}, ""},
	{"tipsy", []string{"tipsy"}, []string{"Prepare 0.RenderFlags.TipsyURL"}, ""},
}

var guiSinks = []struct {
	callee string
	arg    int
	fields []string
}{
	{"net.Listen", 1, []string{""}},
	{"internal/glass.Create", 0, []string{""}},
	{"internal/glass.Create", 1, []string{""}},
	{"internal/glass.Create", 3, []string{".Predicates.SameAs", ".Predicates.InverseOf"}},
	{"viewer.Viewer).Prepare", 0, []string{".RenderFlags.PublicURL", ".RenderFlags.HTMLRender", ".RenderFlags.ImageRender", ".RenderFlags.TipsyURL"}},
}

type guiClient struct {
	BaseClient
	c     *Ctx
	pkg   string
	asked map[string]map[string]bool // setting by its words -> bindings of its entries
	used  map[string]map[string]bool // effect -> bindings it comes from
	files map[string]map[string]bool // input file -> bindings it is put in
	ends  []guiEnd
	where map[string]string
}

type guiEnd struct {
	s   *State
	res []Val
}

func addTo(m map[string]map[string]bool, k, v string) {
	if m[k] == nil {
		m[k] = map[string]bool{}
	}
	m[k][v] = true
}

func isBinding(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "/data/binding")
}

func isGUI(path string) bool { return strings.HasPrefix(path, "fyne.io/") }

func (k *guiClient) Inline(e *Engine, s *State, cs *CallSite, fn *ssa.Function) bool {
	return isRepo(fn) && fnPkg(fn) == k.pkg
}

// bindTag names a binding by where it is kept
func bindTag(v Val) string {
	if v.K != KOpaque {
		return ""
	}
	t := strings.TrimSuffix(v.S, ";")
	if i := strings.Index(t, ";."); i >= 0 {
		t = t[i+2:]
	}
	return strings.TrimRight(t, ";")
}

// tagsIn finds marked bindings
func tagsIn(text, mark string) (out []string) {
	for {
		i := strings.Index(text, mark+"<")
		if i < 0 {
			return
		}
		text = text[i+len(mark)+1:]
		j := strings.Index(text, ">")
		if j < 0 {
			return
		}
		out = append(out, text[:j])
		text = text[j:]
	}
}

func (k *guiClient) ask(text, where string, tags []string) {
	text = strings.ToLower(text)
	var is []string
	for _, g := range guiSettings {
		for _, w := range g.words {
			if strings.Contains(text, w) {
				is = append(is, g.name)
				break
			}
		}
	}
	if len(is) != 1 {
		return
	}
	for _, t := range tags {
		addTo(k.asked, is[0], t)
		k.where[is[0]] = where
	}
}

// forms reads what the form items known so far ask for
func (k *guiClient) forms(e *Engine, s *State, where string) {
	for key, v := range s.mem {
		base, ok := strings.CutSuffix(key, ".Widget")
		if !ok {
			continue
		}
		tags := tagsIn(v.String(), "w")
		if b := s.D["bind:"+v.S]; b != "" {
			tags = append(tags, b)
		}
		for _, part := range []string{".Text", ".HintText"} {
			if text, ok := constStr(s.mem[base+part]); ok {
				k.ask(text, where, tags)
			}
		}
	}
}

func (k *guiClient) Call(e *Engine, s *State, cs *CallSite) ([]Outcome, bool) {
	void := []Outcome{{Val: Val{K: KConst, S: "void"}}}
	where := k.c.W.pos(cs.Instr.Pos())
	if cs.Iface != nil && len(cs.Args) > 0 && isBinding(cs.ArgV[0].Type()) {
		tag := bindTag(cs.Args[0])
		switch cs.Iface.Name() {
		case "Get":
			return []Outcome{{Val: tuple(opaque("get<"+tag+">;"), Val{K: KNil})}}, true
		case "Set":
			for _, f := range []string{"nq", "xml"} {
				if strings.Contains(cs.Args[1].String(), optTag(f)) {
					addTo(k.files, f, tag)
					k.where["file "+f] = where
				}
			}
			v := cs.Args[1].String()
			return []Outcome{{Val: Val{K: KNil}, Apply: func(s *State) { s.D["def:"+tag] = v }}}, true
		}
	}
	callee := cs.Static
	if callee == nil {
		return nil, false
	}
	q := qualName(callee)
	path := pkgPathOf(callee)
	if strings.HasSuffix(path, "/data/binding") && strings.HasPrefix(callee.Name(), "New") {
		return []Outcome{{Val: opaque("made<" + strings.TrimSuffix(cs.ResID, ";") + ">;")}}, true
	}
	if isGUI(path) {
		k.forms(e, s, where)
		args := cs.Args
		if callee.Signature.Variadic() && len(args) > 0 {
			last := len(args) - 1
			args = append(append([]Val(nil), args[:last]...), elems(e, s, args[last], 20, types.Typ[types.String])...)
		}
		var tags, texts []string
		for i, a := range args {
			if i < len(cs.ArgV) && isBinding(cs.ArgV[i].Type()) {
				tags = append(tags, bindTag(a))
				continue
			}
			tags = append(tags, tagsIn(a.String(), "w")...)
			if b := s.D["bind:"+a.S]; b != "" && (a.K == KOpaque || a.K == KPtr) {
				tags = append(tags, b)
			}
			if str, ok := constStr(a); ok {
				texts = append(texts, str)
			}
			if a.K == KFunc {
				return nil, false
			}
		}
		if len(tags) == 0 {
			return nil, false
		}
		for _, t := range texts {
			k.ask(t, where, tags)
		}
		res := callee.Signature.Results()
		if callee.Signature.Recv() != nil {
			if isBinding(cs.ArgV[len(cs.ArgV)-1].Type()) && res.Len() == 0 {
				id, tag := cs.Args[0].S, tags[len(tags)-1]
				return []Outcome{{Val: void[0].Val, Apply: func(s *State) { s.D["bind:"+id] = tag }}}, true
			}
			return nil, false
		}
		if res.Len() != 1 {
			return nil, false
		}
		id := "w<" + strings.Join(tags, "> w<") + "> " + strings.TrimSuffix(cs.ResID, ";") + ";"
		return []Outcome{{Val: opaque(id)}}, true
	}
	if strings.HasSuffix(q, "hangover.FindSource") {
		failed := tuple(strConst(""), strConst(""), strConst(""), Val{K: KNonNil, S: "failed"})
		return []Outcome{{Val: tuple(strConst(optTag("nq")), strConst(optTag("xml")), strConst(""), Val{K: KNil})}, {Val: failed}}, true
	}
	for _, sk := range guiSinks {
		if !strings.HasSuffix(q, sk.callee) || sk.arg >= len(cs.Args) {
			continue
		}
		for _, field := range sk.fields {
			v := cs.Args[sk.arg]
			if field != "" {
				typ := cs.ArgV[sk.arg].Type()
				if v.K == KOpaque && !isPointer(typ) && !types.IsInterface(typ) {
					v, _ = e.load(s, v.S+field, types.Typ[types.String])
				} else if key, ok := e.addr(s, v); ok {
					v, _ = e.load(s, key+field, types.Typ[types.String])
				}
			}
			name := fmt.Sprintf("%s %d%s", strings.TrimPrefix(sk.callee, "internal/"), sk.arg, field)
			name = strings.TrimPrefix(name, "viewer.Viewer).")
			k.where[name] = where
			for _, t := range tagsIn(v.String(), "get") {
				addTo(k.used, name, t)
			}
			if len(tagsIn(v.String(), "get")) == 0 {
				addTo(k.used, name, "something else")
			}
		}
	}
	if strings.HasSuffix(q, ".ParsePredicateString") {
		return []Outcome{{Val: opaque("of<" + strings.TrimSuffix(cs.Args[0].String(), ";") + ">;")}}, true
	}
	if strings.HasSuffix(q, "internal/glass.Create") {
		return []Outcome{{Val: tuple(opaque("glass;"), Val{K: KNil})}, errOutcome(2)}, true
	}
	return nil, false
}

func (k *guiClient) Exit(e *Engine, s *State, kind ExitKind, instr ssa.Instruction, res []Val) {
	k.forms(e, s, k.c.W.pos(s.top().fn.Pos()))
	if kind == ExitReturn {
		k.ends = append(k.ends, guiEnd{s.clone(), res})
	}
}

func listOf(m map[string]bool) string {
	out := sortedKeysOf(m)
	sort.Strings(out)
	return strings.Join(out, ", ")
}

func checkGUI(c *Ctx) {
	var made, root *ssa.Function
	for _, fn := range c.W.Fns {
		if !strings.HasSuffix(fnPkg(fn), "internal/headache") || fn.Parent() != nil {
			continue
		}
		switch {
		case fn.Name() == "New" && fn.Signature.Recv() == nil:
			made = fn
		case fn.Name() == "RunAndWait":
			root = fn
		}
	}
	if root == nil || made == nil {
		return
	}
	k := &guiClient{c: c, pkg: fnPkg(root), asked: map[string]map[string]bool{}, used: map[string]map[string]bool{}, files: map[string]map[string]bool{}, where: map[string]string{}}
	run := func(fn *ssa.Function) *Engine {
		e := NewEngine(c.W, k)
		e.RootID, e.Strings = "g", true
		e.Special = func(e *Engine, s *State, instr ssa.Instruction) bool { return neverSet(e, s, instr) }
		e.Max = 500_000
		e.Run(fn, nil)
		if e.Over {
			c.Bad("undecided", fname(fn), fn.Pos(), "too many paths to decide")
		}
		return e
	}
	run(root)
	for _, g := range guiSettings {
		c.Ob("setting", g.name)
		if len(k.asked[g.name]) == 0 {
			c.Bad("setting", fname(root), root.Pos(), "nothing in the settings asks for %s", g.name)
			continue
		}
		for _, sink := range g.sinks {
			c.Ob("setting", g.name+" "+sink)
			if a, u := listOf(k.asked[g.name]), listOf(k.used[sink]); a != u {
				c.BadAt("setting", fname(root), k.where[g.name], "", "what is asked for as %s is kept in %s, but %s comes from %s", g.name, a, sink, u)
			}
		}
		if f := k.files[g.name]; f != nil {
			if a, u := listOf(k.asked[g.name]), listOf(f); a != u {
				c.BadAt("setting", fname(root), k.where["file "+g.name], "", "the %s file found in a folder is put in %s instead of %s", g.name, u, a)
			}
		} else if g.name == "nq" || g.name == "xml" {
			c.Bad("setting", fname(root), root.Pos(), "the %s file found in a folder is put nowhere", g.name)
		}
	}
	// the bindings are made once each, and have their defaults
	k.ends = nil
	e := run(made)
	for _, end := range k.ends {
		if len(end.res) != 1 {
			continue
		}
		key, ok := e.addr(end.s, end.res[0])
		if !ok {
			continue
		}
		seen := map[string]string{}
		for _, g := range guiSettings {
			for tag := range k.asked[g.name] {
				v, _ := e.load(end.s, key+"."+tag, types.Universe.Lookup("any").Type())
				c.ObOnce("made", tag)
				if len(tagsIn(v.String(), "made")) != 1 {
					c.Bad("setting", fname(made), made.Pos(), "%s is used but never made", tag)
					continue
				}
				if seen[v.String()] != "" {
					c.Bad("setting", fname(made), made.Pos(), "%s and %s are the same", seen[v.String()], tag)
				}
				seen[v.String()] = tag
				if def := end.s.D["def:"+bindTag(v)]; g.def != "" && !strings.Contains(def, g.def) {
					c.Bad("default", fname(made), made.Pos(), "%s starts out as %s", tag, def)
				}
			}
		}
	}
}
