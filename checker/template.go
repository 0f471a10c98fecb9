package main

// The page templates: found by following the code that makes them, parsed from
// their sources, and walked with the types of the data they are executed with.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"html/template"
	"io"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"text/template/parse"

	"golang.org/x/tools/go/ssa"
)

const tmplPkg = "html/template"

// tmplOp is a step in making a template
type tmplOp struct {
	kind string // parse, include
	name string // parse: name of the template; include: template to take from
	text string
	file string
	have map[string]bool // functions known when this was parsed
	key  string          // what adds it
	at   string          // function that does it
	pos  token.Pos
}

// tmplSet is the group of templates that belong together
type tmplSet struct {
	id    string
	ops   []tmplOp
	funcs map[string]Val
	pos   token.Pos
}

type tmplWorld struct {
	w       *World
	sets    map[string]*tmplSet
	name    map[string]string // template value -> name
	set     map[string]string // template value -> set
	globals map[string]Val    // memory after all package variables are initialised
	bad     []tmplBad
	badSeen map[string]bool
	memo    map[string]map[string]*parse.Tree
	inits   int
}

type tmplBad struct {
	rule, construct string
	pos             token.Pos
	msg             string
}

func (t *tmplWorld) badf(rule, construct string, pos token.Pos, format string, args ...any) {
	m := fmt.Sprintf(format, args...)
	k := rule + construct + m
	if !t.badSeen[k] {
		t.badSeen[k] = true
		t.bad = append(t.bad, tmplBad{rule, construct, pos, m})
	}
}

// tmplClient follows package initialisation
type tmplClient struct {
	BaseClient
	t *tmplWorld
	e map[string]bool
}

func (k *tmplClient) Inline(e *Engine, s *State, cs *CallSite, fn *ssa.Function) bool {
	if len(fn.Blocks) == 0 || !isRepo(fn) || fn.Synthetic != "" && fn.Name() == "init" {
		return false
	}
	return mentionsTemplate(fn, map[*ssa.Function]bool{})
}

var mentionMemo = map[*ssa.Function]bool{}

// mentionsTemplate: the function, or one it calls, works with templates
func mentionsTemplate(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if r, ok := mentionMemo[fn]; ok {
		return r
	}
	if seen[fn] {
		return false
	}
	seen[fn] = true
	r := false
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok && strings.Contains(v.Type().String(), tmplPkg+".") {
				r = true
			}
			if c, ok := ins.(ssa.CallInstruction); ok {
				if st := c.Common().StaticCallee(); st != nil && isRepo(origin(st)) && mentionsTemplate(origin(st), seen) {
					r = true
				}
			}
		}
	}
	mentionMemo[fn] = r
	return r
}

func (k *tmplClient) Exit(e *Engine, s *State, kind ExitKind, instr ssa.Instruction, res []Val) {
	if kind != ExitReturn {
		return
	}
	for m, v := range s.mem {
		k.t.globals[m] = v
	}
}

func (k *tmplClient) Call(e *Engine, s *State, cs *CallSite) ([]Outcome, bool) {
	t := k.t
	name := cs.Name()
	one := func(v Val) ([]Outcome, bool) { return []Outcome{{Val: v}}, true }
	pair := func(v Val) ([]Outcome, bool) { return one(Val{K: KTuple, T: []Val{v, {K: KNil}}}) }
	fresh := func(n, set string) Val {
		v := Val{K: KNonNil, S: "tmpl:" + cs.ResID}
		t.name[v.String()] = n
		if set == "" {
			set = v.String()
			if t.sets[set] == nil {
				t.sets[set] = &tmplSet{id: set, funcs: map[string]Val{}, pos: cs.Instr.Pos()}
			}
		}
		t.set[v.String()] = set
		return v
	}
	setOf := func(v Val) *tmplSet { return t.sets[t.set[v.String()]] }
	// once says if this step is new; every path remembers the steps it took, and
	// a new step goes directly behind those, whenever it was found
	trail, step := "", ""
	once := func(what string) bool {
		key := cs.ResID + "|" + what
		trail, step = s.D["trail"], key
		if !strings.Contains(trail, key+"\n") {
			s.D["trail"] += key + "\n"
		}
		if k.e[key] {
			return false
		}
		k.e[key] = true
		return true
	}
	put := func(set *tmplSet, op tmplOp) {
		op.have = map[string]bool{}
		for f := range set.funcs {
			op.have[f] = true
		}
		op.at, op.pos, op.key = fname(cs.Instr.Parent()), cs.Instr.Pos(), step
		at := 0
		for i, o := range set.ops {
			if o.key == step || strings.Contains(trail, o.key+"\n") {
				at = i + 1
			}
		}
		set.ops = append(set.ops[:at:at], append([]tmplOp{op}, set.ops[at:]...)...)
	}
	undecided := func(what string) {
		t.badf("undecided", fname(cs.Instr.Parent()), cs.Instr.Pos(), "%s", what)
	}
	if !strings.Contains(name, tmplPkg+".") {
		if outs, ok := e.strCall(s, cs); ok {
			return outs, ok
		}
		if name == "(*text/template/parse.Tree).Copy" {
			return one(term("treecopy", cs.Args...))
		}
		return nil, false
	}
	switch name {
	case tmplPkg + ".New":
		n, ok := constStr(cs.Args[0])
		if !ok {
			undecided("the name of a template is not fixed text: " + cs.Args[0].String())
		}
		return one(fresh(n, ""))
	case tmplPkg + ".Must":
		if cs.Args[0].K == KTuple && len(cs.Args) == 1 {
			return one(cs.Args[0].T[0])
		}
		return one(cs.Args[0])
	case "(*" + tmplPkg + ".Template).Funcs":
		if set := setOf(cs.Args[0]); set != nil {
			pre := "*" + cs.Args[1].S + "{"
			n := 0
			for m, v := range s.mem {
				if rest, ok := strings.CutPrefix(m, pre); ok {
					set.funcs[strings.Trim(strings.TrimSuffix(rest, "}"), `"`)] = v
					n++
				}
			}
			if n == 0 && cs.Args[1].K != KNil {
				undecided("the functions given to a template are not known: " + cs.Args[1].String())
			}
		}
		return one(cs.Args[0])
	case "(*" + tmplPkg + ".Template).Parse":
		set := setOf(cs.Args[0])
		text, file, ok := t.source(cs.Args[1])
		if set == nil || !ok {
			if once("p") {
				undecided("the source of a template is not fixed text: " + cs.Args[1].String())
			}
			return pair(cs.Args[0])
		}
		if once("p") {
			put(set, tmplOp{kind: "parse", name: t.name[cs.Args[0].String()], text: text, file: file})
		}
		return pair(cs.Args[0])
	case "(*" + tmplPkg + ".Template).New":
		n, ok := constStr(cs.Args[1])
		if !ok {
			undecided("the name of a template is not fixed text: " + cs.Args[1].String())
		}
		return one(fresh(n, t.set[cs.Args[0].String()]))
	case "(*" + tmplPkg + ".Template).ParseFS", tmplPkg + ".ParseFS":
		i := 1
		var v Val
		if name == tmplPkg+".ParseFS" {
			i = 0
			v = fresh("", "")
		} else {
			v = cs.Args[0]
		}
		set := setOf(v)
		pats, ok := e.variadic(s, cs.ArgV[i+1], cs.Args[i+1])
		if set == nil || !ok || !once("fs") {
			if set == nil || !ok {
				undecided("templates are read from unknown files")
			}
			return pair(v)
		}
		files, ok := t.embedFiles(cs.Args[i])
		if !ok {
			undecided("templates are read from an unknown file system: " + cs.Args[i].String())
			return pair(v)
		}
		for _, p := range pats {
			pat, ok := constStr(p)
			n := 0
			if ok {
				for _, f := range sortedKeys(files) {
					if m, _ := path.Match(pat, f); m {
						b, err := os.ReadFile(files[f])
						if err != nil {
							continue
						}
						if name == tmplPkg+".ParseFS" && len(set.ops) == 0 {
							t.name[v.String()] = path.Base(f)
						}
						put(set, tmplOp{kind: "parse", name: path.Base(f), text: string(b), file: files[f]})
						n++
					}
				}
			}
			if n == 0 {
				t.badf("template", fname(cs.Instr.Parent()), cs.Instr.Pos(), "no embedded file matches %s: the program stops when it starts", p)
			}
		}
		return pair(v)
	case "(*" + tmplPkg + ".Template).AddParseTree":
		set := setOf(cs.Args[0])
		tree := cs.Args[2].String()
		from := ""
		for id := range t.sets {
			if strings.Contains(tree, "tmplsof:"+id+";") {
				from = id
			}
		}
		if set == nil || from == "" {
			undecided("a parse tree of unknown origin is added to a template: " + tree)
			return pair(cs.Args[0])
		}
		if !strings.Contains(tree, "fn:treecopy(") && from != set.id {
			t.badf("shared-tree", fname(cs.Instr.Parent()), cs.Instr.Pos(), "a parse tree is shared by several templates; executing one of them rewrites it for all: the others escape twice or fail")
		}
		if !strings.Contains(cs.Args[1].String(), "tmplsof:"+from+";") {
			undecided("a parse tree is added under another name: " + cs.Args[1].String())
		}
		if once("add") {
			put(set, tmplOp{kind: "include", name: from})
		}
		return pair(cs.Args[0])
	case "(*" + tmplPkg + ".Template).Clone":
		set := setOf(cs.Args[0])
		if set == nil {
			return nil, false
		}
		v := fresh(t.name[cs.Args[0].String()], "")
		ns := setOf(v)
		if once("clone") {
			ns.ops = append(ns.ops, set.ops...)
			for f, x := range set.funcs {
				ns.funcs[f] = x
			}
		}
		return pair(v)
	case "(*" + tmplPkg + ".Template).Lookup":
		n, ok := constStr(cs.Args[1])
		if !ok || setOf(cs.Args[0]) == nil {
			return nil, false
		}
		return one(fresh(n, t.set[cs.Args[0].String()]))
	case "(*" + tmplPkg + ".Template).Templates":
		if set := setOf(cs.Args[0]); set != nil {
			return one(opaque("tmplsof:" + set.id + ";"))
		}
	case "(*" + tmplPkg + ".Template).Name":
		return one(term("tmplname", cs.Args...))
	case "(*" + tmplPkg + ".Template).Option", "(*" + tmplPkg + ".Template).Delims":
		undecided("a template is used with options: " + name)
		return one(cs.Args[0])
	}
	return nil, false
}

// source of a template: fixed text, or an embedded file
func (t *tmplWorld) source(v Val) (text, file string, ok bool) {
	if c, ok := constStr(v); ok {
		return c, "", true
	}
	if pkg, spec, ok := t.embedVar(v); ok {
		f := strings.Trim(spec, `"`+"`")
		b, err := os.ReadFile(filepath.Join(pkg.Dir, f))
		if err != nil {
			return "", "", false
		}
		return string(b), filepath.Join(pkg.Dir, f), true
	}
	return "", "", false
}

// embedVar finds the patterns a global is embedded from
func (t *tmplWorld) embedVar(v Val) (*Pkg, string, bool) {
	s := strings.TrimRight(strings.TrimLeft(v.S, "*"), ";")
	s, ok := strings.CutPrefix(s, "g:")
	if !ok {
		return nil, "", false
	}
	i := strings.LastIndexByte(s, '.')
	if i < 0 {
		return nil, "", false
	}
	p := t.w.ByPth[s[:i]]
	if p == nil {
		return nil, "", false
	}
	for _, f := range p.Files {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, sp := range g.Specs {
				vs := sp.(*ast.ValueSpec)
				if len(vs.Names) != 1 || vs.Names[0].Name != s[i+1:] {
					continue
				}
				for _, doc := range []*ast.CommentGroup{vs.Doc, g.Doc} {
					if doc == nil {
						continue
					}
					for _, c := range doc.List {
						if rest, ok := strings.CutPrefix(c.Text, "//go:embed "); ok {
							return p, strings.TrimSpace(rest), true
						}
					}
				}
			}
		}
	}
	return nil, "", false
}

// embedFiles lists the files of an embedded file system
func (t *tmplWorld) embedFiles(v Val) (map[string]string, bool) {
	p, spec, ok := t.embedVar(v)
	if !ok {
		return nil, false
	}
	out := map[string]string{}
	for _, pat := range strings.Fields(spec) {
		pat = strings.TrimPrefix(strings.Trim(pat, `"`+"`"), "all:")
		for _, f := range p.List.EmbedFiles {
			m, _ := path.Match(pat, f)
			if m || strings.HasPrefix(f, pat+"/") {
				out[f] = filepath.Join(p.Dir, f)
			}
			// a pattern that names directories
			for d := path.Dir(f); d != "." && !m; d = path.Dir(d) {
				if ok, _ := path.Match(pat, d); ok {
					out[f] = filepath.Join(p.Dir, f)
				}
			}
		}
	}
	return out, true
}

var tmplMemo = map[*World]*tmplWorld{}

// templatesOf follows the initialisation of every package that makes templates
func templatesOf(w *World) *tmplWorld {
	if t, ok := tmplMemo[w]; ok {
		return t
	}
	t := &tmplWorld{w: w, sets: map[string]*tmplSet{}, name: map[string]string{}, set: map[string]string{}, globals: map[string]Val{}, badSeen: map[string]bool{}, memo: map[string]map[string]*parse.Tree{}}
	tmplMemo[w] = t
	for _, p := range w.Pkgs {
		if p.SSA == nil || p.Types == nil {
			continue
		}
		uses := false
		for _, i := range p.Types.Imports() {
			uses = uses || i.Path() == tmplPkg || strings.HasSuffix(i.Path(), "/internal/assets")
		}
		init := p.SSA.Func("init")
		if !uses || init == nil {
			continue
		}
		t.inits++
		k := &tmplClient{t: t, e: map[string]bool{}}
		e := NewEngine(w, k)
		e.Strings = true
		e.KeepGlobals = true
		e.RootID = "init(" + p.Path + ")"
		e.Run(init, func(s *State) {
			for m, v := range t.globals {
				s.mem[m] = v
			}
		})
		if e.Over {
			t.badf("undecided", p.Path, token.NoPos, "too many paths through the package initialisation")
		}
	}
	return t
}

// trees puts together all templates of a set
func (t *tmplWorld) trees(set string) map[string]*parse.Tree {
	if m, ok := t.memo[set]; ok {
		return m
	}
	out := map[string]*parse.Tree{}
	t.memo[set] = out
	st := t.sets[set]
	if st == nil {
		return out
	}
	add := func(n string, tr *parse.Tree, replace bool) {
		if old := out[n]; old != nil && !replace && parse.IsEmptyTree(tr.Root) && !parse.IsEmptyTree(old.Root) {
			return
		}
		out[n] = tr
	}
	for _, op := range st.ops {
		switch op.kind {
		case "include":
			src := t.trees(op.name)
			for _, n := range sortedKeys(src) {
				add(n, src[n], true)
			}
		case "parse":
			got := map[string]*parse.Tree{}
			tr := parse.New(op.name)
			tr.Mode = parse.SkipFuncCheck
			tr, err := tr.Parse(op.text, "", "", got)
			if err != nil {
				t.badf("template", op.name, st.pos, "the template does not parse: %v", err)
				continue
			}
			if got[op.name] == nil {
				got[op.name] = tr
			}
			for _, n := range sortedKeys(got) {
				for _, f := range funcsOf(got[n]) {
					if !op.have[f] {
						t.badf("function", op.at, op.pos, "template %s uses the function %s, which is not known when it is parsed: the program stops when it starts", n, f)
					}
				}
			}
			for _, n := range sortedKeys(got) {
				add(n, got[n], false)
			}
		}
	}
	return out
}

// escapes runs the escaper over a set of templates, without any data
func (t *tmplWorld) escapes(set, name string) error {
	tr := t.trees(set)
	funcs := template.FuncMap{}
	for _, x := range tr {
		for _, f := range funcsOf(x) {
			funcs[f] = func(...any) any { return nil }
		}
	}
	tm := template.New(name)
	tm.Funcs(funcs)
	for _, n := range sortedKeys(tr) {
		if _, err := tm.AddParseTree(n, tr[n].Copy()); err != nil {
			return err
		}
	}
	x := tm.Lookup(name)
	if x == nil {
		return fmt.Errorf("template %s is not defined", name)
	}
	// the escaper runs before anything is executed; without data nothing more happens
	err := x.Execute(io.Discard, nil)
	if _, ok := err.(*template.Error); ok {
		return err
	}
	return nil
}

var builtinFuncs = map[string]bool{"and": true, "or": true, "not": true, "len": true, "index": true, "slice": true, "eq": true, "ne": true, "lt": true, "le": true, "gt": true, "ge": true, "print": true, "printf": true, "println": true, "html": true, "js": true, "urlquery": true, "call": true, "break": true, "continue": true}

func funcsOf(tr *parse.Tree) []string {
	m := map[string]bool{}
	var walk func(n parse.Node)
	pipe := func(p *parse.PipeNode) {
		if p == nil {
			return
		}
		for _, c := range p.Cmds {
			for _, a := range c.Args {
				walk(a)
			}
		}
	}
	list := func(l *parse.ListNode) {
		if l == nil {
			return
		}
		for _, n := range l.Nodes {
			walk(n)
		}
	}
	walk = func(n parse.Node) {
		switch n := n.(type) {
		case *parse.ListNode:
			list(n)
		case *parse.ActionNode:
			pipe(n.Pipe)
		case *parse.IfNode:
			pipe(n.Pipe)
			list(n.List)
			list(n.ElseList)
		case *parse.RangeNode:
			pipe(n.Pipe)
			list(n.List)
			list(n.ElseList)
		case *parse.WithNode:
			pipe(n.Pipe)
			list(n.List)
			list(n.ElseList)
		case *parse.TemplateNode:
			pipe(n.Pipe)
		case *parse.PipeNode:
			pipe(n)
		case *parse.ChainNode:
			walk(n.Node)
		case *parse.IdentifierNode:
			if !builtinFuncs[n.Ident] {
				m[n.Ident] = true
			}
		}
	}
	list(tr.Root)
	return sortedKeys(m)
}

// ---- where templates are executed

// tmplUse: a template executed with data
type tmplUse struct {
	tmpl  Val // the template value
	name  string
	set   string
	data  ssa.Value // the data, before it becomes an interface
	site  ssa.CallInstruction
	fn    *ssa.Function // function that builds the data
	outer *ssa.Function
}

// bindings of parameters on the way to an Execute call
type bindEnv map[ssa.Value]ssa.Value

// uses finds all executions of templates
func (t *tmplWorld) uses() (out []tmplUse, sites int) {
	for _, fn := range t.w.Fns {
		if !isRepo(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				call, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				st := call.Common().StaticCallee()
				if st == nil {
					continue
				}
				n := qualName(st)
				switch n {
				case "(*text/template.Template).Execute", "(*text/template.Template).ExecuteTemplate":
					sites++
					t.badf("text-template", fname(fn), call.Pos(), "a page is made with text/template, which does not escape anything")
					continue
				case "(*" + tmplPkg + ".Template).Execute", "(*" + tmplPkg + ".Template).ExecuteTemplate":
				default:
					continue
				}
				sites++
				args := call.Common().Args
				dat := args[2]
				var nameV ssa.Value
				if strings.HasSuffix(n, "ExecuteTemplate") {
					nameV, dat = args[2], args[3]
				}
				t.resolve(call, fn, args[0], nameV, dat, fn, 0, &out)
			}
		}
	}
	return out, sites
}

// resolve follows parameters to the callers that know the template and the data
func (t *tmplWorld) resolve(site ssa.CallInstruction, fn *ssa.Function, tm, nameV, dat ssa.Value, at *ssa.Function, depth int, out *[]tmplUse) {
	strip := func(v ssa.Value) ssa.Value {
		for {
			switch x := v.(type) {
			case *ssa.MakeInterface:
				return x.X
			case *ssa.ChangeInterface:
				v = x.X
				continue
			case *ssa.ChangeType:
				v = x.X
				continue
			}
			return v
		}
	}
	und := func(what string) {
		t.badf("undecided", fname(fn), site.Pos(), "%s", what)
	}
	if depth > 6 {
		und("the template executed here could not be found")
		return
	}
	isParam := func(v ssa.Value) bool {
		switch v := v.(type) {
		case *ssa.Parameter, *ssa.FreeVar:
			return true
		case *ssa.UnOp:
			_, fv := v.X.(*ssa.FreeVar)
			return fv
		case *ssa.Call:
			// data made by a function that is itself a parameter
			switch v.Call.Value.(type) {
			case *ssa.Parameter, *ssa.FreeVar:
				return true
			}
			if u, ok := v.Call.Value.(*ssa.UnOp); ok {
				_, fv := u.X.(*ssa.FreeVar)
				return fv
			}
		}
		return false
	}
	dat = strip(dat)
	if isParam(tm) || isParam(dat) || nameV != nil && isParam(nameV) {
		cs := callersOf(at)
		if at.Parent() != nil {
			// a closure: what it captured is known where it was made
			for _, mc := range closuresOf(at) {
				sub := func(v ssa.Value) ssa.Value {
					if v == nil {
						return nil
					}
					u := v
					if x, ok := v.(*ssa.UnOp); ok {
						u = x.X
					}
					for i, fv := range at.FreeVars {
						if u == ssa.Value(fv) {
							b := mc.Bindings[i]
							if a, ok := b.(*ssa.Alloc); ok && u != v {
								if x := onlyStore(a); x != nil {
									return x
								}
							}
							return b
						}
					}
					return v
				}
				ntm, nn, nd := sub(tm), sub(nameV), sub(dat)
				if ntm != tm || nn != nameV || nd != dat {
					t.resolve(site, fn, ntm, nn, nd, mc.Parent(), depth+1, out)
					return
				}
			}
		}
		if cs == nil && len(callSites(at)) == 0 && !usedAsValue(at) {
			return // never called
		}
		if cs == nil {
			und("the template executed here could not be found: the function is used as a value")
			return
		}
		for _, c := range cs {
			args := c.Common().Args
			sub := func(v ssa.Value) ssa.Value {
				if v == nil {
					return nil
				}
				for i, p := range at.Params {
					if v == ssa.Value(p) && i < len(args) {
						return args[i]
					}
				}
				return v
			}
			nt, nn, nd := sub(tm), sub(nameV), sub(dat)
			if nt == tm && nn == nameV && nd == dat {
				und("the template executed here could not be found")
				return
			}
			t.resolve(site, fn, nt, nn, nd, c.Parent(), depth+1, out)
		}
		return
	}
	v, ok := t.valueOf(tm)
	if !ok || t.set[v.String()] == "" {
		und(fmt.Sprintf("the template executed here could not be found: %s", tm))
		return
	}
	n := t.name[v.String()]
	if nameV != nil {
		n = constStringOf(nameV)
		if n == "" {
			und("the name of the template executed here is not fixed text")
			return
		}
	}
	*out = append(*out, tmplUse{tmpl: v, name: n, set: t.set[v.String()], data: dat, site: site, fn: at})
}

// onlyStore: the one value a local variable gets
func onlyStore(a *ssa.Alloc) ssa.Value {
	var v ssa.Value
	for _, r := range *a.Referrers() {
		if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(a) {
			if v != nil {
				return nil
			}
			v = st.Val
		}
	}
	return v
}

func closuresOf(fn *ssa.Function) (out []*ssa.MakeClosure) {
	if fn.Parent() == nil {
		return nil
	}
	for _, b := range fn.Parent().Blocks {
		for _, ins := range b.Instrs {
			if mc, ok := ins.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(fn) {
				out = append(out, mc)
			}
		}
	}
	return out
}

func callSites(fn *ssa.Function) (out []ssa.CallInstruction) {
	refs := fn.Referrers()
	if refs == nil {
		return nil
	}
	for _, r := range *refs {
		if c, ok := r.(ssa.CallInstruction); ok {
			out = append(out, c)
		}
	}
	return out
}

func usedAsValue(fn *ssa.Function) bool {
	if fn.Referrers() == nil {
		return false
	}
	for _, r := range *fn.Referrers() {
		c, ok := r.(ssa.CallInstruction)
		if !ok || c.Common().Value != ssa.Value(fn) {
			return true
		}
	}
	return false
}

// valueOf evaluates a template expression from the initialised package variables
func (t *tmplWorld) valueOf(v ssa.Value) (Val, bool) {
	switch v := v.(type) {
	case *ssa.UnOp:
		if g, ok := v.X.(*ssa.Global); ok && v.Op == token.MUL {
			x, ok := t.globals["*g:"+g.String()+";"]
			return x, ok
		}
		if fa, ok := v.X.(*ssa.FieldAddr); ok {
			if g, ok := fa.X.(*ssa.Global); ok {
				x, ok := t.globals["*g:"+g.String()+";."+fieldName(fa.X.Type(), fa.Field)]
				return x, ok
			}
		}
	case *ssa.Phi:
		var got *Val
		for _, e := range v.Edges {
			x, ok := t.valueOf(e)
			if !ok || got != nil && got.String() != x.String() {
				return Val{}, false
			}
			got = &x
		}
		if got != nil {
			return *got, true
		}
	}
	return Val{}, false
}

// ---- types of template values

// tval is what is known of a value inside a template
type tval struct {
	t      types.Type       // nil: unknown
	rec    map[string]*tval // a record made by a template function
	absent bool             // an entry that the record does not have
	addr   bool             // can be addressed, so methods of pointers can be used
	key    string           // where it comes from
	escs   []string         // what it went through
	set    bool             // known not to be nil
	rkey   bool             // key of a range
	lit    *string          // fixed text
	bool   int              // 1 true, 2 false
}

func (v *tval) sig() string {
	if v == nil {
		return "-"
	}
	if v.rec != nil {
		var l []string
		for _, k := range sortedKeys(v.rec) {
			l = append(l, k+"="+v.rec[k].sig())
		}
		return "{" + strings.Join(l, ",") + "}"
	}
	ty := "?"
	if v.t != nil {
		ty = types.TypeString(v.t, nil)
	}
	return fmt.Sprintf("%s|%v|%v|%s|%v|%v", ty, v.absent, v.addr, v.key, v.set, v.rkey)
}

// part of the text of an attribute
type tpart struct {
	text string
	val  *tval
}

// sink: a value that ends up on the page
type tsink struct {
	tmpl   string
	node   parse.Node
	val    *tval
	tag    string
	attr   string
	quote  byte
	css    bool
	script bool
	guards []string
	use    *tmplUse
}

type tlink struct {
	tmpl, tag, attr string
	parts           []tpart
	guards          []string
	inputs          map[string]bool
	method          string
	use             *tmplUse
}

// htmlState is the position in the page
type htmlState struct {
	mode  byte // 0 text, 't' tag name, 'i' inside tag, 'n' attribute name, 'a' after name, 'v' before value, 'V' in value, 'c' comment, 's' raw text, '!' declaration
	tag   string
	close bool
	attr  string
	quote byte
	alts  [][]tpart
	raw   string
	buf   string
	form  *tlink
}

func (h htmlState) sig() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%c|%s|%v|%s|%c|%s|%v", h.mode+'0', h.tag, h.close, h.attr, h.quote, h.raw, h.form != nil)
	for _, a := range h.alts {
		for _, p := range a {
			b.WriteString("|" + p.text)
			if p.val != nil {
				b.WriteString(p.val.sig())
			}
		}
	}
	return b.String()
}

// tmplWalk walks one page
type tmplWalk struct {
	tw      *tmplWorld
	use     *tmplUse
	set     *tmplSet
	trees   map[string]*parse.Tree
	seen    map[string]bool
	bads    []tmplBad
	badSeen map[string]bool
	sinks   []tsink
	links   []tlink
	ids     map[string]bool
	needed  map[string]string // fields of the context that are used: by template
	derefs  map[string]string // pointer fields of the context that are dereferenced
	stack   []string
	calls   int
	fields  int
	nodes   int
	shared  map[string]bool
}

type tvar struct {
	name string
	v    *tval
}

type tscope struct {
	dot    *tval
	vars   []tvar
	guards map[string]bool
	tmpl   string
	depth  int
}

func (sc *tscope) clone() *tscope {
	n := &tscope{dot: sc.dot, tmpl: sc.tmpl, depth: sc.depth, guards: map[string]bool{}}
	n.vars = append(n.vars, sc.vars...)
	for g := range sc.guards {
		n.guards[g] = true
	}
	return n
}

func (sc *tscope) lookup(name string) *tval {
	for i := len(sc.vars) - 1; i >= 0; i-- {
		if sc.vars[i].name == name {
			return sc.vars[i].v
		}
	}
	return nil
}

func (k *tmplWalk) bad(rule string, sc *tscope, n parse.Node, format string, args ...any) {
	loc, _ := k.where(sc, n)
	m := fmt.Sprintf(format, args...)
	key := rule + loc + m
	if k.badSeen[key] {
		return
	}
	k.badSeen[key] = true
	k.bads = append(k.bads, tmplBad{rule, sc.tmpl, k.use.site.Pos(), loc + ": " + m + " (page " + k.use.name + ")"})
}

func (k *tmplWalk) where(sc *tscope, n parse.Node) (string, string) {
	tr := k.trees[sc.tmpl]
	if tr == nil || n == nil {
		return sc.tmpl, ""
	}
	return tr.ErrorContext(n)
}

// page walks a page from its beginning
func (k *tmplWalk) page() {
	d := k.use.data
	t := d.Type()
	dot := &tval{t: t, key: "ctx", set: true}
	if _, ptr := t.Underlying().(*types.Pointer); ptr {
		dot.addr = true
	}
	sc := &tscope{dot: dot, vars: []tvar{{"$", dot}}, guards: map[string]bool{}, tmpl: k.use.name}
	tr := k.trees[k.use.name]
	if tr == nil {
		k.bad("template", sc, nil, "there is no template of this name")
		return
	}
	h := htmlState{}
	h = k.list(sc, tr.Root, h)
	if h.mode != 0 {
		k.bad("escaper", sc, nil, "the page ends inside of a tag")
	}
}

func (k *tmplWalk) list(sc *tscope, l *parse.ListNode, h htmlState) htmlState {
	if l == nil {
		return h
	}
	mark := len(sc.vars)
	for _, n := range l.Nodes {
		h = k.node(sc, n, h)
	}
	sc.vars = sc.vars[:mark]
	return h
}

func (k *tmplWalk) node(sc *tscope, n parse.Node, h htmlState) htmlState {
	k.nodes++
	switch n := n.(type) {
	case *parse.TextNode:
		return k.text(sc, string(n.Text), h)
	case *parse.ActionNode:
		v := k.pipe(sc, n.Pipe)
		if len(n.Pipe.Decl) > 0 {
			return h
		}
		return k.emit(sc, n, v, h)
	case *parse.IfNode:
		mark := len(sc.vars)
		yes, no := sc.clone(), sc.clone()
		v := k.pipe(yes, n.Pipe)
		no.vars = append([]tvar(nil), yes.vars...)
		t, f := k.conds(sc, n.Pipe, yes)
		for _, g := range t {
			yes.guards[g] = true
		}
		for _, g := range f {
			no.guards["!"+g] = true
		}
		a := h
		if v == nil || !v.absent && v.bool != 2 {
			a = k.list(yes, n.List, h)
			k.back(sc, yes, mark)
		}
		b := h
		if v == nil || v.bool != 1 {
			b = k.list(no, n.ElseList, h)
			k.back(sc, no, mark)
		}
		return k.join(a, b)
	case *parse.WithNode:
		in := sc.clone()
		mark := len(sc.vars)
		v := k.pipe(in, n.Pipe)
		a := h
		if v == nil || !v.absent {
			w := in.clone()
			if v != nil {
				c := *v
				c.set = true
				if v.key != "" {
					w.guards[v.key] = true
				}
				w.dot = &c
			}
			a = k.list(w, n.List, h)
			k.back(sc, w, mark)
		}
		e := sc.clone()
		b := k.list(e, n.ElseList, h)
		k.back(sc, e, mark)
		return k.join(a, b)
	case *parse.RangeNode:
		return k.rangeNode(sc, n, h)
	case *parse.TemplateNode:
		tr := k.trees[n.Name]
		if tr == nil {
			k.bad("template", sc, n, "template %q is not defined", n.Name)
			return h
		}
		var dot *tval
		if n.Pipe != nil {
			dot = k.pipe(sc, n.Pipe)
		} else {
			dot = &tval{absent: true, key: "nothing"}
		}
		return k.tmpl(sc, n.Name, tr, dot, h)
	case *parse.BreakNode, *parse.ContinueNode, *parse.CommentNode:
		return h
	}
	k.bad("undecided", sc, n, "a construct that is not understood: %s", n)
	return h
}

// back carries assignments to outer variables out of a branch
func (k *tmplWalk) back(sc, in *tscope, mark int) {
	for i := 0; i < mark && i < len(in.vars); i++ {
		if in.vars[i].v != sc.vars[i].v {
			a, b := sc.vars[i].v, in.vars[i].v
			if a == nil || b == nil || a.t == nil || b.t == nil || !types.Identical(a.t, b.t) {
				sc.vars[i].v = &tval{key: "mixed"}
				continue
			}
			c := *b
			c.lit, c.bool, c.set, c.escs = nil, 0, a.set && b.set, append(append([]string(nil), a.escs...), b.escs...)
			sc.vars[i].v = &c
		}
	}
}

func (k *tmplWalk) join(a, b htmlState) htmlState {
	if a.sig() == b.sig() {
		return a
	}
	if a.mode == b.mode && len(a.alts)+len(b.alts) > 0 {
		n := a
		n.alts = append(append([][]tpart(nil), a.alts...), b.alts...)
		if len(n.alts) > 16 {
			n.alts = n.alts[:16]
		}
		return n
	}
	if a.mode == 0 {
		return b
	}
	return a
}

// shorten forgets where something comes from once templates nest
func shorten(v *tval) *tval {
	if v == nil {
		return nil
	}
	c := *v
	if v.rec != nil {
		c.rec = map[string]*tval{}
		for n, x := range v.rec {
			c.rec[n] = shorten(x)
		}
	}
	if strings.Count(c.key, "[]") > 2 {
		c.key = "~"
	}
	return &c
}

func (k *tmplWalk) tmpl(sc *tscope, name string, tr *parse.Tree, dot *tval, h htmlState) htmlState {
	dot = shorten(dot)
	in := &tscope{dot: dot, vars: []tvar{{"$", dot}}, guards: map[string]bool{}, tmpl: name, depth: sc.depth + 1}
	for g := range sc.guards {
		if strings.Count(g, "[]") <= 2 && !strings.Contains(g, "~") {
			in.guards[g] = true
		}
	}
	key := name + "\x00" + dot.sig() + "\x00" + strings.Join(sortedKeys(in.guards), ",") + "\x00" + h.sig()
	if k.seen[key] {
		return h
	}
	k.seen[key] = true
	if in.depth > 40 {
		k.bad("undecided", sc, nil, "templates nest too deeply at %s", name)
		return h
	}
	return k.list(in, tr.Root, h)
}

func (k *tmplWalk) rangeNode(sc *tscope, n *parse.RangeNode, h htmlState) htmlState {
	in := sc.clone()
	mark := len(sc.vars)
	decl := n.Pipe.Decl
	p := *n.Pipe
	p.Decl = nil
	v := k.pipe(in, &p)
	var kt, et *tval
	if v != nil && v.t != nil && !v.absent {
		u := v.t.Underlying()
		if ptr, ok := u.(*types.Pointer); ok {
			if a, ok := ptr.Elem().Underlying().(*types.Array); ok {
				u = a
			}
		}
		intT := types.Typ[types.Int]
		switch u := u.(type) {
		case *types.Slice:
			kt, et = &tval{t: intT, rkey: true, key: v.key + "#"}, &tval{t: u.Elem(), addr: true, set: true, key: v.key + "[]"}
		case *types.Array:
			kt, et = &tval{t: intT, rkey: true, key: v.key + "#"}, &tval{t: u.Elem(), addr: v.addr, set: true, key: v.key + "[]"}
		case *types.Map:
			kt, et = &tval{t: u.Key(), rkey: true, key: v.key + "#"}, &tval{t: u.Elem(), set: true, key: v.key + "[]"}
		case *types.Chan:
			et = &tval{t: u.Elem(), key: v.key + "[]"}
			kt = et
		default:
			if b, ok := u.(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				k.bad("range", sc, n, "ranges over a number, which this version of the language does not support")
			} else if _, ok := u.(*types.Interface); !ok {
				k.bad("range", sc, n, "ranges over %s of type %s", n.Pipe, v.t)
			}
		}
	} else if v != nil && v.absent {
		e := k.list(sc.clone(), n.ElseList, h)
		return e
	}
	if et == nil {
		et = &tval{key: "?"}
	}
	if kt == nil {
		kt = &tval{key: "?"}
	}
	body := in.clone()
	body.dot = et
	if n.Pipe.IsAssign {
		for i, d := range decl {
			x := et
			if len(decl) == 2 && i == 0 {
				x = kt
			}
			for j := len(body.vars) - 1; j >= 0; j-- {
				if body.vars[j].name == d.Ident[0] {
					body.vars[j].v = x
					break
				}
			}
		}
	} else {
		switch len(decl) {
		case 1:
			body.vars = append(body.vars, tvar{decl[0].Ident[0], et})
		case 2:
			body.vars = append(body.vars, tvar{decl[0].Ident[0], kt}, tvar{decl[1].Ident[0], et})
		}
	}
	a := k.list(body, n.List, h)
	k.back(sc, body, mark)
	// the body may run again after itself
	again := body.clone()
	for i := 0; i < mark && i < len(sc.vars); i++ {
		again.vars[i].v = sc.vars[i].v
	}
	k.list(again, n.List, a)
	k.back(sc, again, mark)
	e := sc.clone()
	b := k.list(e, n.ElseList, h)
	return k.join(a, b)
}

// conds lists what is known to be true when the condition holds, and when it does not
func (k *tmplWalk) conds(sc *tscope, p *parse.PipeNode, in *tscope) (t, f []string) {
	if p == nil || len(p.Cmds) != 1 {
		return nil, nil
	}
	c := p.Cmds[0]
	if len(c.Args) == 0 {
		return nil, nil
	}
	if id, ok := c.Args[0].(*parse.IdentifierNode); ok {
		switch id.Ident {
		case "and":
			for _, a := range c.Args[1:] {
				x, _ := k.argConds(sc, a, in)
				t = append(t, x...)
			}
		case "or":
			for _, a := range c.Args[1:] {
				_, x := k.argConds(sc, a, in)
				f = append(f, x...)
			}
		case "not":
			if len(c.Args) == 2 {
				f, t = k.argConds(sc, c.Args[1], in)
			}
		}
		return t, f
	}
	if len(c.Args) == 1 {
		return k.argConds(sc, c.Args[0], in)
	}
	return nil, nil
}

func (k *tmplWalk) argConds(sc *tscope, a parse.Node, in *tscope) (t, f []string) {
	if p, ok := a.(*parse.PipeNode); ok {
		return k.conds(sc, p, in)
	}
	q := k.quiet()
	v := q.arg(in, a)
	if v != nil && v.key != "" {
		return []string{v.key}, []string{v.key}
	}
	return nil, nil
}

// quiet is a walker that reports nothing
func (k *tmplWalk) quiet() *tmplWalk {
	return &tmplWalk{tw: k.tw, use: k.use, set: k.set, trees: k.trees, seen: map[string]bool{}, badSeen: map[string]bool{}, ids: map[string]bool{}, needed: map[string]string{}, derefs: map[string]string{}, shared: map[string]bool{}}
}

func (k *tmplWalk) pipe(sc *tscope, p *parse.PipeNode) *tval {
	if p == nil {
		return nil
	}
	var v *tval
	have := false
	for _, c := range p.Cmds {
		v = k.command(sc, c, v, have)
		have = true
	}
	for _, d := range p.Decl {
		if p.IsAssign {
			for j := len(sc.vars) - 1; j >= 0; j-- {
				if sc.vars[j].name == d.Ident[0] {
					sc.vars[j].v = v
					break
				}
			}
		} else {
			sc.vars = append(sc.vars, tvar{d.Ident[0], v})
		}
	}
	return v
}

// command evaluates one command with the value piped into it
func (k *tmplWalk) command(sc *tscope, c *parse.CommandNode, final *tval, have bool) *tval {
	first := c.Args[0]
	switch n := first.(type) {
	case *parse.FieldNode:
		return k.chain(sc, n, sc.dot, n.Ident, c.Args[1:], final, have)
	case *parse.VariableNode:
		v := sc.lookup(n.Ident[0])
		if v == nil {
			k.bad("variable", sc, n, "variable %s is not defined", n.Ident[0])
			return nil
		}
		if len(n.Ident) == 1 {
			if len(c.Args) > 1 || have {
				k.bad("call", sc, n, "%s is given arguments but is not a function", n)
			}
			return v
		}
		return k.chain(sc, n, v, n.Ident[1:], c.Args[1:], final, have)
	case *parse.ChainNode:
		return k.chain(sc, n, k.arg(sc, n.Node), n.Field, c.Args[1:], final, have)
	case *parse.IdentifierNode:
		return k.function(sc, n, n.Ident, c.Args[1:], final, have)
	case *parse.PipeNode:
		if len(c.Args) > 1 || have {
			k.bad("call", sc, n, "a value is given arguments but is not a function")
		}
		return k.pipe(sc, n)
	}
	if len(c.Args) > 1 || have {
		k.bad("call", sc, first, "%s is given arguments but is not a function", first)
	}
	return k.arg(sc, first)
}

func (k *tmplWalk) arg(sc *tscope, n parse.Node) *tval {
	switch n := n.(type) {
	case *parse.DotNode:
		return sc.dot
	case *parse.NilNode:
		return &tval{absent: true, key: "nil"}
	case *parse.FieldNode:
		return k.chain(sc, n, sc.dot, n.Ident, nil, nil, false)
	case *parse.VariableNode:
		v := sc.lookup(n.Ident[0])
		if v == nil {
			k.bad("variable", sc, n, "variable %s is not defined", n.Ident[0])
			return nil
		}
		if len(n.Ident) == 1 {
			return v
		}
		return k.chain(sc, n, v, n.Ident[1:], nil, nil, false)
	case *parse.ChainNode:
		return k.chain(sc, n, k.arg(sc, n.Node), n.Field, nil, nil, false)
	case *parse.PipeNode:
		return k.pipe(sc, n)
	case *parse.IdentifierNode:
		return k.function(sc, n, n.Ident, nil, nil, false)
	case *parse.BoolNode:
		b := 2
		if n.True {
			b = 1
		}
		return &tval{t: types.Typ[types.Bool], bool: b}
	case *parse.NumberNode:
		switch {
		case n.IsInt:
			return &tval{t: types.Typ[types.Int], key: "num:" + n.Text}
		case n.IsFloat:
			return &tval{t: types.Typ[types.Float64], key: "num:" + n.Text}
		}
		return &tval{t: types.Typ[types.Int], key: "num:" + n.Text}
	case *parse.StringNode:
		s := n.Text
		return &tval{t: types.Typ[types.String], lit: &s, key: "str:" + s}
	}
	k.bad("undecided", sc, n, "an argument that is not understood: %s", n)
	return nil
}

// chain follows .A.B.C from a value; the last one may take arguments
func (k *tmplWalk) chain(sc *tscope, n parse.Node, v *tval, names []string, args []parse.Node, final *tval, have bool) *tval {
	for i, name := range names {
		var a []parse.Node
		var fin *tval
		hv := false
		if i == len(names)-1 {
			a, fin, hv = args, final, have
		}
		v = k.field(sc, n, v, name, a, fin, hv)
		if v == nil {
			return nil
		}
	}
	return v
}

func deref(t types.Type) (types.Type, bool) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem(), true
	}
	return t, false
}

// field evaluates one step
func (k *tmplWalk) field(sc *tscope, n parse.Node, v *tval, name string, args []parse.Node, final *tval, have bool) *tval {
	if v == nil {
		return nil
	}
	k.fields++
	if v.rec != nil {
		if len(args) > 0 || have {
			k.bad("call", sc, n, "%s is given arguments but is not a function", name)
		}
		if x, ok := v.rec[name]; ok {
			return x
		}
		return &tval{absent: true, key: v.key + "." + name}
	}
	if v.absent {
		k.bad("optional", sc, n, "asks for .%s of something that is not part of the data here (%s)", name, v.key)
		return nil
	}
	if v.t == nil {
		k.bad("undecided", sc, n, "asks for .%s of a value whose type is not known", name)
		return nil
	}
	base, isPtr := deref(v.t)
	key := v.key + "." + name
	if isPtr && !v.set && !sc.guards[v.key] {
		if rest, ok := strings.CutPrefix(v.key, "ctx."); ok && !strings.ContainsAny(rest, ".[(") {
			// a pointer field of the data itself: set where the data is put together
			k.derefs[rest] = sc.tmpl
		} else {
			k.bad("optional", sc, n, "asks for .%s of %s, which may be nil", name, v.key)
		}
	}
	if _, ok := base.Underlying().(*types.Interface); ok {
		if m := types.NewMethodSet(base).Lookup(nil, name); m == nil {
			k.bad("undecided", sc, n, "asks for .%s of a value of interface type %s", name, base)
			return nil
		}
	}
	if v.key == "ctx" {
		if k.needed[name] == "" {
			k.needed[name] = sc.tmpl
		}
	}
	obj, index, indirect := types.LookupFieldOrMethod(v.t, v.addr || isPtr, nil, name)
	_ = index
	_ = indirect
	if obj == nil && !token.IsExported(name) {
		// unexported names cannot be seen by templates
		k.bad("field", sc, n, "%s has no exported field or method %s", v.t, name)
		return nil
	}
	switch o := obj.(type) {
	case nil:
		if m, ok := base.Underlying().(*types.Map); ok && len(args) == 0 {
			if isString(m.Key()) {
				return &tval{t: m.Elem(), key: key}
			}
		}
		if o2, _, _ := types.LookupFieldOrMethod(types.NewPointer(base), true, nil, name); o2 != nil {
			k.bad("field", sc, n, "%s is a method of *%s, but the value used here cannot be addressed: the page stops here", name, base)
			return nil
		}
		k.bad("field", sc, n, "%s has no field or method %s", v.t, name)
		return nil
	case *types.Var:
		if len(args) > 0 || have {
			k.bad("call", sc, n, "%s is given arguments but is not a function", name)
		}
		// embedded pointers on the way
		k.embedded(sc, n, base, index, name)
		return &tval{t: o.Type(), addr: v.addr || isPtr, key: key}
	case *types.Func:
		sig := o.Type().(*types.Signature)
		r := k.callSig(sc, n, name, sig, args, final, have)
		if r != nil {
			r.key = key
			if len(args) > 0 || have {
				r.key += "()"
				for _, a := range args {
					q := k.quiet().arg(sc, a)
					if q != nil && q.rkey {
						// asked for one of its own entries
						r.set = true
					}
				}
			}
		}
		return r
	}
	return nil
}

// embedded checks the pointers passed on the way to a promoted field
func (k *tmplWalk) embedded(sc *tscope, n parse.Node, t types.Type, index []int, name string) {
	for _, i := range index[:max(0, len(index)-1)] {
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			return
		}
		t = st.Field(i).Type()
		if p, ok := t.Underlying().(*types.Pointer); ok {
			k.bad("optional", sc, n, "%s is part of an embedded pointer that may be nil", name)
			t = p.Elem()
		}
	}
}

// callSig checks the arguments of a call
func (k *tmplWalk) callSig(sc *tscope, n parse.Node, name string, sig *types.Signature, args []parse.Node, final *tval, have bool) *tval {
	var vals []*tval
	for _, a := range args {
		vals = append(vals, k.arg(sc, a))
	}
	if have {
		vals = append(vals, final)
	}
	k.calls++
	np := sig.Params().Len()
	if sig.Variadic() && len(vals) < np-1 || !sig.Variadic() && len(vals) != np {
		k.bad("call", sc, n, "%s takes %d arguments but is given %d", name, np, len(vals))
	}
	for i, v := range vals {
		var pt types.Type
		if sig.Variadic() && i >= np-1 {
			pt = sig.Params().At(np - 1).Type().(*types.Slice).Elem()
		} else if i < np {
			pt = sig.Params().At(i).Type()
		}
		if pt != nil && v != nil {
			k.assignable(sc, n, name, i, v, pt)
		}
	}
	res := sig.Results()
	if res.Len() == 0 || res.Len() > 2 || res.Len() == 2 && !isErrorType(res.At(1).Type()) {
		k.bad("call", sc, n, "%s has %d results and cannot be used in a template", name, res.Len())
		return nil
	}
	return &tval{t: res.At(0).Type(), key: name + "()"}
}

func (k *tmplWalk) assignable(sc *tscope, n parse.Node, name string, i int, v *tval, pt types.Type) {
	_, iface := pt.Underlying().(*types.Interface)
	switch {
	case v.rec != nil:
		if !iface {
			if m, ok := pt.Underlying().(*types.Map); ok && isString(m.Key()) {
				return
			}
			k.bad("call", sc, n, "argument %d of %s is a record, %s is wanted", i+1, name, pt)
		}
		return
	case v.absent:
		if !iface && !isNilable(pt) {
			k.bad("optional", sc, n, "argument %d of %s is not part of the data here (%s)", i+1, name, v.key)
		}
		return
	case v.t == nil:
		if !iface {
			k.bad("undecided", sc, n, "the type of argument %d of %s is not known", i+1, name)
		}
		return
	}
	if k.assign1(v, pt) {
		return
	}
	k.bad("call", sc, n, "argument %d of %s has type %s, %s is wanted", i+1, name, v.t, pt)
}

func (k *tmplWalk) assign1(v *tval, pt types.Type) bool {
	if v.lit != nil {
		return isString(pt) || types.IsInterface(pt)
	}
	if strings.HasPrefix(v.key, "num:") {
		b, ok := pt.Underlying().(*types.Basic)
		return types.IsInterface(pt) || ok && b.Info()&types.IsNumeric != 0
	}
	if types.AssignableTo(v.t, pt) {
		return true
	}
	if p, ok := v.t.Underlying().(*types.Pointer); ok && types.AssignableTo(p.Elem(), pt) {
		return v.set
	}
	if v.addr && types.AssignableTo(types.NewPointer(v.t), pt) {
		return true
	}
	return false
}

// function calls a function by name
func (k *tmplWalk) function(sc *tscope, n parse.Node, name string, args []parse.Node, final *tval, have bool) *tval {
	if f, ok := k.set.funcs[name]; ok {
		sig := funcSig(f)
		if sig == nil {
			k.bad("undecided", sc, n, "function %s is not known: %s", name, f)
			return nil
		}
		if isCombine(sig) {
			return k.combine(sc, n, name, args, final, have)
		}
		r := k.callSig(sc, n, name, sig, args, final, have)
		if r == nil {
			return nil
		}
		r.escs = []string{name}
		var in *tval
		if have {
			in = final
		} else if len(args) > 0 {
			in = k.quiet().arg(sc, args[0])
		}
		if in != nil {
			r.escs = append(r.escs, in.escs...)
			r.key = in.key
			if in.lit != nil {
				r.key = "str:" + *in.lit
			}
		}
		return r
	}
	if !builtinFuncs[name] {
		for _, a := range args {
			k.arg(sc, a)
		}
		k.bad("function", sc, n, "function %s is not defined", name)
		return nil
	}
	var vals []*tval
	cond := sc
	for i, a := range args {
		vals = append(vals, k.arg(cond, a))
		// and, or stop early
		if name == "and" || name == "or" {
			if cond == sc {
				cond = sc.clone()
			}
			t, f := k.argConds(sc, args[i], cond)
			if name == "and" {
				for _, g := range t {
					cond.guards[g] = true
				}
			} else {
				for _, g := range f {
					cond.guards["!"+g] = true
				}
			}
		}
	}
	if have {
		vals = append(vals, final)
	}
	k.calls++
	boolT := &tval{t: types.Typ[types.Bool]}
	argc := func(lo, hi int) bool {
		if len(vals) < lo || hi >= 0 && len(vals) > hi {
			k.bad("call", sc, n, "%s is given %d arguments", name, len(vals))
			return false
		}
		return true
	}
	switch name {
	case "not":
		argc(1, 1)
		return boolT
	case "and", "or":
		argc(1, -1)
		for _, v := range vals[1:] {
			if v == nil || vals[0] == nil || v.t == nil || vals[0].t == nil || !types.Identical(v.t, vals[0].t) {
				return &tval{key: name}
			}
		}
		if len(vals) > 0 && vals[0] != nil {
			c := *vals[0]
			c.set, c.lit, c.bool, c.key = false, nil, 0, name+"()"
			for _, v := range vals {
				c.key += "," + v.key
				c.escs = append(c.escs, v.escs...)
			}
			return &c
		}
		return nil
	case "len":
		if argc(1, 1) && vals[0] != nil {
			if vals[0].absent {
				k.bad("optional", sc, n, "asks for the length of %s, which is not part of the data here", vals[0].key)
			} else if vals[0].t != nil {
				t, ptr := deref(vals[0].t)
				_ = ptr
				switch u := t.Underlying().(type) {
				case *types.Slice, *types.Map, *types.Array, *types.Chan:
				case *types.Basic:
					if u.Info()&types.IsString == 0 {
						k.bad("call", sc, n, "len of a value of type %s", t)
					}
				default:
					if !types.IsInterface(t) {
						k.bad("call", sc, n, "len of a value of type %s", t)
					}
				}
			}
		}
		return &tval{t: types.Typ[types.Int], key: "len()"}
	case "index":
		return k.index(sc, n, vals)
	case "slice":
		k.bad("undecided", sc, n, "slices in templates may be out of range")
		return nil
	case "eq", "ne", "lt", "le", "gt", "ge":
		hi := 2
		if name == "eq" {
			hi = -1
		}
		if argc(2, hi) {
			for _, v := range vals[1:] {
				k.comparable(sc, n, name, vals[0], v)
			}
		}
		return boolT
	case "print", "printf", "println", "html", "js", "urlquery":
		r := &tval{t: types.Typ[types.String], escs: []string{name}, key: name + "()"}
		for _, v := range vals {
			if v != nil {
				r.escs = append(r.escs, v.escs...)
				r.key += "," + v.key
			}
		}
		if name == "printf" && len(vals) > 0 && vals[0] != nil && vals[0].lit != nil {
			if f := strings.Count(strings.ReplaceAll(*vals[0].lit, "%%", ""), "%"); f != len(vals)-1 {
				k.bad("call", sc, n, "printf is given %d arguments for %d places", len(vals)-1, f)
			}
		}
		return r
	case "call":
		if argc(1, -1) && vals[0] != nil && vals[0].t != nil {
			sig, ok := vals[0].t.Underlying().(*types.Signature)
			if !ok {
				k.bad("call", sc, n, "calls a value of type %s", vals[0].t)
				return nil
			}
			return k.callSig(sc, n, "call", sig, args[1:], final, have)
		}
		return nil
	}
	return nil
}

func (k *tmplWalk) index(sc *tscope, n parse.Node, vals []*tval) *tval {
	if len(vals) == 0 || vals[0] == nil {
		return nil
	}
	v := vals[0]
	if v.absent {
		k.bad("optional", sc, n, "asks for an element of %s, which is not part of the data here", v.key)
		return nil
	}
	if v.t == nil {
		k.bad("undecided", sc, n, "asks for an element of a value whose type is not known")
		return nil
	}
	t := v.t
	key := v.key
	for i, x := range vals[1:] {
		t, _ = deref(t)
		switch u := t.Underlying().(type) {
		case *types.Map:
			if x != nil && x.t != nil && !k.assign1(x, u.Key()) {
				k.bad("call", sc, n, "index %d has type %s, the keys are of type %s", i+1, x.t, u.Key())
			}
			t = u.Elem()
		case *types.Slice, *types.Array:
			// in range only for an index of a range over the same list
			if x == nil || x.key != key+"#" {
				k.bad("optional", sc, n, "asks for element %d of a list that may be shorter", i+1)
			}
			if s, ok := u.(*types.Slice); ok {
				t = s.Elem()
			} else {
				t = u.(*types.Array).Elem()
			}
		default:
			k.bad("call", sc, n, "asks for an element of a value of type %s", t)
			return nil
		}
		key += "[]"
	}
	return &tval{t: t, key: key}
}

// comparable checks that two values can be compared
func (k *tmplWalk) comparable(sc *tscope, n parse.Node, op string, a, b *tval) {
	if a == nil || b == nil {
		return
	}
	for _, v := range []*tval{a, b} {
		if v.absent && v.key != "nil" {
			k.bad("optional", sc, n, "compares %s, which is not part of the data here", v.key)
			return
		}
	}
	if a.t == nil || b.t == nil || a.absent || b.absent {
		return
	}
	kind := func(t types.Type) string {
		b, ok := t.Underlying().(*types.Basic)
		if !ok {
			return "other"
		}
		switch {
		case b.Info()&types.IsBoolean != 0:
			return "bool"
		case b.Info()&types.IsInteger != 0:
			return "int"
		case b.Info()&types.IsFloat != 0:
			return "float"
		case b.Info()&types.IsComplex != 0:
			return "complex"
		case b.Info()&types.IsString != 0:
			return "string"
		}
		return "other"
	}
	ka, kb := kind(a.t), kind(b.t)
	switch {
	case types.IsInterface(a.t) || types.IsInterface(b.t):
		return
	case ka != kb:
		k.bad("compare", sc, n, "%s compares a value of type %s with one of type %s: the page stops here", op, a.t, b.t)
	case ka == "other" && op != "eq" && op != "ne", (ka == "bool" || ka == "complex") && op != "eq" && op != "ne":
		k.bad("compare", sc, n, "%s cannot order values of type %s", op, a.t)
	case ka == "other" && !types.Comparable(a.t):
		k.bad("compare", sc, n, "values of type %s cannot be compared", a.t)
	}
}

func funcSig(f Val) *types.Signature {
	if f.K == KFunc && f.Fn != nil {
		return f.Fn.Signature
	}
	return nil
}

// isCombine: a function that makes a record from names and values
func isCombine(sig *types.Signature) bool {
	if !sig.Variadic() || sig.Params().Len() != 1 || sig.Results().Len() == 0 {
		return false
	}
	m, ok := sig.Results().At(0).Type().Underlying().(*types.Map)
	if !ok || !isString(m.Key()) || !types.IsInterface(m.Elem()) {
		return false
	}
	sl, ok := sig.Params().At(0).Type().(*types.Slice)
	return ok && types.IsInterface(sl.Elem())
}

func (k *tmplWalk) combine(sc *tscope, n parse.Node, name string, args []parse.Node, final *tval, have bool) *tval {
	var vals []*tval
	for _, a := range args {
		vals = append(vals, k.arg(sc, a))
	}
	if have {
		vals = append(vals, final)
	}
	k.calls++
	r := &tval{rec: map[string]*tval{}, key: "rec", set: true}
	if len(vals)%2 != 0 {
		k.bad("call", sc, n, "%s is given %d arguments: names and values have to come in pairs", name, len(vals))
		return r
	}
	for i := 0; i+1 < len(vals); i += 2 {
		if vals[i] == nil || vals[i].lit == nil {
			k.bad("call", sc, n, "argument %d of %s is not fixed text", i+1, name)
			continue
		}
		if _, dup := r.rec[*vals[i].lit]; dup {
			k.bad("call", sc, n, "%s is given %q twice", name, *vals[i].lit)
		}
		x := &tval{}
		if vals[i+1] != nil {
			*x = *vals[i+1]
		}
		if x.t == nil || !isPointer(x.t) {
			x.addr = false // a copy inside an interface
		}
		r.rec[*vals[i].lit] = x
	}
	return r
}

// ---- the page itself

var rawTags = map[string]bool{"script": true, "style": true, "textarea": true, "title": true}

// emit: a value appears at this place of the page
func (k *tmplWalk) emit(sc *tscope, n parse.Node, v *tval, h htmlState) htmlState {
	if v == nil {
		v = &tval{key: "?"}
	}
	if v.absent && v.key != "nothing" {
		k.bad("optional", sc, n, "shows %s, which is not part of the data here", v.key)
	}
	if v.t != nil {
		switch v.t.Underlying().(type) {
		case *types.Signature, *types.Chan:
			k.bad("call", sc, n, "a value of type %s cannot be shown", v.t)
		}
	}
	s := tsink{tmpl: sc.tmpl, node: n, val: v, guards: sortedKeys(sc.guards), use: k.use}
	switch h.mode {
	case 'V', 'v':
		if h.mode == 'v' {
			h.mode, h.quote, h.alts = 'V', 0, [][]tpart{nil}
		}
		s.tag, s.attr, s.quote = h.tag, h.attr, h.quote
		h.alts = addPart(h.alts, tpart{val: v})
	case 's':
		s.tag = h.raw
		s.script = h.raw == "script"
		s.css = h.raw == "style"
	case 'i', 'n', 'a', 't':
		s.tag, s.attr = h.tag, "*"
	}
	k.sinks = append(k.sinks, s)
	return h
}

func addPart(alts [][]tpart, p tpart) [][]tpart {
	out := make([][]tpart, len(alts))
	for i, a := range alts {
		a = append([]tpart(nil), a...)
		if n := len(a); n > 0 && a[n-1].val == nil && p.val == nil {
			a[n-1].text += p.text
		} else {
			a = append(a, p)
		}
		out[i] = a
	}
	return out
}

func isSpace(c byte) bool { return c == ' ' || c == '\n' || c == '\t' || c == '\r' || c == '\f' }

func isAlpha(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }

// text moves through fixed text of a page
func (k *tmplWalk) text(sc *tscope, t string, h htmlState) htmlState {
	endAttr := func() {
		name := strings.ToLower(h.attr)
		for _, a := range h.alts {
			l := tlink{tmpl: sc.tmpl, tag: h.tag, attr: name, parts: a, guards: sortedKeys(sc.guards), use: k.use}
			if len(a) == 1 && a[0].val == nil || len(a) == 0 {
				v := ""
				if len(a) == 1 {
					v = a[0].text
				}
				switch {
				case name == "id" || name == "name" && h.tag == "a":
					k.ids[v] = true
				case name == "name" && h.form != nil && (h.tag == "input" || h.tag == "select" || h.tag == "textarea" || h.tag == "button"):
					h.form.inputs[v] = true
				}
				if h.tag == "form" && name == "method" && h.form != nil {
					h.form.method = v
				}
			}
			switch name {
			case "href", "src", "action", "formaction", "poster", "data", "srcset":
				if name == "action" && h.tag == "form" && h.form != nil {
					h.form.parts = a
					h.form.guards = l.guards
					continue
				}
				k.links = append(k.links, l)
			}
		}
		h.alts, h.attr = nil, ""
	}
	for i := 0; i < len(t); i++ {
		c := t[i]
		switch h.mode {
		case 0:
			if c != '<' {
				continue
			}
			switch {
			case strings.HasPrefix(t[i:], "<!--"):
				h.mode = 'c'
				i += 3
			case i+1 < len(t) && t[i+1] == '!':
				h.mode = '!'
			case i+1 < len(t) && (isAlpha(t[i+1]) || t[i+1] == '/'):
				h.mode, h.tag, h.close = 't', "", false
			}
		case 'c':
			if strings.HasPrefix(t[i:], "-->") {
				h.mode = 0
				i += 2
			}
		case '!':
			if c == '>' {
				h.mode = 0
			}
		case 's':
			if strings.HasPrefix(strings.ToLower(t[i:]), "</"+h.raw) {
				h.mode, h.tag, h.close, h.raw = 't', "", false, ""
			}
		case 't':
			switch {
			case c == '/' && h.tag == "":
				h.close = true
			case isSpace(c) || c == '/' || c == '>':
				h.mode = 'i'
				if h.tag == "form" && !h.close {
					h.form = &tlink{tmpl: sc.tmpl, tag: "form", attr: "action", inputs: map[string]bool{}, guards: sortedKeys(sc.guards), use: k.use}
				}
				i--
			default:
				h.tag += strings.ToLower(string(c))
			}
		case 'i':
			switch {
			case c == '>':
				h.mode = 0
				if h.close && h.tag == "form" && h.form != nil {
					k.links = append(k.links, *h.form)
					h.form = nil
				}
				if !h.close && rawTags[h.tag] {
					h.mode, h.raw = 's', h.tag
				}
			case isSpace(c) || c == '/':
			default:
				h.mode, h.attr = 'n', string(c)
			}
		case 'n':
			switch {
			case c == '=':
				h.mode = 'v'
			case isSpace(c):
				h.mode = 'a'
			case c == '>' || c == '/':
				h.mode, h.alts = 'i', [][]tpart{nil}
				endAttr()
				i--
			default:
				h.attr += string(c)
			}
		case 'a':
			switch {
			case isSpace(c):
			case c == '=':
				h.mode = 'v'
			default:
				h.mode, h.alts = 'i', [][]tpart{nil}
				endAttr()
				i--
			}
		case 'v':
			switch {
			case isSpace(c):
			case c == '"' || c == '\'':
				h.mode, h.quote, h.alts = 'V', c, [][]tpart{nil}
			default:
				h.mode, h.quote, h.alts = 'V', 0, [][]tpart{nil}
				i--
			}
		case 'V':
			if h.quote != 0 && c == h.quote || h.quote == 0 && (isSpace(c) || c == '>') {
				endAttr()
				h.mode = 'i'
				if h.quote == 0 {
					i--
				}
				h.quote = 0
				continue
			}
			h.alts = addPart(h.alts, tpart{text: string(c)})
		}
	}
	return h
}

// pages walks every page
func (t *tmplWorld) pages() (out []*tmplWalk) {
	us, _ := t.uses()
	sort.SliceStable(us, func(i, j int) bool { return us[i].name < us[j].name })
	for i := range us {
		u := &us[i]
		k := &tmplWalk{tw: t, use: u, set: t.sets[u.set], trees: t.trees(u.set), seen: map[string]bool{}, badSeen: map[string]bool{}, ids: map[string]bool{}, needed: map[string]string{}, derefs: map[string]string{}, shared: map[string]bool{}}
		k.page()
		out = append(out, k)
	}
	return out
}
