package main

// C17: serving requests only reads what was loaded.
//
// Everything a request can run is interpreted with the data of the viewer under
// fixed names: what is loaded from it keeps saying where it comes from. Writing to
// such a place, or handing it to something that writes, changes what others see.

import (
	"go/token"
	"go/types"
	"sort"
	"strings"
	"text/template/parse"

	"golang.org/x/tools/go/ssa"
)

type sharedClient struct {
	BaseClient
	c     *Ctx
	root  *ssa.Function
	roots map[string]bool // names of what is shared
	rule  string
}

// shared says whether memory that is named by text belongs to data others see
func (k *sharedClient) shared(text string) bool {
	if strings.Contains(text, "fn:call:") || strings.HasPrefix(text, "a!") {
		return false
	}
	if strings.Contains(text, "g:") {
		if i := strings.Index(text, "*g:"); i >= 0 && strings.Contains(text[i:], "hangover") && !strings.Contains(text[i:], "$") {
			return true
		}
	}
	for r := range k.roots {
		if strings.Contains(text, r) {
			return true
		}
	}
	return false
}

func (k *sharedClient) sharedVal(e *Engine, s *State, v Val) bool {
	switch v.K {
	case KOpaque, KPtr:
	default:
		return false
	}
	if strings.HasPrefix(v.S, "a!") {
		return false
	}
	return k.shared(v.S)
}

func isStatsCode(fn *ssa.Function) bool {
	return strings.HasSuffix(fnPkg(fn), "internal/stats") || strings.HasSuffix(fnPkg(fn), "pkg/progress")
}

func (k *sharedClient) Inline(e *Engine, s *State, cs *CallSite, fn *ssa.Function) bool {
	if strings.Contains(fn.Synthetic, "wrapper") || strings.Contains(fn.Synthetic, "thunk") || strings.Contains(fn.Synthetic, "bound method") {
		return true
	}
	return (isRepo(fn) || strings.Contains(fn.Synthetic, "instance of") && isRepo(origin(fn))) && !isStatsCode(fn)
}

func (k *sharedClient) bad(e *Engine, s *State, pos token.Pos, format string, args ...any) {
	k.c.BadAt(k.rule, fname(s.top().fn), k.c.W.pos(pos), e.Trace(s), format, args...)
}

// changes says whether a function outside the repository, called name, writes to what it is given
func changes(pkg, name string) bool {
	switch {
	case pkg == "sort":
		return name != "Search" && !strings.HasPrefix(name, "Search") && !strings.Contains(name, "AreSorted") && !strings.Contains(name, "IsSorted") && name != "Reverse"
	case strings.HasSuffix(pkg, "slices"):
		for _, p := range []string{"Sort", "Reverse", "Compact", "Delete", "Insert", "Replace", "Grow"} {
			if strings.HasPrefix(name, p) {
				return true
			}
		}
		return false
	case strings.HasSuffix(pkg, "maps"):
		return name == "Copy" || name == "DeleteFunc" || name == "Clear"
	case strings.HasPrefix(pkg, "encoding/"):
		return strings.HasPrefix(name, "Unmarshal") || strings.HasPrefix(name, "Decode")
	}
	return false
}

// writer: a method that, by its name, changes its receiver
func writer(name string) bool {
	for _, p := range []string{"Set", "Add", "Put", "Delete", "Remove", "Update", "Append", "Clear", "Reset", "GetOrCreate", "Create", "Insert", "Swap", "Store", "Finalize", "Compact", "Close", "Mark", "Parse", "Replace", "Sort", "Unmarshal", "Decode", "New"} {
		if rest, ok := strings.CutPrefix(name, p); ok && (rest == "" || rest[0] >= 'A' && rest[0] <= 'Z') {
			return true
		}
	}
	return false
}

func (k *sharedClient) Call(e *Engine, s *State, cs *CallSite) ([]Outcome, bool) {
	com := cs.Instr.Common()
	pos := cs.Instr.Pos()
	if b, ok := com.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			k.c.ObOnce("extend", fname(s.top().fn)+" "+cs.Instr.String())
			if x := cs.Args[0]; k.sharedVal(e, s, x) && !strings.HasSuffix(x.S, "#full;") {
				k.bad(e, s, pos, "elements are appended to data that other requests see")
				return []Outcome{{End: true}}, true
			}
		case "copy", "delete", "clear":
			k.c.ObOnce("extend", fname(s.top().fn)+" "+cs.Instr.String())
			if k.sharedVal(e, s, cs.Args[0]) {
				k.bad(e, s, pos, "data that other requests see is changed by %s", b.Name())
				return []Outcome{{End: true}}, true
			}
		}
		return nil, false
	}
	if cs.Name() == "(*sync.Once).Do" {
		// what happens once prepares the viewer
		return []Outcome{{}}, true
	}
	if cs.Iface != nil {
		if len(cs.Args) > 0 && k.sharedVal(e, s, cs.Args[0]) && writer(cs.Iface.Name()) && !statsValue(com.Value.Type()) && !standardIface(cs.Iface) {
			k.bad(e, s, pos, "%s is called on data that other requests see", cs.Iface.Name())
			return []Outcome{{End: true}}, true
		}
		return nil, false
	}
	if cs.Static == nil || isRepo(cs.Static) {
		return nil, false
	}
	callee := cs.Static
	pkg := pkgPathOf(callee)
	recv := callee.Signature.Recv()
	k.c.ObOnce("call", fname(s.top().fn)+" "+qualName(callee))
	for i, a := range cs.Args {
		if !k.sharedVal(e, s, a) {
			continue
		}
		switch {
		case recv == nil && (i == 0 || strings.HasPrefix(pkg, "encoding/")) && changes(pkg, callee.Name()),
			recv == nil && pkg == "sync/atomic" && !strings.HasPrefix(callee.Name(), "Load"):
			k.bad(e, s, pos, "%s changes data that other requests see", qualName(callee))
			return []Outcome{{End: true}}, true
		case recv != nil && i == 0 && strings.Contains(pkg, "drincw"):
			if writer(callee.Name()) && (isPointer(recv.Type()) || strings.HasSuffix(callee.Name(), "Create")) {
				k.bad(e, s, pos, "%s changes what it is called on, which other requests see", qualName(callee))
				return []Outcome{{End: true}}, true
			}
			if res := callee.Signature.Results(); res.Len() == 1 && (isPointer(res.At(0).Type()) || callee.Name() == "Fields") {
				return []Outcome{{Val: e.refine(s, opaque("of:"+callee.Name()+"<"+a.S+">;"))}}, true
			}
		case recv != nil && i > 0 && (strings.HasPrefix(callee.Name(), "Decode") || strings.HasPrefix(callee.Name(), "Unmarshal")):
			k.bad(e, s, pos, "%s writes to data that other requests see", qualName(callee))
			return []Outcome{{End: true}}, true
		}
	}
	return nil, false
}

func statsValue(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "internal/stats")
}

// standardIface: an interface of the standard library, such as a writer or a handler
func standardIface(f *types.Func) bool {
	return f.Pkg() == nil || !strings.Contains(f.Pkg().Path(), ".")
}

func (k *sharedClient) Instr(e *Engine, s *State, instr ssa.Instruction) bool {
	switch ins := instr.(type) {
	case *ssa.Store:
		a := e.eval(s, ins.Addr)
		key, ok := e.addr(s, a)
		k.c.ObOnce("store", fname(s.top().fn)+" "+ins.String())
		if ok && !strings.HasPrefix(key, "a!") && k.shared(key) {
			if g, isG := ins.Addr.(*ssa.Global); isG && !isRepoGlobal(g) {
				return true
			}
			k.bad(e, s, ins.Pos(), "data that other requests see is overwritten")
			return false
		}
	case *ssa.MapUpdate:
		m := e.eval(s, ins.Map)
		k.c.ObOnce("store", fname(s.top().fn)+" "+ins.String())
		if k.sharedVal(e, s, m) {
			k.bad(e, s, ins.Pos(), "a map that other requests see is changed")
			return false
		}
	}
	return true
}

func isRepoGlobal(g *ssa.Global) bool {
	return g.Pkg != nil && strings.Contains(g.Pkg.Pkg.Path(), "hangover")
}

// special keeps where things come from
func (k *sharedClient) special(e *Engine, s *State, instr ssa.Instruction) bool {
	switch ins := instr.(type) {
	case *ssa.Slice:
		v := e.eval(s, ins.X)
		if v.K != KOpaque || !k.sharedVal(e, s, v) {
			return false
		}
		if _, ok := ins.X.Type().Underlying().(*types.Slice); !ok {
			return false
		}
		t := v.S
		if ins.Max != nil {
			t = strings.TrimSuffix(t, "#full;") + "#full;"
		}
		e.set(s, ins, opaque(t))
		return true
	case *ssa.Lookup:
		m := e.eval(s, ins.X)
		if !k.sharedVal(e, s, m) {
			return false
		}
		if _, isMap := ins.X.Type().Underlying().(*types.Map); !isMap {
			return false
		}
		// the key does not decide whose the entry is
		t := "el<" + m.S + ">"
		id := s.top().id + ":" + ins.Name()
		if ins.CommaOk {
			s.redefine(id + "#1;")
			e.set(s, ins, tuple(opaque(t+"#0;"), opaque(id+"#1;")))
		} else {
			e.set(s, ins, opaque(t+";"))
		}
		return true
	case *ssa.Range:
		m := e.eval(s, ins.X)
		if _, isMap := ins.X.Type().Underlying().(*types.Map); !isMap || !k.sharedVal(e, s, m) {
			return false
		}
		e.set(s, ins, opaque("range<"+m.S+">;"))
		return true
	case *ssa.Next:
		m := e.eval(s, ins.Iter)
		if m.K != KOpaque || !strings.HasPrefix(m.S, "range<") {
			return false
		}
		id := s.top().id + ":" + ins.Name()
		s.redefine(id + "#0;")
		e.set(s, ins, tuple(opaque(id+"#0;"), opaque("key<"+id+">;"), opaque("el<"+m.S+">;")))
		return true
	}
	return neverSet(e, s, instr)
}

func (k *sharedClient) run(params map[string]Val) {
	e := NewEngine(k.c.W, k)
	e.RootID, e.Params, e.Strings = "r", params, true
	e.Special = k.special
	e.Max = 1_500_000
	e.Run(k.root, nil)
	if e.Over {
		k.c.Bad("undecided", fname(k.root), k.root.Pos(), "too many paths to decide")
	}
}

// served are the functions a request can run: handlers, what templates call and
// what turns data into text
func served(c *Ctx) (roots []*ssa.Function) {
	words := map[string]bool{}
	for _, set := range sortedKeysOf(templatesOf(c.W).sets) {
		for _, t := range templatesOf(c.W).trees(set) {
			if t == nil || t.Root == nil {
				continue
			}
			walkWords(t.Root, words)
		}
	}
	given := givenTypes(c.W, words)
	for _, fn := range c.W.Fns {
		if !isRepo(fn) || fn.Blocks == nil || fn.Synthetic != "" || isStatsCode(fn) || strings.Contains(fnPkg(fn), "headache") {
			continue
		}
		sig := fn.Signature
		handler := false
		for i := 0; i+1 < sig.Params().Len(); i++ {
			if typeName(sig.Params().At(i).Type()) == "net/http.ResponseWriter" && typeName(sig.Params().At(i+1).Type()) == "*net/http.Request" {
				handler = true
			}
		}
		text := sig.Recv() != nil && (fn.Name() == "String" || fn.Name() == "MarshalJSON" || fn.Name() == "MarshalText")
		if handler || text || sig.Recv() != nil && words[fn.Name()] && capital(fn.Name()) && given[namedOf(sig.Recv().Type())] || inFuncMap(c.W, fn) {
			roots = append(roots, fn)
		}
	}
	return
}

// givenTypes are the types templates may see
func givenTypes(w *World, words map[string]bool) map[*types.Named]bool {
	given := map[*types.Named]bool{}
	seen := map[types.Type]bool{}
	var grow func(t types.Type)
	grow = func(t types.Type) {
		t = types.Unalias(t)
		if seen[t] {
			return
		}
		seen[t] = true
		if n, ok := t.(*types.Named); ok {
			given[n] = true
			ms := types.NewMethodSet(types.NewPointer(n))
			for i := 0; i < ms.Len(); i++ {
				if f, ok := ms.At(i).Obj().(*types.Func); ok && words[f.Name()] {
					res := f.Type().(*types.Signature).Results()
					for j := 0; j < res.Len(); j++ {
						grow(res.At(j).Type())
					}
				}
			}
		}
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			grow(u.Elem())
		case *types.Slice:
			grow(u.Elem())
		case *types.Array:
			grow(u.Elem())
		case *types.Map:
			grow(u.Key())
			grow(u.Elem())
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				if u.Field(i).Exported() || u.Field(i).Embedded() {
					grow(u.Field(i).Type())
				}
			}
		}
	}
	for _, fn := range w.Fns {
		if !isRepo(fn) || fn.Blocks == nil {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				call, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				callee := call.Common().StaticCallee()
				if callee == nil || !strings.HasPrefix(callee.Name(), "Execute") || !strings.HasSuffix(pkgPathOf(callee), "/template") {
					continue
				}
				for _, a := range call.Common().Args {
					if mi, ok := a.(*ssa.MakeInterface); ok {
						grow(mi.X.Type())
					}
				}
			}
		}
	}
	return given
}

func capital(name string) bool { return name != "" && name[0] >= 'A' && name[0] <= 'Z' }

func sortedKeysOf[V any](m map[string]V) (out []string) {
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return
}

// walkWords collects the names of fields and methods a template mentions
func walkWords(n parse.Node, words map[string]bool) {
	for _, f := range strings.FieldsFunc(n.String(), func(r rune) bool {
		return !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_')
	}) {
		words[f] = true
	}
}

// inFuncMap: fn is something templates can call by name
func inFuncMap(w *World, fn *ssa.Function) bool {
	refs := fn.Referrers()
	_ = refs
	if fn.Parent() == nil || !strings.HasPrefix(fn.Parent().Name(), "init") {
		return false
	}
	for _, b := range fn.Parent().Blocks {
		for _, i := range b.Instrs {
			mu, ok := i.(*ssa.MapUpdate)
			if !ok || !strings.HasSuffix(mu.Map.Type().String(), "template.FuncMap") {
				continue
			}
			v := mu.Value
			if mi, ok := v.(*ssa.MakeInterface); ok {
				v = mi.X
			}
			if mc, ok := v.(*ssa.MakeClosure); ok {
				v = mc.Fn
			}
			if v == fn {
				return true
			}
		}
	}
	return false
}

func init() {
	register(&Check{
		Prop:    "C17",
		Explain: "every function that a request can run (handlers, functions and methods templates mention, conversions to text) is interpreted together with what it calls; values loaded from the viewer, the receiver or package variables keep saying where they come from. No store, map update, append, copy, deletion, sort or other known mutator may reach them; only values made during the request may be changed",
		Assume: []string{
			"functions outside the repository change only what their name and package say (package sort, slices, maps, encoding, setters of the pathbuilder)",
			"statistics have their own locking (C03) and are not loaded data; what runs inside sync.Once prepares the viewer",
		},
		Floors: map[string]int{"root": 17, "store": 55, "extend": 4, "call": 50},
		Run: func(c *Ctx) {
			for _, fn := range served(c) {
				c.Ob("root", fname(fn))
				k := &sharedClient{c: c, root: fn, rule: "modified", roots: map[string]bool{}}
				for i, p := range fn.Params {
					switch typeName(p.Type()) {
					case "net/http.ResponseWriter", "*net/http.Request":
						continue
					}
					if fn.Signature.Recv() == nil && fn.Parent() != nil || i == 0 || !isPointerless(p.Type()) {
						k.roots["r:"+p.Name()+";"] = true
					}
				}
				for _, fv := range fn.FreeVars {
					k.roots["fv:"+fv.Name()+";"] = true
				}
				k.run(nil)
			}
		},
	})
}

func isPointerless(t types.Type) bool {
	_, ok := t.Underlying().(*types.Basic)
	return ok
}
