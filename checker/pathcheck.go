package main

// C14: storages on disk stay below the cache directory, in places of their own.
//
// Everything that makes a storage is interpreted with texts kept as the parts they
// are put together from, so that the place of every removal and creation is known.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// diskEffect: which argument of a call names something that is created or removed
func diskEffect(name string) (arg int, kind string) {
	switch name {
	case "os.RemoveAll", "os.Remove":
		return 0, "remove"
	case "os.Create", "os.OpenFile", "os.WriteFile", "os.Mkdir", "os.MkdirAll", "os.CreateTemp", "os.MkdirTemp", "os.Truncate", "os.Rename", "os.Symlink", "os.Link", "os.CopyFS", "io/ioutil.WriteFile":
		return 0, "create"
	case "github.com/syndtr/goleveldb/leveldb.OpenFile", "github.com/syndtr/goleveldb/leveldb.RecoverFile":
		return 0, "open"
	}
	return -1, ""
}

type placeClient struct {
	BaseClient
	c    *Ctx
	root *ssa.Function
	// a place is removed, created or opened
	effect func(e *Engine, s *State, cs *CallSite, kind string, place Val)
	made   func(e *Engine, s *State, mk *ssa.MakeInterface, v Val)
	exit   func(e *Engine, s *State, instr ssa.Instruction, res []Val)
}

func (k *placeClient) Inline(e *Engine, s *State, cs *CallSite, fn *ssa.Function) bool {
	return isRepo(fn) || fn.Synthetic != ""
}

func (k *placeClient) Call(e *Engine, s *State, cs *CallSite) ([]Outcome, bool) {
	name := cs.Name()
	switch name {
	case "encoding/hex.EncodeToString":
		return []Outcome{{Val: opaque("fn:call:" + name + "(" + cs.ResID + ");")}}, true
	case "fmt.Sprintf":
		if f, ok := constStr(cs.Args[0]); ok && (f == "%x" || f == "%X" || f == "%02x") {
			return []Outcome{{Val: opaque("fn:hex(" + cs.ResID + ");")}}, true
		}
	case "path/filepath.Join", "path.Join":
		if parts, ok := e.variadic(s, cs.ArgV[0], cs.Args[0]); ok {
			var out []Val
			for _, p := range parts {
				if t, ok := constStr(p); ok && t == "" {
					continue
				}
				if len(out) > 0 {
					out = append(out, strConst("/"))
				}
				out = append(out, p)
			}
			return []Outcome{{Val: concat(out...)}}, true
		}
	case "path/filepath.Clean", "path.Clean":
		return []Outcome{{Val: cs.Args[0]}}, true
	case "os.Stat", "os.Lstat":
		place := cs.Args[0].String()
		return []Outcome{
			{Val: tuple(opaque("info;"), Val{K: KNil})},
			{Val: tuple(Val{K: KNil}, Val{K: KNonNil, S: "nothing there"}), Apply: func(st *State) { st.D["gone:"+place] = "1" }},
		}, true
	case "os.IsNotExist":
		if x := cs.Args[0]; x.K == KNil || x.K == KNonNil {
			return []Outcome{{Val: boolVal(x.K == KNonNil && x.S == "nothing there")}}, true
		}
	case "errors.Is":
		if x := cs.Args[0]; len(cs.Args) == 2 && (x.K == KNil || x.K == KNonNil) {
			return []Outcome{{Val: boolVal(x.K == KNonNil && x.S == "nothing there")}}, true
		}
	}
	if i, kind := diskEffect(name); kind != "" && i < len(cs.Args) {
		place := cs.Args[i]
		k.effect(e, s, cs, kind, place)
		ok := func(st *State) {
			if kind == "remove" {
				st.D["gone:"+place.String()] = "1"
			}
		}
		n := cs.Sig.Results().Len()
		if n == 1 {
			return []Outcome{{Val: Val{K: KNil}, Apply: ok}, {Val: Val{K: KNonNil, S: "disk"}}}, true
		}
		return []Outcome{{Val: tuple(Val{K: KNonNil, S: "db"}, Val{K: KNil}), Apply: ok}, errOutcome(n)}, true
	}
	return nil, false
}

func (k *placeClient) Instr(e *Engine, s *State, instr ssa.Instruction) bool {
	if mk, ok := instr.(*ssa.MakeInterface); ok && k.made != nil {
		k.made(e, s, mk, e.eval(s, mk.X))
	}
	return true
}

func (k *placeClient) Exit(e *Engine, s *State, kind ExitKind, instr ssa.Instruction, res []Val) {
	if kind == ExitReturn && k.exit != nil {
		k.exit(e, s, instr, res)
	}
}

func (k *placeClient) run(params map[string]Val) {
	e := NewEngine(k.c.W, k)
	e.RootID, e.Params, e.Strings = "r", params, true
	e.Special = neverSet
	e.Run(k.root, nil)
	if e.Over {
		k.c.Bad("undecided", fname(k.root), k.root.Pos(), "too many paths to decide")
	}
}

// placeOf splits a place into what it is below of and the names below that
func placeOf(v Val) (base string, names []string, ok bool) {
	parts := strParts(v)
	if len(parts) == 0 {
		return "", nil, false
	}
	if _, isConst := constStr(parts[0]); isConst {
		return "", nil, false
	}
	base = parts[0].S
	cur, started := "", false
	for _, p := range parts[1:] {
		t, isConst := constStr(p)
		if !isConst {
			if !started {
				return "", nil, false
			}
			cur += "<" + p.S + ">"
			continue
		}
		for i, piece := range strings.Split(t, "/") {
			if i > 0 {
				if started && cur != "" {
					names = append(names, cur)
				}
				cur, started = "", true
			} else if !started && piece != "" {
				// it is next to the directory, not below it
				return "", nil, false
			}
			cur += piece
		}
	}
	if cur != "" {
		names = append(names, cur)
	}
	return base, names, true
}

// safeName: a name that cannot lead anywhere else
func safeName(n string) bool {
	if in, ok := strings.CutPrefix(n, "<"); ok && strings.HasSuffix(in, ">") && !strings.Contains(in, "><") {
		for _, p := range []string{"fn:call:encoding/hex.EncodeToString(", "fn:call:strconv.FormatInt(", "fn:call:strconv.Itoa(", "fn:call:strconv.FormatUint(", "fn:hex("} {
			if strings.HasPrefix(in, p) {
				return true
			}
		}
		return false
	}
	if strings.ContainsAny(n, "<>\\") {
		// fixed text around something encoded
		i, j := strings.Index(n, "<"), strings.LastIndex(n, ">")
		return i >= 0 && j > i && !strings.ContainsAny(n[:i]+n[j+1:], "<>\\") && safeName(n[i:j+1])
	}
	return n != "" && n != "." && n != ".."
}

func fixedName(n string) bool { return !strings.Contains(n, "<") }

type storagePlace struct {
	what  string
	where string
	names []string
}

// apart: neither of two places is the other or within it
func apart(a, b []string) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] == b[i] {
			continue
		}
		if fixedName(a[i]) && fixedName(b[i]) {
			return true
		}
		// a fixed name that no encoded text can look like
		f := a[i]
		if !fixedName(f) {
			f = b[i]
		}
		return fixedName(f) && strings.Trim(f, "0123456789abcdefABCDEF") != ""
	}
	return false
}

func init() {
	register(&Check{
		Prop:    "C14",
		Explain: "every method of every storage engine is interpreted with paths kept as the parts they are put together from; each place that is removed, created or opened must be strictly below the directory of the engine, consist of fixed or encoded names only, be emptied before it is opened, and be apart from the place of every other storage. Engines are made from the cache path: an empty path must give an engine that never touches the disk, and any other path the engine below that path. Nothing else in the program may remove files",
		Assume: []string{
			"machine names of bundles are unique among the children of one parent",
			"filepath.Join of a directory and a fixed or hexadecimal name is an entry of that directory; hashes of package crypto do not collide",
		},
		Floors: map[string]int{"place": 5, "apart": 10, "emptied": 5, "engine": 3, "name": 1, "effect": 4, "same-cache": 1},
		Run:    checkPlaces,
	})
}

func checkPlaces(c *Ctx) {
	visited := map[token.Pos]bool{}
	var all []storagePlace
	type maker struct {
		iface string
		pkg   string
	}
	field := map[string]string{}  // concrete type -> where its directory is kept
	onDisk := map[string]bool{}   // concrete type -> it touches the disk
	isEngine := map[string]bool{} // concrete type -> it is an engine
	perType := map[string][]storagePlace{}
	for _, mk := range []maker{{"Engine", graphPkg}, {"BundleEngine", "sparkl/storages"}} {
		iface := namedIn(c.W, mk.pkg, mk.iface)
		if iface == nil {
			c.BadAt("engine", mk.iface, "internal", "", "no interface %s was found", mk.iface)
			continue
		}
		it := iface.Underlying().(*types.Interface)
		n := 0
		for _, t := range implementers(c.W, it) {
			n++
			name := t.Obj().Pkg().Path() + "." + t.Obj().Name()
			isEngine[name] = true
			for i := 0; i < it.NumMethods(); i++ {
				m := it.Method(i).Name()
				fn := engineMethod(c.W, t, m)
				if fn == nil {
					c.BadAt("engine", t.Obj().Name()+"."+m, "internal", "", "the method has no code that could be analysed")
					continue
				}
				what := t.Obj().Name() + "." + m
				if p, f := storagePlaces(c, fn, what, visited); p != nil {
					onDisk[name] = true
					// promoted methods reach the directory through the part they belong to
					f = fieldChain(t, f)
					if field[name] != "" && field[name] != f {
						c.Bad("place", what, fn.Pos(), "the storages of one engine are below different directories (%s and %s)", field[name], f)
					}
					field[name] = f
					perType[name] = append(perType[name], *p)
				}
			}
		}
		if n < 2 {
			c.BadAt("engine", mk.iface, "internal", "", "fewer than two engines were found for %s", mk.iface)
		}
		all = append(all, madeEngines(c, iface, isEngine, onDisk, field, perType)...)
	}
	sort.Slice(all, func(i, j int) bool { return all[i].what < all[j].what })
	for i, a := range all {
		for _, b := range all[i+1:] {
			c.Ob("apart", a.what+" and "+b.what)
			if !apart(a.names, b.names) {
				c.BadAt("apart", a.what+" and "+b.what, a.where, "", "the storages are kept in the same place (%s and %s), one wipes the other", strings.Join(a.names, "/"), strings.Join(b.names, "/"))
			}
		}
	}
	otherEffects(c, visited)
	sameCache(c)
}

// namedIn finds a type of the repository
func namedIn(w *World, pkgSuffix, name string) *types.Named {
	for _, p := range w.Pkgs {
		if p.Types == nil || !strings.HasSuffix(p.Types.Path(), pkgSuffix) {
			continue
		}
		if o := p.Types.Scope().Lookup(name); o != nil {
			n, _ := types.Unalias(o.Type()).(*types.Named)
			return n
		}
	}
	return nil
}

// implementers are the types of the repository that implement an interface
func implementers(w *World, it *types.Interface) (out []*types.Named) {
	seen := map[*types.Named]bool{}
	for _, p := range w.Pkgs {
		if p.Types == nil || !strings.Contains(p.Types.Path(), "hangover") {
			continue
		}
		for _, name := range p.Types.Scope().Names() {
			tn, ok := p.Types.Scope().Lookup(name).(*types.TypeName)
			if !ok {
				continue
			}
			n, ok := types.Unalias(tn.Type()).(*types.Named)
			if !ok || types.IsInterface(n) || n.TypeParams().Len() > 0 || seen[n] {
				continue
			}
			if types.Implements(n, it) || types.Implements(types.NewPointer(n), it) {
				seen[n] = true
				out = append(out, n)
			}
		}
	}
	return
}

// engineMethod is the code of a method, also of a promoted one
func engineMethod(w *World, t *types.Named, name string) *ssa.Function {
	obj, _, _ := types.LookupFieldOrMethod(types.NewPointer(t), true, t.Obj().Pkg(), name)
	f, ok := obj.(*types.Func)
	if !ok {
		return nil
	}
	for _, fn := range w.Fns {
		if fn.Object() == f && fn.Synthetic == "" && fn.Blocks != nil {
			return fn
		}
	}
	return nil
}

// fieldChain is where the field f (of t or of something embedded in t) is, seen from t
func fieldChain(t *types.Named, f string) string {
	name := f[strings.LastIndex(f, ".")+1:]
	obj, index, _ := types.LookupFieldOrMethod(t, true, t.Obj().Pkg(), name)
	if _, ok := obj.(*types.Var); !ok {
		return f
	}
	out := ""
	var cur types.Type = t
	for _, i := range index {
		if p, ok := cur.Underlying().(*types.Pointer); ok {
			cur = p.Elem()
		}
		st, ok := cur.Underlying().(*types.Struct)
		if !ok {
			return f
		}
		out += "." + st.Field(i).Name()
		cur = st.Field(i).Type()
	}
	return out
}

// storagePlaces follows one method of an engine
func storagePlaces(c *Ctx, fn *ssa.Function, what string, visited map[token.Pos]bool) (place *storagePlace, field string) {
	recv := "r:" + fn.Params[0].Name() + ";"
	opened := false
	k := &placeClient{c: c, root: fn}
	k.effect = func(e *Engine, s *State, cs *CallSite, kind string, v Val) {
		visited[cs.Instr.Pos()] = true
		pos := c.W.pos(cs.Instr.Pos())
		c.ObOnce("place", what+": "+kind)
		base, names, ok := placeOf(v)
		if !ok || !strings.Contains(base, recv) {
			c.BadAt("place", what, pos, e.Trace(s), "what is touched is not below the directory of the engine (%s)", v)
			return
		}
		if len(names) == 0 {
			c.BadAt("place", what, pos, e.Trace(s), "the whole directory of the engine is touched, not a place of its own")
			return
		}
		for _, n := range names {
			if !safeName(n) {
				c.BadAt("place", what, pos, e.Trace(s), "the name %s is not fixed and not encoded, it may lead out of the directory", n)
				return
			}
		}
		f := base[strings.Index(base, recv)+len(recv):]
		p := &storagePlace{what: what, where: pos, names: names}
		if place != nil && strings.Join(place.names, "/") != strings.Join(names, "/") {
			c.BadAt("place", what, pos, e.Trace(s), "another place is touched here (%s) than elsewhere (%s)", strings.Join(names, "/"), strings.Join(place.names, "/"))
			return
		}
		place, field = p, strings.TrimSuffix(f, ";")
		if kind == "open" {
			opened = true
			c.ObOnce("emptied", what)
			if s.D["gone:"+v.String()] == "" {
				c.BadAt("emptied", what, pos, e.Trace(s), "the storage is opened although something may be in its place already")
			}
			for _, n := range names {
				if !fixedName(n) {
					ownName(c, fn, what)
				}
			}
		}
	}
	k.run(nil)
	if place != nil && !opened {
		c.Bad("place", what, fn.Pos(), "files are touched, but no storage is opened")
	}
	if place == nil {
		c.Ob("place", what+": none")
	}
	return
}

// ownName: a name that is made from a bundle is different for every bundle
func ownName(c *Ctx, fn *ssa.Function, what string) {
	c.ObOnce("name", what)
	fns := map[*ssa.Function]bool{}
	var grow func(f *ssa.Function)
	grow = func(f *ssa.Function) {
		if f == nil || fns[f] || f.Blocks == nil || !isRepo(f) {
			return
		}
		fns[f] = true
		for _, a := range f.AnonFuncs {
			grow(a)
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if call, ok := i.(ssa.CallInstruction); ok {
					grow(call.Common().StaticCallee())
				}
			}
		}
	}
	grow(fn)
	parent, machine, moves, counter, ambiguous := false, false, false, false, ""
	weak, strong := "", false
	for f := range fns {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.FieldAddr:
					if n := namedOf(x.X.Type()); n != nil && n.Obj().Name() == "Bundle" && fieldName(x.X.Type(), x.Field) == "Parent" {
						if onward(x) {
							parent = true
						}
						if p := stopsEarly(x); p != token.NoPos {
							c.Bad("name", what, p, "the loop over the parents of a bundle ends before the last of them")
						}
					}
				case *ssa.Slice:
					if n, ok := intConst(x.High); ok && x.High != nil && n < 16 && fromHash(x.X, 0) {
						c.Bad("name", what, x.Pos(), "only %d bytes of the hash are part of the name", n)
					}
				case ssa.CallInstruction:
					callee := x.Common().StaticCallee()
					if callee == nil {
						continue
					}
					name := qualName(callee)
					switch {
					case callee.Name() == "MachineName":
						machine = true
						if len(x.Common().Args) > 0 {
							// a bundle that is always the same is not a parent
							recv := x.Common().Args[0]
							for {
								if ld, ok := recv.(*ssa.UnOp); ok {
									recv = ld.X
								} else if fa, ok := recv.(*ssa.FieldAddr); ok {
									recv = fa.X
								} else {
									break
								}
							}
							_, same := recv.(*ssa.Parameter)
							moves = moves || !same || callsItself(f)
						}
						if p := quoted(x); p != "" {
							ambiguous = p
						}
					case strings.HasPrefix(name, "sync/atomic.Add"), strings.HasPrefix(name, "(*sync/atomic.") && callee.Name() == "Add":
						counter = true
					case strings.HasPrefix(name, "hash/"):
						weak = name
					case strings.HasPrefix(pkgPathOf(callee), "crypto/"):
						strong = true
					}
				}
			}
		}
	}
	switch {
	case counter:
	case !machine:
		c.Bad("name", what, fn.Pos(), "the name does not come from the machine name of the bundle")
	case !parent || !moves:
		c.Bad("name", what, fn.Pos(), "machine names are only unique within the parent bundle, but the parents are not part of the name")
	case ambiguous != "":
		c.Bad("name", what, fn.Pos(), "machine names run together: %s", ambiguous)
	case weak != "" && !strong:
		c.Bad("name", what, fn.Pos(), "the name is made by %s, which different bundles can share", weak)
	}
}

// stopsEarly: the loop that goes to the parent is left although there is one
func stopsEarly(fa *ssa.FieldAddr) token.Pos {
	h := loopOf(fa.Block())
	if h == nil || !onward(fa) {
		return token.NoPos
	}
	phi := false
	for _, i := range h.Instrs {
		if p, ok := i.(*ssa.Phi); ok {
			if n := namedOf(p.Type()); n != nil && n.Obj().Name() == "Bundle" {
				phi = true
			}
		}
	}
	if !phi {
		return token.NoPos
	}
	l := properLoop(h)
	for b := range l {
		br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || l[b.Succs[0]] && l[b.Succs[1]] {
			continue
		}
		good := false
		cond := br.Cond
		for {
			if n, ok := cond.(*ssa.UnOp); ok && n.Op == token.NOT {
				cond = n.X
				continue
			}
			break
		}
		switch x := cond.(type) {
		case *ssa.BinOp:
			for _, o := range []ssa.Value{x.X, x.Y} {
				if k, ok := o.(*ssa.Const); ok && k.IsNil() {
					good = true
				}
			}
		case *ssa.Call:
			good = x.Call.StaticCallee() != nil && x.Call.StaticCallee().Name() == "IsToplevel"
		}
		if !good {
			pos := br.Cond.Pos()
			if pos == token.NoPos {
				pos = fa.Pos()
			}
			return pos
		}
	}
	return token.NoPos
}

// fromHash: the bytes (or their text) are those of a hash
func fromHash(v ssa.Value, depth int) bool {
	if depth > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Call:
		name := x.Call.Method
		if name != nil {
			return name.Name() == "Sum"
		}
		sc := x.Call.StaticCallee()
		if sc == nil {
			return false
		}
		if strings.HasPrefix(pkgPathOf(sc), "crypto/") && strings.HasPrefix(sc.Name(), "Sum") {
			return true
		}
		if strings.HasPrefix(pkgPathOf(sc), "encoding/") || pkgPathOf(sc) == "fmt" {
			for _, a := range x.Call.Args {
				if fromHash(a, depth+1) {
					return true
				}
			}
		}
	case *ssa.Slice:
		return fromHash(x.X, depth+1)
	case *ssa.Convert:
		return fromHash(x.X, depth+1)
	case *ssa.Alloc:
		for _, r := range *x.Referrers() {
			if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(x) && fromHash(st.Val, depth+1) {
				return true
			}
		}
	case *ssa.UnOp:
		return fromHash(x.X, depth+1)
	}
	return false
}

func callsItself(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if call, ok := i.(ssa.CallInstruction); ok && call.Common().StaticCallee() == fn {
				return true
			}
		}
	}
	return false
}

// onward: the parent is what is looked at next
func onward(fa *ssa.FieldAddr) bool {
	for _, r := range *fa.Referrers() {
		ld, ok := r.(*ssa.UnOp)
		if !ok || ld.Op != token.MUL || ld.Referrers() == nil {
			continue
		}
		for _, u := range *ld.Referrers() {
			switch x := u.(type) {
			case *ssa.Phi, *ssa.Store:
				return true
			case ssa.CallInstruction:
				if x.Common().StaticCallee() != nil && isRepo(x.Common().StaticCallee()) {
					return true
				}
			}
		}
	}
	return false
}

// quoted: the result of a call is written such that its end can be told
func quoted(call ssa.CallInstruction) string {
	v, ok := call.(ssa.Value)
	if !ok || v.Referrers() == nil {
		return ""
	}
	seen := map[ssa.Value]bool{}
	var follow func(v ssa.Value) string
	follow = func(v ssa.Value) string {
		if seen[v] || v.Referrers() == nil {
			return ""
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.MakeInterface:
				if p := follow(x); p != "" {
					return p
				}
			case *ssa.Convert:
				if p := follow(x); p != "" {
					return p
				}
			case *ssa.ChangeType:
				if p := follow(x); p != "" {
					return p
				}
			case *ssa.BinOp:
				if x.Op == token.ADD {
					return "they are put together without quoting"
				}
			case *ssa.Store:
				// an element of a list of arguments
				ia, ok := x.Addr.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				idx, ok := ia.Index.(*ssa.Const)
				if !ok {
					continue
				}
				n, _ := constant.Int64Val(idx.Value)
				for _, u := range *ia.X.Referrers() {
					sl, ok := u.(*ssa.Slice)
					if !ok {
						continue
					}
					for _, w := range *sl.Referrers() {
						fc, ok := w.(ssa.CallInstruction)
						if !ok || fc.Common().StaticCallee() == nil || pkgPathOf(fc.Common().StaticCallee()) != "fmt" {
							continue
						}
						format := ""
						for _, a := range fc.Common().Args {
							if cc, ok := a.(*ssa.Const); ok && isString(cc.Type()) && cc.Value != nil {
								format = constant.StringVal(cc.Value)
							}
						}
						if verb := verbAt(format, int(n)); verb != 'q' && verb != 'x' && verb != 'X' {
							return fmt.Sprintf("they are written by %q", format)
						}
					}
				}
			case ssa.CallInstruction:
				callee := x.Common().StaticCallee()
				name := ""
				if callee != nil {
					name = callee.Name()
				} else if x.Common().IsInvoke() {
					name = x.Common().Method.Name()
				}
				if strings.HasPrefix(name, "Write") {
					return "they are written without quoting"
				}
			}
		}
		return ""
	}
	return follow(v)
}

// verbAt is the verb that prints the n-th argument
func verbAt(format string, n int) byte {
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		i++
		for i < len(format) && strings.IndexByte("+-# 0123456789.", format[i]) >= 0 {
			i++
		}
		if i >= len(format) || format[i] == '%' {
			continue
		}
		if n == 0 {
			return format[i]
		}
		n--
	}
	return 0
}

// madeEngines: which engine a path gives
func madeEngines(c *Ctx, iface *types.Named, isEngine, onDisk map[string]bool, field map[string]string, perType map[string][]storagePlace) (all []storagePlace) {
	n := 0
	for _, fn := range c.W.Fns {
		if !isRepo(fn) || fn.Blocks == nil || fn.Parent() != nil || fn.Synthetic != "" || fn.Signature.Results().Len() < 1 {
			continue
		}
		if rt, ok := types.Unalias(fn.Signature.Results().At(0).Type()).(*types.Named); !ok || rt != iface || len(fn.Params) != 1 || !isString(fn.Params[0].Type()) {
			continue
		}
		n++
		place := "r:" + fn.Params[0].Name() + ";"
		for _, empty := range []bool{true, false} {
			what := fname(fn) + " of a path"
			val := opaque(place)
			params := map[string]Val{}
			if empty {
				what = fname(fn) + " of the empty path"
				params[fn.Params[0].Name()] = strConst("")
			}
			k := &placeClient{c: c, root: fn}
			k.effect = func(e *Engine, s *State, cs *CallSite, kind string, v Val) {
				c.BadAt("engine", what, c.W.pos(cs.Instr.Pos()), e.Trace(s), "making an engine already touches the disk")
			}
			k.made = func(e *Engine, s *State, mk *ssa.MakeInterface, v Val) {
				t := namedOf(mk.X.Type())
				if t == nil || t.Obj().Pkg() == nil {
					return
				}
				name := t.Obj().Pkg().Path() + "." + t.Obj().Name()
				if !isEngine[name] {
					return
				}
				s.D["made"] = name
				s.D["place"] = ""
				if f := field[name]; f != "" {
					base := v.S
					if k, ok := e.addr(s, v); ok && v.K == KPtr {
						base = k
					}
					if x, known := e.load(s, base+f, types.Typ[types.String]); known || x.S != "" {
						s.D["place"] = "?"
						if x.S == val.S {
							s.D["place"] = "/"
						} else if b, names, ok := placeOf(x); ok && b == val.S {
							s.D["place"] = "/" + strings.Join(names, "/")
							for _, n := range names {
								if !safeName(n) || !fixedName(n) {
									s.D["place"] = "?"
								}
							}
						}
					}
				}
			}
			k.exit = func(e *Engine, s *State, instr ssa.Instruction, res []Val) {
				c.ObOnce("engine", what+": "+shortName(s.D["made"]))
				pos := c.W.pos(instr.Pos())
				t := s.D["made"]
				isEmpty := empty || s.facts[val.S+"==\"\""] == "t"
				for f, v := range s.facts {
					if strings.Contains(f, val.S) && strings.Contains(f, `""`) && v == "t" {
						isEmpty = true
					}
				}
				switch {
				case t == "":
					if len(res) < 2 || s.isNil(res[len(res)-1]) != 0 {
						c.BadAt("engine", what, pos, e.Trace(s), "it cannot be told which engine this gives")
					}
				case isEmpty && onDisk[t]:
					c.BadAt("engine", what, pos, e.Trace(s), "without a path this gives an engine that writes to disk")
				case !isEmpty && !onDisk[t]:
					c.BadAt("engine", what, pos, e.Trace(s), "with a path this gives an engine that does not use it")
				case !isEmpty:
					dir, ok := strings.CutPrefix(s.D["place"], "/")
					if !ok {
						c.BadAt("engine", what, pos, e.Trace(s), "the directory of the engine is not (below) the path")
						return
					}
					for _, p := range perType[t] {
						q := p
						if dir != "" {
							q.names = append(strings.Split(dir, "/"), p.names...)
						}
						dup := false
						for _, o := range all {
							dup = dup || o.what == q.what && strings.Join(o.names, "/") == strings.Join(q.names, "/")
						}
						if !dup {
							all = append(all, q)
						}
					}
				}
			}
			k.run(params)
		}
	}
	if n == 0 {
		c.BadAt("engine", iface.Obj().Name(), "internal", "", "nothing makes an engine from a path")
	}
	return all
}

func shortName(s string) string { return s[strings.LastIndex(s, "/")+1:] }

// otherEffects: nothing else removes files, and storages touch no other files
func otherEffects(c *Ctx, visited map[token.Pos]bool) {
	for _, fn := range c.W.Fns {
		if !isRepo(fn) || fn.Blocks == nil {
			continue
		}
		data := strings.Contains(fnPkg(fn), "internal/triplestore") || strings.Contains(fnPkg(fn), "sparkl/storages")
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				call, ok := i.(ssa.CallInstruction)
				if !ok || call.Common().StaticCallee() == nil {
					continue
				}
				name := qualName(call.Common().StaticCallee())
				_, kind := diskEffect(name)
				if kind == "" {
					continue
				}
				c.Ob("effect", fname(fn)+" "+name)
				if visited[i.Pos()] {
					continue
				}
				gone := kind == "remove" || name == "os.Rename" || name == "os.Truncate" || strings.HasSuffix(name, "Temp")
				switch {
				case gone:
					c.Bad("effect", fname(fn), i.Pos(), "files are changed by %s outside of the storages in the cache directory", name)
				case data:
					c.Bad("effect", fname(fn), i.Pos(), "a storage touches the disk by %s outside of making it", name)
				case kind == "open":
					c.Bad("effect", fname(fn), i.Pos(), "a database is opened outside of the cache directory")
				}
			}
		}
	}
}

// sameCache: all engines that are made together are given the same path
func sameCache(c *Ctx) {
	for _, fn := range c.W.Fns {
		if !isRepo(fn) || fn.Blocks == nil {
			continue
		}
		var first ssa.Value
		var ifaces []string
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				call, ok := i.(*ssa.Call)
				if !ok || call.Call.StaticCallee() == nil || len(call.Call.Args) != 1 || !isRepo(call.Call.StaticCallee()) {
					continue
				}
				rt, ok := types.Unalias(call.Type()).(*types.Named)
				if !ok || rt.Obj().Name() != "Engine" && rt.Obj().Name() != "BundleEngine" || !isString(call.Call.Args[0].Type()) {
					continue
				}
				c.Ob("same-cache", fname(fn)+" "+rt.Obj().Name())
				ifaces = append(ifaces, rt.Obj().Name())
				a := call.Call.Args[0]
				if first == nil {
					first = a
				} else if !sameSource(first, a) {
					c.Bad("same-cache", fname(fn), i.Pos(), "the engines are not given the same path")
				}
			}
		}
	}
}

func sameSource(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	if ok1 && ok2 && x.Op == token.MUL && y.Op == token.MUL {
		if x.X == y.X {
			return true
		}
		f, ok1 := x.X.(*ssa.FieldAddr)
		g, ok2 := y.X.(*ssa.FieldAddr)
		return ok1 && ok2 && f.Field == g.Field && sameSource(f.X, g.X)
	}
	p, ok1 := a.(*ssa.Const)
	q, ok2 := b.(*ssa.Const)
	return ok1 && ok2 && p.Value != nil && q.Value != nil && constant.Compare(p.Value, token.EQL, q.Value)
}
