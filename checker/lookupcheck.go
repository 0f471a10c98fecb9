package main

// C30: what was extracted can be found again.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// roles says where values come from, as terms over the arguments of a function and the fields of a type
type roles struct {
	w     *World
	self  *types.Named
	busy  map[ssa.Value]bool
	binds map[*ssa.Parameter]string
	depth int
}

// entityField: what a field of the cache is for, judged by its type
func entityField(t types.Type) string {
	strip := func(t types.Type) string {
		if n := namedOf(t); n != nil {
			return n.Obj().Name()
		}
		return t.String()
	}
	switch x := t.Underlying().(type) {
	case *types.Map:
		k := strip(x.Key())
		switch e := x.Elem().Underlying().(type) {
		case *types.Slice:
			if k == "string" && strip(e.Elem()) == "Entity" {
				return "entities"
			}
			if k == "ID" && strip(e.Elem()) == "ID" {
				return "aliases"
			}
		case *types.Map:
			if b, ok := e.Elem().Underlying().(*types.Basic); ok && k == "string" && strip(e.Key()) == "ID" && b.Info()&types.IsInteger != 0 {
				return "places"
			}
		default:
			if k == "ID" && strip(x.Elem()) == "string" {
				return "bundles"
			}
			if k == "ID" && strip(x.Elem()) == "ID" {
				return "same"
			}
		}
	case *types.Slice:
		if strip(x.Elem()) == "string" {
			return "names"
		}
	}
	return ""
}

func alts(list []string) string {
	m := map[string]bool{}
	for _, l := range list {
		for _, p := range splitTop(l) {
			if p != "" {
				m[p] = true
			}
		}
	}
	return strings.Join(sortedKeys(m), "|")
}

func (r *roles) of(v ssa.Value) string {
	if v == nil {
		return ""
	}
	if r.busy[v] || r.depth > 40 {
		return ""
	}
	r.busy[v] = true
	r.depth++
	defer func() { delete(r.busy, v); r.depth-- }()
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return "none"
		}
		return "const(" + x.Value.String() + ")"
	case *ssa.Parameter:
		return r.param(x)
	case *ssa.FreeVar:
		for i, fv := range x.Parent().FreeVars {
			if fv != x {
				continue
			}
			for _, site := range madeAt(x.Parent()) {
				return r.of(site.Bindings[i])
			}
		}
	case *ssa.Alloc:
		// the struct or variable itself
		if n := namedOf(x.Type().Underlying().(*types.Pointer).Elem()); n != nil && n == r.self {
			return "self"
		}
		var list []string
		for _, ref := range *x.Referrers() {
			if st, ok := ref.(*ssa.Store); ok && st.Addr == ssa.Value(x) {
				list = append(list, r.of(st.Val))
			}
		}
		for _, fn := range x.Parent().AnonFuncs {
			for i, fv := range fn.FreeVars {
				for _, site := range madeAt(fn) {
					if site.Bindings[i] == ssa.Value(x) {
						for _, ref := range *fv.Referrers() {
							if st, ok := ref.(*ssa.Store); ok && st.Addr == ssa.Value(fv) {
								list = append(list, r.of(st.Val))
							}
						}
					}
				}
			}
		}
		return alts(list)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return r.of(x.X)
		}
	case *ssa.FieldAddr:
		return r.field(x.X, x.Field, r.of(x.X))
	case *ssa.Field:
		return r.field(x.X, x.Field, r.of(x.X))
	case *ssa.IndexAddr:
		return "elem(" + r.of(x.X) + "," + r.index(x.Index) + ")"
	case *ssa.Index:
		return "elem(" + r.of(x.X) + "," + r.index(x.Index) + ")"
	case *ssa.ChangeType:
		return r.of(x.X)
	case *ssa.Convert:
		return r.of(x.X)
	case *ssa.MakeInterface:
		return r.of(x.X)
	case *ssa.Lookup:
		return "at(" + r.of(x.X) + "," + r.of(x.Index) + ")"
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Lookup:
			if x.Index == 0 {
				return r.of(t)
			}
			return "found(" + r.of(t) + ")"
		case *ssa.Next:
			if rg, ok := t.Iter.(*ssa.Range); ok {
				if x.Index == 1 {
					return "key(" + r.of(rg.X) + ")"
				}
				if x.Index == 2 {
					m := r.of(rg.X)
					return "at(" + m + ",key(" + m + "))"
				}
			}
		case *ssa.Call:
			return r.call(t, x.Index)
		}
	case *ssa.Call:
		return r.call(x, 0)
	case *ssa.Slice:
		if x.Low == nil && x.High == nil {
			return r.of(x.X)
		}
		if n, ok := intConst(x.High); ok && x.High != nil && n == 0 {
			return "empty"
		}
		return "part(" + r.of(x.X) + ")"
	case *ssa.MakeMap:
		// where it is kept
		return r.kept(x)
	case *ssa.MakeSlice:
		if n, ok := intConst(x.Len); ok && n == 0 {
			return "empty"
		}
		return "made"
	case *ssa.Phi:
		if isIndex(x) {
			return r.index(x)
		}
		var list []string
		for _, e := range x.Edges {
			list = append(list, r.of(e))
		}
		return alts(list)
	case *ssa.BinOp:
		if p, ok := x.X.(*ssa.Phi); ok && x.Op == token.ADD && isIndex(p) {
			return r.index(x)
		}
	}
	return "?"
}

// kept: a map is called after the field or map that holds it
func (r *roles) kept(v ssa.Value) string {
	var list []string
	if v.Referrers() == nil {
		return "?"
	}
	for _, ref := range *v.Referrers() {
		switch y := ref.(type) {
		case *ssa.MapUpdate:
			if y.Value == v {
				list = append(list, "at("+r.of(y.Map)+","+r.of(y.Key)+")")
			}
		case *ssa.Store:
			if fa, ok := y.Addr.(*ssa.FieldAddr); ok && y.Val == v {
				if f := entityField(fieldType(fa)); f != "" {
					list = append(list, f)
				}
			}
		}
	}
	if len(list) == 0 {
		return "new"
	}
	return alts(list)
}

func fieldType(fa *ssa.FieldAddr) types.Type {
	return fa.Type().Underlying().(*types.Pointer).Elem()
}

func isIndex(p *ssa.Phi) bool {
	b, ok := p.Type().Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return false
	}
	for _, e := range p.Edges {
		if bo, ok := e.(*ssa.BinOp); ok && bo.Op == token.ADD && bo.X == ssa.Value(p) {
			return true
		}
	}
	return false
}

// index: loop variables are themselves
func (r *roles) index(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Phi:
		if isIndex(x) {
			return fmt.Sprintf("i@%s", r.w.pos(x.Parent().Pos())+x.Name())
		}
	case *ssa.BinOp:
		if p, ok := x.X.(*ssa.Phi); ok && x.Op == token.ADD && isIndex(p) {
			// the counter of a range starts before the first element
			for _, e := range p.Edges {
				if n, ok := intConst(e); ok && n == -1 {
					return fmt.Sprintf("i@%s", r.w.pos(p.Parent().Pos())+p.Name())
				}
			}
			return "?"
		}
	}
	return r.of(v)
}

func (r *roles) field(x ssa.Value, i int, of string) string {
	t := x.Type()
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return "?"
	}
	n := namedOf(t)
	switch {
	case n != nil && n == r.self:
		if f := entityField(st.Field(i).Type()); f != "" {
			return f
		}
		return "self." + st.Field(i).Name()
	case n != nil && n.Obj().Name() == "TripleID":
		switch st.Field(i).Name() {
		case "Canonical", "Literal":
			// the cache declares no names identical in its own map
			return "id(" + of + ")"
		}
	case st.Field(i).Name() == "URI":
		return "uri(" + of + ")"
	}
	return of + "." + st.Field(i).Name()
}

func madeAt(fn *ssa.Function) (out []*ssa.MakeClosure) {
	if fn.Parent() == nil {
		return nil
	}
	for _, b := range fn.Parent().Blocks {
		for _, i := range b.Instrs {
			if mc, ok := i.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(fn) {
				out = append(out, mc)
			}
		}
	}
	return
}

func (r *roles) param(p *ssa.Parameter) string {
	if b, ok := r.binds[p]; ok {
		return b
	}
	fn := p.Parent()
	at := 0
	for i, q := range fn.Params {
		if q == p {
			at = i
		}
	}
	if n := namedOf(p.Type()); n != nil && n == r.self && at == 0 {
		return "self"
	}
	// what is kept in a field from the beginning is that field
	if p.Referrers() != nil {
		for _, ref := range *p.Referrers() {
			if st, ok := ref.(*ssa.Store); ok && st.Val == ssa.Value(p) {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && namedOf(fa.X.Type()) == r.self && r.self != nil {
					if f := entityField(fieldType(fa)); f != "" {
						return f
					}
				}
			}
		}
	}
	if fn.Parent() != nil {
		// a callback
		for _, mc := range madeAt(fn) {
			for _, ref := range *mc.Referrers() {
				if call, ok := ref.(ssa.CallInstruction); ok {
					if call.Common().Value == ssa.Value(mc) {
						return r.of(call.Common().Args[at])
					}
					name := ""
					if call.Common().IsInvoke() {
						name = call.Common().Method.Name()
					} else if sc := call.Common().StaticCallee(); sc != nil {
						name = sc.Name()
					}
					if name == "Iterate" {
						return []string{"alias", "canon", "?"}[min(at, 2)]
					}
				}
			}
			// a local function that is called
			if st := callsOfClosure(mc); len(st) > 0 {
				var list []string
				for _, c := range st {
					list = append(list, r.of(c.Common().Args[at]))
				}
				return alts(list)
			}
		}
		return "?"
	}
	if !token.IsExported(fn.Name()) {
		var list []string
		for _, call := range allCallers(r.w, fn) {
			if at < len(call.Common().Args) {
				list = append(list, r.of(call.Common().Args[at]))
			}
		}
		if len(list) > 0 {
			return alts(list)
		}
	}
	return fmt.Sprintf("arg%d", at)
}

func callsOfClosure(mc *ssa.MakeClosure) (out []ssa.CallInstruction) {
	for _, ref := range *mc.Referrers() {
		st, ok := ref.(*ssa.Store)
		if !ok {
			continue
		}
		if al, ok := st.Addr.(*ssa.Alloc); ok {
			for _, ref := range *al.Referrers() {
				if ld, ok := ref.(*ssa.UnOp); ok {
					for _, u := range *ld.Referrers() {
						if call, ok := u.(ssa.CallInstruction); ok && call.Common().Value == ssa.Value(ld) {
							out = append(out, call)
						}
					}
				}
			}
		}
	}
	return
}

func (r *roles) call(x *ssa.Call, res int) string {
	com := x.Common()
	if b, ok := com.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			if len(com.Args) == 2 {
				base := r.of(com.Args[0])
				var more []string
				if vals := packed(com.Args[1]); vals != nil {
					for _, v := range vals {
						more = append(more, r.of(v))
					}
					return "list(" + base + "+" + alts(more) + ")"
				}
				return "list(" + base + "+all(" + r.of(com.Args[1]) + "))"
			}
		case "len":
			return "len(" + r.of(com.Args[0]) + ")"
		case "min", "max":
			return "?"
		}
		return "?"
	}
	sc := com.StaticCallee()
	if sc == nil {
		return "?"
	}
	if rn := recvNamed(sc); rn != nil && rn.Obj().Name() == "IMap" && len(com.Args) > 1 {
		arg := r.of(com.Args[1])
		switch {
		case res > 0:
			return "failed"
		case sc.Name() == "Add" || sc.Name() == "Get" || sc.Name() == "AddNew":
			return arg
		case sc.Name() == "Forward":
			return "id(" + arg + ")"
		case sc.Name() == "Reverse":
			return "name(" + arg + ")"
		}
	}
	name := qualName(sc)
	if o := sc.Origin(); o != nil {
		name = qualName(o)
	}
	switch {
	case strings.HasSuffix(name, "exp/maps.Keys"), name == "maps.Keys":
		return "keys(" + r.of(com.Args[0]) + ")"
	case name == "slices.Collect", name == "slices.Sorted", strings.HasSuffix(name, "slices.Clone"):
		return r.of(com.Args[0])
	case sc.Name() == "MachineName" && len(com.Args) > 0:
		return "machine(" + strings.TrimSuffix(r.of(com.Args[0]), ".Path") + ")"
	case sc.Name() == "Join" && isErrorType(x.Type()):
		return "failed"
	}
	if isRepo(sc) && sc.Blocks != nil && r.depth < 20 {
		old := r.binds
		nb := map[*ssa.Parameter]string{}
		for i, p := range sc.Params {
			if i < len(com.Args) {
				nb[p] = r.of(com.Args[i])
			}
		}
		r.binds = nb
		var list []string
		for _, ret := range returnsOf(sc) {
			if res < len(ret.Results) {
				list = append(list, r.of(ret.Results[res]))
			}
		}
		r.binds = old
		return alts(list)
	}
	return "?"
}

func returnsOf(fn *ssa.Function) (out []*ssa.Return) {
	for _, b := range fn.Blocks {
		if b == fn.Recover {
			continue
		}
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			out = append(out, ret)
		}
	}
	return
}

func dropNone(t string) string {
	var out []string
	for _, p := range splitTop(t) {
		if p != "none" && p != "" && p != "empty" && !strings.HasPrefix(p, "const(") && p != "made" {
			out = append(out, p)
		}
	}
	sort.Strings(out)
	return strings.Join(out, "|")
}

func checkC30(c *Ctx) {
	self := (*types.Named)(nil)
	for _, fn := range c.W.Fns {
		n := recvNamed(fn)
		if n == nil || !isRepo(fn) {
			continue
		}
		st, ok := n.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		has := map[string]bool{}
		for i := 0; i < st.NumFields(); i++ {
			has[entityField(st.Field(i).Type())] = true
		}
		if has["places"] && has["entities"] && has["bundles"] {
			self = n
		}
	}
	if self == nil {
		c.BadAt("floor", "cache", "-", "", "no type keeps the extracted entities")
		return
	}
	r := &roles{w: c.W, self: self, busy: map[ssa.Value]bool{}}
	c.Ob("cache", self.Obj().Name())

	// how it is filled
	seen := map[string]int{}
	for _, fn := range c.W.Fns {
		if !isRepo(fn) || fnPkg(outermost(fn)) != self.Obj().Pkg().Path() {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.MapUpdate:
					m, k, v := r.of(x.Map), r.of(x.Key), r.of(x.Value)
					what := ""
					good := false
					switch {
					case m == "at(places,key(entities))":
						what = "places"
						if id, idx, ok := entityID(k); ok {
							good = id == "key(entities)" && v == idx
						}
					case m == "bundles":
						what = "bundles"
						if id, _, ok := entityID(k); ok {
							good = v == id
						}
					case m == "same":
						what = "same"
						good = k == "id(alias)" && v == "id(canon)"
					case m == "aliases":
						what = "aliases"
						good = k == "id(canon)" && v == "list(at(aliases,id(canon))+id(alias))"
					case m == "places":
						continue // the map of a bundle
					case m == "entities":
						c.Bad("filled", fname(fn), i.Pos(), "the entities of a bundle are changed while they are looked at")
						continue
					case strings.HasPrefix(m, "at(places,"):
						what = "places"
					default:
						continue
					}
					seen[what]++
					c.Ob("filled", fmt.Sprintf("%s at %s: %s -> %s", what, c.W.pos(i.Pos()), k, v))
					if !good {
						c.Bad("filled", fname(fn), i.Pos(), "%s", map[string]string{
							"places":  "the place of an entity is not entered under its own bundle and name with its own number",
							"bundles": "the bundle of an entity is not the one it is listed in",
							"same":    "a name is not entered with the name it is identical to",
							"aliases": "a name is not added to the other names of the name it is identical to",
						}[what])
					}
					if why := alwaysBy(i, r.known(what)); why != "" {
						c.Bad("filled", fname(fn), i.Pos(), "not everything is entered (%s): %s", what, why)
					}
					if brokenOff(b) {
						c.Bad("filled", fname(fn), i.Pos(), "not everything is entered (%s): the loop ends before everything was seen", what)
					}
				case *ssa.Store:
					fa, ok := x.Addr.(*ssa.FieldAddr)
					if !ok || namedOf(fa.X.Type()) != self || entityField(fieldType(fa)) != "names" {
						continue
					}
					v := dropNone(r.of(x.Val))
					if v == "" {
						continue
					}
					seen["names"]++
					c.Ob("filled", fmt.Sprintf("names at %s: %s", c.W.pos(i.Pos()), v))
					if v != "keys(entities)" && v != "list(names+key(entities))" && v != "list(+key(entities))" && !strings.HasSuffix(v, "+key(entities))") {
						c.Bad("filled", fname(fn), i.Pos(), "the names of the bundles are not those of the entities")
					}
				}
			}
		}
	}
	for _, what := range []string{"places", "bundles", "same", "aliases", "names"} {
		c.Ob("entered", what)
		if seen[what] == 0 {
			c.BadAt("entered", what, "-", "", "nothing is ever entered into the %s of the cache", what)
		}
	}

	r.outputs(c)
	r.lists(c)

	// what it answers
	for _, fn := range c.W.Fns {
		if recvNamed(fn) != self || fn.Synthetic != "" || fn.Blocks == nil || !token.IsExported(fn.Name()) {
			continue
		}
		sig := fn.Signature
		if sig.Results().Len() == 0 {
			continue
		}
		// which argument is what
		uri, bundle := "", ""
		for i := 0; i < sig.Params().Len(); i++ {
			t := sig.Params().At(i).Type()
			if n := namedOf(t); n != nil && n.Obj().Name() == "Label" {
				uri = fmt.Sprintf("arg%d", i+1)
			} else if b, ok := t.(*types.Basic); ok && b.Kind() == types.String {
				bundle = fmt.Sprintf("arg%d", i+1)
			}
		}
		key := func(name string) string { return "at(same,id(" + name + "))|id(" + name + ")" }
		at := func(m, k string) string { return "at(" + m + "," + k + ")" }
		want := ""
		res := sig.Results().At(0).Type()
		what := ""
		switch t := res.Underlying().(type) {
		case *types.Pointer:
			if n := namedOf(t.Elem()); n != nil && n.Obj().Name() == "Entity" && uri != "" && bundle != "" {
				what, want = "an entity", "elem("+at("entities", bundle)+","+at(at("places", bundle), key(uri))+")"
			}
		case *types.Basic:
			n := namedOf(res)
			switch {
			case n != nil && n.Obj().Name() == "Label" && uri != "" && sig.Params().Len() == 1 && sig.Results().Len() == 1 && !sig.Variadic():
				what, want = "the name that remains", "name("+key(uri)+")"
			case n == nil && t.Kind() == types.String && uri != "" && !sig.Variadic():
				what, want = "the bundle of an entity", at("bundles", key(uri))
			}
		case *types.Slice:
			n := namedOf(t.Elem())
			switch {
			case n != nil && n.Obj().Name() == "Entity" && bundle != "" && uri == "":
				what, want = "the entities of a bundle", at("entities", bundle)
			case n == nil && sig.Params().Len() == 0:
				what, want = "the names of the bundles", "names"
			case n != nil && n.Obj().Name() == "Label" && uri != "":
				what, want = "the other names", "name(elem("+at("aliases", "id("+uri+")")+",i))"
			}
		}
		if what == "" {
			continue
		}
		var got []string
		for _, ret := range returnsOf(fn) {
			got = append(got, r.of(ret.Results[0]))
		}
		g := answered(alts(got), want)
		c.Ob("answer", fmt.Sprintf("%s of %s: %s", what, fname(fn), g))
		if g != want {
			c.Bad("answer", fname(fn), fn.Pos(), "%s is not looked up as it was entered: %s instead of %s", what, g, want)
		}
	}
}

// answered: the term that is answered when something is found
func answered(got, want string) string {
	parts := splitTop(got)
	var keep []string
	for _, p := range parts {
		if p == "none" || p == "empty" || p == "made" || p == "" || strings.HasPrefix(p, "const(") {
			continue
		}
		// lists that grow
		for strings.HasPrefix(p, "list(") {
			_, p, _ = strings.Cut(strings.TrimSuffix(strings.TrimPrefix(p, "list("), ")"), "+")
		}
		keep = append(keep, indexName(p))
	}
	return union2(keep)
}

func union2(l []string) string {
	m := map[string]bool{}
	for _, x := range l {
		m[x] = true
	}
	return strings.Join(sortedKeys(m), "|")
}

// indexName: which loop it is does not matter
func indexName(t string) string {
	for {
		i := strings.Index(t, "i@")
		if i < 0 {
			return t
		}
		j := i
		for j < len(t) && t[j] != ')' && t[j] != ',' && t[j] != '|' {
			j++
		}
		t = t[:i] + "i" + t[j:]
	}
}

// splitTop splits the alternatives of a term
func splitTop(t string) (out []string) {
	depth, from := 0, 0
	for i := 0; i < len(t); i++ {
		switch t[i] {
		case '(':
			depth++
		case ')':
			depth--
		case '|':
			if depth == 0 {
				out = append(out, t[from:i])
				from = i + 1
			}
		}
	}
	return append(out, t[from:])
}

// entityID: the identifier of an entity of the list of a bundle, with its number
func entityID(k string) (bundle, index string, ok bool) {
	t, ok := strings.CutPrefix(k, "id(uri(elem(at(entities,")
	if !ok {
		return
	}
	t, ok = strings.CutSuffix(t, ")))")
	if !ok {
		return
	}
	bundle, index, ok = strings.Cut(t, "),")
	bundle += ""
	return strings.TrimSuffix(bundle, ""), index, ok
}

func init() {
	register(&Check{
		Prop:    "C30",
		Explain: "Every value that is entered into a map of the cache, and every value its methods answer with, is traced back (over SSA, through helpers, callbacks and variables) to a term over the arguments, the fields of the cache and the loops it is in. What is entered must have the form that makes lookups find it: the place of an entity under its bundle and shared identifier, with the number it has in that list, its bundle under the same identifier, every name under the name it is identical to and the other way round, on every way through the loops on which nothing fails or is empty; and every lookup must ask for exactly what was entered. The output that collects the entities starts with an empty list per bundle and appends every entity as it is, and the viewer lists the addresses of all entities of a bundle.",
		Assume:  []string{"the identity map gives every name one identifier (C27) and reads it back", "an iteration over the identities gives a name first and the name it is identical to second"},
		Floors:  map[string]int{"cache": 1, "filled": 5, "answer": 6, "entered": 5, "collected": 2, "listed": 1},
		Run:     checkC30,
	})
}

// known: what may be left out when something is entered
func (r *roles) known(what string) func(*ssa.BasicBlock) *ssa.BasicBlock {
	return func(b *ssa.BasicBlock) *ssa.BasicBlock {
		if what == "bundles" {
			// an entity that has a bundle may keep it
			if br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
				if ex, ok := br.Cond.(*ssa.Extract); ok && ex.Index == 1 {
					if lk, ok := ex.Tuple.(*ssa.Lookup); ok && r.of(lk.X) == "bundles" {
						return b.Succs[0]
					}
				}
			}
		}
		return noChildren(b)
	}
}

// outputs: what collects the entities of a bundle keeps them all
func (r *roles) outputs(c *Ctx) {
	for _, fn := range c.W.Fns {
		n := recvNamed(fn)
		if n == nil || !isRepo(fn) || fn.Parent() != nil || fn.Synthetic != "" || sqlOutput(n) || fn.Blocks == nil {
			continue
		}
		if fn.Name() != "Begin" && fn.Name() != "Add" {
			continue
		}
		st, ok := n.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		keeps := false
		for i := 0; i < st.NumFields(); i++ {
			keeps = keeps || entityField(st.Field(i).Type()) == "entities"
		}
		if !keeps {
			continue
		}
		q := &roles{w: c.W, self: n, busy: map[ssa.Value]bool{}}
		c.Ob("collected", fname(fn))
		count := 0
		for f := range sqlReach(c.W, fn) {
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					x, ok := i.(*ssa.MapUpdate)
					if !ok || q.of(x.Map) != "entities" {
						continue
					}
					if f != fn && f.Parent() != fn {
						// in a helper, which the roles of its callers decide
						if token.IsExported(f.Name()) {
							continue
						}
					}
					count++
					k, v := q.of(x.Key), q.of(x.Value)
					if k != "machine(arg1)" {
						c.Bad("collected", fname(f), i.Pos(), "entities are kept under %s instead of the machine name of their bundle", k)
					}
					switch fn.Name() {
					case "Begin":
						if v != "empty" && v != "none" {
							c.Bad("collected", fname(f), i.Pos(), "a bundle does not begin with an empty list of entities")
						}
					case "Add":
						if v != "list(at(entities,"+k+")+arg2)" {
							c.Bad("collected", fname(f), i.Pos(), "an entity is not added as it is to those of its bundle (%s)", v)
						}
						if why := alwaysBy(i, func(*ssa.BasicBlock) *ssa.BasicBlock { return nil }); why != "" {
							c.Bad("collected", fname(f), i.Pos(), "not every entity is kept: %s", why)
						}
					}
				}
			}
		}
		if count == 0 {
			c.Bad("collected", fname(fn), fn.Pos(), "nothing is kept")
		}
	}
}

// lists: lists of addresses are those of all entities
func (r *roles) lists(c *Ctx) {
	for _, fn := range c.W.Fns {
		if !isRepo(fn) || fn.Blocks == nil || !strings.HasSuffix(fnPkg(outermost(fn)), "internal/viewer") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				var v ssa.Value
				idx := ""
				switch x := i.(type) {
				case *ssa.Store:
					ia, ok := x.Addr.(*ssa.IndexAddr)
					if !ok {
						continue
					}
					if n := namedOf(x.Val.Type()); n == nil || n.Obj().Name() != "Label" {
						continue
					}
					if _, isSl := ia.X.Type().Underlying().(*types.Slice); !isSl {
						continue
					}
					v, idx = x.Val, r.index(ia.Index)
				case *ssa.Call:
					if !isBuiltin(x, "append") || len(x.Call.Args) != 2 {
						continue
					}
					vals := packed(x.Call.Args[1])
					if len(vals) != 1 {
						continue
					}
					v = vals[0]
				default:
					continue
				}
				t := r.of(v)
				if !strings.HasPrefix(t, "uri(elem(") {
					continue
				}
				c.Ob("listed", fname(fn)+": "+t)
				if idx != "" && !strings.HasSuffix(t, ","+idx+"))") {
					c.Bad("listed", fname(fn), i.Pos(), "the address of an entity is listed at another place than the entity")
				}
				if why := alwaysBy(i, noChildren); why != "" && !strings.HasPrefix(why, "the function") {
					c.Bad("listed", fname(fn), i.Pos(), "the address of an entity may not be listed: %s", why)
				}
				if brokenOff(b) {
					c.Bad("listed", fname(fn), i.Pos(), "the address of an entity may not be listed: the loop ends before everything was seen")
				}
			}
		}
	}
}
