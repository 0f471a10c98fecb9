package main

// The routes of the viewer, found by following the code that registers them,
// and what each handler does.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	muxPkg    = "github.com/gorilla/mux"
	viewerPkg = modPath + "/internal/viewer"
)

type route struct {
	Pattern string
	Prefix  bool
	Queries []string
	Methods []string
	Guards  []string // conditions under which the route is registered
	Other   []string // restrictions that are not understood
	Handler Val
	Pos     token.Pos
	mem     map[string]Val
	facts   map[string]string
}

// servesHTTP lists the repository types that are http handlers over a mux.Router
func viewerTypes(w *World) []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range w.Fns {
		if fn.Name() != "ServeHTTP" || fn.Signature.Recv() == nil || !isRepo(fn) || fn.Blocks == nil {
			continue
		}
		n := recvNamed(fn)
		if n == nil {
			continue
		}
		if _, ok := n.Underlying().(*types.Struct); ok {
			out = append(out, fn)
		}
	}
	return out
}

// pureHelper: code of the viewer (and helpers it was moved to)
func followed(fn *ssa.Function) bool {
	if !isRepo(fn) {
		return false
	}
	p := pkgPathOf(fn)
	switch p {
	case modPath + "/internal/sparkl", modPath + "/internal/wisski", modPath + "/internal/assets":
		return false
	}
	return !strings.HasPrefix(p, modPath+"/internal/triplestore")
}

func pkgPathOf(fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if obj := fn.Object(); obj != nil && obj.Pkg() != nil {
		return obj.Pkg().Path()
	}
	return ""
}

// settingsClient forks on settings and remembers which way each went
type settingsClient struct {
	BaseClient
	w *World
}

// settingField: instr loads a field of a settings struct (RenderFlags); its name
func settingField(instr ssa.Instruction) string {
	var st types.Type
	var i int
	switch x := instr.(type) {
	case *ssa.UnOp:
		fa, ok := x.X.(*ssa.FieldAddr)
		if !ok {
			return ""
		}
		st, i = fa.X.Type(), fa.Field
	case *ssa.Field:
		st, i = x.X.Type(), x.Field
	default:
		return ""
	}
	n := namedOf(st)
	if n == nil || !isSettings(n) {
		return ""
	}
	return fieldName(st, i)
}

// isSettings: the struct with the rendering settings
func isSettings(n *types.Named) bool {
	st, ok := n.Underlying().(*types.Struct)
	if !ok || n.Obj().Pkg() == nil || !isRepoPath(n.Obj().Pkg().Path()) {
		return false
	}
	need := map[string]bool{"HTMLRender": true, "ImageRender": true, "StrictCSP": true, "PublicURL": true}
	for i := 0; i < st.NumFields(); i++ {
		if !st.Field(i).Embedded() {
			delete(need, st.Field(i).Name())
		}
	}
	return len(need) == 0
}

func forkSetting(s *State, key string) []Outcome {
	switch s.D["set:"+key] {
	case "t":
		return []Outcome{{Val: boolVal(true)}}
	case "f":
		return []Outcome{{Val: boolVal(false)}}
	}
	set := func(v string) func(*State) { return func(s *State) { s.D["set:"+key] = v } }
	return []Outcome{{Val: boolVal(true), Apply: set("t")}, {Val: boolVal(false), Apply: set("f")}}
}

func (k *settingsClient) Load(e *Engine, s *State, instr ssa.Instruction, key string, t types.Type) []Outcome {
	f := settingField(instr)
	if f == "" {
		return nil
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return forkSetting(s, f)
		case b.Info()&types.IsString != 0:
			// the settings are fixed while serving: the same value everywhere
			return []Outcome{{Val: opaque("*setting." + f + ";")}}
		}
	}
	return nil
}

func (k *settingsClient) strings(e *Engine, s *State, cs *CallSite) ([]Outcome, bool) {
	outs, ok := e.strCall(s, cs)
	if !ok {
		return nil, false
	}
	if len(outs) == 1 && outs[0].Val.K == KCond && strings.HasPrefix(outs[0].Val.S, "strings.HasPrefix|") {
		return forkSetting(s, outs[0].Val.S), true
	}
	return outs, true
}

// Compare remembers tests of settings against the empty string
func (k *settingsClient) Compare(e *Engine, s *State, op *ssa.BinOp, x, y Val) []Outcome {
	if y.K == KOpaque {
		x, y = y, x
	}
	if x.K == KOpaque && strings.HasPrefix(x.S, "*setting.") {
		if c, ok := constStr(y); ok && c == "" {
			for d, v := range s.D {
				if v == "t" && strings.HasPrefix(d, "set:strings.HasPrefix|o"+x.S+"|c(\"") && !strings.HasSuffix(d, `|c("")`) {
					return []Outcome{{Val: boolVal(op.Op == token.NEQ)}}
				}
			}
			outs := forkSetting(s, "empty|"+x.S)
			if op.Op == token.NEQ {
				for i := range outs {
					outs[i].Val = boolVal(outs[i].Val.N == 0)
				}
			}
			return outs
		}
	}
	// text that contains something fixed is not empty
	if c, ok := constStr(y); ok && x.K == KStr {
		for _, p := range x.T {
			if q, ok := constStr(p); ok && q != "" && c == "" {
				return []Outcome{{Val: boolVal(op.Op == token.NEQ)}}
			}
		}
	}
	return nil
}

// ---- discovery

type routeClient struct {
	settingsClient
	order []*route
	bad   []string
	ways  []routeWay
	clean map[string]bool // routers with path cleaning switched off
	csp   *cspClient
}

// routeWay: what is registered when some settings have some values
type routeWay struct {
	Set map[string]string
	Reg map[string]bool
}

func (k *routeClient) Exit(e *Engine, s *State, kind ExitKind, instr ssa.Instruction, res []Val) {
	if kind != ExitReturn {
		return
	}
	w := routeWay{Set: settingsOf(s), Reg: map[string]bool{}}
	for d := range s.D {
		if p, ok := strings.CutPrefix(d, "reg:"); ok {
			w.Reg[p] = true
		}
	}
	k.ways = append(k.ways, w)
}

func settingsOf(s *State) map[string]string {
	m := map[string]string{}
	for d, v := range s.D {
		if p, ok := strings.CutPrefix(d, "set:"); ok {
			m[p] = v
		}
	}
	return m
}

func (k *routeClient) Inline(e *Engine, s *State, cs *CallSite, fn *ssa.Function) bool {
	if len(fn.Blocks) == 0 || !followed(fn) {
		return false
	}
	return true
}

func isMux(name string, m ...string) bool {
	for _, x := range m {
		if name == "(*"+muxPkg+"."+x {
			return true
		}
	}
	return false
}

func (k *routeClient) Call(e *Engine, s *State, cs *CallSite) ([]Outcome, bool) {
	name := cs.Name()
	if strings.HasPrefix(name, "(*"+muxPkg+".") {
		return k.mux(e, s, cs, strings.TrimPrefix(name, "(*"+muxPkg+"."))
	}
	if k.csp != nil {
		if outs, ok := k.csp.header(e, s, cs); ok {
			return outs, true
		}
	}
	if name == "net/url.Parse" || name == "net/url.JoinPath" {
		// assume well-formed settings or not: either way
		outs, ok := e.strCall(s, cs)
		return outs, ok
	}
	if outs, ok := k.strings(e, s, cs); ok {
		return outs, ok
	}
	return nil, false
}

func (k *routeClient) Instr(e *Engine, s *State, instr ssa.Instruction) bool {
	if mu, ok := instr.(*ssa.MapUpdate); ok && k.csp != nil {
		k.csp.update(e, s, mu)
	}
	return true
}

func routeKey(pattern string, pos token.Pos) string { return fmt.Sprintf("%s@%d", pattern, pos) }

func (k *routeClient) mux(e *Engine, s *State, cs *CallSite, m string) ([]Outcome, bool) {
	typ, meth, _ := strings.Cut(m, ").")
	one := func(v Val) ([]Outcome, bool) { return []Outcome{{Val: v}}, true }
	nn := func(id string) Val { return Val{K: KNonNil, S: id} }
	recv := cs.Args[0].String()
	get := func(v Val) *route {
		id := strings.TrimPrefix(v.S, "mux:")
		for _, r := range k.order {
			if routeKey(r.Pattern, r.Pos) == id {
				return r
			}
		}
		return nil
	}
	make_ := func(pattern string, prefix bool, h Val) *route {
		pre := s.D["router:"+recv]
		pattern = pre + pattern
		s.D["reg:"+pattern] = "1"
		for _, r := range k.order {
			if r.Pattern == pattern && r.Pos == cs.Instr.Pos() {
				// reached on several ways: guarded only by what they have in common
				var g []string
				have := setOf2(guardsOf(s))
				for _, x := range r.Guards {
					if have[x] {
						g = append(g, x)
					}
				}
				r.Guards = g
				return r
			}
		}
		r := &route{Pattern: pattern, Prefix: prefix, Handler: h, Pos: cs.Instr.Pos(), Guards: guardsOf(s)}
		c := s.clone()
		r.mem, r.facts = c.mem, c.facts
		k.order = append(k.order, r)
		return r
	}
	val := func(r *route) Val { return nn("mux:" + routeKey(r.Pattern, r.Pos)) }
	str := func(i int) (string, bool) {
		p, ok := constStr(cs.Args[i])
		if !ok {
			k.bad = append(k.bad, fmt.Sprintf("%s|%s|the pattern of a route is not fixed text: %s", k.w.pos(cs.Instr.Pos()), fname(cs.Instr.Parent()), cs.Args[i]))
		}
		return p, ok
	}
	if typ == "Router" {
		switch meth {
		case "HandleFunc", "Handle":
			p, ok := str(1)
			if !ok {
				return one(nn("mux:?"))
			}
			return one(val(make_(p, false, cs.Args[2])))
		case "PathPrefix":
			if p, ok := str(1); ok {
				return one(val(make_(p, true, Val{})))
			}
			return one(nn("mux:?"))
		case "Path":
			if p, ok := str(1); ok {
				return one(val(make_(p, false, Val{})))
			}
			return one(nn("mux:?"))
		case "NewRoute", "Methods", "Queries", "Host", "Schemes", "Headers", "MatcherFunc", "Name":
			r := make_(fmt.Sprintf("\x00%d", cs.Instr.Pos()), false, Val{})
			if meth != "NewRoute" && meth != "Name" {
				r.Other = appendOnce(r.Other, meth)
			}
			return one(val(r))
		case "SkipClean", "StrictSlash", "UseEncodedPath":
			on := len(cs.Args) < 2 || cs.Args[1].K == KBool && cs.Args[1].N == 1
			if on {
				k.clean[meth] = true
			}
			return one(cs.Args[0])
		case "Use":
			k.bad = append(k.bad, fmt.Sprintf("%s|%s|a middleware is installed that the analysis does not look into", k.w.pos(cs.Instr.Pos()), fname(cs.Instr.Parent())))
			return one(Val{K: KNil})
		case "ServeHTTP":
			if k.csp != nil {
				k.csp.dispatch(e, s, cs)
			}
			return one(Val{K: KNil})
		}
		return one(nn("mux:" + meth))
	}
	if typ == "Route" {
		r := get(cs.Args[0])
		if r == nil {
			return one(cs.Args[0])
		}
		list := func(i int) []string {
			var out []string
			el, ok := e.variadic(s, cs.ArgV[i], cs.Args[i])
			if !ok {
				r.Other = appendOnce(r.Other, meth)
				return nil
			}
			for _, x := range el {
				t, ok := constStr(x)
				if !ok {
					r.Other = appendOnce(r.Other, meth)
				}
				out = append(out, t)
			}
			return out
		}
		switch meth {
		case "Queries":
			if q := list(1); len(r.Queries) == 0 {
				r.Queries = q
			}
		case "Methods":
			r.Methods = list(1)
		case "Handler", "HandlerFunc":
			r.Handler = cs.Args[1]
			c := s.clone()
			r.mem, r.facts = c.mem, c.facts
		case "Path", "PathPrefix":
			if p, ok := str(1); ok {
				if strings.HasPrefix(r.Pattern, "\x00") {
					r.Pattern = s.D["router:"+recv] + p
				} else {
					r.Pattern += p
				}
				r.Prefix = meth == "PathPrefix"
				return one(val(r))
			}
		case "Subrouter":
			r.Handler = Val{K: KNonNil, S: "subrouter"}
			id := nn("sub:" + routeKey(r.Pattern, r.Pos))
			pat := r.Pattern
			return []Outcome{{Val: id, Apply: func(s *State) { s.D["router:"+id.String()] = pat }}}, true
		case "Name", "GetError":
		default:
			r.Other = appendOnce(r.Other, meth)
		}
		return one(cs.Args[0])
	}
	return nil, false
}

func setOf2(l []string) map[string]bool {
	m := map[string]bool{}
	for _, x := range l {
		m[x] = true
	}
	return m
}

// guardsOf lists the settings that were decided on the way
func guardsOf(s *State) []string {
	var out []string
	for k, v := range s.D {
		if c, ok := strings.CutPrefix(k, "set:"); ok {
			out = append(out, c+"="+v)
		}
	}
	sort.Strings(out)
	return out
}

type viewerRoutes struct {
	Root   *ssa.Function
	Recv   *types.Named
	Routes []*route
	Bad    []string
	Ways   []routeWay
	Opts   map[string]bool
	Engine *Engine
}

var routesMemo = map[*World][]*viewerRoutes{}

// routesOf finds the routes of every repository handler that dispatches over a router
func routesOf(w *World, csp *cspClient) []*viewerRoutes {
	if csp == nil {
		if r, ok := routesMemo[w]; ok {
			return r
		}
	}
	var out []*viewerRoutes
	for _, root := range viewerTypes(w) {
		k := &routeClient{settingsClient: settingsClient{w: w}, clean: map[string]bool{}, csp: csp}
		if csp != nil {
			csp.root = root
		}
		e := NewEngine(w, k)
		e.Strings = true
		e.Run(root, nil)
		v := &viewerRoutes{Root: root, Recv: recvNamed(root), Bad: k.bad, Ways: k.ways, Opts: k.clean, Engine: e}
		for _, r := range k.order {
			if r.Handler.K == KNonNil && r.Handler.S == "subrouter" {
				continue
			}
			v.Routes = append(v.Routes, r)
		}
		if len(v.Routes) > 0 || csp != nil {
			out = append(out, v)
		}
	}
	if csp == nil {
		routesMemo[w] = out
	}
	return out
}

// handlerFunc resolves the function of a handler and the values bound in it
func handlerFunc(h Val) (*ssa.Function, []Val) {
	if h.K != KFunc {
		return nil, nil
	}
	if c := boundCall(h.Fn); c != nil {
		return origin(c.StaticCallee()), h.T
	}
	return origin(h.Fn), nil
}

// runHandler explores a handler of the route
func (r *route) runHandler(w *World, c Client, cfg func(*Engine)) (*Engine, bool) {
	fn, bound := handlerFunc(r.Handler)
	if fn == nil || fn.Blocks == nil {
		return nil, false
	}
	e := NewEngine(w, c)
	e.Strings = true
	e.RootID = "h"
	if cfg != nil {
		cfg(e)
	}
	e.Run(fn, func(s *State) {
		for k, v := range r.mem {
			s.mem[k] = v
		}
		f := s.top()
		for i, p := range fn.Params {
			if i < len(bound) {
				f.env[p] = bound[i]
			}
		}
		if bound == nil {
			for i, p := range fn.FreeVars {
				if i < len(r.Handler.T) {
					f.env[p] = r.Handler.T[i]
				}
			}
		}
	})
	return e, true
}

// globalInit finds the call that initialises a package variable
func globalInit(w *World, g *ssa.Global) *ssa.Call {
	if g.Pkg == nil {
		return nil
	}
	init := g.Pkg.Func("init")
	if init == nil {
		return nil
	}
	for _, b := range init.Blocks {
		for _, ins := range b.Instrs {
			if st, ok := ins.(*ssa.Store); ok && st.Addr == ssa.Value(g) {
				if c, ok := st.Val.(*ssa.Call); ok {
					return c
				}
			}
		}
	}
	return nil
}

func constStringOf(v ssa.Value) string {
	if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
		return constant.StringVal(c.Value)
	}
	return ""
}
