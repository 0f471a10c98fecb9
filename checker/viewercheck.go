package main

// C08 and C09: loading answers and the content security policy.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"net/textproto"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- content security policy

const cspName = "Content-Security-Policy"

type cspClient struct {
	c    *Ctx
	root *ssa.Function
	sets int
	disp int
}

// headerOp recognises operations on http headers: the key argument, or "" when none
func headerOp(cs *CallSite) (op string, key Val, ok bool) {
	switch cs.Name() {
	case "(net/http.Header).Set", "(net/textproto.MIMEHeader).Set":
		return "set", cs.Args[1], true
	case "(net/http.Header).Add", "(net/textproto.MIMEHeader).Add":
		return "add", cs.Args[1], true
	case "(net/http.Header).Del", "(net/textproto.MIMEHeader).Del":
		return "del", cs.Args[1], true
	}
	return "", Val{}, false
}

func (k *cspClient) header(e *Engine, s *State, cs *CallSite) ([]Outcome, bool) {
	op, key, ok := headerOp(cs)
	if !ok {
		return nil, false
	}
	name, known := constStr(key)
	if !known || textproto.CanonicalMIMEHeaderKey(name) != cspName {
		return nil, false
	}
	if op == "del" {
		s.D["csp"] = ""
		return []Outcome{{Val: Val{K: KNil}}}, true
	}
	if op == "add" && s.D["csp"] != "" {
		k.c.Bad("csp-once", fname(cs.Instr.Parent()), cs.Instr.Pos(), "a second policy is added to the response")
	}
	k.set(e, s, cs.Instr, cs.Args[2])
	return []Outcome{{Val: Val{K: KNil}}}, true
}

// set records that the response carries the policy v
func (k *cspClient) set(e *Engine, s *State, instr ssa.Instruction, v Val) {
	k.sets++
	k.c.Ob("csp-value", fmt.Sprintf("%s with %s", k.c.W.pos(instr.Pos()), strings.Join(guardsOf(s), " ")))
	s.D["csp"] = "1"
	for _, m := range policyErrors(v, s) {
		k.c.BadAt("csp-policy", fname(instr.Parent()), k.c.W.pos(instr.Pos()), e.Trace(s), "%s (settings on this path: %s; policy %s)", m, strings.Join(guardsOf(s), " "), v)
	}
}

// update handles direct writes to the header map
func (k *cspClient) update(e *Engine, s *State, mu *ssa.MapUpdate) {
	if !isHeader(mu.Map.Type()) {
		return
	}
	if name, ok := constStr(e.eval(s, mu.Key)); !ok || name != cspName {
		return
	}
	vals, ok := e.variadic(s, mu.Value, e.eval(s, mu.Value))
	if !ok || len(vals) != 1 {
		k.c.Bad("csp-once", fname(mu.Parent()), mu.Pos(), "not exactly one policy is put into the response")
		return
	}
	k.set(e, s, mu, vals[0])
}

func (k *cspClient) dispatch(e *Engine, s *State, cs *CallSite) {
	k.disp++
	k.c.Ob("csp-before-dispatch", k.c.W.pos(cs.Instr.Pos()))
	if s.D["csp"] == "" {
		k.c.BadAt("csp-before-dispatch", fname(k.root), k.c.W.pos(cs.Instr.Pos()), e.Trace(s), "the request is answered without the policy header being set")
	}
}

type policyToken struct {
	text  string // with opaque parts replaced
	opaq  []Val
	fixed bool
}

// parsePolicy splits a policy into directives
func parsePolicy(v Val) (dirs [][]policyToken) {
	var cur []policyToken
	var tok policyToken
	empty := true
	flush := func() {
		if !empty {
			tok.fixed = len(tok.opaq) == 0
			cur = append(cur, tok)
		}
		tok, empty = policyToken{}, true
	}
	end := func() {
		flush()
		if len(cur) > 0 {
			dirs = append(dirs, cur)
		}
		cur = nil
	}
	for _, p := range strParts(v) {
		if t, ok := constStr(p); ok {
			for _, r := range t {
				switch {
				case r == ';':
					end()
				case r == ' ' || r == '\t':
					flush()
				default:
					tok.text += string(r)
					empty = false
				}
			}
			continue
		}
		tok.text += "\x00"
		tok.opaq = append(tok.opaq, p)
		empty = false
	}
	end()
	return
}

func policyErrors(v Val, s *State) (bad []string) {
	set := func(f string) string { return s.D["set:"+f] }
	prefix := func(p string) string {
		return s.D[`set:strings.HasPrefix|o*setting.TipsyURL;|c("`+p+`")`]
	}
	seen := map[string]bool{}
	for _, d := range parsePolicy(v) {
		if !d[0].fixed {
			bad = append(bad, "a directive has no fixed name")
			continue
		}
		name := strings.ToLower(d[0].text)
		if seen[name] {
			bad = append(bad, name+" appears twice, only the first one counts")
			continue
		}
		seen[name] = true
		args := d[1:]
		var texts []string
		for _, a := range args {
			texts = append(texts, a.text)
		}
		all := strings.Join(texts, " ")
		switch name {
		case "default-src":
			if all != "'none'" {
				bad = append(bad, "default-src is not 'none'")
			}
		case "script-src", "connect-src", "font-src":
			if all != "'self'" {
				bad = append(bad, name+" is not exactly 'self'")
			}
		case "style-src", "style-src-elem", "style-src-attr":
			inline := false
			for _, a := range args {
				switch a.text {
				case "'self'", "'none'":
				case "'unsafe-inline'":
					inline = true
				default:
					bad = append(bad, name+" allows "+a.text)
				}
			}
			if inline && set("HTMLRender") != "t" {
				bad = append(bad, "inline styles are allowed where rendering of HTML is not known to be enabled")
			}
			if !inline && name == "style-src" && set("HTMLRender") != "f" {
				bad = append(bad, "inline styles are not allowed where rendering of HTML may be enabled")
			}
		case "img-src", "media-src":
			if name == "media-src" && set("HTMLRender") != "t" {
				bad = append(bad, "media is allowed where rendering of HTML is not known to be enabled")
			}
			if name == "img-src" && set("HTMLRender") != "t" && set("ImageRender") != "t" {
				bad = append(bad, "images are allowed where rendering of images or HTML is not known to be enabled")
			}
			if set("StrictCSP") == "f" {
				break
			}
			for _, a := range args {
				if a.fixed && (a.text == "'self'" || a.text == "'none'") {
					continue
				}
				ok := !a.fixed && strings.Trim(a.text, "\x00") == ""
				for _, o := range a.opaq {
					if !onlySetting(o.S, "PublicURL") {
						ok = false
					}
				}
				if !ok {
					bad = append(bad, fmt.Sprintf("%s allows %q although strict mode may be on: it is not derived from the public addresses alone", name, a.text))
				}
			}
			if len(args) == 0 {
				// an empty list allows nothing
				break
			}
		case "frame-src":
			if len(args) != 1 || len(args[0].opaq) != 1 || args[0].text != "\x00" || args[0].opaq[0].S != "*setting.TipsyURL;" {
				bad = append(bad, "frame-src is not exactly the configured embed address")
			}
			if prefix("http://") != "t" && prefix("https://") != "t" {
				bad = append(bad, "frames are allowed for an embed address that is not known to start with http:// or https://")
			}
		case "frame-ancestors", "form-action", "base-uri", "object-src", "child-src", "worker-src", "manifest-src", "script-src-elem", "script-src-attr", "prefetch-src":
			for _, a := range args {
				if a.text != "'self'" && a.text != "'none'" {
					bad = append(bad, name+" allows "+a.text)
				}
			}
		case "upgrade-insecure-requests", "block-all-mixed-content", "report-uri", "report-to", "sandbox", "require-trusted-types-for", "trusted-types":
		default:
			bad = append(bad, "unknown directive "+name)
		}
	}
	for _, n := range []string{"default-src", "script-src", "connect-src", "font-src", "style-src"} {
		if !seen[n] {
			bad = append(bad, "there is no "+n+" directive")
		}
	}
	if !seen["img-src"] && (set("HTMLRender") != "f" || set("ImageRender") != "f") {
		bad = append(bad, "images are not allowed where rendering of images or HTML may be enabled")
	}
	if !seen["media-src"] && set("HTMLRender") != "f" {
		bad = append(bad, "media is not allowed where rendering of HTML may be enabled")
	}
	if !seen["frame-src"] && (prefix("http://") != "f" || prefix("https://") != "f") && set("empty|*setting.TipsyURL;") != "t" {
		bad = append(bad, "frames of the configured embed address are not allowed")
	}
	return
}

// onlySetting: the term is derived from that setting and from no other
func onlySetting(t, f string) bool {
	if !strings.Contains(t, "*setting."+f+";") {
		return false
	}
	rest := strings.ReplaceAll(t, "*setting."+f+";", "")
	return !strings.Contains(rest, "*setting.") && !strings.Contains(rest, `c("*`)
}

func checkC09(c *Ctx) {
	k := &cspClient{c: c}
	vr := routesOf(c.W, k)
	for _, v := range vr {
		c.Ob("csp-handler", fname(v.Root))
		if v.Engine.Over {
			c.Bad("undecided", fname(v.Root), v.Root.Pos(), "too many paths to explore")
		}
	}
	// nothing else touches the header
	for _, fn := range c.W.Fns {
		if fn.Blocks == nil || !isRepo(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case ssa.CallInstruction:
					cs := &CallSite{Instr: x, Static: x.Common().StaticCallee()}
					if cs.Static == nil {
						if bi, ok := x.Common().Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear") && isHeader(x.Common().Args[0].Type()) {
							c.Bad("csp-touched", fname(fn), x.Pos(), "response headers are deleted from the header map directly")
						}
						continue
					}
					for _, a := range x.Common().Args {
						cs.Args = append(cs.Args, opaque(""))
						_ = a
					}
					op, _, ok := headerOp(cs)
					if !ok {
						continue
					}
					name := x.Common().Args[1]
					t, fixed := fixedStrings(name, map[ssa.Value]bool{})
					c.Ob("csp-touched", c.W.pos(x.Pos()))
					isCSP := false
					for n := range t {
						if textproto.CanonicalMIMEHeaderKey(n) == cspName {
							isCSP = true
						}
					}
					if !fixed {
						c.Bad("csp-touched", fname(fn), x.Pos(), "a header of unknown name is changed: it could be the policy")
					} else if isCSP && op != "set" {
						c.Bad("csp-touched", fname(fn), x.Pos(), "the policy header is changed with %s", op)
					} else if isCSP && !reachedFrom(vr, fn) {
						c.Bad("csp-touched", fname(fn), x.Pos(), "the policy header is set outside of the common entry point of all requests")
					}
				case *ssa.MapUpdate:
					if !isHeader(x.Map.Type()) {
						continue
					}
					t, fixed := fixedStrings(x.Key, map[ssa.Value]bool{})
					c.Ob("csp-touched", c.W.pos(x.Pos()))
					switch {
					case !fixed:
						c.Bad("csp-touched", fname(fn), x.Pos(), "a header of unknown name is changed: it could be the policy")
					case t[cspName] && !reachedFrom(vr, fn):
						c.Bad("csp-touched", fname(fn), x.Pos(), "the policy header is set outside of the common entry point of all requests")
					}
				}
			}
		}
	}
	// every server of the viewer goes through it
	for _, fn := range c.W.Fns {
		if fn.Blocks == nil || !isRepo(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				call, ok := ins.(ssa.CallInstruction)
				if !ok || call.Common().StaticCallee() == nil {
					continue
				}
				h := servedHandler(call)
				if h == nil {
					continue
				}
				c.Ob("csp-served", c.W.pos(call.Pos()))
				x := unwrapIface(h)
				n := namedOf(x.Type())
				if n != nil && isViewerType(vr, n) {
					continue
				}
				if derivesFromViewer(vr, x, map[ssa.Value]bool{}) {
					c.Bad("csp-served", fname(fn), call.Pos(), "the viewer is served through a handler that the analysis cannot follow")
				}
			}
		}
	}
	if k.sets == 0 {
		c.BadAt("csp-policy", "viewer", "-", "", "no code sets the policy header")
	}
}

func isHeader(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "net/http" && n.Obj().Name() == "Header"
}

// fixedStrings: the constants a string may be; false when it may be something else
func fixedStrings(v ssa.Value, seen map[ssa.Value]bool) (map[string]bool, bool) {
	out := map[string]bool{}
	if seen[v] {
		return out, true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.String {
			out[constant.StringVal(x.Value)] = true
			return out, true
		}
	case *ssa.Phi:
		ok := true
		for _, e := range x.Edges {
			m, o := fixedStrings(e, seen)
			ok = ok && o
			for k := range m {
				out[k] = true
			}
		}
		return out, ok
	case *ssa.ChangeType:
		return fixedStrings(x.X, seen)
	case *ssa.Parameter:
		// a helper: what it is called with
		fn := x.Parent()
		i := -1
		for j, p := range fn.Params {
			if p == x {
				i = j
			}
		}
		refs := fn.Referrers()
		if fn.Signature.Recv() == nil && refs == nil && fn.Parent() == nil {
			calls := callersOf(fn)
			ok := len(calls) > 0
			for _, cc := range calls {
				m, o := fixedStrings(cc.Common().Args[i], seen)
				ok = ok && o
				for k := range m {
					out[k] = true
				}
			}
			return out, ok
		}
		calls := callersOf(fn)
		ok := len(calls) > 0
		for _, cc := range calls {
			if i >= len(cc.Common().Args) {
				return out, false
			}
			m, o := fixedStrings(cc.Common().Args[i], seen)
			ok = ok && o
			for k := range m {
				out[k] = true
			}
		}
		return out, ok
	}
	return out, false
}

var theWorld *World
var callersMemo map[*ssa.Function][]ssa.CallInstruction

// callersOf lists the static calls of fn in the repository; nil when fn is also used as a value
func callersOf(fn *ssa.Function) []ssa.CallInstruction {
	if callersMemo == nil {
		callersMemo = map[*ssa.Function][]ssa.CallInstruction{}
		asValue := map[*ssa.Function]bool{}
		for _, f := range theWorld.Fns {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					var ops []*ssa.Value
					call, isCall := ins.(ssa.CallInstruction)
					if isCall {
						if st := call.Common().StaticCallee(); st != nil {
							callersMemo[origin(st)] = append(callersMemo[origin(st)], call)
						}
					}
					for i, op := range ins.Operands(ops) {
						if g, ok := (*op).(*ssa.Function); ok && !(isCall && i == 0) {
							asValue[origin(g)] = true
						}
					}
				}
			}
		}
		for g := range asValue {
			callersMemo[g] = nil
		}
	}
	return callersMemo[origin(fn)]
}

// reachedFrom: fn is part of what the entry points run before dispatching
func reachedFrom(vr []*viewerRoutes, fn *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		if f == nil || seen[f] {
			return false
		}
		seen[f] = true
		if f == fn {
			return true
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(ssa.CallInstruction); ok {
					if st := c.Common().StaticCallee(); st != nil && followed(st) && walk(origin(st)) {
						return true
					}
				}
			}
		}
		return false
	}
	for _, v := range vr {
		if walk(v.Root) {
			return true
		}
	}
	return false
}

// servedHandler is the handler argument of functions that start a server
func servedHandler(call ssa.CallInstruction) ssa.Value {
	args := call.Common().Args
	switch qualName(call.Common().StaticCallee()) {
	case "net/http.Serve", "net/http.ListenAndServe":
		return args[1]
	case "net/http.ServeTLS":
		return args[1]
	case "net/http.ListenAndServeTLS":
		return args[3]
	}
	return nil
}

func isViewerType(vr []*viewerRoutes, n *types.Named) bool {
	for _, v := range vr {
		if v.Recv.Obj() == n.Obj() {
			return true
		}
	}
	return false
}

func derivesFromViewer(vr []*viewerRoutes, v ssa.Value, seen map[ssa.Value]bool) bool {
	if v == nil || seen[v] {
		return false
	}
	seen[v] = true
	if n := namedOf(v.Type()); n != nil && isViewerType(vr, n) {
		return true
	}
	switch x := v.(type) {
	case *ssa.Call:
		for _, a := range x.Call.Args {
			if derivesFromViewer(vr, a, seen) {
				return true
			}
		}
	case *ssa.MakeInterface:
		return derivesFromViewer(vr, x.X, seen)
	case *ssa.MakeClosure:
		for _, a := range x.Bindings {
			if derivesFromViewer(vr, a, seen) {
				return true
			}
		}
	case *ssa.ChangeType:
		return derivesFromViewer(vr, x.X, seen)
	case *ssa.Phi:
		for _, a := range x.Edges {
			if derivesFromViewer(vr, a, seen) {
				return true
			}
		}
	case *ssa.UnOp:
		return derivesFromViewer(vr, x.X, seen)
	}
	return false
}

// ---- what handlers do

type handlerEnd struct {
	ready  string // "", "t", "f"
	miss   string
	hits   []string
	events []string
	trace  string
	pos    token.Pos
	set    map[string]string
}

type dataRead struct {
	field string
	pos   token.Pos
	fn    *ssa.Function
	ready string
	trace string
}

type handlerClient struct {
	settingsClient
	v     *viewerRoutes
	data  map[string]bool // fields with dataset content
	ends  []handlerEnd
	reads []dataRead
	bad   []string
	seen  map[string]bool
	hook  func(e *Engine, s *State, cs *CallSite)
	// misses makes lookups of names from the request fail or succeed
	misses  bool
	lookups map[string]bool
	early   map[string]func(*Ctx)
	loads   func(e *Engine, s *State, instr ssa.Instruction)
	each    func(e *Engine, s *State, instr ssa.Instruction)     // every instruction
	out     func(e *Engine, s *State, cs *CallSite, kind string) // everything written to the response
}

func (k *handlerClient) Inline(e *Engine, s *State, cs *CallSite, fn *ssa.Function) bool {
	if len(fn.Blocks) == 0 || !followed(fn) {
		return false
	}
	if n := recvNamed(fn); n != nil && n.Obj().Name() == "Stats" && strings.HasPrefix(fn.Name(), "Log") && fn.Name() != "LogFatal" {
		return false
	}
	return true
}

func (k *handlerClient) Load(e *Engine, s *State, instr ssa.Instruction, key string, t types.Type) []Outcome {
	if n := namedOf(t); n != nil && n.Obj().Name() == "Stats" && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "/internal/stats") {
		if _, ptr := t.Underlying().(*types.Pointer); ptr {
			if u, ok := instr.(*ssa.UnOp); ok {
				if fa, ok := u.X.(*ssa.FieldAddr); ok {
					if m := namedOf(fa.X.Type()); m != nil && m.Obj() == k.v.Recv.Obj() {
						return []Outcome{{Val: Val{K: KNonNil, S: "stats"}}}
					}
				}
			}
		}
	}
	return k.settingsClient.Load(e, s, instr, key, t)
}

func event(s *State, ev string) { s.D["ev"] += ev + "\n" }

func events(s *State) []string {
	if s.D["ev"] == "" {
		return nil
	}
	return strings.Split(strings.TrimSuffix(s.D["ev"], "\n"), "\n")
}

// isWriter: v is the response writer of the request, or something writing to it
func isWriter(v Val) bool {
	return v.S == "h:w;" || strings.HasPrefix(v.S, "wr(")
}

func (k *handlerClient) Call(e *Engine, s *State, cs *CallSite) ([]Outcome, bool) {
	if k.hook != nil {
		k.hook(e, s, cs)
	}
	name := cs.Name()
	one := func(v Val) ([]Outcome, bool) { return []Outcome{{Val: v}}, true }
	// the flag that says whether loading is over
	if strings.HasPrefix(name, "(*sync/atomic.") && strings.HasSuffix(name, ").Load") && len(cs.ArgV) > 0 && isDoneFlag(cs.ArgV[0]) {
		set := func(v string) func(*State) { return func(s *State) { s.D["ready"] = v } }
		if s.D["ready"] == "t" {
			return one(boolVal(true))
		}
		return []Outcome{{Val: boolVal(false), Apply: set("f")}, {Val: boolVal(true), Apply: set("t")}}, true
	}
	if op, key, ok := headerOp(cs); ok {
		if n, known := constStr(key); k.out != nil && (!known || textproto.CanonicalMIMEHeaderKey(n) == "Content-Type") {
			v := "?"
			if c, ok := constStr(cs.Args[len(cs.Args)-1]); ok && known && op == "set" {
				v = c
			} else if op == "del" {
				v = ""
			}
			return []Outcome{{Val: Val{K: KNil}, Apply: func(s *State) { s.D["ctype"] = v }}}, true
		}
		return one(Val{K: KNil})
	}
	w := -1
	for i, a := range cs.Args {
		if isWriter(a) {
			w = i
		}
	}
	if w >= 0 {
		var fn *ssa.Function = cs.Static
		if cs.Closur != nil {
			fn = cs.Closur.Fn
		}
		if fn != nil && e.canInline(s, origin(fn)) && k.Inline(e, s, cs, origin(fn)) {
			return nil, false
		}
		errv := opaque(cs.ResID)
		switch name {
		case "(net/http.ResponseWriter).Header":
			return one(opaque("hdr;"))
		case "(net/http.ResponseWriter).WriteHeader":
			event(s, "status:"+cs.Args[1].S)
			return one(Val{K: KNil})
		case "(*html/template.Template).Execute", "(*text/template.Template).Execute":
			event(s, "exec:"+templateOf(k.w, cs.Args[0]))
			return one(errv)
		case "(*html/template.Template).ExecuteTemplate", "(*text/template.Template).ExecuteTemplate":
			n, _ := constStr(cs.Args[2])
			event(s, "exec:"+templateOf(k.w, cs.Args[0])+"/"+n)
			return one(errv)
		case "net/http.NotFound":
			event(s, "status:404")
			event(s, "body:notfound")
			return one(Val{K: KNil})
		case "net/http.Error":
			event(s, "status:"+cs.Args[2].S)
			event(s, "body:error")
			return one(Val{K: KNil})
		case "net/http.Redirect":
			event(s, "status:"+cs.Args[3].S)
			event(s, "redirect:"+cs.Args[2].String())
			return one(Val{K: KNil})
		case "encoding/json.NewEncoder":
			return one(opaque("wr(json);"))
		case "(*encoding/json.Encoder).Encode":
			event(s, "json")
			if k.out != nil {
				k.out(e, s, cs, "json")
			}
			return one(errv)
		case "(*encoding/json.Encoder).SetIndent", "(*encoding/json.Encoder).SetEscapeHTML":
			return one(Val{K: KNil})
		}
		if strings.HasPrefix(name, "bufio.NewWriter") {
			return one(opaque("wr(buf);"))
		}
		event(s, "write:"+calleeText(cs))
		if k.out != nil {
			k.out(e, s, cs, "write")
		}
		return nil, false
	}
	if k.out != nil && (name == "bytes.NewReader" || name == "strings.NewReader") {
		return one(term(name, cs.Args...))
	}
	if name == muxPkg+".Vars" {
		return one(term("vars", cs.Args[0]))
	}
	if name == "os.Exit" {
		return []Outcome{{End: true}}, true
	}
	if outs, ok := k.strings(e, s, cs); ok {
		return outs, ok
	}
	if k.misses {
		if outs, ok := k.lookup(e, s, cs); ok {
			return outs, true
		}
	}
	return nil, false
}

func isDoneFlag(v ssa.Value) bool {
	fa, ok := v.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	n := namedOf(fa.X.Type())
	return n != nil && n.Obj().Name() == "Stats" && n.Obj().Pkg() != nil && isRepoPath(n.Obj().Pkg().Path())
}

// templateOf names the template a global holds, by the fixed name it is parsed with
func templateOf(w *World, v Val) string {
	s := strings.TrimLeft(v.S, "*")
	s = strings.TrimPrefix(s, "g:")
	if i := strings.IndexByte(s, ';'); i >= 0 {
		s = s[:i]
	}
	for _, p := range w.Pkgs {
		if p.SSA == nil {
			continue
		}
		for _, m := range p.SSA.Members {
			g, ok := m.(*ssa.Global)
			if !ok || g.String() != s {
				continue
			}
			if c := globalInit(w, g); c != nil {
				for _, a := range c.Call.Args {
					if t := constStringOf(a); strings.HasSuffix(t, ".html") {
						return t
					}
				}
			}
		}
	}
	return "?" + s
}

func (k *handlerClient) Instr(e *Engine, s *State, instr ssa.Instruction) bool {
	if k.misses && s.D["miss"] != "" {
		k.afterMiss(e, s, instr)
	}
	if k.each != nil {
		k.each(e, s, instr)
	}
	var base types.Type
	var idx int
	switch x := instr.(type) {
	case *ssa.UnOp:
		fa, ok := x.X.(*ssa.FieldAddr)
		if !ok || x.Op != token.MUL {
			return true
		}
		base, idx = fa.X.Type(), fa.Field
	case *ssa.Field:
		base, idx = x.X.Type(), x.Field
	default:
		return true
	}
	n := namedOf(base)
	if n == nil || n.Obj() != k.v.Recv.Obj() {
		return true
	}
	f := fieldName(base, idx)
	if !k.data[f] {
		return true
	}
	key := fmt.Sprint(f, instr.Pos(), s.D["ready"])
	if !k.seen[key] {
		k.seen[key] = true
		k.reads = append(k.reads, dataRead{field: f, pos: instr.Pos(), fn: instr.Parent(), ready: s.D["ready"], trace: e.Trace(s)})
	}
	return true
}

func (k *handlerClient) Exit(e *Engine, s *State, kind ExitKind, instr ssa.Instruction, res []Val) {
	if kind != ExitReturn {
		return
	}
	k.ends = append(k.ends, handlerEnd{ready: s.D["ready"], miss: s.D["miss"], hits: hitsOf(s), events: events(s), trace: e.Trace(s), pos: instr.Pos(), set: settingsOf(s)})
}

// dataFields: the fields of the viewer that hold the dataset: those set where loading is declared over
func dataFields(w *World, v *viewerRoutes) map[string]bool {
	out := map[string]bool{}
	st := v.Recv.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		p, ok := st.Field(i).Type().(*types.Pointer)
		if !ok {
			continue
		}
		n := namedOf(p)
		if n == nil || n.Obj().Pkg() == nil {
			continue
		}
		switch n.Obj().Name() {
		case "Cache", "Pathbuilder":
			out[st.Field(i).Name()] = true
		}
	}
	return out
}

func handlerName(r *route) string {
	fn, _ := handlerFunc(r.Handler)
	if fn == nil {
		return r.Pattern
	}
	return fname(fn)
}

// always keep working while loading
var alwaysRoutes = map[string]bool{"/about": true, "/perf": true, "/api/v1/progress": true, "/api/v1/perf": true, "/favicon.ico": true}

func runRoute(w *World, v *viewerRoutes, r *route, misses bool, cfg ...func(*handlerClient)) (*handlerClient, bool) {
	k := &handlerClient{settingsClient: settingsClient{w: w}, v: v, data: dataFields(w, v), seen: map[string]bool{}, misses: misses, lookups: map[string]bool{}, early: map[string]func(*Ctx){}}
	fn, _ := handlerFunc(r.Handler)
	if fn == nil || fn.Blocks == nil {
		return nil, false
	}
	for _, f := range cfg {
		f(k)
	}
	e, ok := r.runHandlerNamed(w, k)
	if ok && e.Over {
		k.bad = append(k.bad, "too many paths to explore")
	}
	return k, ok
}

// runHandlerNamed runs with the writer and request under fixed names
func (r *route) runHandlerNamed(w *World, c Client) (*Engine, bool) {
	fn, bound := handlerFunc(r.Handler)
	if fn == nil || fn.Blocks == nil {
		return nil, false
	}
	e := NewEngine(w, c)
	e.Strings = true
	e.RootID = "h"
	e.Run(fn, func(s *State) {
		for k, v := range r.mem {
			s.mem[k] = v
		}
		f := s.top()
		for i, p := range fn.Params {
			if i < len(bound) {
				f.env[p] = bound[i]
				continue
			}
			switch typeName(p.Type()) {
			case "net/http.ResponseWriter":
				f.env[p] = opaque("h:w;")
			case "*net/http.Request":
				f.env[p] = opaque("h:r;")
			}
		}
		if bound == nil {
			for i, p := range fn.FreeVars {
				if i < len(r.Handler.T) {
					f.env[p] = r.Handler.T[i]
				}
			}
		}
		s.facts["h:w;"] = "nonnil"
		s.facts["h:r;"] = "nonnil"
	})
	return e, true
}

func typeName(t types.Type) string { return types.TypeString(t, nil) }

func checkC08(c *Ctx) {
	vr := routesOf(c.W, nil)
	if len(vr) == 0 {
		c.BadAt("routes", "viewer", "-", "", "no handler with routes was found")
		return
	}
	for _, v := range vr {
		for _, b := range v.Bad {
			p := strings.SplitN(b, "|", 3)
			c.BadAt("routes", p[1], p[0], "", "%s", p[2])
		}
		done := map[string]bool{}
		for _, r := range v.Routes {
			name := handlerName(r)
			if r.Handler.K != KFunc {
				if !r.Prefix {
					c.Bad("undecided", r.Pattern, r.Pos, "the handler of this route is not a known function: %s", r.Handler)
				}
				continue
			}
			k, ok := runRoute(c.W, v, r, false)
			if !ok {
				c.Bad("undecided", r.Pattern, r.Pos, "the handler of this route has no source")
				continue
			}
			for _, b := range k.bad {
				c.Bad("undecided", name, r.Pos, "%s", b)
			}
			c.Counts["handler_paths"] += len(k.ends)
			// content is only touched when loading is over
			shows := len(k.reads) > 0
			if shows && !done[name] {
				c.Ob("guarded", name)
			}
			for _, rd := range k.reads {
				if rd.ready != "t" {
					c.BadAt("guarded", name, c.W.pos(rd.pos), rd.trace, "reads %s in %s although loading is not known to be over", rd.field, fname(rd.fn))
				}
			}
			if alwaysRoutes[r.Pattern] {
				c.Ob("always", r.Pattern)
				for _, end := range k.ends {
					if end.ready == "t" {
						continue
					}
					if len(end.events) == 0 {
						c.BadAt("always", name, c.W.pos(end.pos), end.trace, "%s is not answered while loading", r.Pattern)
					}
					for _, ev := range end.events {
						if ev == "status:503" || ev == "exec:loading.html" || strings.HasPrefix(ev, "status:4") {
							c.BadAt("always", name, c.W.pos(end.pos), end.trace, "%s does not keep working while loading: %s", r.Pattern, strings.Join(end.events, ", "))
						}
					}
				}
			}
			if shows && !done[name] {
				c.Ob("loading-answer", r.Pattern)
				for _, end := range k.ends {
					if end.ready == "t" {
						continue
					}
					if end.ready == "" {
						c.BadAt("loading-answer", name, c.W.pos(end.pos), end.trace, "%s can be answered (%s) without looking whether loading is over", r.Pattern, strings.Join(end.events, ", "))
						continue
					}
					if m := loadingAnswer(end.events, strings.HasPrefix(r.Pattern, "/api/")); m != "" {
						c.BadAt("loading-answer", name, c.W.pos(end.pos), end.trace, "while loading, %s %s: %s", r.Pattern, m, strings.Join(end.events, ", "))
					}
				}
			}
			if !shows && !alwaysRoutes[r.Pattern] && !r.Prefix && !done[name] {
				// redirects and the like: nothing to guard
				c.Notes = append(c.Notes, r.Pattern+" touches no dataset content")
			}
			done[name] = true
		}
		publishing(c, v)
	}
}

// loadingAnswer says what is wrong with an answer given while loading
func loadingAnswer(ev []string, api bool) string {
	status, bodies := "", 0
	loading, js := false, false
	for _, e := range ev {
		switch {
		case strings.HasPrefix(e, "status:"):
			if status != "" {
				return "sends two statuses"
			}
			status = strings.TrimPrefix(e, "status:")
			if bodies > 0 {
				return "sends the status after the answer"
			}
		case e == "exec:loading.html":
			loading = true
			bodies++
		case e == "json":
			js = true
			bodies++
		default:
			bodies += 2
		}
	}
	if bodies != 1 {
		return "is not answered by exactly the loading answer"
	}
	if api {
		if status != "503" || !js {
			return "is not answered by a service-unavailable JSON message"
		}
		return ""
	}
	if loading && (status == "" || status == "200" || status == "503") {
		return ""
	}
	return "is not answered by the loading page"
}

// ---- publishing

type publishClient struct {
	handlerClient
	c    *Ctx
	root *ssa.Function
	// fields of the settings that the program sets
	stores        map[string]bool
	publishes     map[*ssa.Function]bool
	touchesViewer bool
	found         []func() // violations of this root
	entered       map[*ssa.Function]bool
}

func (k *publishClient) bad8(e *Engine, s *State, pos token.Pos, rule, format string, args ...any) {
	tr, msg := e.Trace(s), fmt.Sprintf(format, args...)
	k.found = append(k.found, func() { k.c.BadAt(rule, fname(k.root), k.c.W.pos(pos), tr, "%s", msg) })
}

func (k *publishClient) Inline(e *Engine, s *State, cs *CallSite, fn *ssa.Function) bool {
	if !k.handlerClient.Inline(e, s, cs, fn) {
		return false
	}
	p := pkgPathOf(fn)
	if p == pkgPathOf(k.root) || p == viewerPkg || p == modPath+"/internal/stats" {
		k.entered[origin(fn)] = true
		return true
	}
	return false
}

func (k *publishClient) Exit(*Engine, *State, ExitKind, ssa.Instruction, []Val) {}

func (k *publishClient) viewerField(v ssa.Value) string {
	fa, ok := v.(*ssa.FieldAddr)
	if !ok {
		return ""
	}
	n := namedOf(fa.X.Type())
	if n == nil || n.Obj() != k.v.Recv.Obj() {
		// a part of the settings
		if in := k.viewerField2(fa.X); in != "" {
			return in
		}
		return ""
	}
	return fieldName(fa.X.Type(), fa.Field)
}

func (k *publishClient) viewerField2(v ssa.Value) string {
	if _, ok := v.(*ssa.FieldAddr); ok {
		return k.viewerField(v)
	}
	return ""
}

func (k *publishClient) Instr(e *Engine, s *State, instr ssa.Instruction) bool {
	st, ok := instr.(*ssa.Store)
	if !ok {
		return true
	}
	f := k.viewerField(st.Addr)
	if f == "" {
		return true
	}
	if a := e.eval(s, st.Addr); strings.HasPrefix(a.S, "a!") {
		return true // an object that nobody else knows yet
	}
	if k.data[f] {
		k.c.ObOnce("published", fname(k.root)+" stores "+f)
		if s.D["closed"] != "" {
			k.bad8(e, s, st.Pos(), "published", "%s is replaced after loading was declared over", f)
		} else if s.D["ready"] != "f" {
			k.bad8(e, s, st.Pos(), "published", "%s is set although loading may be over already", f)
		}
		if v := e.eval(s, st.Val); v.K == KNil {
			k.bad8(e, s, st.Pos(), "published", "%s is set to nothing", f)
		}
		s.D["stored:"+f] = "1"
		return true
	}
	if k.setting(f) {
		s.D["stored:"+f] = "1"
		k.c.ObOnce("settings-first", fname(k.root)+" stores "+f)
		if s.D["serving"] != "" {
			k.bad8(e, s, st.Pos(), "settings-first", "%s is changed after the server was started", f)
		}
		if s.D["prepared"] != "" {
			k.bad8(e, s, st.Pos(), "settings-first", "%s is changed after the viewer was told that loading is over", f)
		}
	}
	return true
}

// setting: a field of the viewer that pages are rendered with
func (k *publishClient) setting(f string) bool { return f == "RenderFlags" || f == "Footer" }

func (k *publishClient) Call(e *Engine, s *State, cs *CallSite) ([]Outcome, bool) {
	name := cs.Name()
	if strings.HasPrefix(name, "(*sync/atomic.") && strings.HasSuffix(name, ").Store") && isDoneFlag(cs.ArgV[0]) {
		k.c.ObOnce("switch", fname(k.root))
		v := cs.Args[1]
		if !(v.K == KBool && v.N == 1) {
			k.bad8(e, s, cs.Instr.Pos(), "switch", "loading is declared not to be over (again)")
		}
		for f := range k.data {
			if s.D["stored:"+f] == "" && k.touchesViewer {
				k.bad8(e, s, cs.Instr.Pos(), "switch", "loading is declared over before %s is in place", f)
			}
		}
		s.D["closed"] = "1"
		return []Outcome{{Val: Val{K: KNil}}}, true
	}
	switch name {
	case "net/http.Serve", "net/http.ServeTLS", "net/http.ListenAndServe", "net/http.ListenAndServeTLS":
		h := servedHandler(cs.Instr)
		if h == nil {
			break
		}
		if n := namedOf(unwrapIface(h).Type()); n != nil && n.Obj() == k.v.Recv.Obj() {
			k.c.ObOnce("served", k.c.W.pos(cs.Instr.Pos()))
			if strings.HasPrefix(name, "net/http.Serve") && s.isNil(cs.Args[0]) != 0 {
				k.bad8(e, s, cs.Instr.Pos(), "served", "the server is started on a listener that may not exist")
			}
			for f := range k.stores {
				if s.D["stored:"+f] == "" {
					k.bad8(e, s, cs.Instr.Pos(), "settings-first", "the server is started before %s is set", f)
				}
			}
			s.D["serving"] = "1"
		}
		return nil, false
	case "net.Listen":
		// a listener, or an error
		return []Outcome{
			{Val: Val{K: KTuple, T: []Val{{K: KNonNil, S: "listener"}, {K: KNil}}}},
			{Val: Val{K: KTuple, T: []Val{{K: KNil}, {K: KNonNil, S: "listen error"}}}},
		}, true
	case "os.Exit":
		return []Outcome{{End: true}}, true
	}
	if cs.Static != nil && loadsGlass(cs.Static) {
		id := cs.ResID
		ok := opaque(strings.TrimSuffix(id, ";") + "#0;")
		return []Outcome{
			{Val: Val{K: KTuple, T: []Val{ok, {K: KNil}}}, Apply: func(s *State) { s.D["loaded"] = "t" }},
			{Val: Val{K: KTuple, T: []Val{ok, {K: KNonNil, S: "load error"}}}, Apply: func(s *State) { s.D["loaded"] = "f" }},
		}, true
	}
	if cs.Static != nil && k.publishes[cs.Static] && cs.Static != k.root {
		k.c.ObOnce("published-complete", k.c.W.pos(cs.Instr.Pos()))
		if s.D["loaded"] != "t" {
			k.bad8(e, s, cs.Instr.Pos(), "published-complete", "the viewer is given data whose loading did not succeed")
		}
		for f := range k.stores {
			if s.D["stored:"+f] == "" {
				k.bad8(e, s, cs.Instr.Pos(), "settings-first", "the viewer is told that loading is over before %s is set", f)
			}
		}
		s.D["prepared"] = "1"
		return []Outcome{{Val: Val{K: KNil}}}, true
	}
	return k.handlerClient.Call(e, s, cs)
}

// loadsGlass: fn loads a dataset or fails
func loadsGlass(fn *ssa.Function) bool {
	res := fn.Signature.Results()
	if res.Len() != 2 || !isErrorType(res.At(1).Type()) {
		return false
	}
	n := namedOf(res.At(0).Type())
	return n != nil && n.Obj().Name() == "Glass" && n.Obj().Pkg() != nil && isRepoPath(n.Obj().Pkg().Path())
}

// outermost is the declared function a closure belongs to
func outermost(fn *ssa.Function) *ssa.Function {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn
}

func publishing(c *Ctx, v *viewerRoutes) {
	theWorld = c.W
	data := dataFields(c.W, v)
	publishers := map[*ssa.Function]bool{}
	users := map[*ssa.Function]bool{}
	stores := map[string]map[string]bool{}
	for _, fn := range c.W.Fns {
		if !isRepo(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Store:
					k := &publishClient{}
					k.v = v
					f := k.viewerField(x.Addr)
					if f == "" {
						continue
					}
					if base, ok := x.Addr.(*ssa.FieldAddr); ok {
						if _, fresh := base.X.(*ssa.Alloc); fresh {
							continue
						}
					}
					switch {
					case data[f]:
						publishers[outermost(fn)] = true
					case f == "RenderFlags" || f == "Footer":
						p := pkgPathOf(fn)
						if stores[p] == nil {
							stores[p] = map[string]bool{}
						}
						stores[p][f] = true
						users[outermost(fn)] = true
					}
				case ssa.CallInstruction:
					st := x.Common().StaticCallee()
					if st == nil {
						continue
					}
					if h := servedHandler(x); h != nil {
						if n := namedOf(unwrapIface(h).Type()); n != nil && n.Obj() == v.Recv.Obj() {
							users[outermost(fn)] = true
						}
					}
				}
			}
		}
	}
	if len(publishers) == 0 {
		c.BadAt("published", "viewer", "-", "", "no code hands the dataset to the viewer")
	}
	run := func(root *ssa.Function, touches bool) *publishClient {
		k := &publishClient{c: c, root: root, publishes: publishers, touchesViewer: touches, entered: map[*ssa.Function]bool{}, stores: stores[pkgPathOf(root)]}
		k.handlerClient = handlerClient{settingsClient: settingsClient{w: c.W}, v: v, data: data, seen: map[string]bool{}}
		e := NewEngine(c.W, k)
		e.Strings = true
		e.Run(root, nil)
		if e.Over {
			k.found = append(k.found, func() { c.Bad("undecided", fname(root), root.Pos(), "too many paths to explore") })
		}
		return k
	}
	// helpers that only make sense within their callers
	for depth := 0; depth < 3; depth++ {
		again := false
		for _, fn := range sortedFns(publishers) {
			callers := callersOf(fn)
			if len(callers) == 0 || len(run(fn, true).found) == 0 {
				continue
			}
			inside := true
			for _, call := range callers {
				if pkgPathOf(call.Parent()) != pkgPathOf(fn) {
					inside = false
				}
			}
			if !inside {
				continue
			}
			delete(publishers, fn)
			for _, call := range callers {
				publishers[outermost(call.Parent())] = true
			}
			again = true
		}
		if !again {
			break
		}
	}
	for _, fn := range c.W.Fns {
		if !isRepo(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				x, ok := ins.(ssa.CallInstruction)
				if !ok || x.Common().StaticCallee() == nil {
					continue
				}
				st := origin(x.Common().StaticCallee())
				if publishers[st] {
					users[outermost(fn)] = true
				}
				// only the publisher may declare loading to be over
				if closesStats(st) && !publishers[outermost(fn)] && !closesStats(fn) {
					c.Ob("switch", fname(fn))
					if !ownStats(x.Common().Args[0], map[ssa.Value]bool{}) {
						c.Bad("switch", fname(fn), x.Pos(), "loading is declared over outside of the code that hands over the data")
					}
				}
			}
		}
	}
	for _, fn := range sortedFns(publishers) {
		for _, f := range run(fn, true).found {
			f()
		}
	}
	// users are fine on their own, or in the context of each of their callers
	var check func(fn *ssa.Function, k *publishClient, depth int) []func()
	check = func(fn *ssa.Function, k *publishClient, depth int) []func() {
		if len(k.found) == 0 || depth > 4 {
			return k.found
		}
		callers := callersOf(fn)
		if len(callers) == 0 {
			return k.found
		}
		var out []func()
		seen := map[*ssa.Function]bool{}
		for _, call := range callers {
			o := outermost(call.Parent())
			if seen[o] {
				continue
			}
			seen[o] = true
			kk := run(o, false)
			if !kk.entered[fn] {
				// called from a callback of that function: nothing is known there
				return k.found
			}
			out = append(out, check(o, kk, depth+1)...)
		}
		return out
	}
	for _, fn := range sortedFns(users) {
		if publishers[fn] {
			continue
		}
		for _, f := range check(fn, run(fn, false), 0) {
			f()
		}
	}
}

func sortedFns(m map[*ssa.Function]bool) []*ssa.Function {
	var out []*ssa.Function
	for fn := range m {
		out = append(out, fn)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// closesStats: fn itself sets the flag that loading is over
func closesStats(fn *ssa.Function) bool {
	if n := recvNamed(fn); n == nil || n.Obj().Name() != "Stats" {
		return false
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if x, ok := ins.(ssa.CallInstruction); ok && x.Common().StaticCallee() != nil {
				name := qualName(x.Common().StaticCallee())
				if strings.HasPrefix(name, "(*sync/atomic.") && strings.HasSuffix(name, ").Store") && isDoneFlag(x.Common().Args[0]) {
					return true
				}
			}
		}
	}
	return false
}

// ownStats: a status that was made in this function
func ownStats(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.Alloc:
		return true
	case *ssa.Call:
		st := x.Call.StaticCallee()
		return st != nil && strings.HasPrefix(st.Name(), "New")
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !ownStats(e, seen) {
				return false
			}
		}
		return true
	}
	return false
}

func init() {
	register(&Check{Prop: "C08", Run: checkC08,
		Explain: "The routes are found by following the code that registers them. Every handler is explored on all paths with the loading flag unknown: dataset fields may only be read on paths where the flag was seen set, other paths must end in exactly the loading answer, and the progress, performance and legal routes must keep answering. The functions that store the dataset and settings, start the server and switch the flag are explored for their order.",
		Assume:  []string{"gorilla/mux dispatches each request to one registered handler", "the loading page is the template that is parsed under the name loading.html"},
		Floors:  map[string]int{"guarded": 6, "loading-answer": 6, "always": 3, "published": 2, "switch": 1, "served": 1, "settings-first": 2, "published-complete": 1}})
	register(&Check{Prop: "C09", Run: checkC09,
		Explain: "The common entry point of all requests is explored on all paths with every setting unknown. The policy text is followed through concatenation, formatting and builders, and at the place where the header is set the directives are parsed and compared with what the settings decided on that path allow. The header has to be set before the request is dispatched, no other code may change it, and the viewer is only served as itself.",
		Assume:  []string{"gorilla/mux and net/http do not remove the header", "the text of the configured embed address and public addresses contains no separator of the policy syntax"},
		Floors:  map[string]int{"csp-value": 8, "csp-before-dispatch": 1, "csp-touched": 5, "csp-served": 1}})
}
