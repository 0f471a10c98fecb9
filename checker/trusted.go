package main

// C10: only safe text is declared trusted markup.

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// trustedType names the trusted type of html/template that t is
func trustedType(t types.Type) string {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != tmplPkg {
		return ""
	}
	switch n.Obj().Name() {
	case "HTML", "URL", "HTMLAttr", "JS", "JSStr", "CSS", "Srcset":
		return n.Obj().Name()
	}
	return ""
}

// trusting: the instruction declares a text trusted
func trusting(instr ssa.Instruction) (kind string, x ssa.Value) {
	var v ssa.Value
	switch i := instr.(type) {
	case *ssa.ChangeType:
		v, x = i, i.X
	case *ssa.Convert:
		v, x = i, i.X
	case *ssa.MultiConvert:
		v, x = i, i.X
	default:
		return "", nil
	}
	k := trustedType(v.Type())
	if k == "" || trustedType(x.Type()) == k {
		return "", nil
	}
	return k, x
}

// leaves lists the parts of a text, looking into mixtures
func leaves(v Val) []string {
	var out []string
	for _, p := range strParts(v) {
		if rest, ok := strings.CutPrefix(p.S, "mix:"); ok && p.K == KOpaque {
			out = append(out, strings.Split(strings.TrimSuffix(rest, ";"), mixSep)...)
			continue
		}
		out = append(out, p.String())
	}
	for i := range out {
		out[i] = strings.TrimPrefix(out[i], "o")
	}
	return out
}

func fnTerm(s string, names ...string) bool {
	for _, n := range names {
		if strings.HasPrefix(s, "fn:"+n+"(") {
			return true
		}
	}
	return false
}

func numeric(p string) bool {
	return fnTerm(p, "strconv.Itoa", "strconv.FormatInt", "strconv.FormatUint") || strings.HasPrefix(p, "num:")
}

func urlEscaped(p string) bool {
	return fnTerm(p, "net/url.PathEscape", "net/url.QueryEscape", "(net/url.Values).Encode", "urlpath", "html/template.URLQueryEscaper")
}

func htmlEscaped(p string) bool {
	return fnTerm(p, "html.EscapeString", "golang.org/x/net/html.EscapeString", "html/template.HTMLEscapeString", "html/template.HTMLEscaper")
}

// unsafePart says which part of a text may not be declared trusted
func unsafePart(kind string, v Val) string {
	parts := leaves(v)
	mixed := strings.Contains(v.String(), "mix:")
	isConst := func(p string) (string, bool) {
		if x, ok := strings.CutPrefix(p, "c("); ok {
			return constStr(Val{K: KConst, S: strings.TrimSuffix(x, ")")})
		}
		return "", false
	}
	switch kind {
	case "URL":
		start := false
		for i, p := range parts {
			if c, ok := isConst(p); ok {
				local := strings.HasPrefix(c, "/") && !strings.HasPrefix(c, "//")
				rest, abs := strings.CutPrefix(strings.TrimPrefix(c, "https:"), "//")
				if !abs {
					rest, abs = strings.CutPrefix(strings.TrimPrefix(c, "http:"), "//")
				}
				if (i == 0 || mixed) && (local || abs && strings.Contains(rest, "/")) {
					start = true
				}
				continue
			}
			if !urlEscaped(p) && !numeric(p) {
				return p
			}
		}
		if len(parts) > 0 && !start {
			return "an address that does not start with a fixed part: " + v.String()
		}
	case "HTMLAttr":
		quote := byte(0)
		attr := ""
		for _, p := range parts {
			c, ok := isConst(p)
			if !ok {
				low := strings.ToLower(strings.TrimSpace(attr))
				switch {
				case mixed || quote == 0:
					return p + " outside of quotes"
				case strings.HasPrefix(low, "on") || low == "style" || low == "srcdoc":
					return p + " in the attribute " + low
				case low == "href" || low == "src" || low == "action" || low == "formaction":
					return p + " in the attribute " + low
				case htmlEscaped(p), numeric(p), urlEscaped(p) && quote == '"':
				default:
					return p
				}
				continue
			}
			for i := 0; i < len(c); i++ {
				switch ch := c[i]; {
				case quote != 0:
					if ch == quote {
						quote, attr = 0, ""
					}
				case ch == '"' || ch == '\'':
					quote = ch
				case ch == '=':
				case ch == ' ' || ch == '\t' || ch == '\n':
					attr = ""
				default:
					attr += string(ch)
				}
			}
		}
	case "HTML":
		for _, p := range parts {
			if _, ok := isConst(p); !ok && !htmlEscaped(p) && !numeric(p) {
				return p
			}
		}
	default:
		for _, p := range parts {
			if _, ok := isConst(p); !ok {
				return p
			}
		}
	}
	return ""
}

// operatorText: a package variable that only fixed text and command line options set
func operatorText(w *World, v Val) bool {
	s := strings.TrimRight(strings.TrimLeft(v.S, "*"), ";")
	s, ok := strings.CutPrefix(s, "g:")
	if !ok || v.K == KStr {
		return false
	}
	for _, p := range w.Pkgs {
		if p.SSA == nil {
			continue
		}
		for _, m := range p.SSA.Members {
			if g, ok := m.(*ssa.Global); ok && g.String() == s {
				return p.Types.Name() == "main" && setByOptions(w, g)
			}
		}
	}
	return false
}

func setByOptions(w *World, g *ssa.Global) bool {
	for _, fn := range w.Fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				uses := false
				for _, op := range ins.Operands(nil) {
					uses = uses || *op == ssa.Value(g)
				}
				if !uses {
					continue
				}
				switch i := ins.(type) {
				case *ssa.UnOp, *ssa.DebugRef:
				case *ssa.Store:
					if _, c := i.Val.(*ssa.Const); !c || i.Addr != ssa.Value(g) {
						return false
					}
				case ssa.CallInstruction:
					st := i.Common().StaticCallee()
					if st == nil || pkgPathOf(st) != "flag" {
						return false
					}
				default:
					return false
				}
			}
		}
	}
	return true
}

type trustSeen struct {
	kind, why string
	pos       token.Pos
	fn        *ssa.Function
	trace     string
}

// trustClient follows functions that declare text trusted
type trustClient struct {
	BaseClient
	w    *World
	reps map[*ssa.Function]bool
	each func(e *Engine, s *State, instr ssa.Instruction)
}

func (k *trustClient) Inline(e *Engine, s *State, cs *CallSite, fn *ssa.Function) bool {
	return len(fn.Blocks) > 0 && isRepo(fn) && k.reps[outermost(fn)]
}

func (k *trustClient) Call(e *Engine, s *State, cs *CallSite) ([]Outcome, bool) {
	return e.strCall(s, cs)
}

func (k *trustClient) Instr(e *Engine, s *State, instr ssa.Instruction) bool {
	k.each(e, s, instr)
	return true
}

func checkC10(c *Ctx) {
	w := c.W
	t := templatesOf(w)
	ws := t.pages()

	// every place that declares a text trusted
	sites := map[ssa.Instruction]string{}
	reps := map[*ssa.Function]bool{}
	for _, fn := range w.Fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				k, x := trusting(ins)
				if k == "" {
					continue
				}
				if _, isC := x.(*ssa.Const); isC {
					continue
				}
				sites[ins] = k
				reps[outermost(fn)] = true
				c.Ob("trusted", fname(fn)+" "+k)
			}
		}
	}
	// functions that lead to one
	for changed := true; changed; {
		changed = false
		for f := range reps {
			for _, cs := range callersOf(f) {
				if o := outermost(cs.Parent()); !reps[o] {
					reps[o], changed = true, true
				}
			}
		}
	}
	judged := map[ssa.Instruction]bool{}
	var found []trustSeen
	note := func(seen *[]trustSeen) func(e *Engine, s *State, instr ssa.Instruction) {
		return func(e *Engine, s *State, instr ssa.Instruction) {
			kind, ok := sites[instr]
			if !ok {
				return
			}
			judged[instr] = true
			_, x := trusting(instr)
			v := e.eval(s, x)
			if kind == "HTML" && operatorText(w, v) {
				return
			}
			if why := unsafePart(kind, v); why != "" {
				*seen = append(*seen, trustSeen{kind, why, instr.Pos(), instr.Parent(), e.Trace(s)})
			}
		}
	}
	// handlers
	for _, v := range routesOf(w, nil) {
		for i := range v.Routes {
			r := v.Routes[i]
			construct := handlerName(r)
			k, ok := runRoute(w, v, r, false, func(k *handlerClient) {
				k.each = note(&found)
				k.out = func(e *Engine, s *State, cs *CallSite, kind string) {
					ct := strings.ToLower(s.D["ctype"])
					fixed := true
					for i, a := range cs.Args {
						if isWriter(a) {
							continue
						}
						switch {
						case a.K == KConst || a.K == KNil || a.K == KStr && len(a.T) == 0:
						case embedded(t, a):
						case cs.Name() == "net/http.ServeContent" && i < len(cs.Args)-1:
						case a.K == KPtr && cs.Sig.Variadic() && i == len(cs.Args)-1:
							x, ok := e.variadic(s, cs.ArgV[i], a)
							for _, y := range x {
								fixed = fixed && y.K == KConst
							}
							fixed = fixed && ok
						default:
							fixed = false
						}
					}
					if kind == "write" && fixed {
						return
					}
					c.ObOnce("raw-output", construct)
					switch {
					case ct == "":
						c.BadAt("raw-output", construct, w.pos(cs.Instr.Pos()), e.Trace(s), "content is written to the response without a content type: a browser may take it for a page")
					case ct == "?" || strings.Contains(ct, "html") || strings.Contains(ct, "xml") || strings.Contains(ct, "svg"):
						c.BadAt("raw-output", construct, w.pos(cs.Instr.Pos()), e.Trace(s), "content is written unescaped to a response of type %s", ct)
					}
				}
			})
			if ok {
				c.ObOnce("handler", construct)
				_ = k
			}
		}
	}
	// functions of templates
	raw := map[string]string{}
	for _, set := range sortedKeys(t.sets) {
		for _, name := range sortedKeys(t.sets[set].funcs) {
			f := t.sets[set].funcs[name]
			if f.K != KFunc || f.Fn == nil {
				continue
			}
			fn, _ := handlerFunc(f)
			if fn == nil || fn.Blocks == nil || !isRepo(fn) {
				continue
			}
			c.ObOnce("function", name+" "+fname(fn))
			var here []trustSeen
			k := &trustClient{w: w, reps: reps, each: note(&here)}
			e := NewEngine(w, k)
			e.Strings, e.RootID = true, "f"
			e.Run(fn, nil)
			if e.Over {
				c.Bad("undecided", fname(fn), fn.Pos(), "too many paths to explore")
			}
			for _, b := range here {
				if b.kind == "HTML" {
					raw[name] = b.why
				} else {
					found = append(found, b)
				}
			}
			// results of other functions that are trusted already
			if len(here) == 0 && fn.Signature.Results().Len() > 0 && trustedType(fn.Signature.Results().At(0).Type()) == "HTML" && !leadsOnlyHere(fn, reps) {
				raw[name] = "a result of " + fname(fn)
			}
		}
	}
	// what is left: functions on their own, and then in the context of their callers
	var alone func(ins ssa.Instruction, fn *ssa.Function, depth int, seen map[*ssa.Function]bool)
	alone = func(ins ssa.Instruction, fn *ssa.Function, depth int, seen map[*ssa.Function]bool) {
		if seen[fn] {
			return
		}
		seen[fn] = true
		var here []trustSeen
		var mine []trustSeen
		k := &trustClient{w: w, reps: reps}
		f := note(&here)
		k.each = func(e *Engine, s *State, instr ssa.Instruction) {
			if instr == ins {
				f(e, s, instr)
			}
		}
		e := NewEngine(w, k)
		e.Strings, e.RootID = true, "f"
		e.Run(fn, nil)
		if e.Over {
			mine = append(mine, trustSeen{"", "too many paths to explore", fn.Pos(), fn, ""})
		}
		mine = append(mine, here...)
		if len(mine) == 0 {
			return
		}
		callers := callersOf(fn)
		if len(callers) == 0 || depth == 0 {
			found = append(found, mine...)
			return
		}
		for _, cs := range callers {
			alone(ins, outermost(cs.Parent()), depth-1, seen)
		}
	}
	for _, fn := range w.Fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if _, ok := sites[ins]; ok && !judged[ins] {
					alone(ins, outermost(fn), 3, map[*ssa.Function]bool{})
				}
			}
		}
	}
	for _, b := range found {
		c.BadAt("trusted", fname(b.fn)+" "+b.kind, w.pos(b.pos), b.trace, "%s is declared trusted (template.%s) although it is not fixed and not escaped for its place", b.why, b.kind)
	}

	// templates
	for _, k := range ws {
		c.ObOnce("page", k.use.name)
		for _, s := range k.sinks {
			loc, _ := k.where(&tscope{tmpl: s.tmpl}, s.node)
			c.Ob("value", loc)
			guarded := func(f string) bool {
				for _, g := range s.guards {
					if strings.HasSuffix(g, "."+f) && !strings.HasPrefix(g, "!") {
						return true
					}
				}
				return false
			}
			for _, e := range s.val.escs {
				if why, ok := raw[e]; ok {
					c.ObOnce("raw-html", loc)
					if !guarded("HTMLRender") {
						c.BadAt("raw-html", k.use.name+"/"+s.tmpl, w.pos(s.use.site.Pos()), loc, "%s: %s passes %s on as markup without the setting for rendering HTML", loc, e, why)
					}
				}
			}
			if s.attr != "" && loadsMedia(s.tag, s.attr) {
				c.ObOnce("image", loc)
				if !guarded("ImageRender") {
					c.BadAt("image", k.use.name+"/"+s.tmpl, w.pos(s.use.site.Pos()), loc, "%s: %s of <%s> shows %s without the setting for rendering images", loc, s.attr, s.tag, s.val.key)
				}
			}
		}
	}
	for _, b := range t.bad {
		if b.rule == "text-template" {
			c.Bad(b.rule, b.construct, b.pos, "%s", b.msg)
		}
	}
	settingSources(c)
}

// embedded: content that is part of the program
func embedded(t *tmplWorld, v Val) bool {
	v.S = strings.TrimPrefix(strings.TrimPrefix(v.S, "fn:bytes.NewReader("), "fn:strings.NewReader(")
	v.S = strings.TrimPrefix(strings.TrimSuffix(v.S, ");"), "o")
	_, _, ok := t.embedVar(v)
	return ok
}

// leadsOnlyHere: every trusted text in fn was seen being made
func leadsOnlyHere(fn *ssa.Function, reps map[*ssa.Function]bool) bool { return reps[outermost(fn)] }

func loadsMedia(tag, attr string) bool {
	switch tag {
	case "img", "video", "audio", "source", "iframe", "embed", "object", "image", "use", "input", "track":
		switch attr {
		case "src", "srcset", "poster", "data", "href", "xlink:href":
			return true
		}
	}
	return attr == "background"
}

// settingSources: the settings for rendering reach the pages unchanged
func settingSources(c *Ctx) {
	for _, fn := range c.W.Fns {
		if fn.Pkg == nil || fn.Pkg.Pkg.Name() == "main" || strings.Contains(pkgPathOf(fn), "/headache") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				st, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				f := fieldName(fa.X.Type(), fa.Field)
				if f != "HTMLRender" && f != "ImageRender" {
					continue
				}
				c.Ob("setting", fname(fn)+" "+f)
				if !sameSetting(st.Val, f, 0) {
					c.Bad("setting", fname(fn)+" "+f, st.Pos(), "%s is set to something other than the setting of that name", f)
				}
			}
		}
	}
}

func sameSetting(v ssa.Value, f string, depth int) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value == nil || x.Value.String() == "false"
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
			return fieldName(fa.X.Type(), fa.Field) == f
		}
		if a, ok := x.X.(*ssa.Alloc); ok && depth < 4 {
			if only := onlyStore(a); only != nil {
				return sameSetting(only, f, depth+1)
			}
		}
	case *ssa.Field:
		return fieldName(x.X.Type(), x.Field) == f
	case *ssa.Phi:
		for _, e := range x.Edges {
			if depth > 4 || !sameSetting(e, f, depth+1) {
				return false
			}
		}
		return true
	}
	return false
}

func init() {
	register(&Check{Prop: "C10", Run: checkC10,
		Explain: "Every conversion of text to a trusted type of html/template is evaluated on all abstract paths of every request handler, of every function given to templates, and of the functions in which it stands (where parameters decide, in its callers): the text must be made of fixed parts and parts escaped for their place. Functions of templates that make unescaped HTML may only be used where the setting for rendering HTML was tested, and addresses of images only where the one for images was. Content written to a response by other means than an html/template page must have a content type that is no markup.",
		Assume:  []string{"html/template escapes according to the context of a value", "net/url and html escape as documented", "the footer is given by the operator"},
		Floors:  map[string]int{"trusted": 3, "handler": 7, "page": 5, "value": 60, "raw-html": 1, "image": 1, "raw-output": 3}})
}
