package main

// C11: links and redirects lead to routes that exist, with their values intact.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// lpart is a part of an address: fixed text, or a value with its encoding
type lpart struct {
	text string
	enc  string // "", path, query, num, raw, pairs, ?
	src  string
}

type linkAddr struct {
	where, construct string
	pos              token.Pos
	trace            string
	parts            []lpart
	inputs           []string
	tmpl             bool // encoded further by html/template
	guards           []string
	use              *tmplUse
}

// identityFunc: the function returns its argument as it is
func identityFunc(fn *ssa.Function) bool {
	if fn == nil || fn.Blocks == nil || len(fn.Params) != 1 {
		return false
	}
	n := 0
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			r, ok := ins.(*ssa.Return)
			if !ok {
				continue
			}
			n++
			v := r.Results[0]
			for {
				switch x := v.(type) {
				case *ssa.ChangeType:
					v = x.X
					continue
				case *ssa.Convert:
					v = x.X
					continue
				}
				break
			}
			if v != ssa.Value(fn.Params[0]) {
				return false
			}
		}
	}
	return n > 0
}

// goParts turns an address made in Go into parts
func goParts(v Val) []lpart {
	var out []lpart
	for _, p := range strParts(v) {
		if c, ok := constStr(p); ok {
			out = append(out, lpart{text: c})
			continue
		}
		s := p.S
		for _, f := range []string{"net/url.PathEscape", "net/url.QueryEscape"} {
			if in, ok := strings.CutPrefix(s, "fn:"+f+"(o"); ok && numeric(in) {
				s = in // numbers are not changed
			}
		}
		switch {
		case p.K != KOpaque:
			out = append(out, lpart{enc: "?", src: s})
		case fnTerm(s, "net/url.PathEscape", "urlpath"):
			out = append(out, lpart{enc: "path", src: s})
		case fnTerm(s, "net/url.QueryEscape"):
			out = append(out, lpart{enc: "query", src: s})
		case fnTerm(s, "(net/url.Values).Encode"):
			out = append(out, lpart{enc: "pairs", src: s})
		case numeric(s):
			out = append(out, lpart{enc: "num", src: s})
		case strings.HasPrefix(s, "mix:"), strings.HasPrefix(s, "fn:(*net/url.URL).String("):
			out = append(out, lpart{enc: "?", src: s})
		default:
			out = append(out, lpart{enc: "raw", src: s})
		}
	}
	return out
}

type patTok struct {
	re   *regexp.Regexp
	vars []string
	res  map[string]string
}

var patMemo = map[string]*patTok{}

func compilePattern(p string, prefix bool) *patTok {
	key := fmt.Sprint(p, prefix)
	if t, ok := patMemo[key]; ok {
		return t
	}
	t := &patTok{res: map[string]string{}}
	var b strings.Builder
	b.WriteString("^(?s:")
	for i := 0; i < len(p); {
		if p[i] != '{' {
			b.WriteString(regexp.QuoteMeta(p[i : i+1]))
			i++
			continue
		}
		depth, j := 0, i
		for ; j < len(p); j++ {
			if p[j] == '{' {
				depth++
			} else if p[j] == '}' {
				if depth--; depth == 0 {
					break
				}
			}
		}
		if j >= len(p) {
			return nil
		}
		name, re, has := strings.Cut(p[i+1:j], ":")
		if !has {
			re = "[^/]+"
		}
		t.vars = append(t.vars, name)
		t.res[name] = re
		fmt.Fprintf(&b, "(%s)", strings.ReplaceAll(re, "(?:", "(?:"))
		i = j + 1
	}
	b.WriteString(")")
	if !prefix {
		b.WriteString("$")
	}
	re, err := regexp.Compile(b.String())
	if err != nil {
		return nil
	}
	t.re = re
	patMemo[key] = t
	return t
}

// wholeVar: pattern of a query value that is one variable
func wholeVar(p string) (name, re string, ok bool) {
	if !strings.HasPrefix(p, "{") || !strings.HasSuffix(p, "}") {
		return "", "", false
	}
	name, re, has := strings.Cut(p[1:len(p)-1], ":")
	if !has {
		re = ".*"
	}
	return name, re, true
}

type qpair struct {
	name, sample string
}

// matchRoute finds the route that serves a request
func matchRoute(rs []*route, pathv string, query []qpair) (*route, map[string]string) {
next:
	for _, r := range rs {
		t := compilePattern(r.Pattern, r.Prefix)
		if t == nil {
			continue
		}
		m := t.re.FindStringSubmatch(pathv)
		if m == nil || len(m) != len(t.vars)+1 {
			continue
		}
		vars := map[string]string{}
		for i, v := range t.vars {
			vars[v] = m[i+1]
		}
		for i := 0; i+1 < len(r.Queries); i += 2 {
			found := false
			for _, q := range query {
				if q.name != r.Queries[i] {
					continue
				}
				if n, re, ok := wholeVar(r.Queries[i+1]); ok {
					if x, err := regexp.Compile("^(?s:" + re + ")$"); err == nil && x.MatchString(q.sample) {
						vars[n] = q.sample
						found = true
					}
				} else if r.Queries[i+1] == "" || r.Queries[i+1] == q.sample {
					found = true
				}
				break
			}
			if !found {
				continue next
			}
		}
		if len(r.Methods) > 0 {
			ok := false
			for _, m := range r.Methods {
				ok = ok || strings.EqualFold(m, "GET")
			}
			if !ok {
				continue
			}
		}
		return r, vars
	}
	return nil, nil
}

type linkCheck struct {
	c      *Ctx
	v      *viewerRoutes
	dist   map[string]bool
	qreads map[*route]map[string]bool
}

func (k *linkCheck) bad(rule string, l *linkAddr, format string, args ...any) {
	k.c.BadAt(rule, l.construct, k.c.W.pos(l.pos), l.trace, "%s: %s", l.where, fmt.Sprintf(format, args...))
}

func shortSrc(s string) string {
	s = strings.NewReplacer("ofn:", "", "fn:", "", "oh:r;", "r", ";", "").Replace(s)
	if len(s) > 120 {
		s = s[:120] + "…"
	}
	return s
}

// check one address
func (k *linkCheck) check(l *linkAddr) {
	c := k.c
	if len(l.parts) == 0 {
		return
	}
	first := l.parts[0]
	if first.enc != "" {
		if first.enc == "?" {
			k.bad("undecided", l, "the address cannot be followed: %s", shortSrc(first.src))
		}
		return // an address taken from the data
	}
	if strings.HasPrefix(first.text, "//") || regexp.MustCompile(`^[a-zA-Z][a-zA-Z0-9+.-]*:`).MatchString(first.text) {
		return // elsewhere
	}
	if strings.HasPrefix(first.text, "#") || strings.HasPrefix(first.text, "?") {
		return
	}
	if !strings.HasPrefix(first.text, "/") {
		if first.text != "" {
			c.Ob("link", l.where)
			k.bad("relative", l, "the address %q depends on the page it stands on", first.text)
		}
		return
	}
	c.Ob("link", l.where)
	type seg struct {
		text string
		val  *lpart
	}
	pathS := ""
	values := map[string]*lpart{}
	state := 'p'
	var query []qpair
	cur := ""
	curVals := 0
	qvals := map[string][]*lpart{}
	pairs := false
	n := 0
	flush := func() {
		if cur == "" && curVals == 0 {
			return
		}
		name, val, _ := strings.Cut(cur, "=")
		query = append(query, qpair{name, val})
		cur, curVals = "", 0
	}
	for i := range l.parts {
		p := &l.parts[i]
		if p.enc == "" {
			for _, ch := range p.text {
				switch {
				case state == 'p' && ch == '?':
					state = 'q'
				case ch == '#' && state != 'f':
					if state == 'q' {
						flush()
					}
					state = 'f'
				case state == 'p':
					pathS += string(ch)
				case state == 'q' && ch == '&':
					flush()
				case state == 'q':
					cur += string(ch)
				}
			}
			continue
		}
		if p.enc == "?" {
			k.bad("undecided", l, "a part of the address cannot be followed: %s", shortSrc(p.src))
			return
		}
		n++
		switch state {
		case 'p':
			ph := fmt.Sprintf("va%d/lu#e", n)
			if p.enc == "num" {
				ph = fmt.Sprint(700 + n)
			}
			values[ph] = p
			pathS += ph
			if p.enc != "path" && p.enc != "num" {
				k.bad("encoding", l, "%s stands in the path of the address but is not encoded for a path segment", shortSrc(p.src))
			}
		case 'q':
			if p.enc == "pairs" {
				pairs = true
				continue
			}
			ph := fmt.Sprintf("http://va%d/?lu&e", n)
			if p.enc == "num" {
				ph = fmt.Sprint(700 + n)
			}
			name, _, has := strings.Cut(cur, "=")
			if !has {
				k.bad("encoding", l, "%s stands where the name of a parameter is expected", shortSrc(p.src))
			}
			qvals[name] = append(qvals[name], p)
			cur += ph
			curVals++
			want := "query"
			if l.tmpl {
				want = "raw"
			}
			if p.enc != want && p.enc != "num" {
				if l.tmpl {
					k.bad("encoding", l, "%s is encoded although html/template encodes it for the query again: the other side receives another value", shortSrc(p.src))
				} else {
					k.bad("encoding", l, "%s stands in the query of the address but is not encoded for a query", shortSrc(p.src))
				}
			}
		}
	}
	if state == 'q' {
		flush()
	}
	for _, in := range l.inputs {
		query = append(query, qpair{in, "http://input/?lu&e"})
	}
	r, vars := matchRoute(k.v.Routes, pathS, query)
	if r == nil {
		if pairs {
			k.bad("undecided", l, "the parameters of the address are not known")
			return
		}
		var qs []string
		for _, q := range query {
			qs = append(qs, q.name)
		}
		k.bad("no-route", l, "no route serves %s with parameters %v", pathS, qs)
		return
	}
	for _, o := range r.Other {
		k.bad("no-route", l, "the route %s has another restriction (%s)", r.Pattern, o)
	}
	// values must arrive whole
	for ph, p := range values {
		name := ""
		for n, v := range vars {
			if v == ph {
				name = n
			}
		}
		if name == "" {
			k.bad("value", l, "%s does not arrive as one parameter of %s", shortSrc(p.src), r.Pattern)
			continue
		}
		if p.enc != "num" {
			t := compilePattern(r.Pattern, r.Prefix)
			if re := t.res[name]; !k.v.Opts["SkipClean"] {
				k.bad("value", l, "the router cleans paths, so %s is changed before it arrives (pattern %s)", name, re)
			}
			k.role(l, p, name, false)
		}
	}
	defined := map[string]bool{}
	for i := 0; i+1 < len(r.Queries); i += 2 {
		defined[r.Queries[i]] = true
	}
	for _, q := range query {
		if !defined[q.name] && !k.qreads[r][q.name] {
			k.bad("parameter", l, "the parameter %s is ignored by the route that serves %s (%s)", q.name, pathS, r.Pattern)
		}
		if len(qvals[q.name]) > 1 {
			k.bad("encoding", l, "the parameter %s is put together from several values", q.name)
		}
		for _, p := range qvals[q.name] {
			if p.enc != "num" {
				k.role(l, p, q.name, true)
			}
		}
	}
	// assets that are part of the program
	if r.Prefix && strings.HasPrefix(r.Pattern, "/assets") {
		c.ObOnce("asset", pathS)
		if f := strings.TrimPrefix(pathS, r.Pattern); !k.dist[f] {
			k.bad("asset", l, "the file %s is not part of the assets", f)
		}
	}
	k.registered(l, r)
}

// role: the right kind of value for the parameter
func (k *linkCheck) role(l *linkAddr, p *lpart, name string, query bool) {
	wrong := false
	if l.tmpl {
		last := p.src[strings.LastIndexByte(p.src, '.')+1:]
		switch name {
		case "bundle":
			wrong = last != "MachineName" && last != "MachineName()"
		case "uri":
			wrong = last == "MachineName" || last == "Name" || last == "MachineName()"
		}
	} else {
		for _, other := range []string{"bundle", "uri", "id", "limit", "skip"} {
			if other != name && strings.Contains(p.src, `,c("`+other+`"))`) && !strings.Contains(p.src, `,c("`+name+`"))`) {
				wrong = true
			}
		}
	}
	if wrong {
		k.bad("role", l, "%s is given as parameter %s", shortSrc(p.src), name)
	}
}

// registered: where the route only exists with some settings, the link must only be shown with them
func (k *linkCheck) registered(l *linkAddr, r *route) {
	all := true
	for _, w := range k.v.Ways {
		all = all && w.Reg[r.Pattern]
	}
	if all {
		return
	}
	k.c.ObOnce("conditional", l.where)
	holds := func(set map[string]string) bool {
		for _, w := range k.v.Ways {
			fits := true
			for s, v := range set {
				if x, ok := w.Set[s]; ok && x != v {
					fits = false
				}
			}
			if fits && !w.Reg[r.Pattern] {
				return false
			}
		}
		return true
	}
	for _, g := range l.guards {
		if strings.HasPrefix(g, "!") || l.use == nil {
			continue
		}
		names := strings.Split(g, ".")
		if names[0] != "ctx" {
			continue
		}
		t := l.use.data.Type()
		var fn *ssa.Function
		field := ""
		for _, n := range names[1:] {
			n = strings.TrimSuffix(n, "()")
			obj, _, _ := types.LookupFieldOrMethod(t, true, nil, n)
			if obj == nil {
				t = nil
				break
			}
			if f, ok := obj.(*types.Func); ok {
				fn = k.c.W.Prog.FuncValue(f)
				t = f.Type().(*types.Signature).Results().At(0).Type()
				field = ""
			} else {
				t, field, fn = obj.Type(), n, nil
			}
		}
		if t == nil {
			continue
		}
		if fn != nil && fn.Blocks != nil {
			g := &guardClient{settingsClient: settingsClient{w: k.c.W}}
			e := NewEngine(k.c.W, g)
			e.Strings, e.RootID = true, "g"
			e.Run(fn, nil)
			ok := len(g.truthy) > 0 && !e.Over
			for _, set := range g.truthy {
				ok = ok && holds(set)
			}
			if ok {
				return
			}
		} else if field != "" && holds(map[string]string{field: "t"}) {
			return
		}
	}
	k.bad("conditional", l, "the route %s only exists with some settings, but the link is shown without them", r.Pattern)
}

// guardClient finds the settings with which a method returns something
type guardClient struct {
	settingsClient
	truthy []map[string]string
}

func (k *guardClient) Inline(e *Engine, s *State, cs *CallSite, fn *ssa.Function) bool {
	return len(fn.Blocks) > 0 && followed(fn)
}

func (k *guardClient) Call(e *Engine, s *State, cs *CallSite) ([]Outcome, bool) {
	return k.strings(e, s, cs)
}

func (k *guardClient) Exit(e *Engine, s *State, kind ExitKind, instr ssa.Instruction, res []Val) {
	if kind != ExitReturn || len(res) == 0 {
		return
	}
	if c, ok := constStr(res[0]); ok && c == "" {
		return
	}
	if res[0].K == KBool && res[0].N == 0 || res[0].K == KNil {
		return
	}
	k.truthy = append(k.truthy, settingsOf(s))
}

func sampleOf(re string) string {
	x, err := regexp.Compile("^(?s:" + re + ")$")
	if err != nil {
		return ""
	}
	for _, s := range []string{"http://v/x", "a/b", "v", "7", ""} {
		if x.MatchString(s) {
			return s
		}
	}
	return ""
}

func checkC11(c *Ctx) {
	w := c.W
	t := templatesOf(w)
	ws := t.pages()
	dist := map[string]bool{}
	var scripts []string
	for _, p := range w.Pkgs {
		if strings.HasSuffix(p.Types.Path(), "/internal/assets") {
			for _, f := range p.List.EmbedFiles {
				if rest, ok := strings.CutPrefix(f, "dist/"); ok {
					dist[rest] = true
					if strings.HasSuffix(f, ".js") {
						scripts = append(scripts, filepath.Join(p.Dir, f))
					}
				}
			}
		}
	}
	viewers := routesOf(w, nil)
	for _, v := range viewers {
		k := &linkCheck{c: c, v: v, dist: dist, qreads: map[*route]map[string]bool{}}
		reads := map[*route]map[string]token.Pos{}
		var links []*linkAddr
		for _, r := range v.Routes {
			r := r
			c.Ob("route", r.Pattern)
			construct := handlerName(r)
			k.qreads[r] = map[string]bool{}
			reads[r] = map[string]token.Pos{}
			seen := map[string]bool{}
			add := func(e *Engine, s *State, v Val, pos token.Pos, what string) {
				key := fmt.Sprint(pos, v.String())
				if seen[key] {
					return
				}
				seen[key] = true
				links = append(links, &linkAddr{where: what, construct: construct, pos: pos, trace: e.Trace(s), parts: goParts(v)})
			}
			kk, ok := runRoute(w, v, r, false, func(h *handlerClient) {
				h.each = func(e *Engine, s *State, instr ssa.Instruction) {
					if kind, x := trusting(instr); kind == "URL" {
						add(e, s, e.eval(s, x), instr.Pos(), "address")
					}
					if lk, ok := instr.(*ssa.Lookup); ok {
						if m := e.eval(s, lk.X); fnTerm(m.S, "vars") {
							if n, ok := constStr(e.eval(s, lk.Index)); ok {
								reads[r][n] = lk.Pos()
							} else {
								c.Bad("undecided", construct, lk.Pos(), "a parameter of unknown name is read")
							}
						}
					}
				}
				h.hook = func(e *Engine, s *State, cs *CallSite) {
					switch cs.Name() {
					case "net/http.Redirect":
						add(e, s, cs.Args[2], cs.Instr.Pos(), "redirect")
					case "(net/url.Values).Get", "(*net/http.Request).FormValue", "(*net/http.Request).PostFormValue", "(net/url.Values).Has":
						if n, ok := constStr(cs.Args[len(cs.Args)-1]); ok {
							k.qreads[r][n] = true
						}
					}
					if op, key, ok := headerOp(cs); ok && op == "set" {
						if n, _ := constStr(key); strings.EqualFold(n, "Location") {
							add(e, s, cs.Args[len(cs.Args)-1], cs.Instr.Pos(), "redirect")
						}
					}
				}
			})
			if ok && kk != nil {
				for _, b := range kk.bad {
					c.Bad("undecided", construct, r.Pos, "%s", b)
				}
			}
			// the route is not hidden by an earlier one
			if tp := compilePattern(r.Pattern, r.Prefix); tp == nil {
				c.Bad("undecided", construct, r.Pos, "the pattern %s is not understood", r.Pattern)
			} else {
				sample := r.Pattern
				for _, n := range tp.vars {
					for _, full := range []string{"{" + n + ":" + tp.res[n] + "}", "{" + n + "}"} {
						sample = strings.Replace(sample, full, sampleOf(tp.res[n]), 1)
					}
				}
				var q []qpair
				for i := 0; i+1 < len(r.Queries); i += 2 {
					val := r.Queries[i+1]
					if _, re, ok := wholeVar(val); ok {
						val = sampleOf(re)
					}
					q = append(q, qpair{r.Queries[i], val})
				}
				if got, _ := matchRoute(v.Routes, sample, q); got != nil && got != r {
					c.Bad("shadowed", construct, r.Pos, "the route %s is never reached: %s, registered before it, takes its requests", r.Pattern, got.Pattern)
				}
				// parameters that take bundles and addresses must be able to
				for n, re := range tp.res {
					c.ObOnce("parameter", r.Pattern+" "+n)
					if n == "bundle" {
						if x, err := regexp.Compile("^(?s:" + re + ")$"); err != nil || !x.MatchString("a/b c%#ü") {
							c.Bad("value", construct, r.Pos, "the pattern of %s cannot take every bundle name: %s", n, re)
						}
					}
				}
				for i := 0; i+1 < len(r.Queries); i += 2 {
					c.ObOnce("parameter", r.Pattern+" "+r.Queries[i])
					if n, re, ok := wholeVar(r.Queries[i+1]); ok && n == "uri" {
						if x, err := regexp.Compile("^(?s:" + re + ")$"); err != nil || !x.MatchString("http://a/b?c=d&e#f ü") {
							c.Bad("value", construct, r.Pos, "the pattern of %s cannot take every address: %s", n, re)
						}
					}
				}
			}
		}
		// parameters that are read must be defined
		for _, r := range v.Routes {
			for n, pos := range reads[r] {
				c.ObOnce("read", handlerName(r)+" "+n)
				ok := false
				for _, o := range v.Routes {
					if handlerName(o) != handlerName(r) {
						continue
					}
					tp := compilePattern(o.Pattern, o.Prefix)
					if tp == nil {
						continue
					}
					def := tp.res[n] != ""
					for i := 1; i < len(o.Queries); i += 2 {
						if m, _, w := wholeVar(o.Queries[i]); w && m == n {
							def = true
						}
					}
					ok = ok || def
				}
				if !ok {
					c.Bad("read", handlerName(r), pos, "%s reads the parameter %s, which none of its routes defines", handlerName(r), n)
				}
			}
		}
		// templates
		for _, pg := range ws {
			for i := range pg.links {
				tl := &pg.links[i]
				l := &linkAddr{where: tl.tmpl + " <" + tl.tag + " " + tl.attr + ">", construct: pg.use.name + "/" + tl.tmpl, pos: pg.use.site.Pos(), tmpl: true, guards: tl.guards, use: pg.use, inputs: sortedKeys(tl.inputs)}
				for _, p := range tl.parts {
					if p.val == nil {
						l.parts = append(l.parts, lpart{text: p.text})
						continue
					}
					if p.val.lit != nil && len(p.val.escs) == 0 {
						l.parts = append(l.parts, lpart{text: *p.val.lit})
						continue
					}
					enc := "raw"
					for _, e := range p.val.escs {
						f := pg.set.funcs[e]
						fn, _ := handlerFunc(f)
						switch {
						case fn != nil && qualName(fn) == "net/url.PathEscape":
							if enc != "raw" {
								enc = "double"
							} else {
								enc = "path"
							}
						case fn != nil && qualName(fn) == "net/url.QueryEscape":
							enc = "query"
						case fn != nil && identityFunc(fn):
						case fn == nil && (e == "print" || e == "printf" || e == "html"):
							enc = "?"
						case e == "urlquery":
							enc = "query"
						default:
							enc = "other"
						}
					}
					l.parts = append(l.parts, lpart{enc: enc, src: p.val.key})
				}
				if tl.attr == "action" && tl.method != "" && !strings.EqualFold(tl.method, "GET") {
					k.bad("no-route", l, "a form is sent with %s", tl.method)
				}
				if len(l.parts) > 0 && strings.HasPrefix(l.parts[0].text, "#") {
					c.Ob("fragment", l.where)
					id := strings.TrimPrefix(l.parts[0].text, "#")
					if len(l.parts) == 1 && id != "" && id != "top" && !pg.ids[id] {
						k.bad("fragment", l, "the page has no element with id %s", id)
					}
				}
				links = append(links, l)
			}
		}
		for _, f := range scripts {
			b, err := os.ReadFile(f)
			if err != nil {
				continue
			}
			for _, m := range regexp.MustCompile("[\"'`](/api/v1[a-z0-9/]*)[\"'`]").FindAllStringSubmatch(string(b), -1) {
				links = append(links, &linkAddr{where: filepath.Base(f), construct: "script " + filepath.Base(f), parts: []lpart{{text: m[1]}}})
			}
		}
		for _, l := range links {
			k.check(l)
		}
	}
}

func init() {
	register(&Check{Prop: "C11", Run: checkC11,
		Explain: "The routes are found by following the code that registers them. Every address in a page (walking the templates with their types), every redirect and every address made by a request handler (all abstract paths) is split into fixed text and values with their encodings, and matched against the routes in the order of registration: a route must serve it, all its parameters must be used, each value must arrive whole in one parameter and be encoded exactly once for its place. Handlers may only read parameters that their routes define, no route may be hidden by an earlier one, files of assets must be part of the program, and links to routes that only exist with some settings must be shown only with those settings.",
		Assume:  []string{"gorilla/mux serves the first route that matches, on the decoded path", "html/template encodes raw values in a query and keeps escapes in a path", "net/url encodes as documented"},
		Floors:  map[string]int{"route": 9, "link": 30, "asset": 4, "fragment": 2, "read": 4, "parameter": 5}})
}
