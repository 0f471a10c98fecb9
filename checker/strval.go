package main

// How strings are put together: values of kind KStr list the parts of a string,
// constants (quoted) and terms that say which pure functions they went through.

import (
	"fmt"
	"go/types"
	"net/url"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

const maxParts = 400

func strParts(v Val) []Val {
	if v.K == KStr {
		return v.T
	}
	if v.K == KConst && v.S == `""` {
		return nil
	}
	return []Val{v}
}

func constStr(v Val) (string, bool) {
	if v.K == KStr && len(v.T) == 0 {
		return "", true
	}
	if v.K != KConst || len(v.S) < 2 || v.S[0] != '"' {
		return "", false
	}
	s, err := strconv.Unquote(v.S)
	return s, err == nil
}

func strConst(s string) Val { return Val{K: KConst, S: strconv.Quote(s)} }

func concat(vs ...Val) Val {
	var out []Val
	for _, v := range vs {
		for _, p := range strParts(v) {
			if n := len(out); n > 0 {
				a, ok1 := constStr(out[n-1])
				b, ok2 := constStr(p)
				if ok1 && ok2 {
					out[n-1] = strConst(a + b)
					continue
				}
			}
			out = append(out, p)
		}
	}
	switch {
	case len(out) == 0:
		return strConst("")
	case len(out) == 1:
		return out[0]
	case len(out) > maxParts:
		// too long to follow: keep what goes in, forget the order
		seen := map[string]bool{}
		mixAtoms(Val{K: KStr, T: out}, seen)
		return mixOf(seen)
	}
	return Val{K: KStr, T: out}
}

const mixSep = " && "

// mixAtoms collects what a text is made of
func mixAtoms(v Val, into map[string]bool) {
	for _, p := range strParts(v) {
		if rest, ok := strings.CutPrefix(p.S, "mix:"); ok && p.K == KOpaque {
			for _, x := range strings.Split(strings.TrimSuffix(rest, ";"), mixSep) {
				into[x] = true
			}
			continue
		}
		into[p.String()] = true
	}
}

func mixOf(atoms map[string]bool) Val {
	return opaque("mix:" + strings.Join(sortedKeys(atoms), mixSep) + ";")
}

// grow is concat at one place of the code: where a text keeps changing, only what
// it is made of is kept
func (e *Engine) grow(s *State, instr ssa.Instruction, vs ...Val) Val {
	v := concat(vs...)
	if v.K == KConst && len(v.S) < 2000 && !e.inLoop(instr) {
		return v
	}
	if e.strSeen == nil {
		e.strSeen = map[string]map[string]bool{}
	}
	site := fmt.Sprintf("%s|%p", s.top().id, instr)
	if e.strSeen[site] == nil {
		e.strSeen[site] = map[string]bool{}
	}
	seen := e.strSeen[site]
	limit := 2000
	if e.inLoop(instr) {
		limit = 96
	}
	if mixed := e.strMix[site]; mixed == nil && len(seen) < limit && (limit > 96 || len(v.T) <= 12) {
		seen[v.String()] = true
		return v
	}
	if seen[v.String()] {
		return v
	}
	if e.strMix == nil {
		e.strMix = map[string]map[string]bool{}
	}
	if e.strMix[site] == nil {
		e.strMix[site] = map[string]bool{}
	}
	for _, x := range vs {
		mixAtoms(x, e.strMix[site])
	}
	return mixOf(e.strMix[site])
}

// inLoop: the instruction is part of a cycle of its function
func (e *Engine) inLoop(instr ssa.Instruction) bool {
	b := instr.Block()
	if v, ok := loopBlocks[b]; ok {
		return v
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock(nil), b.Succs...)
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		work = append(work, x.Succs...)
	}
	loopBlocks[b] = seen[b]
	return seen[b]
}

var loopBlocks = map[*ssa.BasicBlock]bool{}

// term names the result of a pure function
func term(name string, args ...Val) Val {
	var b strings.Builder
	b.WriteString("fn:" + name + "(")
	for i, a := range args {
		if i > 0 {
			b.WriteByte(',')
		}
		b.WriteString(a.String())
	}
	b.WriteString(");")
	s := b.String()
	if len(s) > 4000 {
		s = s[:4000] + ");"
	}
	return opaque(s)
}

// bag: a list of strings of which only the set of elements is known
func bag(vs ...Val) Val {
	seen := map[string]bool{}
	for _, v := range vs {
		if rest, ok := strings.CutPrefix(v.S, "bag:{"); ok && v.K == KOpaque {
			for _, x := range strings.Split(strings.TrimSuffix(rest, "};"), " || ") {
				if x != "" {
					seen[x] = true
				}
			}
			continue
		}
		seen[v.String()] = true
	}
	return opaque("bag:{" + strings.Join(sortedKeys(seen), " || ") + "};")
}

var pureStrFuncs = map[string]bool{
	"net/url.PathEscape": true, "net/url.QueryEscape": true, "net/url.Parse": true, "net/url.JoinPath": true,
	"net/url.PathUnescape": true, "net/url.QueryUnescape": true, "net/url.ParseRequestURI": true,
	"(*net/url.URL).String": true, "(net/url.Values).Encode": true, "(*net/url.URL).EscapedPath": true,
	"(*net/url.URL).Query": true, "(net/url.Values).Get": true, "(*net/http.Request).FormValue": true,
	"html.EscapeString": true, "golang.org/x/net/html.EscapeString": true,
	"html/template.HTMLEscapeString": true, "html/template.JSEscapeString": true, "html/template.URLQueryEscaper": true,
	"strconv.Itoa": true, "strconv.Quote": true, "strconv.FormatInt": true, "strconv.FormatUint": true, "strconv.Atoi": true,
	"path.Join": true, "path.Clean": true, "path/filepath.Join": true, "path/filepath.Clean": true,
	"path.Base": true, "path/filepath.Base": true,
}

func pureStr(name string) bool {
	return pureStrFuncs[name] || strings.HasPrefix(name, "strings.") && !strings.HasPrefix(name, "strings.New")
}

// elems returns the elements of a list of known length
func (s *State) elems(v Val) ([]Val, bool) {
	if v.K == KNil {
		return nil, true
	}
	if v.K != KPtr {
		return nil, false
	}
	n, ok := s.lenOf(v)
	if !ok {
		// variadic arguments: consecutive elements from 0
		var out []Val
		for i := 0; ; i++ {
			x, ok := s.mem[v.S+"["+strconv.Itoa(i)+"]"]
			if !ok {
				break
			}
			out = append(out, x)
		}
		return out, len(out) > 0
	}
	var out []Val
	for i := int64(0); i < n; i++ {
		x, ok := s.mem[v.S+"["+strconv.FormatInt(i, 10)+"]"]
		if !ok {
			return nil, false
		}
		out = append(out, x)
	}
	return out, true
}

// variadic returns the arguments packed into the variadic parameter at SSA value v
func (e *Engine) variadic(s *State, v ssa.Value, val Val) ([]Val, bool) {
	if val.K == KNil {
		return nil, true
	}
	if sl, ok := v.(*ssa.Slice); ok && val.K == KPtr {
		if p, ok := sl.X.Type().Underlying().(*types.Pointer); ok {
			if a, ok := p.Elem().Underlying().(*types.Array); ok {
				var out []Val
				for i := int64(0); i < a.Len(); i++ {
					x, ok := s.mem[val.S+"["+strconv.FormatInt(i, 10)+"]"]
					if !ok {
						return nil, false
					}
					out = append(out, x)
				}
				return out, true
			}
		}
	}
	return s.elems(val)
}

func isBufType(t types.Type) bool {
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil {
		return false
	}
	p := n.Obj().Pkg().Path() + "." + n.Obj().Name()
	return p == "strings.Builder" || p == "bytes.Buffer"
}

// unwrapIface looks through conversions to an interface
func unwrapIface(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

func (e *Engine) bufCell(s *State, v ssa.Value, val Val) (string, bool) {
	if !isBufType(unwrapIface(v).Type()) {
		return "", false
	}
	k, ok := e.addr(s, val)
	return k + "#str", ok
}

// sprintf evaluates a format with known text
func sprintf(format string, args []Val, argT func(int) types.Type) Val {
	var out []Val
	lit := ""
	n := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			lit += string(format[i])
			continue
		}
		j := i + 1
		for j < len(format) && strings.IndexByte("+-# 0123456789.[]*", format[j]) >= 0 {
			j++
		}
		if j >= len(format) {
			break
		}
		verb := format[j]
		mods := format[i+1 : j]
		i = j
		if verb == '%' {
			lit += "%"
			continue
		}
		if lit != "" {
			out = append(out, strConst(lit))
			lit = ""
		}
		if n >= len(args) || strings.ContainsAny(mods, "[*") {
			out = append(out, opaque("fmt:?;"))
			continue
		}
		a := args[n]
		t := argT(n)
		n++
		switch {
		case (verb == 's' || verb == 'v') && mods == "" && (t == nil || isString(t)):
			out = append(out, a)
		case (verb == 'd' || verb == 'v') && mods == "" && a.K == KConst && a.S != "" && a.S[0] != '"':
			out = append(out, strConst(a.S))
		default:
			out = append(out, term("fmt.%"+mods+string(verb), a))
		}
	}
	if lit != "" {
		out = append(out, strConst(lit))
	}
	return concat(out...)
}

// argType gives the static types of variadic interface arguments
func argTypes(v ssa.Value) func(int) types.Type {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return func(int) types.Type { return nil }
	}
	m := map[int]types.Type{}
	if refs := sl.X.Referrers(); refs != nil {
		for _, r := range *refs {
			ia, ok := r.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			c, ok := ia.Index.(*ssa.Const)
			if !ok {
				continue
			}
			for _, rr := range *ia.Referrers() {
				if st, ok := rr.(*ssa.Store); ok {
					m[int(c.Int64())] = unwrapIface(st.Val).Type()
				}
			}
		}
	}
	return func(i int) types.Type { return m[i] }
}

// strCall models calls that put strings together
func (e *Engine) strCall(s *State, cs *CallSite) ([]Outcome, bool) {
	one := func(v Val) ([]Outcome, bool) { return []Outcome{{Val: v}}, true }
	if b, ok := cs.Instr.Common().Value.(*ssa.Builtin); ok && !cs.Instr.Common().IsInvoke() {
		if b.Name() == "append" && len(cs.Args) == 2 {
			if sl, ok := cs.Sig.Results().At(0).Type().Underlying().(*types.Slice); ok && isString(sl.Elem()) {
				var all []Val
				for i, a := range cs.Args {
					if a.K == KNil {
						continue
					}
					if strings.HasPrefix(a.S, "bag:{") {
						all = append(all, a)
						continue
					}
					if x, ok := e.variadic(s, cs.ArgV[i], a); ok {
						all = append(all, x...)
					} else if _, made := cs.ArgV[i].(*ssa.MakeSlice); !made {
						all = append(all, opaque("elem:"+a.S+";"))
					}
				}
				return one(bag(all...))
			}
		}
		return nil, false
	}
	name := cs.Name()
	switch name {
	case "fmt.Sprintf", "fmt.Fprintf":
		k := 0
		cell := ""
		if name == "fmt.Fprintf" {
			k = 1
			c, ok := e.bufCell(s, cs.ArgV[0], cs.Args[0])
			if !ok {
				return nil, false
			}
			cell = c
		}
		f, ok := constStr(cs.Args[k])
		args, ok2 := e.variadic(s, cs.ArgV[k+1], cs.Args[k+1])
		v := term("fmt.Sprintf", cs.Args[k], opaque(cs.ResID))
		if ok && ok2 {
			v = sprintf(f, args, argTypes(cs.ArgV[k+1]))
		}
		if cell != "" {
			return []Outcome{{Val: Val{K: KTuple, T: []Val{opaque("n;"), {K: KNil}}}, Apply: func(s *State) {
				s.mem[cell] = e.grow(s, cs.Instr, bufText(s, cell), v)
			}}}, true
		}
		return one(v)
	case "fmt.Sprint":
		if args, ok := e.variadic(s, cs.ArgV[0], cs.Args[0]); ok && len(args) == 1 {
			return one(args[0])
		}
		return nil, false
	case "strings.Join":
		if strings.HasPrefix(cs.Args[0].S, "bag:{") {
			return one(term("strings.Join", cs.Args...))
		}
		if sep, ok := constStr(cs.Args[1]); ok {
			if el, ok := e.variadic(s, cs.ArgV[0], cs.Args[0]); ok {
				var all []Val
				for i, x := range el {
					if i > 0 {
						all = append(all, strConst(sep))
					}
					all = append(all, x)
				}
				return one(concat(all...))
			}
		}
		return one(term(name, cs.Args...))
	case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains", "strings.EqualFold":
		a, ok1 := constStr(cs.Args[0])
		b, ok2 := constStr(cs.Args[1])
		if ok1 && ok2 {
			switch name {
			case "strings.HasPrefix":
				return one(boolVal(strings.HasPrefix(a, b)))
			case "strings.HasSuffix":
				return one(boolVal(strings.HasSuffix(a, b)))
			case "strings.Contains":
				return one(boolVal(strings.Contains(a, b)))
			}
		}
		return one(Val{K: KCond, S: name + "|" + cs.Args[0].String() + "|" + cs.Args[1].String()})
	case "strings.TrimSpace", "strings.ToLower", "strings.ToUpper":
		if a, ok := constStr(cs.Args[0]); ok {
			switch name {
			case "strings.TrimSpace":
				return one(strConst(strings.TrimSpace(a)))
			case "strings.ToLower":
				return one(strConst(strings.ToLower(a)))
			}
		}
		return one(term(name, cs.Args...))
	case "(*strings.Builder).WriteString", "(*bytes.Buffer).WriteString", "(*strings.Builder).Write", "(*bytes.Buffer).Write",
		"(*strings.Builder).WriteByte", "(*bytes.Buffer).WriteByte", "(*strings.Builder).WriteRune", "(*bytes.Buffer).WriteRune", "io.WriteString":
		cell, ok := e.bufCell(s, cs.ArgV[0], cs.Args[0])
		if !ok {
			return nil, false
		}
		v := cs.Args[1]
		if v.K == KConst && v.S != "" && v.S[0] != '"' {
			if n, err := strconv.Atoi(v.S); err == nil {
				v = strConst(string(rune(n)))
			}
		}
		res := Val{K: KNil}
		if cs.Sig.Results().Len() == 2 {
			res = Val{K: KTuple, T: []Val{opaque("n;"), {K: KNil}}}
		}
		return []Outcome{{Val: res, Apply: func(s *State) { s.mem[cell] = e.grow(s, cs.Instr, bufText(s, cell), v) }}}, true
	case "(*strings.Builder).String", "(*bytes.Buffer).String", "(*bytes.Buffer).Bytes":
		if cell, ok := e.bufCell(s, cs.ArgV[0], cs.Args[0]); ok {
			return one(bufText(s, cell))
		}
		return nil, false
	case "(*strings.Builder).Grow", "(*bytes.Buffer).Grow":
		return one(Val{K: KNil})
	case "(*strings.Builder).Reset", "(*bytes.Buffer).Reset":
		if cell, ok := e.bufCell(s, cs.ArgV[0], cs.Args[0]); ok {
			return []Outcome{{Val: Val{K: KNil}, Apply: func(s *State) { delete(s.mem, cell) }}}, true
		}
		return nil, false
	case "(*strings.Builder).Len", "(*bytes.Buffer).Len":
		return nil, false
	}
	if outs, ok := e.urlCall(s, cs, name); ok {
		return outs, ok
	}
	if pureStr(name) {
		args := append([]Val(nil), cs.Args...)
		if len(args) > 0 && cs.Sig.Variadic() {
			if x, ok := e.variadic(s, cs.ArgV[len(args)-1], args[len(args)-1]); ok {
				args = append(args[:len(args)-1:len(args)-1], x...)
			}
		}
		t := term(name, args...)
		n := cs.Sig.Results().Len()
		if n <= 1 {
			return one(t)
		}
		tv := Val{K: KTuple}
		for i := 0; i < n; i++ {
			tv.T = append(tv.T, e.refine(s, opaque(t.S+"#"+strconv.Itoa(i)+";")))
		}
		return one(tv)
	}
	if textFunc(cs) {
		t := term("call:"+textCallee(cs), cs.Args...)
		if cs.Sig.Results().Len() == 1 {
			return one(t)
		}
		tv := Val{K: KTuple}
		for i := 0; i < cs.Sig.Results().Len(); i++ {
			tv.T = append(tv.T, e.refine(s, opaque(t.S+"#"+strconv.Itoa(i)+";")))
		}
		return one(tv)
	}
	return nil, false
}

func textCallee(cs *CallSite) string {
	if n := cs.Name(); n != "" {
		return n
	}
	return cs.Fn.String()
}

// textFunc: a function outside the repository that turns text into text
func textFunc(cs *CallSite) bool {
	if cs.Iface != nil || cs.Sig.Recv() != nil || cs.Sig.Results().Len() == 0 {
		return false
	}
	if cs.Static != nil {
		if isRepo(cs.Static) {
			return false
		}
		switch p := pkgPathOf(cs.Static); {
		case p == "os", p == "time", p == "syscall", strings.HasPrefix(p, "math/"), strings.HasPrefix(p, "crypto/"), strings.HasPrefix(p, "io"):
			return false
		}
	} else if cs.Closur != nil {
		return false
	}
	text := func(t types.Type) bool {
		if sl, ok := t.Underlying().(*types.Slice); ok {
			t = sl.Elem()
		}
		_, ok := t.Underlying().(*types.Basic)
		return ok
	}
	for i := 0; i < cs.Sig.Params().Len(); i++ {
		if !text(cs.Sig.Params().At(i).Type()) {
			return false
		}
	}
	for i := 0; i < cs.Sig.Results().Len(); i++ {
		t := cs.Sig.Results().At(i).Type()
		if _, ok := t.Underlying().(*types.Signature); ok && cs.Sig.Params().Len() > 0 && cs.Static != nil {
			continue // a function made from text, such as a splitter
		}
		if !text(t) && !isErrorType(t) {
			return false
		}
	}
	return true
}

func bufText(s *State, cell string) Val {
	if v, ok := s.mem[cell]; ok {
		return v
	}
	if strings.HasPrefix(cell, "a!") {
		return strConst("")
	}
	return opaque("buf:" + cell + ";")
}

// mapCell is the cell of a map entry with a fixed key
func mapCell(m Val, key string) string { return "*" + m.S + "{" + strconv.Quote(key) + "}" }

// urlCall: addresses put together from a url.URL or url.Values made here
func (e *Engine) urlCall(s *State, cs *CallSite, name string) ([]Outcome, bool) {
	one := func(v Val) ([]Outcome, bool) { return []Outcome{{Val: v}}, true }
	switch name {
	case "(net/url.Values).Set", "(net/url.Values).Add":
		k, ok := constStr(cs.Args[1])
		if !ok || cs.Args[0].K != KOpaque {
			return nil, false
		}
		cell := mapCell(cs.Args[0], k)
		if _, have := s.mem[cell]; have && name == "(net/url.Values).Add" {
			return nil, false
		}
		v := cs.Args[2]
		return []Outcome{{Val: Val{K: KNil}, Apply: func(s *State) { s.mem[cell] = Val{K: KTuple, T: []Val{v}} }}}, true
	case "(net/url.Values).Encode":
		pre := "*" + cs.Args[0].S + "{"
		vals := map[string][]Val{}
		for m, v := range s.mem {
			rest, ok := strings.CutPrefix(m, pre)
			if !ok {
				continue
			}
			k, err := strconv.Unquote(strings.TrimSuffix(rest, "}"))
			if err != nil {
				return nil, false
			}
			if v.K == KTuple {
				vals[k] = v.T
			} else if el, ok := s.elems(v); ok {
				vals[k] = el
			} else {
				return nil, false
			}
		}
		if len(vals) == 0 {
			return nil, false
		}
		var out []Val
		for _, k := range sortedKeys(vals) {
			for _, v := range vals[k] {
				sep := "&"
				if len(out) == 0 {
					sep = ""
				}
				if c, ok := constStr(v); ok {
					out = append(out, strConst(sep+url.QueryEscape(k)+"="+url.QueryEscape(c)))
				} else {
					out = append(out, strConst(sep+url.QueryEscape(k)+"="), term("net/url.QueryEscape", v))
				}
			}
		}
		return one(concat(out...))
	case "(*net/url.URL).String":
		a := cs.Args[0]
		if a.K != KPtr {
			return nil, false
		}
		if whole, ok := s.mem[a.S]; ok && whole.K == KOpaque && !s.hasSub(a.S) {
			a = whole
		}
		for m, v := range s.mem {
			f, ok := strings.CutPrefix(m, a.S+".")
			if !ok {
				continue
			}
			if c, isC := constStr(v); f != "Path" && f != "RawQuery" && !(isC && c == "") && v.K != KNil && v.K != KBool && f != "OmitHost" {
				return nil, false
			}
		}
		var out []Val
		p, ok := s.mem[a.S+".Path"]
		if !ok {
			return nil, false
		}
		for _, x := range strParts(p) {
			if c, isC := constStr(x); isC {
				out = append(out, strConst((&url.URL{Path: c}).EscapedPath()))
			} else {
				out = append(out, term("urlpath", x))
			}
		}
		if q, ok := s.mem[a.S+".RawQuery"]; ok {
			if c, isC := constStr(q); !isC || c != "" {
				out = append(out, strConst("?"), q)
			}
		}
		return one(concat(out...))
	}
	return nil, false
}
