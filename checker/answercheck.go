package main

// C28: what is sent out is everything known, in the format that is announced.
//
// announced: every handler is followed on all its paths; the media type that was
// set when the status line is sent must be the one of what is then written.
// everything: a backward flow from what a function that gathers the statements
// of an entity returns finds the parts of the entity that reach it. Together they
// must be all parts that the type can hold, none of them sliced, and no round of
// a loop may leave its element out.
// distinct: what is taken as a repetition has the same identifier.
// written-all: no round of the loop that writes statements skips one.
// form: the statement that is written, for every role, language and form.
// readable: what is written as JSON has no hidden parts.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const rdfPkg = "github.com/anglo-korean/rdf"

// mediaTypes of the formats of the library
var mediaTypes = map[string]string{
	"NTriples": "application/n-triples",
	"Turtle":   "text/turtle",
	"RDFXML":   "application/rdf+xml",
	"NQuads":   "application/n-quads",
	"TriG":     "application/trig",
}

// formatOf names the constant of type rdf.Format
func formatOf(t types.Type, v Val) string {
	n := namedOf(t)
	if n == nil || n.Obj().Name() != "Format" || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != rdfPkg {
		return ""
	}
	i, ok := intOf(v)
	if !ok {
		return "?"
	}
	scope := n.Obj().Pkg().Scope()
	for _, name := range scope.Names() {
		if c, ok := scope.Lookup(name).(*types.Const); ok && types.Identical(c.Type(), n) {
			if x, ok := constant.Int64Val(c.Val()); ok && x == i {
				return name
			}
		}
	}
	return "?"
}

func announced(c *Ctx) {
	seen := map[string]bool{}
	for _, v := range routesOf(c.W, nil) {
		for i := range v.Routes {
			r := v.Routes[i]
			name := handlerName(r)
			if seen[name] || r.Handler.K != KFunc {
				continue
			}
			seen[name] = true
			body := func(e *Engine, s *State, cs *CallSite, want, what string) {
				c.ObOnce("announced", fmt.Sprintf("%s: %s at %s", name, what, c.W.pos(cs.Instr.Pos())))
				is := s.D["ctype"]
				if f, ok := s.D["sent"]; ok {
					is = f
				}
				media := strings.ToLower(strings.TrimSpace(strings.SplitN(is, ";", 2)[0]))
				bad := func(format string, args ...any) {
					c.BadAt("announced", name, c.W.pos(cs.Instr.Pos()), e.Trace(s), format, args...)
				}
				switch {
				case media == "?" || media == want:
				case media == "":
					if want != "text/html" {
						late := ""
						if s.D["ctype"] != "" {
							late = " when the answer begins, it is set only later"
						}
						bad("%s is sent, but no media type is announced%s", what, late)
					}
				default:
					bad("%s is sent, but %s is announced", what, media)
				}
				if _, ok := s.D["sent"]; !ok {
					s.D["sent"] = is
				}
			}
			runRoute(c.W, v, r, false, func(k *handlerClient) {
				k.hook = func(e *Engine, s *State, cs *CallSite) {
					w := false
					for _, a := range cs.Args {
						w = w || isWriter(a)
					}
					if !w {
						return
					}
					switch cs.Name() {
					case "(net/http.ResponseWriter).WriteHeader":
						if _, ok := s.D["sent"]; !ok {
							s.D["sent"] = s.D["ctype"]
						}
					case "(*html/template.Template).Execute", "(*html/template.Template).ExecuteTemplate":
						body(e, s, cs, "text/html", "a page")
					}
				}
				k.out = func(e *Engine, s *State, cs *CallSite, kind string) {
					if kind == "json" {
						body(e, s, cs, "application/json", "JSON")
						return
					}
					for i, a := range cs.Args {
						if i >= len(cs.ArgV) {
							break
						}
						if f := formatOf(cs.ArgV[i].Type(), a); f != "" && f != "?" {
							if want := mediaTypes[f]; want != "" {
								body(e, s, cs, want, f)
							}
						}
					}
				}
			})
		}
	}
}

// ---- everything

func isTripleSlice(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	n := namedOf(sl.Elem())
	return n != nil && n.Obj().Name() == "Triple" && n.Obj().Pkg() != nil && isRepoPath(n.Obj().Pkg().Path())
}

// triplesOf lists where a type holds statements; a place that holds values of the type itself ends with *
func triplesOf(t types.Type) (out []string) {
	self := namedOf(t)
	var walk func(t types.Type, path string, depth int)
	walk = func(t types.Type, path string, depth int) {
		if depth > 6 {
			return
		}
		if isTripleSlice(t) {
			out = append(out, path)
			return
		}
		if n := namedOf(t); n != nil && n == self && path != "" {
			out = append(out, path+"*")
			return
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				walk(u.Field(i).Type(), path+"."+u.Field(i).Name(), depth+1)
			}
		case *types.Slice:
			walk(u.Elem(), path+"[]", depth+1)
		case *types.Array:
			walk(u.Elem(), path+"[]", depth+1)
		case *types.Map:
			walk(u.Elem(), path+"[]", depth+1)
		case *types.Pointer:
			walk(u.Elem(), path, depth+1)
		}
	}
	walk(t, "", 0)
	sort.Strings(out)
	return
}

// gatherer follows which parts of a value reach what a function gathers
type gatherer struct {
	w     *World
	self  *types.Named
	cover map[string][]ssa.Instruction // part -> where it is added
	part  map[string]string            // a part of which only some is added -> why
	busy  map[string]bool
}

// spot is a function with the parts its parameters stand for
type spot struct {
	fn    *ssa.Function
	binds map[ssa.Value]string // parameter or captured variable -> part
	outer *spot
}

// everyElement: the index runs over all of the slice
func everyElement(idx ssa.Value) (bool, string) {
	switch x := idx.(type) {
	case *ssa.Const:
		return false, "only one element is taken"
	case *ssa.BinOp: // the index of a range
		if x.Op == token.ADD {
			if p, ok := x.X.(*ssa.Phi); ok {
				return everyElement(p)
			}
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if c, ok := e.(*ssa.Const); ok && c.Value != nil {
				if n, ok := constant.Int64Val(c.Value); ok && n > 0 {
					return false, "the first element is left out"
				}
			}
		}
		// the bound
		var conds []*ssa.BinOp
		use := func(v ssa.Value) {
			for _, r := range *v.Referrers() {
				if b, ok := r.(*ssa.BinOp); ok && b.X == v && (b.Op == token.LSS || b.Op == token.LEQ) {
					conds = append(conds, b)
				}
			}
		}
		use(x)
		for _, e := range x.Edges {
			if b, ok := e.(*ssa.BinOp); ok {
				use(b)
			}
		}
		for _, b := range conds {
			if y, ok := b.Y.(*ssa.BinOp); ok && y.Op == token.SUB && b.Op == token.LSS {
				return false, "the last element is left out"
			}
		}
	}
	return true, ""
}

// parts names the part of the value that v is, "" and false when it is none
func (g *gatherer) parts(p *spot, v ssa.Value, depth int) (path string, ok bool, why string) {
	if depth > 20 {
		return "", false, ""
	}
	if b, ok := p.binds[v]; ok {
		return b, true, ""
	}
	sub := func(x ssa.Value, more string) (string, bool, string) {
		b, ok, why := g.parts(p, x, depth+1)
		return b + more, ok, why
	}
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return sub(x.X, "."+fieldNameOf(x.X.Type(), x.Field))
	case *ssa.Field:
		return sub(x.X, "."+fieldNameOf(x.X.Type(), x.Field))
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return sub(x.X, "")
		}
	case *ssa.ChangeType:
		return sub(x.X, "")
	case *ssa.IndexAddr:
		b, ok, w := sub(x.X, "[]")
		if all, why := everyElement(x.Index); ok && !all && w == "" {
			w = why
		}
		return b, ok, w
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			b, ok, w := sub(x.X, "[]")
			if _, c := x.Index.(*ssa.Const); c && ok {
				w = "only one entry is taken"
			}
			return b, ok, w
		}
	case *ssa.Extract:
		if n, ok := x.Tuple.(*ssa.Next); ok && x.Index == 2 {
			if r, ok := n.Iter.(*ssa.Range); ok {
				return sub(r.X, "[]")
			}
		}
		if l, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 0 {
			return sub(l.X, "[]")
		}
	case *ssa.Slice:
		b, ok, w := sub(x.X, "")
		if ok && w == "" {
			if c, isC := x.Low.(*ssa.Const); x.Low != nil && !(isC && c.Value != nil && c.Value.String() == "0") {
				w = "the beginning is cut off"
			}
			if x.High != nil {
				if call, isCall := x.High.(*ssa.Call); !isCall || !isBuiltin(call, "len") {
					w = "the end is cut off"
				}
			}
		}
		return b, ok, w
	case *ssa.Alloc:
		// a copy of something
		var stored ssa.Value
		n := 0
		for _, r := range *x.Referrers() {
			if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(x) {
				stored = st.Val
				n++
			}
		}
		if n == 1 {
			return sub(stored, "")
		}
	case *ssa.FreeVar:
		if p.outer != nil {
			if b := boundTo(p.fn, x); b != nil {
				return g.parts(p.outer, b, depth+1)
			}
		}
	case *ssa.Call:
		// an accessor
		if sc := x.Call.StaticCallee(); sc != nil && isRepo(sc) && sc.Blocks != nil && len(x.Call.Args) > 0 {
			q := &spot{fn: origin(sc), binds: map[ssa.Value]string{}}
			for i, a := range x.Call.Args {
				if b, ok, _ := g.parts(p, a, depth+1); ok && i < len(q.fn.Params) {
					q.binds[q.fn.Params[i]] = b
				}
			}
			if len(q.binds) > 0 {
				for _, b := range q.fn.Blocks {
					if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 {
						return g.parts(q, r.Results[0], depth+1)
					}
				}
			}
		}
	}
	return "", false, ""
}

func isBuiltin(c *ssa.Call, name string) bool {
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == name
}

// boundTo: what the closure is given for a captured variable
func boundTo(fn *ssa.Function, fv *ssa.FreeVar) ssa.Value {
	for i, f := range fn.FreeVars {
		if f != fv {
			continue
		}
		for _, b := range fn.Parent().Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(fn) {
					return mc.Bindings[i]
				}
			}
		}
	}
	return nil
}

func (g *gatherer) add(p *spot, path, why string, at ssa.Instruction) {
	if why != "" {
		if g.part[path] == "" {
			g.part[path] = why
		}
		return
	}
	g.cover[path] = append(g.cover[path], at)
}

// run follows what the function gathers
func (g *gatherer) run(p *spot) {
	key := fname(p.fn) + fmt.Sprint(len(p.binds))
	for v, b := range p.binds {
		key += v.Name() + b
	}
	if g.busy[key] {
		return
	}
	g.busy[key] = true
	done := map[ssa.Value]bool{}
	var flow func(p *spot, v ssa.Value)
	var scan func(p *spot, cell ssa.Value)
	// everything that a variable is given, also by closures
	scan = func(p *spot, cell ssa.Value) {
		for _, r := range *cell.Referrers() {
			switch x := r.(type) {
			case *ssa.Store:
				if x.Addr == cell {
					flow(p, x.Val)
				}
			case *ssa.Call:
				g.call(p, x, func(*spot, ssa.Value) {})
			case *ssa.MakeClosure:
				fn := x.Fn.(*ssa.Function)
				for i, b := range x.Bindings {
					if b == cell && i < len(fn.FreeVars) {
						q := &spot{fn: fn, binds: map[ssa.Value]string{}, outer: p}
						// closures are called with parts of the value
						for _, pa := range fn.Params {
							if n := namedOf(pa.Type()); n != nil && n == g.self {
								q.binds[pa] = ""
							}
						}
						g.busy[fname(fn)] = true
						scan(q, fn.FreeVars[i])
						g.calls(q)
					}
				}
			}
		}
	}
	flow = func(p *spot, v ssa.Value) {
		if v == nil || done[v] {
			return
		}
		done[v] = true
		if isTripleSlice(v.Type()) {
			if path, ok, why := g.parts(p, v, 0); ok {
				if in, isIn := v.(ssa.Instruction); isIn {
					g.add(p, path, why, in)
				}
				return
			}
		}
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				flow(p, e)
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				switch x.X.(type) {
				case *ssa.Alloc, *ssa.FreeVar:
					scan(p, x.X)
				case *ssa.IndexAddr:
					flow(p, x.X.(*ssa.IndexAddr).X)
				}
			}
		case *ssa.Slice:
			if al, ok := x.X.(*ssa.Alloc); ok {
				// single values
				for _, r := range *al.Referrers() {
					if ia, ok := r.(*ssa.IndexAddr); ok {
						for _, rr := range *ia.Referrers() {
							if st, ok := rr.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
								g.single(p, st.Val, st, flow)
							}
						}
					}
				}
				return
			}
			flow(p, x.X)
		case *ssa.Call:
			if isBuiltin(x, "append") {
				flow(p, x.Call.Args[0])
				if path, ok, why := g.parts(p, x.Call.Args[1], 0); ok {
					g.add(p, path, why, x)
				} else {
					flow(p, x.Call.Args[1])
				}
				return
			}
			g.call(p, x, flow)
		case *ssa.Extract:
			if call, ok := x.Tuple.(*ssa.Call); ok {
				g.call(p, call, flow)
			}
		case *ssa.ChangeType:
			flow(p, x.X)
		}
	}
	for _, b := range p.fn.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			for _, v := range r.Results {
				if isTripleSlice(v.Type()) {
					flow(p, v)
				}
			}
		}
	}
	// functions that gather through a pointer they are handed
	for _, pa := range p.fn.Params {
		if pt, ok := pa.Type().Underlying().(*types.Pointer); ok && isTripleSlice(pt.Elem()) {
			scan(p, pa)
			g.calls(p)
		}
	}
}

// single: statements that are added one by one
func (g *gatherer) single(p *spot, v ssa.Value, at ssa.Instruction, flow func(*spot, ssa.Value)) {
	path, ok, why := g.parts(p, v, 0)
	if ok && strings.HasSuffix(path, "[]") {
		g.add(p, strings.TrimSuffix(path, "[]"), why, at)
		return
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if ia, ok := u.X.(*ssa.IndexAddr); ok {
			flow(p, ia.X)
		}
		if al, ok := u.X.(*ssa.Alloc); ok {
			for _, r := range *al.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
					g.single(p, st.Val, at, flow)
				}
			}
		}
	}
}

// calls looks at the calls in a function whose results are not used
func (g *gatherer) calls(p *spot) {
	for _, b := range p.fn.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(*ssa.Call); ok {
				g.call(p, call, func(*spot, ssa.Value) {})
			}
		}
	}
}

// call: what a call adds
func (g *gatherer) call(p *spot, x *ssa.Call, flow func(*spot, ssa.Value)) {
	com := &x.Call
	sc := com.StaticCallee()
	binds := map[int]string{}
	for i, a := range com.Args {
		if isTripleSlice(a.Type()) {
			flow(p, a)
			continue
		}
		path, ok, why := g.parts(p, a, 0)
		if !ok {
			continue
		}
		if why != "" {
			g.add(p, path+"*", why, x)
			continue
		}
		if n := namedOf(a.Type()); n != nil && n == g.self && path != "" {
			g.add(p, path+"*", "", x)
			continue
		}
		binds[i] = path
	}
	if sc == nil || !isRepo(sc) || sc.Blocks == nil || len(binds) == 0 {
		return
	}
	q := &spot{fn: origin(sc), binds: map[ssa.Value]string{}}
	if sc.Parent() != nil {
		q.outer = p
	}
	before := map[string]int{}
	for k, v := range g.cover {
		before[k] = len(v)
	}
	for i, b := range binds {
		if i < len(q.fn.Params) {
			q.binds[q.fn.Params[i]] = b
		}
	}
	g.run(q)
	// what the function adds is added where it is called
	for k, v := range g.cover {
		if len(v) > before[k] {
			g.cover[k] = append(v, x)
		}
	}
}

func fieldNameOf(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if st, ok := t.Underlying().(*types.Struct); ok && i < st.NumFields() {
		return st.Field(i).Name()
	}
	return "?"
}

// emptyTest: the edge of a branch that is taken when something is empty
func emptyEdge(b *ssa.BasicBlock) *ssa.BasicBlock {
	if len(b.Instrs) == 0 {
		return nil
	}
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	op, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return nil
	}
	zero := func(v ssa.Value) bool {
		c, ok := v.(*ssa.Const)
		return ok && (c.Value == nil || c.Value.Kind() == constant.Int && c.Value.String() == "0")
	}
	length := func(v ssa.Value) bool {
		call, ok := v.(*ssa.Call)
		return ok && isBuiltin(call, "len") || types.IsInterface(v.Type()) && !isErrorType(v.Type()) || nilable(v.Type())
	}
	if !zero(op.Y) || !length(op.X) {
		return nil
	}
	switch op.Op {
	case token.EQL, token.LEQ:
		return b.Succs[0]
	case token.NEQ, token.GTR:
		return b.Succs[1]
	}
	return nil
}

func nilable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Map, *types.Slice, *types.Pointer:
		return true
	}
	return false
}

// leftOut: a path from from to to that avoids at, where nothing is empty and nothing failed
func leftOut(from, at *ssa.BasicBlock, to func(*ssa.BasicBlock) bool) bool {
	return leftOutBy(from, at, to, emptyEdge)
}

// leftOutBy: with a say in what counts as empty
func leftOutBy(from, at *ssa.BasicBlock, to func(*ssa.BasicBlock) bool, none func(*ssa.BasicBlock) *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var visit func(b *ssa.BasicBlock) bool
	visit = func(b *ssa.BasicBlock) bool {
		if b == at || seen[b] {
			return false
		}
		seen[b] = true
		if to(b) {
			return true
		}
		bad, empty := errorEdge(b), none(b)
		for _, n := range b.Succs {
			if n != bad && n != empty && visit(n) {
				return true
			}
		}
		return false
	}
	return visit(from)
}

// always: the instruction runs in every round of its loops, and these run whenever the function does
func always(in ssa.Instruction) string { return alwaysBy(in, emptyEdge) }

func alwaysBy(in ssa.Instruction, none func(*ssa.BasicBlock) *ssa.BasicBlock) string {
	fn := in.Parent()
	at := in.Block()
	for {
		h := loopOf(at)
		if h == nil {
			break
		}
		l := properLoop(h)
		for _, n := range h.Succs {
			if !l[n] || n == h {
				continue
			}
			if at != h && leftOutBy(n, at, func(x *ssa.BasicBlock) bool { return x == h || !l[x] }, none) {
				return "a round of the loop may leave it out"
			}
		}
		// continue with the loop around
		var outer *ssa.BasicBlock
		size := 0
		for _, b := range fn.Blocks {
			if !hasBackEdge(b) || b == h {
				continue
			}
			ol := properLoop(b)
			if ol[h] && (outer == nil || len(ol) < size) {
				outer, size = b, len(ol)
			}
		}
		at = h
		if outer == nil {
			break
		}
		ol := properLoop(outer)
		for _, n := range outer.Succs {
			if ol[n] && n != outer && leftOutBy(n, at, func(x *ssa.BasicBlock) bool { return x == outer || !ol[x] }, none) {
				return "a round of the loop may leave it out"
			}
		}
		at = outer
		break
	}
	if leftOutBy(fn.Blocks[0], at, func(x *ssa.BasicBlock) bool {
		_, ok := x.Instrs[len(x.Instrs)-1].(*ssa.Return)
		return ok && x != fn.Recover
	}, none) {
		return "the function may return without it"
	}
	return ""
}

// everything: the statements of all parts are gathered
func everything(c *Ctx) {
	for _, fn := range c.W.Fns {
		rn := recvNamed(fn)
		if rn == nil || !isRepo(fn) || fn.Blocks == nil || fn.Parent() != nil || fn.Synthetic != "" || !token.IsExported(fn.Name()) {
			continue
		}
		sig := fn.Signature
		if sig.Results().Len() != 1 || !isTripleSlice(sig.Results().At(0).Type()) || sig.Params().Len() > 0 {
			continue
		}
		need := triplesOf(rn)
		if len(need) < 2 {
			continue
		}
		g := &gatherer{w: c.W, self: rn, cover: map[string][]ssa.Instruction{}, part: map[string]string{}, busy: map[string]bool{}}
		g.run(&spot{fn: origin(fn), binds: map[ssa.Value]string{origin(fn).Params[0]: ""}})
		if len(g.cover) == 0 && len(g.part) == 0 {
			// gathered in another way: at least everything has to be looked at
			looked := map[string]bool{}
			lookedAt(origin(fn), looked, map[*ssa.Function]bool{})
			for _, n := range need {
				c.Ob("everything", fname(fn)+" "+n)
				for _, f := range strings.FieldsFunc(n, func(r rune) bool { return strings.ContainsRune(".[]*", r) }) {
					if !looked[f] {
						c.Bad("everything", fname(fn), fn.Pos(), "not all statements of %s are gathered: %s is not looked at", rn.Obj().Name(), f)
					}
				}
			}
			distinct(c, fn)
			continue
		}
		for _, n := range need {
			c.Ob("everything", fname(fn)+" "+n)
			name := strings.NewReplacer("[]", "", "*", "").Replace(strings.TrimPrefix(n, "."))
			at := g.cover[n]
			if len(at) == 0 {
				why := g.part[n]
				if why == "" {
					why = "they do not reach what is returned"
				}
				c.Bad("everything", fname(fn), fn.Pos(), "not all statements of %s (of %s) are gathered: %s", name, rn.Obj().Name(), why)
				continue
			}
			for _, in := range at {
				if in.Parent().Parent() != nil {
					continue
				}
				if why := always(in); why != "" {
					c.Bad("everything", fname(fn), in.Pos(), "not all statements of %s (of %s) are gathered: %s", name, rn.Obj().Name(), why)
					break
				}
			}
		}
		distinct(c, fn)
	}
}

// lookedAt collects the fields that a function and what it calls read
func lookedAt(fn *ssa.Function, out map[string]bool, seen map[*ssa.Function]bool) {
	if fn == nil || seen[fn] || !isRepo(fn) {
		return
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.FieldAddr:
				out[fieldNameOf(x.X.Type(), x.Field)] = true
			case *ssa.Field:
				out[fieldNameOf(x.X.Type(), x.Field)] = true
			case *ssa.MakeClosure:
				lookedAt(x.Fn.(*ssa.Function), out, seen)
			case ssa.CallInstruction:
				if sc := x.Common().StaticCallee(); sc != nil {
					lookedAt(origin(sc), out, seen)
				}
			}
		}
	}
}

// reads lists the fields of the parameters that a function looks at
func reads(fn *ssa.Function, seen map[*ssa.Function]bool) map[string]bool {
	out := map[string]bool{}
	if fn == nil || seen[fn] || fn.Blocks == nil {
		return out
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.FieldAddr:
				if n := namedOf(x.X.Type()); n != nil && n.Obj().Name() == "Triple" {
					out[fieldNameOf(x.X.Type(), x.Field)] = true
				}
			case *ssa.Field:
				if n := namedOf(x.X.Type()); n != nil && n.Obj().Name() == "Triple" {
					out[fieldNameOf(x.X.Type(), x.Field)] = true
				}
			case ssa.CallInstruction:
				if sc := x.Common().StaticCallee(); sc != nil && isRepo(sc) {
					for f := range reads(origin(sc), seen) {
						out[f] = true
					}
				}
			}
		}
	}
	return out
}

// distinct: statements are only dropped for having the same identifier
func distinct(c *Ctx, root *ssa.Function) {
	seen := map[*ssa.Function]bool{}
	var visit func(fn *ssa.Function)
	visit = func(fn *ssa.Function) {
		if fn == nil || seen[fn] || fn.Blocks == nil || !isRepo(fn) {
			return
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				com := call.Common()
				sc := com.StaticCallee()
				if sc == nil {
					continue
				}
				visit(origin(sc))
				q := qualName(sc)
				i := strings.LastIndexByte(q, '.')
				op := strings.SplitN(q[i+1:], "[", 2)[0]
				if !strings.Contains(q, "slices.") && !strings.Contains(q, "sort.") || len(com.Args) < 2 || !isTripleSlice(com.Args[0].Type()) {
					continue
				}
				var f *ssa.Function
				switch a := com.Args[len(com.Args)-1].(type) {
				case *ssa.Function:
					f = a
				case *ssa.MakeClosure:
					f = a.Fn.(*ssa.Function)
				case *ssa.ChangeType:
					f, _ = a.X.(*ssa.Function)
				}
				if f == nil {
					continue
				}
				fields := reads(f, map[*ssa.Function]bool{})
				var names []string
				for n := range fields {
					names = append(names, n)
				}
				sort.Strings(names)
				switch {
				case strings.HasPrefix(op, "Compact"):
					c.ObOnce("distinct", fname(fn)+": repetitions")
					if !fields["ID"] {
						c.Bad("distinct", fname(fn), in.Pos(), "statements with different identifiers are dropped as repetitions: only %s is compared", strings.Join(names, ", "))
					}
				case strings.HasPrefix(op, "Sort"), strings.HasPrefix(op, "Slice"):
					c.ObOnce("distinct", fname(fn)+": order")
					if !fields["ID"] {
						c.Bad("distinct", fname(fn), in.Pos(), "the statements are not ordered by their identifier, so repetitions need not be next to each other")
					}
				case strings.HasPrefix(op, "Delete"):
					c.Bad("distinct", fname(fn), in.Pos(), "statements are removed")
				}
			}
		}
	}
	visit(origin(root))
}

// writtenAll: no statement is skipped when they are written
func writtenAll(c *Ctx) {
	// functions that write one statement
	does := map[*ssa.Function]bool{}
	judged := map[ssa.Instruction]bool{}
	for again := true; again; {
		again = false
		for _, fn := range c.W.Fns {
			if !isRepo(fn) || fn.Blocks == nil || fn.Synthetic != "" && fn.Origin() == nil {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					call, ok := in.(*ssa.Call)
					if !ok || judged[in] {
						continue
					}
					sc := call.Call.StaticCallee()
					if mc, ok := call.Call.Value.(*ssa.MakeClosure); ok {
						sc = mc.Fn.(*ssa.Function)
					}
					if sc == nil || qualName(sc) != "(*"+rdfPkg+".TripleEncoder).Encode" && !does[origin(sc)] {
						continue
					}
					judged[in] = true
					h := loopOf(b)
					if h == nil {
						if !does[fn] {
							does[fn], again = true, true
						}
						if avoids(fn.Blocks[0], b, func(x *ssa.BasicBlock) bool {
							_, ok := x.Instrs[len(x.Instrs)-1].(*ssa.Return)
							return ok && x != fn.Recover
						}) != nil {
							c.Bad("written-all", fname(fn), in.Pos(), "the function may return without writing its statement although nothing failed")
						}
						continue
					}
					c.Ob("written-all", fname(fn)+" "+c.W.pos(in.Pos()))
					writtenIn(c, fn, in, h)
				}
			}
		}
	}
}

// writtenIn: every round of the loop writes its statement
func writtenIn(c *Ctx, fn *ssa.Function, in ssa.Instruction, h *ssa.BasicBlock) {
	l := properLoop(h)
	b := in.Block()
	for _, n := range h.Succs {
		if !l[n] || n == h {
			continue
		}
		if avoids(n, b, func(x *ssa.BasicBlock) bool { return !l[x] }) != nil || around(n, b, h) {
			c.Bad("written-all", fname(fn), in.Pos(), "a round of the loop may leave its statement out and the rest is written all the same")
			break
		}
	}
	// what the loop runs over
	for x := range l {
		for _, i2 := range x.Instrs {
			ia, ok := i2.(*ssa.IndexAddr)
			if !ok || !isTripleSlice(ia.X.Type()) {
				continue
			}
			if all, why := everyElement(ia.Index); !all {
				c.Bad("written-all", fname(fn), i2.Pos(), "not all statements are written: %s", why)
			}
			if sl, ok := ia.X.(*ssa.Slice); ok && (sl.Low != nil || sl.High != nil) {
				c.Bad("written-all", fname(fn), i2.Pos(), "only some of the statements are written")
			}
		}
	}
}

// around: to is reached from from without passing at
func around(from, at, to *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{at: true}
	work := []*ssa.BasicBlock{from}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if b == to {
			return true
		}
		if seen[b] {
			continue
		}
		seen[b] = true
		work = append(work, b.Succs...)
	}
	return false
}

// ---- the form of statements

type formClient struct {
	BaseClient
	c     *Ctx
	root  *ssa.Function
	role  string
	lang  bool
	canon bool
	found *int
}

func (k *formClient) Inline(e *Engine, s *State, cs *CallSite, fn *ssa.Function) bool {
	return isRepo(fn)
}

func (k *formClient) Load(e *Engine, s *State, instr ssa.Instruction, key string, t types.Type) []Outcome {
	switch {
	case strings.HasSuffix(key, ".Role"):
		return []Outcome{{Val: Val{K: KConst, S: k.role}}}
	case strings.HasSuffix(key, ".Language") && k.lang:
		return []Outcome{{Val: Val{K: KConst, S: `"Language"`}}}
	case strings.HasSuffix(key, ".Language"):
		return []Outcome{{Val: Val{K: KConst, S: `""`}}}
	}
	return nil
}

func (k *formClient) Compare(e *Engine, s *State, op *ssa.BinOp, x, y Val) []Outcome {
	return nil
}

func (k *formClient) Call(e *Engine, s *State, cs *CallSite) ([]Outcome, bool) {
	name, ok := strings.CutPrefix(cs.Name(), rdfPkg+".")
	if !ok {
		return nil, false
	}
	switch name {
	case "NewIRI", "NewLangLiteral", "NewLiteral":
		return []Outcome{{Val: Val{K: KTuple, T: []Val{term("made:"+name, cs.Args...), {K: KNil}}}}, errOutcome(2)}, true
	}
	return nil, false
}

func (k *formClient) Exit(e *Engine, s *State, kind ExitKind, instr ssa.Instruction, res []Val) {
	if kind != ExitReturn || len(res) != 2 || s.isNil(res[1]) != 1 {
		return
	}
	*k.found++
	get := func(f string) string {
		v, _ := e.load(s, res[0].S+"."+f, types.Typ[types.String])
		return v.String()
	}
	s1, s2, s3 := "Subject", "Predicate", "Object"
	if k.canon {
		s1, s2, s3 = "SSubject", "SPredicate", "SObject"
	}
	check := func(part, got string, want ...string) {
		parts := strings.FieldsFunc(got, func(r rune) bool { return strings.ContainsRune("(),;. *:\"", r) })
		has := func(w string) bool {
			for _, p := range parts {
				if p == w {
					return true
				}
			}
			return false
		}
		for _, w := range want {
			if !has(w) {
				k.c.BadAt("form", fname(k.root), k.c.W.pos(instr.Pos()), e.Trace(s), "the %s is not made from %s (role %s, canonical %v): %s", part, strings.Join(want, " and "), k.role, k.canon, got)
				return
			}
		}
	}
	check("subject", get("Subj"), "NewIRI", s1)
	check("predicate", get("Pred"), "NewIRI", s2)
	switch {
	case k.role != "2":
		check("object", get("Obj"), "NewIRI", s3)
	case k.lang:
		check("object", get("Obj"), "NewLangLiteral", "Datum", "Language")
	default:
		check("object", get("Obj"), "NewLiteral", "Datum")
	}
}

// ---- what is written as JSON

// hiddenParts lists parts with text that JSON does not show
func hiddenParts(t types.Type, seen map[types.Type]bool, out *[]string) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	if n := namedOf(t); n != nil {
		if n.Obj().Pkg() != nil && !isRepoPath(n.Obj().Pkg().Path()) {
			return true
		}
		for _, m := range []string{"MarshalJSON", "MarshalText"} {
			if o, _, _ := types.LookupFieldOrMethod(types.NewPointer(n), true, n.Obj().Pkg(), m); o != nil {
				return true
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Pointer:
		return hiddenParts(u.Elem(), seen, out)
	case *types.Slice:
		return hiddenParts(u.Elem(), seen, out)
	case *types.Array:
		return hiddenParts(u.Elem(), seen, out)
	case *types.Map:
		if b, ok := u.Key().Underlying().(*types.Basic); !ok || b.Info()&(types.IsString|types.IsInteger) == 0 {
			*out = append(*out, "the keys of "+relPath(t.String()))
		}
		return hiddenParts(u.Elem(), seen, out) || true
	case *types.Struct:
		text := false
		names := map[string]string{}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			inner := []string{}
			has := hiddenParts(f.Type(), seen, &inner)
			if n := namedOf(f.Type()); n != nil && n == namedOf(t) {
				has = true
			}
			text = text || has
			tag := reflect.StructTag(u.Tag(i)).Get("json")
			name := strings.Split(tag, ",")[0]
			if tag == "-" || !f.Exported() && !f.Embedded() {
				if has {
					*out = append(*out, f.Name()+" of "+relPath(t.String()))
				}
				continue
			}
			*out = append(*out, inner...)
			if name == "" {
				if f.Embedded() {
					continue
				}
				name = f.Name()
			}
			if o := names[strings.ToLower(name)]; o != "" {
				*out = append(*out, fmt.Sprintf("%s and %s of %s (they have the same name)", o, f.Name(), relPath(t.String())))
			}
			names[strings.ToLower(name)] = f.Name()
		}
		return text
	case *types.Chan, *types.Signature:
		*out = append(*out, relPath(t.String()))
	}
	return false
}

func readable(c *Ctx) {
	done := map[string]bool{}
	for _, fn := range c.W.Fns {
		if !isRepo(fn) || fn.Blocks == nil {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				var arg ssa.Value
				if sc := call.Call.StaticCallee(); sc != nil {
					switch qualName(sc) {
					case "(*encoding/json.Encoder).Encode":
						arg = call.Call.Args[1]
					case "encoding/json.Marshal", "encoding/json.MarshalIndent":
						arg = call.Call.Args[0]
					}
				}
				for _, t := range concreteTypes(c.W, arg, 0) {
					key := t.String()
					c.Ob("readable", fname(fn)+" "+relPath(key))
					if done[key] {
						continue
					}
					done[key] = true
					var lost []string
					hiddenParts(t, map[types.Type]bool{}, &lost)
					for _, l := range lost {
						c.Bad("readable", fname(fn), in.Pos(), "what is written as JSON does not show %s", l)
					}
				}
			}
		}
	}
}

// concreteTypes: the types of the values that a value of type any may hold
func concreteTypes(w *World, v ssa.Value, depth int) (out []types.Type) {
	if v == nil || depth > 4 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return []types.Type{x.X.Type()}
	case *ssa.Phi:
		for _, e := range x.Edges {
			out = append(out, concreteTypes(w, e, depth+1)...)
		}
	case *ssa.ChangeInterface:
		return concreteTypes(w, x.X, depth+1)
	case *ssa.Parameter:
		for i, p := range x.Parent().Params {
			if p != x {
				continue
			}
			for _, fn := range w.Fns {
				for _, b := range fn.Blocks {
					for _, in := range b.Instrs {
						if call, ok := in.(ssa.CallInstruction); ok {
							if sc := call.Common().StaticCallee(); sc != nil && origin(sc) == origin(x.Parent()) && i < len(call.Common().Args) {
								out = append(out, concreteTypes(w, call.Common().Args[i], depth+1)...)
							}
						}
					}
				}
			}
		}
	}
	return
}

func checkC28(c *Ctx) {
	announced(c)
	everything(c)
	writtenAll(c)
	readable(c)
	for _, fn := range c.W.Fns {
		rn := recvNamed(fn)
		if rn == nil || !isRepo(fn) || fn.Blocks == nil || fn.Synthetic != "" || fn.Parent() != nil {
			continue
		}
		res := fn.Signature.Results()
		if res.Len() != 2 || typeName(res.At(0).Type()) != rdfPkg+".Triple" || fn.Signature.Params().Len() != 1 || rn.Obj().Name() != "Triple" {
			continue
		}
		for _, canon := range []bool{false, true} {
			for _, role := range []string{"0", "1", "2"} {
				for _, lang := range []bool{false, true} {
					found := 0
					k := &formClient{c: c, root: fn, role: role, lang: lang, canon: canon, found: &found}
					e := NewEngine(c.W, k)
					e.Strings = false
					e.Run(fn, func(s *State) {
						s.top().env[fn.Params[1]] = boolVal(canon)
					})
					c.Counts["steps"] += e.Steps
					what := fmt.Sprintf("%s canonical=%v role=%s language=%v", fname(fn), canon, role, lang)
					c.Ob("form", what)
					if e.Over || found == 0 {
						c.Bad("form", fname(fn), fn.Pos(), "cannot be followed: %s", what)
					}
				}
			}
		}
	}
}

func init() {
	register(&Check{
		Prop:    "C28",
		Explain: "Every handler is followed on all its paths and the media type that was set when the answer began is compared with the format of what is written (announced). A backward flow from what the functions that gather the statements of an entity return finds which parts of the entity reach it; they must be all places the type can hold statements in, unsliced, in every round of the loops (everything), repetitions must be told by the identifier (distinct), and the loop that writes them must not skip a round (written-all). The conversion of a statement is followed for every role, language and form (form). The types that are written as JSON have no hidden or colliding parts with text (readable).",
		Assume:  []string{"the encoders of the libraries write what they are given", "what is gathered in a loop over an empty or nil container is nothing"},
		Floors:  map[string]int{"announced": 8, "everything": 3, "written-all": 1, "form": 12, "readable": 4},
		Run:     checkC28,
	})
}
