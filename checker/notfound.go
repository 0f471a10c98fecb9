package main

// C22: names that the dataset does not contain.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func hitsOf(s *State) []string {
	var out []string
	for d := range s.D {
		if h, ok := strings.CutPrefix(d, "hit:"); ok {
			out = append(out, h)
		}
	}
	sort.Strings(out)
	return out
}

// isLookup: a function that finds something by name, or says that there is nothing
func isLookup(sig *types.Signature) bool {
	n := sig.Results().Len()
	if n == 0 {
		return false
	}
	last := sig.Results().At(n - 1).Type()
	if b, ok := last.Underlying().(*types.Basic); ok && b.Kind() == types.Bool && n > 1 {
		return true
	}
	_, ptr := last.Underlying().(*types.Pointer)
	return n == 1 && ptr && sig.Params().Len() > 0
}

func fromRequest(v Val) bool { return strings.Contains(v.String(), "h:r;") }

// lookup makes the search for a name from the request succeed or fail
func (k *handlerClient) lookup(e *Engine, s *State, cs *CallSite) ([]Outcome, bool) {
	if cs.Static == nil {
		return nil, false
	}
	p := pkgPathOf(cs.Static)
	ours := isRepoPath(p) || strings.HasPrefix(p, "github.com/FAU-CDI/")
	if !ours || k.Inline(e, s, cs, cs.Static) && e.canInline(s, cs.Static) {
		return nil, false
	}
	args := append([]Val(nil), cs.Args...)
	if cs.Sig.Variadic() && len(args) > 0 {
		if x, ok := e.variadic(s, cs.ArgV[len(args)-1], args[len(args)-1]); ok {
			args = append(args[:len(args)-1:len(args)-1], x...)
		}
	}
	t := term("call:"+textCallee(cs), args...)
	named := false
	for _, a := range args {
		named = named || fromRequest(a)
	}
	res := cs.Sig.Results()
	cache := recvNamed(cs.Static)
	if isLookup(cs.Sig) && (named || cache != nil && cache.Obj().Name() == "Cache") {
		k.lookups[k.w.pos(cs.Instr.Pos())+" "+calleeText(cs)] = true
		n := res.Len()
		hit, miss := Val{K: KTuple}, Val{K: KTuple}
		for i := 0; i < n; i++ {
			ty := res.At(i).Type()
			id := fmt.Sprintf("%s#%d;", t.S, i)
			switch {
			case n > 1 && i == n-1:
				hit.T = append(hit.T, boolVal(true))
				miss.T = append(miss.T, boolVal(false))
			case isPointer(ty):
				hit.T = append(hit.T, Val{K: KNonNil, S: id})
				miss.T = append(miss.T, Val{K: KNil})
			default:
				hit.T = append(hit.T, opaque(id))
				miss.T = append(miss.T, opaque("miss:"+id))
			}
		}
		if n == 1 {
			hit, miss = hit.T[0], miss.T[0]
		}
		yes := Outcome{Val: hit, Apply: func(s *State) { s.D["hit:"+t.S] = "1" }}
		no := Outcome{Val: miss, Apply: func(s *State) { s.D["miss"] = calleeText(cs) }}
		if s.D["hit:"+t.S] != "" {
			return []Outcome{yes}, true
		}
		return []Outcome{yes, no}, true
	}
	// accessors: the same answer for the same arguments
	if res.Len() >= 1 && named {
		if res.Len() == 1 {
			return []Outcome{{Val: t}}, true
		}
		tv := Val{K: KTuple}
		for i := 0; i < res.Len(); i++ {
			tv.T = append(tv.T, e.refine(s, opaque(fmt.Sprintf("%s#%d;", t.S, i))))
		}
		return []Outcome{{Val: tv}}, true
	}
	return nil, false
}

func isPointer(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

// afterMiss watches what happens with the results of a search that found nothing
func (k *handlerClient) afterMiss(e *Engine, s *State, instr ssa.Instruction) {
	bad := func(what string) {
		key := fmt.Sprint("miss-used", instr.Pos())
		if _, ok := k.early[key]; ok {
			return
		}
		tr, pos, fn := e.Trace(s), k.w.pos(instr.Pos()), fname(instr.Parent())
		k.early[key] = func(c *Ctx) { c.BadAt("result-used", fn, pos, tr, "%s", what) }
	}
	switch x := instr.(type) {
	case *ssa.FieldAddr:
		if e.eval(s, x.X).K == KNil {
			bad("the result of a search that found nothing is dereferenced")
		}
	case *ssa.UnOp:
		if x.Op == token.MUL && e.eval(s, x.X).K == KNil {
			bad("the result of a search that found nothing is dereferenced")
		}
	case ssa.CallInstruction:
		for _, a := range x.Common().Args {
			if strings.Contains(e.eval(s, a).String(), "miss:fn:") {
				bad("the result of a search that found nothing is passed on")
			}
		}
	}
}

// notFoundAnswer says what is wrong with an answer for something unknown
func notFoundAnswer(ev []string) string {
	if len(ev) == 0 {
		return "is not answered at all (an empty page with status 200)"
	}
	if ev[0] != "status:404" {
		return "is not answered with the status not found"
	}
	return afterNotFound(ev)
}

func afterNotFound(ev []string) string {
	at := -1
	bodies := 0
	for i, x := range ev {
		switch {
		case x == "status:404":
			if at >= 0 {
				return "sends the status twice"
			}
			at = i
			if bodies > 0 {
				return "sends the status not found after other content"
			}
		case strings.HasPrefix(x, "status:"):
			if at >= 0 {
				return "sends another status after not found"
			}
		case x == "body:notfound" || x == "body:error":
			bodies++
		default:
			bodies++
			if at >= 0 {
				return "writes more than the not found answer"
			}
		}
	}
	if at >= 0 && bodies > 1 {
		return "writes more than the not found answer"
	}
	return ""
}

var nameVars = []string{"bundle", "uri"}

func checkC22(c *Ctx) {
	vr := routesOf(c.W, nil)
	for _, v := range vr {
		done := map[string]bool{}
		for _, r := range v.Routes {
			name := handlerName(r)
			if r.Handler.K != KFunc || done[name] {
				continue
			}
			done[name] = true
			k, ok := runRoute(c.W, v, r, true)
			if !ok {
				continue
			}
			for _, b := range k.bad {
				c.Bad("undecided", name, r.Pos, "%s", b)
			}
			for _, l := range sortedKeys(k.lookups) {
				c.Ob("lookup", r.Pattern+": "+l)
			}
			for _, key := range sortedKeys(k.early) {
				k.early[key](c)
			}
			c.Counts["handler_paths"] += len(k.ends)
			for _, end := range k.ends {
				if end.miss != "" {
					c.Counts["not_found_paths"]++
					if m := notFoundAnswer(end.events); m != "" {
						c.BadAt("not-found", name, c.W.pos(end.pos), end.trace, "when %s finds nothing, %s %s: %s", end.miss, r.Pattern, m, strings.Join(end.events, ", "))
					}
					continue
				}
				if m := afterNotFound(end.events); m != "" {
					c.BadAt("not-found", name, c.W.pos(end.pos), end.trace, "%s %s: %s", r.Pattern, m, strings.Join(end.events, ", "))
				}
			}
			// what is shown was found by the names of the request
			var need []string
			for _, n := range nameVars {
				if routeHasVar(r, n) {
					need = append(need, n)
				}
			}
			if len(need) == 0 && len(k.lookups) == 0 {
				continue
			}
			c.Ob("found-by-name", r.Pattern+" "+strings.Join(need, ", "))
			for _, end := range k.ends {
				if end.ready != "t" || end.miss != "" || answersNotFound(end.events) || loadingAnswer(end.events, strings.HasPrefix(r.Pattern, "/api/")) == "" {
					continue
				}
				all := strings.Join(end.hits, "\n")
				for _, n := range need {
					if !strings.Contains(all, `c("`+n+`")`) {
						c.BadAt("found-by-name", name, c.W.pos(end.pos), end.trace, "%s is answered (%s) although nothing was found for the %s of the request", r.Pattern, strings.Join(end.events, ", "), n)
					}
				}
				if len(need) > 1 {
					joint := false
					for _, h := range end.hits {
						joint = joint || strings.Contains(h, `c("bundle")`) && strings.Contains(h, `c("uri")`)
					}
					if !joint {
						c.BadAt("found-by-name", name, c.W.pos(end.pos), end.trace, "%s is answered (%s) although the URI was not looked for in the bundle of the request", r.Pattern, strings.Join(end.events, ", "))
					}
				}
				if len(need) == 0 && len(end.hits) == 0 {
					c.BadAt("found-by-name", name, c.W.pos(end.pos), end.trace, "%s is answered (%s) although nothing was found", r.Pattern, strings.Join(end.events, ", "))
				}
			}
		}
	}
	cacheLookups(c)
}

func answersNotFound(ev []string) bool { return len(ev) > 0 && ev[0] == "status:404" }

// routeHasVar: the route defines that variable
func routeHasVar(r *route, n string) bool {
	for _, t := range append([]string{r.Pattern}, r.Queries...) {
		if strings.Contains(t, "{"+n+":") || strings.Contains(t, "{"+n+"}") {
			return true
		}
	}
	return false
}

// ---- searching in the cache

type cacheClient struct {
	BaseClient
	c    *Ctx
	root *ssa.Function
	seen map[string]bool
}

func (k *cacheClient) Inline(e *Engine, s *State, cs *CallSite, fn *ssa.Function) bool {
	return len(fn.Blocks) > 0 && pkgPathOf(fn) == pkgPathOf(k.root)
}

func (k *cacheClient) Call(e *Engine, s *State, cs *CallSite) ([]Outcome, bool) {
	if outs, ok := e.strCall(s, cs); ok {
		return outs, ok
	}
	if cs.Static == nil || cs.Sig.Results().Len() == 0 || k.Inline(e, s, cs, origin(cs.Static)) {
		return nil, false
	}
	t := term("call:"+textCallee(cs), cs.Args...)
	if cs.Sig.Results().Len() == 1 {
		return []Outcome{{Val: e.refine(s, t)}}, true
	}
	tv := Val{K: KTuple}
	for i := 0; i < cs.Sig.Results().Len(); i++ {
		id := fmt.Sprintf("%s#%d;", t.S, i)
		tv.T = append(tv.T, e.refine(s, opaque(id)))
	}
	return []Outcome{{Val: tv}}, true
}

func (k *cacheClient) bad(e *Engine, s *State, pos token.Pos, format string, args ...any) {
	msg := fmt.Sprintf(format, args...)
	if k.seen[msg+k.c.W.pos(pos)] {
		return
	}
	k.seen[msg+k.c.W.pos(pos)] = true
	k.c.BadAt("cache-lookup", fname(k.root), k.c.W.pos(pos), e.Trace(s), "%s", msg)
}

// found lists the entries known to exist
func found(s *State) []string {
	var out []string
	for f, v := range s.facts {
		if v == "t" && strings.HasPrefix(f, "fn:lookup(") && strings.HasSuffix(f, "#1;") {
			out = append(out, f)
		}
		// an entry that is not empty
		if t, ok := strings.CutPrefix(f, emptyTest); ok && v == "f" {
			out = append(out, t+"#1;")
		}
	}
	sort.Strings(out)
	return out
}

const emptyTest = `c:eq:c("")|o`

func (k *cacheClient) Instr(e *Engine, s *State, instr ssa.Instruction) bool {
	ia, ok := instr.(*ssa.IndexAddr)
	if !ok {
		return true
	}
	base, idx := e.eval(s, ia.X), e.eval(s, ia.Index)
	if base.K != KOpaque || !strings.HasPrefix(strings.TrimLeft(base.S, "*"), "fn:lookup(") || idx.K != KOpaque || !strings.HasPrefix(idx.S, "fn:lookup(") {
		return true
	}
	entry, isFlagged := strings.CutSuffix(idx.S, "#0;")
	if !isFlagged || s.facts[entry+"#1;"] != "t" {
		k.bad(e, s, ia.Pos(), "an element is picked by an index that was not found: an absent name leads to the first element")
		return true
	}
	// both parts speak of the same bundle
	for _, p := range k.root.Params[1:] {
		id := e.RootID + ":" + p.Name() + ";"
		if strings.Contains(base.S, id) && !strings.Contains(idx.S, id) {
			k.bad(e, s, ia.Pos(), "an element is picked by an index that was found without regard to %s", p.Name())
		}
	}
	return true
}

func (k *cacheClient) Exit(e *Engine, s *State, kind ExitKind, instr ssa.Instruction, res []Val) {
	if kind != ExitReturn || len(res) == 0 {
		return
	}
	flag := res[len(res)-1]
	ok := found(s)
	if t, f := e.decide(s, flag); t != f {
		flag = boolVal(t)
	}
	switch {
	case flag.K == KBool && flag.N == 0:
		return
	case flag.K == KBool:
	case flag.K == KOpaque && strings.HasPrefix(flag.S, "fn:lookup(") && strings.HasSuffix(flag.S, "#1;"):
		ok = append(ok, flag.S)
	case flag.K == KCond && flag.N == 1 && strings.HasPrefix("c:"+flag.S, emptyTest+"fn:lookup("):
		ok = append(ok, strings.TrimPrefix("c:"+flag.S, emptyTest)+"#1;")
	default:
		k.bad(e, s, instr.Pos(), "success is not decided by finding an entry: %s", flag)
		return
	}
	if len(ok) == 0 {
		k.bad(e, s, instr.Pos(), "reports success without having found anything")
		return
	}
	all := strings.Join(ok, "\n")
	for _, p := range k.root.Params[1:] {
		if !strings.Contains(all, e.RootID+":"+p.Name()+";") {
			k.bad(e, s, instr.Pos(), "reports success although nothing was looked up by %s", p.Name())
		}
	}
	for i, r := range res[:len(res)-1] {
		if r.K == KConst || r.K == KNil {
			k.bad(e, s, instr.Pos(), "reports success with an empty result %d", i+1)
			continue
		}
		t := r.S
		related := false
		for _, f := range ok {
			entry := strings.TrimSuffix(f, "#1;")
			related = related || strings.Contains(t, entry) || t != "" && strings.Contains(f, r.String())
		}
		// an element picked from a list: checked where it is picked
		if r.K == KPtr && strings.HasPrefix(strings.TrimLeft(t, "*"), "fn:lookup(") {
			related = true
		}
		if !related {
			k.bad(e, s, instr.Pos(), "reports success with something other than what was found: %s", r)
		}
	}
}

func cacheLookups(c *Ctx) {
	for _, fn := range c.W.Fns {
		n := recvNamed(fn)
		if n == nil || n.Obj().Name() != "Cache" || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != modPath+"/internal/sparkl" || fn.Blocks == nil || fn.Parent() != nil {
			continue
		}
		res := fn.Signature.Results()
		if res.Len() < 2 {
			continue
		}
		if b, ok := res.At(res.Len() - 1).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Bool || fn.Synthetic != "" {
			continue
		}
		c.Ob("cache-lookup", fname(fn))
		k := &cacheClient{c: c, root: fn, seen: map[string]bool{}}
		e := NewEngine(c.W, k)
		e.Strings = true
		e.RootID = "p"
		e.Run(fn, nil)
		if e.Over {
			c.Bad("undecided", fname(fn), fn.Pos(), "too many paths to explore")
		}
	}
}

func init() {
	register(&Check{Prop: "C22", Run: checkC22,
		Explain: "Every handler found from the route registrations is explored on all paths, and each search whose arguments come from the request is explored finding something and finding nothing. After finding nothing the answer must be exactly the not-found answer and the results must not be used; any other answer requires that the bundle and the URI of the request were found, the URI within that bundle. The searches of the cache themselves may report success only where a presence test of a map entry reached by all their arguments succeeded, and pick elements only by indexes found that way.",
		Assume:  []string{"Pathbuilder.Bundle returns the bundle of exactly that machine name or nil", "gorilla/mux fills the variables a route defines"},
		Floors:  map[string]int{"lookup": 7, "found-by-name": 4, "cache-lookup": 2}})
}
