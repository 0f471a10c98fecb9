package main

// C26: every output receives each bundle as one complete, ordered sequence.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// isExporter: an interface that is told about bundles and their entities
func isExporter(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	has := 0
	for m := range i.Methods() {
		switch m.Name() {
		case "Begin", "Add", "End", "Close":
			has++
		}
	}
	return has == 4
}

// exporterCall is the method of an exporter that is called, or ""
func exporterCall(c *ssa.CallCommon) string {
	if !c.IsInvoke() || !isExporter(c.Value.Type()) {
		return ""
	}
	return c.Method.Name()
}

type exportClient struct {
	BaseClient
	c     *Ctx
	root  *ssa.Function
	reach map[*ssa.Function]bool
	seen  map[string]int
}

// goFrame is the innermost goroutine that runs
func goFrame(s *State) string {
	for i := len(s.frames) - 1; i >= 0; i-- {
		if s.frames[i].cont == contDiscard {
			return s.frames[i].id
		}
	}
	return ""
}

func (k *exportClient) Inline(e *Engine, s *State, cs *CallSite, fn *ssa.Function) bool {
	return isRepo(fn) && (fn.Parent() != nil || takesFuncs(fn) || k.reach[origin(fn)])
}

func (k *exportClient) bad(e *Engine, s *State, instr ssa.Instruction, format string, args ...any) {
	k.c.BadAt("export-order", fname(k.root), k.c.W.pos(instr.Pos()), e.Trace(s), format, args...)
}

// others: goroutines that used the output and were not waited for
func (k *exportClient) others(s *State) bool {
	own := map[string]bool{}
	for _, f := range s.frames {
		if f.cont == contDiscard {
			own[f.id] = true
		}
	}
	for g := range setOf(s.D["async"]) {
		if !own[g] {
			return true
		}
	}
	return false
}

func (k *exportClient) Call(e *Engine, s *State, cs *CallSite) ([]Outcome, bool) {
	name := cs.Name()
	short := name[strings.LastIndexByte(name, '.')+1:]
	if m := exporterCall(cs.Instr.Common()); m != "" {
		k.seen[m]++
		k.c.Ob("export-order", fmt.Sprintf("%s at %s (%s)", m, k.c.W.pos(cs.Instr.Pos()), s.D["st"]))
		st := s.D["st"]
		if s.D["closed"] != "" {
			k.bad(e, s, cs.Instr, "%s is called after the output was closed", m)
		}
		g := goFrame(s)
		if g != "" {
			if s.D["done:"+g] != "" {
				k.bad(e, s, cs.Instr, "%s is called by a worker that has already reported to be finished", m)
			}
			s.D["async"] = joinSet(merge(setOf(s.D["async"]), g))
		}
		b := ""
		if len(cs.Args) > 1 {
			b = cs.Args[1].String()
		}
		switch m {
		case "Begin":
			if st == "begun" {
				k.bad(e, s, cs.Instr, "a bundle is announced while another one is open")
			}
			s.D["bundle"], s.D["scope"] = b, g
			return []Outcome{
				{Val: Val{K: KNil}, Apply: func(s *State) { s.D["st"] = "begun" }},
				{Val: Val{K: KNonNil, S: "begin"}, Apply: func(s *State) { s.D["st"] = "failed" }},
			}, true
		case "Add", "End":
			switch {
			case st == "begun":
			case st == "failed" && m == "End":
			case st == "":
				k.bad(e, s, cs.Instr, "%s is called without an announcement of the bundle", m)
			case st == "failed":
				k.bad(e, s, cs.Instr, "%s is called although announcing the bundle has failed", m)
			case m == "End":
				k.bad(e, s, cs.Instr, "the end of a bundle is reported twice")
			default:
				k.bad(e, s, cs.Instr, "an entity is delivered after the end of its bundle")
			}
			if st != "" && b != s.D["bundle"] {
				k.bad(e, s, cs.Instr, "%s is called for another bundle (%s) than was announced (%s)", m, b, s.D["bundle"])
			}
			if m == "Add" {
				break
			}
			if k.others(s) {
				k.bad(e, s, cs.Instr, "the end of a bundle is reported while goroutines may still deliver entities")
			}
			s.D["st"] = "ended"
		case "Close":
			if st == "begun" {
				k.bad(e, s, cs.Instr, "the output is closed while a bundle is open")
			}
			if k.others(s) {
				k.bad(e, s, cs.Instr, "the output is closed without waiting for the goroutines that use it")
			}
			s.D["closed"] = "1"
		}
		return []Outcome{{Val: Val{K: KNil}}, {Val: Val{K: KNonNil, S: strings.ToLower(m)}}}, true
	}
	switch {
	case short == "Wait":
		s.D["async"] = ""
	case name == "(*sync.WaitGroup).Done":
		if g := goFrame(s); g != "" {
			if s.D["st"] == "begun" && s.D["scope"] == g {
				k.bad(e, s, cs.Instr, "a worker reports to be finished before it reports the end of its bundle")
			}
			s.D["done:"+g] = "1"
		}
	case name == "os.Exit":
		return []Outcome{{End: true}}, true
	}
	return nil, false
}

func (k *exportClient) Instr(e *Engine, s *State, instr ssa.Instruction) bool {
	switch ins := instr.(type) {
	case *ssa.UnOp:
		if ins.Op.String() == "<-" {
			s.D["async"] = ""
		}
	case *ssa.Go:
		for k := range s.D {
			if strings.HasPrefix(k, "done:") {
				delete(s.D, k)
			}
		}
	}
	return true
}

func (k *exportClient) FrameExit(e *Engine, s *State, f *Frame, instr *ssa.Return, res []Val) {
	if f.cont == contDiscard && f.id == s.D["scope"] && s.D["st"] == "begun" {
		k.bad(e, s, instr, "a worker returns without reporting the end of the bundle it has announced")
		s.D["st"] = "ended"
	}
}

func (k *exportClient) Exit(e *Engine, s *State, kind ExitKind, instr ssa.Instruction, res []Val) {
	if kind != ExitReturn {
		return
	}
	k.c.ObOnce("export-complete", fmt.Sprintf("return at %s, bundle %s", k.c.W.pos(instr.Pos()), s.D["st"]))
	if s.D["st"] == "begun" {
		k.bad(e, s, instr, "the end of an announced bundle is not reported")
	}
	if s.D["closed"] == "" {
		k.bad(e, s, instr, "the output is not closed")
	}
}

// exportRoots: the functions that are handed an output
func exportRoots(w *World) (roots []*ssa.Function, reach map[*ssa.Function]bool) {
	reach = map[*ssa.Function]bool{}
	var work []*ssa.Function
	add := func(fn *ssa.Function) {
		fn = origin(fn)
		if !reach[fn] {
			reach[fn] = true
			work = append(work, fn)
		}
	}
	for _, fn := range w.Fns {
		if !isRepo(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, instr := range b.Instrs {
				if call, ok := instr.(ssa.CallInstruction); ok && exporterCall(call.Common()) != "" {
					add(outermost(fn))
				}
			}
		}
	}
	for len(work) > 0 {
		fn := work[0]
		work = work[1:]
		for _, u := range w.Fns {
			for _, b := range u.Blocks {
				for _, instr := range b.Instrs {
					if call, ok := instr.(ssa.CallInstruction); ok {
						if sc := call.Common().StaticCallee(); sc != nil && origin(sc) == fn {
							add(outermost(u))
						}
					}
				}
			}
		}
	}
	takes := func(fn *ssa.Function) bool {
		for _, p := range fn.Params {
			if isExporter(p.Type()) {
				return true
			}
		}
		return false
	}
	called := map[*ssa.Function]bool{}
	for fn := range reach {
		if !takes(fn) {
			continue
		}
		// whatever it calls is part of its paths
		var visit func(f *ssa.Function)
		seen := map[*ssa.Function]bool{}
		visit = func(f *ssa.Function) {
			if seen[f] {
				return
			}
			seen[f] = true
			for _, b := range f.Blocks {
				for _, instr := range b.Instrs {
					if mc, ok := instr.(*ssa.MakeClosure); ok {
						visit(mc.Fn.(*ssa.Function))
					}
					if call, ok := instr.(ssa.CallInstruction); ok {
						if sc := call.Common().StaticCallee(); sc != nil && (reach[origin(sc)] || sc.Parent() != nil) {
							called[origin(sc)] = true
							visit(origin(sc))
						}
					}
				}
			}
		}
		visit(fn)
	}
	for fn := range reach {
		if takes(fn) && !called[fn] {
			roots = append(roots, fn)
		}
	}
	sort.Slice(roots, func(i, j int) bool { return roots[i].String() < roots[j].String() })
	return
}

// indexTerm names the value an element is selected with, across closures that
// are handed it
func indexTerm(v ssa.Value, depth int) string {
	if depth > 12 {
		return fmt.Sprintf("%p", v)
	}
	switch x := v.(type) {
	case *ssa.Const:
		return x.String()
	case *ssa.Convert:
		return indexTerm(x.X, depth+1)
	case *ssa.ChangeType:
		return indexTerm(x.X, depth+1)
	case *ssa.BinOp:
		return "(" + indexTerm(x.X, depth+1) + x.Op.String() + indexTerm(x.Y, depth+1) + ")"
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if a, ok := x.X.(*ssa.Alloc); ok {
				if st := onlyStore(a); st != nil {
					return indexTerm(st, depth+1)
				}
			}
			if fv, ok := x.X.(*ssa.FreeVar); ok {
				if b := bindingOf(fv); b != nil {
					if a, ok := b.(*ssa.Alloc); ok {
						if st := onlyStore(a); st != nil {
							return indexTerm(st, depth+1)
						}
					}
					return "*" + indexTerm(b, depth+1)
				}
			}
			return "*" + indexTerm(x.X, depth+1)
		}
	case *ssa.FreeVar:
		if b := bindingOf(x); b != nil {
			return indexTerm(b, depth+1)
		}
	case *ssa.Parameter:
		if x.Parent().Parent() == nil {
			break
		}
		for i, p := range x.Parent().Params {
			if p == x {
				if a := soleArg(x.Parent(), i); a != nil {
					return indexTerm(a, depth+1)
				}
			}
		}
	}
	return fmt.Sprintf("%s/%p", v.Name(), v)
}

// bindingOf: what a closure is made with
func bindingOf(fv *ssa.FreeVar) ssa.Value {
	fn := fv.Parent()
	for i, f := range fn.FreeVars {
		if f != fv || fn.Parent() == nil {
			continue
		}
		for _, b := range fn.Parent().Blocks {
			for _, instr := range b.Instrs {
				if mc, ok := instr.(*ssa.MakeClosure); ok && mc.Fn == fn {
					return mc.Bindings[i]
				}
			}
		}
	}
	return nil
}

// soleArg: the i-th argument of the only call of the closure fn
func soleArg(fn *ssa.Function, i int) ssa.Value {
	var arg ssa.Value
	n := 0
	for _, b := range fn.Parent().Blocks {
		for _, instr := range b.Instrs {
			call, ok := instr.(ssa.CallInstruction)
			if !ok {
				continue
			}
			v := call.Common().Value
			if mc, ok := v.(*ssa.MakeClosure); ok {
				v = mc.Fn
			}
			if v == fn && len(call.Common().Args) > i {
				n++
				arg = call.Common().Args[i]
			}
		}
	}
	if n == 1 {
		return arg
	}
	return nil
}

// loopOf is the header of the innermost loop around b, or nil
func loopOf(b *ssa.BasicBlock) *ssa.BasicBlock {
	var best *ssa.BasicBlock
	size := 0
	for _, h := range b.Parent().Blocks {
		if !hasBackEdge(h) {
			continue
		}
		l := properLoop(h)
		if l[b] && (best == nil || len(l) < size) {
			best, size = h, len(l)
		}
	}
	return best
}

// zipped: storages are paired with the bundle they were made for
func zipped(c *Ctx) {
	type place struct {
		fn *ssa.Function
		l  *ssa.BasicBlock
	}
	type sel struct {
		bundle bool
		ix     string
		pos    token.Pos
	}
	sels := map[place][]sel{}
	var order []place
	for _, fn := range c.W.Fns {
		if !isRepo(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, instr := range b.Instrs {
				ia, ok := instr.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				sl, ok := ia.X.Type().Underlying().(*types.Slice)
				if !ok {
					continue
				}
				bundle := false
				if n := namedOf(sl.Elem()); n == nil {
					continue
				} else if n.Obj().Name() == "Bundle" && isPointer(sl.Elem()) {
					bundle = true
				} else if n.Obj().Name() != "BundleStorage" {
					continue
				}
				p := place{fn, loopOf(b)}
				if sels[p] == nil {
					order = append(order, p)
				}
				sels[p] = append(sels[p], sel{bundle, indexTerm(ia.Index, 0), ia.Pos()})
			}
		}
	}
	for _, p := range order {
		var first *sel
		both := false
		for i, s := range sels[p] {
			if first == nil {
				first = &sels[p][i]
				continue
			}
			if s.bundle != first.bundle {
				both = true
			}
		}
		if !both {
			continue
		}
		c.Ob("export-pairing", fmt.Sprintf("%s at %s", fname(p.fn), c.W.pos(first.pos)))
		for _, s := range sels[p] {
			if s.ix != first.ix {
				c.Bad("export-pairing", fname(p.fn), s.pos, "a storage and a bundle that are used together are taken from different positions")
			}
		}
	}
}

// errorEdge: the successor of b that is taken when an error was found, or nil
func errorEdge(b *ssa.BasicBlock) *ssa.BasicBlock {
	if len(b.Instrs) == 0 {
		return nil
	}
	br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	cond, at := br.Cond, 0
	for {
		u, ok := cond.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		cond, at = u.X, 1-at
	}
	switch x := cond.(type) {
	case *ssa.BinOp:
		if !isErrorType(x.X.Type()) {
			return nil
		}
		if x.Op == token.NEQ {
			return b.Succs[at]
		}
		if x.Op == token.EQL {
			return b.Succs[1-at]
		}
	case *ssa.Call:
		for _, a := range x.Call.Args {
			if isErrorType(a.Type()) {
				return b.Succs[at]
			}
		}
	}
	return nil
}

// avoids: is to reached from from without passing the block at, when nothing fails
func avoids(from, at *ssa.BasicBlock, to func(*ssa.BasicBlock) bool) *ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]bool{}
	var visit func(b *ssa.BasicBlock) *ssa.BasicBlock
	visit = func(b *ssa.BasicBlock) *ssa.BasicBlock {
		if b == at || seen[b] {
			return nil
		}
		seen[b] = true
		if to(b) {
			return b
		}
		bad := errorEdge(b)
		for _, n := range b.Succs {
			if n != bad {
				if r := visit(n); r != nil {
					return r
				}
			}
		}
		return nil
	}
	return visit(from)
}

// skipped: every bundle is announced and every entity delivered, unless something fails
func skipped(c *Ctx, roots []*ssa.Function) {
	pkgs := map[string]bool{}
	for _, fn := range roots {
		pkgs[fnPkg(fn)] = true
	}
	for _, m := range []string{"Begin", "Add"} {
		does := map[*ssa.Function]bool{}
		calls := func(in ssa.Instruction) bool {
			call, ok := in.(ssa.CallInstruction)
			if !ok {
				return false
			}
			if exporterCall(call.Common()) == m {
				return true
			}
			if sc := call.Common().StaticCallee(); sc != nil && does[origin(sc)] {
				return true
			}
			for _, a := range call.Common().Args {
				if mc, ok := a.(*ssa.MakeClosure); ok && does[mc.Fn.(*ssa.Function)] {
					return true
				}
			}
			return false
		}
		for changed := true; changed; {
			changed = false
			for _, fn := range c.W.Fns {
				if does[fn] || !isRepo(fn) || !pkgs[fnPkg(outermost(fn))] {
					continue
				}
				for _, b := range fn.Blocks {
					for _, in := range b.Instrs {
						if !does[fn] && calls(in) {
							does[fn], changed = true, true
						}
					}
				}
			}
		}
		for _, fn := range sortedFns(does) {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if !calls(in) {
						continue
					}
					if _, ok := in.(*ssa.Defer); ok {
						continue
					}
					h := loopOf(b)
					c.Ob("export-all", fmt.Sprintf("%s in %s at %s", m, fname(fn), c.W.pos(in.Pos())))
					what := map[string]string{"Begin": "a bundle is not announced", "Add": "an entity is not delivered"}[m]
					if h == nil {
						if m == "Add" {
							continue
						}
						if r := avoids(fn.Blocks[0], b, func(x *ssa.BasicBlock) bool {
							_, ok := x.Instrs[len(x.Instrs)-1].(*ssa.Return)
							return ok && x != fn.Recover
						}); r != nil {
							c.Bad("export-all", fname(fn), in.Pos(), "%s although nothing has failed: the function may return at %s first", what, c.W.pos(r.Instrs[len(r.Instrs)-1].Pos()))
						}
						continue
					}
					l := properLoop(h)
					for _, n := range h.Succs {
						if !l[n] || n == h {
							continue
						}
						if r := avoids(n, b, func(x *ssa.BasicBlock) bool { return x == h }); r != nil {
							c.Bad("export-all", fname(fn), in.Pos(), "%s although nothing has failed: a round of the loop may skip it", what)
						}
					}
				}
			}
		}
	}
}

func checkC26(c *Ctx) {
	roots, reach := exportRoots(c.W)
	seen := map[string]int{}
	for _, fn := range roots {
		c.Ob("export-root", fname(fn))
		k := &exportClient{c: c, root: fn, reach: reach, seen: seen}
		e := NewEngine(c.W, k)
		e.Strings = false
		e.Run(fn, nil)
		c.Counts["steps"] += e.Steps
		if e.Over {
			c.Bad("undecided", fname(fn), fn.Pos(), "too many paths")
		}
	}
	zipped(c)
	skipped(c, roots)
	for _, m := range []string{"Begin", "Add", "End", "Close"} {
		if seen[m] == 0 {
			c.BadAt("export-root", m, "-", "", "no call of %s is reached from a function that is handed an output", m)
		}
	}
}

func init() {
	register(&Check{
		Prop:    "C26",
		Explain: "Every function that is handed an output is followed on all its paths, including the goroutines it starts, the closures it runs and the deferred calls; the calls of the output are checked against the automaton announce, deliver*, end for the same bundle value, then close exactly once and last. Every round of the loops that announce bundles or deliver entities does so unless something failed (export-all).",
		Assume:  []string{"goroutines are interpreted at the place where they are started; C06 and C07 decide locking and waiting"},
		Floors:  map[string]int{"export-root": 1, "export-order": 6, "export-complete": 2, "export-pairing": 2, "export-all": 4},
		Run:     checkC26,
	})
}
