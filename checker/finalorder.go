package main

// Part of C07: a storage is told that nothing more is written only when every
// worker that writes to it has been waited for.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// isFilled: an interface of something that is filled, then finalised, then read
func isFilled(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	fill, fin := false, false
	for m := range i.Methods() {
		fill = fill || strings.HasPrefix(m.Name(), "Add")
		fin = fin || m.Name() == "Finalize"
	}
	return fill && fin
}

type orderClient struct {
	BaseClient
	c    *Ctx
	root *ssa.Function
}

func (k *orderClient) Inline(e *Engine, s *State, cs *CallSite, fn *ssa.Function) bool {
	if !isRepo(fn) || origin(fn) == origin(k.root) {
		return false
	}
	if fn.Parent() != nil {
		return true
	}
	if fnPkg(fn) != fnPkg(k.root) {
		return false
	}
	// helpers that fill, finalise or wait
	for _, p := range fn.Params {
		if isFilled(p.Type()) || strings.HasSuffix(p.Type().String(), "sync.WaitGroup") {
			return true
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(ssa.CallInstruction); ok {
				if sc := call.Common().StaticCallee(); sc != nil && (sc.String() == "(*sync.WaitGroup).Wait" || sc.String() == "(*sync.WaitGroup).Done") {
					return true
				}
			}
		}
	}
	return false
}

func (k *orderClient) Call(e *Engine, s *State, cs *CallSite) ([]Outcome, bool) {
	com := cs.Instr.Common()
	if com.IsInvoke() && isFilled(com.Value.Type()) && len(cs.Args) > 0 {
		on := cs.Args[0].String()
		switch m := com.Method.Name(); {
		case m == "Finalize":
			k.c.Ob("finalised-late", fmt.Sprintf("%s at %s", fname(k.root), k.c.W.pos(cs.Instr.Pos())))
			own := map[string]bool{}
			for _, f := range s.frames {
				own[f.id] = true
			}
			var late []string
			for g := range setOf(s.D["fills:"+on]) {
				if !own[g] {
					late = append(late, g)
				}
			}
			sort.Strings(late)
			if len(late) > 0 {
				k.c.BadAt("finalised-late", fname(k.root), k.c.W.pos(cs.Instr.Pos()), e.Trace(s), "a storage is finalised although workers that fill it (%s) have not been waited for", strings.Join(late, ", "))
			}
		case strings.HasPrefix(m, "Add"):
			for _, f := range s.frames {
				if f.cont == contDiscard {
					s.D["fills:"+on] = joinSet(merge(setOf(s.D["fills:"+on]), f.id))
				}
			}
		}
		return nil, false
	}
	switch name := cs.Name(); {
	case name == "(*sync.WaitGroup).Done" && len(cs.Args) == 1:
		if g := goFrame(s); g != "" {
			s.D["of:"+g] = cs.Args[0].String()
		}
	case name == "(*sync.WaitGroup).Wait" && len(cs.Args) == 1:
		for d, v := range s.D {
			if !strings.HasPrefix(d, "fills:") {
				continue
			}
			keep := map[string]bool{}
			for g := range setOf(v) {
				if s.D["of:"+g] != cs.Args[0].String() {
					keep[g] = true
				}
			}
			s.D[d] = joinSet(keep)
		}
	}
	return nil, false
}

func (k *orderClient) Instr(e *Engine, s *State, instr ssa.Instruction) bool {
	if u, ok := instr.(*ssa.UnOp); ok && u.Op.String() == "<-" {
		for d := range s.D {
			if strings.HasPrefix(d, "fills:") {
				delete(s.D, d)
			}
		}
	}
	return true
}

// finalOrder explores every function that finalises what its workers fill
func finalOrder(c *Ctx) {
	var roots []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, fn := range c.W.Fns {
		if !isRepo(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				com := call.Common()
				if com.IsInvoke() && com.Method.Name() == "Finalize" && isFilled(com.Value.Type()) && !seen[outermost(fn)] {
					seen[outermost(fn)] = true
					roots = append(roots, outermost(fn))
				}
			}
		}
	}
	// helpers are explored as part of their callers, too
	for n := 0; n < len(roots); n++ {
		given := false
		for _, p := range roots[n].Params {
			given = given || isFilled(p.Type())
		}
		if !given {
			continue
		}
		for _, u := range c.W.Fns {
			if !isRepo(u) || fnPkg(u) != fnPkg(roots[n]) || seen[outermost(u)] {
				continue
			}
			for _, b := range u.Blocks {
				for _, in := range b.Instrs {
					if call, ok := in.(ssa.CallInstruction); ok {
						if sc := call.Common().StaticCallee(); sc != nil && origin(sc) == origin(roots[n]) && !seen[outermost(u)] {
							seen[outermost(u)] = true
							roots = append(roots, outermost(u))
						}
					}
				}
			}
		}
	}
	for _, fn := range roots {
		k := &orderClient{c: c, root: fn}
		e := NewEngine(c.W, k)
		e.RootID = "r"
		e.Run(fn, nil)
		c.Counts["steps"] += e.Steps
		if e.Over {
			c.Bad("undecided", fname(fn), fn.Pos(), "too many paths")
		}
	}
}
