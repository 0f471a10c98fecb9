package main

// A finalised index refuses every modification (C05).

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// storage methods that do not change the storage
var storageReads = map[string]bool{"Get": true, "GetZero": true, "Has": true, "Iterate": true, "Count": true, "Fetch": true, "Forward": true, "Reverse": true}

// finalisable: repository types with Finalize() error and Reset
func finalisable(w *World) []*types.Named {
	seen := map[*types.TypeName]*types.Named{}
	has := map[*types.TypeName]map[string]bool{}
	for _, fn := range w.Fns {
		n := recvNamed(fn)
		if n == nil || fn.Parent() != nil || !isRepo(fn) {
			continue
		}
		if _, ok := n.Underlying().(*types.Struct); !ok {
			continue
		}
		seen[n.Obj()] = n
		if has[n.Obj()] == nil {
			has[n.Obj()] = map[string]bool{}
		}
		has[n.Obj()][fn.Name()] = true
	}
	var out []*types.Named
	for o, n := range seen {
		if has[o]["Finalize"] && has[o]["Reset"] {
			out = append(out, n)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

type finalClient struct {
	BaseClient
	w       *World
	root    *ssa.Function
	recv    string
	flags   map[string]bool // cells that hold a finalised flag
	cover   []string        // storage fields the root has to reach
	effects map[string]bool
	exit    func(e *Engine, s *State, instr ssa.Instruction, res []Val)
}

func (k *finalClient) mine(key string) bool {
	return strings.HasPrefix(strings.TrimLeft(key, "*"), k.recv)
}

func (k *finalClient) mineVal(v Val) bool {
	switch v.K {
	case KPtr, KOpaque:
		return k.mine(v.S)
	case KNonNil:
		return strings.HasPrefix(v.S, "nn:"+k.recv)
	}
	for _, t := range v.T {
		if k.mineVal(t) {
			return true
		}
	}
	return false
}

func (k *finalClient) effect(s *State, what string) {
	k.effects[what] = true
	if s.D["effect"] == "" {
		s.D["effect"] = what
	}
}

func (k *finalClient) Load(e *Engine, s *State, instr ssa.Instruction, key string, t types.Type) []Outcome {
	if k.flags[key] {
		return []Outcome{{Val: boolVal(s.D["flag:"+key] == "t")}}
	}
	return nil
}

func (k *finalClient) Inline(e *Engine, s *State, cs *CallSite, fn *ssa.Function) bool {
	if !isRepo(fn) {
		return false
	}
	if fn.Parent() != nil || takesFuncs(fn) {
		return true
	}
	for _, a := range cs.Args {
		if k.mineVal(a) {
			return true
		}
	}
	return false
}

// takesFuncs: fn is given functions to call
func takesFuncs(fn *ssa.Function) bool {
	for _, p := range fn.Params {
		t := p.Type().Underlying()
		if sl, ok := t.(*types.Slice); ok {
			t = sl.Elem().Underlying()
		}
		if _, ok := t.(*types.Signature); ok {
			return true
		}
	}
	return false
}

func (k *finalClient) Call(e *Engine, s *State, cs *CallSite) ([]Outcome, bool) {
	if b, ok := cs.Instr.Common().Value.(*ssa.Builtin); ok && !cs.Instr.Common().IsInvoke() {
		switch b.Name() {
		case "delete", "clear":
			if k.mineVal(cs.Args[0]) {
				k.effect(s, b.Name()+" in "+k.nice(cs.Args[0]))
			}
		case "copy":
			if k.mineVal(cs.Args[0]) {
				k.effect(s, "copy into "+k.nice(cs.Args[0]))
			}
		}
		return nil, false
	}
	name := cs.Name()
	short := name[strings.LastIndexByte(name, '.')+1:]
	switch name {
	case "errors.New", "fmt.Errorf":
		return []Outcome{{Val: Val{K: KNonNil, S: "new"}}}, true
	case "os.Exit":
		return []Outcome{{End: true}}, true
	}
	if strings.HasPrefix(name, "(*sync/atomic.") || strings.HasPrefix(name, "sync/atomic.") {
		if len(cs.Args) == 0 || cs.Args[0].K != KPtr && cs.Args[0].K != KOpaque {
			return nil, false
		}
		key, _ := e.addr(s, cs.Args[0])
		if !k.flags[key] {
			if k.mine(key) && short != "Load" {
				k.effect(s, short+" of "+k.nice(cs.Args[0]))
			}
			return nil, false
		}
		cur := boolVal(s.D["flag:"+key] == "t")
		put := func(v Val) func(*State) {
			return func(s *State) {
				n := "?"
				if v.K == KBool {
					n = map[bool]string{true: "t", false: "f"}[v.N == 1]
				}
				if n != s.D["flag:"+key] {
					k.effect(s, "the finalised flag")
				}
				s.D["flag:"+key] = n
			}
		}
		switch short {
		case "Load":
			return []Outcome{{Val: cur}}, true
		case "Store":
			return []Outcome{{Val: opaque(cs.ResID), Apply: put(cs.Args[1])}}, true
		case "Swap":
			return []Outcome{{Val: cur, Apply: put(cs.Args[1])}}, true
		case "CompareAndSwap":
			if cs.Args[1].K == KBool {
				if cs.Args[1].N == cur.N {
					return []Outcome{{Val: boolVal(true), Apply: put(cs.Args[2])}}, true
				}
				return []Outcome{{Val: boolVal(false)}}, true
			}
		}
		return nil, false
	}
	return nil, false
}

func (k *finalClient) nice(v Val) string {
	x := strings.TrimLeft(v.S, "*")
	x = strings.TrimPrefix(x, k.recv)
	x = strings.Trim(x, ".;")
	if x == "" {
		return "the receiver"
	}
	return x
}

func (k *finalClient) Opaque(e *Engine, s *State, cs *CallSite, argRes []Val) []Outcome {
	name := cs.Name()
	short := name[strings.LastIndexByte(name, '.')+1:]
	if strings.HasPrefix(name, "(*sync.") || strings.HasPrefix(name, "sync.") {
		return nil
	}
	if cs.Iface != nil && k.mineVal(cs.Args[0]) {
		f := k.nice(cs.Args[0])
		s.D["called:"+f+"."+short] = "1"
		if !storageReads[short] {
			k.effect(s, short+" of "+f)
		}
		return nil
	}
	if cs.Static != nil && cs.Iface == nil && len(cs.Args) > 0 && cs.Sig.Recv() != nil && k.mineVal(cs.Args[0]) && !isRepo(cs.Static) {
		if cs.Args[0].K == KPtr {
			k.effect(s, short+" of "+k.nice(cs.Args[0]))
		}
	}
	return nil
}

func (k *finalClient) Instr(e *Engine, s *State, instr ssa.Instruction) bool {
	switch ins := instr.(type) {
	case *ssa.Store:
		key, ok := e.addr(s, e.eval(s, ins.Addr))
		if ok && k.flags[key] {
			v := e.eval(s, ins.Val)
			n := "?"
			if v.K == KBool {
				n = map[bool]string{true: "t", false: "f"}[v.N == 1]
			}
			if n != s.D["flag:"+key] {
				k.effect(s, "the finalised flag")
			}
			s.D["flag:"+key] = n
		} else if ok && k.mine(key) {
			k.effect(s, "store to "+k.nice(Val{S: key}))
		}
	case *ssa.MapUpdate:
		if v := e.eval(s, ins.Map); k.mineVal(v) {
			k.effect(s, "store into "+k.nice(v))
		}
	}
	return true
}

func (k *finalClient) Exit(e *Engine, s *State, kind ExitKind, instr ssa.Instruction, res []Val) {
	if kind == ExitReturn {
		k.exit(e, s, instr, res)
	}
}

// flagCells finds the cells that Finalize sets: boolean fields (plain or
// atomic) of the type and of the finalisable parts it contains
func flagCells(n *types.Named, prefix string, parts map[*types.TypeName]bool, out map[string]bool) {
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if fn := namedOf(f.Type()); fn != nil && parts[fn.Obj()] {
			if _, ptr := f.Type().(*types.Pointer); ptr {
				flagCells(fn, "*"+prefix+"."+f.Name()+";", parts, out)
			} else {
				flagCells(fn, prefix+"."+f.Name(), parts, out)
			}
			continue
		}
		if f.Type().String() == "sync/atomic.Bool" {
			out[prefix+"."+f.Name()] = true
		}
		if b, ok := f.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			out[prefix+"."+f.Name()] = true
		}
	}
}

func hasMethod(t types.Type, name string) bool {
	obj, _, _ := types.LookupFieldOrMethod(t, true, nil, name)
	_, ok := obj.(*types.Func)
	return ok
}

func finalised(c *Ctx) {
	w := c.W
	parts := map[*types.TypeName]bool{}
	all := finalisable(w)
	for _, n := range all {
		parts[n.Obj()] = true
	}
	mutators := map[string]bool{}
	for _, n := range all {
		for _, m := range methodsOf(w, n) {
			if len(m.Params) == 0 {
				continue
			}
			if _, ptr := m.Params[0].Type().(*types.Pointer); !ptr {
				continue
			}
			recv := "r:" + m.Params[0].Name() + ";"
			flags := map[string]bool{}
			flagCells(n, "*"+recv, parts, flags)
			run := func(val string, exit func(e *Engine, s *State, instr ssa.Instruction, res []Val)) *finalClient {
				k := &finalClient{w: w, root: m, recv: recv, flags: flags, effects: map[string]bool{}, exit: exit}
				e := NewEngine(w, k)
				e.Run(m, func(s *State) {
					for f := range flags {
						s.D["flag:"+f] = val
					}
					s.facts[recv] = "nonnil"
				})
				c.Counts["abstract_paths_explored"] += e.States
				if e.Over {
					c.BadAt("undecided", fname(m), w.pos(m.Pos()), "", "too many paths to decide")
				}
				return k
			}
			errs := errIndex(m.Signature)
			mayBeNil := func(s *State, res []Val) bool {
				for _, i := range errs {
					if s.isNil(res[i]) == 0 {
						return false
					}
				}
				return true
			}
			switch m.Name() {
			case "Close":
				c.Ob("stays-closed", fname(m))
				run("t", func(e *Engine, s *State, instr ssa.Instruction, res []Val) {
					for f := range flags {
						if s.D["flag:"+f] != "t" {
							c.BadAt("stays-closed", fname(m)+"|"+f, w.pos(instr.Pos()), e.Trace(s), "%s makes a finalised index accept modifications again", fname(m))
						}
					}
				})
				continue
			case "Reset":
				c.Ob("reset", fname(m))
				run("t", func(e *Engine, s *State, instr ssa.Instruction, res []Val) {
					if !mayBeNil(s, res) {
						return
					}
					for f := range flags {
						if s.D["flag:"+f] != "f" {
							c.BadAt("reset", fname(m)+"|"+f, w.pos(instr.Pos()), e.Trace(s), "%s can succeed without making the index writable again", fname(m))
						}
					}
				})
				continue
			}
			// would it change anything?
			cov := m.Name() == "Finalize" || m.Name() == "Compact"
			var fields []string
			if cov {
				st := n.Underlying().(*types.Struct)
				for i := 0; i < st.NumFields(); i++ {
					t := st.Field(i).Type()
					if _, ok := t.Underlying().(*types.Interface); ok && hasMethod(t, m.Name()) {
						fields = append(fields, st.Field(i).Name())
					} else if pn := namedOf(t); pn != nil && parts[pn.Obj()] {
						ps := pn.Underlying().(*types.Struct)
						for j := 0; j < ps.NumFields(); j++ {
							if _, ok := ps.Field(j).Type().Underlying().(*types.Interface); ok && hasMethod(ps.Field(j).Type(), m.Name()) {
								fields = append(fields, st.Field(i).Name()+"."+ps.Field(j).Name())
							}
						}
					}
				}
				for _, f := range fields {
					c.Ob("reaches-storages", fname(m)+" -> "+f)
				}
			}
			k := run("f", func(e *Engine, s *State, instr ssa.Instruction, res []Val) {
				if !cov || !mayBeNil(s, res) {
					return
				}
				for _, f := range fields {
					if s.D["called:"+f+"."+m.Name()] == "" {
						c.BadAt("reaches-storages", fname(m)+"|"+f, w.pos(instr.Pos()), e.Trace(s), "%s can return without having called %s of %s", fname(m), m.Name(), f)
					}
				}
				if m.Name() == "Finalize" {
					own := map[string]bool{}
					flagCells(n, "*"+recv, map[*types.TypeName]bool{}, own)
					for f := range own {
						if s.D["flag:"+f] != "t" && flags[f] {
							c.BadAt("finalised", fname(m)+"|flag", w.pos(instr.Pos()), e.Trace(s), "%s can return without marking the index as finalised", fname(m))
						}
					}
				}
			})
			if !m.Object().Exported() || m.Name() == "Next" {
				continue
			}
			if len(k.effects) == 0 {
				c.Counts["reading_methods"]++
				continue
			}
			mutators[qualName(m)] = true
			c.Ob("refused", fname(m))
			if len(errs) == 0 {
				c.Bad("refused", fname(m), m.Pos(), "%s modifies the index (%s) but cannot report that it is finalised", fname(m), sortedKeys(k.effects)[0])
				continue
			}
			run("t", func(e *Engine, s *State, instr ssa.Instruction, res []Val) {
				if ef := s.D["effect"]; ef != "" {
					c.BadAt("refused", fname(m)+"|"+ef, w.pos(instr.Pos()), e.Trace(s), "%s modifies a finalised index: %s", fname(m), ef)
				}
				if mayBeNil(s, res) {
					c.BadAt("refused", fname(m)+"|no error", w.pos(instr.Pos()), e.Trace(s), "%s can return without an error on a finalised index", fname(m))
				}
			})
		}
	}
	handOut(c, parts, mutators)
}

// handClient follows freshly made indexes until they are returned
type handClient struct {
	BaseClient
	c        *Ctx
	root     *ssa.Function
	parts    map[*types.TypeName]bool
	mutators map[string]bool
	finals   func(*ssa.Function) bool
	found    int
}

func (k *handClient) isIndex(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n := namedOf(p.Elem())
	return n != nil && k.parts[n.Obj()]
}

func (k *handClient) Inline(e *Engine, s *State, cs *CallSite, fn *ssa.Function) bool {
	if !isRepo(fn) {
		return false
	}
	if n := recvNamed(fn); n != nil && k.parts[n.Obj()] {
		return false
	}
	if fn.Parent() != nil || k.finals(fn) {
		return true
	}
	for i, a := range cs.Args {
		if a.K == KFunc && i < len(fn.Params) {
			return true
		}
	}
	return false
}

func (k *handClient) Call(e *Engine, s *State, cs *CallSite) ([]Outcome, bool) {
	name := cs.Name()
	switch name {
	case "errors.New", "fmt.Errorf":
		return []Outcome{{Val: Val{K: KNonNil, S: "new"}}}, true
	}
	if len(cs.Args) > 0 && cs.Static != nil && cs.Static.Signature.Recv() != nil && k.isIndex(cs.Static.Signature.Recv().Type()) {
		id := cs.Args[0].String()
		if cs.Static.Name() == "Finalize" {
			return []Outcome{
				{Val: Val{K: KNil}, Apply: func(s *State) { s.D["final:"+id] = "1" }},
				{Val: Val{K: KNonNil, S: "finalize"}, Apply: func(s *State) { delete(s.D, "final:"+id) }},
			}, true
		}
		if cs.Static.Name() == "Reset" {
			delete(s.D, "final:"+id)
		}
		if k.mutators[name] && s.D["final:"+id] != "" {
			s.D["late"] = name
		}
	}
	return nil, false
}

func (k *handClient) Opaque(e *Engine, s *State, cs *CallSite, argRes []Val) []Outcome {
	// a failing callback fails the call that runs it
	for _, r := range argRes {
		for _, v := range r.T {
			if v.K == KNonNil && isErrorType2(cs.Sig) {
				return []Outcome{{Val: Val{K: KNonNil, S: "callback"}}}
			}
		}
	}
	return nil
}

func (k *handClient) Exit(e *Engine, s *State, kind ExitKind, instr ssa.Instruction, res []Val) {
	if kind != ExitReturn {
		return
	}
	for _, i := range errIndex(k.root.Signature) {
		if s.isNil(res[i]) == 0 {
			return
		}
	}
	for i, r := range res {
		if !k.isIndex(k.root.Signature.Results().At(i).Type()) || r.K != KPtr {
			continue
		}
		k.found++
		if s.D["final:"+r.String()] == "" {
			k.c.BadAt("handed-out", fname(k.root), k.c.W.pos(instr.Pos()), e.Trace(s), "%s can hand out an index that was not finalised successfully", fname(k.root))
		}
		if l := s.D["late"]; l != "" {
			k.c.BadAt("handed-out", fname(k.root)+"|"+l, k.c.W.pos(instr.Pos()), e.Trace(s), "%s calls %s after the index was finalised", fname(k.root), l)
		}
	}
}

func handOut(c *Ctx, parts map[*types.TypeName]bool, mutators map[string]bool) {
	memo := map[*ssa.Function]bool{}
	var finals func(fn *ssa.Function) bool
	finals = func(fn *ssa.Function) bool {
		fn = origin(fn)
		if r, ok := memo[fn]; ok {
			return r
		}
		memo[fn] = false
		r := false
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if mc, ok := ins.(*ssa.MakeClosure); ok {
					r = r || finals(mc.Fn.(*ssa.Function))
				}
				call, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if st := call.Common().StaticCallee(); st != nil && isRepo(st) {
					if n := recvNamed(st); n != nil && parts[n.Obj()] {
						if n.Obj().Name() == "Index" && (st.Name() == "Finalize" || mutators[qualName(st)]) {
							r = true
						}
						continue
					}
					r = r || finals(st)
				}
			}
		}
		memo[fn] = r
		return r
	}
	for _, fn := range c.W.Fns {
		if fn.Parent() != nil || fn.Blocks == nil {
			continue
		}
		k := &handClient{c: c, root: fn, parts: parts, mutators: mutators, finals: finals}
		made := false
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			if k.isIndex(fn.Signature.Results().At(i).Type()) {
				made = true
			}
		}
		if !made {
			continue
		}
		e := NewEngine(c.W, k)
		e.Run(fn, nil)
		c.Counts["abstract_paths_explored"] += e.States
		if e.Over {
			c.BadAt("undecided", fname(fn), c.W.pos(fn.Pos()), "", "too many paths to decide")
		}
		if k.found > 0 {
			c.Ob("handed-out", fname(fn))
		}
	}
}

func init() {
	register(&Check{
		Prop: "C05",
		Explain: "The graph index and the identity map are found by their Finalize and Reset methods. Each exported method is interpreted on all abstract paths twice: with the finalised flag clear, to learn whether it changes anything (stores through the receiver, map updates, storage methods other than the reading ones), and with it set. " +
			"refused: with the flag set, a method that modifies has no effect on any path and its error result is known not to be nil. reaches-storages: every path of Finalize and Compact that does not report an error calls the method of the same name of every storage field. " +
			"reset: a successful Reset leaves the flags clear. stays-closed: no path of Close clears them. handed-out: functions that create an index return it without error only after its Finalize succeeded and without modifying it afterwards.",
		Assume: []string{
			"Reset is the way out of the finalised state; IMap.Next has no error result and only draws a fresh identifier",
			"the storage methods Get, GetZero, Has, Iterate, Count, Fetch, Forward and Reverse do not modify a storage",
			"Finalize is not run concurrently with another modification (documented requirement of Index)",
		},
		Floors: map[string]int{"refused": 8, "reaches-storages": 10, "reset": 2, "stays-closed": 2, "handed-out": 1},
		Run:    finalised,
	})
}
