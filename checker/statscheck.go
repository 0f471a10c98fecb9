package main

// C24: a missing status is harmless.

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const statsPkg = "internal/stats"

func isStatsPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, _ := p.Elem().(*types.Named)
	return n != nil && n.Obj().Name() == "Stats" && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), statsPkg)
}

// nilClient looks for uses of something that is not there
type nilClient struct {
	BaseClient
	c    *Ctx
	root *ssa.Function
	rule string
	what string
	call func(e *Engine, s *State, cs *CallSite) ([]Outcome, bool)
	exit func(e *Engine, s *State, instr ssa.Instruction, res []Val)
}

func (k *nilClient) bad(e *Engine, s *State, pos token.Pos, format string, args ...any) {
	k.c.BadAt(k.rule, fname(k.root), k.c.W.pos(pos), e.Trace(s), format, args...)
}

func (k *nilClient) Inline(e *Engine, s *State, cs *CallSite, fn *ssa.Function) bool {
	if !isRepo(fn) {
		return false
	}
	return fnPkg(fn) == fnPkg(k.root) || strings.HasSuffix(fnPkg(fn), statsPkg) || strings.HasSuffix(fnPkg(fn), "pkg/progress")
}

func (k *nilClient) Instr(e *Engine, s *State, instr ssa.Instruction) bool {
	var x ssa.Value
	switch ins := instr.(type) {
	case *ssa.FieldAddr:
		x = ins.X
	case *ssa.IndexAddr:
		if _, ok := ins.X.Type().Underlying().(*types.Pointer); ok {
			x = ins.X
		}
	case *ssa.UnOp:
		if ins.Op == token.MUL {
			x = ins.X
		}
	case *ssa.Store:
		x = ins.Addr
	}
	if x != nil && e.eval(s, x).K == KNil {
		k.bad(e, s, instr.Pos(), "%s is used although it is missing", k.what)
		return false
	}
	return true
}

func (k *nilClient) Call(e *Engine, s *State, cs *CallSite) ([]Outcome, bool) {
	com := cs.Instr.Common()
	if cs.Static == nil && (cs.Iface != nil && len(cs.Args) > 0 && cs.Args[0].K == KNil || cs.Iface == nil && cs.Closur == nil && cs.Fn.K == KNil) {
		if _, ok := com.Value.(*ssa.Builtin); !ok {
			k.bad(e, s, cs.Instr.Pos(), "%s is called although it is missing", k.what)
			return []Outcome{{End: true}}, true
		}
	}
	if cs.Static != nil && !isRepo(cs.Static) && cs.Static.Signature.Recv() != nil && len(cs.Args) > 0 && cs.Args[0].K == KNil {
		if _, ok := cs.Static.Signature.Recv().Type().Underlying().(*types.Pointer); ok {
			k.bad(e, s, cs.Instr.Pos(), "%s is used by %s although it is missing", k.what, cs.Static.Name())
			return []Outcome{{End: true}}, true
		}
	}
	if endsProcess(cs) {
		return []Outcome{{End: true}}, true
	}
	if k.call != nil {
		return k.call(e, s, cs)
	}
	return nil, false
}

func (k *nilClient) Exit(e *Engine, s *State, kind ExitKind, instr ssa.Instruction, res []Val) {
	if kind == ExitReturn && k.exit != nil {
		k.exit(e, s, instr, res)
	}
	if kind == ExitPanic {
		k.bad(e, s, instr.Pos(), "with %s missing this panics", k.what)
	}
}

func (k *nilClient) run(init func(*State), params map[string]Val) {
	e := NewEngine(k.c.W, k)
	e.RootID, e.Params, e.Strings = "r", params, true
	e.Special = neverSet
	e.Run(k.root, init)
	if e.Over {
		k.c.Bad("undecided", fname(k.root), k.root.Pos(), "too many paths to decide")
	}
}

// neverSet: a local value that nothing was stored in is empty
func neverSet(e *Engine, s *State, instr ssa.Instruction) bool {
	ld, ok := instr.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return false
	}
	if _, ok := ld.Type().Underlying().(*types.Struct); !ok {
		return false
	}
	a := e.eval(s, ld.X)
	if a.K != KPtr || !strings.HasPrefix(a.S, "a!") || s.hasSub(a.S) {
		return false
	}
	if _, ok := s.mem[a.S]; ok {
		return false
	}
	e.set(s, ld, zeroVal(ld.Type()))
	return true
}

// emptyVal says that v is an empty value of its type; with done, that says that there is nothing left to do
func emptyVal(e *Engine, s *State, v Val, t types.Type, done bool) bool {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if v.K == KConst && strings.HasPrefix(v.S, "zero:") {
			return !done
		}
		if v.K == KPtr || v.K == KOpaque {
			for i := 0; i < u.NumFields(); i++ {
				f, known := e.load(s, v.S+"."+u.Field(i).Name(), u.Field(i).Type())
				if !known && !(v.K == KPtr) {
					return false
				}
				if !emptyVal(e, s, f, u.Field(i).Type(), done && u.Field(i).Name() == "Done") {
					return false
				}
			}
			return true
		}
		return false
	case *types.Slice:
		if v.K == KNil {
			return true
		}
		n, ok := s.lenOf(v)
		return ok && n == 0
	case *types.Basic:
		if v.K == KBool {
			return (v.N == 1) == done
		}
		if v.K == KStr {
			return v.S == strConst("").S
		}
		return v.K == KConst && (v.S == "0" || v.S == `""` || strings.HasPrefix(v.S, "zero:"))
	}
	return v.K == KNil || v.K == KConst && strings.HasPrefix(v.S, "zero:")
}

// takesWork: the parameter that is a function returning an error
func takesWork(fn *ssa.Function) *ssa.Parameter {
	for _, p := range fn.Params {
		if sig, ok := p.Type().Underlying().(*types.Signature); ok && sig.Results().Len() == 1 && isErrorType(sig.Results().At(0).Type()) {
			return p
		}
	}
	return nil
}

func statsMethod(fn *ssa.Function) bool {
	return fn.Parent() == nil && fn.Synthetic == "" && fn.Blocks != nil && fn.Signature.Recv() != nil && isStatsPtr(fn.Signature.Recv().Type())
}

// missingStatus runs every operation with no status at all
func missingStatus(c *Ctx) {
	for _, fn := range c.W.Fns {
		if !statsMethod(fn) {
			continue
		}
		exported := token.IsExported(fn.Name())
		if !exported {
			// reached through the others
			continue
		}
		recv := fn.Params[0].Name()
		work := takesWork(fn)
		c.Ob("missing-status", fname(fn))
		k := &nilClient{c: c, root: fn, rule: "missing-status", what: "the status"}
		k.exit = func(e *Engine, s *State, instr ssa.Instruction, res []Val) {
			if work != nil {
				return
			}
			for i, v := range res {
				t := fn.Signature.Results().At(i).Type()
				if !emptyVal(e, s, v, t, fn.Name() == "Done" || shortType(t) == "Progress") {
					k.bad(e, s, instr.Pos(), "with the status missing the result is %s and not an empty value", v)
				}
			}
		}
		returns, ret := 0, token.NoPos
		exit := k.exit
		k.exit = func(e *Engine, s *State, instr ssa.Instruction, res []Val) {
			returns, ret = returns+1, instr.Pos()
			exit(e, s, instr, res)
		}
		k.run(nil, map[string]Val{recv: {K: KNil}})
		if returns > 0 && !comesBack(c, fn, recv) {
			c.Bad("missing-status", fname(fn), ret, "%s never comes back with a status, but without one it does: the program continues where it must end", fn.Name())
		}
		if work != nil {
			workDone(c, fn, work, map[string]Val{recv: {K: KNil}})
			workDone(c, fn, work, nil)
		}
	}
}

// comesBack: with a status the operation can return
func comesBack(c *Ctx, fn *ssa.Function, recv string) bool {
	k := &endClient{}
	e := NewEngine(c.W, k)
	e.RootID, e.Strings = "r", true
	e.Params = map[string]Val{recv: {K: KNonNil, S: "status"}}
	e.Run(fn, nil)
	return k.returns || e.Over
}

// endClient finds out whether a function returns
type endClient struct {
	BaseClient
	returns bool
}

func (k *endClient) Inline(e *Engine, s *State, cs *CallSite, fn *ssa.Function) bool {
	return isRepo(fn) && strings.HasSuffix(fnPkg(fn), statsPkg)
}

func endsProcess(cs *CallSite) bool {
	switch cs.Name() {
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln":
		return true
	}
	return false
}

func (k *endClient) Call(e *Engine, s *State, cs *CallSite) ([]Outcome, bool) {
	if endsProcess(cs) {
		return []Outcome{{End: true}}, true
	}
	return nil, false
}

func (k *endClient) Exit(e *Engine, s *State, kind ExitKind, instr ssa.Instruction, res []Val) {
	if kind == ExitReturn {
		k.returns = true
	}
}

// workDone: the work is done exactly once, and what it says is what is returned
func workDone(c *Ctx, fn *ssa.Function, work *ssa.Parameter, params map[string]Val) {
	k := &nilClient{c: c, root: fn, rule: "work", what: "the status"}
	c.Ob("work", fname(fn))
	k.call = func(e *Engine, s *State, cs *CallSite) ([]Outcome, bool) {
		if cs.Static != nil || cs.Iface != nil || cs.Fn.S != "r:"+work.Name()+";" {
			return nil, false
		}
		if s.D["work"] != "" {
			k.bad(e, s, cs.Instr.Pos(), "the work is done twice")
		}
		if cs.Go {
			k.bad(e, s, cs.Instr.Pos(), "the work is not waited for")
		}
		return []Outcome{
			{Val: Val{K: KNil}, Apply: func(s *State) { s.D["work"] = "ok" }},
			{Val: Val{K: KNonNil, S: "workerr"}, Apply: func(s *State) { s.D["work"] = "err" }},
		}, true
	}
	k.exit = func(e *Engine, s *State, instr ssa.Instruction, res []Val) {
		if len(res) != 1 {
			return
		}
		switch s.D["work"] {
		case "":
			k.bad(e, s, instr.Pos(), "the work is not done")
		case "ok":
			if s.isNil(res[0]) != 1 {
				k.bad(e, s, instr.Pos(), "the work succeeded, but %s is returned", res[0])
			}
		case "err":
			if s.isNil(res[0]) != 0 {
				k.bad(e, s, instr.Pos(), "the work failed, but %s is returned", res[0])
			}
		}
	}
	k.run(nil, params)
}

// missingParts runs every operation with a status that has no output, or nobody to tell about updates
func missingParts(c *Ctx) {
	var st *types.Struct
	for _, fn := range c.W.Fns {
		if statsMethod(fn) {
			st, _ = fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
			break
		}
	}
	if st == nil {
		return
	}
	var parts []string
	for i := 0; i < st.NumFields(); i++ {
		switch st.Field(i).Type().Underlying().(type) {
		case *types.Pointer, *types.Signature, *types.Interface:
			parts = append(parts, st.Field(i).Name())
		}
	}
	c.Counts["parts of a status"] = len(parts)
	for _, fn := range c.W.Fns {
		if !statsMethod(fn) {
			continue
		}
		recv := fn.Params[0].Name()
		for _, p := range parts {
			c.Ob("missing-part", fname(fn)+" "+p)
			k := &nilClient{c: c, root: fn, rule: "missing-part", what: "the " + p + " of the status"}
			k.run(func(s *State) {
				s.mem["*r:"+recv+";."+p] = Val{K: KNil}
				s.facts["r:"+recv+";"] = "nonnil"
			}, nil)
		}
	}
	// without an output there is nothing to write to
	for _, fn := range c.W.Fns {
		if fn.Parent() != nil || !strings.HasSuffix(fnPkg(fn), statsPkg) || fn.Blocks == nil || fn.Signature.Recv() != nil || fn.Signature.Results().Len() != 1 || !isStatsPtr(fn.Signature.Results().At(0).Type()) {
			continue
		}
		for _, p := range fn.Params {
			if !types.IsInterface(p.Type()) {
				continue
			}
			c.Ob("no-output", fname(fn))
			k := &nilClient{c: c, root: fn, rule: "no-output", what: "the output"}
			k.call = func(e *Engine, s *State, cs *CallSite) ([]Outcome, bool) {
				if cs.Static != nil && isRepo(cs.Static) {
					return nil, false
				}
				for i, a := range cs.Args {
					if a.K == KNil && i < len(cs.ArgV) && types.IsInterface(cs.ArgV[i].Type()) && strings.HasSuffix(types.TypeString(cs.ArgV[i].Type(), nil), "io.Writer") {
						k.bad(e, s, cs.Instr.Pos(), "the missing output is given to %s", cs.Name())
					}
				}
				return nil, false
			}
			k.exit = func(e *Engine, s *State, instr ssa.Instruction, res []Val) {
				if s.isNil(res[0]) == 1 {
					return
				}
				for _, part := range parts {
					for i := 0; i < st.NumFields(); i++ {
						f := st.Field(i)
						if f.Name() != part {
							continue
						}
						if _, ok := f.Type().Underlying().(*types.Signature); ok {
							continue
						}
						if v, known := e.load(s, res[0].S+"."+part, f.Type()); known && s.isNil(v) != 1 {
							k.bad(e, s, instr.Pos(), "without an output the status still has a %s that writes to it", part)
						}
					}
				}
			}
			k.run(nil, map[string]Val{p.Name(): {K: KNil}})
		}
	}
}

// alwaysThere: the pointer cannot be missing, because everything that is stored in the field was made
func alwaysThere(w *World, v ssa.Value) bool {
	load, ok := v.(*ssa.UnOp)
	if !ok || load.Op != token.MUL {
		return false
	}
	fa, ok := load.X.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	owner := namedOf(fa.X.Type().Underlying().(*types.Pointer).Elem())
	field := fieldName(fa.X.Type(), fa.Field)
	if owner == nil {
		return false
	}
	found := false
	for _, fn := range w.Fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if a, ok := ins.(*ssa.Alloc); ok {
					if n := namedOf(a.Type().Underlying().(*types.Pointer).Elem()); n == nil || n.Obj() != owner.Obj() {
						continue
					}
					// a new one must get its status right away
					set := false
					for _, ref := range *a.Referrers() {
						g, ok := ref.(*ssa.FieldAddr)
						if !ok || fieldName(g.X.Type(), g.Field) != field {
							continue
						}
						for _, r := range *g.Referrers() {
							if st, ok := r.(*ssa.Store); ok && st.Addr == g {
								set = true
							}
						}
					}
					for _, ref := range *a.Referrers() {
						if st, ok := ref.(*ssa.Store); ok && st.Addr == a {
							set = true
						}
					}
					if !set {
						return false
					}
				}
				st, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || fieldName(g.X.Type(), g.Field) != field {
					continue
				}
				if n := namedOf(g.X.Type().Underlying().(*types.Pointer).Elem()); n == nil || n.Obj() != owner.Obj() {
					continue
				}
				if !madeNew(st.Val, map[*ssa.Function]bool{}) {
					return false
				}
				found = true
			}
		}
	}
	return found
}

// madeNew: the pointer is that of something that was just made
func madeNew(v ssa.Value, seen map[*ssa.Function]bool) bool {
	switch x := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !madeNew(e, seen) {
				return false
			}
		}
		return len(x.Edges) > 0
	case *ssa.UnOp:
		if a, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			if st := onlyStore(a); st != nil {
				return madeNew(st, seen)
			}
		}
	case *ssa.Call:
		fn := x.Call.StaticCallee()
		if fn == nil || fn.Blocks == nil || fn.Signature.Results().Len() != 1 {
			return false
		}
		if seen[fn] {
			return true
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !madeNew(r.Results[0], seen) {
				return false
			}
		}
		return true
	}
	return false
}

// usersOf: everybody else only uses the operations, and is prepared to get nothing from them
func usersOf(c *Ctx) {
	ops := 0
	for _, fn := range c.W.Fns {
		if strings.HasSuffix(fnPkg(fn), statsPkg) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.FieldAddr:
					if isStatsPtr(x.X.Type()) {
						c.Ob("status-field", fname(fn)+" "+fieldName(x.X.Type(), x.Field))
						if !alwaysThere(c.W, x.X) && !madeNew(x.X, map[*ssa.Function]bool{}) && !guarded(x.X, b) {
							c.Bad("status-field", fname(fn), x.Pos(), "the field %s of a status that may be missing is used", fieldName(x.X.Type(), x.Field))
						}
					}
				case *ssa.UnOp:
					if x.Op == token.MUL && isStatsPtr(x.X.Type()) {
						c.Ob("status-field", fname(fn)+" *")
						if !alwaysThere(c.W, x.X) && !guarded(x.X, b) {
							c.Bad("status-field", fname(fn), x.Pos(), "a status that may be missing is copied")
						}
					}
				case ssa.CallInstruction:
					callee := x.Common().StaticCallee()
					if callee == nil || callee.Signature.Recv() == nil || !isStatsPtr(callee.Signature.Recv().Type()) {
						continue
					}
					ops++
					c.ObOnce("operation", fname(fn)+" "+callee.Name())
					if v, ok := x.(ssa.Value); ok {
						if _, isPtr := v.Type().Underlying().(*types.Pointer); isPtr {
							prepared(c, fn, x, callee)
						}
					}
				}
			}
		}
	}
	c.Counts["uses of status operations"] = ops
}

// guarded: the block is only reached when v is not nil
func guarded(v ssa.Value, b *ssa.BasicBlock) bool {
	for d := b; d != nil; d = d.Idom() {
		p := d.Idom()
		if p == nil || len(p.Instrs) == 0 {
			return false
		}
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cmp, ok := iff.Cond.(*ssa.BinOp)
		if !ok || cmp.X != v && cmp.Y != v {
			continue
		}
		o := cmp.Y
		if cmp.X != v {
			o = cmp.X
		}
		if k, ok := o.(*ssa.Const); !ok || k.Value != nil {
			continue
		}
		i := 0
		if cmp.Op == token.EQL {
			i = 1
		}
		if cmp.Op != token.EQL && cmp.Op != token.NEQ {
			continue
		}
		if p.Succs[i] == d && len(d.Preds) == 1 {
			return true
		}
	}
	return false
}

// prepared: what an operation returns may be missing, too
func prepared(c *Ctx, fn *ssa.Function, call ssa.CallInstruction, callee *ssa.Function) {
	root := outermost(fn)
	c.Ob("missing-result", fname(root)+" "+callee.Name())
	k := &nilClient{c: c, root: root, rule: "missing-result", what: "what " + callee.Name() + " returns"}
	k.call = func(e *Engine, s *State, cs *CallSite) ([]Outcome, bool) {
		if cs.Static == callee || cs.Static != nil && origin(cs.Static) == origin(callee) {
			return []Outcome{{Val: Val{K: KNil}}, {Val: Val{K: KNonNil, S: "part"}}}, true
		}
		return nil, false
	}
	k.run(nil, nil)
}

// sameWork: nothing but reporting depends on the status
func sameWork(c *Ctx) {
	for _, fn := range c.W.Fns {
		pkg := fnPkg(fn)
		if strings.HasSuffix(pkg, statsPkg) || !isRepo(fn) || fn.Blocks == nil || fn.Synthetic != "" {
			continue
		}
		if res := fn.Signature.Results(); res.Len() == 1 && fromProgress(res.At(0).Type()) {
			continue
		}
		derived := map[ssa.Value]bool{}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				v, ok := ins.(ssa.Value)
				if !ok {
					continue
				}
				switch x := ins.(type) {
				case *ssa.BinOp:
					for _, o := range []ssa.Value{x.X, x.Y} {
						if isStatsPtr(o.Type()) && !alwaysThere(c.W, o) {
							derived[v] = true
						}
					}
				case *ssa.Call:
					if st := x.Call.StaticCallee(); st != nil && st.Signature.Recv() != nil && isStatsPtr(st.Signature.Recv().Type()) && takesWork(origin(st)) == nil {
						if r := x.Call.Args[0]; !alwaysThere(c.W, r) && !toldBy(c.W, r) {
							derived[v] = true
						}
					}
				}
			}
		}
		if len(derived) == 0 {
			continue
		}
		spread(fn, derived)
		for _, b := range fn.Blocks {
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			c.Counts["branches in functions that ask the status"]++
			if !derived[iff.Cond] {
				continue
			}
			c.Ob("same-work", fname(fn))
			for _, succ := range b.Succs {
				if len(succ.Preds) != 1 {
					continue
				}
				for _, d := range fn.Blocks {
					if !succ.Dominates(d) {
						continue
					}
					if pos, what := doesWork(d, derived); what != "" {
						if pos == token.NoPos {
							pos = iff.Cond.Pos()
						}
						c.Bad("same-work", fname(fn), pos, "whether %s depends on the status", what)
					}
				}
			}
			for _, d := range fn.Blocks {
				for _, ins := range d.Instrs {
					if phi, ok := ins.(*ssa.Phi); ok && derived[phi] && !onlyReported(phi, map[ssa.Value]bool{}) {
						c.Bad("same-work", fname(fn), iff.Cond.Pos(), "a value that is used for more than reporting depends on the status")
					}
				}
			}
		}
	}
}

// toldBy: the status is that of the function that is told about updates
func toldBy(w *World, v ssa.Value) bool {
	p, ok := v.(*ssa.Parameter)
	if !ok {
		return false
	}
	fn := p.Parent()
	return callersOf(fn) == nil || len(callersOf(fn)) == 0
}

func fromProgress(t types.Type) bool {
	n := namedOf(t)
	if n == nil {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			n = namedOf(p.Elem())
		}
	}
	if n == nil || n.Obj().Pkg() == nil {
		return t.String() == "io.Writer" || t.String() == "io.Reader"
	}
	return strings.HasSuffix(n.Obj().Pkg().Path(), "pkg/progress") || t.String() == "io.Writer" || t.String() == "io.Reader"
}

// spread adds what is computed from the values
func spread(fn *ssa.Function, derived map[ssa.Value]bool) {
	for changed := true; changed; {
		changed = false
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				v, ok := ins.(ssa.Value)
				if !ok || derived[v] {
					continue
				}
				d := false
				switch x := ins.(type) {
				case *ssa.BinOp:
					d = derived[x.X] || derived[x.Y]
				case *ssa.UnOp:
					d = derived[x.X] && x.Op != token.MUL
				case *ssa.Extract:
					d = derived[x.Tuple]
				case *ssa.Field:
					d = derived[x.X]
				case *ssa.Convert:
					d = derived[x.X]
				case *ssa.ChangeType:
					d = derived[x.X]
				case *ssa.Phi:
					for i, e := range x.Edges {
						if derived[e] {
							d = true
						}
						// a value picked by a test of the status
						p := b.Preds[i]
						for _, q := range []*ssa.BasicBlock{p, p.Idom()} {
							if q == nil || q == b {
								continue
							}
							if iff, ok := q.Instrs[len(q.Instrs)-1].(*ssa.If); ok && derived[iff.Cond] && len(x.Edges) > 1 && q.Dominates(b) {
								d = true
							}
						}
					}
					if d && sameEdges(x) {
						d = false
					}
				}
				if d {
					derived[v] = true
					changed = true
				}
			}
		}
	}
}

func sameEdges(p *ssa.Phi) bool {
	for _, e := range p.Edges {
		if e == p.Edges[0] {
			continue
		}
		a, ok1 := e.(*ssa.Const)
		b, ok2 := p.Edges[0].(*ssa.Const)
		if !ok1 || !ok2 || (a.Value == nil) != (b.Value == nil) || a.Value != nil && !constant.Compare(a.Value, token.EQL, b.Value) {
			return false
		}
	}
	return true
}

func reporting(com *ssa.CallCommon) bool {
	if com.IsInvoke() {
		return false
	}
	if b, ok := com.Value.(*ssa.Builtin); ok {
		return b.Name() == "len" || b.Name() == "cap"
	}
	st := com.StaticCallee()
	if st == nil {
		return false
	}
	p := fnPkg(st)
	for _, ok := range []string{statsPkg, "pkg/progress", "log/slog", "fmt", "time", "pkglib/perf"} {
		if strings.HasSuffix(p, ok) {
			return takesWork(st) == nil
		}
	}
	return false
}

// doesWork: the block does more than reporting
func doesWork(b *ssa.BasicBlock, derived map[ssa.Value]bool) (token.Pos, string) {
	for _, ins := range b.Instrs {
		switch x := ins.(type) {
		case *ssa.Call:
			if !reporting(&x.Call) {
				return x.Pos(), "something is called"
			}
		case *ssa.Go:
			return x.Pos(), "something is started"
		case *ssa.Defer:
			if !reporting(&x.Call) {
				return x.Pos(), "something is called"
			}
		case *ssa.Store:
			root := x.Addr
			for {
				switch y := root.(type) {
				case *ssa.FieldAddr:
					root = y.X
					continue
				case *ssa.IndexAddr:
					root = y.X
					continue
				}
				break
			}
			if _, ok := root.(*ssa.Alloc); !ok {
				return x.Pos(), "something is changed"
			} else if root.(*ssa.Alloc).Comment != "varargs" && !onlyReported(root, map[ssa.Value]bool{}) {
				return x.Pos(), "something is changed"
			}
		case *ssa.MapUpdate, *ssa.Send:
			return x.Pos(), "something is changed"
		case *ssa.Panic:
			return x.Pos(), "something panics"
		case *ssa.Return:
			return x.Pos(), "something is returned"
		}
	}
	return token.NoPos, ""
}

// onlyReported: the value is only used to report
func onlyReported(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	refs := v.Referrers()
	if refs == nil {
		return true
	}
	for _, r := range *refs {
		switch x := r.(type) {
		case ssa.CallInstruction:
			if !reporting(x.Common()) {
				return false
			}
		case *ssa.DebugRef:
		case *ssa.Store:
			if x.Val == v && !onlyReported(rootAlloc(x.Addr), seen) {
				return false
			}
		case *ssa.If:
			// looked at where the branch is
		case *ssa.Return, *ssa.MapUpdate, *ssa.Send, *ssa.MakeClosure:
			return false
		default:
			if w, ok := r.(ssa.Value); ok && !onlyReported(w, seen) {
				return false
			}
		}
	}
	return true
}

func rootAlloc(v ssa.Value) ssa.Value {
	for {
		switch y := v.(type) {
		case *ssa.FieldAddr:
			v = y.X
			continue
		case *ssa.IndexAddr:
			v = y.X
			continue
		}
		return v
	}
}

// outputs: whatever writes its progress somewhere has somewhere to write to
func outputs(c *Ctx) {
	for _, fn := range c.W.Fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				a, ok := ins.(*ssa.Alloc)
				if !ok {
					continue
				}
				n := namedOf(a.Type().Underlying().(*types.Pointer).Elem())
				if n == nil || n.Obj().Pkg() == nil || !strings.HasSuffix(n.Obj().Pkg().Path(), "pkg/progress") || strings.HasSuffix(fnPkg(fn), "pkg/progress") {
					continue
				}
				c.Ob("progress-output", fname(fn)+" "+n.Obj().Name())
				want := "Writer"
				if n.Obj().Name() != "Rewritable" {
					want = "Rewritable"
				}
				if !setFrom(a, want) {
					c.Bad("progress-output", fname(fn), a.Pos(), "a %s is made without a %s", n.Obj().Name(), want)
				}
			}
		}
	}
}

// setFrom: the field of the new value, or the whole value, is given something
func setFrom(a ssa.Value, field string) bool {
	for _, ref := range *a.Referrers() {
		switch x := ref.(type) {
		case *ssa.Store:
			if x.Addr == a {
				if k, ok := x.Val.(*ssa.Const); !ok || k.Value != nil {
					return true
				}
			}
		case *ssa.FieldAddr:
			name := fieldName(x.X.Type(), x.Field)
			for _, r := range *x.Referrers() {
				switch y := r.(type) {
				case *ssa.Store:
					if y.Addr == x && name == field {
						if k, ok := y.Val.(*ssa.Const); !ok || k.Value != nil {
							return true
						}
					}
				}
			}
			if name == field && field == "Rewritable" && setFrom(x, "Writer") {
				return true
			}
		}
	}
	return false
}

func init() {
	register(&Check{
		Prop:    "C24",
		Explain: "Every operation of *stats.Stats is followed along all of its paths with no status at all, and with a status that lacks each of its parts (output, logger, somebody to tell): nothing missing may be used, and results must be empty, and what ends the process with a status must end it without one; the operation that does work must do it exactly once and return what it says. The rest of the repository may only use the operations, must be prepared for missing results, and nothing but reporting may depend on a status.",
		Assume:  []string{"slog and perf behave as documented", "statuses are only changed by the methods of Stats"},
		Floors:  map[string]int{"missing-status": 9, "missing-part": 25, "work": 1, "no-output": 1, "operation": 25, "missing-result": 1, "status-field": 1, "progress-output": 2},
		Run: func(c *Ctx) {
			missingStatus(c)
			missingParts(c)
			usersOf(c)
			sameWork(c)
			outputs(c)
		},
	})
}
