package main

// C25: what is used again is emptied first, and what outlives a step is copied.

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func isPoolCall(com *ssa.CallCommon, name string) bool {
	st := com.StaticCallee()
	return st != nil && qualName(st) == "(*sync.Pool)."+name
}

func isScratch(t types.Type) bool {
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil {
		return false
	}
	q := n.Obj().Pkg().Path() + "." + n.Obj().Name()
	return q == "bytes.Buffer" || q == "strings.Builder"
}

// recycleClient follows things that are used again
type recycleClient struct {
	BaseClient
	c      *Ctx
	root   *ssa.Function
	quiet  bool
	dirty  map[string]bool // pools that may hold things that are not empty
	pooled map[*types.Named]token.Pos
}

func (k *recycleClient) bad(e *Engine, s *State, pos token.Pos, format string, args ...any) {
	if !k.quiet {
		k.c.BadAt("emptied", fname(k.root), k.c.W.pos(pos), e.Trace(s), format, args...)
	}
}

func (k *recycleClient) Inline(e *Engine, s *State, cs *CallSite, fn *ssa.Function) bool {
	if !isRepo(fn) || fnPkg(fn) != fnPkg(k.root) {
		return false
	}
	if fn.Parent() != nil || takesFuncs(fn) {
		return true
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if call, ok := ins.(ssa.CallInstruction); ok && (isPoolCall(call.Common(), "Get") || isPoolCall(call.Common(), "Put")) {
				return true
			}
		}
	}
	for i, a := range cs.Args {
		if s.D["obj:"+objKey(a)] != "" && !(i == 0 && fn.Signature.Recv() != nil) {
			return true
		}
		if i < len(cs.ArgV) && isScratch(cs.ArgV[i].Type()) {
			return true
		}
	}
	return false
}

func objKey(v Val) string {
	switch v.K {
	case KPtr, KOpaque, KNonNil:
		return v.S
	}
	return ""
}

func poolName(e *Engine, s *State, cs *CallSite) string { return cs.Args[0].S }

// use: something is done with an object
func (k *recycleClient) use(e *Engine, s *State, key string, pos token.Pos, how string) {
	switch s.D["obj:"+key] {
	case "dirty":
		k.bad(e, s, pos, "%s although it still holds what was put into it the last time it was used", how)
		s.D["obj:"+key] = "filled"
	case "put":
		k.bad(e, s, pos, "%s after it was given back", how)
		s.D["obj:"+key] = "filled"
	case "empty":
		s.D["obj:"+key] = "filled"
	}
}

func (k *recycleClient) Call(e *Engine, s *State, cs *CallSite) ([]Outcome, bool) {
	com := cs.Instr.Common()
	if isPoolCall(com, "Get") {
		key := "pool:" + cs.ResID
		return []Outcome{{Val: Val{K: KNonNil, S: key}, Apply: func(s *State) {
			st := "empty"
			if k.dirty[poolName(e, s, cs)] {
				st = "dirty"
			}
			s.D["obj:"+key] = st
			delete(s.D, "taken:"+key)
		}}}, true
	}
	if isPoolCall(com, "Put") {
		key := objKey(cs.Args[1])
		if s.D["obj:"+key] != "empty" {
			k.dirty[poolName(e, s, cs)] = true
		}
		if s.D["obj:"+key] == "put" {
			k.bad(e, s, cs.Instr.Pos(), "it is given back twice")
		}
		return []Outcome{{Val: Val{K: KConst, S: "void"}, Apply: func(s *State) { s.D["obj:"+key] = "put" }}}, true
	}
	if len(cs.Args) == 0 {
		return nil, false
	}
	key := objKey(cs.Args[0])
	method := cs.Static != nil && cs.Static.Signature.Recv() != nil
	if method && isScratch(cs.Static.Signature.Recv().Type()) {
		switch cs.Static.Name() {
		case "Reset":
			s.D["obj:"+key] = "empty"
			delete(s.D, "taken:"+key)
		case "Truncate":
			if n, ok := intOf(cs.Args[1]); ok && n == 0 {
				s.D["obj:"+key] = "empty"
				delete(s.D, "taken:"+key)
			}
		case "Len", "Cap", "Grow", "Available":
		case "String", "Bytes":
			k.use(e, s, key, cs.Instr.Pos(), "it is read")
			s.D["taken:"+key] = "1"
		default:
			k.use(e, s, key, cs.Instr.Pos(), "it is used by "+cs.Static.Name())
			k.refill(e, s, key, cs.Instr.Pos())
		}
		return nil, false
	}
	if method && s.D["obj:"+key] != "" && isRepo(cs.Static) && cs.Static.Name() == "Reset" {
		s.D["obj:"+key] = "empty"
		return []Outcome{{Val: Val{K: KConst, S: "void"}}}, true
	}
	for i, a := range cs.Args {
		key := objKey(a)
		if key == "" {
			continue
		}
		inlined := cs.Static != nil && k.Inline(e, s, cs, cs.Static) || cs.Static == nil && cs.Closur != nil
		if s.D["obj:"+key] != "" && !inlined {
			k.use(e, s, key, cs.Instr.Pos(), "it is given to "+cs.Name())
		}
		if !inlined && i < len(cs.ArgV) && fromScratch(cs.ArgV[i]) {
			k.refill(e, s, key, cs.Instr.Pos())
		}
	}
	return nil, false
}

// fromScratch: the argument is a buffer, maybe as an interface
func fromScratch(v ssa.Value) bool {
	if mi, ok := v.(*ssa.MakeInterface); ok {
		v = mi.X
	}
	_, isPtr := v.Type().Underlying().(*types.Pointer)
	return isPtr && isScratch(v.Type())
}

// refill: something is added
func (k *recycleClient) refill(e *Engine, s *State, key string, pos token.Pos) {
	if s.D["taken:"+key] != "" {
		k.bad(e, s, pos, "something is added although it still holds what was taken out before")
		delete(s.D, "taken:"+key)
	}
}

func (k *recycleClient) Instr(e *Engine, s *State, instr ssa.Instruction) bool {
	switch ins := instr.(type) {
	case *ssa.FieldAddr:
		key := objKey(e.eval(s, ins.X))
		if s.D["obj:"+key] != "" && key != "" {
			k.use(e, s, key, ins.Pos(), "its "+fieldName(ins.X.Type(), ins.Field)+" is used")
		}
	case *ssa.Store:
		key := objKey(e.eval(s, ins.Addr))
		if key != "" && s.D["obj:"+key] != "" {
			if v := e.eval(s, ins.Val); v.K == KConst && strings.HasPrefix(v.S, "zero:") {
				s.D["obj:"+key] = "empty"
			} else {
				s.D["obj:"+key] = "filled"
			}
		}
	case *ssa.UnOp:
		if ins.Op == token.MUL {
			key := objKey(e.eval(s, ins.X))
			if key != "" && s.D["obj:"+key] != "" {
				k.use(e, s, key, ins.Pos(), "it is read")
			}
		}
	case *ssa.TypeAssert:
		if strings.HasPrefix(objKey(e.eval(s, ins.X)), "pool:") {
			if n := namedOf(ins.AssertedType); n != nil {
				k.pooled[n] = ins.Pos()
			}
		}
	}
	return true
}

// special keeps the identity of what is taken from a pool
func (k *recycleClient) special(e *Engine, s *State, instr ssa.Instruction) bool {
	switch ins := instr.(type) {
	case *ssa.TypeAssert:
		if v := e.eval(s, ins.X); strings.HasPrefix(objKey(v), "pool:") {
			if ins.CommaOk {
				e.set(s, ins, Val{K: KTuple, T: []Val{v, boolVal(true)}})
			} else {
				e.set(s, ins, v)
			}
			return true
		}
	case *ssa.MakeInterface:
		if v := e.eval(s, ins.X); strings.HasPrefix(objKey(v), "pool:") || v.K == KPtr && fromScratch(ins.X) {
			e.set(s, ins, v)
			return true
		}
	}
	return neverSet(e, s, instr)
}

// emptied: pools and buffers
func emptied(c *Ctx) map[*types.Named]token.Pos {
	roots := map[*ssa.Function]bool{}
	add := func(fn *ssa.Function) { roots[outermost(fn)] = true }
	for _, fn := range c.W.Fns {
		if fn.Synthetic != "" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case ssa.CallInstruction:
					com := x.Common()
					if isPoolCall(com, "Get") {
						c.Ob("pool", fname(fn)+" "+c.W.pos(x.Pos()))
						add(fn)
						if fn.Signature.Results().Len() > 0 {
							if _, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer); ok {
								for _, call := range allCallers(c.W, fn) {
									add(call.Parent())
								}
							}
						}
					}
					if isPoolCall(com, "Put") {
						add(fn)
					}
				case *ssa.Alloc:
					if isScratch(x.Type()) {
						c.Ob("buffer", fname(fn)+" "+x.Comment)
						add(fn)
					}
				}
			}
		}
	}
	dirty := map[string]bool{}
	pooled := map[*types.Named]token.Pos{}
	for pass := 0; pass < 2; pass++ {
		for _, fn := range sortedFns(roots) {
			k := &recycleClient{c: c, root: fn, quiet: pass == 0, dirty: dirty, pooled: pooled}
			e := NewEngine(c.W, k)
			e.RootID, e.Special = "r", k.special
			e.Run(fn, nil)
			if e.Over {
				c.Bad("undecided", fname(fn), fn.Pos(), "too many paths to decide")
			}
		}
	}
	return pooled
}

// resets: emptying clears everything, and does not keep memory that others may still see
func resets(c *Ctx, pooled map[*types.Named]token.Pos) {
	for n := range pooled {
		if isScratch(n) || n.Obj().Pkg() == nil || !isRepoPath(n.Obj().Pkg().Path()) {
			continue
		}
		st, ok := n.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		var reset *ssa.Function
		for _, fn := range c.W.Fns {
			if rn := recvNamed(fn); rn != nil && rn.Obj() == n.Obj() && fn.Name() == "Reset" && fn.Synthetic == "" && fn.Blocks != nil {
				reset = fn
			}
		}
		if reset == nil {
			continue
		}
		recv := reset.Params[0].Name()
		k := &nilClient{c: c, root: reset, rule: "reset", what: "the object"}
		for i := 0; i < st.NumFields(); i++ {
			c.Ob("reset", fname(reset)+" "+st.Field(i).Name())
		}
		k.exit = func(e *Engine, s *State, instr ssa.Instruction, res []Val) {
			whole, set := s.mem["*r:"+recv+";"]
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				v, known := e.load(s, "*r:"+recv+";."+f.Name(), f.Type())
				if set && whole.K == KConst && strings.HasPrefix(whole.S, "zero:") && !known {
					continue
				}
				if !known || !emptyVal(e, s, v, f.Type(), false) || v.K == KPtr {
					k.bad(e, s, reset.Pos(), "the %s is not cleared", f.Name())
				}
			}
		}
		k.run(func(s *State) { s.facts["r:"+recv+";"] = "nonnil" }, nil)
	}
}

// ---- what only lives for one step

type aliasing struct {
	c     *Ctx
	taint map[ssa.Value]string
	work  []ssa.Value
}

func (a *aliasing) add(v ssa.Value, why string) {
	if v == nil || a.taint[v] != "" {
		return
	}
	if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString == 0 && b.Kind() != types.UnsafePointer {
		return
	}
	if isErrorType(v.Type()) {
		return
	}
	a.taint[v] = why
	a.work = append(a.work, v)
}

func (a *aliasing) report(fn *ssa.Function, pos token.Pos, why, what string) {
	a.c.Bad("outlives", fname(fn), pos, "%s %s without being copied", why, what)
}

const (
	whyIter  = "what the cursor holds for one entry"
	whyPool  = "something that is used again"
	whyBytes = "the content of a buffer that is used again"
	whyRow   = "what is valid for one row only"
)

func (a *aliasing) sources() {
	for _, fn := range a.c.W.Fns {
		if !isRepo(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Call:
					com := &x.Call
					if com.IsInvoke() && (com.Method.Name() == "Key" || com.Method.Name() == "Value") && strings.Contains(com.Value.Type().String(), "leveldb/iterator.") {
						a.c.Ob("cursor", fname(fn)+" "+com.Method.Name())
						a.add(x, whyIter)
					}
					if isPoolCall(com, "Get") {
						a.add(x, whyPool)
					}
					if st := com.StaticCallee(); st != nil && qualName(st) == "(*bufio.Scanner).Bytes" {
						a.add(x, whyRow)
					}
				case *ssa.UnOp:
					if n, ok := x.Type().(*types.Named); ok && x.Op == token.MUL && n.Obj().Name() == "RawBytes" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "database/sql" {
						a.c.Ob("row", fname(fn))
						a.add(x, whyRow)
					}
				}
			}
		}
	}
}

func base(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		default:
			return v
		}
	}
}

func isByteSlice(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := sl.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

func (a *aliasing) run() {
	a.sources()
	for len(a.work) > 0 {
		v := a.work[len(a.work)-1]
		a.work = a.work[:len(a.work)-1]
		if v.Referrers() == nil {
			continue
		}
		why := a.taint[v]
		for _, r := range *v.Referrers() {
			a.flow(v, r, why)
		}
	}
}

// owns: the lifetime of what is behind v ends with this function
func (a *aliasing) owns(fn *ssa.Function, why string) bool {
	for _, g := range append([]*ssa.Function{fn}, fn.AnonFuncs...) {
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				if call, ok := ins.(ssa.CallInstruction); ok {
					com := call.Common()
					if (why == whyPool || why == whyBytes) && isPoolCall(com, "Put") {
						return true
					}
					if why == whyIter && (com.IsInvoke() && (com.Method.Name() == "Release" || com.Method.Name() == "Next") && strings.Contains(com.Value.Type().String(), "leveldb/iterator.")) {
						return true
					}
					if why == whyRow && com.StaticCallee() != nil && strings.HasSuffix(qualName(com.StaticCallee()), ").Scan") {
						return true
					}
				}
			}
		}
	}
	return false
}

func (a *aliasing) flow(v ssa.Value, r ssa.Instruction, why string) {
	fn := r.Parent()
	switch x := r.(type) {
	case *ssa.Slice, *ssa.ChangeType, *ssa.MakeInterface, *ssa.TypeAssert, *ssa.ChangeInterface, *ssa.Field, *ssa.Index:
		a.add(x.(ssa.Value), why)
	case *ssa.Phi:
		a.add(x, why)
	case *ssa.Extract:
		a.add(x, why)
	case *ssa.Convert:
		u, up := x.Type().Underlying().(*types.Basic)
		f, fp := x.X.Type().Underlying().(*types.Basic)
		if up && u.Kind() == types.UnsafePointer || fp && f.Kind() == types.UnsafePointer {
			a.add(x, why)
		}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return
		}
		if why == whyPool {
			// the fields are cleared, and never filled again
			if _, ok := v.(*ssa.Alloc); !ok {
				return
			}
		}
		a.add(x, why)
	case *ssa.FieldAddr, *ssa.IndexAddr:
		if why == whySlice || why == whyCell {
			return
		}
		if _, ok := base(v).(*ssa.Alloc); ok && why != whyPool {
			a.add(x.(ssa.Value), why)
		} else if _, ok := v.(*ssa.FreeVar); ok && why != whyPool {
			a.add(x.(ssa.Value), why)
		}
		if _, ok := x.(*ssa.IndexAddr); ok && why != whyPool {
			// an element: only matters when it is a reference itself
			if !isByteSlice(v.Type()) {
				a.add(x.(ssa.Value), why)
			}
		}
	case *ssa.Store:
		if x.Val != v {
			return
		}
		if (why == whySlice || why == whyCell) && slot(x.Addr, 0) != "" && slot(x.Addr, 0) == slot(v, 0) {
			return
		}
		a.stored(x.Addr, fn, x.Pos(), why)
	case *ssa.MapUpdate:
		if (why == whySlice || why == whyCell) && slot(x.Map, 0) == slot(v, 0) {
			return
		}
		if x.Value == v || x.Key == v {
			a.report(fn, x.Pos(), why, "is put into a map")
		}
	case *ssa.Send:
		if x.X == v {
			a.report(fn, x.Pos(), why, "is sent to others")
		}
	case *ssa.MakeClosure:
		g := x.Fn.(*ssa.Function)
		for i, b := range x.Bindings {
			if b == v {
				a.add(g.FreeVars[i], why)
			}
		}
	case *ssa.Return:
		for i, res := range x.Results {
			if res != v {
				continue
			}
			if why == whyCell {
				a.report(fn, x.Pos(), why, "is returned")
				return
			}
			if why == whySlice {
				return
			}
			if a.owns(fn, why) {
				a.report(fn, x.Pos(), why, "is returned")
				return
			}
			if fn.Parent() == nil && len(allCallers(a.c.W, fn)) == 0 {
				a.report(fn, x.Pos(), why, "is returned")
				return
			}
			for _, call := range allCallers(a.c.W, fn) {
				cv, ok := call.(ssa.Value)
				if !ok {
					continue
				}
				if len(x.Results) == 1 {
					a.add(cv, why)
					continue
				}
				for _, ref := range *cv.Referrers() {
					if ex, ok := ref.(*ssa.Extract); ok && ex.Index == i {
						a.add(ex, why)
					}
				}
			}
			if fn.Parent() != nil {
				for _, mc := range closuresOf(fn) {
					for _, ref := range *mc.Referrers() {
						if call, ok := ref.(*ssa.Call); ok && call.Call.Value == ssa.Value(mc) {
							a.add(call, why)
						}
					}
				}
			}
		}
	case ssa.CallInstruction:
		a.called(v, x, fn, why)
	}
}

func (a *aliasing) stored(addr ssa.Value, fn *ssa.Function, pos token.Pos, why string) {
	switch b := base(addr).(type) {
	case *ssa.Alloc:
		a.add(b, why)
	case *ssa.FreeVar:
		for _, mc := range closuresOf(b.Parent()) {
			for i, fv := range b.Parent().FreeVars {
				if fv == b {
					if al, ok := mc.Bindings[i].(*ssa.Alloc); ok {
						a.add(al, why)
					} else {
						a.report(fn, pos, why, "is kept")
					}
				}
			}
		}
	case *ssa.MakeSlice:
		a.add(b, why)
	default:
		a.report(fn, pos, why, "is stored where it stays")
	}
}

func (a *aliasing) called(v ssa.Value, call ssa.CallInstruction, fn *ssa.Function, why string) {
	com := call.Common()
	res, _ := call.(ssa.Value)
	if b, ok := com.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			// bytes are copied, references are not
			if com.Args[0] == v {
				a.add(res, why)
			} else if !isByteSlice(com.Args[0].Type()) && why != whySlice && why != whyCell {
				a.add(res, why)
			}
		case "String", "Slice", "SliceData", "StringData", "min", "max":
			a.add(res, why)
		}
		return
	}
	if com.IsInvoke() {
		if com.Value == v {
			return
		}
		switch com.Method.Name() {
		case "Write", "WriteString", "Read":
		default:
			if why != whyPool {
				a.report(fn, call.Pos(), why, "is handed out to "+com.Method.Name())
			}
		}
		return
	}
	args := com.Args
	var targets []*ssa.Function
	if st := com.StaticCallee(); st != nil {
		targets = []*ssa.Function{st}
	} else {
		targets = sameSignature(a.c.W, com.Signature())
		if len(targets) == 0 && why != whyPool {
			a.report(fn, call.Pos(), why, "is handed out")
		}
	}
	for _, t := range targets {
		t = origin(t)
		if isRepo(t) && t.Blocks != nil {
			for i, arg := range args {
				if arg == v && i < len(t.Params) {
					a.add(t.Params[i], why)
				}
			}
			continue
		}
		q := qualName(t)
		recv := t.Signature.Recv()
		if recv != nil && len(args) > 0 && args[0] == v && isScratch(recv.Type()) {
			switch t.Name() {
			case "Bytes", "Next", "AvailableBuffer", "ReadSlice":
				a.add(res, whyBytes)
			}
			continue
		}
		if strings.HasPrefix(q, "bytes.") && res != nil && isByteSlice(res.Type()) {
			switch t.Name() {
			case "Clone", "Join", "Repeat", "ToUpper", "ToLower", "Replace", "ReplaceAll", "Map", "Title", "ToTitle", "ToValidUTF8":
			default:
				a.add(res, why)
			}
		}
	}
}

var addressTaken map[string][]*ssa.Function

// sameSignature lists the functions that are used as values and have that signature
func sameSignature(w *World, sig *types.Signature) []*ssa.Function {
	if addressTaken == nil {
		addressTaken = map[string][]*ssa.Function{}
		seen := map[*ssa.Function]bool{}
		for _, fn := range w.Fns {
			if !isRepo(fn) {
				continue
			}
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					var ops []*ssa.Value
					call, isCall := ins.(ssa.CallInstruction)
					for i, op := range ins.Operands(ops) {
						if isCall && i == 0 && !call.Common().IsInvoke() {
							continue
						}
						g, ok := (*op).(*ssa.Function)
						if ok && !seen[g] {
							seen[g] = true
							k := sigShape(g.Signature)
							addressTaken[k] = append(addressTaken[k], g)
						}
					}
				}
			}
		}
	}
	return addressTaken[sigShape(sig)]
}

// sigShape ignores type parameters
func sigShape(sig *types.Signature) string {
	shape := func(t *types.Tuple) string {
		var out []string
		for i := 0; i < t.Len(); i++ {
			u := t.At(i).Type()
			switch {
			case isByteSlice(u):
				out = append(out, "bytes")
			case isErrorType(u):
				out = append(out, "error")
			default:
				if _, ok := u.(*types.Pointer); ok {
					out = append(out, "ptr")
				} else {
					out = append(out, "val")
				}
			}
		}
		return strings.Join(out, ",")
	}
	return shape(sig.Params()) + "->" + shape(sig.Results())
}

// ---- slices that are filled again

// slot names the field (or variable) that a slice lives in; elements of a map count as one
func slot(v ssa.Value, depth int) string {
	if depth > 12 {
		return ""
	}
	switch x := v.(type) {
	case *ssa.FieldAddr:
		n := namedOf(x.X.Type())
		if n == nil || n.Obj().Pkg() == nil {
			return ""
		}
		return n.Obj().Pkg().Path() + "." + n.Obj().Name() + "." + fieldName(x.X.Type(), x.Field)
	case *ssa.Global:
		return x.String()
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return slot(x.X, depth+1)
		}
	case *ssa.Lookup:
		return slot(x.X, depth+1)
	case *ssa.IndexAddr:
		return slot(x.X, depth+1)
	case *ssa.Extract:
		if l, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 0 {
			return slot(l.X, depth+1)
		}
	case *ssa.Slice:
		return slot(x.X, depth+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if f := slot(e, depth+1); f != "" {
				return f
			}
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return slot(x.Call.Args[0], depth+1)
		}
	case *ssa.Alloc:
		if st := onlyStore(x); st != nil {
			return slot(st, depth+1)
		}
	}
	return ""
}

func startsAtZero(x *ssa.Slice) bool {
	if x.High == nil {
		return false
	}
	if x.Low == nil {
		return true
	}
	k, ok := x.Low.(*ssa.Const)
	return ok && k.Value != nil && k.Int64() == 0
}

func cutsFront(v ssa.Value, depth int) bool {
	if depth > 8 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Slice:
		_, isSlice := x.X.Type().Underlying().(*types.Slice)
		return isSlice && startsAtZero(x) || cutsFront(x.X, depth+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if cutsFront(e, depth+1) {
				return true
			}
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return cutsFront(x.Call.Args[0], depth+1)
		}
	}
	return false
}

const (
	whySlice = "a slice whose memory is filled again"
	whyCell  = "a stored slice whose memory is filled again"
)

func (a *aliasing) slices() {
	again := map[string]bool{}
	each := func(f func(fn *ssa.Function, ins ssa.Instruction)) {
		for _, fn := range a.c.W.Fns {
			if !isRepo(fn) {
				continue
			}
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					f(fn, ins)
				}
			}
		}
	}
	each(func(fn *ssa.Function, ins ssa.Instruction) {
		var into, val ssa.Value
		switch x := ins.(type) {
		case *ssa.Store:
			into, val = x.Addr, x.Val
		case *ssa.MapUpdate:
			into, val = x.Map, x.Value
		default:
			return
		}
		if _, ok := val.Type().Underlying().(*types.Slice); !ok {
			return
		}
		if to := slot(into, 0); to != "" && cutsFront(val, 0) && slot(val, 0) == to {
			again[to] = true
			a.c.Ob("refilled-slice", to)
		}
	})
	each(func(fn *ssa.Function, ins ssa.Instruction) {
		switch x := ins.(type) {
		case *ssa.UnOp, *ssa.Lookup, *ssa.Extract:
			v := x.(ssa.Value)
			if _, ok := v.Type().Underlying().(*types.Slice); !ok {
				return
			}
			if to := slot(v, 0); again[to] && !givenUp(fn, to) {
				a.add(v, whyCell)
			}
		case *ssa.Slice:
			// emptied within a loop, to be filled by the next round
			k, ok := x.High.(*ssa.Const)
			if !ok || !startsAtZero(x) || k.Int64() != 0 || naturalLoop(x.Block()) == nil {
				return
			}
			if _, isSlice := x.X.Type().Underlying().(*types.Slice); isSlice {
				a.c.Ob("refilled-slice", fname(fn))
				a.add(x, whySlice)
			}
		}
	})
}

// givenUp: the slice is taken out of its slot for good
func givenUp(fn *ssa.Function, to string) bool {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case ssa.CallInstruction:
				if bi, ok := x.Common().Value.(*ssa.Builtin); ok && bi.Name() == "delete" && slot(x.Common().Args[0], 0) == to {
					return true
				}
			case *ssa.Store:
				if k, ok := x.Val.(*ssa.Const); ok && k.Value == nil && slot(x.Addr, 0) == to {
					return true
				}
			case *ssa.MapUpdate:
				if k, ok := x.Value.(*ssa.Const); ok && k.Value == nil && slot(x.Map, 0) == to {
					return true
				}
			}
		}
	}
	return false
}

// ---- what is decoded in a loop

func decoder(com *ssa.CallCommon) (dest ssa.Value) {
	if com.IsInvoke() {
		return nil
	}
	st := com.StaticCallee()
	if st == nil {
		// a function of a field: func(dest *T, src []byte) error
		sig := com.Signature()
		if sig.Params().Len() == 2 && sig.Results().Len() == 1 && isErrorType(sig.Results().At(0).Type()) && isByteSlice(sig.Params().At(1).Type()) {
			if _, ok := sig.Params().At(0).Type().(*types.Pointer); ok {
				return com.Args[0]
			}
		}
		return nil
	}
	switch qualName(st) {
	case "(*encoding/gob.Decoder).Decode", "(*encoding/json.Decoder).Decode", "encoding/json.Unmarshal", "(*encoding/xml.Decoder).Decode", "encoding/xml.Unmarshal":
		return com.Args[1]
	}
	return nil
}

// freshlyDecoded: values decoded in a loop go into a fresh place each time
func freshlyDecoded(c *Ctx) {
	// functions that decode into what a parameter points to
	through := map[*ssa.Function]int{}
	seen := map[ssa.Instruction]bool{}
	for again := true; again; {
		again = false
		for _, fn := range c.W.Fns {
			if !isRepo(fn) || fn.Synthetic != "" && fn.Origin() == nil {
				continue
			}
			for _, b := range fn.Blocks {
				var loop map[*ssa.BasicBlock]bool
				for _, ins := range b.Instrs {
					call, ok := ins.(ssa.CallInstruction)
					if !ok || seen[ins] {
						continue
					}
					com := call.Common()
					dest := decoder(com)
					if dest == nil {
						if st := com.StaticCallee(); st != nil {
							if i, ok := through[origin(st)]; ok && i < len(com.Args) {
								dest = com.Args[i]
							}
						}
					}
					if dest == nil {
						continue
					}
					seen[ins] = true
					if mi, ok := dest.(*ssa.MakeInterface); ok {
						dest = mi.X
					}
					c.Ob("decode-in-loop", fname(fn))
					if pa, ok := dest.(*ssa.Parameter); ok {
						for i, q := range fn.Params {
							if q == pa {
								through[origin(fn)] = i
								again = true
							}
						}
					}
					if loop == nil {
						loop = naturalLoop(b)
					}
					if al, ok := dest.(*ssa.Alloc); ok && loop != nil && !loop[al.Block()] && !clearedIn(al, loop) {
						c.Bad("decode-in-loop", fname(fn), call.Pos(), "every round decodes into the same place, which still holds what the last round left there")
					}
				}
			}
		}
	}
}

// clearedIn: the loop empties the place first
func clearedIn(al *ssa.Alloc, loop map[*ssa.BasicBlock]bool) bool {
	for _, r := range *al.Referrers() {
		if st, ok := r.(*ssa.Store); ok && st.Addr == al && loop[st.Block()] {
			return true
		}
	}
	return false
}

// ---- variables that every round of a loop shares

// sharedVariables: the address of a variable that the next round changes is not kept
func sharedVariables(c *Ctx) {
	for _, fn := range c.W.Fns {
		if !isRepo(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				al, ok := ins.(*ssa.Alloc)
				if !ok || !al.Heap {
					continue
				}
				c.Counts["variables whose address is used"]++
				for _, r := range *al.Referrers() {
					loop := naturalLoop(r.Block())
					if loop == nil || loop[al.Block()] || !clearedIn(al, loop) {
						continue
					}
					c.ObOnce("shared-variable", fname(fn)+" "+al.Comment)
					switch x := r.(type) {
					case *ssa.Store:
						if x.Val == ssa.Value(al) {
							c.Bad("shared-variable", fname(fn), x.Pos(), "the address of %s is kept, but the next round of the loop changes it", al.Comment)
						}
					case *ssa.MapUpdate, *ssa.Send:
						c.Bad("shared-variable", fname(fn), x.Pos(), "the address of %s is kept, but the next round of the loop changes it", al.Comment)
					case *ssa.MakeClosure:
						for _, use := range *x.Referrers() {
							switch u := use.(type) {
							case *ssa.Go:
								c.Bad("shared-variable", fname(fn), u.Pos(), "%s is used by something started in the background, but the next round of the loop changes it", al.Comment)
							case *ssa.Defer:
								if u.Call.Value == ssa.Value(x) && fn != nil {
									c.Bad("shared-variable", fname(fn), u.Pos(), "%s is used when the function ends, but the next round of the loop changes it", al.Comment)
								}
							case *ssa.Store:
								if _, ok := u.Addr.(*ssa.Alloc); !ok {
									c.Bad("shared-variable", fname(fn), u.Pos(), "%s is used by something that is kept, but the next round of the loop changes it", al.Comment)
								}
							}
						}
					}
				}
			}
		}
	}
}

// freshTexts: a builder is emptied between the texts it builds
func freshTexts(c *Ctx) {
	for _, fn := range c.W.Fns {
		if !isRepo(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				al, ok := i.(*ssa.Alloc)
				if !ok || al.Referrers() == nil {
					continue
				}
				n := namedOf(al.Type().Underlying().(*types.Pointer).Elem())
				if n == nil || n.Obj().Pkg() == nil || n.Obj().Pkg().Path()+"."+n.Obj().Name() != "strings.Builder" && n.Obj().Pkg().Path()+"."+n.Obj().Name() != "bytes.Buffer" {
					continue
				}
				textsOf(c, fn, al)
			}
		}
	}
}

func textsOf(c *Ctx, fn *ssa.Function, al *ssa.Alloc) {
	const (
		takes = iota + 1
		writes
		clears
	)
	does := map[ssa.Instruction]int{}
	uses := func(v ssa.Value) {
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case ssa.CallInstruction:
				sc := x.Common().StaticCallee()
				switch {
				case sc == nil:
					if len(x.Common().Args) > 0 {
						does[r] = writes
					}
				case isRepo(sc):
					does[r] = clears // not known
				case sc.Signature.Recv() != nil && len(x.Common().Args) > 0 && x.Common().Args[0] == v:
					switch sc.Name() {
					case "String", "Bytes":
						does[r] = takes
					case "Reset", "Truncate":
						does[r] = clears
					case "Len", "Cap", "Grow", "Available", "AvailableBuffer":
					default:
						if strings.HasPrefix(sc.Name(), "Write") || sc.Name() == "ReadFrom" {
							does[r] = writes
						} else {
							does[r] = clears // reading takes out
						}
					}
				default:
					does[r] = writes
				}
			case *ssa.Store:
				if x.Addr == v {
					does[r] = clears
				}
			case *ssa.MakeClosure:
				does[r] = clears // not known
			}
		}
	}
	uses(al)
	for _, r := range *al.Referrers() {
		if mi, ok := r.(*ssa.MakeInterface); ok {
			uses(mi)
		}
	}
	for take, d := range does {
		if d != takes || loopOf(take.Block()) == nil {
			continue
		}
		kept := false
		for _, r := range *take.(ssa.Value).Referrers() {
			switch x := r.(type) {
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
					continue
				}
				kept = true
			case *ssa.DebugRef:
			default:
				kept = true
			}
		}
		if !kept {
			continue
		}
		c.ObOnce("text", fname(fn)+" "+al.Comment)
		seen := map[*ssa.BasicBlock]bool{}
		var walk func(b *ssa.BasicBlock, from int) token.Pos
		walk = func(b *ssa.BasicBlock, from int) token.Pos {
			for _, i := range b.Instrs[from:] {
				if i == ssa.Instruction(al) {
					return 0 // a new one
				}
				switch does[i] {
				case writes:
					return i.Pos()
				case clears:
					return 0
				}
			}
			for _, n := range b.Succs {
				if !seen[n] {
					seen[n] = true
					if p := walk(n, 0); p != 0 {
						return p
					}
				}
			}
			return 0
		}
		at := 0
		for i, x := range take.Block().Instrs {
			if x == take {
				at = i + 1
			}
		}
		if p := walk(take.Block(), at); p != 0 {
			c.Bad("text", fname(fn), p, "%s still holds the text that was taken from it in an earlier round", al.Comment)
		}
	}
}

func init() {
	register(&Check{
		Prop:    "C25",
		Explain: "Every object taken from a pool and every scratch buffer is followed along all paths: it must be emptied before it is used or refilled, and not be used after it was given back; emptying must clear every field. An alias analysis follows what a cursor, row, pooled buffer or refilled slice holds into every place it could stay, and requires that it is copied (converted, decoded) first. What a loop decodes goes into a fresh place, and addresses of variables that loops change are not kept. A text builder that lives longer than a round of a loop is emptied between taking its text and writing to it again.",
		Assume:  []string{"gob, json and binary decoding copy the bytes they read, and leveldb copies the bytes it is given", "strings.Builder.Reset gives up the memory of the texts taken from it"},
		Floors:  map[string]int{"pool": 3, "buffer": 3, "reset": 4, "cursor": 4, "row": 1, "decode-in-loop": 2},
		Run: func(c *Ctx) {
			resets(c, emptied(c))
			a := &aliasing{c: c, taint: map[ssa.Value]string{}}
			a.slices()
			a.run()
			freshlyDecoded(c)
			sharedVariables(c)
			freshTexts(c)
		},
	})
}
