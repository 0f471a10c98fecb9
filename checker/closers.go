package main

// Objects that own resources: their Close releases every one of them on every
// path, and nothing they own is overwritten while it is open (C04).

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// methodsOf lists the methods of the named type that have a body
func methodsOf(w *World, n *types.Named) []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range w.Fns {
		if fn.Parent() != nil || fn.Signature.Recv() == nil || fn.Blocks == nil {
			continue
		}
		if rn := recvNamed(fn); rn != nil && rn.Obj() == n.Obj() {
			out = append(out, fn)
		}
	}
	return out
}

func recvNamed(fn *ssa.Function) *types.Named {
	if fn.Signature.Recv() == nil {
		return nil
	}
	return namedOf(fn.Signature.Recv().Type())
}

func namedOf(t types.Type) *types.Named {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := t.(*types.Named)
	if n != nil && n.Origin() != nil {
		return n.Origin()
	}
	return n
}

func closable(w *World, t types.Type) bool {
	if !isErrorClose(t) || trivialRelease(w, t) {
		return false
	}
	return true
}

// isErrorClose says that t has a method Close() error (or Release())
func isErrorClose(t types.Type) bool {
	name := releaseMethod(t)
	if name == "" {
		return false
	}
	if name == "Release" {
		return true
	}
	obj, _, _ := types.LookupFieldOrMethod(t, true, nil, name)
	f, ok := obj.(*types.Func)
	return ok && f.Type().(*types.Signature).Results().Len() == 1
}

// ownedFields returns the fields of struct n that hold resources of its own:
// somewhere a value that was just made is stored in them, or they contain it.
func ownedFields(w *World, n *types.Named) map[string]bool {
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	out := map[string]bool{}
	cand := map[string]bool{}
	for i := 0; i < st.NumFields(); i++ {
		t := st.Field(i).Type()
		if !closable(w, t) {
			continue
		}
		switch t.Underlying().(type) {
		case *types.Struct:
			out[st.Field(i).Name()] = true
		default:
			cand[st.Field(i).Name()] = true
		}
	}
	if len(cand) == 0 {
		return out
	}
	for _, fn := range w.Fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				s, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || namedOf(fa.X.Type()) == nil || namedOf(fa.X.Type()).Obj() != n.Obj() {
					continue
				}
				f := fieldName(fa.X.Type(), fa.Field)
				if cand[f] && madeHere(s.Val, map[ssa.Value]bool{}) {
					out[f] = true
				}
			}
		}
	}
	return out
}

// madeHere: the value comes from a call or an allocation in this function
func madeHere(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Call, *ssa.Alloc:
		return true
	case *ssa.Extract:
		return madeHere(v.Tuple, seen)
	case *ssa.MakeInterface:
		return madeHere(v.X, seen)
	case *ssa.ChangeInterface:
		return madeHere(v.X, seen)
	case *ssa.ChangeType:
		return madeHere(v.X, seen)
	case *ssa.TypeAssert:
		return madeHere(v.X, seen)
	case *ssa.UnOp:
		if al, ok := v.X.(*ssa.Alloc); ok && v.Op == token.MUL && al.Referrers() != nil {
			for _, r := range *al.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == al && madeHere(st.Val, seen) {
					return true
				}
			}
		}
	case *ssa.Phi:
		for _, e := range v.Edges {
			if madeHere(e, seen) {
				return true
			}
		}
	}
	return false
}

// closeClient runs a method of an owner and watches its owned fields.
type closeClient struct {
	BaseClient
	c      *Ctx
	w      *World
	root   *ssa.Function
	n      *types.Named
	fields map[string]bool
	recv   string // abstract id of the receiver
	close  bool   // the root is Close: every field has to be closed
	seen   map[string]bool
	opt    bool
}

func (k *closeClient) field(key string) string {
	f, ok := strings.CutPrefix(key, "*"+k.recv+".")
	if ok && k.fields[f] {
		return f
	}
	return ""
}

func (k *closeClient) Load(e *Engine, s *State, instr ssa.Instruction, key string, t types.Type) []Outcome {
	f := k.field(key)
	if f == "" {
		if rest, ok := strings.CutPrefix(key, "*"+k.recv+"."); ok && k.close {
			if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Bool && token.IsExported(rest) {
				// an exported switch: the owner can be told to leave it open
				return []Outcome{{Val: boolVal(false)}, {Val: boolVal(true), Apply: func(s *State) { s.D["optout"] = "1" }}}
			}
		}
		return nil
	}
	id := "*" + key + ";"
	if !isNilable(t) {
		return nil
	}
	return []Outcome{
		{Val: Val{K: KNil}, Apply: func(s *State) { s.D["done:"+f] = "1"; s.mem[key] = Val{K: KNil} }},
		{Val: Val{K: KNonNil, S: "field:" + f}, Apply: func(s *State) { s.mem[key] = Val{K: KNonNil, S: "field:" + f}; _ = id }},
	}
}

func (k *closeClient) Inline(e *Engine, s *State, cs *CallSite, fn *ssa.Function) bool {
	if !isRepo(fn) {
		return false
	}
	if fn.Parent() != nil {
		return true
	}
	if n := recvNamed(fn); n != nil && n.Obj() == k.n.Obj() {
		return len(cs.Args) > 0 && cs.Args[0].K == KOpaque && cs.Args[0].S == k.recv
	}
	for _, a := range cs.Args {
		if a.K == KNonNil && strings.HasPrefix(a.S, "field:") || a.K == KPtr && k.field(a.S) != "" && fn.Name() != "Close" {
			return fn.Signature.Recv() == nil || fn.Name() != "Close"
		}
	}
	return false
}

func (k *closeClient) Call(e *Engine, s *State, cs *CallSite) ([]Outcome, bool) {
	name := cs.Name()
	short := name[strings.LastIndexByte(name, '.')+1:]
	if (short == "Close" || short == "Release") && len(cs.Args) == 1 {
		f := ""
		if cs.Args[0].K == KNonNil {
			f, _ = strings.CutPrefix(cs.Args[0].S, "field:")
		} else if cs.Args[0].K == KPtr {
			f = k.field(cs.Args[0].S)
		}
		if f != "" {
			s.D["done:"+f] = "1"
			if cs.Args[0].K == KNonNil {
				delete(s.D, "lost:"+f)
			}
			if isErrorType2(cs.Sig) {
				return []Outcome{{Val: Val{K: KNil}}, {Val: Val{K: KNonNil, S: "closing " + f}, Apply: func(s *State) { s.note(cs.Instr.Pos(), "closing "+f+" fails") }}}, true
			}
			return []Outcome{{Val: opaque(cs.ResID)}}, true
		}
	}
	if short == "Reset" && len(cs.Args) > 0 && cs.Args[0].K == KPtr {
		if f := k.field(cs.Args[0].S); f != "" {
			return nil, false // resetting a part closes what it held: checked for the part itself
		}
	}
	return nil, false
}

func isErrorType2(sig *types.Signature) bool {
	return sig.Results().Len() == 1 && isErrorType(sig.Results().At(0).Type())
}

func (k *closeClient) Instr(e *Engine, s *State, instr ssa.Instruction) bool {
	st, ok := instr.(*ssa.Store)
	if !ok {
		return true
	}
	key, ok := e.addr(s, e.eval(s, st.Addr))
	if !ok {
		return true
	}
	f := k.field(key)
	if f == "" {
		return true
	}
	_, known := s.mem[key]
	_ = known
	if s.D["done:"+f] == "" {
		if old := s.mem[key]; old.K == KNonNil && old.S == "field:"+f {
			// what it held is known by another name, and can be closed later
			s.D["lost:"+f] = k.w.pos(instr.Pos())
			s.D["done:"+f] = "1"
		} else {
			k.lost(e, s, f, k.w.pos(instr.Pos()))
		}
	}
	if s.isNil(e.eval(s, st.Val)) != 1 {
		// a new resource is held from here on; storing it twice would lose it
		delete(s.D, "done:"+f)
		s.D["new:"+f] = "1"
	}
	if !k.close {
		k.seen[f] = true
	}
	return true
}

func (k *closeClient) lost(e *Engine, s *State, f, pos string) {
	c := k.root.RelString(nil)
	k.c.BadAt("overwritten", fname(k.root)+"|"+f, pos, e.Trace(s), "%s is overwritten while what it holds may still be open", c[strings.LastIndexByte(c, '/')+1:]+"."+f)
}

func (k *closeClient) Exit(e *Engine, s *State, kind ExitKind, instr ssa.Instruction, res []Val) {
	if kind == ExitReturn {
		for f := range k.fields {
			if pos := s.D["lost:"+f]; pos != "" {
				k.lost(e, s, f, pos)
			}
		}
	}
	if kind != ExitReturn || !k.close || s.D["optout"] != "" || s.D["nilrecv"] != "" {
		return
	}
	if s.facts[k.recv] == "nil" {
		return
	}
	for f := range k.fields {
		if s.D["done:"+f] == "" {
			k.c.BadAt("close-covers", fname(k.root)+"|"+f, k.w.pos(instr.Pos()), e.Trace(s), "%s can return without having closed %s", fname(k.root), f)
		}
	}
}

// sliceClosers: fields that collect resources are closed one by one
func sliceCloserFields(w *World, n *types.Named) []string {
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var out []string
	for i := 0; i < st.NumFields(); i++ {
		if sl, ok := st.Field(i).Type().Underlying().(*types.Slice); ok && isErrorClose(sl.Elem()) {
			out = append(out, st.Field(i).Name())
		}
	}
	return out
}

// closesElements says that fn calls Close on elements in a loop that always
// runs to its end.
func closesElements(fn *ssa.Function, elem types.Type, depth int) (bool, string) {
	why := "no element is closed"
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			call, ok := ins.(ssa.CallInstruction)
			if !ok {
				continue
			}
			cc := call.Common()
			if cc.IsInvoke() && cc.Method.Name() == "Close" && types.Identical(cc.Value.Type(), elem) {
				loop := naturalLoop(b)
				if loop == nil {
					continue
				}
				ok, w := runsToEnd(fn, b, loop)
				if ok {
					return true, ""
				}
				why = w
			}
			if st := cc.StaticCallee(); st != nil && isRepo(st) && depth < 3 {
				if ok, w := closesElements(origin(st), elem, depth+1); ok {
					return true, ""
				} else if w != "no element is closed" {
					why = w
				}
			}
		}
	}
	return false, why
}

// naturalLoop returns the strongly connected set of blocks around b
func naturalLoop(b *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	fwd := map[*ssa.BasicBlock]bool{}
	var f func(x *ssa.BasicBlock)
	f = func(x *ssa.BasicBlock) {
		for _, s := range x.Succs {
			if !fwd[s] {
				fwd[s] = true
				f(s)
			}
		}
	}
	f(b)
	if !fwd[b] {
		return nil
	}
	bwd := map[*ssa.BasicBlock]bool{}
	var g func(x *ssa.BasicBlock)
	g = func(x *ssa.BasicBlock) {
		for _, s := range x.Preds {
			if !bwd[s] {
				bwd[s] = true
				g(s)
			}
		}
	}
	g(b)
	out := map[*ssa.BasicBlock]bool{}
	for x := range fwd {
		if bwd[x] {
			out[x] = true
		}
	}
	return out
}

// runsToEnd: the loop is left only at its head, and every round passes through body
func runsToEnd(fn *ssa.Function, body *ssa.BasicBlock, loop map[*ssa.BasicBlock]bool) (bool, string) {
	var head *ssa.BasicBlock
	for x := range loop {
		dom := true
		for y := range loop {
			if !x.Dominates(y) {
				dom = false
			}
		}
		if dom {
			head = x
		}
	}
	if head == nil {
		return false, "the loop has several entries"
	}
	for x := range loop {
		for _, s := range x.Succs {
			if !loop[s] && x != head {
				return false, "the loop over the elements can be left early"
			}
		}
		if _, ok := x.Instrs[len(x.Instrs)-1].(*ssa.Return); ok {
			return false, "the loop over the elements can be left early"
		}
	}
	for _, p := range head.Preds {
		if loop[p] && !body.Dominates(p) {
			return false, "an element can be skipped"
		}
	}
	return true, ""
}

func owners(c *Ctx) {
	w := c.W
	seen := map[*types.TypeName]bool{}
	var names []*types.Named
	for _, fn := range w.Fns {
		n := recvNamed(fn)
		if n == nil || seen[n.Obj()] || fn.Parent() != nil || !isRepo(fn) {
			continue
		}
		seen[n.Obj()] = true
		names = append(names, n)
	}
	sort.Slice(names, func(i, j int) bool { return names[i].String() < names[j].String() })
	for _, n := range names {
		ms := methodsOf(w, n)
		var cl *ssa.Function
		for _, m := range ms {
			if m.Name() == "Close" && m.Signature.Params().Len() == 0 {
				cl = m
			}
		}
		owned := ownedFields(w, n)
		short := strings.TrimPrefix(n.String(), modPath+"/")
		for _, f := range sliceCloserFields(w, n) {
			c.Ob("close-covers", short+"."+f)
			if cl == nil {
				c.Bad("close-covers", short+"|"+f, n.Obj().Pos(), "%s collects resources in %s but has no Close", short, f)
				continue
			}
			st := n.Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == f {
					if ok, why := closesElements(cl, st.Field(i).Type().Underlying().(*types.Slice).Elem(), 0); !ok {
						c.Bad("close-covers", fname(cl)+"|"+f, cl.Pos(), "%s does not close everything in %s: %s", fname(cl), f, why)
					}
				}
			}
		}
		if len(owned) == 0 {
			continue
		}
		if cl == nil {
			// values of this type are only passed along inside one operation
			continue
		}
		for _, f := range sortedKeys(owned) {
			c.Ob("close-covers", short+"."+f)
		}
		run := func(m *ssa.Function, isClose bool) {
			k := &closeClient{c: c, w: w, root: m, n: n, fields: owned, close: isClose, seen: map[string]bool{}}
			if len(m.Params) == 0 {
				return
			}
			k.recv = "r:" + m.Params[0].Name() + ";"
			e := NewEngine(w, k)
			e.Run(m, nil)
			c.Counts["abstract_paths_explored"] += e.States
			if e.Over {
				c.BadAt("undecided", fname(m), w.pos(m.Pos()), "", "too many paths to decide")
			}
			if !isClose {
				for f := range k.seen {
					c.Ob("overwritten", short+"."+f+" in "+m.Name())
				}
			}
		}
		run(cl, true)
		resets := false
		for _, m := range ms {
			resets = resets || m.Name() == "Reset"
		}
		if !resets {
			continue // filled once, while it is made
		}
		for _, m := range ms {
			if m != cl && storesField(m, n, owned) {
				run(m, false)
			}
		}
	}
}

func storesField(m *ssa.Function, n *types.Named, fields map[string]bool) bool {
	found := false
	var walk func(fn *ssa.Function)
	walk = func(fn *ssa.Function) {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if st, ok := ins.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && namedOf(fa.X.Type()) != nil && namedOf(fa.X.Type()).Obj() == n.Obj() && fields[fieldName(fa.X.Type(), fa.Field)] {
						found = true
					}
				}
			}
		}
		for _, a := range fn.AnonFuncs {
			walk(a)
		}
	}
	walk(m)
	return found
}

// openerMethods lists the methods Reset and the like that fill an existing
// object with resources of its own, which its Close releases.
func openerMethods(w *World) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	owned := map[*types.TypeName]map[string]bool{}
	for _, fn := range w.Fns {
		n := recvNamed(fn)
		if n == nil || fn.Parent() != nil || !isRepo(fn) || fn.Blocks == nil || fn.Name() == "Close" {
			continue
		}
		if !isErrorClose(types.NewPointer(n)) {
			continue
		}
		fs, ok := owned[n.Obj()]
		if !ok {
			fs = ownedFields(w, n)
			owned[n.Obj()] = fs
		}
		if len(fs) > 0 && token.IsExported(fn.Name()) && len(errIndex(fn.Signature)) > 0 && fillsField(fn, n, fs) {
			out[origin(fn)] = true
		}
	}
	return out
}

// fillsField: m stores something it made into one of the fields
func fillsField(m *ssa.Function, n *types.Named, fields map[string]bool) bool {
	for _, b := range m.Blocks {
		for _, ins := range b.Instrs {
			st, ok := ins.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || namedOf(fa.X.Type()) == nil || namedOf(fa.X.Type()).Obj() != n.Obj() || !fields[fieldName(fa.X.Type(), fa.Field)] {
				continue
			}
			if madeHere(st.Val, map[ssa.Value]bool{}) {
				return true
			}
		}
	}
	return false
}
