package main

// Resources: what is opened is closed again on every path (C04), and what is
// written is completely written before success is reported (C03).

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// releaseMethod returns the name of the method that releases values of type t
func releaseMethod(t types.Type) string {
	if t == nil {
		return ""
	}
	if _, ok := t.Underlying().(*types.Signature); ok {
		return ""
	}
	ms := types.NewMethodSet(t)
	if _, ok := t.Underlying().(*types.Interface); !ok {
		if _, isP := t.Underlying().(*types.Pointer); !isP {
			ms = types.NewMethodSet(types.NewPointer(t))
		}
	}
	for _, name := range []string{"Close", "Release"} {
		for i := 0; i < ms.Len(); i++ {
			f, ok := ms.At(i).Obj().(*types.Func)
			if !ok || f.Name() != name {
				continue
			}
			sig := f.Type().(*types.Signature)
			if sig.Params().Len() == 0 && sig.Results().Len() <= 1 {
				return name
			}
		}
	}
	return ""
}

// trivialRelease says that releasing values of this repository type does nothing
func trivialRelease(w *World, t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !isRepoPath(n.Obj().Pkg().Path()) {
		return false
	}
	if _, ok := n.Underlying().(*types.Interface); ok {
		return false
	}
	for _, fn := range w.Fns {
		if fn.Signature.Recv() == nil || fn.Parent() != nil {
			continue
		}
		if fn.Name() != "Close" && fn.Name() != "Release" {
			continue
		}
		rt := fn.Signature.Recv().Type()
		if p, ok := rt.(*types.Pointer); ok {
			rt = p.Elem()
		}
		rn, ok := rt.(*types.Named)
		if !ok || rn.Obj() != n.Obj() {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(ssa.CallInstruction); ok {
					if st := c.Common().StaticCallee(); st != nil && strings.HasPrefix(qualName(st), "runtime.") {
						continue // only memory
					}
					if _, isB := c.Common().Value.(*ssa.Builtin); !isB {
						return false
					}
				}
			}
		}
		return true
	}
	return false
}

type resClient struct {
	errClient
	fresh func(*ssa.Function) map[int]bool
	// results
	acquired map[ssa.Instruction]string
	freshRes map[int]bool
	report   bool
	owners   map[string]int
	openers  map[*ssa.Function]bool // methods that open what their receiver owns
}

func isFuncRelease(t types.Type) bool {
	sig, ok := t.Underlying().(*types.Signature)
	return ok && sig.Params().Len() == 0 && sig.Results().Len() == 1 && isErrorType(sig.Results().At(0).Type())
}

// acquiredResults lists the result indices of a call that hand over a resource
func (c *resClient) acquiredResults(cs *CallSite) []int {
	var out []int
	name := cs.Name()
	short := name[strings.LastIndexByte(name, '.')+1:]
	ext := cs.Iface == nil && cs.Static != nil && !isRepo(cs.Static)
	if cs.Iface != nil && cs.Iface.Pkg() != nil && !isRepoPath(cs.Iface.Pkg().Path()) {
		ext = true
	}
	if ext {
		ok := false
		for _, p := range []string{"New", "Open", "Create", "Query", "Prepare", "Begin", "Listen", "Dial", "Accept", "Conn"} {
			if strings.HasPrefix(short, p) {
				ok = true
			}
		}
		if !ok || strings.HasPrefix(short, "QueryRow") {
			return nil
		}
		switch name {
		case "compress/gzip.NewReader", "compress/gzip.NewWriter", "compress/gzip.NewWriterLevel", "encoding/csv.NewWriter":
			return nil // closing these releases nothing; completeness is C03
		}
		if strings.HasPrefix(name, "github.com/anglo-korean/rdf.") || strings.Contains(name, "nquads.") || strings.HasPrefix(name, "fyne.io/") {
			return nil
		}
	} else if cs.Static == nil && cs.Iface == nil {
		return nil
	}
	var fr map[int]bool
	if cs.Static != nil && cs.Iface == nil && isRepo(cs.Static) {
		fr = c.fresh(cs.Static)
	}
	for i := 0; i < cs.Sig.Results().Len(); i++ {
		t := cs.Sig.Results().At(i).Type()
		if isErrorType(t) {
			continue
		}
		if fr != nil && !fr[i] {
			continue
		}
		if isFuncRelease(t) && !ext {
			out = append(out, i)
			continue
		}
		if releaseMethod(t) == "" || trivialRelease(c.w, t) {
			continue
		}
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Interface:
			out = append(out, i)
		}
	}
	return out
}

func resKey(v Val) string { return "res:" + v.String() }

func (c *resClient) Inline(e *Engine, s *State, cs *CallSite, fn *ssa.Function) bool {
	if c.errClient.Inline(e, s, cs, fn) {
		return true
	}
	if !isRepo(fn) {
		return false
	}
	// functions that are given a resource
	first := 0
	if fn.Signature.Recv() != nil {
		first = 1
	}
	for i := first; i < len(cs.Args); i++ {
		if s.D[resKey(cs.Args[i])] != "" {
			return true
		}
		if cs.Args[i].K == KPtr && strings.HasPrefix(cs.Args[i].S, "a!") && c.holds(s, cs.Args[i].S) {
			return true
		}
	}
	return false
}

// holds says whether the memory below key contains a live resource
func (c *resClient) holds(s *State, key string) bool {
	for m, v := range s.mem {
		if strings.HasPrefix(m, key) && s.D[resKey(v)] != "" {
			return true
		}
	}
	return false
}

func (c *resClient) Call(e *Engine, s *State, cs *CallSite) ([]Outcome, bool) {
	// starting a call again forgets what its previous result was
	if b, ok := cs.Instr.Common().Value.(*ssa.Builtin); ok && !cs.Instr.Common().IsInvoke() {
		if b.Name() == "append" {
			for _, a := range cs.Args {
				c.moveAll(s, a)
			}
		}
		return nil, false
	}
	name := cs.Name()
	short := name[strings.LastIndexByte(name, '.')+1:]
	if len(cs.Args) > 0 && (short == "Close" || short == "Release") {
		delete(s.D, resKey(cs.Args[0]))
		delete(s.D, heldKey(cs.Args[0]))
	}
	if cs.Static == nil && cs.Iface == nil {
		delete(s.D, resKey(cs.Fn)) // a release function is called
		for _, a := range cs.Args {
			c.moveAll(s, a)
		}
	}
	if cs.Static != nil && cs.Iface == nil && isRepo(cs.Static) {
		// what an object holds stays in it when the object is passed on,
		// unless what it is passed to releases things
		for _, a := range cs.Args {
			if a.K != KPtr || !strings.HasPrefix(a.S, "a!") {
				continue
			}
			for m, mv := range s.mem {
				if !strings.HasPrefix(m, a.S) || s.D[resKey(mv)] == "" {
					continue
				}
				if len(m) == len(a.S) {
					continue // a variable and not part of an object
				}
				if releasesAny(origin(cs.Static), map[*ssa.Function]bool{}) {
					delete(s.D, resKey(mv))
				} else {
					s.D["within:"+strings.TrimPrefix(resKey(mv), "res:")] = a.S
				}
			}
		}
	}
	outs, handled := c.errClient.Call(e, s, cs)
	if handled {
		if short == "Next" && len(outs) == 2 {
			t := cs.ArgV[0].Type()
			ts := t.String()
			if strings.Contains(ts, "traversal.") || strings.Contains(ts, "database/sql.Rows") {
				prev := outs[1].Apply
				key := resKey(cs.Args[0])
				outs[1].Apply = func(s *State) {
					if prev != nil {
						prev(s)
					}
					delete(s.D, key)
				}
			}
		}
		return outs, true
	}
	return nil, false
}

func (c *resClient) moveAll(s *State, v Val) {
	delete(s.D, resKey(v))
	delete(s.D, heldKey(v))
	for _, t := range v.T {
		c.moveAll(s, t)
	}
	if v.K == KPtr {
		for m, mv := range s.mem {
			if strings.HasPrefix(m, v.S) {
				delete(s.D, resKey(mv))
				delete(s.D, heldKey(mv))
			}
		}
	}
	if v.K == KOpaque {
		for m, mv := range s.mem {
			if strings.HasPrefix(m, v.S) {
				delete(s.D, resKey(mv))
				delete(s.D, heldKey(mv))
			}
		}
	}
}

func (c *resClient) Opaque(e *Engine, s *State, cs *CallSite, argRes []Val) []Outcome {
	name := cs.Name()
	// iterators wrapped into iterators
	if strings.Contains(name, "pkglib/traversal.") && cs.Static != nil && cs.Static.Signature.Recv() == nil {
		for _, a := range cs.Args {
			c.moveAll(s, a)
		}
	}
	// handing a resource to an object of the repository
	if cs.Iface != nil && len(cs.Args) > 1 {
		for i, a := range cs.Args[1:] {
			if takesOver(c.w, cs.Iface, i) {
				c.moveAll(s, a)
			}
		}
	}
	if name == "net/http.Serve" || name == "(*net/http.Server).Serve" {
		for _, a := range cs.Args {
			c.moveAll(s, a)
		}
	}
	acq := c.acquiredResults(cs)
	outs := c.errClient.Opaque(e, s, cs, argRes)
	if cs.Static != nil && cs.Iface == nil && c.openers[origin(cs.Static)] && len(cs.Args) > 0 && cs.Args[0].K == KPtr {
		return c.opened(e, s, cs, outs)
	}
	if len(acq) == 0 {
		return outs
	}
	if outs == nil {
		outs = []Outcome{{Val: e.opaqueResult(s, cs)}}
	}
	c.acquired[cs.Instr] = name
	errs := errIndex(cs.Sig)
	for i := range outs {
		o := outs[i]
		at := func(j int) Val {
			if o.Val.K == KTuple {
				return o.Val.T[j]
			}
			return o.Val
		}
		failed := false
		for _, j := range errs {
			if v := at(j); v.K == KNonNil {
				failed = true
			}
		}
		var ids []Val
		for _, j := range acq {
			if failed && !isFuncRelease(cs.Sig.Results().At(j).Type()) {
				continue
			}
			if v := at(j); v.K == KOpaque {
				ids = append(ids, v)
			}
		}
		prev := o.Apply
		pos := c.w.pos(cs.Instr.Pos())
		outs[i].Apply = func(s *State) {
			if prev != nil {
				prev(s)
			}
			for _, id := range ids {
				if at := s.D[resKey(id)]; at != "" && c.report {
					c.leak(e, s, name, at, "is opened again in a loop while the previous one is still open")
				}
				s.D[resKey(id)] = name + "@" + pos
				s.D["acq:"+id.String()] = name + "@" + pos
			}
		}
	}
	return outs
}

// takesOver says that a method of the repository called through an interface
// may become the owner of its i-th argument: some implementation keeps it
// where closing the object looks, releases it, or hands it on
func takesOver(w *World, m *types.Func, i int) bool {
	if m.Pkg() == nil || !isRepoPath(m.Pkg().Path()) {
		return true
	}
	iface, ok := m.Type().(*types.Signature).Recv().Type().Underlying().(*types.Interface)
	if !ok {
		return true
	}
	found := false
	for _, fn := range w.Fns {
		if fn.Name() != m.Name() || fn.Signature.Recv() == nil || fn.Parent() != nil || !isRepo(fn) || !types.Implements(fn.Signature.Recv().Type(), iface) {
			continue
		}
		found = true
		if i+1 >= len(fn.Params) || keepsAndCloses(w, fn, fn.Params[i+1]) {
			return true
		}
	}
	return !found
}

// keepsAndCloses: the method stores the parameter in a field that the type's
// Close reads, or uses it for something other than keeping it
func keepsAndCloses(w *World, fn *ssa.Function, p *ssa.Parameter) bool {
	seen := map[ssa.Value]bool{}
	closed := map[string]bool{}
	for _, f := range w.Fns {
		if recvNamed(f) == nil || recvNamed(fn) == nil || recvNamed(f).Obj() != recvNamed(fn).Obj() || f.Name() != "Close" && f.Name() != "Release" {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if fa, ok := ins.(*ssa.FieldAddr); ok {
					closed[fieldID(fa.X.Type(), fa.Field)] = true
				}
			}
		}
	}
	owned := func(a ssa.Value) bool {
		for {
			switch x := a.(type) {
			case *ssa.FieldAddr:
				return closed[fieldID(x.X.Type(), x.Field)]
			case *ssa.IndexAddr:
				a = x.X
			case *ssa.UnOp:
				a = x.X
			case *ssa.Alloc:
				return false
			default:
				return true
			}
		}
	}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if seen[v] || v.Referrers() == nil {
			return false
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.TypeAssert, *ssa.Extract, *ssa.Phi, *ssa.ChangeType:
				if walk(r.(ssa.Value)) {
					return true
				}
			case *ssa.Store:
				if r.Val != v {
					continue
				}
				if al, ok := r.Addr.(*ssa.Alloc); ok {
					// a parameter kept in memory: what is loaded from it
					for _, l := range *al.Referrers() {
						if u, ok := l.(*ssa.UnOp); ok && walk(u) {
							return true
						}
						if mc, ok := l.(*ssa.MakeClosure); ok {
							_ = mc
							return true
						}
					}
					continue
				}
				if owned(r.Addr) {
					return true
				}
			case *ssa.MapUpdate:
				if owned(r.Map) {
					return true
				}
			case *ssa.BinOp, *ssa.DebugRef, *ssa.If:
			default:
				return true // handed on
			}
		}
		return false
	}
	return walk(p)
}

// releasesAny: the function calls a release method, itself or by a function of
// the repository that it calls
func releasesAny(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if fn == nil || seen[fn] || !isRepo(fn) {
		return false
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if mc, ok := ins.(*ssa.MakeClosure); ok && releasesAny(mc.Fn.(*ssa.Function), seen) {
				return true
			}
			call, ok := ins.(ssa.CallInstruction)
			if !ok {
				continue
			}
			com := call.Common()
			name, recv := "", ssa.Value(nil)
			if com.IsInvoke() {
				name, recv = com.Method.Name(), com.Value
			} else if f := com.StaticCallee(); f != nil {
				name = f.Name()
				if len(com.Args) > 0 {
					recv = com.Args[0]
				}
				if releasesAny(origin(f), seen) {
					return true
				}
			}
			if (name == "Close" || name == "Release") && recv != nil && givenIn(recv, map[ssa.Value]bool{}) {
				return true
			}
		}
	}
	return false
}

// givenIn: the value may be a part of what the function was given
func givenIn(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Call:
		return false
	case *ssa.Extract:
		_, call := v.Tuple.(*ssa.Call)
		return !call
	case *ssa.MakeInterface:
		return givenIn(v.X, seen)
	case *ssa.ChangeInterface:
		return givenIn(v.X, seen)
	case *ssa.Phi:
		for _, e := range v.Edges {
			if givenIn(e, seen) {
				return true
			}
		}
		return false
	case *ssa.UnOp:
		if al, ok := v.X.(*ssa.Alloc); ok {
			for _, r := range *al.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == al && givenIn(st.Val, seen) {
					return true
				}
			}
			return false
		}
	}
	return true
}

func heldKey(v Val) string { return "held:" + v.String() }

// opened: the call makes the object it is called on open what it owns
func (c *resClient) opened(e *Engine, s *State, cs *CallSite, outs []Outcome) []Outcome {
	obj := cs.Args[0]
	key := ""
	switch {
	case strings.HasPrefix(obj.S, "a!"):
		if !strings.HasSuffix(obj.S, ";") || c.returnsValue(cs.Static.Signature.Recv().Type()) {
			return outs // part of something else, or handed on by value
		}
		for m, mv := range s.mem {
			if !strings.HasPrefix(m, "a!") && mv.K == KPtr && mv.S == obj.S {
				return outs // it is part of an object that outlives the operation
			}
		}
		key = resKey(obj) // an object of this operation
	case c.openers[origin(c.root)] && strings.HasPrefix(obj.S, "*r:"):
		key = heldKey(obj) // part of an object that is being opened
	default:
		return outs
	}
	name := cs.Name()
	pos := c.w.pos(cs.Instr.Pos())
	c.acquired[cs.Instr] = name
	if outs == nil {
		outs = []Outcome{{Val: e.opaqueResult(s, cs)}}
	}
	for i := range outs {
		o := outs[i]
		failed := o.Val.K == KNonNil
		for _, j := range errIndex(cs.Sig) {
			if o.Val.K == KTuple && o.Val.T[j].K == KNonNil {
				failed = true
			}
		}
		if failed {
			continue // it releases what it has opened itself
		}
		prev := o.Apply
		outs[i].Apply = func(s *State) {
			if prev != nil {
				prev(s)
			}
			s.D[key] = name + "@" + pos
		}
	}
	return outs
}

// returnsValue says that the operation returns values of this type
func (c *resClient) returnsValue(t types.Type) bool {
	n := namedOf(t)
	for fn := c.root; fn != nil; fn = fn.Parent() {
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			rt := fn.Signature.Results().At(i).Type()
			if _, ptr := rt.(*types.Pointer); ptr {
				continue
			}
			if rn := namedOf(rt); rn != nil && n != nil && rn.Obj() == n.Obj() {
				return true
			}
		}
	}
	return false
}

func (c *resClient) leak(e *Engine, s *State, name, at, how string) {
	key := at + how
	if c.hits[key] {
		return
	}
	c.hits[key] = true
	n, pos, _ := strings.Cut(at, "@")
	c.c.BadAt(c.rule, fname(c.root)+"|"+n, pos, e.Trace(s), "what %s returns %s", n, how)
}

func (c *resClient) Instr(e *Engine, s *State, instr ssa.Instruction) bool {
	switch ins := instr.(type) {
	case *ssa.Store:
		v := e.eval(s, ins.Val)
		if k, ok := e.addr(s, e.eval(s, ins.Addr)); ok {
			if !strings.HasPrefix(k, "a!") {
				at := s.D[resKey(v)]
				c.moveAll(s, v)
				if at != "" && strings.HasPrefix(k, "*r:") && c.openers[origin(c.root)] {
					s.D[heldKey(v)] = at
				}
			} else if fvOfRoot(k) {
				c.moveAll(s, v)
			}
		}
	case *ssa.Send:
		c.moveAll(s, e.eval(s, ins.X))
	case *ssa.MapUpdate:
		c.moveAll(s, e.eval(s, ins.Value))
		c.moveAll(s, e.eval(s, ins.Key))
	}
	return c.errClient.Instr(e, s, instr)
}

func fvOfRoot(string) bool { return false }

// reach collects every value reachable from v
func reachVals(s *State, v Val, out map[string]bool) {
	str := v.String()
	if out[str] {
		return
	}
	out[str] = true
	for _, t := range v.T {
		reachVals(s, t, out)
	}
	if v.K == KPtr || v.K == KOpaque {
		root := v.S
		for m, mv := range s.mem {
			if strings.HasPrefix(m, root) || strings.HasPrefix(m, "*"+root) {
				reachVals(s, mv, out)
			}
		}
	}
}

func (c *resClient) Exit(e *Engine, s *State, kind ExitKind, instr ssa.Instruction, res []Val) {
	if kind != ExitReturn {
		return
	}
	reach := map[string]bool{}
	for i, r := range res {
		one := map[string]bool{}
		reachVals(s, r, one)
		for k := range one {
			reach[k] = true
		}
		if c.freshRes != nil {
			t := c.root.Signature.Results().At(i).Type()
			for k := range one {
				if s.D["res:"+k] != "" {
					c.freshRes[i] = true
				}
			}
			if r.K == KPtr && strings.HasPrefix(r.S, "a!") && releaseMethod(t) != "" && !trivialRelease(c.w, t) {
				c.freshRes[i] = true
			}
			if r.K == KNonNil && r.S == "carrier" && releaseMethod(t) != "" {
				c.freshRes[i] = true
			}
			if r.K == KFunc && isFuncRelease(t) {
				c.freshRes[i] = true
			}
		}
	}
	if !c.report {
		return
	}
	// who closes what is returned must not depend on the path
	for _, r := range res {
		at := s.D["acq:"+r.String()]
		if at == "" || r.K != KOpaque || s.isNil(r) == 1 {
			continue
		}
		n := 1
		if s.D[resKey(r)] == "" {
			n = 2
		}
		if c.owners == nil {
			c.owners = map[string]int{}
		}
		c.owners[at] |= n
		if c.owners[at] == 3 {
			c.owners[at] = 4
			nm, pos, _ := strings.Cut(at, "@")
			c.c.BadAt("owner", fname(c.root)+"|"+nm, pos, e.Trace(s), "%s returns what %s opened after giving it to an owner that closes it on some paths, and without an owner on others", fname(c.root), nm)
		}
	}
	failing := false
	for _, r := range res {
		failing = failing || r.K == KNonNil && strings.HasPrefix(r.S, failVal)
	}
	for k, at := range s.D {
		id, ok := strings.CutPrefix(k, "held:")
		if !ok || !failing {
			continue
		}
		if strings.HasPrefix(id, "o") && s.facts[id[1:]] == "nil" {
			continue
		}
		where := ""
		if instr != nil {
			where = " (returns at " + c.w.pos(instr.Pos()) + ")"
		}
		c.leak(e, s, "", at, "is still open when "+fname(c.root)+" fails"+where)
	}
	for k, at := range s.D {
		id, ok := strings.CutPrefix(k, "res:")
		if !ok || reach[id] {
			continue
		}
		if in := s.D["within:"+id]; in != "" {
			found := false
			for r := range reach {
				found = found || strings.Contains(r, in)
			}
			if found {
				continue
			}
		}
		if strings.HasPrefix(id, "o") {
			if s.facts[id[1:]] == "nil" {
				continue
			}
		}
		where := ""
		if instr != nil {
			where = " (returns at " + c.w.pos(instr.Pos()) + ")"
		}
		c.leak(e, s, "", at, "is still open when "+fname(c.root)+" ends"+where)
	}
}

// resources checks acquire/release pairing in all selected functions.
func resources(c *Ctx, rule string, inScope func(*ssa.Function) bool) {
	w := c.W
	memoErr := map[*ssa.Function]int{}
	var mayFail func(*ssa.Function) bool
	mayFail = func(fn *ssa.Function) bool {
		switch memoErr[fn] {
		case 1:
			return true
		case 2, 3:
			return false
		}
		if fn.Blocks == nil {
			return true
		}
		memoErr[fn] = 3
		cl := &errClient{w: w, c: c, root: fn, sites: map[ssa.Instruction]string{}, inlined: map[*ssa.Function]bool{}, recorded: nil, mode: 1, mayFailOf: mayFail, hits: map[string]bool{}, pendFn: map[string]*ssa.Function{}}
		cl.quiet = true
		e := NewEngine(w, cl)
		e.Run(fn, nil)
		if cl.mayFail || e.Over {
			memoErr[fn] = 1
			return true
		}
		memoErr[fn] = 2
		return false
	}
	acquired := map[ssa.Instruction]string{}
	ran := map[*ssa.Function]bool{}
	memo := map[*ssa.Function]map[int]bool{}
	openers := openerMethods(w)
	var fresh func(*ssa.Function) map[int]bool
	mk := func(fn *ssa.Function, report bool) *resClient {
		cl := &resClient{errClient: errClient{w: w, c: c, rule: rule, root: fn, sites: map[ssa.Instruction]string{}, inlined: map[*ssa.Function]bool{}, mayFailOf: mayFail, hits: map[string]bool{}, pendFn: map[string]*ssa.Function{}, quiet: true}}
		cl.fresh = fresh
		cl.report = report
		cl.openers = openers
		cl.acquired = map[ssa.Instruction]string{}
		if report {
			cl.inlined = ran
			cl.acquired = acquired
		} else {
			cl.freshRes = map[int]bool{}
		}
		return cl
	}
	fresh = func(fn *ssa.Function) map[int]bool {
		fn = origin(fn)
		if r, ok := memo[fn]; ok {
			return r
		}
		memo[fn] = map[int]bool{}
		if fn.Blocks == nil {
			return memo[fn]
		}
		cl := mk(fn, false)
		e := NewEngine(w, cl)
		e.Run(fn, nil)
		memo[fn] = cl.freshRes
		return cl.freshRes
	}
	n, states := 0, 0
	run := func(fn *ssa.Function) {
		cl := mk(fn, true)
		e := NewEngine(w, cl)
		e.Run(fn, nil)
		n++
		states += e.States
		if e.Over {
			c.BadAt("undecided", fname(fn), w.pos(fn.Pos()), "", "too many paths to decide")
		}
	}
	var fns []*ssa.Function
	for _, fn := range w.Fns {
		if fn.Blocks != nil && inScope(fn) {
			fns = append(fns, fn)
		}
	}
	for _, fn := range fns {
		if fn.Parent() == nil {
			run(fn)
		}
	}
	for changed := true; changed; {
		changed = false
		for _, fn := range fns {
			if fn.Parent() != nil && !ran[fn] {
				ran[fn] = true
				changed = true
				run(fn)
			}
		}
	}
	var keys []string
	for i, nm := range acquired {
		keys = append(keys, c.W.pos(i.Pos())+" "+nm)
	}
	sort.Strings(keys)
	for _, k := range keys {
		c.Ob(rule, k)
	}
	c.Counts["roots_explored"] += n
	c.Counts["abstract_paths_explored"] += states
}

func init() {
	register(&Check{
		Prop: "C04",
		Explain: "released: for every call of a function that hands over something with a Close or Release method (or a release function), each abstract path of the surrounding operation is followed (calls of helpers that are given the resource are stepped into, deferred calls run) until it is closed, returned, or stored in an object that outlives the operation; a path that ends with it open is a violation. " +
			"close-covers: for every repository type with a Close method, each path of Close (all combinations of failing parts included) closes every field the type fills with resources, unless it is nil or an exported switch opts out; collections of closers are closed in a loop that cannot be left early. " +
			"overwritten: methods that fill such a field do so only when nothing open is in it. owner: whether a returned resource already has an owner that closes it does not depend on the path.",
		Assume: []string{
			"a resource is a value with Close/Release obtained from a call; values whose Close only drops memory are none",
			"process exit ends the obligation to close; main functions and the graphical front end are left out",
			"goroutine bodies are explored as if they ran at their start",
		},
		Floors: map[string]int{"released": 25, "close-covers": 10, "overwritten": 5},
		Run: func(c *Ctx) {
			resources(c, "released", func(fn *ssa.Function) bool {
				p := fnPkgPath(c.W, fn)
				return p != modPath+"/internal/headache" && p != modPath+"/cmd/headache" && !(fn.Name() == "main" && fn.Parent() == nil)
			})
			owners(c)
		},
	})
}
