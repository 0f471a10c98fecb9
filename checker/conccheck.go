package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func isSyncType(t types.Type) bool {
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "sync" {
		return false
	}
	switch n.Obj().Name() {
	case "Mutex", "RWMutex", "WaitGroup", "Once", "Cond":
		return true
	}
	return false
}

// syncBearing: structs that contain a lock or a wait group
func syncBearing(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	if isSyncType(t) {
		return true
	}
	for i := 0; i < st.NumFields(); i++ {
		ft := st.Field(i).Type()
		if isSyncType(ft) {
			return true
		}
		if _, ptr := ft.(*types.Pointer); !ptr && syncBearing(ft) {
			return true
		}
	}
	return false
}

// concWorld knows which functions deal with goroutines and locks
type concWorld struct {
	w       *World
	direct  map[*ssa.Function]bool // top-level functions that use go, locks or wait groups
	memo    map[*ssa.Function]bool
	callers map[*ssa.Function][]*ssa.Function
	gos     int
}

func topOf(fn *ssa.Function) *ssa.Function {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return origin(fn)
}

func newConcWorld(w *World) *concWorld {
	cw := &concWorld{w: w, direct: map[*ssa.Function]bool{}, memo: map[*ssa.Function]bool{}, callers: map[*ssa.Function][]*ssa.Function{}}
	for _, fn := range w.Fns {
		top := topOf(fn)
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if _, ok := ins.(*ssa.Go); ok {
					cw.direct[top] = true
					cw.gos++
				}
				if c, ok := ins.(ssa.CallInstruction); ok {
					if st := c.Common().StaticCallee(); st != nil {
						n := qualName(st)
						if strings.HasPrefix(n, "(*sync.") && !strings.HasPrefix(n, "(*sync.Pool)") {
							cw.direct[top] = true
						}
						if isRepo(st) {
							o := origin(topOf(st))
							if o != top {
								cw.callers[o] = append(cw.callers[o], top)
							}
						}
					}
				}
			}
		}
	}
	return cw
}

// relevant: the function or a callee in the same package is direct
func (cw *concWorld) relevant(fn *ssa.Function) bool {
	fn = origin(fn)
	if r, ok := cw.memo[fn]; ok {
		return r
	}
	cw.memo[fn] = false
	r := cw.direct[fn]
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(ssa.CallInstruction); ok {
					if st := c.Common().StaticCallee(); st != nil && isRepo(st) && fnPkgPath(cw.w, st) == fnPkgPath(cw.w, fn) {
						if cw.relevant(topOf(st)) {
							r = true
						}
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			visit(a)
		}
	}
	visit(fn)
	cw.memo[fn] = r
	return r
}

func sharesSync(fn *ssa.Function) bool {
	for _, p := range fn.Params {
		if n := namedOf(p.Type()); syncBearing(p.Type()) && (n == nil || isSyncType(n) || n.Obj().Pkg().Path() == fnPkg(fn)) {
			return true
		}
		if _, ok := p.Type().Underlying().(*types.Signature); ok {
			return true
		}
	}
	return false
}

func fnPkg(fn *ssa.Function) string {
	if o := topOf(fn).Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

func (cw *concWorld) roots() []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range cw.w.Fns {
		if fn.Parent() != nil || fn.Blocks == nil || !cw.relevant(fn) {
			continue
		}
		if fn.Object() != nil && !fn.Object().Exported() && fn.Name() != "main" && len(cw.callers[origin(fn)]) > 0 && sharesSync(fn) {
			continue // decided within its callers
		}
		out = append(out, fn)
	}
	return out
}

// explore runs the client on a root and calls bad for each broken rule
func (cw *concWorld) explore(c *Ctx, root *ssa.Function, shared bool, bad func(rule, construct string, pos token.Pos, path, msg string)) *concClient {
	pkg := fnPkgPath(cw.w, root)
	k := &concClient{c: c, w: cw.w, root: root, acc: map[string]*access{}, waits: map[string]map[string]bool{}, locked: map[string]bool{}}
	k.deep = func(s *State, cs *CallSite, fn *ssa.Function) bool {
		if fnPkgPath(cw.w, fn) != pkg {
			// state of another package reached through the receiver
			return shared && len(fn.Blocks) < 12 && recvNamed(fn) != nil && strings.HasPrefix(normKey(cs.Args[0].S), "r:"+root.Params[0].Name()) && writesRecv(fn)
		}
		n := recvNamed(fn)
		if n != nil && root.Signature.Recv() != nil && recvNamed(root) != nil && n.Obj() == recvNamed(root).Obj() {
			return true
		}
		return sharesSync(fn) || cw.direct[origin(fn)] && n != nil
	}
	k.bad = func(rule, construct string, pos token.Pos, s *State, e *Engine, msg string) {
		bad(rule, construct, pos, e.Trace(s), msg)
	}
	e := NewEngine(cw.w, k)
	e.Max = 1_500_000
	e.UnrollLen = false // the instances of a goroutine started in a loop stay one
	e.Run(root, func(s *State) {
		if root.Signature.Recv() != nil && len(root.Params) > 0 {
			s.facts["r:"+root.Params[0].Name()+";"] = "nonnil"
		}
	})
	c.Counts["abstract_paths_explored"] += e.States
	if e.Over {
		bad("undecided", fname(root), root.Pos(), "", "too many paths to decide")
	}
	return k
}

// writesRecv: a method that assigns fields of its receiver
func writesRecv(fn *ssa.Function) bool {
	if len(fn.Params) == 0 {
		return false
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if st, ok := ins.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fa.X == ssa.Value(fn.Params[0]) {
					return true
				}
			}
		}
	}
	return false
}

// conflicts finds pairs of accesses that may happen at the same time without a common lock
func conflicts(list []*access, parallel func(x, y *access) bool, report func(w, o *access)) {
	for _, x := range list {
		if !x.write {
			continue
		}
		for _, y := range list {
			if x.atomic && y.atomic {
				continue
			}
			if !overlap(x.key, y.key) || commonLock(x, y) || !parallel(x, y) {
				continue
			}
			report(x, y)
		}
	}
}

func baseThr(t string) string { return strings.TrimRight(t, "'") }

func parallelThreads(x, y *access) bool {
	if x.root != y.root {
		return false
	}
	one := func(x, y *access) bool { // y's thread may run while x happens
		for t := range x.live {
			if baseThr(t) == y.thr {
				if y.thr == x.thr {
					// another instance of the same goroutine
					if !strings.HasSuffix(t, "'") {
						continue
					}
					if x.own != "" && x.own == y.own {
						continue
					}
				}
				return true
			}
		}
		return false
	}
	return one(x, y) || one(y, x)
}

func describe(a *access) string {
	if a.write {
		return "written"
	}
	return "read"
}

// captured decides what goroutines share with their starter and siblings, as far as keep selects it
func captured(c *Ctx, cw *concWorld, rule string, keep func(a *access) bool) {
	for _, root := range cw.roots() {
		k := cw.explore(c, root, false, func(rule, construct string, pos token.Pos, path, msg string) {
			if rule == "undecided" {
				c.BadAt(rule, construct, c.W.pos(pos), path, "%s", msg)
			}
		})
		if k.gos == 0 {
			continue
		}
		shared := map[string]bool{}
		var list []*access
		for _, a := range k.list {
			if !keep(a) {
				continue
			}
			list = append(list, a)
			if a.thr != "main" {
				shared[a.key] = true
			}
		}
		for _, key := range sortedKeys(shared) {
			c.Ob(rule, fname(root)+": "+nice(key))
		}
		conflicts(list, parallelThreads, func(w, o *access) {
			c.BadAt(rule, fname(root)+"|"+nice(w.key), c.W.pos(w.instr.Pos()), "other access at "+c.W.pos(o.instr.Pos()),
				"%s is written in %s while another goroutine may have it %s in %s: no common lock, and nothing waits in between", nice(w.key), fname(w.fn), describe(o), fname(o.fn))
		})
	}
}

// errorSlot: the access reads or writes an error
func errorSlot(a *access) bool {
	switch ins := a.instr.(type) {
	case *ssa.Store:
		return isErrorType(ins.Val.Type())
	case *ssa.UnOp:
		return isErrorType(ins.Type())
	}
	return false
}

// concurrentMethods: the methods that several goroutines call on the same object
func concurrentMethods(c *Ctx, cw *concWorld) map[*types.Named][]*ssa.Function {
	w := c.W
	out := map[*types.Named][]*ssa.Function{}
	add := func(n *types.Named, names map[string]bool) {
		for _, m := range methodsOf(w, n) {
			if (names == nil && m.Object().Exported() || names[m.Name()]) && len(m.Params) > 0 {
				out[n] = append(out[n], m)
			}
		}
	}
	iface := func(pkg, name string) *types.Interface {
		p := w.ByPth[modPath+"/"+pkg]
		if p == nil {
			return nil
		}
		o := p.Types.Scope().Lookup(name)
		if o == nil {
			return nil
		}
		i, _ := o.Type().Underlying().(*types.Interface)
		return i
	}
	exp, sto := iface("internal/sparkl/exporter", "Exporter"), iface("internal/sparkl/storages", "BundleStorage")
	done := map[*types.TypeName]bool{}
	for _, fn := range w.Fns {
		n := recvNamed(fn)
		if n == nil || done[n.Obj()] || fn.Parent() != nil || n.TypeParams().Len() > 0 {
			continue
		}
		done[n.Obj()] = true
		if _, ok := n.Underlying().(*types.Struct); !ok {
			continue
		}
		p := types.NewPointer(n)
		switch {
		case exp != nil && types.Implements(p, exp):
			add(n, map[string]bool{"Begin": true, "Add": true, "End": true})
		case sto != nil && types.Implements(p, sto):
			add(n, map[string]bool{"AddFieldValue": true, "AddChild": true, "Load": true})
		case n.Obj().Name() == "Stats" && strings.HasSuffix(n.Obj().Pkg().Path(), "internal/stats"):
			add(n, nil)
		case hasWaitGroup(n) && strings.HasSuffix(n.Obj().Pkg().Path(), "internal/sparkl"):
			names := map[string]bool{}
			for _, g := range w.Fns {
				if g.Parent() == nil {
					continue
				}
				for _, b := range g.Blocks {
					for _, ins := range b.Instrs {
						if ci, ok := ins.(ssa.CallInstruction); ok {
							if st := ci.Common().StaticCallee(); st != nil && recvNamed(st) != nil && recvNamed(st).Obj() == n.Obj() && inGoroutine(g) {
								names[st.Name()] = true
							}
						}
					}
				}
			}
			add(n, names)
		}
	}
	return out
}

func hasWaitGroup(n *types.Named) bool {
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Type().String() == "sync.WaitGroup" {
			return true
		}
	}
	return false
}

// inGoroutine: the closure is (part of) the body of a goroutine
func inGoroutine(fn *ssa.Function) bool {
	for f := fn; f.Parent() != nil; f = f.Parent() {
		for _, b := range f.Parent().Blocks {
			for _, ins := range b.Instrs {
				g, ok := ins.(*ssa.Go)
				if !ok {
					continue
				}
				v := g.Call.Value
				if mc, ok := v.(*ssa.MakeClosure); ok {
					v = mc.Fn
				}
				if v == ssa.Value(f) {
					return true
				}
			}
		}
	}
	return false
}

func sharedState(c *Ctx, cw *concWorld) {
	groups := concurrentMethods(c, cw)
	var names []*types.Named
	for n := range groups {
		names = append(names, n)
	}
	sort.Slice(names, func(i, j int) bool { return names[i].String() < names[j].String() })
	for _, n := range names {
		var all []*access
		locked := map[string]bool{}
		for _, m := range groups[n] {
			k := cw.explore(c, m, true, func(rule, construct string, pos token.Pos, path, msg string) {
				switch rule {
				case "undecided", "stale-write", "read-modify-write":
					c.BadAt(rule, construct, c.W.pos(pos), path, "%s: %s", fname(m), msg)
				}
			})
			pre := "r:" + m.Params[0].Name()
			cut := func(s string) (string, bool) {
				p := pre
				if strings.HasPrefix(s, "once:") {
					p = "once:" + pre
				}
				if s == p || strings.HasPrefix(s, p+".") || strings.HasPrefix(s, p+"->") {
					return strings.Replace(s, pre, n.Obj().Name(), 1), true
				}
				return s, false
			}
			for _, a := range k.list {
				key, ok := cut(a.key)
				if !ok {
					continue
				}
				b := *a
				b.key = key
				b.locks = map[string]string{}
				for l, m := range a.locks {
					l, _ = cut(l)
					b.locks[l] = m
				}
				all = append(all, &b)
			}
			for l := range k.locked {
				if l, ok := cut(l); ok {
					locked[l] = true
				}
			}
		}
		written := map[string]bool{}
		for _, a := range all {
			if a.write && !a.atomic {
				written[a.key] = true
			}
		}
		for key := range written {
			c.Ob("shared", key)
		}
		conflicts(all, func(x, y *access) bool { return true }, func(w, o *access) {
			if w.key == o.key && w.instr == o.instr && len(w.locks) == 0 {
				c.BadAt("shared", fname(w.fn)+"|"+w.key, c.W.pos(w.instr.Pos()), "", "%s is written in %s without holding a lock, although several goroutines may run it at the same time", w.key, fname(w.fn))
				return
			}
			c.BadAt("shared", fname(w.fn)+"|"+w.key, c.W.pos(w.instr.Pos()), "other access at "+c.W.pos(o.instr.Pos()), "%s is written in %s and %s in %s without one lock that excludes the two", w.key, fname(w.fn), describe(o), fname(o.fn))
		})
		// every lock is there to be taken
		st := n.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			t := st.Field(i).Type().String()
			if t != "sync.Mutex" && t != "sync.RWMutex" {
				continue
			}
			c.Ob("lock-used", n.Obj().Name()+"."+st.Field(i).Name())
			if !locked[n.Obj().Name()+"->"+st.Field(i).Name()] {
				c.BadAt("lock-used", n.Obj().Name()+"."+st.Field(i).Name(), c.W.pos(st.Field(i).Pos()), "", "the lock %s.%s is never taken by the methods that run concurrently: %s", n.Obj().Name(), st.Field(i).Name(), methodNames(groups[n]))
			}
		}
	}
}

// sharedTails: append writes behind the end of a list, into memory that belongs
// to everybody who has the list; only the owner of the list may do that
func sharedTails(c *Ctx) {
	guarded := func(t types.Type) bool {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			return false
		}
		for i := 0; i < st.NumFields(); i++ {
			if n := st.Field(i).Type().String(); n == "sync.Mutex" || n == "sync.RWMutex" {
				return true
			}
		}
		return false
	}
	isAppend := func(v ssa.Value) *ssa.Call {
		call, ok := v.(*ssa.Call)
		if !ok {
			return nil
		}
		b, ok := call.Call.Value.(*ssa.Builtin)
		if !ok || b.Name() != "append" || len(call.Call.Args) == 0 {
			return nil
		}
		return call
	}
	for _, fn := range c.W.Fns {
		for _, b := range fn.Blocks {
			for _, instr := range b.Instrs {
				v, _ := instr.(ssa.Value)
				call := isAppend(v)
				if call == nil {
					continue
				}
				// where the list comes from
				var field *ssa.FieldAddr
				seen := map[ssa.Value]bool{}
				var from func(v ssa.Value)
				from = func(v ssa.Value) {
					if seen[v] {
						return
					}
					seen[v] = true
					switch v := v.(type) {
					case *ssa.Phi:
						for _, x := range v.Edges {
							from(x)
						}
					case *ssa.Slice:
						if v.Max == nil {
							from(v.X)
						}
					case *ssa.ChangeType:
						from(v.X)
					case *ssa.Call:
						if a := isAppend(v); a != nil {
							from(a.Call.Args[0])
						}
					case *ssa.UnOp:
						if f, ok := v.X.(*ssa.FieldAddr); ok && v.Op == token.MUL && guarded(f.X.Type()) {
							field = f
						} else if al, ok := v.X.(*ssa.Alloc); ok && v.Op == token.MUL && al.Referrers() != nil {
							for _, r := range *al.Referrers() {
								if st, ok := r.(*ssa.Store); ok && st.Addr == al {
									from(st.Val)
								}
							}
						}
					}
				}
				from(call.Call.Args[0])
				if field == nil {
					continue
				}
				c.Ob("tails", fname(fn)+" "+c.W.pos(call.Pos()))
				// where it goes
				kept := false
				reached := map[ssa.Value]bool{}
				var to func(v ssa.Value)
				to = func(v ssa.Value) {
					if reached[v] || v.Referrers() == nil {
						return
					}
					reached[v] = true
					for _, r := range *v.Referrers() {
						switch r := r.(type) {
						case *ssa.Phi:
							to(r)
						case *ssa.Slice:
							to(r)
						case *ssa.ChangeType:
							to(r)
						case *ssa.Call:
							if a := isAppend(r); a != nil && a.Call.Args[0] == v {
								to(a)
							}
						case *ssa.Store:
							if r.Val != v {
								continue
							}
							switch at := r.Addr.(type) {
							case *ssa.FieldAddr:
								if at.Field == field.Field && types.Identical(at.X.Type(), field.X.Type()) {
									kept = true
								}
							case *ssa.Alloc:
								for _, l := range *at.Referrers() {
									if u, ok := l.(*ssa.UnOp); ok && u.Op == token.MUL {
										to(u)
									}
								}
							}
						}
					}
				}
				to(call)
				if !kept {
					st := field.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
					c.Bad("tails", fname(fn)+"|"+st.Field(field.Field).Name(), call.Pos(), "%s appends to the list %s that is kept behind a lock, and keeps the result elsewhere: callers write to the same memory", fname(fn), st.Field(field.Field).Name())
				}
			}
		}
	}
}

func methodNames(l []*ssa.Function) string {
	var out []string
	for _, m := range l {
		out = append(out, m.Name())
	}
	sort.Strings(out)
	return strings.Join(out, ", ")
}

func discipline(c *Ctx) {
	finalOrder(c)
	cw := newConcWorld(c.W)
	c.Counts["go_statements"] = cw.gos
	for _, root := range cw.roots() {
		k := cw.explore(c, root, false, func(rule, construct string, pos token.Pos, path, msg string) {
			switch rule {
			case "stale-write", "read-modify-write":
				return // C06
			}
			c.BadAt(rule, construct, c.W.pos(pos), path, "%s: %s", fname(root), msg)
		})
		if k.gos > 0 {
			c.Ob("workers", fname(root))
		}
		if len(k.locked) > 0 {
			c.Ob("locks", fname(root))
		}
		for wg := range k.waits {
			c.Ob("wait-groups", fname(root)+": "+nice(wg))
		}
		for _, la := range k.late {
			if len(k.waits[la.wg]) == 0 {
				continue
			}
			ok := false
			for g := range la.other {
				if g == la.wg || k.waits[la.wg][g] {
					ok = true
				}
			}
			if !ok {
				c.BadAt("announced", fname(root)+"|late "+nice(la.wg), c.W.pos(la.pos), "", "%s: a worker announces more work on %s when the waiter may already be past it", fname(root), nice(la.wg))
			}
		}
	}
}

// mixedAtomics: a field that one function accesses atomically is not accessed plainly by another
func mixedAtomics(c *Ctx) {
	type use struct {
		fn  *ssa.Function
		pos token.Pos
	}
	field := func(v ssa.Value) *types.Var {
		fa, ok := v.(*ssa.FieldAddr)
		if !ok {
			return nil
		}
		st, ok := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		return st.Field(fa.Field)
	}
	atomics, plain := map[*types.Var][]use{}, map[*types.Var][]use{}
	for _, fn := range c.W.Fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch ins := ins.(type) {
				case ssa.CallInstruction:
					st := ins.Common().StaticCallee()
					if st != nil && strings.HasPrefix(qualName(st), "sync/atomic.") && len(ins.Common().Args) > 0 {
						if f := field(ins.Common().Args[0]); f != nil {
							atomics[f] = append(atomics[f], use{fn, ins.Pos()})
						}
					}
				case *ssa.Store:
					if f := field(ins.Addr); f != nil {
						if _, fresh := ins.Addr.(*ssa.FieldAddr).X.(*ssa.Alloc); !fresh {
							plain[f] = append(plain[f], use{fn, ins.Pos()})
						}
					}
				case *ssa.UnOp:
					if f := field(ins.X); f != nil && ins.Op == token.MUL {
						if _, fresh := ins.X.(*ssa.FieldAddr).X.(*ssa.Alloc); !fresh {
							plain[f] = append(plain[f], use{fn, ins.Pos()})
						}
					}
				}
			}
		}
	}
	for f, at := range atomics {
		c.Ob("atomic", f.Name())
		for _, u := range plain[f] {
			c.BadAt("atomic", fname(u.fn)+"|"+f.Name(), c.W.pos(u.pos), "atomic access at "+c.W.pos(at[0].pos), "the field %s is accessed atomically in %s but without protection in %s", f.Name(), fname(at[0].fn), fname(u.fn))
		}
	}
}

var concAssume = []string{
	"Goroutines start at the go statement and are interpreted there; one earlier instance per go statement stands for all earlier ones.",
	"Objects are identified by where they are made or by the path from the receiver; two paths are taken to be different objects.",
	"Dependencies (goleveldb, database/sql, slog, fyne) are safe for concurrent use as documented. Methods that several goroutines call on one object: the methods of Stats, of the exporters, of the storages after extraction (AddFieldValue, AddChild, Load), and the methods of the extraction context that its workers call.",
}

func init() {
	register(&Check{
		Prop: "C06",
		Explain: "shared: for each type that several goroutines use, every access of every concurrent method to state reached from the receiver, with the locks held there (the locks follow calls, deferred unlocks and closures); two accesses of which one writes need one common lock, held for writing by the writer. " +
			"lock-used: each lock of such a type is taken by its concurrent methods. workers: every access of a started goroutine to a variable or object it shares with its starter or siblings: written by one only when nobody else may have it, given the waits on the path, the locks held, or an index of its own. " +
			"stale-write and read-modify-write: a value read under a lock is not written back after the lock was given up. atomic: a field accessed atomically is never accessed plainly. tails: nothing is appended to a list kept behind a lock unless the result is kept there in its place: several callers would write the same element.",
		Assume: concAssume,
		Floors: map[string]int{"shared": 8, "lock-used": 4, "workers": 100},
		Run: func(c *Ctx) {
			cw := newConcWorld(c.W)
			c.Counts["go_statements"] = cw.gos
			sharedState(c, cw)
			sharedTails(c)
			captured(c, cw, "workers", func(*access) bool { return true })
			mixedAtomics(c)
		},
	})
	register(&Check{
		Prop: "C07",
		Explain: "For every function that starts goroutines, takes locks or uses wait groups, on every path through it, its helpers and the goroutines it starts: a worker signals exactly once on every path (signals, signals-once), as the last thing it does (after-done); " +
			"what is announced, signalled and waited for balances (announced), and workers that announce more work still owe a signal the waiter waits for (announced, late); no function returns before workers it waits for locally (waited-for); bundles are read only after their extraction (ordered); a storage is finalised only after every worker that fills it was waited for (finalised-late); " +
			"locks are given back on every path (given-back), in the mode they were taken (unlock), not taken twice (locked-again), not held while calling functions the caller provided (callback) or while blocking (blocking), and no worker waits for a group it has to signal (deadlock).",
		Assume: concAssume,
		Floors: map[string]int{"workers": 5, "locks": 12, "wait-groups": 5, "finalised-late": 1},
		Run:    discipline,
	})
}
