package main

// Goroutines, locks and wait groups (C06, C07).
//
// The bodies of started goroutines are interpreted at the go statement; which
// other goroutines may still run at each access follows from the waits on the
// path. Locks held, pending work and the threads alive are part of the state.

import (
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// normKey turns a memory key into a readable path: "->" follows a pointer, a
// slice or a map, "." selects a field of the object itself
func normKey(k string) string {
	k = strings.ReplaceAll(k, "*", "")
	k = strings.TrimSuffix(k, ";")
	k = strings.ReplaceAll(k, ";.", "->")
	k = strings.ReplaceAll(k, ";[", "->[")
	k = strings.ReplaceAll(k, ";{", "->{")
	return strings.ReplaceAll(k, ";", "")
}

func overlap(a, b string) bool {
	if len(a) > len(b) {
		a, b = b, a
	}
	if a == b {
		return true
	}
	if !strings.HasPrefix(b, a) || strings.Contains(b[len(a):], "->") {
		return false // the rest of b is another object
	}
	return b[len(a)] == '.' || b[len(a)] == '[' || b[len(a)] == '{'
}

// access is one read or write of memory
type access struct {
	key    string
	root   string // id of the object at the root of the key
	write  bool
	atomic bool
	locks  map[string]string // lock -> W or R
	thr    string
	live   map[string]bool // threads that may run at the same time and know the object
	own    string          // index that differs per goroutine
	instr  ssa.Instruction
	fn     *ssa.Function
}

func (a *access) sig() string {
	var l []string
	for k, v := range a.locks {
		l = append(l, k+v)
	}
	sort.Strings(l)
	return a.key + "|" + strconv.FormatBool(a.write) + strconv.FormatBool(a.atomic) + "|" + strings.Join(l, ",") + "|" + a.thr + "|" + strings.Join(sortedKeys(a.live), ",") + "|" + a.own
}

// common says that a lock orders x and y
func commonLock(x, y *access) bool {
	for k, m := range x.locks {
		n, ok := y.locks[k]
		if !ok {
			continue
		}
		if x.write && m != "W" || y.write && n != "W" {
			continue
		}
		return true
	}
	return false
}

type concClient struct {
	BaseClient
	c    *Ctx
	w    *World
	root *ssa.Function
	deep func(s *State, cs *CallSite, fn *ssa.Function) bool // step into this function

	acc  map[string]*access
	list []*access

	bad    func(rule, construct string, pos token.Pos, s *State, e *Engine, msg string)
	waits  map[string]map[string]bool // wait group -> groups that were always waited for before
	late   []lateAdd
	locked map[string]bool // locks taken anywhere
	gos    int
	adds   int
	conds  bool
}

type lateAdd struct {
	thr, wg string
	other   map[string]bool // groups the thread still has to signal
	pos     token.Pos
}

// ---- threads

func split(s string) []string {
	if s == "" {
		return nil
	}
	return strings.Split(s, ",")
}

func setOf(s string) map[string]bool {
	m := map[string]bool{}
	for _, x := range split(s) {
		m[x] = true
	}
	return m
}

func joinSet(m map[string]bool) string { return strings.Join(sortedKeys(m), ",") }

// thread is the id of the goroutine that executes the top frame
func thread(s *State) string {
	for i := len(s.frames) - 1; i > 0; i-- {
		if s.frames[i].cont == contDiscard {
			return s.frames[i].id
		}
	}
	return "main"
}

func (k *concClient) live(s *State) map[string]bool { return setOf(s.D["live"]) }

func (k *concClient) rootID(key string) string {
	r := rootOf(key)
	if i := strings.IndexByte(r, '#'); i >= 0 { // one of several results
		r = r[:i] + ";"
	}
	return strings.TrimPrefix(r, "a!")
}

// effLive are the live threads that may know the object with this root
func (k *concClient) effLive(s *State, root string) map[string]bool {
	l := k.live(s)
	old := setOf(s.D["old:"+root])
	for t := range old {
		delete(l, t)
	}
	return l
}

// born notes that a new object (or value) with this id exists from now on
func (k *concClient) born(s *State, id string) {
	if l := s.D["live"]; l != "" {
		s.D["old:"+id] = l
	} else {
		delete(s.D, "old:"+id)
	}
}

func (k *concClient) start(s *State, t string) {
	l := k.live(s)
	if l[t] {
		prev := l[t+"'"]
		delete(l, t)
		l[t+"'"] = true
		s.D["live"] = joinSet(l)
		for d, v := range s.D {
			if !strings.HasPrefix(d, "old:") {
				continue
			}
			o := setOf(v)
			all := o[t] && (!prev || o[t+"'"])
			delete(o, t)
			delete(o, t+"'")
			if all {
				o[t+"'"] = true
			}
			s.D[d] = joinSet(o)
		}
		if g, ok := s.D["wg:"+t]; ok {
			s.D["wg:"+t+"'"] = g
		}
	}
	delete(s.D, "wg:"+t)
	delete(s.D, "done:"+t)
	delete(s.D, "waited:"+t)
}

// Joined and Join: which threads may run is joined where paths meet
func (k *concClient) Joined(d string) bool {
	return d == "live" || strings.HasPrefix(d, "old:") || strings.HasPrefix(d, "wg:") || strings.HasPrefix(d, "save:") || strings.HasPrefix(d, "late:")
}

func (k *concClient) Join(old map[string]string, s *State) bool {
	universe := func(d map[string]string) map[string]bool {
		u := setOf(d["live"])
		for x, v := range d {
			if strings.HasPrefix(x, "save:") {
				for t := range setOf(v) {
					u[t] = true
				}
			}
		}
		return u
	}
	ua, ub := universe(old), universe(s.D)
	all := map[string]bool{}
	for t := range ua {
		all[t] = true
	}
	for t := range ub {
		all[t] = true
	}
	out := map[string]string{}
	names := map[string]bool{}
	for _, m := range []map[string]string{old, s.D} {
		for d := range m {
			if k.Joined(d) {
				names[d] = true
			}
		}
	}
	for d := range names {
		a, b := setOf(old[d]), setOf(s.D[d])
		r := map[string]bool{}
		switch {
		case strings.HasPrefix(d, "old:"):
			// known to be older than the object, or not running at all
			for t := range all {
				if (a[t] || !ua[t]) && (b[t] || !ub[t]) {
					r[t] = true
				}
			}
		case strings.HasPrefix(d, "wg:"):
			t := d[3:]
			switch {
			case !ua[t]:
				r = b
			case !ub[t]:
				r = a
			default:
				for g := range a {
					if b[g] {
						r[g] = true
					}
				}
			}
		default:
			for x := range a {
				r[x] = true
			}
			for x := range b {
				r[x] = true
			}
		}
		if len(r) > 0 {
			out[d] = joinSet(r)
		}
	}
	same := true
	for d := range names {
		if out[d] != old[d] {
			same = false
		}
	}
	if same {
		return false
	}
	for d := range names {
		if v, ok := out[d]; ok {
			s.D[d] = v
		} else {
			delete(s.D, d)
		}
	}
	return true
}

// ---- locks

func (k *concClient) locks(e *Engine, s *State) map[string]string {
	out := map[string]string{}
	for d, v := range s.D {
		if strings.HasPrefix(d, "L:") {
			out[d[2:]] = v
		}
	}
	for i, f := range s.frames {
		if f.cont == contArg && i > 0 {
			p := s.frames[i-1]
			if c, ok := p.block.Instrs[p.idx].(ssa.CallInstruction); ok {
				if st := c.Common().StaticCallee(); st != nil && qualName(st) == "(*sync.Once).Do" {
					if key, ok := e.addr(s, e.evalIn(s, p, c.Common().Args[0])); ok {
						out["once:"+normKey(key)] = "W"
					}
				}
			}
		}
	}
	return out
}

var lockCalls = map[string]string{
	"(*sync.Mutex).Lock": "lock", "(*sync.RWMutex).Lock": "lock", "(sync.Locker).Lock": "lock",
	"(*sync.Mutex).Unlock": "unlock", "(*sync.RWMutex).Unlock": "unlock", "(sync.Locker).Unlock": "unlock",
	"(*sync.RWMutex).RLock": "rlock", "(*sync.RWMutex).RUnlock": "runlock",
	"(*sync.Mutex).TryLock": "try", "(*sync.RWMutex).TryLock": "try", "(*sync.RWMutex).TryRLock": "rtry",
}

func held(s *State) []string {
	var out []string
	for d := range s.D {
		if strings.HasPrefix(d, "L:") {
			out = append(out, nice(d[2:]))
		}
	}
	sort.Strings(out)
	return out
}

// nice makes a normalised key readable
func nice(k string) string {
	if i := strings.LastIndexByte(k, ':'); i >= 0 {
		k = k[i+1:]
	}
	return k
}

func (k *concClient) Call(e *Engine, s *State, cs *CallSite) ([]Outcome, bool) {
	name := cs.Name()
	thr := thread(s)
	if v, ok := cs.Instr.(ssa.Value); ok && objectType(v.Type()) {
		k.born(s, s.top().id+":"+v.Name()+";")
	}
	if b, ok := cs.Instr.Common().Value.(*ssa.Builtin); ok && !cs.Instr.Common().IsInvoke() {
		switch b.Name() {
		case "close":
			k.signal(s, thr, "chan:"+normKey(cs.Args[0].S))
		case "delete", "clear":
			if a, ok := e.addr(s, cs.Args[0]); ok {
				k.access(e, s, cs.Instr, a+"{}", true, false, "")
			}
		case "copy":
			if a, ok := e.addr(s, cs.Args[0]); ok {
				k.access(e, s, cs.Instr, a+"[*]", true, false, "")
			}
			if a, ok := e.addr(s, cs.Args[1]); ok {
				k.access(e, s, cs.Instr, a+"[*]", false, false, "")
			}
		case "len":
			if _, isMap := cs.ArgV[0].Type().Underlying().(*types.Map); isMap {
				if a, ok := e.addr(s, cs.Args[0]); ok {
					k.access(e, s, cs.Instr, a+"{}", false, false, "")
				}
			}
		}
		return nil, false
	}
	if _, ok := s.D["signalled:"+thr]; ok && !cs.Go && name != "(*sync.WaitGroup).Done" {
		k.bad("after-done", fname(s.top().fn), cs.Instr.Pos(), s, e, "the worker still calls "+calleeText(cs)+" after it signalled that it is done")
	}
	if op := lockCalls[name]; op != "" && len(cs.Args) > 0 {
		key, ok := e.addr(s, cs.Args[0])
		if !ok {
			return nil, false
		}
		id := normKey(key)
		k.locked[id] = true
		m, has := s.D["L:"+id]
		switch op {
		case "lock", "rlock":
			if has {
				k.bad("locked-again", fname(s.top().fn)+"|"+nice(id), cs.Instr.Pos(), s, e, "takes the lock "+nice(id)+" while already holding it")
			}
			if op == "lock" {
				s.D["L:"+id] = "W"
			} else if m != "W" {
				s.D["L:"+id] = "R"
			}
			s.D["P:"+id] = k.w.pos(cs.Instr.Pos())
		case "unlock", "runlock":
			want := "W"
			if op == "runlock" {
				want = "R"
			}
			if !has || m != want {
				k.bad("unlock", fname(s.top().fn)+"|"+nice(id), cs.Instr.Pos(), s, e, "gives back the lock "+nice(id)+" which it does not hold that way")
			}
			delete(s.D, "L:"+id)
			delete(s.D, "P:"+id)
			for d, v := range s.D {
				if strings.HasPrefix(d, "ld:") && setOf(v)[id] {
					s.D[d] = "stale:" + nice(id)
				}
				if strings.HasPrefix(d, "kv:") && setOf(v)[id] {
					l := setOf(v)
					delete(l, id)
					s.D[d] = joinSet(l)
				}
			}
		case "try", "rtry":
			return []Outcome{
				{Val: boolVal(false)},
				{Val: boolVal(true), Apply: func(s *State) { s.D["L:"+id] = map[string]string{"try": "W", "rtry": "R"}[op] }},
			}, true
		}
		return []Outcome{{Val: opaque(cs.ResID)}}, true
	}
	switch name {
	case "(*sync.WaitGroup).Add":
		key, ok := e.addr(s, cs.Args[0])
		if !ok {
			return nil, false
		}
		wg := normKey(key)
		k.adds++
		n := "?"
		if v, ok := intOf(cs.Args[1]); ok {
			n = strconv.FormatInt(v, 10)
		}
		k.count(s, wg, n)
		if thr != "main" {
			la := lateAdd{thr: thr, wg: wg, other: map[string]bool{}, pos: cs.Instr.Pos()}
			// groups this thread has announced but not yet signalled are known when it ends
			s.D["late:"+thr] = joinSet(merge(setOf(s.D["late:"+thr]), wg+"@"+k.w.pos(la.pos)+"@"+s.D["done:"+thr]))
		}
		return []Outcome{{Val: opaque(cs.ResID)}}, true
	case "(*sync.WaitGroup).Done":
		key, ok := e.addr(s, cs.Args[0])
		if !ok {
			return nil, false
		}
		wg := normKey(key)
		cur, ok := s.D["pend:"+wg]
		if (!ok || cur == "0") && k.ownsGroup(wg, s) {
			k.bad("announced", fname(s.top().fn)+"|"+nice(wg), cs.Instr.Pos(), s, e, "signals "+nice(wg)+" although nothing was announced on it before the worker was started")
		}
		k.count(s, wg, "-1")
		if setOf(s.D["waited:"+thr])[wg] && thr != "main" {
			k.bad("deadlock", fname(s.top().fn)+"|"+nice(wg), cs.Instr.Pos(), s, e, "the worker waited for "+nice(wg)+" before signalling it itself")
		}
		k.signal(s, thr, wg)
		return []Outcome{{Val: opaque(cs.ResID)}}, true
	case "(*sync.WaitGroup).Wait":
		key, ok := e.addr(s, cs.Args[0])
		if !ok {
			return nil, false
		}
		k.blocking(e, s, cs.Instr, "waits for other goroutines")
		k.wait(e, s, normKey(key), thr)
		return []Outcome{{Val: opaque(cs.ResID)}}, true
	case "(*sync.Cond).Wait", "time.Sleep":
		if name == "time.Sleep" {
			k.blocking(e, s, cs.Instr, "sleeps")
		}
	case "os.Exit", "log.Fatal":
		return []Outcome{{End: true}}, true
	case "errors.New", "fmt.Errorf":
		return []Outcome{{Val: Val{K: KNonNil, S: "new"}}}, true
	}
	if strings.HasPrefix(name, "(*sync/atomic.") || strings.HasPrefix(name, "sync/atomic.") {
		if len(cs.Args) > 0 {
			if key, ok := e.addr(s, cs.Args[0]); ok {
				short := name[strings.LastIndexByte(name, '.')+1:]
				k.access(e, s, cs.Instr, key, !strings.HasPrefix(short, "Load"), true, "")
			}
		}
		return []Outcome{{Val: opaque(cs.ResID)}}, true
	}
	if strings.HasPrefix(name, "(*github.com/syndtr/goleveldb/leveldb.DB).") && len(cs.Args) > 0 {
		id := "kv:" + normKey(cs.Args[0].S)
		switch cs.Static.Name() {
		case "Get", "Has":
			l := map[string]bool{}
			for x, m := range k.locks(e, s) {
				if m == "W" {
					l[x] = true
				}
			}
			s.D[id] = joinSet(l) + ",?"
		case "Put", "Delete", "Write":
			if v, ok := s.D[id]; ok && strings.Trim(v, ",?") == "" {
				k.bad("read-modify-write", fname(k.root), cs.Instr.Pos(), s, e, "stores an entry it read before without holding one lock for writing from the reading to the storing")
			}
			k.access(e, s, cs.Instr, "*"+cs.Args[0].S+"{}", false, false, "")
		}
	}
	// a storage is finalized when nothing uses it any more
	if cs.Iface != nil && isBundleStorage(cs.Iface) {
		switch key := "*" + cs.Args[0].S + "{contents}"; cs.Iface.Name() {
		case "Finalize":
			k.access(e, s, cs.Instr, key, true, false, "")
		case "Add", "AddFieldValue", "AddChild", "RegisterChildStorage":
			k.access(e, s, cs.Instr, key, false, false, "")
		}
	}
	// a storage is handed out before it is filled: only after a wait it holds all its entities
	if cs.Iface != nil && isBundleStorage(cs.Iface) && cs.Iface.Name() == "Get" && k.makesStorages(s.top().fn) {
		waited := false
		for t := range k.ancestors(s) {
			if s.D["waited:"+t] != "" {
				waited = true
			}
		}
		if !waited {
			k.bad("ordered", fname(s.top().fn), cs.Instr.Pos(), s, e, "reads the entities of another bundle without waiting for the workers that extract them")
		}
	}
	// user code
	if cs.Static == nil && cs.Iface == nil && cs.Fn.K != KFunc {
		if h := held(s); len(h) > 0 {
			k.bad("callback", fname(s.top().fn), cs.Instr.Pos(), s, e, "calls a function it was given while holding the lock "+h[0])
		}
		// a callback may take any lock: remember it was run
	}
	return nil, false
}

// isBundleStorage: m is a method of the interface of bundle storages
func isBundleStorage(m *types.Func) bool {
	return m.Pkg() != nil && m.Pkg().Path() == modPath+"/internal/sparkl/storages"
}

// makesStorages: fn is part of a function that returns a storage while workers still fill it
func (k *concClient) makesStorages(fn *ssa.Function) bool {
	res := topOf(fn).Signature.Results()
	for i := 0; i < res.Len(); i++ {
		if n := namedOf(res.At(i).Type()); n != nil && n.Obj().Name() == "BundleStorage" {
			return true
		}
	}
	return false
}

// ancestors: the running goroutine and those that started it
func (k *concClient) ancestors(s *State) map[string]bool {
	out := map[string]bool{"main": true}
	for i, f := range s.frames {
		if i > 0 && f.cont == contDiscard {
			out[f.id] = true
		}
	}
	return out
}

// objectType: values of this type may stand for an object or an index
func objectType(t types.Type) bool {
	if isErrorType(t) {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice, *types.Interface, *types.Chan:
		return true
	case *types.Tuple:
		return u.Len() > 0
	}
	return false
}

func merge(m map[string]bool, x string) map[string]bool {
	m[x] = true
	return m
}

func calleeText(cs *CallSite) string {
	if n := cs.Name(); n != "" {
		n = strings.ReplaceAll(n, modPath+"/", "")
		if i := strings.LastIndexByte(n, '/'); i >= 0 {
			n = n[i+1:]
		}
		return n
	}
	return "a function value"
}

// ownsGroup: the wait group lives in the root operation
func (k *concClient) ownsGroup(wg string, s *State) bool { return strings.HasPrefix(wg, "a!") }

func (k *concClient) count(s *State, wg, n string) {
	cur := s.D["pend:"+wg]
	if cur == "" {
		cur = "0"
	}
	if cur == "?" || n == "?" {
		s.D["pend:"+wg] = "?"
		return
	}
	a, _ := strconv.Atoi(cur)
	b, _ := strconv.Atoi(n)
	if a += b; a > 16 {
		s.D["pend:"+wg] = "?"
		return
	}
	s.D["pend:"+wg] = strconv.Itoa(a)
}

func (k *concClient) signal(s *State, thr, wg string) {
	if thr == "main" {
		return
	}
	if !strings.HasPrefix(wg, "chan:") {
		if setOf(s.D["wg:"+thr])[wg] {
			s.D["dones:"+thr] = "2"
		}
		s.D["signalled:"+thr] = wg
	}
	s.D["wg:"+thr] = joinSet(merge(setOf(s.D["wg:"+thr]), wg))
	s.D["done:"+thr] = joinSet(merge(setOf(s.D["done:"+thr]), strings.ReplaceAll(wg, ",", "_")))
}

// wait removes the threads that signal wg before they end
func (k *concClient) wait(e *Engine, s *State, wg, thr string) {
	before := setOf(s.D["waited:"+thr])
	if thr == "main" {
		all := merge(setOf(joinSet(before)), wg)
		if k.waits[wg] == nil {
			k.waits[wg] = all
		} else {
			for x := range k.waits[wg] {
				if !all[x] {
					delete(k.waits[wg], x)
				}
			}
		}
		if p := s.D["pend:"+wg]; p != "" && p != "0" && p != "?" && k.ownsGroup(wg, s) {
			k.bad("announced", fname(k.root)+"|"+nice(wg), s.top().block.Instrs[s.top().idx].Pos(), s, e, "waits for "+p+" more workers on "+nice(wg)+" than signal that they are done")
		}
	}
	s.D["waited:"+thr] = joinSet(merge(before, wg))
	l := k.live(s)
	for t := range l {
		if setOf(s.D["wg:"+t])[wg] {
			delete(l, t)
		}
	}
	if len(l) == 0 {
		delete(s.D, "live")
		for d := range s.D {
			if strings.HasPrefix(d, "old:") {
				delete(s.D, d)
			}
		}
	} else {
		s.D["live"] = joinSet(l)
	}
}

func (k *concClient) blocking(e *Engine, s *State, instr ssa.Instruction, what string) {
	if h := held(s); len(h) > 0 {
		k.bad("blocking", fname(s.top().fn), instr.Pos(), s, e, what+" while holding the lock "+h[0])
	}
}

func (k *concClient) Inline(e *Engine, s *State, cs *CallSite, fn *ssa.Function) bool {
	if fn.Parent() != nil {
		return true
	}
	return isRepo(fn) && k.deep(s, cs, fn)
}

func (k *concClient) access(e *Engine, s *State, instr ssa.Instruction, key string, write, atomic bool, own string) {
	root := k.rootID(key)
	a := &access{key: normKey(key), root: root, write: write, atomic: atomic, locks: k.locks(e, s), thr: thread(s), live: k.effLive(s, root), own: own, instr: instr, fn: s.top().fn}
	g := a.sig()
	if k.acc[g] == nil {
		k.acc[g] = a
		k.list = append(k.list, a)
	}
	// is the value that is read still current when it is written back?
	if !write && !atomic {
		if v, ok := instr.(ssa.Value); ok && strings.HasPrefix(a.key, "r:") {
			l := map[string]bool{}
			for x := range a.locks {
				l[x] = true
			}
			if len(l) > 0 {
				s.D["ld:"+s.top().id+":"+v.Name()+":"+a.key] = joinSet(l)
			}
		}
	}
	if write && strings.HasPrefix(a.key, "r:") {
		if st, ok := instr.(*ssa.Store); ok {
			k.staleWrite(e, s, st.Val, a, instr)
		}
		if mu, ok := instr.(*ssa.MapUpdate); ok {
			k.staleWrite(e, s, mu.Value, a, instr)
		}
	}
}

func (k *concClient) staleWrite(e *Engine, s *State, v ssa.Value, a *access, instr ssa.Instruction) {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if v == nil || seen[v] || len(seen) > 200 {
			return
		}
		seen[v] = true
		ins, ok := v.(ssa.Instruction)
		if !ok {
			return
		}
		pre := "ld:" + s.top().id + ":" + v.Name() + ":"
		for d, x := range s.D {
			if strings.HasPrefix(d, pre) && strings.HasPrefix(x, "stale:") && overlap(d[len(pre):], a.key) {
				k.bad("stale-write", fname(s.top().fn)+"|"+nice(a.key), instr.Pos(), s, e, "writes back a value of "+nice(a.key)+" it read before the lock "+x[6:]+" was given up")
			}
		}
		if al, ok := v.(*ssa.Alloc); ok {
			for _, r := range *al.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == al {
					walk(st.Val)
				}
			}
			return
		}
		var ops []*ssa.Value
		for _, op := range ins.Operands(ops) {
			if *op != nil {
				walk(*op)
			}
		}
	}
	walk(v)
}

// ownIndex says that the index in the address differs in every instance of the running goroutine
func (k *concClient) ownIndex(e *Engine, s *State, addr ssa.Value) string {
	ia, ok := addr.(*ssa.IndexAddr)
	if !ok {
		if fa, isF := addr.(*ssa.FieldAddr); isF {
			return k.ownIndex(e, s, fa.X)
		}
		return ""
	}
	v := e.eval(s, ia.Index)
	if v.K != KOpaque {
		return ""
	}
	thr := thread(s)
	if k.effLive(s, v.S)[thr+"'"] {
		return ""
	}
	return v.S
}

func (k *concClient) Instr(e *Engine, s *State, instr ssa.Instruction) bool {
	f := s.top()
	if f.block.Index == 0 && f.idx == 0 && f.cont == contDiscard && f.stage == 0 && s.D["in:"+f.id] == "" {
		// a goroutine begins
		k.gos++
		parent := "main"
		sub := *s
		sub.frames = s.frames[:len(s.frames)-1]
		parent = thread(&sub)
		k.start(s, f.id)
		s.D["in:"+f.id] = "1"
		s.D["save:"+f.id] = s.D["live"]
		var ps []string
		for d, v := range s.D {
			if strings.HasPrefix(d, "pend:") {
				ps = append(ps, d[5:]+"="+v)
			}
		}
		sort.Strings(ps)
		s.D["ps:"+f.id] = strings.Join(ps, ",")
		var lk []string
		for d, v := range s.D {
			if strings.HasPrefix(d, "L:") {
				lk = append(lk, d+"="+v)
				delete(s.D, d)
			}
		}
		sort.Strings(lk)
		s.D["lk:"+f.id] = strings.Join(lk, ",")
		_ = parent
	}
	// phis of this block were redefined
	if f.idx > 0 {
		if _, isPhi := f.block.Instrs[f.idx-1].(*ssa.Phi); isPhi {
			if _, isPhi := instr.(*ssa.Phi); !isPhi {
				for _, ins := range f.block.Instrs {
					phi, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					k.born(s, f.id+":"+phi.Name()+";")
				}
			}
		}
	}
	switch ins := instr.(type) {
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan, *ssa.Next, *ssa.BinOp:
		k.born(s, f.id+":"+instr.(ssa.Value).Name()+";")
	case *ssa.UnOp:
		switch ins.Op {
		case token.MUL:
			if key, ok := e.addr(s, e.eval(s, ins.X)); ok {
				k.access(e, s, instr, key, false, false, k.ownIndex(e, s, ins.X))
			}
		case token.ARROW:
			k.blocking(e, s, instr, "receives from a channel")
			k.wait(e, s, "chan:"+normKey(e.eval(s, ins.X).S), thread(s))
		}
	case *ssa.Send:
		k.blocking(e, s, instr, "sends to a channel")
		k.signal(s, thread(s), "chan:"+normKey(e.eval(s, ins.Chan).S))
	case *ssa.Select:
		if ins.Blocking {
			k.blocking(e, s, instr, "waits for a channel")
		}
	case *ssa.Store:
		if key, ok := e.addr(s, e.eval(s, ins.Addr)); ok {
			k.access(e, s, instr, key, true, false, k.ownIndex(e, s, ins.Addr))
			thr := thread(s)
			if _, ok := s.D["signalled:"+thr]; ok && thr != "main" && !strings.Contains(key, thr) {
				k.bad("after-done", fname(f.fn), ins.Pos(), s, e, "the worker still writes "+nice(normKey(key))+" after it signalled that it is done")
			}
		}
	case *ssa.MapUpdate:
		if key, ok := e.addr(s, e.eval(s, ins.Map)); ok {
			k.access(e, s, instr, key+"{}", true, false, "")
		}
	case *ssa.Lookup:
		if _, isMap := ins.X.Type().Underlying().(*types.Map); isMap {
			if key, ok := e.addr(s, e.eval(s, ins.X)); ok {
				k.access(e, s, instr, key+"{}", false, false, "")
			}
		}
		k.born(s, f.id+":"+ins.Name()+";")
	case *ssa.Range:
		if _, isMap := ins.X.Type().Underlying().(*types.Map); isMap {
			if key, ok := e.addr(s, e.eval(s, ins.X)); ok {
				k.access(e, s, instr, key+"{}", false, false, "")
			}
		}
	}
	return true
}

// forget drops what is known about values of a function that returns
func (k *concClient) forget(s *State, f *Frame, res []Val) {
	var txt string
	for d := range s.D {
		p, id, _ := strings.Cut(d, ":")
		if p != "old" && p != "ld" || !strings.HasPrefix(id, f.id+":") {
			continue
		}
		if p == "old" {
			if txt == "" {
				var b strings.Builder
				for _, r := range res {
					b.WriteString(r.String())
				}
				for m, v := range s.mem {
					if !strings.Contains(m, f.id+":") {
						b.WriteString(v.String())
					}
				}
				txt = b.String() + " "
			}
			if strings.Contains(txt, id) {
				continue
			}
		}
		delete(s.D, d)
	}
}

func (k *concClient) FrameExit(e *Engine, s *State, f *Frame, instr *ssa.Return, res []Val) {
	k.forget(s, f, res)
	if f.cont != contDiscard {
		return
	}
	t := f.id
	if h := held(s); len(h) > 0 {
		k.bad("given-back", fname(f.fn)+"|"+h[0], instr.Pos(), s, e, "the worker can end while holding the lock "+h[0])
		for d := range s.D {
			if strings.HasPrefix(d, "L:") {
				delete(s.D, d)
			}
		}
	}
	if s.D["dones:"+t] != "" {
		k.bad("signals-once", fname(f.fn), instr.Pos(), s, e, "the worker can signal that it is done more than once")
	}
	if s.D["wg:"+t] == "" {
		k.bad("signals", fname(f.fn), instr.Pos(), s, e, "the worker can end without signalling that it is done")
	}
	for _, l := range split(s.D["late:"+t]) {
		p := strings.SplitN(l, "@", 3)
		la := lateAdd{thr: t, wg: p[0], other: map[string]bool{}, pos: f.fn.Pos()}
		doneBefore := map[string]bool{}
		if len(p) > 2 {
			doneBefore[p[2]] = true
		}
		for g := range setOf(s.D["done:"+t]) {
			if !doneBefore[g] && !k.selfAnnounced(s, t, g) {
				la.other[g] = true
			}
		}
		k.late = append(k.late, la)
	}
	l := merge(k.live(s), t)
	for x := range setOf(s.D["save:"+t]) {
		l[x] = true
	}
	s.D["live"] = joinSet(l)
	for _, x := range split(s.D["lk:"+t]) {
		d, v, _ := strings.Cut(x, "=")
		s.D[d] = v
	}
	// what the worker computed is not known to the others
	for m, v := range s.mem {
		switch {
		case v.K == KPtr || v.K == KFunc:
		case v.K == KOpaque && !strings.Contains(v.S, t+":") && !strings.Contains(v.S, t+"/"):
		default:
			s.mem[m] = opaque("async:" + m)
		}
	}
	for x := range s.facts {
		if strings.Contains(x, t+":") || strings.Contains(x, t+"/") {
			delete(s.facts, x)
		}
	}
	for _, d := range []string{"in:", "save:", "lk:", "late:", "dones:", "signalled:", "done:", "waited:", "ps:"} {
		delete(s.D, d+t)
	}
	for d := range s.D {
		if strings.HasPrefix(d, "ld:"+t) {
			delete(s.D, d)
		}
	}
}

// selfAnnounced: all that the worker signals on g it announced itself
func (k *concClient) selfAnnounced(s *State, t, g string) bool {
	now, before := s.D["pend:"+g], "0"
	for _, x := range split(s.D["ps:"+t]) {
		if p, v, _ := strings.Cut(x, "="); p == g {
			before = v
		}
	}
	a, err1 := strconv.Atoi(before)
	b, err2 := strconv.Atoi(now)
	return err1 == nil && err2 == nil && b >= a
}

func (k *concClient) Exit(e *Engine, s *State, kind ExitKind, instr ssa.Instruction, res []Val) {
	if kind != ExitReturn {
		return
	}
	if h := held(s); len(h) > 0 {
		k.bad("given-back", fname(k.root)+"|"+h[0], instr.Pos(), s, e, "can return while holding the lock "+h[0])
	}
	for t := range k.live(s) {
		gs := setOf(s.D["wg:"+t])
		local := len(gs) > 0
		for g := range gs {
			if !strings.HasPrefix(strings.TrimPrefix(g, "chan:"), "a!") {
				local = false
			}
		}
		if local {
			k.bad("waited-for", fname(k.root)+"|"+nice(joinSet(gs)), instr.Pos(), s, e, "can return while a worker it started may still run")
		}
	}
	for d, v := range s.D {
		if strings.HasPrefix(d, "pend:a!") && v != "0" && v != "?" {
			k.bad("announced", fname(k.root)+"|"+nice(d[5:]), instr.Pos(), s, e, "announces "+v+" more workers on "+nice(d[5:])+" than signal that they are done")
		}
	}
}
