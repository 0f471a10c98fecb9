package main

// A path-sensitive abstract interpreter over SSA.
//
// Starting at the entry of a root function it explores every control-flow path
// (merging states that agree), tracking which values are nil, non-nil, constant,
// closures or addresses of known memory cells. Calls are either stepped into
// (policy of the client), summarised by the client, or treated as opaque.
// It never executes code and calls no solver: unknown conditions go both ways.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"hash/fnv"
	"maps"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Kind uint8

const (
	KOpaque Kind = iota
	KNil
	KNonNil
	KBool
	KConst
	KPtr
	KFunc
	KTuple
	KCond
	KErrs
	KStr // a string put together from parts T
)

// Val is an abstract value.
type Val struct {
	K  Kind
	S  string
	N  int
	Fn *ssa.Function
	T  []Val
}

func (v Val) String() string {
	switch v.K {
	case KNil:
		return "nil"
	case KBool:
		if v.N == 1 {
			return "true"
		}
		return "false"
	case KOpaque:
		return "o" + v.S
	case KNonNil:
		return "nn(" + v.S + ")"
	case KConst:
		return "c(" + v.S + ")"
	case KPtr:
		return "&" + v.S
	case KErrs:
		return fmt.Sprintf("errs%d", v.N)
	case KCond:
		return fmt.Sprintf("?%d(%s)", v.N, v.S)
	}
	var b strings.Builder
	if v.K == KFunc {
		b.WriteString("fn(")
		b.WriteString(v.Fn.String())
	} else if v.K == KStr {
		b.WriteString("str(")
	} else {
		b.WriteString("t(")
	}
	for _, t := range v.T {
		b.WriteByte(',')
		b.WriteString(t.String())
	}
	b.WriteByte(')')
	return b.String()
}

func opaque(id string) Val { return Val{K: KOpaque, S: id} }
func boolVal(b bool) Val {
	if b {
		return Val{K: KBool, N: 1}
	}
	return Val{K: KBool}
}

type deferCall struct {
	instr *ssa.Defer
	fn    Val
	args  []Val
}

type contKind uint8

const (
	contAssign  contKind = iota // assign results to the call in the parent
	contDefer                   // continue running defers in the parent
	contArg                     // was a function argument of an opaque call
	contDiscard                 // goroutine body
)

type Frame struct {
	fn     *ssa.Function
	id     string
	block  *ssa.BasicBlock
	idx    int
	env    map[ssa.Value]Val
	defers []deferCall
	cont   contKind
	stage  int   // progress of a multi-step call
	argRes []Val // results of function arguments run so far
	async  bool  // body of a goroutine (or below one)
}

type traceNode struct {
	prev *traceNode
	pos  token.Pos
	what string
}

// State is one abstract state.
type State struct {
	frames []*Frame
	mem    map[string]Val
	facts  map[string]string
	D      map[string]string // client data
	trace  *traceNode
}

func (s *State) clone() *State {
	n := &State{mem: make(map[string]Val, len(s.mem)), facts: make(map[string]string, len(s.facts)), D: make(map[string]string, len(s.D)), trace: s.trace}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	for k, v := range s.D {
		n.D[k] = v
	}
	n.frames = make([]*Frame, len(s.frames))
	for i, f := range s.frames {
		g := *f
		g.env = make(map[ssa.Value]Val, len(f.env))
		for k, v := range f.env {
			g.env[k] = v
		}
		g.defers = append([]deferCall(nil), f.defers...)
		g.argRes = append([]Val(nil), f.argRes...)
		n.frames[i] = &g
	}
	return n
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

func (s *State) note(pos token.Pos, what string) {
	s.trace = &traceNode{prev: s.trace, pos: pos, what: what}
}

// Depth is the number of frames
func (s *State) Depth() int { return len(s.frames) }

// ExitKind says how a path ends.
type ExitKind uint8

const (
	ExitReturn ExitKind = iota // root function returned
	ExitPanic
	ExitProcess // os.Exit and friends
)

// Outcome is one possible result of a call.
type Outcome struct {
	Val   Val
	Apply func(*State)
	End   bool // the path ends here (process exit)
}

// CallSite describes a resolved call.
type CallSite struct {
	Instr  ssa.CallInstruction
	Static *ssa.Function // origin of static callee, if any
	Closur *Val          // when the callee is a known closure/function value
	Iface  *types.Func   // interface method, for invoke calls
	Fn     Val
	Args   []Val // for invoke calls, args[0] is the receiver
	ArgV   []ssa.Value
	Sig    *types.Signature
	Defer  bool
	Go     bool
	ResID  string // id for an opaque result
}

// Name returns a resolved, qualified name of the callee
func (c *CallSite) Name() string {
	if c.Iface != nil {
		return c.Iface.FullName()
	}
	if c.Static != nil {
		return qualName(c.Static)
	}
	return ""
}

func qualName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if obj, ok := fn.Object().(*types.Func); ok {
		return obj.FullName()
	}
	return fn.String()
}

// Client is the analysis that runs on the engine.
type Client interface {
	// Call may summarise a call. handled=false leaves it to the engine.
	Call(e *Engine, s *State, c *CallSite) (outs []Outcome, handled bool)
	// Opaque gives the results of a call that was not stepped into, after the
	// closures among its arguments ran (argRes holds what those returned).
	Opaque(e *Engine, s *State, c *CallSite, argRes []Val) []Outcome
	// Inline decides whether to step into a callee with a body.
	Inline(e *Engine, s *State, c *CallSite, fn *ssa.Function) bool
	// Load is called for loads of unknown memory; nil means opaque.
	Load(e *Engine, s *State, instr ssa.Instruction, key string, t types.Type) []Outcome
	// Instr is called before each instruction is interpreted; returning false ends the path
	Instr(e *Engine, s *State, instr ssa.Instruction) bool
	// Compare may decide (or annotate) comparisons of two known non-nil values
	Compare(e *Engine, s *State, op *ssa.BinOp, x, y Val) []Outcome
	// FrameExit is called when a function (inlined or root) returns
	FrameExit(e *Engine, s *State, f *Frame, instr *ssa.Return, res []Val)
	// Exit is called when a path ends
	Exit(e *Engine, s *State, kind ExitKind, instr ssa.Instruction, res []Val)
}

// BaseClient provides defaults.
type BaseClient struct{}

func (BaseClient) Call(*Engine, *State, *CallSite) ([]Outcome, bool)                   { return nil, false }
func (BaseClient) Opaque(*Engine, *State, *CallSite, []Val) []Outcome                  { return nil }
func (BaseClient) Inline(*Engine, *State, *CallSite, *ssa.Function) bool               { return false }
func (BaseClient) Load(*Engine, *State, ssa.Instruction, string, types.Type) []Outcome { return nil }
func (BaseClient) Instr(*Engine, *State, ssa.Instruction) bool                         { return true }

// Orderer decides comparisons of order
type Orderer interface {
	Order(e *Engine, s *State, op *ssa.BinOp, x, y Val) []Outcome
}

func (BaseClient) Compare(*Engine, *State, *ssa.BinOp, Val, Val) []Outcome { return nil }
func (BaseClient) FrameExit(*Engine, *State, *Frame, *ssa.Return, []Val)   {}
func (BaseClient) Exit(*Engine, *State, ExitKind, ssa.Instruction, []Val)  {}

// Engine explores the paths of one root.
type Engine struct {
	W      *World
	C      Client
	seen   map[[2]uint64]bool
	joiner Joiner
	joined map[[2]uint64]*joinPart
	work   []*State
	Steps  int
	States int
	Max    int
	Over   bool
	// InlineGo makes the bodies of started goroutines part of the path
	InlineGo bool
	MaxDepth int
	// UnrollLen follows loops over slices of known length element by element
	UnrollLen bool
	// Recur is how often a function may be entered again while it is active
	Recur  int
	skipGo bool
	// Strings keeps track of how strings are put together
	Strings bool
	// KeepGlobals remembers what package variables were set to
	KeepGlobals bool
	// KeepFacts remembers relations between values that no longer exist
	KeepFacts bool
	// Numbers follows small numbers that change in a loop
	Numbers bool
	// Params gives parameters of the root a known value
	Params map[string]Val
	// Special may interpret an instruction in place of the engine
	Special func(e *Engine, s *State, instr ssa.Instruction) bool
	// RootID names the frame of the root
	RootID string
	// what texts looked like at places that put them together
	strSeen map[string]map[string]bool
	strMix  map[string]map[string]bool
}

func NewEngine(w *World, c Client) *Engine {
	return &Engine{W: w, C: c, Max: 3_000_000, InlineGo: true, MaxDepth: 14, UnrollLen: true}
}

// Run explores fn. init may prepare the initial state.
func (e *Engine) Run(fn *ssa.Function, init func(*State)) {
	e.seen = map[[2]uint64]bool{}
	e.joined = map[[2]uint64]*joinPart{}
	e.joiner, _ = e.C.(Joiner)
	e.work = nil
	s := &State{mem: map[string]Val{}, facts: map[string]string{}, D: map[string]string{}}
	if e.RootID == "" {
		e.RootID = "r"
	}
	f := &Frame{fn: fn, id: e.RootID, env: map[ssa.Value]Val{}, block: fn.Blocks[0]}
	for _, p := range fn.Params {
		f.env[p] = opaque(e.RootID + ":" + p.Name() + ";")
		if v, ok := e.Params[p.Name()]; ok {
			f.env[p] = v
		}
	}
	for _, p := range fn.FreeVars {
		f.env[p] = Val{K: KPtr, S: "*fv:" + p.Name() + ";"}
		if _, ok := p.Type().Underlying().(*types.Pointer); !ok {
			f.env[p] = opaque("fv:" + p.Name() + ";")
		}
	}
	s.frames = []*Frame{f}
	if init != nil {
		init(s)
	}
	defer e.debugSteps(fn)
	e.work = append(e.work, s)
	for len(e.work) > 0 {
		n := len(e.work) - 1
		st := e.work[n]
		e.work = e.work[:n]
		e.States++
		e.run(st)
		if e.Steps > e.Max {
			e.Over = true
			return
		}
	}
}

func (e *Engine) push(s *State) { e.work = append(e.work, s) }

// Joiner is implemented by clients that join parts of their state at merge
// points instead of keeping the states apart
type Joiner interface {
	Joined(d string) bool                             // entry d of D is joined
	Join(old map[string]string, s *State) (more bool) // join old into s; false if s adds nothing
}

// joinPart is what was joined at a merge point so far
type joinPart struct {
	mem      map[string]Val
	facts, D map[string]string
}

func partOf(s *State) *joinPart {
	return &joinPart{mem: maps.Clone(s.mem), facts: maps.Clone(s.facts), D: maps.Clone(s.D)}
}

// pinned: a cell with this value keeps states apart
func pinned(v Val) bool { return v.K == KPtr || v.K == KFunc }

// join forgets the facts and plain values in which s differs from what came before
func (p *joinPart) join(s *State) (more bool) {
	for k, v := range s.facts {
		if p.facts[k] != v {
			delete(s.facts, k)
		}
	}
	for k, v := range s.mem {
		if o, ok := p.mem[k]; (!ok || o.String() != v.String()) && !pinned(v) {
			s.mem[k] = opaque("join:" + k)
		}
	}
	for k := range p.facts {
		if _, ok := s.facts[k]; !ok {
			more = true
		}
	}
	for k, v := range p.mem {
		if pinned(v) {
			continue
		}
		if o, ok := s.mem[k]; !ok {
			j := opaque("join:" + k)
			s.mem[k] = j
			if j.String() != v.String() {
				more = true
			}
		} else if o.String() != v.String() {
			more = true
		}
	}
	for k := range s.mem {
		if _, ok := p.mem[k]; !ok {
			more = true
		}
	}
	return more
}

// key computes the merge key of a state
func (s *State) key(j Joiner) [2]uint64 {
	h1, h2 := fnv.New64a(), fnv.New64()
	w := func(x string) { h1.Write([]byte(x)); h2.Write([]byte(x)); h1.Write([]byte{0}); h2.Write([]byte{1}) }
	var tmp []string
	for _, f := range s.frames {
		w(f.id)
		w(fmt.Sprintf("%p/%d/%d/%d/%v", f.fn, f.block.Index, f.idx, f.stage, f.async))
		tmp = tmp[:0]
		for k, v := range f.env {
			tmp = append(tmp, k.Name()+"="+v.String())
		}
		sort.Strings(tmp)
		for _, t := range tmp {
			w(t)
		}
		for _, d := range f.defers {
			w(fmt.Sprintf("d%p", d.instr))
			w(d.fn.String())
			for _, a := range d.args {
				w(a.String())
			}
		}
		for _, a := range f.argRes {
			w(a.String())
		}
	}
	for i, m := range []map[string]string{s.facts, s.D} {
		if i == 0 && j != nil {
			continue
		}
		tmp = tmp[:0]
		for k, v := range m {
			if i == 1 && j != nil && j.Joined(k) {
				continue
			}
			tmp = append(tmp, k+"="+v)
		}
		sort.Strings(tmp)
		for _, t := range tmp {
			w(t)
		}
		w("|")
	}
	tmp = tmp[:0]
	for k, v := range s.mem {
		if j != nil && !pinned(v) {
			continue
		}
		tmp = append(tmp, k+"="+v.String())
	}
	sort.Strings(tmp)
	for _, t := range tmp {
		w(t)
	}
	return [2]uint64{h1.Sum64(), h2.Sum64()}
}

// gc drops facts and cells that nothing refers to any more
func (s *State) gc(globals, facts bool) {
	var b strings.Builder
	for _, f := range s.frames {
		for _, v := range f.env {
			b.WriteString(v.String())
			b.WriteByte(' ')
		}
		for _, d := range f.defers {
			b.WriteString(d.fn.String())
			for _, a := range d.args {
				b.WriteString(a.String())
			}
		}
		for _, a := range f.argRes {
			b.WriteString(a.String())
		}
	}
	for k, v := range s.D {
		b.WriteString(k)
		b.WriteByte(' ')
		b.WriteString(v)
		b.WriteByte(' ')
	}
	live := map[string]bool{}
	for changed := true; changed; {
		changed = false
		txt := b.String()
		for k, v := range s.mem {
			if live[k] {
				continue
			}
			r := rootOf(k)
			if globals && strings.HasPrefix(r, "g:") || strings.Contains(txt, r) {
				live[k] = true
				changed = true
				b.WriteString(v.String())
				b.WriteByte(' ')
			}
		}
	}
	for k := range s.mem {
		if !live[k] {
			delete(s.mem, k)
		}
	}
	if facts {
		return
	}
	txt := b.String()
	for k := range s.facts {
		if strings.Contains(k, "*fv:") || strings.Contains(k, "*g:") {
			continue
		}
		if rel, ok := strings.CutPrefix(k, "c:"); ok {
			// a relation between two values: useless once one of them is gone
			_, ops, _ := strings.Cut(rel, ":")
			for _, op := range strings.Split(ops, "|") {
				if !liveOperand(op, txt) {
					delete(s.facts, k)
					break
				}
			}
			continue
		}
		ok := false
		for _, id := range strings.SplitAfter(k, ";") {
			if len(id) > 1 && strings.Contains(txt, id) {
				ok = true
				break
			}
		}
		if !ok {
			delete(s.facts, k)
		}
	}
}

// liveOperand says that the value named in a relation still exists
func liveOperand(op, txt string) bool {
	if strings.HasPrefix(op, "c(") || strings.HasPrefix(op, "nn(") || op == "nil" || op == "true" || op == "false" {
		return true
	}
	for {
		in, ok := strings.CutPrefix(op, "olen(")
		if !ok {
			break
		}
		op = strings.TrimSuffix(in, ");")
	}
	op = strings.TrimLeft(op, "o&")
	if strings.HasPrefix(op, "c(") || len(op) < 2 {
		return true
	}
	return strings.Contains(txt, op)
}

// rootOf returns the root id of a memory key (everything up to and including the first ';')
func rootOf(k string) string {
	k = strings.TrimLeft(k, "*")
	if i := strings.IndexByte(k, ';'); i >= 0 {
		return k[:i+1]
	}
	return k
}

// ---- liveness

var liveCache = map[*ssa.Function][]map[ssa.Value]bool{}

func liveIn(fn *ssa.Function) []map[ssa.Value]bool {
	if l, ok := liveCache[fn]; ok {
		return l
	}
	n := len(fn.Blocks)
	in := make([]map[ssa.Value]bool, n)
	for i := range in {
		in[i] = map[ssa.Value]bool{}
	}
	track := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin, nil:
			return false
		}
		return true
	}
	for changed := true; changed; {
		changed = false
		for bi := n - 1; bi >= 0; bi-- {
			b := fn.Blocks[bi]
			out := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range in[s.Index] {
					out[v] = true
				}
				// phi uses on this edge
				pi := -1
				for i, p := range s.Preds {
					if p == b {
						pi = i
					}
					if pi >= 0 && p == b {
						for _, ins := range s.Instrs {
							phi, ok := ins.(*ssa.Phi)
							if !ok {
								break
							}
							if track(phi.Edges[i]) {
								out[phi.Edges[i]] = true
							}
						}
					}
				}
			}
			for i := len(b.Instrs) - 1; i >= 0; i-- {
				ins := b.Instrs[i]
				if v, ok := ins.(ssa.Value); ok {
					delete(out, v)
				}
				if _, ok := ins.(*ssa.Phi); ok {
					continue
				}
				var ops []*ssa.Value
				for _, op := range ins.Operands(ops) {
					if *op != nil && track(*op) {
						out[*op] = true
					}
				}
			}
			for v := range out {
				if !in[bi][v] {
					in[bi][v] = true
					changed = true
				}
			}
		}
	}
	liveCache[fn] = in
	return in
}

// ---- evaluation

func (e *Engine) eval(s *State, v ssa.Value) Val {
	return e.evalIn(s, s.top(), v)
}

func (e *Engine) evalIn(s *State, f *Frame, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			if isNilable(v.Type()) {
				return Val{K: KNil}
			}
			return Val{K: KConst, S: "zero:" + v.Type().String()}
		}
		if v.Value.Kind() == constant.Bool {
			return boolVal(constant.BoolVal(v.Value))
		}
		return Val{K: KConst, S: v.Value.ExactString()}
	case *ssa.Global:
		return Val{K: KPtr, S: "*g:" + v.String() + ";"}
	case *ssa.Function:
		return Val{K: KFunc, Fn: v}
	case *ssa.Builtin:
		return opaque("builtin:" + v.Name() + ";")
	}
	if x, ok := f.env[v]; ok {
		return e.refine(s, x)
	}
	return opaque(f.id + ":" + v.Name() + ";")
}

// errVal keeps the knowledge that an error is not nil with the value itself
func (e *Engine) errVal(s *State, v ssa.Value, x Val) Val {
	if x.K == KOpaque && s.facts[x.S] == "nonnil" && isErrorType(v.Type()) {
		return Val{K: KNonNil, S: "some error"}
	}
	return x
}

func (e *Engine) refine(s *State, v Val) Val {
	if v.K == KOpaque {
		switch s.facts[v.S] {
		case "nil":
			return Val{K: KNil}
		case "t":
			return boolVal(true)
		case "f":
			return boolVal(false)
		}
	}
	return v
}

// isNil returns 1 (nil), 0 (not nil), -1 (unknown)
func (s *State) isNil(v Val) int {
	switch v.K {
	case KNil:
		return 1
	case KNonNil, KPtr, KFunc, KBool, KConst, KErrs, KStr:
		return 0
	case KOpaque:
		switch s.facts[v.S] {
		case "nil":
			return 1
		case "nonnil":
			return 0
		}
	}
	return -1
}

func isNilable(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil
	}
	return false
}

func (s *State) setMem(k string, v Val) {
	if strings.HasSuffix(k, "[*]") {
		// weak update: never forget a non-nil element
		if old, ok := s.mem[k]; ok && s.isNil(old) == 0 && s.isNil(v) != 0 {
			return
		}
	}
	for m := range s.mem {
		if len(m) > len(k) && strings.HasPrefix(m, k) && (m[len(k)] == '.' || m[len(k)] == '[') {
			delete(s.mem, m)
		}
	}
	s.mem[k] = v
}

// redefine forgets everything known about id
func (s *State) redefine(id string) {
	for k := range s.facts {
		if strings.Contains(k, id) {
			delete(s.facts, k)
		}
	}
	for k := range s.mem {
		if strings.Contains(k, id) && rootOf(k) == strings.TrimLeft(id, "*") {
			delete(s.mem, k)
		}
	}
}

// parentKey splits "a.b" into ("a", ".b")
func parentKey(k string) (string, string, bool) {
	for i := len(k) - 1; i > 0; i-- {
		switch k[i] {
		case '.', '[':
			return k[:i], k[i:], true
		case ';':
			return "", "", false
		}
	}
	return "", "", false
}

// load returns the value at cell k; known=false when nothing is known
func (e *Engine) load(s *State, k string, t types.Type) (v Val, known bool) {
	return e.loadAt(s, k, t, 0)
}

func (e *Engine) loadAt(s *State, k string, t types.Type, depth int) (v Val, known bool) {
	if v, ok := s.mem[k]; ok {
		return e.refine(s, v), true
	}
	// element of an array of which a variable index was stored
	suffix := ""
	p := k
	for {
		q, sfx, ok := parentKey(p)
		if !ok {
			break
		}
		suffix = sfx + suffix
		p = q
		if pv, ok := s.mem[p]; ok {
			switch pv.K {
			case KOpaque:
				nk := pv.S + suffix
				if v, ok := s.mem[nk]; ok {
					return e.refine(s, v), true
				}
				if depth < 6 {
					return e.loadAt(s, nk, t, depth+1)
				}
				return e.refine(s, opaque("*"+nk+";")), false
			case KConst:
				return zeroVal(t), true
			}
		}
	}
	if i := strings.LastIndexByte(k, '['); i > 0 && k[len(k)-1] == ']' {
		base := k[:i]
		if k[i:] == "[*]" {
			// any element: a non-nil one, if there is one
			found := false
			for m, mv := range s.mem {
				if strings.HasPrefix(m, base+"[") && !strings.ContainsAny(m[len(base)+1:len(m)-1], "[].") {
					found = true
					if s.isNil(mv) == 0 {
						return mv, true
					}
				}
			}
			_ = found
		} else if mv, ok := s.mem[base+"[*]"]; ok {
			if s.isNil(mv) == 0 {
				return mv, true
			}
		}
	}
	if strings.HasPrefix(k, "a!") { // local allocation: zero initialised
		return zeroVal(t), true
	}
	return e.refine(s, opaque("*"+k+";")), false
}

func zeroVal(t types.Type) Val {
	if isNilable(t) {
		return Val{K: KNil}
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return boolVal(false)
		case b.Info()&types.IsString != 0:
			return Val{K: KConst, S: `""`}
		case b.Info()&types.IsNumeric != 0:
			return Val{K: KConst, S: "0"}
		}
	}
	return Val{K: KConst, S: "zero:" + t.String()}
}

func (e *Engine) addr(s *State, v Val) (string, bool) {
	switch v.K {
	case KPtr:
		return v.S, true
	case KOpaque:
		return "*" + v.S, true
	case KNonNil:
		return "*nn:" + v.S + ";", true
	}
	return "", false
}

func fieldName(t types.Type, i int) string {
	t = t.Underlying()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem().Underlying()
	}
	if tp, ok := t.(*types.Struct); ok {
		return tp.Field(i).Name()
	}
	return fmt.Sprint(i)
}

func (e *Engine) set(s *State, v ssa.Value, val Val) { s.top().env[v] = val }

func (e *Engine) fresh(s *State, v ssa.Value) Val {
	id := s.top().id + ":" + v.Name() + ";"
	s.redefine(id)
	return opaque(id)
}

func (e *Engine) run(s *State) {
	for {
		e.Steps++
		if e.Steps > e.Max {
			return
		}
		f := s.top()
		instr := f.block.Instrs[f.idx]
		if debugTrace != "" && strings.Contains(f.fn.String(), debugTrace) {
			s.traceInstr(instr)
		}
		if f.stage == 0 {
			if !e.C.Instr(e, s, instr) {
				return
			}
		}
		switch ins := instr.(type) {
		case *ssa.Jump:
			if !e.enter(s, f.block.Succs[0]) {
				return
			}
			continue
		case *ssa.If:
			c := e.eval(s, ins.Cond)
			t, fl := e.decide(s, c)
			if t && fl {
				s2 := s.clone()
				s2.note(ins.Cond.Pos(), "false")
				e.assume(s2, c, false)
				if e.enter(s2, s2.top().block.Succs[1]) {
					e.push(s2)
				}
				s.note(ins.Cond.Pos(), "true")
				e.assume(s, c, true)
				if !e.enter(s, f.block.Succs[0]) {
					return
				}
				continue
			}
			if t {
				if !e.enter(s, f.block.Succs[0]) {
					return
				}
			} else {
				if !e.enter(s, f.block.Succs[1]) {
					return
				}
			}
			continue
		case *ssa.Return:
			res := make([]Val, len(ins.Results))
			for i, r := range ins.Results {
				res[i] = e.errVal(s, r, e.eval(s, r))
			}
			e.C.FrameExit(e, s, f, ins, res)
			if len(s.frames) == 1 {
				e.C.Exit(e, s, ExitReturn, ins, res)
				return
			}
			e.pop(s, res)
			continue
		case *ssa.Panic:
			e.C.Exit(e, s, ExitPanic, ins, nil)
			return
		case *ssa.RunDefers:
			if len(f.defers) == 0 {
				f.idx++
				continue
			}
			d := f.defers[len(f.defers)-1]
			if f.stage == 0 {
				f.stage = 1 // do not re-announce this instruction
			}
			cs := e.site(s, d.instr, d.fn, d.args)
			cs.Defer = true
			f.defers = f.defers[:len(f.defers)-1]
			if !e.call(s, cs, contDefer, nil) {
				return
			}
			continue
		case *ssa.Defer:
			fn, args := e.callArgs(s, &ins.Call)
			dup := 0
			for _, d := range f.defers {
				if d.instr == ins {
					dup++
				}
			}
			if dup < 2 {
				f.defers = append(f.defers, deferCall{ins, fn, args})
			}
			f.idx++
			continue
		case *ssa.Go:
			fn, args := e.callArgs(s, &ins.Call)
			cs := e.site(s, ins, fn, args)
			cs.Go = true
			if !e.call(s, cs, contDiscard, nil) {
				return
			}
			continue
		case *ssa.Call:
			fn, args := e.callArgs(s, &ins.Call)
			cs := e.site(s, ins, fn, args)
			if !e.call(s, cs, contAssign, ins) {
				return
			}
			continue
		default:
			outs := e.simple(s, instr)
			if len(outs) > 0 {
				v, _ := instr.(ssa.Value)
				for _, o := range outs[1:] {
					s2 := s.clone()
					if o.Apply != nil {
						o.Apply(s2)
					}
					s2.top().env[v] = o.Val
					s2.top().idx++
					e.push(s2)
				}
				if outs[0].Apply != nil {
					outs[0].Apply(s)
				}
				s.top().env[v] = outs[0].Val
			}
			f.idx++
		}
	}
}

// pop returns from the top frame
func (e *Engine) pop(s *State, res []Val) {
	f := s.top()
	s.frames = s.frames[:len(s.frames)-1]
	p := s.top()
	switch f.cont {
	case contAssign:
		instr := p.block.Instrs[p.idx]
		if v, ok := instr.(ssa.Value); ok {
			s.redefineFacts(p.id + ":" + v.Name() + ";")
			if len(res) == 1 {
				p.env[v] = res[0]
			} else {
				p.env[v] = Val{K: KTuple, T: res}
			}
		}
		p.idx++
		p.stage = 0
	case contDefer:
		// stay at RunDefers
	case contArg:
		// results are examined by the opaque call
		r := Val{K: KTuple, T: res}
		p.argRes = append(p.argRes, r)
	case contDiscard:
		p.idx++
		p.stage = 0
	}
}

func (s *State) redefineFacts(id string) {
	for k := range s.facts {
		if strings.Contains(k, id) {
			delete(s.facts, k)
		}
	}
}

// enter moves to block b; false when an equal state was seen already
func (e *Engine) enter(s *State, b *ssa.BasicBlock) bool {
	f := s.top()
	from := f.block
	pi := -1
	for i, p := range b.Preds {
		if p == from {
			pi = i
			break
		}
	}
	var phis []*ssa.Phi
	var vals []Val
	for _, ins := range b.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, phi)
		v := e.eval(s, phi.Edges[pi])
		vals = append(vals, v)
	}
	for i, phi := range phis {
		id := f.id + ":" + phi.Name() + ";"
		v := vals[i]
		// numbers that change in a loop are not tracked
		if v.K == KConst && !strings.HasPrefix(v.S, `"`) {
			if _, ok := phi.Type().Underlying().(*types.Basic); ok && hasBackEdge(b) && !e.bounded(s, phi) && !e.smallNumber(v) {
				v = opaque(id)
			}
		}
		if v.K == KOpaque && v.S == id {
			s.redefine(id)
		}
		f.env[phi] = v
	}
	f.block = b
	f.idx = len(phis)
	f.stage = 0
	live := liveIn(f.fn)[b.Index]
	for v := range f.env {
		if !live[v] {
			if _, ok := v.(*ssa.Phi); ok && v.(*ssa.Phi).Block() == b {
				continue
			}
			delete(f.env, v)
		}
	}
	if len(b.Preds) > 1 || hasBackEdge(b) {
		s.gc(e.KeepGlobals, e.KeepFacts)
		k := s.key(e.joiner)
		if e.joiner != nil {
			if old, ok := e.joined[k]; ok {
				more := old.join(s)
				if !e.joiner.Join(old.D, s) && !more {
					return false
				}
			}
			e.joined[k] = partOf(s)
			return true
		}
		if e.seen[k] {
			return false
		}
		e.seen[k] = true
	}
	return true
}

func (e *Engine) smallNumber(v Val) bool {
	n, ok := intOf(v)
	return e.Numbers && ok && n >= -64 && n <= 64
}

var boundedCache = map[*ssa.Phi]bool{}

// bounded says that phi counts up to a small number: a constant or (with
// UnrollLen) the known length of a slice of functions or objects
func (e *Engine) bounded(s *State, phi *ssa.Phi) bool {
	if boundedCounter(phi) {
		return true
	}
	if !e.UnrollLen {
		return false
	}
	for _, ed := range phi.Edges {
		add, ok := ed.(*ssa.BinOp)
		if !ok || add.Op != token.ADD || add.X != ssa.Value(phi) {
			continue
		}
		for _, v := range []ssa.Value{phi, add} {
			for _, ref := range *v.Referrers() {
				op, ok := ref.(*ssa.BinOp)
				if !ok || op.X != v || op.Op != token.LSS && op.Op != token.NEQ {
					continue
				}
				c, ok := op.Y.(*ssa.Call)
				if !ok {
					continue
				}
				if b, ok := c.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
					continue
				}
				if _, known := s.top().env[c]; known {
					if n, ok := intOf(e.eval(s, c)); ok && n <= 24 {
						return true
					}
				} else if n, ok := s.lenOf(e.eval(s, c.Call.Args[0])); ok && n <= 24 {
					return true
				}
			}
		}
	}
	return false
}

// lenOf is the length of a slice that was made from a whole array
func (s *State) lenOf(v Val) (int64, bool) {
	if v.K == KNil {
		return 0, true
	}
	if v.K != KPtr {
		return 0, false
	}
	n, ok := s.mem[v.S+"#len"]
	if !ok {
		return 0, false
	}
	return intOf(n)
}

// boundedCounter says that phi counts up to a small constant
// (the index of a loop over an array): its iterations are unrolled.
func boundedCounter(phi *ssa.Phi) bool {
	if r, ok := boundedCache[phi]; ok {
		return r
	}
	r := false
	check := func(v ssa.Value) {
		for _, ref := range *v.Referrers() {
			op, ok := ref.(*ssa.BinOp)
			if !ok || op.X != v {
				continue
			}
			switch op.Op {
			case token.LSS, token.LEQ, token.NEQ:
				if c, ok := op.Y.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
					if n, ok := constant.Int64Val(c.Value); ok && n <= 24 {
						r = true
					}
				}
			}
		}
	}
	if b, ok := phi.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
		check(phi)
		for _, ed := range phi.Edges {
			if add, ok := ed.(*ssa.BinOp); ok && add.Op == token.ADD && add.X == ssa.Value(phi) {
				if c, ok := add.Y.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int && constant.Sign(c.Value) > 0 {
					check(add)
					boundedCache[phi] = r
					return r
				}
			}
		}
		r = false
	}
	boundedCache[phi] = r
	return r
}

func intOf(v Val) (int64, bool) {
	if v.K != KConst {
		return 0, false
	}
	n, err := strconv.ParseInt(v.S, 10, 64)
	return n, err == nil
}

func hasBackEdge(b *ssa.BasicBlock) bool {
	for _, p := range b.Preds {
		if b.Dominates(p) {
			return true
		}
	}
	return false
}

// decide returns which branches are possible
func (e *Engine) decide(s *State, c Val) (t, f bool) {
	switch c.K {
	case KBool:
		return c.N == 1, c.N == 0
	case KCond:
		if strings.HasPrefix(c.S, "nil:") {
			n := s.isNil(opaque(c.S[4:]))
			if n >= 0 {
				r := (n == 1) != (c.N == 1)
				return r, !r
			}
		} else if v, ok := s.facts["c:"+c.S]; ok {
			r := (v == "t") != (c.N == 1)
			return r, !r
		}
	case KOpaque:
		switch s.facts[c.S] {
		case "t":
			return true, false
		case "f":
			return false, true
		}
	}
	return true, true
}

func (e *Engine) assume(s *State, c Val, val bool) {
	switch c.K {
	case KCond:
		if c.N == 1 {
			val = !val
		}
		if strings.HasPrefix(c.S, "nil:") {
			if val {
				s.facts[c.S[4:]] = "nil"
			} else {
				s.facts[c.S[4:]] = "nonnil"
			}
			return
		}
		if val {
			s.facts["c:"+c.S] = "t"
		} else {
			s.facts["c:"+c.S] = "f"
		}
	case KOpaque:
		if val {
			s.facts[c.S] = "t"
		} else {
			s.facts[c.S] = "f"
		}
	}
}

// boundCall is the call that a method value stands for
func boundCall(fn *ssa.Function) *ssa.CallCommon {
	if fn == nil || !strings.HasPrefix(fn.Synthetic, "bound method wrapper") || len(fn.Blocks) == 0 {
		return nil
	}
	for _, ins := range fn.Blocks[0].Instrs {
		if c, ok := ins.(*ssa.Call); ok && (c.Call.IsInvoke() || c.Call.StaticCallee() != nil) {
			return &c.Call
		}
	}
	return nil
}

func (e *Engine) callArgs(s *State, c *ssa.CallCommon) (fn Val, args []Val) {
	if c.IsInvoke() {
		args = append(args, e.eval(s, c.Value))
	} else {
		fn = e.eval(s, c.Value)
	}
	for _, a := range c.Args {
		args = append(args, e.eval(s, a))
	}
	return
}

func (e *Engine) site(s *State, instr ssa.CallInstruction, fn Val, args []Val) *CallSite {
	c := instr.Common()
	cs := &CallSite{Instr: instr, Fn: fn, Args: args, Sig: c.Signature()}
	if c.IsInvoke() {
		cs.Iface = c.Method
		cs.ArgV = append(cs.ArgV, c.Value)
	} else if st := c.StaticCallee(); st != nil {
		cs.Static = origin(st)
	}
	if fn.K == KFunc {
		v := fn
		cs.Closur = &v
		if cs.Static == nil {
			cs.Static = origin(fn.Fn)
		}
	}
	cs.ArgV = append(cs.ArgV, c.Args...)
	if m := boundCall(cs.Static); m != nil && cs.Closur != nil && len(fn.T) > 0 {
		// a method value: its receiver is bound
		cs.Args = append([]Val{fn.T[0]}, cs.Args...)
		cs.ArgV = append([]ssa.Value{c.Value}, cs.ArgV...)
		cs.Closur, cs.Static = nil, nil
		if m.IsInvoke() {
			cs.Iface = m.Method
			cs.Sig, _ = m.Method.Type().(*types.Signature)
		} else {
			cs.Static = origin(m.StaticCallee())
			cs.Sig = m.StaticCallee().Signature
		}
	}
	f := s.top()
	if v, ok := instr.(ssa.Value); ok {
		cs.ResID = f.id + ":" + v.Name() + ";"
	} else {
		cs.ResID = fmt.Sprintf("%s:i%d.%d;", f.id, f.block.Index, f.idx)
	}
	return cs
}

func origin(fn *ssa.Function) *ssa.Function {
	if o := fn.Origin(); o != nil {
		return o
	}
	// bound method and thunk wrappers: use the method itself
	return fn
}

func (e *Engine) finishCall(s *State, kind contKind, v ssa.Value, val Val) {
	f := s.top()
	f.argRes = nil
	switch kind {
	case contAssign:
		if v != nil {
			f.env[v] = val
		}
		f.idx++
		f.stage = 0
	case contDiscard:
		f.idx++
		f.stage = 0
	case contDefer:
		f.stage = 1
	}
}

// call interprets a call; false when the path ended (or was queued)
func (e *Engine) call(s *State, cs *CallSite, kind contKind, v ssa.Value) bool {
	f := s.top()
	if f.stage == 0 || kind == contDefer {
		if v != nil {
			s.redefine(cs.ResID)
		}
	}
	if b, ok := cs.Instr.Common().Value.(*ssa.Builtin); ok && !cs.Instr.Common().IsInvoke() {
		outs, handled := e.C.Call(e, s, cs)
		if handled {
			return e.apply(s, outs, kind, v)
		}
		e.finishCall(s, kind, v, e.builtin(s, b.Name(), cs))
		return true
	}
	if f.stage == 0 || kind == contDefer && len(f.argRes) == 0 {
		outs, handled := e.C.Call(e, s, cs)
		if handled {
			return e.apply(s, outs, kind, v)
		}
		// step into
		fn := cs.Static
		var binds []Val
		if cs.Closur != nil {
			fn = cs.Closur.Fn
			binds = cs.Closur.T
		}
		if fn != nil {
			fn = origin(fn)
		}
		if fn != nil && (kind != contDiscard || e.InlineGo) && e.canInline(s, fn) && e.C.Inline(e, s, cs, fn) {
			e.pushFrame(s, fn, binds, cs.Args, kind)
			return true
		}
	}
	// opaque call: run function arguments once, in order
	if kind != contDefer {
		for f.stage < len(cs.Args) {
			a := cs.Args[f.stage]
			f.stage++
			if a.K == KFunc && a.Fn.Blocks != nil && a.Fn.Parent() != nil && e.canInline(s, origin(a.Fn)) {
				e.pushFrame(s, origin(a.Fn), a.T, nil, contArg)
				return true
			}
		}
	}
	for _, a := range cs.Args {
		if a.K == KPtr && strings.HasPrefix(a.S, "a!") && !strings.HasPrefix(cs.Name(), "(*sync.") {
			s.havoc(a.S, cs.ResID)
		}
	}
	if outs := e.C.Opaque(e, s, cs, f.argRes); outs != nil {
		return e.apply(s, outs, kind, v)
	}
	val := e.opaqueResult(s, cs)
	e.finishCall(s, kind, v, val)
	return true
}

func (s *State) havoc(k, by string) {
	for m := range s.mem {
		if m == k || len(m) > len(k) && strings.HasPrefix(m, k) && (m[len(k)] == '.' || m[len(k)] == '[') {
			delete(s.mem, m)
		}
	}
	s.mem[k] = opaque("h:" + by + k)
}

func (e *Engine) opaqueResult(s *State, cs *CallSite) Val {
	n := cs.Sig.Results().Len()
	if n <= 1 {
		return opaque(cs.ResID)
	}
	t := make([]Val, n)
	for i := range t {
		id := strings.TrimSuffix(cs.ResID, ";") + fmt.Sprintf("#%d;", i)
		s.redefine(id)
		t[i] = opaque(id)
	}
	return Val{K: KTuple, T: t}
}

func (e *Engine) apply(s *State, outs []Outcome, kind contKind, v ssa.Value) bool {
	var live []Outcome
	for _, o := range outs {
		live = append(live, o)
	}
	if len(live) == 0 {
		return false
	}
	instr := s.top().block.Instrs[s.top().idx]
	for _, o := range live[1:] {
		s2 := s.clone()
		if o.Apply != nil {
			o.Apply(s2)
		}
		if o.End {
			e.C.Exit(e, s2, ExitProcess, instr, nil)
			continue
		}
		e.finishCall(s2, kind, v, o.Val)
		e.push(s2)
	}
	o := live[0]
	if o.Apply != nil {
		o.Apply(s)
	}
	if o.End {
		e.C.Exit(e, s, ExitProcess, instr, nil)
		return false
	}
	e.finishCall(s, kind, v, o.Val)
	return true
}

func (e *Engine) canInline(s *State, fn *ssa.Function) bool {
	if fn == nil || fn.Blocks == nil || len(s.frames) >= e.MaxDepth {
		return false
	}
	n := 0
	for _, f := range s.frames {
		if f.fn == fn {
			n++
		}
	}
	return n <= e.Recur
}

func (e *Engine) pushFrame(s *State, fn *ssa.Function, binds, args []Val, kind contKind) {
	p := s.top()
	id := fmt.Sprintf("%s/%d.%d", p.id, p.block.Index, p.idx)
	if kind == contArg {
		id += fmt.Sprintf("a%d", p.stage)
	}
	if kind == contDefer {
		id += fmt.Sprintf("d%d", len(p.defers))
	}
	// forget an earlier activation of the same call
	pre := id
	for k := range s.mem {
		if strings.Contains(k, pre+":") || strings.Contains(k, pre+"/") {
			delete(s.mem, k)
		}
	}
	for k := range s.facts {
		if strings.Contains(k, pre+":") || strings.Contains(k, pre+"/") {
			delete(s.facts, k)
		}
	}
	f := &Frame{fn: fn, id: id, env: map[ssa.Value]Val{}, block: fn.Blocks[0], cont: kind, async: p.async || kind == contDiscard}
	for i, prm := range fn.Params {
		if i < len(args) {
			f.env[prm] = args[i]
		} else {
			f.env[prm] = opaque(id + ":" + prm.Name() + ";")
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(binds) {
			f.env[fv] = binds[i]
		}
	}
	if kind == contAssign || kind == contDiscard {
		p.stage = 1000
	}
	s.frames = append(s.frames, f)
}

func (e *Engine) builtin(s *State, name string, cs *CallSite) Val {
	switch name {
	case "append":
		if len(cs.Args) == 2 {
			if sl, ok := cs.Sig.Results().At(0).Type().Underlying().(*types.Slice); ok && isErrorType(sl.Elem()) {
				return Val{K: KErrs, N: e.errsOf(s, cs.Args[0]) | e.errsOf(s, cs.Args[1])}
			}
		}
	case "len":
		if n, ok := s.lenOf(cs.Args[0]); ok {
			return Val{K: KConst, S: strconv.FormatInt(n, 10)}
		}
		if len(cs.Args) == 1 && e.errsOf(s, cs.Args[0]) == 1 {
			return Val{K: KConst, S: ">=1"}
		}
		if len(cs.Args) == 1 && cs.Args[0].K != KConst {
			return opaque("len(" + cs.Args[0].String() + ");")
		}
	}
	return opaque(cs.ResID)
}

// errsOf returns 1 when the slice value is known to contain a non-nil error
func (e *Engine) errsOf(s *State, v Val) int {
	switch v.K {
	case KErrs:
		return v.N
	case KPtr:
		for m, mv := range s.mem {
			if strings.HasPrefix(m, v.S+"[") && s.isNil(mv) == 0 {
				return 1
			}
		}
	case KOpaque:
		for m, mv := range s.mem {
			if strings.HasPrefix(m, "*"+v.S+"[") && s.isNil(mv) == 0 {
				return 1
			}
		}
	}
	return 0
}

var errorType = types.Universe.Lookup("error").Type()

func isErrorType(t types.Type) bool { return types.Identical(t, errorType) }

// simple interprets a non-call, non-control instruction.
// A non-empty result is a list of alternatives for the value of the instruction.
func (e *Engine) simple(s *State, instr ssa.Instruction) []Outcome {
	f := s.top()
	if e.Special != nil && e.Special(e, s, instr) {
		return nil
	}
	switch ins := instr.(type) {
	case *ssa.Alloc:
		id := "a!" + f.id + ":" + ins.Name() + ";"
		for k := range s.mem {
			if strings.HasPrefix(k, id) {
				delete(s.mem, k)
			}
		}
		e.set(s, ins, Val{K: KPtr, S: id})
	case *ssa.Store:
		v := e.errVal(s, ins.Val, e.eval(s, ins.Val))
		if k, ok := e.addr(s, e.eval(s, ins.Addr)); ok {
			s.setMem(k, v)
		}
	case *ssa.UnOp:
		switch ins.Op {
		case token.MUL:
			a := e.eval(s, ins.X)
			k, ok := e.addr(s, a)
			if !ok {
				e.set(s, ins, e.fresh(s, ins))
				return nil
			}
			if g, ok := ins.X.(*ssa.Global); ok && isErrorType(ins.Type()) {
				e.set(s, ins, Val{K: KNonNil, S: "g:" + g.String()})
				return nil
			}
			if _, isStruct := ins.Type().Underlying().(*types.Struct); isStruct || isArray(ins.Type()) {
				if v, ok := s.mem[k]; ok && !s.hasSub(k) {
					e.set(s, ins, v)
					return nil
				}
				if isID(ins.Type()) && !s.hasSub(k) {
					// a part of something whose value is known as a whole
					if v, _ := e.load(s, k, ins.Type()); v.K == KOpaque {
						e.set(s, ins, v)
						return nil
					}
				}
				v := e.fresh(s, ins)
				if base, ok := s.mem[k]; ok && base.K == KOpaque && base.S != v.S {
					// a copy of which parts were set since
					e.copyParts(s, v.S, base.S, ins.Type())
				} else if nk := s.resolve(k); !ok && nk != k && e.Strings {
					// a part of something whose value is known as a whole
					e.copyParts(s, v.S, nk, ins.Type())
				}
				for m, mv := range s.mem {
					if len(m) > len(k) && strings.HasPrefix(m, k) && (m[len(k)] == '.' || m[len(k)] == '[') {
						s.mem[v.S+m[len(k):]] = mv
					}
				}
				if st, ok := ins.Type().Underlying().(*types.Struct); ok && e.Strings && strings.HasPrefix(k, "a!") {
					if _, whole := s.mem[k]; !whole {
						// what was never set is zero
						for i := 0; i < st.NumFields(); i++ {
							if _, ok := st.Field(i).Type().Underlying().(*types.Basic); !ok && !isErrorType(st.Field(i).Type()) {
								continue
							}
							if _, ok := s.mem[k+"."+st.Field(i).Name()]; !ok {
								s.mem[v.S+"."+st.Field(i).Name()] = zeroVal(st.Field(i).Type())
							}
						}
					}
				}
				if !s.hasSub(k) && !strings.HasPrefix(k, "a!") {
					v = opaque("*" + k + ";")
				}
				e.set(s, ins, v)
				return nil
			}
			v, known := e.load(s, k, ins.Type())
			if !known && strings.Count(k, "*") > 10 {
				// walking along a chain of pointers
				v, known = e.fresh(s, ins), true
			}
			if !known {
				if outs := e.C.Load(e, s, ins, k, ins.Type()); len(outs) > 0 {
					return outs
				}
				s.mem[k] = v
			}
			e.set(s, ins, v)
		case token.NOT:
			v := e.eval(s, ins.X)
			switch v.K {
			case KBool:
				e.set(s, ins, boolVal(v.N == 0))
			case KCond:
				v.N = 1 - v.N
				e.set(s, ins, v)
			case KOpaque:
				e.set(s, ins, Val{K: KCond, S: "b:" + v.S, N: 1})
			default:
				e.set(s, ins, e.fresh(s, ins))
			}
		case token.ARROW:
			v := e.fresh(s, ins)
			if outs := e.C.Load(e, s, ins, "chan", ins.Type()); len(outs) > 0 {
				return outs
			}
			e.set(s, ins, v)
		default:
			e.set(s, ins, e.fresh(s, ins))
		}
	case *ssa.BinOp:
		x, y := e.eval(s, ins.X), e.eval(s, ins.Y)
		cmp := ins
		if e.Strings {
			if str, op, ok := lenTest(ins); ok {
				// a test of the length is a test against the empty text
				c := *ins
				c.Op = op
				cmp = &c
				x, y = e.eval(s, str), strConst("")
			}
		}
		switch cmp.Op {
		case token.EQL, token.NEQ:
			neg := 0
			if cmp.Op == token.NEQ {
				neg = 1
			}
			if y.K == KNil || x.K == KNil {
				o := x
				if x.K == KNil {
					o = y
				}
				if n := s.isNil(o); n >= 0 {
					e.set(s, ins, boolVal((n == 1) != (neg == 1)))
				} else if o.K == KOpaque {
					e.set(s, ins, Val{K: KCond, S: "nil:" + o.S, N: neg})
				} else {
					e.set(s, ins, e.fresh(s, ins))
				}
				return nil
			}
			if x.K == KConst && y.K == KConst {
				if x.S == ">=1" || y.S == ">=1" {
					if x.S == "0" || y.S == "0" {
						e.set(s, ins, boolVal(neg == 1))
						return nil
					}
				} else {
					e.set(s, ins, boolVal((x.S == y.S) != (neg == 1)))
					return nil
				}
			}
			if x.K == KBool && y.K == KBool {
				e.set(s, ins, boolVal((x.N == y.N) != (neg == 1)))
				return nil
			}
			if outs := e.C.Compare(e, s, cmp, x, y); len(outs) > 0 {
				return outs
			}
			if x.K == KBool || y.K == KBool {
				b, o := x, y
				if y.K == KBool {
					b, o = y, x
				}
				if b.N == 0 {
					neg = 1 - neg
				}
				switch o.K {
				case KCond:
					if neg == 1 {
						o.N = 1 - o.N
					}
					e.set(s, ins, o)
				case KOpaque:
					e.set(s, ins, Val{K: KCond, S: "b:" + o.S, N: neg})
				default:
					e.set(s, ins, e.fresh(s, ins))
				}
				return nil
			}
			a, b := x.String(), y.String()
			if a == b && x.K == KOpaque {
				e.set(s, ins, boolVal(neg == 0))
				return nil
			}
			if a > b {
				a, b = b, a
			}
			e.set(s, ins, Val{K: KCond, S: "eq:" + a + "|" + b, N: neg})
		case token.GTR, token.LSS, token.GEQ, token.LEQ:
			if o, ok := e.C.(Orderer); ok {
				if outs := o.Order(e, s, ins, x, y); len(outs) > 0 {
					return outs
				}
			}
			if a, ok := intOf(x); ok {
				if b, ok := intOf(y); ok {
					var r bool
					switch ins.Op {
					case token.GTR:
						r = a > b
					case token.LSS:
						r = a < b
					case token.GEQ:
						r = a >= b
					case token.LEQ:
						r = a <= b
					}
					e.set(s, ins, boolVal(r))
					return nil
				}
				if y.K == KConst && y.S == ">=1" && (ins.Op == token.LSS && a < 1 || ins.Op == token.LEQ && a <= 1) {
					e.set(s, ins, boolVal(true))
					return nil
				}
			}
			if x.S == ">=1" && x.K == KConst && y.K == KConst {
				if ins.Op == token.GTR && y.S == "0" || ins.Op == token.GEQ && y.S == "1" {
					e.set(s, ins, boolVal(true))
					return nil
				}
				if ins.Op == token.LSS && y.S == "1" || ins.Op == token.LEQ && y.S == "0" {
					e.set(s, ins, boolVal(false))
					return nil
				}
			}
			op, neg, a, b := ins.Op, 0, x.String(), y.String()
			switch op {
			case token.GTR: // a>b == b<a
				a, b = b, a
			case token.GEQ: // a>=b == !(a<b)
				neg = 1
			case token.LEQ: // a<=b == !(b<a)
				a, b = b, a
				neg = 1
			}
			e.set(s, ins, Val{K: KCond, S: "lt:" + a + "|" + b, N: neg})
		case token.ADD, token.SUB:
			if e.Strings && isString(ins.Type()) {
				e.set(s, ins, e.grow(s, ins, x, y))
				return nil
			}
			a, ok1 := intOf(x)
			b, ok2 := intOf(y)
			phi, isPhi := ins.X.(*ssa.Phi)
			if ok1 && ok2 && isPhi && e.bounded(s, phi) {
				if ins.Op == token.SUB {
					b = -b
				}
				e.set(s, ins, Val{K: KConst, S: strconv.FormatInt(a+b, 10)})
				return nil
			}
			e.set(s, ins, e.fresh(s, ins))
		default:
			e.set(s, ins, e.fresh(s, ins))
		}
	case *ssa.ChangeInterface:
		e.set(s, ins, e.eval(s, ins.X))
	case *ssa.ChangeType:
		e.set(s, ins, e.eval(s, ins.X))
	case *ssa.Convert:
		v := e.eval(s, ins.X)
		if v.K == KConst || v.K == KOpaque || v.K == KStr {
			e.set(s, ins, v)
		} else {
			e.set(s, ins, e.fresh(s, ins))
		}
	case *ssa.MakeInterface:
		v := e.eval(s, ins.X)
		if s.isNil(v) != 0 || v.K == KConst || v.K == KBool {
			if isErrorType(ins.Type()) {
				v = Val{K: KNonNil, S: "mk:" + ins.X.Type().String()}
			} else if v.K == KOpaque {
				// keep identity
			}
		}
		e.set(s, ins, v)
	case *ssa.MakeClosure:
		v := Val{K: KFunc, Fn: ins.Fn.(*ssa.Function)}
		for _, b := range ins.Bindings {
			v.T = append(v.T, e.eval(s, b))
		}
		e.set(s, ins, v)
	case *ssa.MakeChan, *ssa.MakeMap, *ssa.MakeSlice:
		v := e.fresh(s, ins.(ssa.Value))
		s.facts[v.S] = "nonnil"
		e.set(s, ins.(ssa.Value), v)
	case *ssa.Extract:
		t := e.eval(s, ins.Tuple)
		if t.K == KTuple && ins.Index < len(t.T) {
			e.set(s, ins, e.refine(s, t.T[ins.Index]))
		} else {
			id := t.S
			if id == "" {
				id = f.id + ":" + ins.Tuple.Name() + ";"
			}
			e.set(s, ins, e.refine(s, opaque(strings.TrimSuffix(id, ";")+fmt.Sprintf("#%d;", ins.Index))))
		}
	case *ssa.FieldAddr:
		b := e.eval(s, ins.X)
		if k, ok := e.addr(s, b); ok {
			e.set(s, ins, Val{K: KPtr, S: k + "." + fieldName(ins.X.Type(), ins.Field)})
		} else {
			e.set(s, ins, e.fresh(s, ins))
		}
	case *ssa.Field:
		b := e.eval(s, ins.X)
		k := b.S
		if b.K == KOpaque {
			fk := k + "." + fieldName(ins.X.Type(), ins.Field)
			v, known := e.load(s, fk, ins.Type())
			if !known {
				if outs := e.C.Load(e, s, ins, fk, ins.Type()); len(outs) > 0 {
					return outs
				}
				s.mem[fk] = v
			}
			e.set(s, ins, v)
		} else if b.K == KConst {
			e.set(s, ins, zeroVal(ins.Type()))
		} else {
			e.set(s, ins, e.fresh(s, ins))
		}
	case *ssa.IndexAddr:
		b := e.eval(s, ins.X)
		if b.K == KErrs {
			if b.N == 1 {
				k := "errs:" + f.id + ":" + ins.Name() + ";"
				s.mem[k] = Val{K: KNonNil, S: "element"}
				e.set(s, ins, Val{K: KPtr, S: k})
			} else {
				k := "errs0:" + f.id + ":" + ins.Name() + ";"
				s.mem[k] = Val{K: KNil}
				e.set(s, ins, Val{K: KPtr, S: k})
			}
			return nil
		}
		if k, ok := e.addr(s, b); ok {
			e.set(s, ins, Val{K: KPtr, S: k + e.index(s, ins.Index)})
		} else if b.K == KOpaque && e.Strings && (strings.HasPrefix(b.S, "bag:{") || strings.HasPrefix(b.S, "fn:")) {
			// an element of a list of texts
			e.set(s, ins, Val{K: KPtr, S: b.S + e.index(s, ins.Index)})
		} else {
			e.set(s, ins, e.fresh(s, ins))
		}
	case *ssa.Index:
		b := e.eval(s, ins.X)
		if b.K == KOpaque {
			v, _ := e.load(s, b.S+e.index(s, ins.Index), ins.Type())
			e.set(s, ins, v)
		} else {
			e.set(s, ins, e.fresh(s, ins))
		}
	case *ssa.Slice:
		b := e.eval(s, ins.X)
		if lo, hi, n, ok := partOfArray(ins); ok && b.K == KPtr {
			id := "a!" + f.id + ":" + ins.Name() + ";"
			s.redefine(strings.TrimPrefix(id, "a!"))
			for i := lo; i < hi && i < n; i++ {
				k := fmt.Sprintf("%s[%d]", b.S, i)
				if v, ok := s.mem[k]; ok {
					s.mem[fmt.Sprintf("%s[%d]", id, i-lo)] = v
				} else if v, ok := s.mem[b.S+"[*]"]; ok {
					s.mem[id+"[*]"] = v
				}
			}
			e.set(s, ins, Val{K: KPtr, S: id})
			return nil
		}
		if e.UnrollLen && b.K == KPtr && ins.Low == nil && ins.High == nil {
			if p, ok := ins.X.Type().Underlying().(*types.Pointer); ok {
				if a, ok := p.Elem().Underlying().(*types.Array); ok && a.Len() <= 24 {
					switch a.Elem().Underlying().(type) {
					case *types.Signature, *types.Interface, *types.Pointer, *types.Struct:
						s.mem[b.S+"#len"] = Val{K: KConst, S: strconv.FormatInt(a.Len(), 10)}
					default:
						if e.Strings && isString(a.Elem()) {
							s.mem[b.S+"#len"] = Val{K: KConst, S: strconv.FormatInt(a.Len(), 10)}
						}
					}
				}
			}
		}
		if b.K == KPtr || b.K == KErrs || b.K == KOpaque && ins.Low == nil && ins.High == nil {
			e.set(s, ins, b)
		} else {
			e.set(s, ins, e.fresh(s, ins))
		}
	case *ssa.TypeAssert:
		v := e.eval(s, ins.X)
		if ins.CommaOk {
			id := f.id + ":" + ins.Name()
			s.redefine(id + "#1;")
			e.set(s, ins, Val{K: KTuple, T: []Val{v, opaque(id + "#1;")}})
		} else {
			e.set(s, ins, v)
		}
	case *ssa.Lookup, *ssa.Next, *ssa.Select:
		v := ins.(ssa.Value)
		if lk, ok := ins.(*ssa.Lookup); ok && e.Strings {
			// the same entry of the same map, whenever it is read
			m, k := e.eval(s, lk.X), e.eval(s, lk.Index)
			if c, isC := constStr(k); isC {
				if x, ok := s.mem[mapCell(m, c)]; ok && !lk.CommaOk {
					e.set(s, v, x)
					return nil
				}
			}
			t := term("lookup", m, k)
			if lk.CommaOk {
				e.set(s, v, Val{K: KTuple, T: []Val{e.refine(s, opaque(t.S+"#0;")), e.refine(s, opaque(t.S+"#1;"))}})
			} else {
				e.set(s, v, e.refine(s, t))
			}
			return nil
		}
		id := f.id + ":" + v.Name()
		s.redefine(id + ";")
		if t, ok := v.Type().(*types.Tuple); ok {
			tv := Val{K: KTuple}
			for i := 0; i < t.Len(); i++ {
				eid := fmt.Sprintf("%s#%d;", id, i)
				s.redefine(eid)
				tv.T = append(tv.T, opaque(eid))
			}
			e.set(s, v, tv)
		} else {
			e.set(s, v, opaque(id+";"))
		}
	case *ssa.MapUpdate:
		if e.Strings {
			if c, ok := constStr(e.eval(s, ins.Key)); ok {
				if m := e.eval(s, ins.Map); m.K == KOpaque {
					s.mem[mapCell(m, c)] = e.eval(s, ins.Value)
				}
			}
		}
	case *ssa.Send, *ssa.DebugRef:
	case ssa.Value:
		e.set(s, ins, e.fresh(s, ins))
	}
	return nil
}

// partOfArray recognises a slice of a proper part of an array of errors
func partOfArray(ins *ssa.Slice) (lo, hi, n int64, ok bool) {
	p, isP := ins.X.Type().Underlying().(*types.Pointer)
	if !isP {
		return
	}
	a, isA := p.Elem().Underlying().(*types.Array)
	if !isA || !isErrorType(a.Elem()) {
		return
	}
	n = a.Len()
	hi = n
	if c, isC := ins.Low.(*ssa.Const); isC && c.Value != nil {
		lo = c.Int64()
	}
	if c, isC := ins.High.(*ssa.Const); isC && c.Value != nil {
		hi = c.Int64()
	}
	return lo, hi, n, lo > 0 || hi < n
}

// copyParts copies what is known about the parts of the value at one place to another
func (e *Engine) copyParts(s *State, to, from string, t types.Type) {
	for m, mv := range s.mem {
		if len(m) > len(from) && strings.HasPrefix(m, from) && (m[len(from)] == '.' || m[len(from)] == '[') {
			s.mem[to+m[len(from):]] = mv
		}
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		sub := "." + st.Field(i).Name()
		t := st.Field(i).Type()
		_, isStruct := t.Underlying().(*types.Struct)
		if _, ok := s.mem[to+sub]; !ok && !s.hasSub(to+sub) && (isID(t) || !isStruct && !isArray(t)) {
			x, _ := e.load(s, from+sub, t)
			s.mem[to+sub] = x
		}
	}
}

// resolve follows values that were copied as a whole to where their parts are kept
func (s *State) resolve(k string) string {
	for n := 0; n < 6; n++ {
		suffix, p, found := "", k, false
		for {
			q, sfx, ok := parentKey(p)
			if !ok {
				break
			}
			suffix, p = sfx+suffix, q
			if pv, ok := s.mem[p]; ok {
				if pv.K == KOpaque {
					k, found = pv.S+suffix, true
				}
				break
			}
		}
		if !found {
			break
		}
	}
	return k
}

// isID: a named struct around an array of bytes, which is handled like a single value
func isID(t types.Type) bool {
	st, ok := t.Underlying().(*types.Struct)
	if _, named := t.(*types.Named); !ok || !named || st.NumFields() != 1 {
		return false
	}
	a, ok := st.Field(0).Type().Underlying().(*types.Array)
	if !ok {
		return false
	}
	b, ok := a.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

func isArray(t types.Type) bool {
	_, ok := t.Underlying().(*types.Array)
	return ok
}

func (s *State) hasSub(k string) bool {
	for m := range s.mem {
		if len(m) > len(k) && strings.HasPrefix(m, k) && (m[len(k)] == '.' || m[len(k)] == '[') {
			return true
		}
	}
	return false
}

func (e *Engine) index(s *State, v ssa.Value) string {
	x := e.eval(s, v)
	if x.K == KConst {
		return "[" + x.S + "]"
	}
	return "[*]"
}

// Trace renders the decisions taken on a path
func (e *Engine) Trace(s *State) string {
	var out []string
	for n := s.trace; n != nil && len(out) < 12; n = n.prev {
		if !n.pos.IsValid() {
			continue
		}
		out = append(out, fmt.Sprintf("%s(%s)", e.W.pos(n.pos), n.what))
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return strings.Join(out, " -> ")
}

// lenTest recognises comparisons that tell if a text is empty
func lenTest(b *ssa.BinOp) (str ssa.Value, op token.Token, ok bool) {
	c, isCall := b.X.(*ssa.Call)
	n, isC := b.Y.(*ssa.Const)
	o := b.Op
	if !isCall || !isC {
		if c, isCall = b.Y.(*ssa.Call); !isCall {
			return nil, 0, false
		}
		if n, isC = b.X.(*ssa.Const); !isC {
			return nil, 0, false
		}
		switch o {
		case token.GTR:
			o = token.LSS
		case token.LSS:
			o = token.GTR
		case token.GEQ:
			o = token.LEQ
		case token.LEQ:
			o = token.GEQ
		}
	}
	f, isB := c.Call.Value.(*ssa.Builtin)
	if !isB || f.Name() != "len" || !isString(c.Call.Args[0].Type()) || n.Value == nil {
		return nil, 0, false
	}
	v, exact := constant.Int64Val(constant.ToInt(n.Value))
	if !exact {
		return nil, 0, false
	}
	switch {
	case v == 0 && (o == token.EQL || o == token.LEQ), v == 1 && o == token.LSS:
		return c.Call.Args[0], token.EQL, true
	case v == 0 && (o == token.NEQ || o == token.GTR), v == 1 && o == token.GEQ:
		return c.Call.Args[0], token.NEQ, true
	}
	return nil, 0, false
}
