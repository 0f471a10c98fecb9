package main

// Error flow: on every path, a failure that a call reports must reach the
// caller (or be recorded where the caller looks), never be dropped.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type errClient struct {
	BaseClient
	w    *World
	c    *Ctx
	rule string
	root *ssa.Function
	// track limits which callees count as sources of failure (nil: all)
	track func(name string, cs *CallSite) bool
	// exemptRoot paths
	sites     map[ssa.Instruction]string
	inlined   map[*ssa.Function]bool
	recorded  map[string]token.Pos // struct fields errors were recorded in
	mode      int                  // 1: only compute whether the root can fail
	mayFail   bool
	mayFailOf func(*ssa.Function) bool
	hits      map[string]bool
	quiet     bool
	exempt    func(name string, cs *CallSite) bool
	pendFn    map[string]*ssa.Function
}

func (c *errClient) pend(s *State) string { return s.D["pend"] }

func isRepo(fn *ssa.Function) bool {
	if fn == nil {
		return false
	}
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Pkg == nil {
		if obj := f.Object(); obj != nil && obj.Pkg() != nil {
			return isRepoPath(obj.Pkg().Path())
		}
		return false
	}
	return isRepoPath(f.Pkg.Pkg.Path())
}

func isRepoPath(p string) bool { return p == modPath || strings.HasPrefix(p, modPath+"/") }

// errIndex returns the indices of the error results of sig
func errIndex(sig *types.Signature) []int {
	var out []int
	for i := 0; i < sig.Results().Len(); i++ {
		if isErrorType(sig.Results().At(i).Type()) {
			out = append(out, i)
		}
	}
	return out
}

// errField returns the name of a direct error field of a repository struct type
func errField(t types.Type) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !isRepoPath(n.Obj().Pkg().Path()) {
		return ""
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	for i := 0; i < st.NumFields(); i++ {
		if isErrorType(st.Field(i).Type()) && st.Field(i).Exported() {
			return st.Field(i).Name()
		}
	}
	return ""
}

func mentionsError(t types.Type) bool {
	switch u := t.(type) {
	case *types.Pointer:
		return mentionsError(u.Elem())
	case *types.Slice:
		return mentionsError(u.Elem())
	case *types.Array:
		return mentionsError(u.Elem())
	}
	return isErrorType(t)
}

// isIterator says that a type has Next() bool and an error accessor
func iterErrMethod(t types.Type) string {
	if t == nil {
		return ""
	}
	ms := types.NewMethodSet(t)
	if _, ok := t.Underlying().(*types.Interface); !ok {
		if _, ok := t.Underlying().(*types.Pointer); !ok {
			ms = types.NewMethodSet(types.NewPointer(t))
		}
	}
	next := false
	acc := ""
	for i := 0; i < ms.Len(); i++ {
		f, ok := ms.At(i).Obj().(*types.Func)
		if !ok {
			continue
		}
		sig := f.Type().(*types.Signature)
		switch f.Name() {
		case "Next":
			if sig.Params().Len() == 0 && sig.Results().Len() == 1 && types.Identical(sig.Results().At(0).Type(), types.Typ[types.Bool]) {
				next = true
			}
		case "Err", "Error":
			if sig.Params().Len() == 0 && sig.Results().Len() == 1 && isErrorType(sig.Results().At(0).Type()) {
				acc = f.Name()
			}
		}
	}
	if next {
		return acc
	}
	return ""
}

// never fail, or whose failure is not the business of these rules
var errExempt = []string{
	"os.Stat", "os.Lstat", // questions: not being there is an answer
	"fmt.Print", "fmt.Fprint", "(*strings.Builder)", "(*bytes.Buffer)", "(strings.Builder)",
	"net/http.Serve", "net/http.ListenAndServe", "(*net/http.Server)",
	"(net/http.ResponseWriter)", "(hash.Hash)",
}

func exemptCallee(name string) bool {
	for _, x := range errExempt {
		if strings.HasPrefix(name, x) {
			return true
		}
	}
	// releasing is the subject of the resource rules
	i := strings.LastIndexByte(name, '.')
	return name[i+1:] == "Close"
}

func (c *errClient) Inline(e *Engine, s *State, cs *CallSite, fn *ssa.Function) bool {
	if !isRepo(fn) {
		return false
	}
	in := false
	if fn.Parent() != nil {
		in = true
	}
	for i, p := range fn.Params {
		if mentionsError(p.Type()) {
			in = true
		}
		if sig, ok := p.Type().Underlying().(*types.Signature); ok && i < len(cs.Args) && cs.Args[i].K == KFunc {
			if len(errIndex(sig)) > 0 {
				in = true
			}
			for j := 0; j < sig.Params().Len(); j++ {
				if isErrorType(sig.Params().At(j).Type()) {
					in = true
				}
			}
		}
		if i > 0 && iterErrMethod(p.Type()) != "" {
			in = true
		}
	}
	// a function that makes a function that reports errors
	for i, n := 0, fn.Signature.Results().Len(); i < n; i++ {
		if sig, ok := fn.Signature.Results().At(i).Type().Underlying().(*types.Signature); ok && len(errIndex(sig)) > 0 {
			in = true
		}
	}
	if in {
		c.inlined[fn] = true
	}
	return in
}

const failVal = "src:"

func (c *errClient) fail(desc string) Val { return Val{K: KNonNil, S: failVal + desc} }

func (c *errClient) Call(e *Engine, s *State, cs *CallSite) ([]Outcome, bool) {
	if _, ok := cs.Instr.Common().Value.(*ssa.Builtin); ok && !cs.Instr.Common().IsInvoke() {
		return nil, false
	}
	name := cs.Name()
	switch name {
	case "os.Exit":
		v := "1"
		if len(cs.Args) == 1 && cs.Args[0].K == KConst {
			v = cs.Args[0].S
		}
		return []Outcome{{End: true, Apply: func(s *State) { s.D["exit"] = v }}}, true
	case "log.Fatal", "log.Fatalf", "log.Fatalln", "runtime.Goexit":
		return []Outcome{{End: true}}, true
	case "errors.New":
		return []Outcome{{Val: Val{K: KNonNil, S: "new"}}}, true
	case "fmt.Errorf":
		return []Outcome{{Val: Val{K: KNonNil, S: "wrap"}}}, true
	case "errors.Join":
		if len(cs.Args) == 1 {
			if e.errsOf(s, cs.Args[0]) == 1 {
				return []Outcome{{Val: Val{K: KNonNil, S: "join"}}}, true
			}
			if all, ok := e.allNil(s, cs.Args[0]); ok && all {
				return []Outcome{{Val: Val{K: KNil}}}, true
			}
		}
		return []Outcome{{Val: opaque(cs.ResID)}}, true
	case "errors.Is":
		if len(cs.Args) == 2 {
			return c.sentinel(e, s, cs.Args[0], cs.Args[1]), true
		}
	case "(*sync.Once).Do":
		if len(cs.Args) == 2 && cs.Args[1].K == KFunc {
			key := "once:" + cs.Args[0].String()
			if s.D[key] != "" {
				return []Outcome{{Val: opaque(cs.ResID)}}, true
			}
			s.D[key] = "1"
			return nil, false // run it as a function argument
		}
	}
	// handing the failure to something that reports it
	if c.pend(s) != "" {
		for i, a := range cs.Args {
			if a.K == KNonNil && i < len(cs.ArgV) && isErrorType(cs.ArgV[i].Type()) {
				if strings.HasSuffix(name, ".YieldError") || cs.Static == nil && cs.Iface == nil && cs.Closur == nil {
					return []Outcome{{Val: e.opaqueResult(s, cs), Apply: func(s *State) { s.D["rec"] = "1" }}}, true
				}
			}
		}
	}
	// iterator protocol
	if len(cs.Args) > 0 && len(cs.ArgV) > 0 {
		short := name[strings.LastIndexByte(name, '.')+1:]
		if short == "Next" || short == "Err" || short == "Error" {
			if acc := iterErrMethod(cs.ArgV[0].Type()); acc != "" {
				key := "it:" + cs.Args[0].String()
				if short == "Next" {
					c.site(cs.Instr, "iterator")
					out := []Outcome{{Val: boolVal(true)}, {Val: boolVal(false)}}
					if c.pend(s) == "" && c.tracked(name, cs) && !c.ownIterator(cs.ArgV[0]) {
						pos := c.w.pos(cs.Instr.Pos())
						out[1].Apply = func(s *State) { s.D[key] = pos }
					}
					return out, true
				}
				if short == acc && c.pend(s) == "" {
					if s.D[key] == "" {
						return []Outcome{{Val: opaque(cs.ResID)}}, true
					}
					c.site(cs.Instr, "iterator error")
					desc := name
					return []Outcome{
						{Val: Val{K: KNil}, Apply: func(s *State) { delete(s.D, key) }},
						{Val: c.fail(desc), Apply: func(s *State) { delete(s.D, key); c.markPend(s, cs, desc) }},
					}, true
				}
			}
		}
	}
	return nil, false
}

// ownIterator: iterators handed in by the caller stay the caller's business
func (c *errClient) ownIterator(v ssa.Value) bool {
	p, ok := v.(*ssa.Parameter)
	return ok && p.Parent() == c.root
}

func (c *errClient) markPend(s *State, cs *CallSite, desc string) {
	for k := range s.D {
		if strings.HasPrefix(k, "is:") || strings.HasPrefix(k, "cb:") {
			delete(s.D, k)
		}
	}
	for _, a := range cs.Args {
		if a.K == KFunc {
			for _, g := range returnedGlobals(a.Fn) {
				s.D["cb:"+g] = "1"
			}
		}
	}
	s.D["pend"] = desc
	s.D["pos"] = c.w.pos(cs.Instr.Pos())
	s.note(cs.Instr.Pos(), "fails: "+desc)
}

func (c *errClient) site(i ssa.Instruction, what string) {
	if _, ok := c.sites[i]; !ok {
		c.sites[i] = what
	}
}

func (c *errClient) tracked(name string, cs *CallSite) bool {
	return c.track == nil || c.track(name, cs)
}

// allNil says whether every element of the slice is known to be nil
func (e *Engine) allNil(s *State, v Val) (bool, bool) {
	if v.K == KErrs {
		return v.N == 0, v.N == 0
	}
	if v.K != KPtr {
		return false, false
	}
	any := false
	for m, mv := range s.mem {
		if strings.HasPrefix(m, v.S+"[") {
			any = true
			if s.isNil(mv) != 1 {
				return false, true
			}
		}
	}
	return any, any
}

// returnedGlobals lists the sentinel errors a callback returns itself
func returnedGlobals(fn *ssa.Function) []string {
	var out []string
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if r, ok := ins.(*ssa.Return); ok {
				for _, v := range r.Results {
					out = append(out, globalsOf(v, map[ssa.Value]bool{})...)
				}
			}
		}
	}
	return out
}

func globalsOf(v ssa.Value, seen map[ssa.Value]bool) []string {
	if seen[v] {
		return nil
	}
	seen[v] = true
	var out []string
	switch v := v.(type) {
	case *ssa.UnOp:
		if g, ok := v.X.(*ssa.Global); ok && v.Op == token.MUL && isErrorType(v.Type()) {
			out = append(out, g.String())
		}
	case *ssa.Phi:
		for _, e := range v.Edges {
			out = append(out, globalsOf(e, seen)...)
		}
	}
	return out
}

var okSentinels = []string{"leveldb.ErrNotFound", "leveldb/errors.ErrNotFound", "goleveldb/leveldb.ErrNotFound"}

// accepted says that a failure equal to this sentinel is an answer, not a failure
func (c *errClient) accepted(pend, sentinel string) bool {
	if acceptedName(pend, sentinel) {
		return true
	}
	for _, n := range c.reached(c.pendFn[pend]) {
		if acceptedName(n, sentinel) {
			return true
		}
	}
	return false
}

// reached lists the names of everything fn calls, through functions of the repository
func (c *errClient) reached(fn *ssa.Function) []string {
	if fn == nil {
		return nil
	}
	var out []string
	seen := map[*ssa.Function]bool{}
	var walk func(fn *ssa.Function)
	walk = func(fn *ssa.Function) {
		if seen[fn] || !isRepo(fn) {
			return
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if mc, ok := ins.(*ssa.MakeClosure); ok {
					walk(mc.Fn.(*ssa.Function))
				}
				call, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if cc := call.Common(); cc.IsInvoke() {
					out = append(out, cc.Method.FullName())
				} else if st := cc.StaticCallee(); st != nil {
					out = append(out, qualName(st))
					walk(origin(st))
				}
			}
		}
	}
	walk(origin(fn))
	return out
}

func acceptedName(pend, sentinel string) bool {
	if strings.HasSuffix(sentinel, "io.EOF") {
		return true
	}
	if strings.HasSuffix(sentinel, "ErrNotFound") && strings.Contains(sentinel, "leveldb") {
		return strings.Contains(pend, "leveldb")
	}
	if strings.HasSuffix(sentinel, "storages.ErrNoEntity") {
		return strings.HasSuffix(pend, "AddFieldValue") || strings.HasSuffix(pend, "AddChild")
	}
	return false
}

// answers says that the error is an ordinary answer (end of input, no such key), and not a report of a failure
func answers(v Val) bool {
	if v.K != KNonNil || !strings.HasPrefix(v.S, "g:") {
		return false
	}
	for _, n := range []string{"io.EOF", "storages.ErrNoEntity", "ErrNotFound", "igraph.errAborted"} {
		if strings.HasSuffix(v.S, n) {
			return true
		}
	}
	return false
}

// sentinel compares an error with a sentinel
func (c *errClient) sentinel(e *Engine, s *State, x, y Val) []Outcome {
	if s.isNil(x) == 1 {
		return []Outcome{{Val: boolVal(s.isNil(y) == 1)}}
	}
	if x.K == KNonNil && y.K == KNonNil && strings.HasPrefix(y.S, "g:") {
		if strings.HasPrefix(x.S, "g:") {
			return []Outcome{{Val: boolVal(x.S == y.S)}}
		}
		if strings.HasPrefix(x.S, failVal) && (c.accepted(c.pend(s), y.S) || s.D["cb:"+y.S[2:]] != "") {
			is := "is:" + x.S + ":" + y.S
			switch s.D[is] {
			case "t":
				return []Outcome{{Val: boolVal(true)}}
			case "f":
				return []Outcome{{Val: boolVal(false)}}
			}
			return []Outcome{
				{Val: boolVal(true), Apply: func(s *State) { s.D[is] = "t"; delete(s.D, "pend") }},
				{Val: boolVal(false), Apply: func(s *State) { s.D[is] = "f" }},
			}
		}
	}
	return []Outcome{{Val: boolVal(true)}, {Val: boolVal(false)}}
}

func (c *errClient) Compare(e *Engine, s *State, op *ssa.BinOp, x, y Val) []Outcome {
	if !isErrorType(op.X.Type()) {
		return nil
	}
	if y.K == KNonNil && strings.HasPrefix(y.S, "g:") || x.K == KNonNil && strings.HasPrefix(x.S, "g:") {
		if !(y.K == KNonNil && strings.HasPrefix(y.S, "g:")) {
			x, y = y, x
		}
		outs := c.sentinel(e, s, x, y)
		if op.Op == token.NEQ {
			for i := range outs {
				outs[i].Val = boolVal(outs[i].Val.N == 0)
			}
		}
		return outs
	}
	return nil
}

func (c *errClient) Opaque(e *Engine, s *State, cs *CallSite, argRes []Val) []Outcome {
	name := cs.Name()
	idx := errIndex(cs.Sig)
	// a failing callback fails the call
	cbFail := false
	for _, r := range argRes {
		for _, v := range r.T {
			if v.K == KNonNil && (strings.HasPrefix(v.S, failVal) || c.pend(s) != "") {
				cbFail = true
			}
		}
	}
	mk := func(set func(i int) Val) Val {
		v := e.opaqueResult(s, cs)
		if v.K == KTuple {
			for _, i := range idx {
				v.T[i] = set(i)
			}
			return v
		}
		if len(idx) == 1 {
			return set(0)
		}
		return v
	}
	if len(idx) > 0 {
		if cbFail {
			return []Outcome{{Val: mk(func(int) Val { return Val{K: KNonNil, S: "wrap"} })}}
		}
		if c.pend(s) != "" {
			// wrapping
			if cs.Static != nil || cs.Iface == nil {
				for i, a := range cs.Args {
					if a.K == KNonNil && i < len(cs.ArgV) && isErrorType(cs.ArgV[i].Type()) && !isRepo(cs.Static) {
						return []Outcome{{Val: mk(func(int) Val { return Val{K: KNonNil, S: "wrap"} })}}
					}
				}
			}
			return nil
		}
		exempt := exemptCallee(name)
		if c.exempt != nil {
			exempt = c.exempt(name, cs)
		}
		if exempt || !c.tracked(name, cs) || c.locallySafe(e, s, cs) {
			// only one failure at a time: this one is assumed to succeed
			return []Outcome{{Val: mk(func(int) Val { return Val{K: KNil} })}}
		}
		desc := name
		if desc == "" {
			desc = "function value " + cs.Sig.String()
		}
		if cs.Static != nil && isRepo(cs.Static) && cs.Iface == nil {
			if !c.mayFailOf(cs.Static) {
				return []Outcome{{Val: mk(func(int) Val { return Val{K: KNil} })}}
			}
		}
		c.site(cs.Instr, desc)
		if cs.Static != nil && cs.Iface == nil {
			c.pendFn[desc] = cs.Static
		}
		return []Outcome{
			{Val: mk(func(int) Val { return Val{K: KNil} })},
			{Val: mk(func(int) Val { return c.fail(desc) }), Apply: func(s *State) { c.markPend(s, cs, desc) }},
		}
	}
	if c.pend(s) != "" {
		// objects that carry an error
		if cs.Sig.Results().Len() == 1 {
			for i, a := range cs.Args {
				if a.K == KNonNil && i < len(cs.ArgV) && isErrorType(cs.ArgV[i].Type()) {
					switch cs.Sig.Results().At(0).Type().Underlying().(type) {
					case *types.Pointer, *types.Interface, *types.Struct:
						return []Outcome{{Val: Val{K: KNonNil, S: "carrier"}}}
					}
				}
			}
		}
		return nil
	}
	// structs that carry an error
	if cs.Sig.Results().Len() == 1 && c.tracked(name, cs) {
		if f := errField(cs.Sig.Results().At(0).Type()); f != "" {
			c.site(cs.Instr, name)
			key := cs.ResID + "." + f
			if _, ok := cs.Sig.Results().At(0).Type().Underlying().(*types.Pointer); ok {
				key = "*" + key
			}
			v := opaque(cs.ResID)
			return []Outcome{
				{Val: v, Apply: func(s *State) { s.mem[key] = Val{K: KNil} }},
				{Val: v, Apply: func(s *State) { s.mem[key] = Val{K: KNonNil, S: "g:io.EOF"} }},
				{Val: v, Apply: func(s *State) { s.mem[key] = c.fail(name); c.markPend(s, cs, name) }},
			}
		}
	}
	return nil
}

// locallySafe: the call cannot fail because of what was established before it
func (c *errClient) locallySafe(e *Engine, s *State, cs *CallSite) bool {
	if cs.Static == nil || !isRepo(cs.Static) || cs.Iface != nil {
		return false
	}
	if !validatesOnly(cs.Static) {
		return false
	}
	bufs := 0
	for _, a := range cs.ArgV {
		sl, ok := a.Type().Underlying().(*types.Slice)
		if !ok {
			continue
		}
		if b, ok := sl.Elem().Underlying().(*types.Basic); !ok || b.Kind() != types.Uint8 {
			continue
		}
		bufs++
		base := a
		for {
			if sl, ok := base.(*ssa.Slice); ok {
				base = sl.X
				continue
			}
			break
		}
		switch base.(type) {
		case *ssa.MakeSlice, *ssa.Alloc:
			continue // allocated here, with the size the caller chose
		}
		want := "len(" + e.eval(s, base).String() + ")"
		found := false
		for k := range s.facts {
			if strings.Contains(k, want) {
				found = true
			}
		}
		if !found {
			return false
		}
	}
	return bufs > 0
}

// validatesOnly says that fn fails only when it rejects its arguments:
// every error it returns is a fixed one.
func validatesOnly(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			r, ok := ins.(*ssa.Return)
			if !ok {
				continue
			}
			for _, i := range errIndex(fn.Signature) {
				if !fixedError(fn, r.Results[i], map[ssa.Value]bool{}) {
					return false
				}
			}
		}
	}
	return true
}

func fixedError(fn *ssa.Function, v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.UnOp:
		_, ok := v.X.(*ssa.Global)
		return ok && v.Op == token.MUL
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !fixedError(fn, e, seen) {
				return false
			}
		}
		return true
	}
	return false
}

func (c *errClient) Instr(e *Engine, s *State, instr ssa.Instruction) bool {
	if al, ok := instr.(*ssa.Alloc); ok {
		delete(s.D, "once:&a!"+s.top().id+":"+al.Name()+";")
	}
	if c.pend(s) == "" {
		return true
	}
	switch ins := instr.(type) {
	case *ssa.Store:
		if !isErrorType(ins.Val.Type()) {
			return true
		}
		v := e.eval(s, ins.Val)
		if v.K != KNonNil {
			return true
		}
		a := e.eval(s, ins.Addr)
		if k, ok := e.addr(s, a); ok && !strings.HasPrefix(k, "a!") {
			s.D["rec"] = "1"
			if fa, ok := ins.Addr.(*ssa.FieldAddr); ok && c.recorded != nil {
				c.recorded[fieldID(fa.X.Type(), fa.Field)] = ins.Pos()
			}
		}
	case *ssa.Send:
		if v := e.eval(s, ins.X); v.K == KNonNil && isErrorType(ins.X.Type()) {
			s.D["rec"] = "1"
		}
	case *ssa.MapUpdate:
		if v := e.eval(s, ins.Value); v.K == KNonNil && isErrorType(ins.Value.Type()) {
			s.D["rec"] = "1"
		}
	}
	return true
}

func fieldID(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return t.String()
	}
	return t.String() + "." + st.Field(i).Name()
}

func (c *errClient) Exit(e *Engine, s *State, kind ExitKind, instr ssa.Instruction, res []Val) {
	if c.mode == 1 {
		if kind == ExitReturn {
			for _, i := range errIndex(c.root.Signature) {
				if i < len(res) && s.isNil(res[i]) != 1 {
					c.mayFail = true
				}
			}
		}
		return
	}
	if kind == ExitPanic {
		return
	}
	bad, pos := "", ""
	if p := c.pend(s); p != "" {
		bad, pos = p, s.D["pos"]
	} else {
		for k, v := range s.D {
			if strings.HasPrefix(k, "it:") {
				bad, pos = "exhausted iterator", v
			}
		}
	}
	if bad == "" || s.D["rec"] != "" {
		return
	}
	if kind == ExitProcess {
		if s.D["exit"] != "0" {
			return
		}
	}
	for i, r := range res {
		t := c.root.Signature.Results().At(i).Type()
		if isErrorType(t) && s.isNil(r) == 0 && !answers(r) {
			return
		}
		if r.K == KNonNil && r.S == "carrier" {
			return
		}
		if f := errField(t); f != "" {
			for _, k := range []string{r.S + "." + f, "*" + r.S + "." + f} {
				if v, ok := s.mem[k]; ok && s.isNil(v) == 0 && !answers(v) {
					return
				}
			}
		}
		if strings.HasPrefix(bad, "exhausted") {
			if iterErrMethod(t) != "" {
				return // the iterator travels on
			}
		}
	}
	key := bad + "@" + pos
	if c.hits[key] {
		return
	}
	c.hits[key] = true
	if strings.HasPrefix(bad, "exhausted") {
		c.c.BadAt(c.rule, fname(c.root)+"|iterator", pos, e.Trace(s), "the iterator ends here but no path to the end of %s asks it for its error", fname(c.root))
		return
	}
	at := ""
	if instr != nil {
		at = c.w.pos(instr.Pos())
	}
	c.c.BadAt(c.rule, fname(c.root)+"|"+bad, pos, e.Trace(s), "a failure of %s is dropped: %s ends at %s without returning or recording it", bad, fname(c.root), at)
}

// errFlow runs the analysis over all functions selected by inScope.
func errFlow(c *Ctx, rule string, inScope func(fn *ssa.Function) bool, track func(name string, cs *CallSite) bool) {
	errFlowX(c, rule, inScope, track, nil)
}

func errFlowX(c *Ctx, rule string, inScope func(fn *ssa.Function) bool, track, exempt func(name string, cs *CallSite) bool) {
	w := c.W
	memo := map[*ssa.Function]int{}
	recorded := map[string]token.Pos{}
	ran := map[*ssa.Function]bool{}
	allSites := map[ssa.Instruction]string{}
	var mayFail func(fn *ssa.Function) bool
	inCycle, depth := false, 0 // functions that call each other
	newClient := func(fn *ssa.Function, mode int) *errClient {
		return &errClient{w: w, c: c, rule: rule, root: fn, track: track, sites: map[ssa.Instruction]string{}, inlined: ran, recorded: recorded, mode: mode, exempt: exempt, mayFailOf: mayFail, hits: map[string]bool{}, pendFn: map[string]*ssa.Function{}}
	}
	mayFail = func(fn *ssa.Function) bool {
		fn = origin(fn)
		switch memo[fn] {
		case 1:
			return true
		case 2:
			return false
		case 3:
			inCycle = true
			return false
		}
		if fn.Blocks == nil {
			return true
		}
		memo[fn] = 3
		cl := newClient(fn, 1)
		cl.track = nil
		cl.inlined = map[*ssa.Function]bool{}
		e := NewEngine(w, cl)
		depth++
		e.Run(fn, nil)
		depth--
		r := cl.mayFail || e.Over
		switch {
		case r:
			memo[fn] = 1
		case inCycle && depth > 0:
			memo[fn] = 0 // only as long as a caller that is being decided cannot fail
		default:
			memo[fn] = 2
		}
		if depth == 0 {
			inCycle = false
		}
		return r
	}
	states, steps := 0, 0
	run := func(fn *ssa.Function) {
		cl := newClient(fn, 0)
		if debugEngine {
			fmt.Fprintln(os.Stderr, "start", fname(fn))
		}
		e := NewEngine(w, cl)
		e.Run(fn, nil)
		states += e.States
		steps += e.Steps
		if debugEngine && e.Steps > 2000 {
			fmt.Fprintln(os.Stderr, "root", fname(fn), "states", e.States, "steps", e.Steps, "over", e.Over)
		}
		if e.Over {
			c.BadAt("undecided", fname(fn), w.pos(fn.Pos()), "", "too many paths to decide")
		}
		for i, d := range cl.sites {
			allSites[i] = fname(fn) + " <- " + d
		}
	}
	var fns []*ssa.Function
	for _, fn := range w.Fns {
		if inScope(fn) && fn.Blocks != nil {
			fns = append(fns, fn)
		}
	}
	n := 0
	for _, fn := range fns {
		if fn.Parent() == nil {
			run(fn)
			n++
		}
	}
	for changed := true; changed; {
		changed = false
		for _, fn := range fns {
			if fn.Parent() != nil && !ran[fn] {
				ran[fn] = true
				changed = true
				run(fn)
				n++
			}
		}
	}
	for _, d := range allSites {
		c.Ob(rule, d)
	}
	c.Counts["roots_explored"] += n
	c.Counts["abstract_paths_explored"] += states
	c.Counts["instructions_interpreted"] += steps
	// what was recorded in a field must be readable by someone who returns it
	for _, f := range sortedKeys(recorded) {
		c.Ob(rule+".recorded", f)
		if !fieldReturned(w, f) {
			c.Bad(rule+".recorded", f, recorded[f], "failures are recorded in %s, but no function returns what is recorded there", f)
		}
	}
}

// fieldReturned says that some function returns the value of the field.
func fieldReturned(w *World, id string) bool {
	for _, fn := range w.Fns {
		if len(errIndex(fn.Signature)) == 0 {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				u, ok := ins.(*ssa.UnOp)
				if !ok || u.Op != token.MUL {
					continue
				}
				fa, ok := u.X.(*ssa.FieldAddr)
				if !ok || fieldID(fa.X.Type(), fa.Field) != id {
					continue
				}
				if flowsToReturn(u, map[ssa.Value]bool{}) {
					return true
				}
			}
		}
	}
	return false
}

func flowsToReturn(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	refs := v.Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		switch r := r.(type) {
		case *ssa.Return:
			return true
		case *ssa.Phi:
			if flowsToReturn(r, seen) {
				return true
			}
		case *ssa.Store:
			if r.Val == v {
				switch a := r.Addr.(type) {
				case *ssa.Alloc:
					for _, ar := range *a.Referrers() {
						if u, ok := ar.(*ssa.UnOp); ok && flowsToReturn(u, seen) {
							return true
						}
					}
				case *ssa.IndexAddr:
					return true // argument of errors.Join
				case *ssa.FreeVar:
					return true
				}
			}
		case *ssa.Call:
			if flowsToReturn(r, seen) {
				return true
			}
		case *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.Extract:
			if flowsToReturn(r.(ssa.Value), seen) {
				return true
			}
		}
	}
	return false
}

func fnPkgPath(w *World, fn *ssa.Function) string {
	if p := w.pkgOf(fn); p != nil {
		return p.Path
	}
	return ""
}

// dataCallee selects the calls whose failure concerns the index, the maps or the input
func dataCallee(name string, cs *CallSite) bool {
	for _, p := range []string{"internal/triplestore/", "nquads", "sparkl.Source)", "sparkl.QuadSource)", "leveldb", "pkg/sgob", "sparkl.index", "sparkl.setMask", "sparkl.NewCache", "sparkl.MakeIndex", "sparkl.LoadIndex", "Seek", "traversal."} {
		if strings.Contains(name, p) {
			return true
		}
	}
	// function values: a pass or a callback
	return cs.Iface == nil && cs.Static == nil
}

// cacheAccessor: lookups of the finished cache have no error result by design;
// an identifier that cannot be resolved is an unknown one there.
func cacheAccessor(fn *ssa.Function) bool {
	recv := fn.Signature.Recv()
	return recv != nil && strings.HasSuffix(recv.Type().String(), "internal/sparkl.Cache") && len(errIndex(fn.Signature)) == 0
}

func inPkgs(w *World, paths ...string) func(fn *ssa.Function) bool {
	set := map[string]bool{}
	for _, p := range paths {
		if p == "" {
			set[modPath] = true
		} else {
			set[modPath+"/"+p] = true
		}
	}
	return func(fn *ssa.Function) bool { return set[fnPkgPath(w, fn)] }
}

var debugEngine = os.Getenv("HOVERCHECK_DEBUG") != ""
