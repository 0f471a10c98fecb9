package main

// C29: what is extracted follows the pathbuilder.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// storageCall is the method of an entity storage that is called, or ""
func storageCall(c *ssa.CallCommon) string {
	if !c.IsInvoke() || !isEntityStorage(c.Value.Type()) {
		return ""
	}
	return c.Method.Name()
}

// isEntityStorage: an interface that entities, values and children are put into
func isEntityStorage(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	has := 0
	for m := range i.Methods() {
		switch m.Name() {
		case "Add", "AddFieldValue", "AddChild", "RegisterChildStorage":
			has++
		}
	}
	return has == 4
}

func pathbuilderType(t types.Type) string {
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil || !strings.HasSuffix(n.Obj().Pkg().Path(), "drincw/pathbuilder") {
		return ""
	}
	return n.Obj().Name()
}

// bundleOf: the bundle or field that the path with the given text is part of
func ownerOf(text string) string {
	text = strings.TrimSuffix(text, ";")
	for _, suf := range []string{".Path"} {
		text = strings.TrimSuffix(text, suf)
	}
	return strings.TrimLeft(strings.TrimSuffix(text, ";"), "*")
}

type extractClient struct {
	BaseClient
	c     *Ctx
	root  *ssa.Function
	reach map[*ssa.Function]bool
	ids   map[string]string                  // short name -> index
	short map[string]string                  // and back
	expr  map[string]func(n int) (int, bool) // numbers that depend on the length of a path
	of    map[string]string                  // whose path that is
	seen  map[string]int
	parts map[string]partsOf // what the elements of a list of parts are
}

// partsOf: the entities of a storage, each with the node at a position of its path
type partsOf struct{ of, at Val }

// partOf: the field f of an element of a list of parts
func (k *extractClient) partOf(v Val, f string) (partsOf, bool) {
	t, ok := strings.CutSuffix(strings.TrimLeft(v.S, "*"), "."+f+";")
	if !ok {
		return partsOf{}, false
	}
	p, ok := k.parts[t]
	return p, ok
}

func (k *extractClient) bad(e *Engine, s *State, instr ssa.Instruction, rule, format string, args ...any) {
	k.c.BadAt(rule, fname(k.root), k.c.W.pos(instr.Pos()), e.Trace(s), format, args...)
}

func (k *extractClient) Inline(e *Engine, s *State, cs *CallSite, fn *ssa.Function) bool {
	return isRepo(fn) && (fn.Parent() != nil || fnPkg(fn) == fnPkg(k.root))
}

// name gives an index a short name
func (k *extractClient) name(v Val) string {
	t := v.String()
	if n, ok := k.short[t]; ok {
		return n
	}
	n := fmt.Sprintf("#%d", len(k.short))
	if v.K == KConst {
		n = "#=" + v.S
	}
	k.short[t], k.ids[n] = n, t
	return n
}

// counted: a number that depends on the length of a path
func (k *extractClient) counted(v Val) bool {
	t := v.String()
	if k.expr[t] == nil && strings.HasPrefix(v.S, "len(") && strings.HasSuffix(v.S, ".PathArray;);") {
		k.expr[t] = func(n int) (int, bool) { return n, true }
		k.of[t] = ownerOf(strings.TrimSuffix(strings.TrimPrefix(v.S, "len(o"), ".PathArray;);"))
	}
	if i := strings.Index(v.S, "fn:paths("); k.expr[t] == nil && i >= 0 && strings.HasPrefix(v.S, "len(") && strings.HasSuffix(v.S, ".Nodes;);") {
		of := v.S[i+len("fn:paths("):]
		k.expr[t] = func(n int) (int, bool) { return (n + 1) / 2, true }
		k.of[t] = ownerOf(strings.TrimPrefix(of[:strings.Index(of, ")")], "o"))
	}
	return k.expr[t] != nil
}

// number: what a value is when the path has n parts
func (k *extractClient) number(v Val, n int) (int, bool) {
	if v.K == KConst {
		var x int
		_, err := fmt.Sscanf(v.S, "%d", &x)
		return x, err == nil
	}
	if k.counted(v) {
		return k.expr[v.String()](n)
	}
	return 0, false
}

func (k *extractClient) special(e *Engine, s *State, instr ssa.Instruction) bool {
	switch ins := instr.(type) {
	case *ssa.IndexAddr:
		if _, ok := ins.X.Type().Underlying().(*types.Slice); !ok {
			return false
		}
		el := ins.X.Type().Underlying().(*types.Slice).Elem()
		if !isEntityStorage(el) && typeName(el) != modPath+"/internal/triplestore/impl.Label" && pathbuilderType(el) == "" {
			return false
		}
		base, ok := e.addr(s, e.eval(s, ins.X))
		if !ok {
			return false
		}
		e.set(s, ins, Val{K: KPtr, S: base + "[" + k.name(e.eval(s, ins.Index)) + "]"})
		return true
	case *ssa.UnOp:
		if ins.Op != token.MUL {
			return false
		}
		if _, isPtr := ins.Type().(*types.Pointer); !isPtr && pathbuilderType(ins.Type()) == "Path" {
			if key, ok := e.addr(s, e.eval(s, ins.X)); ok {
				if v, _ := e.load(s, key, ins.Type()); v.K == KOpaque {
					e.set(s, ins, v)
					return true
				}
			}
			return false
		}
		if !isEntityStorage(ins.Type()) {
			return false
		}
		p := e.eval(s, ins.X)
		i := strings.LastIndex(p.S, "[#")
		if p.K != KPtr || i < 0 {
			return false
		}
		e.set(s, ins, opaque("kept"+p.S[i:]+";"))
		return true
	case *ssa.Store:
		if !isEntityStorage(ins.Val.Type()) {
			return false
		}
		p, v := e.eval(s, ins.Addr), e.eval(s, ins.Val)
		i := strings.LastIndex(p.S, "[#")
		if p.K != KPtr || i < 0 {
			return false
		}
		k.c.ObOnce("own", "a storage is kept at "+k.c.W.pos(ins.Pos()))
		if b, ok := strings.CutPrefix(v.S, "fn:store("); ok {
			if j := strings.LastIndex(b, "[#"); j >= 0 && strings.TrimRight(b[j:], ");") != p.S[i:] {
				k.bad(e, s, instr, "own", "the storage of a bundle is kept at the place of another one")
			}
		}
		return true
	case *ssa.BinOp:
		if b, ok := ins.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
			return false
		}
		x, y := e.eval(s, ins.X), e.eval(s, ins.Y)
		if !k.counted(x) && !k.counted(y) {
			return false
		}
		op := ins.Op
		v := term(op.String(), x, y)
		k.expr[v.String()] = func(n int) (int, bool) {
			a, ok1 := k.number(x, n)
			b, ok2 := k.number(y, n)
			if !ok1 || !ok2 {
				return 0, false
			}
			switch op {
			case token.ADD:
				return a + b, true
			case token.SUB:
				return a - b, true
			case token.MUL:
				return a * b, true
			case token.QUO:
				if b != 0 {
					return a / b, true
				}
			case token.REM:
				if b != 0 {
					return a % b, true
				}
			case token.SHR:
				if b >= 0 {
					return a >> b, true
				}
			}
			return 0, false
		}
		for _, o := range []Val{x, y} {
			if w := k.of[o.String()]; w != "" {
				k.of[v.String()] = w
			}
		}
		e.set(s, ins, v)
		return true
	}
	return false
}

// toplevel: whether the bundle is known to have a parent (0), to have none (1) or neither (-1)
func (k *extractClient) toplevel(e *Engine, s *State, bundle string) int {
	v, _ := e.load(s, "*"+bundle+";.Parent", types.Typ[types.UnsafePointer])
	return s.isNil(v)
}

// place checks an index into the nodes of a path: it is where the path of the bundle ends
func (k *extractClient) place(e *Engine, s *State, instr ssa.Instruction, what, bundle string, v Val) {
	top := k.toplevel(e, s, bundle)
	k.c.ObOnce("place", fmt.Sprintf("%s at %s (toplevel=%d)", what, k.c.W.pos(instr.Pos()), top))
	for _, n := range []int{1, 3, 5, 7} {
		x, ok := k.number(v, n)
		if !ok {
			return // not a number that is understood
		}
		want := (n - 1) / 2
		if top == 1 {
			want = 0
		}
		if top < 0 && v.K != KConst {
			return
		}
		if x != want {
			k.bad(e, s, instr, "place", "%s: in a path of %d parts the node at position %d is taken to be the entity of the bundle (it is at %d)", what, n, x, want)
			return
		}
	}
	if w := k.of[v.String()]; w != "" && w != bundle {
		k.bad(e, s, instr, "place", "%s: the position of the entity is taken from the path of %s instead of %s", what, w, bundle)
	}
}

// node takes a node of a path apart: whose path, and which position
func (k *extractClient) node(v Val) (of string, pos Val, ok bool) {
	t := strings.TrimSuffix(strings.TrimLeft(v.S, "*"), ";")
	i := strings.LastIndex(t, "[#")
	if i < 0 || !strings.Contains(t[:i], ".Nodes") {
		return "", Val{}, false
	}
	j := strings.Index(t, "fn:paths(")
	if j < 0 {
		return "", Val{}, false
	}
	of = t[j+len("fn:paths("):]
	of = strings.TrimPrefix(of[:strings.Index(of, ")")], "o")
	id := strings.TrimSuffix(t[i+1:], "]")
	txt := k.ids[id]
	if c, isC := strings.CutPrefix(txt, "c("); isC {
		return ownerOf(of), Val{K: KConst, S: strings.TrimSuffix(c, ")")}, true
	}
	return ownerOf(of), opaque(strings.TrimPrefix(txt, "o")), true
}

func unterm(v Val, name string) (string, bool) {
	t, ok := strings.CutPrefix(v.S, "fn:"+name+"(")
	if !ok {
		return "", false
	}
	return strings.TrimPrefix(strings.TrimSuffix(t, ");"), "o"), true
}

func (k *extractClient) Call(e *Engine, s *State, cs *CallSite) ([]Outcome, bool) {
	com := cs.Instr.Common()
	res := cs.Sig.Results()
	name := cs.Name()
	short := name[strings.LastIndexByte(name, '.')+1:]
	if storageCall(com) == "Get" && len(cs.Args) == 2 {
		v := term("parts", cs.Args[0], cs.Args[1])
		k.parts[term("in", v).S] = partsOf{cs.Args[0], cs.Args[1]}
		return []Outcome{{Val: v}}, true
	}
	if m := storageCall(com); m != "" && len(cs.Args) > 1 {
		k.seen[m]++
		own, known := unterm(cs.Args[0], "store")
		own = ownerOf(own)
		switch m {
		case "Add", "AddFieldValue":
			of, pos, ok := k.node(cs.Args[1])
			if !ok || !known {
				break
			}
			k.place(e, s, cs.Instr, m, own, pos)
			if m == "Add" {
				if of != own {
					k.bad(e, s, cs.Instr, "own", "entities found with the path of %s are stored for %s", of, own)
				}
				break
			}
			k.c.ObOnce("own", "a value is stored at "+k.c.W.pos(cs.Instr.Pos()))
			if n, ok := unterm(cs.Args[2], "mn"); ok && ownerOf(n) != of {
				k.bad(e, s, cs.Instr, "own", "values found with the path of %s are stored under the name of %s", of, ownerOf(n))
			}
		case "RegisterChildStorage", "AddChild":
			var n string
			var child Val
			if m == "RegisterChildStorage" {
				n, _ = unterm(cs.Args[1], "mn")
				child = cs.Args[2]
			} else {
				n, _ = unterm(cs.Args[2], "mn")
				_, wrong1 := k.partOf(cs.Args[1], "Label")
				_, wrong2 := k.partOf(cs.Args[3], "Parent")
				if wrong1 || wrong2 {
					k.bad(e, s, cs.Instr, "own", "the parent and the child of a part are exchanged")
				}
				p, _ := k.partOf(cs.Args[3], "Label")
				child = p.of
				if q, ok := k.partOf(cs.Args[1], "Parent"); ok && known {
					k.place(e, s, cs.Instr, "the parent of a part", own, q.at)
				}
			}
			if n == "" || child.S == "" {
				break
			}
			k.c.ObOnce("own", m+" at "+k.c.W.pos(cs.Instr.Pos()))
			n = ownerOf(n)
			if known && n == own {
				k.bad(e, s, cs.Instr, "own", "%s: a part is given the name of the bundle it is part of", m)
			}
			if b, ok := unterm(child, "store"); ok {
				if ownerOf(b) != n {
					k.bad(e, s, cs.Instr, "own", "%s: what is stored for %s is given the name of %s", m, ownerOf(b), n)
				}
			} else if at, ok := strings.CutPrefix(strings.TrimSuffix(child.S, ";"), "kept"); ok {
				if i := strings.LastIndex(n, "[#"); i >= 0 && strings.TrimRight(n[i:], ";") != at {
					k.bad(e, s, cs.Instr, "own", "%s: the storage of one bundle is used with the name of another one", m)
				}
			}
		}
		return nil, false
	}
	// results that depend on a bundle or path
	if res.Len() > 0 && isEntityStorage(res.At(0).Type()) {
		for i, a := range cs.Args {
			if pathbuilderType(cs.ArgV[i].Type()) == "Bundle" {
				v := term("store", a)
				if res.Len() == 2 {
					return []Outcome{
						{Val: Val{K: KTuple, T: []Val{v, {K: KNil}}}},
						{Val: Val{K: KTuple, T: []Val{{K: KNil}, {K: KNonNil, S: "err"}}}},
					}, true
				}
				return []Outcome{{Val: v}}, true
			}
		}
	}
	if res.Len() == 1 && strings.Contains(typeName(res.At(0).Type()), "traversal.Iterator[") {
		for i, a := range cs.Args {
			if pathbuilderType(cs.ArgV[i].Type()) == "Path" {
				return []Outcome{{Val: term("paths", a)}}, true
			}
		}
	}
	switch {
	case short == "MachineName" && len(cs.Args) == 1:
		return []Outcome{{Val: term("mn", cs.Args[0])}}, true
	case short == "IsToplevel" && len(cs.Args) == 1:
		b := ownerOf(cs.Args[0].S)
		key := "*" + b + ";.Parent"
		return []Outcome{
			{Val: boolVal(true), Apply: func(s *State) { s.setMem(key, Val{K: KNil}) }},
			{Val: boolVal(false), Apply: func(s *State) { s.setMem(key, Val{K: KNonNil, S: "parent"}) }},
		}, true
	case short == "Datum" && len(cs.Args) == 1:
		if strings.HasPrefix(cs.Args[0].S, "fn:paths(") || strings.HasPrefix(cs.Args[0].S, "fn:parts(") {
			return []Outcome{{Val: term("in", cs.Args[0])}}, true
		}
	}
	return nil, false
}

func checkExtract(c *Ctx) {
	reach := map[*ssa.Function]bool{}
	for _, fn := range c.W.Fns {
		if !isRepo(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok {
					switch storageCall(call.Common()) {
					case "Add", "AddFieldValue", "AddChild":
						reach[outermost(fn)] = true
					}
				}
			}
		}
	}
	// from where it starts
	var roots []*ssa.Function
	for _, fn := range sortedFns(reach) {
		called := false
		for _, call := range allCallers(c.W, fn) {
			if o := outermost(call.Parent()); o != fn && reach[o] {
				called = true
			}
		}
		if !called {
			roots = append(roots, fn)
		}
	}
	for _, fn := range roots {
		k := &extractClient{c: c, root: fn, reach: reach, ids: map[string]string{}, short: map[string]string{}, expr: map[string]func(int) (int, bool){}, of: map[string]string{}, parts: map[string]partsOf{}, seen: map[string]int{}}
		e := NewEngine(c.W, k)
		e.Special = k.special
		e.Run(fn, nil)
		c.Counts["steps"] += e.Steps
		if e.Over {
			c.Bad("own", fname(fn), fn.Pos(), "there are too many paths to follow")
		}
	}
}

// parity of a number at a block: 0, 1, or -1 when it is not known
func parity(v ssa.Value, at *ssa.BasicBlock, busy map[ssa.Value]bool) int {
	for d := at; d != nil && v.Parent() != nil; d = d.Idom() {
		p := d.Idom()
		if p == nil || len(d.Preds) != 1 || d.Preds[0] != p {
			continue
		}
		br, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cmp, ok := br.Cond.(*ssa.BinOp)
		if !ok || cmp.Op != token.EQL && cmp.Op != token.NEQ {
			continue
		}
		rem, ok := cmp.X.(*ssa.BinOp)
		want, ok2 := intConst(cmp.Y)
		if !ok || !ok2 || rem.X != v {
			continue
		}
		if m, ok := intConst(rem.Y); !ok || !(rem.Op == token.REM && m == 2 || rem.Op == token.AND && m == 1) {
			continue
		}
		if (cmp.Op == token.EQL) == (p.Succs[0] == d) {
			return int(want & 1)
		}
		return int(1 - want&1)
	}
	switch x := v.(type) {
	case *ssa.Const:
		if n, ok := intConst(x); ok {
			return int(n & 1)
		}
	case *ssa.Convert:
		return parity(x.X, at, busy)
	case *ssa.BinOp:
		if x.Op != token.ADD && x.Op != token.SUB && x.Op != token.MUL {
			return -1
		}
		a, b := parity(x.X, at, busy), parity(x.Y, at, busy)
		if x.Op == token.MUL {
			if a == 0 || b == 0 {
				return 0
			}
			if a < 0 || b < 0 {
				return -1
			}
			return a & b
		}
		switch {
		case a == -2 || b == -2:
			return -2
		case a < 0 || b < 0:
			return -1
		}
		return (a + b) & 1
	case *ssa.Phi:
		if busy[x] {
			return -2 // whatever the other edges say
		}
		// the value it starts with, if going around does not change it
		start := -2
		for i, e := range x.Edges {
			if c, ok := intConst(e); ok {
				p := int(c & 1)
				if start != -2 && start != p {
					return -1
				}
				start = p
				continue
			}
			step, ok := e.(*ssa.BinOp)
			if !ok || step.X != ssa.Value(x) || step.Op != token.ADD && step.Op != token.SUB {
				return -1
			}
			if n, ok := intConst(step.Y); !ok || n&1 != 0 {
				return -1
			}
			_ = i
		}
		if start == -2 {
			return -1
		}
		return start
	}
	return -1
}

func intConst(v ssa.Value) (int64, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(c.Value)
}

// startOf: the first value of a counter and how much it grows
func startOf(v ssa.Value) (start, step int64, ok bool) {
	off := int64(0)
	for {
		b, isB := v.(*ssa.BinOp)
		if !isB || b.Op != token.ADD {
			break
		}
		n, isC := intConst(b.Y)
		if !isC {
			return 0, 0, false
		}
		off += n
		v = b.X
	}
	p, isP := v.(*ssa.Phi)
	if !isP {
		return 0, 0, false
	}
	found := false
	for _, e := range p.Edges {
		if n, isC := intConst(e); isC {
			start, found = n, true
			continue
		}
		b, isB := e.(*ssa.BinOp)
		if !isB || b.Op != token.ADD || b.X != ssa.Value(p) {
			return 0, 0, false
		}
		n, isC := intConst(b.Y)
		if !isC {
			return 0, 0, false
		}
		step = n
	}
	return start + off, step, found && step > 0
}

// element: the index of the list of texts a label is an element of
func element(v ssa.Value) (ia *ssa.IndexAddr, off int64, ok bool) {
	for {
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.Convert:
			v = x.X
			continue
		case *ssa.UnOp:
			if x.Op == token.MUL {
				v = x.X
				continue
			}
		case *ssa.IndexAddr:
			if sl, isS := x.X.Type().Underlying().(*types.Slice); !isS || !isString(sl.Elem()) {
				return nil, 0, false
			}
			if cut, isCut := x.X.(*ssa.Slice); isCut && cut.Low != nil {
				n, isC := intConst(cut.Low)
				if !isC {
					return nil, 0, false
				}
				off = n
			}
			return x, off, true
		}
		return nil, 0, false
	}
}

// graphQuery: a query for paths, and where its class and step are among its arguments
func graphQuery(call *ssa.CallCommon) (name string) {
	sc := call.StaticCallee()
	if sc == nil || !strings.HasSuffix(fnPkg(sc), graphPkg) || sc.Signature.Recv() == nil {
		return ""
	}
	switch sc.Name() {
	case "PathsStarting", "Ending", "Connected":
		return sc.Name()
	}
	return ""
}

// steps: a path is asked for as it is written
func pathSteps(c *Ctx) {
	isType := constText(c.W, "internal/wisski", "Type")
	for _, fn := range c.W.Fns {
		if !isRepo(fn) || strings.HasSuffix(fnPkg(fn), graphPkg) {
			continue
		}
		starts := false
		first := int64(-1)
		var firstAt token.Pos
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				q := graphQuery(&call.Call)
				if q == "" {
					continue
				}
				args := call.Call.Args
				c.Ob("steps", fmt.Sprintf("%s at %s", q, c.W.pos(in.Pos())))
				if q == "PathsStarting" {
					starts = true
				}
				if q != "Connected" {
					if t, ok := args[1].(*ssa.Const); ok && t.Value != nil && t.Value.Kind() == constant.String && constant.StringVal(t.Value) == isType {
					} else if _, _, isEl := element(args[1]); ok || isEl {
						c.Bad("steps", fname(fn), in.Pos(), "%s: the class of a node is not asked for with the predicate for classes", q)
					}
				}
				ia, off, ok := element(args[len(args)-1])
				if !ok {
					continue
				}
				par := parity(ia.Index, b, map[ssa.Value]bool{})
				if par >= 0 {
					par = int((int64(par) + off) & 1)
					if q == "Connected" && par == 0 {
						c.Bad("steps", fname(fn), in.Pos(), "Connected: a class of the path (at an even place) is asked for as a predicate")
					}
					if q != "Connected" && par == 1 {
						c.Bad("steps", fname(fn), in.Pos(), "%s: a predicate of the path (at an odd place) is asked for as a class", q)
					}
				}
				if n, isC := intConst(ia.Index); isC {
					if q == "PathsStarting" && n+off != 0 {
						c.Bad("steps", fname(fn), in.Pos(), "a path is not asked for from its beginning")
					}
					if q != "PathsStarting" && loopOf(b) != nil {
						c.Bad("steps", fname(fn), in.Pos(), "%s: every round asks for the same step", q)
					}
					continue
				}
				if n, step, ok := startOf(ia.Index); ok {
					if n += off; first < 0 || n < first {
						first, firstAt = n, in.Pos()
					}
					if step == 1 && boundCut(ia.Index) {
						c.Bad("steps", fname(fn), in.Pos(), "%s: the last step of a path is not asked for", q)
					}
				}
			}
		}
		if starts && first > 1 {
			c.Bad("steps", fname(fn), firstAt, "the steps of a path before number %d are not asked for", first)
		}
		if starts {
			datatype(c, outermost(fn))
			sharedPath(c, fn)
		}
	}
}

// boundCut: the counter stops before the last element
func boundCut(v ssa.Value) bool {
	if b, ok := v.(*ssa.BinOp); ok {
		v = b.X
	}
	p, ok := v.(*ssa.Phi)
	if !ok {
		return false
	}
	uses := append([]ssa.Instruction(nil), *p.Referrers()...)
	for _, e := range p.Edges {
		if b, ok := e.(*ssa.BinOp); ok {
			uses = append(uses, *b.Referrers()...)
		}
	}
	for _, r := range uses {
		if b, ok := r.(*ssa.BinOp); ok && b.Op == token.LSS {
			if y, ok := b.Y.(*ssa.BinOp); ok && y.Op == token.SUB && (b.X == ssa.Value(p) || b.X == v) {
				return true
			}
		}
	}
	return false
}

// constText is the value of a constant of the repository
func constText(w *World, pkg, name string) string {
	for _, fn := range w.Fns {
		if fn.Pkg == nil || !strings.HasSuffix(fn.Pkg.Pkg.Path(), pkg) {
			continue
		}
		if k, ok := fn.Pkg.Pkg.Scope().Lookup(name).(*types.Const); ok && k.Val().Kind() == constant.String {
			return constant.StringVal(k.Val())
		}
	}
	return ""
}

// isField: v reads the field with the given name of the given type of the pathbuilder
func pbField(v ssa.Value, name string) (owner ssa.Value, ok bool) {
	if u, isU := v.(*ssa.UnOp); isU && u.Op == token.MUL {
		v = u.X
	}
	switch x := v.(type) {
	case *ssa.FieldAddr:
		if pathbuilderType(x.X.Type()) != "" && fieldNameOf(x.X.Type(), x.Field) == name {
			return x.X, true
		}
	case *ssa.Field:
		if pathbuilderType(x.X.Type()) != "" && fieldNameOf(x.X.Type(), x.Field) == name {
			return x.X, true
		}
	}
	return nil, false
}

// family: a function, its closures and what it calls in its package
func family(fn *ssa.Function) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		f = origin(f)
		if out[f] || f.Blocks == nil || fnPkg(outermost(f)) != fnPkg(fn) {
			return
		}
		out[f] = true
		for _, a := range f.AnonFuncs {
			add(a)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok {
					if sc := call.Common().StaticCallee(); sc != nil {
						add(sc)
					}
				}
			}
		}
	}
	add(fn)
	return out
}

// datatype: the value of a field is the last step of its path
func datatype(c *Ctx, fn *ssa.Function) {
	c.Ob("datatype", fname(fn))
	found := false
	var bad token.Pos
	for f := range family(fn) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok || call.Call.StaticCallee() == nil || call.Call.StaticCallee().Name() != "Datatype" || len(call.Call.Args) != 1 || pathbuilderType(call.Call.Args[0].Type()) != "Path" {
					continue
				}
				for _, use := range appended(call, 0) {
					found = true
					for d := use.Block(); d != nil; d = d.Idom() {
						p := d.Idom()
						if p == nil || len(d.Preds) != 1 || d.Preds[0] != p {
							continue
						}
						if br, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok {
							if _, is := pbField(br.Cond, "IsGroup"); is && p.Succs[0] == d {
								bad = use.Pos()
							}
						}
					}
				}
			}
		}
	}
	if !found {
		c.Bad("datatype", fname(fn), fn.Pos(), "the data property of a field is not made the last step of its path")
	}
	if bad.IsValid() {
		c.Bad("datatype", fname(fn), bad, "the data property is made the last step of the path of a group instead of that of a field")
	}
}

// appended: where a text becomes an element of a list, or is returned, or asked for
func appended(v ssa.Value, depth int) (out []ssa.Instruction) {
	if depth > 6 || v.Referrers() == nil {
		return nil
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if _, ok := x.Addr.(*ssa.IndexAddr); ok && x.Val == v {
				out = append(out, x)
			} else if a, ok := x.Addr.(*ssa.Alloc); ok && x.Val == v {
				for _, rr := range *a.Referrers() {
					if u, ok := rr.(*ssa.UnOp); ok {
						out = append(out, appended(u, depth+1)...)
					}
				}
			}
		case *ssa.Phi:
			out = append(out, appended(x, depth+1)...)
		case *ssa.ChangeType:
			out = append(out, appended(x, depth+1)...)
		case *ssa.Convert:
			out = append(out, appended(x, depth+1)...)
		case *ssa.Return:
			out = append(out, x)
		case *ssa.Call:
			if graphQuery(&x.Call) != "" || x.Call.StaticCallee() != nil && isRepo(x.Call.StaticCallee()) {
				out = append(out, x)
			}
		}
	}
	return out
}

// sharedPath: the path of the pathbuilder is not appended to
func sharedPath(c *Ctx, fn *ssa.Function) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok || !isBuiltin(call, "append") {
				continue
			}
			seen := map[ssa.Value]bool{}
			var from func(v ssa.Value) bool
			from = func(v ssa.Value) bool {
				if seen[v] {
					return false
				}
				seen[v] = true
				if _, ok := pbField(v, "PathArray"); ok {
					return true
				}
				switch x := v.(type) {
				case *ssa.Phi:
					for _, e := range x.Edges {
						if from(e) {
							return true
						}
					}
				case *ssa.Slice:
					return x.Max == nil && from(x.X)
				case *ssa.UnOp:
					if a, ok := x.X.(*ssa.Alloc); ok {
						if st := onlyStore(a); st != nil {
							return from(st)
						}
					}
				}
				return false
			}
			c.Ob("steps", "append at "+c.W.pos(in.Pos()))
			if from(call.Call.Args[0]) {
				c.Bad("steps", fname(fn), in.Pos(), "steps are appended to the path of the pathbuilder itself, which other goroutines use")
			}
		}
	}
}

// extracting: the calls that must not be left out
func extracting(call *ssa.CallCommon) string {
	switch m := storageCall(call); m {
	case "Add", "AddFieldValue", "AddChild", "RegisterChildStorage":
		return m
	}
	res := call.Signature().Results()
	if res.Len() == 1 && strings.Contains(typeName(res.At(0).Type()), "traversal.Iterator[") {
		for _, a := range call.Args {
			if pathbuilderType(a.Type()) == "Path" {
				return "extract"
			}
		}
	}
	if res.Len() > 0 && isEntityStorage(res.At(0).Type()) && !call.IsInvoke() {
		for _, a := range call.Args {
			if pathbuilderType(a.Type()) == "Bundle" {
				return "store"
			}
		}
	}
	return ""
}

// brokenOff: the loop around a call ends before its end although nothing failed
func brokenOff(at *ssa.BasicBlock) bool {
	h := loopOf(at)
	if h == nil {
		return false
	}
	l := properLoop(h)
	for b := range l {
		if b == h || b.Dominates(at) && b != at {
			continue
		}
		for _, n := range b.Succs {
			if l[n] || n == errorEdge(b) || n == emptyEdge(b) {
				continue
			}
			if _, ok := n.Instrs[len(n.Instrs)-1].(*ssa.Panic); !ok {
				return true
			}
		}
	}
	return false
}

// complete: no bundle, field, value or part is left out unless something fails
func complete(c *Ctx, rule string, pkgs map[string]bool, kind func(*ssa.CallCommon) string, names map[string]string) {
	for _, m := range sortedKeys(names) {
		does := map[*ssa.Function]bool{}
		calls := func(in ssa.Instruction) bool {
			call, ok := in.(ssa.CallInstruction)
			if !ok {
				return false
			}
			if kind(call.Common()) == m {
				return true
			}
			if sc := call.Common().StaticCallee(); sc != nil && sc.Parent() != nil && does[sc] {
				return true
			}
			for _, a := range call.Common().Args {
				if mc, ok := a.(*ssa.MakeClosure); ok && does[mc.Fn.(*ssa.Function)] {
					return true
				}
			}
			return false
		}
		for changed := true; changed; {
			changed = false
			for _, fn := range c.W.Fns {
				if does[fn] || !isRepo(fn) || !pkgs[fnPkg(outermost(fn))] {
					continue
				}
				for _, b := range fn.Blocks {
					for _, in := range b.Instrs {
						if !does[fn] && calls(in) {
							does[fn], changed = true, true
						}
					}
				}
			}
		}
		for _, fn := range sortedFns(does) {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if !calls(in) {
						continue
					}
					c.Ob(rule, fmt.Sprintf("%s in %s at %s", m, fname(fn), c.W.pos(in.Pos())))
					if why := always(in); why != "" {
						c.Bad(rule, fname(fn), in.Pos(), "%s although nothing has failed: %s", names[m], why)
					}
					if brokenOff(b) {
						c.Bad(rule, fname(fn), in.Pos(), "%s although nothing has failed: the loop ends before everything was seen", names[m])
					}
				}
			}
		}
	}
}

// wholeLists: lists of the pathbuilder and of the values of an entity are not cut
func wholeLists(c *Ctx, pkgs map[string]bool) {
	for _, fn := range c.W.Fns {
		if !isRepo(fn) || !pkgs[fnPkg(outermost(fn))] {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ia, ok := in.(*ssa.IndexAddr)
				if !ok || loopOf(b) == nil {
					continue
				}
				sl, ok := ia.X.Type().Underlying().(*types.Slice)
				if !ok {
					continue
				}
				what := pathbuilderType(sl.Elem())
				if n := namedOf(sl.Elem()); what == "" && n != nil && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "internal/wisski") {
					what = n.Obj().Name()
				}
				if what != "Bundle" && what != "Field" && what != "FieldValue" && what != "Entity" {
					continue
				}
				c.Ob("whole", fmt.Sprintf("%s list in %s at %s", what, fname(fn), c.W.pos(in.Pos())))
				if _, isC := ia.Index.(*ssa.Const); !isC {
					if all, why := everyElement(ia.Index); !all {
						c.Bad("whole", fname(fn), in.Pos(), "not every %s is seen: %s", what, why)
					}
				}
				if cut, isCut := ia.X.(*ssa.Slice); isCut {
					if n, isC := intConst(cut.Low); cut.Low != nil && isC && n > 0 {
						c.Bad("whole", fname(fn), in.Pos(), "not every %s is seen: the beginning is cut off", what)
					}
					if _, isC := intConst(cut.High); cut.High != nil && isC {
						c.Bad("whole", fname(fn), in.Pos(), "not every %s is seen: the end is cut off", what)
					}
				}
			}
		}
	}
}

// masks: what is asked for is in the graph
func masks(c *Ctx, pkgs map[string]bool) {
	isType := constText(c.W, "internal/wisski", "Type")
	set := map[string]ssa.CallInstruction{}
	for _, fn := range c.W.Fns {
		if !isRepo(fn) || !pkgs[fnPkg(outermost(fn))] {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok {
					if sc := call.Common().StaticCallee(); sc != nil && strings.HasSuffix(fnPkg(sc), graphPkg) && (sc.Name() == "SetPredicateMask" || sc.Name() == "SetDataMask") {
						set[sc.Name()] = call
					}
				}
			}
		}
	}
	for name, call := range set {
		have := map[string][]ssa.Instruction{}
		wrong := map[string]token.Pos{}
		seen := map[ssa.Value]bool{}
		var owners func(v ssa.Value, depth int) []string
		owners = func(v ssa.Value, depth int) []string {
			if o, ok := pbField(v, "PathArray"); ok {
				for {
					switch pathbuilderType(o.Type()) {
					case "Bundle", "Field":
						return []string{"path of a " + strings.ToLower(pathbuilderType(o.Type()))}
					}
					fa, ok := o.(*ssa.FieldAddr)
					if ok {
						o = fa.X
						continue
					}
					if f, ok := o.(*ssa.Field); ok {
						o = f.X
						continue
					}
					if u, ok := o.(*ssa.UnOp); ok {
						o = u.X
						continue
					}
					return []string{"path of a bundle", "path of a field"}
				}
			}
			if p, ok := v.(*ssa.Parameter); ok && depth < 4 {
				var out []string
				for _, call := range allCallers(c.W, p.Parent()) {
					if i := paramIndex(p); i < len(call.Common().Args) {
						out = append(out, owners(call.Common().Args[i], depth+1)...)
					}
				}
				return out
			}
			return nil
		}
		var kinds func(key ssa.Value, at *ssa.BasicBlock, depth int) []string
		kinds = func(key ssa.Value, at *ssa.BasicBlock, depth int) []string {
			for {
				switch x := key.(type) {
				case *ssa.ChangeType:
					key = x.X
					continue
				case *ssa.Convert:
					key = x.X
					continue
				}
				break
			}
			if k, ok := key.(*ssa.Const); ok {
				if k.Value != nil && k.Value.Kind() == constant.String && constant.StringVal(k.Value) == isType {
					return []string{"the class predicate"}
				}
				return nil
			}
			if _, ok := pbField(key, "DatatypeProperty"); ok {
				return []string{"data property of a field"}
			}
			if call, ok := key.(*ssa.Call); ok && call.Call.StaticCallee() != nil && call.Call.StaticCallee().Name() == "Datatype" {
				return []string{"data property of a field"}
			}
			if ia, off, ok := element(key); ok {
				x := ia.X
				if cut, ok := x.(*ssa.Slice); ok {
					x = cut.X
				}
				out := owners(x, 0)
				if par := parity(ia.Index, at, map[ssa.Value]bool{}); par >= 0 && (int64(par)+off)&1 == 0 && len(out) > 0 {
					wrong["classes of a path are kept instead of its predicates"] = ia.Pos()
					return nil
				}
				if n, step, ok := startOf(ia.Index); ok && n+off > 1 && step > 0 {
					wrong["the first predicates of a path are left out"] = ia.Pos()
				}
				return out
			}
			if p, ok := key.(*ssa.Parameter); ok && depth < 4 {
				var out []string
				for _, call := range allCallers(c.W, p.Parent()) {
					if i := paramIndex(p); i < len(call.Common().Args) {
						out = append(out, kinds(call.Common().Args[i], call.Block(), depth+1)...)
					}
				}
				return out
			}
			return nil
		}
		var follow func(v ssa.Value)
		follow = func(v ssa.Value) {
			if seen[v] || v.Referrers() == nil {
				return
			}
			seen[v] = true
			for _, r := range *v.Referrers() {
				switch x := r.(type) {
				case *ssa.MapUpdate:
					if x.Map == v {
						for _, k := range kinds(x.Key, x.Block(), 0) {
							have[k] = append(have[k], x)
						}
					}
				case *ssa.Call:
					if sc := x.Call.StaticCallee(); sc != nil && isRepo(sc) && sc.Blocks != nil && pkgs[fnPkg(sc)] {
						for i, a := range x.Call.Args {
							if a == v {
								follow(sc.Params[i])
							}
						}
					}
				case *ssa.Store:
					if a, ok := x.Addr.(*ssa.Alloc); ok && x.Val == v {
						for _, rr := range *a.Referrers() {
							if u, ok := rr.(*ssa.UnOp); ok {
								follow(u)
							}
							if mc, ok := rr.(*ssa.MakeClosure); ok {
								for i, bd := range mc.Bindings {
									if bd == ssa.Value(a) {
										for _, fr := range *mc.Fn.(*ssa.Function).FreeVars[i].Referrers() {
											if u, ok := fr.(*ssa.UnOp); ok {
												follow(u)
											}
										}
									}
								}
							}
						}
					}
				case *ssa.Phi:
					follow(x)
				}
			}
		}
		// the map itself
		var origins func(v ssa.Value, depth int)
		origins = func(v ssa.Value, depth int) {
			follow(v)
			switch x := v.(type) {
			case *ssa.UnOp:
				if a, ok := x.X.(*ssa.Alloc); ok {
					if st := onlyStore(a); st != nil {
						origins(st, depth)
					}
				}
			case *ssa.Phi:
				for _, e := range x.Edges {
					if depth < 4 {
						origins(e, depth+1)
					}
				}
			case *ssa.Extract:
				if call, ok := x.Tuple.(*ssa.Call); ok && call.Call.StaticCallee() != nil && isRepo(call.Call.StaticCallee()) && depth < 4 {
					for _, b := range call.Call.StaticCallee().Blocks {
						if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) > x.Index {
							origins(r.Results[x.Index], depth+1)
						}
					}
				}
			case *ssa.Call:
				if sc := x.Call.StaticCallee(); sc != nil && isRepo(sc) && depth < 4 {
					for _, b := range sc.Blocks {
						if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 {
							origins(r.Results[0], depth+1)
						}
					}
				}
			}
		}
		origins(call.Common().Args[1], 0)
		need := []string{"the class predicate", "path of a bundle", "path of a field"}
		if name == "SetDataMask" {
			need = []string{"data property of a field"}
		}
		fn := call.Parent()
		for w, pos := range wrong {
			if name == "SetPredicateMask" {
				c.Bad("mask", fname(fn), pos, "%s: %s", name, w)
			}
		}
		for _, n := range need {
			c.Ob("mask", name+" "+n)
			if len(have[n]) == 0 {
				c.Bad("mask", fname(fn), call.Pos(), "%s: extracting asks for statements that are not kept: %s", name, n)
				continue
			}
			if n == "path of a bundle" || n == "path of a field" {
				continue // in rounds of their own
			}
			ok := false
			why := ""
			for _, in := range have[n] {
				if w := always(in); w == "" {
					ok = true
				} else {
					why = w
				}
			}
			if !ok {
				c.Bad("mask", fname(fn), have[n][0].Pos(), "%s: extracting asks for statements that are not kept: %s (%s)", name, n, why)
			}
		}
	}
}

// maskWalk: the calls that look at the parts of a bundle for the masks
func maskWalk(fns map[*ssa.Function]bool) func(*ssa.CallCommon) string {
	return func(call *ssa.CallCommon) string {
		sc := call.StaticCallee()
		if sc == nil || !fns[origin(sc)] {
			return ""
		}
		for _, a := range call.Args {
			if pathbuilderType(a.Type()) == "Bundle" {
				return "mask"
			}
			if _, ok := pbField(a, "PathArray"); ok {
				return "path"
			}
		}
		return ""
	}
}

// named: values and parts of an entity are kept under the machine name
func named(c *Ctx) {
	for _, fn := range c.W.Fns {
		if !isRepo(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var m, key ssa.Value
				switch x := in.(type) {
				case *ssa.Lookup:
					m, key = x.X, x.Index
				case *ssa.MapUpdate:
					m, key = x.Map, x.Key
				default:
					continue
				}
				f := mapField(m)
				want := map[string]string{"Fields": "F", "Children": "B", "childStorages": "B"}[f]
				if want == "" || !isString(key.Type()) {
					continue
				}
				if call, ok := key.(*ssa.Call); ok && call.Call.StaticCallee() != nil && call.Call.StaticCallee().Name() == "MachineName" && len(call.Call.Args) == 1 {
					c.Ob("named", fmt.Sprintf("%s in %s at %s", f, fname(fn), c.W.pos(in.Pos())))
					if got := machineNameOf(call.Call.Args[0]); got != "P" && got != want {
						c.Bad("named", fname(fn), in.Pos(), "%s is used with the machine name of the wrong kind of thing", f)
					}
					continue
				}
				for _, other := range []string{"ID", "Name", "UUID", "Bundle", "Field", "GroupID"} {
					if _, ok := pbField(key, other); ok {
						c.Ob("named", fmt.Sprintf("%s in %s at %s", f, fname(fn), c.W.pos(in.Pos())))
						c.Bad("named", fname(fn), in.Pos(), "%s is used with the %s instead of the machine name", f, other)
					}
				}
			}
		}
	}
}

func checkC29(c *Ctx) {
	checkExtract(c)
	pathSteps(c)
	named(c)
	pkgs := map[string]bool{}
	for _, fn := range c.W.Fns {
		if !isRepo(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok && storageCall(call.Common()) == "AddFieldValue" {
					pkgs[fnPkg(outermost(fn))] = true
				}
			}
		}
	}
	complete(c, "complete", pkgs, extracting, map[string]string{
		"Add": "an entity is not stored", "AddFieldValue": "a value is not stored", "AddChild": "a part is not stored",
		"RegisterChildStorage": "a kind of part is left out", "extract": "a path is not extracted", "store": "a bundle is left out",
	})
	masks(c, pkgs)
	walk := map[*ssa.Function]bool{}
	for _, fn := range c.W.Fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok && pkgs[fnPkg(outermost(fn))] {
					if sc := call.Common().StaticCallee(); sc != nil && strings.HasSuffix(fnPkg(sc), graphPkg) && sc.Name() == "SetPredicateMask" {
						for f := range family(outermost(fn)) {
							walk[f] = true
						}
					}
				}
			}
		}
	}
	if len(walk) > 0 {
		parts := false
		var at *ssa.Function
		for _, f := range sortedFns(walk) {
			if at == nil || f.Pos() < at.Pos() {
				at = f
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if v, ok := in.(ssa.Value); ok {
						if o, ok := pbField(v, "ChildBundles"); ok && pathbuilderType(o.Type()) == "Bundle" {
							parts = true
						}
					}
					if call, ok := in.(*ssa.Call); ok && call.Call.StaticCallee() != nil && len(call.Call.Args) > 0 && pathbuilderType(call.Call.Args[0].Type()) == "Bundle" {
						if n := call.Call.StaticCallee().Name(); n == "Bundles" {
							parts = true
						}
					}
				}
			}
		}
		c.Ob("mask", "parts of a bundle")
		if !parts {
			c.Bad("mask", fname(at), at.Pos(), "the parts of a bundle are not looked at for what is kept")
		}
	}
	complete(c, "mask", pkgs, maskWalk(walk), map[string]string{"mask": "a bundle is not looked at for what is kept", "path": "a path is not looked at for what is kept"})
	all := map[string]bool{}
	for p := range pkgs {
		all[p], all[p+"/exporter"], all[p+"/storages"] = true, true, true
	}
	wholeLists(c, all)
}
func init() {
	register(&Check{
		Prop:    "C29",
		Explain: "The function that fills the storages is followed on all its paths, with symbolic names for which bundle a storage was made for, which path an iterator walks, and which position of it a node is taken from. Names, storages, paths and parents that are used together must belong together (own); the position is a term over the length of a path, which must be the last node of the bundle's own path, or the first one for a bundle without a parent (place). The places where paths are turned into queries are judged by the parity and the first value of the index (steps), the data property must become the last step of fields (datatype). No path, value, part or bundle may be left out by a way through the control flow on which nothing fails and nothing is empty (complete), lists are not cut (whole), maps of an entity are used with the machine name of the right kind of thing (named), and the masks of the graph contain everything that is asked for (mask).",
		Assume:  []string{"the pathbuilder library reads paths as they are written", "queries return what they are asked for (C40 is not decided)"},
		Floors:  map[string]int{"own": 2, "place": 3, "steps": 3, "datatype": 1, "complete": 5, "whole": 5, "named": 2, "mask": 4},
		Run:     checkC29,
	})
}
