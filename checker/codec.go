package main

// C13: what is written to disk is read back with the layout it was written with.
//
// Encoders and decoders are interpreted over symbolic bytes: a cell of a buffer
// holds a part of the value that is encoded, and what a decoder stores names the
// cell it was read from. Both descriptions have to agree.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func isBytes(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := sl.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

// bytesAt splits a value for bytes into the buffer and the offset in it
func bytesAt(e *Engine, s *State, v Val) (base string, off int, ok bool) {
	k, ok := e.addr(s, v)
	if !ok {
		return "", 0, false
	}
	base, o, found := strings.Cut(k, "@")
	if found {
		n, err := strconv.Atoi(o)
		if err != nil {
			return "", 0, false
		}
		off = n
	}
	return base, off, true
}

func bytesVal(base string, off int) Val {
	if off == 0 {
		return Val{K: KPtr, S: base}
	}
	return Val{K: KPtr, S: base + "@" + strconv.Itoa(off)}
}

// codecClient follows bytes and identifiers
type codecClient struct {
	BaseClient
	w    *World
	root *ssa.Function
	// what the root returns or storedParts behind, one entry per successful path
	outs []map[string]string
	// more calls of interest
	call func(e *Engine, s *State, cs *CallSite) ([]Outcome, bool)
	exit func(e *Engine, s *State, instr ssa.Instruction, res []Val)
	bad  func(instr ssa.Instruction, format string, args ...any)
	// how many bytes the encoder makes
	length string
}

func (k *codecClient) Inline(e *Engine, s *State, cs *CallSite, fn *ssa.Function) bool {
	return isRepo(fn) || strings.Contains(fn.Synthetic, "thunk") || strings.Contains(fn.Synthetic, "bound method") || strings.Contains(fn.Synthetic, "wrapper")
}

func (k *codecClient) special(e *Engine, s *State, instr ssa.Instruction) bool {
	num := func(v ssa.Value) (int64, bool) { return intOf(e.eval(s, v)) }
	switch ins := instr.(type) {
	case *ssa.BinOp:
		a, ok1 := num(ins.X)
		b, ok2 := num(ins.Y)
		if ok1 && ok2 {
			switch ins.Op {
			case token.ADD:
				a += b
			case token.SUB:
				a -= b
			case token.MUL:
				a *= b
			default:
				return false
			}
			if a < -1 || a > 64 {
				// a counter, not an offset
				return false
			}
			e.set(s, ins, Val{K: KConst, S: strconv.FormatInt(a, 10)})
			return true
		}
	case *ssa.UnOp:
		if g, ok := ins.X.(*ssa.Global); ok && ins.Op == token.MUL && isErrorType(ins.Type()) {
			if call := globalInit(k.w, g); call != nil && call.Call.StaticCallee() != nil && !isRepo(call.Call.StaticCallee()) {
				e.set(s, ins, Val{K: KNonNil, S: g.Name()})
				return true
			}
		}
	case *ssa.MakeSlice:
		if n, ok := num(ins.Len); ok && isBytes(ins.Type()) {
			id := "a!" + s.top().id + ":" + ins.Name() + ";"
			s.redefine(strings.TrimPrefix(id, "a!"))
			s.mem[id+"#len"] = Val{K: KConst, S: strconv.FormatInt(n, 10)}
			e.set(s, ins, Val{K: KPtr, S: id})
			return true
		}
	case *ssa.Slice:
		if !isBytes(ins.Type()) {
			return false
		}
		v := e.eval(s, ins.X)
		base, off, ok := bytesAt(e, s, v)
		if !ok {
			return false
		}
		if p, ok := ins.X.Type().Underlying().(*types.Pointer); ok {
			if a, ok := p.Elem().Underlying().(*types.Array); ok {
				n := a.Len()
				if ins.High != nil {
					if h, ok := num(ins.High); ok {
						n = h
					}
				}
				s.mem[base+"#len"] = Val{K: KConst, S: strconv.FormatInt(n, 10)}
			}
		}
		if ins.Low != nil {
			lo, ok := num(ins.Low)
			if !ok {
				e.set(s, ins, e.fresh(s, ins))
				return true
			}
			off += int(lo)
		}
		if v.K == KOpaque && off == 0 {
			e.set(s, ins, v)
		} else {
			e.set(s, ins, bytesVal(base, off))
		}
		return true
	case *ssa.IndexAddr:
		if !isBytes(ins.X.Type()) {
			return false
		}
		base, off, ok := bytesAt(e, s, e.eval(s, ins.X))
		i, ok2 := num(ins.Index)
		if !ok || !ok2 {
			return false
		}
		e.set(s, ins, Val{K: KPtr, S: fmt.Sprintf("%s[%d]", base, off+int(i))})
		return true
	}
	return false
}

func (k *codecClient) Call(e *Engine, s *State, cs *CallSite) ([]Outcome, bool) {
	com := cs.Instr.Common()
	if b, ok := com.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "len":
			if len(cs.Args) == 1 && isBytes(com.Args[0].Type()) {
				base, off, ok := bytesAt(e, s, cs.Args[0])
				if n, known := s.mem[base+"#len"]; ok && known {
					if n, ok := intOf(n); ok {
						return []Outcome{{Val: Val{K: KConst, S: strconv.FormatInt(n-int64(off), 10)}}}, true
					}
				}
			}
		case "append":
			if isBytes(com.Args[0].Type()) && len(cs.Args) == 2 {
				if v, ok := k.appended(e, s, cs); ok {
					return []Outcome{{Val: v}}, true
				}
			}
		}
		return nil, false
	}
	if cs.Static != nil && cs.Static.Signature.Recv() != nil && isIDType(derefType(cs.Static.Signature.Recv().Type())) {
		switch cs.Static.Name() {
		case "Encode":
			base, off, ok := bytesAt(e, s, cs.Args[1])
			if !ok {
				return nil, true
			}
			v := cs.Args[0]
			return []Outcome{{Val: Val{K: KTuple}, Apply: func(s *State) { s.mem[fmt.Sprintf("%s[%d]", base, off)] = opaque("id<" + v.String() + ">;") }}}, true
		case "Decode":
			base, off, ok := bytesAt(e, s, cs.Args[1])
			dest, ok2 := e.addr(s, cs.Args[0])
			if !ok || !ok2 {
				return nil, true
			}
			v := opaque(fmt.Sprintf("id@%s[%d];", base, off))
			if x, ok := s.mem[fmt.Sprintf("%s[%d]", base, off)]; ok {
				v = opaque("again<" + x.String() + ">;")
			}
			return []Outcome{{Val: Val{K: KTuple}, Apply: func(s *State) { s.setMem(dest, v) }}}, true
		}
	}
	if k.call != nil {
		return k.call(e, s, cs)
	}
	return nil, false
}

func derefType(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// appended puts known bytes behind each other
func (k *codecClient) appended(e *Engine, s *State, cs *CallSite) (Val, bool) {
	id := "a!" + strings.TrimPrefix(cs.ResID, "a!")
	cells := map[string]Val{}
	total := int64(0)
	for _, a := range cs.Args {
		if a.K == KNil {
			continue
		}
		base, off, ok := bytesAt(e, s, a)
		n, known := s.mem[base+"#len"]
		if !known && strings.HasPrefix(base, "a!") {
			return Val{}, false
		}
		l, ok2 := intOf(n)
		if !ok || !ok2 {
			return Val{}, false
		}
		for m, mv := range s.mem {
			rest, ok := strings.CutPrefix(m, base+"[")
			if !ok || !strings.HasSuffix(rest, "]") {
				continue
			}
			if i, err := strconv.Atoi(rest[:len(rest)-1]); err == nil && i >= off {
				cells[fmt.Sprintf("[%d]", int64(i-off)+total)] = mv
			}
		}
		total += l - int64(off)
	}
	s.redefine(strings.TrimPrefix(id, "a!"))
	for c, v := range cells {
		s.mem[id+c] = v
	}
	s.mem[id+"#len"] = Val{K: KConst, S: strconv.FormatInt(total, 10)}
	return Val{K: KPtr, S: id}, true
}

func (k *codecClient) Exit(e *Engine, s *State, kind ExitKind, instr ssa.Instruction, res []Val) {
	if kind != ExitReturn {
		return
	}
	if n := len(res); n > 0 && isErrorType(k.root.Signature.Results().At(n-1).Type()) && s.isNil(res[n-1]) == 0 {
		return
	}
	k.exit(e, s, instr, res)
}

// explore runs fn
func (k *codecClient) explore(fn *ssa.Function, init func(*State)) bool {
	e := NewEngine(k.w, k)
	e.Strings, e.Numbers, e.Special, e.RootID = true, true, k.special, "r"
	k.root = fn
	e.Run(fn, init)
	return !e.Over
}

// layoutOfBytes describes what the bytes v hold in terms of the value called param
func layoutOfBytes(e *Engine, s *State, v Val, rename func(string) string) (map[string]string, bool) {
	if v.K == KOpaque && !strings.Contains(v.S, "@") {
		if x := rename(v.String()); x != "" {
			return map[string]string{"all": x}, true
		}
	}
	base, off, ok := bytesAt(e, s, v)
	if !ok || off != 0 {
		return nil, false
	}
	out := map[string]string{}
	for m, mv := range s.mem {
		rest, ok := strings.CutPrefix(m, base+"[")
		if !ok || !strings.HasSuffix(rest, "]") {
			continue
		}
		x := mv.S
		if in, ok := strings.CutPrefix(x, "id<"); ok {
			x = rename(strings.TrimSuffix(in, ">;"))
			if x == "" {
				return nil, false
			}
			x = "id " + x
		} else if x = rename(mv.String()); x != "" {
			x = "byte " + x
		} else {
			return nil, false
		}
		out[strings.TrimSuffix(rest, "]")] = x
	}
	return out, len(out) > 0
}

// paramPath gives the path of a value within the parameter called name
func paramPath(name string) func(string) string {
	return func(v string) string {
		v = strings.TrimPrefix(v, "o")
		root := "r:" + name + ";"
		if v == root {
			return "$"
		}
		for _, p := range []string{"*", "**"} {
			if rest, ok := strings.CutPrefix(v, p+root); ok && strings.HasSuffix(rest, ";") {
				return "$" + strings.TrimSuffix(rest, ";")
			}
		}
		return ""
	}
}

// encoderLayout summarises func(T) ([]byte, error)
func (k *codecClient) encoderLayout(fn *ssa.Function) (string, bool) {
	var sums []string
	good := true
	name := fn.Params[len(fn.Params)-1].Name()
	k.exit = func(e *Engine, s *State, instr ssa.Instruction, res []Val) {
		m, ok := layoutOfBytes(e, s, res[0], paramPath(name))
		if !ok {
			good = false
			k.bad(instr, "it cannot be told from which parts of the value the bytes are made")
			return
		}
		if _, all := m["all"]; !all {
			// no part overlaps another one or the end
			base, _, _ := bytesAt(e, s, res[0])
			end := map[int]int{}
			var offs []int
			for o, x := range m {
				n, _ := strconv.Atoi(o)
				offs = append(offs, n)
				end[n] = n + 1
				if strings.HasPrefix(x, "id ") {
					end[n] = n + idLen(k.w)
				}
			}
			sort.Ints(offs)
			for i, o := range offs {
				if i > 0 && end[offs[i-1]] > o {
					good = false
					k.bad(instr, "two parts of the record overlap at byte %d", o)
				}
				if n, ok := s.lenOf(Val{K: KPtr, S: base}); ok && int64(end[o]) > n {
					good = false
					k.bad(instr, "a part of the record at byte %d does not fit into the %d bytes", o, n)
				}
			}
		}
		if base, off, ok := bytesAt(e, s, res[0]); ok && off == 0 && s.mem[base+"#len"].K == KConst {
			k.length = s.mem[base+"#len"].S
		}
		sums = append(sums, layoutText(m))
	}
	if !k.explore(fn, nil) {
		return "", false
	}
	return oneOf(sums, good)
}

func layoutText(m map[string]string) string {
	var out []string
	for o, x := range m {
		out = append(out, x+" at "+o)
	}
	sort.Strings(out)
	return strings.Join(out, ", ")
}

func oneOf(sums []string, good bool) (string, bool) {
	if !good || len(sums) == 0 {
		return strings.Join(sums, " or "), false
	}
	for _, s := range sums {
		if s != sums[0] {
			return strings.Join(sums, " or "), false
		}
	}
	return sums[0], true
}

// decoderLayout summarises func(*T, []byte) error
func (k *codecClient) decoderLayout(fn *ssa.Function) (string, bool) {
	var sums []string
	good := true
	n := len(fn.Params)
	dest, src := "*r:"+fn.Params[n-2].Name()+";", "r:"+fn.Params[n-1].Name()+";"
	k.exit = func(e *Engine, s *State, instr ssa.Instruction, res []Val) {
		var out []string
		for m, v := range s.mem {
			if !strings.HasPrefix(m, dest) {
				continue
			}
			path := "$" + m[len(dest):]
			switch {
			case v.K == KOpaque && v.S == src:
				out = append(out, path+" at all")
			case strings.HasPrefix(v.S, "id@*"+src+"["):
				out = append(out, "id "+path+" at "+strings.TrimSuffix(strings.TrimPrefix(v.S, "id@*"+src+"["), "];"))
			case strings.HasPrefix(v.S, "**"+src+"["):
				out = append(out, "byte "+path+" at "+strings.TrimSuffix(strings.TrimPrefix(v.S, "**"+src+"["), "];"))
			default:
				good = false
				k.bad(instr, "it cannot be told from which bytes %s is read", path)
				return
			}
		}
		sort.Strings(out)
		sums = append(sums, strings.Join(out, ", "))
	}
	// it is given what the encoder made
	if !k.explore(fn, func(s *State) {
		if k.length != "" {
			s.mem["*"+src+"#len"] = Val{K: KConst, S: k.length}
		}
	}) {
		return "", false
	}
	return oneOf(sums, good)
}

func idLen(w *World) int {
	for _, fn := range w.Fns {
		if fn.Pkg != nil && fn.Pkg.Pkg != nil && strings.HasSuffix(fn.Pkg.Pkg.Path(), "triplestore/impl") {
			if c, ok := fn.Pkg.Pkg.Scope().Lookup("IDLen").(*types.Const); ok {
				n, _ := strconv.Atoi(c.Val().ExactString())
				return n
			}
		}
	}
	return 4
}

// storedParts lists the parts of a value that have to be stored
func storedParts(t types.Type, path string, out map[string]bool) {
	if isID(t) || isIDType(t) {
		out[path] = true
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			storedParts(u.Field(i).Type(), path+"."+u.Field(i).Name(), out)
		}
	case *types.Array:
		for i := int64(0); i < u.Len() && i < 64; i++ {
			storedParts(u.Elem(), fmt.Sprintf("%s[%d]", path, i), out)
		}
	default:
		out[path] = true
	}
}

// pairOK compares an encoder with a decoder for values of type t
func (c *Ctx) codecPair(t types.Type, enc, dec *ssa.Function, where string) {
	k := &codecClient{w: c.W}
	cur := enc
	k.bad = func(instr ssa.Instruction, format string, args ...any) {
		c.Bad("layout", fname(cur), instr.Pos(), format, args...)
	}
	a, ok1 := k.encoderLayout(enc)
	cur = dec
	b, ok2 := k.decoderLayout(dec)
	c.Ob("layout", fmt.Sprintf("%s: %s / %s: %s", where, fname(enc), fname(dec), a))
	if !ok1 || !ok2 {
		c.Bad("layout", fname(enc)+" / "+fname(dec), enc.Pos(), "no single layout can be established: written is {%s}, read is {%s}", a, b)
		return
	}
	if a != b {
		c.Bad("layout", fname(enc)+" / "+fname(dec), enc.Pos(), "what is written, {%s}, is not what is read, {%s}", a, b)
		return
	}
	if strings.HasSuffix(a, " at all") {
		return
	}
	need := map[string]bool{}
	storedParts(t, "$", need)
	for _, p := range sortedKeys(need) {
		if !strings.Contains(", "+a, " "+p+" at ") {
			c.Bad("layout", fname(enc)+" / "+fname(dec), enc.Pos(), "%s is not stored", p)
		}
	}
}

func init() {
	register(&Check{
		Prop:    "C13",
		Explain: "encoders and decoders are interpreted over symbolic bytes and compared; the functions set for each disk storage are paired; keys of the disk index are compared between all operations",
		Floors:  map[string]int{"layout": 6, "storage-config": 3, "three-layout": 3, "primitive": 2, "disk-operation": 4, "gob-record": 1},
		Run: func(c *Ctx) {
			checkCodecPrimitives(c)
			checkDiskConfigs(c)
			checkDiskOps(c)
			checkThreeDisk(c)
			checkGobRecords(c)
		},
	})
}

// checkCodecPrimitives: the bytes of an identifier are copied completely, in both directions
func checkCodecPrimitives(c *Ctx) {
	for _, dir := range []struct {
		name string
		dst  int // which argument of copy is the identifier
	}{{"Encode", 1}, {"Decode", 0}} {
		fn := methodOf(c.W, "triplestore/impl", "ID", dir.name)
		if fn == nil {
			c.BadAt("primitive", "ID."+dir.name, "internal/triplestore/impl", "", "it does not exist")
			continue
		}
		c.Ob("primitive", fname(fn))
		n := 0
		for _, b := range fn.Blocks {
			for _, instr := range b.Instrs {
				call, ok := instr.(*ssa.Call)
				if !ok {
					continue
				}
				bi, ok := call.Call.Value.(*ssa.Builtin)
				if !ok || bi.Name() != "copy" {
					continue
				}
				n++
				whole := func(v ssa.Value) bool {
					sl, ok := v.(*ssa.Slice)
					if !ok {
						return v == fn.Params[1]
					}
					return sl.Low == nil && (sl.High == nil || dir.dst >= 0 && isConstInt(sl.High, int64(idLen(c.W))))
				}
				fromParam := func(v ssa.Value) bool {
					for {
						sl, ok := v.(*ssa.Slice)
						if !ok {
							return v == fn.Params[1]
						}
						v = sl.X
					}
				}
				if !whole(call.Call.Args[0]) || !whole(call.Call.Args[1]) || fromParam(call.Call.Args[dir.dst]) || !fromParam(call.Call.Args[1-dir.dst]) {
					c.Bad("primitive", fname(fn), call.Pos(), "the bytes of the identifier are not copied completely and in this direction")
				}
			}
		}
		if n != 1 {
			c.Bad("primitive", fname(fn), fn.Pos(), "the bytes of the identifier are copied %d times", n)
		}
	}
}

func isConstInt(v ssa.Value, n int64) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value != nil && k.Int64() == n
}

// diskStorageNew: a call that makes a key-value storage on disk
func diskStorageNew(com *ssa.CallCommon) (types.Type, bool) {
	sc := com.StaticCallee()
	if sc == nil || com.Signature().Results().Len() == 0 {
		return nil, false
	}
	t := com.Signature().Results().At(0).Type()
	n := namedOf(t)
	if n == nil || !isDiskStorage(n) || !strings.HasPrefix(origin(sc).Name(), "New") {
		return nil, false
	}
	return t, true
}

func isDiskStorage(n *types.Named) bool {
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	has := 0
	for i := 0; i < st.NumFields(); i++ {
		switch st.Field(i).Name() {
		case "MarshalKey", "UnmarshalKey", "MarshalValue", "UnmarshalValue":
			has++
		}
	}
	return has == 4
}

func checkDiskConfigs(c *Ctx) {
	roots := map[*ssa.Function]bool{}
	for _, fn := range c.W.Fns {
		if !isRepo(fn) || fn.Synthetic != "" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, instr := range b.Instrs {
				if call, ok := instr.(ssa.CallInstruction); ok {
					if _, ok := diskStorageNew(call.Common()); ok {
						roots[outermost(fn)] = true
					}
				}
			}
		}
	}
	// helpers that make one for somebody else are part of their callers
	for changed := true; changed; {
		changed = false
		for fn := range roots {
			res := fn.Signature.Results()
			if res.Len() == 0 || namedOf(res.At(0).Type()) == nil || !isDiskStorage(namedOf(res.At(0).Type())) {
				continue
			}
			if calls := callersOf(fn); len(calls) > 0 {
				delete(roots, fn)
				for _, call := range calls {
					roots[outermost(call.Parent())] = true
				}
				changed = true
				break
			}
		}
	}
	var list []*ssa.Function
	for fn := range roots {
		if strings.Contains(fname(fn), "New") && fn.TypeParams().Len() > 0 {
			continue
		}
		list = append(list, fn)
	}
	sort.Slice(list, func(i, j int) bool { return fname(list[i]) < fname(list[j]) })
	done := map[string]bool{}
	for _, fn := range list {
		k := &codecClient{w: c.W}
		k.bad = func(instr ssa.Instruction, format string, args ...any) {
			c.Bad("storage-config", fname(fn), instr.Pos(), format, args...)
		}
		made := map[string]types.Type{}
		k.call = func(e *Engine, s *State, cs *CallSite) ([]Outcome, bool) {
			t, ok := diskStorageNew(cs.Instr.Common())
			if !ok {
				return nil, false
			}
			id := "a!disk" + cs.ResID
			made[id] = t
			return []Outcome{
				{Val: Val{K: KTuple, T: []Val{{K: KPtr, S: id}, {K: KNil}}}, Apply: func(s *State) {
					for _, f := range []string{"MarshalKey", "UnmarshalKey", "MarshalValue", "UnmarshalValue"} {
						s.mem[id+"."+f] = opaque("default;")
					}
				}},
				{Val: Val{K: KTuple, T: []Val{{K: KNil}, {K: KNonNil, S: "open"}}}},
			}, true
		}
		k.exit = func(e *Engine, s *State, instr ssa.Instruction, res []Val) {
			for id, t := range made {
				if len(res) == 0 || res[0].S != id {
					continue
				}
				ta := typeArgs(t)
				for i, part := range []string{"Key", "Value"} {
					enc, dec := s.mem[id+".Marshal"+part], s.mem[id+".Unmarshal"+part]
					c.ObOnce("storage-config", fname(fn)+" "+part)
					switch {
					case enc.S == "default;" && dec.S == "default;":
						if x := jsonLoses(ta[i], 0); x != "" {
							k.bad(instr, "the default encoding of the %s does not keep %s", strings.ToLower(part), relPath(x))
						}
					case enc.K == KFunc && dec.K == KFunc:
						key := fmt.Sprint(enc.Fn, dec.Fn, ta[i])
						if !done[key] {
							done[key] = true
							c.codecPair(ta[i], enc.Fn, dec.Fn, fname(fn)+" "+part)
						}
					default:
						k.bad(instr, "only one direction of the encoding of the %s is set", strings.ToLower(part))
					}
				}
			}
		}
		if !k.explore(fn, nil) {
			c.Bad("undecided", fname(fn), fn.Pos(), "too many paths to decide")
		}
		if len(made) == 0 {
			c.Bad("storage-config", fname(fn), fn.Pos(), "the storage that is made cannot be followed")
		}
	}
}

// jsonLoses: parts of a value that the default encoding would not keep
func jsonLoses(t types.Type, depth int) string {
	if depth > 8 {
		return ""
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !u.Field(i).Exported() {
				return u.Field(i).Name() + " of " + t.String()
			}
			if x := jsonLoses(u.Field(i).Type(), depth+1); x != "" {
				return x
			}
		}
	case *types.Array:
		return jsonLoses(u.Elem(), depth+1)
	case *types.Slice:
		return jsonLoses(u.Elem(), depth+1)
	case *types.Map:
		return jsonLoses(u.Elem(), depth+1)
	case *types.Pointer:
		return jsonLoses(u.Elem(), depth+1)
	case *types.Signature, *types.Chan, *types.Interface:
		return t.String()
	}
	return ""
}

func isLevelDB(cs *CallSite, method string) bool {
	return cs.Name() == "(*github.com/syndtr/goleveldb/leveldb.DB)."+method
}

// checkDiskOps: the operations of the key-value storage use its encoders for what they are for
func checkDiskOps(c *Ctx) {
	var typ *types.Named
	for _, fn := range c.W.Fns {
		if rn := recvNamed(fn); rn != nil && isRepo(fn) && isDiskStorage(rn) {
			typ = rn
		}
	}
	if typ == nil {
		c.BadAt("disk-operation", "disk storage", "internal/triplestore/imap", "", "no storage with encoders was found")
		return
	}
	seen := map[string]bool{}
	for _, fn := range c.W.Fns {
		rn := recvNamed(fn)
		if rn != typ || fn.Blocks == nil || fn.Parent() != nil || fn.Synthetic != "" || seen[fn.Name()] || origin(fn) != fn && hasBody(origin(fn)) {
			continue
		}
		seen[fn.Name()] = true
		if servesOthers(c.W, fn) {
			continue // judged where it is used
		}
		fn := fn
		k := &codecClient{w: c.W}
		bad := func(cs *CallSite, format string, args ...any) {
			c.Bad("disk-operation", fname(fn), cs.Instr.Pos(), format, args...)
		}
		used := false
		k.call = func(e *Engine, s *State, cs *CallSite) ([]Outcome, bool) {
			tup := func(vs ...Val) Val { return Val{K: KTuple, T: vs} }
			fails := func(n int) Outcome { return errOutcome(n) }
			is := func(v Val, prefix string) bool { return v.K == KOpaque && strings.HasPrefix(v.S, "fn:"+prefix+"(") }
			if cs.Static == nil && cs.Iface == nil {
				f := strings.TrimSuffix(cs.Fn.S, ";")
				f = f[strings.LastIndexByte(f, '.')+1:]
				switch f {
				case "MarshalKey", "MarshalValue":
					used = true
					c.Ob("disk-operation", fn.Name()+": "+f)
					return []Outcome{{Val: tup(term(f, cs.Args[0]), Val{K: KNil})}, fails(2)}, true
				case "UnmarshalKey", "UnmarshalValue":
					used = true
					c.Ob("disk-operation", fn.Name()+": "+f)
					src := cs.Args[1]
					if f == "UnmarshalKey" && !is(src, "dbkey") || f == "UnmarshalValue" && !is(src, "dbval") {
						bad(cs, "%s is given something else (%s) than what was stored for it", f, src)
					}
					dest, ok := e.addr(s, cs.Args[0])
					return []Outcome{{Val: Val{K: KNil}, Apply: func(s *State) {
						if ok {
							s.setMem(dest, term(f, src))
						}
					}}, {Val: Val{K: KNonNil, S: "decode"}}}, true
				}
				if len(cs.Args) == 2 && (is(cs.Args[0], "UnmarshalKey") || is(cs.Args[1], "UnmarshalKey") || is(cs.Args[1], "UnmarshalValue")) {
					c.Ob("disk-operation", fn.Name()+": entry passed on")
					if !is(cs.Args[0], "UnmarshalKey") || !is(cs.Args[1], "UnmarshalValue") {
						bad(cs, "what is passed on is not the key and the value of the entry")
					}
				}
				return nil, false
			}
			for _, m := range []string{"Put", "Get", "Has", "Delete"} {
				if !isLevelDB(cs, m) {
					continue
				}
				c.Ob("disk-operation", fn.Name()+": "+m)
				if !is(cs.Args[1], "MarshalKey") || !strings.Contains(cs.Args[1].S, "(or:") {
					bad(cs, "the entry is not addressed by the encoded key")
				}
				switch m {
				case "Put":
					if !is(cs.Args[2], "MarshalValue") {
						bad(cs, "what is stored is not the encoded value")
					}
					return nil, false
				case "Get":
					return []Outcome{{Val: tup(term("dbval", cs.Args[1]), Val{K: KNil})}, fails(2)}, true
				}
				return nil, false
			}
			if cs.Iface != nil && len(cs.Args) == 1 && strings.Contains(cs.Iface.FullName(), "iterator") {
				switch cs.Iface.Name() {
				case "Key":
					return []Outcome{{Val: term("dbkey", cs.Args[0])}}, true
				case "Value":
					return []Outcome{{Val: term("dbval", cs.Args[0])}}, true
				}
			}
			return nil, false
		}
		k.exit = func(e *Engine, s *State, instr ssa.Instruction, res []Val) {
			if fn.Name() != "Get" || len(res) != 3 || res[1].K != KBool || res[1].N == 0 {
				return
			}
			c.ObOnce("disk-operation", "Get: result")
			if !strings.HasPrefix(res[0].S, "fn:UnmarshalValue(") {
				c.Bad("disk-operation", fname(fn), instr.Pos(), "what is returned is not the decoded value")
			}
		}
		if !k.explore(fn, nil) {
			c.Bad("undecided", fname(fn), fn.Pos(), "too many paths to decide")
		}
		_ = used
	}
}

// servesOthers: the function works on bytes that another function of the same type hands to it
func servesOthers(w *World, fn *ssa.Function) bool {
	if token.IsExported(fn.Name()) {
		return false
	}
	bytes := false
	for _, p := range fn.Params {
		bytes = bytes || isByteSlice(p.Type())
	}
	if !bytes {
		return false
	}
	for _, caller := range w.Fns {
		top := caller
		for top.Parent() != nil {
			top = top.Parent()
		}
		if caller == fn || origin(top) == origin(fn) || recvNamed(top) == nil {
			continue
		}
		for _, b := range caller.Blocks {
			for _, ins := range b.Instrs {
				if call, ok := ins.(ssa.CallInstruction); ok {
					if st := call.Common().StaticCallee(); st != nil && origin(st) == origin(fn) {
						return true
					}
				}
			}
		}
	}
	return false
}

func hasBody(fn *ssa.Function) bool { return fn != nil && fn.Blocks != nil }

// checkThreeDisk: all operations of an index on disk agree about its keys and values
func checkThreeDisk(c *Ctx) {
	types3 := map[*types.Named]map[string]*ssa.Function{}
	for _, fn := range c.W.Fns {
		rn := recvNamed(fn)
		if rn == nil || !isRepo(fn) || fn.Parent() != nil || fn.Synthetic != "" || fn.Blocks == nil || !holdsLevelDB(rn) {
			continue
		}
		if types3[rn] == nil {
			types3[rn] = map[string]*ssa.Function{}
		}
		types3[rn][fn.Name()] = fn
	}
	n := 0
	for _, rn := range sortedNamed(types3) {
		ms := types3[rn]
		add, has, fetch := ms["Add"], ms["Has"], ms["Fetch"]
		if add == nil || has == nil || fetch == nil {
			continue
		}
		n++
		c.threeLayout(rn.Obj().Name(), add, has, fetch)
	}
	if n == 0 {
		c.BadAt("three-layout", "disk index", "internal/triplestore/igraph", "", "no index on disk was found")
	}
}

func sortedNamed[V any](m map[*types.Named]V) []*types.Named {
	var out []*types.Named
	for t := range m {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func holdsLevelDB(n *types.Named) bool {
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if strings.HasSuffix(st.Field(i).Type().String(), "goleveldb/leveldb.DB") {
			return true
		}
	}
	return false
}

func (c *Ctx) threeLayout(name string, add, has, fetch *ssa.Function) {
	tup := func(vs ...Val) Val { return Val{K: KTuple, T: vs} }
	var keyAdd, keyHas, prefix, valAdd string
	run := func(fn *ssa.Function, extra func(k *codecClient, e *Engine, s *State, cs *CallSite) ([]Outcome, bool), exit func(e *Engine, s *State, instr ssa.Instruction, res []Val)) {
		k := &codecClient{w: c.W}
		k.bad = func(instr ssa.Instruction, format string, args ...any) {
			c.Bad("three-layout", fname(fn), instr.Pos(), format, args...)
		}
		k.call = func(e *Engine, s *State, cs *CallSite) ([]Outcome, bool) { return extra(k, e, s, cs) }
		k.exit = func(e *Engine, s *State, instr ssa.Instruction, res []Val) {
			if exit != nil {
				exit(e, s, instr, res)
			}
		}
		if !k.explore(fn, nil) {
			c.Bad("undecided", fname(fn), fn.Pos(), "too many paths to decide")
		}
	}
	// which parameter a value is, or that it is the label
	rename := func(fn *ssa.Function) func(string) string {
		return func(v string) string {
			if v == "oresolved;" {
				return "label"
			}
			for i, p := range fn.Params {
				if v == "or:"+p.Name()+";" || v == "o*a!r:"+p.Name()+";" {
					if i == 4 {
						return "label"
					}
					return fmt.Sprintf("#%d", i)
				}
			}
			return ""
		}
	}
	layout := func(fn *ssa.Function, e *Engine, s *State, cs *CallSite, v Val, into *string, what string) {
		m, ok := layoutOfBytes(e, s, v, rename(fn))
		c.Ob("three-layout", fmt.Sprintf("%s: %s: %s", fn.Name(), what, layoutText(m)))
		if !ok {
			c.Bad("three-layout", fname(fn), cs.Instr.Pos(), "it cannot be told what the %s consists of", what)
			return
		}
		t := layoutText(m)
		if *into != "" && *into != t {
			c.Bad("three-layout", fname(fn), cs.Instr.Pos(), "the %s is {%s} here, but {%s} elsewhere", what, t, *into)
		}
		*into = t
	}
	get := func(into *string, fn *ssa.Function) func(k *codecClient, e *Engine, s *State, cs *CallSite) ([]Outcome, bool) {
		return func(k *codecClient, e *Engine, s *State, cs *CallSite) ([]Outcome, bool) {
			switch {
			case isLevelDB(cs, "Get"), isLevelDB(cs, "Has"):
				layout(fn, e, s, cs, cs.Args[1], into, "key")
				if isLevelDB(cs, "Has") {
					return nil, false
				}
				return []Outcome{{Val: tup(opaque("dbval;"), Val{K: KNil})}, {Val: tup(Val{K: KNil}, Val{K: KNonNil, S: "get"})}}, true
			case isLevelDB(cs, "Put"):
				layout(fn, e, s, cs, cs.Args[1], into, "key")
				layout(fn, e, s, cs, cs.Args[2], &valAdd, "value")
			case cs.Static == nil && cs.Iface == nil && len(cs.Args) == 2:
				k.resolve(c, fn, cs)
				return []Outcome{{Val: tup(opaque("resolved;"), Val{K: KNil})}, errOutcome(2)}, true
			}
			return nil, false
		}
	}
	run(add, get(&keyAdd, add), nil)
	run(has, get(&keyHas, has), func(e *Engine, s *State, instr ssa.Instruction, res []Val) {
		if len(res) == 3 && res[1].K == KBool && res[1].N == 1 {
			c.ObOnce("three-layout", "Has: label")
			got := res[0].S
			if m := strings.TrimSuffix(strings.TrimPrefix(got, "id@*dbval;["), "];"); got == m || valAdd != "id label at "+m {
				c.Bad("three-layout", fname(has), instr.Pos(), "the label that is returned (%s) is not where it was stored (%s)", got, valAdd)
			}
		}
	})
	nFetch := 0
	run(fetch, func(k *codecClient, e *Engine, s *State, cs *CallSite) ([]Outcome, bool) {
		name := cs.Name()
		switch {
		case strings.HasSuffix(name, "leveldb/util.BytesPrefix"):
			layout(fetch, e, s, cs, cs.Args[0], &prefix, "prefix")
		case cs.Iface != nil && len(cs.Args) == 1 && strings.Contains(cs.Iface.FullName(), "iterator") && (cs.Iface.Name() == "Key" || cs.Iface.Name() == "Value"):
			return []Outcome{{Val: opaque("db" + strings.ToLower(cs.Iface.Name()) + ";")}}, true
		case cs.Static == nil && cs.Iface == nil && len(cs.Args) == 2:
			nFetch++
			c.ObOnce("three-layout", "Fetch: entry")
			node := strings.TrimSuffix(strings.TrimPrefix(cs.Args[0].S, "id@*dbkey;["), "];")
			label := strings.TrimSuffix(strings.TrimPrefix(cs.Args[1].S, "id@*dbvalue;["), "];")
			if prefix+", id #3 at "+node != keyAdd {
				c.Bad("three-layout", fname(fetch), cs.Instr.Pos(), "entries are listed by {%s} with the node at %s, but stored with the key {%s}", prefix, node, keyAdd)
			}
			if "id label at "+label != valAdd {
				c.Bad("three-layout", fname(fetch), cs.Instr.Pos(), "the label is read at %s, but stored as {%s}", label, valAdd)
			}
		}
		return nil, false
	}, nil)
	if keyAdd == "" || keyAdd != keyHas {
		c.Bad("three-layout", fname(has), has.Pos(), "entries are stored with the key {%s}, but looked up with {%s}", keyAdd, keyHas)
	}
	if nFetch == 0 {
		c.Bad("three-layout", fname(fetch), fetch.Pos(), "no entries are passed on")
	}
}

// resolve: a conflict is resolved between what is stored and what is new
func (k *codecClient) resolve(c *Ctx, fn *ssa.Function, cs *CallSite) {
	c.ObOnce("three-layout", fn.Name()+": conflict")
	if !strings.HasPrefix(cs.Args[0].S, "id@*dbval;[") || cs.Args[1].S != "r:"+fn.Params[4].Name()+";" {
		c.Bad("three-layout", fname(fn), cs.Instr.Pos(), "a conflict is not resolved between the stored label and the new one")
	}
}

// gobProblems: parts of t that gob does not keep or cannot encode
func gobProblems(t types.Type, seen map[types.Type]bool, path string, regs map[string]bool) (out []string) {
	if seen[t] {
		return nil
	}
	seen[t] = true
	if _, isIface := t.Underlying().(*types.Interface); !isIface {
		for _, m := range []string{"GobEncode", "MarshalBinary"} {
			if o, _, _ := types.LookupFieldOrMethod(types.NewPointer(derefType(t)), true, nil, m); o != nil {
				d := map[string]string{"GobEncode": "GobDecode", "MarshalBinary": "UnmarshalBinary"}[m]
				if o, _, _ := types.LookupFieldOrMethod(types.NewPointer(derefType(t)), true, nil, d); o == nil {
					return []string{fmt.Sprintf("%s has %s but no %s", path, m, d)}
				}
				return nil
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		exported := 0
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if !f.Exported() {
				out = append(out, fmt.Sprintf("%s.%s is not exported and would be lost", path, f.Name()))
				continue
			}
			exported++
			switch f.Type().Underlying().(type) {
			case *types.Signature, *types.Chan:
				out = append(out, fmt.Sprintf("%s.%s is a %s and would be lost", path, f.Name(), f.Type()))
				continue
			}
			out = append(out, gobProblems(f.Type(), seen, path+"."+f.Name(), regs)...)
		}
		if exported == 0 {
			out = append(out, path+" has no exported fields")
		}
	case *types.Pointer:
		out = append(out, gobProblems(u.Elem(), seen, path, regs)...)
	case *types.Slice:
		out = append(out, gobProblems(u.Elem(), seen, path+"[]", regs)...)
	case *types.Array:
		out = append(out, gobProblems(u.Elem(), seen, path+"[]", regs)...)
	case *types.Map:
		out = append(out, gobProblems(u.Key(), seen, path+"{key}", regs)...)
		out = append(out, gobProblems(u.Elem(), seen, path+"{}", regs)...)
	case *types.Signature, *types.Chan:
		out = append(out, path+" cannot be encoded")
	case *types.Interface:
		if len(regs) == 0 {
			out = append(out, path+" is an interface of which no implementation is registered")
		}
	}
	return out
}

// gobCalls lists the types that functions encode or decode with gob
func gobCalls(w *World, method string) map[*ssa.Call]types.Type {
	out := map[*ssa.Call]types.Type{}
	for _, fn := range w.Fns {
		if !isRepo(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, instr := range b.Instrs {
				call, ok := instr.(*ssa.Call)
				if !ok || call.Call.StaticCallee() == nil || len(call.Call.Args) != 2 {
					continue
				}
				if n := qualName(call.Call.StaticCallee()); n == "(*encoding/gob.Encoder)."+method || n == "(*encoding/gob.Decoder)."+method {
					out[call] = unwrapIface(call.Call.Args[1]).Type()
				}
			}
		}
	}
	return out
}

func checkGobRecords(c *Ctx) {
	dec := map[string]bool{}
	for _, t := range gobCalls(c.W, "Decode") {
		dec[derefType(t).String()] = true
	}
	for call, t := range gobCalls(c.W, "Encode") {
		t = derefType(t)
		n := namedOf(t)
		if n == nil || n.Obj().Pkg() == nil || !strings.HasSuffix(n.Obj().Pkg().Path(), "sparkl/storages") {
			continue
		}
		c.Ob("gob-record", relPath(t.String()))
		for _, p := range gobProblems(t, map[types.Type]bool{}, n.Obj().Name(), nil) {
			c.Bad("gob-record", n.Obj().Name(), call.Pos(), "%s", p)
		}
		if !dec[t.String()] {
			c.Bad("gob-record", n.Obj().Name(), call.Pos(), "what is stored is never read back as the same type")
		}
	}
}
