package main

// C12: what an index export writes is what an import reads.
//
// The functions that write to a gob.Encoder and those that read from a gob.Decoder
// are interpreted; the items they exchange, in order, with their types and the place
// they come from or end up in, must agree on every path that succeeds.

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const gobEncoder, gobDecoder = "*encoding/gob.Encoder", "*encoding/gob.Decoder"

func gobParam(fn *ssa.Function, typ string) *ssa.Parameter {
	for _, p := range fn.Params {
		if typeName(p.Type()) == typ {
			return p
		}
	}
	return nil
}

// itemCodec: the function takes an encoder (or decoder) and one value of any type
func itemCodec(fn *ssa.Function, typ string) bool {
	if fn == nil || gobParam(fn, typ) == nil {
		return false
	}
	for _, p := range fn.Params {
		switch t := p.Type().Underlying().(type) {
		case *types.Interface:
			return t.NumMethods() == 0
		default:
			if typeName(p.Type()) == "reflect.Value" {
				return true
			}
		}
	}
	return false
}

type formatItem struct {
	typ   types.Type
	codec string
	val   string
}

type formatClient struct {
	BaseClient
	c     *Ctx
	root  *ssa.Function
	enc   bool
	typ   string
	boxes map[string]formatBox
	paths []formatPath
	recur map[*ssa.Function]bool
}

type formatBox struct {
	typ types.Type
	val Val
}

type formatPath struct {
	items  []formatItem
	places map[string]string // what is at places of the receiver in the end
	resets map[string]bool
	equal  map[string]bool
	trace  string
	pos    token.Pos
}

func (k *formatClient) Inline(e *Engine, s *State, cs *CallSite, fn *ssa.Function) bool {
	if strings.Contains(fn.Synthetic, "wrapper") || strings.Contains(fn.Synthetic, "thunk") || strings.Contains(fn.Synthetic, "bound method") {
		return true
	}
	pkg := fnPkg(fn)
	return isRepo(fn) && !isStatsCode(fn) && !strings.HasSuffix(pkg, "/imap") && !strings.HasSuffix(pkg, "/igraph")
}

func (k *formatClient) special(e *Engine, s *State, instr ssa.Instruction) bool {
	if mi, ok := instr.(*ssa.MakeInterface); ok {
		if it, ok := mi.Type().Underlying().(*types.Interface); ok && it.NumMethods() == 0 {
			v := e.eval(s, mi.X)
			id := "box<" + mi.X.Type().String() + "|" + strings.ReplaceAll(v.String(), ";", "!") + ">;"
			k.boxes[id] = formatBox{mi.X.Type(), v}
			e.set(s, mi, opaque(id))
			return true
		}
	}
	return neverSet(e, s, instr)
}

// codecOf says how a call writes or reads an item: sgob in pieces, or in one go
func (k *formatClient) codecOf(cs *CallSite) (codec string, arg int) {
	if cs.Static == nil {
		return "", 0
	}
	sig := cs.Static.Signature
	if recv := sig.Recv(); recv != nil && typeName(recv.Type()) == k.typ {
		switch cs.Static.Name() {
		case "Encode", "EncodeValue", "Decode", "DecodeValue":
			return "whole", 1
		}
		return "", 0
	}
	if strings.HasSuffix(fnPkg(cs.Static), "/sgob") && itemCodec(cs.Static, k.typ) {
		for i, p := range cs.Static.Params {
			if typeName(p.Type()) != k.typ {
				return "pieces", i
			}
		}
	}
	return "", 0
}

func (k *formatClient) Call(e *Engine, s *State, cs *CallSite) ([]Outcome, bool) {
	if cs.Static == nil {
		return nil, false
	}
	pos := cs.Instr.Pos()
	if qualName(cs.Static) == "reflect.ValueOf" {
		return []Outcome{{Val: cs.Args[0]}}, true
	}
	if codec, arg := k.codecOf(cs); codec != "" {
		k.c.ObOnce("item", fname(s.top().fn)+" "+k.c.W.pos(pos))
		box, ok := k.boxes[cs.Args[arg].S]
		if !ok {
			k.c.BadAt("item", fname(s.top().fn), k.c.W.pos(pos), e.Trace(s), "cannot tell what is %s here", map[bool]string{true: "written", false: "read"}[k.enc])
			return []Outcome{{End: true}}, true
		}
		n := len(strings.Split(s.D["seq"], "\n")) - 1
		typ, val := box.typ, box.val.String()
		var key string
		if !k.enc {
			p, isPtr := typ.Underlying().(*types.Pointer)
			if !isPtr {
				k.c.BadAt("item", fname(s.top().fn), k.c.W.pos(pos), e.Trace(s), "what is read is not stored anywhere: %s is no pointer", typ)
				return []Outcome{{End: true}}, true
			}
			typ = p.Elem()
			key, ok = e.addr(s, box.val)
			if !ok {
				k.c.BadAt("item", fname(s.top().fn), k.c.W.pos(pos), e.Trace(s), "cannot tell where what is read is stored")
				return []Outcome{{End: true}}, true
			}
			val = fmt.Sprintf("decoded:%d;", n)
		}
		text := codec + "\t" + typ.String() + "\t" + val + "\n"
		formatTypes[typ.String()] = typ
		return []Outcome{
			{Val: Val{K: KNonNil, S: "failed"}},
			{Val: Val{K: KNil}, Apply: func(s *State) {
				s.D["seq"] += text
				if !k.enc {
					s.setMem(key, opaque(val))
				}
			}},
		}, true
	}
	callee := cs.Static
	if isRepo(callee) && k.Inline(e, s, cs, callee) {
		return nil, false
	}
	sig := callee.Signature
	if callee.Name() == "Reset" && sig.Recv() != nil && len(cs.Args) > 0 {
		obj := cs.Args[0].String()
		outs := []Outcome{{Val: Val{K: KNil}, Apply: func(s *State) { s.D["reset:"+obj] = "1" }}}
		if errResult(sig) {
			outs = append(outs, Outcome{Val: Val{K: KNonNil, S: "failed"}})
		}
		return outs, true
	}
	res := sig.Results()
	var in []string
	for _, a := range cs.Args {
		in = append(in, a.String())
	}
	id := "of<" + qualName(callee) + "|" + strings.Join(in, ",") + ">"
	if res.Len() == 2 && errResult(sig) {
		return []Outcome{{Val: tuple(opaque(id), Val{K: KNil})}, errOutcome(2)}, true
	}
	if res.Len() == 1 && !errResult(sig) && !isBool(res.At(0).Type()) {
		return []Outcome{{Val: opaque(id)}}, true
	}
	return nil, false
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func errResult(sig *types.Signature) bool {
	n := sig.Results().Len()
	return n > 0 && typeName(sig.Results().At(n-1).Type()) == "error"
}

var formatTypes = map[string]types.Type{}

// Compare remembers what decoded items were found to be equal to
func (k *formatClient) Compare(e *Engine, s *State, op *ssa.BinOp, x, y Val) []Outcome {
	if op.Op != token.EQL && op.Op != token.NEQ {
		return nil
	}
	d, o := x, y
	if !strings.HasPrefix(d.S, "decoded:") {
		d, o = y, x
	}
	if d.K != KOpaque || !strings.HasPrefix(d.S, "decoded:") {
		return nil
	}
	fact := "equal:" + d.S + "=" + o.String()
	return []Outcome{
		{Val: boolVal(op.Op == token.EQL), Apply: func(s *State) { s.D[fact] = "1" }},
		{Val: boolVal(op.Op != token.EQL)},
	}
}

func (k *formatClient) Exit(e *Engine, s *State, kind ExitKind, instr ssa.Instruction, res []Val) {
	if kind != ExitReturn || len(res) == 0 || s.isNil(res[len(res)-1]) == 0 {
		return
	}
	p := formatPath{places: map[string]string{}, resets: map[string]bool{}, equal: map[string]bool{}, trace: e.Trace(s), pos: instr.Pos()}
	for _, line := range strings.Split(strings.TrimSuffix(s.D["seq"], "\n"), "\n") {
		if f := strings.Split(line, "\t"); len(f) == 3 {
			p.items = append(p.items, formatItem{formatTypes[f[1]], f[0], f[2]})
		}
	}
	for key := range s.D {
		if r, ok := strings.CutPrefix(key, "reset:"); ok {
			p.resets[r] = true
		}
		if r, ok := strings.CutPrefix(key, "equal:"); ok {
			p.equal[r] = true
		}
	}
	// what is at the places of the receiver, through pointers
	var walk func(key, at string, depth int)
	walk = func(key, at string, depth int) {
		for mk, v := range s.mem {
			rest, ok := strings.CutPrefix(mk, key)
			if !ok || rest != "" && rest[0] != '.' {
				continue
			}
			p.places[at+rest] = v.String()
			if v.K == KPtr && depth < 6 && !strings.HasPrefix(v.S, "*recv;") {
				walk(v.S, at+rest, depth+1)
			}
		}
	}
	walk("*recv;", "recv", 0)
	k.paths = append(k.paths, p)
}

// recvPlace finds the places of the receiver mentioned in the text of a value
var recvPlace = regexp.MustCompile(`\**recv;?(?:\.\w+;?)*`)

func place(text string) string {
	return strings.NewReplacer("*", "", ";", "").Replace(text)
}

func placesIn(text string) (out []string) {
	for _, m := range recvPlace.FindAllString(text, -1) {
		out = append(out, place(m))
	}
	return
}

func (k *formatClient) run() {
	e := NewEngine(k.c.W, k)
	e.RootID, e.Strings, e.Numbers = "r", true, true
	e.Special = k.special
	e.Max = 1_500_000
	e.Params = map[string]Val{k.root.Params[0].Name(): opaque("recv;")}
	e.Run(k.root, nil)
	if e.Over {
		k.c.Bad("undecided", fname(k.root), k.root.Pos(), "too many paths to decide")
	}
}

// formatPairs are the types that can be written and read
func formatPairs(c *Ctx) (out [][2]*ssa.Function) {
	var encs, decs []*ssa.Function
	for _, fn := range c.W.Fns {
		if !isRepo(fn) || fn.Blocks == nil || fn.Synthetic != "" || fn.Parent() != nil || strings.HasSuffix(fnPkg(fn), "/sgob") || recvNamed(fn) == nil || !errResult(fn.Signature) || fn.Signature.Params().Len() != 1 {
			continue
		}
		if gobParam(fn, gobEncoder) != nil {
			encs = append(encs, fn)
		}
		if gobParam(fn, gobDecoder) != nil {
			decs = append(decs, fn)
		}
	}
	for _, en := range encs {
		for _, de := range decs {
			if recvNamed(en) == recvNamed(de) && strings.TrimPrefix(en.Name(), "En") == strings.Replace(strings.TrimPrefix(de.Name(), "De"), "From", "To", 1) {
				out = append(out, [2]*ssa.Function{en, de})
			}
		}
	}
	return
}

func checkPair(c *Ctx, en, de *ssa.Function) {
	name := typeName(recvNamed(en))
	ke := &formatClient{c: c, root: en, enc: true, typ: gobEncoder, boxes: map[string]formatBox{}}
	ke.run()
	kd := &formatClient{c: c, root: de, typ: gobDecoder, boxes: map[string]formatBox{}}
	kd.run()
	if len(ke.paths) == 0 || len(kd.paths) == 0 {
		c.Bad("undecided", name, en.Pos(), "no path writes or reads all of it")
		return
	}
	show := func(items []formatItem) string {
		var out []string
		for _, it := range items {
			out = append(out, strings.ReplaceAll(it.typ.String(), "github.com/FAU-CDI/hangover/", ""))
		}
		return strings.Join(out, ", ")
	}
	first := ke.paths[0]
	for _, p := range ke.paths[1:] {
		if show(p.items) != show(first.items) || len(p.items) != len(first.items) {
			c.BadAt("same-items", fname(en), c.W.pos(p.pos), p.trace, "what is written depends on the path taken: (%s) or (%s)", show(first.items), show(p.items))
			return
		}
	}
	c.Ob("pair", name)
	for _, p := range kd.paths {
		checkPaths(c, en, de, first, p)
	}
	// every field is part of the file or made anew
	st, ok := recvNamed(de).Underlying().(*types.Struct)
	if !ok {
		return
	}
	var fields func(st *types.Struct, at string)
	fields = func(st *types.Struct, at string) {
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			pl := at + "." + f.Name()
			direct, below := false, false
			for _, it := range first.items {
				for _, m := range placesIn(it.val) {
					direct = direct || m == pl
					below = below || strings.HasPrefix(m, pl+".")
				}
			}
			if !direct && below {
				t := f.Type()
				if isPointer(t) {
					t = t.Underlying().(*types.Pointer).Elem()
				}
				if sub, ok := t.Underlying().(*types.Struct); ok {
					fields(sub, pl)
					continue
				}
			}
			c.Ob("field", name+" "+pl)
			if direct {
				continue
			}
			for _, p := range kd.paths {
				v, set := p.places[pl]
				if !set || v == "nil" || strings.HasPrefix(v, "zero:") {
					c.BadAt("every-field", name+pl[4:], c.W.pos(f.Pos()), p.trace, "%s is neither part of what is written nor made anew when it is read", pl[5:])
					break
				}
				if hasReset(f.Type()) && !strings.Contains(v, "a!") {
					c.BadAt("every-field", name+pl[4:], c.W.pos(f.Pos()), p.trace, "%s is set up again, which empties what was just read, instead of made anew", pl[5:])
					break
				}
				if hasReset(f.Type()) && !p.resets[v] {
					c.BadAt("every-field", name+pl[4:], c.W.pos(f.Pos()), p.trace, "%s is made anew, but never set up", pl[5:])
					break
				}
			}
		}
	}
	fields(st, "recv")
}

// hasReset: the type is not ready for use before a call to Reset
func hasReset(t types.Type) bool {
	n := namedOf(t)
	if n == nil {
		return false
	}
	o, _, _ := types.LookupFieldOrMethod(types.NewPointer(n), true, n.Obj().Pkg(), "Reset")
	f, ok := o.(*types.Func)
	return ok && errResult(f.Type().(*types.Signature))
}

func checkPaths(c *Ctx, en, de *ssa.Function, w, r formatPath) {
	fn := fname(de)
	n := len(w.items)
	if len(r.items) != n {
		c.BadAt("same-items", fn, c.W.pos(r.pos), r.trace, "%d items are read, but %d are written", len(r.items), n)
		return
	}
	for i := range w.items {
		a, b := w.items[i], r.items[i]
		c.ObOnce("agree", fmt.Sprintf("%s item %d", fn, i))
		if !types.Identical(a.typ, b.typ) {
			c.BadAt("same-items", fn, c.W.pos(r.pos), r.trace, "item %d is written as a %s, but read as a %s", i, a.typ, b.typ)
			return
		}
		switch a.typ.Underlying().(type) {
		case *types.Map, *types.Slice:
			if a.codec != b.codec {
				c.BadAt("same-items", fn, c.W.pos(r.pos), r.trace, "item %d is written in %s, but read in %s", i, a.codec, b.codec)
				return
			}
		}
		for _, pr := range formatProblems(a.typ) {
			c.BadAt("survives", fname(en), c.W.pos(en.Pos()), w.trace, "item %d is not kept: %s", i, pr)
		}
		want := fmt.Sprintf("decoded:%d;", i)
		from := placesIn(a.val)
		if len(from) == 0 {
			// something fixed
			if !r.equal[want+"="+a.val] {
				c.BadAt("refused", fn, c.W.pos(r.pos), r.trace, "item %d is always %s when it is written, but is not compared to that when it is read", i, a.val)
			}
			continue
		}
		for _, pl := range from {
			got, ok := r.places[pl]
			if !ok {
				// part of something decoded or set as a whole?
				for up := pl; ; {
					j := strings.LastIndexByte(up, '.')
					if j < 0 {
						break
					}
					up = up[:j]
					if v, ok := r.places[up]; ok {
						got = v
						break
					}
				}
			}
			if !strings.Contains(got, want) {
				c.BadAt("same-place", fn, c.W.pos(r.pos), r.trace, "item %d is %s when it is written, but what is read does not end up there", i, pl[5:])
			}
		}
	}
}

// formatProblems lists what of a type does not survive being written
func formatProblems(t types.Type) (out []string) {
	for _, p := range gobProblems(t, map[types.Type]bool{}, types.TypeString(t, func(*types.Package) string { return "" }), nil) {
		if strings.Contains(p, "is not exported") && loggingField(t, p) {
			continue
		}
		out = append(out, p)
	}
	sort.Strings(out)
	return
}

// loggingField: the field is where messages go and no data
func loggingField(t types.Type, p string) bool {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if strings.Contains(p, "."+f.Name()+" is not exported") && statsValue(f.Type()) {
			return true
		}
	}
	return false
}

func init() {
	register(&Check{
		Prop:    "C12",
		Explain: "functions that write to a gob encoder and the matching ones that read from a decoder are interpreted; on every pair of paths that succeed the items must agree one by one in type, in how they are cut into pieces and in the place of the receiver they come from and end up in; fixed items must be compared; every field is part of the file or set up again",
		Assume:  []string{"encoding/gob reads back what it wrote for types without functions, channels, unexported fields or unregistered interfaces"},
		Floors:  map[string]int{"pair": 1, "item": 2, "agree": 8, "field": 5, "kind": 26, "nested": 6, "kept": 2},
		Run: func(c *Ctx) {
			nesting(c)
			for _, p := range formatPairs(c) {
				checkPair(c, p[0], p[1])
			}
		},
	})
}

// nestClient follows how one value is taken apart, or put together, for one kind of value
type nestClient struct {
	BaseClient
	c    *Ctx
	root *ssa.Function
	enc  bool
	kind int
	obj  string // the value that is written, or the one that is filled
	next map[[2]string]bool
	idx  map[string]string // how elements are counted
	quit bool
}

const kindPointer = 22 // reflect.Pointer

func (k *nestClient) bad(e *Engine, s *State, pos token.Pos, format string, args ...any) {
	k.c.BadAt("nesting", fname(s.top().fn), k.c.W.pos(pos), e.Trace(s), format, args...)
}

func (k *nestClient) Inline(e *Engine, s *State, cs *CallSite, fn *ssa.Function) bool {
	return isRepo(fn) && fn != k.root && !k.again(fn)
}

// again: the function does to any value what the root does
func (k *nestClient) again(fn *ssa.Function) bool {
	if fn == nil || !isRepo(fn) {
		return false
	}
	if fn == k.root {
		return true
	}
	typ := gobDecoder
	if k.enc {
		typ = gobEncoder
	}
	if fn.Blocks == nil || !itemCodec(fn, typ) {
		return false
	}
	// only passes on to the root
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			call, ok := i.(*ssa.Call)
			if ok && call.Call.StaticCallee() == k.root && len(fn.Blocks) == 1 {
				return true
			}
		}
	}
	return false
}

func (k *nestClient) step(s *State, what string) {
	k.next[[2]string{s.D["at"], what}] = true
	s.D["at"] = what
}

func failing(ok func(*State)) []Outcome {
	return []Outcome{{Val: Val{K: KNonNil, S: "failed"}}, {Val: Val{K: KNil}, Apply: ok}}
}

// counted says how the index of an element is counted: where it starts and by how much it changes
func counted(v ssa.Value) string {
	for {
		c, ok := v.(*ssa.Convert)
		if !ok {
			break
		}
		v = c.X
	}
	phi, ok := v.(*ssa.Phi)
	if !ok {
		return v.Name() + "?"
	}
	var out []string
	for _, ed := range phi.Edges {
		switch ed := ed.(type) {
		case *ssa.Const:
			out = append(out, "from "+ed.Value.String())
		case *ssa.BinOp:
			if ed.X == ssa.Value(phi) {
				if c, ok := ed.Y.(*ssa.Const); ok {
					out = append(out, "then "+ed.Op.String()+c.Value.String())
					continue
				}
			}
			out = append(out, "from "+ed.String())
		default:
			out = append(out, "from "+ed.Name())
		}
	}
	sort.Strings(out)
	// how it is used to end the loop
	for _, r := range *phi.Referrers() {
		if b, ok := r.(*ssa.BinOp); ok && (b.Op == token.LSS || b.Op == token.GEQ || b.Op == token.NEQ || b.Op == token.GTR || b.Op == token.LEQ || b.Op == token.EQL) {
			op := b.Op
			if b.X != ssa.Value(phi) {
				op = map[token.Token]token.Token{token.GTR: token.LSS, token.LSS: token.GTR, token.LEQ: token.GEQ, token.GEQ: token.LEQ}[op]
			}
			switch op {
			case token.LSS, token.GEQ, token.NEQ, token.EQL:
				out = append(out, "until the count")
			default:
				out = append(out, "while "+b.Op.String())
			}
		}
	}
	return strings.Join(out, ", ")
}

func (k *nestClient) Call(e *Engine, s *State, cs *CallSite) ([]Outcome, bool) {
	pos := cs.Instr.Pos()
	if cs.Iface != nil && typeName(cs.Instr.Common().Value.Type()) == "reflect.Type" {
		t := cs.Args[0].S
		switch cs.Iface.Name() {
		case "Kind":
			kind := k.kind
			if !k.enc && t == "type<"+k.obj+">;" {
				kind = kindPointer
			} else if t != "type<"+k.obj+">;" && t != "elem<type<"+k.obj+">>;" {
				return nil, false
			}
			return []Outcome{{Val: Val{K: KConst, S: strconv.Itoa(kind)}}}, true
		case "Elem", "Key":
			return []Outcome{{Val: opaque(strings.ToLower(cs.Iface.Name()) + "<" + strings.TrimSuffix(t, ";") + ">;")}}, true
		}
		return nil, false
	}
	if cs.Static == nil {
		return nil, false
	}
	name := cs.Static.Name()
	recv := cs.Static.Signature.Recv()
	rt := ""
	if recv != nil {
		rt = typeName(recv.Type())
	}
	arg := func(i int) string {
		if i < len(cs.Args) {
			return strings.TrimSuffix(cs.Args[i].S, ";")
		}
		return ""
	}
	switch {
	case k.again(cs.Static):
		k.c.ObOnce("nested", fname(s.top().fn)+" "+k.c.W.pos(pos))
		v := arg(len(cs.Args) - 1)
		for i, p := range cs.Static.Params {
			if typeName(p.Type()) == "reflect.Value" {
				v = arg(i)
			}
		}
		what := k.part(e, s, v, pos)
		if what == "" {
			return []Outcome{{End: true}}, true
		}
		return failing(func(s *State) { k.step(s, what) }), true
	case rt == gobEncoder || rt == gobDecoder:
		k.c.ObOnce("nested", fname(s.top().fn)+" "+k.c.W.pos(pos))
		v := arg(1)
		switch name {
		case "EncodeValue", "DecodeValue":
			if v != k.obj {
				k.bad(e, s, pos, "it is not the value itself that is handed to gob")
				return []Outcome{{End: true}}, true
			}
			return failing(func(s *State) { k.step(s, "the value as a whole") }), true
		case "Encode", "Decode":
			t := ""
			if len(cs.ArgV) > 1 {
				if mi, ok := cs.ArgV[1].(*ssa.MakeInterface); ok {
					t = mi.X.Type().String()
				}
			}
			if k.enc {
				if !strings.Contains(v, "len<"+k.obj+">") {
					k.bad(e, s, pos, "it is not the number of elements that is written")
					return []Outcome{{End: true}}, true
				}
				return failing(func(s *State) { k.step(s, "count ("+t+")") }), true
			}
			key := ""
			if a, ok := e.addr(s, cs.Args[1]); ok {
				key = a
			}
			return failing(func(s *State) {
				if key != "" {
					s.setMem(key, opaque("count;"))
				}
				k.step(s, "count ("+strings.TrimPrefix(t, "*")+")")
			}), true
		}
		return nil, false
	}
	switch qualName(cs.Static) {
	case "reflect.New":
		id := "new<" + cs.ResID + ":" + arg(0) + ">"
		delete(s.D, "used:"+id)
		return []Outcome{{Val: opaque(id + ";")}}, true
	case "reflect.MakeMapWithSize", "reflect.MakeMap", "reflect.MakeSlice":
		id := "made:" + arg(0)
		if name == "MakeSlice" && !strings.Contains(arg(1), "count") {
			k.bad(e, s, pos, "the slice is not made as long as what was written")
		}
		return []Outcome{{Val: opaque(id + ";")}}, true
	case "reflect.Zero":
		return []Outcome{{Val: opaque("zero:" + arg(0) + ";")}}, true
	case "reflect.Append":
		return nil, false
	}
	if rt == "*reflect.MapIter" || rt == "reflect.MapIter" {
		switch name {
		case "Next":
			return []Outcome{{Val: boolVal(true)}, {Val: boolVal(false)}}, true
		case "Key", "Value":
			return []Outcome{{Val: opaque(strings.ToLower(name) + "<" + arg(0) + ">;")}}, true
		}
		return nil, false
	}
	if rt != "reflect.Value" {
		return nil, false
	}
	v := arg(0)
	switch name {
	case "Type":
		return []Outcome{{Val: opaque("type<" + v + ">;")}}, true
	case "Kind":
		kind := k.kind
		if !k.enc && v == k.obj {
			kind = kindPointer
		}
		return []Outcome{{Val: Val{K: KConst, S: strconv.Itoa(kind)}}}, true
	case "Elem":
		return []Outcome{{Val: opaque("elem<" + v + ">;")}}, true
	case "Len":
		return []Outcome{{Val: opaque("len<" + v + ">;")}}, true
	case "MapRange":
		return []Outcome{{Val: Val{K: KNonNil, S: "iter<" + v + ">"}}}, true
	case "Index":
		k.idx[fname(s.top().fn)+" "+v] = counted(cs.ArgV[1])
		return []Outcome{{Val: opaque("at<" + v + ">;")}}, true
	case "SetMapIndex":
		k.c.ObOnce("kept", fname(s.top().fn)+" "+k.c.W.pos(pos))
		if !strings.HasPrefix(v, "made:") || s.D["kept"] != "" || arg(1) != "elem<"+s.D["read:key"]+">" || arg(2) != "elem<"+s.D["read:value"]+">" {
			k.bad(e, s, pos, "the key and the value that were just read are not what is put into the map")
			return []Outcome{{End: true}}, true
		}
		return []Outcome{{Val: Val{K: KConst, S: "void"}, Apply: func(s *State) { k.step(s, "kept") }}}, true
	case "Set":
		k.c.ObOnce("kept", fname(s.top().fn)+" "+k.c.W.pos(pos))
		switch {
		case v == "elem<"+k.obj+">":
			if !strings.HasPrefix(arg(1), "made:elem<type<"+k.obj) {
				k.bad(e, s, pos, "what was put together is not what is given back")
				return []Outcome{{End: true}}, true
			}
			return []Outcome{{Val: Val{K: KConst, S: "void"}, Apply: func(s *State) { k.step(s, "given back") }}}, true
		case strings.HasPrefix(v, "at<made:"):
			if arg(1) != "elem<"+s.D["read:element"]+">" {
				k.bad(e, s, pos, "the element that was just read is not what is put into the slice")
				return []Outcome{{End: true}}, true
			}
			return []Outcome{{Val: Val{K: KConst, S: "void"}, Apply: func(s *State) { k.step(s, "kept") }}}, true
		}
	}
	return nil, false
}

// part names the part of the value that v is
func (k *nestClient) part(e *Engine, s *State, v string, pos token.Pos) string {
	if k.enc {
		switch v {
		case "key<iter<" + k.obj + ">>", "key<nn:iter<" + k.obj + ">>":
			return "key"
		case "value<iter<" + k.obj + ">>", "value<nn:iter<" + k.obj + ">>":
			return "value"
		case "at<" + k.obj + ">":
			return "element"
		}
		k.bad(e, s, pos, "it is no part of the value that is written")
		return ""
	}
	// a new value of some type
	i := strings.LastIndex(v, ":")
	if !strings.HasPrefix(v, "new<") || i < 0 {
		// directly into the slice
		if strings.HasPrefix(v, "addr<at<made:") {
			return "element"
		}
		k.bad(e, s, pos, "what is read is not put into a new value")
		return ""
	}
	if s.D["used:"+v] != "" {
		k.bad(e, s, pos, "what is read is put into a value that still holds what was read before, which decoding does not clear")
		return ""
	}
	what := ""
	switch t := strings.TrimSuffix(v[i+1:], ">"); t {
	case "key<elem<type<" + k.obj + ">>>":
		what = "key"
	case "elem<elem<type<" + k.obj + ">>>":
		what = map[bool]string{true: "value", false: "element"}[k.kind == 21]
	default:
		k.bad(e, s, pos, "what is read is put into a value of another type")
		return ""
	}
	s.D["used:"+v] = "1"
	s.D["read:"+what] = v
	return what
}

func (k *nestClient) Exit(e *Engine, s *State, kind ExitKind, instr ssa.Instruction, res []Val) {
	if kind == ExitReturn && len(res) == 1 && s.isNil(res[0]) != 0 {
		k.step(s, "end")
	}
}

func (k *nestClient) run() {
	e := NewEngine(k.c.W, k)
	e.RootID, e.Strings = "r", true
	e.Special = neverSet
	e.Params = map[string]Val{}
	for _, p := range k.root.Params {
		if typeName(p.Type()) == "reflect.Value" {
			e.Params[p.Name()] = opaque(k.obj + ";")
		}
	}
	e.Run(k.root, func(s *State) { s.D["at"] = "start" })
	if e.Over {
		k.c.Bad("undecided", fname(k.root), k.root.Pos(), "too many paths to decide")
	}
}

// nesting compares how values of every kind are written and read
func nesting(c *Ctx) {
	var en, de *ssa.Function
	for _, fn := range c.W.Fns {
		if !isRepo(fn) || fn.Blocks == nil || fn.Signature.Recv() != nil || !strings.HasSuffix(fnPkg(fn), "/sgob") || !capital(fn.Name()) {
			continue
		}
		value := false
		for _, p := range fn.Params {
			value = value || typeName(p.Type()) == "reflect.Value"
		}
		if value && gobParam(fn, gobEncoder) != nil {
			en = fn
		}
		if value && gobParam(fn, gobDecoder) != nil {
			de = fn
		}
	}
	if en == nil || de == nil {
		return
	}
	for kind := 1; kind <= 26; kind++ {
		ke := &nestClient{c: c, root: en, enc: true, kind: kind, obj: "obj", next: map[[2]string]bool{}, idx: map[string]string{}}
		ke.run()
		kd := &nestClient{c: c, root: de, kind: kind, obj: "obj", next: map[[2]string]bool{}, idx: map[string]string{}}
		kd.run()
		c.Ob("kind", strconv.Itoa(kind))
		// what is read is kept before anything else happens
		after := func(what string) (out []string) {
			for st := range kd.next {
				if st[0] == what {
					out = append(out, st[1])
				}
			}
			sort.Strings(out)
			return
		}
		for _, last := range []string{"value", "element"} {
			for _, n := range after(last) {
				if n != "kept" {
					c.Bad("nesting", fname(de), de.Pos(), "after the %s of kind %d was read it is not kept", last, kind)
				}
			}
		}
		whole := kd.next[[2]string{"start", "the value as a whole"}]
		for st := range kd.next {
			if st[1] == "end" && st[0] != "given back" && st[0] != "the value as a whole" {
				c.Bad("nesting", fname(de), de.Pos(), "a value of kind %d is read up to its %s, but not given back", kind, st[0])
			}
		}
		_ = whole
		got := drop(drop(kd.next, "kept"), "given back")
		if w, r := steps(ke.next), steps(got); w != r {
			c.Bad("nesting", fname(de), de.Pos(), "values of kind %d are written as (%s), but read as (%s)", kind, w, r)
		}
		if a, b := sortedVals(ke.idx), sortedVals(kd.idx); a != b {
			c.Bad("nesting", fname(de), de.Pos(), "elements are counted (%s) when they are written, but (%s) when they are read", a, b)
		}
	}
}

// drop removes a step, joining what comes before it to what comes after
func drop(next map[[2]string]bool, what string) map[[2]string]bool {
	out := map[[2]string]bool{}
	for a := range next {
		if a[0] == what {
			continue
		}
		if a[1] != what {
			out[a] = true
			continue
		}
		for b := range next {
			if b[0] == what {
				out[[2]string{a[0], b[1]}] = true
			}
		}
	}
	return out
}

func steps(next map[[2]string]bool) string {
	var out []string
	for st := range next {
		out = append(out, st[0]+" then "+st[1])
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}

func sortedVals(m map[string]string) string {
	var out []string
	for _, v := range m {
		out = append(out, v)
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}
