package main

// C16: SQL exports bind all data as parameters and start from fresh tables.

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	sqlbPkg = "github.com/huandu/go-sqlbuilder"
	pbPkg   = "github.com/FAU-CDI/drincw/pathbuilder"
)

// properLoop: the natural loop with header h
func properLoop(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	out := map[*ssa.BasicBlock]bool{h: true}
	var work []*ssa.BasicBlock
	for _, p := range h.Preds {
		if h.Dominates(p) {
			work = append(work, p)
		}
	}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if out[b] {
			continue
		}
		out[b] = true
		work = append(work, b.Preds...)
	}
	return out
}

// fieldLoop: the innermost loop with header h goes through a list of fields
func fieldLoop(h *ssa.BasicBlock) bool {
	if !hasBackEdge(h) {
		return false
	}
	l := properLoop(h)
	for b := range l {
		if loopOf(b) != h {
			continue
		}
		for _, instr := range b.Instrs {
			if ia, ok := instr.(*ssa.IndexAddr); ok {
				if sl, ok := ia.X.Type().Underlying().(*types.Slice); ok {
					if n := namedOf(sl.Elem()); n != nil && n.Obj().Name() == "Field" && n.Obj().Pkg().Path() == pbPkg {
						return true
					}
				}
			}
		}
	}
	return false
}

// partKind: a machine name of a bundle (B) or a field (F)
func machineNameOf(v ssa.Value) string {
	for i := 0; i < 6; i++ {
		switch x := v.(type) {
		case *ssa.UnOp:
			v = x.X
			continue
		case *ssa.FieldAddr:
			if n := namedOf(x.X.Type()); n != nil && (n.Obj().Name() == "Bundle" || n.Obj().Name() == "Field") {
				return n.Obj().Name()[:1]
			}
			v = x.X
			continue
		case *ssa.Field:
			if n := namedOf(x.X.Type()); n != nil && (n.Obj().Name() == "Bundle" || n.Obj().Name() == "Field") {
				return n.Obj().Name()[:1]
			}
			v = x.X
			continue
		}
		break
	}
	return "P"
}

// flat writes a text with its unknown parts in brackets
func flat(v Val) string {
	var b strings.Builder
	for _, p := range strParts(v) {
		if c, ok := constStr(p); ok {
			b.WriteString(c)
		} else {
			b.WriteString("<" + strings.TrimSuffix(p.S, ";") + ">")
		}
	}
	return b.String()
}

var unknownPart = regexp.MustCompile(`<[^<>]*>`)

// shapeOf keeps of every unknown part only what it is
func shapeOf(t string) string {
	return unknownPart.ReplaceAllStringFunc(t, func(p string) string {
		if strings.HasPrefix(p, "<mn:") {
			return "<" + p[4:5] + ">"
		}
		return "<?>"
	})
}

type sqlTable struct {
	shape string
	guard string
	cols  map[string]bool
	pos   token.Pos
	at    string
}

type sqlClient struct {
	BaseClient
	c       *Ctx
	root    *ssa.Function
	made    *[]sqlTable
	filled  *[]sqlTable
	counts  map[string]map[string]bool // per loop over fields: appends per iteration
	where   map[string]string
	loops   map[*ssa.BasicBlock]bool
	rowsCmp *int
	done    map[string]bool // work that was looked at
}

func (k *sqlClient) Inline(e *Engine, s *State, cs *CallSite, fn *ssa.Function) bool {
	return isRepo(fn)
}

func (k *sqlClient) bad(e *Engine, s *State, rule string, instr ssa.Instruction, format string, args ...any) {
	k.c.BadAt(rule, fname(instr.Parent()), k.c.W.pos(instr.Pos()), e.Trace(s), format, args...)
}

func (k *sqlClient) Load(e *Engine, s *State, instr ssa.Instruction, key string, t types.Type) []Outcome {
	u, ok := instr.(*ssa.UnOp)
	if !ok {
		return nil
	}
	if fa, ok := u.X.(*ssa.FieldAddr); ok && fieldName(fa.X.Type(), fa.Field) == "Parent" && pkgOfType(fa.X.Type()) == pbPkg {
		outs := forkSetting(s, "toplevel")
		for i, o := range outs {
			if o.Val.N == 1 {
				outs[i].Val = Val{K: KNil}
			} else {
				outs[i].Val = Val{K: KNonNil, S: key}
			}
		}
		return outs
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			if n := namedOf(fa.X.Type()); n != nil && n == recvNamed(k.root) {
				return forkSetting(s, fieldName(fa.X.Type(), fa.Field))
			}
		}
	}
	return nil
}

// guard: the settings a path depends on
func (k *sqlClient) guard(s *State) string {
	var out []string
	for f, v := range s.D {
		if rest, ok := strings.CutPrefix(f, "set:"); ok {
			out = append(out, rest+"="+v)
		}
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

func rowElem(t types.Type) (string, bool) {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return "", false
	}
	switch el := sl.Elem().Underlying().(type) {
	case *types.Interface:
		return "row", el.NumMethods() == 0
	case *types.Basic:
		return "col", el.Kind() == types.String
	case *types.Slice:
		if i, ok := el.Elem().Underlying().(*types.Interface); ok && i.NumMethods() == 0 {
			return "rows", true
		}
	}
	return "", false
}

// valueKind says what of an entity a value is
func valueKind(s *State, v Val) string {
	switch v.K {
	case KConst:
		return "other"
	}
	t := strings.TrimRight(v.S, ";")
	i := strings.LastIndexByte(t, '.')
	last := t[i+1:]
	switch {
	case i > 0 && last == "URI":
		if strings.Contains(s.D["parents"], "|"+v.S+"|") {
			return "parent"
		}
		return "uri"
	case i > 0 && last == "Value":
		return "value"
	case i > 0 && last == "Language":
		return "lang"
	}
	return "other"
}

// colKind says what a column is for
func colKind(t string) string {
	switch {
	case strings.Contains(t, "<mn:F"):
		return "field"
	case strings.Contains(t, "<"):
		return "other"
	}
	return t
}

// seqAdd appends a kind, folding the columns of all fields into one
func seqAdd(seq, kind string) string {
	if kind == "field" || kind == "other" {
		kind = "field*"
	}
	l := strings.Split(seq, ",")
	if seq == "" {
		return kind
	}
	if kind == "field*" && l[len(l)-1] == kind {
		return seq
	}
	return seq + "," + kind
}

func sameSeq(cols, row string) bool {
	if cols == row {
		return true
	}
	// the same list of fields is empty or not in both
	return strings.TrimSuffix(cols, ",field*") == strings.TrimSuffix(row, ",field*")
}

func (k *sqlClient) isParent(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return k.isParent(x.X, seen)
	case *ssa.ChangeType:
		return k.isParent(x.X, seen)
	case *ssa.Convert:
		return k.isParent(x.X, seen)
	case *ssa.Phi:
		for _, ed := range x.Edges {
			if k.isParent(ed, seen) {
				return true
			}
		}
	case *ssa.Parameter:
		n := namedOf(x.Type())
		return n != nil && n.Obj().Name() == "Label"
	case *ssa.UnOp:
		if a, ok := x.X.(*ssa.Alloc); ok {
			if st := onlyStore(a); st != nil {
				return k.isParent(st, seen)
			}
		}
	}
	return false
}

// kindsOf: what the values put into a row are
func (k *sqlClient) kindsOf(s *State, vals []Val, src []ssa.Value) []string {
	var out []string
	for i, v := range vals {
		kd := valueKind(s, v)
		if i < len(src) && src[i] != nil && k.isParent(src[i], map[ssa.Value]bool{}) {
			kd = "parent"
		}
		out = append(out, kd)
	}
	return out
}

// packed lists the SSA values of a variadic argument
func packed(v ssa.Value) []ssa.Value {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	a, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	arr, ok := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok {
		return nil
	}
	out := make([]ssa.Value, arr.Len())
	for _, r := range *a.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		c, ok := ia.Index.(*ssa.Const)
		if !ok {
			continue
		}
		for _, rr := range *ia.Referrers() {
			if st, ok := rr.(*ssa.Store); ok && st.Addr == ia {
				out[c.Int64()] = st.Val
			}
		}
	}
	return out
}

func (k *sqlClient) count(s *State, what string) {
	s.D["n:"+what] += "x"
	if len(s.D["n:"+what]) > 3 {
		s.D["n:"+what] = "xxx"
	}
}

func (k *sqlClient) endRow(s *State) {
	if r := s.D["row"]; r != "" {
		s.D["rows"] = joinSemi(s.D["rows"], r)
	}
	s.D["row"] = ""
}

func joinSemi(l, x string) string {
	m := map[string]bool{x: true}
	for _, p := range strings.Split(l, ";") {
		if p != "" {
			m[p] = true
		}
	}
	return strings.Join(sortedKeys(m), ";")
}

func (k *sqlClient) Call(e *Engine, s *State, cs *CallSite) ([]Outcome, bool) {
	name := cs.Name()
	if b, ok := cs.Instr.Common().Value.(*ssa.Builtin); ok && !cs.Instr.Common().IsInvoke() {
		if b.Name() != "append" || len(cs.Args) != 2 {
			return nil, false
		}
		kind, _ := rowElem(cs.ArgV[0].Type())
		vals, ok := e.variadic(s, cs.ArgV[1], cs.Args[1])
		src := packed(cs.ArgV[1])
		switch kind {
		case "row":
			if cs.Args[0].K == KNil {
				k.endRow(s)
			}
			if !ok {
				k.bad(e, s, "undecided", cs.Instr, "cannot tell which values are added to a row")
				break
			}
			for _, kd := range k.kindsOf(s, vals, src) {
				s.D["row"] = seqAdd(s.D["row"], kd)
				k.count(s, "row")
			}
		case "rows":
			if cs.Args[0].K == KNil {
				s.D["rows"] = ""
			}
			if !ok {
				break
			}
			for i, v := range vals {
				if el, ok := s.elems(v); ok {
					var es []ssa.Value
					if i < len(src) && src[i] != nil {
						es = packed(src[i])
					}
					seq := ""
					for _, kd := range k.kindsOf(s, el, es) {
						seq = seqAdd(seq, kd)
					}
					s.D["rows"] = joinSemi(s.D["rows"], seq)
				}
			}
		case "col":
			// the value carries the list of columns
			base, ok1 := colList(e, s, cs.ArgV[0], cs.Args[0])
			if !ok1 {
				base = nil
			}
			more, ok2 := colList(e, s, cs.ArgV[1], cs.Args[1])
			for _, t := range more {
				ok2 = ok2 && colKind(t) != "other"
			}
			if ok2 {
				for _, t := range more {
					k.count(s, "col")
					if !hasItem(strings.Join(base, "\x01"), t) {
						base = append(base[:len(base):len(base)], t)
					}
				}
				return []Outcome{{Val: opaque("colseq:{" + strings.Join(base, "\x01") + "};")}}, true
			}
		}
		return e.strCall(s, cs)
	}
	if fn := cs.Static; fn != nil && k.root.Name() != "Begin" && cs.Iface == nil && isRepo(fn) && fn.Parent() == nil && isErrorType2(fn.Signature) {
		// the same work for the same settings adds nothing new
		if key, ok := k.workKey(s, cs); ok {
			if k.done[key] {
				return []Outcome{{Val: Val{K: KNil}}, {Val: Val{K: KNonNil, S: "failed"}}}, true
			}
			k.done[key] = true
		}
	}
	if !isRepoPath(pkgOfName(cs)) {
		switch {
		case strings.HasSuffix(name, "/pathbuilder.Path).MachineName"):
			kd := machineNameOf(cs.ArgV[0])
			return []Outcome{{Val: opaque("mn:" + kd + ":" + cs.Args[0].S + ";")}}, true
		case strings.HasSuffix(name, "/pathbuilder.Bundle).IsToplevel"):
			return forkSetting(s, "toplevel"), true
		}
	}
	if strings.HasPrefix(name, "(*"+sqlbPkg+".") || strings.HasPrefix(name, sqlbPkg+".") {
		return k.builder(e, s, cs, name)
	}
	switch name {
	case "(*database/sql.DB).Exec", "(*database/sql.Tx).Exec", "(*database/sql.DB).ExecContext", "(*database/sql.Tx).ExecContext", "(*database/sql.Conn).ExecContext":
		a := 1
		if strings.HasSuffix(name, "Context") {
			a = 2
		}
		k.exec(e, s, cs, a)
		return []Outcome{{Val: Val{K: KTuple, T: []Val{opaque(cs.ResID), {K: KNil}}}}}, true
	case "os.Exit":
		return []Outcome{{End: true}}, true
	}
	return e.strCall(s, cs)
}

// workKey: what the work of a function depends on
func (k *sqlClient) workKey(s *State, cs *CallSite) (string, bool) {
	var b strings.Builder
	b.WriteString(fname(cs.Static))
	lists := false
	for i, a := range cs.Args {
		if a.K == KPtr && strings.HasPrefix(a.S, "a!") || a.K == KFunc {
			return "", false
		}
		b.WriteString("|" + a.String())
		kind, ok := rowElem(cs.ArgV[i].Type())
		lists = lists || ok && kind != ""
	}
	args := b.String()
	for _, d := range sortedKeys(s.D) {
		kind, id, named := strings.Cut(d, ":")
		switch {
		case kind == "set":
		case named && kind != "n":
			// what is known about a statement
			if !strings.Contains(args, id) {
				continue
			}
		case !lists:
			continue
		}
		b.WriteString("|" + d + "=" + s.D[d])
	}
	return b.String(), true
}

// colList: the columns of a list of texts
func colList(e *Engine, s *State, src ssa.Value, v Val) ([]string, bool) {
	if v.K == KNil {
		return nil, true
	}
	if l, ok := strings.CutPrefix(v.S, "colseq:{"); ok && v.K == KOpaque {
		l = strings.TrimSuffix(l, "};")
		if l == "" {
			return nil, true
		}
		return strings.Split(l, "\x01"), true
	}
	if vals, ok := e.variadic(s, src, v); ok {
		var out []string
		for _, x := range vals {
			out = append(out, flat(x))
		}
		return out, true
	}
	return nil, false
}

func overOf(t string) string {
	for _, p := range unknownPart.FindAllString(t, -1) {
		if strings.HasPrefix(p, "<mn:F:") {
			return p
		}
	}
	return ""
}

func pkgOfName(cs *CallSite) string {
	if cs.Static != nil {
		return pkgPathOf(cs.Static)
	}
	return ""
}

func (k *sqlClient) builder(e *Engine, s *State, cs *CallSite, name string) ([]Outcome, bool) {
	short := name[strings.LastIndexByte(name, '.')+1:]
	recv := cs.Sig.Recv() != nil
	id := cs.ResID
	if recv {
		id = cs.Args[0].S
	}
	self := []Outcome{{Val: opaque(id)}}
	texts := func(from int) []string {
		var out []string
		for i := from; i < len(cs.Args); i++ {
			if cs.Sig.Variadic() && i == len(cs.Args)-1 {
				if vals, ok := e.variadic(s, cs.ArgV[i], cs.Args[i]); ok {
					for _, v := range vals {
						out = append(out, flat(v))
					}
					continue
				}
			}
			out = append(out, flat(cs.Args[i]))
		}
		return out
	}
	first := 0
	if recv {
		first = 1
	}
	switch short {
	case "CreateTable", "CreateTempTable":
		s.D["b:"+id] = "create|" + texts(first)[0]
		s.D["d:"+id] = ""
		return self, true
	case "InsertInto", "ReplaceInto", "InsertIgnoreInto":
		s.D["b:"+id] = "insert|" + texts(first)[0]
		s.D["d:"+id] = ""
		return self, true
	case "IfNotExists", "Option", "SetFlavor":
		return self, true
	case "Define":
		if t := texts(first); len(t) > 0 {
			s.D["d:"+id] = joinSemi2(s.D["d:"+id], t[0], true)
		}
		return self, true
	case "Cols":
		// the list as it was put together
		all, ok := colList(e, s, cs.ArgV[1], cs.Args[1])
		if !ok {
			k.bad(e, s, "undecided", cs.Instr, "cannot tell which columns are listed")
		}
		seq := ""
		s.D["colover"] = ""
		for _, t := range all {
			seq = seqAdd(seq, colKind(t))
			if colKind(t) == "field" {
				s.D["colover"] = overOf(t)
			}
		}
		s.D["c:"+id] = seq
		for _, t := range all {
			s.D["d:"+id] = joinSemi2(s.D["d:"+id], t, true)
		}
		return self, true
	case "Values":
		k.endRow(s)
		cols := s.D["c:"+id]
		for _, r := range strings.Split(s.D["rows"], ";") {
			if r == "" {
				continue
			}
			*k.rowsCmp++
			k.c.ObOnce("sql-row-order", fmt.Sprintf("%s: columns %s, values %s", k.c.W.pos(cs.Instr.Pos()), cols, r))
			if !sameSeq(cols, r) {
				k.bad(e, s, "sql-row-order", cs.Instr, "the values of a row (%s) are not in the order of the columns (%s)", r, cols)
			}
		}
		if a, b := s.D["colover"], s.D["rowover"]; a != "" && b != "" && strings.Contains(cols, "field*") {
			k.c.ObOnce("sql-row-fields", k.c.W.pos(cs.Instr.Pos()))
			if container(a) != container(b) {
				k.bad(e, s, "sql-row-fields", cs.Instr, "the columns are listed for the fields %s, the values for the fields %s", a, b)
			}
		}
		return self, true
	case "Build", "BuildWithFlavor":
		text := Val{K: KStr, T: []Val{strConst("?"), opaque("sqlb:" + id)}}
		return []Outcome{{Val: Val{K: KTuple, T: []Val{text, opaque("sqlargs:" + id)}}}}, true
	}
	if cs.Sig.Results().Len() == 1 && recv && types.Identical(cs.Sig.Results().At(0).Type(), cs.Sig.Recv().Type()) {
		return self, true
	}
	return nil, false
}

// container: the list an element is taken from
func container(p string) string {
	if i := strings.LastIndex(p, "[*]"); i >= 0 {
		return p[:i]
	}
	return p
}

var (
	dropText   = regexp.MustCompile(`(?i)^\s*DROP\s+TABLE\s+IF\s+EXISTS\s+(.*?)\s*;?\s*$`)
	createText = regexp.MustCompile(`(?i)^\s*CREATE\s+TABLE\s+(?:IF\s+NOT\s+EXISTS\s+)?([^\s(]+)\s*\((.*)$`)
	insertText = regexp.MustCompile(`(?i)^\s*INSERT\s+INTO\s+([^\s(]+)`)
)

func (k *sqlClient) exec(e *Engine, s *State, cs *CallSite, a int) {
	q := cs.Args[a]
	pos := k.c.W.pos(cs.Instr.Pos())
	parts := strParts(q)
	if len(parts) == 2 && strings.HasPrefix(parts[1].S, "sqlb:") {
		id := strings.TrimPrefix(parts[1].S, "sqlb:")
		kind, tbl, _ := strings.Cut(s.D["b:"+id], "|")
		var cols []string
		for _, c := range strings.Split(s.D["d:"+id], "\x01") {
			if c != "" {
				cols = append(cols, c)
			}
		}
		args := cs.Args[len(cs.Args)-1]
		k.c.ObOnce("sql-arguments", pos+" "+kind)
		if args.S != "sqlargs:"+id && kind == "insert" {
			k.bad(e, s, "sql-arguments", cs.Instr, "a statement is executed without the arguments it was built with")
		}
		k.statement(e, s, cs, kind, tbl, cols)
		if kind == "insert" {
			s.D["rows"], s.D["row"] = "", ""
		}
		return
	}
	t := flat(q)
	switch {
	case dropText.MatchString(t):
		k.statement(e, s, cs, "drop", dropText.FindStringSubmatch(t)[1], nil)
	case createText.MatchString(t):
		k.statement(e, s, cs, "create", createText.FindStringSubmatch(t)[1], nil)
	case insertText.MatchString(t):
		k.statement(e, s, cs, "insert", insertText.FindStringSubmatch(t)[1], nil)
	case strings.Contains(t, "<"):
		k.bad(e, s, "undecided", cs.Instr, "cannot tell what the statement %s does", t)
	}
}

func (k *sqlClient) statement(e *Engine, s *State, cs *CallSite, kind, tbl string, cols []string) {
	k.c.ObOnce("sql-fresh", fmt.Sprintf("%s %s under %q in %s", kind, shapeOf(tbl), k.guard(s), fname(k.root)))
	set := map[string]bool{}
	for _, c := range cols {
		set[shapeOf(c)] = true
	}
	t := sqlTable{shape: shapeOf(tbl), guard: k.guard(s), cols: set, pos: cs.Instr.Pos(), at: fname(k.root)}
	switch kind {
	case "drop":
		s.D["dropped"] = joinSemi2(s.D["dropped"], tbl, true)
	case "create":
		if !hasItem(s.D["dropped"], tbl) {
			k.bad(e, s, "sql-fresh", cs.Instr, "the table %s is created without dropping an existing one first: rows of an earlier export stay in it", t.shape)
		}
		s.D["dropped"] = joinSemi2(s.D["dropped"], tbl, false)
		*k.made = append(*k.made, t)
	case "insert":
		*k.filled = append(*k.filled, t)
	}
}

func hasItem(l, x string) bool {
	for _, p := range strings.Split(l, "\x01") {
		if p == x {
			return true
		}
	}
	return false
}

func joinSemi2(l, x string, add bool) string {
	m := map[string]bool{}
	for _, p := range strings.Split(l, "\x01") {
		if p != "" && p != x {
			m[p] = true
		}
	}
	if add {
		m[x] = true
	}
	return strings.Join(sortedKeys(m), "\x01")
}

func (k *sqlClient) Instr(e *Engine, s *State, instr ssa.Instruction) bool {
	f := s.top()
	switch ins := instr.(type) {
	case *ssa.MakeSlice:
		k.newList(s, ins.Type())
	case *ssa.Slice:
		a, ok := ins.X.(*ssa.Alloc)
		if !ok || isPack(ins) {
			break
		}
		k.newList(s, ins.Type())
		if c, ok := ins.High.(*ssa.Const); ok && c.Int64() == 0 {
			break
		}
		if kind, _ := rowElem(ins.Type()); kind == "row" {
			if el, ok := e.variadic(s, ins, e.eval(s, a)); ok {
				for _, kd := range k.kindsOf(s, el, packed(ins)) {
					s.D["row"] = seqAdd(s.D["row"], kd)
				}
			}
		}
	case *ssa.Lookup:
		// which field a value of an entity belongs to
		if fa := mapField(ins.X); fa == "Fields" {
			if kv := e.eval(s, ins.Index); strings.HasPrefix(kv.S, "mn:") {
				s.D["rowover"] = "<" + strings.TrimSuffix(kv.S, ";") + ">"
			}
		}
	case *ssa.Jump, *ssa.If:
		if k.hasLoops(f.fn) {
			s.D["pb:"+f.id] = fmt.Sprint(f.block.Index)
		}
	}
	if b := instr.Block(); b != nil && len(b.Instrs) > 0 && b.Instrs[firstReal(b)] == instr && k.isLoop(b) {
		key := fmt.Sprintf("%s#%d", fname(b.Parent()), b.Index)
		k.where[key] = k.c.W.pos(instr.Pos())
		if p := s.D["pb:"+f.id]; p != "" && k.inLoop(b, p) {
			for _, w := range []string{"row", "col"} {
				kk := w + "|" + key
				if k.counts[kk] == nil {
					k.counts[kk] = map[string]bool{}
				}
				k.counts[kk][s.D["n:"+w]] = true
			}
		}
		delete(s.D, "n:row")
		delete(s.D, "n:col")
	}
	return true
}

func (k *sqlClient) newList(s *State, t types.Type) {
	switch kind, _ := rowElem(t); kind {
	case "row":
		k.endRow(s)
	case "rows":
		s.D["rows"], s.D["row"] = "", ""
	}
}

// isPack: a list that only carries the variable arguments of a call
func isPack(v *ssa.Slice) bool {
	refs := v.Referrers()
	if refs == nil || len(*refs) != 1 {
		return false
	}
	call, ok := (*refs)[0].(ssa.CallInstruction)
	if !ok || len(call.Common().Args) == 0 || call.Common().Args[len(call.Common().Args)-1] != ssa.Value(v) {
		return false
	}
	if b, ok := call.Common().Value.(*ssa.Builtin); ok {
		return b.Name() == "append"
	}
	return call.Common().Signature().Variadic()
}

func mapField(v ssa.Value) string {
	if u, ok := v.(*ssa.UnOp); ok {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			return fieldName(fa.X.Type(), fa.Field)
		}
	}
	if f, ok := v.(*ssa.Field); ok {
		return fieldName(f.X.Type(), f.Field)
	}
	return ""
}

func firstReal(b *ssa.BasicBlock) int {
	for i, ins := range b.Instrs {
		if _, ok := ins.(*ssa.Phi); !ok {
			return i
		}
	}
	return 0
}

func (k *sqlClient) isLoop(b *ssa.BasicBlock) bool {
	v, ok := k.loops[b]
	if !ok {
		v = fieldLoop(b)
		k.loops[b] = v
	}
	return v
}

func (k *sqlClient) hasLoops(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		if k.isLoop(b) {
			return true
		}
	}
	return false
}

func (k *sqlClient) inLoop(h *ssa.BasicBlock, idx string) bool {
	for b := range properLoop(h) {
		if fmt.Sprint(b.Index) == idx {
			return true
		}
	}
	return false
}

// ---- texts of statements

type sqlTaint struct {
	c    *Ctx
	sink string
	pos  token.Pos
	fn   *ssa.Function
	seen map[any]bool
	hit  string
}

// dataType: values of this type come from the dataset
func dataType(t types.Type) string {
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil || !isRepoPath(n.Obj().Pkg().Path()) {
		return ""
	}
	switch n.Obj().Name() {
	case "Label", "Datum", "Language", "Entity", "FieldValue":
		return n.Obj().Name()
	}
	return ""
}

func (t *sqlTaint) follow(v ssa.Value) {
	if v == nil || t.seen[v] || t.hit != "" {
		return
	}
	t.seen[v] = true
	if _, ok := v.(*ssa.Const); ok {
		return
	}
	if d := dataType(v.Type()); d != "" {
		t.hit = fmt.Sprintf("a %s (%s)", d, t.c.W.pos(v.Pos()))
		return
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		t.follow(x.X)
		t.follow(x.Y)
	case *ssa.Phi:
		for _, ed := range x.Edges {
			t.follow(ed)
		}
	case *ssa.Convert:
		t.follow(x.X)
	case *ssa.ChangeType:
		t.follow(x.X)
	case *ssa.MakeInterface:
		t.follow(x.X)
	case *ssa.TypeAssert:
		t.follow(x.X)
	case *ssa.Slice:
		t.follow(x.X)
	case *ssa.Extract:
		t.follow(x.Tuple)
	case *ssa.Index:
		t.follow(x.X)
	case *ssa.Lookup:
		t.follow(x.X)
	case *ssa.Field:
		if pkgOfType(x.X.Type()) != pbPkg {
			t.follow(x.X)
		}
	case *ssa.UnOp:
		t.follow(x.X)
	case *ssa.IndexAddr:
		t.follow(x.X)
		t.stores(x)
	case *ssa.FieldAddr:
		if pkgOfType(x.X.Type()) == pbPkg {
			return
		}
		t.fieldStores(x)
	case *ssa.Alloc:
		t.stores(x)
	case *ssa.MakeSlice, *ssa.MakeMap:
		t.stores(x)
	case *ssa.Global:
		for _, fn := range t.c.W.Fns {
			for _, b := range fn.Blocks {
				for _, instr := range b.Instrs {
					if st, ok := instr.(*ssa.Store); ok && st.Addr == x {
						t.follow(st.Val)
					}
				}
			}
		}
	case *ssa.FreeVar:
		t.follow(bindingOf(x))
	case *ssa.Parameter:
		for i, p := range x.Parent().Params {
			if p != x {
				continue
			}
			for _, call := range allCallers(t.c.W, x.Parent()) {
				args := call.Common().Args
				j := i
				if call.Common().IsInvoke() {
					j--
				}
				if j >= 0 && j < len(args) {
					t.follow(args[j])
				}
			}
		}
	case *ssa.Call:
		com := x.Common()
		if sc := com.StaticCallee(); sc != nil {
			if strings.HasPrefix(pkgPathOf(sc), sqlbPkg) {
				return // its texts are sinks themselves
			}
			if pkgPathOf(sc) == pbPkg {
				return
			}
			if isRepo(sc) && len(sc.Blocks) > 0 {
				for _, b := range sc.Blocks {
					if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
						for _, res := range r.Results {
							t.follow(res)
						}
					}
				}
				return
			}
			if strings.HasPrefix(qualName(sc), "(*database/sql.") {
				return
			}
		}
		for _, a := range com.Args {
			t.follow(a)
		}
		if mc, ok := com.Value.(*ssa.MakeClosure); ok {
			for _, b := range mc.Fn.(*ssa.Function).Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					for _, res := range r.Results {
						t.follow(res)
					}
				}
			}
		}
	}
}

func pkgOfType(t types.Type) string {
	if n := namedOf(t); n != nil && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path()
	}
	return ""
}

// stores follows everything that is written through an address
func (t *sqlTaint) stores(v ssa.Value) {
	refs := v.Referrers()
	if refs == nil {
		return
	}
	for _, r := range *refs {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr == v {
				t.follow(x.Val)
			}
		case *ssa.MapUpdate:
			if x.Map == v {
				t.follow(x.Value)
			}
		case *ssa.IndexAddr:
			if !t.seen[x] {
				t.seen[x] = true
				t.stores(x)
			}
		case *ssa.FieldAddr:
			if !t.seen[x] {
				t.seen[x] = true
				t.stores(x)
			}
		case *ssa.MakeInterface, *ssa.ChangeType, *ssa.Slice:
			if !t.seen[x] {
				t.seen[x] = true
				t.stores(x.(ssa.Value))
			}
		case *ssa.MakeClosure:
			for i, b := range x.Bindings {
				if b == v {
					fv := x.Fn.(*ssa.Function).FreeVars[i]
					if !t.seen[fv] {
						t.seen[fv] = true
						t.stores(fv)
					}
				}
			}
		case *ssa.Call:
			// a builder that is written to
			name := ""
			if sc := x.Common().StaticCallee(); sc != nil {
				name = qualName(sc)
			}
			if strings.HasPrefix(name, "(*strings.Builder).") || strings.HasPrefix(name, "(*bytes.Buffer).") || strings.HasPrefix(name, "fmt.Fprint") || name == "io.WriteString" {
				for _, a := range x.Common().Args {
					if a != v {
						t.follow(a)
					}
				}
			} else if name != "" {
				// handed to a function that writes to it
				if sc := origin(x.Common().StaticCallee()); isRepo(sc) {
					for i, a := range x.Common().Args {
						if a == v && i < len(sc.Params) && isPointer(v.Type()) && !t.seen[sc.Params[i]] {
							t.seen[sc.Params[i]] = true
							t.stores(sc.Params[i])
						}
					}
				}
			}
		}
	}
}

func (t *sqlTaint) fieldStores(fa *ssa.FieldAddr) {
	key := fieldID(fa.X.Type(), fa.Field)
	if t.seen[key] {
		return
	}
	t.seen[key] = true
	for _, fn := range t.c.W.Fns {
		if !isRepo(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, instr := range b.Instrs {
				if o, ok := instr.(*ssa.FieldAddr); ok && fieldID(o.X.Type(), o.Field) == key {
					t.stores(o)
				}
			}
		}
	}
}

// allCallers: calls of fn, also through an interface
func allCallers(w *World, fn *ssa.Function) []ssa.CallInstruction {
	var out []ssa.CallInstruction
	for _, f := range w.Fns {
		for _, b := range f.Blocks {
			for _, instr := range b.Instrs {
				call, ok := instr.(ssa.CallInstruction)
				if !ok {
					continue
				}
				com := call.Common()
				if sc := com.StaticCallee(); sc != nil && origin(sc) == origin(fn) {
					out = append(out, call)
				} else if com.IsInvoke() && fn.Signature.Recv() != nil && com.Method.Name() == fn.Name() {
					if i, ok := com.Value.Type().Underlying().(*types.Interface); ok && types.Implements(fn.Signature.Recv().Type(), i) {
						out = append(out, call)
					}
				} else if mc, ok := com.Value.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(fn) {
					out = append(out, call)
				}
			}
		}
	}
	return out
}

// sqlTexts: the arguments of a call that become part of a statement
func sqlTexts(call *ssa.CallCommon) []ssa.Value {
	sc := call.StaticCallee()
	if sc == nil {
		return nil
	}
	name := qualName(sc)
	short := name[strings.LastIndexByte(name, '.')+1:]
	args := call.Args
	if strings.HasPrefix(name, "(*database/sql.") {
		switch strings.TrimSuffix(short, "Context") {
		case "Exec", "Query", "QueryRow", "Prepare":
			for _, a := range args[1:] {
				if isString(a.Type()) {
					return []ssa.Value{a}
				}
			}
		}
		return nil
	}
	if !strings.Contains(name, sqlbPkg+".") {
		return nil
	}
	if sc.Signature.Recv() != nil {
		args = args[1:]
	}
	switch short {
	case "Values", "Var", "Add", "Assign", "Named", "List", "In", "NotIn":
		if short == "Var" || short == "Values" || short == "Add" {
			return nil
		}
		if len(args) > 0 {
			return args[:1]
		}
		return nil
	case "Equal", "E", "EQ", "NotEqual", "NE", "NEQ", "GreaterThan", "G", "GT", "GreaterEqualThan", "GE", "GTE", "LessThan", "L", "LT", "LessEqualThan", "LE", "LTE", "Like", "NotLike", "Between", "NotBetween":
		if len(args) > 0 {
			return args[:1]
		}
		return nil
	case "Build", "Buildf":
		if len(args) > 0 {
			return args[:1]
		}
		return nil
	}
	return args
}

func checkC16(c *Ctx) {
	// the texts
	for _, fn := range c.W.Fns {
		if !isRepo(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, instr := range b.Instrs {
				call, ok := instr.(ssa.CallInstruction)
				if !ok {
					continue
				}
				for _, v := range sqlTexts(call.Common()) {
					t := &sqlTaint{c: c, seen: map[any]bool{}, fn: fn}
					t.follow(v)
					c.Ob("sql-text", fmt.Sprintf("%s at %s", call.Common().StaticCallee().Name(), c.W.pos(instr.Pos())))
					c.Counts["values_behind_statement_texts"] += len(t.seen)
					if t.hit != "" {
						c.Bad("sql-text", fname(fn), instr.Pos(), "%s becomes part of the text of a statement", t.hit)
					}
				}
			}
		}
	}

	// the tables
	var made, filled []sqlTable
	rows := 0
	for _, fn := range c.W.Fns {
		n := recvNamed(fn)
		if n == nil || !isRepo(fn) || fn.Parent() != nil || !sqlOutput(n) {
			continue
		}
		if nm := fn.Name(); nm != "Begin" && nm != "Add" && nm != "End" {
			continue
		}
		c.Ob("sql-root", fname(fn))
		sqlChildren(c, fn)
		k := &sqlClient{c: c, root: fn, made: &made, filled: &filled, counts: map[string]map[string]bool{}, where: map[string]string{}, loops: map[*ssa.BasicBlock]bool{}, rowsCmp: &rows, done: map[string]bool{}}
		e := NewEngine(c.W, k)
		e.Strings = true
		e.Run(fn, nil)
		c.Counts["steps"] += e.Steps
		if e.Over {
			c.Bad("undecided", fname(fn), fn.Pos(), "too many paths")
		}
		for _, key := range sortedKeys(k.counts) {
			n := k.counts[key]
			if len(n) == 1 && n[""] {
				continue
			}
			c.ObOnce("sql-row-each-field", key)
			if len(n) > 1 || !n["x"] {
				what, at, _ := strings.Cut(key, "|")
				c.BadAt("sql-row-each-field", at[:strings.LastIndexByte(at, '#')], k.where[at], "", "not every field adds exactly one entry to the list of %s", map[string]string{"row": "values", "col": "columns"}[what])
			}
		}
	}
	c.Counts["rows_compared"] = rows
	byShape := map[string][]sqlTable{}
	for _, t := range made {
		byShape[t.shape+"|"+t.guard] = append(byShape[t.shape+"|"+t.guard], t)
	}
	pref := map[string]string{}
	for _, t := range append(append([]sqlTable{}, made...), filled...) {
		p, rest, unknown := strings.Cut(t.shape, "<")
		c.ObOnce("sql-names", t.shape)
		if unknown {
			pref[t.shape] = p
		}
		if p == "" || strings.Contains(rest, "?") || !strings.Contains(t.shape, "<B>") {
			c.Bad("sql-names", t.shape, t.pos, "the name of a table is not a fixed prefix and the machine name of its bundle")
		}
		if t.cols["value"] && !strings.Contains(t.shape, "<F>") {
			c.Bad("sql-names", t.shape, t.pos, "the table for the values of a field does not carry the name of the field")
		}
		for col := range t.cols {
			p, _, unknown := strings.Cut(col, "<")
			c.ObOnce("sql-names", "column "+col)
			if unknown && p == "" || strings.Contains(col, "?") {
				c.Bad("sql-names", t.shape, t.pos, "the name of the column %s has no fixed prefix", col)
			}
			for o := range t.cols {
				if unknown && !strings.Contains(o, "<") && strings.HasPrefix(o, p) {
					c.Bad("sql-names", t.shape, t.pos, "the column %s can not be told from the column %s", col, o)
				}
			}
		}
	}
	for a, p := range pref {
		for b, q := range pref {
			if a != b && strings.HasPrefix(p, q) {
				c.BadAt("sql-names", b, "-", "", "tables named %s and %s can be the same", a, b)
			}
		}
	}
	for _, t := range filled {
		c.ObOnce("sql-table-made", t.shape+" "+t.guard)
		ok := false
		var missing []string
		for _, m := range made {
			if m.shape != t.shape || !compatible(m.guard, t.guard) {
				continue
			}
			ok = true
			missing = nil
			for col := range t.cols {
				if !m.cols[col] && len(m.cols) > 0 && !looped(made, t, col) {
					missing = append(missing, col)
				}
			}
		}
		if !ok {
			c.Bad("sql-table-made", t.shape, t.pos, "rows are inserted into the table %s (%s), which the announcement of a bundle does not create", t.shape, t.guard)
		}
		if len(missing) > 0 {
			c.Bad("sql-table-made", t.shape, t.pos, "the table %s is created without the columns %v (%s)", t.shape, missing, t.guard)
		}
	}
}

// looped: some table of the shape is created with the column under the settings of t
func looped(made []sqlTable, t sqlTable, col string) bool {
	for _, m := range made {
		if m.shape == t.shape && compatible(m.guard, t.guard) && m.cols[col] {
			return true
		}
	}
	return false
}

// compatible: the settings do not contradict each other
func compatible(a, b string) bool {
	m := map[string]string{}
	for _, g := range strings.Fields(a) {
		f, v, _ := strings.Cut(g, "=")
		m[f] = v
	}
	for _, g := range strings.Fields(b) {
		f, v, _ := strings.Cut(g, "=")
		if o, ok := m[f]; ok && o != v {
			return false
		}
	}
	return true
}

// sqlOutput: the type holds a database
func sqlOutput(n *types.Named) bool {
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if pkgOfType(st.Field(i).Type()) == "database/sql" {
			return true
		}
	}
	return false
}

func init() {
	register(&Check{
		Prop:    "C16",
		Explain: "Backward slices over SSA from every text that becomes part of a statement (arguments of database/sql and of the statement builder) show that no value of a dataset type contributes to it. The methods of the SQL output are interpreted over all abstract paths with the texts of statements kept symbolically: a table is created only after the same table was dropped, rows go only into tables (and columns) that are created under the same settings, statements are executed with the arguments they were built with, names keep distinguishing fixed prefixes, and each row lists its values in the order of its columns, exactly one per field. What is created or filled for a bundle is created or filled for all bundles below it, on every way on which nothing failed, and children are inserted with the URI of their own entity as their parent.",
		Assume:  []string{"the methods of go-sqlbuilder behave as documented: values become placeholders", "the columns and rows of one insert are built from the same list of fields, which is not changed in between"},
		Floors:  map[string]int{"sql-root": 3, "sql-text": 8, "sql-fresh": 4, "sql-arguments": 1, "sql-row-order": 1, "sql-names": 4, "sql-table-made": 2, "sql-row-each-field": 1, "sql-children": 4, "sql-whole": 4, "sql-parent": 1},
		Run:     checkC16,
	})
}
