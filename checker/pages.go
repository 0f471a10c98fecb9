package main

// Lists that are shown in pages: a domain of linear forms over the requested
// offset, the size of a page and the length of the list. What is shown, and
// where the links lead, are linear forms; the conditions passed on a path are
// linear inequalities, and what has to follow from them is decided by eliminating
// one quantity after the other.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
	"text/template/parse"

	"golang.org/x/tools/go/ssa"
)

// lin is a linear form: a constant and multiples of named quantities
type lin struct {
	k int64
	c map[string]int64
}

func linConst(k int64) lin { return lin{k: k, c: map[string]int64{}} }
func linSym(s string) lin  { return lin{c: map[string]int64{s: 1}} }

func (a lin) add(b lin, f int64) lin {
	out := lin{k: a.k + f*b.k, c: map[string]int64{}}
	for s, n := range a.c {
		out.c[s] = n
	}
	for s, n := range b.c {
		if out.c[s] += f * n; out.c[s] == 0 {
			delete(out.c, s)
		}
	}
	return out
}

func (a lin) sub(b lin) lin    { return a.add(b, -1) }
func (a lin) plus(n int64) lin { return a.add(linConst(n), 1) }
func (a lin) neg() lin         { return linConst(0).sub(a) }

func (a lin) isConst() bool { return len(a.c) == 0 }

// unknown: the form has a part that is not understood
func (a lin) unknown() bool {
	for s := range a.c {
		if strings.HasPrefix(s, "?") {
			return true
		}
	}
	return false
}

func (a lin) key() string {
	out := []string{strconv.FormatInt(a.k, 10)}
	for _, s := range sortedKeysInt(a.c) {
		out = append(out, strconv.FormatInt(a.c[s], 10)+"*"+s)
	}
	return strings.Join(out, " + ")
}

func sortedKeysInt(m map[string]int64) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func parseLin(s string) (lin, bool) {
	out := linConst(0)
	for i, p := range strings.Split(s, " + ") {
		if i == 0 {
			n, err := strconv.ParseInt(p, 10, 64)
			if err != nil {
				return out, false
			}
			out.k = n
			continue
		}
		a, b, ok := strings.Cut(p, "*")
		n, err := strconv.ParseInt(a, 10, 64)
		if !ok || err != nil {
			return out, false
		}
		out.c[b] = n
	}
	return out, true
}

// possible: some values make all forms at least zero
func possible(forms []lin) bool {
	for {
		pick, best := "", 0
		counts := map[string][2]int{}
		for _, f := range forms {
			if f.isConst() && f.k < 0 {
				return false
			}
			for s, n := range f.c {
				x := counts[s]
				if n > 0 {
					x[0]++
				} else {
					x[1]++
				}
				counts[s] = x
			}
		}
		for s, x := range counts {
			if cost := x[0]*x[1] - x[0] - x[1]; pick == "" || cost < best || cost == best && s < pick {
				pick, best = s, cost
			}
		}
		if pick == "" {
			return true
		}
		var up, down, rest []lin
		for _, f := range forms {
			switch n := f.c[pick]; {
			case n > 0:
				up = append(up, f)
			case n < 0:
				down = append(down, f)
			default:
				rest = append(rest, f)
			}
		}
		if len(up)*len(down) > 4000 {
			return true
		}
		seen := map[string]bool{}
		for _, a := range up {
			for _, b := range down {
				f := linConst(0).add(a, -b.c[pick]).add(b, a.c[pick])
				if f.isConst() && f.k >= 0 || seen[f.key()] {
					continue
				}
				seen[f.key()] = true
				rest = append(rest, f)
			}
		}
		forms = rest
	}
}

// pageClient follows a handler with the domain of linear forms
type pageClient struct {
	BaseClient
	c    *Ctx
	root *ssa.Function
	show func(e *Engine, s *State, cs *CallSite)
	// what was put into an interface
	types map[string]types.Type
}

func (k *pageClient) bad(e *Engine, s *State, pos token.Pos, rule, format string, args ...any) {
	k.c.BadAt(rule, fname(k.root), k.c.W.pos(pos), e.Trace(s), format, args...)
}

func linVal(l lin) Val {
	if l.isConst() {
		return Val{K: KConst, S: strconv.FormatInt(l.k, 10)}
	}
	return opaque("lin{" + l.key() + "};")
}

func linOf(v Val) lin {
	if n, ok := intOf(v); ok {
		return linConst(n)
	}
	if rest, ok := strings.CutPrefix(v.S, "lin{"); ok && v.K == KOpaque {
		if l, ok := parseLin(strings.TrimSuffix(rest, "};")); ok {
			return l
		}
	}
	return linSym("?" + strings.NewReplacer(" + ", " ", "*", "·", "{", "(", "}", ")").Replace(v.String()))
}

// knows are the inequalities passed on the path
func knows(s *State) []lin {
	var out []lin
	for d := range s.D {
		if rest, ok := strings.CutPrefix(d, "ge:"); ok {
			if l, ok := parseLin(rest); ok {
				out = append(out, l)
			}
		}
	}
	return out
}

// follows: the form is at least zero on this path
func follows(s *State, l lin) bool {
	if l.unknown() {
		return true // not understood: nothing is claimed
	}
	return !possible(append(knows(s), l.neg().plus(-1)))
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isSliceType(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

// window of a list: the list and the part of it
func windowOf(v Val) (base string, lo, hi lin) {
	if rest, ok := strings.CutPrefix(v.S, "win{"); ok && v.K == KOpaque {
		p := strings.Split(strings.TrimSuffix(rest, "};"), "|")
		if len(p) == 3 {
			lo, _ = parseLin(p[1])
			hi, _ = parseLin(p[2])
			return p[0], lo, hi
		}
	}
	base = strings.NewReplacer(" + ", " ", "*", "·", "{", "(", "}", ")", "|", "/").Replace(v.S)
	return base, linConst(0), linSym("len " + base)
}

func (k *pageClient) special(e *Engine, s *State, instr ssa.Instruction) bool {
	switch ins := instr.(type) {
	case *ssa.MakeInterface:
		if v := e.eval(s, ins.X); v.S != "" && (v.K == KOpaque || v.K == KPtr) {
			k.types[v.S] = ins.X.Type()
		}
	case *ssa.BinOp:
		if !isInt(ins.Type()) || !isInt(ins.X.Type()) || e.inLoop(ins) {
			return false
		}
		x, y := linOf(e.eval(s, ins.X)), linOf(e.eval(s, ins.Y))
		unknown := func() { e.set(s, ins, linVal(linSym("?"+ins.Op.String()+" "+s.top().id+ins.Name()))) }
		rem := func() lin {
			// what remains is less than what is divided by
			r := linSym("rem(" + strings.NewReplacer(" + ", "&", "*", ".").Replace(x.key()+","+y.key()) + ")")
			if follows(s, x) && follows(s, y.plus(-1)) {
				s.D["ge:"+r.key()] = "1"
				s.D["ge:"+y.sub(r).plus(-1).key()] = "1"
				s.D["ge:"+x.sub(r).key()] = "1"
			}
			return r
		}
		switch ins.Op {
		case token.ADD:
			e.set(s, ins, linVal(x.add(y, 1)))
		case token.SUB:
			e.set(s, ins, linVal(x.sub(y)))
		case token.REM:
			if x.unknown() || y.unknown() {
				unknown()
				break
			}
			e.set(s, ins, linVal(rem()))
		case token.QUO:
			if x.unknown() || y.unknown() || x.isConst() && y.isConst() {
				unknown()
				break
			}
			q := linSym("quo(" + strings.NewReplacer(" + ", "&", "*", ".").Replace(x.key()+","+y.key()) + ")")
			s.D["whole:"+q.key()+"|"+y.key()] = x.sub(rem()).key()
			if follows(s, x) && follows(s, y.plus(-1)) {
				s.D["ge:"+q.key()] = "1"
			}
			e.set(s, ins, linVal(q))
		case token.MUL:
			for _, p := range [][2]lin{{x, y}, {y, x}} {
				// (q + n) * y
				n := p[0].k
				q := p[0].plus(-n)
				if w, ok := s.D["whole:"+q.key()+"|"+p[1].key()]; ok {
					if l, ok := parseLin(w); ok {
						e.set(s, ins, linVal(l.add(p[1], n)))
						return true
					}
				}
			}
			switch {
			case x.isConst():
				e.set(s, ins, linVal(linConst(0).add(y, x.k)))
			case y.isConst():
				e.set(s, ins, linVal(linConst(0).add(x, y.k)))
			default:
				unknown()
			}
		default:
			return false
		}
		return true
	case *ssa.Slice:
		if !isSliceType(ins.X.Type()) || ins.Max != nil {
			return false
		}
		v := e.eval(s, ins.X)
		if v.K != KOpaque {
			return false
		}
		base, lo, hi := windowOf(v)
		from, to := lo, hi
		if ins.Low != nil {
			from = lo.add(linOf(e.eval(s, ins.Low)), 1)
		}
		if ins.High != nil {
			to = lo.add(linOf(e.eval(s, ins.High)), 1)
		}
		k.c.Ob("within", k.c.W.pos(ins.Pos()))
		for _, x := range []struct {
			l    lin
			what string
		}{{from.sub(lo), "the part may begin before the list"}, {to.sub(from), "the part may end before it begins"}, {hi.sub(to), "the part may end behind the list"}} {
			if !follows(s, x.l) {
				k.bad(e, s, ins.Pos(), "within", "a part of a list is taken, but %s: the request is answered with a failure instead of a page", x.what)
				return true
			}
		}
		e.set(s, ins, opaque("win{"+base+"|"+from.key()+"|"+to.key()+"};"))
		return true
	}
	return false
}

func (k *pageClient) order(e *Engine, s *State, op token.Token, a, b Val) []Outcome {
	x, y := linOf(a), linOf(b)
	if x.unknown() || y.unknown() {
		return nil
	}
	// the cases in which the comparison is true, and those in which it is false
	lt, gt := y.sub(x).plus(-1), x.sub(y).plus(-1)
	le, ge := y.sub(x), x.sub(y)
	type alt struct {
		v  bool
		is []lin
	}
	var alts []alt
	switch op {
	case token.LSS:
		alts = []alt{{true, []lin{lt}}, {false, []lin{ge}}}
	case token.GTR:
		alts = []alt{{true, []lin{gt}}, {false, []lin{le}}}
	case token.LEQ:
		alts = []alt{{true, []lin{le}}, {false, []lin{gt}}}
	case token.GEQ:
		alts = []alt{{true, []lin{ge}}, {false, []lin{lt}}}
	case token.EQL:
		alts = []alt{{true, []lin{le, ge}}, {false, []lin{lt}}, {false, []lin{gt}}}
	case token.NEQ:
		alts = []alt{{false, []lin{le, ge}}, {true, []lin{lt}}, {true, []lin{gt}}}
	default:
		return nil
	}
	var out []Outcome
	for _, a := range alts {
		a := a
		if !possible(append(knows(s), a.is...)) {
			continue
		}
		out = append(out, Outcome{Val: boolVal(a.v), Apply: func(s *State) {
			for _, l := range a.is {
				if !l.isConst() {
					s.D["ge:"+l.key()] = "1"
				}
			}
		}})
	}
	return out
}

func (k *pageClient) Order(e *Engine, s *State, op *ssa.BinOp, x, y Val) []Outcome {
	if !isInt(op.X.Type()) {
		return nil
	}
	return k.order(e, s, op.Op, x, y)
}

func (k *pageClient) Compare(e *Engine, s *State, op *ssa.BinOp, x, y Val) []Outcome {
	if !isInt(op.X.Type()) {
		return nil
	}
	return k.order(e, s, op.Op, x, y)
}

func (k *pageClient) Inline(e *Engine, s *State, cs *CallSite, fn *ssa.Function) bool {
	if !isRepo(fn) || fnPkg(fn) != fnPkg(k.root) || len(fn.Blocks) == 0 {
		return false
	}
	if fn.Parent() != nil {
		return true
	}
	// where numbers or the data of the page are handled
	sig := fn.Signature
	for _, t := range []*types.Tuple{sig.Params(), sig.Results()} {
		for i := 0; i < t.Len(); i++ {
			if isInt(t.At(i).Type()) {
				return true
			}
			switch t.At(i).Type().String() {
			case "*html/template.Template", "any", "interface{}":
				return true
			}
			if st, ok := t.At(i).Type().Underlying().(*types.Struct); ok && len(pageFields(st)) > 0 {
				return true
			}
			if p, ok := t.At(i).Type().Underlying().(*types.Pointer); ok {
				if st, ok := p.Elem().Underlying().(*types.Struct); ok && len(pageFields(st)) > 0 {
					return true
				}
			}
		}
	}
	return false
}

func (k *pageClient) Call(e *Engine, s *State, cs *CallSite) ([]Outcome, bool) {
	com := cs.Instr.Common()
	if b, ok := com.Value.(*ssa.Builtin); ok && !com.IsInvoke() {
		switch b.Name() {
		case "len":
			if len(cs.Args) == 1 && isSliceType(com.Args[0].Type()) && cs.Args[0].K == KOpaque {
				_, lo, hi := windowOf(cs.Args[0])
				l := hi.sub(lo)
				return []Outcome{{Val: linVal(l), Apply: func(s *State) { s.D["ge:"+l.key()] = "1" }}}, true
			}
		case "min", "max":
			if len(cs.Args) == 2 && isInt(com.Args[0].Type()) {
				op := token.LEQ
				if b.Name() == "max" {
					op = token.GEQ
				}
				var out []Outcome
				alts := k.order(e, s, op, cs.Args[0], cs.Args[1])
				if len(alts) == 0 {
					return nil, false
				}
				for _, o := range alts {
					v := cs.Args[1]
					if o.Val.K == KBool && s.isTrue(o.Val) {
						v = cs.Args[0]
					}
					out = append(out, Outcome{Val: linVal(linOf(v)), Apply: o.Apply})
				}
				return out, true
			}
		}
		return nil, false
	}
	switch cs.Name() {
	case "strconv.Atoi":
		x := linSym("ask(" + strings.NewReplacer(" + ", " ", "*", "·", "{", "(", "}", ")", "|", "/").Replace(cs.Args[0].String()) + ")")
		return []Outcome{
			{Val: Val{K: KTuple, T: []Val{linVal(x), {K: KNil}}}},
			{Val: Val{K: KTuple, T: []Val{linVal(linConst(0)), {K: KNonNil, S: "atoi"}}}},
		}, true
	case "strconv.Itoa", "strconv.FormatInt":
		l := linOf(cs.Args[0])
		return []Outcome{{Val: opaque("text lin{" + l.key() + "};")}}, true
	case "(*html/template.Template).Execute", "(*html/template.Template).ExecuteTemplate":
		if len(cs.Args) >= 3 && k.show != nil {
			k.show(e, s, cs)
		}
		return []Outcome{{Val: Val{K: KNil}}}, true
	}
	return nil, false
}

// pageFields: the fields of the data that speak of pages
func pageFields(st *types.Struct) map[string]*types.Var {
	out := map[string]*types.Var{}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		n := strings.ToLower(f.Name())
		switch {
		case isString(f.Type()) && (strings.Contains(n, "link") || strings.Contains(n, "url") || strings.Contains(n, "href")):
			for _, w := range []string{"next", "prev", "first", "last"} {
				if strings.Contains(n, w) {
					out[w] = f
				}
			}
		case isInt(f.Type()):
			for _, w := range []string{"start", "end", "total"} {
				if strings.Contains(n, w) {
					out[w] = f
				}
			}
		}
	}
	if out["next"] == nil || out["prev"] == nil {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if f := st.Field(i); isSliceType(f.Type()) {
			out["shown"] = f
		}
	}
	return out
}

// linkTo: the offset and the size a link asks for
func linkTo(v Val) (skip, limit lin, given, ok bool) {
	parts := strParts(v)
	if len(parts) == 0 {
		return skip, limit, false, true
	}
	last := ""
	found := 0
	for _, p := range parts {
		if c, isC := constStr(p); isC {
			last = c
			for _, name := range []string{"skip=", "limit="} {
				// numbers that are written out
				if i := strings.LastIndex(c, name); i >= 0 {
					num := c[i+len(name):]
					if j := strings.IndexByte(num, '&'); j >= 0 {
						num = num[:j]
					}
					if n, err := strconv.ParseInt(num, 10, 64); err == nil {
						found++
						if name == "skip=" {
							skip = linConst(n)
						} else {
							limit = linConst(n)
						}
					}
				}
			}
			continue
		}
		rest, isNum := strings.CutPrefix(p.S, "text lin{")
		if isNum {
			l, fine := parseLin(strings.TrimSuffix(rest, "};"))
			if !fine {
				return skip, limit, true, false
			}
			switch {
			case strings.HasSuffix(last, "skip="):
				skip = l
				found++
			case strings.HasSuffix(last, "limit="):
				limit = l
				found++
			}
		}
		last = ""
	}
	return skip, limit, true, found == 2
}

func pages(c *Ctx) {
	for _, root := range c.W.Fns {
		if !isHandler(root) {
			continue
		}
		k := &pageClient{c: c, root: root, types: map[string]types.Type{}}
		k.show = func(e *Engine, s *State, cs *CallSite) {
			com := cs.Instr.Common()
			v := cs.Args[len(cs.Args)-1]
			t := k.types[v.S]
			if mi, ok := com.Args[len(com.Args)-1].(*ssa.MakeInterface); ok {
				t, v = mi.X.Type(), e.eval(s, mi.X)
			}
			if t == nil {
				return
			}
			if p, ok := t.Underlying().(*types.Pointer); ok {
				t = p.Elem()
			}
			st, ok := t.Underlying().(*types.Struct)
			if !ok {
				return
			}
			fields := pageFields(st)
			if len(fields) == 0 || fields["shown"] == nil {
				return
			}
			k.page(e, s, cs, v, fields)
		}
		e := NewEngine(c.W, k)
		e.RootID, e.Strings, e.KeepFacts = "r", true, true
		e.Special = k.special
		e.Run(root, nil)
		if e.Over {
			c.Bad("undecided", fname(root), root.Pos(), "too many paths to decide")
		}
		c.Counts["abstract_paths_explored"] += e.States
	}
}

func isHandler(fn *ssa.Function) bool {
	sig := fn.Signature
	if sig.Params().Len() != 2 || sig.Results().Len() != 0 || fn.Parent() != nil || !isRepo(fn) {
		return false
	}
	return sig.Params().At(0).Type().String() == "net/http.ResponseWriter" && sig.Params().At(1).Type().String() == "*net/http.Request"
}

func (k *pageClient) page(e *Engine, s *State, cs *CallSite, data Val, fields map[string]*types.Var) {
	pos := cs.Instr.Pos()
	get := func(what string) Val {
		v, _ := e.load(s, data.S+"."+fields[what].Name(), fields[what].Type())
		if v.K == KNil || v.K == KConst && v.S == "0" && isString(fields[what].Type()) {
			v = strConst("")
		}
		return v
	}
	if debugPages {
		for w := range fields {
			fmt.Println("PAGE", w, get(w).String(), knows(s))
		}
	}
	base, lo, hi := windowOf(get("shown"))
	total := linSym("len " + base)
	k.c.Ob("page", k.c.W.pos(pos)+" "+fmt.Sprint(k.c.Counts["pages"]))
	k.c.Counts["pages"]++
	is := func(a, b lin) bool { return follows(s, a.sub(b)) && follows(s, b.sub(a)) }
	// the size of a page is the one that links ask for again
	var limit *lin
	type link struct {
		skip  lin
		given bool
	}
	links := map[string]link{}
	for _, w := range []string{"next", "prev", "first", "last"} {
		if fields[w] == nil {
			continue
		}
		sk, li, given, ok := linkTo(get(w))
		if !ok {
			continue
		}
		links[w] = link{sk, given}
		if !given {
			continue
		}
		if limit == nil {
			limit = &li
		} else if !is(*limit, li) {
			k.bad(e, s, pos, "same-size", "the links of a page ask for pages of different sizes")
		}
	}
	if f := fields["start"]; f != nil && !is(linOf(get("start")), lo.plus(1)) {
		k.bad(e, s, pos, "numbers", "%s is not the number of the first entry that is shown", f.Name())
	}
	if f := fields["end"]; f != nil && !is(linOf(get("end")), hi) {
		k.bad(e, s, pos, "numbers", "%s is not the number of the last entry that is shown", f.Name())
	}
	if f := fields["total"]; f != nil && !is(linOf(get("total")), total) {
		k.bad(e, s, pos, "numbers", "%s is not the number of all entries", f.Name())
	}
	// one: exactly when there is something in that direction
	exactly := func(w string, cond lin, what string) (lin, bool) {
		l, ok := links[w]
		if !ok {
			return lin{}, false
		}
		if !l.given {
			if !follows(s, cond.neg()) {
				k.bad(e, s, pos, "links", "there are entries %s, but there is no link to the %s page", what, w)
			}
			return lin{}, false
		}
		if !follows(s, cond.plus(-1)) {
			k.bad(e, s, pos, "links", "there is a link to the %s page although there may be no entries %s", w, what)
		}
		return l.skip, true
	}
	if sk, ok := exactly("next", total.sub(hi), "behind those that are shown"); ok && !is(sk, hi) {
		k.bad(e, s, pos, "links", "the next page does not begin behind what is shown: entries are left out or repeated")
	}
	if sk, ok := exactly("prev", lo, "before those that are shown"); ok {
		switch {
		case !follows(s, sk):
			k.bad(e, s, pos, "links", "the previous page may begin before the list")
		case limit != nil && !follows(s, sk.add(*limit, 1).sub(lo)):
			k.bad(e, s, pos, "links", "entries between the previous page and this one are left out")
		case limit != nil && !follows(s, lo.sub(sk).plus(-1)):
			k.bad(e, s, pos, "links", "the previous page does not begin before this one")
		case limit != nil && !is(sk.add(*limit, 1), lo) && !is(sk, linConst(0)):
			k.bad(e, s, pos, "links", "the previous page does not end where this one begins")
		}
	}
	if sk, ok := exactly("first", lo, "before those that are shown"); ok && !is(sk, linConst(0)) {
		k.bad(e, s, pos, "links", "the first page does not begin with the first entry")
	}
	if sk, ok := exactly("last", total.sub(hi), "behind those that are shown"); ok {
		switch {
		case !follows(s, sk) || !follows(s, total.sub(sk).plus(-1)):
			k.bad(e, s, pos, "links", "the last page may lie outside of the list: it is answered with not found")
		case limit != nil && !follows(s, sk.add(*limit, 1).sub(total)):
			k.bad(e, s, pos, "links", "the last page may end before the last entry")
		}
	}
	if limit != nil {
		if !follows(s, limit.plus(-1)) {
			k.bad(e, s, pos, "same-size", "the links ask for pages without entries")
		}
		// what is shown is a whole page, or all that is left
		if !follows(s, lo.add(*limit, 1).sub(hi)) {
			k.bad(e, s, pos, "window", "more entries are shown than belong to a page")
		} else if !follows(s, hi.sub(total)) && !follows(s, hi.sub(lo).sub(*limit)) {
			k.bad(e, s, pos, "window", "fewer entries are shown than belong to the page")
		}
	}
	if fields["start"] != nil && fields["end"] != nil && !follows(s, hi.sub(lo).plus(-1)) {
		k.bad(e, s, pos, "window", "a page without any entry may be shown")
	}
	// it begins where the request wants it to
	if asked, fine := askedFor(s, "skip"); fine && !lo.unknown() && !is(lo, asked) && !is(lo, linConst(0)) {
		k.bad(e, s, pos, "window", "what is shown does not begin where the request asks for")
	}
	if asked, fine := askedFor(s, "skip"); fine && is(lo, linConst(0)) && !lo.unknown() && possible(append(knows(s), asked.plus(-1))) && !follows(s, asked.neg()) {
		k.bad(e, s, pos, "window", "the request asks for a later part, but the first is shown")
	}
}

const debugPages = false

// askedFor: the quantity the request names, when it was understood
func askedFor(s *State, name string) (lin, bool) {
	for _, l := range knows(s) {
		for sym := range l.c {
			if strings.HasPrefix(sym, "ask(") && strings.Contains(sym, `"`+name+`"`) {
				return linSym(sym), true
			}
		}
	}
	return lin{}, false
}

func init() {
	register(&Check{
		Prop:    "C31",
		Explain: "Every request handler is followed on all of its paths in an abstract domain of linear forms over the requested offset and size and the length of the list; conditions become linear inequalities, and what must follow is decided by eliminating the quantities one after the other (a polyhedral domain). Where a page with links to its neighbours is shown: parts of the list are taken within its bounds (within); what is shown is a whole page, or all that is left, from where the request asks (window); the next page begins behind what is shown, the previous one ends where it begins, the first begins with the first entry, the last reaches the last entry, and each link is there exactly when there is something in its direction (links), with the same size of pages (same-size); in the templates each link has the caption of its direction and is shown when it is there (caption); the numbers shown are those of the entries (numbers).",
		Assume:  []string{"strconv converts numbers and texts into each other", "the number of entries is far below the largest integer", "parts of an address that are not understood make no claim"},
		Floors:  map[string]int{"page": 1, "within": 1, "caption": 2},
		Run:     func(c *Ctx) { pages(c); captions(c) },
	})
}

// captions: a link that says next leads to the next page, and is shown when there is one
func captions(c *Ctx) {
	t := templatesOf(c.W)
	for _, k := range t.pages() {
		if k.use.data == nil {
			continue
		}
		typ := k.use.data.Type()
		if p, ok := typ.Underlying().(*types.Pointer); ok {
			typ = p.Elem()
		}
		st, ok := typ.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		fields := pageFields(st)
		word := map[string]string{}
		for _, w := range []string{"next", "prev", "first", "last"} {
			if f := fields[w]; f != nil {
				word[f.Name()] = w
			}
		}
		if len(word) == 0 {
			continue
		}
		shown := map[string]bool{}
		for _, name := range sortedKeys(k.trees) {
			cap := &captionWalk{c: c, word: word, shown: shown, page: name}
			if k.trees[name] != nil && k.trees[name].Root != nil {
				cap.walk(k.trees[name].Root, "")
			}
		}
		for f := range word {
			if !shown[f] {
				c.BadAt("caption", k.use.name+"|"+f, c.W.pos(k.use.site.Pos()), "", "the page %s never shows the link %s", k.use.name, f)
			}
		}
	}
}

type captionWalk struct {
	c     *Ctx
	word  map[string]string
	shown map[string]bool
	page  string
}

// link is the link a pipeline consists of
func (k *captionWalk) link(p *parse.PipeNode) string {
	if p == nil || len(p.Cmds) != 1 || len(p.Cmds[0].Args) != 1 {
		return ""
	}
	var name string
	switch n := p.Cmds[0].Args[0].(type) {
	case *parse.FieldNode:
		name = n.Ident[len(n.Ident)-1]
	case *parse.VariableNode:
		name = n.Ident[len(n.Ident)-1]
	case *parse.ChainNode:
		name = n.Field[len(n.Field)-1]
	}
	if k.word[name] == "" {
		return ""
	}
	return name
}

func (k *captionWalk) walk(n *parse.ListNode, when string) {
	if n == nil {
		return
	}
	for i, x := range n.Nodes {
		switch x := x.(type) {
		case *parse.ActionNode:
			f := k.link(x.Pipe)
			if f == "" || len(x.Pipe.Decl) > 0 {
				continue
			}
			k.shown[f] = true
			k.c.ObOnce("caption", k.page+" "+f)
			if when != "" && when != f {
				k.c.BadAt("caption", k.page+"|"+f, k.page, "", "the link %s is shown when there is a link %s", f, when)
			}
			if i+1 >= len(n.Nodes) {
				continue
			}
			txt, ok := n.Nodes[i+1].(*parse.TextNode)
			if !ok {
				continue
			}
			_, text, ok1 := strings.Cut(string(txt.Text), ">")
			text, _, ok2 := strings.Cut(text, "</a")
			if !ok1 || !ok2 {
				continue
			}
			text = strings.ToLower(text)
			says := ""
			for _, w := range []string{"next", "prev", "first", "last"} {
				if strings.Contains(text, w) {
					says = w
				}
			}
			if says != "" && says != k.word[f] {
				k.c.BadAt("caption", k.page+"|"+f, k.page, "", "the link that says %q leads to the %s page", strings.TrimSpace(text), k.word[f])
			}
		case *parse.IfNode:
			k.walk(x.List, k.link(x.Pipe))
			k.walk(x.ElseList, "")
		case *parse.WithNode:
			k.walk(x.List, "")
			k.walk(x.ElseList, "")
		case *parse.RangeNode:
			k.walk(x.List, "")
			k.walk(x.ElseList, "")
		}
	}
}
