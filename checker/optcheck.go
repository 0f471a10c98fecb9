package main

// C15: every option sets exactly the thing it names, and conflicts are refused.
//
// The programs are interpreted from their package initialisers to the end of main,
// with every option given a value that can be recognised. What arrives at the places
// where an option has its effect must be the value of that option.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// optSink is a place where an option (or an input file) has its effect
type optSink struct {
	callee string // qualified name of what is called, or its end
	arg    int
	field  string // field of the argument
	want   string // name of the option, or "nq", "xml", "index" for the input files
}

type optProgram struct {
	pkg      string
	sinks    []optSink
	defaults map[string]string
	outputs  map[string]string // options that ask for an output, and how it starts
}

var optPrograms = []optProgram{
	{
		pkg: "cmd/hangover",
		sinks: []optSink{
			{"net.Listen", 1, "", "addr"},
			{"net/http.ListenAndServe", 0, "", "debug-listen"},
			{"internal/glass.Create", 0, "", "xml"},
			{"internal/glass.Create", 1, "", "nq"},
			{"internal/glass.Create", 2, "", "cache"},
			{"internal/glass.Create", 3, ".Predicates.SameAs", "sameas"},
			{"internal/glass.Create", 3, ".Predicates.InverseOf", "inverseof"},
			{"internal/glass.Import", 0, "", "index"},
			{"internal/glass.Export", 0, "", "export"},
			{"viewer.Viewer).Prepare", 0, ".RenderFlags.ImageRender", "images"},
			{"viewer.Viewer).Prepare", 0, ".RenderFlags.HTMLRender", "html"},
			{"viewer.Viewer).Prepare", 0, ".RenderFlags.PublicURL", "public"},
			{"viewer.Viewer).Prepare", 0, ".RenderFlags.StrictCSP", "strict-csp"},
			{"viewer.Viewer).Prepare", 0, ".RenderFlags.TipsyURL", "tipsy"},
			{"viewer.Viewer).Prepare", 0, ".Footer", "footer"},
		},
		defaults: map[string]string{"addr": `":3000"`, "images": "false", "html": "false", "public": `""`, "cache": `""`, "export": `""`, "debug-listen": `""`, "strict-csp": "false", "bench": "false", "tipsy": `""`, "legal": "false"},
	},
	{
		pkg: "cmd/n2j",
		sinks: []optSink{
			{"pbxml.Load", 0, "", "xml"},
			{"internal/sparkl.LoadIndex", 0, "", "nq"},
			{"internal/sparkl.LoadIndex", 1, ".SameAs", "sameas"},
			{"internal/sparkl.LoadIndex", 1, ".InverseOf", "inverseof"},
			{"internal/sparkl.NewEngine", 0, "", "cache"},
			{"storages.NewBundleEngine", 0, "", "cache"},
			{"profile.ProfilePath", 0, "", "debug-profile"},
			{"internal/sparkl.Export", 3, ".Separator", "sql-seperator"},
			{"internal/sparkl.Export", 3, ".MakeFieldTables", "sql-field-tables"},
		},
		defaults: map[string]string{"sqlite": `""`, "mysql": `""`, "csv": `""`, "cache": `""`, "sql-seperator": `","`, "sql-field-tables": "false", "debug-profile": `""`, "legal": "false"},
		outputs:  map[string]string{"sqlite": "sqlite", "mysql": "mysql", "csv": ""},
	},
}

type optClient struct {
	BaseClient
	c       *Ctx
	prog    optProgram
	pkg     string
	given   map[string]bool // options that are given; nil gives all
	on      map[string]bool // switches that are known to be on
	several bool            // more than one output is asked for
	opts    map[string]string
	reached map[string]bool
	ends    []*State
	boxes   map[string]Val
	silent  bool
	ended   bool
}

func (k *optClient) Inline(e *Engine, s *State, cs *CallSite, fn *ssa.Function) bool {
	return isRepo(fn) && fnPkg(fn) == k.pkg
}

func (k *optClient) bad(e *Engine, s *State, rule string, pos token.Pos, format string, args ...any) {
	if k.silent {
		return
	}
	k.c.BadAt(rule, fname(s.top().fn), k.c.W.pos(pos), e.Trace(s), format, args...)
}

func (k *optClient) special(e *Engine, s *State, instr ssa.Instruction) bool {
	if mi, ok := instr.(*ssa.MakeInterface); ok {
		v := e.eval(s, mi.X)
		if v.K == KPtr {
			id := "box<" + strings.ReplaceAll(v.String(), ";", "!") + ">;"
			k.boxes[id] = v
			e.set(s, mi, opaque(id))
			return true
		}
	}
	if b, ok := instr.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) {
		x, y := e.eval(s, b.X), e.eval(s, b.Y)
		nx, xerr := strconv.Atoi(x.S)
		ny, yerr := strconv.Atoi(y.S)
		if x.K == KConst && y.K == KConst && xerr == nil && yerr == nil {
			if b.Op == token.SUB {
				ny = -ny
			}
			e.set(s, b, Val{K: KConst, S: strconv.Itoa(nx + ny)})
			return true
		}
	}
	return neverSet(e, s, instr)
}

// Load: before the options are parsed, parts of variables which were not set are zero
func (k *optClient) Load(e *Engine, s *State, instr ssa.Instruction, key string, t types.Type) []Outcome {
	if s.D["parsed"] == "" && strings.HasPrefix(key, "*g:"+k.pkg+".") {
		if _, ok := t.Underlying().(*types.Basic); ok {
			return []Outcome{{Val: zeroVal(t), Apply: func(s *State) { s.mem[key] = zeroVal(t) }}}
		}
	}
	return nil
}

func isFlagVar(fn *ssa.Function) bool {
	return fn != nil && (pkgPathOf(fn) == "flag") && strings.HasSuffix(fn.Name(), "Var")
}

func ends(callee *ssa.Function) bool {
	if callee == nil {
		return false
	}
	q := qualName(callee)
	return q == "os.Exit" || strings.HasPrefix(q, "log.Fatal") || isStatsCode(callee) && callee.Name() == "LogFatal"
}

func optTag(name string) string { return "<" + name + ">" }

func (k *optClient) Call(e *Engine, s *State, cs *CallSite) ([]Outcome, bool) {
	callee := cs.Static
	if callee == nil {
		return nil, false
	}
	pos := cs.Instr.Pos()
	q := qualName(callee)
	if ends(callee) {
		if s.top().async {
			// main may be anywhere by then
			return []Outcome{{Val: Val{K: KConst, S: "void"}}}, true
		}
		k.ended = true
		return []Outcome{{End: true}}, true
	}
	if isFlagVar(callee) {
		off := 0
		if callee.Signature.Recv() != nil {
			off = 1
		}
		name, ok := constStr(cs.Args[off+1])
		key, kok := e.addr(s, cs.Args[off])
		if !ok || !kok {
			k.bad(e, s, "binding", pos, "cannot tell which option is bound to what here")
			return []Outcome{{Val: Val{K: KConst, S: "void"}}}, true
		}
		if !k.silent {
			k.c.ObOnce("binding", k.prog.pkg+" "+name)
		}
		def := cs.Args[off+2]
		if want, ok := k.prog.defaults[name]; ok && defText(def) != want {
			k.bad(e, s, "default", pos, "option %s is %s when it is not given, instead of %s", name, defText(def), want)
		}
		if other := s.D["name:"+name]; other != "" {
			k.bad(e, s, "binding", pos, "option %s is defined twice", name)
		}
		if other := s.D["key:"+key]; other != "" {
			k.bad(e, s, "binding", pos, "options %s and %s set the same thing", other, name)
		}
		if s.D["parsed"] != "" {
			k.bad(e, s, "parse", pos, "option %s is defined after the options were parsed", name)
		}
		s.D["name:"+name], s.D["key:"+key] = key, name
		k.opts[name] = key
		typ := callee.Name()
		if s.D["parsed"] == "" {
			s.D["opt:"+name] = typ
		}
		return []Outcome{{Val: Val{K: KConst, S: "void"}, Apply: func(s *State) { s.setMem(key, def) }}}, true
	}
	switch q {
	case "flag.Parse":
		return []Outcome{{Val: Val{K: KConst, S: "void"}, Apply: func(s *State) {
			s.D["parsed"] = "1"
			for d, typ := range s.D {
				name, ok := strings.CutPrefix(d, "opt:")
				if !ok {
					continue
				}
				if k.given != nil && !k.given[name] {
					continue
				}
				switch {
				case typ == "StringVar":
					s.setMem(s.D["name:"+name], strConst(optTag(name)))
				case k.on[name]:
					s.setMem(s.D["name:"+name], boolVal(true))
				default:
					s.setMem(s.D["name:"+name], opaque(optTag(name)+";"))
				}
			}
		}}}, true
	case "flag.Args", "flag.Arg", "flag.NArg":
		if s.D["parsed"] == "" {
			k.bad(e, s, "parse", pos, "arguments are used before the options were parsed")
		}
		return []Outcome{{Val: opaque("args;")}}, true
	}
	if strings.HasSuffix(q, "hangover.FindSource") {
		if len(cs.Args) > 1 && cs.Args[1].S != "args;" {
			k.bad(e, s, "inputs", pos, "it is not the arguments that are used to find the input files")
		}
		files := tuple(strConst(optTag("nq")), strConst(optTag("xml")), strConst(""), Val{K: KNil})
		index := tuple(strConst(""), strConst(""), strConst(optTag("index")), Val{K: KNil})
		failed := tuple(strConst(""), strConst(""), strConst(""), Val{K: KNonNil, S: "failed"})
		outs := []Outcome{{Val: files}, {Val: failed}}
		if a := cs.Args[0]; !(a.K == KBool && a.N == 0) {
			outs = append(outs, Outcome{Val: index})
		}
		return outs, true
	}
	if k.several && (q == "database/sql.Open" || q == "os.Create" || q == "os.OpenFile" || q == "os.WriteFile" || strings.HasSuffix(q, "sparkl.Export") || strings.HasSuffix(q, "sparkl.LoadPathbuilder")) {
		k.bad(e, s, "conflict", pos, "an output is made although more than one was asked for")
		return []Outcome{{End: true}}, true
	}
	found := false
	for _, sk := range k.prog.sinks {
		if !strings.HasSuffix(q, sk.callee) || sk.arg >= len(cs.Args) {
			continue
		}
		found = true
		v := cs.Args[sk.arg]
		if b, ok := k.boxes[v.S]; ok && v.K == KOpaque {
			v = b
		}
		if sk.field != "" {
			typ := cs.ArgV[sk.arg].Type()
			if v.K == KOpaque && !isPointer(typ) && !types.IsInterface(typ) {
				v, _ = e.load(s, v.S+sk.field, types.Typ[types.String])
			} else if key, ok := e.addr(s, v); ok {
				v, _ = e.load(s, key+sk.field, types.Typ[types.String])
			}
		}
		k.use(e, s, sk, v, pos)
	}
	if k.prog.outputs != nil {
		switch q {
		case "database/sql.Open":
			proto, _ := constStr(cs.Args[0])
			addr, _ := constStr(cs.Args[1])
			k.reached["sql:"+proto+" "+addr] = true
		case "os.Create", "os.OpenFile", "os.WriteFile":
			k.reached["file:"+cs.Args[0].String()] = true
			// how it is filled is not decided here
			return []Outcome{{End: true}}, true
		}
	}
	if strings.HasSuffix(q, "sparkl.LoadPathbuilder") {
		k.reached["json"] = true
	}
	text := map[string]bool{"path/filepath": true, "path": true, "strings": true, "fmt": true}[pkgPathOf(callee)]
	if found || text || strings.HasSuffix(q, ".ParsePredicateString") {
		var in []string
		args := cs.Args
		if callee.Signature.Variadic() && len(args) > 0 {
			last := len(args) - 1
			args = append(append([]Val(nil), args[:last]...), elems(e, s, args[last], 8, types.Typ[types.String])...)
		}
		for _, a := range args {
			in = append(in, strings.TrimSuffix(a.String(), ";"))
		}
		res := callee.Signature.Results()
		id := "of<" + callee.Name() + "|" + strings.Join(in, ",") + ">;"
		switch {
		case res.Len() == 0:
			return []Outcome{{Val: Val{K: KConst, S: "void"}}}, true
		case res.Len() == 1 && errResult(callee.Signature):
			return []Outcome{{Val: Val{K: KNil}}, {Val: Val{K: KNonNil, S: "failed"}}}, true
		case res.Len() == 1:
			return []Outcome{{Val: opaque(id)}}, true
		case res.Len() == 2 && errResult(callee.Signature):
			return []Outcome{{Val: tuple(opaque(id), Val{K: KNil})}, errOutcome(2)}, true
		}
	}
	return nil, false
}

func defText(v Val) string {
	if s, ok := constStr(v); ok {
		return fmt.Sprintf("%q", s)
	}
	if v.K == KBool {
		return v.String()
	}
	return strings.TrimPrefix(v.S, "zero:")
}

// use: a value has the effect of an option
func (k *optClient) use(e *Engine, s *State, sk optSink, v Val, pos token.Pos) {
	if k.silent {
		return
	}
	text := v.String()
	name := sk.callee[strings.LastIndexAny(sk.callee, "./")+1:]
	what := name + " argument " + fmt.Sprint(sk.arg) + sk.field
	k.c.ObOnce("effect", k.prog.pkg+" "+what)
	file := sk.want == "nq" || sk.want == "xml" || sk.want == "index"
	if k.given != nil && !k.given[sk.want] && !file {
		if strings.Contains(text, "<") && strings.Contains(text, ">") {
			for o := range k.opts {
				if strings.Contains(text, optTag(o)) {
					k.bad(e, s, "effect", pos, "%s is set by option %s instead of by option %s", what, o, sk.want)
				}
			}
		}
		return
	}
	k.reached[sk.want+" "+what] = true
	if !strings.Contains(text, optTag(sk.want)) {
		got := "something else"
		for _, o := range append(sortedKeysOf(k.opts), "nq", "xml", "index") {
			if strings.Contains(text, optTag(o)) {
				got = optTag(o)
			}
		}
		k.bad(e, s, "effect", pos, "%s is not what %s says, but %s", what, optTag(sk.want), got)
		return
	}
	for _, o := range append(sortedKeysOf(k.opts), "nq", "xml", "index") {
		if o != sk.want && strings.Contains(text, optTag(o)) {
			k.bad(e, s, "effect", pos, "%s is also set by %s", what, optTag(o))
		}
	}
}

func (k *optClient) Exit(e *Engine, s *State, kind ExitKind, instr ssa.Instruction, res []Val) {
	if kind == ExitReturn {
		k.ends = append(k.ends, s.clone())
	}
}

// runProgram interprets the initialisers and then main
func (k *optClient) runProgram(initFn, mainFn *ssa.Function) {
	run := func(fn *ssa.Function, id string, init func(*State)) {
		e := NewEngine(k.c.W, k)
		e.RootID, e.Strings, e.Numbers, e.KeepGlobals = id, true, true, true
		e.Special = k.special
		e.Max = 500_000
		e.Run(fn, init)
		if e.Over {
			k.c.Bad("undecided", fname(fn), fn.Pos(), "too many paths to decide")
		}
	}
	run(initFn, "i", func(s *State) {
		// nothing is set before the initialisers run
		for _, m := range initFn.Pkg.Members {
			if g, ok := m.(*ssa.Global); ok {
				typ := g.Type().Underlying().(*types.Pointer).Elem()
				if _, ok := typ.Underlying().(*types.Basic); ok {
					if key, ok := (&Engine{}).addr(s, opaque("g:"+g.String()+";")); ok {
						s.mem[key] = zeroVal(typ)
					}
				}
			}
		}
	})
	starts := k.ends
	k.ends = nil
	seen := map[string]bool{}
	for _, st := range starts {
		var sig []string
		for key, v := range st.mem {
			if strings.Contains(key, "g:") {
				sig = append(sig, key+"="+v.String())
			}
		}
		sort.Strings(sig)
		if text := strings.Join(sig, "\n"); seen[text] {
			continue
		} else {
			seen[text] = true
		}
		st := st
		run(mainFn, "m", func(s *State) {
			for key, v := range st.mem {
				s.setMem(key, v)
			}
			for d, v := range st.D {
				s.D[d] = v
			}
		})
	}
}

// sourceClient interprets FindSource
type sourceClient struct {
	BaseClient
	c     *Ctx
	pkg   string
	kinds map[string]bool
	// whether an index is allowed
	allowed bool
}

func (k *sourceClient) Inline(e *Engine, s *State, cs *CallSite, fn *ssa.Function) bool {
	return isRepo(fn) && fnPkg(fn) == k.pkg
}

func (k *sourceClient) Call(e *Engine, s *State, cs *CallSite) ([]Outcome, bool) {
	if cs.Static == nil {
		return nil, false
	}
	switch p := pkgPathOf(cs.Static); {
	case strings.HasSuffix(qualName(cs.Static), "fmt.Errorf") || strings.HasSuffix(qualName(cs.Static), "errors.New"):
		return []Outcome{{Val: Val{K: KNonNil, S: "failed"}}}, true
	case p == "path/filepath" || p == "path" || p == "strings":
		var in []string
		args := cs.Args
		if cs.Static.Signature.Variadic() && len(args) > 0 {
			last := len(args) - 1
			args = append(append([]Val(nil), args[:last]...), elems(e, s, args[last], 8, types.Typ[types.String])...)
		}
		for _, a := range args {
			in = append(in, strings.TrimSuffix(a.String(), ";"))
		}
		id := "of<" + strings.NewReplacer("[", "(", "]", ")", ";", "!").Replace(strings.Join(in, ",")) + ">;"
		switch res := cs.Static.Signature.Results(); {
		case res.Len() == 1:
			return []Outcome{{Val: opaque(id)}}, true
		case res.Len() == 2 && errResult(cs.Static.Signature):
			return []Outcome{{Val: tuple(opaque(id), Val{K: KNil})}, errOutcome(2)}, true
		}
	}
	return nil, false
}

func (k *sourceClient) Exit(e *Engine, s *State, kind ExitKind, instr ssa.Instruction, res []Val) {
	if kind != ExitReturn || len(res) != 4 || s.isNil(res[3]) == 0 {
		return
	}
	fn := s.top().fn
	text := func(v Val) string {
		if str, ok := constStr(v); ok {
			return str
		}
		return v.String()
	}
	nq, xml, index := text(res[0]), text(res[1]), text(res[2])
	bad := func(format string, args ...any) {
		k.c.BadAt("inputs", fname(fn), k.c.W.pos(instr.Pos()), e.Trace(s), format, args...)
	}
	from := func(text, ext string, i int) bool {
		other := map[string]string{".nq": ".xml", ".xml": ".nq"}[ext]
		if strings.Contains(text, other) {
			return false
		}
		return strings.Contains(text, ext) || text != "" && !strings.Contains(text, fmt.Sprintf("files;[%d]", 1-i))
	}
	switch {
	case index != "":
		k.kinds["index"] = true
		k.c.ObOnce("inputs", "index")
		if nq != "" || xml != "" {
			bad("both an index and other files are found")
		}
		if !k.allowed {
			bad("an index is found although no index is allowed")
		}
	case nq == "" && xml == "":
		bad("nothing is found without an error")
	default:
		kind := "two arguments"
		if strings.Contains(nq+xml, "of<") {
			kind = "directory"
		}
		k.kinds[kind] = true
		k.c.ObOnce("inputs", kind)
		if !from(nq, ".nq", 1) {
			bad("the nquads file is %s", nq)
		}
		if !from(xml, ".xml", 0) {
			bad("the pathbuilder file is %s", xml)
		}
	}
}

func checkSources(c *Ctx) {
	for _, fn := range c.W.Fns {
		if fn.Name() != "FindSource" || fn.Signature.Recv() != nil || fn.Parent() != nil || !isRepo(fn) {
			continue
		}
		k := &sourceClient{c: c, pkg: fnPkg(fn), kinds: map[string]bool{}}
		for _, k.allowed = range []bool{true, false} {
			e := NewEngine(c.W, k)
			e.RootID, e.Strings, e.Numbers = "f", true, true
			e.Params = map[string]Val{}
			for _, p := range fn.Params {
				if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
					e.Params[p.Name()] = boolVal(k.allowed)
				} else {
					e.Params[p.Name()] = opaque("files;")
				}
			}
			e.Special = func(e *Engine, s *State, instr ssa.Instruction) bool { return neverSet(e, s, instr) }
			e.Run(fn, nil)
			if e.Over {
				c.Bad("undecided", fname(fn), fn.Pos(), "too many paths to decide")
			}
		}
		for _, kind := range []string{"index", "two arguments", "directory"} {
			if !k.kinds[kind] {
				c.Bad("inputs", fname(fn), fn.Pos(), "nothing is ever found for: %s", kind)
			}
		}
	}
}

func checkOptions(c *Ctx, prog optProgram) {
	var initFn, mainFn *ssa.Function
	for _, fn := range c.W.Fns {
		if strings.HasSuffix(fnPkg(fn), prog.pkg) && fn.Parent() == nil && fn.Signature.Recv() == nil && fn.Blocks != nil {
			switch fn.Name() {
			case "init":
				initFn = fn
			case "main":
				mainFn = fn
			}
		}
	}
	if mainFn == nil {
		return
	}
	if initFn == nil {
		initFn = mainFn.Pkg.Func("init")
	}
	client := func(given, on map[string]bool) *optClient {
		return &optClient{c: c, prog: prog, pkg: fnPkg(mainFn), given: given, on: on, opts: map[string]string{}, reached: map[string]bool{}, boxes: map[string]Val{}}
	}
	all := client(nil, nil)
	if prog.outputs != nil {
		// first only what is common to all outputs
		all.silent = true
	}
	all.runProgram(initFn, mainFn)
	reached := map[string]bool{}
	note := func(k *optClient) {
		for r := range k.reached {
			reached[r] = true
		}
	}
	if prog.outputs == nil {
		note(all)
		// without an export, and in benchmarking mode
		rest := map[string]bool{}
		for o := range all.opts {
			rest[o] = o != "export" && o != "bench"
		}
		k := client(rest, nil)
		k.runProgram(initFn, mainFn)
		note(k)
		// a benchmark serves nothing
		if all.opts["bench"] != "" {
			rest["bench"] = true
			k := client(rest, map[string]bool{"bench": true})
			k.runProgram(initFn, mainFn)
			c.Ob("has-effect", prog.pkg+" bench")
			for r := range k.reached {
				if strings.HasPrefix(r, "addr ") {
					c.Bad("effect", fname(mainFn), mainFn.Pos(), "a server is started in spite of -bench")
				}
			}
		}
	} else {
		outs := sortedKeysOf(prog.outputs)
		for set := 0; set < 1<<len(outs); set++ {
			given := map[string]bool{}
			for o := range all.opts {
				given[o] = true
			}
			n := 0
			var names []string
			for i, o := range outs {
				given[o] = set&(1<<i) != 0
				if given[o] {
					n++
					names = append(names, "-"+o)
				}
			}
			k := client(given, nil)
			k.several = n > 1
			k.runProgram(initFn, mainFn)
			c.Ob("outputs", strings.Join(names, " "))
			if n > 1 {
				if len(k.ends) > 0 {
					c.Bad("conflict", fname(mainFn), mainFn.Pos(), "the program ends well although %s were given", strings.Join(names, " and "))
				}
				continue
			}
			note(k)
			var sql, files []string
			for r := range k.reached {
				if v, ok := strings.CutPrefix(r, "sql:"); ok {
					sql = append(sql, v)
				}
				if v, ok := strings.CutPrefix(r, "file:"); ok {
					files = append(files, v)
				}
			}
			sort.Strings(sql)
			switch {
			case n == 0:
				if len(sql)+len(files) > 0 || !k.reached["json"] {
					c.Bad("outputs", fname(mainFn), mainFn.Pos(), "without an output option it is not json that is written")
				}
			default:
				o := strings.TrimPrefix(names[0], "-")
				if kind := prog.outputs[o]; kind != "" {
					if len(sql) != 1 || sql[0] != kind+" "+optTag(o) || len(files) > 0 || k.reached["json"] {
						c.Bad("outputs", fname(mainFn), mainFn.Pos(), "with -%s it is not the %s database it names that is written, but %v", o, kind, append(sql, files...))
					}
				} else if len(files) == 0 || !strings.Contains(strings.Join(files, " "), optTag(o)) || k.reached["json"] || strings.Contains(strings.Join(sql, " "), "<") {
					c.Bad("outputs", fname(mainFn), mainFn.Pos(), "with -%s it is not files at the place it names that are written", o)
				}
			}
		}
	}
	for _, sk := range prog.sinks {
		name := sk.callee[strings.LastIndexAny(sk.callee, "./")+1:]
		what := name + " argument " + fmt.Sprint(sk.arg) + sk.field
		c.Ob("has-effect", prog.pkg+" "+what)
		if !reached[sk.want+" "+what] {
			c.Bad("effect", prog.pkg, mainFn.Pos(), "%s never has its effect (%s)", sk.want, what)
		}
	}
}

func init() {
	register(&Check{
		Prop:    "C15",
		Explain: "both commands are interpreted from their package initialisers to the end of main with every option given a recognisable value (and, for the outputs, for every combination of them); at the calls where an option or input file has its effect the value that arrives must be that of the option; bindings are distinct, have their documented default and are complete before parsing; combinations of outputs end the program; FindSource is interpreted with and without an index allowed; the graphical program is interpreted from RunAndWait on, and the binding of the entry that asks for a setting must be the one its effect comes from; a file found in a directory is used only where the conditions that lead there say that it is the only one; lists of names are taken apart at commas and ends of lines, without spaces and empty entries",
		Assume:  []string{"the documented defaults, and the calls at which options have their effect, are listed in the check", "an entry of the settings form says in its label or hint what it sets (words listed in the check)"},
		Floors:  map[string]int{"binding": 15, "effect": 15, "has-effect": 20, "outputs": 8, "inputs": 3, "setting": 18, "made": 7, "one-file": 1, "list": 1},
		Run: func(c *Ctx) {
			checkSources(c)
			onlyFile(c)
			nameLists(c)
			checkGUI(c)
			for _, p := range optPrograms {
				checkOptions(c, p)
			}
		},
	})
}
