package main

// Completeness of written output (C03): on every path that reports success all
// layers of the output were finished, outermost first, and a failing finish is
// reported.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// sinkKind describes a layer of output and how it is finished
type sinkKind struct {
	name   string
	finish string // method that writes out what is buffered
	check  string // method that reports whether that worked ("" : finish itself)
	dst    int    // index of the argument that receives the bytes, or -1
}

func sinkOf(cs *CallSite) *sinkKind {
	switch name := cs.Name(); name {
	case "os.Create", "os.CreateTemp":
		return &sinkKind{"file", "Close", "", -1}
	case "os.OpenFile":
		if len(cs.Args) == 3 && cs.Args[1].K == KConst {
			if n, err := strconv.ParseInt(cs.Args[1].S, 10, 64); err == nil && n&3 == 0 {
				return nil // read only
			}
		}
		return &sinkKind{"file", "Close", "", -1}
	case "compress/gzip.NewWriter", "compress/gzip.NewWriterLevel", "compress/zlib.NewWriter", "compress/zlib.NewWriterLevel", "compress/flate.NewWriter", "archive/zip.NewWriter", "archive/tar.NewWriter":
		return &sinkKind{"compressor", "Close", "", 0}
	case "database/sql.Open":
		if len(cs.Args) == 2 && cs.Args[1].K == KConst && strings.Contains(cs.Args[1].S, ":memory:") {
			return nil // gone with the process
		}
		return &sinkKind{"database", "Close", "", -1}
	case "encoding/csv.NewWriter":
		return &sinkKind{"CSV writer", "Flush", "Error", 0}
	case "bufio.NewWriter", "bufio.NewWriterSize":
		return &sinkKind{"buffer", "Flush", "", 0}
	case "text/tabwriter.NewWriter":
		return &sinkKind{"table writer", "Flush", "", 0}
	case "encoding/xml.NewEncoder":
		return &sinkKind{"XML encoder", "Flush", "", 0}
	case "github.com/anglo-korean/rdf.NewTripleEncoder":
		return &sinkKind{"RDF encoder", "Close", "", 0}
	}
	return nil
}

type sinkClient struct {
	errClient
	created map[string]bool
	makes   func(*ssa.Function) bool
	kinds   map[string]*sinkKind
	dyn     map[string]types.Type // repository types of values in interfaces
}

// outputCalls selects the calls whose failure means that output is incomplete
type outputCalls struct {
	w      *World
	sinkOf map[*ssa.Function]bool
	memo   map[*ssa.Function]bool
}

func (o *outputCalls) direct(name string, cs *CallSite) bool {
	switch name {
	case "(" + modPath + "/internal/sparkl/exporter.Exporter).Begin", "(" + modPath + "/internal/sparkl/exporter.Exporter).Add",
		"(" + modPath + "/internal/sparkl/exporter.Exporter).End", "(" + modPath + "/internal/sparkl/exporter.Exporter).Close",
		"(*encoding/gob.Encoder).Encode", "(*encoding/json.Encoder).Encode", "(*github.com/anglo-korean/rdf.TripleEncoder).Encode",
		"(*encoding/csv.Writer).Write", "(*encoding/csv.Writer).WriteAll":
		return true
	case "(*database/sql.DB).Exec", "(*database/sql.DB).ExecContext", "(*database/sql.DB).Close", "(*database/sql.Tx).Commit", "(*database/sql.Tx).Exec":
		if cs == nil {
			return true
		}
		return fnPkgPath(o.w, cs.Instr.Parent()) == modPath+"/internal/sparkl/exporter"
	case "(io.Writer).Write":
		return cs != nil && isWrite(cs.Instr.Parent())
	}
	return false
}

// isWrite: fn is the Write of an io.Writer
func isWrite(fn *ssa.Function) bool {
	if fn.Name() != "Write" || fn.Signature.Recv() == nil {
		return false
	}
	return fn.Signature.Params().Len() == 1 && fn.Signature.Params().At(0).Type().String() == "[]byte" && len(errIndex(fn.Signature)) == 1
}

// touches: fn writes or finishes output, directly or through repository functions
func (o *outputCalls) touches(fn *ssa.Function) bool {
	fn = origin(fn)
	if r, ok := o.memo[fn]; ok {
		return r
	}
	o.memo[fn] = false
	r := makesSink(o.sinkOf, fn) || isWrite(fn)
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch ins := ins.(type) {
			case *ssa.MakeClosure:
				r = r || o.touches(ins.Fn.(*ssa.Function))
			case ssa.CallInstruction:
				cc := ins.Common()
				if cc.IsInvoke() {
					r = r || o.direct(cc.Method.FullName(), nil)
				} else if st := cc.StaticCallee(); st != nil {
					if isRepo(st) {
						r = r || o.touches(st)
					} else {
						r = r || o.direct(qualName(st), nil) && !strings.Contains(qualName(st), "database/sql") || strings.Contains(qualName(st), "database/sql") && o.direct(qualName(st), nil) && fnPkgPath(o.w, fn) == modPath+"/internal/sparkl/exporter"
					}
				}
			}
		}
	}
	o.memo[fn] = r
	return r
}

func (o *outputCalls) track(name string, cs *CallSite) bool {
	if o.direct(name, cs) {
		return true
	}
	if cs.Static != nil && cs.Iface == nil && isRepo(cs.Static) {
		return o.touches(cs.Static)
	}
	return cs.Static == nil && cs.Iface == nil // a function value
}

func sinkKey(v Val) string { return "sink:" + v.String() }

// reaches lists the live sinks that can be reached through v
func (c *sinkClient) reaches(s *State, v Val) []string {
	out := map[string]bool{}
	reachVals(s, v, out)
	var l []string
	for k := range out {
		if s.D["sink:"+k] != "" {
			l = append(l, k)
		}
	}
	sort.Strings(l)
	return l
}

func (c *sinkClient) Inline(e *Engine, s *State, cs *CallSite, fn *ssa.Function) bool {
	if c.errClient.Inline(e, s, cs, fn) {
		return true
	}
	if !isRepo(fn) {
		return false
	}
	for _, a := range cs.Args {
		if len(c.reaches(s, a)) > 0 {
			return true
		}
	}
	if c.makes(fn) {
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			if !isErrorType(fn.Signature.Results().At(i).Type()) {
				return true
			}
		}
	}
	return false
}

// makesSink: fn creates a layer of output, directly or through repository functions
func makesSink(memo map[*ssa.Function]bool, fn *ssa.Function) bool {
	fn = origin(fn)
	if r, ok := memo[fn]; ok {
		return r
	}
	memo[fn] = false
	r := false
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch ins := ins.(type) {
			case *ssa.MakeClosure:
				r = r || makesSink(memo, ins.Fn.(*ssa.Function))
			case ssa.CallInstruction:
				st := ins.Common().StaticCallee()
				if st == nil {
					continue
				}
				if isRepo(st) {
					r = r || makesSink(memo, st)
					continue
				}
				if sinkOf(&CallSite{Static: origin(st)}) != nil {
					r = true
				}
			}
		}
	}
	memo[fn] = r
	return r
}

func (c *sinkClient) Call(e *Engine, s *State, cs *CallSite) ([]Outcome, bool) {
	if _, ok := cs.Instr.Common().Value.(*ssa.Builtin); ok && !cs.Instr.Common().IsInvoke() {
		return nil, false
	}
	if cs.Iface != nil && len(cs.Args) > 0 {
		// a repository type whose layers are followed: which method is called is known
		if t := c.dyn[cs.Args[0].String()]; t != nil && len(c.reaches(s, cs.Args[0])) > 0 {
			if cs.Iface.Name() != "Close" && cs.Iface.Name() != "Flush" {
				// works on the layers, but keeps them
				v := e.opaqueResult(s, cs)
				if v.K == KTuple {
					for _, i := range errIndex(cs.Sig) {
						v.T[i] = Val{K: KNil}
					}
				} else if isErrorType2(cs.Sig) {
					v = Val{K: KNil}
				}
				return []Outcome{{Val: v}}, true
			}
			if obj, _, _ := types.LookupFieldOrMethod(t, true, cs.Iface.Pkg(), cs.Iface.Name()); obj != nil {
				if f, ok := obj.(*types.Func); ok {
					if fn := e.W.Prog.FuncValue(f); fn != nil && fn.Blocks != nil {
						cs.Static, cs.Iface = origin(fn), nil
					}
				}
			}
		}
	}
	name := cs.Name()
	short := name[strings.LastIndexByte(name, '.')+1:]
	if len(cs.Args) > 0 && cs.Sig.Recv() != nil || cs.Iface != nil && len(cs.Args) > 0 {
		key := sinkKey(cs.Args[0])
		if st := s.D[key]; st != "" {
			kind, state, pos := splitSink(st)
			k := c.kinds[kind]
			set := func(s *State, state string) { s.D[key] = kind + "|" + state + "|" + pos }
			nilErr, failErr := Val{K: KNil}, c.fail(name)
			if !isErrorType2(cs.Sig) {
				nilErr, failErr = opaque(cs.ResID), opaque(cs.ResID)
			}
			switch {
			case short == k.finish && k.check == "":
				if c.pend(s) != "" || state == "done" {
					return []Outcome{{Val: opaque(cs.ResID), Apply: func(s *State) { set(s, "done") }}}, true
				}
				c.order(e, s, cs, kind)
				c.site(cs.Instr, k.name+" "+k.finish)
				return []Outcome{
					{Val: nilErr, Apply: func(s *State) { set(s, "done") }},
					{Val: failErr, Apply: func(s *State) { set(s, "done"); c.markPend(s, cs, name) }},
				}, true
			case short == k.finish:
				c.order(e, s, cs, kind)
				return []Outcome{{Val: opaque(cs.ResID), Apply: func(s *State) { set(s, "flushed") }}}, true
			case k.check != "" && short == k.check:
				if c.pend(s) != "" || state != "flushed" {
					return []Outcome{{Val: Val{K: KNil}}}, true
				}
				c.site(cs.Instr, k.name+" "+k.check)
				return []Outcome{
					{Val: nilErr, Apply: func(s *State) { set(s, "done") }},
					{Val: failErr, Apply: func(s *State) { set(s, "done"); c.markPend(s, cs, name) }},
				}, true
			case state != "done" || strings.HasPrefix(short, "Write") || short == "Encode":
				if k.name != "file" || state != "done" {
					set(s, "open")
				}
			}
		}
	}
	return c.errClient.Call(e, s, cs)
}

// order: what writes into this layer has to be finished before it
func (c *sinkClient) order(e *Engine, s *State, cs *CallSite, kind string) {
	if c.pend(s) != "" || s.D["failed"] != "" {
		return
	}
	me := cs.Args[0].String()
	for d, v := range s.D {
		id, ok := strings.CutPrefix(d, "dst:")
		if !ok {
			continue
		}
		to := false
		for _, x := range strings.Split(v, " ") {
			to = to || x == me
		}
		st := s.D["sink:"+id]
		if !to || st == "" {
			continue
		}
		k2, state, pos := splitSink(st)
		if state != "done" && s.D["some error"] == "" {
			s.D["early:"+id] = k2 + "|" + kind + "|" + pos
		}
	}
}

func splitSink(s string) (kind, state, pos string) {
	p := strings.SplitN(s, "|", 3)
	return p[0], p[1], p[2]
}

func (c *sinkClient) Opaque(e *Engine, s *State, cs *CallSite, argRes []Val) []Outcome {
	k := sinkOf(cs)
	if k == nil {
		return c.errClient.Opaque(e, s, cs, argRes)
	}
	pos := c.w.pos(cs.Instr.Pos())
	if k.dst >= 0 && k.dst < len(cs.Args) {
		// a layer over memory is not output
		if cs.Args[k.dst].K == KPtr && strings.HasPrefix(cs.Args[k.dst].S, "a!") {
			t := cs.ArgV[k.dst].Type()
			if mi, ok := cs.ArgV[k.dst].(*ssa.MakeInterface); ok {
				t = mi.X.Type()
			}
			if ts := t.String(); ts == "*bytes.Buffer" || ts == "*strings.Builder" {
				return c.errClient.Opaque(e, s, cs, argRes)
			}
		}
	}
	c.created[pos+" "+k.name] = true
	c.kinds[k.name] = k
	v := e.opaqueResult(s, cs)
	id := v
	if v.K == KTuple {
		id = v.T[0]
		for _, i := range errIndex(cs.Sig) {
			v.T[i] = Val{K: KNil}
		}
	}
	var dst []string
	if k.dst >= 0 && k.dst < len(cs.Args) {
		dst = c.reaches(s, cs.Args[k.dst])
	}
	return []Outcome{{Val: v, Apply: func(s *State) {
		if old := s.D[sinkKey(id)]; old != "" {
			if kind, state, p := splitSink(old); state != "done" {
				c.open(e, s, kind, p, nil)
			}
		}
		s.D[sinkKey(id)] = k.name + "|open|" + pos
		delete(s.D, "early:"+id.String())
		delete(s.D, "dst:"+id.String())
		if len(dst) > 0 {
			s.D["dst:"+id.String()] = strings.Join(dst, " ")
		}
	}}}
}

func (c *sinkClient) open(e *Engine, s *State, kind, pos string, instr ssa.Instruction) {
	if c.hits[kind+pos] {
		return
	}
	c.hits[kind+pos] = true
	at := ""
	if instr != nil {
		at = " at " + c.w.pos(instr.Pos())
	}
	c.c.BadAt("finished", fname(c.root)+"|"+kind, pos, e.Trace(s), "%s reports success%s although the %s opened here was not finished (%s)", fname(c.root), at, kind, finishText(c.kinds[kind]))
}

func finishText(k *sinkKind) string {
	if k == nil {
		return ""
	}
	if k.check != "" {
		return k.finish + " and then " + k.check
	}
	return k.finish
}

func (c *sinkClient) Instr(e *Engine, s *State, instr ssa.Instruction) bool {
	drop := func(v Val) {
		for _, id := range c.reaches(s, v) {
			if k, _, pos := splitSink(s.D["sink:"+id]); k != "" {
				c.c.Notes = appendOnce(c.c.Notes, fmt.Sprintf("%s: ownership of the %s opened at %s is handed on", fname(c.root), k, pos))
			}
			delete(s.D, "sink:"+id)
		}
	}
	switch ins := instr.(type) {
	case *ssa.MakeInterface:
		t := ins.X.Type()
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && isRepoPath(n.Obj().Pkg().Path()) {
			if v := e.eval(s, ins.X); v.K == KPtr {
				c.dyn[v.String()] = ins.X.Type()
			}
		}
	case *ssa.Store:
		if k, ok := e.addr(s, e.eval(s, ins.Addr)); ok && !strings.HasPrefix(k, "a!") && !strings.HasPrefix(k, "*fv:") {
			drop(e.eval(s, ins.Val))
		}
	case *ssa.Send:
		drop(e.eval(s, ins.X))
	case *ssa.MapUpdate:
		drop(e.eval(s, ins.Value))
	}
	return c.errClient.Instr(e, s, instr)
}

func appendOnce(l []string, s string) []string {
	for _, x := range l {
		if x == s {
			return l
		}
	}
	return append(l, s)
}

func (c *sinkClient) Exit(e *Engine, s *State, kind ExitKind, instr ssa.Instruction, res []Val) {
	c.errClient.Exit(e, s, kind, instr, res)
	if kind == ExitPanic || kind == ExitProcess && s.D["exit"] != "0" {
		return
	}
	if c.pend(s) != "" {
		return
	}
	reach := map[string]bool{}
	for i, r := range res {
		if isErrorType(c.root.Signature.Results().At(i).Type()) {
			if s.isNil(r) == 0 {
				return // reports a failure
			}
			continue
		}
		reachVals(s, r, reach)
	}
	for k, st := range s.D {
		if id, ok := strings.CutPrefix(k, "sink:"); ok && !reach[id] {
			kd, state, pos := splitSink(st)
			if state != "done" {
				c.open(e, s, kd, pos, instr)
			}
		}
		if id, ok := strings.CutPrefix(k, "early:"); ok && !reach[id] {
			kd, by, pos := splitSink(st)
			if h := "early" + kd + pos; !c.hits[h] {
				c.hits[h] = true
				c.c.BadAt("order", fname(c.root)+"|"+kd, pos, e.Trace(s), "the %s is finished before the %s opened here, which still writes into it", by, kd)
			}
		}
	}
}

func sinks(c *Ctx) {
	w := c.W
	memo := map[*ssa.Function]bool{}
	ran := map[*ssa.Function]bool{}
	created := map[string]bool{}
	finishes := map[ssa.Instruction]string{}
	n, states := 0, 0
	run := func(fn *ssa.Function) {
		cl := &sinkClient{errClient: errClient{w: w, c: c, rule: "finish-reported", root: fn, sites: map[ssa.Instruction]string{}, inlined: ran, hits: map[string]bool{}, pendFn: map[string]*ssa.Function{}}}
		cl.track = func(string, *CallSite) bool { return false }
		cl.mayFailOf = func(*ssa.Function) bool { return false }
		cl.makes = func(fn *ssa.Function) bool { return makesSink(memo, fn) }
		cl.created = created
		cl.kinds = map[string]*sinkKind{}
		cl.dyn = map[string]types.Type{}
		if debugEngine {
			fmt.Fprintln(os.Stderr, "sink root", fname(fn))
		}
		e := NewEngine(w, cl)
		e.Run(fn, nil)
		n++
		states += e.States
		if e.Over {
			c.BadAt("undecided", fname(fn), w.pos(fn.Pos()), "", "too many paths to decide")
		}
		for i, d := range cl.sites {
			finishes[i] = fname(fn) + ": " + d + " at " + w.pos(i.Pos())
		}
	}
	for _, fn := range w.Fns {
		if fn.Blocks != nil && fn.Parent() == nil && makesSink(memo, fn) {
			run(fn)
		}
	}
	for changed := true; changed; {
		changed = false
		for _, fn := range w.Fns {
			if fn.Blocks != nil && fn.Parent() != nil && !ran[fn] && makesSink(memo, fn) {
				ran[fn] = true
				changed = true
				run(fn)
			}
		}
	}
	for _, k := range sortedKeys(created) {
		c.Ob("finished", k)
		c.Ob("order", k)
	}
	for _, d := range finishes {
		c.Ob("finish-reported", d)
	}
	c.Counts["roots_explored"] += n
	c.Counts["abstract_paths_explored"] += states
	o := &outputCalls{w: w, sinkOf: memo, memo: map[*ssa.Function]bool{}}
	in := inPkgs(w, "", "cmd/n2j", "cmd/hangover", "internal/sparkl", "internal/sparkl/exporter", "internal/glass", "internal/wisski", "internal/stats", "pkg/progress")
	errFlowX(c, "output-errors", func(fn *ssa.Function) bool {
		f := fn
		for f.Parent() != nil {
			f = f.Parent()
		}
		return in(f) && o.touches(f)
	}, o.track, func(name string, cs *CallSite) bool { return false })
}

func init() {
	register(&Check{
		Prop: "C03",
		Explain: "Every place that opens a layer of output (file, compressor, CSV writer, buffer, RDF encoder) is followed on all abstract paths of the operation around it, through helpers and deferred calls. " +
			"finished: a path that reports success has finished each layer (Close, Flush, or Flush followed by a look at Error). order: a layer is finished before the one it writes into. " +
			"finish-reported: each finishing call is explored both succeeding and failing; after a failure the operation returns an error. " +
			"output-errors: every call that writes or finishes output (exporter methods, statements and Close of the database in the exporter, encoders, the writer inside a wrapping io.Writer, and every function around them up to main) is explored failing; the caller then returns the failure, records it where the run looks, or ends the process with a non-zero status.",
		Assume: []string{
			"each failure is explored on its own: everything else on the path succeeds",
			"the layers are the constructors listed in the checker (os, compress/*, encoding/csv, bufio, text/tabwriter, encoding/xml, archive/*, the RDF encoder); a layer from another library is not seen",
			"an in-memory database is not output; the http responses of the viewer are not output",
		},
		Floors: map[string]int{"finished": 3, "finish-reported": 3, "output-errors": 20},
		Run:    sinks,
	})
}
