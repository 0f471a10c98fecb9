package main

// C15: lists of names, and the choice of input files.

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// lenRange: what the conditions that lead to b say about the length of v
func lenRange(v ssa.Value, b *ssa.BasicBlock) (lo, hi int64) {
	lo, hi = 0, 1<<40
	isLen := func(x ssa.Value) bool {
		call, ok := x.(*ssa.Call)
		if !ok {
			return false
		}
		bi, ok := call.Call.Value.(*ssa.Builtin)
		return ok && bi.Name() == "len" && call.Call.Args[0] == v
	}
	for d := b; d.Idom() != nil; d = d.Idom() {
		p := d.Idom()
		br, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cmp, ok := br.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		op := cmp.Op
		var n int64
		if k, isC := intConst(cmp.Y); isC && isLen(cmp.X) {
			n = k
		} else if k, isC := intConst(cmp.X); isC && isLen(cmp.Y) {
			n = k
			switch op {
			case token.LSS:
				op = token.GTR
			case token.GTR:
				op = token.LSS
			case token.LEQ:
				op = token.GEQ
			case token.GEQ:
				op = token.LEQ
			}
		} else {
			continue
		}
		// which way leads here?
		var only *ssa.BasicBlock
		for _, s := range p.Succs {
			if s.Dominates(b) && len(s.Preds) == 1 {
				only = s
			}
		}
		if only == nil {
			continue
		}
		if only == p.Succs[1] {
			switch op {
			case token.EQL:
				op = token.NEQ
			case token.NEQ:
				op = token.EQL
			case token.LSS:
				op = token.GEQ
			case token.GEQ:
				op = token.LSS
			case token.GTR:
				op = token.LEQ
			case token.LEQ:
				op = token.GTR
			}
		}
		switch op {
		case token.EQL:
			lo, hi = max(lo, n), min(hi, n)
		case token.NEQ:
			if n == lo {
				lo++
			}
			if n == hi {
				hi--
			}
		case token.LSS:
			hi = min(hi, n-1)
		case token.LEQ:
			hi = min(hi, n)
		case token.GTR:
			lo = max(lo, n+1)
		case token.GEQ:
			lo = max(lo, n)
		}
	}
	return
}

// onlyFile: a file that was found is only used when it is the only one
func onlyFile(c *Ctx) {
	found := 0
	for _, fn := range c.W.Fns {
		if !isRepo(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				ex, ok := i.(*ssa.Extract)
				if !ok || ex.Index != 0 {
					continue
				}
				call, ok := ex.Tuple.(*ssa.Call)
				if !ok || call.Call.StaticCallee() == nil || qualName(call.Call.StaticCallee()) != "path/filepath.Glob" {
					continue
				}
				found++
				c.Ob("one-file", c.W.pos(call.Pos()))
				for _, r := range *ex.Referrers() {
					ia, ok := r.(*ssa.IndexAddr)
					if !ok {
						continue
					}
					if _, isC := intConst(ia.Index); !isC {
						continue
					}
					if lo, hi := lenRange(ex, ia.Block()); lo != 1 || hi != 1 {
						c.Bad("one-file", fname(fn), ia.Pos(), "one of the files that were found is used although there may be none or several")
					}
				}
			}
		}
	}
}

// nameLists: lists of names are taken apart as announced
func nameLists(c *Ctx) {
	for _, fn := range c.W.Fns {
		if !isRepo(fn) || fn.Parent() != nil || fn.Blocks == nil || !token.IsExported(fn.Name()) || fn.Signature.Recv() != nil {
			continue
		}
		sig := fn.Signature
		if sig.Params().Len() != 1 || sig.Results().Len() != 1 {
			continue
		}
		if b, ok := sig.Params().At(0).Type().(*types.Basic); !ok || b.Kind() != types.String {
			continue
		}
		sl, ok := sig.Results().At(0).Type().(*types.Slice)
		if !ok {
			continue
		}
		if n := namedOf(sl.Elem()); n == nil || n.Obj().Name() != "Label" {
			continue
		}
		c.Ob("list", fname(fn))
		comma, line, trim, empty := false, false, false, false
		for f := range sqlReach(c.W, fn) {
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					for _, op := range i.Operands(nil) {
						if op == nil || *op == nil {
							continue
						}
						switch x := (*op).(type) {
						case *ssa.Const:
							if x.Value == nil {
								continue
							}
							switch x.Value.Kind() {
							case constant.String:
								t := constant.StringVal(x.Value)
								comma = comma || strings.Contains(t, ",")
								line = line || strings.Contains(t, "\n")
								if cmp, ok := i.(*ssa.BinOp); ok && t == "" && (cmp.Op == token.EQL || cmp.Op == token.NEQ) && !isParam(cmp.X) && !isParam(cmp.Y) {
									empty = true
								}
							case constant.Int:
								n, _ := constant.Int64Val(x.Value)
								comma = comma || n == ','
								line = line || n == '\n'
								if cmp, ok := i.(*ssa.BinOp); ok && n == 0 {
									for _, o := range []ssa.Value{cmp.X, cmp.Y} {
										if call, ok := o.(*ssa.Call); ok {
											if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" && isText(call.Call.Args[0]) {
												empty = true
											}
										}
									}
								}
							}
						case *ssa.Function:
							switch qualName(x) {
							case "strings.TrimSpace", "strings.Trim", "strings.TrimFunc", "unicode.IsSpace":
								trim = true
							case "strings.Fields":
								trim, empty = true, true
							case "strings.FieldsFunc":
								// does not give empty ones, but ones of spaces
							case "bufio.ScanLines":
								line = true
							}
							if strings.HasPrefix(qualName(x), "(*bufio.Scanner)") {
								line = true
							}
						}
					}
				}
			}
		}
		for _, w := range []struct {
			ok   bool
			what string
		}{
			{comma, "commas do not separate names"}, {line, "ends of lines do not separate names"},
			{trim, "spaces around names stay part of them"}, {empty, "empty entries are not left out"},
		} {
			if !w.ok {
				c.Bad("list", fname(fn), fn.Pos(), "a list of names is not taken apart as announced: %s", w.what)
			}
		}
	}
}

func isParam(v ssa.Value) bool { _, ok := v.(*ssa.Parameter); return ok }

func isText(v ssa.Value) bool {
	b, ok := v.Type().Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0 && !isParam(v)
}
