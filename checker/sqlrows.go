package main

// C16: tables and rows of child bundles.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// sqlReach: the functions of the module the method runs
func sqlReach(w *World, root *ssa.Function) map[*ssa.Function]bool {
	fns := map[*ssa.Function]bool{}
	var grow func(f *ssa.Function)
	grow = func(f *ssa.Function) {
		if f == nil || fns[f] || f.Blocks == nil || !isRepo(f) {
			return
		}
		fns[f] = true
		for _, a := range f.AnonFuncs {
			grow(a)
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if call, ok := i.(ssa.CallInstruction); ok {
					grow(call.Common().StaticCallee())
				}
			}
		}
	}
	grow(root)
	return fns
}

// childLists: where the list of child bundles is read
func childLists(fns map[*ssa.Function]bool) (out []*ssa.UnOp) {
	for _, f := range sortedFns(fns) {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				ld, ok := i.(*ssa.UnOp)
				if !ok || ld.Op != token.MUL {
					continue
				}
				if fa, ok := ld.X.(*ssa.FieldAddr); ok && fieldName(fa.X.Type(), fa.Field) == "ChildBundles" {
					out = append(out, ld)
				}
			}
		}
	}
	return
}

// taken: the list is put on a list of work as a whole
func taken(v ssa.Value) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && len(x.Call.Args) == 2 && x.Call.Args[1] == v {
				return true
			}
		case *ssa.Slice:
			if taken(x) {
				return true
			}
		case *ssa.Phi:
			if taken(x) {
				return true
			}
		}
	}
	return false
}

// sqlChildren: what is done for a bundle is done for all bundles below it
func sqlChildren(c *Ctx, root *ssa.Function) {
	fns := sqlReach(c.W, root)
	// which functions come back to where they started
	reach := map[*ssa.Function]map[*ssa.Function]bool{}
	for f := range fns {
		reach[f] = sqlReach(c.W, f)
	}
	what := "rows are inserted for"
	if root.Name() == "Begin" {
		what = "tables are created for"
	}
	rounds := 0
	for _, f := range sortedFns(fns) {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				call, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				sc := call.Common().StaticCallee()
				if sc == nil || !fns[sc] || !reach[sc][f] || sc == f.Parent() || f == sc.Parent() {
					continue
				}
				if !bundleArg(call.Common()) {
					continue
				}
				rounds++
				c.ObOnce("sql-children", fmt.Sprintf("%s: %s", fname(root), c.W.pos(i.Pos())))
				if why := alwaysBy(i, noChildren); why != "" {
					c.Bad("sql-children", fname(f), i.Pos(), "not always %s the bundles below a bundle: %s", what, why)
				}
				if brokenOff(b) {
					c.Bad("sql-children", fname(f), i.Pos(), "not always %s the bundles below a bundle: the loop ends before everything was seen", what)
				}
			}
		}
	}
	for _, ld := range childLists(fns) {
		if taken(ld) && loopOf(ld.Block()) != nil {
			rounds++
			c.ObOnce("sql-children", fmt.Sprintf("%s: list of work at %s", fname(root), c.W.pos(ld.Pos())))
			if why := alwaysBy(ld, noChildren); why != "" {
				c.Bad("sql-children", fname(ld.Parent()), ld.Pos(), "not always %s the bundles below a bundle: %s", what, why)
			}
		}
	}
	if root.Name() == "Begin" || root.Name() == "Add" {
		c.ObOnce("sql-children", fname(root))
		if rounds == 0 {
			c.Bad("sql-children", fname(root), root.Pos(), "no %s the bundles below a bundle", what)
		}
	}

	// lists of bundles, fields, entities and values are seen as a whole
	for _, f := range sortedFns(fns) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ia, ok := in.(*ssa.IndexAddr)
				if !ok || loopOf(b) == nil {
					continue
				}
				sl, ok := ia.X.Type().Underlying().(*types.Slice)
				if !ok {
					continue
				}
				kind := pathbuilderType(sl.Elem())
				if n := namedOf(sl.Elem()); kind == "" && n != nil && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "internal/wisski") {
					kind = n.Obj().Name()
				}
				if kind != "Bundle" && kind != "Field" && kind != "FieldValue" && kind != "Entity" {
					continue
				}
				c.ObOnce("sql-whole", fmt.Sprintf("%s list in %s at %s", kind, fname(f), c.W.pos(in.Pos())))
				if _, isC := ia.Index.(*ssa.Const); !isC {
					if all, why := everyElement(ia.Index); !all {
						c.Bad("sql-whole", fname(f), in.Pos(), "not every %s is seen: %s", kind, why)
					}
				}
				if cut, isCut := ia.X.(*ssa.Slice); isCut {
					if n, isC := intConst(cut.Low); cut.Low != nil && isC && n > 0 {
						c.Bad("sql-whole", fname(f), in.Pos(), "not every %s is seen: the beginning is cut off", kind)
					}
					if _, isC := intConst(cut.High); cut.High != nil && isC {
						c.Bad("sql-whole", fname(f), in.Pos(), "not every %s is seen: the end is cut off", kind)
					}
				}
			}
		}
	}

	// children go with the name of the entity they belong to
	for _, f := range sortedFns(fns) {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				call, ok := i.(ssa.CallInstruction)
				if !ok || call.Common().StaticCallee() == nil || !isRepo(call.Common().StaticCallee()) {
					continue
				}
				var owner ssa.Value
				for _, a := range call.Common().Args {
					if o := childrenOf(a, 0); o != nil {
						owner = o
					}
				}
				if owner == nil {
					continue
				}
				for _, a := range call.Common().Args {
					if n := namedOf(a.Type()); n == nil || n.Obj().Name() != "Label" {
						continue
					}
					c.ObOnce("sql-parent", c.W.pos(i.Pos()))
					v := a
					for {
						if ct, ok := v.(*ssa.ChangeType); ok {
							v = ct.X
						} else if cv, ok := v.(*ssa.Convert); ok {
							v = cv.X
						} else if o, ok := throughCell(v); ok {
							v = o
						} else {
							break
						}
					}
					from, name := fieldOf(v)
					switch {
					case name == "URI" && sameOwner(from, owner):
					case name == "" && !isConst(v) && !isCallOf(v):
					default:
						c.Bad("sql-parent", fname(f), i.Pos(), "the children of an entity are not inserted with its URI as their parent")
					}
				}
			}
		}
	}
}

func isCallOf(v ssa.Value) bool { _, ok := v.(*ssa.Call); return ok }
func isConst(v ssa.Value) bool  { _, ok := v.(*ssa.Const); return ok }

// throughCell: the value of a variable that is set once
func throughCell(v ssa.Value) (ssa.Value, bool) {
	if ld, ok := v.(*ssa.UnOp); ok && ld.Op == token.MUL {
		if a, ok := ld.X.(*ssa.Alloc); ok {
			if st := onlyStore(a); st != nil {
				return st, true
			}
		}
	}
	return nil, false
}

// fieldOf: the struct (or its address) a field is read from, and the name of the field
func fieldOf(v ssa.Value) (ssa.Value, string) {
	switch x := v.(type) {
	case *ssa.Field:
		return x.X, fieldName(x.X.Type(), x.Field)
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
			return fa.X, fieldName(fa.X.Type(), fa.Field)
		}
	}
	return nil, ""
}

func sameOwner(a, b ssa.Value) bool {
	norm := func(v ssa.Value) ssa.Value {
		for i := 0; i < 8; i++ {
			switch x := v.(type) {
			case *ssa.UnOp:
				if x.Op != token.MUL {
					return v
				}
				v = x.X
			case *ssa.Alloc:
				st := onlyStore(x)
				if st == nil {
					return v
				}
				v = st
			default:
				return v
			}
		}
		return v
	}
	a, b = norm(a), norm(b)
	if a == b {
		return true
	}
	// elements of one list in one round
	ia, ok1 := a.(*ssa.IndexAddr)
	ib, ok2 := b.(*ssa.IndexAddr)
	return ok1 && ok2 && ia.Index == ib.Index && (ia.X == ib.X || norm(ia.X) == norm(ib.X))
}

// childrenOf: the entity whose children the value is
func childrenOf(v ssa.Value, depth int) ssa.Value {
	if depth > 6 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Lookup:
		if o, name := fieldOf(x.X); name == "Children" {
			return o
		}
	case *ssa.Extract:
		return childrenOf(x.Tuple, depth+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if o := childrenOf(e, depth+1); o != nil {
				return o
			}
		}
	case *ssa.Slice:
		return childrenOf(x.X, depth+1)
	case *ssa.UnOp:
		if o, ok := throughCell(x); ok {
			return childrenOf(o, depth+1)
		}
	}
	return nil
}

// bundleArg: the call is about a bundle or several
func bundleArg(com *ssa.CallCommon) bool {
	for _, a := range com.Args {
		t := a.Type()
		if sl, ok := t.Underlying().(*types.Slice); ok {
			t = sl.Elem()
		}
		if n := namedOf(t); n != nil && n.Obj().Name() == "Bundle" {
			return true
		}
	}
	return false
}

// noChildren: the edge of a branch that is taken when there are no bundles or entities
func noChildren(b *ssa.BasicBlock) *ssa.BasicBlock {
	e := emptyEdge(b)
	if e == nil {
		return nil
	}
	op := b.Instrs[len(b.Instrs)-1].(*ssa.If).Cond.(*ssa.BinOp)
	v := op.X
	if call, ok := v.(*ssa.Call); ok && isBuiltin(call, "len") {
		v = call.Call.Args[0]
	}
	t := v.Type()
	for {
		switch x := t.Underlying().(type) {
		case *types.Slice:
			t = x.Elem()
			continue
		case *types.Map:
			t = x.Elem()
			continue
		}
		break
	}
	if n := namedOf(t); n != nil && n.Obj().Name() != "Bundle" && n.Obj().Name() != "Entity" {
		return nil
	}
	return e
}
