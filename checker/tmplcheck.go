package main

// C23: templates fit the data they are executed with.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// storedFields lists the fields of the data that are set where it is put together;
// all is true when that cannot be told apart
func storedFields(v ssa.Value) (set map[string]bool, all bool) {
	set = map[string]bool{}
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return set, true
	}
	a, ok := u.X.(*ssa.Alloc)
	if !ok {
		return set, true
	}
	var walk func(p ssa.Value, name string)
	walk = func(p ssa.Value, name string) {
		for _, r := range *p.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr == p {
					if name == "" {
						all = true
					}
					set[name] = true
				} else {
					all = true
				}
			case *ssa.FieldAddr:
				n := fieldName(r.X.Type(), r.Field)
				if name != "" {
					n = name
				}
				walk(r, n)
			case *ssa.UnOp, *ssa.DebugRef:
			default:
				// the address goes somewhere else
				if name == "" {
					all = true
				}
				set[name] = true
			}
		}
	}
	walk(a, "")
	return set, all
}

func checkC23(c *Ctx) {
	t := templatesOf(c.W)
	ws := t.pages()
	_, sites := t.uses()
	c.Counts["execute_sites"] = sites
	c.Counts["packages_initialised"] = t.inits
	for i := 0; i < sites; i++ {
		c.Ob("execute-site", "")
	}
	for _, k := range ws {
		page := k.use.name + " in " + fname(k.use.fn)
		c.Ob("page", page)
		c.Counts["nodes"] += k.nodes
		c.Counts["fields"] += k.fields
		c.Counts["calls"] += k.calls
		for _, b := range k.bads {
			c.BadAt(b.rule, b.construct, c.W.pos(b.pos), page, "%s", b.msg)
		}
		for n := range k.trees {
			c.ObOnce("template", k.use.name+"/"+n)
		}
		if err := t.escapes(k.use.set, k.use.name); err != nil {
			c.Bad("escaper", k.use.name, k.use.site.Pos(), "the page cannot be escaped and is never shown: %v", err)
		}
		set, all := storedFields(k.use.data)
		if all {
			continue
		}
		for _, f := range sortedKeys(k.needed) {
			obj, index, _ := types.LookupFieldOrMethod(k.use.data.Type(), true, nil, f)
			if _, isVar := obj.(*types.Var); !isVar || len(index) == 0 {
				continue
			}
			st, ok := k.use.data.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			f0 := st.Field(index[0]).Name()
			c.Ob("data-set", page+" ."+f)
			if !set[f0] {
				c.Bad("data-set", fname(k.use.fn), k.use.site.Pos(), "%s shows .%s, but it is never set in the data given to the page", k.use.name, f)
			}
		}
	}
	for _, s := range sortedKeys(t.sets) {
		t.trees(s)
	}
	for _, b := range t.bad {
		if b.rule == "text-template" {
			continue
		}
		c.Bad(b.rule, b.construct, b.pos, "%s", strings.TrimSpace(b.msg))
	}
}

func init() {
	register(&Check{Prop: "C23", Run: checkC23,
		Explain: "The initialisation of every package that makes templates is followed to find which sources, shared templates and functions each template is made of. Every place that executes a template is paired with the static type of its data, and the template is walked as it would be executed, with types: every field, method, index, length, comparison, function call, template call and variable must fit; things that may be missing need a guard; the data must have every field set that the page shows. html/template's escaper is run over the same trees without data.",
		Assume:  []string{"elements of lists and map entries of the loaded data are not nil pointers", "a bundle that an entity has children of is a child bundle of its bundle", "functions of text/template and html/template behave as documented"},
		Floors:  map[string]int{"page": 5, "template": 40, "execute-site": 5, "data-set": 8}})
}
