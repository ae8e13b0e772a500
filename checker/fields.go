package main

import (
	"go/types"

	"verif/checker/flow"

	"golang.org/x/tools/go/ssa"
)

// fieldUse is one use of the value of a struct field, followed through locals and calls.
type fieldUse struct {
	Fn    *ssa.Function
	Instr ssa.Instruction
	Val   ssa.Value // the value that carries the field's content at this use
	Store bool      // the field itself is assigned (Val is nil)
	Fresh bool      // the assigned object was allocated by the same function
}

// fieldUses lists every instruction of the module that uses the content of a struct
// field (of reference type): loads are followed through phis, conversions, local
// variables and arguments of static calls.
func fieldUses(P *flow.Program, pkg, typ, field string) []fieldUse {
	t := P.Named(pkg, typ)
	if t == nil {
		return nil
	}
	var out []fieldUse
	seen := map[ssa.Value]bool{}
	var follow func(fn *ssa.Function, v ssa.Value)
	follow = func(fn *ssa.Function, v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, in := range *v.Referrers() {
			switch x := in.(type) {
			case *ssa.Phi:
				follow(fn, x)
				continue
			case *ssa.ChangeType:
				follow(fn, x)
				continue
			case *ssa.Store:
				if x.Val == v {
					if al, ok := x.Addr.(*ssa.Alloc); ok {
						followLoads(fn, al, follow)
						continue
					}
				}
			case ssa.CallInstruction:
				if g := x.Common().StaticCallee(); g != nil && P.InModule(g) && len(g.Blocks) > 0 {
					for i, a := range x.Common().Args {
						if a == v && i < len(g.Params) {
							follow(g, g.Params[i])
						}
					}
					continue
				}
			case *ssa.MakeClosure:
				if g, ok := x.Fn.(*ssa.Function); ok {
					for i, b := range x.Bindings {
						if b == v {
							follow(g, g.FreeVars[i])
						}
					}
					continue
				}
			case *ssa.DebugRef:
				continue
			}
			out = append(out, fieldUse{Fn: fn, Instr: in, Val: v})
		}
	}
	for _, fn := range moduleFuncs(P) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.FieldAddr:
					if fieldOf(x, t) != field {
						continue
					}
					for _, r := range *x.Referrers() {
						switch y := r.(type) {
						case *ssa.Store:
							if y.Addr == x {
								out = append(out, fieldUse{Fn: fn, Instr: y, Store: true, Fresh: rootAlloc(x.X)})
							}
						case *ssa.UnOp:
							follow(fn, y)
						case *ssa.DebugRef:
						default:
							out = append(out, fieldUse{Fn: fn, Instr: r, Val: x})
						}
					}
				case *ssa.Field:
					if st, ok := x.X.Type().Underlying().(*types.Struct); ok && types.Identical(x.X.Type(), t) && st.Field(x.Field).Name() == field {
						follow(fn, x)
					}
				}
			}
		}
	}
	return out
}

func followLoads(fn *ssa.Function, al *ssa.Alloc, follow func(*ssa.Function, ssa.Value)) {
	for _, r := range *al.Referrers() {
		switch x := r.(type) {
		case *ssa.UnOp:
			follow(fn, x)
		case *ssa.MakeClosure:
			g, ok := x.Fn.(*ssa.Function)
			if !ok {
				continue
			}
			for i, b := range x.Bindings {
				if b == ssa.Value(al) && g.FreeVars[i].Referrers() != nil {
					for _, rr := range *g.FreeVars[i].Referrers() {
						if u, ok := rr.(*ssa.UnOp); ok {
							follow(g, u)
						}
					}
				}
			}
		}
	}
}

// tableWriters checks who may change a table of the validator: mapWrite and mapDelete say
// which instructions may insert and remove; the field itself is only set on fresh objects.
func tableWriters(c *Ctx, rule, pkg, typ, field string, insert, remove func(fn *ssa.Function) bool) (inserts, removes int) {
	for _, u := range fieldUses(c.P, pkg, typ, field) {
		where := fname(u.Fn) + " " + field
		switch x := u.Instr.(type) {
		case *ssa.MapUpdate:
			if x.Map != u.Val {
				c.Fail(rule, where+" stored", c.Pos(x), "the table %s is stored in another table, its writers cannot be followed", field)
				continue
			}
			inserts++
			c.Expect(insert(u.Fn), rule, where+" insert", c.Pos(x), "%s inserts into %s outside the code that validates", fname(u.Fn), field)
		case *ssa.Store:
			if u.Store {
				c.Expect(u.Fresh, rule, where+" replaced", c.Pos(x), "%s replaces the table %s", fname(u.Fn), field)
			} else {
				c.Fail(rule, where+" stored", c.Pos(x), "the table %s is stored elsewhere, its writers cannot be followed", field)
			}
		case ssa.CallInstruction:
			n := callName(x.Common())
			switch n {
			case "builtin.len", "builtin.print", "builtin.println":
			case "builtin.delete":
				removes++
				c.Expect(remove(u.Fn), rule, where+" delete", c.Pos(x), "%s deletes from %s", fname(u.Fn), field)
			default:
				c.Fail(rule, where+" passed on", c.Pos(x), "the table %s is passed to %s, its writers cannot be followed", field, n)
			}
		case *ssa.Lookup, *ssa.Range, *ssa.BinOp, *ssa.If:
		case *ssa.MakeInterface, *ssa.Return, *ssa.Send, *ssa.IndexAddr, *ssa.FieldAddr:
			c.Fail(rule, where+" escapes", c.Pos(x), "the table %s escapes, its writers cannot be followed", field)
		default:
			c.Fail(rule, where+" used", c.Pos(x), "unexpected use of the table %s: %s", field, x)
		}
	}
	return
}
