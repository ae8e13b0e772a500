package main

import (
	"go/constant"
	"go/token"
	"go/types"

	"verif/checker/flow"

	"golang.org/x/tools/go/ssa"
)

// source is one possible origin of a value.
type source struct {
	V  ssa.Value // constant, parameter, load, call…
	Fn *ssa.Function
}

// origins resolves a value to where it comes from: phis, conversions, local variables,
// results of module functions and parameters of functions whose callers are known are
// followed. Anything else is returned as an origin.
func origins(P *flow.Program, fn *ssa.Function, v ssa.Value) []source {
	return originsIn(P, fn, v, false)
}

// originsIn is origins, which for whole programs also follows the parameters of exported functions
// to the callers there are.
func originsIn(P *flow.Program, fn *ssa.Function, v ssa.Value, whole bool) []source {
	var out []source
	type key struct {
		v ssa.Value
		i int
	}
	seen := map[key]bool{}
	var rec func(fn *ssa.Function, v ssa.Value, idx, depth int)
	rec = func(fn *ssa.Function, v ssa.Value, idx, depth int) {
		if seen[key{v, idx}] {
			return
		}
		seen[key{v, idx}] = true
		if depth > 40 {
			out = append(out, source{v, fn})
			return
		}
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				rec(fn, e, -1, depth+1)
			}
			return
		case *ssa.ChangeType:
			rec(fn, x.X, -1, depth+1)
			return
		case *ssa.Convert:
			rec(fn, x.X, -1, depth+1)
			return
		case *ssa.MakeInterface:
			rec(fn, x.X, -1, depth+1)
			return
		case *ssa.ChangeInterface:
			rec(fn, x.X, -1, depth+1)
			return
		case *ssa.Extract:
			if c, ok := x.Tuple.(*ssa.Call); ok {
				rec(fn, c, x.Index, depth+1)
				return
			}
		case *ssa.Call:
			g := x.Common().StaticCallee()
			if g != nil && P.InModule(g) && len(g.Blocks) > 0 {
				n := 0
				for _, b := range g.Blocks {
					if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) > 0 {
						i := idx
						if i < 0 {
							i = 0
						}
						if i < len(r.Results) {
							n++
							rec(g, r.Results[i], -1, depth+1)
						}
					}
				}
				if n > 0 {
					return
				}
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if al, ok := x.X.(*ssa.Alloc); ok && al.Referrers() != nil {
					n, bad := 0, false
					for _, r := range *al.Referrers() {
						switch y := r.(type) {
						case *ssa.Store:
							if y.Addr == al {
								n++
								rec(fn, y.Val, -1, depth+1)
							} else {
								bad = true
							}
						case *ssa.UnOp, *ssa.DebugRef:
						default:
							bad = true
						}
					}
					if n > 0 && !bad {
						return
					}
				}
			}
		case *ssa.Parameter:
			if n := P.CG.Nodes[fn]; n != nil && (whole || !exportedAPI(fn)) {
				k := -1
				for i, p := range fn.Params {
					if p == x {
						k = i
					}
				}
				cnt := 0
				for _, e := range n.In {
					if e.Site == nil || !P.InModule(e.Caller.Func) {
						continue
					}
					args := e.Site.Common().Args
					if e.Site.Common().IsInvoke() {
						args = append([]ssa.Value{e.Site.Common().Value}, args...)
					}
					if k >= 0 && k < len(args) {
						cnt++
						rec(e.Caller.Func, args[k], -1, depth+1)
					}
				}
				if cnt > 0 {
					return
				}
			}
		}
		out = append(out, source{v, fn})
	}
	rec(fn, v, -1, 0)
	return out
}

// exportedAPI: the function can be called by other modules.
func exportedAPI(fn *ssa.Function) bool {
	if fn.Parent() != nil || fn.Pkg == nil || fn.Pkg.Pkg.Name() == "main" {
		return false
	}
	return token.IsExported(fn.Name())
}

// intConst is the value of an integer constant.
func intConst(v ssa.Value) (int64, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(c.Value)
}

func boolConst(v ssa.Value) (bool, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Bool {
		return false, false
	}
	return constant.BoolVal(c.Value), true
}

// fieldLoad: v reads a field of a struct (by address or value); returns owner type name and field.
func fieldLoad(v ssa.Value) (owner, field string) {
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
			return fieldAddrName(fa)
		}
	case *ssa.Field:
		if st, ok := x.X.Type().Underlying().(*types.Struct); ok {
			return typeName(x.X.Type()), st.Field(x.Field).Name()
		}
	}
	return "", ""
}

func fieldAddrName(fa *ssa.FieldAddr) (owner, field string) {
	p, ok := fa.X.Type().Underlying().(*types.Pointer)
	if !ok {
		return "", ""
	}
	st, ok := p.Elem().Underlying().(*types.Struct)
	if !ok {
		return "", ""
	}
	return typeName(p.Elem()), st.Field(fa.Field).Name()
}

func typeName(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		if n.Obj().Pkg() != nil {
			return short(n.Obj().Pkg().Path()) + "." + n.Obj().Name()
		}
		return n.Obj().Name()
	}
	return t.String()
}
