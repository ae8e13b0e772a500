package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"verif/checker/flow"

	"golang.org/x/tools/go/ssa"
)

const modPath = "github.com/cloudflare/cfrpki/"

// short drops the module path from a name.
func short(n string) string { return strings.ReplaceAll(n, modPath, "") }

// isCall matches a call event of one of the named functions; names are given
// relative to the module, e.g. "(*validator/pki.Validator).AddCert" or "os.Remove".
func isCall(ev *flow.Event, names ...string) bool {
	if ev.Kind != "call" && ev.Kind != "go" && ev.Kind != "defer" {
		return false
	}
	n := short(ev.Name)
	for _, x := range names {
		if n == x {
			return true
		}
	}
	return false
}

func nameIs(fn *ssa.Function, names ...string) bool {
	n := short(flow.FuncName(fn))
	for _, x := range names {
		if n == x {
			return true
		}
	}
	return false
}

// opaque selects functions by name relative to the module.
func opaque(names ...string) func(*ssa.Function) bool {
	m := map[string]bool{}
	for _, n := range names {
		m[n] = true
	}
	return func(fn *ssa.Function) bool { return m[short(flow.FuncName(fn))] }
}

// lits calls f for every literal of the state.
func lits(st *flow.State, f func(t *flow.Term, v bool)) { st.F.Lits(f) }

// hasLit finds a literal.
func hasLit(st *flow.State, f func(t *flow.Term, v bool) bool) bool {
	r := false
	st.F.Lits(func(t *flow.Term, v bool) {
		if !r && f(t, v) {
			r = true
		}
	})
	return r
}

// isField: t reads field name (of any object).
func isField(t *flow.Term, name string) bool { return t != nil && t.FieldName() == name }

// fieldRef: t is a field of base, as a value, a read through an address, or the address itself.
func fieldRef(t *flow.Term) (name string, base *flow.Term) {
	if t == nil {
		return "", nil
	}
	if t.Op == flow.OFieldAddr {
		return t.Aux, t.Args[0]
	}
	return t.FieldName(), t.FieldBase()
}

// isRef: t refers to a field of that name.
func isRef(t *flow.Term, name string) bool { n, _ := fieldRef(t); return n == name }

// refBase is what the field referred to belongs to.
func refBase(t *flow.Term) *flow.Term { _, b := fieldRef(t); return b }

// isMapField: t is the map stored in a field of that name.
func lookupIn(t *flow.Term, field string) bool {
	return (t.Op == flow.OLookupOk || t.Op == flow.OLookup) && isField(t.Args[0], field)
}

// strip removes interface wrapping and conversions.
func strip(t *flow.Term) *flow.Term {
	for t != nil && (t.Op == flow.OMkIface || t.Op == flow.OConv) {
		t = t.Args[0]
	}
	return t
}

// calleeOf gives the function term's name of an OCall term.
func isCallTerm(t *flow.Term, names ...string) bool {
	if t == nil || t.Op != flow.OCall {
		return false
	}
	n := short(t.Aux)
	for _, x := range names {
		if n == x {
			return true
		}
	}
	return false
}

// eqNil: literal "x == nil" with value v; returns x.
func eqNilArg(t *flow.Term) *flow.Term {
	if t.Op == flow.OEq && len(t.Args) == 2 && t.Args[1].Op == flow.ONil {
		return t.Args[0]
	}
	return nil
}

// reachable collects the module functions reachable from roots in the call graph (CHA).
func reachable(P *flow.Program, roots ...*ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var work []*ssa.Function
	add := func(f *ssa.Function) {
		if f != nil && !seen[f] {
			seen[f] = true
			work = append(work, f)
		}
	}
	for _, r := range roots {
		add(r)
	}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		for _, a := range f.AnonFuncs {
			add(a)
		}
		if !P.InModule(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				// function values taken here may be called later
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						add(g)
					}
				}
			}
		}
		if n := P.CG.Nodes[f]; n != nil {
			for _, e := range n.Out {
				add(e.Callee.Func)
			}
		}
	}
	return seen
}

// moduleFuncs lists the functions with bodies in the given packages (relative paths), closures included.
func moduleFuncs(P *flow.Program, pkgs ...string) []*ssa.Function {
	want := map[string]bool{}
	for _, p := range pkgs {
		want[p] = true
	}
	var out []*ssa.Function
	for _, f := range P.Funcs {
		if len(f.Blocks) == 0 || f.Synthetic != "" && f.Name() != "init" {
			continue
		}
		if P.InModule(f) && (len(pkgs) == 0 || want[P.Rel(f)]) {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// calls lists the call instructions of a function with their static callee name.
func calls(fn *ssa.Function, f func(in ssa.CallInstruction, name string)) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				f(c, callName(c.Common()))
			}
		}
	}
}

func callName(cc *ssa.CallCommon) string {
	if cc.IsInvoke() {
		return cc.Method.FullName()
	}
	switch v := cc.Value.(type) {
	case *ssa.Function:
		return short(flow.FuncName(v))
	case *ssa.Builtin:
		return "builtin." + v.Name()
	case *ssa.MakeClosure:
		if g, ok := v.Fn.(*ssa.Function); ok {
			return short(flow.FuncName(g))
		}
	}
	return ""
}

// fname is the readable name of a function.
func fname(fn *ssa.Function) string { return short(flow.FuncName(fn)) }

// stepName names the function in which an event happened.
func evFn(ev *flow.Event) string { return fname(ev.Frame.Fn) }

func (c *Ctx) evPos(ev *flow.Event) string { return c.Pos(ev.Instr) }

var boolT = types.Typ[types.Bool]

func and(ts ...*flow.Term) flow.Formula {
	var fs []flow.Formula
	for _, t := range ts {
		if t == nil {
			return flow.And(flow.Lit(nil))
		}
		fs = append(fs, flow.Lit(t))
	}
	return flow.And(fs...)
}

// eqf is a == b, or false when one of them does not exist.
func eqf(w *flow.World, a, b *flow.Term) flow.Formula {
	if t := eqAtom(w, a, b); t != nil {
		return flow.Lit(t)
	}
	return flow.False()
}

// holds: the atom, in some version of the memory it reads from, is known to have that value.
func holds(st *flow.State, atom *flow.Term, v bool) bool {
	if atom == nil {
		return false
	}
	w := st.W()
	if f := flow.Lit(atom); v && st.Entails(f) || !v && st.Excludes(f) {
		return true
	}
	sh := w.Shape(atom)
	return hasLit(st, func(t *flow.Term, tv bool) bool { return tv == v && t.Op == atom.Op && w.Shape(t) == sh })
}

// isNil: x is known to be nil, in some version of the memory it was read from.
func isNil(st *flow.State, x *flow.Term) bool {
	return x != nil && (st.IsNil(x) || holds(st, st.W().EqAtom(x, st.W().Nil), true))
}

// eqAtom is the atom for a == b, nil when one of them does not exist.
func eqAtom(w *flow.World, a, b *flow.Term) *flow.Term {
	if a == nil || b == nil {
		return nil
	}
	if a.Typ != nil && a.Op != flow.ONil && b.Op != flow.ONil {
		if t, ok := a.Typ.Underlying().(*types.Basic); ok && t.Info()&(types.IsInteger|types.IsString) != 0 {
			return w.OrdEq(a, b)
		}
	}
	return w.EqAtom(a, b)
}

// pathOf is Path for a base that may not exist.
func pathOf(st *flow.State, base *flow.Term, names ...string) *flow.Term {
	if base == nil {
		return nil
	}
	return st.Path(base, names...)
}

// not is the negation of a fact, or false when the term does not exist.
func not(t *flow.Term) flow.Formula {
	if t == nil {
		return flow.False()
	}
	return flow.Neg(flow.Lit(t))
}

// neqf is a != b, or false when one of them does not exist.
func neqf(w *flow.World, a, b *flow.Term) flow.Formula {
	if a == nil || b == nil {
		return flow.False()
	}
	return flow.Neg(eqf(w, a, b))
}

// storesField lists the instructions in the module that write a named struct field.
func storesField(P *flow.Program, pkg, typ, field string, f func(fn *ssa.Function, in *ssa.Store, addr *ssa.FieldAddr)) {
	t := P.Named(pkg, typ)
	if t == nil {
		return
	}
	for _, fn := range moduleFuncs(P) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if ok && fieldOf(fa, t) == field {
					f(fn, s, fa)
				}
			}
		}
	}
}

// fieldOf names the field addressed when the base has type t (or *t).
func fieldOf(fa *ssa.FieldAddr, t types.Type) string {
	p, ok := fa.X.Type().Underlying().(*types.Pointer)
	if !ok || !types.Identical(p.Elem(), t) {
		return ""
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	return st.Field(fa.Field).Name()
}

// rootAlloc: the address chain starts at a fresh allocation of this function.
func rootAlloc(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Alloc:
			return true
		default:
			return false
		}
	}
}

var _ = token.NoPos
