package main

import (
	"go/constant"
	"go/types"

	"verif/checker/flow"

	"golang.org/x/tools/go/ssa"
)

// backRec is one way a loop iteration ends.
type backRec struct {
	St   *flow.State
	Fr   *flow.Frame
	H    *ssa.BasicBlock
	Vals map[*ssa.Phi]*flow.Term
	Prev map[*ssa.Phi]*flow.Term
}

// recordBacks collects the back edges of an analysis.
func recordBacks(an *flow.Analyzer) *[]backRec {
	var out []backRec
	an.KeepPhis = true
	an.OnBack = func(st *flow.State, fr *flow.Frame, h *ssa.BasicBlock) {
		out = append(out, backRec{st, fr, h, an.BackVals, an.BackPrev})
	}
	return &out
}

// counter describes the index variable of a loop over all elements of a list.
type counter struct {
	phi   *ssa.Phi
	fr    *flow.Frame
	delta int64 // element index minus variable
}

// elementCounter finds the loop variable behind the index of an element of a list, if
// the loop visits every index in order from 0.
func elementCounter(an *flow.Analyzer, idx *flow.Term, r backRec) (counter, bool) {
	for p, next := range r.Vals {
		if b, ok := p.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
			continue
		}
		cur := an.PhiSym(r.Fr, p)
		if n, ok := an.W.Sub(next, cur, types.Typ[types.Int]).IsInt(); !ok || n != 1 {
			continue
		}
		d, ok := an.W.Sub(idx, cur, types.Typ[types.Int]).IsInt()
		if !ok || d != 0 && d != 1 {
			continue
		}
		for i, e := range p.Edges {
			if p.Block().Dominates(p.Block().Preds[i]) {
				continue
			}
			if c, ok := e.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
				if v, _ := constant.Int64Val(c.Value); v == -d {
					return counter{p, r.Fr, d}, true
				}
			}
		}
	}
	return counter{}, false
}

// exhausted: at this state the loop of the counter has visited the whole list.
func (k counter) exhausted(st *flow.State, list *flow.Term) bool {
	an := st.An()
	i := an.W.Add(an.PhiSym(k.fr, k.phi), an.W.Int(k.delta), types.Typ[types.Int])
	return st.EntailsAny([]*flow.Term{list}, func(ts []*flow.Term) flow.Formula {
		return flow.Lit(an.W.OrdLe(an.W.Len(ts[0]), i))
	})
}

// element: t is list[idx] (possibly through a copy or pointer); returns idx.
func elementOf(w *flow.World, t, list *flow.Term) *flow.Term {
	t = strip(t)
	if t == nil {
		return nil
	}
	if t.Op == flow.OIndex && w.Shape(t.Args[0]) == w.Shape(list) {
		return t.Args[1]
	}
	if t.Op == flow.ODeref && t.Args[0].Op == flow.OIndexAddr && w.Shape(t.Args[0].Args[0]) == w.Shape(list) {
		return t.Args[0].Args[1]
	}
	if t.Op == flow.OIndexAddr && w.Shape(t.Args[0]) == w.Shape(list) {
		return t.Args[1]
	}
	return nil
}

// everyElement: at this state a loop has visited the whole list and each of its iterations
// went on only after proving something about the element of that iteration. proved gives the
// indexes of the elements about which it is proven in a state.
func everyElement(an *flow.Analyzer, backs []backRec, st *flow.State, list *flow.Term, proved func(st *flow.State) []*flow.Term) bool {
	type loop struct {
		fr *flow.Frame
		h  *ssa.BasicBlock
	}
	ctr := map[loop]*counter{}
	bad := map[loop]bool{}
	counted := func(s *flow.State, r backRec, l loop) bool {
		for _, i := range proved(s) {
			k, ok := elementCounter(an, i, r)
			if !ok {
				continue
			}
			if p := ctr[l]; p != nil && p.phi != k.phi {
				continue
			}
			ctr[l] = &k
			return true
		}
		return false
	}
	for _, r := range backs {
		l := loop{r.Fr, r.H}
		if counted(r.St, r, l) {
			continue
		}
		// the loop may carry the outcome to its next test: it went on from no error so far, and there is none at the end
		found := false
		for p, v := range r.Vals {
			if !isErrT(p.Type()) || r.Prev[p] == nil || !r.St.IsNil(r.Prev[p]) || !st.IsNil(st.Value(r.Fr, p)) {
				continue
			}
			if s := r.St.Clone().Assume(an.W.EqAtom(v, an.W.Nil), true); s == nil || counted(s, r, l) {
				found = true
				break
			}
		}
		if !found {
			bad[l] = true
		}
	}
	for l, k := range ctr {
		if !bad[l] && k.exhausted(st, list) {
			return true
		}
	}
	return false
}

// callees: functions of the module called from fn, directly or not, that satisfy f.
func findFunc(c *Ctx, pkg string, names []string, what string, f func(fn *ssa.Function) bool) *ssa.Function {
	for _, n := range names {
		recv, name := "", n
		if i := indexByte(n, '.'); i >= 0 {
			recv, name = n[:i], n[i+1:]
		}
		if fn := c.P.Func(pkg, recv, name); fn != nil && len(fn.Blocks) > 0 {
			c.funcs[flow.FuncName(fn)] = true
			return fn
		}
	}
	var hit []*ssa.Function
	for _, fn := range moduleFuncs(c.P, pkg) {
		if f != nil && f(fn) {
			hit = append(hit, fn)
		}
	}
	if len(hit) == 1 {
		c.funcs[flow.FuncName(hit[0])] = true
		return hit[0]
	}
	c.Fail("anchor", pkg+" "+names[0], "", "the code that %s is not found in %s (%d candidates)", what, pkg, len(hit))
	return nil
}

func indexByte(s string, b byte) int {
	for i := range s {
		if s[i] == b {
			return i
		}
	}
	return -1
}
