package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"verif/checker/flow"

	"golang.org/x/tools/go/ssa"
)

// Termination of loops and recursions.

// loopHeads: the heads of the natural loops of a function.
func loopHeads(fn *ssa.Function) (out []*ssa.BasicBlock) {
	for _, b := range fn.Blocks {
		for _, p := range b.Preds {
			if b.Dominates(p) {
				out = append(out, b)
				break
			}
		}
	}
	return
}

func loopBody(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	body := map[*ssa.BasicBlock]bool{h: true}
	var work []*ssa.BasicBlock
	for _, p := range h.Preds {
		if h.Dominates(p) && !body[p] {
			body[p] = true
			work = append(work, p)
		}
	}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		for _, p := range b.Preds {
			if !body[p] {
				body[p] = true
				work = append(work, p)
			}
		}
	}
	return body
}

// everyRound: the block is executed in every round of the loop.
func everyRound(b, h *ssa.BasicBlock) bool {
	for _, p := range h.Preds {
		if h.Dominates(p) && !b.Dominates(p) {
			return false
		}
	}
	return true
}

// boundedLoop: the form of the loop bounds its rounds: it ranges over a collection, or counts towards a fixed bound.
func boundedLoop(P *flow.Program, h *ssa.BasicBlock) string {
	body := loopBody(h)
	var stored func(v ssa.Value, depth int) bool
	fixed := func(v ssa.Value) bool {
		for {
			if in, ok := v.(ssa.Instruction); !ok || !body[in.Block()] {
				return true
			}
			switch x := v.(type) {
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
					v = x.Call.Args[0]
					continue
				}
			case *ssa.Convert:
				v = x.X
				continue
			case *ssa.UnOp:
				return x.Op == token.MUL && stored(x.X, 0)
			}
			return false
		}
	}
	// stored: the value behind the address stays while the loop runs
	stored = func(addr ssa.Value, depth int) bool {
		if depth > 5 {
			return false
		}
		switch x := addr.(type) {
		case *ssa.FieldAddr:
			if !fieldStays(P, h, body, x) {
				return false
			}
			if ld, ok := x.X.(*ssa.UnOp); ok && body[ld.Block()] {
				return stored(ld.X, depth+1)
			}
			if in, ok := x.X.(ssa.Instruction); ok && body[in.Block()] {
				fa, ok := x.X.(*ssa.FieldAddr)
				return ok && stored(fa, depth+1)
			}
			return true
		case *ssa.Alloc:
			if body[x.Block()] {
				return false
			}
			for _, r := range *x.Referrers() {
				switch y := r.(type) {
				case *ssa.DebugRef, *ssa.UnOp, *ssa.FieldAddr:
				case *ssa.Store:
					if y.Addr != x || body[y.Block()] {
						return false
					}
				default:
					return false
				}
			}
			return true
		case *ssa.UnOp:
			return isOption(x)
		}
		return false
	}
	leaves := func(b *ssa.BasicBlock) bool { return !body[b.Succs[0]] || !body[b.Succs[1]] }
	for b := range body {
		if !everyRound(b, h) || len(b.Instrs) == 0 {
			continue
		}
		for _, in := range b.Instrs {
			if n, ok := in.(*ssa.Next); ok {
				if r, ok := n.Iter.(ssa.Instruction); ok && !body[r.Block()] {
					return "range"
				}
			}
			if u, ok := in.(*ssa.UnOp); ok && u.Op == token.ARROW && u.CommaOk {
				return "receives"
			}
		}
		cond, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || !leaves(b) {
			continue
		}
		cmp, ok := cond.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		for _, side := range [][2]ssa.Value{{cmp.X, cmp.Y}, {cmp.Y, cmp.X}} {
			if !fixed(side[1]) || !isInteger(side[0].Type()) {
				continue
			}
			v := side[0]
			if o, ok := v.(*ssa.BinOp); ok && (o.Op == token.ADD || o.Op == token.SUB) {
				if _, ok := o.Y.(*ssa.Const); ok {
					v = o.X
				}
			}
			p, ok := v.(*ssa.Phi)
			if !ok || p.Block() != h {
				continue
			}
			op := cmp.Op
			if side[0] == cmp.Y {
				op = map[token.Token]token.Token{token.LSS: token.GTR, token.LEQ: token.GEQ, token.GTR: token.LSS, token.GEQ: token.LEQ}[op]
			}
			// inside the loop while the comparison holds
			if !body[b.Succs[0]] {
				op = map[token.Token]token.Token{token.LSS: token.GEQ, token.LEQ: token.GTR, token.GTR: token.LEQ, token.GEQ: token.LSS}[op]
			}
			up, down, half := true, true, true
			for i, e := range p.Edges {
				if !h.Dominates(h.Preds[i]) {
					continue
				}
				d := stepSign(e, p)
				up, down = up && d > 0, down && d < 0
				q, ok := e.(*ssa.BinOp)
				half = half && ok && q.X == p && shrinks(q)
			}
			if op == token.LSS || op == token.LEQ {
				if up {
					return "counted"
				}
			}
			if op == token.GTR || op == token.GEQ {
				if down {
					return "counted"
				}
				if k, ok := side[1].(*ssa.Const); ok && half && k.Value != nil && (op == token.GTR && constant.Sign(k.Value) >= 0 || constant.Sign(k.Value) > 0) {
					return "halved"
				}
			}
		}
	}
	return ""
}

// fieldStays: neither the loop nor what it calls sets the field.
func fieldStays(P *flow.Program, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, fa *ssa.FieldAddr) bool {
	pt, ok := fa.X.Type().Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	owner := pt.Elem()
	sets := func(b *ssa.BasicBlock) bool {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok && types.Identical(st.Val.Type(), owner) {
				return true
			}
			g, ok := in.(*ssa.FieldAddr)
			if !ok || g.Field != fa.Field || !types.Identical(g.X.Type(), fa.X.Type()) {
				continue
			}
			if al, ok := g.X.(*ssa.Alloc); ok && al != fa.X {
				continue // an object that is just made
			}
			for _, r := range *g.Referrers() {
				switch r.(type) {
				case *ssa.UnOp, *ssa.DebugRef, *ssa.IndexAddr, *ssa.FieldAddr:
				default:
					return true
				}
			}
		}
		return false
	}
	var roots []*ssa.Function
	for b := range body {
		if sets(b) {
			return false
		}
	}
	if n := P.CG.Nodes[h.Parent()]; n != nil {
		for _, e := range n.Out {
			if e.Site != nil && body[e.Site.Block()] {
				roots = append(roots, e.Callee.Func)
			}
		}
	}
	for f := range reachable(P, roots...) {
		if !P.InModule(f) {
			continue
		}
		for _, b := range f.Blocks {
			if sets(b) {
				return false
			}
		}
	}
	return true
}

// stepSign: the difference of a value to a loop variable, 0 if it is not a constant of one sign on all ways.
func stepSign(v ssa.Value, p *ssa.Phi) int {
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value) (lo, hi int64, ok bool)
	rec = func(v ssa.Value) (int64, int64, bool) {
		if v == p {
			return 0, 0, true
		}
		if seen[v] {
			return 0, 0, false
		}
		seen[v] = true
		defer delete(seen, v)
		switch x := v.(type) {
		case *ssa.BinOp:
			k, ok := x.Y.(*ssa.Const)
			if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
				return 0, 0, false
			}
			lo, hi, ok := rec(x.X)
			switch n := k.Int64(); {
			case ok && x.Op == token.ADD:
				return lo + n, hi + n, true
			case ok && x.Op == token.SUB:
				return lo - n, hi - n, true
			}
		case *ssa.Phi:
			var l, h int64
			for i, e := range x.Edges {
				lo, hi, ok := rec(e)
				if !ok {
					return 0, 0, false
				}
				if i == 0 {
					l, h = lo, hi
				}
				l, h = min(l, lo), max(h, hi)
			}
			return l, h, len(x.Edges) > 0
		}
		return 0, 0, false
	}
	lo, hi, ok := rec(v)
	switch {
	case !ok:
		return 0
	case lo > 0:
		return 1
	case hi < 0:
		return -1
	}
	return 0
}

func shrinks(b *ssa.BinOp) bool {
	k, ok := b.Y.(*ssa.Const)
	if !ok || k.Value == nil {
		return false
	}
	return b.Op == token.SHR && constant.Sign(k.Value) > 0 || b.Op == token.QUO && constant.Compare(k.Value, token.GTR, constant.MakeInt64(1))
}

// consumers: calls that take something from their receiver or input, or fail.
var consumers = map[string]bool{
	"(*bytes.Buffer).ReadString": true, "(*bytes.Buffer).ReadBytes": true, "(*bytes.Buffer).ReadByte": true, "(*bytes.Buffer).ReadRune": true,
	"(*bytes.Reader).ReadByte": true, "(*bytes.Reader).ReadRune": true, "(*strings.Reader).ReadByte": true,
	"(*bufio.Reader).ReadString": true, "(*bufio.Reader).ReadBytes": true, "(*bufio.Reader).ReadLine": true, "(*bufio.Reader).ReadByte": true, "(*bufio.Reader).ReadRune": true,
	"(*bufio.Scanner).Scan": true, "(*encoding/xml.Decoder).Token": true, "(*encoding/xml.Decoder).RawToken": true, "(*encoding/json.Decoder).Token": true,
}

// progress analyses the loops of a function whose form says nothing: every round must move on. inline says whether the
// functions it calls are looked into.
func progress(c *Ctx, fn *ssa.Function, heads []*ssa.BasicBlock, inline bool) (bad map[*ssa.BasicBlock]string, how map[*ssa.BasicBlock]string) {
	an := c.NewAnalyzer()
	an.Opaque = func(g *ssa.Function) bool { return g == fn || !inline && g != fn }
	if inline {
		an.MaxDepth = 3
	}
	an.MaxFacts = 40
	an.EntryFacts = true
	an.KeepPhis = true
	an.Split = grows(an, fn, beyond(c, fn))
	an.Record = func(ev *flow.Event) bool {
		switch ev.Kind {
		case "mapset", "mapdel":
			return true
		case "call":
			return consumers[ev.Name] || strings.HasSuffix(ev.Name, "encoding/asn1.Unmarshal")
		}
		return false
	}
	of := map[*ssa.BasicBlock]bool{}
	for _, h := range heads {
		of[h] = true
	}
	bad, how = map[*ssa.BasicBlock]string{}, map[*ssa.BasicBlock]string{}
	an.OnBack = func(st *flow.State, fr *flow.Frame, h *ssa.BasicBlock) {
		if fr.Fn != fn || fr.Parent != nil || !of[h] {
			return
		}
		s := goesOn(an, st, h, an.BackVals)
		if s == nil {
			return
		}
		if why := moved(c, an, s, fr, h, an.BackVals); why != "" {
			if !strings.Contains(how[h], why) {
				how[h] += " " + why
			}
			return
		}
		bad[h] = facts(s)
	}
	c.Explore(an, fn)
	return
}

// goesOn: the state, with what must hold for another round to be begun; nil if there is none.
func goesOn(an *flow.Analyzer, st *flow.State, h *ssa.BasicBlock, vals map[*ssa.Phi]*flow.Term) *flow.State {
	body := loopBody(h)
	s := st.Clone()
	for b := range body {
		if !everyRound(b, h) || len(b.Succs) != 2 {
			continue
		}
		cond, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || body[b.Succs[0]] && body[b.Succs[1]] {
			continue
		}
		v, stay := cond.Cond, body[b.Succs[0]]
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.NOT {
			v, stay = u.X, !stay
		}
		if p, ok := v.(*ssa.Phi); ok && p.Block() == h && vals[p] != nil {
			if s = s.Assume(vals[p], stay); s == nil {
				return nil
			}
		}
	}
	return s
}

// moved says how the round that ends has brought the loop nearer to its end; empty if it may not have.
func moved(c *Ctx, an *flow.Analyzer, st *flow.State, fr *flow.Frame, h *ssa.BasicBlock, vals map[*ssa.Phi]*flow.Term) string {
	w := an.W
	intT := types.Typ[types.Int]
	body := loopBody(h)
	s := st.Clone()
	// what was consumed
	for _, ev := range st.Events() {
		if ev.Kind != "call" || ev.Old || ev.May || !an.InLoop(ev.Instr, ev.Frame, fr, h) {
			continue
		}
		if consumers[ev.Name] {
			if strings.HasSuffix(ev.Name, ".Scan") {
				if st.Entails(flow.Lit(ev.Res)) {
					return "consumes"
				}
			} else if e := errOf(w, ev); e != nil && st.IsNil(e) {
				return "consumes"
			}
		}
		if strings.HasSuffix(ev.Name, "encoding/asn1.Unmarshal") && len(ev.Args) > 0 {
			if e := errOf(w, ev); e != nil && st.IsNil(e) {
				rest := w.Extract(ev.Res, 0, types.NewSlice(types.Typ[types.Byte]))
				if n := s.Assume(w.OrdLe(w.Len(rest), w.Sub(w.Len(ev.Args[0]), w.Int(1), intT)), true); n != nil {
					s = n
				}
			}
		}
	}
	// something new was marked in a table that only grows
	shrinksTable := func(m *flow.Term) bool {
		for _, ev := range st.Events() {
			if ev.Kind == "mapdel" && w.Shape(ev.Args[0]) == w.Shape(m) {
				return true
			}
		}
		return false
	}
	for _, ev := range st.Events() {
		if ev.Kind != "mapset" || ev.Old || ev.May || !an.InLoop(ev.Instr, ev.Frame, fr, h) {
			continue
		}
		m, k := ev.Args[0], ev.Args[1]
		if m.Any(func(x *flow.Term) bool {
			return x.Op == flow.OMake && x.Site != nil && x.Site.Block != nil && body[x.Site.Block]
		}) || shrinksTable(m) {
			continue
		}
		if hasLit(s, func(t *flow.Term, v bool) bool {
			if t.Op == flow.OLookup && ev.Args[2] != w.True {
				return false
			}
			return !v && (t.Op == flow.OLookupOk || t.Op == flow.OLookup) && t.Args[0] == m && strip(t.Args[1]) == strip(k)
		}) {
			return "marks"
		}
	}
	for p, v := range vals {
		sym := an.BackPrev[p]
		if sym == nil {
			continue
		}
		switch t := p.Type().Underlying().(type) {
		case *types.Slice:
			if s.Entails(flow.Lit(w.OrdLe(w.Add(w.Len(v), w.Int(1), intT), w.Len(sym)))) {
				return "shortens"
			}
		case *types.Basic:
			if t.Info()&types.IsString != 0 && s.Entails(flow.Lit(w.OrdLe(w.Add(w.Len(v), w.Int(1), intT), w.Len(sym)))) {
				return "shortens"
			}
			if t.Info()&types.IsInteger != 0 && s.Entails(flow.Lit(w.OrdLe(w.Add(sym, w.Int(1), intT), v))) && ceiling(an, s, v, vals) {
				return "advances"
			}
		case *types.Pointer:
			n, b := fieldRef(v)
			if b != nil && strip(b) == sym && oldest(c, ownerName(p.Type()), n) {
				return "climbs"
			}
		}
	}
	return ""
}

// ceiling: the position is known not to be beyond something that the loop does not change.
func ceiling(an *flow.Analyzer, st *flow.State, v *flow.Term, vals map[*ssa.Phi]*flow.Term) bool {
	w := an.W
	ok := false
	var ends []*flow.Term
	st.F.Terms(func(t *flow.Term) {
		t.Sub(func(x *flow.Term) {
			if x.Op == flow.OLen {
				ends = append(ends, x)
			}
		})
	})
	v.Sub(func(x *flow.Term) {
		if x.Op == flow.OLen {
			ends = append(ends, x)
		}
	})
	for _, e := range ends {
		fixed := !e.Any(func(x *flow.Term) bool {
			p, _ := x.PhiOf()
			return p != nil && vals[p] != x
		})
		ok = ok || fixed && st.Entails(flow.Lit(w.OrdLe(v, e)))
	}
	return ok
}

// oldest: the field of the type is only set, on objects that were just made, to objects that there were before: following it
// comes to an end.
func oldest(c *Ctx, owner, field string) bool {
	i := strings.LastIndex(owner, ".")
	if i < 0 {
		return false
	}
	ok := true
	storesField(c.P, owner[:i], owner[i+1:], field, func(fn *ssa.Function, in *ssa.Store, fa *ssa.FieldAddr) {
		made := false
		switch x := fa.X.(type) {
		case *ssa.Alloc:
			made = true
		case *ssa.Call:
			g := x.Call.StaticCallee()
			made = g != nil && returnsFresh(c, g, x.Type())
		case *ssa.Extract:
			// the object made for the entry
		}
		// the object has not been passed on before
		ok = ok && made && in.Val != fa.X
	})
	return ok
}

// returnsFresh: the function returns an object that it has made itself.
func returnsFresh(c *Ctx, g *ssa.Function, t types.Type) bool {
	n := 0
	for _, b := range g.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			n++
			for _, v := range r.Results {
				if types.Identical(v.Type(), t) {
					if _, ok := v.(*ssa.Alloc); !ok {
						return false
					}
				}
			}
		}
	}
	return n > 0
}

// ahead: a result of a function that is above one of its parameters (or not beyond the end of it) whenever the function
// returns no error.
type ahead struct{ param, res int }

// claim: what that says of a call.
func (q ahead) claim(w *flow.World, args []*flow.Term, res *flow.Term) *flow.Term {
	if isInteger(args[q.param].Typ) {
		return w.OrdLt(args[q.param], res)
	}
	return w.OrdLe(res, w.Len(args[q.param]))
}

var beyondOf = map[*ssa.Function]map[ahead]bool{}

// beyond finds the results of a recursive function that are above one of its parameters.
func beyond(c *Ctx, fn *ssa.Function) map[ahead]bool {
	if m, ok := beyondOf[fn]; ok {
		return m
	}
	alive := map[ahead]bool{}
	beyondOf[fn] = alive
	self := false
	calls(fn, func(in ssa.CallInstruction, _ string) { self = self || in.Common().StaticCallee() == fn })
	res := fn.Signature.Results()
	if !self || res.Len() == 0 || !types.Identical(res.At(res.Len()-1).Type(), types.Universe.Lookup("error").Type()) {
		return alive
	}
	for i, p := range fn.Params {
		for j := 0; j < res.Len(); j++ {
			if isInteger(p.Type()) && types.Identical(p.Type(), res.At(j).Type()) {
				alive[ahead{i, j}] = true
			}
			if _, ok := p.Type().Underlying().(*types.Slice); ok && isInteger(res.At(j).Type()) {
				alive[ahead{i, j}] = true
			}
		}
	}
	// by induction: what is assumed of the inner calls must hold for the outer one
	for again := len(alive) > 0; again; {
		again = false
		an := c.NewAnalyzer()
		w := an.W
		an.MaxFacts = 40
		an.EntryFacts = true
		an.Opaque = func(g *ssa.Function) bool { return g == fn }
		an.MaxDepth = 2
		an.Split = grows(an, fn, alive)
		params := an.ParamTerms(fn)
		for _, e := range c.Explore(an, fn) {
			if e.Kind != "return" || e.St.NonNil(e.Results[len(e.Results)-1]) {
				continue
			}
			for q := range alive {
				if !e.St.Entails(flow.Lit(q.claim(w, params, e.Results[q.res]))) {
					delete(alive, q)
					again = true
				}
			}
		}
	}
	return alive
}

// grows gives the outcomes of a call of the function.
func grows(an *flow.Analyzer, fn *ssa.Function, above map[ahead]bool) func(*flow.State, *ssa.Function, []*flow.Term, *flow.Site) ([]flow.Outcome, bool) {
	return func(st *flow.State, g *ssa.Function, args []*flow.Term, _ *flow.Site) ([]flow.Outcome, bool) {
		if g != fn || len(above) == 0 {
			return nil, false
		}
		w := an.W
		res := fn.Signature.Results()
		r := w.Call(fname(fn), res, args...)
		failed := w.EqAtom(w.Extract(r, res.Len()-1, res.At(res.Len()-1).Type()), w.Nil)
		var out []flow.Outcome
		if s := st.Assume(failed, false); s != nil {
			out = append(out, flow.Outcome{St: s, Res: r})
		}
		s := st.Assume(failed, true)
		for q := range above {
			if s != nil {
				s = s.Assume(q.claim(w, args, w.Extract(r, q.res, res.At(q.res).Type())), true)
			}
		}
		if s != nil {
			out = append(out, flow.Outcome{St: s, Res: r})
		}
		return out, true
	}
}

// terminates judges the loops of a function.
func terminates(c *Ctx, rule string, fn *ssa.Function) {
	var open []*ssa.BasicBlock
	for _, h := range loopHeads(fn) {
		if f := boundedLoop(c.P, h); f != "" {
			c.OK(rule, fname(fn)+" "+f)
			continue
		}
		open = append(open, h)
	}
	if len(open) == 0 {
		return
	}
	bad, how := progress(c, fn, open, false)
	if len(bad) > 0 {
		bad, how = progress(c, fn, open, true)
	}
	for _, h := range open {
		c.Expect(bad[h] == "", rule, fmt.Sprintf("%s loop%s", fname(fn), how[h]), loopPos(c, h), "a round of a loop of %s need not bring it nearer to its end: nothing is consumed, marked as visited, removed from a list or counted towards a bound: %s", fname(fn), bad[h])
	}
}

// recursions: the functions of the set that call themselves, by groups.
func recursions(P *flow.Program, set map[*ssa.Function]bool) (out [][]*ssa.Function) {
	index := map[*ssa.Function]int{}
	low := map[*ssa.Function]int{}
	on := map[*ssa.Function]bool{}
	var stack []*ssa.Function
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		index[f] = len(index) + 1
		low[f] = index[f]
		stack = append(stack, f)
		on[f] = true
		self := false
		calls(f, func(in ssa.CallInstruction, _ string) {
			g := in.Common().StaticCallee()
			if g == nil || !set[g] {
				return
			}
			self = self || g == f
			if index[g] == 0 {
				visit(g)
				low[f] = min(low[f], low[g])
			} else if on[g] {
				low[f] = min(low[f], index[g])
			}
		})
		if low[f] == index[f] {
			var comp []*ssa.Function
			for {
				g := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[g] = false
				comp = append(comp, g)
				if g == f {
					break
				}
			}
			if len(comp) > 1 || self {
				out = append(out, comp)
			}
		}
	}
	for f := range set {
		if index[f] == 0 {
			visit(f)
		}
	}
	return
}

// bounded judges a group of functions that call each other: a number that is passed on grows with every call and is
// compared with a fixed bound.
func boundedRecursion(c *Ctx, rule string, group []*ssa.Function) {
	in := map[*ssa.Function]bool{}
	for _, f := range group {
		in[f] = true
	}
	for _, fn := range group {
		an := c.NewAnalyzer()
		w := an.W
		an.Opaque = func(g *ssa.Function) bool { return true }
		params := an.ParamTerms(fn)
		an.OnEvent = func(st *flow.State, ev *flow.Event) {
			if ev.Kind != "call" || !in[ev.Fn] {
				return
			}
			ok := false
			for i, p := range params {
				if !isInteger(p.Typ) {
					continue
				}
				for j, a := range ev.Args {
					if len(group) == 1 && i != j || a.Typ == nil || !isInteger(a.Typ) {
						continue
					}
					d, is := w.Sub(a, p, types.Typ[types.Int]).IsInt()
					up := is && d > 0 && st.Entails(flow.Lit(w.OrdLe(p, w.Int(1<<16))))
					down := is && d < 0 && st.Entails(flow.Lit(w.OrdLe(w.Int(-1<<16), p)))
					ok = ok || up || down
				}
			}
			c.Expect(ok, rule, fname(fn)+" calls "+fname(ev.Fn), c.evPos(ev), "the recursion of %s has no bound that does not depend on its input", fname(fn))
		}
		c.Explore(an, fn)
	}
}
