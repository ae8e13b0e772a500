package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"verif/checker/flow"

	"golang.org/x/tools/go/ssa"
)

// nonNil infers which parameters, results, fields, elements of lists and values of tables are never nil, as the greatest set
// of such statements in which each one follows, at every place that produces the value, from the others.
type nonNil struct {
	c      *Ctx
	fns    []*ssa.Function
	dead   map[string]string // statement -> where it fails
	byName map[string]*ssa.Function
	taken  []*ssa.Function        // functions used as values
	inner  map[*ssa.Function]bool // functions of the library or reachable from the decoders
	tables map[string][]string    // value type -> fields that are tables with such values
	wired  map[string]bool        // fields that the program sets after it made the object
	sure   map[string]bool        // functions whose first result is never nil where they are called
	later  map[string]string      // fields that are set after the object was made: checked when it is returned
}

func nilable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Signature, *types.Interface:
		return true
	}
	return false
}

func isErrT(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }

func paramKey(f *ssa.Function, i int) string  { return fmt.Sprintf("param %s %d", f.String(), i) }
func resultKey(f *ssa.Function, i int) string { return fmt.Sprintf("result %s %d", f.String(), i) }
func fieldKey(owner, f string) string         { return "field " + owner + "." + f }
func elemKey(t types.Type) string             { return "element " + types.TypeString(t, nil) }
func valueKey(t types.Type) string            { return "value " + types.TypeString(t, nil) }
func ifaceKey(t types.Type) string            { return "held " + types.TypeString(t, nil) }

func (n *nonNil) alive(key string) bool { _, d := n.dead[key]; return !d }

func (n *nonNil) kill(key, pos string) {
	if _, d := n.dead[key]; !d {
		n.dead[key] = pos
	}
}

// known: the statements that hold of a term.
func (n *nonNil) known(an *flow.Analyzer, fn *ssa.Function) func(f *flow.Facts, t *flow.Term) bool {
	w := an.W
	params := map[*flow.Term]int{}
	for i, p := range an.ParamTerms(fn) {
		params[p] = i
	}
	yes := func(f *flow.Facts, t *flow.Term) bool { return w.Eval(f, t) == flow.Yes }
	var rec func(f *flow.Facts, t *flow.Term) bool
	rec = func(f *flow.Facts, t *flow.Term) bool {
		if t.Typ != nil && !nilable(t.Typ) {
			return false
		}
		switch t.Op {
		case flow.OParam:
			if i, ok := params[t]; ok {
				return n.alive(paramKey(fn, i))
			}
			return strings.HasPrefix(t.Aux, "free:") && isPtrToVar(fn, t.Aux)
		case flow.ODeref:
			a := t.Args[0]
			switch a.Op {
			case flow.OFieldAddr:
				o, _ := a.Obj.(string)
				return n.fieldKnown(o, a.Aux)
			case flow.OIndexAddr:
				return t.Typ != nil && n.elemKnown(t.Typ)
			case flow.OParam:
				return strings.HasPrefix(a.Aux, "free:") && n.captured(fn, a.Aux)
			case flow.OGlobal:
				return n.alive("global " + a.Aux)
			}
		case flow.OField:
			if b := t.Args[0]; b.Typ != nil {
				o := b.Typ
				if p, ok := o.Underlying().(*types.Pointer); ok {
					o = p.Elem()
				}
				return n.fieldKnown(types.TypeString(o, nil), t.Aux)
			}
		case flow.OIndex:
			return t.Typ != nil && n.elemKnown(t.Typ)
		case flow.OLookup:
			if t.Typ == nil || !inModule(n.c, t.Typ) || !n.tableKnown(t.Args[0], t.Typ) {
				return false
			}
			has := false
			f.Lits(func(l *flow.Term, v bool) {
				has = has || v && l.Op == flow.OLookupOk && l.Args[0] == t.Args[0] && l.Args[1] == t.Args[1]
			})
			return has
		case flow.OExtract, flow.OCall:
			call, k := t, 0
			if t.Op == flow.OExtract {
				call = t.Args[0]
				k = extractIndex(t)
			}
			if call.Op != flow.OCall {
				return false
			}
			if n.sure[call.Aux] && k == 0 {
				return true
			}
			g := n.byName[call.Aux]
			var sig *types.Signature
			if g != nil {
				if !n.alive(resultKey(g, k)) {
					return false
				}
				sig = g.Signature
			}
			res, _ := call.Typ.(*types.Tuple)
			if sig != nil {
				res = sig.Results()
			}
			if res != nil && res.Len() > 0 && isErrT(res.At(res.Len()-1).Type()) {
				if k == res.Len()-1 {
					return false
				}
				return yes(f, w.EqAtom(w.Extract(call, res.Len()-1, res.At(res.Len()-1).Type()), w.Nil))
			}
			return g != nil
		case flow.OAssert:
			p, ok := t.Typ.Underlying().(*types.Pointer)
			return ok && yes(f, w.Is(t.Args[0], t.Typ)) && n.alive(ifaceKey(p))
		}
		return false
	}
	return rec
}

func extractIndex(t *flow.Term) int {
	var k int
	fmt.Sscan(t.Aux, &k)
	return k
}

// externFields: fields of foreign types that are documented to be set.
var externFields = map[string]bool{
	"net/http.Response.Body": true, "net/http.Request.URL": true, "crypto/x509.Certificate.SerialNumber": true, "crypto/x509/pkix.RevokedCertificate.SerialNumber": true,
}

func (n *nonNil) fieldKnown(owner, f string) bool {
	if !strings.HasPrefix(owner, n.c.P.Module) {
		return externFields[owner+"."+f]
	}
	return n.alive(fieldKey(owner, f))
}

func (n *nonNil) elemKnown(t types.Type) bool { return inModule(n.c, t) && n.alive(elemKey(t)) }

// tableField: the field that a table is read from.
func tableField(m *flow.Term) string {
	if m.Op == flow.ODeref && m.Args[0].Op == flow.OFieldAddr {
		if o, ok := m.Args[0].Obj.(string); ok {
			return "value " + o + "." + m.Args[0].Aux
		}
	}
	return ""
}

// tableKnown: the values of the table are never nil. Tables are told apart by the field they are in; a table of unknown origin
// may be any of its type.
func (n *nonNil) tableKnown(m *flow.Term, t types.Type) bool {
	if !n.alive(valueKey(t)) {
		return false
	}
	if k := tableField(m); k != "" {
		return n.alive(k)
	}
	for _, k := range n.tables[valueKey(t)] {
		if !n.alive(k) {
			return false
		}
	}
	return true
}

func inModule(c *Ctx, t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	x, ok := types.Unalias(t).(*types.Named)
	return ok && x.Obj().Pkg() != nil && strings.HasPrefix(x.Obj().Pkg().Path(), c.P.Module)
}

// isPtrToVar: the free variable is the place of a variable of the enclosing function.
func isPtrToVar(fn *ssa.Function, name string) bool {
	ok := false
	eachBinding(fn, name, func(v ssa.Value) { _, a := v.(*ssa.Alloc); ok = a })
	return ok
}

func eachBinding(fn *ssa.Function, name string, f func(v ssa.Value)) {
	i := strings.LastIndex(name, "#")
	var k int
	fmt.Sscan(name[i+1:], &k)
	if fn.Parent() == nil {
		return
	}
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			if m, ok := in.(*ssa.MakeClosure); ok && m.Fn == fn && k < len(m.Bindings) {
				f(m.Bindings[k])
			}
		}
	}
}

// captured: the captured variable only ever holds parameters of the enclosing function that are never nil, or fresh objects.
func (n *nonNil) captured(fn *ssa.Function, name string) bool {
	all, some := true, false
	eachBinding(fn, name, func(v ssa.Value) {
		a, ok := v.(*ssa.Alloc)
		if !ok {
			all = false
			return
		}
		for _, r := range *a.Referrers() {
			st, ok := r.(*ssa.Store)
			if !ok || st.Addr != a {
				continue
			}
			some = true
			switch x := st.Val.(type) {
			case *ssa.Parameter:
				for i, p := range fn.Parent().Params {
					if p == x && !n.alive(paramKey(fn.Parent(), i)) {
						all = false
					}
				}
			case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeClosure:
			case *ssa.Extract:
				all = all && n.gave(fn, a, x)
			default:
				all = false
			}
		}
	})
	return all && some
}

// gave: the variable is only set to what a call gave, and wherever the closure is made, the call is known to have given no error.
func (n *nonNil) gave(fn *ssa.Function, a *ssa.Alloc, x *ssa.Extract) bool {
	call, ok := x.Tuple.(*ssa.Call)
	if !ok {
		return false
	}
	res := call.Call.Signature().Results()
	last := res.Len() - 1
	if x.Index == last || !isErrT(res.At(last).Type()) {
		return false
	}
	if g := call.Call.StaticCallee(); g != nil && n.c.P.InModule(g) && !n.alive(resultKey(g, x.Index)) {
		return false
	}
	var err ssa.Value
	for _, r := range *call.Referrers() {
		if e, ok := r.(*ssa.Extract); ok && e.Index == last {
			err = e
		}
	}
	made := false
	for _, r := range *a.Referrers() {
		switch y := r.(type) {
		case *ssa.DebugRef, *ssa.UnOp:
		case *ssa.Store:
			if y.Addr != a || y.Val != x {
				return false
			}
		case *ssa.MakeClosure:
			f, ok := y.Fn.(*ssa.Function)
			if !ok || !readOnlyIn(f, y, a) {
				return false
			}
			if f == fn {
				made = true
				if isNil, known := knownNils(y.Block())[err]; !known || !isNil {
					return false
				}
			}
		default:
			return false
		}
	}
	return made && err != nil
}

// readOnlyIn: the closure only reads the variable.
func readOnlyIn(f *ssa.Function, m *ssa.MakeClosure, a *ssa.Alloc) bool {
	for i, b := range m.Bindings {
		if b != a {
			continue
		}
		for _, r := range *f.FreeVars[i].Referrers() {
			switch r.(type) {
			case *ssa.DebugRef, *ssa.UnOp:
			default:
				return false
			}
		}
	}
	return true
}

// produce checks a value that is put where it must not be nil.
func (n *nonNil) produce(st *flow.State, key string, v *flow.Term, pos func() string) {
	n.held(st, v, pos)
	if n.alive(key) && !st.NonNil(v) {
		n.kill(key, pos())
	}
}

// held: an interface value that is passed on holds no nil pointer.
func (n *nonNil) held(st *flow.State, v *flow.Term, pos func() string) {
	if v.Op != flow.OMkIface || v.Typ == nil {
		return
	}
	if p, ok := v.Typ.Underlying().(*types.Pointer); ok && n.alive(ifaceKey(p)) && !st.NonNil(v.Args[0]) {
		n.kill(ifaceKey(p), pos())
	}
}

func (n *nonNil) targets(ev *flow.Event) (out []*ssa.Function, skip bool) {
	if ev.Fn != nil {
		if !n.c.P.InModule(ev.Fn) {
			return nil, false
		}
		return []*ssa.Function{ev.Fn}, false
	}
	ci, ok := ev.Instr.(ssa.CallInstruction)
	if !ok {
		return nil, false
	}
	com := ci.Common()
	if com.IsInvoke() {
		for _, f := range n.fns {
			if f.Signature.Recv() != nil && f.Name() == com.Method.Name() && types.Implements(f.Signature.Recv().Type(), com.Value.Type().Underlying().(*types.Interface)) {
				out = append(out, f)
			}
		}
		return out, true
	}
	for _, f := range n.taken {
		if types.Identical(f.Signature, com.Signature()) {
			out = append(out, f)
		}
	}
	return out, false
}

// round analyses all functions under the statements that are left, and drops those that do not follow. It says whether any
// was dropped.
func (n *nonNil) round() bool {
	before := len(n.dead)
	for _, fn := range n.fns {
		n.check(fn, nil)
	}
	return len(n.dead) > before
}

// analyzer: an analysis of a function under the statements.
func (n *nonNil) analyzer(fn *ssa.Function) *flow.Analyzer {
	an := n.c.NewAnalyzer()
	an.Opaque = func(g *ssa.Function) bool { return true }
	an.Record = func(*flow.Event) bool { return false }
	an.Known = n.known(an, fn)
	an.Arith = true
	an.EntryFacts = true
	if up := beyond(n.c, fn); len(up) > 0 {
		an.Split = grows(an, fn, up)
	}
	return an
}

func lowKey(f *ssa.Function, i int) string { return fmt.Sprintf("low %s %d", f.String(), i) }

// explore runs an analysis of a function under the statements about its parameters.
func (n *nonNil) explore(an *flow.Analyzer, fn *ssa.Function) []flow.Exit {
	st := an.NewState()
	ps := an.ParamTerms(fn)
	for i, p := range fn.Params {
		if isInteger(p.Type()) && n.alive(lowKey(fn, i)) {
			st = st.Assume(an.W.OrdLe(an.W.Int(0), ps[i]), true)
		}
		if types.TypeString(p.Type(), nil) == "encoding/asn1.BitString" {
			st = st.Assume(an.W.OrdLe(an.W.Int(0), an.W.Field(ps[i], "BitLength", types.Typ[types.Int])), true)
		}
	}
	ex := an.Run(fn, ps, st)
	n.c.Done(an, fn)
	return ex
}

func (n *nonNil) check(fn *ssa.Function, oblig func(o flow.Oblig)) {
	an := n.analyzer(fn)
	an.OnOblig = oblig
	if oblig == nil {
		an.AssumeDeref = true
	}
	an.OnEvent = func(st *flow.State, ev *flow.Event) {
		pos := func() string { return n.c.evPos(ev) }
		switch ev.Kind {
		case "call", "go", "defer":
			gs, invoked := n.targets(ev)
			args := ev.Args
			if invoked && ev.Fn == nil {
				args = nil
				if len(ev.Args) > 0 {
					args = ev.Args[1:]
				}
			}
			for _, a := range ev.Args {
				n.held(st, a, pos)
				n.whole(st, a, pos)
			}
			for _, g := range gs {
				off := 0
				if invoked {
					off = 1
				} else if ev.Fn == nil {
					off = len(g.Params) - len(args)
				}
				for i, a := range args {
					if i+off >= len(g.Params) || i+off < 0 {
						continue
					}
					if t := g.Params[i+off].Type(); nilable(t) {
						n.produce(st, paramKey(g, i+off), a, pos)
					} else if k := lowKey(g, i+off); isInteger(t) && n.alive(k) && !st.Entails(flow.Lit(an.W.OrdLe(an.W.Int(0), a))) {
						n.kill(k, pos())
					}
				}
			}
		case "store":
			a, v := ev.Args[0], ev.Args[1]
			t := a.Typ.Underlying().(*types.Pointer).Elem()
			if !nilable(t) {
				return
			}
			switch a.Op {
			case flow.OFieldAddr:
				o, _ := a.Obj.(string)
				if !strings.HasPrefix(o, n.c.P.Module) {
					n.held(st, v, pos)
					return
				}
				if mt, ok := t.Underlying().(*types.Map); ok && nilable(mt.Elem()) && v.Op != flow.OMake {
					n.kill("value "+o+"."+a.Aux, pos())
				}
				if k := fieldKey(o, a.Aux); n.private(a.Args[0]) {
					n.held(st, v, pos)
					if n.alive(k) && !st.NonNil(v) {
						n.later[k] = pos()
					}
				} else {
					n.produce(st, k, v, pos)
				}
			case flow.OIndexAddr:
				if n.inner[fn] || shares(n.c, fn, types.NewSlice(t)) {
					n.produce(st, elemKey(t), v, pos)
				}
			case flow.OGlobal:
				n.produce(st, "global "+a.Aux, v, pos)
			default:
				n.held(st, v, pos)
			}
		case "mapset":
			if v := ev.Args[2]; v.Typ != nil && nilable(v.Typ) {
				if mt, ok := ev.Args[0].Typ.Underlying().(*types.Map); ok && (n.inner[fn] || shares(n.c, fn, mt)) {
					k := tableField(ev.Args[0])
					if k == "" {
						k = valueKey(mt.Elem())
					}
					n.produce(st, k, v, pos)
				}
			}
		case "append":
			if l := ev.Args[1]; l.Op == flow.OSliceLit && ev.Args[0].Typ != nil {
				if sl, ok := l.Typ.Underlying().(*types.Slice); ok && nilable(sl.Elem()) && (n.inner[fn] || shares(n.c, fn, sl)) {
					for _, v := range l.Args {
						n.produce(st, elemKey(sl.Elem()), v, pos)
					}
				}
			}
		}
	}
	sig := fn.Signature.Results()
	for _, e := range n.explore(an, fn) {
		if e.Kind != "return" {
			continue
		}
		pos := func() string { return n.c.Pos(e.Instr) }
		st := e.St
		if k := sig.Len() - 1; k > 0 && isErrT(sig.At(k).Type()) {
			n.held(st, e.Results[k], pos)
			if st = st.Clone().Assume(n.wnil(an, e.Results[k]), true); st == nil {
				continue
			}
		}
		for _, r := range e.Results {
			n.whole(st, r, pos)
		}
		for i, r := range e.Results {
			if nilable(sig.At(i).Type()) && !(i > 0 && i == sig.Len()-1 && isErrT(sig.At(i).Type())) {
				n.produce(st, resultKey(fn, i), r, pos)
			}
		}
	}
}

// private: an object made here that is only used here until it is given to the caller or to a method of its own: what is in its
// fields then is checked.
func (n *nonNil) private(obj *flow.Term) bool {
	if obj.Op != flow.OAlloc || obj.Site == nil {
		return false
	}
	a, ok := obj.Site.Instr.(*ssa.Alloc)
	if !ok {
		return false
	}
	uses, _, copied := objectUses(a)
	if copied {
		for _, r := range *a.Referrers() {
			if s, ok := r.(*ssa.Store); ok && s.Addr == a {
				uses = without(uses, s)
			}
		}
	}
	return kept(uses, nil)
}

func without(l []ssa.Instruction, x ssa.Instruction) (out []ssa.Instruction) {
	for _, y := range l {
		if y != x {
			out = append(out, y)
		}
	}
	return
}

// whole: an object that was made here and is returned without an error has its fields set.
func (n *nonNil) whole(st *flow.State, r *flow.Term, pos func() string) {
	if r.Op != flow.OAlloc || r.Typ == nil {
		return
	}
	p, ok := r.Typ.Underlying().(*types.Pointer)
	if !ok {
		return
	}
	s, ok := p.Elem().Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		k := fieldKey(types.TypeString(p.Elem(), nil), s.Field(i).Name())
		if _, late := n.later[k]; late && n.alive(k) && !st.NonNil(st.Path(r, s.Field(i).Name())) {
			n.kill(k, pos())
		}
	}
}

func (n *nonNil) wnil(an *flow.Analyzer, t *flow.Term) *flow.Term { return an.W.EqAtom(t, an.W.Nil) }

// zeroes drops the statements about fields that are nil in objects that are made without setting them.
func (n *nonNil) zeroes() {
	for _, fn := range n.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				pos := n.c.Pos(in)
				switch x := in.(type) {
				case *ssa.Alloc:
					n.made(x, x.Type().Underlying().(*types.Pointer).Elem(), pos)
				case *ssa.MakeSlice:
					k, ok := x.Len.(*ssa.Const)
					if t := x.Type().Underlying().(*types.Slice).Elem(); (!ok || k.Int64() != 0) && !filledByLoop(x) {
						n.zero(t, pos)
						if nilable(t) && (n.inner[fn] || shares(n.c, fn, x.Type())) {
							n.kill(elemKey(t), pos)
						}
					}
				case *ssa.Call:
					if g := x.Call.StaticCallee(); g != nil && strings.Contains(g.Name(), "nmarshal") || g != nil && strings.HasPrefix(g.Name(), "Decode") && !n.c.P.InModule(g) {
						for _, a := range x.Call.Args {
							if m, ok := a.(*ssa.MakeInterface); ok {
								n.filled(m.X.Type(), pos, map[types.Type]bool{})
							}
						}
					}
				}
				if _, ret := in.(*ssa.Return); !ret {
					for _, op := range in.Operands(nil) {
						if k, ok := (*op).(*ssa.Const); ok && k.Value == nil {
							n.zero(k.Type(), pos)
						}
					}
				}
			}
		}
	}
}

// filledByLoop: a loop over all indexes of the new list sets every element of it before the list is used.
func filledByLoop(m *ssa.MakeSlice) bool {
	var store *ssa.Store
	var idx ssa.Value
	var uses []ssa.Instruction
	for _, r := range *m.Referrers() {
		switch x := r.(type) {
		case *ssa.DebugRef:
		case *ssa.IndexAddr:
			for _, u := range *x.Referrers() {
				if s, ok := u.(*ssa.Store); ok && s.Addr == x && store == nil {
					store, idx = s, x.Index
				} else {
					uses = append(uses, u)
				}
			}
		default:
			uses = append(uses, r)
		}
	}
	if store == nil {
		return false
	}
	// the loop counts from 0 by 1
	phi, off := idx, int64(0)
	if b, ok := idx.(*ssa.BinOp); ok && b.Op == token.ADD && isOne(b.Y) {
		phi, off = b.X, 1
	}
	p, ok := phi.(*ssa.Phi)
	if !ok {
		return false
	}
	h := p.Block()
	for i, e := range p.Edges {
		if !h.Dominates(h.Preds[i]) {
			k, ok := e.(*ssa.Const)
			if !ok || k.Value == nil || k.Int64() != -off {
				return false
			}
			continue
		}
		if b, ok := e.(*ssa.BinOp); !ok || b.Op != token.ADD || b.X != ssa.Value(p) || !isOne(b.Y) || !store.Block().Dominates(h.Preds[i]) {
			return false
		}
	}
	// until it reaches the length of the list
	end, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	cond, ok := end.Cond.(*ssa.BinOp)
	if !ok || cond.Op != token.LSS || !sameIndex(cond.X, idx) || !sameLength(cond.Y, m.Len) && cond.Y != m.Len && !lenIs(cond.Y, m) {
		return false
	}
	after := h.Succs[1]
	if len(after.Preds) != 1 {
		return false
	}
	for _, u := range uses {
		if c, ok := u.(*ssa.Call); ok {
			if b, ok := c.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
				continue
			}
		}
		if !after.Dominates(u.Block()) {
			return false
		}
	}
	return true
}

func isOne(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value != nil && k.Value.Kind() == constant.Int && k.Int64() == 1
}

func sameIndex(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.BinOp)
	y, ok2 := b.(*ssa.BinOp)
	return ok1 && ok2 && x.Op == token.ADD && y.Op == token.ADD && x.X == y.X && isOne(x.Y) && isOne(y.Y)
}

func lenIs(v, list ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "len" && c.Call.Args[0] == list
}

// sameLength: both are the length of one list, which the function does not replace.
func sameLength(a, b ssa.Value) bool {
	x, ok1 := a.(*ssa.Call)
	y, ok2 := b.(*ssa.Call)
	if !ok1 || !ok2 {
		return false
	}
	bx, ok1 := x.Call.Value.(*ssa.Builtin)
	by, ok2 := y.Call.Value.(*ssa.Builtin)
	return ok1 && ok2 && bx.Name() == "len" && by.Name() == "len" && sameList(x.Call.Args[0], y.Call.Args[0])
}

func sameList(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		return ok && x.Op == token.MUL && y.Op == token.MUL && sameList(x.X, y.X) && !replacedIn(x.Parent(), x.X)
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && sameList(x.X, y.X)
	case *ssa.Field:
		y, ok := b.(*ssa.Field)
		return ok && x.Field == y.Field && sameList(x.X, y.X)
	}
	return false
}

// replacedIn: the function sets such a place.
func replacedIn(fn *ssa.Function, addr ssa.Value) bool {
	f, ok := addr.(*ssa.FieldAddr)
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			s, isStore := in.(*ssa.Store)
			if !isStore {
				continue
			}
			g, isField := s.Addr.(*ssa.FieldAddr)
			if s.Addr == addr || !ok || isField && g.Field == f.Field && types.Identical(g.X.Type(), f.X.Type()) {
				return true
			}
		}
	}
	return false
}

// made: an object is made; what is not set before it is used may be nil in it.
func (n *nonNil) made(a *ssa.Alloc, t types.Type, pos string) {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		n.zero(t, pos)
		if arr, ok := t.Underlying().(*types.Array); ok && nilable(arr.Elem()) {
			// the places of a list literal are all filled
			_ = arr
		}
		return
	}
	uses, set, copied := objectUses(a)
	if copied {
		return // a copy of another object
	}
	given := map[int]bool{}
	if len(uses) == 1 {
		if l, ok := uses[0].(*ssa.UnOp); ok && len(*l.Referrers()) == 1 {
			if s, ok := (*l.Referrers())[0].(*ssa.Store); ok && s.Val == l {
				if b, ok := s.Addr.(*ssa.Alloc); ok {
					// the object is a copy of this literal, which is not used otherwise
					for i := range set {
						given[i] = true
					}
					var all []ssa.Instruction
					all, set, _ = objectUses(b)
					uses = nil
					for _, u := range all {
						if u != s {
							uses = append(uses, u)
						}
					}
				}
			}
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		ok := given[i]
		for _, s := range set[i] {
			all := true
			for _, u := range uses {
				if fa, is := u.(*ssa.FieldAddr); is && fa.Field != i {
					continue // another field
				}
				all = all && dominates(s, u)
			}
			ok = ok || all
		}
		if ok {
			continue
		}
		if !nilable(f.Type()) {
			n.zero(f.Type(), pos)
			continue
		}
		k := fieldKey(types.TypeString(t, nil), f.Name())
		if n.wired[k] {
			continue
		}
		if len(set[i]) > 0 && kept(uses, set[i]) {
			n.later[k] = pos
			continue
		}
		n.kill(k, pos)
	}
}

// objectUses: how an object is used after it was made, and where its fields are set.
func objectUses(a *ssa.Alloc) (uses []ssa.Instruction, set map[int][]ssa.Instruction, copied bool) {
	set = map[int][]ssa.Instruction{}
	for _, r := range *a.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == a {
			copied = true
		}
		if fa, ok := r.(*ssa.FieldAddr); ok {
			only := true
			for _, q := range *fa.Referrers() {
				if s, ok := q.(*ssa.Store); ok && s.Addr == fa {
					set[fa.Field] = append(set[fa.Field], s)
				} else {
					only = false
				}
			}
			if only {
				continue
			}
		}
		uses = append(uses, r)
	}
	return
}

// kept: until the field is set the object is only used in its own function, or given to the caller.
func kept(uses, sets []ssa.Instruction) bool {
	for _, u := range uses {
		after := false
		for _, s := range sets {
			after = after || dominates(s, u)
		}
		if after {
			continue
		}
		switch x := u.(type) {
		case *ssa.FieldAddr, *ssa.Return, *ssa.DebugRef:
		case *ssa.Call:
			if x.Call.IsInvoke() || x.Call.StaticCallee() == nil || x.Call.Signature().Recv() == nil {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// shares: the function passes such a list or table on to another function, or puts it into an object.
func shares(c *Ctx, fn *ssa.Function, t types.Type) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case ssa.CallInstruction:
				if _, ok := x.Common().Value.(*ssa.Builtin); ok {
					continue
				}
				for _, a := range x.Common().Args {
					if types.Identical(a.Type(), t) {
						return true
					}
				}
			case *ssa.Store:
				if _, local := x.Addr.(*ssa.Alloc); !local && types.Identical(x.Val.Type(), t) {
					if _, elem := x.Addr.(*ssa.IndexAddr); !elem {
						return true
					}
				}
			case *ssa.MakeClosure:
				return true
			}
		}
	}
	return false
}

// zero: a zero value of the type comes into being.
func (n *nonNil) zero(t types.Type, pos string) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if nilable(f.Type()) {
				n.kill(fieldKey(types.TypeString(t, nil), f.Name()), pos)
			} else {
				n.zero(f.Type(), pos)
			}
		}
	case *types.Array:
		n.zero(u.Elem(), pos)
	}
}

// filled: code outside the repository fills a value of the type.
func (n *nonNil) filled(t types.Type, pos string, seen map[types.Type]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		n.filled(u.Elem(), pos, seen)
	case *types.Slice:
		if nilable(u.Elem()) {
			n.kill(elemKey(u.Elem()), pos)
		}
		n.filled(u.Elem(), pos, seen)
	case *types.Map:
		if nilable(u.Elem()) {
			n.kill(valueKey(u.Elem()), pos)
		}
		n.filled(u.Elem(), pos, seen)
	case *types.Array:
		n.filled(u.Elem(), pos, seen)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if nilable(f.Type()) {
				n.kill(fieldKey(types.TypeString(t, nil), f.Name()), pos)
			}
			n.filled(f.Type(), pos, seen)
			if m, ok := f.Type().Underlying().(*types.Map); ok && nilable(m.Elem()) {
				n.kill("value "+types.TypeString(t, nil)+"."+f.Name(), pos)
			}
		}
	}
}

// inferNonNil computes the statements for a set of functions.
func inferNonNil(c *Ctx, fns []*ssa.Function, inner map[*ssa.Function]bool, wired, sure map[string]bool) *nonNil {
	n := &nonNil{c: c, fns: fns, inner: inner, wired: wired, sure: sure, later: map[string]string{}, tables: map[string][]string{}, dead: map[string]string{}, byName: map[string]*ssa.Function{}}
	for _, t := range moduleTypes(c.P) {
		if st, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if m, ok := st.Field(i).Type().Underlying().(*types.Map); ok && nilable(m.Elem()) {
					k := valueKey(m.Elem())
					n.tables[k] = append(n.tables[k], "value "+types.TypeString(t, nil)+"."+st.Field(i).Name())
				}
			}
		}
	}
	for _, f := range fns {
		n.byName[flow.FuncName(f)] = f
	}
	seen := map[*ssa.Function]bool{}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for i, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Function)
					if ci, is := in.(ssa.CallInstruction); ok && is && i == 0 && ci.Common().Value == g {
						continue
					}
					if ok && !seen[g] {
						seen[g] = true
						if g.Synthetic != "" && strings.HasSuffix(g.Name(), "$bound") {
							if o, is := g.Object().(*types.Func); is {
								if m := c.P.Prog.FuncValue(o); m != nil {
									g = m
								}
							}
						}
						n.taken = append(n.taken, g)
					}
				}
			}
		}
	}
	n.zeroes()
	for i := 0; n.round() && i < 20; i++ {
	}
	return n
}

func (n *nonNil) dump() {
	var ks []string
	for k := range n.dead {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Println("dead", k, n.dead[k])
	}
}

var _ = token.ADD
