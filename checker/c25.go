package main

import (
	"fmt"
	"go/types"
	"strings"

	"verif/checker/flow"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C25",
		Technique: "path-sensitive dataflow over the callback that folds the covering ROAs into an outcome (a transition table from old to new state), over the construction of the prefix trees and over the search",
		Rule:      "The trees hold, for every ROA of the list, its position under its own prefix, in the tree of its family, added unconditionally; list and trees are not changed afterwards. A search starts from the outcome NotFound and an empty list and looks in the tree of the route's family for the route's own prefix. For each covering ROA the outcome becomes Valid where it was Valid or where the ROA has the route's AS number and a max length at least the route's prefix length, and Invalid otherwise; the ROA is added to the list in every case and the search goes on. The search returns that outcome and that list.",
		Note:      "The vendored patricia tree calls the callback for every entry stored under a covering prefix.",
		Run:       runC25})
}

// endsCall: a call of a function whose name ends like that.
func endsCall(t *flow.Term, name string) bool {
	return t != nil && t.Op == flow.OCall && strings.HasSuffix(t.Aux, name)
}

const treeSearch = ").FindTagsWithFilter"
const treeAdd = ").Add"

func isTreeCall(n, what string) bool {
	return strings.Contains(n, "_tree.Tree") && strings.HasSuffix(n, what)
}

// treeFamily of a tree or address by its type: 4, 6 or 0.
func treeFamily(t types.Type) int {
	n := ownerName(t)
	switch {
	case strings.HasSuffix(n, "TreeV4") || strings.HasSuffix(n, "IPv4Address"):
		return 4
	case strings.HasSuffix(n, "TreeV6") || strings.HasSuffix(n, "IPv6Address"):
		return 6
	}
	return 0
}

func ovConst(c *Ctx, name string) (int64, bool) {
	p := c.P.SSA["ov"]
	if p == nil {
		return 0, false
	}
	k, ok := p.Members[name].(*ssa.NamedConst)
	if !ok {
		return 0, false
	}
	return k.Value.Int64(), true
}

func runC25(c *Ctx) {
	valid, ok1 := ovConst(c, "STATE_VALID")
	invalid, ok2 := ovConst(c, "STATE_INVALID")
	unknown, ok3 := ovConst(c, "STATE_UNKNOWN")
	if !c.Expect(ok1 && ok2 && ok3 && valid != invalid && valid != unknown && invalid != unknown, "outcomes", "constants", "ov/ov.go", "the three outcomes are not distinct constants") {
		return
	}
	search := c.Func("ov", "*OriginValidator", "Validate")
	build := c.Func("ov", "", "NewOV")
	if search == nil || build == nil {
		return
	}
	names := map[int64]string{valid: "Valid", invalid: "Invalid", unknown: "NotFound"}
	outcomeNames(c, names)

	// the search
	an := c.NewAnalyzer()
	args := an.ParamTerms(search)
	w := an.W
	an.Record = func(ev *flow.Event) bool { return false }
	type call struct {
		st *flow.State
		ev *flow.Event
	}
	var searches []call
	var callback *ssa.Function
	an.OnEvent = func(st *flow.State, ev *flow.Event) {
		if ev.Kind != "call" || !isTreeCall(ev.Name, treeSearch) || len(ev.Args) < 3 {
			return
		}
		st.SetGhost("searched", w.True)
		st.SetGhost("closure", ev.Args[2])
		searches = append(searches, call{st.Clone(), ev})
	}
	exits := c.Explore(an, search)
	if !c.Expect(len(searches) > 0, "search", "search", c.PosOf(search.Pos()), "no tree is searched with a callback") {
		return
	}
	fams := map[int]bool{}
	for _, s := range searches {
		pos := c.evPos(s.ev)
		tree, addr, cl := s.ev.Args[0], strip(s.ev.Args[1]), s.ev.Args[2]
		f := treeFamily(tree.Typ)
		fams[f] = true
		c.Expect(refBase(tree) == args[0] && f != 0, "search", "tree", pos, "the search is not in a tree of the validator: %s", tree)
		for addr.Op == flow.ODeref {
			addr = addr.Args[0]
		}
		okA := addr.Op == flow.OExtract && endsCall(addr.Args[0], "patricia.ParseFromIPAddr") && treeFamily(addr.Typ) == f &&
			endsCall(addr.Args[0].Args[0], ").GetPrefix") && addr.Args[0].Args[0].Args[0] == args[1]
		c.Expect(okA, "search", "prefix", pos, "the tree is not searched for the prefix of the route: %s", addr)
		fn, recv := boundOf(c.P, cl)
		if !c.Expect(fn != nil && (callback == nil || callback == fn), "search", "callback", pos, "the callback of the search cannot be followed: %s", cl) {
			return
		}
		callback = fn
		for _, what := range []string{"outcome", "list"} {
			if !c.Expect(cell(s.st, recv, what) != nil, "search", "callback state", pos, "the callback has no %s to work on", what) {
				return
			}
		}
		st0 := cell(s.st, recv, "outcome")
		c.Expect(st0 == w.Int(unknown), "search", "start outcome", pos, "the search starts with the outcome %s instead of NotFound", st0)
		l0 := cell(s.st, recv, "list")
		c.Expect(l0 == w.Nil || s.st.Entails(flow.Lit(w.OrdEq(w.Len(l0), w.Zero0))), "search", "start list", pos, "the search starts with a list that is not empty: %s", l0)
		c.Expect(cell(s.st, recv, "route") == args[1], "search", "route", pos, "the callback compares with another route")
		c.Expect(cell(s.st, recv, "validator") == args[0], "search", "validator", pos, "the callback looks at the ROAs of another validator")
	}
	c.Expect(fams[4] && fams[6], "search", "families", c.PosOf(search.Pos()), "IPv4 or IPv6 prefixes are not searched")
	for _, e := range exits {
		if e.Kind != "return" || len(e.Results) != 3 {
			c.Fail("search", "end", c.Pos(e.Instr), "the search ends with %s", e.Kind)
			continue
		}
		pos := c.Pos(e.Instr)
		cl := e.St.Ghost("closure")
		if cl == nil {
			// nothing was looked for: an error
			c.Expect(e.St.NonNil(e.Results[2]), "search", "error", pos, "an outcome is returned without a search and without an error")
			continue
		}
		_, recv := boundOf(c.P, cl)
		c.Expect(e.Results[1] == cell(e.St, recv, "outcome"), "search", "result outcome", pos, "what is returned is not the outcome of the search: %s", e.Results[1])
		c.Expect(e.Results[0] == cell(e.St, recv, "list"), "search", "result list", pos, "what is returned is not the list of the covering ROAs: %s", e.Results[0])
		c.Expect(e.St.IsNil(e.Results[2]), "search", "result error", pos, "an error is returned after a search")
	}
	judgeStep(c, callback, valid, invalid, unknown)
	judgeTrees(c, build)
	frozen(c, build)
}

// boundOf: the function behind a callback and what it works on: the receiver of a method value or the variables of a closure.
func boundOf(P *flow.Program, t *flow.Term) (*ssa.Function, []*flow.Term) {
	t = strip(t)
	if t == nil || t.Op != flow.OClosure {
		return nil, nil
	}
	fn, ok := t.Obj.(*ssa.Function)
	if !ok {
		return nil, nil
	}
	if m := boundFunc(P, fn); m != nil {
		fn = m
	}
	return fn, t.Args
}

// cell is the value of a part of the state a callback works on: outcome, list, route or validator.
func cell(st *flow.State, parts []*flow.Term, what string) *flow.Term {
	is := func(t types.Type) bool {
		switch what {
		case "outcome":
			b, ok := t.Underlying().(*types.Basic)
			return ok && b.Info()&types.IsInteger != 0
		case "list":
			l, ok := t.Underlying().(*types.Slice)
			return ok && strings.HasSuffix(ownerName(l.Elem()), "ov.AbstractROA")
		case "route":
			_, ok := t.Underlying().(*types.Interface)
			return ok && strings.HasSuffix(ownerName(t), "ov.AbstractRoute")
		}
		_, ok := t.Underlying().(*types.Pointer)
		return ok && strings.HasSuffix(ownerName(t), "ov.OriginValidator")
	}
	for _, p := range parts {
		if p.Typ == nil {
			continue
		}
		if is(p.Typ) {
			return p
		}
		ptr, ok := p.Typ.Underlying().(*types.Pointer)
		if !ok {
			continue
		}
		if is(ptr.Elem()) {
			return st.Load(p, ptr.Elem())
		}
		s, ok := ptr.Elem().Underlying().(*types.Struct)
		if !ok || strings.HasSuffix(ownerName(ptr), "ov.OriginValidator") {
			continue
		}
		for i := 0; i < s.NumFields(); i++ {
			if is(s.Field(i).Type()) {
				return st.Path(p, s.Field(i).Name())
			}
		}
	}
	return nil
}

// judgeStep: the callback maps outcomes to outcomes as RFC 6811 says.
func judgeStep(c *Ctx, fn *ssa.Function, valid, invalid, unknown int64) {
	an := c.NewAnalyzer()
	args := an.ParamTerms(fn)
	w := an.W
	recv, payload := args[:len(args)-1], args[len(args)-1]
	for i, fv := range fn.FreeVars {
		recv = append(recv, w.Param(fmt.Sprintf("free:%s#%d", fv.Name(), i), fv.Type()))
	}
	st0 := an.NewState()
	old, list0, rt, ov := cell(st0, recv, "outcome"), cell(st0, recv, "list"), cell(st0, recv, "route"), cell(st0, recv, "validator")
	name := fn.Name()
	if !c.Expect(old != nil && list0 != nil && rt != nil && ov != nil, "step", "state", c.PosOf(fn.Pos()), "the callback does not work on an outcome, a list, a route and a validator") {
		return
	}
	an.Record = func(ev *flow.Event) bool { return false }
	// the ROA of the payload
	mine := func(st *flow.State, t *flow.Term) bool {
		l, i := loopElem(t)
		return l != nil && strip(i) == payload && isRef(l, "vrp") && refBase(l) == ov
	}
	route := func(t *flow.Term) bool { return t == rt }
	an.OnEvent = func(st *flow.State, ev *flow.Event) {
		switch {
		case ev.Kind == "append" && (ev.Args[0] == list0 || st.Ghost("added") != nil):
			ok := ev.Args[1].Op == flow.OSliceLit && len(ev.Args[1].Args) == 1 && mine(st, ev.Args[1].Args[0]) && st.Ghost("added") == nil
			c.Expect(ok, "step", "added ROA", c.evPos(ev), "%s adds something other than the covering ROA to the list: %s", name, ev.Args[1])
			st.SetGhost("added", w.True)
		}
	}
	exits := c.Explore(an, fn)
	n := 0
	for _, e := range exits {
		pos := c.Pos(e.Instr)
		if !c.Expect(e.Kind == "return" && len(e.Results) == 1, "step", "end", pos, "%s ends with %s", name, e.Kind) {
			continue
		}
		st := e.St
		n++
		c.Expect(strip(e.Results[0]) == w.True, "step", "goes on", pos, "%s does not let the search go on: it returns %s where %s", name, e.Results[0], facts(st))
		l := cell(st, recv, "list")
		c.Expect(st.Ghost("added") != nil && l.Op == flow.OAppend && l.Args[0] == list0, "step", "list", pos, "%s does not add the covering ROA to the list: %s", name, l)
		now := cell(st, recv, "outcome")
		rr := map[bool][]*flow.Term{}
		seen := map[*flow.Term]bool{}
		var sizes, lens []*flow.Term
		st.F.Terms(func(t *flow.Term) {
			t.Sub(func(x *flow.Term) {
				if seen[x] {
					return
				}
				seen[x] = true
				x0 := strip(x)
				switch {
				case endsCall(x0, ").GetASN") && route(x0.Args[0]):
					rr[true] = append(rr[true], x)
				case endsCall(x0, ").GetASN") && mine(st, x0.Args[0]):
					rr[false] = append(rr[false], x)
				case endsCall(x0, ").GetMaxLen") && mine(st, x0.Args[0]):
					lens = append(lens, x)
				case x0.Op == flow.OExtract && endsCall(x0.Args[0], "(net.IPMask).Size") && x0 == w.Extract(x0.Args[0], 0, x0.Typ) && isRef(x0.Args[0].Args[0], "Mask"):
					if p := refBase(x0.Args[0].Args[0]); endsCall(p, ").GetPrefix") && route(p.Args[0]) {
						sizes = append(sizes, x)
					}
				}
			})
		})
		sameAS, otherAS, short, long := false, false, false, false
		for _, a := range rr[true] {
			for _, b := range rr[false] {
				sameAS = sameAS || st.Entails(flow.Lit(w.OrdEq(a, b))) || st.Entails(flow.Lit(w.EqAtom(a, b)))
				otherAS = otherAS || st.Excludes(flow.Lit(w.OrdEq(a, b))) || st.Excludes(flow.Lit(w.EqAtom(a, b)))
			}
		}
		for _, a := range sizes {
			for _, b := range lens {
				short = short || st.Entails(flow.Lit(w.OrdLe(a, b)))
				long = long || st.Excludes(flow.Lit(w.OrdLe(a, b)))
			}
		}
		match, noMatch := sameAS && short, otherAS || long
		wasValid := st.Entails(flow.Lit(w.OrdEq(old, w.Int(valid))))
		wasInvalid := st.Entails(flow.Lit(w.OrdEq(old, w.Int(invalid))))
		notValid := st.Excludes(flow.Lit(w.OrdEq(old, w.Int(valid))))
		ok := false
		switch {
		case now == w.Int(valid):
			ok = wasValid || match
		case now == w.Int(invalid):
			ok = notValid && noMatch
		case strip(now) == old:
			wasUnknown := !st.Excludes(flow.Lit(w.OrdEq(old, w.Int(unknown))))
			ok = wasValid || (wasInvalid || !wasUnknown) && noMatch
		}
		c.Expect(ok, "step", "outcome", pos, "%s gives the outcome %s where %s", name, now, facts(st))
	}
	c.AtLeast("step", 5)
	c.Sample("callback %s: %d paths", name, n)
}

// judgeTrees: every ROA is added to the tree of its family under its prefix.
func judgeTrees(c *Ctx, build *ssa.Function) {
	an := c.NewAnalyzer()
	args := an.ParamTerms(build)
	w := an.W
	list := args[0]
	an.Record = func(ev *flow.Event) bool { return false }
	trees := map[int]*flow.Term{}
	fail := false
	an.OnEvent = func(st *flow.State, ev *flow.Event) {
		if ev.Kind != "call" {
			return
		}
		if isTreeCall(ev.Name, treeAdd) && len(ev.Args) == 4 {
			pos := c.evPos(ev)
			f := treeFamily(ev.Args[0].Typ)
			if trees[f] != nil && trees[f] != ev.Args[0] {
				c.Fail("trees", "one tree", pos, "ROAs are added to two trees of one family")
			}
			trees[f] = ev.Args[0]
			idx := strip(ev.Args[2])
			addr := strip(ev.Args[1])
			for addr.Op == flow.ODeref {
				addr = addr.Args[0]
			}
			ok := addr.Op == flow.OExtract && endsCall(addr.Args[0], "patricia.ParseFromIPAddr") && treeFamily(addr.Typ) == f && endsCall(addr.Args[0].Args[0], ").GetPrefix")
			if ok {
				i := elementOf(w, addr.Args[0].Args[0].Args[0], list)
				ok = i != nil && i == idx
			}
			if !c.Expect(ok, "trees", "entry", pos, "a tree entry is not the position of a ROA under its own prefix: %s under %s", idx, addr) {
				fail = true
				return
			}
			c.Expect(strip(ev.Args[3]) == w.Nil, "trees", "unconditional", pos, "a ROA is added to the tree only under a condition of its own")
			st.SetGhost("entry", idx)
		}
		if strings.Contains(ev.Name, "_tree.Tree") && !isTreeCall(ev.Name, treeAdd) {
			c.Fail("trees", "other calls", c.evPos(ev), "the tree is changed by %s while it is built", ev.Name)
		}
	}
	var backs []backRec
	an.OnEnter = func(st *flow.State, fr *flow.Frame, h *ssa.BasicBlock) { st.SetGhost("entry", w.Nil) }
	an.OnBack = func(st *flow.State, fr *flow.Frame, h *ssa.BasicBlock) {
		backs = append(backs, backRec{st.Clone(), fr, h, an.BackVals, an.BackPrev})
		st.SetGhost("entry", w.Nil)
	}
	exits := c.Explore(an, build)
	if fail || !c.Expect(trees[4] != nil && trees[6] != nil, "trees", "families", c.PosOf(build.Pos()), "ROAs of one address family are never added to a tree") {
		return
	}
	proved := func(st *flow.State) []*flow.Term {
		if i := st.Ghost("entry"); i != nil && i != w.Nil {
			return []*flow.Term{i}
		}
		// neither IPv4 nor IPv6
		addrs := map[*flow.Term]map[int]bool{}
		idx := map[*flow.Term]*flow.Term{}
		st.F.Lits(func(t *flow.Term, v bool) {
			x := eqNilArg(t)
			if x != nil && !v && x.Op == flow.OExtract && x.Typ != nil && x.Typ.String() == "error" && endsCall(x.Args[0], "patricia.ParseFromIPAddr") && endsCall(x.Args[0].Args[0], ").GetPrefix") {
				addrs[x.Args[0]] = map[int]bool{4: true, 6: true}
				idx[x.Args[0]] = elementOf(w, x.Args[0].Args[0].Args[0], list)
				return
			}
			if x == nil || !v || x.Op != flow.OExtract || !endsCall(x.Args[0], "patricia.ParseFromIPAddr") || !endsCall(x.Args[0].Args[0], ").GetPrefix") {
				return
			}
			if addrs[x.Args[0]] == nil {
				addrs[x.Args[0]] = map[int]bool{}
			}
			addrs[x.Args[0]][treeFamily(x.Typ)] = true
			idx[x.Args[0]] = elementOf(w, x.Args[0].Args[0].Args[0], list)
		})
		var out []*flow.Term
		for a, f := range addrs {
			if f[4] && f[6] && idx[a] != nil {
				out = append(out, idx[a])
			}
		}
		return out
	}
	for _, e := range exits {
		pos := c.Pos(e.Instr)
		if !c.Expect(e.Kind == "return" && len(e.Results) == 1, "trees", "end", pos, "the construction ends with %s", e.Kind) {
			continue
		}
		c.Expect(everyElement(an, backs, e.St, list, proved), "trees", "every ROA", pos, "a validator is made without every ROA having been added to a tree: %s", facts(e.St))
		o := e.Results[0]
		c.Expect(e.St.Path(o, "vrp") == list, "trees", "list", pos, "the positions in the trees are those of another list: %s", e.St.Path(o, "vrp"))
		for _, f := range []int{4, 6} {
			name := treeField(o.Typ, f)
			c.Expect(name != "" && e.St.Path(o, name) == trees[f], "trees", "tree kept", pos, "the tree searched for IPv%d is not the one the ROAs were added to", f)
		}
	}
}

func treeField(t types.Type, f int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if treeFamily(s.Field(i).Type()) == f {
				return s.Field(i).Name()
			}
		}
	}
	return ""
}

// frozen: list and trees of a validator are written by its construction only.
func frozen(c *Ctx, build *ssa.Function) {
	inBuild := staticReach(c.P, build)
	n := 0
	for _, fn := range moduleFuncs(c.P, "ov") {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok && strings.HasSuffix(ownerName(fa.X.Type()), "ov.OriginValidator") {
						n++
						c.Expect(inBuild[fn], "trees", "fixed", c.Pos(in), "%s changes a validator after its construction", fname(fn))
					}
					if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
						l, is := ia.X.Type().Underlying().(*types.Slice)
						if is && strings.HasSuffix(ownerName(l.Elem()), "ov.AbstractROA") {
							c.Fail("trees", "fixed", c.Pos(in), "%s replaces ROAs in a list", fname(fn))
						}
					}
				case ssa.CallInstruction:
					n := callName(x.Common())
					if strings.Contains(n, "_tree.Tree") && !isTreeCall(n, treeSearch) && !strings.Contains(n, ").Find") && !inBuild[fn] {
						c.Fail("trees", "fixed", c.Pos(in), "%s changes a tree after its construction", fname(fn))
					}
				}
			}
		}
	}
	c.Expect(n > 0, "trees", "fixed", c.PosOf(build.Pos()), "no validator is ever made")
}

// outcomeNames: the table of names says what the outcomes mean.
func outcomeNames(c *Ctx, want map[int64]string) {
	p := c.P.SSA["ov"]
	init := p.Func("init")
	got := map[int64]string{}
	if init != nil {
		for _, b := range init.Blocks {
			for _, in := range b.Instrs {
				if m, ok := in.(*ssa.MapUpdate); ok {
					k, ok1 := intConst(m.Key)
					v, ok2 := m.Value.(*ssa.Const)
					if ok1 && ok2 && v.Value != nil {
						got[k] = strings.Trim(v.Value.ExactString(), "\"")
					}
				}
			}
		}
	}
	for k, n := range want {
		c.Expect(got[k] == n, "outcomes", "name of "+n, "ov/ov.go", "the outcome %s is named %q", n, got[k])
	}
}
