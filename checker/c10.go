package main

import (
	"fmt"
	"go/types"
	"strings"

	"verif/checker/flow"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C10",
		Technique: "work-list invariants over SSA (per-iteration effects at loop back edges, element-wise loop coverage, visited-set discipline), decision table of the identifier function, table-key and child-link rules",
		Rule:      "In InvalidateObject the work list starts with the given key; every round takes one key from it and either finds it marked as done in a set made by the call, or marks it, deletes it from the tables of valid objects, ROAs, manifests and CRLs, and puts the identifier of every child of the object with that key on the list; the method ends only when the list is used up, keys are marked only in rounds that delete them, and nothing but those table entries is touched. A certificate's identifier is its key identifier, a ROA's and a manifest's that of its certificate, and these are the keys under which they are put into the tables; every accepted certificate is a child of its issuer, and no child is ever taken off.",
		Note:      "Termination: every round that puts something on the list marks a new key, keys are those of objects reached through children, a finite set.",
		Run:       runC10})
}

const getIdN = "(*validator/pki.Resource).GetIdentifier"

var validTables = []string{"ValidObjects", "ValidROA", "ValidManifest", "ValidCRL"}

func runC10(c *Ctx) {
	invalidateWorklist(c)
	identifiers(c)
	objectKeys(c)
	childLinked(c)
	childsKept(c)
}

type loopKey struct {
	fr *flow.Frame
	h  *ssa.BasicBlock
}

// loopTrace collects the first and the next values of loop variables.
type loopTrace struct {
	enter map[loopKey][]backRec
	back  map[loopKey][]backRec
	order []loopKey
	fed   map[*flow.Term]bool // loop variables whose additions reach a list followed by grownFrom
}

func traceLoops(an *flow.Analyzer) *loopTrace {
	t := &loopTrace{enter: map[loopKey][]backRec{}, back: map[loopKey][]backRec{}, fed: map[*flow.Term]bool{}}
	an.OnEnter = func(st *flow.State, fr *flow.Frame, h *ssa.BasicBlock) {
		k := loopKey{fr, h}
		if len(t.enter[k]) == 0 {
			t.order = append(t.order, k)
		}
		t.enter[k] = append(t.enter[k], backRec{st, fr, h, an.BackVals, an.BackPrev})
	}
	an.OnBack = func(st *flow.State, fr *flow.Frame, h *ssa.BasicBlock) {
		k := loopKey{fr, h}
		t.back[k] = append(t.back[k], backRec{st, fr, h, an.BackVals, an.BackPrev})
	}
	return t
}

// phiOf finds the loop variable a symbol stands for.
func (t *loopTrace) phiOf(an *flow.Analyzer, sym *flow.Term) (loopKey, *ssa.Phi) {
	for _, k := range t.order {
		for p := range t.enter[k][0].Vals {
			if an.PhiSym(k.fr, p) == sym {
				return k, p
			}
		}
	}
	return loopKey{}, nil
}

// grownFrom: t is the list base with nothing but additions, possibly made by inner loops;
// gives the bases it may come from.
func (tr *loopTrace) grownFrom(an *flow.Analyzer, t, stop *flow.Term, depth int) ([]*flow.Term, bool) {
	if depth > 8 {
		return nil, false
	}
	if t == stop {
		return []*flow.Term{t}, true
	}
	if t.Op == flow.OAppend {
		tr.fed[t.Args[1]] = true
		return tr.grownFrom(an, t.Args[0], stop, depth+1)
	}
	if k, p := tr.phiOf(an, t); p != nil {
		tr.fed[t] = true
		for _, r := range tr.back[k] {
			n := r.Vals[p]
			for n.Op == flow.OAppend {
				n = n.Args[0]
			}
			if n != t {
				return nil, false
			}
		}
		var out []*flow.Term
		for _, r := range tr.enter[k] {
			b, ok := tr.grownFrom(an, r.Vals[p], stop, depth+1)
			if !ok {
				return nil, false
			}
			out = append(out, b...)
		}
		return out, true
	}
	return []*flow.Term{t}, true
}

func invalidateWorklist(c *Ctx) {
	fn := c.Func("validator/pki", "*Validator", "InvalidateObject")
	if fn == nil {
		return
	}
	an := c.NewAnalyzer()
	an.AssumeDeref = true
	an.MaxFacts = 40
	an.Opaque = opaque(getIdN)
	args := an.ParamTerms(fn)
	v, keyid := args[0], args[1]
	w := an.W
	tr := traceLoops(an)
	an.Record = func(ev *flow.Event) bool {
		return ev.Kind == "mapset" || ev.Kind == "mapdel" || ev.Kind == "append"
	}
	table := func(m *flow.Term) string {
		for _, t := range validTables {
			if isField(m, t) && m.FieldBase() == v {
				return t
			}
		}
		return ""
	}
	type mark struct {
		key *flow.Term
		pos string
	}
	var marked []mark
	dealt := map[*flow.Term]bool{}
	an.OnEvent = func(st *flow.State, ev *flow.Event) {
		pos := c.evPos(ev)
		switch ev.Kind {
		case "mapdel":
			c.Expect(table(ev.Args[0]) != "" || flow.FreshAddr(ev.Args[0]), "scope", "removal", pos, "invalidation removes from a table other than those of valid objects: %s", ev.Args[0])
		case "mapset":
			marked = append(marked, mark{strip(ev.Args[1]), pos})
			c.Expect(flow.FreshAddr(ev.Args[0]), "scope", "insertion", pos, "invalidation inserts into a table: %s", ev.Args[0])
		case "store":
			c.Expect(flow.FreshAddr(ev.Args[0]), "scope", "write", pos, "invalidation writes %s", ev.Args[0])
		case "go", "defer":
			c.Fail("scope", ev.Kind, pos, "part of the invalidation is put off (%s)", short(ev.Name))
		}
	}
	exits := c.Explore(an, fn)

	// the loop whose rounds delete
	type style struct {
		kind string // front, back, index
		p    *ssa.Phi
		ip   *ssa.Phi
	}
	deleted := func(st *flow.State) (key *flow.Term, all bool) {
		keys := map[*flow.Term]map[string]bool{}
		for _, ev := range st.Events() {
			if ev.Kind == "mapdel" && !ev.Old && !ev.May {
				if t := table(ev.Args[0]); t != "" {
					k := strip(ev.Args[1])
					if keys[k] == nil {
						keys[k] = map[string]bool{}
					}
					keys[k][t] = true
				}
			}
		}
		if len(keys) != 1 {
			for k, ts := range keys {
				if len(ts) > 0 {
					key = k
				}
			}
			return key, false
		}
		for k, ts := range keys {
			return k, len(ts) == len(validTables)
		}
		return nil, false
	}
	// how a round takes its key off the list
	taken := func(r backRec, key *flow.Term) (s style, ok bool) {
		key = strip(key)
		if key.Op != flow.OIndex {
			return s, false
		}
		for p, next := range r.Vals {
			P := an.PhiSym(r.Fr, p)
			if key.Args[0] != P {
				continue
			}
			bases, ok := tr.grownFrom(an, next, P, 0)
			if !ok || len(bases) == 0 {
				return s, false
			}
			for _, b := range bases {
				k := ""
				switch {
				case b == P:
					// an index that goes up by one each round
					for ip, inext := range r.Vals {
						I := an.PhiSym(r.Fr, ip)
						if b, isB := ip.Type().Underlying().(*types.Basic); isB && b.Info()&types.IsInteger != 0 && key.Args[1] == I {
							if d, isI := w.Sub(inext, I, types.Typ[types.Int]).IsInt(); isI && d == 1 {
								k, s.ip = "index", ip
							}
						}
					}
				case b.Op == flow.OSlice && b.Args[0] == P:
					lo, hi := b.Args[1], b.Args[2]
					zero := func(t *flow.Term) bool { n, ok := t.IsInt(); return ok && n == 0 || t.Op == flow.ONil }
					last := w.Sub(w.Len(P), w.Int(1), types.Typ[types.Int])
					one := func(t *flow.Term) bool { n, ok := t.IsInt(); return ok && n == 1 }
					if zero(key.Args[1]) && one(lo) && (hi.Op == flow.ONil || hi == w.Len(P)) {
						k = "front"
					}
					if key.Args[1] == last && zero(lo) && hi == last {
						k = "back"
					}
				}
				if k == "" || s.kind != "" && s.kind != k {
					return s, false
				}
				s.kind, s.p = k, p
			}
			return s, true
		}
		return s, false
	}
	// marked: the fresh set the key is looked up in
	marks := func(st *flow.State, key *flow.Term, val bool) bool {
		return hasLit(st, func(t *flow.Term, v bool) bool {
			return v == val && (t.Op == flow.OLookup || t.Op == flow.OLookupOk) && flow.FreshAddr(t.Args[0]) && strip(t.Args[1]) == key
		})
	}
	n := 0
	var outer loopKey
	var how style
	for _, k := range tr.order {
		for _, r := range tr.back[k] {
			if key, _ := deleted(r.St); key != nil {
				if _, ok := taken(r, key); ok {
					outer = k
				}
			}
		}
	}
	if outer.h == nil {
		c.Fail("rounds", "work list", c.PosOf(fn.Pos()), "no loop takes keys off a list and deletes them from the tables of valid objects")
		return
	}
	for _, r := range tr.back[outer] {
		st := r.St
		pos := c.PosOf(fn.Pos())
		key, all := deleted(st)
		n++
		if key == nil {
			// a round that does nothing: the key was dealt with before
			var cur *flow.Term
			lits(st, func(t *flow.Term, val bool) {
				if val && (t.Op == flow.OLookup || t.Op == flow.OLookupOk) && flow.FreshAddr(t.Args[0]) {
					if s, ok := taken(r, strip(t.Args[1])); ok {
						cur = strip(t.Args[1])
						how = s
					}
				}
			})
			c.Expect(cur != nil, "rounds", "skipped", pos, "a key is skipped without having been dealt with before in this call: %s", facts(st))
			c.Expect(!setsFresh(st), "marks", "skipped", pos, "a key is marked as dealt with in a round that does not delete it")
			continue
		}
		s, ok := taken(r, key)
		if !c.Expect(ok, "rounds", "taken", pos, "what is deleted is not the key taken off the list in this round: %s", key) {
			continue
		}
		if how.kind != "" && how.kind != s.kind {
			c.Fail("rounds", "order", pos, "rounds take keys off the list in different ways")
			continue
		}
		how = s
		dealt[key] = true
		c.Expect(all, "rounds", "tables", pos, "a round does not delete its key, and no other, from all of %s", strings.Join(validTables, ", "))
		// children
		obj := st.Path(v, "Objects")
		if obj == nil {
			c.Fail("rounds", "objects", pos, "the table of objects is not found")
			return
		}
		res, has := st.Lookup(obj, w.StrOf(key), nil)
		if !holds(st, has, false) && !isNil(st, res) {
			childs := pathOf(st, res, "Childs")
			done := childs != nil && everyElement(an, allBacks(tr), st, childs, func(s *flow.State) []*flow.Term {
				return pushedChildren(an, tr, s, childs)
			})
			c.Expect(done, "children", "every child", pos, "a key is dealt with without putting the identifier of every child of its object on the list: %s", facts(st))
			marked := false
			for _, ev := range st.Events() {
				if ev.Kind == "mapset" && !ev.Old && !ev.May && flow.FreshAddr(ev.Args[0]) && strip(ev.Args[1]) == key && st.Entails(truth(w, ev.Args[2])) {
					marked = true
				}
			}
			c.Expect(marked && marks(st, key, false), "ends", "marked", pos, "a key is dealt with without being marked, or without having been found unmarked: a cycle of certificates would be followed for ever")
		}
	}
	if how.p == nil {
		c.Fail("rounds", "style", c.PosOf(fn.Pos()), "how keys are taken off the list is not recognised")
		return
	}
	for _, m := range marked {
		c.Expect(dealt[m.key], "marks", "other key", m.pos, "a key other than the one dealt with in this round is marked: %s", m.key)
	}
	P := an.PhiSym(outer.fr, how.p)
	for _, r := range tr.enter[outer] {
		pos := c.PosOf(fn.Pos())
		first := r.Vals[how.p]
		e := r.St.At(first, w.Int(0), keyid.Typ)
		ok := e != nil && strip(e) == keyid || first.Op == flow.OAppend && first.Args[1].Op == flow.OSliceLit && len(first.Args[1].Args) == 1 && strip(first.Args[1].Args[0]) == keyid || first.Op == flow.OSliceLit && len(first.Args) == 1 && strip(first.Args[0]) == keyid
		one := r.St.Entails(flow.Lit(w.OrdLe(w.Int(1), w.Len(first)))) || first.Op == flow.OAppend
		if how.kind == "index" {
			n, isI := r.Vals[how.ip].IsInt()
			one = one && isI && n == 0
		}
		c.Expect(ok && one, "rounds", "first key", pos, "the list does not start with the key to invalidate: %s", first)
		c.Expect(!setsFresh(r.St), "marks", "before the loop", pos, "a key is marked as dealt with before anything is deleted")
	}
	for _, e := range exits {
		if e.Kind != "return" {
			continue
		}
		var end *flow.Term
		if how.kind == "index" {
			end = w.OrdLe(w.Len(P), an.PhiSym(outer.fr, how.ip))
		} else {
			end = w.OrdLe(w.Len(P), w.Int(0))
		}
		c.Expect(e.St.Entails(flow.Lit(end)), "rounds", "used up", c.Pos(e.Instr), "the method returns while keys are left on the list: %s", facts(e.St))
	}
	c.Expect(n > 1, "rounds", "analysed", c.PosOf(fn.Pos()), "no round of invalidation was analysed")
}

func truth(w *flow.World, t *flow.Term) flow.Formula {
	if t.Typ != nil {
		if b, ok := t.Typ.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			return flow.Lit(t)
		}
	}
	return flow.Lit(w.True)
}

func allBacks(tr *loopTrace) (out []backRec) {
	for _, k := range tr.order {
		out = append(out, tr.back[k]...)
	}
	return
}

// setsFresh: something is put into a set made by the call.
func setsFresh(st *flow.State) bool {
	for _, ev := range st.Events() {
		if ev.Kind == "mapset" && !ev.Old && flow.FreshAddr(ev.Args[0]) {
			return true
		}
	}
	return false
}

// pushedChildren: indexes of the children that have no identifier or whose identifier was
// appended to a list kept in a loop variable.
func pushedChildren(an *flow.Analyzer, tr *loopTrace, st *flow.State, childs *flow.Term) (out []*flow.Term) {
	w := an.W
	child := func(t *flow.Term, k int) *flow.Term {
		t = strip(t)
		if t.Op == flow.OExtract && t.Args[0].Op == flow.OCall && isCallTerm(t.Args[0], getIdN) && t.Aux == fmt.Sprint(k) {
			return elementOf(w, t.Args[0].Args[0], childs)
		}
		return nil
	}
	lits(st, func(t *flow.Term, val bool) {
		if !val {
			if i := child(t, 0); i != nil {
				out = append(out, i)
			}
		}
	})
	for k := range tr.back {
		for _, r := range tr.back[k] {
			if r.St != st {
				continue
			}
			for p, next := range r.Vals {
				if next.Op == flow.OAppend && tr.fed[next.Args[0]] && next.Args[0] == an.PhiSym(r.Fr, p) && next.Args[1].Op == flow.OSliceLit && len(next.Args[1].Args) == 1 {
					if i := child(next.Args[1].Args[0], 1); i != nil {
						out = append(out, i)
					}
				}
			}
		}
	}
	return
}

// identifiers: the decision table of GetIdentifier.
func identifiers(c *Ctx) {
	fn := c.Func("validator/pki", "*Resource", "GetIdentifier")
	if fn == nil {
		return
	}
	an := c.NewAnalyzer()
	an.AssumeDeref = true
	args := an.ParamTerms(fn)
	seen := map[string]bool{}
	for _, e := range c.Explore(an, fn) {
		if e.Kind != "return" || len(e.Results) != 2 {
			continue
		}
		st := e.St
		res := st.Path(args[0], "Resource")
		typ := ""
		not := map[string]bool{}
		lits(st, func(t *flow.Term, val bool) {
			if t.Op == flow.OTypeIs && strip(t.Args[0]) == strip(res) {
				n := short(t.Typ.String())
				if val {
					typ = n
				} else {
					not[n] = true
				}
			}
		})
		want := map[string][]string{
			"*validator/lib.RPKICertificate": {"Certificate", "SubjectKeyId"},
			"*validator/lib.RPKIROA":         {"Certificate", "Certificate", "SubjectKeyId"},
			"*validator/lib.RPKIManifest":    {"Certificate", "Certificate", "SubjectKeyId"},
		}
		if st.Entails(flow.Lit(e.Results[0])) {
			path := want[typ]
			seen[typ] = true
			x := strip(e.Results[1])
			ok := path != nil
			for i := len(path) - 1; ok && i >= 0; i-- {
				ok = isRef(x, path[i])
				x = refBase(x)
			}
			c.Expect(ok && x != nil && x.Op == flow.OAssert && strip(x.Args[0]) == strip(res), "identifier", "of "+typ, c.Pos(e.Instr), "the identifier given for %s is not that of the object's certificate: %s", typ, e.Results[1])
			continue
		}
		for t := range want {
			c.Expect(not[t], "identifier", "none for "+t, c.Pos(e.Instr), "a %s can be without an identifier, so that it would stay valid when its issuer is invalidated: %s", t, facts(st))
		}
	}
	for _, t := range []string{"*validator/lib.RPKICertificate", "*validator/lib.RPKIROA", "*validator/lib.RPKIManifest"} {
		c.Expect(seen[t], "identifier", "has "+t, c.PosOf(fn.Pos()), "no identifier is ever given for %s", t)
	}
}

// objectKeys: objects are put into the tables under the identifier that invalidation deletes.
func objectKeys(c *Ctx) {
	type entry struct {
		fn     string
		param  int
		path   []string
		tables []string
	}
	for _, e := range []entry{
		{"AddCert", 1, []string{"Certificate", "SubjectKeyId"}, []string{"ValidObjects", "Objects"}},
		{"AddROA", 2, []string{"Certificate", "Certificate", "SubjectKeyId"}, []string{"ValidROA"}},
		{"AddManifest", 2, []string{"Certificate", "Certificate", "SubjectKeyId"}, []string{"ValidManifest"}},
	} {
		e := e
		fn := c.Func("validator/pki", "*Validator", e.fn)
		if fn == nil || len(fn.Params) <= e.param {
			continue
		}
		an := c.NewAnalyzer()
		an.AssumeDeref = true
		names := append(append([]string{}, containmentFns...), pathFns...)
		if e.fn != "AddCert" {
			names = append(names, "(*validator/pki.Validator).AddCert")
		}
		an.Opaque = opaque(names...)
		args := an.ParamTerms(fn)
		an.Record = func(ev *flow.Event) bool { return ev.Kind == "mapset" }
		n := 0
		an.OnEvent = func(st *flow.State, ev *flow.Event) {
			if ev.Kind != "mapset" {
				return
			}
			for _, t := range e.tables {
				if isField(ev.Args[0], t) && ev.Args[0].FieldBase() == args[0] {
					n++
					id := st.Path(args[e.param], e.path...)
					c.Expect(id != nil && an.W.Shape(strip(ev.Args[1])) == an.W.Shape(strip(id)), "keys", t, c.evPos(ev), "an object is put into %s under %s, not the key identifier under which it is invalidated", t, ev.Args[1])
				}
			}
		}
		for _, x := range c.Explore(an, fn) {
			if e.fn != "AddCert" || x.Kind != "return" || x.St.Excludes(flow.Lit(x.Results[0])) {
				continue
			}
			// the object found when invalidating is the one reported valid
			var val, obj *flow.Term
			for _, ev := range x.St.Events() {
				if ev.Kind == "mapset" && !ev.May && isField(ev.Args[0], "ValidObjects") {
					val = ev.Args[2]
				}
				if ev.Kind == "mapset" && !ev.May && isField(ev.Args[0], "Objects") {
					obj = ev.Args[2]
				}
			}
			c.Expect(val != nil && val == obj, "keys", "same object", c.Pos(x.Instr), "a valid certificate is not recorded in the table in which invalidation looks for its children")
		}
		c.Expect(n > 0, "keys", e.fn, c.PosOf(fn.Pos()), "%s never records a valid object", e.fn)
	}
}

// childsKept: the list of children of an object only grows.
func childsKept(c *Ctx) {
	t := c.P.Named("validator/pki", "Resource")
	if t == nil {
		c.Fail("anchor", "Resource", "", "type pki.Resource is not found")
		return
	}
	n := 0
	storesField(c.P, "validator/pki", "Resource", "Childs", func(fn *ssa.Function, in *ssa.Store, addr *ssa.FieldAddr) {
		if rootAlloc(addr) {
			return
		}
		n++
		ok := false
		if call, isC := in.Val.(*ssa.Call); isC && callName(call.Common()) == "builtin.append" {
			if ld, isL := call.Common().Args[0].(*ssa.UnOp); isL {
				if fa, isF := ld.X.(*ssa.FieldAddr); isF && fieldOf(fa, t) == "Childs" && fa.X == addr.X {
					ok = true
				}
			}
		}
		c.Expect(ok, "linked", "children kept in "+fname(fn), c.Pos(in), "the list of children of an object is replaced by something else than itself with an addition")
	})
	c.Expect(n > 0, "linked", "children", "", "no child is ever recorded")
}
