package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"verif/checker/flow"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C21",
		Technique: "path-sensitive dataflow over every filter of payload lists (what each round of its loop keeps and drops, with the facts it is known under), over the list generation and over the choice and order of the filters",
		Rule:      "A filter is a loop over all entries of its input in order that only adds unchanged entries to a new list. A duplicate filter keeps an entry in exactly the rounds in which its key is not in the set of keys seen, and adds the key; the key determines prefix, max length and AS number. A length filter keeps an entry in exactly the rounds in which its prefix is IPv4 with at most 24 bits or IPv6 with at most 48. The list generation adds an entry for each entry inside the certificate's resources of each valid ROA of each trust anchor; what it publishes went through a duplicate filter, through a length filter exactly when the filter option is on, and through nothing else.",
		Note:      "The text form of a payload and its parser are those of the vendored prefixfile package.",
		Run:       runC21})
}

// payloadList: a slice of payloads.
func payloadList(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && strings.HasSuffix(ownerName(s.Elem()), "prefixfile.ROAJson")
}

func isPayload(t types.Type) bool {
	return t != nil && strings.HasSuffix(ownerName(t), "prefixfile.ROAJson")
}

// payloadFilters are the functions from a payload list to a payload list that have a loop of their own.
func payloadFilters(P *flow.Program) (out []*ssa.Function) {
	for _, fn := range moduleFuncs(P, octoT) {
		if filterShape(fn) {
			out = append(out, fn)
		}
	}
	return
}

func filterShape(fn *ssa.Function) bool {
	sig := fn.Signature
	if sig.Results().Len() != 1 || !payloadList(sig.Results().At(0).Type()) {
		return false
	}
	n := 0
	for _, p := range fn.Params {
		if payloadList(p.Type()) {
			n++
		}
		if _, ok := p.Type().Underlying().(*types.Signature); ok {
			return false // judged where it is given the function
		}
	}
	if n != 1 {
		return false
	}
	if hasLoop(fn) {
		return true
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			g := call.Call.StaticCallee()
			if g == nil || !hasLoop(g) {
				continue
			}
			for _, p := range g.Params {
				if _, ok := p.Type().Underlying().(*types.Signature); ok {
					return true
				}
			}
		}
	}
	return false
}

func hasLoop(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return true
			}
		}
	}
	return false
}

// filterKind is what a filter does.
type filterKind struct {
	dedup, length bool
}

// judgeFilter decides what a filter does and reports where it does something else.
func judgeFilter(c *Ctx, fn *ssa.Function) filterKind {
	an := c.NewAnalyzer()
	args := an.ParamTerms(fn)
	var list *flow.Term
	for i, p := range fn.Params {
		if payloadList(p.Type()) {
			list = args[i]
		}
	}
	w := an.W
	name := fn.Name()
	an.Record = func(ev *flow.Event) bool { return false }
	type round struct {
		r     backRec
		idx   *flow.Term
		kept  bool
		fresh bool // kept as the first with its key, or dropped as another
		size  int  // 1: of accepted length, -1: of another, 0: unknown
		pos   string
	}
	var rounds []round
	reset := func(st *flow.State) {
		st.SetGhost("kept", w.False)
		st.SetGhost("keyed", w.False)
	}
	// payload of a term: by value or through a pointer
	payload := func(st *flow.State, t *flow.Term) *flow.Term {
		t = strip(t)
		if t == nil {
			return nil
		}
		if i := elementOf(w, t, list); i != nil {
			return i
		}
		if t.Typ != nil {
			if _, ok := t.Typ.Underlying().(*types.Pointer); ok && isPayload(t.Typ) {
				return elementOf(w, st.Load(t, t.Typ.Underlying().(*types.Pointer).Elem()), list)
			}
		}
		return nil
	}
	an.OnEvent = func(st *flow.State, ev *flow.Event) {
		switch ev.Kind {
		case "append":
			if !payloadList(ev.Args[0].Typ) {
				return
			}
			if ev.Args[1].Op != flow.OSliceLit || len(ev.Args[1].Args) != 1 || payload(st, ev.Args[1].Args[0]) == nil {
				c.Fail("filter", name+" keeps", c.evPos(ev), "%s adds something other than an unchanged entry of its input: %s", name, ev.Args[1])
				return
			}
			i := payload(st, ev.Args[1].Args[0])
			if st.Ghost("kept") != nil && st.Ghost("kept") != w.False {
				c.Fail("filter", name+" twice", c.evPos(ev), "%s adds two entries in one round", name)
			}
			st.SetGhost("kept", i)
		case "mapset":
			m, k := ev.Args[0], ev.Args[1]
			absent := hasLit(st, func(t *flow.Term, v bool) bool { return !v && seenIn(st, t, m, k) })
			idx := keyOf(st, k, payload)
			marks := ev.Args[2].Typ == nil || !isBool(ev.Args[2].Typ) || strip(ev.Args[2]) == w.True
			if absent && idx != nil && marks {
				st.SetGhost("keyed", idx)
			}
		case "store":
			a := ev.Args[0]
			if a.Op == flow.OIndexAddr && payloadList(a.Args[0].Typ) || entryField(a) && a.Op == flow.OFieldAddr && a.Any(func(x *flow.Term) bool { return x == list }) {
				c.Fail("filter", name+" changes", c.evPos(ev), "%s changes an entry: %s", name, a)
			}
		}
	}
	an.OnEnter = func(st *flow.State, fr *flow.Frame, h *ssa.BasicBlock) { reset(st) }
	an.OnBack = func(st *flow.State, fr *flow.Frame, h *ssa.BasicBlock) {
		r := backRec{St: st.Clone(), Fr: fr, H: h, Vals: an.BackVals, Prev: an.BackPrev}
		// the entry of this round: what was kept, or the one at the loop's index
		rd := round{r: r, pos: c.PosOf(fn.Pos())}
		if k := st.Ghost("kept"); k != nil && k != w.False {
			rd.kept, rd.idx = true, k
		}
		rounds = append(rounds, rd)
		reset(st)
	}
	exits := c.Explore(an, fn)
	kind := filterKind{true, true}
	if !c.Expect(len(rounds) > 0, "filter", name+" rounds", c.PosOf(fn.Pos()), "%s has no loop", name) {
		return filterKind{}
	}
	// one counter for all rounds
	var ctr *counter
	for _, r := range rounds {
		if r.kept {
			if k, ok := elementCounter(an, r.idx, r.r); ok {
				ctr = &k
			}
		}
	}
	if !c.Expect(ctr != nil, "filter", name+" loop", c.PosOf(fn.Pos()), "%s does not visit its input in order", name) {
		return filterKind{}
	}
	dedupAll, lengthAll := true, true
	keptN, droppedN := 0, 0
	for _, r := range rounds {
		i := w.Add(an.PhiSym(ctr.fr, ctr.phi), w.Int(ctr.delta), types.Typ[types.Int])
		st := r.r.St
		if r.r.H != ctr.phi.Block() || r.r.Fr != ctr.fr {
			c.Fail("filter", name+" inner loop", r.pos, "%s has a loop inside its loop that cannot be followed", name)
			return filterKind{}
		}
		if r.kept && r.idx != i {
			c.Fail("filter", name+" keeps", r.pos, "%s keeps another entry than that of the round", name)
		}
		if k, ok := r.r.Vals[ctr.phi]; !ok || w.Sub(k, an.PhiSym(ctr.fr, ctr.phi), types.Typ[types.Int]) != w.Int(1) {
			c.Fail("filter", name+" loop", r.pos, "%s does not go on with the next entry: %v", name, k)
		}
		if r.kept {
			keptN++
			dedupAll = dedupAll && st.Ghost("keyed") == i
			lengthAll = lengthAll && lengthOf(st, i, payload) == 1
		} else {
			droppedN++
			dedupAll = dedupAll && hasLit(st, func(t *flow.Term, v bool) bool {
				if !v {
					return false
				}
				_, k := seenKey(st, t)
				return k != nil && keyOf(st, k, payload) == i
			})
			lengthAll = lengthAll && lengthOf(st, i, payload) == -1
		}
	}
	c.Expect(keptN > 0 && droppedN > 0, "filter", name+" decides", c.PosOf(fn.Pos()), "%s keeps or drops every entry", name)
	kind = filterKind{dedupAll, lengthAll}
	var why []string
	for _, r := range rounds {
		what := "drops"
		if r.kept {
			what = "keeps"
		}
		why = append(why, what+" an entry where "+facts(r.r.St))
	}
	c.Expect(kind.dedup || kind.length, "filter", name, c.PosOf(fn.Pos()), "%s neither removes exactly the duplicates nor exactly the prefixes longer than /24 or /48: it %s", name, strings.Join(why, "; "))
	for _, e := range exits {
		if e.Kind != "return" {
			c.Fail("filter", name+" ends", c.Pos(e.Instr), "%s may end with %s", name, e.Kind)
			continue
		}
		c.Expect(ctr.exhausted(e.St, list), "filter", name+" complete", c.Pos(e.Instr), "%s may return before it has seen every entry", name)
	}
	for _, b := range fn.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			for _, o := range origins(c.P, fn, r.Results[0]) {
				ok := emptyList(o.V)
				if call, is := o.V.(*ssa.Call); is {
					bi, isB := call.Call.Value.(*ssa.Builtin)
					ok = isB && bi.Name() == "append"
					if ok {
						for _, o2 := range origins(c.P, o.Fn, call.Call.Args[0]) {
							c2, is := o2.V.(*ssa.Call)
							ok = ok && (emptyList(o2.V) || is && c2 == call || is && isAppend(c2))
						}
					}
				}
				c.Expect(ok, "filter", name+" result", c.Pos(r), "%s returns something other than the entries it kept: %s", name, o.V)
			}
		}
	}
	return kind
}

func isAppend(c *ssa.Call) bool {
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "append"
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// seenKey: the literal says that a key is in a map; gives both.
func seenKey(st *flow.State, t *flow.Term) (m, k *flow.Term) {
	t = strip(t)
	if (t.Op == flow.OLookupOk || t.Op == flow.OLookup) && len(t.Args) >= 2 {
		return t.Args[0], t.Args[1]
	}
	return nil, nil
}

func seenIn(st *flow.State, t, m, k *flow.Term) bool {
	tm, tk := seenKey(st, t)
	return tm != nil && tm == m && strip(tk) == strip(k)
}

// keyOf: the index of the payload that the key is made of, if it determines prefix, length and AS number.
func keyOf(st *flow.State, k *flow.Term, payload func(*flow.State, *flow.Term) *flow.Term) *flow.Term {
	k = strip(k)
	if k == nil {
		return nil
	}
	if isCallTerm(k, "prefixfile.ROAJson).String") || k.Op == flow.OCall && strings.HasSuffix(k.Aux, "prefixfile.ROAJson).String") {
		return payload(st, k.Args[0])
	}
	if i := payload(st, k); i != nil {
		return i
	}
	var idx *flow.Term
	have := map[string]bool{}
	bad := false
	k.Sub(func(x *flow.Term) {
		n, base := fieldRef(x)
		if base == nil {
			return
		}
		if i := payload(st, base); i != nil {
			if idx != nil && idx != i {
				bad = true
			}
			idx = i
			have[n] = true
		}
	})
	if bad || !have["Prefix"] || !have["Length"] || !have["ASN"] {
		return nil
	}
	if k.Op == flow.OStruct {
		return idx
	}
	// text: the parts are separated
	sep := 0
	k.Sub(func(x *flow.Term) {
		if s, ok := x.IsStr(); ok && s != "" {
			sep += strings.Count(strings.Trim(s, "%vds"), "") - 1
		}
	})
	if sep < 2 {
		return nil
	}
	return idx
}

// lengthOf: 1 when the prefix of the entry is known to be IPv4 up to /24 or IPv6 up to /48, -1 when it is known not to be.
func lengthOf(st *flow.State, i *flow.Term, payload func(*flow.State, *flow.Term) *flow.Term) int {
	w := st.W()
	family := 0 // 4 or 6
	var lens []*flow.Term
	mine := func(t *flow.Term) bool {
		return t.Any(func(x *flow.Term) bool {
			if n, base := fieldRef(x); n == "Prefix" && base != nil && payload(st, base) == i {
				return true
			}
			return x.Op == flow.OCall && strings.Contains(x.Aux, "prefixfile.ROAJson).GetPrefix") && payload(st, x.Args[0]) == i
		})
	}
	set := func(v4 bool) {
		f := 6
		if v4 {
			f = 4
		}
		if family != 0 && family != f {
			family = -1
			return
		}
		family = f
	}
	lits(st, func(t *flow.Term, v bool) {
		if x := eqNilArg(t); x != nil && isCallTerm(x, "(net.IP).To4") && mine(x) {
			set(!v)
		}
		if t.Op == flow.OCall && strings.HasSuffix(t.Aux, "netip.Addr).Is4") && mine(t) {
			set(v)
		}
	})
	sizes := map[*flow.Term]bool{}
	st.F.Terms(func(t *flow.Term) {
		t.Sub(func(x *flow.Term) {
			if x.Op == flow.OExtract || x.Op == flow.OCall {
				sizes[x] = true
			}
		})
	})
	for t := range sizes {
		if !mine(t) {
			continue
		}
		if t.Op == flow.OExtract || t.Op == flow.OCall {
			c := t
			if t.Op == flow.OExtract {
				c = t.Args[0]
			}
			if isCallTerm(c, "(net.IPMask).Size") && t.Op == flow.OExtract {
				if t == w.Extract(c, 0, t.Typ) {
					lens = append(lens, t)
				} else if st.Entails(flow.Lit(w.OrdEq(t, w.Int(32)))) || st.Excludes(flow.Lit(w.OrdEq(t, w.Int(128)))) {
					set(true)
				} else if st.Entails(flow.Lit(w.OrdEq(t, w.Int(128)))) || st.Excludes(flow.Lit(w.OrdEq(t, w.Int(32)))) {
					set(false)
				}
			}
			if c.Op == flow.OCall && strings.HasSuffix(c.Aux, "netip.Prefix).Bits") {
				lens = append(lens, t)
			}
		}
	}
	limit := int64(24)
	switch family {
	case 4:
	case 6:
		limit = 48
	default:
		return 0
	}
	for _, l := range lens {
		if st.Entails(flow.Lit(w.OrdLe(l, w.Int(limit)))) {
			return 1
		}
		if st.Entails(flow.Lit(w.OrdLe(w.Int(limit+1), l))) {
			return -1
		}
	}
	return 0
}

func runC21(c *Ctx) {
	gen := genListFn(c)
	if gen == nil {
		return
	}
	reach := staticReach(c.P, gen)
	kinds := map[string]filterKind{}
	opaqueFilter := map[*ssa.Function]bool{}
	var names []string
	for _, fn := range payloadFilters(c.P) {
		if !reach[fn] {
			continue
		}
		opaqueFilter[fn] = true
		k := judgeFilter(c, fn)
		kinds[flow.FuncName(fn)] = k
		s := fn.Name()
		if k.dedup {
			s += " removes duplicates"
		}
		if k.length {
			s += " removes long prefixes"
		}
		names = append(names, s)
	}
	sort.Strings(names)
	c.Sample("filters: %s", strings.Join(names, ", "))
	an := c.NewAnalyzer()
	op := opaque("(*validator/pki.PKIFile).ComputePath", "(*sync/lib.LocalFetch).GetFileConv")
	an.Opaque = func(g *ssa.Function) bool { return op(g) || opaqueFilter[g] }
	args := an.ParamTerms(gen)
	w := an.W
	an.Record = func(ev *flow.Event) bool { return false }
	type table struct {
		m, ok *flow.Term
	}
	tables := map[loopKey]table{}
	var lists []*flow.Term
	listed := map[*flow.Term]bool{}
	an.OnEvent = func(st *flow.State, ev *flow.Event) {
		switch {
		case ev.Kind == "next":
			tables[loopKey{ev.Frame, ev.Instr.Block()}] = table{ev.Args[0], ev.Res}
		case ev.Kind == "append" && payloadList(ev.Args[0].Typ) && ev.Args[1].Op != flow.OSliceLit:
			st.SetGhost("spread", w.True)
		case ev.Kind == "append" && payloadList(ev.Args[0].Typ):
			for _, el := range ev.Args[1].Args {
				pref := st.Path(el, "Prefix")
				if !isCallTerm(pref, "(*net.IPNet).String") || !isRef(pref.Args[0], "IPNet") {
					continue
				}
				if l, i := loopElem(refBase(pref.Args[0])); l != nil {
					st.SetGhost("entry", i)
					if !listed[l] {
						listed[l] = true
						lists = append(lists, l)
					}
				}
			}
		}
	}
	var backs []backRec
	an.OnEnter = func(st *flow.State, fr *flow.Frame, h *ssa.BasicBlock) {
		st.SetGhost("entry", w.Nil)
	}
	an.OnBack = func(st *flow.State, fr *flow.Frame, h *ssa.BasicBlock) {
		backs = append(backs, backRec{st.Clone(), fr, h, an.BackVals, an.BackPrev})
		st.SetGhost("entry", w.Nil)
	}
	exits := c.Explore(an, gen)
	var pub *flow.Term
	for _, e := range exits {
		if e.Kind != "return" {
			continue
		}
		pos := c.Pos(e.Instr)
		data := e.St.Path(e.Results[0], "Data")
		pub = e.Results[0]
		var dedup, length bool
		t := data
		n := 0
		for t != nil && t.Op == flow.OCall && kindOf(kinds, t) != nil {
			k := kindOf(kinds, t)
			dedup = dedup || k.dedup
			length = length || k.length
			n++
			var next *flow.Term
			for _, a := range t.Args {
				if a.Typ != nil && payloadList(a.Typ) {
					next = a
				}
			}
			t = next
		}
		whole := t != nil && (t.Op == flow.OSym || t.Op == flow.OAppend || t.Op == flow.OMake || t.Op == flow.OSlice && isFresh0(t))
		c.Expect(whole, "published", "whole list", pos, "what is published is not the list made from the valid ROAs: %s", t)
		c.Expect(dedup, "published", "duplicates", pos, "a list is published without having been through a duplicate filter: %s", data)
		on := hasLit(e.St, func(t *flow.Term, v bool) bool { return v && isRef(t, "Filter") && refBase(t) == args[0] })
		off := hasLit(e.St, func(t *flow.Term, v bool) bool { return !v && isRef(t, "Filter") && refBase(t) == args[0] })
		c.Expect(on == length && off != on, "published", "long prefixes", pos, "a list is published with filtering on %v, off %v, and long prefixes removed %v: %s", on, off, length, facts(e.St))
	}
	// every entry of every valid ROA of every trust anchor
	if !c.Expect(pub != nil && len(lists) > 0, "complete", "entries", c.PosOf(gen.Pos()), "no entry is ever added to the list") {
		return
	}
	proved := func(st *flow.State) []*flow.Term {
		if i := st.Ghost("entry"); i != nil && i != w.Nil {
			return []*flow.Term{i}
		}
		return nil
	}
	// the additions reach the list
	for _, r := range backs {
		if len(proved(r.St)) == 0 {
			continue
		}
		ok := r.St.Ghost("spread") != nil || spreads(backs)
		if d := r.St.Path(pub, "Data"); d != nil && d.Op == flow.OAppend {
			ok = true
		}
		for p, v := range r.Vals {
			if payloadList(p.Type()) && v.Op == flow.OAppend {
				ok = true
			}
		}
		c.Expect(ok, "complete", "addition", c.PosOf(firstPos(r.H)), "an entry is added to a list that is not kept: %s", r.St.Path(pub, "Data"))
	}
	roaLoops, talLoops := 0, 0
	tableOf := func(m *flow.Term) (string, *flow.Term, *flow.Term) {
		name, vb := fieldRef(m)
		if vb == nil || !isRef(vb, "Validator") {
			return "", nil, nil
		}
		l, i := loopElem(refBase(vb))
		return name, l, i
	}
	for _, r := range backs {
		t, ok := tables[loopKey{r.Fr, r.H}]
		if !ok {
			continue
		}
		if name, _, _ := tableOf(t.m); name != "ValidROA" {
			continue
		}
		roaLoops++
		done := false
		for _, l := range lists {
			done = done || everyElement(an, backs, r.St, l, proved)
		}
		c.Expect(done, "complete", "entries of a ROA", c.PosOf(firstPos(r.H)), "a valid ROA is passed over without all its entries having been added to the list: %s", facts(r.St))
	}
	// trust anchors: each round ends with all its valid ROAs seen
	seenTable := func(st *flow.State) []*flow.Term {
		var out []*flow.Term
		for _, t := range tables {
			if name, l, i := tableOf(t.m); name == "ValidROA" && l == args[1] && st.Excludes(flow.Lit(t.ok)) {
				out = append(out, i)
			}
		}
		return out
	}
	for _, e := range exits {
		if e.Kind != "return" {
			continue
		}
		talLoops++
		tals := e.St.Path(args[0], "Tals")
		c.Expect(everyElement(an, backs, e.St, tals, seenTable) || everyElement(an, backs, e.St, args[1], seenTable), "complete", "trust anchors", c.Pos(e.Instr), "the list is published without the valid ROAs of every trust anchor having been seen: %s", facts(e.St))
	}
	c.Expect(roaLoops > 0 && talLoops > 0, "complete", "loops", c.PosOf(gen.Pos()), "the list is not made by a loop over the valid ROAs (%d, %d)", roaLoops, talLoops)
	// nothing is thrown away in between
	for fn := range reach {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok && payloadList(x.Val.Type()) && listObject(fa.X.Type()) {
						c.Expect(!(inCycle(b) && emptyList(x.Val)), "complete", "list kept in "+fname(fn), c.Pos(in), "%s empties the list while it is being made", fname(fn))
					}
				case *ssa.Phi:
					if payloadList(x.Type()) && fn == gen {
						for i, e := range x.Edges {
							c.Expect(!(emptyList(e) && b.Dominates(b.Preds[i])), "complete", "list kept in "+fname(fn), c.Pos(in), "%s empties the list while it is being made", fname(fn))
						}
					}
				}
			}
		}
	}
}

func spreads(backs []backRec) bool {
	for _, r := range backs {
		if r.St.Ghost("spread") != nil {
			return true
		}
	}
	return false
}

// isFresh0: the empty list made at the beginning.
func isFresh0(t *flow.Term) bool {
	n, ok := t.Args[len(t.Args)-1].IsInt()
	return flow.FreshAddr(t.Args[0]) && ok && n == 0
}

func firstPos(b *ssa.BasicBlock) (p token.Pos) {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	return b.Parent().Pos()
}

func kindOf(kinds map[string]filterKind, t *flow.Term) *filterKind {
	for n, k := range kinds {
		if t.Aux == n {
			return &k
		}
	}
	return nil
}
