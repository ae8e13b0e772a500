package main

import (
	"go/types"
	"strings"

	"verif/checker/flow"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C13",
		Technique: "predicate dataflow over SSA with loop invariants (differences of loop variables, coverage of lists by loops), store and who-may-write queries on the remembered state",
		Rule:      "No way through an RRDP fetch stores the remembered session or serial and then reports an error, and on every way that reports success, or goes on to the next element, the error of every download, parse, decode and callback is known to be nil and both lists of the document have been handed to the callback completely. When a delta is fetched facts state that a serial is known and the session is the same; its serial is the loop's counter, which starts after the known serial and grows by one, the delta is present in the notification, and the loop ends only past the current serial. A missing delta leads to the snapshot. Every element decoded by the parser is in its result. The serial stored is the current one, or the last one applied. The server's table is set after a fetch without error only, with the session and serial of that fetch, and the next fetch of the same repository starts from them.",
		Run:       runC13})
}

func runC13(c *Ctx) {
	fetchSteps(c)
	parser(c, "ParseNode", []string{"delta", "snapshot"}, true)
	rrdpInfo(c)
}

// errOf is the error a call gave.
func errOf(w *flow.World, ev *flow.Event) *flow.Term {
	if ev.Res == nil {
		return nil
	}
	if ev.Res.Op == flow.OTuple {
		return ev.Res.Args[len(ev.Res.Args)-1]
	}
	var res *types.Tuple
	switch x := ev.Instr.(type) {
	case ssa.CallInstruction:
		res = x.Common().Signature().Results()
	}
	if res == nil || res.Len() == 0 {
		return nil
	}
	if res.Len() == 1 {
		return ev.Res
	}
	return w.Extract(ev.Res, res.Len()-1, res.At(res.Len()-1).Type())
}

func fallible(ev *flow.Event) bool {
	return ev.Kind == "call" && (strings.HasSuffix(ev.Name, ".GetXML") || isCall(ev, fetchOpaque...) || isCallback(ev))
}

// document: t is a list of elements of a parsed document; gives the document text.
func parsedList(w *flow.World, data *flow.Term) (pub, wd *flow.Term) {
	return w.Extract(data, 0, nil), w.Extract(data, 1, nil)
}

func fetchSteps(c *Ctx) {
	var backs []backRec
	var tr *loopTrace
	type deltaLoop struct {
		phi *ssa.Phi
		key loopKey
		off int64
	}
	var an *flow.Analyzer
	var args []*flow.Term
	var w *flow.World
	var last, sess, cb *flow.Term // before the fetch
	deltas := map[loopKey]deltaLoop{}
	// counterOf finds the loop variable behind k, and what is added to it.
	counterOf := func(k *flow.Term) (key loopKey, p *ssa.Phi, off int64) {
		for k != nil && k.Op == flow.OConv {
			k = k.Args[0]
		}
		if k == nil {
			return
		}
		for _, key := range tr.order {
			for p := range tr.enter[key][0].Vals {
				if b, ok := p.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
					continue
				}
				if n, ok := w.Sub(k, an.PhiSym(key.fr, p), p.Type()).IsInt(); ok {
					return key, p, n
				}
			}
		}
		return
	}
	nodeOf := func(t *flow.Term) (m, k *flow.Term) { // t is the URI of a delta of the notification
		if !isRef(t, "URI") {
			return nil, nil
		}
		b := refBase(t)
		if b.Op == flow.OLookup {
			return b.Args[0], b.Args[1]
		}
		return nil, nil
	}
	isSnap := func(t *flow.Term) bool { return isRef(t, "URI") && isRef(refBase(t), "Snapshot") }
	// applied: everything in the document has been handed on.
	applied := func(st *flow.State, doc *flow.Term) (string, bool) {
		if isNil(st, cb) {
			return "", true
		}
		pub, wd := parsedList(w, doc)
		for _, x := range []struct {
			what string
			l    *flow.Term
		}{{"published", pub}, {"withdrawn", wd}} {
			if st.Entails(flow.Lit(w.OrdEq(w.Len(x.l), w.Int(0)))) {
				continue
			}
			if !everyElement(an, backs, st, x.l, func(s *flow.State) (out []*flow.Term) {
				for _, ev := range s.Events() {
					if isCallback(ev) && !ev.Old && !ev.May {
						if el := docElem(ev.Args[2], "URI"); el != nil {
							if i := elementOf(w, el, x.l); i != nil {
								out = append(out, i)
							}
						}
					}
				}
				return
			}) {
				return x.what, false
			}
		}
		return "", true
	}
	// steps checks that nothing failed on the way so far and gives the parsed documents.
	type mode struct {
		snap, delta *flow.Event
		docs        []*flow.Event
	}
	steps := func(st *flow.State, pos, what string) (m mode) {
		for _, ev := range st.Events() {
			if !fallible(ev) || ev.Old || ev.May {
				continue
			}
			if e := errOf(w, ev); e != nil {
				c.Expect(st.Entails(eqf(w, e, w.Nil)), "errors", short(stepWhat(ev))+" then "+what, pos, "the error of %s may be lost, the fetch %s: %s", short(stepWhat(ev)), what, facts(st))
			}
		}
		for _, ev := range st.Events() {
			if ev.May {
				continue
			}
			if strings.HasSuffix(ev.Name, ".GetXML") && len(ev.Args) == 2 {
				if isSnap(ev.Args[1]) {
					m.snap = ev
				} else if mm, _ := nodeOf(ev.Args[1]); mm != nil && !ev.Old {
					m.delta = ev
				}
			}
			if isCall(ev, "sync/lib.ParseNode") && !ev.Old {
				m.docs = append(m.docs, ev)
			}
		}
		return
	}
	exits, a2, _ := exploreFetch(c, func(st *flow.State, ev *flow.Event, an *flow.Analyzer, args []*flow.Term) {
		pos := c.evPos(ev)
		switch {
		case ev.Kind == "store" && (isRef(ev.Args[0], "Serial") || isRef(ev.Args[0], "SessionID")) && refBase(ev.Args[0]) == args[0]:
			st.SetGhost("stored", w.True)
		case ev.Kind == "call" && strings.HasSuffix(ev.Name, ".GetXML"):
			u := ev.Args[1]
			if isRef(u, "Path") && refBase(u) == args[0] {
				last, sess, cb = st.Path(args[0], "Serial"), st.Path(args[0], "SessionID"), st.Path(args[0], "Callback")
				return
			}
			if last == nil {
				c.Fail("source", "notification", pos, "a document is fetched before the notification: %s", u)
				return
			}
			if isSnap(u) {
				return
			}
			m, k := nodeOf(u)
			if m == nil {
				c.Fail("source", "URL", pos, "a document is fetched that is neither the notification, its snapshot nor one of its deltas: %s", u)
				return
			}
			c.Expect(holds(st, w.EqAtom(last, w.Int(0)), false) || st.Entails(flow.Neg(flow.Lit(w.OrdEq(last, w.Int(0))))), "delta", "first contact", pos, "deltas are fetched though no serial may be known: %s", facts(st))
			same := hasLit(st, func(t *flow.Term, v bool) bool {
				return v && t.Op == flow.OEq && (isRef(t.Args[0], "SessionID") && refBase(t.Args[0]) != args[0] && t.Args[1] == sess || isRef(t.Args[1], "SessionID") && refBase(t.Args[1]) != args[0] && t.Args[0] == sess)
			})
			c.Expect(same, "delta", "session", pos, "deltas are fetched though the session may have changed: %s", facts(st))
			_, present := st.Lookup(m, k, nil)
			c.Expect(st.Entails(flow.Lit(present)), "delta", "present", pos, "a delta is fetched that the notification may not list: %s", facts(st))
			// the counter
			key, p, off := counterOf(k)
			if p == nil {
				c.Fail("delta", "order", pos, "the deltas are not applied by counting from the known serial: %s", k)
				return
			}
			deltas[key] = deltaLoop{p, key, off}
			for _, r := range tr.enter[key] {
				f, ok := w.Sub(r.Vals[p], last, types.Typ[types.Int64]).IsInt()
				c.Expect(ok && f+off == 1, "delta", "first", pos, "the deltas do not start right after the known serial: %s", r.Vals[p])
			}
		}
	}, func(a *flow.Analyzer) {
		an, w = a, a.W
		args = an.ParamTerms(c.Func("sync/lib", "*RRDPSystem", "FetchRRDP"))
		tr = traceLoops(an)
		back := an.OnBack
		an.OnBack = func(st *flow.State, fr *flow.Frame, h *ssa.BasicBlock) {
			back(st, fr, h)
			backs = append(backs, backRec{st, fr, h, an.BackVals, an.BackPrev})
		}
		an.Record = func(ev *flow.Event) bool { return fallible(ev) }
		an.MaxFacts, an.MaxStates = 60, 1500
	})
	if a2 == nil {
		return
	}
	// loops go on only without error
	for _, k := range tr.order {
		for _, r := range tr.back[k] {
			pos := loopPos(c, k.h)
			m := steps(r.St, pos, "goes on")
			c.Expect(r.St.Ghost("stored") == nil, "state", "stored in a loop", pos, "the session or serial is stored before the fetch has succeeded")
			if d, ok := deltas[k]; ok {
				cur := an.PhiSym(d.key.fr, d.phi)
				n, isOne := w.Sub(r.Vals[d.phi], cur, types.Typ[types.Int64]).IsInt()
				c.Expect(isOne && n == 1, "delta", "step", pos, "the deltas are not applied one by one in order: the next serial is %s", r.Vals[d.phi])
				done := false
				for _, doc := range m.docs {
					if src := docSource(doc); m.delta != nil && src == m.delta.Args[1] {
						_, kk := nodeOf(src)
						if f, is := w.Sub(kk, cur, types.Typ[types.Int64]).IsInt(); is && f == d.off {
							what, ok := applied(r.St, doc.Res)
							done = true
							c.Expect(ok, "delta", "complete", pos, "the next delta is taken before all %s elements of this one are handed on: %s", what, facts(r.St))
						}
					}
				}
				c.Expect(done, "delta", "none skipped", pos, "the next delta is taken though this one was not applied: %s", facts(r.St))
			}
		}
	}
	succ, bad := 0, 0
	for _, e := range exits {
		pos := c.Pos(e.Instr)
		if e.Kind != "return" {
			c.Fail("errors", "exit", pos, "the fetch ends in %s", e.Kind)
			continue
		}
		st := e.St
		if st.NonNil(e.Results[0]) {
			bad++
			c.Expect(st.Ghost("stored") == nil, "state", "stored on failure", pos, "the session or serial is stored though the fetch fails: %s", facts(st))
			// a missing delta is no failure
			var miss *flow.Term
			lits(st, func(t *flow.Term, v bool) {
				if !v && t.Op == flow.OLookupOk && t.Args[0].Op == flow.OMake {
					miss = t
				}
			})
			anyErr := false
			for _, ev := range st.Events() {
				if fallible(ev) {
					if x := errOf(w, ev); x != nil && st.NonNil(x) {
						anyErr = true
					}
				}
			}
			if miss != nil && !anyErr && !fetchedSnap(st, isSnap) {
				c.Expect(covered(tr, st, miss, last), "snapshot", "missing delta", pos, "a missing delta makes the fetch fail instead of using the snapshot: %s", facts(st))
			}
			continue
		}
		succ++
		m := steps(st, pos, "succeeds")
		serial, session := st.Path(args[0], "Serial"), st.Path(args[0], "SessionID")
		c.Expect(isRef(session, "SessionID") && refBase(session) != args[0], "state", "session", pos, "after a successful fetch the session is not that of the notification: %s", session)
		if m.snap != nil {
			c.Expect(serial == rootSerial(w, session), "state", "serial of a snapshot", pos, "after the snapshot the serial is not the current one: %s", serial)
			done := false
			for _, doc := range m.docs {
				if src := docSource(doc); src == m.snap.Args[1] {
					done = true
					what, ok := applied(st, doc.Res)
					c.Expect(ok, "snapshot", "complete", pos, "the fetch succeeds though not all %s elements of the snapshot are handed on: %s", what, facts(st))
				}
			}
			c.Expect(done, "snapshot", "parsed", pos, "the fetch succeeds without the snapshot's elements")
			continue
		}
		if len(deltas) == 0 {
			c.Fail("delta", "loop", pos, "deltas are never applied")
			continue
		}
		for key, d := range deltas {
			k := w.Add(an.PhiSym(key.fr, d.phi), w.Int(d.off), types.Typ[types.Int64])
			cur := rootSerial(w, session)
			c.Expect(cur != nil && st.EntailsAny([]*flow.Term{cur}, func(t []*flow.Term) flow.Formula { return flow.Lit(w.OrdLt(t[0], k)) }), "delta", "all applied", pos, "the fetch succeeds before the delta of the current serial is applied: %s", facts(st))
			ok := false
			if kk, p := tr.phiOf(an, serial); p != nil && kk == key {
				ok = true
				for _, r := range append(append([]backRec{}, tr.enter[key]...), tr.back[key]...) {
					n, is := w.Sub(r.Vals[d.phi], r.Vals[p], types.Typ[types.Int64]).IsInt()
					ok = ok && is && n+d.off == 1
				}
			} else if n, is := w.Sub(k, serial, types.Typ[types.Int64]).IsInt(); is && n == 1 {
				ok = true
			} else if cur != nil && serial == cur {
				ok = st.Entails(flow.Lit(w.OrdLe(last, cur)))
			}
			c.Expect(ok, "state", "serial of deltas", pos, "after deltas the serial is not that of the last one applied: %s: %s", serial, facts(st))
		}
	}
	c.Expect(succ > 0 && bad > 0, "state", "outcomes", "", "a fetch never succeeds or never fails (%d, %d)", succ, bad)
	c.AtLeast("delta", 5)
	c.AtLeast("snapshot", 1)
}

func stepWhat(ev *flow.Event) string {
	if isCallback(ev) {
		return "the callback"
	}
	return ev.Name
}

func fetchedSnap(st *flow.State, isSnap func(*flow.Term) bool) bool {
	for _, ev := range st.Events() {
		if strings.HasSuffix(ev.Name, ".GetXML") && len(ev.Args) == 2 && isSnap(ev.Args[1]) {
			return true
		}
	}
	return false
}

// docSource is the URL of the document a parse read.
func docSource(doc *flow.Event) *flow.Term {
	t := strip(doc.Args[0])
	if t.Op == flow.OExtract && t.Aux == "0" && t.Args[0].Op == flow.OCall && strings.HasSuffix(t.Args[0].Aux, ".GetXML") && len(t.Args[0].Args) == 2 {
		return t.Args[0].Args[1]
	}
	return nil
}

// rootSerial is the serial next to the session of a notification.
func rootSerial(w *flow.World, session *flow.Term) *flow.Term {
	b := refBase(session)
	if b == nil || b.Typ == nil {
		return nil
	}
	t := b.Typ
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "Serial" {
			return w.Field(b, "Serial", st.Field(i).Type())
		}
	}
	return nil
}

// covered: a loop before has found every delta from the one after the known serial up to the one that is missing here.
func covered(tr *loopTrace, st *flow.State, miss, last *flow.Term) bool {
	an := st.An()
	w := an.W
	m, k := miss.Args[0], miss.Args[1]
	for _, key := range tr.order {
		for p := range tr.enter[key][0].Vals {
			if b, ok := p.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
				continue
			}
			q := an.PhiSym(key.fr, p)
			ok := q != k
			for _, r := range tr.enter[key] {
				n, is := w.Sub(r.Vals[p], last, p.Type()).IsInt()
				ok = ok && is && n <= 1
			}
			for _, r := range tr.back[key] {
				n, is := w.Sub(r.Vals[p], q, p.Type()).IsInt()
				_, present := r.St.Lookup(m, q, nil)
				ok = ok && is && n == 1 && r.St.Entails(flow.Lit(present))
			}
			if ok && st.Entails(flow.Lit(w.OrdLt(k, q))) {
				return true
			}
		}
	}
	return false
}

// loopPos is a place in a loop.
func loopPos(c *Ctx, h *ssa.BasicBlock) string {
	for _, in := range h.Instrs {
		if p := c.Pos(in); p != "" && p != "-" {
			return p
		}
	}
	return c.PosOf(h.Parent().Pos())
}

// rrdpInfo: the table of servers.
func rrdpInfo(c *Ctx) {
	fetch := c.Func("sync/lib", "*RRDPSystem", "FetchRRDP")
	if fetch == nil {
		return
	}
	writers := map[*ssa.Function]bool{}
	for _, fn := range moduleFuncs(c.P) {
		hit := false
		calls(fn, func(in ssa.CallInstruction, n string) { hit = hit || in.Common().StaticCallee() == fetch })
		if !hit {
			continue
		}
		an := c.NewAnalyzer()
		an.Opaque = func(g *ssa.Function) bool { return g == fetch }
		args := an.ParamTerms(fn)
		w := an.W
		n, kept := 0, 0
		an.MaxFacts = 40
		fetched := func(st *flow.State) *flow.Event {
			for _, e := range st.Events() {
				if e.Name == flow.FuncName(fetch) && !e.May {
					return e
				}
			}
			return nil
		}
		an.Record = func(ev *flow.Event) bool { return ev.Name == flow.FuncName(fetch) }
		var startKey *flow.Term
		an.OnEvent = func(st *flow.State, ev *flow.Event) {
			pos := c.evPos(ev)
			if ev.Name == flow.FuncName(fetch) {
				n++
				sys := ev.Args[0]
				ser, ses := st.Path(sys, "Serial"), st.Path(sys, "SessionID")
				ok := isRef(ser, "Serial") && isRef(ses, "SessionID") && refBase(ser) == refBase(ses)
				if ok {
					b := refBase(ser)
					ok = b.Op == flow.OLookup && isRef(b.Args[0], "RRDPInfo") && refBase(b.Args[0]) == args[0]
					if ok {
						startKey = b.Args[1]
					}
				}
				c.Expect(ok, "kept", "start of "+fname(fn), pos, "a fetch does not start from the session and serial kept for its repository: %s, %s", ses, ser)
			}
			if ev.Kind == "mapset" && isRef(ev.Args[0], "RRDPInfo") {
				kept++
				writers[ev.Frame.Fn] = true
				f := fetched(st)
				if f == nil {
					c.Fail("kept", "after the fetch", pos, "the state kept for later runs is set before the fetch")
					return
				}
				c.Expect(st.Entails(eqf(w, f.Res, w.Nil)), "kept", "after success", pos, "the state kept for later runs is set though the fetch may have failed: %s", facts(st))
				c.Expect(ev.Args[1] == startKey, "kept", "key", pos, "the state is kept under another name than it is looked up: %s, %s", ev.Args[1], startKey)
				val := ev.Args[2]
				for _, x := range []string{"SessionID", "Serial"} {
					got := st.Path(val, x)
					c.Expect(got != nil && got == st.Path(f.Args[0], x), "kept", x, pos, "the %s kept for later runs is not that of the fetch: %s", x, got)
				}
			}
		}
		c.Explore(an, fn)
		c.Expect(n > 0, "kept", "fetch in "+fname(fn), c.PosOf(fn.Pos()), "the fetch in %s is never reached", fname(fn))
	}
	storesField2(c.P, "sync/lib.RRDPSystem", func(fn *ssa.Function, in *ssa.Store, field string) {
		if field != "Serial" && field != "SessionID" {
			return
		}
		fa, _ := in.Addr.(*ssa.FieldAddr)
		ok := fn == fetch || fn.Parent() == fetch || fa != nil && rootAlloc(fa.X)
		for g := range staticCallers(c.P, fn) {
			ok = ok || g == fetch
		}
		c.Expect(ok, "state", "writer "+fname(fn), c.Pos(in), "%s changes the %s of a fetch", fname(fn), field)
	})
	load := func(fn *ssa.Function) bool { return false }
	for _, u := range fieldUses(c.P, octoT, "OctoRPKI", "RRDPInfo") {
		x, ok := u.Instr.(*ssa.MapUpdate)
		if !ok || x.Map != u.Val {
			continue
		}
		c.Expect(writers[u.Fn] || load(u.Fn), "kept", "writer "+fname(u.Fn), c.Pos(x), "%s changes the state kept for later runs outside a fetch", fname(u.Fn))
	}
}
