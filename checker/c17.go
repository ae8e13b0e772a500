package main

import (
	"go/token"
	"go/types"
	"slices"
	"strings"

	"verif/checker/flow"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C17",
		Technique: "typestate of job queue and wait group over interprocedural dataflow, with worker functions analysed where they are started; loop-coverage and counting rules on the loops that start workers and send jobs; call-site enumeration",
		Rule:      "In both fetching parts of a round: workers are started by one loop whose iterations start exactly one worker each and run from the first to the last of the configured number, which is at least one; each is counted in a wait group before it starts. A worker takes jobs from the queue until it is closed, calls the retrieval at most once per job and in its own goroutine, and signals the wait group exactly once when it ends. A loop over (a copy of) the whole job table sends each entry exactly once on that queue, the queue is then closed exactly once, nothing is sent afterwards, and the part ends only after waiting for that wait group. The round loop runs both parts one after the other in its own goroutine, and no other code retrieves anything.",
		Note:      "Fairness of the Go scheduler is assumed; that a retrieval ends is C15.",
		Run:       runC17})
}

func runC17(c *Ctx) {
	loop := loopFn(c)
	if loop == nil {
		return
	}
	parts := map[*ssa.Function]string{}
	var order []*ssa.Function
	for _, n := range []string{fetchRRDPFn, runRsyncFn} {
		ps := roundParts(c, loop, n)
		c.Expect(len(ps) == 1, "round", "part "+n, c.PosOf(loop.Pos()), "the round loop has %d parts that call %s", len(ps), n)
		for _, p := range ps {
			if parts[p] == "" {
				order = append(order, p)
			}
			parts[p] = n
		}
	}
	sites := map[ssa.Instruction]bool{}
	for _, p := range order {
		c17Part(c, p, parts[p], sites)
	}
	for _, n := range []string{fetchRRDPFn, runRsyncFn} {
		fns, ss := siteFns(c, n)
		for i, s := range ss {
			c.Expect(sites[s], "sites", fname(fns[i])+" "+n, c.Pos(s), "%s retrieves outside the workers", fname(fns[i]))
		}
	}
	c.AtLeast("sites", 2)
	// the parts run in the round's own goroutine
	rounds := roundFns(c, loop)
	for _, fn := range moduleFuncs(c.P) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				g, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				f := g.Common().StaticCallee()
				if f == nil || parts[f] == "" {
					continue
				}
				_, plain := in.(*ssa.Call)
				c.Expect(plain && rounds[fn], "round", "call of "+fname(f), c.Pos(in), "%s runs a fetching part of a round beside the round loop", fname(fn))
			}
		}
	}
	c17Loops(c, loop)
	c17Workers(c)
}

// c17Loops: there is one round loop.
func c17Loops(c *Ctx, loop *ssa.Function) {
	n := 0
	for _, fn := range moduleFuncs(c.P) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if g, ok := in.(ssa.CallInstruction); ok && g.Common().StaticCallee() == loop {
					n++
					c.Expect(!inCycle(b), "round", "loop started", c.Pos(in), "%s may start several round loops", fname(fn))
				}
			}
		}
	}
	c.Expect(n == 1, "round", "loops", c.PosOf(loop.Pos()), "the round loop is started at %d places", n)
}

func inCycle(b *ssa.BasicBlock) bool { return reachableBlock(b, b) }

func c17Part(c *Ctx, root *ssa.Function, target string, sites map[ssa.Instruction]bool) {
	label := fname(root)
	var w *flow.World
	isRetrieval := func(ev *flow.Event) bool {
		return ev.Kind == "call" && isCall(ev, fetchRRDPFn, runRsyncFn)
	}
	goes, sends, closes, waits := 0, 0, 0, 0
	spawn := map[loopKey]bool{}
	var chans []*flow.Term
	var groups []*flow.Term
	sameOf := func(list *[]*flow.Term, t *flow.Term) bool {
		t = strip(t)
		for _, x := range *list {
			if x == t {
				return true
			}
		}
		*list = append(*list, t)
		return len(*list) == 1
	}
	p := explorePool(c, root, func(p *pool, st *flow.State, ev *flow.Event) {
		w = p.an.W
		pos := c.evPos(ev)
		wf, depth := workerFrame(ev.Frame)
		switch {
		case ev.Kind == "go":
			if ev.Fn != nil && c.P.InModule(ev.Fn) {
				if wf != nil {
					c.Expect(!retrieves(c, ev.Fn), "workers", label+": nested", pos, "%s starts a retrieval in a goroutine of its own", short(flow.FuncName(wf.Fn)))
					return
				}
				if !retrieves(c, ev.Fn) {
					return
				}
				goes++
				st.SetGhost("started", w.True)
				st.SetGhost("done", w.False)
				st.SetGhost("drained", w.False)
				ok := st.Ghost("added") == w.True || st.Ghost("addedAll") == w.True
				c.Expect(ok, "joined", label+": counted", pos, "a worker is started without having been counted in the wait group: %s", facts(st))
				st.SetGhost("added", w.False)
				c.Expect(workerBound(c, p, st, ev), "workers", label+": number", pos, "the number of workers started is not known to be at most the configured number: %s", facts(st))
			}
		case ev.Kind == "recv":
			if wf == nil {
				if len(chans) > 0 && strip(ev.Args[0]) == chans[0] {
					c.Fail("jobs", label+": taken", pos, "the part takes jobs from its own queue: %s", facts(st))
				}
				return
			}
			c.Expect(sameOf(&chans, ev.Args[0]), "jobs", label+": queue", pos, "a worker takes jobs from another queue: %s", ev.Args[0])
			v, more := ev.Res, w.False
			if v.Op == flow.OTuple {
				v, more = v.Args[0], v.Args[1]
			}
			st.SetGhost("job", v)
			st.SetGhost("more", more)
			st.SetGhost("handled", w.False)
		case isRetrieval(ev):
			sites[ev.Instr] = true
			c.Expect(wf != nil && depth == 1, "workers", label+": retrieval", pos, "a retrieval runs outside a worker: %s", facts(st))
			c.Expect(st.Ghost("handled") == w.False, "jobs", label+": once", pos, "a job is retrieved more than once, or without having been taken: %s", facts(st))
			st.SetGhost("handled", w.True)
		case ev.Kind == "send":
			if ev.Args[0].Typ == nil || !isQueue(ev.Args[0], chans) {
				if wf != nil {
					return
				}
			}
			sends++
			c.Expect(wf == nil, "jobs", label+": sender", pos, "a worker sends jobs itself")
			c.Expect(sameOf(&chans, ev.Args[0]), "jobs", label+": queue", pos, "a job is sent on another queue: %s", ev.Args[0])
			c.Expect(st.Ghost("closed") != w.True, "closed", label+": send", pos, "a job may be sent after the queue is closed: %s", facts(st))
		case ev.Kind == "close":
			if !isQueue(ev.Args[0], chans) && len(chans) > 0 {
				return
			}
			closes++
			c.Expect(wf == nil, "closed", label+": by worker", pos, "a worker closes the queue")
			c.Expect(st.Ghost("closed") != w.True, "closed", label+": twice", pos, "the queue may be closed twice: %s", facts(st))
			st.SetGhost("closed", w.True)
		case ev.Kind == "call" && isCall(ev, "(*sync.WaitGroup).Add"):
			if wf != nil {
				c.Fail("joined", label+": counted", pos, "a worker counts itself, the part may then not wait for it")
				return
			}
			sameOf(&groups, ev.Args[0])
			if n, ok := ev.Args[1].IsInt(); ok && n == 1 {
				c.Expect(st.Ghost("added") != w.True, "joined", label+": counted twice", pos, "a worker is counted twice: %s", facts(st))
				st.SetGhost("added", w.True)
			} else {
				st.SetGhost("addedAll", w.True)
				c.Expect(configured(c, ev.Args[1]), "joined", label+": count", pos, "the wait group is not given the configured number of workers: %s", ev.Args[1])
			}
		case ev.Kind == "call" && isCall(ev, "(*sync.WaitGroup).Done"):
			if wf == nil {
				c.Fail("joined", label+": signal", pos, "the part signals the end of a worker itself")
				return
			}
			c.Expect(sameOf(&groups, ev.Args[0]), "joined", label+": group", pos, "a worker signals another wait group: %s", ev.Args[0])
			c.Expect(st.Ghost("done") == w.False, "joined", label+": signal", pos, "a worker signals its end twice: %s", facts(st))
			st.SetGhost("done", w.True)
		case ev.Kind == "call" && isCall(ev, "(*sync.WaitGroup).Wait"):
			if wf != nil {
				c.Fail("joined", label+": wait", pos, "a worker waits for the workers")
				return
			}
			waits++
			c.Expect(sameOf(&groups, ev.Args[0]), "joined", label+": group", pos, "the part waits for another wait group: %s", ev.Args[0])
			c.Expect(st.Ghost("closed") == w.True, "joined", label+": wait", pos, "the part waits for its workers before the queue is closed: %s", facts(st))
			st.SetGhost("waited", w.True)
		}
	}, func(p *pool, r backRec) {
		st := r.St
		wf := workerOf(r.Fr)
		// the loop that starts the workers
		if wf == nil {
			n, may := 0, false
			for _, ev := range st.Events() {
				if ev.Kind == "go" && !ev.Old && retrieves(c, ev.Fn) && p.an.InLoop(ev.Instr, ev.Frame, r.Fr, r.H) {
					n++
					may = may || ev.May
				}
			}
			if n == 0 && !startsWorkers(c, p, r) {
				return
			}
			k := loopKey{r.Fr, r.H}
			spawn[k] = true
			c.Expect(n == 1 && !may, "workers", label+": one per turn", loopPos(c, r.H), "a turn of the loop that starts workers starts %d: %s", n, facts(st))
			c.Expect(st.Ghost("done") == p.an.W.True, "joined", label+": signal", loopPos(c, r.H), "a worker may end without signalling it: %s", facts(st))
			c.Expect(st.Ghost("drained") != nil && st.Ghost("more") != nil && st.Excludes(flow.Lit(st.Ghost("more"))), "jobs", label+": until closed", loopPos(c, r.H), "a worker may end before the queue is closed: %s", facts(st))
			return
		}
		// the loop that takes the jobs
		if takesJobs(p, r) {
			c.Expect(st.Ghost("job") != nil, "jobs", label+": taken", loopPos(c, r.H), "a turn of a worker takes no job")
		}
	})
	if w == nil {
		return
	}
	c.Expect(goes > 0 && sends > 0 && closes > 0 && waits > 0, "round", label+": found", c.PosOf(root.Pos()), "the part starts no worker, sends no job, does not close its queue or does not wait (%d, %d, %d, %d)", goes, sends, closes, waits)
	c.Expect(len(spawn) == 1, "workers", label+": loops", c.PosOf(root.Pos()), "the part starts its workers in %d loops", len(spawn))
	n := 0
	for _, e := range p.exits {
		if e.Kind != "return" {
			continue
		}
		if off := optionVar(c.P, octoT, "rrdp"); target == fetchRRDPFn && off != nil && e.St.Ghost("started") == nil && optionIs(e.St, off, false) {
			continue // the part is switched off
		}
		n++
		pos := c.Pos(e.Instr)
		c.Expect(e.St.Ghost("closed") == w.True, "closed", label, pos, "the part ends without closing its queue: %s", facts(e.St))
		c.Expect(e.St.Ghost("waited") == w.True, "joined", label, pos, "the part ends without waiting for its workers: %s", facts(e.St))
		c.Expect(allStarted(c, p, e.St, spawn), "workers", label+": all", pos, "the part goes on without having started the configured number of workers: %s", facts(e.St))
		ok := false
		for _, l := range p.loops {
			f, _ := fieldRef(l.m)
			if f == "" || flow.FreshAddr(l.m) {
				continue
			}
			ok = ok || p.everyKey(e.St, l.m, func(st *flow.State, k loopKey, key, val *flow.Term) bool {
				_, ok := p.sentOnce(st, k, key)
				return ok
			}, 0)
		}
		c.Expect(ok, "jobs", label+": all", pos, "the part ends without having sent every job exactly once: %s", facts(e.St))
	}
	c.Expect(n > 0, "round", label+": ends", c.PosOf(root.Pos()), "the part never ends")
}

func isQueue(t *flow.Term, chans []*flow.Term) bool {
	for _, x := range chans {
		if x == strip(t) {
			return true
		}
	}
	return len(chans) == 0
}

// retrieves: the function leads to a retrieval.
func retrieves(c *Ctx, fn *ssa.Function) bool {
	if fn == nil {
		return false
	}
	for _, n := range []string{fetchRRDPFn, runRsyncFn} {
		fns, _ := siteFns(c, n)
		r := staticReach(c.P, fn)
		for _, f := range fns {
			if r[f] {
				return true
			}
		}
	}
	return false
}

// takesJobs: the loop receives.
func takesJobs(p *pool, r backRec) bool {
	for b := range p.an.LoopBlocks(r.Fr.Fn, r.H) {
		for _, in := range b.Instrs {
			if u, ok := in.(*ssa.UnOp); ok && u.Op == token.ARROW {
				return true
			}
		}
	}
	return false
}

// startsWorkers: the loop contains, itself or through what it calls, a go statement of a worker.
func startsWorkers(c *Ctx, p *pool, r backRec) bool {
	for b := range p.an.LoopBlocks(r.Fr.Fn, r.H) {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Go:
				if f := x.Call.StaticCallee(); retrieves(c, f) {
					return true
				}
			case *ssa.Call:
				if f := x.Call.StaticCallee(); f != nil && retrieves(c, f) {
					return true
				}
			}
		}
	}
	return false
}

// configured: the number is the value of the option for concurrent retrievals.
func configured(c *Ctx, t *flow.Term) bool {
	g := optionVar(c.P, octoT, "max_concurrent_retrievals")
	for t != nil {
		t = strip(t)
		if g != nil && isOptionTerm(t, g) {
			return true
		}
		if t.Op == flow.OConv && len(t.Args) > 0 {
			t = t.Args[0]
			continue
		}
		return false
	}
	return false
}

// numberTerms are the terms for the configured number in a state.
func numberTerms(c *Ctx, st *flow.State) (out []*flow.Term) {
	seen := map[*flow.Term]bool{}
	st.F.Terms(func(t *flow.Term) {
		t.Sub(func(x *flow.Term) {
			if !seen[x] && configured(c, x) {
				seen[x] = true
				out = append(out, x)
			}
		})
	})
	return
}

// workerBound: at the start of a worker fewer than the configured number have been started.
func workerBound(c *Ctx, p *pool, st *flow.State, ev *flow.Event) bool {
	w := p.an.W
	intT := types.Typ[types.Int]
	// the innermost loop around the go statement or around the call that leads to it
	in, fr := ev.Instr, ev.Frame
	for fr != nil {
		for _, h := range fr.Fn.Blocks {
			if p.an.LoopBlocks(fr.Fn, h)[in.Block()] {
				for _, i := range h.Instrs {
					ph, ok := i.(*ssa.Phi)
					if !ok {
						break
					}
					b, isB := ph.Type().Underlying().(*types.Basic)
					if !isB || b.Info()&types.IsInteger == 0 {
						continue
					}
					from, down, ok := stepOf(ph)
					if !ok {
						continue
					}
					cur := p.an.PhiSym(fr, ph)
					if down {
						// counts from the number down to 1
						if st.Entails(flow.Lit(w.OrdLe(w.Int(1), cur))) && initialIs(c, fr, ph) {
							return true
						}
						continue
					}
					for _, n := range numberTerms(c, st) {
						// from <= i < from+n; the range form counts before the test
						if st.Entails(flow.Lit(w.OrdLt(w.Add(cur, w.Int(-from), intT), n))) {
							return true
						}
					}
				}
				return false
			}
		}
		in, fr = fr.Call, fr.Parent
		if in == nil {
			break
		}
	}
	return false
}

// stepOf: the loop variable goes up from a constant or down from something.
func stepOf(ph *ssa.Phi) (from int64, down, ok bool) {
	up := false
	for i, e := range ph.Edges {
		if ph.Block().Dominates(ph.Block().Preds[i]) {
			b, isBin := e.(*ssa.BinOp)
			if !isBin || b.X != ph {
				return
			}
			k, isK := intConst(b.Y)
			if !isK || k != 1 {
				return
			}
			switch b.Op {
			case token.ADD:
				up = true
			case token.SUB:
				down = true
			default:
				return
			}
			continue
		}
		if k, isK := intConst(e); isK {
			from = k
		} else {
			from = 0
		}
	}
	return from, down, up != down
}

// throughCalls follows a value through conversions and parameters up the frames, to the option it
// is read from if it is one.
func throughCalls(fr *flow.Frame, v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.Convert:
			v = x.X
			continue
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.Parameter:
			if fr.Parent == nil {
				return v
			}
			call, ok := fr.Call.(ssa.CallInstruction)
			if !ok || call.Common().IsInvoke() {
				return v
			}
			i := slices.Index(fr.Fn.Params, x)
			if i < 0 || i >= len(call.Common().Args) {
				return v
			}
			v, fr = call.Common().Args[i], fr.Parent
			continue
		}
		return v
	}
}

// initialIs: the loop variable starts at the number.
func initialIs(c *Ctx, fr *flow.Frame, ph *ssa.Phi) bool {
	for i, e := range ph.Edges {
		if ph.Block().Dominates(ph.Block().Preds[i]) {
			continue
		}
		g := optionVar(c.P, octoT, "max_concurrent_retrievals")
		u, ok := throughCalls(fr, e).(*ssa.UnOp)
		if !ok || g == nil || !isOption(u.X) || u.X.(*ssa.UnOp).X != ssa.Value(g) {
			return false
		}
	}
	return true
}

// allStarted: the loop that starts workers ended because the number was reached.
func allStarted(c *Ctx, p *pool, st *flow.State, spawn map[loopKey]bool) bool {
	w := p.an.W
	intT := types.Typ[types.Int]
	for k := range spawn {
		for _, i := range k.h.Instrs {
			ph, ok := i.(*ssa.Phi)
			if !ok {
				break
			}
			from, down, ok := stepOf(ph)
			if !ok {
				continue
			}
			cur := p.an.PhiSym(k.fr, ph)
			if down {
				if st.Entails(flow.Lit(w.OrdLe(cur, w.Int(0)))) {
					return true
				}
				continue
			}
			for _, n := range numberTerms(c, st) {
				for _, d := range []int64{0, 1} { // the range form ends with the last index
					if (d == 0 || from == -1) && st.Entails(flow.Lit(w.OrdLe(n, w.Add(cur, w.Int(d-max(from, 0)), intT)))) {
						return true
					}
				}
			}
		}
	}
	return false
}

// c17Workers: the configured number is at least one when the rounds start.
func c17Workers(c *Ctx) {
	g := optionVar(c.P, octoT, "max_concurrent_retrievals")
	loop := loopFn(c)
	c.Expect(g != nil, "workers", "option", "", "the option max_concurrent_retrievals is not found")
	if g == nil || loop == nil {
		return
	}
	main := c.Func(octoT, "", "main")
	if main == nil {
		return
	}
	an := c.NewAnalyzer()
	w := an.W
	an.Opaque = func(fn *ssa.Function) bool { return !touchesOption(fn, g) && !plainHelper(fn) }
	an.Record = func(ev *flow.Event) bool { return false }
	started := 0
	an.OnEvent = func(st *flow.State, ev *flow.Event) {
		if (ev.Kind == "call" || ev.Kind == "go") && ev.Fn == loop {
			started++
			ok := false
			for _, n := range append(optionTerms(st, g), st.Ghost("number")) {
				if n != nil && st.Entails(flow.Lit(w.OrdLe(w.Int(1), n))) {
					ok = true
				}
			}
			c.Expect(ok, "workers", "at least one", c.evPos(ev), "rounds start although the configured number of workers may be zero: %s", facts(st))
		}
		if ev.Kind == "store" && ev.Args[0].Op == flow.ODeref && strings.HasSuffix(ev.Args[0].String(), "."+g.Name()) {
			st.SetGhost("number", ev.Args[1])
		}
	}
	c.Explore(an, main)
	c.Expect(started > 0, "workers", "rounds", c.PosOf(main.Pos()), "main does not start the rounds")
}

// plainHelper: the function works on numbers, strings and booleans and pointers to them only.
func plainHelper(fn *ssa.Function) bool {
	plain := func(t types.Type) bool {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		_, ok := t.Underlying().(*types.Basic)
		return ok
	}
	sig := fn.Signature
	if sig.Recv() != nil || sig.Params().Len() == 0 {
		return false
	}
	for i := 0; i < sig.Params().Len(); i++ {
		if !plain(sig.Params().At(i).Type()) {
			return false
		}
	}
	for i := 0; i < sig.Results().Len(); i++ {
		if !plain(sig.Results().At(i).Type()) {
			return false
		}
	}
	return true
}

func touchesOption(fn *ssa.Function, g *ssa.Global) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if *op == g {
					return true
				}
			}
		}
	}
	return false
}

func optionTerms(st *flow.State, g *ssa.Global) (out []*flow.Term) {
	st.F.Terms(func(t *flow.Term) {
		t.Sub(func(x *flow.Term) {
			if isOptionTerm(x, g) {
				out = append(out, x)
			}
		})
	})
	return
}
