package main

import (
	"go/types"
	"strings"

	"verif/checker/flow"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C16",
		Technique: "interprocedural predicate dataflow over SSA with the workers analysed where they are started: facts at every removal from the job table, loop-coverage of the job table, call-order rules for the round loop, who-may-write query",
		Rule:      "An entry of the rsync job table is removed only inside the RRDP part of a round, by a worker, for the repository of the very job whose RRDP fetch ended, on paths where facts state that this fetch succeeded, or that it failed and failover is off or the error is the size refusal. The pair of RRDP URL and repository travels unswapped from the table of RRDP jobs to the fetch. In the rsync part of a round a loop over (a copy of) the whole job table sends every key, every job received by a worker is given to rsync unless its cache path is refused, and rsync reports success only when it was started. Every round runs the rsync part before the validation and the RRDP part only before the rsync part. The table is only filled by the validation run, for every valid certificate whose repository URL is well-formed and not in conflict with a bound domain, and is never replaced.",
		Note:      "That workers take every job that is sent is C17.",
		Run:       runC16})
}

// optionVar finds the variable of a command line option by its name.
func optionVar(P *flow.Program, pkg, name string) *ssa.Global {
	p := P.SSA[pkg]
	if p == nil {
		return nil
	}
	for _, m := range p.Members {
		g, ok := m.(*ssa.Global)
		if !ok {
			continue
		}
		if call := flagCall(g); call != nil {
			for _, a := range call.Call.Args[:min(2, len(call.Call.Args))] {
				if k, ok := a.(*ssa.Const); ok && k.Value != nil && k.Value.ExactString() == `"`+name+`"` {
					return g
				}
			}
		}
	}
	return nil
}

// optionIs: facts state the value of a boolean option.
func optionIs(st *flow.State, g *ssa.Global, v bool) bool {
	if g == nil {
		return false
	}
	return hasLit(st, func(t *flow.Term, b bool) bool { return b == v && isOptionTerm(t, g) })
}

// optionTerm: the value of the option.
func optionTerm(an *flow.Analyzer, st *flow.State, g *ssa.Global) *flow.Term {
	ptr := g.Type().(*types.Pointer).Elem()
	return st.Load(st.Load(an.Global(g), ptr), ptr.Underlying().(*types.Pointer).Elem())
}

// isOptionTerm: the term is the value of the option.
func isOptionTerm(t *flow.Term, g *ssa.Global) bool {
	t = strip(t)
	return t != nil && t.Op == flow.ODeref && t.Args[0].Op == flow.ODeref && t.Args[0].Args[0].Op == flow.OGlobal && t.Args[0].Args[0].Aux == g.Pkg.Pkg.Path()+"."+g.Name()
}

func runC16(c *Ctx) {
	loop := loopFn(c)
	if loop == nil {
		return
	}
	rrdp, rsync := roundParts(c, loop, fetchRRDPFn), roundParts(c, loop, runRsyncFn)
	c.Expect(len(rrdp) == 1 && len(rsync) == 1, "round", "parts", c.PosOf(loop.Pos()), "the round loop has %d parts that fetch over RRDP and %d that fetch over rsync", len(rrdp), len(rsync))
	if len(rrdp) != 1 || len(rsync) != 1 {
		return
	}
	visited := c16RRDP(c, rrdp[0])
	c16Rsync(c, rsync[0])
	c16Order(c, loop, rrdp[0], rsync[0])
	c16Table(c, visited, rrdp[0])
	c16Registered(c)
	c16Run(c)
}

func isJobTable(m *flow.Term) bool { return isRef(m, "rsyncFetchJobs") }

func c16RRDP(c *Ctx, root *ssa.Function) map[*ssa.Function]bool {
	failover := optionVar(c.P, octoT, "rrdp.failover")
	c.Expect(failover != nil, "removal", "failover option", "", "the option rrdp.failover is not found")
	removals, fetches := 0, 0
	keyField, urlField := "", ""
	w := (*flow.World)(nil)
	p := explorePool(c, root, func(p *pool, st *flow.State, ev *flow.Event) {
		w = p.an.W
		pos := c.evPos(ev)
		switch {
		case ev.Kind == "call" && isCall(ev, fetchRRDPFn):
			fetches++
			st.SetGhost("fetchErr", errOf(w, ev))
			url := st.Path(ev.Args[0], "Path")
			st.SetGhost("fetchURL", url)
			msg := recvOf(url)
			f := ""
			if msg != nil {
				f = fieldIn(url, msg)
			}
			c.Expect(f != "", "pair", "URL fetched", pos, "the URL of the RRDP fetch is not that of the job: %s", url)
			urlField = f
		case ev.Kind == "recv":
			st.SetGhost("fetchErr", nil)
			st.SetGhost("fetchURL", nil)
			st.SetGhost("removed", nil)
		case ev.Kind == "mapdel" && isJobTable(ev.Args[0]):
			removals++
			st.SetGhost("removed", w.True)
			key := ev.Args[1]
			err, url := st.Ghost("fetchErr"), st.Ghost("fetchURL")
			if err == nil || url == nil {
				c.Fail("removal", "without fetch", pos, "the rsync job %s is removed without an RRDP fetch for it: %s", key, facts(st))
				return
			}
			msg := recvOf(url)
			f := ""
			if msg != nil {
				f = fieldIn(key, msg)
			}
			c.Expect(f != "" && (keyField == "" || f == keyField), "removal", "repository", pos, "the rsync job removed is not that of the repository fetched over RRDP: %s", key)
			if keyField == "" {
				keyField = f
			}
			ok := st.Entails(eqf(w, err, w.Nil))
			why := "success"
			if !ok && st.NonNil(err) {
				ok = optionIs(st, failover, false) || tooLarge(st, err, true)
				why = "failed"
			}
			c.Expect(ok, "removal", "after "+why, pos, "the rsync job is removed on a path where neither the RRDP fetch is known to have succeeded, nor failover to be off, nor the reply to be refused for its size: %s", facts(st))
		case (ev.Kind == "store") && isFieldAddrOf(ev.Args[0], "rsyncFetchJobs") && !flow.FreshAddr(ev.Args[0]):
			c.Fail("removal", "table replaced", pos, "the table of rsync jobs is replaced")
		}
	}, func(p *pool, r backRec) {
		// what is not fetched by rsync although it was not removed is the other half of the rule
		err := r.St.Ghost("fetchErr")
		if wf, _ := workerFrame(r.Fr); wf == nil || err == nil || r.St.Ghost("removed") != nil {
			return
		}
		ok := r.St.NonNil(err) && optionIs(r.St, failover, true) && tooLarge(r.St, err, false)
		c.Expect(ok, "removal", "job kept", loopPos(c, r.H), "the rsync job is kept although the RRDP fetch may have succeeded, failover may be off or the reply may have been refused for its size: %s", facts(r.St))
	})
	if w == nil {
		return p.inFrom
	}
	c.Expect(removals > 0 && fetches > 0, "removal", "found", c.PosOf(root.Pos()), "the RRDP part of a round fetches nothing or never removes an rsync job (%d, %d)", fetches, removals)
	// the pair travels unswapped
	if keyField != "" && urlField != "" {
		n := 0
		for _, r := range p.backs {
			var key, val *flow.Term
			for _, ev := range r.St.Events() {
				if ev.Old || ev.May {
					continue
				}
				switch ev.Kind {
				case "next":
					key, val = ev.Args[1], ev.Args[2]
				case "send":
					n++
					u, k := partOf(w, ev.Args[1], urlField), partOf(w, ev.Args[1], keyField)
					ok := u != nil && k != nil && key != nil && u == key && (k == val || k.Op == flow.OLookup && k.Args[1] == key)
					c.Expect(ok, "pair", "sent", c.evPos(ev), "an RRDP job does not carry the URL and the repository of an entry of the table of RRDP jobs: %s", ev.Args[1])
				}
			}
		}
		c.Expect(n > 0, "pair", "sent", c.PosOf(root.Pos()), "no RRDP job is sent")
	}
	return p.inFrom
}

func isFieldAddrOf(t *flow.Term, f string) bool { return t.Op == flow.OFieldAddr && t.Aux == f }

// tooLarge: the error is that of a reply larger than the limit.
func tooLarge(st *flow.State, err *flow.Term, want bool) bool {
	return hasLit(st, func(t *flow.Term, v bool) bool {
		if v != want {
			return false
		}
		if t.Op == flow.OEq {
			for i, x := range t.Args {
				s, ok := x.IsStr()
				o := t.Args[1-i]
				if ok && s == "http: request body too large" && o.Op == flow.OCall && strings.HasSuffix(o.Aux, ".Error") && len(o.Args) == 1 && strip(o.Args[0]) == strip(err) {
					return true
				}
			}
		}
		if isCallTerm(t, "errors.As") && strip(t.Args[0]) == strip(err) {
			x := strip(t.Args[1])
			return x.Typ != nil && strings.Contains(x.Typ.String(), "net/http.MaxBytesError")
		}
		return false
	})
}

func c16Rsync(c *Ctx, root *ssa.Function) {
	runs := 0
	p := explorePool(c, root, func(p *pool, st *flow.State, ev *flow.Event) {
		switch {
		case ev.Kind == "recv":
			if w, _ := workerFrame(ev.Frame); w == nil {
				return
			}
			v := ev.Res
			if v.Op == flow.OTuple {
				st.SetGhost("more", v.Args[1])
				v = v.Args[0]
			}
			st.SetGhost("job", v)
			st.SetGhost("run", nil)
		case ev.Kind == "call" && isCall(ev, runRsyncFn):
			runs++
			job := st.Ghost("job")
			uri := ev.Args[1]
			msg := recvOf(uri)
			c.Expect(job != nil && msg == job && fieldIn(uri, msg) != "", "job", "URL", c.evPos(ev), "rsync is not given the URL of the job: %s", uri)
			st.SetGhost("run", p.an.W.True)
		case ev.Kind == "mapdel" && isJobTable(ev.Args[0]):
			c.Fail("removal", "rsync part", c.evPos(ev), "the rsync part of a round removes an rsync job: %s", facts(st))
		}
	}, func(p *pool, r backRec) {
		w := workerOf(r.Fr)
		if w == nil || r.St.Ghost("job") == nil {
			return
		}
		// only the loop that takes the jobs
		takes := false
		for b := range p.an.LoopBlocks(r.Fr.Fn, r.H) {
			for _, in := range b.Instrs {
				if u, ok := in.(*ssa.UnOp); ok && u.Op.String() == "<-" {
					takes = true
				}
			}
		}
		if !takes {
			return
		}
		if r.St.Ghost("run") == p.an.W.True {
			c.OK("job", "fetched")
			return
		}
		job := r.St.Ghost("job")
		refused := hasLit(r.St, func(t *flow.Term, v bool) bool {
			if v || t.Op != flow.OEq {
				return false
			}
			x := eqNilArg(t)
			return x != nil && x.Typ != nil && x.Typ.String() == "error" && mentionsTerm(x, job)
		})
		c.Expect(refused, "job", "fetched", loopPos(c, r.H), "a worker goes on without having run rsync for its job: %s", facts(r.St))
	})
	c.Expect(runs > 0, "job", "run", c.PosOf(root.Pos()), "the rsync part of a round never runs rsync")
	n := 0
	for _, e := range p.exits {
		if e.Kind != "return" {
			continue
		}
		n++
		ok := false
		for _, l := range p.loops {
			if isJobTable(l.m) {
				ok = ok || p.everyKey(e.St, l.m, func(st *flow.State, k loopKey, key, val *flow.Term) bool {
					_, ok := p.sentOnce(st, k, key)
					return ok
				}, 0)
			}
		}
		c.Expect(ok, "all", "rsync jobs", c.Pos(e.Instr), "the rsync part of a round ends without having sent every entry of the job table to a worker: %s", facts(e.St))
	}
	c.Expect(n > 0, "all", "rsync jobs", c.PosOf(root.Pos()), "the rsync part of a round never ends")
}

func workerOf(fr *flow.Frame) *flow.Frame { w, _ := workerFrame(fr); return w }

// c16Order: what a round does, and in which order.
func c16Order(c *Ctx, loop, rrdp, rsync *ssa.Function) {
	an := c.NewAnalyzer()
	valid := mainValidationFn(c)
	parts := map[*ssa.Function]bool{}
	rounds := roundFns(c, loop)
	for fn := range rounds {
		calls(fn, func(in ssa.CallInstruction, _ string) {
			if g := in.Common().StaticCallee(); g != nil && c.P.InModule(g) && !rounds[g] {
				parts[g] = true
			}
		})
	}
	an.Opaque = func(g *ssa.Function) bool { return parts[g] }
	an.Record = func(ev *flow.Event) bool { return false }
	w := an.W
	an.OnEvent = func(st *flow.State, ev *flow.Event) {
		if ev.Kind == "go" && (ev.Fn == rrdp || ev.Fn == rsync || ev.Fn == valid) {
			c.Fail("round", "concurrent "+fname(ev.Fn), c.evPos(ev), "a part of a round runs concurrently with the rest of it")
		}
		if ev.Kind != "call" {
			return
		}
		switch ev.Fn {
		case rrdp:
			c.Expect(st.Ghost("rsync") == nil || st.Ghost("rsync") == w.Nil, "round", "RRDP before rsync", c.evPos(ev), "RRDP is fetched after rsync in a round: jobs are then removed for a round in which they were not fetched")
		case rsync:
			st.SetGhost("rsync", w.True)
		case valid:
			c.Expect(st.Ghost("rsync") == w.True, "round", "rsync before validation", c.evPos(ev), "a validation runs without the rsync part of its round: %s", facts(st))
			st.SetGhost("rsync", w.False)
		}
	}
	an.OnBack = func(st *flow.State, fr *flow.Frame, h *ssa.BasicBlock) {
		if rounds[fr.Fn] && !innerRound(c, an, fr.Fn, h) && reachesIn(c, an.LoopBlocks(fr.Fn, h), valid) && st.Ghost("rsync") != nil {
			st.SetGhost("rsync", w.Nil) // the last round of an inner loop was left without turning back
		}
		if rounds[fr.Fn] && innerRound(c, an, fr.Fn, h) {
			g := st.Ghost("rsync")
			c.Expect(g != nil && g != w.Nil, "round", "rsync in every round", loopPos(c, h), "a round ends without its rsync part: %s", facts(st))
			st.SetGhost("rsync", w.Nil)
		}
	}
	c.Explore(an, loop)
	c.AtLeast("round", 4)
}

// c16Table: who changes the table of rsync jobs.
func c16Table(c *Ctx, visited map[*ssa.Function]bool, root *ssa.Function) {
	ins, rem := tableWriters(c, "table", octoT, "rsyncFetchJobManager", "rsyncFetchJobs",
		func(fn *ssa.Function) bool { return true },
		func(fn *ssa.Function) bool {
			if !visited[fn] {
				return false
			}
			return visitedOnly(c, fn, visited, map[*ssa.Function]bool{})
		})
	c.Expect(ins > 0 && rem > 0, "table", "writers", "", "the rsync job table is never filled or nothing is removed from it (%d, %d)", ins, rem)
}

// visitedOnly: all callers of the function belong to the analysed workers.
func visitedOnly(c *Ctx, fn *ssa.Function, visited, seen map[*ssa.Function]bool) bool {
	if seen[fn] {
		return true
	}
	seen[fn] = true
	for g := range staticCallers(c.P, fn) {
		if visited[g] {
			if !visitedOnly(c, g, visited, seen) {
				return false
			}
			continue
		}
		// where the worker is started
		start := false
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if k, ok := in.(*ssa.Go); ok && (k.Call.StaticCallee() == fn || boundFunc(c.P, k.Call.Value) == fn) {
					start = true
				} else if k, ok := in.(ssa.CallInstruction); ok && k.Common().StaticCallee() == fn {
					return false
				}
			}
		}
		if !start {
			return false
		}
	}
	return true
}

// c16Registered: every valid certificate with a usable repository is registered.
func c16Registered(c *Ctx) {
	fn := mainValidationFn(c)
	if fn == nil {
		return
	}
	an := c.NewAnalyzer()
	w := an.W
	gen := genListFn(c)
	op := opaque(mainOpaque...)
	an.Opaque = func(g *ssa.Function) bool { return op(g) || g == gen }
	an.Record = func(ev *flow.Event) bool {
		return ev.Kind == "next" || ev.Kind == "mapset" && isJobTable(ev.Args[0])
	}
	sets := 0
	an.OnEvent = func(st *flow.State, ev *flow.Event) {
		switch {
		case ev.Kind == "next":
			st.SetGhost("dom", nil)
			st.SetGhost("domErr", nil)
			st.SetGhost("set", nil)
		case isCall(ev, "sync/lib.ExtractRsyncDomainModule"):
			st.SetGhost("dom", ev.Res)
			st.SetGhost("domErr", errOf(w, ev))
		case ev.Kind == "mapset" && isJobTable(ev.Args[0]):
			sets++
			d := st.Ghost("dom")
			key := strip(ev.Args[1])
			ok := d != nil && (d.Op == flow.OTuple && key == d.Args[0] || key.Op == flow.OExtract && key.Args[0] == d && key.Aux == "0")
			c.Expect(ok, "registered", "key", c.evPos(ev), "the rsync job is not registered under the repository of the certificate: %s", key)
			st.SetGhost("set", w.True)
		case ev.Kind == "mapset" && isRef(ev.Args[0], "rrdpFetch"):
			d := st.Ghost("dom")
			v := strip(ev.Args[2])
			ok := d != nil && (d.Op == flow.OTuple && v == d.Args[0] || v.Op == flow.OExtract && v.Args[0] == d && v.Aux == "0")
			c.Expect(ok, "registered", "RRDP pair", c.evPos(ev), "an RRDP URL is registered for another repository than that of its certificate: %s", v)
		}
	}
	n := 0
	an.OnBack = func(st *flow.State, fr *flow.Frame, h *ssa.BasicBlock) {
		over := false
		for _, ev := range st.Events() {
			if ev.Kind == "next" && !ev.Old && !ev.May && ev.Frame == fr && ev.Instr.Block() == h && isRef(ev.Args[0], "ValidObjects") {
				over = true
				st.SetGhost("over", ev.Args[2])
			}
		}
		if !over {
			return
		}
		if st.Ghost("set") == w.True {
			n++
			c.OK("registered", "valid certificate")
			return
		}
		// left out: not a certificate, no usable repository URL, or bound to another domain
		e := st.Ghost("domErr")
		ok := e != nil && st.NonNil(e)
		if e == nil {
			ok = hasLit(st, func(t *flow.Term, v bool) bool {
				if t.Op == flow.OTypeIs && !v {
					return true
				}
				return t.Op == flow.OEq && !v && (isField(strip(t.Args[0]), "Type") || isField(strip(t.Args[1]), "Type"))
			})
		}
		ok = ok || hasLit(st, func(t *flow.Term, v bool) bool {
			return t.Op == flow.OEq && !v && (isBound(t.Args[0]) || isBound(t.Args[1]))
		})
		c.Expect(ok, "registered", "valid certificate", loopPos(c, h), "a valid certificate with a usable repository URL is not registered for rsync: %s", facts(st))
	}
	c.Explore(an, fn)
	c.Expect(sets > 0 && n > 0, "registered", "found", c.PosOf(fn.Pos()), "the validation run registers no rsync job (%d, %d)", sets, n)
}

// isBound: the term is the domain bound to an RRDP URL.
func isBound(t *flow.Term) bool {
	t = strip(t)
	return t != nil && t.Op == flow.OLookup && isRef(t.Args[0], "rrdpFetchDomain")
}

// c16Run: rsync reports success only when it was started and ended without error.
func c16Run(c *Ctx) {
	fn := c.Func("sync/lib", "", "RunRsync")
	if fn == nil {
		return
	}
	an := c.NewAnalyzer()
	w := an.W
	an.Record = func(ev *flow.Event) bool { return false }
	an.OnEvent = func(st *flow.State, ev *flow.Event) {
		if ev.Kind == "call" && in(short(ev.Name), []string{"(*os/exec.Cmd).Wait", "(*os/exec.Cmd).Run", "(*os/exec.Cmd).Output", "(*os/exec.Cmd).CombinedOutput"}) {
			st.SetGhost("end", errOf(w, ev))
		}
	}
	n := 0
	for _, e := range c.Explore(an, fn) {
		if e.Kind != "return" || e.St.NonNil(e.Results[1]) {
			continue
		}
		n++
		end := e.St.Ghost("end")
		c.Expect(end != nil && (end == e.Results[1] || e.St.IsNil(end)), "run", fname(fn), c.Pos(e.Instr), "rsync is reported as successful without having run to its end without error: %s", facts(e.St))
	}
	c.Expect(n > 0, "run", fname(fn), c.PosOf(fn.Pos()), "rsync never succeeds")
}
