package main

import (
	"go/constant"
	"go/types"
	"strings"

	"verif/checker/flow"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C30",
		Technique: "typestate over the round loop: the stored values of the stable flag against the change detection of the same round, and a coverage obligation over the table of repositories in the change detection",
		Rule:      "The stable flag is set to true only in a round that is not the first, after the validation of that round, with no change detected (or with the number of rounds at its limit). No change is reported only if every repository of the table was in the table of known ones. Output is written only in a round declared stable, unless waiting is disabled, and the process ends only after a stable round.",
		Note:      "An output that cannot be written ends the process with an error, also in an unstable round with waiting disabled.",
		Run:       runC30})
}

// roundLoop is the analysis of the loop over rounds.
type roundLoop struct {
	c       *Ctx
	an      *flow.Analyzer
	loop    *ssa.Function
	valid   *ssa.Function
	reduce  *ssa.Function
	max     *ssa.Global
	wait    *ssa.Global
	seen    map[*ssa.Function]bool
	onStore func(st *flow.State, ev *flow.Event)
	onOut   func(st *flow.State, ev *flow.Event)
	onCall  func(st *flow.State, ev *flow.Event)
	onBack  func(b backRec)
	start   func(an *flow.Analyzer, st *flow.State) *flow.State
	declare func(st *flow.State) bool
}

// addrUses: the instructions that use the address of a field, by the function they are in.
func addrUses(P *flow.Program, pkg, typ, field string, f func(fn *ssa.Function, in ssa.Instruction, call string)) {
	t := P.Named(pkg, typ)
	if t == nil {
		return
	}
	for _, fn := range moduleFuncs(P) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || fieldOf(fa, t) != field {
					continue
				}
				for _, r := range *fa.Referrers() {
					n := ""
					if k, ok := r.(ssa.CallInstruction); ok && len(k.Common().Args) > 0 && k.Common().Args[0] == fa {
						n = callName(k.Common())
						n = n[strings.LastIndex(n, ".")+1:]
						if g := k.Common().StaticCallee(); g != nil && P.InModule(g) {
							n = wrappedOp(g)
						}
					}
					f(fn, r, n)
				}
			}
		}
	}
}

// wrappedOp: the one atomic operation a method of a type that holds an atomic value stands for.
func wrappedOp(g *ssa.Function) string {
	n := "?"
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			k, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			m := callName(k.Common())
			if n != "?" || !strings.Contains(m, "sync/atomic.") {
				return "?"
			}
			n = m[strings.LastIndex(m, ".")+1:]
		}
	}
	return n
}

// flagField: the field of the server an atomic value is held in, itself or in a type of its own.
func flagField(t *flow.Term) string {
	for t.Op == flow.OFieldAddr {
		if t.Aux == "Stable" || t.Aux == "HasPreviousStable" || t.Aux == "iterations" {
			return t.Aux
		}
		t = t.Args[0]
	}
	return ""
}

// reduceFn detects whether the last round found new repositories.
func reduceFn(c *Ctx) *ssa.Function {
	return findFunc(c, octoT, []string{"*OctoRPKI.MainReduce"}, "detects new repositories", func(fn *ssa.Function) bool {
		hit := false
		for _, u := range fieldUses(c.P, octoT, "OctoRPKI", "PrevRepos") {
			if _, ok := u.Instr.(*ssa.Lookup); ok && u.Fn == fn {
				hit = true
			}
		}
		return hit && fn.Signature.Results().Len() == 1
	})
}

func isStableFlag(t *flow.Term) bool {
	return flagField(t) == "Stable"
}

func (r *roundLoop) explore() []flow.Exit {
	c := r.c
	r.loop, r.valid, r.reduce = loopFn(c), mainValidationFn(c), reduceFn(c)
	r.max, r.wait = optionVar(c.P, octoT, "max.iterations"), optionVar(c.P, octoT, "output.wait")
	if r.loop == nil || r.valid == nil || r.reduce == nil {
		return nil
	}
	if r.max == nil || r.wait == nil {
		c.Fail("anchor", "options", "", "the options -max.iterations and -output.wait are gone")
		return nil
	}
	an := c.NewAnalyzer()
	r.an = an
	w := an.W
	an.MaxStates = 400
	// what the loop is made of; everything else is of no interest
	flags := map[*ssa.Function]bool{r.valid: true, r.reduce: true}
	for _, f := range []string{"Stable", "HasPreviousStable"} {
		addrUses(c.P, octoT, "OctoRPKI", f, func(fn *ssa.Function, _ ssa.Instruction, _ string) { flags[fn] = true })
	}
	addrUses(c.P, octoT, "octoRPKIStats", "iterations", func(fn *ssa.Function, _ ssa.Instruction, _ string) { flags[fn] = true })
	for _, fn := range moduleFuncs(c.P, octoT) {
		if wrappedOp(fn) != "?" {
			flags[fn] = true
		}
	}
	if g := optionVar(c.P, octoT, "output.roa"); g != nil {
		for _, fn := range moduleFuncs(c.P, octoT) {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					for _, o := range in.Operands(nil) {
						if *o == ssa.Value(g) {
							flags[fn] = true
						}
					}
				}
			}
		}
	} else {
		c.Fail("anchor", "output", "", "the option -output.roa is gone")
	}
	memo := map[*ssa.Function]bool{}
	an.Opaque = func(g *ssa.Function) bool {
		if g == r.valid || g == r.reduce {
			return true
		}
		v, ok := memo[g]
		if !ok {
			v = true
			for f := range staticReach(c.P, g) {
				if flags[f] {
					v = false
				}
			}
			memo[g] = v
		}
		return v
	}
	an.Record = func(ev *flow.Event) bool { return false }
	r.seen = map[*ssa.Function]bool{}
	cell := func(a *flow.Term) string { return "atomic " + a.String() }
	an.ModelExt = func(st *flow.State, name string, args []*flow.Term, site *flow.Site) (*flow.Term, bool) {
		if !strings.Contains(name, "sync/atomic.") || len(args) == 0 || args[0].Op != flow.OFieldAddr {
			return nil, false
		}
		field := flagField(args[0])
		if field != "Stable" && field != "iterations" {
			return nil, false
		}
		k := cell(args[0])
		cur := st.Ghost(k)
		if cur == nil {
			cur = w.False
			if field == "iterations" {
				cur = w.Int(0)
			}
		}
		switch name[strings.LastIndex(name, ".")+1:] {
		case "Load":
			return cur, true
		case "Store":
			if isStableFlag(args[0]) {
				if st.Entails(flow.Lit(cur)) {
					st.SetGhost("was", w.True)
				}
				r.seen[site.Instr.Parent()] = true
				if wrappedOp(site.Instr.Parent()) != "?" && site.Frame.Parent != nil {
					r.seen[site.Frame.Parent.Fn] = true
				}
			}
			st.SetGhost(k, args[1])
			return w.Nil, true
		case "Add":
			n := w.Add(cur, args[1], types.Typ[types.Int])
			st.SetGhost(k, n)
			return n, true
		}
		return nil, false
	}
	header := func(fr *flow.Frame, h *ssa.BasicBlock) bool {
		for b := range an.LoopBlocks(fr.Fn, h) {
			for _, in := range b.Instrs {
				if k, ok := in.(ssa.CallInstruction); ok && k.Common().StaticCallee() != nil && staticReach(c.P, k.Common().StaticCallee())[r.valid] {
					return true
				}
			}
		}
		return false
	}
	an.OnEnter = func(st *flow.State, fr *flow.Frame, h *ssa.BasicBlock) {
		if header(fr, h) {
			if st.Ghost("later") == nil { // the loop over rounds may be in another one
				st.SetGhost("later", w.False)
				st.SetGhost("restart", w.True)
			}
			r.begin(st)
		}
	}
	an.OnBack = func(st *flow.State, fr *flow.Frame, h *ssa.BasicBlock) {
		if !header(fr, h) || st.Ghost("validated") == w.False && st.Ghost("later") == w.True && st.Ghost("restart") == w.True {
			return // no round since the last one that ended, which was declared stable
		}
		declared := r.declared(st)
		if r.onBack != nil {
			r.onBack(backRec{st.Clone(), fr, h, an.BackVals, an.BackPrev})
		}
		st.SetGhost("later", w.True)
		st.SetGhost("restart", w.Bool(declared))
		r.begin(st)
	}
	an.OnEvent = func(st *flow.State, ev *flow.Event) {
		if ev.Kind == "go" {
			if ev.Fn != nil {
				for f := range staticReach(c.P, ev.Fn) {
					if f == r.valid || f == r.reduce {
						c.Fail("stable", "concurrent", c.evPos(ev), "a part of a round runs concurrently with the rest of it")
					}
				}
			}
			return
		}
		if ev.Kind != "call" {
			return
		}
		if r.onCall != nil {
			r.onCall(st, ev)
		}
		switch {
		case ev.Fn == r.valid:
			st.SetGhost("validated", w.True)
			st.SetGhost("changed", w.Nil)
		case ev.Fn == r.reduce:
			st.SetGhost("changed", ev.Res)
		case strings.HasPrefix(ev.Name, "fmt.Print") || strings.HasPrefix(ev.Name, "fmt.Fprint") || strings.HasSuffix(ev.Name, ".WriteFile") || ev.Name == "os.Create" || ev.Name == "os.OpenFile" || ev.Name == "(*encoding/json.Encoder).Encode" || ev.Name == "(*os.File).Write":
			if r.onOut != nil {
				r.onOut(st, ev)
			}
		case len(ev.Args) > 0 && isStableFlag(ev.Args[0]) && strings.Contains(ev.Name, "sync/atomic.") && strings.HasSuffix(ev.Name, ".Store"):
			if r.onStore != nil {
				r.onStore(st, ev)
			}
			st.SetGhost("set", w.True)
		}
	}
	st := an.NewState()
	if r.start != nil {
		if st = r.start(an, st); st == nil {
			c.Fail("anchor", "start", "", "the round loop cannot be entered as supposed")
			return nil
		}
	}
	exits := an.Run(r.loop, an.ParamTerms(r.loop), st)
	c.Done(an, r.loop)
	n := 0
	addrUses(c.P, octoT, "OctoRPKI", "Stable", func(fn *ssa.Function, in ssa.Instruction, call string) {
		if call == "Load" {
			return
		}
		n++
		c.Expect(call == "Store" && r.seen[fn], "stable", "set in "+fname(fn), c.Pos(in), "%s changes the stable flag outside of the analysed round loop", fname(fn))
	})
	addrUses(c.P, octoT, "octoRPKIStats", "iterations", func(fn *ssa.Function, in ssa.Instruction, call string) {
		if call != "Load" {
			c.Expect(call == "Add" && staticReach(c.P, r.loop)[fn], "stable", "counted in "+fname(fn), c.Pos(in), "%s changes the number of rounds", fname(fn))
		}
	})
	c.Expect(n > 0, "stable", "set", "", "the stable flag is never set")
	return exits
}

func (r *roundLoop) begin(st *flow.State) {
	w := r.an.W
	st.SetGhost("validated", w.False)
	st.SetGhost("changed", w.Nil)
	st.SetGhost("was", w.False)
	st.SetGhost("set", w.False)
	st.SetGhost("written", w.False)
}

// stableNow: the flag is known to be set.
func (r *roundLoop) stableNow(st *flow.State) bool {
	found := false
	for _, g := range st.Ghosts() {
		if strings.HasPrefix(g, "atomic ") && strings.Contains(g, "Stable") {
			v := st.Ghost(g)
			found = v != nil && st.Entails(flow.Lit(v))
			if !found {
				return false
			}
		}
	}
	return found
}

// declared: the flag was set at some time of this round.
func (r *roundLoop) declared(st *flow.State) bool {
	return st.Ghost("was") == r.an.W.True || r.stableNow(st)
}

// limitTerms: the terms for the configured number of rounds.
func (r *roundLoop) limitTerms(st *flow.State) (out []*flow.Term) {
	seen := map[*flow.Term]bool{}
	st.F.Terms(func(t *flow.Term) {
		t.Sub(func(x *flow.Term) {
			if !seen[x] && isOptionTerm(x, r.max) {
				seen[x] = true
				out = append(out, x)
			}
		})
	})
	return
}

// counted: loop variables that count rounds, with what they hold after the present one.
func (r *roundLoop) counted(st *flow.State, f func(v *flow.Term) bool) bool {
	hit := false
	st.F.Terms(func(t *flow.Term) {
		t.Sub(func(x *flow.Term) {
			if !hit && x.Op == flow.OSym && x.Site != nil && x.Site.Tag == "phi" {
				for _, d := range []int64{0, 1} {
					hit = hit || f(r.an.W.Add(x, r.an.W.Int(d), types.Typ[types.Int]))
				}
			}
		})
	})
	return hit
}

func runC30(c *Ctx) {
	r := &roundLoop{c: c}
	r.onStore = func(st *flow.State, ev *flow.Event) {
		w := r.an.W
		s := st.Clone().Assume(ev.Args[1], true)
		if s == nil {
			c.OK("stable", "never true here")
			return
		}
		limit := false
		for _, m := range r.limitTerms(s) {
			// there is at least the present round
			limit = limit || s.Entails(flow.Lit(w.OrdLe(m, w.Int(1))))
			limit = limit || r.counted(s, func(v *flow.Term) bool { return s.Entails(flow.Lit(w.OrdLe(m, v))) })
		}
		if limit {
			c.OK("stable", "at the limit of rounds")
			return
		}
		ch := s.Ghost("changed")
		c.Expect(s.Ghost("later") == w.True, "stable", "not the first round", c.evPos(ev), "a first round can be declared stable: %s", facts(s))
		c.Expect(s.Ghost("validated") == w.True, "stable", "validated", c.evPos(ev), "a round is declared stable before its validation")
		c.Expect(ch != nil && ch != w.Nil && s.Excludes(flow.Lit(ch)), "stable", "no change", c.evPos(ev), "a round is declared stable although the change detection of that round has not said that nothing has changed: %s", facts(s))
	}
	out := 0
	r.onOut = func(st *flow.State, ev *flow.Event) {
		out++
		w := r.an.W
		ok := optionIs(st, r.wait, false) || st.Ghost("set") == w.True && r.stableNow(st)
		c.Expect(ok, "output", "stable", c.evPos(ev), "output is written in a round that is not declared stable, with waiting enabled: %s", facts(st))
	}
	exits := r.explore()
	if exits == nil {
		c.Expect(r.loop == nil, "anchor", "paths", "", "the round loop has no end that can be reached")
		return
	}
	c.Expect(out > 0, "output", "written", "", "no output is ever written by the round loop")
	ends := 0
	for _, e := range exits {
		end := e.Kind == "return"
		if k, ok := e.Instr.(ssa.CallInstruction); ok && e.Kind == "fatal" {
			n := callName(k.Common())
			end = strings.HasSuffix(n, ".Exit") || strings.HasSuffix(n, ".Goexit")
		}
		if !end {
			continue
		}
		ends++
		c.Expect(r.declared(e.St), "end", "stable", c.Pos(e.Instr), "the process ends after a round that was not declared stable: %s", facts(e.St))
	}
	c.Expect(ends > 0, "end", "reached", "", "the round loop never ends")
	c30Reduce(c, r.reduce)
}

// c30Reduce: no change is reported only if all repositories were known.
func c30Reduce(c *Ctx, fn *ssa.Function) {
	if fn == nil {
		return
	}
	an := c.NewAnalyzer()
	w := an.W
	an.Record = func(ev *flow.Event) bool { return ev.Kind == "next" }
	table := func(t *flow.Term, name string) bool { return isRef(t, name) && refBase(t) != nil }
	type loop struct {
		key loopKey
		ok  *flow.Term
	}
	loops := map[loop]bool{}
	number := map[*ssa.Phi]*flow.Term{}
	an.OnEnter = func(st *flow.State, fr *flow.Frame, h *ssa.BasicBlock) {
		if st.Ghost("missed") == nil {
			st.SetGhost("missed", w.False)
		}
	}
	an.OnBack = func(st *flow.State, fr *flow.Frame, h *ssa.BasicBlock) {
		for _, ev := range st.Events() {
			if ev.Kind == "next" && !ev.Old && !ev.May && ev.Frame == fr && ev.Instr.Block() == h && table(ev.Args[0], "CurrentRepos") {
				loops[loop{loopKey{fr, h}, ev.Res}] = true
				known := hasLit(st, func(t *flow.Term, v bool) bool {
					return v && t.Op == flow.OLookupOk && table(t.Args[0], "PrevRepos") && strip(t.Args[1]) == strip(ev.Args[1])
				})
				for p, v := range an.BackVals {
					// a number of unknown repositories
					if d, ok := w.Sub(v, an.PhiSym(fr, p), types.Typ[types.Int]).IsInt(); isInteger(p.Type()) {
						if _, old := number[p]; !old {
							number[p] = an.PhiSym(fr, p)
						}
						if !ok || d < 0 || !known && d < 1 {
							number[p] = nil
						}
					}
				}
				if !known {
					st.SetGhost("missed", w.True)
				}
			}
		}
	}
	an.OnEvent = func(st *flow.State, ev *flow.Event) {
		if (ev.Kind == "mapset" || ev.Kind == "mapdel") && table(ev.Args[0], "CurrentRepos") {
			c.Fail("change", "table", c.evPos(ev), "the change detection changes the table of present repositories")
		}
	}
	exits := c.Explore(an, fn)
	n := 0
	for _, e := range exits {
		if e.Kind != "return" || len(e.Results) != 1 {
			continue
		}
		s := e.St.Clone().Assume(e.Results[0], false)
		if s == nil {
			continue
		}
		n++
		ok := false
		for l := range loops {
			ok = ok || s.Excludes(flow.Lit(l.ok))
		}
		none := s.Ghost("missed") == w.False
		for p, sym := range number {
			for i, e := range p.Edges {
				if k, isC := e.(*ssa.Const); isC && sym != nil && !p.Block().Dominates(p.Block().Preds[i]) && k.Value != nil {
					none = none || s.Entails(flow.Lit(w.OrdLe(sym, w.Int(k.Int64()))))
				}
			}
		}
		c.Expect(ok && none, "change", "every repository", c.Pos(e.Instr), "no change is reported although a repository may be unknown: %s", facts(s))
	}
	c.Expect(n > 0, "change", "reported", "", "the change detection never reports that nothing has changed")
	c30Table(c, fn)
}

func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// c30Table: who changes the tables of repositories.
func c30Table(c *Ctx, fn *ssa.Function) {
	valid, reduce := staticReach(c.P, mainValidationFn(c)), staticReach(c.P, fn)
	tableWriters(c, "change", octoT, "OctoRPKI", "PrevRepos",
		func(g *ssa.Function) bool { return reduce[g] }, func(g *ssa.Function) bool { return reduce[g] })
	for _, u := range fieldUses(c.P, octoT, "OctoRPKI", "CurrentRepos") {
		where := fname(u.Fn) + " CurrentRepos"
		switch x := u.Instr.(type) {
		case *ssa.MapUpdate:
			c.Expect(x.Map == u.Val && valid[u.Fn], "change", where+" insert", c.Pos(x), "%s inserts into the table of present repositories outside the code that validates", fname(u.Fn))
		case *ssa.Store:
			if u.Store {
				c.Expect(u.Fresh, "change", where+" replaced", c.Pos(x), "%s replaces the table of present repositories: what it held counts as new or is forgotten", fname(u.Fn))
				continue
			}
			// handed to the store of files, which must leave it alone
			fa, _ := x.Addr.(*ssa.FieldAddr)
			own, f := "", ""
			if fa != nil {
				own = ownerName(fa.X.Type())
				_, f = fieldAddrName(fa)
			}
			i := strings.LastIndex(own, ".")
			if c.Expect(i > 0 && !strings.HasSuffix(own, ".OctoRPKI"), "change", where+" stored", c.Pos(x), "the table of present repositories is stored elsewhere, its writers cannot be followed") {
				for _, v := range fieldUses(c.P, own[:i], own[i+1:], f) {
					bad := false
					switch y := v.Instr.(type) {
					case *ssa.MapUpdate:
						bad = true
					case ssa.CallInstruction:
						n := callName(y.Common())
						bad = n == "builtin.delete" || n == "builtin.clear"
					}
					c.Expect(!bad, "change", fname(v.Fn)+" "+f, c.Pos(v.Instr), "%s changes the table of present repositories, which it was given by the server", fname(v.Fn))
				}
			}
		case ssa.CallInstruction:
			n := callName(x.Common())
			c.Expect(n == "builtin.len", "change", where+" passed on", c.Pos(x), "the table of present repositories is changed by or passed to %s", n)
		}
	}
}

func init() {
	register(&Check{ID: "C22",
		Technique: "termination analysis: a ranking argument for every loop and recursion that a validation can reach, typestate of the exploration queue (admission by path, one removal per round), and a difference-bound argument for the number of rounds until stable",
		Rule:      "A file enters the queue of an exploration only if its path was not marked, and is marked then; marks are never removed; every round of the exploration takes one file from the queue and validates at most that one. Every other loop a validation can reach ranges over a collection, counts towards a bound, consumes input, shortens a list, marks something new or climbs to an older object; every recursion has a fixed bound. A round of the server that is not declared stable has a count of rounds since the last stable state that is not above the configured number, and the count rises by one in each.",
		Note:      "Loops in the standard library, and ranges over a map into which the loop inserts, are taken to end. Exploration without manifests walks the file system.",
		Run:       runC22})
}

func runC22(c *Ctx) {
	c22Rounds(c)
	c22Queue(c)
	fn := c.Func("validator/pki", "*SimpleManager", "Explore")
	main := mainValidationFn(c)
	if fn == nil || main == nil {
		return
	}
	set := reachable(c.P, fn, main)
	mod := map[*ssa.Function]bool{}
	linked := imports(main.Pkg.Pkg)
	for f := range set {
		if c.P.InModule(f) && f.Pkg != nil && linked[f.Pkg.Pkg] && len(f.Blocks) > 0 && f.Synthetic == "" {
			mod[f] = true
		}
	}
	for f := range mod {
		if f != fn {
			terminates(c, "loop", f)
		}
	}
	for _, g := range recursions(c.P, mod) {
		boundedRecursion(c, "recursion", g)
	}
	c.AtLeast("loop", 20)
}

// imports: a package and all it is linked with.
func imports(p *types.Package) map[*types.Package]bool {
	m := map[*types.Package]bool{}
	var add func(p *types.Package)
	add = func(p *types.Package) {
		if !m[p] {
			m[p] = true
			for _, q := range p.Imports() {
				add(q)
			}
		}
	}
	add(p)
	return m
}

// c22Rounds: the rounds until a stable state are bounded.
func c22Rounds(c *Ctx) {
	r := &roundLoop{c: c}
	backs := 0
	r.onBack = func(b backRec) {
		backs++
		w := r.an.W
		if r.declared(b.St) {
			c.OK("rounds", "declared stable")
			return
		}
		ok := false
		for p, v := range b.Vals {
			if !isInteger(p.Type()) {
				continue
			}
			start := startOf(p)
			from := w.Int(start)
			if b.St.Ghost("restart") != w.True {
				from = r.an.PhiSym(b.Fr, p)
			}
			if !b.St.Entails(flow.Lit(w.OrdLe(w.Add(from, w.Int(1), types.Typ[types.Int]), v))) {
				continue
			}
			for _, m := range r.limitTerms(b.St) {
				ok = ok || b.St.Entails(flow.Lit(w.OrdLe(w.Sub(v, w.Int(start), types.Typ[types.Int]), m)))
			}
		}
		c.Expect(ok, "rounds", "undeclared", loopPos(c, b.H), "a round may be followed by another one, without being declared stable, however many there have been since the last stable one: %s", facts(b.St))
	}
	r.explore()
	c.Expect(backs > 0, "rounds", "loop", "", "the round loop has no rounds")
}

// startOf: the number a loop variable starts with.
func startOf(p *ssa.Phi) int64 {
	for i, e := range p.Edges {
		if k, ok := e.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Int && !p.Block().Dominates(p.Block().Preds[i]) {
			return k.Int64()
		}
	}
	return 0
}

// c22Queue: what enters and leaves the queue.
func c22Queue(c *Ctx) {
	const pkg = "validator/pki"
	path := c.Func(pkg, "*PKIFile", "ComputePath")
	explore := c.Func(pkg, "*SimpleManager", "Explore")
	if path == nil || explore == nil {
		return
	}
	field := func(t *flow.Term, f string) bool {
		return t != nil && t.Op == flow.OFieldAddr && t.Aux == f && strings.HasSuffix(ownerName(t.Args[0].Typ), ".SimpleManager")
	}
	writers := map[*ssa.Function]bool{}
	storesField(c.P, pkg, "SimpleManager", "ToExplore", func(fn *ssa.Function, in *ssa.Store, fa *ssa.FieldAddr) {
		if !rootAlloc(fa.X) {
			writers[fn] = true
		}
	})
	c.Expect(len(writers) > 0, "queue", "filled", "", "nothing is ever put into the queue")
	uses, knows := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	for _, u := range fieldUses(c.P, pkg, "SimpleManager", "ToExplore") {
		uses[u.Fn], knows[u.Fn] = true, true
	}
	for _, u := range fieldUses(c.P, pkg, "SimpleManager", "ToExploreUnique") {
		knows[u.Fn] = true
	}
	touches := func(g *ssa.Function) bool {
		for f := range staticReach(c.P, g) {
			if knows[f] {
				return true
			}
		}
		return false
	}
	isMark := func(m *flow.Term) bool { return isRef(m, "ToExploreUnique") }
	judge := func(an *flow.Analyzer) func(st *flow.State, ev *flow.Event) {
		w := an.W
		return func(st *flow.State, ev *flow.Event) {
			switch {
			case ev.Kind == "mapset" && isMark(ev.Args[0]):
				if !(ev.Args[2] == w.False) {
					st.SetGhost("marked", ev.Args[1])
				}
			case ev.Kind == "store" && field(ev.Args[0], "ToExplore"):
				v := ev.Args[1]
				cur := st.Load(ev.Args[0], v.Typ)
				n := 0
				for v.Op == flow.OAppend {
					if v.Args[1].Op != flow.OSliceLit {
						c.Fail("queue", "admitted", c.evPos(ev), "files are put into the queue in a way that cannot be followed: %s", v)
						return
					}
					for _, el := range v.Args[1].Args {
						n++
						guard := hasLit(st, func(t *flow.Term, b bool) bool {
							return !b && (t.Op == flow.OLookupOk || t.Op == flow.OLookup) && isMark(t.Args[0]) && isPathOf(t.Args[1], el)
						})
						c.Expect(guard, "queue", "admitted", c.evPos(ev), "a file is put into the queue although its path may have been in it before: %s", facts(st))
						st.SetGhost("queued", el)
					}
					v = v.Args[0]
				}
				if n == 0 {
					part := false
					if cur != nil && v.Op == flow.OSlice {
						b, _, _ := sliceOf(w, cur)
						b2, _, _ := sliceOf(w, v)
						part = b == b2
					}
					shorter := part && st.Entails(flow.Lit(w.OrdLe(w.Add(w.Len(v), w.Int(1), types.Typ[types.Int]), w.Len(cur))))
					empty := isEmptyTerm(st, v)
					c.Expect(shorter || empty, "queue", "taken from", c.evPos(ev), "the queue is replaced by something that is not its rest: %s", v)
					st.SetGhost("taken", w.True)
					if shorter {
						st.SetGhost("rest", v)
						st.SetGhost("whole", cur)
					}
				} else {
					c.Expect(v == cur, "queue", "kept", c.evPos(ev), "the queue is replaced by something else than itself with additions: %s", v)
				}
			}
		}
	}
	marked := func(an *flow.Analyzer, st *flow.State, pos string) {
		q := st.Ghost("queued")
		if q == nil || q == an.W.Nil {
			return
		}
		m := st.Ghost("marked")
		c.Expect(m != nil && isPathOf(m, q), "queue", "marked", pos, "the path of a file that was put into the queue is not marked")
	}
	for fn := range writers {
		an := c.NewAnalyzer()
		an.Pure = func(g *ssa.Function) bool { return g == path }
		an.Opaque = func(g *ssa.Function) bool { return g == path || !touches(g) }
		an.Record = func(ev *flow.Event) bool { return false }
		an.OnEvent = judge(an)
		an.OnBack = func(st *flow.State, fr *flow.Frame, h *ssa.BasicBlock) {
			marked(an, st, loopPos(c, h))
			st.SetGhost("queued", an.W.Nil)
			st.SetGhost("marked", an.W.Nil)
		}
		for _, e := range c.Explore(an, fn) {
			if e.Kind == "return" {
				marked(an, e.St, c.Pos(e.Instr))
			}
		}
	}
	// marks stay
	tableWriters(c, "queue", pkg, "SimpleManager", "ToExploreUnique", func(*ssa.Function) bool { return true }, func(*ssa.Function) bool { return false })

	// the exploration
	add := c.Func(pkg, "*Validator", "AddResource")
	an := c.NewAnalyzer()
	w := an.W
	puts := map[*ssa.Function]bool{}
	for fn := range writers {
		shrinks := false
		storesField(c.P, pkg, "SimpleManager", "ToExplore", func(g *ssa.Function, in *ssa.Store, fa *ssa.FieldAddr) {
			if g == fn {
				if _, ok := in.Val.(*ssa.Slice); ok {
					shrinks = true
				}
			}
		})
		puts[fn] = !shrinks
	}
	an.Pure = func(g *ssa.Function) bool { return g == path }
	an.Opaque = func(g *ssa.Function) bool {
		if g == path || g == add || puts[g] {
			return true
		}
		r := staticReach(c.P, g)
		if r[add] {
			return false
		}
		for f := range uses {
			if r[f] {
				return false
			}
		}
		return true
	}
	an.Record = func(ev *flow.Event) bool { return false }
	an.AssumeDeref = true
	an.MaxStates = 60
	an.Keep = func(v ssa.Value) bool { return ownerName(v.Type()) == "validator/pki.PKIFile" }
	qj := judge(an)
	rounds, checked := 0, 0
	isQueue := func(t *flow.Term) bool { return field(t, "ToExplore") }
	an.OnEvent = func(st *flow.State, ev *flow.Event) {
		qj(st, ev)
		if st.Ghost("taken") != w.True && isEmpty(an, st, st.Ghost("head")) {
			st.SetGhost("empty", w.True)
		}
		if ev.Kind == "load" && isQueue(ev.Args[0]) && st.Ghost("head") == w.Nil && st.Ghost("taken") != w.True {
			st.SetGhost("head", st.Load(ev.Args[0], ev.Args[0].Typ.Underlying().(*types.Pointer).Elem()))
		}
		if ev.Kind == "store" && isQueue(ev.Args[0]) || ev.Kind == "call" && puts[ev.Fn] {
			if st.Ghost("head") == w.Nil {
				st.SetGhost("head", w.False)
			}
		}
		if ev.Kind == "store" && isQueue(ev.Args[0]) {
			st.SetGhost("validated", w.False)
		}
		if ev.Kind == "call" && ev.Fn == add && len(ev.Args) > 1 {
			checked++
			if st.IsNil(ev.Args[1]) {
				return // the queue was empty: there is no file, and the program ends
			}
			whole, rest := st.Ghost("whole"), st.Ghost("rest")
			c.Expect(st.Ghost("taken") == w.True && st.Ghost("validated") != w.True && whole != nil && fromQueue(w, ev.Args[1], whole, rest), "queue", "validated once", c.evPos(ev), "a file is validated that was not just taken from the queue: %s (of %v, leaving %v)", ev.Args[1], whole, rest)
			st.SetGhost("validated", w.True)
		}
	}
	outer := func(h *ssa.BasicBlock) bool {
		for _, in := range h.Instrs {
			if _, ok := in.(*ssa.Next); ok {
				return false
			}
		}
		return boundedLoop(c.P, h) == ""
	}
	// a round begins with files in the queue
	filled := true
	queue := an.ParamTerms(explore)[0]
	type open struct{ why, pos string }
	var left []open
	an.OnEnter = func(st *flow.State, fr *flow.Frame, h *ssa.BasicBlock) {
		if outer(h) {
			st.SetGhost("taken", w.False)
			st.SetGhost("head", w.Nil)
			st.SetGhost("empty", w.False)
			filled = filled && nonEmpty(an, goesOn(an, st, h, an.BackVals), queue)
		}
	}
	an.OnBack = func(st *flow.State, fr *flow.Frame, h *ssa.BasicBlock) {
		if !outer(h) {
			return
		}
		s := goesOn(an, st, h, an.BackVals)
		head := st.Ghost("head")
		taken, empty := st.Ghost("taken") == w.True, st.Ghost("empty") == w.True
		st.SetGhost("empty", w.False)
		st.SetGhost("taken", w.False)
		st.SetGhost("head", w.Nil)
		if s == nil {
			return
		}
		rounds++
		if taken {
			c.OK("queue", "one per round")
		} else if empty || isEmpty(an, s, head) {
			left = append(left, open{facts(s), loopPos(c, h)})
		} else {
			c.Fail("queue", "one per round", loopPos(c, h), "a round of the exploration may end without having taken a file from the queue: %s", facts(s))
		}
		if taken {
			filled = filled && nonEmpty(an, s, queue)
		}
	}
	c.Explore(an, explore)
	for _, o := range left {
		c.Expect(filled, "queue", "one per round", o.pos, "a round of the exploration may end without having taken a file from the queue: %s", o.why)
	}
	c.Expect(rounds > 0 && checked > 0, "queue", "explored", c.PosOf(explore.Pos()), "the exploration has no rounds in which it validates a file")
}

// nonEmpty: the queue of the manager is not empty.
func nonEmpty(an *flow.Analyzer, st *flow.State, sm *flow.Term) bool {
	if st == nil {
		return true
	}
	q := st.Path(sm, "ToExplore")
	return q != nil && st.Entails(flow.Lit(an.W.OrdLe(an.W.Int(1), an.W.Len(q))))
}

// isEmpty: the list that was noted is empty.
func isEmpty(an *flow.Analyzer, st *flow.State, list *flow.Term) bool {
	w := an.W
	return list != nil && list != w.Nil && list != w.False && st.Entails(flow.Lit(w.OrdLe(w.Len(list), w.Int(0))))
}

// isPathOf: the term is the path of the file.
func isPathOf(t, file *flow.Term) bool {
	t = strip(t)
	return isCallTerm(t, "(*validator/pki.PKIFile).ComputePath") && strip(t.Args[0]) == strip(file)
}

// fromQueue: the file is an element of the queue that is not in what is left of it.
func fromQueue(w *flow.World, file, whole, rest *flow.Term) bool {
	intT := types.Typ[types.Int]
	b, lo, _ := sliceOf(w, whole)
	b2, lo2, hi2 := sliceOf(w, rest)
	i := elementIn(w, file, b)
	if i == nil || b != b2 {
		return false
	}
	if w.Sub(lo2, lo, intT) == w.Int(1) && i == lo {
		return true
	}
	return lo2 == lo && hi2 != nil && hi2 == i
}

// elementIn: the index of an element in the list, or in the one that it is a part of.
func elementIn(w *flow.World, t, list *flow.Term) *flow.Term {
	t = strip(t)
	if t.Op == flow.ODeref {
		t = t.Args[0]
	}
	if t.Op != flow.OIndex && t.Op != flow.OIndexAddr {
		return nil
	}
	b, lo, _ := sliceOf(w, t.Args[0])
	if w.Shape(b) != w.Shape(list) {
		return nil
	}
	return w.Add(lo, t.Args[1], types.Typ[types.Int])
}

// sliceOf: a list as a part of another one.
func sliceOf(w *flow.World, t *flow.Term) (base, lo, hi *flow.Term) {
	if t.Op != flow.OSlice {
		return t, w.Int(0), nil
	}
	base, lo, hi = sliceOf(w, t.Args[0])
	from := lo
	if len(t.Args) > 1 && t.Args[1] != nil && t.Args[1] != w.Nil {
		lo = w.Add(lo, t.Args[1], types.Typ[types.Int])
	}
	if len(t.Args) > 2 && t.Args[2] != nil && t.Args[2] != w.Nil {
		hi = w.Add(from, t.Args[2], types.Typ[types.Int])
	}
	return
}
