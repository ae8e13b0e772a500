package main

import (
	"go/token"
	"go/types"
	"strings"

	"verif/checker/flow"

	"golang.org/x/tools/go/ssa"
)

const (
	fetchRRDPFn = "(*sync/lib.RRDPSystem).FetchRRDP"
	runRsyncFn  = "sync/lib.RunRsync"
)

// loopFn is the server's round loop: the function that runs validations.
func loopFn(c *Ctx) *ssa.Function {
	main := mainValidationFn(c)
	if main == nil {
		return nil
	}
	return findFunc(c, octoT, []string{"*OctoRPKI.validationLoop"}, "runs rounds of validation", func(fn *ssa.Function) bool {
		hit := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if k, ok := in.(ssa.CallInstruction); ok && k.Common().StaticCallee() == main {
					hit = true
				}
			}
		}
		return hit
	})
}

// siteFns: the functions of the server that call one of the library functions directly.
func siteFns(c *Ctx, name string) (out []*ssa.Function, sites []ssa.Instruction) {
	for _, fn := range moduleFuncs(c.P) {
		calls(fn, func(in ssa.CallInstruction, n string) {
			if n == name {
				out = append(out, fn)
				sites = append(sites, in)
			}
		})
	}
	return
}

// roundFns: the round loop, and the functions it is divided into that run a validation.
func roundFns(c *Ctx, loop *ssa.Function) map[*ssa.Function]bool {
	main := mainValidationFn(c)
	out := map[*ssa.Function]bool{loop: true}
	work := []*ssa.Function{loop}
	for len(work) > 0 {
		fn := work[0]
		work = work[1:]
		calls(fn, func(in ssa.CallInstruction, _ string) {
			if g := in.Common().StaticCallee(); g != nil && !out[g] && g != main && c.P.InModule(g) && staticReach(c.P, g)[main] {
				out[g] = true
				work = append(work, g)
			}
		})
	}
	return out
}

// reachesIn: a call in the blocks leads to the function.
func reachesIn(c *Ctx, blocks map[*ssa.BasicBlock]bool, to *ssa.Function) bool {
	for b := range blocks {
		for _, in := range b.Instrs {
			if k, ok := in.(ssa.CallInstruction); ok && k.Common().StaticCallee() != nil && staticReach(c.P, k.Common().StaticCallee())[to] {
				return true
			}
		}
	}
	return false
}

// innerRound: the loop runs validations, one in each turn as far as loops go.
func innerRound(c *Ctx, an *flow.Analyzer, fn *ssa.Function, h *ssa.BasicBlock) bool {
	main := mainValidationFn(c)
	blocks := an.LoopBlocks(fn, h)
	if !reachesIn(c, blocks, main) {
		return false
	}
	for b := range blocks {
		if l := an.LoopBlocks(fn, b); b != h && l != nil && reachesIn(c, l, main) {
			return false
		}
		for _, in := range b.Instrs {
			k, ok := in.(ssa.CallInstruction)
			if !ok || k.Common().StaticCallee() == nil {
				continue
			}
			g := k.Common().StaticCallee()
			if g == main || !c.P.InModule(g) || !staticReach(c.P, g)[main] {
				continue
			}
			for f := range roundFns(c, g) {
				for _, x := range f.Blocks {
					if l := an.LoopBlocks(f, x); l != nil && reachesIn(c, l, main) {
						return false
					}
				}
			}
		}
	}
	return true
}

// roundParts are the functions called by the round loop that lead to a call of the named function.
func roundParts(c *Ctx, loop *ssa.Function, name string) (out []*ssa.Function) {
	fns, _ := siteFns(c, name)
	main := mainValidationFn(c)
	seen := map[*ssa.Function]bool{loop: true}
	var add func(fn *ssa.Function)
	each := func(in ssa.CallInstruction, _ string) {
		g := in.Common().StaticCallee()
		if g == nil || seen[g] || !c.P.InModule(g) {
			return
		}
		seen[g] = true
		r := staticReach(c.P, g)
		if g != main && r[main] {
			add(g) // a round, or several ones
			return
		}
		for _, f := range fns {
			if r[f] {
				out = append(out, g)
				break
			}
		}
	}
	add = func(fn *ssa.Function) { calls(fn, each) }
	add(loop)
	return
}

// staticReach: the module functions that are called, started or mentioned, directly or not.
func staticReach(P *flow.Program, roots ...*ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || !P.InModule(f) {
			return
		}
		seen[f] = true
		if f.Synthetic != "" {
			if o := boundFunc(P, f); o != f {
				add(o)
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						add(g)
					}
				}
			}
		}
	}
	for _, r := range roots {
		add(r)
	}
	return seen
}

// mapLoop is a loop over the entries of a map.
type mapLoop struct {
	key   loopKey
	m     *flow.Term
	ok    *flow.Term
	backs []backRec
}

// pool is the analysis of one part of a round: the workers are analysed where they are started.
type pool struct {
	c      *Ctx
	an     *flow.Analyzer
	root   *ssa.Function
	args   []*flow.Term
	backs  []backRec
	exits  []flow.Exit
	loops  map[loopKey]*mapLoop
	inFrom map[*ssa.Function]bool // functions analysed in a worker
}

// workerFrame is the frame of the goroutine a frame belongs to, nil for the part itself;
// depth counts the nesting of goroutines.
func workerFrame(fr *flow.Frame) (w *flow.Frame, depth int) {
	for ; fr != nil; fr = fr.Parent {
		if _, ok := fr.Call.(*ssa.Go); ok {
			if w == nil {
				w = fr
			}
			depth++
		}
	}
	return
}

func explorePool(c *Ctx, root *ssa.Function, onEvent func(p *pool, st *flow.State, ev *flow.Event), onBack func(p *pool, r backRec)) *pool {
	p := &pool{c: c, root: root, an: c.NewAnalyzer(), loops: map[loopKey]*mapLoop{}, inFrom: map[*ssa.Function]bool{}}
	an := p.an
	// functions of no interest: they neither fetch, use channels or wait groups, nor change jobs
	relevant := poolRelevant(c)
	op := opaque(fetchRRDPFn, runRsyncFn)
	an.Opaque = func(fn *ssa.Function) bool {
		// what makes a path out of a URL is the matter of C11
		sig := fn.Signature
		if sig.Recv() == nil && sig.Params().Len() == 1 && sig.Results().Len() == 2 && isStringT(sig.Params().At(0).Type()) && isStringT(sig.Results().At(0).Type()) && errResult(fn) == 1 {
			return true
		}
		return op(fn) || fn.Name() == "SetSentryScope" || !relevant[fn]
	}
	an.GoInline = func(ev *flow.Event) bool { return ev.Fn != nil && c.P.InModule(ev.Fn) }
	an.Record = func(ev *flow.Event) bool {
		switch ev.Kind {
		case "next", "send", "go", "append":
			return true
		case "mapset":
			return flow.FreshAddr(ev.Args[0])
		case "call":
			return isCall(ev, fetchRRDPFn, runRsyncFn, "(*sync.WaitGroup).Add")
		}
		return false
	}
	p.args = an.ParamTerms(root)
	an.OnEvent = func(st *flow.State, ev *flow.Event) {
		if w, _ := workerFrame(ev.Frame); w != nil {
			for fr := ev.Frame; fr != nil; fr = fr.Parent {
				p.inFrom[fr.Fn] = true
				if fr == w {
					break
				}
			}
		}
		onEvent(p, st, ev)
	}
	an.OnBack = func(st *flow.State, fr *flow.Frame, h *ssa.BasicBlock) {
		r := backRec{st, fr, h, an.BackVals, an.BackPrev}
		p.backs = append(p.backs, r)
		k := loopKey{fr, h}
		for _, ev := range st.Events() {
			if ev.Kind == "next" && !ev.Old && !ev.May && ev.Frame == fr && ev.Instr.Block() == h {
				l := p.loops[k]
				if l == nil {
					l = &mapLoop{key: k, m: ev.Args[0], ok: ev.Res}
					p.loops[k] = l
				}
				l.backs = append(l.backs, r)
			}
		}
		if onBack != nil {
			onBack(p, r)
		}
	}
	p.exits = c.Explore(an, root)
	return p
}

func isStringT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.String
}

// poolRelevant: functions that, directly or not, fetch, start, send, receive, wait, or touch
// the tables of jobs.
func poolRelevant(c *Ctx) map[*ssa.Function]bool {
	self := map[*ssa.Function]bool{}
	for _, fn := range moduleFuncs(c.P) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Go, *ssa.Send, *ssa.Select:
					self[fn] = true
				case *ssa.UnOp:
					self[fn] = self[fn] || x.Op == token.ARROW
				case *ssa.FieldAddr:
					_, f := fieldAddrName(x)
					self[fn] = self[fn] || f == "rsyncFetchJobs" || f == "rrdpFetch"
				case ssa.CallInstruction:
					n := callName(x.Common())
					if strings.HasPrefix(n, "(*sync.WaitGroup)") || n == "builtin.close" || n == fetchRRDPFn || n == runRsyncFn {
						self[fn] = true
					}
					if g := x.Common().StaticCallee(); g == nil && !x.Common().IsInvoke() && !strings.HasPrefix(n, "builtin.") {
						self[fn] = true // a function value
					}
				}
			}
		}
		// helpers on the way of a URL or of the fetch
		if r := fn.Signature.Results(); r.Len() == 1 && (isStringT(r.At(0).Type()) || strings.HasSuffix(r.At(0).Type().String(), ".RRDPSystem") || types.Identical(r.At(0).Type(), boolT)) {
			self[fn] = true
		}
	}
	out := map[*ssa.Function]bool{}
	for _, fn := range moduleFuncs(c.P) {
		for g := range staticReach(c.P, fn) {
			if self[g] {
				out[fn] = true
				break
			}
		}
	}
	return out
}

func (p *pool) sameMap(a, b *flow.Term) bool {
	if a == b {
		return true
	}
	if flow.FreshAddr(a) || flow.FreshAddr(b) {
		return false
	}
	return p.an.W.Shape(a) == p.an.W.Shape(b)
}

// mentionsTerm: x is t or made of it.
func mentionsTerm(x, t *flow.Term) bool { return x == t || x.Contains(t) }

// everyKey: at this state every key of the map has been dealt with: a loop over the map, or over
// a copy of it, has ended because it was exhausted, and each of its rounds dealt with the key.
func (p *pool) everyKey(st *flow.State, m *flow.Term, dealt func(st *flow.State, k loopKey, key, val *flow.Term) bool, depth int) bool {
	if depth > 4 {
		return false
	}
	an := p.an
	for _, l := range p.loops {
		if !p.sameMap(l.m, m) || !st.Excludes(flow.Lit(l.ok)) {
			continue
		}
		all := true
		var copies []*flow.Term
		for i, r := range l.backs {
			var key, val *flow.Term
			var to []*flow.Term
			for _, ev := range r.St.Events() {
				if ev.Old || ev.May {
					continue
				}
				switch {
				case ev.Kind == "next" && ev.Frame == l.key.fr && ev.Instr.Block() == l.key.h:
					key, val = ev.Args[1], ev.Args[2]
				case key != nil && ev.Kind == "mapset" && ev.Args[1] == key && an.InLoop(ev.Instr, ev.Frame, l.key.fr, l.key.h):
					to = append(to, ev.Args[0])
				case key != nil && ev.Kind == "append" && ev.Args[1].Op == flow.OSliceLit && len(ev.Args[1].Args) == 1 && strip(ev.Args[1].Args[0]) == key:
					to = append(to, ev.Args[0])
				}
			}
			if key != nil && !dealt(r.St, l.key, key, val) {
				all = false
			}
			if i == 0 {
				copies = to
				continue
			}
			var keep []*flow.Term
			for _, x := range copies {
				for _, y := range to {
					if x == y {
						keep = append(keep, x)
					}
				}
			}
			copies = keep
		}
		if all {
			return true
		}
		for _, x := range copies {
			if x.Op == flow.OMake && p.everyKey(st, x, dealt, depth+1) {
				return true
			}
			// the keys were collected in a list
			if x.Op != flow.OMake && p.everyListed(st, x, dealt) {
				return true
			}
		}
	}
	return false
}

// everyListed: a loop over the list that another loop grew has dealt with all of its elements.
func (p *pool) everyListed(st *flow.State, list *flow.Term, dealt func(st *flow.State, k loopKey, key, val *flow.Term) bool) bool {
	return everyElement(p.an, p.backs, st, list, func(s *flow.State) (out []*flow.Term) {
		for _, r := range p.backs {
			if r.St != s {
				continue
			}
			for _, ev := range s.Events() {
				if ev.Kind != "send" || ev.Old || ev.May {
					continue
				}
				if i := elementOf(p.an.W, ev.Args[1], list); i != nil && dealt(s, loopKey{r.Fr, r.H}, ev.Args[1], nil) {
					out = append(out, i)
				}
			}
		}
		return
	})
}

// sentOnce: the iteration sends exactly one job, made of the key.
func (p *pool) sentOnce(st *flow.State, k loopKey, key *flow.Term) (*flow.Event, bool) {
	var hit *flow.Event
	n := 0
	for _, ev := range st.Events() {
		if ev.Kind != "send" || ev.Old || !p.an.InLoop(ev.Instr, ev.Frame, k.fr, k.h) {
			continue
		}
		n++
		if !ev.May && ev.Name == "send" && mentionsTerm(ev.Args[1], key) {
			hit = ev
		}
	}
	return hit, hit != nil && n == 1
}

// recvOf finds the message of a channel that a term was made of.
func recvOf(t *flow.Term) *flow.Term {
	var out *flow.Term
	t.Sub(func(x *flow.Term) {
		if x.Op == flow.OSym && x.Site != nil && x.Site.Tag == "recv" && x.Aux != "ok" {
			out = x
		}
	})
	return out
}

// fieldIn names the field of a message that a term is.
func fieldIn(t, msg *flow.Term) string {
	t = strip(t)
	if t == msg {
		return "."
	}
	if t != nil && t.Op == flow.OField && t.Args[0] == msg {
		return t.Aux
	}
	return ""
}

// partOf is the named part of a message that is sent.
func partOf(w *flow.World, t *flow.Term, field string) *flow.Term {
	if field == "." {
		return strip(t)
	}
	return strip(w.Field(t, field, types.Typ[types.String]))
}
