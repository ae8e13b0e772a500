package main

import (
	"go/types"
	"sort"
	"strings"

	"verif/checker/flow"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C19",
		Technique: "path-sensitive dataflow over every HTTP handler: the status and body written on each path against the facts known of the stability flags and the wait option; data taint from the published lists; registration wiring",
		Rule:      "In every HTTP handler of the server: what comes from the published ROA or resource list is written to the client only on paths where the current state is stable, or the previous one, or waiting is disabled; on the other paths of these handlers the status 503 precedes the body; on the former the whole list taken from the server at that moment is written, or 304 for a validator computed from its time of generation or its data. The handler registered at the health path answers 200 on the paths where either state is stable and 503 on the others. The ROA path, the resource path and the health path lead to these handlers.",
		Note:      "Two reads of a flag in one request are taken to agree. What the flags mean is C30.",
		Run:       runC19})
}

const loadFlag = "(*sync/atomic.Bool).Load"

func flagLoad(t *flow.Term, field string) bool {
	if !isCallTerm(t, loadFlag) || len(t.Args) == 0 {
		return false
	}
	a := strip(t.Args[len(t.Args)-1])
	for _, x := range t.Args {
		if x.Op == flow.OFieldAddr {
			a = x
		}
	}
	return flagField(a) == field
}

func flagIs(st *flow.State, field string, v bool) bool {
	return hasLit(st, func(t *flow.Term, b bool) bool { return b == v && flagLoad(t, field) })
}

// listType names the published list a type stands for.
func listType(t types.Type) string {
	if t == nil {
		return ""
	}
	n := ownerName(t)
	switch {
	case strings.HasSuffix(n, ".ROAList"):
		return "ROA list"
	case strings.HasSuffix(n, ".ResourcesJSON"):
		return "resource list"
	}
	return ""
}

// publishedList: the term is the list held by the server.
func publishedList(t *flow.Term) string {
	t = strip(t)
	if t == nil {
		return ""
	}
	k := listType(t.Typ)
	if k == "" {
		return ""
	}
	if n, base := fieldRef(t); n != "" && base != nil {
		return k
	}
	if t.Op == flow.ODeref {
		return publishedList(t.Args[0])
	}
	return ""
}

type handlerRun struct {
	an     *flow.Analyzer
	fn     *ssa.Function
	args   []*flow.Term
	writer *flow.Term
	data   map[*flow.Term]string // terms derived from a list
	whole  map[*flow.Term]string // encodings of a whole list
	gen    map[*flow.Term]bool   // derived from what tells lists apart
	writes map[string]int
}

func (h *handlerRun) derived(t *flow.Term) string {
	r := ""
	var rec func(t *flow.Term, d int)
	rec = func(t *flow.Term, d int) {
		if r != "" || t == nil || d > 12 {
			return
		}
		if k := h.data[t]; k != "" {
			r = k
			return
		}
		if k := publishedList(t); k != "" {
			r = k
			return
		}
		if t.Op == flow.OLen {
			return
		}
		for _, a := range t.Args {
			rec(a, d+1)
		}
	}
	rec(t, 0)
	return r
}

func (h *handlerRun) isWhole(t *flow.Term) string {
	t = strip(t)
	if k := h.whole[t]; k != "" {
		return k
	}
	if t.Op == flow.OConv && len(t.Args) > 0 {
		return h.isWhole(t.Args[0])
	}
	return publishedList(t)
}

func exploreHandler(c *Ctx, fn *ssa.Function) (*handlerRun, []flow.Exit) {
	h := &handlerRun{an: c.NewAnalyzer(), fn: fn, data: map[*flow.Term]string{}, whole: map[*flow.Term]string{}, gen: map[*flow.Term]bool{}, writes: map[string]int{}}
	an := h.an
	w := an.W
	h.args = an.ParamTerms(fn)
	for i, p := range fn.Params {
		if ownerName(p.Type()) == "net/http.ResponseWriter" {
			h.writer = h.args[i]
		}
	}
	an.Record = func(ev *flow.Event) bool { return false }
	an.OnEvent = func(st *flow.State, ev *flow.Event) {
		if ev.Kind != "call" {
			return
		}
		n := short(ev.Name)
		kind := ""
		for _, a := range ev.Args {
			if k := h.derived(a); k != "" {
				kind = k
			}
		}
		toClient := false
		for _, a := range ev.Args {
			if a.Contains(h.writer) && !isHeaderTerm(a, h.writer) {
				toClient = true
			}
		}
		if kind != "" && !toClient {
			// results and receivers of other modules' functions carry the data on
			if ev.Res != nil {
				h.data[ev.Res] = kind
				if ev.Res.Op == flow.OTuple {
					for _, r := range ev.Res.Args {
						h.data[r] = kind
					}
				}
				if strings.HasPrefix(n, "encoding/json.Marshal") {
					if k := h.isWhole(ev.Args[0]); k != "" {
						h.whole[ev.Res] = k
						if ev.Res.Op == flow.OTuple {
							h.whole[ev.Res.Args[0]] = k
						}
						h.whole[w.Extract(ev.Res, 0, types.NewSlice(types.Typ[types.Byte]))] = k
					}
				}
			}
			if len(ev.Args) > 1 && (strings.HasSuffix(n, ".Write") || strings.HasSuffix(n, ".WriteString") || strings.HasSuffix(n, ".Encode")) {
				h.data[ev.Args[0]] = kind
				if strings.HasSuffix(n, ".Encode") {
					if k := h.isWhole(ev.Args[1]); k != "" {
						ev.Args[0].Sub(func(x *flow.Term) { h.whole[x] = k })
					}
				}
			}
		}
		if !toClient {
			return
		}
		switch {
		case n == "(net/http.ResponseWriter).WriteHeader":
			if st.Ghost("status") == nil {
				st.SetGhost("status", ev.Args[1])
			}
			return
		case n == "(net/http.ResponseWriter).Header", strings.HasPrefix(n, "(net/http.Header)."), strings.HasSuffix(n, ".NewEncoder"), strings.HasSuffix(n, ".NewWriter"):
			return
		case n == "net/http.Error":
			if st.Ghost("status") == nil {
				st.SetGhost("status", ev.Args[2])
			}
		case n == "net/http.NotFound" || n == "net/http.Redirect":
			if st.Ghost("status") == nil {
				st.SetGhost("status", w.Int(404))
			}
		default:
			if ci, isCall := ev.Instr.(ssa.CallInstruction); isCall {
				if f := ci.Common().StaticCallee(); f != nil && c.P.InModule(f) && len(f.Blocks) > 0 {
					return // what it does is seen by itself
				}
			}
			if st.Ghost("status") == nil {
				st.SetGhost("status", w.Int(200))
			}
		}
		if kind == "" {
			return
		}
		h.writes[kind]++
		wait := optionVar(c.P, octoT, "output.wait")
		ok := flagIs(st, "Stable", true) || flagIs(st, "HasPreviousStable", true) || optionIs(st, wait, false)
		c.Expect(ok, "gate", fname(fn)+" "+kind, c.evPos(ev), "%s sends %s data on a path where neither the current nor the previous state is known to be stable, nor waiting to be disabled: %s", fname(fn), kind, facts(st))
		full := false
		for _, a := range ev.Args[1:] {
			if h.isWhole(a) == kind {
				full = true
			}
		}
		if full {
			st.SetGhost("data", w.Str(kind))
			c.Expect(st.Ghost("status") == w.Int(200), "answer", fname(fn)+" status", c.evPos(ev), "%s sends the list with status %s", fname(fn), st.Ghost("status"))
		} else {
			c.Fail("answer", fname(fn)+" part", c.evPos(ev), "%s sends something made from the %s instead of the list", fname(fn), kind)
		}
	}
	exits := c.Explore(an, fn)
	return h, exits
}

// isHeaderTerm: the term is the header of the response.
func isHeaderTerm(t, w *flow.Term) bool {
	t = strip(t)
	return t.Op == flow.OCall && strings.HasSuffix(t.Aux, "ResponseWriter).Header")
}

func runC19(c *Ctx) {
	wait := optionVar(c.P, octoT, "output.wait")
	c.Expect(wait != nil, "gate", "wait option", "", "the option output.wait is not found")
	var handlers []*ssa.Function
	for _, fn := range moduleFuncs(c.P, octoT) {
		if isHandler(fn) && !wrapsHandler(fn) {
			handlers = append(handlers, fn)
		}
	}
	dataOf := map[*ssa.Function]string{}
	served := map[string]int{}
	for _, fn := range handlers {
		h, exits := exploreHandler(c, fn)
		kinds := []string{}
		for k := range h.writes {
			kinds = append(kinds, k)
		}
		sort.Strings(kinds)
		if len(kinds) == 0 {
			c.OK("gate", fname(fn)+" sends no list")
			continue
		}
		dataOf[fn] = kinds[0]
		served[kinds[0]]++
		for _, e := range exits {
			if e.Kind != "return" {
				continue
			}
			st := e.St
			yes := flagIs(st, "Stable", true) || flagIs(st, "HasPreviousStable", true) || optionIs(st, wait, false)
			no := flagIs(st, "Stable", false) && flagIs(st, "HasPreviousStable", false) && optionIs(st, wait, true)
			status := st.Ghost("status")
			pos := c.Pos(e.Instr)
			switch {
			case no:
				c.Expect(status == h.an.W.Int(503), "refused", fname(fn), pos, "%s answers with status %v while waiting for a stable state", fname(fn), status)
			case yes:
				ok := st.Ghost("data") != nil || status == h.an.W.Int(304) && h.matched(st) || h.unencodable(st)
				c.Expect(ok, "answer", fname(fn), pos, "%s answers with status %v and without the list although it may be served: %s", fname(fn), status, facts(st))
			default:
				c.Fail("gate", fname(fn)+" undecided", pos, "%s ends on a path where it is not known whether the list may be served: %s", fname(fn), facts(st))
			}
		}
	}
	c.Expect(served["ROA list"] > 0 && served["resource list"] > 0, "gate", "handlers", "", "the ROA list is served by %d handlers, the resource list by %d", served["ROA list"], served["resource list"])
	c19Routes(c, dataOf)
}

// matched: the client's validator equals one computed from the list.
func (h *handlerRun) matched(st *flow.State) bool {
	return hasLit(st, func(t *flow.Term, v bool) bool {
		if !v || t.Op != flow.OEq {
			return false
		}
		for i, x := range t.Args {
			fromClient := x.Any(func(s *flow.Term) bool { return isCallTerm(s, "(net/http.Header).Get") })
			if fromClient && h.derived(t.Args[1-i]) != "" && h.tellsApart(t.Args[1-i]) {
				return true
			}
		}
		return false
	})
}

// tellsApart: the term is made of the time of generation or of the data of the list.
func (h *handlerRun) tellsApart(t *flow.Term) bool {
	return t.Any(func(x *flow.Term) bool {
		if h.whole[x] != "" {
			return true
		}
		n := x.FieldName()
		return n == "Generated" || n == "Data"
	})
}

// unencodable: the list could not be encoded.
func (h *handlerRun) unencodable(st *flow.State) bool {
	return hasLit(st, func(t *flow.Term, v bool) bool {
		if v || t.Op != flow.OEq {
			return false
		}
		for i, x := range t.Args {
			if x == h.an.W.Nil && t.Args[1-i].Any(func(y *flow.Term) bool { return y.Op == flow.OCall && strings.Contains(short(y.Aux), "encoding/json") }) {
				return true
			}
		}
		return false
	})
}

// wrapsHandler: the function is given another handler to call.
func wrapsHandler(fn *ssa.Function) bool {
	if strings.HasSuffix(fn.Name(), "$bound") {
		return true
	}
	for _, f := range fn.FreeVars {
		t := f.Type()
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		if s, ok := t.Underlying().(*types.Signature); ok && s.Params().Len() == 2 && ownerName(s.Params().At(0).Type()) == "net/http.ResponseWriter" {
			return true
		}
		if ownerName(t) == "net/http.Handler" {
			return true
		}
	}
	return false
}

// c19Routes: the paths lead to the handlers.
func c19Routes(c *Ctx, dataOf map[*ssa.Function]string) {
	roa, health := optionVar(c.P, octoT, "output.roa"), optionVar(c.P, octoT, "http.health")
	found := map[string]bool{}
	for _, fn := range moduleFuncs(c.P, octoT) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || ci.Common().StaticCallee() == nil {
					continue
				}
				n := flow.FuncName(ci.Common().StaticCallee())
				if n != "(*net/http.ServeMux).HandleFunc" && n != "(*net/http.ServeMux).Handle" && n != "net/http.HandleFunc" && n != "net/http.Handle" {
					continue
				}
				args := ci.Common().Args
				opts, consts := pathParts(c.P, fn, args[len(args)-2])
				hs := handlersIn(c, args[len(args)-1])
				switch {
				case opts[roa]:
					found["roa"] = true
					c.Expect(anyHandler(hs, func(h *ssa.Function) bool { return dataOf[h] == "ROA list" }), "routes", "ROA path", c.Pos(in), "the ROA path does not lead to the handler that serves the ROA list")
				case opts[health]:
					found["health"] = true
					if c.Expect(len(hs) > 0, "routes", "health path", c.Pos(in), "the health path leads to no handler") {
						for _, h := range hs {
							c19Health(c, h)
						}
					}
				case consts["/resources.json"]:
					found["resources"] = true
					c.Expect(anyHandler(hs, func(h *ssa.Function) bool { return dataOf[h] == "resource list" }), "routes", "resource path", c.Pos(in), "the resource path does not lead to the handler that serves the resource list")
				}
			}
		}
	}
	for _, k := range []string{"roa", "health", "resources"} {
		c.Expect(found[k], "routes", k, "", "no handler is registered for the %s path", k)
	}
}

func anyHandler(hs []*ssa.Function, ok func(*ssa.Function) bool) bool {
	for _, h := range hs {
		if ok(h) {
			return true
		}
	}
	return false
}

// pathParts are the options and constants a string is made of.
func pathParts(P *flow.Program, fn *ssa.Function, v ssa.Value) (opts map[*ssa.Global]bool, consts map[string]bool) {
	opts, consts = map[*ssa.Global]bool{}, map[string]bool{}
	seen := map[ssa.Value]bool{}
	var rec func(fn *ssa.Function, v ssa.Value)
	rec = func(fn *ssa.Function, v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		for _, o := range origins(P, fn, v) {
			switch x := o.V.(type) {
			case *ssa.BinOp:
				rec(o.Fn, x.X)
				rec(o.Fn, x.Y)
			case *ssa.Const:
				if x.Value != nil {
					consts[strings.Trim(x.Value.ExactString(), `"`)] = true
				}
			case *ssa.UnOp:
				if ld, ok := x.X.(*ssa.UnOp); ok && isOption(ld) {
					opts[ld.X.(*ssa.Global)] = true
				}
			case *ssa.Call:
				for _, a := range x.Call.Args {
					if isStringT(a.Type()) {
						rec(o.Fn, a)
					}
				}
			}
		}
	}
	rec(fn, v)
	return
}

// handlersIn are the handlers of the repository a handler value is made of, without wrappers.
func handlersIn(c *Ctx, v ssa.Value) (out []*ssa.Function) {
	seen := map[ssa.Value]bool{}
	have := map[*ssa.Function]bool{}
	var rec func(v ssa.Value, d int)
	add := func(fn *ssa.Function) {
		if strings.HasSuffix(fn.Name(), "$bound") {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() != nil {
						fn = ci.Common().StaticCallee()
					}
				}
			}
		}
		if isHandler(fn) && c.P.InModule(fn) && !wrapsHandler(fn) && !have[fn] {
			have[fn] = true
			out = append(out, fn)
		}
	}
	rec = func(v ssa.Value, d int) {
		if v == nil || seen[v] || d > 8 {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Function:
			add(x)
		case *ssa.MakeClosure:
			add(x.Fn.(*ssa.Function))
			for _, b := range x.Bindings {
				rec(b, d+1)
			}
		case *ssa.Call:
			for _, a := range x.Call.Args {
				rec(a, d+1)
			}
		case *ssa.UnOp:
			if al, ok := x.X.(*ssa.Alloc); ok {
				for _, r := range *al.Referrers() {
					if s, ok := r.(*ssa.Store); ok && s.Addr == al {
						rec(s.Val, d+1)
					}
				}
			}
		default:
			if in, ok := v.(ssa.Instruction); ok {
				for _, op := range in.Operands(nil) {
					rec(*op, d+1)
				}
			}
		}
	}
	rec(v, 0)
	return
}

func c19Health(c *Ctx, fn *ssa.Function) {
	h, exits := exploreHandler(c, fn)
	w := h.an.W
	yesN, noN := 0, 0
	for _, e := range exits {
		if e.Kind != "return" {
			c.Fail("health", "exit", c.Pos(e.Instr), "the health handler may end with %s", e.Kind)
			continue
		}
		st := e.St
		status := st.Ghost("status")
		if status == nil {
			status = w.Int(200)
		}
		switch {
		case flagIs(st, "Stable", true) || flagIs(st, "HasPreviousStable", true):
			yesN++
			c.Expect(status == w.Int(200), "health", "stable", c.Pos(e.Instr), "the health endpoint answers %s although the current or previous state is stable: %s", status, facts(st))
		case flagIs(st, "Stable", false) && flagIs(st, "HasPreviousStable", false):
			noN++
			c.Expect(status == w.Int(503), "health", "unstable", c.Pos(e.Instr), "the health endpoint answers %s although neither the current nor the previous state is stable: %s", status, facts(st))
		default:
			c.Fail("health", "undecided", c.Pos(e.Instr), "the health endpoint answers %s without regard to both states: %s", status, facts(st))
		}
	}
	c.Expect(yesN > 0 && noN > 0, "health", "both answers", c.PosOf(fn.Pos()), "the health endpoint does not distinguish stable and unstable states")
}
