package main

import (
	"go/token"
	"go/types"
	"strings"

	"verif/checker/flow"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C15",
		Technique: "definite-assignment analysis of every HTTP client made in the module, typestate of response bodies and processes over the predicate dataflow (opened/closed, started/waited), use rules for response bodies, origin analysis of deadlines",
		Rule:      "Every http.Client made in the module has its Timeout set to a positive duration (constant or operator option with a positive default) before it is used for anything else, none is changed to an unbounded one, and the default client, its package-level shortcuts, bare transports and direct dialling are not used. On every path of a function that performs a request the body of a received response is closed; the body is given to nothing but Close and a reader with a constant size limit; a path that ends without an error has found the status to be 200. Every command is made with a context that has a deadline of a positive duration, and on every path after it was started it is waited for.",
		Note:      "Libraries that are handed a client (Certificate Transparency) read their own replies; what they do with them is outside the property. Operator options set to zero or less are the operator's choice.",
		Run:       runC15})
}

// flagCall is the call that made the command line option behind a variable.
func flagCall(g *ssa.Global) *ssa.Call {
	if g.Pkg == nil || g.Pkg.Func("init") == nil {
		return nil
	}
	for _, b := range g.Pkg.Func("init").Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok && st.Addr == g {
				if c, ok := st.Val.(*ssa.Call); ok && strings.HasPrefix(callName(c.Common()), "flag.") {
					return c
				}
			}
		}
	}
	return nil
}

// positive: the number is a positive constant, an operator option with a positive default, or
// made of such.
func positive(P *flow.Program, fn *ssa.Function, v ssa.Value, depth int) bool {
	if depth > 8 {
		return false
	}
	src := origins(P, fn, v)
	for _, s := range src {
		switch x := s.V.(type) {
		case *ssa.Const:
			if n, ok := intConst(x); !ok || n <= 0 {
				return false
			}
		case *ssa.BinOp:
			if x.Op != token.MUL && x.Op != token.ADD || !positive(P, s.Fn, x.X, depth+1) || !positive(P, s.Fn, x.Y, depth+1) {
				return false
			}
		case *ssa.UnOp:
			if x.Op != token.MUL || !isOption(x.X) {
				return false
			}
			c := flagCall(x.X.(*ssa.UnOp).X.(*ssa.Global))
			if c == nil || len(c.Call.Args) < 2 {
				return false
			}
			if n, ok := intConst(c.Call.Args[1]); !ok || n <= 0 {
				return false
			}
		default:
			return false
		}
	}
	return len(src) > 0
}

func isNamed(t types.Type, pkg, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg && n.Obj().Name() == name
}

func isPtrTo(t types.Type, pkg, name string) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && isNamed(p.Elem(), pkg, name)
}

func isNamedFieldAddr(fa *ssa.FieldAddr, pkg, typ, field string) bool {
	if !isPtrTo(fa.X.Type(), pkg, typ) {
		return false
	}
	st, ok := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	return ok && st.Field(fa.Field).Name() == field
}

func dominates(a, b ssa.Instruction) bool {
	if a.Block() != b.Block() {
		return a.Block().Dominates(b.Block())
	}
	for _, in := range a.Block().Instrs {
		if in == a {
			return true
		}
		if in == b {
			return false
		}
	}
	return false
}

func reachableBlock(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, a.Succs...)
	for len(work) > 0 {
		x := work[0]
		work = work[1:]
		if seen[x] {
			continue
		}
		seen[x] = true
		if x == b {
			return true
		}
		work = append(work, x.Succs...)
	}
	return false
}

// clientTimed: the client behind the pointer has a timeout before it is used for anything.
func clientTimed(c *Ctx, fn *ssa.Function, v ssa.Value, depth int) (bool, string) {
	if v.Referrers() == nil || depth > 5 {
		return false, "its uses are not known"
	}
	var set []*ssa.Store
	var uses []ssa.Instruction
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.DebugRef:
		case *ssa.FieldAddr:
			name := isNamedFieldAddr(x, "net/http", "Client", "Timeout")
			for _, rr := range *x.Referrers() {
				if s, ok := rr.(*ssa.Store); ok && s.Addr == x && name {
					set = append(set, s) // its value is judged with all other stores
				}
			}
		case *ssa.Store:
			if x.Addr != v {
				uses = append(uses, x)
			}
		default:
			uses = append(uses, r)
		}
	}
	for _, u := range uses {
		ok := false
		for _, s := range set {
			ok = ok || dominates(s, u)
		}
		if ok {
			continue
		}
		// handed to the callers, which set it
		if _, ret := u.(*ssa.Return); ret && !exportedAPI(fn) {
			n, good := 0, true
			for _, g := range moduleFuncs(c.P) {
				calls(g, func(in ssa.CallInstruction, _ string) {
					if in.Common().StaticCallee() == fn && in.Value() != nil {
						n++
						k, _ := clientTimed(c, g, in.Value(), depth+1)
						good = good && k
					}
				})
			}
			if n > 0 && good {
				continue
			}
		}
		return false, "it is used at " + c.PosOf(u.Pos()) + " without a timeout"
	}
	// a copy of another client taken after the timeout was set replaces it
	for _, r := range *v.Referrers() {
		if x, ok := r.(*ssa.Store); ok && x.Addr == v {
			for _, s := range set {
				if dominates(s, x) || reachableBlock(s.Block(), x.Block()) {
					return false, "it is overwritten at " + c.PosOf(x.Pos()) + " after its timeout was set"
				}
			}
		}
	}
	return true, ""
}

func runC15(c *Ctx) {
	c15Clients(c)
	c15Requests(c)
	c15Commands(c)
}

func c15Clients(c *Ctx) {
	for _, fn := range moduleFuncs(c.P) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Alloc:
					if isNamed(x.Type().Underlying().(*types.Pointer).Elem(), "net/http", "Client") {
						ok, why := clientTimed(c, fn, x, 0)
						c.Expect(ok, "client", fname(fn), c.Pos(in), "the HTTP client made in %s has no timeout: %s", fname(fn), why)
					}
				case *ssa.Store:
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok && isNamedFieldAddr(fa, "net/http", "Client", "Timeout") {
						c.Expect(positive(c.P, fn, x.Val, 0), "timeout", fname(fn), c.Pos(in), "the timeout that %s gives to an HTTP client is not a positive duration", fname(fn))
					}
					if isNamed(x.Val.Type(), "net/http", "Client") {
						if _, ok := x.Addr.(*ssa.Alloc); !ok {
							c.Fail("client", fname(fn)+" copies a client", c.Pos(in), "%s overwrites an HTTP client", fname(fn))
						}
					}
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "net/http" && (g.Name() == "DefaultClient" || g.Name() == "DefaultTransport") {
						c.Fail("client", fname(fn)+": "+g.Name(), c.Pos(in), "%s uses http.%s, which has no timeout", fname(fn), g.Name())
					}
				}
			}
		}
		calls(fn, func(in ssa.CallInstruction, name string) {
			switch name {
			case "net/http.Get", "net/http.Post", "net/http.Head", "net/http.PostForm", "(net/http.RoundTripper).RoundTrip", "(*net/http.Transport).RoundTrip",
				"net.Dial", "crypto/tls.Dial", "(*net.Dialer).Dial", "net.DialTCP", "net.DialUDP", "net/rpc.Dial", "(*crypto/tls.Dialer).Dial":
				c.Fail("client", fname(fn)+": "+name, c.Pos(in), "%s calls %s, which has no time limit", fname(fn), name)
			}
		})
	}
	c.AtLeast("client", 3)
	c.AtLeast("timeout", 3)
}

var requestFns = []string{"(*net/http.Client).Do", "(*net/http.Client).Get", "(*net/http.Client).Post", "(*net/http.Client).Head", "(*net/http.Client).PostForm"}

func in(s string, l []string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func resultHas(fn *ssa.Function, f func(t types.Type) bool) bool {
	r := fn.Signature.Results()
	for i := 0; i < r.Len(); i++ {
		if f(r.At(i).Type()) {
			return true
		}
	}
	return false
}

func errResult(fn *ssa.Function) int {
	r := fn.Signature.Results()
	if r.Len() > 0 && r.At(r.Len()-1).Type().String() == "error" {
		return r.Len() - 1
	}
	return -1
}

// readLimit is the largest size a reply may have.
const readLimit = int64(1) << 36

func c15Requests(c *Ctx) {
	// the functions to analyse: those that perform requests, or their callers when they only pass
	// the response on
	roots := map[*ssa.Function]bool{}
	sites := map[ssa.Instruction]bool{}
	var up func(fn *ssa.Function, depth int)
	up = func(fn *ssa.Function, depth int) {
		passes := resultHas(fn, func(t types.Type) bool {
			s := t.String()
			return isPtrTo(t, "net/http", "Response") || s == "io.Reader" || s == "io.ReadCloser"
		})
		for fn.Parent() != nil && !passes {
			fn = fn.Parent()
		}
		cs := staticCallers(c.P, fn)
		if passes && depth < 5 && len(cs) > 0 {
			for g := range cs {
				up(g, depth+1)
			}
			return
		}
		roots[fn] = true
	}
	for _, fn := range moduleFuncs(c.P) {
		calls(fn, func(i ssa.CallInstruction, name string) {
			if in(name, requestFns) {
				sites[i] = true
				up(fn, 0)
			}
		})
	}
	seen := map[ssa.Instruction]bool{}
	for fn := range roots {
		c15Request(c, fn, seen)
	}
	for s := range sites {
		c.Expect(seen[s], "request", fname(s.Parent()), c.Pos(s), "the HTTP request of %s could not be analysed", fname(s.Parent()))
	}
	c.AtLeast("request", 3)
	c.AtLeast("body", 3)
	c.AtLeast("closed", 3)
	c.AtLeast("status", 3)
}

func c15Request(c *Ctx, fn *ssa.Function, seen map[ssa.Instruction]bool) {
	an := c.NewAnalyzer()
	w := an.W
	an.Record = func(ev *flow.Event) bool {
		return isCall(ev, requestFns...)
	}
	respOf := func(ev *flow.Event) *flow.Term {
		if ev.Res == nil {
			return nil
		}
		sig := ev.Instr.(ssa.CallInstruction).Common().Signature()
		if ev.Res.Op == flow.OTuple {
			return ev.Res.Args[0]
		}
		return w.Extract(ev.Res, 0, sig.Results().At(0).Type())
	}
	bodyOf := func(st *flow.State, t *flow.Term) bool {
		r := st.Ghost("resp")
		return r != nil && t != nil && strip(t) == st.Path(r, "Body")
	}
	closes := func(ev *flow.Event) bool {
		return (ev.Kind == "call" || ev.Kind == "defer") && strings.HasSuffix(ev.Name, ").Close") && len(ev.Args) == 1
	}
	label := fname(fn)
	open := func(st *flow.State) bool {
		r, e := st.Ghost("resp"), st.Ghost("err")
		return r != nil && st.Ghost("closed") != w.True && !st.NonNil(e)
	}
	an.OnEvent = func(st *flow.State, ev *flow.Event) {
		if isCall(ev, requestFns...) {
			seen[ev.Instr] = true
			c.Expect(!open(st), "closed", label, c.evPos(ev), "%s performs another request while the reply of the last is not closed: %s", label, facts(st))
			st.SetGhost("resp", respOf(ev))
			st.SetGhost("err", errOf(w, ev))
			st.SetGhost("closed", w.False)
			return
		}
		if closes(ev) && bodyOf(st, ev.Args[0]) {
			c.Expect(st.IsNil(st.Ghost("err")), "body", label+": use", c.evPos(ev), "%s uses the reply of a request that may have failed: %s", label, facts(st))
			st.SetGhost("closed", w.True)
			return
		}
		for i, a := range ev.Args {
			if !bodyOf(st, a) {
				continue
			}
			switch {
			case isCall(ev, "net/http.MaxBytesReader", "io.LimitReader"):
				lim := ev.Args[len(ev.Args)-1]
				n, ok := lim.IsInt()
				ok = ok && n > 0 && n <= readLimit
				c.Expect(ok, "body", label+": limit", c.evPos(ev), "%s reads a reply without a constant size limit: %s", label, lim)
			case ev.Kind == "store" && i == 1 && strings.Contains(ev.Name, "io.LimitedReader.R"):
				c.OK("body", label+": limit")
			case ev.Kind == "store" && i == 1 && ev.Args[0].Op == flow.OAlloc:
			case ev.Kind == "store" && i == 0, ev.Kind == "load":
			case ev.Kind == "call" && ev.Fn != nil && c.P.InModule(ev.Fn) && len(ev.Fn.Blocks) > 0:
				// analysed as part of this function
			default:
				c.Fail("body", label+": "+short(ev.Name), c.evPos(ev), "%s gives the body of a reply to %s without a size limit: %s", label, ev.Name, facts(st))
			}
		}
	}
	an.OnBack = func(st *flow.State, fr *flow.Frame, h *ssa.BasicBlock) {
		if st.Ghost("resp") == nil {
			return
		}
		c.Expect(!open(st), "closed", label, loopPos(c, h), "%s goes on without closing the reply of its request: %s", label, facts(st))
	}
	ei := errResult(fn)
	n := 0
	for _, e := range c.Explore(an, fn) {
		if e.Kind != "return" {
			continue
		}
		r, er := e.St.Ghost("resp"), e.St.Ghost("err")
		if r == nil {
			continue
		}
		n++
		pos := c.Pos(e.Instr)
		c.Expect(!open(e.St), "closed", label, pos, "%s ends without closing the reply of its request: %s", label, facts(e.St))
		bad := false
		if ei >= 0 {
			bad = e.St.NonNil(e.Results[ei])
		} else {
			for _, x := range e.Results {
				bad = bad || x.Typ != nil && types.Identical(x.Typ.Underlying(), boolT) && e.St.Excludes(flow.Lit(x))
			}
		}
		if bad || len(e.Results) == 0 {
			continue
		}
		// a failed request is not turned into data either
		s := e.St.Path(r, "StatusCode")
		c.Expect(s != nil && e.St.IsNil(er) && e.St.Entails(eqf(w, s, w.Int(200))), "status", label, pos, "%s succeeds without the request having succeeded with status 200: %s", label, facts(e.St))
	}
	c.Expect(n > 0, "request", label, c.PosOf(fn.Pos()), "no path of %s performs its request", label)
}

// deadline: the context was made with a deadline.
func deadline(P *flow.Program, fn *ssa.Function, v ssa.Value, depth int) bool {
	src := origins(P, fn, v)
	for _, s := range src {
		call, ok := s.V.(*ssa.Call)
		if !ok || depth > 5 {
			return false
		}
		switch callName(call.Common()) {
		case "context.WithTimeout", "context.WithTimeoutCause":
			if !positive(P, s.Fn, call.Call.Args[1], 0) {
				return false
			}
		case "context.WithDeadline", "context.WithDeadlineCause":
			add, ok := call.Call.Args[1].(*ssa.Call)
			if !ok || callName(add.Common()) != "(time.Time).Add" || !positive(P, s.Fn, add.Call.Args[1], 0) {
				return false
			}
			if now, ok := add.Call.Args[0].(*ssa.Call); !ok || callName(now.Common()) != "time.Now" {
				return false
			}
		case "context.WithCancel", "context.WithValue":
			if !deadline(P, s.Fn, call.Call.Args[0], depth+1) {
				return false
			}
		default:
			return false
		}
	}
	return len(src) > 0
}

func c15Commands(c *Ctx) {
	roots := map[*ssa.Function]bool{}
	for _, fn := range moduleFuncs(c.P) {
		calls(fn, func(i ssa.CallInstruction, name string) {
			if !isExec(name) && name != "os.StartProcess" && name != "syscall.ForkExec" {
				return
			}
			if name != "os/exec.CommandContext" {
				c.Fail("deadline", fname(fn), c.Pos(i), "%s runs a command without a deadline (%s)", fname(fn), name)
				return
			}
			// the library functions take the context of their callers
			c.Expect(libDeadline(c, fn, i.Common().Args[0], 0), "deadline", fname(fn), c.Pos(i), "the context of the command run in %s is not known to have a deadline", fname(fn))
			r := fn
			for r.Parent() != nil {
				r = r.Parent()
			}
			for k := 0; k < 4 && resultHas(r, func(t types.Type) bool { return isPtrTo(t, "os/exec", "Cmd") }); k++ {
				for g := range staticCallers(c.P, r) {
					r = g
				}
			}
			roots[r] = true
		})
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if a, ok := in.(*ssa.Alloc); ok && isNamed(a.Type().Underlying().(*types.Pointer).Elem(), "os/exec", "Cmd") {
					c.Fail("deadline", fname(fn), c.Pos(in), "%s makes a command without a deadline", fname(fn))
				}
				if s, ok := in.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok && isNamedFieldAddr(fa, "os/exec", "Cmd", "Cancel") {
						c.Fail("deadline", fname(fn)+": Cancel", c.Pos(in), "%s replaces what happens to a command at its deadline", fname(fn))
					}
				}
			}
		}
	}
	c.AtLeast("deadline", 1)
	for fn := range roots {
		an := c.NewAnalyzer()
		w := an.W
		label := fname(fn)
		started := 0
		an.Record = func(ev *flow.Event) bool { return false }
		running := func(st *flow.State) bool {
			e := st.Ghost("start")
			return e != nil && st.Ghost("waited") != w.True && !st.NonNil(e)
		}
		an.OnEvent = func(st *flow.State, ev *flow.Event) {
			if ev.Kind != "call" {
				return
			}
			switch short(ev.Name) {
			case "(*os/exec.Cmd).Start":
				started++
				c.Expect(!running(st), "wait", label, c.evPos(ev), "%s starts another command while one is not waited for", label)
				st.SetGhost("cmd", ev.Args[0])
				st.SetGhost("start", errOf(w, ev))
				st.SetGhost("waited", w.False)
			case "(*os/exec.Cmd).Run", "(*os/exec.Cmd).Output", "(*os/exec.Cmd).CombinedOutput":
				started++
				c.OK("wait", label)
			case "(*os/exec.Cmd).Wait":
				if st.Ghost("cmd") == ev.Args[0] {
					st.SetGhost("waited", w.True)
				}
			case "os/exec.CommandContext":
				c.OK("command", label)
			}
		}
		an.OnBack = func(st *flow.State, fr *flow.Frame, h *ssa.BasicBlock) {}
		for _, e := range c.Explore(an, fn) {
			if e.Kind != "return" || e.St.Ghost("start") == nil {
				continue
			}
			c.Expect(!running(e.St), "wait", label, c.Pos(e.Instr), "%s ends without waiting for the command it started: %s", label, facts(e.St))
		}
		c.Expect(started > 0, "wait", label, c.PosOf(fn.Pos()), "%s does not start its command", label)
	}
	c.AtLeast("wait", 1)
}

// libDeadline resolves contexts through the parameters of exported functions too.
func libDeadline(c *Ctx, fn *ssa.Function, v ssa.Value, depth int) bool {
	if deadline(c.P, fn, v, 0) {
		return true
	}
	p, ok := v.(*ssa.Parameter)
	if !ok || depth > 5 {
		if x, ok := v.(*ssa.Extract); ok {
			if call, ok := x.Tuple.(*ssa.Call); ok && (callName(call.Common()) == "context.WithCancel") {
				return libDeadline(c, fn, call.Call.Args[0], depth+1)
			}
		}
		return false
	}
	k := -1
	for i, q := range fn.Params {
		if q == p {
			k = i
		}
	}
	n, good := 0, true
	for _, g := range moduleFuncs(c.P) {
		calls(g, func(in ssa.CallInstruction, _ string) {
			if in.Common().StaticCallee() == fn {
				n++
				good = good && libDeadline(c, g, in.Common().Args[k], depth+1)
			}
		})
	}
	return n > 0 && good
}
