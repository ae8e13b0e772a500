package main

import (
	"go/types"
	"strings"

	"verif/checker/flow"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C12",
		Technique: "predicate dataflow over SSA (facts at every file-system sink of the RRDP callback, at every binding and at the fetch), who-may-write query on the binding table",
		Rule:      "In every function installed as RRDP callback a file is only written when the object's URI is proven to begin with the non-empty domain handed to the callback, and it is written under that URI. The fetch hands its arguments and the URI of the element on unchanged; every fetch is given the domain bound to the very URL it fetches. The binding table is only written by the validation run, where facts state that the URL is unbound or bound to the same domain, where the URL and the domain come from the RRDP and repository access methods of the same certificate out of the valid objects, and where the domain is rsync://host/ of the repository. Nothing is removed from the table and it is not replaced.",
		Note:      "That WriteRsyncFileOnDisk stores a URI under its own path is C11.",
		Run:       runC12})
}

const octoT = "cmd/octorpki"

func runC12(c *Ctx) {
	rrdpCallbacks(c)
	callbackArgs(c)
	fetchDomain(c)
	binding(c)
	accessMethods(c)
	domainOf(c)
}

// boundFunc is the function behind a function value, nil when it cannot be told.
func boundFunc(P *flow.Program, v ssa.Value) *ssa.Function {
	switch x := v.(type) {
	case *ssa.Function:
		if x.Synthetic != "" {
			if o, ok := x.Object().(*types.Func); ok {
				return P.Prog.FuncValue(o)
			}
		}
		return x
	case *ssa.MakeClosure:
		return boundFunc(P, x.Fn)
	case *ssa.ChangeType:
		return boundFunc(P, x.X)
	}
	return nil
}

// rrdpCallbackFns are the functions installed as callback of an RRDP system.
func rrdpCallbackFns(c *Ctx) (out []*ssa.Function) {
	seen := map[*ssa.Function]bool{}
	storesField(c.P, "sync/lib", "RRDPSystem", "Callback", func(fn *ssa.Function, in *ssa.Store, addr *ssa.FieldAddr) {
		for _, s := range origins(c.P, fn, in.Val) {
			if k, ok := s.V.(*ssa.Const); ok && k.IsNil() {
				continue
			}
			f := boundFunc(c.P, s.V)
			if f == nil || len(f.Blocks) == 0 {
				c.Fail("callback", "value in "+fname(fn), c.Pos(in), "the function installed as RRDP callback cannot be told")
				continue
			}
			if !seen[f] {
				seen[f] = true
				out = append(out, f)
			}
		}
	})
	c.Expect(len(out) > 0, "callback", "installed", "", "no RRDP callback is installed")
	return
}

// cbParams finds the parameters of a callback by position: URI, data and the extra arguments.
func cbParams(args []*flow.Term, fn *ssa.Function) (main, uri, data, extra *flow.Term, ok bool) {
	o := 0
	if fn.Signature.Recv() != nil {
		o = 1
	}
	// closures and bound methods have the callback's own eight parameters last
	o = len(fn.Params) - 8
	if o < 0 || len(args) < o+8 {
		return
	}
	return args[o], args[o+2], args[o+3], args[o+7], true
}

// startsWith: facts state that s begins with p.
func startsWith(st *flow.State, s, p *flow.Term) bool {
	w := st.W()
	if st.Entails(flow.Lit(w.Call("strings.HasPrefix", types.Typ[types.Bool], s, p))) {
		return true
	}
	return hasLit(st, func(t *flow.Term, v bool) bool {
		if !v {
			return false
		}
		if isCallTerm(t, "strings.HasPrefix") {
			return w.Shape(t.Args[0]) == w.Shape(s) && w.Shape(t.Args[1]) == w.Shape(p)
		}
		if t.Op == flow.OExtract && t.Aux == "1" && isCallTerm(t.Args[0], "strings.CutPrefix") {
			a := t.Args[0].Args
			return w.Shape(a[0]) == w.Shape(s) && w.Shape(a[1]) == w.Shape(p)
		}
		if t.Op == flow.OEq {
			for i, x := range t.Args { // s[:len(p)] == p
				if x.Op == flow.OSlice && w.Shape(x.Args[0]) == w.Shape(s) && x.Args[1].Op == flow.ONil && x.Args[2] == w.Len(p) && w.Shape(t.Args[1-i]) == w.Shape(p) {
					return true
				}
			}
		}
		return false
	})
}

// notEmpty: facts state that the text is not empty.
func notEmpty(st *flow.State, t *flow.Term) bool {
	w := st.W()
	return st.Entails(flow.Neg(flow.Lit(w.OrdEq(w.Len(t), w.Int(0)))))
}

// domainArg: t is the first extra argument as a string.
func domainArg(t, extra *flow.Term) bool {
	t = strip(t)
	if t == nil || t.Op != flow.OAssert && !(t.Op == flow.OExtract && t.Aux == "0" && t.Args[0].Op == flow.OAssert) {
		return false
	}
	if t.Op == flow.OExtract {
		t = t.Args[0]
	}
	x := t.Args[0]
	if x.Op == flow.ODeref && x.Args[0].Op == flow.OIndexAddr {
		x = x.Args[0]
	}
	if x.Op != flow.OIndex && x.Op != flow.OIndexAddr {
		return false
	}
	i, ok := x.Args[1].IsInt()
	return ok && i == 0 && x.Args[0] == extra
}

func rrdpCallbacks(c *Ctx) {
	for _, fn := range rrdpCallbackFns(c) {
		fn := fn
		an := c.NewAnalyzer()
		an.MaxFacts = 40
		args := an.ParamTerms(fn)
		main, uri, data, extra, ok := cbParams(args, fn)
		if !ok {
			c.Fail("callback", "parameters of "+fname(fn), c.PosOf(fn.Pos()), "the parameters of %s are not those of a callback", fname(fn))
			continue
		}
		an.Opaque = opaque("(*cmd/octorpki.OctoRPKI).WriteRsyncFileOnDisk")
		n := 0
		an.Record = func(ev *flow.Event) bool { return false }
		an.OnEvent = func(st *flow.State, ev *flow.Event) {
			store := isCall(ev, "(*cmd/octorpki.OctoRPKI).WriteRsyncFileOnDisk")
			if ev.Kind != "call" || !store && fsSinks[ev.Name] == nil && !isExec(ev.Name) {
				return
			}
			n++
			pos := c.evPos(ev)
			w := st.W()
			// the domain: the first extra argument, or the table entry of the server
			proven := false
			lits(st, func(t *flow.Term, v bool) {
				var cands []*flow.Term
				if v && isCallTerm(t, "strings.HasPrefix") {
					cands = append(cands, t.Args[1])
				}
				if v && t.Op == flow.OExtract && isCallTerm(t.Args[0], "strings.CutPrefix") {
					cands = append(cands, t.Args[0].Args[1])
				}
				if v && t.Op == flow.OEq {
					cands = append(cands, t.Args...)
				}
				for _, d := range cands {
					bound := d.Op == flow.OLookup && isRef(d.Args[0], "rrdpFetchDomain") && d.Args[1] == main
					if (domainArg(d, extra) || bound) && startsWith(st, uri, d) && notEmpty(st, d) {
						proven = true
					}
				}
			})
			c.Expect(proven, "callback", "domain in "+fname(fn), pos, "an object is stored though its URI is not proven to begin with the domain its server is bound to: %s, knowing %s", short(ev.Name), facts(st))
			if store {
				c.Expect(w.Shape(ev.Args[1]) == w.Shape(uri) && ev.Args[2] == data, "callback", "what is stored by "+fname(fn), pos, "what is stored is not the element received under its own URI: %s, %s", ev.Args[1], ev.Args[2])
			} else {
				for _, i := range fsSinks[ev.Name] {
					c.Expect(mentions(ev.Args[i], uri), "callback", "what is stored by "+fname(fn), pos, "the place of what is stored is not computed from the URI that was checked: %s", ev.Args[i])
				}
			}
		}
		c.Explore(an, fn)
		c.Expect(n > 0, "callback", "stores", c.PosOf(fn.Pos()), "%s stores nothing", fname(fn))
	}
}

// mentions: x occurs in t.
func mentions(t, x *flow.Term) bool {
	if t == x {
		return true
	}
	for _, a := range t.Args {
		if mentions(a, x) {
			return true
		}
	}
	return false
}

// fetchOpaque keeps the documents of a fetch symbolic.
var fetchOpaque = []string{"sync/lib.ParseRoot", "sync/lib.ParseNode", "sync/lib.DecodeRRDPBase64"}

func isCallback(ev *flow.Event) bool {
	return ev.Kind == "call" && strings.HasPrefix(ev.Name, "dyn ") && strings.Contains(ev.Name, ".Callback") && len(ev.Args) == 8
}

// exploreFetch analyses one RRDP fetch.
func exploreFetch(c *Ctx, f func(st *flow.State, ev *flow.Event, an *flow.Analyzer, args []*flow.Term), prep func(an *flow.Analyzer)) ([]flow.Exit, *flow.Analyzer, []*flow.Term) {
	fn := c.Func("sync/lib", "*RRDPSystem", "FetchRRDP")
	if fn == nil {
		return nil, nil, nil
	}
	an := c.NewAnalyzer()
	an.Opaque = opaque(fetchOpaque...)
	args := an.ParamTerms(fn)
	an.OnEvent = func(st *flow.State, ev *flow.Event) { f(st, ev, an, args) }
	an.Record = func(ev *flow.Event) bool { return false }
	an.AssumeDeref = true
	if prep != nil {
		prep(an)
	}
	return c.Explore(an, fn), an, args
}

// elementURI: t is the URI of an element of a document; gives the element.
func docElem(t *flow.Term, field string) *flow.Term {
	if !isRef(t, field) {
		return nil
	}
	return refBase(t)
}

// callbackArgs: the fetch hands on its arguments and the URI and content of one element.
func callbackArgs(c *Ctx) {
	n := 0
	exploreFetch(c, func(st *flow.State, ev *flow.Event, an *flow.Analyzer, args []*flow.Term) {
		if !isCallback(ev) {
			return
		}
		n++
		pos := c.evPos(ev)
		a := ev.Args
		c.Expect(a[7] == args[1], "handed on", "arguments", pos, "the arguments of the fetch are not handed on to the callback: %s", a[7])
		c.Expect(isRef(a[0], "Path") && refBase(a[0]) == args[0], "handed on", "server", pos, "the callback is not told the URL that was fetched: %s", a[0])
		el := docElem(a[2], "URI")
		c.Expect(el != nil, "handed on", "URI", pos, "the callback is not given the URI of an element: %s", a[2])
		dec := a[3]
		ok := el != nil && dec.Op == flow.OExtract && dec.Aux == "0" && isCallTerm(dec.Args[0], "sync/lib.DecodeRRDPBase64") && docElem(dec.Args[0].Args[0], "Value") == el
		c.Expect(ok, "handed on", "content", pos, "the callback is not given the content of the element whose URI it gets: %s and %s", a[2], a[3])
	}, nil)
	c.Expect(n > 0, "handed on", "callback", "", "a fetch never calls its callback")
}

// fetchDomain: a fetch of a URL is given the domain bound to that URL.
func fetchDomain(c *Ctx) {
	fetch := c.Func("sync/lib", "*RRDPSystem", "FetchRRDP")
	if fetch == nil {
		return
	}
	for _, fn := range moduleFuncs(c.P) {
		hit := false
		calls(fn, func(in ssa.CallInstruction, n string) { hit = hit || in.Common().StaticCallee() == fetch })
		if !hit {
			continue
		}
		an := c.NewAnalyzer()
		an.Opaque = func(g *ssa.Function) bool { return g == fetch }
		an.ParamTerms(fn)
		n := 0
		an.Record = func(*flow.Event) bool { return false }
		an.OnEvent = func(st *flow.State, ev *flow.Event) {
			if ev.Kind != "call" || ev.Name != flow.FuncName(fetch) {
				return
			}
			n++
			pos := c.evPos(ev)
			url := st.Path(ev.Args[0], "Path")
			l := ev.Args[1]
			if l.Op != flow.OSliceLit || len(l.Args) != 1 {
				c.Fail("bound domain", "arguments in "+fname(fn), pos, "a fetch is not given exactly the domain its server is bound to: %s", l)
				return
			}
			d := l.Args[0]
			if d.Op == flow.OMkIface {
				d = d.Args[0]
			}
			bound := d.Op == flow.OLookup && isRef(d.Args[0], "rrdpFetchDomain") && url != nil && d.Args[1] == url
			c.Expect(bound, "bound domain", "domain in "+fname(fn), pos, "a fetch of %s is not given the domain bound to that URL: %s", url, d)
		}
		c.Explore(an, fn)
		c.Expect(n > 0, "bound domain", "fetch in "+fname(fn), c.PosOf(fn.Pos()), "the fetch in %s is never reached", fname(fn))
	}
	c.AtLeast("bound domain", 1)
}

// resourceOf: t is the certificate of a valid object of the validation run; gives the object.
func validCert(t *flow.Term) *flow.Term {
	t = strip(t)
	if t == nil || t.Op != flow.OAssert {
		return nil
	}
	r := t.Args[0]
	if !isRef(r, "Resource") {
		return nil
	}
	o := refBase(r)
	m := o
	if m.Op == flow.ODeref {
		m = m.Args[0]
	}
	if m.Op != flow.OLookup || !isRef(m.Args[0], "ValidObjects") {
		return nil
	}
	return o
}

// binding: the writes of the binding table.
func binding(c *Ctx) {
	n := 0
	writers := map[*ssa.Function]bool{}
	exploreMain(c, func(st *flow.State, ev *flow.Event, an *flow.Analyzer, args []*flow.Term) {
		if ev.Kind != "mapset" || !isRef(ev.Args[0], "rrdpFetchDomain") {
			return
		}
		n++
		w := an.W
		pos := c.evPos(ev)
		writers[ev.Frame.Fn] = true
		m, k, v := ev.Args[0], ev.Args[1], ev.Args[2]
		c.Expect(refBase(m) == args[0], "binding", "table", pos, "a binding is written to another table: %s", m)
		ok := false
		if isCallTerm(k, "(*validator/lib.RPKICertificate).GetRRDPGeneralName") && v.Op == flow.OExtract && v.Aux == "1" && isCallTerm(v.Args[0], "sync/lib.ExtractRsyncDomainModule") {
			g := v.Args[0].Args[0]
			if isCallTerm(g, "(*validator/lib.RPKICertificate).GetRsyncGeneralName") && g.Args[0] == k.Args[0] {
				ok = true
				c.Expect(validCert(k.Args[0]) != nil, "binding", "certificate", pos, "a server is bound by a certificate that is not taken from the valid objects: %s", k.Args[0])
				e := w.Extract(v.Args[0], 2, nil)
				c.Expect(st.Entails(eqf(w, e, w.Nil)), "binding", "domain known", pos, "a server is bound to the domain of a repository URI that was refused: %s", facts(st))
			}
		}
		c.Expect(ok, "binding", "pair", pos, "the RRDP URL and the domain bound to it are not those of one certificate: %s, %s", k, v)
		// not bound, or bound to the same
		same := hasLit(st, func(t *flow.Term, val bool) bool {
			if !val && t.Op == flow.OLookupOk && isRef(t.Args[0], "rrdpFetchDomain") && refBase(t.Args[0]) == args[0] && t.Args[1] == k {
				return true
			}
			if val && t.Op == flow.OEq {
				for i, x := range t.Args {
					if x.Op == flow.OLookup && isRef(x.Args[0], "rrdpFetchDomain") && refBase(x.Args[0]) == args[0] && x.Args[1] == k && t.Args[1-i] == v {
						return true
					}
				}
			}
			return false
		})
		if !same {
			val, present := st.Lookup(m, k, nil)
			same = st.Entails(flow.Or(not(present), eqf(w, val, v), eqf(w, val, w.Str(""))))
		}
		c.Expect(same, "binding", "rebinding", pos, "a server is bound though it may be bound to another domain already: %s", facts(st))
	})
	c.Expect(n > 0, "binding", "written", "", "the validation run binds no server")
	tableWriters(c, "binding", octoT, "OctoRPKI", "rrdpFetchDomain", func(fn *ssa.Function) bool {
		// every caller is the validation run
		if writers[fn] {
			for g := range staticCallers(c.P, fn) {
				if !writers[g] && !validationRunPart(c, g) {
					return false
				}
			}
			return true
		}
		return false
	}, func(fn *ssa.Function) bool { return false })
}

// staticCallers lists the functions of the module that call fn.
func staticCallers(P *flow.Program, fn *ssa.Function) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, g := range moduleFuncs(P) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op == fn {
						out[g] = true
					}
				}
			}
		}
	}
	return out
}

// validationRunPart: the function is the validation run or only called from it.
func validationRunPart(c *Ctx, g *ssa.Function) bool {
	main := mainValidationFn(c)
	seen := map[*ssa.Function]bool{}
	var up func(f *ssa.Function) bool
	up = func(f *ssa.Function) bool {
		if f == main || seen[f] {
			return true
		}
		seen[f] = true
		cs := staticCallers(c.P, f)
		if f.Parent() != nil {
			cs[f.Parent()] = true
		}
		for h := range cs {
			if !up(h) {
				return false
			}
		}
		return len(cs) > 0
	}
	return up(g)
}

// accessMethods: the names of a certificate are those of the right access method.
func accessMethods(c *Ctx) {
	for _, x := range []struct{ fn, oid string }{{"GetRRDPGeneralName", "lit(1,3,6,1,5,5,7,48,13)"}, {"GetRsyncGeneralName", "lit(1,3,6,1,5,5,7,48,5)"}} {
		fn := c.Func("validator/lib", "*RPKICertificate", x.fn)
		if fn == nil {
			continue
		}
		an := c.NewAnalyzer()
		an.AssumeDeref = true
		args := an.ParamTerms(fn)
		n := 0
		for _, e := range c.Explore(an, fn) {
			if e.Kind != "return" {
				continue
			}
			r := strip(e.Results[0])
			if s, ok := r.IsStr(); ok && s == "" {
				continue
			}
			n++
			ok := false
			if isRef(r, "GeneralName") {
				el := refBase(r)
				l, _ := loopElem(el)
				ok = l != nil && isRef(l, "SubjectInformationAccess") && refBase(l) == args[0] && hasLit(e.St, func(t *flow.Term, v bool) bool {
					if !v || !strings.HasSuffix(t.Aux, "ObjectIdentifier).Equal") && t.Op != flow.OEq || len(t.Args) < 2 {
						return false
					}
					a, b := t.Args[0], t.Args[1]
					is := func(p, q *flow.Term) bool {
						return isRef(p, "AccessMethod") && refBase(p) == el && q.String() == x.oid
					}
					return is(a, b) || is(b, a)
				})
			}
			c.Expect(ok, "access method", x.fn, c.Pos(e.Instr), "%s gives a name that is not known to be that of access method %s: %s, knowing %s", x.fn, x.oid, r, facts(e.St))
		}
		c.Expect(n > 0, "access method", x.fn+" finds", c.PosOf(fn.Pos()), "%s never gives a name", x.fn)
	}
}

// domainOf: the domain of a repository URI ends with the host.
func domainOf(c *Ctx) {
	fn := c.Func("sync/lib", "", "ExtractRsyncDomainModule")
	if fn == nil {
		return
	}
	an := c.NewAnalyzer()
	args := an.ParamTerms(fn)
	n := 0
	for _, e := range c.Explore(an, fn) {
		if e.Kind != "return" || e.St.NonNil(e.Results[2]) {
			continue
		}
		n++
		d := e.Results[1]
		ok := false
		w := an.W
		if d.Op == flow.OCat && len(d.Args) == 3 && isStr(d.Args[0], rsyncScheme) && isStr(d.Args[2], "/") {
			h := d.Args[1]
			if h.Op == flow.OCall && h.Aux == "fmt%s" {
				h = h.Args[0]
			}
			if h.Op == flow.ODeref && h.Args[0].Op == flow.OIndexAddr {
				h = h.Args[0]
			}
			if h.Op == flow.OIndex || h.Op == flow.OIndexAddr {
				i, isI := h.Args[1].IsInt()
				sp := h.Args[0]
				if sp.Op == flow.OSlice && (sp.Args[1].Op == flow.ONil) {
					sp = sp.Args[0]
				}
				if isI && i == 0 && isCallTerm(sp, "strings.Split", "strings.SplitN") && isStr(sp.Args[1], "/") {
					rest := sp.Args[0]
					switch {
					case rest.Op == flow.OSlice && rest.Args[0] == args[0] && rest.Args[2].Op == flow.ONil:
						k, kok := rest.Args[1].IsInt()
						ok = kok && k == int64(len(rsyncScheme))
					case isCallTerm(rest, "strings.TrimPrefix"):
						ok = rest.Args[0] == args[0] && isStr(rest.Args[1], rsyncScheme)
					}
					ok = ok && startsWith(e.St, args[0], w.Str(rsyncScheme))
				}
			}
		}
		c.Expect(ok, "domain", "form", c.Pos(e.Instr), "the domain of a repository URI is not rsync://, its host and a slash: %s", d)
	}
	c.Expect(n > 0, "domain", "given", c.PosOf(fn.Pos()), "no URI has a domain")
}
