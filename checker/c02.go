package main

import (
	"strings"

	"verif/checker/flow"
)

func init() {
	register(&Check{ID: "C02",
		Technique: "predicate dataflow over SSA (decision tables at function exits), call-graph query for wall-clock reads",
		Rule:      "For every exit of the window checks of certificates and ROAs: the error is nil exactly when notBefore<=T<=notAfter holds for the T passed in, as entailed by the branch facts of the path. At every exit of AddCert that reports the certificate valid, and at every write of the table of valid certificates, the window facts hold for the validator's Time field. In Explore a manifest's CA is invalidated for staleness exactly when thisUpdate<=T<=nextUpdate fails for the validator's Time. No function reachable from the validation entry points reads the wall clock, and only constructors and commands set the validator's time.",
		Note:      "Sound for the code analysed under the term abstraction: time comparisons are modelled by their documented meaning; all paths are covered by a fixpoint with joins.",
		Run:       runC02})
}

func windowOf(st *flow.State, cert, t *flow.Term) (flow.Formula, bool) {
	nb := st.Path(cert, "Certificate", "NotBefore")
	na := st.Path(cert, "Certificate", "NotAfter")
	if nb == nil || na == nil || t == nil {
		return flow.Formula{}, false
	}
	w := st.W()
	return and(w.OrdLe(nb, t), w.OrdLe(t, na)), true
}

func runC02(c *Ctx) {
	for _, x := range []struct {
		recv string
		cert []string
	}{{"*RPKICertificate", nil}, {"*RPKIROA", []string{"Certificate"}}} {
		fn := c.Func("validator/lib", x.recv, "ValidateTime")
		if fn == nil {
			continue
		}
		an := c.NewAnalyzer()
		args := an.ParamTerms(fn)
		n := 0
		for _, e := range c.Explore(an, fn) {
			if e.Kind != "return" {
				continue
			}
			cert := e.St.Path(args[0], x.cert...)
			win, ok := windowOf(e.St, cert, args[1])
			if !ok {
				c.Fail("window", fname(fn), c.Pos(e.Instr), "the validity bounds of the certificate are not found")
				continue
			}
			n++
			err := e.Results[0]
			switch {
			case e.St.IsNil(err):
				c.Expect(e.St.Entails(win), "window-accept", fname(fn), c.Pos(e.Instr), "a path accepts a time that is not known to satisfy notBefore<=T<=notAfter: %s", facts(e.St))
			case e.St.NonNil(err):
				bad := flow.Or(flow.Neg(win), flow.Lit(an.W.EqAtom(e.St.Path(cert, "Certificate"), an.W.Nil)))
				c.Expect(e.St.Entails(bad), "window-reject", fname(fn), c.Pos(e.Instr), "a path refuses a time that is not known to be outside notBefore<=T<=notAfter: %s", facts(e.St))
			default:
				c.Fail("window-accept", fname(fn), c.Pos(e.Instr), "the outcome of this path is not known: %s", facts(e.St))
			}
		}
		c.Expect(n >= 3, "window-paths", fname(fn), c.PosOf(fn.Pos()), "only %d paths were found in the window check", n)
	}
	c.AtLeast("window-accept", 2)
	c.AtLeast("window-reject", 2)

	// use at admission
	exploreAddCert(c, func(e flow.Exit, an *flow.Analyzer, args []*flow.Term) {
		if e.Kind != "return" || e.St.Excludes(flow.Lit(e.Results[0])) {
			return
		}
		win, ok := windowOf(e.St, args[1], e.St.Path(args[0], "Time"))
		c.Expect(ok && e.St.Entails(win), "admission", "AddCert reports valid", c.Pos(e.Instr), "a certificate is reported valid without notBefore<=T<=notAfter for the validator's time: %s", facts(e.St))
	}, func(st *flow.State, ev *flow.Event, an *flow.Analyzer, args []*flow.Term) {
		if ev.Kind == "mapset" && strings.Contains(ev.Name, "pki.Validator.ValidObjects|") {
			win, ok := windowOf(st, args[1], st.Path(args[0], "Time"))
			c.Expect(ok && st.Entails(win), "admission", "write of ValidObjects", c.evPos(ev), "a certificate enters the valid table without notBefore<=T<=notAfter for the validator's time: %s", facts(st))
		}
	})
	c.AtLeast("admission", 2)

	manifestStaleness(c, "staleness")

	// no wall clock
	var roots []string
	reach := reachable(c.P, validationEntries(c)...)
	clock := 0
	for _, fn := range moduleFuncs(c.P, "validator/lib", "validator/pki") {
		clock++
		calls(fn, func(in ssaCall, name string) {
			switch name {
			case "time.Now", "time.Since", "time.Until", "(*crypto/x509.Certificate).Verify":
				if reach[fn] {
					c.Fail("wall-clock", fname(fn)+" "+name, c.Pos(in), "%s is called on a path from the validation entry points", name)
				}
			}
		})
		if reach[fn] {
			c.OK("wall-clock", fname(fn))
		}
	}
	_ = roots
	c.AtLeast("wall-clock", 20)
	storesField(c.P, "validator/pki", "Validator", "Time", func(fn *ssaFunc, in *ssaStore, fa *ssaFieldAddr) {
		rel := c.P.Rel(fn)
		ok := rootAlloc(fa.X) || strings.HasPrefix(rel, "cmd/")
		c.Expect(ok, "time-writers", fname(fn), c.Pos(in), "the validator's time is changed by library code after construction")
	})
	c.AtLeast("time-writers", 1)
}
