package main

import (
	"strings"

	"verif/checker/flow"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C01",
		Technique: "predicate dataflow over SSA (must-hold facts at accepting exits and table writes), who-may-write query over the module",
		Rule:      "At every exit of AddCert that reports the certificate valid and at every write of the table of valid certificates, these facts hold on the path: the certificate's key identifier was not in the table of known objects, notBefore<=T<=notAfter, and either the trust flag or: the issuer named by the authority key identifier is in the table of valid certificates, crypto/x509 verified the signature with that issuer's certificate, and the key made of issuer and serial is not in the revocation table; resources are contained as decided by rule C03. Known and valid tables are written only by code analysed this way, entries are never removed from the table of known objects, and AddResource, AddROA and AddManifest report valid only what AddCert reported valid; embedded certificates are never added with the trust flag.",
		Note:      "Decides acceptance on all paths; the cryptographic operation itself is crypto/x509.",
		Run:       runC01})
}

// notKnown: the key identifier of the certificate is not known on this path.
func notKnown(st *flow.State, v, cert *flow.Term) bool {
	ski := st.Path(cert, "Certificate", "SubjectKeyId")
	if ski == nil {
		return false
	}
	return hasLit(st, func(t *flow.Term, val bool) bool {
		if val || t.Op != flow.OLookupOk || !isField(t.Args[0], "Objects") || t.Args[0].FieldBase() != v {
			return false
		}
		return st.W().Shape(strip(t.Args[1])) == st.W().Shape(ski)
	})
}

// issuerValid: the issuer named by the certificate is currently valid; returns the lookups that say so.
func issuerValid(st *flow.State, v, cert *flow.Term) bool {
	aki := st.Path(cert, "Certificate", "AuthorityKeyId")
	if aki == nil {
		return false
	}
	return hasLit(st, func(t *flow.Term, val bool) bool {
		return val && t.Op == flow.OLookupOk && isField(t.Args[0], "ValidObjects") && t.Args[0].FieldBase() == v && st.W().Shape(strip(t.Args[1])) == st.W().Shape(aki)
	})
}

// signatureVerified: the signature of the certificate verified under the valid issuer's certificate.
func signatureVerified(st *flow.State, v, cert *flow.Term) bool {
	w := st.W()
	own := st.Path(cert, "Certificate")
	aki := st.Path(cert, "Certificate", "AuthorityKeyId")
	if own == nil || aki == nil {
		return false
	}
	return hasLit(st, func(t *flow.Term, val bool) bool {
		x := eqNilArg(t)
		if !val || !isCallTerm(x, "(*crypto/x509.Certificate).CheckSignatureFrom") || len(x.Args) != 2 {
			return false
		}
		if w.Shape(x.Args[0]) != w.Shape(own) || !isField(x.Args[1], "Certificate") {
			return false
		}
		p := x.Args[1].FieldBase() // *RPKICertificate of the issuer
		if p.Op != flow.OAssert || !isField(p.Args[0], "Resource") {
			return false
		}
		l := p.Args[0].FieldBase()
		return l.Op == flow.OLookup && isField(l.Args[0], "ValidObjects") && l.Args[0].FieldBase() == v && w.Shape(strip(l.Args[1])) == w.Shape(aki)
	})
}

// notRevoked: issuer and serial of the certificate are not in the revocation table.
func notRevoked(st *flow.State, v, cert *flow.Term) bool {
	w := st.W()
	aki := st.Path(cert, "Certificate", "AuthorityKeyId")
	ser := st.Path(cert, "Certificate", "SerialNumber")
	if aki == nil || ser == nil {
		return false
	}
	return hasLit(st, func(t *flow.Term, val bool) bool {
		if val || t.Op != flow.OLookupOk && t.Op != flow.OLookup || !isField(t.Args[0], "Revoked") || t.Args[0].FieldBase() != v {
			return false
		}
		a, s := false, false
		t.Args[1].Sub(func(x *flow.Term) {
			a = a || w.Shape(x) == w.Shape(aki)
			s = s || w.Shape(x) == w.Shape(ser)
		})
		return a && s
	})
}

// acceptance checks everything that makes the certificate acceptable in this state.
func acceptance(c *Ctx, rule, construct, pos string, st *flow.State, v, cert, trust *flow.Term) {
	fs := facts(st)
	c.Expect(notKnown(st, v, cert), rule, construct+": unknown key", pos, "a certificate is accepted without its key identifier being absent from the known objects: %s", fs)
	win, ok := windowOf(st, cert, st.Path(v, "Time"))
	c.Expect(ok && st.Entails(win), rule, construct+": validity window", pos, "a certificate is accepted without notBefore<=T<=notAfter: %s", fs)
	if st.Entails(flow.Lit(trust)) {
		c.OK(rule, construct+": trust anchor")
		return
	}
	c.Expect(issuerValid(st, v, cert), rule, construct+": issuer valid", pos, "a certificate that is no trust anchor is accepted without its issuer being valid: %s", fs)
	c.Expect(signatureVerified(st, v, cert), rule, construct+": signature", pos, "a certificate that is no trust anchor is accepted without its signature being verified under the valid issuer's certificate: %s", fs)
	c.Expect(notRevoked(st, v, cert), rule, construct+": revocation", pos, "a certificate that is no trust anchor is accepted without checking the revocation table for its issuer and serial: %s", fs)
}

func runC01(c *Ctx) {
	visited := map[*ssa.Function]bool{}
	exploreAddCert(c, func(e flow.Exit, an *flow.Analyzer, args []*flow.Term) {
		for f := range an.Visited {
			visited[f] = true
		}
		if e.Kind != "return" || e.St.Excludes(flow.Lit(e.Results[0])) {
			return
		}
		acceptance(c, "accept", "AddCert reports valid", c.Pos(e.Instr), e.St, args[0], args[1], args[2])
		ski := e.St.Path(args[1], "Certificate", "SubjectKeyId")
		n := 0
		for _, ev := range e.St.Events() {
			if ev.Kind == "mapset" && (strings.Contains(ev.Name, "pki.Validator.ValidObjects|") || strings.Contains(ev.Name, "pki.Validator.Objects|")) {
				n++
			}
		}
		_ = ski
		c.Expect(n >= 2, "accept", "accepted certificate is recorded", c.Pos(e.Instr), "a certificate reported valid is not recorded as known and valid")
	}, func(st *flow.State, ev *flow.Event, an *flow.Analyzer, args []*flow.Term) {
		if ev.Kind == "mapdel" && (strings.Contains(ev.Name, "pki.Validator.Objects|")) {
			c.Fail("write", "delete from Objects", c.evPos(ev), "a known object is forgotten")
		}
		if ev.Kind != "mapset" {
			return
		}
		valid := strings.Contains(ev.Name, "pki.Validator.ValidObjects|")
		known := strings.Contains(ev.Name, "pki.Validator.Objects|")
		if !valid && !known {
			return
		}
		v, cert := args[0], args[1]
		key, val := ev.Args[1], ev.Args[2]
		ski := st.Path(cert, "Certificate", "SubjectKeyId")
		tab := "Objects"
		if valid {
			tab = "ValidObjects"
		}
		pos := c.evPos(ev)
		c.Expect(ski != nil && an.W.Shape(strip(key)) == an.W.Shape(ski), "write", tab+" key", pos, "the certificate is recorded under %s instead of its subject key identifier", key)
		r := st.Path(val, "Resource")
		c.Expect(r != nil && strip(r) == cert, "write", tab+" value", pos, "what is recorded is not the certificate that was checked: %s", r)
		c.Expect(notKnown(st, v, cert), "write", tab+" conflict", pos, "an entry may replace one of the same key identifier: %s", facts(st))
		if valid {
			acceptance(c, "accept", "write of ValidObjects", pos, st, v, cert, args[2])
		}
	})
	c.AtLeast("accept", 10)
	c.AtLeast("write", 5)

	// nothing else writes the tables
	in := func(fn *ssa.Function) bool { return visited[fn] }
	removers := reachableFrom(c, "InvalidateObject")
	none := func(fn *ssa.Function) bool { return false }
	for _, tab := range []string{"Objects", "ValidObjects"} {
		rm := none
		if tab == "ValidObjects" {
			rm = func(fn *ssa.Function) bool { return removers[fn] }
		}
		n, _ := tableWriters(c, "writers", "validator/pki", "Validator", tab, in, rm)
		c.Expect(n > 0, "writers", tab+" has a writer", "", "nothing inserts into %s", tab)
	}
	onlyFrom(c, "writers", visited, "AddCert", "(*validator/pki.Validator).AddCert")

	ancestorWalk(c, "containment")
	for _, f := range families {
		listPartition(c, f, f.validate, false)
		rangeInCertificate(c, f)
	}
	propagation(c)
}

// reachableFrom: functions of the module reachable from a validator method.
func reachableFrom(c *Ctx, m string) map[*ssa.Function]bool {
	fn := c.Func("validator/pki", "*Validator", m)
	if fn == nil {
		return map[*ssa.Function]bool{}
	}
	return reachable(c.P, fn)
}

// onlyFrom: helpers that insert into the tables are not called around the analysed entry point.
func onlyFrom(c *Ctx, rule string, visited map[*ssa.Function]bool, construct, entry string) {
	writers := map[*ssa.Function]bool{}
	for _, tab := range []string{"Objects", "ValidObjects"} {
		for _, u := range fieldUses(c.P, "validator/pki", "Validator", tab) {
			if _, ok := u.Instr.(*ssa.MapUpdate); ok {
				writers[u.Fn] = true
			}
		}
	}
	// callers of a writer must be analysed functions themselves, up to the entry
	work := []*ssa.Function{}
	for f := range writers {
		work = append(work, f)
	}
	seen := map[*ssa.Function]bool{}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		if seen[f] || short(flow.FuncName(f)) == entry {
			continue
		}
		seen[f] = true
		n := c.P.CG.Nodes[f]
		if n == nil {
			continue
		}
		for _, e := range n.In {
			g := e.Caller.Func
			if !c.P.InModule(g) {
				continue
			}
			c.Expect(visited[g], rule, "caller of "+fname(f), c.PosOf(g.Pos()), "%s, which records certificates, is called from %s outside %s", fname(f), fname(g), construct)
			if visited[g] {
				work = append(work, g)
			}
		}
	}
}

// propagation: the wrappers report valid only what AddCert reported valid.
func propagation(c *Ctx) {
	addCert := "(*validator/pki.Validator).AddCert"
	for _, m := range []string{"AddROA", "AddManifest"} {
		fn := c.Func("validator/pki", "*Validator", m)
		if fn == nil {
			continue
		}
		an := c.NewAnalyzer()
		an.Opaque = opaque(append([]string{addCert}, "validator/pki.ExtractPathManifest", "(*validator/pki.Validator).ValidateROA")...)
		an.Record = func(ev *flow.Event) bool { return isCall(ev, addCert) }
		for _, e := range c.Explore(an, fn) {
			if e.Kind != "return" {
				continue
			}
			for _, ev := range e.St.Events() {
				c.Expect(len(ev.Args) == 3 && e.St.Excludes(flow.Lit(ev.Args[2])), "embedded", m+" trust", c.evPos(ev), "%s adds the embedded certificate with the trust flag %s", m, ev.Args[2])
			}
			if e.St.Excludes(flow.Lit(e.Results[0])) {
				continue
			}
			c.Expect(fromCall(e, an, addCert), "embedded", m+" reports valid", c.Pos(e.Instr), "%s reports valid although AddCert did not report the certificate valid: %s", m, facts(e.St))
		}
	}
	fn := c.Func("validator/pki", "*Validator", "AddResource")
	if fn == nil {
		return
	}
	adds := []string{addCert, "(*validator/pki.Validator).AddROA", "(*validator/pki.Validator).AddManifest", "(*validator/pki.Validator).AddCRL"}
	an := c.NewAnalyzer()
	op := opaque(append(adds, "(*validator/pki.Validator).AddTAL", "(*validator/lib.RPKITAL).CheckCertificate", "validator/pki.crlAuthorityKeyId")...)
	an.Opaque = func(f *ssa.Function) bool { return op(f) || c.P.Rel(f) == "validator/lib" }
	an.Record = func(ev *flow.Event) bool {
		return isCall(ev, append(adds, "(*validator/pki.Validator).AddTAL")...)
	}
	for _, e := range c.Explore(an, fn) {
		if e.Kind != "return" || e.St.Excludes(flow.Lit(e.Results[0])) {
			continue
		}
		tal := false
		for _, ev := range e.St.Events() {
			tal = tal || isCall(ev, "(*validator/pki.Validator).AddTAL")
		}
		if tal {
			cer := false
			for _, ev := range e.St.Events() {
				cer = cer || isCall(ev, adds...)
			}
			c.Expect(!cer, "embedded", "AddResource TAL", c.Pos(e.Instr), "a TAL reports another object")
			continue
		}
		c.Expect(fromCall(e, an, adds...), "embedded", "AddResource reports valid", c.Pos(e.Instr), "AddResource reports an object valid although adding it did not: %s", facts(e.St))
	}
	c.AtLeast("embedded", 5)
}

// fromCall: the first result being true implies that of one of the calls.
func fromCall(e flow.Exit, an *flow.Analyzer, names ...string) bool {
	for _, ev := range e.St.Events() {
		if !isCall(ev, names...) || ev.Res == nil {
			continue
		}
		if e.St.Entails(flow.Implies(flow.Lit(e.Results[0]), flow.Lit(an.W.Extract(ev.Res, 0, boolT)))) {
			return true
		}
	}
	return false
}
