package main

import (
	"fmt"
	"go/types"
	"strings"

	"verif/checker/flow"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C09",
		Technique: "predicate dataflow over SSA (facts at table writes and calls), element-wise loop invariants, key injectivity over string-building terms, who-may-write query",
		Rule:      "In AddCRL every write of the revocation table, of the valid lists and of the issuer's children, every invalidation and every valid result happen only where the issuer's key identifier is in the table of valid objects and CheckCRLSignature of that issuer's certificate gave no error for this list; at every exit where it gave none, a loop has recorded every listed serial under the issuer and, after that, another loop has looked up every certificate accepted under the issuer and invalidated it when it is recorded. The key of the table is built from issuer and serial in a way that cannot be confused, the same at recording and at looking up; ValidateCertificate accepts only after looking up the certificate's own issuer and serial. AddCert makes every accepted certificate a child of its issuer. Nothing else inserts into the table and nothing removes from it.",
		Note:      "That acceptance depends on the lookup is C01, that invalidation is complete C10.",
		Run:       runC09})
}

const invalN = "(*validator/pki.Validator).InvalidateObject"

// keyPart is a piece of a key built as a string.
type keyPart struct {
	lit   string
	t     *flow.Term
	class string // hex, dec, raw
}

func alphabetHas(class string, c byte) bool {
	switch class {
	case "hex":
		return strings.IndexByte("0123456789abcdefABCDEF", c) >= 0
	case "hexint":
		return strings.IndexByte("0123456789abcdefABCDEF-", c) >= 0
	case "dec":
		return strings.IndexByte("0123456789-", c) >= 0
	}
	return true
}

func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

// keyParts takes a key apart; ok is false when it is built in an unknown way.
func keyParts(t *flow.Term) (out []keyPart, ok bool) {
	if s, isS := t.IsStr(); isS {
		return []keyPart{{lit: s}}, true
	}
	number := func(x *flow.Term) bool { return x.Typ != nil && strings.HasSuffix(x.Typ.String(), "math/big.Int") }
	switch {
	case t.Op == flow.OCat:
		for _, a := range t.Args {
			p, ok := keyParts(a)
			if !ok {
				return nil, false
			}
			out = append(out, p...)
		}
		return out, true
	case t.Op == flow.OCall && strings.HasPrefix(t.Aux, "fmt%") && len(t.Args) == 1:
		x := strip(t.Args[0])
		f := t.Aux[4]
		switch {
		case f == 'x' && number(x):
			return []keyPart{{t: x, class: "hexint"}}, true
		case f == 'x' && (x.Typ != nil && isBytes(x.Typ) || isString(x.Typ)):
			return []keyPart{{t: x, class: "hex"}}, true
		case strings.IndexByte("dsv", f) >= 0 && number(x):
			return []keyPart{{t: x, class: "dec"}}, true
		case f == 's' && x.Typ != nil && isBytes(x.Typ):
			return []keyPart{{t: x, class: "raw"}}, true
		}
		return nil, false
	case isCallTerm(t, "encoding/hex.EncodeToString"):
		return []keyPart{{t: strip(t.Args[0]), class: "hex"}}, true
	case isCallTerm(t, "(*math/big.Int).String"):
		return []keyPart{{t: strip(t.Args[0]), class: "dec"}}, true
	case isCallTerm(t, "(*math/big.Int).Text"):
		return []keyPart{{t: strip(t.Args[0]), class: "hexint"}}, true
	case t.Op == flow.OConv && len(t.Args) == 1 && t.Args[0].Typ != nil && isBytes(t.Args[0].Typ):
		return []keyPart{{t: strip(t.Args[0]), class: "raw"}}, true
	}
	return []keyPart{{t: strip(t), class: "raw"}}, t.Typ != nil && isString(t.Typ)
}

func isString(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// revocationKey gives the two values a key is made of and its form, if they cannot be confused.
func revocationKey(t *flow.Term) (form string, a, b *flow.Term, why string) {
	ps, ok := keyParts(t)
	if !ok {
		return "", nil, nil, "it is built in a way that cannot be followed"
	}
	var vars []keyPart
	sep := ""
	for _, p := range ps {
		if p.t == nil {
			if len(vars) == 1 {
				sep += p.lit
			}
			form += fmt.Sprintf("%q", p.lit)
		} else {
			vars = append(vars, p)
			form += "<" + p.class + ">"
		}
	}
	if len(vars) != 2 {
		return "", nil, nil, "it is not made of two values"
	}
	for i := 0; i < len(sep); i++ {
		if !alphabetHas(vars[0].class, sep[i]) || !alphabetHas(vars[1].class, sep[i]) {
			return form, vars[0].t, vars[1].t, ""
		}
	}
	return "", nil, nil, "issuer and serial are put together without a separator that occurs in neither"
}

func runC09(c *Ctx) {
	f1 := applyCRL(c)
	f2 := revocationLookup(c)
	c.Expect(f1 != "" && f1 == f2, "key", "same form", "", "serials are recorded under keys of the form %s and looked up under keys of the form %s", f1, f2)
	childLinked(c)
}

func applyCRL(c *Ctx) (form string) {
	fn := c.Func("validator/pki", "*Validator", "AddCRL")
	if fn == nil {
		return
	}
	akiN := "validator/pki.crlAuthorityKeyId"
	an := c.NewAnalyzer()
	an.AssumeDeref = true
	an.Opaque = opaque(invalN, akiN)
	args := an.ParamTerms(fn)
	w := an.W
	v, crl := args[0], args[1]
	backs := recordBacks(an)
	an.Record = func(ev *flow.Event) bool {
		return isCall(ev, invalN) || ev.Kind == "mapset" || ev.Kind == "mapdel" || ev.Kind == "store"
	}
	// checked: the issuer under whose valid certificate this list's signature verified
	checked := func(st *flow.State) *flow.Term {
		var aki *flow.Term
		lits(st, func(t *flow.Term, val bool) {
			x := eqNilArg(t)
			if !val || !isCallTerm(x, "(*crypto/x509.Certificate).CheckCRLSignature", "(*crypto/x509.Certificate).CheckSignatureFrom") || len(x.Args) != 2 || w.Shape(x.Args[1]) != w.Shape(crl) || !isField(x.Args[0], "Certificate") {
				return
			}
			p := x.Args[0].FieldBase()
			if p.Op != flow.OAssert || !isField(p.Args[0], "Resource") {
				return
			}
			l := p.Args[0].FieldBase()
			if l.Op != flow.OLookup || !isField(l.Args[0], "ValidObjects") && !isField(l.Args[0], "Objects") || l.Args[0].FieldBase() != v {
				return
			}
			k := strip(l.Args[1])
			if hasLit(st, func(t *flow.Term, val bool) bool {
				return val && t.Op == flow.OLookupOk && isField(t.Args[0], "ValidObjects") && t.Args[0].FieldBase() == v && w.Shape(strip(t.Args[1])) == w.Shape(k)
			}) {
				aki = k
			}
		})
		return aki
	}
	revokedList := func(st *flow.State) *flow.Term { return st.Path(crl, "TBSCertList", "RevokedCertificates") }
	// children of the issuer
	childList := func(st *flow.State, k *flow.Term) []*flow.Term {
		var out []*flow.Term
		for _, tab := range []string{"Objects", "ValidObjects"} {
			m := st.Path(v, tab)
			if m == nil {
				continue
			}
			p, _ := st.Lookup(m, w.StrOf(k), nil)
			for l := pathOf(st, p, "Childs"); l != nil; {
				out = append(out, l)
				if l.Op != flow.OAppend {
					break
				}
				l = l.Args[0] // the list itself is put last
			}
		}
		return out
	}
	inTable := func(m *flow.Term, f string) bool { return isField(m, f) && m.FieldBase() == v }
	listed := func(st *flow.State, key, aki *flow.Term) (idx *flow.Term, why string) {
		fm, a, b, why := revocationKey(key)
		if why != "" {
			return nil, why
		}
		if w.Shape(a) != w.Shape(aki) {
			a, b = b, a
		}
		if w.Shape(a) != w.Shape(aki) {
			return nil, "it does not name the issuer of the list"
		}
		if !isRef(b, "SerialNumber") {
			return nil, "it does not name a serial number"
		}
		form = fm
		return elementOf(w, refBase(b), revokedList(st)), ""
	}
	n := 0
	gate := func(st *flow.State, construct, pos string) *flow.Term {
		n++
		k := checked(st)
		c.Expect(k != nil, "gate", construct, pos, "%s happens without the list's signature having been verified under the certificate of a currently valid issuer: %s", construct, facts(st))
		return k
	}
	an.OnEvent = func(st *flow.State, ev *flow.Event) {
		pos := c.evPos(ev)
		switch {
		case isCall(ev, invalN):
			k := gate(st, "invalidation", pos)
			if k == nil {
				return
			}
			// of a child whose serial is listed
			id := strip(ev.Args[1])
			c.Expect(revokedChild(st, id, childList(st, k), k, v) != nil, "invalidate", "certificate", pos, "what is invalidated is not known to be a certificate of this issuer with a listed serial: %s", id)
		case ev.Kind == "mapdel":
			gate(st, "removal", pos)
			c.Fail("gate", "removal", pos, "applying a list removes from %s directly", ev.Name)
		case ev.Kind == "mapset":
			m := ev.Args[0]
			switch {
			case inTable(m, "CRL"):
			case inTable(m, "Revoked"):
				k := gate(st, "recording of a serial", pos)
				if k == nil {
					return
				}
				_, why := listed(st, ev.Args[1], k)
				c.Expect(why == "", "key", "recorded", pos, "the key under which a serial is recorded is unsuitable: %s: %s", why, ev.Args[1])
				c.Expect(st.Entails(flow.Lit(ev.Args[2])), "key", "recorded value", pos, "a listed serial is recorded as not revoked: %s", ev.Args[2])
			case inTable(m, "ValidCRL"):
				k := gate(st, "recording of a valid list", pos)
				c.Expect(k == nil || w.Shape(strip(ev.Args[1])) == w.Shape(k), "gate", "issuer of the valid list", pos, "a valid list is recorded under %s, not its issuer", ev.Args[1])
			case flow.FreshAddr(m):
			default:
				gate(st, "write of "+short(ev.Name), pos)
			}
		case ev.Kind == "store":
			if flow.FreshAddr(ev.Args[0]) {
				return
			}
			gate(st, "write of "+short(ev.Name), pos)
		}
	}
	exits := c.Explore(an, fn)
	acc := 0
	for _, e := range exits {
		if e.Kind != "return" {
			continue
		}
		st, pos := e.St, c.Pos(e.Instr)
		k := checked(st)
		if !st.Excludes(flow.Lit(e.Results[0])) {
			c.Expect(k != nil, "gate", "valid result", pos, "a list is reported valid without its signature having been verified under the certificate of a currently valid issuer: %s", facts(st))
		}
		if k == nil {
			continue
		}
		acc++
		recorded := func(st *flow.State) bool {
			return everyElement(an, *backs, st, revokedList(st), func(s *flow.State) []*flow.Term {
				var out []*flow.Term
				for _, ev := range s.Events() {
					if ev.Kind == "mapset" && !ev.Old && !ev.May && inTable(ev.Args[0], "Revoked") {
						if i, _ := listed(s, ev.Args[1], k); i != nil {
							out = append(out, i)
						}
					}
				}
				return out
			})
		}
		c.Expect(recorded(st), "effect", "every serial", pos, "a verified list is applied without recording every listed serial: %s", facts(st))
		done := false
		for _, l := range childList(st, k) {
			done = done || everyElement(an, *backs, st, l, func(s *flow.State) []*flow.Term {
				if !recorded(s) {
					return nil
				}
				return handledChildren(s, l, k, v)
			})
		}
		c.Expect(done, "effect", "every certificate", pos, "a verified list is applied without invalidating every certificate already accepted whose serial is recorded: %s", facts(st))
	}
	c.Expect(acc > 0 && n > 0, "effect", "applied", c.PosOf(fn.Pos()), "no list is ever applied")

	// writers of the table
	in := func(f *ssa.Function) bool { return an.Visited[f] }
	k, _ := tableWriters(c, "writers", "validator/pki", "Validator", "Revoked", in, func(*ssa.Function) bool { return false })
	c.Expect(k > 0, "writers", "Revoked", "", "no serial is ever recorded")
	// one list, one issuer
	if f := c.Func("validator/pki", "", "crlAuthorityKeyId"); f != nil {
		pure := true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					pure = pure && rootAlloc(x.Addr)
				case *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer:
					pure = false
				case *ssa.UnOp:
					if g, ok := x.X.(*ssa.Global); ok {
						pure = pure && !strings.HasPrefix(g.Name(), "last")
					}
				}
			}
		}
		c.Expect(pure, "gate", "key identifier of a list", c.PosOf(f.Pos()), "finding the issuer of a list has side effects")
	}
	return form
}

// revokedChild: id is the key identifier of a child of the issuer whose serial is recorded as revoked; gives its index.
func revokedChild(st *flow.State, id *flow.Term, childs []*flow.Term, aki, v *flow.Term) *flow.Term {
	w := st.W()
	if !isRef(id, "SubjectKeyId") || !isRef(refBase(id), "Certificate") {
		return nil
	}
	cert := refBase(refBase(id))
	if cert.Op != flow.OAssert || !isRef(cert.Args[0], "Resource") {
		return nil
	}
	var idx *flow.Term
	for _, l := range childs {
		if i := elementOf(w, refBase(cert.Args[0]), l); i != nil {
			idx = i
		}
	}
	if idx == nil {
		return nil
	}
	if hasLit(st, func(t *flow.Term, val bool) bool {
		return val && (t.Op == flow.OLookup || t.Op == flow.OLookupOk) && isField(t.Args[0], "Revoked") && t.Args[0].FieldBase() == v && serialOf(w, t.Args[1], cert, aki)
	}) {
		return idx
	}
	return nil
}

// serialOf: the key names the issuer and the serial of the certificate.
func serialOf(w *flow.World, key, cert, aki *flow.Term) bool {
	_, a, b, why := revocationKey(key)
	if why != "" {
		return false
	}
	if w.Shape(a) != w.Shape(aki) {
		a, b = b, a
	}
	return w.Shape(a) == w.Shape(aki) && isRef(b, "SerialNumber") && isRef(refBase(b), "Certificate") && w.Shape(refBase(refBase(b))) == w.Shape(cert)
}

// handledChildren: elements of the list that in this state are no certificates, not recorded as revoked, or were invalidated.
func handledChildren(st *flow.State, list, aki, v *flow.Term) (out []*flow.Term) {
	w := st.W()
	lits(st, func(t *flow.Term, val bool) {
		if t.Op == flow.OTypeIs && !val && strings.HasSuffix(t.Typ.String(), "lib.RPKICertificate") && isRef(t.Args[0], "Resource") {
			if i := elementOf(w, refBase(t.Args[0]), list); i != nil {
				out = append(out, i)
			}
		}
		if !val && (t.Op == flow.OLookup || t.Op == flow.OLookupOk) && isField(t.Args[0], "Revoked") && t.Args[0].FieldBase() == v {
			_, a, b, why := revocationKey(t.Args[1])
			if why != "" {
				return
			}
			for _, x := range []*flow.Term{a, b} {
				if !isRef(x, "SerialNumber") || !isRef(refBase(x), "Certificate") {
					continue
				}
				cert := refBase(refBase(x))
				if serialOf(w, t.Args[1], cert, aki) && cert.Op == flow.OAssert && isRef(cert.Args[0], "Resource") {
					if i := elementOf(w, refBase(cert.Args[0]), list); i != nil {
						out = append(out, i)
					}
				}
			}
		}
	})
	for _, ev := range st.Events() {
		if isCall(ev, invalN) && !ev.Old && !ev.May {
			if i := revokedChild(st, strip(ev.Args[1]), []*flow.Term{list}, aki, v); i != nil {
				out = append(out, i)
			}
		}
	}
	return
}

// revocationLookup: acceptance looks up the certificate's own issuer and serial; gives the form of the key.
func revocationLookup(c *Ctx) (form string) {
	fn := c.Func("validator/pki", "*Validator", "ValidateCertificate")
	if fn == nil {
		return
	}
	an := c.NewAnalyzer()
	an.Opaque = opaque(containmentFns...)
	args := an.ParamTerms(fn)
	w := an.W
	acc := 0
	for _, e := range c.Explore(an, fn) {
		if e.Kind != "return" || e.St.NonNil(e.Results[0]) {
			continue
		}
		st := e.St
		if st.Entails(flow.Lit(args[2])) {
			continue
		}
		acc++
		ok := false
		lits(st, func(t *flow.Term, val bool) {
			if val || t.Op != flow.OLookupOk && t.Op != flow.OLookup || !isField(t.Args[0], "Revoked") || t.Args[0].FieldBase() != args[0] {
				return
			}
			if serialOf(w, t.Args[1], args[1], st.Path(args[1], "Certificate", "AuthorityKeyId")) {
				ok = true
				f, _, _, _ := revocationKey(t.Args[1])
				if form != "" && form != f {
					form = "several"
				} else {
					form = f
				}
			}
		})
		c.Expect(ok, "lookup", "own serial", c.Pos(e.Instr), "a certificate is accepted without looking up its own issuer and serial in the revocation table: %s", facts(st))
	}
	c.Expect(acc > 0, "lookup", "accepts", c.PosOf(fn.Pos()), "no certificate is ever accepted")
	return form
}

// childLinked: every accepted certificate that has a known issuer becomes its child.
func childLinked(c *Ctx) {
	n := 0
	exploreAddCert(c, func(e flow.Exit, an *flow.Analyzer, args []*flow.Term) {
		if e.Kind != "return" || e.St.Excludes(flow.Lit(e.Results[0])) {
			return
		}
		st, w := e.St, an.W
		v, cert := args[0], args[1]
		aki := st.Path(cert, "Certificate", "AuthorityKeyId")
		obj := st.Path(v, "Objects")
		if aki == nil || obj == nil {
			c.Fail("linked", "issuer", c.Pos(e.Instr), "the issuer of a certificate is not found")
			return
		}
		issuer, ok := st.Lookup(obj, w.StrOf(aki), nil)
		var res *flow.Term
		link := false
		for _, ev := range st.Events() {
			if ev.May {
				continue
			}
			if ev.Kind == "mapset" && strings.Contains(ev.Name, "pki.Validator.ValidObjects|") {
				res = ev.Args[2]
			}
			if ev.Kind == "store" && isRef(ev.Args[0], "Childs") && !flow.FreshAddr(ev.Args[0]) && ev.Args[1].Op == flow.OAppend {
				p := refBase(ev.Args[0])
				a := ev.Args[1]
				if p.Op == flow.OLookup && (isField(p.Args[0], "Objects") || isField(p.Args[0], "ValidObjects")) && w.Shape(strip(p.Args[1])) == w.Shape(aki) &&
					isRef(a.Args[0], "Childs") && w.Shape(refBase(a.Args[0])) == w.Shape(p) && a.Args[1].Op == flow.OSliceLit && len(a.Args[1].Args) == 1 {
					r := st.Path(a.Args[1].Args[0], "Resource")
					link = link || r != nil && strip(r) == cert
				}
			}
		}
		_ = res
		n++
		if !link {
			c.Expect(holds(st, ok, false) || isNil(st, issuer), "linked", "child of its issuer", c.Pos(e.Instr), "an accepted certificate does not become a child of its issuer: %s", facts(st))
		} else {
			c.OK("linked", "child of its issuer")
		}
	}, nil)
	c.Expect(n > 0, "linked", "AddCert", "", "AddCert accepts nothing")
}
