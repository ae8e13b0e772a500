package main

import (
	"go/types"
	"strings"

	"verif/checker/flow"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C06",
		Technique: "predicate dataflow over SSA (facts at accepting exits, table writes and list appends), element-wise loop invariants, value provenance of published fields, who-may-write query",
		Rule:      "ROAEntry.Validate returns no error only if prefix length <= max length <= 128 and, for IPv4, <= 32; ValidateEntries returns no error only after every entry was validated; AddROA reports a ROA valid and writes the table of valid ROAs only if AddCert reported its certificate valid, its content is intact and ValidateEntries returned no error, under the key of that certificate. ValidateIPRoaCertificateList puts an entry in the valid result only if the range GetRangeIP gives for its own prefix is inside the certificate, GetRangeIP gives ip&mask..ip|^mask for every byte, and DecodeROA keeps as publishable entries only that first result for the ROA's own entries and certificate; the entries and AS number come from one ConvertROAEntries call, which refuses AS numbers outside 0..2^32-1 and pairs each prefix with its own max length. Every ROAJson published is built in the list generation from one element of the publishable entries of one ROA in the valid table of one trust anchor's validator, with that ROA's AS number, that element's prefix and max length and that trust anchor's name, and the validator at an index is the one that explored the trust anchor at that index.",
		Note:      "IsIPRangeInCertificate is decided under C03.",
		Run:       runC06})
}

func runC06(c *Ctx) {
	entryBounds(c)
	entriesAll(c)
	embeddedGate(c, "AddROA", "ValidROA", "(*validator/lib.RPKIROA).ValidateEntries")
	for _, f := range families[:1] {
		rangeInCertificate(c, f)
		listPartition(c, f, "ValidateIPRoaCertificateList", true)
	}
	resourceLeaves(c)
	roaDecoded(c)
	roaConverted(c)
	published(c)
	managerOrder(c)
}

func entryBounds(c *Ctx) {
	fn := c.Func("validator/lib", "*ROAEntry", "Validate")
	if fn == nil {
		return
	}
	an := c.NewAnalyzer()
	a := an.ParamTerms(fn)
	w := an.W
	n := 0
	for _, e := range c.Explore(an, fn) {
		if e.Kind != "return" || e.St.NonNil(e.Results[0]) {
			continue
		}
		n++
		st := e.St
		pos := c.Pos(e.Instr)
		ok := flow.Implies(flow.Lit(w.EqAtom(e.Results[0], w.Nil)), flow.Lit(w.True))
		_ = ok
		nilRes := flow.Lit(w.EqAtom(e.Results[0], w.Nil))
		if st.IsNil(e.Results[0]) {
			nilRes = flow.Lit(w.True)
		}
		imp := func(f flow.Formula) bool { return st.Entails(flow.Implies(nilRes, f)) }
		ml := st.Path(a[0], "MaxLength")
		ipn := st.Path(a[0], "IPNet")
		mask, ip := st.Path(ipn, "Mask"), st.Path(ipn, "IP")
		size := w.Call("(net.IPMask).Size", nil, mask)
		plen, bits := w.Extract(size, 0, types.Typ[types.Int]), w.Extract(size, 1, types.Typ[types.Int])
		c.Expect(imp(flow.Lit(w.OrdLe(plen, ml))), "bounds", "prefix length <= max length", pos, "an entry is accepted without prefix length <= max length: %s", facts(st))
		c.Expect(imp(flow.Lit(w.OrdLe(ml, w.Int(128)))), "bounds", "max length <= 128", pos, "an entry is accepted without max length <= 128: %s", facts(st))
		le32 := flow.Lit(w.OrdLe(ml, w.Int(32)))
		v6 := flow.Or(
			flow.Lit(w.EqAtom(w.Call("(net.IP).To4", ip.Typ, ip), w.Nil)),
			flow.Lit(w.OrdEq(w.Len(ip), w.Int(16))),
			flow.Lit(w.OrdEq(w.Len(mask), w.Int(16))),
			flow.Lit(w.OrdEq(bits, w.Int(128))))
		c.Expect(imp(flow.Or(le32, v6)), "bounds", "max length <= 32 for IPv4", pos, "an IPv4 entry is accepted without max length <= 32: %s", facts(st))
	}
	c.Expect(n > 0, "bounds", "accepts", c.PosOf(fn.Pos()), "no entry is ever accepted")
}

func entriesAll(c *Ctx) {
	fn := c.Func("validator/lib", "*RPKIROA", "ValidateEntries")
	if fn == nil {
		return
	}
	an := c.NewAnalyzer()
	an.Opaque = opaque("(*validator/lib.ROAEntry).Validate")
	a := an.ParamTerms(fn)
	backs := recordBacks(an)
	w := an.W
	n := 0
	for _, e := range c.Explore(an, fn) {
		if e.Kind != "return" || e.St.NonNil(e.Results[0]) {
			continue
		}
		if e.St = e.St.Assume(w.EqAtom(e.Results[0], w.Nil), true); e.St == nil {
			continue
		}
		n++
		list := e.St.Path(a[0], "Entries")
		ok := everyElement(an, *backs, e.St, list, func(st *flow.State) []*flow.Term {
			var out []*flow.Term
			lits(st, func(t *flow.Term, v bool) {
				if x := eqNilArg(t); v && isCallTerm(x, "(*validator/lib.ROAEntry).Validate") {
					if i := elementOf(w, x.Args[0], list); i != nil {
						out = append(out, i)
					}
				}
			})
			return out
		})
		c.Expect(ok, "all-entries", "ValidateEntries", c.Pos(e.Instr), "the entries of a ROA are accepted without each of them having been validated: %s", facts(e.St))
	}
	c.Expect(n > 0, "all-entries", "accepts", c.PosOf(fn.Pos()), "no ROA is ever accepted")
}

// embeddedGate decides AddROA and AddManifest: valid only with a valid certificate and intact content.
func embeddedGate(c *Ctx, method, table, content string) {
	fn := c.Func("validator/pki", "*Validator", method)
	if fn == nil {
		return
	}
	an := c.NewAnalyzer()
	an.AssumeDeref = true
	names := []string{addCertN, "validator/pki.ExtractPathManifest"}
	if content != "" {
		names = append(names, content)
	}
	an.Opaque = opaque(names...)
	args := an.ParamTerms(fn)
	w := an.W
	obj := args[2]
	an.Record = func(ev *flow.Event) bool { return isCall(ev, addCertN) || ev.Kind == "mapset" }
	gate := func(st *flow.State, when flow.Formula, construct, pos string) {
		cert := st.Path(obj, "Certificate")
		var res *flow.Term
		for _, ev := range st.Events() {
			if isCall(ev, addCertN) && len(ev.Args) == 3 && w.Shape(ev.Args[1]) == w.Shape(cert) && ev.Args[0] == args[0] {
				res = ev.Res
			}
		}
		imp := func(f flow.Formula) bool { return st.Entails(flow.Implies(when, f)) }
		c.Expect(res != nil && imp(flow.Lit(w.Extract(res, 0, boolT))), "object-gate", construct+": certificate", pos, "%s without its certificate having been reported valid: %s", construct, facts(st))
		iv := st.Path(obj, "InnerValid")
		c.Expect(st.EntailsAny([]*flow.Term{iv}, func(x []*flow.Term) flow.Formula { return flow.Implies(when, flow.Lit(x[0])) }), "object-gate", construct+": intact", pos, "%s without its signed content being intact: %s", construct, facts(st))
		if content != "" {
			ok := hasAtomNil(st, when, func(x *flow.Term) bool {
				return isCallTerm(x, content) && len(x.Args) == 1 && w.Shape(x.Args[0]) == w.Shape(obj)
			})
			c.Expect(ok, "object-gate", construct+": entries", pos, "%s without its entries having been validated: %s", construct, facts(st))
		}
	}
	an.OnEvent = func(st *flow.State, ev *flow.Event) {
		if ev.Kind != "mapset" || !strings.Contains(ev.Name, "pki.Validator."+table+"|") {
			return
		}
		pos := c.evPos(ev)
		gate(st, flow.Lit(w.True), "write of "+table, pos)
		key := st.Path(obj, "Certificate", "Certificate", "SubjectKeyId")
		c.Expect(key != nil && w.Shape(strip(ev.Args[1])) == w.Shape(key), "object-gate", table+" key", pos, "the object is recorded under %s instead of the key identifier of its certificate", ev.Args[1])
		r := st.Path(ev.Args[2], "Resource")
		c.Expect(r != nil && strip(r) == obj, "object-gate", table+" value", pos, "what is recorded is not the object that was checked: %s", r)
	}
	visited := map[*ssa.Function]bool{}
	n := 0
	for _, e := range c.Explore(an, fn) {
		if e.Kind != "return" || e.St.Excludes(flow.Lit(e.Results[0])) {
			continue
		}
		if k := len(e.Results) - 2; e.St.IsNil(e.Results[k]) && e.St.NonNil(e.Results[k+1]) {
			// no resource and an error: AddCert gave no resource, hence (see below) did not report valid
			c.Expect(fromCall(e, an, addCertN), "object-gate", method+" without a resource", c.Pos(e.Instr), "%s reports an object valid without a resource: %s", method, facts(e.St))
			continue
		}
		n++
		gate(e.St, flow.Lit(e.Results[0]), method+" reports valid", c.Pos(e.Instr))
		recorded := false
		for _, ev := range e.St.Events() {
			recorded = recorded || ev.Kind == "mapset" && strings.Contains(ev.Name, "pki.Validator."+table+"|")
		}
		_ = recorded
	}
	for f := range an.Visited {
		visited[f] = true
	}
	c.Expect(n > 0, "object-gate", method+" accepts", c.PosOf(fn.Pos()), "%s never reports an object valid", method)
	exploreAddCert(c, func(e flow.Exit, an *flow.Analyzer, args []*flow.Term) {
		if e.Kind == "return" && !e.St.Excludes(flow.Lit(e.Results[0])) {
			c.Expect(e.St.NonNil(e.Results[2]), "object-gate", "AddCert reports valid with a resource", c.Pos(e.Instr), "AddCert reports a certificate valid without a resource")
		}
	}, nil)
	rm := reachableFrom(c, "InvalidateObject")
	ins, _ := tableWriters(c, "object-writers", "validator/pki", "Validator", table, func(f *ssa.Function) bool { return visited[f] }, func(f *ssa.Function) bool { return rm[f] })
	c.Expect(ins > 0, "object-writers", table+" has a writer", "", "nothing inserts into %s", table)
}

// hasAtomNil: "x == nil" holds whenever res does, for some x.
func hasAtomNil(st *flow.State, res flow.Formula, f func(x *flow.Term) bool) bool {
	return hasAtom(st, res, func(t *flow.Term) bool {
		x := eqNilArg(t)
		return x != nil && f(x)
	})
}

func roaDecoded(c *Ctx) {
	fn := c.Func("validator/lib", "*DecoderConfig", "DecodeROA")
	if fn == nil {
		return
	}
	an := c.NewAnalyzer()
	conv, part := "validator/lib.ConvertROAEntries", "validator/lib.ValidateIPRoaCertificateList"
	an.Opaque = opaque(conv, part, "validator/lib.DecodeCMS", "(*validator/lib.CMS).CheckSignaturesMatch", "validator/lib.BadFormatGroup",
		"(*validator/lib.CMS).GetSigningTime", "(*validator/lib.CMS).GetRPKICertificate", "(*validator/lib.CMS).Validate")
	w := an.W
	n := 0
	for _, e := range c.Explore(an, fn) {
		if e.Kind != "return" || e.St.NonNil(e.Results[1]) || e.St.IsNil(e.Results[0]) {
			continue
		}
		n++
		st := e.St
		pos := c.Pos(e.Instr)
		roa := e.Results[0]
		ent, asn, cert := st.Path(roa, "Entries"), st.Path(roa, "ASN"), st.Path(roa, "Certificate")
		valids := st.Path(roa, "Valids")
		okc := ent != nil && ent.Op == flow.OExtract && ent.Aux == "0" && isCallTerm(ent.Args[0], conv)
		c.Expect(okc, "decoded", "entries", pos, "the entries of a ROA are not those of its content: %s", ent)
		c.Expect(okc && asn != nil && asn.Op == flow.OExtract && asn.Aux == "1" && asn.Args[0] == ent.Args[0], "decoded", "AS number", pos, "the AS number of a ROA is not the one its entries came with: %s", asn)
		if okc {
			call := ent.Args[0]
			c.Expect(st.IsNil(w.Extract(call, 2, nil)) || hasLit(st, func(t *flow.Term, v bool) bool {
				x := eqNilArg(t)
				return v && x != nil && x.Op == flow.OExtract && x.Aux == "2" && x.Args[0] == call
			}), "decoded", "conversion error", pos, "a ROA is returned although converting its content failed: %s", facts(st))
		}
		okv := valids != nil && valids.Op == flow.OExtract && valids.Aux == "0" && isCallTerm(valids.Args[0], part) && len(valids.Args[0].Args) == 2
		if okv {
			x := valids.Args[0].Args
			okv = w.Shape(x[0]) == w.Shape(ent) && w.Shape(x[1]) == w.Shape(cert)
		}
		okv = okv || valids != nil && (valids.Op == flow.ONil || valids.Op == flow.OSliceLit && len(valids.Args) == 0)
		c.Expect(okv, "decoded", "publishable entries", pos, "the publishable entries of a ROA are not the valid result of judging its own entries against its own certificate: %s", valids)
	}
	c.Expect(n > 0, "decoded", "accepts", c.PosOf(fn.Pos()), "no ROA is ever decoded")
	for _, f := range []string{"Entries", "ASN", "Valids"} {
		m := 0
		storesField(c.P, "validator/lib", "RPKIROA", f, func(g *ssaFunc, in *ssaStore, fa *ssaFieldAddr) {
			m++
			c.Expect(an.Visited[g] || strings.HasPrefix(c.P.Rel(g), "cmd/") && rootAlloc(fa.X), "decoded", "writer of "+f+" "+fname(g), c.Pos(in), "the %s of a ROA are changed outside DecodeROA", f)
		})
		c.Expect(m > 0, "decoded", f+" set", "", "nothing sets the %s of a ROA", f)
	}
	for _, f := range []string{"IPNet", "MaxLength"} {
		storesField(c.P, "validator/lib", "ROAEntry", f, func(g *ssaFunc, in *ssaStore, fa *ssaFieldAddr) {
			c.Expect(rootAlloc(fa.X), "decoded", "writer of entry "+f+" "+fname(g), c.Pos(in), "the %s of an entry is changed after it was made", f)
		})
	}
}

func roaConverted(c *Ctx) {
	fn := c.Func("validator/lib", "", "ConvertROAEntries")
	if fn == nil {
		return
	}
	an := c.NewAnalyzer()
	dec := "validator/lib.DecodeIP"
	an.Opaque = opaque(dec)
	a := an.ParamTerms(fn)
	w := an.W
	n, m := 0, 0
	an.OnEvent = func(st *flow.State, ev *flow.Event) {
		if ev.Kind != "append" || len(ev.Args) < 2 || ev.Args[1].Op != flow.OSliceLit || !strings.Contains(ev.Args[1].Typ.String(), "ROAEntry") {
			return
		}
		for _, el := range ev.Args[1].Args {
			m++
			pos := c.evPos(ev)
			ipn, ml := st.Path(el, "IPNet"), st.Path(el, "MaxLength")
			if ipn == nil || ipn.Op != flow.OExtract || ipn.Aux != "0" || !isCallTerm(ipn.Args[0], dec) {
				c.Fail("convert", "prefix", pos, "the prefix of an entry is not decoded from an address of the ROA: %s", ipn)
				continue
			}
			call := ipn.Args[0]
			fam, bits := call.Args[0], call.Args[1]
			okErr := hasLit(st, func(t *flow.Term, v bool) bool {
				x := eqNilArg(t)
				return v && x != nil && x.Op == flow.OExtract && x.Aux == "1" && x.Args[0] == call
			})
			c.Expect(okErr, "convert", "decoding error", pos, "an entry is made although its address could not be decoded: %s", facts(st))
			addr := refBase(bits)
			okAddr := isRef(bits, "Address") && addr != nil
			var block *flow.Term
			if okAddr {
				x := addr
				for x != nil && x.Op == flow.ODeref {
					x = x.Args[0]
				}
				if x != nil && (x.Op == flow.OIndex || x.Op == flow.OIndexAddr) && isRef(x.Args[0], "Addresses") {
					block = refBase(x.Args[0])
				}
			}
			c.Expect(block != nil && isRef(fam, "AddressFamily") && w.Shape(refBase(fam)) == w.Shape(block), "convert", "family", pos, "an address is not decoded with the family of its own block: %s, %s", fam, bits)
			own := ml != nil && isRef(ml, "MaxLength") && w.Shape(refBase(ml)) == w.Shape(addr)
			if !own && ml != nil && ml.Op == flow.OExtract && ml.Aux == "0" && isCallTerm(ml.Args[0], "(net.IPMask).Size") {
				of := ml.Args[0].Args[0]
				own = isRef(of, "Mask") && w.Shape(refBase(of)) == w.Shape(ipn) && addr != nil &&
					st.EntailsAny([]*flow.Term{st.Path(addr, "MaxLength")}, func(x []*flow.Term) flow.Formula { return flow.Lit(w.OrdLe(x[0], w.Int(-1))) })
			}
			c.Expect(own, "convert", "max length", pos, "the max length of an entry is not the one given with its prefix, nor its prefix length when none is given: %s (%s)", ml, facts(st))
		}
	}
	for _, e := range c.Explore(an, fn) {
		if e.Kind != "return" || e.St.NonNil(e.Results[2]) {
			continue
		}
		n++
		st := e.St
		asn := e.Results[1]
		id := st.Path(a[0], "ASID")
		okNil := flow.Lit(w.EqAtom(e.Results[2], w.Nil))
		c.Expect(asn == id, "convert", "AS number", c.Pos(e.Instr), "the AS number is not the one in the content: %s", asn)
		c.Expect(st.Entails(flow.Implies(okNil, and(w.OrdLe(w.Zero0, asn), w.OrdLe(asn, w.Int(1<<32-1))))), "convert", "AS number range", c.Pos(e.Instr), "an AS number outside 0..2^32-1 is accepted: %s", facts(st))
	}
	c.Expect(n > 0 && m > 0, "convert", "accepts", c.PosOf(fn.Pos()), "no content is ever converted")
}

// ---- publication

var genOpaque = []string{"(*validator/pki.PKIFile).ComputePath", "(*sync/lib.LocalFetch).GetFileConv", "cmd/octorpki.FilterInvalidPrefixLen", "cmd/octorpki.FilterDuplicates",
	"cmd/octorpki.filterDuplicates", "(*cmd/octorpki.OctoRPKI).signROAList"}

func genListFn(c *Ctx) *ssa.Function {
	return findFunc(c, "cmd/octorpki", []string{"*OctoRPKI.generateROAList"}, "generates the ROA list", func(fn *ssa.Function) bool {
		res := fn.Signature.Results()
		return fn.Signature.Params().Len() > 0 && res.Len() == 1 && strings.HasSuffix(res.At(0).Type().String(), "prefixfile.ROAList") &&
			strings.Contains(fn.Signature.Params().String(), "pki.SimpleManager")
	})
}

// loopElem: t is an element of a list; returns list and index.
func loopElem(t *flow.Term) (list, idx *flow.Term) {
	t = strip(t)
	for t != nil && t.Op == flow.ODeref {
		t = t.Args[0]
	}
	if t != nil && (t.Op == flow.OIndex || t.Op == flow.OIndexAddr) {
		return t.Args[0], t.Args[1]
	}
	return nil, nil
}

// validObject: t is the resource of an element of one of the validator's tables; returns table and manager index.
func tableElem(t *flow.Term) (table string, mgrList, mgrIdx *flow.Term) {
	t = strip(t)
	if t == nil {
		return
	}
	if t.Op == flow.OAssert {
		t = strip(t.Args[0])
	}
	if isRef(t, "Resource") {
		t = refBase(t)
	}
	if t == nil || t.Op != flow.OLookup {
		return
	}
	m := t.Args[0]
	name, vb := fieldRef(m)
	if vb == nil || !isRef(vb, "Validator") {
		return
	}
	l, i := loopElem(refBase(vb))
	if l == nil {
		return
	}
	return name, l, i
}

// explorePublish analyses the list generation; f sees every event.
func explorePublish(c *Ctx, f func(st *flow.State, ev *flow.Event, an *flow.Analyzer, args []*flow.Term), exit func(e flow.Exit, an *flow.Analyzer, args []*flow.Term)) *flow.Analyzer {
	fn := genListFn(c)
	if fn == nil {
		return nil
	}
	an := c.NewAnalyzer()
	an.Opaque = opaque(genOpaque...)
	an.Keep = func(v ssa.Value) bool {
		_, phi := v.(*ssa.Phi)
		return phi && types.Identical(v.Type(), types.Typ[types.String])
	}
	args := an.ParamTerms(fn)
	an.OnEvent = func(st *flow.State, ev *flow.Event) { f(st, ev, an, args) }
	for _, e := range c.Explore(an, fn) {
		if exit != nil {
			exit(e, an, args)
		}
	}
	return an
}

// grownOnly: a list that was empty once and only ever had something appended to it.
func grownOnly(P *flow.Program, fn *ssa.Function, v ssa.Value) bool {
	ok, n := true, 0
	done := map[ssa.Value]bool{}
	var walk func(fn *ssa.Function, v ssa.Value)
	walk = func(fn *ssa.Function, v ssa.Value) {
		for _, o := range origins(P, fn, v) {
			if done[o.V] {
				continue
			}
			done[o.V] = true
			n++
			if call, is := o.V.(*ssa.Call); is && isAppend(call) {
				walk(o.Fn, call.Call.Args[0])
				continue
			}
			ok = ok && emptyList(o.V)
		}
	}
	walk(fn, v)
	return ok && n > 0
}

// taName: t is the name of the trust anchor at an index.
func taName(w *flow.World, st *flow.State, t, s, idx *flow.Term) bool {
	if t == nil {
		return false
	}
	if isRef(t, "Path") {
		l, i := loopElem(refBase(t))
		return l != nil && isRef(l, "Tals") && refBase(l) == s && i == idx
	}
	l, i := loopElem(t)
	return l != nil && isRef(l, "TalNames") && refBase(l) == s && i == idx &&
		st.Entails(flow.Lit(w.OrdEq(w.Len(l), w.Len(st.Path(s, "Tals")))))
}

func published(c *Ctx) {
	n := 0
	an := explorePublish(c, func(st *flow.State, ev *flow.Event, an *flow.Analyzer, args []*flow.Term) {
		if ev.Kind != "append" || len(ev.Args) < 2 || !strings.Contains(ev.Args[0].Typ.String()+fmtTyp(ev.Args[1]), "prefixfile.ROAJson") {
			return
		}
		w := an.W
		pos := c.evPos(ev)
		if ev.Args[1].Op != flow.OSliceLit {
			if call, ok := ev.Instr.(*ssa.Call); ok && len(call.Call.Args) == 2 && grownOnly(c.P, ev.Instr.Parent(), call.Call.Args[1]) {
				return // the appends that made it are looked at themselves
			}
			c.Fail("published", "append of a list", pos, "entries are added to the published list in a way that cannot be followed: %s", ev.Args[1])
			return
		}
		for _, el := range ev.Args[1].Args {
			n++
			pref, length, asn, ta := st.Path(el, "Prefix"), st.Path(el, "Length"), st.Path(el, "ASN"), st.Path(el, "TA")
			var entry *flow.Term
			if isCallTerm(pref, "(*net.IPNet).String") && isRef(pref.Args[0], "IPNet") {
				entry = refBase(pref.Args[0])
			}
			if entry == nil {
				c.Fail("published", "prefix", pos, "the published prefix is not that of a ROA entry: %s", pref)
				continue
			}
			l, _ := loopElem(entry)
			roa := refBase(l)
			ok := l != nil && isRef(l, "Valids") && roa != nil
			c.Expect(ok, "published", "prefix", pos, "a prefix is published that is not one of the entries inside the resources of its ROA's certificate: %s", entry)
			if !ok {
				continue
			}
			table, ml, mi := tableElem(roa)
			c.Expect(table == "ValidROA" && ml != nil && ml == args[1], "published", "valid ROA", pos, "a prefix is published from an object that is not in the table of valid ROAs: %s", roa)
			lt := length
			for lt != nil && lt.Op == flow.OConv {
				lt = lt.Args[0]
			}
			c.Expect(lt != nil && isRef(lt, "MaxLength") && w.Shape(refBase(lt)) == w.Shape(entry), "published", "max length", pos, "the published max length is not that of the entry whose prefix is published: %s", length)
			c.Expect(asText(w, asn, roa), "published", "AS number", pos, "the published AS number is not that of the ROA whose prefix is published: %s", asn)
			c.Expect(mi != nil && taName(w, st, ta, args[0], mi), "published", "trust anchor", pos, "the published trust anchor is not the one whose validator holds the ROA: %s", ta)
		}
	}, nil)
	c.Expect(n > 0, "published", "entries", "", "no entry is ever published")
	if an == nil {
		return
	}
	// entries are made nowhere else in the server
	m := 0
	storesField2(c.P, "prefixfile.ROAJson", func(fn *ssa.Function, in *ssa.Store, field string) {
		if c.P.Rel(fn) != "cmd/octorpki" {
			return
		}
		m++
		c.Expect(an.Visited[fn], "published", "maker of entries "+fname(fn), c.Pos(in), "the %s of a published entry is set outside the list generation", field)
	})
	c.Expect(m > 0, "published", "makers of entries", "", "no code makes published entries")
}

func fmtTyp(t *flow.Term) string {
	if t == nil || t.Typ == nil {
		return ""
	}
	return t.Typ.String()
}

// asText: t is "AS" followed by the AS number of roa.
func asText(w *flow.World, t, roa *flow.Term) bool {
	if t == nil {
		return false
	}
	found, prefix, other := false, false, false
	t.Sub(func(x *flow.Term) {
		if isRef(x, "ASN") && w.Shape(refBase(x)) == w.Shape(roa) {
			found = true
		}
		if x.Op == flow.OConv && narrow(x.Typ) || x.Op == flow.OCall && len(x.Args) > 1 && strings.HasPrefix(x.Aux, "strconv.Format") && x.Args[1] != w.Int(10) {
			other = true
		}
		if s, ok := x.IsStr(); ok {
			if s == "AS" || s == "AS%v" || s == "AS%d" {
				prefix = true
			} else {
				other = true
			}
		}
	})
	return found && prefix && !other
}

// narrow: the integer type cannot hold every AS number.
func narrow(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return false
	}
	switch b.Kind() {
	case types.Int8, types.Int16, types.Int32, types.Uint8, types.Uint16:
		return true
	}
	return false
}

// storesField2 lists stores into fields of a struct type given by the end of its name.
func storesField2(P *flow.Program, typ string, f func(fn *ssa.Function, in *ssa.Store, field string)) {
	for _, fn := range moduleFuncs(P) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
						if o, n := fieldAddrName(fa); strings.HasSuffix(o, typ) {
							f(fn, s, n)
						}
					}
				}
			}
		}
	}
}

var mainOpaque = append([]string{"(*validator/pki.SimpleManager).Explore", "(*validator/pki.SimpleManager).AddInitial", "(*validator/pki.SimpleManager).Close", "validator/pki.NewValidator", "validator/pki.NewSimpleManager",
	"sync/lib.ExtractRsyncDomainModule", "(*validator/lib.RPKICertificate).GetRsyncGeneralName", "(*validator/lib.RPKICertificate).GetRRDPGeneralName", "(*validator/lib.RPKICertificate).HasRRDP",
	"(*cmd/octorpki.OctoRPKI).generateROAList", "(*cmd/octorpki.OctoRPKI).ct"}, genOpaque...)

func mainValidationFn(c *Ctx) *ssa.Function {
	return findFunc(c, "cmd/octorpki", []string{"*OctoRPKI.mainValidation"}, "runs a validation", func(fn *ssa.Function) bool {
		hit := false
		calls(fn, func(in ssaCall, n string) { hit = hit || n == smT+"Explore" })
		return hit
	})
}

// exploreMain analyses one validation run of the server.
func exploreMain(c *Ctx, f func(st *flow.State, ev *flow.Event, an *flow.Analyzer, args []*flow.Term)) *flow.Analyzer {
	fn := mainValidationFn(c)
	if fn == nil {
		return nil
	}
	an := c.NewAnalyzer()
	gen := genListFn(c)
	op := opaque(mainOpaque...)
	an.Opaque = func(g *ssa.Function) bool { return op(g) || g == gen }
	args := an.ParamTerms(fn)
	an.OnEvent = func(st *flow.State, ev *flow.Event) { f(st, ev, an, args) }
	an.Record = func(ev *flow.Event) bool { return ev.Kind == "call" || ev.Kind == "store" }
	c.Explore(an, fn)
	return an
}

// managerOrder: the manager stored at an index is the one that explores the trust anchor at that index.
func managerOrder(c *Ctx) {
	explored, passed := 0, 0
	gen := genListFn(c)
	exploreMain(c, func(st *flow.State, ev *flow.Event, an *flow.Analyzer, args []*flow.Term) {
		pos := c.evPos(ev)
		switch {
		case isCall(ev, smT+"AddInitial"):
			explored++
			sm, files := ev.Args[0], ev.Args[1]
			ok := false
			if files.Op == flow.OSliceLit && len(files.Args) == 1 {
				if l, i := loopElem(files.Args[0]); l != nil && isRef(l, "Tals") && refBase(l) == args[0] {
					for _, e := range st.Events() {
						if e.Kind == "store" && e.Args[1] == sm && e.Args[0].Op == flow.OIndexAddr && e.Args[0].Args[1] == i && e.Args[0].Args[0].Op == flow.OMake {
							ok = true
						}
					}
				}
			}
			c.Expect(ok, "managers", "explored trust anchor", pos, "the manager that explores a trust anchor is not recorded at that trust anchor's place: %s explores %s", sm, files)
		case gen != nil && isCall(ev, fname(gen)):
			passed++
			c.Expect(len(ev.Args) > 1 && ev.Args[1].Op == flow.OMake, "managers", "managers published", pos, "the list is not generated from the managers of this run: %s", ev.Args[1])
		}
	})
	c.Expect(explored > 0 && passed > 0, "managers", "run", "", "the validation run explores no trust anchor or publishes no list (%d, %d)", explored, passed)
}
