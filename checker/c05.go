package main

import (
	"fmt"
	"strings"

	"verif/checker/flow"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C05",
		Technique: "predicate dataflow over SSA with symbolic provenance of hashed, signed and decoded bytes; who-may-write query",
		Rule:      "Every success exit of (*CMS).Validate implies: rsa.VerifyPKCS1v15 with SHA-256 succeeded for the RSA key of the certificate passed in, over the SHA-256 of the DER encoding of the first signer's signed attributes, and bytes equal to the SHA-256 of the content passed in are those of an attribute of that signer whose type is the message-digest identifier. At every exit of DecodeROA, DecodeManifest and DecodeXML an object with InnerValid set implies that Validate succeeded on the bytes its content was unmarshalled from and on the certificate unmarshalled from the same CMS, which is the certificate stored in the object. With strict decoding every success exit implies CheckSignaturesMatch said yes, and that says yes only if the algorithm identifiers are equal. InnerValid is written nowhere else.",
		Note:      "The cryptographic primitives are the standard library's.",
		Run:       runC05})
}

func runC05(c *Ctx) {
	cmsValidate(c)
	strictMatch(c)
	for _, d := range []struct {
		recv, fn, typ string
		content       []string
		strict        bool
	}{
		{"*DecoderConfig", "DecodeROA", "RPKIROA", []string{"Entries", "ASN"}, true},
		{"*DecoderConfig", "DecodeManifest", "RPKIManifest", []string{"Content"}, true},
		{"", "DecodeXML", "RPKIXML", []string{"Content"}, false},
	} {
		decoder(c, d.recv, d.fn, d.typ, d.content, d.strict)
	}
	c.AtLeast("intact", 12)
}

// oidLit: t is the object identifier with these arcs.
func oidLit(t *flow.Term, arcs ...int64) bool {
	if t == nil || t.Op != flow.OSliceLit || len(t.Args) != len(arcs) {
		return false
	}
	for i, a := range t.Args {
		n, ok := a.IsInt()
		if !ok || n != arcs[i] {
			return false
		}
	}
	return true
}

func cmsValidate(c *Ctx) {
	fn := c.Func("validator/lib", "*CMS", "Validate")
	if fn == nil {
		return
	}
	an := c.NewAnalyzer()
	args := an.ParamTerms(fn)
	backs := recordBacks(an)
	exits := c.Explore(an, fn)
	w := an.W
	// md is the digest attribute of signer 0 in state st
	isDigest := func(st *flow.State, md, attrs *flow.Term) bool {
		// <element>.AttrValue[k].Bytes with <element> of attrs and element.AttrType == message digest
		if !isRef(md, "Bytes") {
			return false
		}
		v := refBase(md)
		if v.Op == flow.ODeref {
			v = v.Args[0]
		}
		if v.Op != flow.OIndex && v.Op != flow.OIndexAddr || !isRef(v.Args[0], "AttrValue") {
			return false
		}
		el := v.Args[0].FieldBase()
		if elementOf(w, el, attrs) == nil && !(el.Op == flow.OIndexAddr && w.Shape(el.Args[0]) == w.Shape(attrs)) {
			return false
		}
		return hasLit(st, func(t *flow.Term, val bool) bool {
			if !val || t.Op != flow.OEq && !isCallTerm(t, "(encoding/asn1.ObjectIdentifier).Equal") || len(t.Args) != 2 {
				return false
			}
			for i := range t.Args {
				a, o := t.Args[i], t.Args[1-i]
				if isRef(a, "AttrType") && w.Shape(refBase(a)) == w.Shape(el) && oidLit(o, 1, 2, 840, 113549, 1, 9, 4) {
					return true
				}
			}
			return false
		})
	}
	n := 0
	for _, e := range exits {
		if e.Kind != "return" || e.St.NonNil(e.Results[0]) {
			continue
		}
		n++
		st := e.St
		pos := c.Pos(e.Instr)
		if !st.IsNil(e.Results[0]) {
			c.Fail("verify", "Validate outcome", pos, "the outcome of this path is not known: %s", e.Results[0])
			continue
		}
		infos := st.Path(args[0], "SignedData", "SignerInfos")
		// signature
		var attrs *flow.Term
		sig := hasLit(st, func(t *flow.Term, val bool) bool {
			x := eqNilArg(t)
			if !val || !isCallTerm(x, "crypto/rsa.VerifyPKCS1v15") || len(x.Args) != 4 {
				return false
			}
			key, alg, hash, sg := x.Args[0], x.Args[1], x.Args[2], x.Args[3]
			if key.Op != flow.OAssert || w.Shape(key.Args[0]) != w.Shape(st.Path(args[2], "PublicKey")) {
				return false
			}
			if k, ok := alg.IsInt(); !ok || k != 5 { // crypto.SHA256
				return false
			}
			if !isRef(sg, "Signature") {
				return false
			}
			info := refBase(sg)
			if !firstOf(w, info, infos) {
				return false
			}
			if hash.Op != flow.OHash || !strings.Contains(hash.Aux, "sha256") {
				return false
			}
			// the hashed bytes are the DER encoding of the attributes of the same signer, less at most its header
			var m *flow.Term
			hash.Sub(func(s *flow.Term) {
				if isCallTerm(s, "encoding/asn1.Marshal") {
					m = s
				}
			})
			if m == nil {
				return false
			}
			m.Args[0].Sub(func(s *flow.Term) {
				if attrs == nil && s.Op != flow.OFieldAddr && isRef(s, "SignedAttrs") && w.Shape(refBase(s)) == w.Shape(info) {
					attrs = s
				}
			})
			return attrs != nil && wholeAfterHeader(hash, m)
		})
		c.Expect(sig, "verify", "Validate signature", pos, "content is accepted without the signature over the signed attributes verifying under the certificate's key: %s", facts(st))
		if attrs == nil {
			attrs = an.W.Nil
		}
		// digest
		var md *flow.Term
		dig := hasLit(st, func(t *flow.Term, val bool) bool {
			if !val || t.Op != flow.OEq && !(isCallTerm(t, "bytes.Equal")) || len(t.Args) != 2 {
				return false
			}
			for i := range t.Args {
				a, o := strip(t.Args[i]), strip(t.Args[1-i])
				if a.Op == flow.OHash && strings.Contains(a.Aux, "sha256") && len(a.Args) == 1 && strip(a.Args[0]) == args[1] {
					md = o
					return true
				}
			}
			return false
		})
		c.Expect(dig, "verify", "Validate digest compared", pos, "content is accepted without comparing its SHA-256: %s", facts(st))
		if md == nil {
			continue
		}
		ok := isDigest(st, md, attrs)
		if p, fr := md.PhiOf(); p != nil {
			ok = true
			upd := 0
			for _, r := range *backs {
				next, has := r.Vals[p]
				if !has || r.Fr != fr {
					continue
				}
				if next == md {
					continue
				}
				upd++
				if !isDigest(r.St, next, attrs) {
					ok = false
				}
			}
			for i, e := range p.Edges {
				if p.Block().Dominates(p.Block().Preds[i]) {
					continue
				}
				if k, isC := e.(*ssa.Const); !isC || k.Value != nil {
					ok = false
				}
			}
			ok = ok && upd > 0
		}
		c.Expect(ok, "verify", "Validate digest attribute", pos, "what the content's SHA-256 is compared with is not the message-digest attribute of the verified signer: %s", md)
	}
	c.Expect(n > 0, "verify", "Validate accepts", c.PosOf(fn.Pos()), "no path accepts any content")
}

// firstOf: t is (the address or value of) element 0 of list.
func firstOf(w *flow.World, t, list *flow.Term) bool {
	if t == nil || list == nil {
		return false
	}
	if t.Op == flow.ODeref {
		t = t.Args[0]
	}
	if t.Op != flow.OIndex && t.Op != flow.OIndexAddr || w.Shape(t.Args[0]) != w.Shape(list) {
		return false
	}
	n, ok := t.Args[1].IsInt()
	return ok && n == 0
}

// wholeAfterHeader: the hash covers call result 0 from a constant offset to its end.
func wholeAfterHeader(hash, m *flow.Term) bool {
	if len(hash.Args) != 1 {
		return false
	}
	t := strip(hash.Args[0])
	if t.Op == flow.OSlice {
		if len(t.Args) < 3 {
			return false
		}
		if _, ok := t.Args[1].IsInt(); !ok {
			return false
		}
		if t.Args[2].Op != flow.ONil {
			return false
		}
		t = strip(t.Args[0])
	}
	return t.Op == flow.OExtract && t.Aux == "0" && t.Args[0] == m
}

// strictMatch: the answer is yes only if the algorithm identifiers of certificate and signer are the same bytes.
func strictMatch(c *Ctx) {
	fn := c.Func("validator/lib", "*CMS", "CheckSignaturesMatch")
	if fn == nil {
		return
	}
	an := c.NewAnalyzer()
	an.Record = func(ev *flow.Event) bool { return ev.Kind == "call" }
	args := an.ParamTerms(fn)
	w := an.W
	n := 0
	for _, e := range c.Explore(an, fn) {
		if e.Kind != "return" || e.St.Excludes(flow.Lit(e.Results[0])) {
			continue
		}
		n++
		st := e.St
		infos := st.Path(args[0], "SignedData", "SignerInfos")
		ok := false
		cands := []*flow.Term{e.Results[0]}
		lits(st, func(t *flow.Term, v bool) {
			if v {
				cands = append(cands, t)
			}
		})
		for _, t := range cands {
			if t.Op != flow.OEq && !isCallTerm(t, "bytes.Equal") || len(t.Args) != 2 {
				continue
			}
			if !st.Entails(flow.Implies(flow.Lit(e.Results[0]), flow.Lit(t))) {
				continue
			}
			for i := range t.Args {
				a, b := strip(t.Args[i]), strip(t.Args[1-i])
				if !isRef(a, "FullBytes") || !isRef(b, "FullBytes") {
					continue
				}
				a, b = refBase(a), refBase(b)
				if !isRef(a, "SignatureAlgorithm") || !isRef(b, "SignatureAlgorithm") || !firstOf(w, refBase(a), infos) {
					continue
				}
				// b is decoded from the embedded certificate
				b.Sub(func(s *flow.Term) {
					if s.Op == flow.OOut {
						if in := outInput(st, s); in != nil && w.Shape(in) == w.Shape(st.Path(args[0], "SignedData", "Certificates", "Bytes")) {
							ok = true
						}
					}
				})
			}
		}
		c.Expect(ok, "strict", "CheckSignaturesMatch", c.Pos(e.Instr), "algorithm identifiers are reported to match without comparing those of the embedded certificate and of the signer: %s => %s", facts(st), e.Results[0])
	}
	c.Expect(n > 0, "strict", "CheckSignaturesMatch accepts", c.PosOf(fn.Pos()), "no path reports a match")
}

// outInput: the first argument of the call that produced an output parameter's content.
func outInput(st *flow.State, out *flow.Term) *flow.Term {
	for _, ev := range st.Events() {
		if ev.Kind == "call" && out.Site != nil && ev.Instr == out.Site.Instr && ev.Frame == out.Site.Frame && len(ev.Args) > 0 {
			return ev.Args[0]
		}
	}
	return nil
}

func decoder(c *Ctx, recv, name, typ string, content []string, strict bool) {
	fn := c.Func("validator/lib", recv, name)
	if fn == nil {
		return
	}
	an := c.NewAnalyzer()
	validate := "(*validator/lib.CMS).Validate"
	match := "(*validator/lib.CMS).CheckSignaturesMatch"
	an.Opaque = opaque(validate, match, "validator/lib.ConvertROAEntries", "validator/lib.BadFormatGroup", "validator/lib.BER2DER", "validator/lib.DecodeCertificate",
		"(*validator/lib.CMS).GetSigningTime", "validator/lib.ValidateIPRoaCertificateList")
	an.Record = func(ev *flow.Event) bool { return ev.Kind == "call" }
	args := an.ParamTerms(fn)
	w := an.W
	marked := 0
	for _, e := range c.Explore(an, fn) {
		if e.Kind != "return" {
			continue
		}
		st, pos := e.St, c.Pos(e.Instr)
		obj := e.Results[0]
		if st.IsNil(obj) {
			continue
		}
		if strict && st.IsNil(e.Results[1]) {
			sv := st.Path(args[0], "ValidateStrict")
			ok := sv != nil && st.Excludes(flow.Lit(sv))
			for _, ev := range st.Events() {
				if isCall(ev, match) && ev.Res != nil {
					ok = ok || st.Entails(and(w.Extract(ev.Res, 0, boolT), w.EqAtom(w.Extract(ev.Res, 1, nil), w.Nil)))
				}
			}
			c.Expect(ok, "strict", name+" refuses", pos, "%s accepts an object in strict mode without its algorithm identifiers matching: %s", name, facts(st))
		}
		iv := st.Path(obj, "InnerValid")
		if iv == nil {
			c.Fail("intact", name, pos, "the InnerValid mark is not found")
			continue
		}
		if st.Excludes(flow.Lit(iv)) {
			continue
		}
		marked++
		var why []string
		good := false
		for _, ev := range st.Events() {
			if !isCall(ev, validate) || ev.Res == nil || len(ev.Args) != 3 {
				continue
			}
			if !st.Entails(flow.Implies(flow.Lit(iv), flow.Lit(w.EqAtom(ev.Res, w.Nil)))) {
				why = append(why, "the result of Validate does not imply the mark")
				continue
			}
			cms, x, cert := ev.Args[0], ev.Args[1], ev.Args[2]
			bad := false
			// content decoded from x
			for _, f := range content {
				t := st.Path(obj, f)
				from, n := t == x, 0
				if t != nil && t != x {
					t.Sub(func(s *flow.Term) {
						if s.Op == flow.OOut {
							n++
							if in := outInput(st, s); in == x {
								from = true
							}
						}
					})
					if n != 1 {
						from = false
					}
				}
				if !from {
					bad = true
					why = append(why, fmt.Sprintf("field %s (%s) is not decoded from the bytes verified (%s)", f, t, x))
				}
			}
			// certificate of the same CMS
			own := st.Path(obj, "Certificate")
			if own == nil || !isRef(cert, "Certificate") || refBase(cert) != own {
				bad = true
				why = append(why, fmt.Sprintf("the key used (%s) is not that of the object's certificate (%s)", cert, own))
			} else {
				same := false
				own.Sub(func(s *flow.Term) {
					if isRef(s, "Bytes") && isRef(refBase(s), "Certificates") {
						s.Sub(func(o *flow.Term) {
							if o == cms || o.Op == flow.OOut && o.Args[0] == cms {
								same = true
							}
						})
					}
				})
				if !same {
					bad = true
					why = append(why, fmt.Sprintf("the certificate (%s) does not come from the CMS that is verified", own))
				}
			}
			good = good || !bad
		}
		for _, part := range []string{"signature", "content", "certificate"} {
			c.Expect(good, "intact", name+" "+part, pos, "%s marks an object intact without verification: %s", name, strings.Join(why, "; "))
		}
		c.OK("intact", fmt.Sprintf("%s exit", name))
	}
	c.Expect(marked > 0, "intact", name+" marks", c.PosOf(fn.Pos()), "%s never marks an object intact", name)
	visited := an.Visited
	storesField(c.P, "validator/lib", typ, "InnerValid", func(f *ssaFunc, in *ssaStore, fa *ssaFieldAddr) {
		c.Expect(visited[f], "writers", fname(f)+" writes "+typ+".InnerValid", c.Pos(in), "the intact mark of %s is written outside %s", typ, name)
	})
}
