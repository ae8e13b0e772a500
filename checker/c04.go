package main

import (
	"go/constant"
	"go/types"
	"strings"

	"verif/checker/flow"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C04",
		Technique: "predicate dataflow over SSA at the admission call, value-origin analysis of the trust flag and file type, who-may-call query",
		Rule:      "(*RPKITAL).CheckCertificate says yes only on paths where algorithm, modulus and exponent are equal. In AddResource a certificate is added with the trust flag only if the file carries it, and if the file's parent is a TAL whose entry is known, only after CheckCertificate of that TAL accepted the certificate added. The trust flag of a file is set only by AddTAL, on a file whose path is the key under which that same TAL is recorded; AddResource makes the TAL the parent of those files; entries of the TAL table are never removed or written elsewhere. Every other caller adds certificates without the flag. No function that derives files from a repository (DetermineType, manifest and directory listings) can produce a file of type TAL.",
		Note:      "Decides the admission of trust anchors on all paths of AddResource and the origins of the flag over the whole module.",
		Run:       runC04})
}

func runC04(c *Ctx) {
	talKey(c)
	talGate(c)
	trustOrigins(c)
	talType(c)
}

func talKey(c *Ctx) {
	fn := c.Func("validator/lib", "*RPKITAL", "CheckCertificate")
	if fn == nil {
		return
	}
	an := c.NewAnalyzer()
	a := an.ParamTerms(fn)
	w := an.W
	n := 0
	for _, e := range c.Explore(an, fn) {
		if e.Kind != "return" || e.St.Excludes(flow.Lit(e.Results[0])) {
			continue
		}
		n++
		st := e.St
		res := flow.Lit(e.Results[0])
		pos := c.Pos(e.Instr)
		alg := w.OrdEq(st.Path(a[0], "Algorithm"), st.Path(a[1], "PublicKeyAlgorithm"))
		c.Expect(st.Entails(flow.Implies(res, flow.Lit(alg))), "key", "algorithm", pos, "a certificate's key is accepted without its algorithm equalling the TAL's: %s", facts(st))
		tk, ck := st.Path(a[0], "PublicKey"), st.Path(a[1], "PublicKey")
		ofKey := func(t *flow.Term, key *flow.Term) bool {
			for t != nil {
				if t.Op == flow.OAssert && t.Args[0] == key {
					return true
				}
				switch {
				case refBase(t) != nil:
					t = refBase(t)
				case t.Op == flow.OConv || t.Op == flow.ODeref:
					t = t.Args[0]
				default:
					return false
				}
			}
			return false
		}
		eq := func(field string) bool {
			return hasAtom(st, res, func(t *flow.Term) bool {
				if isCallTerm(t, "(*crypto/rsa.PublicKey).Equal") && len(t.Args) == 2 {
					x, y := t.Args[0], strip(t.Args[1])
					return ofKey(x, tk) && ofKey(y, ck) || ofKey(x, ck) && ofKey(y, tk)
				}
				if len(t.Args) != 2 || t.Op != flow.OEq {
					return false
				}
				for i := range t.Args {
					x, y := strip(t.Args[i]), strip(t.Args[1-i])
					if isRef(x, field) && isRef(y, field) && ofKey(x, tk) && ofKey(y, ck) {
						return true
					}
				}
				return false
			})
		}
		c.Expect(eq("N"), "key", "modulus", pos, "a certificate's key is accepted without its modulus equalling the TAL's: %s", facts(st))
		c.Expect(eq("E"), "key", "exponent", pos, "a certificate's key is accepted without its exponent equalling the TAL's: %s", facts(st))
	}
	c.Expect(n > 0, "key", "accepts", c.PosOf(fn.Pos()), "no certificate is ever accepted")
}

// hasAtom: some atom with the shape holds whenever res does.
func hasAtom(st *flow.State, res flow.Formula, f func(t *flow.Term) bool) bool {
	found := false
	var cands []*flow.Term
	visit := func(t *flow.Term) {
		if f(t) {
			cands = append(cands, t)
		}
	}
	lits(st, func(t *flow.Term, v bool) {
		if v {
			visit(t)
		}
	})
	res.Atoms(visit)
	for _, t := range cands {
		if st.Entails(flow.Implies(res, flow.Lit(t))) {
			found = true
		}
	}
	return found
}

const addCertN = "(*validator/pki.Validator).AddCert"

func talGate(c *Ctx) {
	fn := c.Func("validator/pki", "*Validator", "AddResource")
	if fn == nil {
		return
	}
	tal := typeConst(c, "TYPE_TAL")
	an := c.NewAnalyzer()
	op := opaque(addCertN, "(*validator/pki.Validator).AddROA", "(*validator/pki.Validator).AddManifest", "(*validator/pki.Validator).AddCRL", "(*validator/pki.Validator).AddTAL", "(*validator/lib.RPKITAL).CheckCertificate", "validator/pki.crlAuthorityKeyId")
	an.Opaque = func(f *ssa.Function) bool { return op(f) || c.P.Rel(f) == "validator/lib" }
	an.AssumeDeref = true
	args := an.ParamTerms(fn)
	w := an.W
	n := 0
	an.OnEvent = func(st *flow.State, ev *flow.Event) {
		if !isCall(ev, addCertN) || len(ev.Args) != 3 {
			return
		}
		pos := c.evPos(ev)
		trust := ev.Args[2]
		if st.Excludes(flow.Lit(trust)) {
			c.OK("gate", "AddCert without trust")
			return
		}
		n++
		file := args[1]
		c.Expect(st.Entails(flow.Implies(flow.Lit(trust), flow.Lit(st.Path(file, "Trust")))), "gate", "trust flag", pos, "a certificate is added as trust anchor although its file does not carry the trust flag: %s", trust)
		// parent is a known TAL => key checked
		parent := st.Path(file, "Parent")
		ptype := st.Path(parent, "Type")
		path := st.Path(file, "Path")
		tals := st.Path(args[0], "TALs")
		checked := hasLit(st, func(t *flow.Term, v bool) bool {
			if !v || !isCallTerm(t, "(*validator/lib.RPKITAL).CheckCertificate") || len(t.Args) != 2 {
				return false
			}
			cert := t.Args[1]
			if !isField(cert, "Certificate") || w.Shape(cert.FieldBase()) != w.Shape(ev.Args[1]) {
				return false
			}
			k := t.Args[0]
			if k.Op != flow.OAssert || !isField(k.Args[0], "Resource") {
				return false
			}
			l := k.Args[0].FieldBase()
			return l.Op == flow.OLookup && isField(l.Args[0], "TALs") && w.Shape(strip(l.Args[1])) == w.Shape(path)
		})
		if checked {
			c.OK("gate", "key of a TAL's certificate")
			return
		}
		_, known := st.Lookup(tals, path, nil)
		ok := st.Excludes(flow.And(flow.Lit(w.OrdEq(ptype, w.Int(tal))), not(w.EqAtom(parent, w.Nil)), flow.Lit(known)))
		c.Expect(ok, "gate", "key of a TAL's certificate", pos, "a certificate found through a TAL is added without its key having been compared with the TAL's: %s", facts(st))
	}
	backs := recordBacks(an)
	an.Record = func(ev *flow.Event) bool {
		return isCall(ev, "(*validator/pki.Validator).AddTAL") || ev.Kind == "store" && strings.Contains(ev.Name, "pki.PKIFile.Parent")
	}
	exits := c.Explore(an, fn)
	c.Expect(n > 0, "gate", "AddCert with trust", c.PosOf(fn.Pos()), "AddResource never adds a trust anchor")
	// the files of a TAL get it as parent
	loops := 0
	for _, r := range *backs {
		var files *flow.Term
		for _, ev := range r.St.Events() {
			if isCall(ev, "(*validator/pki.Validator).AddTAL") && ev.Res != nil {
				files = w.Extract(ev.Res, 0, nil)
			}
		}
		if files == nil {
			continue
		}
		ok := false
		for _, ev := range r.St.Events() {
			if ev.Kind != "store" || ev.Old || ev.Args[1] != args[1] {
				continue
			}
			if i := elementOf(w, refBase(ev.Args[0]), files); i != nil {
				if _, all := elementCounter(an, i, r); all {
					ok = true
				}
			}
		}
		if ok {
			loops++
		}
		c.Expect(ok, "parent", "files of a TAL", c.PosOf(r.H.Instrs[0].Pos()), "the files found through a TAL do not all get the TAL as parent: %s", facts(r.St))
	}
	_ = exits
	c.Expect(loops > 0, "parent", "files of a TAL are visited", c.PosOf(fn.Pos()), "the files found through a TAL do not get the TAL as parent")
}

func typeConst(c *Ctx, name string) int64 {
	p := c.P.SSA["validator/pki"]
	if p != nil {
		if k, ok := p.Pkg.Scope().Lookup(name).(*types.Const); ok {
			if v, ok := constant.Int64Val(k.Val()); ok {
				return v
			}
		}
	}
	c.Fail("anchor", name, "", "the constant %s does not exist any more", name)
	return -1
}

func trustOrigins(c *Ctx) {
	addTAL := c.Func("validator/pki", "*Validator", "AddTAL")
	if addTAL == nil {
		return
	}
	an := c.NewAnalyzer()
	an.Opaque = opaque("(*validator/lib.RPKITAL).GetRsyncURI", "(*validator/lib.RPKITAL).GetURI")
	an.Record = func(ev *flow.Event) bool { return ev.Kind == "mapset" || ev.Kind == "store" }
	args := an.ParamTerms(addTAL)
	exits := c.Explore(an, addTAL)
	visited := an.Visited
	for _, e := range exits {
		if e.Kind != "return" {
			continue
		}
		st := e.St
		var key *flow.Term
		for _, ev := range st.Events() {
			if ev.Kind == "mapset" && strings.Contains(ev.Name, "pki.Validator.TALs|") {
				key = strip(ev.Args[1])
				r := st.Path(ev.Args[2], "Resource")
				c.Expect(r != nil && strip(r) == args[1], "tal-table", "recorded TAL", c.evPos(ev), "what is recorded under a TAL's address is not that TAL: %s", r)
			}
		}
		files := e.Results[0]
		trusted := 0
		bad := false
		var list []*flow.Term
		if files.Op == flow.OSliceLit {
			list = files.Args
		} else {
			files.Sub(func(t *flow.Term) {
				if t.Op == flow.OSliceLit {
					list = append(list, t.Args...)
				}
			})
		}
		for _, f := range list {
			tr := st.Path(f, "Trust")
			if tr == nil || st.Excludes(flow.Lit(tr)) {
				continue
			}
			trusted++
			p := st.Path(f, "Path")
			bad = bad || key == nil || p == nil || strip(p) != key
		}
		c.Expect(trusted > 0 && !bad, "tal-table", "trusted file", c.Pos(e.Instr), "a file trusted through a TAL is not the one the TAL is recorded for (%d trusted files)", trusted)
	}
	c.AtLeast("tal-table", 2)
	yes := func(m map[*ssa.Function]bool) func(*ssa.Function) bool {
		return func(f *ssa.Function) bool { return m[f] }
	}
	tableWriters(c, "tal-writers", "validator/pki", "Validator", "TALs", yes(visited), func(*ssa.Function) bool { return false })

	n := 0
	storesField(c.P, "validator/pki", "PKIFile", "Trust", func(fn *ssaFunc, in *ssaStore, fa *ssaFieldAddr) {
		if visited[fn] {
			n++
			c.OK("trust-writers", fname(fn))
			return
		}
		ok := true
		for _, o := range origins(c.P, fn, in.Val) {
			if b, isC := boolConst(o.V); !isC || b {
				ok = false
			}
		}
		c.Expect(ok, "trust-writers", fname(fn), c.Pos(in), "the trust flag of a file is set outside AddTAL")
	})
	c.Expect(n > 0, "trust-writers", "AddTAL", c.PosOf(addTAL.Pos()), "AddTAL sets no trust flag")
	// copies of whole files carry the flag
	pf := c.P.Named("validator/pki", "PKIFile")
	for _, fn := range moduleFuncs(c.P) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok || pf == nil || !types.Identical(s.Val.Type(), pf) {
					continue
				}
				if u, ok := s.Val.(*ssa.UnOp); ok && !rootAlloc(u.X) {
					c.Fail("trust-writers", fname(fn)+" copies a file", c.Pos(in), "%s copies a file together with its trust flag", fname(fn))
				}
			}
		}
	}

	// callers
	for _, name := range []string{"AddCert", "ValidateCertificate"} {
		callee := c.Func("validator/pki", "*Validator", name)
		if callee == nil {
			continue
		}
		for _, fn := range moduleFuncs(c.P) {
			calls(fn, func(in ssaCall, n string) {
				if n != "(*validator/pki.Validator)."+name {
					return
				}
				cc := in.Common()
				tr := cc.Args[len(cc.Args)-1]
				ok := true
				var why ssa.Value
				for _, o := range origins(c.P, fn, tr) {
					if b, isC := boolConst(o.V); isC && !b {
						continue
					}
					if ow, f := fieldLoad(o.V); ow == "validator/pki.PKIFile" && f == "Trust" {
						continue
					}
					if p, isP := o.V.(*ssa.Parameter); isP && nameIs(o.Fn, addCertN) && p.Name() == o.Fn.Params[len(o.Fn.Params)-1].Name() {
						continue
					}
					ok, why = false, o.V
				}
				c.Expect(ok, "trust-callers", fname(fn)+" "+name, c.Pos(in), "%s is called with a trust flag that does not come from the file: %v", name, why)
			})
		}
	}
	c.AtLeast("trust-callers", 2)
}

// talType: only commands make files of type TAL.
func talType(c *Ctx) {
	tal := typeConst(c, "TYPE_TAL")
	storesField(c.P, "validator/pki", "PKIFile", "Type", func(fn *ssaFunc, in *ssaStore, fa *ssaFieldAddr) {
		if strings.HasPrefix(c.P.Rel(fn), "cmd/") {
			c.OK("tal-type", fname(fn))
			return
		}
		ok := true
		var why string
		for _, o := range origins(c.P, fn, in.Val) {
			k, isC := intConst(o.V)
			if isC && k != tal {
				continue
			}
			ok = false
			why = o.V.String()
		}
		c.Expect(ok, "tal-type", fname(fn), c.Pos(in), "library code makes a file whose type may be TAL: %s", why)
	})
	c.AtLeast("tal-type", 1)
}
