package main

import (
	"fmt"
	"strings"

	"verif/checker/flow"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C03",
		Technique: "predicate dataflow over SSA with rule state (typestate of the list of unresolved resources), decision tables of the containment predicates",
		Rule:      "Leaf predicates: each resource kind reports an address or AS number inside exactly for its own bounds, and asks for the parent only if it inherits. IsIPRangeInCertificate/IsASRangeInCertificate report a range inside only if both ends are inside the same resource. ValidateIPCertificateList/ValidateASNCertificateList put every element in exactly one of valid, invalid, unresolved, and in valid only if it inherits or is inside. In AddCert a certificate is valid and not trusted only if for addresses and for AS numbers: its whole list was judged against the currently valid issuer, each unresolved list was judged next against the valid issuer of the certificate judged before, no invalid element was found at any level and none is unresolved at the end.",
		Note:      "Inheriting levels are followed by induction: the loop over ancestors is analysed to a fixpoint with the unresolved list and the last judged certificate as rule state.",
		Run:       runC03})
}

type family struct {
	name, list, validate, in, elemIn, field string
}

var families = []family{
	{"addresses", "validator/lib.ValidateIPCertificateList", "ValidateIPCertificateList", "IsIPRangeInCertificate", "IsIPInRange", "IPAddresses"},
	{"AS numbers", "validator/lib.ValidateASNCertificateList", "ValidateASNCertificateList", "IsASRangeInCertificate", "IsASNInRange", "ASNums"},
}

func runC03(c *Ctx) {
	resourceLeaves(c)
	for _, f := range families {
		rangeInCertificate(c, f)
		listPartition(c, f, f.validate, false)
	}
	ancestorWalk(c, "walk")
}

// resourceLeaves decides the predicates of the resource kinds.
func resourceLeaves(c *Ctx) {
	run := func(typ, m string, f func(e flow.Exit, an *flow.Analyzer, a []*flow.Term)) {
		fn := c.Func("validator/lib", "*"+typ, m)
		if fn == nil {
			return
		}
		an := c.NewAnalyzer()
		an.Opaque = opaque("validator/lib.GetRangeIP")
		args := an.ParamTerms(fn)
		n := 0
		for _, e := range c.Explore(an, fn) {
			if e.Kind == "return" {
				n++
				f(e, an, args)
			}
		}
		c.Expect(n > 0, "leaf", typ+"."+m, c.PosOf(fn.Pos()), "the predicate never returns")
	}
	// never asks for the parent, and is inside exactly by the formula
	exact := func(typ, m string, spec func(st *flow.State, w *flow.World, a []*flow.Term) flow.Formula, onlyIf bool) {
		run(typ, m, func(e flow.Exit, an *flow.Analyzer, a []*flow.Term) {
			st := e.St
			in := flow.Lit(e.Results[0])
			s := spec(st, an.W, a)
			ok := st.Entails(flow.Implies(in, s)) && (onlyIf || st.Entails(flow.Implies(s, in)))
			c.Expect(ok, "leaf", typ+"."+m, c.Pos(e.Instr), "%s.%s does not answer by the bounds of the resource: %s => %s", typ, m, facts(st), e.Results[0])
			c.Expect(st.Excludes(flow.Lit(e.Results[1])), "leaf-inherit", typ+"."+m, c.Pos(e.Instr), "%s.%s asks for the issuer's resources although it does not inherit", typ, m)
		})
	}
	exact("ASNRange", "IsASNInRange", func(st *flow.State, w *flow.World, a []*flow.Term) flow.Formula {
		return and(w.OrdLe(st.Path(a[0], "Min"), a[1]), w.OrdLe(a[1], st.Path(a[0], "Max")))
	}, false)
	exact("ASN", "IsASNInRange", func(st *flow.State, w *flow.World, a []*flow.Term) flow.Formula {
		return flow.Lit(w.OrdEq(st.Path(a[0], "ASN"), a[1]))
	}, false)
	exact("IPNet", "IsIPInRange", func(st *flow.State, w *flow.World, a []*flow.Term) flow.Formula {
		n := st.Path(a[0], "IPNet")
		var lit *flow.Term
		lits(st, func(t *flow.Term, v bool) {})
		lit = w.Call("(*net.IPNet).Contains", boolT, n, a[1])
		return flow.Lit(lit)
	}, true)
	exact("IPAddressRange", "IsIPInRange", func(st *flow.State, w *flow.World, a []*flow.Term) flow.Formula {
		mn, mx := st.Path(a[0], "Min"), st.Path(a[0], "Max")
		return and(w.OrdLe(w.StrOf(mn), w.StrOf(a[1])), w.OrdLe(w.StrOf(a[1]), w.StrOf(mx)), w.OrdEq(w.Len(a[1]), w.Len(mn)), w.OrdEq(w.Len(a[1]), w.Len(mx)))
	}, true)
	for _, x := range [][2]string{{"ASNull", "IsASNInRange"}, {"IPAddressNull", "IsIPInRange"}} {
		run(x[0], x[1], func(e flow.Exit, an *flow.Analyzer, a []*flow.Term) {
			c.Expect(e.St.Excludes(flow.Lit(e.Results[0])), "leaf", x[0]+"."+x[1], c.Pos(e.Instr), "an inheriting resource is reported to contain a value itself")
		})
	}
	// ranges
	ends := func(typ string, lo, hi string) {
		run(typ, "GetRange", func(e flow.Exit, an *flow.Analyzer, a []*flow.Term) {
			st := e.St
			ok := e.Results[0] == st.Path(a[0], lo) && e.Results[1] == st.Path(a[0], hi) && st.Excludes(flow.Lit(e.Results[2]))
			c.Expect(ok, "leaf-range", typ+".GetRange", c.Pos(e.Instr), "%s.GetRange does not return its own bounds: %s, %s, %s", typ, e.Results[0], e.Results[1], e.Results[2])
		})
	}
	ends("ASNRange", "Min", "Max")
	ends("ASN", "ASN", "ASN")
	ends("IPAddressRange", "Min", "Max")
	run("IPNet", "GetRange", func(e flow.Exit, an *flow.Analyzer, a []*flow.Term) {
		st := e.St
		var call *flow.Term
		for _, r := range e.Results[:2] {
			r.Sub(func(t *flow.Term) {
				if isCallTerm(t, "validator/lib.GetRangeIP") {
					call = t
				}
			})
		}
		nils := st.IsNil(e.Results[0]) && st.IsNil(e.Results[1])
		own := call != nil && call.Args[0] == st.Path(a[0], "IPNet") && e.Results[0] == an.W.Extract(call, 1, nil) && e.Results[1] == an.W.Extract(call, 2, nil)
		c.Expect((nils || own) && st.Excludes(flow.Lit(e.Results[2])), "leaf-range", "IPNet.GetRange", c.Pos(e.Instr), "IPNet.GetRange does not return the first and last address of its prefix: %s, %s, %s", e.Results[0], e.Results[1], e.Results[2])
	})
	for _, typ := range []string{"ASNull", "IPAddressNull"} {
		run(typ, "GetRange", func(e flow.Exit, an *flow.Analyzer, a []*flow.Term) {
			c.Expect(e.St.Entails(flow.Lit(e.Results[2])), "leaf-range", typ+".GetRange", c.Pos(e.Instr), "an inheriting resource does not say so")
		})
	}
	c.AtLeast("leaf", 6)
	c.AtLeast("leaf-range", 6)
	rangeOfPrefix(c)
}

// rangeOfPrefix: GetRangeIP returns the first and the last address of a prefix.
func rangeOfPrefix(c *Ctx) {
	fn := c.Func("validator/lib", "", "GetRangeIP")
	if fn == nil {
		return
	}
	an := c.NewAnalyzer()
	a := an.ParamTerms(fn)
	backs := recordBacks(an)
	an.Record = func(ev *flow.Event) bool { return ev.Kind == "store" }
	w := an.W
	n := 0
	for _, e := range c.Explore(an, fn) {
		if e.Kind != "return" || len(e.Results) != 3 || e.St.NonNil(e.Results[0]) {
			continue
		}
		n++
		ip, mask := e.St.Path(a[0], "IP"), e.St.Path(a[0], "Mask")
		for k, want := range map[int][4]bool{1: {false, false, false, true}, 2: {true, false, true, true}} {
			res := e.Results[k]
			ok := everyElement(an, *backs, e.St, ip, func(st *flow.State) []*flow.Term {
				var out []*flow.Term
				last := map[*flow.Term]*flow.Term{}
				for _, ev := range st.Events() {
					if ev.Kind == "store" && !ev.Old && !ev.May && ev.Args[0].Op == flow.OIndexAddr && ev.Args[0].Args[0] == res {
						last[ev.Args[0].Args[1]] = ev.Args[1]
					}
				}
				for i, v := range last {
					if tab, ok := bitTable(w, v, ip, mask, i); ok && tab == want {
						out = append(out, i)
					}
				}
				return out
			})
			okLen := e.St.Entails(flow.Lit(w.OrdEq(w.Len(res), w.Len(ip))))
			c.Expect(ok && okLen, "prefix-range", map[int]string{1: "first address", 2: "last address"}[k], c.Pos(e.Instr), "the range of a prefix does not have ip&mask as first and ip|^mask as last address: %s (%s)", res, facts(e.St))
		}
	}
	c.Expect(n > 0, "prefix-range", "GetRangeIP", c.PosOf(fn.Pos()), "GetRangeIP never returns a range")
}

// bitTable evaluates a bitwise expression over ip[i] and mask[i] for every combination of
// one address and one mask bit: entry 2*address+mask.
func bitTable(w *flow.World, t, ip, mask, idx *flow.Term) (tab [4]bool, ok bool) {
	t0 := func(x *flow.Term) *flow.Term {
		for x.Op == flow.OConv {
			x = x.Args[0]
		}
		return x
	}
	t = t0(t)
	if k, isInt := t.IsInt(); isInt {
		switch k {
		case 0:
			return tab, true
		case 255, -1:
			return [4]bool{true, true, true, true}, true
		}
		return tab, false
	}
	if i := elementOf(w, t, ip); i != nil && i == idx {
		return [4]bool{false, false, true, true}, true
	}
	if i := elementOf(w, t, mask); i != nil && i == idx {
		return [4]bool{false, true, false, true}, true
	}
	switch {
	case t.Op == flow.OUn && t.Aux == "^":
		x, ok := bitTable(w, t.Args[0], ip, mask, idx)
		for i := range x {
			tab[i] = !x[i]
		}
		return tab, ok
	case t.Op == flow.OBin && len(t.Args) == 2:
		x, ok1 := bitTable(w, t.Args[0], ip, mask, idx)
		y, ok2 := bitTable(w, t.Args[1], ip, mask, idx)
		if !ok1 || !ok2 {
			return tab, false
		}
		for i := range x {
			switch t.Aux {
			case "&":
				tab[i] = x[i] && y[i]
			case "|":
				tab[i] = x[i] || y[i]
			case "^":
				tab[i] = x[i] != y[i]
			case "&^":
				tab[i] = x[i] && !y[i]
			default:
				return tab, false
			}
		}
		return tab, true
	}
	return tab, false
}

// rangeInCertificate: a range is inside a certificate only if both ends are inside one of its resources.
func rangeInCertificate(c *Ctx, f family) {
	fn := c.Func("validator/lib", "*RPKICertificate", f.in)
	if fn == nil {
		return
	}
	an := c.NewAnalyzer()
	args := an.ParamTerms(fn)
	trueExits := 0
	for _, e := range c.Explore(an, fn) {
		if e.Kind != "return" {
			continue
		}
		st := e.St
		list := st.Path(args[0], f.field)
		inside := func(k int, x *flow.Term) map[*flow.Term]bool {
			m := map[*flow.Term]bool{}
			lits(st, func(t *flow.Term, v bool) {
				if !v || t.Op != flow.OExtract || t.Aux != fmt.Sprint(k) {
					return
				}
				call := t.Args[0]
				if call.Op == flow.OCall && strings.HasSuffix(call.Aux, "."+f.elemIn) && len(call.Args) == 2 && (x == nil || call.Args[1] == x) {
					m[call.Args[0]] = true
				}
			})
			return m
		}
		if !st.Excludes(flow.Lit(e.Results[0])) {
			trueExits++
			lo, hi := inside(0, args[1]), inside(0, args[2])
			ok := false
			for el := range lo {
				if hi[el] && elementOf(an.W, el, list) != nil {
					ok = true
				}
			}
			c.Expect(ok && st.Entails(flow.Lit(e.Results[0])), "both-ends", fname(fn), c.Pos(e.Instr), "a range is reported inside a certificate without both its ends being inside one of the certificate's resources: %s", facts(st))
		}
		if !st.Excludes(flow.Lit(e.Results[1])) {
			inh := inside(1, nil)
			ok := len(inh) > 0
			if !ok {
				// some disjunction of the two answers
				lo, hi := 0, 0
				_ = lo
				_ = hi
			}
			c.Expect(ok, "defer-only-inherited", fname(fn), c.Pos(e.Instr), "a range is left to the ancestors although no resource of the certificate inherits: %s", facts(st))
		}
	}
	c.Expect(trueExits > 0, "both-ends", fname(fn)+" decides", c.PosOf(fn.Pos()), "no path reports a range to be inside")
}

// listPartition: every element of the list lands in one result, in the valid one only if inherited or inside.
// With dropUnresolved (ROA prefixes) elements may also be left out.
func listPartition(c *Ctx, f family, name string, roa bool) {
	fn := c.Func("validator/lib", "", name)
	if fn == nil {
		return
	}
	an := c.NewAnalyzer()
	an.Opaque = opaque("(*validator/lib.RPKICertificate).IsIPRangeInCertificate", "(*validator/lib.RPKICertificate).IsASRangeInCertificate", "validator/lib.GetRangeIP")
	args := an.ParamTerms(fn)
	backs := recordBacks(an)
	exits := c.Explore(an, fn)
	w := an.W
	list, parent := args[0], args[1]
	// result variables
	idx := map[*ssa.Phi]int{}
	for _, e := range exits {
		if e.Kind != "return" {
			continue
		}
		for k, r := range e.Results {
			if p, _ := r.PhiOf(); p != nil {
				idx[p] = k
			}
		}
	}
	if len(idx) == 0 {
		c.Fail("partition", fname(fn), c.PosOf(fn.Pos()), "the results are not built up over a loop")
		return
	}
	var ctr counter
	haveCtr := false
	iter := 0
	for _, r := range *backs {
		// classify: which results grew
		grew := map[int]*flow.Term{}
		bad := ""
		rel := false
		for p, k := range idx {
			next, ok := r.Vals[p]
			if !ok {
				continue
			}
			rel = true
			cur := an.PhiSym(r.Fr, p)
			switch {
			case next == cur:
			case next.Op == flow.OAppend && next.Args[0] == cur && next.Args[1].Op == flow.OSliceLit && len(next.Args[1].Args) == 1:
				grew[k] = next.Args[1].Args[0]
			default:
				bad = fmt.Sprintf("result %d becomes %s", k, next)
			}
		}
		if !rel {
			continue
		}
		iter++
		where := c.PosOf(r.H.Instrs[0].Pos())
		if bad != "" || len(grew) != 1 {
			c.Fail("partition", fname(fn), where, "an element does not land in exactly one result (%d results grow) %s: %s", len(grew), bad, facts(r.St))
			continue
		}
		for k, el := range grew {
			i := elementOf(w, el, list)
			if i == nil {
				c.Fail("partition", fname(fn), where, "what is put in a result is not an element of the list: %s", el)
				continue
			}
			if ct, ok := elementCounter(an, i, r); ok {
				ctr, haveCtr = ct, true
			} else {
				c.Fail("partition", fname(fn)+" visits all", where, "the loop does not visit every element in turn")
			}
			if k != 0 {
				c.OK("partition", fname(fn))
				continue
			}
			okInh := hasLit(r.St, func(t *flow.Term, v bool) bool {
				return v && t.Op == flow.OExtract && t.Aux == "2" && t.Args[0].Op == flow.OCall && strings.HasSuffix(t.Args[0].Aux, ".GetRange") && t.Args[0].Args[0] == el
			})
			if roa {
				okInh = false
			}
			okIn := hasLit(r.St, func(t *flow.Term, v bool) bool {
				if !v || t.Op != flow.OExtract || t.Aux != "0" {
					return false
				}
				call := t.Args[0]
				if !isCallTerm(call, "(*validator/lib.RPKICertificate)."+f.in) || call.Args[0] != parent {
					return false
				}
				end := func(x *flow.Term, n string) bool {
					if roa {
						k := map[string]string{"0": "1", "1": "2"}[n]
						return x.Op == flow.OExtract && x.Aux == k && isCallTerm(x.Args[0], "validator/lib.GetRangeIP") && isRef(x.Args[0].Args[0], "IPNet") && refBase(x.Args[0].Args[0]) == el
					}
					return x.Op == flow.OExtract && x.Aux == n && x.Args[0].Op == flow.OCall && strings.HasSuffix(x.Args[0].Aux, ".GetRange") && x.Args[0].Args[0] == el
				}
				return end(call.Args[1], "0") && end(call.Args[2], "1")
			})
			if roa && okIn {
				okIn = hasLit(r.St, func(t *flow.Term, v bool) bool {
					x := eqNilArg(t)
					return v && x != nil && x.Op == flow.OExtract && x.Aux == "0" && isCallTerm(x.Args[0], "validator/lib.GetRangeIP") && refBase(x.Args[0].Args[0]) == el
				})
			}
			c.Expect(okInh || okIn, "valid-only-contained", fname(fn), where, "an element is put in the valid result without being inherited or inside the issuer's resources: %s", facts(r.St))
		}
	}
	c.Expect(iter >= 2, "partition", fname(fn)+" outcomes", c.PosOf(fn.Pos()), "only %d ways to judge an element were found", iter)
	for _, e := range exits {
		if e.Kind == "return" {
			c.Expect(haveCtr && ctr.exhausted(e.St, list), "partition", fname(fn)+" end", c.Pos(e.Instr), "the function can return before every element was judged: %s", facts(e.St))
		}
	}
}

// ancestorWalk decides the use of the containment functions in AddCert.
func ancestorWalk(c *Ctx, rule string) {
	fn := c.Func("validator/pki", "*Validator", "AddCert")
	if fn == nil {
		return
	}
	an := c.NewAnalyzer()
	an.SliceEmptiness = true
	args := an.ParamTerms(fn)
	w := an.W
	v, cert, trust := args[0], args[1], args[2]
	an.Opaque = opaque(append([]string{"(*validator/lib.RPKICertificate).Validate", "(*validator/lib.RPKICertificate).ValidateTime",
		"validator/pki.NewCertificateErrorResource", "validator/pki.NewCertificateErrorParent", "validator/pki.NewCertificateErrorValidity", "validator/pki.NewCertificateErrorRevocation", "validator/pki.NewCertificateErrorConflict", "validator/pki.serialKey"}, pathFns...)...)
	issuer := func(t, of *flow.Term, st *flow.State) bool { // t is the currently valid issuer of of
		if t.Op != flow.OAssert || !strings.HasSuffix(t.Typ.String(), "lib.RPKICertificate") {
			return false
		}
		r := t.Args[0]
		if !isField(r, "Resource") {
			return false
		}
		res := r.FieldBase()
		if res.Op == flow.OLookup && isField(res.Args[0], "ValidObjects") {
			aki := st.Path(of, "Certificate", "AuthorityKeyId")
			return aki != nil && w.Shape(strip(res.Args[1])) == w.Shape(aki)
		}
		if isField(res, "Parent") && of.Op == flow.OAssert && isField(of.Args[0], "Resource") {
			return w.Shape(res.FieldBase()) == w.Shape(of.Args[0].FieldBase())
		}
		return false
	}
	judged := map[string]int{}
	an.Split = func(st *flow.State, f *ssa.Function, a []*flow.Term, site *flow.Site) ([]flow.Outcome, bool) {
		var fam *family
		for i := range families {
			if nameIs(f, families[i].list) {
				fam = &families[i]
			}
		}
		if fam == nil {
			return nil, false
		}
		pos := c.PosOf(site.Pos())
		list, by := a[0], a[1]
		out, anc := st.Ghost("out."+fam.name), st.Ghost("anc."+fam.name)
		judged[fam.name]++
		construct := "judging " + fam.name
		if out == nil {
			own := st.Path(cert, fam.field)
			c.Expect(w.Shape(list) == w.Shape(own), rule, construct+" of the certificate", pos, "the first list judged is not the certificate's own %s: %s", fam.name, list)
			c.Expect(issuer(by, cert, st), rule, construct+" of the certificate", pos, "the certificate's %s are not judged against its currently valid issuer: %s", fam.name, by)
		} else {
			same := list == out || out.Op == flow.ONil && st.Entails(flow.Lit(w.OrdLe(w.Len(list), w.Zero0)))
			c.Expect(same, rule, construct+" at an ancestor", pos, "what is judged at an ancestor is not the list of unresolved %s: %s instead of %s", fam.name, list, out)
			c.Expect(issuer(by, anc, st), rule, construct+" at an ancestor", pos, "unresolved %s are judged against %s, which is not the currently valid issuer of the certificate judged before (%s)", fam.name, by, anc)
		}
		lt := list.Typ
		ok1 := w.NewSym(site, "valid", lt)
		inv := w.NewSym(site, "invalid", lt)
		unr := w.NewSym(site, "unresolved", lt)
		res := w.Tuple(ok1, inv, unr)
		mk := func(bad bool, out *flow.Term, cond ...*flow.Term) *flow.State {
			s := st.Clone()
			for _, x := range cond {
				if s != nil {
					s = s.Assume(x, true)
				}
			}
			if s == nil {
				return nil
			}
			if bad {
				s.SetGhost("bad."+fam.name, w.True)
			}
			s.SetGhost("out."+fam.name, out)
			s.SetGhost("anc."+fam.name, by)
			return s
		}
		empty := func(t *flow.Term) *flow.Term { return w.OrdLe(w.Len(t), w.Zero0) }
		some := func(t *flow.Term) *flow.Term { return w.OrdLe(w.Int(1), w.Len(t)) }
		var outs []flow.Outcome
		for _, s := range []*flow.State{
			mk(false, w.Nil, empty(inv), empty(unr)),
			mk(false, unr, empty(inv), some(unr), some(list)),
			mk(true, w.Nil, some(inv), empty(unr), some(list)),
			mk(true, unr, some(inv), some(unr), some(list)),
		} {
			if s != nil {
				outs = append(outs, flow.Outcome{St: s, Res: res})
			}
		}
		return outs, true
	}
	ok := 0
	for _, e := range c.Explore(an, fn) {
		if e.Kind != "return" || e.St.Excludes(flow.Lit(e.Results[0])) || e.St.Entails(flow.Lit(trust)) {
			continue
		}
		ok++
		for _, fam := range families {
			construct := fam.name + " of an accepted certificate"
			out, bad := e.St.Ghost("out."+fam.name), e.St.Ghost("bad."+fam.name)
			switch {
			case out == nil:
				c.Fail(rule, construct, c.Pos(e.Instr), "a certificate is accepted without judging its %s against its issuer: %s", fam.name, facts(e.St))
			case bad != nil:
				c.Fail(rule, construct, c.Pos(e.Instr), "a certificate is accepted although some of its %s are outside the resources of its issuers: %s", fam.name, facts(e.St))
			case out.Op != flow.ONil && !e.St.Entails(flow.Lit(w.OrdLe(w.Len(out), w.Zero0))):
				c.Fail(rule, construct, c.Pos(e.Instr), "a certificate is accepted although some of its %s are not resolved (%s) at the end of the chain: %s", fam.name, out, facts(e.St))
			default:
				c.OK(rule, construct)
			}
		}
	}
	_ = v
	c.Expect(ok > 0, rule, "acceptance", c.PosOf(fn.Pos()), "no path accepts a certificate that is not trusted")
	for _, fam := range families {
		c.Expect(judged[fam.name] > 0, rule, "judging "+fam.name, c.PosOf(fn.Pos()), "%s is never called", fam.list)
	}
}
