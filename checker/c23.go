package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"verif/checker/flow"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C23",
		Technique: "abstract interpretation of every function that decoding and validation can reach, with inferred non-nil contracts (greatest fixpoint over parameters, results, fields, list elements and table values), difference bounds for indices and lengths, and a bound for every recursion",
		Rule:      "In every function reachable from the decoders, from the admission of an object and from the RRDP client: each index and slice bound is within its list, each dereferenced pointer, called interface and written map is non-nil, each type assertion without a check holds, each division has a divisor that is not zero, each allocation has a length that is not negative and bounded, each recursion has a fixed bound, and no path reaches a panic or the end of the process. What a function needs of its parameters and of the fields it reads is established at every place that calls it or writes the field.",
		Note:      "Standard library functions are taken to be free of panics when their documented preconditions hold (those of encoding/binary, Repeat and MustCompile are checked). Memory exhaustion by large inputs is outside. Fields of the manager that the program sets between making it and using it (Validator, FileSeeker, Log) are required to be set to something. That the queue is not empty when its first file is taken is decided by the queue rule of C22, which runs here as well.",
		Run:       runC23})
}

type crashPoint struct {
	in   ssa.Instruction
	kind string
}

type crashes struct {
	bad  map[crashPoint]string
	all  map[crashPoint]string
	term map[crashPoint]string
}

func runC23(c *Ctx) {
	roots := c23Roots(c)
	set := reachable(c.P, roots...)
	linked := imports(mainValidationFn(c).Pkg.Pkg)
	var fns, all []*ssa.Function
	in := map[*ssa.Function]bool{}
	for _, f := range moduleFuncs(c.P) {
		if f.Pkg == nil || !linked[f.Pkg.Pkg] || f.Synthetic != "" || len(f.Blocks) == 0 {
			continue
		}
		all = append(all, f)
		if set[f] {
			fns = append(fns, f)
			in[f] = true
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fname(fns[i]) < fname(fns[j]) })
	c.Expect(len(fns) >= 60, "reach", "functions", "", "only %d functions can be reached from the decoders", len(fns))

	inner := map[*ssa.Function]bool{}
	for _, f := range all {
		if in[f] || f.Pkg.Pkg.Name() != "main" {
			inner[f] = true
		}
	}
	sure := map[string]bool{}
	if g := c.P.Func("validator/pki", "*SimpleManager", "GetNextExplore"); g != nil {
		sure[flow.FuncName(g)] = true
	}
	man := "field " + c.P.Module + "/validator/pki.SimpleManager."
	nn := inferNonNil(c, all, inner, map[string]bool{man + "Validator": true, man + "FileSeeker": true, man + "Log": true}, sure)
	if os.Getenv("NN") != "" {
		nn.dump()
	}
	x := &excuses{c: c}
	x.prepare()

	found := map[*ssa.Function]*crashes{}
	var open []*ssa.Function
	for _, f := range fns {
		found[f] = crashesOf(c, nn, x, f, nil)
		if len(found[f].bad) > 0 {
			open = append(open, f)
		}
	}
	// what a helper needs may be ensured by each of its callers
	start := time.Now()
	for _, f := range open {
		for p := range found[f].bad {
			if time.Since(start) < 5*time.Minute && p.kind != "fatal" && p.kind != "panic" && byCallers(c, nn, x, f, p, in, map[*ssa.Function]bool{f: true}, 3) {
				delete(found[f].bad, p)
			}
		}
	}
	for _, f := range fns {
		r := found[f]
		for p := range r.all {
			why, bad := r.bad[p]
			c.Expect(!bad, p.kind, fmt.Sprintf("%s %s %s", fname(f), p.kind, r.term[p]), c.Pos(p.in), "%s may crash on some input: %s", fname(f), why)
		}
	}
	mod := map[*ssa.Function]bool{}
	for _, f := range fns {
		mod[f] = true
	}
	for _, g := range recursions(c.P, mod) {
		boundedRecursion(c, "recursion", g)
	}
	c22Queue(c)
}

// c23Roots: the functions that are given bytes from outside.
func c23Roots(c *Ctx) (roots []*ssa.Function) {
	for _, pkg := range []string{"validator/lib", "validator/pki", "sync/lib"} {
		for _, f := range moduleFuncs(c.P, pkg) {
			if f.Parent() != nil || f.Object() == nil || !f.Object().Exported() {
				continue
			}
			n := f.Name()
			if strings.HasPrefix(n, "Decode") || n == "BER2DER" || strings.HasPrefix(n, "Parse") || n == "AddResource" || n == "Explore" || strings.HasPrefix(n, "FetchRRDP") {
				roots = append(roots, f)
			}
		}
	}
	c.Expect(len(roots) >= 15, "reach", "roots", "", "only %d functions decode or admit objects", len(roots))
	for _, a := range [][3]string{{"validator/lib", "", "DecodeCertificate"}, {"validator/lib", "", "DecodeTAL"}, {"validator/lib", "", "DecodeXML"}, {"validator/lib", "", "BER2DER"}, {"validator/lib", "*DecoderConfig", "DecodeROA"}, {"validator/lib", "*DecoderConfig", "DecodeManifest"}, {"validator/pki", "*Validator", "AddResource"}, {"validator/pki", "*SimpleManager", "Explore"}, {"sync/lib", "*RRDPSystem", "FetchRRDP"}} {
		c.Func(a[0], a[1], a[2])
	}
	return
}

// crashesOf: the places of a function (and of the functions that are analysed as a part of it) that may crash.
func crashesOf(c *Ctx, nn *nonNil, x *excuses, fn *ssa.Function, inline map[*ssa.Function]bool) *crashes {
	r := &crashes{bad: map[crashPoint]string{}, all: map[crashPoint]string{}, term: map[crashPoint]string{}}
	an := nn.analyzer(fn)
	if inline != nil {
		an.Opaque = func(g *ssa.Function) bool { return !inline[g] }
	}
	note := func(in ssa.Instruction, kind, term string, ok bool, st *flow.State, format string, args ...any) {
		p := crashPoint{in, kind}
		if _, seen := r.all[p]; !seen {
			r.all[p] = ""
			r.term[p] = term
		}
		if _, seen := r.bad[p]; !ok && !seen {
			r.bad[p] = fmt.Sprintf(format, args...) + ": " + facts(st)
		}
	}
	an.OnOblig = func(o flow.Oblig) {
		if o.Kind == "recursion" {
			return
		}
		ok := o.OK || x.excused(an, o)
		note(o.Instr, o.Kind, o.Term.String(), ok, o.State, "%s", what(o.Kind, o.Term))
	}
	an.OnEvent = func(st *flow.State, ev *flow.Event) {
		if ev.Kind != "call" && ev.Kind != "go" && ev.Kind != "defer" {
			return
		}
		if need, why := precondition(an, ev); why != "" {
			note(ev.Instr, "precondition", ev.Name, need != nil && st.Entails(flow.Lit(need)), st, "%s", why)
		}
	}
	nn.explore(an, fn)
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if y, ok := in.(*ssa.BinOp); ok && (y.Op == token.EQL || y.Op == token.NEQ) && types.IsInterface(y.X.Type()) && types.IsInterface(y.Y.Type()) {
				_, a := y.X.(*ssa.Const)
				_, b := y.Y.(*ssa.Const)
				p := crashPoint{in, "compare"}
				r.all[p], r.term[p] = "", y.X.Name()+" "+y.Y.Name()
				if !a && !b && !isErrT(y.X.Type()) && !isErrT(y.Y.Type()) {
					r.bad[p] = "values that may not be comparable are compared"
				}
			}
		}
	}
	return r
}

func what(kind string, t *flow.Term) string {
	switch kind {
	case "index":
		return fmt.Sprintf("the place of %s may be outside of the list", t)
	case "slice":
		return fmt.Sprintf("the bounds of %s may be outside of the list", t)
	case "nil":
		return fmt.Sprintf("%s may be nil", t)
	case "assert":
		return fmt.Sprintf("%s may hold a value of another type", t)
	case "nilmap":
		return fmt.Sprintf("the map %s may be nil", t)
	case "div":
		return fmt.Sprintf("%s may be zero", t)
	case "make":
		return fmt.Sprintf("the length %s may be negative or without bound", t)
	case "panic":
		return "it panics"
	case "fatal":
		return "it ends the process"
	}
	return kind
}

// precondition: what the documentation of a library function asks for.
func precondition(an *flow.Analyzer, ev *flow.Event) (need *flow.Term, why string) {
	w := an.W
	n := ev.Name
	switch {
	case strings.HasPrefix(n, "(encoding/binary.") && len(ev.Args) >= 2:
		size := int64(0)
		for s, k := range map[string]int64{"int16": 2, "int32": 4, "int64": 8} {
			if strings.HasSuffix(strings.ToLower(n), "u"+s) && !strings.Contains(n, "Append") {
				size = k
			}
		}
		if size > 0 {
			return w.OrdLe(w.Int(size), w.Len(ev.Args[1])), fmt.Sprintf("%s is given %s, which may be too short", n, ev.Args[1])
		}
	case (n == "strings.Repeat" || n == "bytes.Repeat") && len(ev.Args) == 2:
		return w.OrdLe(w.Int(0), ev.Args[1]), "the number of repetitions may be negative"
	case n == "regexp.MustCompile" || n == "regexp.MustCompilePOSIX" || strings.HasSuffix(n, ".MustParse") || strings.HasSuffix(n, ".MustParseAddr") || strings.HasSuffix(n, ".MustParsePrefix"):
		if len(ev.Args) > 0 {
			if _, ok := ev.Args[0].IsStr(); !ok {
				return nil, n + " is given text that is not constant"
			}
		}
	}
	return nil, ""
}

// byCallers: the function is only called from functions of the set, and where it is analysed as a part of them the place does
// not crash.
func byCallers(c *Ctx, nn *nonNil, x *excuses, f *ssa.Function, p crashPoint, in, inline map[*ssa.Function]bool, depth int) bool {
	if depth == 0 || f.Object() != nil && f.Object().Exported() && f.Signature.Recv() == nil && strings.HasPrefix(f.Name(), "Decode") {
		return false
	}
	for _, g := range nn.taken {
		if g == f {
			return false
		}
	}
	node := c.P.CG.Nodes[f]
	if node == nil {
		return false
	}
	callers := map[*ssa.Function]bool{}
	for _, e := range node.In {
		g := e.Caller.Func
		if !in[g] {
			if c.P.InModule(g) && g.Synthetic == "" && len(g.Blocks) > 0 && !nn.inner[g] {
				continue // a program that is not the validator
			}
			if g.Synthetic != "" {
				return false
			}
			continue
		}
		if e.Site == nil || e.Site.Common().StaticCallee() != f || inline[g] {
			return false
		}
		callers[g] = true
	}
	if len(callers) == 0 {
		return false
	}
	for g := range callers {
		r := crashesOf(c, nn, x, g, inline)
		if _, bad := r.bad[p]; !bad {
			continue
		}
		more := map[*ssa.Function]bool{g: true}
		for k := range inline {
			more[k] = true
		}
		if !byCallers(c, nn, x, g, p, in, more, depth-1) {
			return false
		}
	}
	return true
}

// excuses: relations between tables and fields that the analysis of a single function cannot see. Each one is checked where the
// table or field is written.
type excuses struct {
	c      *Ctx
	within bool // what is in ValidObjects is in Objects
	tals   bool // what is in TALs is a trust anchor
	keys   bool // a decoded trust anchor of the RSA algorithm has an RSA key
}

const objT = "validator/pki.Validator"

func (x *excuses) prepare() {
	c := x.c
	x.within = true
	inserted := func(field string) map[*ssa.Function][]*ssa.MapUpdate {
		out := map[*ssa.Function][]*ssa.MapUpdate{}
		for _, u := range fieldUses(c.P, "validator/pki", "Validator", field) {
			if m, ok := u.Instr.(*ssa.MapUpdate); ok && m.Map == u.Val {
				out[u.Fn] = append(out[u.Fn], m)
			}
		}
		return out
	}
	for _, u := range fieldUses(c.P, "validator/pki", "Validator", "Objects") {
		if ci, ok := u.Instr.(ssa.CallInstruction); ok {
			if n := callName(ci.Common()); n != "builtin.len" {
				x.within = false // something is taken from the table
			}
		}
	}
	for fn := range inserted("ValidObjects") {
		an := c.NewAnalyzer()
		an.Opaque = func(*ssa.Function) bool { return true }
		an.Record = func(ev *flow.Event) bool { return ev.Kind == "mapset" }
		for _, e := range c.Explore(an, fn) {
			has := func(field string) (out []*flow.Term) {
				for _, ev := range e.St.Events() {
					if ev.Kind == "mapset" && tableField(ev.Args[0]) == "value "+c.P.Module+"/"+objT+"."+field {
						out = append(out, ev.Args[1])
					}
				}
				return
			}
			objs := has("Objects")
			for _, k := range has("ValidObjects") {
				ok := false
				for _, o := range objs {
					ok = ok || o == k
				}
				x.within = x.within && ok
			}
		}
	}
	// trust anchors
	x.tals = true
	for fn := range inserted("TALs") {
		an := c.NewAnalyzer()
		tal := types.NewPointer(c.P.SSA["validator/lib"].Type("RPKITAL").Type())
		an.Opaque = func(g *ssa.Function) bool { return g.Name() != "ObjectToResource" && !isSmall(g) }
		an.OnEvent = func(st *flow.State, ev *flow.Event) {
			if ev.Kind != "mapset" || tableField(ev.Args[0]) != "value "+c.P.Module+"/"+objT+".TALs" {
				return
			}
			v := st.Path(ev.Args[2], "Resource")
			x.tals = x.tals && v != nil && v.Op == flow.OMkIface && types.Identical(v.Typ, tal)
		}
		c.Explore(an, fn)
	}
	// only set when it is made
	for _, fn := range moduleFuncs(c.P) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok && !rootAlloc(s.Addr) {
					if o, f := fieldAddrName(fa); strings.HasSuffix(o, "validator/pki.Resource") && f == "Resource" {
						x.tals = false
					}
				}
			}
		}
	}
	// keys of trust anchors
	if fn := c.P.Func("validator/lib", "", "DecodeTAL"); fn != nil {
		x.keys = true
		an := c.NewAnalyzer()
		w := an.W
		var rsa types.Type
		if p := c.P.Prog.ImportedPackage("crypto/rsa"); p != nil {
			rsa = p.Type("PublicKey").Type()
		}
		for _, e := range c.Explore(an, fn) {
			if e.Kind != "return" || len(e.Results) != 2 || e.St.NonNil(e.Results[1]) {
				continue
			}
			alg, key := e.St.Path(e.Results[0], "Algorithm"), e.St.Path(e.Results[0], "PublicKey")
			other := alg != nil && e.St.Entails(flow.Lit(w.Not(w.OrdEq(alg, w.Int(1)))))
			is := key != nil && rsa != nil && key.Op == flow.OMkIface && types.Identical(key.Typ, types.NewPointer(rsa))
			x.keys = x.keys && (other || is)
		}
	}
}

func isSmall(g *ssa.Function) bool { return len(g.Blocks) == 1 }

func (x *excuses) excused(an *flow.Analyzer, o flow.Oblig) bool {
	st, w := o.State, an.W
	switch o.Kind {
	case "nil":
		if !x.within {
			return false
		}
		valid, none := map[*flow.Term]bool{}, map[*flow.Term]bool{}
		st.F.Lits(func(l *flow.Term, v bool) {
			if l.Op != flow.OLookupOk {
				return
			}
			switch k := tableField(l.Args[0]); {
			case v && k == "value "+x.c.P.Module+"/"+objT+".ValidObjects":
				valid[l.Args[1]] = true
			case !v && k == "value "+x.c.P.Module+"/"+objT+".Objects":
				none[l.Args[1]] = true
			}
		})
		for k := range none {
			if valid[k] {
				return true // cannot happen
			}
		}
	case "assert":
		t := o.Term
		if t.Op == flow.ODeref && t.Args[0].Op == flow.OFieldAddr {
			owner, _ := t.Args[0].Obj.(string)
			base := t.Args[0].Args[0]
			if x.tals && strings.HasSuffix(owner, "validator/pki.Resource") && t.Args[0].Aux == "Resource" && base.Op == flow.OLookup && tableField(base.Args[0]) == "value "+x.c.P.Module+"/"+objT+".TALs" {
				return true
			}
			alg := ""
			switch {
			case strings.HasSuffix(owner, "validator/lib.RPKITAL") && t.Args[0].Aux == "PublicKey" && x.keys:
				alg = "Algorithm"
			case owner == "crypto/x509.Certificate" && t.Args[0].Aux == "PublicKey":
				alg = "PublicKeyAlgorithm"
			}
			if alg != "" {
				a := st.Path(base, alg)
				return a != nil && st.Entails(flow.Lit(w.OrdEq(a, w.Int(1))))
			}
		}
	}
	return false
}
