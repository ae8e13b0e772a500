package main

import (
	"strings"

	"verif/checker/flow"

	"golang.org/x/tools/go/ssa"
)

type (
	ssaCall      = ssa.CallInstruction
	ssaFunc      = ssa.Function
	ssaStore     = ssa.Store
	ssaFieldAddr = ssa.FieldAddr
)

// containment functions: decided by C03, opaque elsewhere
var containmentFns = []string{
	"(*validator/lib.RPKICertificate).ValidateIPCertificate", "(*validator/lib.RPKICertificate).ValidateASNCertificate",
	"validator/lib.ValidateIPCertificateList", "validator/lib.ValidateASNCertificateList", "validator/lib.ValidateIPRoaCertificateList",
	"(*validator/lib.RPKICertificate).IsIPRangeInCertificate", "(*validator/lib.RPKICertificate).IsASRangeInCertificate",
}

var pathFns = []string{"validator/pki.ExtractPathCert"}

// exploreAddCert analyses (*Validator).AddCert.
func exploreAddCert(c *Ctx, exit func(e flow.Exit, an *flow.Analyzer, args []*flow.Term), event func(st *flow.State, ev *flow.Event, an *flow.Analyzer, args []*flow.Term)) {
	fn := c.Func("validator/pki", "*Validator", "AddCert")
	if fn == nil {
		return
	}
	an := c.NewAnalyzer()
	args := an.ParamTerms(fn)
	an.Opaque = opaque(append(append([]string{}, containmentFns...), pathFns...)...)
	an.Record = func(ev *flow.Event) bool { return ev.Kind == "mapset" || ev.Kind == "mapdel" || ev.Kind == "store" }
	if event != nil {
		an.OnEvent = func(st *flow.State, ev *flow.Event) { event(st, ev, an, args) }
	}
	for _, e := range c.Explore(an, fn) {
		if exit != nil {
			exit(e, an, args)
		}
	}
}

// validationEntries are the exported methods through which objects are validated.
func validationEntries(c *Ctx) []*ssa.Function {
	var out []*ssa.Function
	for _, m := range []string{"AddResource", "AddTAL", "AddCert", "ValidateCertificate", "AddROA", "ValidateROA", "AddManifest", "AddCRL", "InvalidateObject"} {
		if f := c.Func("validator/pki", "*Validator", m); f != nil {
			out = append(out, f)
		}
	}
	for _, m := range []string{"Explore", "ExploreAdd", "PutFiles", "AddInitial"} {
		if f := c.Func("validator/pki", "*SimpleManager", m); f != nil {
			out = append(out, f)
		}
	}
	return out
}

const smT = "(*validator/pki.SimpleManager)."

var exploreOpaque = []string{
	smT + "GetNextExplore", smT + "GetNextFile", smT + "GetNextRepository", smT + "ExploreAdd", smT + "PutFiles", smT + "HasMore",
	smT + "InvalidateManifestParent", smT + "InvalidateCRLParent", smT + "reportError", smT + "reportErrorFile",
	"validator/pki.NewResourceErrorHash", "(*validator/pki.ResourceError).AddFileErrorInfo",
	"(*validator/pki.Validator).AddResource", "(*validator/pki.Validator).InvalidateObject",
}

// exploreRound is what one round of the exploration loop established.
type exploreRound struct {
	St     *flow.State
	An     *flow.Analyzer
	File   *flow.Term // file taken from the queue
	Data   *flow.Term // result of reading it (nil when it was not read)
	Err    *flow.Term // error of reading it
	Args   []*flow.Term
	Events []*flow.Event // of this round, in order
	Where  string
}

func (r *exploreRound) has(names ...string) *flow.Event {
	for _, ev := range r.Events {
		if isCall(ev, names...) {
			return ev
		}
	}
	return nil
}

// exploreRounds runs Explore and reports every way a round of its loop ends.
func exploreRounds(c *Ctx, onEvent func(st *flow.State, ev *flow.Event), f func(r *exploreRound)) {
	fn := c.Func("validator/pki", "*SimpleManager", "Explore")
	if fn == nil {
		return
	}
	an := c.NewAnalyzer()
	an.Opaque = opaque(exploreOpaque...)
	an.MaxFacts, an.MaxStates = 60, 1500
	args := an.ParamTerms(fn)
	an.Record = func(ev *flow.Event) bool {
		return isCall(ev, smT+"GetNextFile", smT+"GetNextRepository", smT+"ExploreAdd", smT+"InvalidateManifestParent",
			"(*validator/pki.Validator).AddResource", "(*validator/pki.Validator).InvalidateObject")
	}
	an.OnEvent = onEvent
	rounds := 0
	round := func(st *flow.State, where string) {
		r := &exploreRound{St: st, An: an, Args: args, Where: where}
		for _, ev := range st.Events() {
			if !ev.Old {
				r.Events = append(r.Events, ev)
			}
		}
		if ev := r.has(smT + "GetNextFile"); ev != nil && len(ev.Args) > 1 && ev.Res != nil {
			r.File = ev.Args[1]
			r.Data = an.W.Extract(ev.Res, 0, nil)
			r.Err = an.W.Extract(ev.Res, 1, nil)
		}
		rounds++
		f(r)
	}
	an.OnBack = func(st *flow.State, fr *flow.Frame, h *ssa.BasicBlock) {
		if fr.Fn == fn {
			round(st, c.PosOf(h.Instrs[0].Pos()))
		}
	}
	c.Explore(an, fn)
	c.Expect(rounds > 0, "explore-rounds", "Explore", c.PosOf(fn.Pos()), "the exploration loop has no rounds")
}

// manifestStaleness: with hash checking on, the CA of a manifest used outside thisUpdate..nextUpdate is
// invalidated, and the decision is exactly that.
func manifestStaleness(c *Ctx, rule string) {
	stale, fresh := 0, 0
	exploreRounds(c, nil, func(r *exploreRound) {
		st, w := r.St, r.An.W
		if r.File == nil {
			return
		}
		inval := r.has(smT+"InvalidateManifestParent") != nil || r.has("(*validator/pki.Validator).InvalidateObject") != nil
		T := st.Path(r.Args[0], "Validator", "Time")
		var mft *flow.Term
		lits(st, func(t *flow.Term, v bool) {
			if v && t.Op == flow.OTypeIs && strings.HasSuffix(t.Typ.String(), "lib.RPKIManifest") {
				mft = w.Assert(t.Args[0], t.Typ)
			}
		})
		if mft == nil {
			return
		}
		tu, nu := st.Path(mft, "Content", "ThisUpdate"), st.Path(mft, "Content", "NextUpdate")
		if tu == nil || nu == nil || T == nil {
			c.Fail(rule, "manifest bounds", r.Where, "the manifest's validity times are not found")
			return
		}
		ts := []*flow.Term{tu, T, nu}
		current := func(x []*flow.Term) flow.Formula { return and(w.OrdLe(x[0], x[1]), w.OrdLe(x[1], x[2])) }
		stalef := func(x []*flow.Term) flow.Formula { return flow.Neg(current(x)) }
		if !inval {
			fresh++
			c.Expect(st.EntailsAny(ts, current), rule, "manifest used without invalidation", r.Where, "a manifest is used although thisUpdate<=T<=nextUpdate is not known to hold at the validator's time: %s", facts(st))
		} else if st.Entails(not(st.Path(r.Args[0], "StrictManifests"))) {
			stale++
			c.Expect(st.EntailsAny(ts, stalef), rule, "CA invalidated for a stale manifest", r.Where, "the CA of a manifest is invalidated although the manifest is not known to be outside its validity period: %s", facts(st))
		}
	})
	c.Expect(stale > 0 && fresh > 0, rule, "manifest staleness is decided", "", "the exploration loop no longer decides whether a manifest is current (%d stale, %d current outcomes)", stale, fresh)
}
