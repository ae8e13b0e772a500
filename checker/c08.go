package main

import (
	"strings"

	"verif/checker/flow"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C08",
		Technique: "predicate dataflow over SSA (facts and events of every way an exploration round ends), call-graph and who-may-write queries",
		Rule:      "In every round of Explore in which a file is passed on to validation: it is the file and the data of that round, reading it gave no error, and unless hash checking is off or one of the two hashes is unknown the facts state that they are equal. In every round that read a file and did not invalidate the CA of its manifest, strict manifests are off or the file was read without error, is there and its hash did not differ; and with hash checking on the manifest is current at the validator's time. InvalidateManifestParent invalidates the certificate that announced the file's manifest on every path where that certificate is known. ExploreAdd records the object of every valid file under the file it came from. GetNextFile hands on exactly the seeker's data and error. Files reach AddResource only through ExploreAdd, and ExploreAdd only through Explore or the repository callback.",
		Note:      "Whether the hash given by the seeker is that of the bytes on disk is C26.",
		Run:       runC08})
}

func runC08(c *Ctx) {
	contentGate(c)
	manifestStaleness(c, "staleness")
	manifestParent(c)
	exploredRecord(c)
	seekerData(c)
	validationCallers(c)
}

// hashesAgree: the content of a file is known not to contradict its manifest. The result of
// other is enough as well.
func hashesAgree(st *flow.State, sm, file, data *flow.Term, other ...flow.Formula) bool {
	w := st.W()
	got, want := st.Path(data, "Sha256"), st.Path(file, "ManifestHash")
	strict := st.Path(sm, "StrictHash")
	if got == nil || want == nil || strict == nil {
		return st.Entails(flow.Or(other...))
	}
	return st.EntailsAny([]*flow.Term{got, want, strict}, func(t []*flow.Term) flow.Formula {
		return flow.Or(append([]flow.Formula{not(t[2]), eqf(w, t[0], w.Nil), eqf(w, t[1], w.Nil), eqf(w, t[0], t[1]), eqf(w, w.StrOf(t[0]), w.StrOf(t[1]))}, other...)...)
	})
}

func contentGate(c *Ctx) {
	add := smT + "ExploreAdd"
	reads, adds, kept, invals := 0, 0, 0, 0
	exploreRounds(c, func(st *flow.State, ev *flow.Event) {
		if !isCall(ev, add) {
			return
		}
		var get *flow.Event
		for _, e := range st.Events() {
			if isCall(e, smT+"GetNextFile") && !e.Old && !e.May {
				get = e
			}
		}
		adds++
		pos := c.evPos(ev)
		if get == nil {
			c.Fail("passed-on", "file of the round", pos, "a file is passed on to validation that was not read in this round")
			return
		}
		w := st.W()
		data, err := w.Extract(get.Res, 0, nil), w.Extract(get.Res, 1, nil)
		c.Expect(len(ev.Args) >= 3 && ev.Args[1] == get.Args[1] && ev.Args[2] == data, "passed-on", "file of the round", pos, "what is passed on to validation is not the file and data read in this round: %v", ev.Args)
		c.Expect(st.Entails(eqf(w, err, w.Nil)), "passed-on", "read without error", pos, "a file is passed on to validation although reading it may have failed: %s", facts(st))
		c.Expect(st.Excludes(eqf(w, data, w.Nil)), "passed-on", "file is there", pos, "a file is passed on to validation that may not be there: %s", facts(st))
		c.Expect(hashesAgree(st, get.Args[0], get.Args[1], data), "passed-on", "hash", pos, "a file is passed on to validation although its hash may differ from its manifest's: %s", facts(st))
		for _, e := range st.Events() {
			if isCall(e, smT+"InvalidateManifestParent", "(*validator/pki.Validator).InvalidateObject") && !e.Old && !e.May {
				return
			}
		}
		manifestInUse(c, st, get.Args[0], get.Args[1], data, pos)
	}, func(r *exploreRound) {
		if r.File == nil {
			return
		}
		reads++
		st, w := r.St, r.An.W
		sm := r.Args[0]
		file, data, err := r.File, r.Data, r.Err
		if r.has(smT+"InvalidateManifestParent", "(*validator/pki.Validator).InvalidateObject") != nil {
			invals++
			for _, ev := range r.Events {
				if isCall(ev, smT+"InvalidateManifestParent") {
					c.Expect(len(ev.Args) > 1 && ev.Args[1] == file, "invalidate", "file", c.evPos(ev), "the CA invalidated is not the one that announced this file: %s", ev.Args[1])
				}
			}
			return
		}
		kept++
		there := flow.And(eqf(w, err, w.Nil), neqf(w, data, w.Nil))
		lenient := not(st.Path(sm, "StrictManifests"))
		c.Expect(st.Entails(flow.Or(lenient, there)) && (st.Entails(lenient) || hashesAgree(st, sm, file, data, lenient)), "kept", "CA kept", r.Where, "the CA of a manifest is kept although a listed file may be missing, unreadable or different: %s", facts(st))
		if r.has(add) == nil {
			// a clean file is used
			c.Expect(!(st.Entails(there) && hashesAgree(st, sm, file, data)), "used", "clean file", r.Where, "a file that is there and matches its manifest is not validated: %s", facts(st))
			return
		}
	})
	c.Expect(reads > 0 && adds > 0 && kept > 0 && invals > 0, "rounds", "outcomes", "", "the exploration loop lacks an outcome (%d reads, %d validated, %d kept, %d invalidated)", reads, adds, kept, invals)
}

// manifestInUse: with hash checking the manifest of a file in use is current.
func manifestInUse(c *Ctx, st *flow.State, sm, file, data *flow.Term, pos string) {
	w := st.W()
	parent := st.Path(file, "Parent")
	rop := st.Path(sm, "ResourceOfPath")
	if parent == nil || rop == nil {
		c.Fail("current", "manifest object", pos, "the table of explored objects is not found")
		return
	}
	res, ok := st.Lookup(rop, parent, nil)
	T := st.Path(sm, "Validator", "Time")
	obj := pathOf(st, res, "Resource")
	var typ *flow.Term
	var mft *flow.Term
	lits(st, func(t *flow.Term, v bool) {
		if t.Op == flow.OTypeIs && strings.HasSuffix(t.Typ.String(), "lib.RPKIManifest") && obj != nil && w.Shape(t.Args[0]) == w.Shape(obj) {
			typ = t
			mft = w.Assert(t.Args[0], t.Typ)
		}
	})
	good := holds(st, st.Path(sm, "StrictHash"), false) ||
		isNil(st, st.Path(data, "Sha256")) || isNil(st, st.Path(file, "ManifestHash")) || isNil(st, parent) ||
		holds(st, eqAtom(w, pathOf(st, parent, "Type"), w.Int(typeConst(c, "TYPE_MFT"))), false) ||
		holds(st, ok, false) || isNil(st, res) || isNil(st, obj) || holds(st, typ, false)
	if !good && mft != nil && T != nil {
		tu, nu := st.Path(mft, "Content", "ThisUpdate"), st.Path(mft, "Content", "NextUpdate")
		good = tu != nil && nu != nil && st.EntailsAny([]*flow.Term{tu, T, nu}, func(x []*flow.Term) flow.Formula {
			return and(w.OrdLe(x[0], x[1]), w.OrdLe(x[1], x[2]))
		})
	}
	c.Expect(good, "current", "manifest in use", pos, "a file is used although its manifest was not found to be current: %s", facts(st))
}

// manifestParent: the certificate that announced the manifest of the file is invalidated.
func manifestParent(c *Ctx) {
	fn := c.Func("validator/pki", "*SimpleManager", "InvalidateManifestParent")
	if fn == nil {
		return
	}
	inv := "(*validator/pki.Validator).InvalidateObject"
	an := c.NewAnalyzer()
	an.AssumeDeref = true
	op := opaque(inv, smT+"reportErrorFile", smT+"reportError")
	an.Opaque = func(f *ssa.Function) bool { return op(f) || strings.HasPrefix(f.Name(), "New") }
	an.Record = func(ev *flow.Event) bool { return isCall(ev, inv) }
	args := an.ParamTerms(fn)
	w := an.W
	done, skipped := 0, 0
	for _, e := range c.Explore(an, fn) {
		if e.Kind != "return" {
			continue
		}
		st := e.St
		file := args[1]
		mft := st.Path(file, "Parent")
		cer := pathOf(st, mft, "Parent")
		rop := st.Path(args[0], "ResourceOfPath")
		if rop == nil {
			c.Fail("parent", "chain", c.Pos(e.Instr), "the chain from a file to its CA is not found")
			continue
		}
		res, ok := st.Lookup(rop, cer, nil)
		obj := pathOf(st, res, "Resource")
		var typ *flow.Term
		lits(st, func(t *flow.Term, v bool) {
			if t.Op == flow.OTypeIs && strings.HasSuffix(t.Typ.String(), "lib.RPKICertificate") && obj != nil && w.Shape(t.Args[0]) == w.Shape(obj) {
				typ = t
			}
		})
		var call *flow.Event
		for _, ev := range st.Events() {
			if isCall(ev, inv) && !ev.May {
				call = ev
			}
		}
		if call != nil {
			done++
			id := strip(call.Args[1])
			good := isRef(id, "SubjectKeyId")
			if good && typ != nil {
				want := st.Path(w.Assert(typ.Args[0], typ.Typ), "Certificate", "SubjectKeyId")
				good = want != nil && w.Shape(want) == w.Shape(id)
			}
			c.Expect(good && typ != nil, "parent", "certificate", c.evPos(call), "the object invalidated is not the certificate that announced the file's manifest: %s", id)
			v := st.Path(args[0], "Validator")
			c.Expect(v != nil && w.Shape(call.Args[0]) == w.Shape(v), "parent", "validator", c.evPos(call), "the invalidation goes to another validator: %s", call.Args[0])
			continue
		}
		skipped++
		unknown := []flow.Formula{
			eqf(w, file, w.Nil), eqf(w, mft, w.Nil), neqf(w, pathOf(st, mft, "Type"), w.Int(typeConst(c, "TYPE_MFT"))),
			eqf(w, cer, w.Nil), neqf(w, pathOf(st, cer, "Type"), w.Int(typeConst(c, "TYPE_CER"))),
			not(ok), eqf(w, res, w.Nil), eqf(w, obj, w.Nil),
		}
		if typ != nil {
			unknown = append(unknown, not(typ))
		}
		c.Expect(st.Entails(flow.Or(unknown...)), "parent", "always invalidated", c.Pos(e.Instr), "a CA that announced a bad manifest is not invalidated although it is known: %s", facts(st))
	}
	c.Expect(done > 0, "parent", "invalidates", c.PosOf(fn.Pos()), "InvalidateManifestParent never invalidates")
}

// exploredRecord: the object of a valid file is recorded under its file.
func exploredRecord(c *Ctx) {
	fn := c.Func("validator/pki", "*SimpleManager", "ExploreAdd")
	if fn == nil {
		return
	}
	ar := "(*validator/pki.Validator).AddResource"
	an := c.NewAnalyzer()
	an.AssumeDeref = true
	an.Opaque = opaque(ar, smT+"reportErrorFile", smT+"reportError", smT+"PutFiles", "(*validator/pki.PKIFile).ComputePath", "(*validator/pki.FileError).AddFileErrorInfo", "validator/pki.NewFileError")
	an.Record = func(ev *flow.Event) bool { return isCall(ev, ar) || ev.Kind == "mapset" }
	args := an.ParamTerms(fn)
	w := an.W
	n := 0
	for _, e := range c.Explore(an, fn) {
		if e.Kind != "return" {
			continue
		}
		var call *flow.Event
		recorded := false
		for _, ev := range e.St.Events() {
			if isCall(ev, ar) && !ev.May {
				call = ev
			}
			if call != nil && ev.Kind == "mapset" && !ev.May && isRef(ev.Args[0], "ResourceOfPath") && ev.Args[1] == args[1] && ev.Args[2] == w.Extract(call.Res, 2, nil) {
				recorded = true
			}
		}
		if call == nil {
			c.Fail("record", "validated", c.Pos(e.Instr), "a file that was found is not validated: %s", facts(e.St))
			continue
		}
		c.Expect(call.Args[1] == args[1] && w.Shape(call.Args[2]) == w.Shape(e.St.Path(args[2], "Data")), "record", "file and data", c.evPos(call), "what is validated is not the file's own data: %v", call.Args)
		valid := w.Extract(call.Res, 0, nil)
		n++
		if !recorded {
			c.Expect(e.St.Entails(not(valid)), "record", "object of the file", c.Pos(e.Instr), "a valid object is not recorded under the file it came from: %s", facts(e.St))
		}
	}
	c.Expect(n > 0, "record", "ExploreAdd", c.PosOf(fn.Pos()), "ExploreAdd has no outcome")
}

// seekerData: reading a file gives the seeker's data and error.
func seekerData(c *Ctx) {
	fn := c.Func("validator/pki", "*SimpleManager", "GetNextFile")
	if fn == nil {
		return
	}
	an := c.NewAnalyzer()
	an.AssumeDeref = true
	an.Opaque = opaque("(*validator/pki.PKIFile).ComputePath", "validator/pki.NewFileError")
	an.Record = func(ev *flow.Event) bool { return ev.Kind == "call" && strings.HasSuffix(ev.Name, ".GetFile") }
	args := an.ParamTerms(fn)
	w := an.W
	n := 0
	for _, e := range c.Explore(an, fn) {
		if e.Kind != "return" {
			continue
		}
		st, pos := e.St, c.Pos(e.Instr)
		data, err := e.Results[0], e.Results[1]
		var call *flow.Event
		for _, ev := range st.Events() {
			if !ev.May && ev.Kind == "call" {
				call = ev
			}
		}
		if call == nil {
			c.Expect(st.IsNil(data), "seeker", "no data without reading", pos, "data is returned for a file that was not read: %s", data)
			continue
		}
		n++
		c.Expect(call.Args[len(call.Args)-1] == args[1], "seeker", "file", c.evPos(call), "another file is read than the one asked for: %s", call.Args[len(call.Args)-1])
		d, er := w.Extract(call.Res, 0, nil), w.Extract(call.Res, 1, nil)
		c.Expect(st.IsNil(data) || data == d, "seeker", "data", pos, "the data returned is not what was read: %s", data)
		if !st.NonNil(err) {
			c.Expect(st.Entails(eqf(w, er, w.Nil)), "seeker", "error", pos, "an error of reading the file is lost: %s", facts(st))
			c.Expect(data == d, "seeker", "data kept", pos, "data that was read is dropped without an error: %s", data)
		}
	}
	c.Expect(n > 0, "seeker", "reads", c.PosOf(fn.Pos()), "GetNextFile never reads a file")
}

// validationCallers: content reaches validation only through the gate.
func validationCallers(c *Ctx) {
	ea := c.Func("validator/pki", "*SimpleManager", "ExploreAdd")
	ex := c.Func("validator/pki", "*SimpleManager", "Explore")
	if ea == nil || ex == nil {
		return
	}
	n := 0
	inEA, inEx := reachable(c.P, ea), reachable(c.P, ex)
	for _, fn := range moduleFuncs(c.P) {
		rel := c.P.Rel(fn)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					switch callName(ci.Common()) {
					case "(*validator/pki.Validator).AddResource":
						n++
						c.Expect(inEA[fn] || strings.HasPrefix(rel, "cmd/localrpki") || strings.HasPrefix(rel, "cmd/ctrpki"), "callers", "AddResource in "+fname(fn), c.Pos(in), "content is validated without passing the check against its manifest")
					case smT + "ExploreAdd":
						n++
						c.Expect(inEx[fn] || rel == "cmd/localrpki", "callers", "ExploreAdd in "+fname(fn), c.Pos(in), "content is validated without passing the check against its manifest")
					}
				}
			}
		}
	}
	c.Expect(n >= 2, "callers", "calls", "", "validation is never called")
}
