package main

import (
	"go/types"
	"strings"

	"verif/checker/flow"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C07",
		Technique: "predicate dataflow over SSA (facts at accepting exits, table writes and list appends), element-wise loop invariants, decision table of the file type, who-may-write query",
		Rule:      "AddManifest reports a manifest valid and writes the table of valid manifests only if AddCert reported its certificate valid and its content is intact. ExtractPathManifest appends exactly one file per manifest entry, with that entry's name as path, that entry's hash and the type DetermineType gives for that name, and only on paths where the name is known not to contain a step to a parent directory, else it returns an error and no list; AddManifest returns no files, records nothing and is not valid when it failed. DetermineType answers by the suffix. ExploreAdd queues files only if AddResource reported the listing object valid (or invalid ones are asked for), after making the listing file the parent of every one; ComputePath puts the path of a file whose parent is a manifest behind that manifest's repository and a slash. Path, hash, type and repository of a file are never changed after it was made, its parent only by the listing code.",
		Note:      "The manifest's repository is the CA repository named by the certificate that announced the manifest.",
		Run:       runC07})
}

func runC07(c *Ctx) {
	embeddedGate(c, "AddManifest", "ValidManifest", "")
	listFiles(c)
	listRefused(c)
	fileType(c)
	filePath(c)
	filesQueued(c)
	fileWriters(c)
}

// noParentStep says which ways to step to a parent directory the facts rule out for a name:
// "../" inside, a final "..", "..\".
func noParentStep(st *flow.State, name *flow.Term) (slash, end, back bool) {
	w := st.W()
	same := func(t *flow.Term) bool { return w.Shape(strip(t)) == w.Shape(strip(name)) }
	withSlash := func(t *flow.Term) bool {
		if t.Op != flow.OCat || len(t.Args) != 2 || !same(t.Args[0]) {
			return false
		}
		s, ok := t.Args[1].IsStr()
		return ok && s == "/"
	}
	lits(st, func(t *flow.Term, v bool) {
		if t.Op != flow.OCall {
			return
		}
		if v && isCallTerm(t, "path/filepath.IsLocal") && same(t.Args[0]) {
			slash, end = true, true
		}
		if v || len(t.Args) != 2 {
			return
		}
		pat, ok := t.Args[1].IsStr()
		if !ok || pat == "" {
			return
		}
		switch {
		case isCallTerm(t, "strings.Contains") && same(t.Args[0]):
			slash = slash || strings.Contains("../", pat)
			back = back || strings.Contains("..\\", pat)
			end = end || strings.Contains("..", pat)
		case isCallTerm(t, "strings.Contains") && withSlash(t.Args[0]):
			slash = slash || strings.Contains("../", pat)
			end = end || strings.Contains("../", pat)
			back = back || strings.Contains("..\\", pat)
		case isCallTerm(t, "strings.HasSuffix") && same(t.Args[0]):
			end = end || strings.HasSuffix("..", pat)
		}
	})
	return
}

func listFiles(c *Ctx) {
	fn := c.Func("validator/pki", "", "ExtractPathManifest")
	if fn == nil {
		return
	}
	an := c.NewAnalyzer()
	an.Opaque = opaque("validator/pki.DetermineType")
	args := an.ParamTerms(fn)
	w := an.W
	backs := recordBacks(an)
	// added: the files that a step puts into a list, and where
	added := func(ev *flow.Event) (els []*flow.Term, into, at *flow.Term, ok bool) {
		switch {
		case ev.Kind == "append" && strings.Contains(ev.Args[0].Typ.String(), "PKIFile"):
			if ev.Args[1].Op != flow.OSliceLit {
				return nil, nil, nil, true
			}
			return ev.Args[1].Args, nil, nil, true
		case ev.Kind == "store" && ev.Args[0].Op == flow.OIndexAddr && ev.Args[0].Args[0].Op == flow.OMake && strings.Contains(ev.Args[0].Args[0].Typ.String(), "PKIFile"):
			return []*flow.Term{ev.Args[1]}, ev.Args[0].Args[0], ev.Args[0].Args[1], true
		}
		return nil, nil, nil, false
	}
	an.Record = func(ev *flow.Event) bool {
		_, _, _, ok := added(ev)
		return ok
	}
	n := 0
	// entryOf: the manifest entry a file describes
	entryOf := func(st *flow.State, el *flow.Term) *flow.Term {
		p := strip(st.Path(el, "Path"))
		if p == nil || !isRef(p, "Name") {
			return nil
		}
		return refBase(p)
	}
	list := func(st *flow.State) *flow.Term { return st.Path(args[0], "Content", "FileList") }
	an.OnEvent = func(st *flow.State, ev *flow.Event) {
		els, into, at, isAdd := added(ev)
		if !isAdd {
			return
		}
		pos := c.evPos(ev)
		if els == nil {
			c.Fail("entry", "append of a list", pos, "files are added in a way that cannot be followed: %s", ev.Args[1])
			return
		}
		for _, el := range els {
			n++
			e := entryOf(st, el)
			c.Expect(e != nil && elementOf(w, e, list(st)) != nil, "entry", "name", pos, "a file's path is not the name of a manifest entry: %s", st.Path(el, "Path"))
			if e == nil {
				continue
			}
			if at != nil {
				// a list of the length of the manifest's, filled in its order
				c.Expect(elementOf(w, e, list(st)) == at && into.Args[0] == w.Len(list(st)), "entry", "place", pos, "a file is not put at the place of its entry in a list of the same length: %s in a list of %s", at, into.Args[0])
			}
			name := strip(st.Path(el, "Path"))
			h := st.Path(el, "ManifestHash")
			okh := isRef(h, "Bytes") && isRef(refBase(h), "Hash") && (w.Shape(refBase(refBase(h))) == w.Shape(e) || elementOf(w, e, list(st)) != nil && elementOf(w, refBase(refBase(h)), list(st)) == elementOf(w, e, list(st)))
			c.Expect(okh, "entry", "hash", pos, "a file does not carry the hash of the entry it is named by: %s", h)
			t := st.Path(el, "Type")
			okt := isCallTerm(t, "validator/pki.DetermineType") && w.Shape(strip(t.Args[0])) == w.Shape(name)
			c.Expect(okt, "entry", "type", pos, "a file's type is not the one of its name: %s", t)
			tr := st.Path(el, "Trust")
			c.Expect(tr == nil || st.Excludes(flow.Lit(tr)), "entry", "trust", pos, "a listed file is trusted")
			slash, end, back := noParentStep(st, name)
			c.Expect(slash, "refusal", "../ inside a name", pos, "a file is listed although its name may step to the parent directory: %s", facts(st))
			c.Expect(back, "refusal", "..\\ inside a name", pos, "a file is listed although its name may step to the parent directory with a backslash: %s", facts(st))
			c.Expect(end, "refusal", "name ending with ..", pos, "a file is listed although its name may be the parent directory: %s", facts(st))
		}
	}
	exits := c.Explore(an, fn)
	acc := 0
	for _, e := range exits {
		if e.Kind != "return" {
			continue
		}
		if e.St.NonNil(e.Results[1]) {
			c.Expect(e.St.IsNil(e.Results[0]), "refusal", "no list with an error", c.Pos(e.Instr), "a refused manifest still yields files: %s", e.Results[0])
			continue
		}
		acc++
		for _, ev := range e.St.Events() {
			if _, into, _, ok := added(ev); ok {
				c.Expect(into == nil || e.Results[0] == into, "entry", "list that is returned", c.Pos(e.Instr), "another list is returned than the one that was filled: %s", e.Results[0])
			}
		}
		ok := everyElement(an, *backs, e.St, list(e.St), func(st *flow.State) []*flow.Term {
			var out []*flow.Term
			k := 0
			for _, ev := range st.Events() {
				if els, _, _, ok := added(ev); ok && !ev.Old && !ev.May && len(els) == 1 {
					k++
					if e := entryOf(st, els[0]); e != nil {
						if i := elementOf(w, e, list(st)); i != nil {
							out = append(out, i)
						}
					}
				}
			}
			if k != 1 {
				return nil
			}
			return out
		})
		c.Expect(ok, "entry", "every entry", c.Pos(e.Instr), "the list is returned without exactly one file for every manifest entry: %s", facts(e.St))
	}
	c.Expect(n > 0 && acc > 0, "entry", "list", c.PosOf(fn.Pos()), "no file is ever listed")
}

// listRefused: a manifest whose list was refused is not valid, not recorded and yields nothing.
func listRefused(c *Ctx) {
	fn := c.Func("validator/pki", "*Validator", "AddManifest")
	if fn == nil {
		return
	}
	an := c.NewAnalyzer()
	an.AssumeDeref = true
	ext := "validator/pki.ExtractPathManifest"
	an.Opaque = opaque(addCertN, ext)
	an.Record = func(ev *flow.Event) bool { return isCall(ev, ext) }
	args := an.ParamTerms(fn)
	w := an.W
	listed := func(st *flow.State) *flow.Term {
		for _, ev := range st.Events() {
			if isCall(ev, ext) && len(ev.Args) == 1 && w.Shape(ev.Args[0]) == w.Shape(args[2]) {
				return ev.Res
			}
		}
		return nil
	}
	noErr := func(st *flow.State) bool {
		l := listed(st)
		return l != nil && (st.IsNil(w.Extract(l, 1, nil)) || hasLit(st, func(t *flow.Term, v bool) bool {
			x := eqNilArg(t)
			return v && x != nil && x.Op == flow.OExtract && x.Aux == "1" && x.Args[0] == l
		}))
	}
	an.OnEvent = func(st *flow.State, ev *flow.Event) {
		if ev.Kind == "mapset" && strings.Contains(ev.Name, "pki.Validator.ValidManifest|") || isCall(ev, addCertN) {
			c.Expect(noErr(st), "refused", "nothing is recorded", c.evPos(ev), "a manifest is recorded although its file list was refused: %s", facts(st))
		}
	}
	n := 0
	for _, e := range c.Explore(an, fn) {
		if e.Kind != "return" {
			continue
		}
		st := e.St
		pos := c.Pos(e.Instr)
		if !st.Excludes(flow.Lit(e.Results[0])) {
			c.Expect(noErr(st), "refused", "not valid", pos, "a manifest is reported valid although its file list was refused: %s", facts(st))
		}
		if !st.IsNil(e.Results[1]) {
			n++
			l := listed(st)
			c.Expect(l != nil && e.Results[1] == w.Extract(l, 0, nil), "refused", "files", pos, "the files of a manifest are not those ExtractPathManifest found in it: %s", e.Results[1])
		}
	}
	c.Expect(n > 0, "refused", "lists files", c.PosOf(fn.Pos()), "AddManifest never returns files")
}

// fileType: the type of a file follows from its suffix.
func fileType(c *Ctx) {
	fn := c.Func("validator/pki", "", "DetermineType")
	if fn == nil {
		return
	}
	suffixes := map[string]string{".cer": "TYPE_CER", ".mft": "TYPE_MFT", ".crl": "TYPE_CRL", ".roa": "TYPE_ROA"}
	an := c.NewAnalyzer()
	args := an.ParamTerms(fn)
	w := an.W
	has := func(st *flow.State, suf string, val bool) bool {
		return hasLit(st, func(t *flow.Term, v bool) bool {
			if v != val {
				return false
			}
			if isCallTerm(t, "strings.HasSuffix") && t.Args[0] == args[0] {
				s, _ := t.Args[1].IsStr()
				return s == suf
			}
			if t.Op != flow.OEq || len(t.Args) != 2 {
				return false
			}
			for i := range t.Args {
				s, ok := t.Args[i].IsStr()
				o := t.Args[1-i]
				if !ok || s != suf {
					continue
				}
				if (isCallTerm(o, "path/filepath.Ext") || isCallTerm(o, "path.Ext")) && o.Args[0] == args[0] {
					return true
				}
				if o.Op == flow.OSlice && o.Args[0] == args[0] {
					if k, ok := w.Sub(w.Len(args[0]), o.Args[1], types.Typ[types.Int]).IsInt(); ok && k == int64(len(suf)) {
						return true
					}
				}
			}
			return false
		})
	}
	seen := map[string]bool{}
	for _, e := range c.Explore(an, fn) {
		if e.Kind != "return" {
			continue
		}
		k, isC := e.Results[0].IsInt()
		if !isC {
			c.Fail("type", "result", c.Pos(e.Instr), "the type of a file is not known: %s", e.Results[0])
			continue
		}
		for suf, name := range suffixes {
			if k == typeConst(c, name) {
				seen[suf] = true
				c.Expect(has(e.St, suf, true), "type", name, c.Pos(e.Instr), "a file is given the type %s without its name ending in %s: %s", name, suf, facts(e.St))
			} else if k == typeConst(c, "TYPE_UNKNOWN") {
				short := e.St.Entails(flow.Lit(w.OrdLe(w.Len(args[0]), w.Int(4))))
				c.Expect(has(e.St, suf, false) || short, "type", "unknown is not "+suf, c.Pos(e.Instr), "a name that may end in %s is of unknown type: %s", suf, facts(e.St))
			}
		}
	}
	for suf := range suffixes {
		c.Expect(seen[suf], "type", "recognises "+suf, c.PosOf(fn.Pos()), "no name is given the type of %s files", suf)
	}
}

// filePath: a file listed in a manifest lies in the manifest's repository.
func filePath(c *Ctx) {
	fn := c.Func("validator/pki", "*PKIFile", "ComputePath")
	if fn == nil {
		return
	}
	mft := typeConst(c, "TYPE_MFT")
	an := c.NewAnalyzer()
	args := an.ParamTerms(fn)
	w := an.W
	in := 0
	for _, e := range c.Explore(an, fn) {
		if e.Kind != "return" {
			continue
		}
		st := e.St
		pos := c.Pos(e.Instr)
		f := args[0]
		path, parent := st.Path(f, "Path"), st.Path(f, "Parent")
		listed := flow.And(not(w.EqAtom(parent, w.Nil)), flow.Lit(w.OrdEq(st.Path(parent, "Type"), w.Int(mft))))
		r := e.Results[0]
		if st.Excludes(listed) {
			c.Expect(r == path, "resolve", "other files", pos, "a file that no manifest lists is not at its own path: %s", r)
			continue
		}
		repo := st.Path(parent, "Repo")
		ok := false
		if r.Op == flow.OCat && r.Args[0] == repo && r.Args[len(r.Args)-1] == path {
			switch len(r.Args) {
			case 3:
				s, isS := r.Args[1].IsStr()
				ok = isS && s == "/"
			case 2:
				last := st.Elem(repo, w.Sub(w.Len(repo), w.Int(1), types.Typ[types.Int]), types.Typ[types.Uint8])
				ok = st.EntailsAny([]*flow.Term{repo}, func(x []*flow.Term) flow.Formula {
					return flow.Or(flow.Lit(w.OrdEq(last, w.Int('/'))), flow.Lit(w.Call("strings.HasSuffix", boolT, x[0], w.Str("/"))))
				})
			}
		}
		in++
		c.Expect(ok, "resolve", "listed files", pos, "a file listed in a manifest is not resolved inside the manifest's repository: %s (%s)", r, facts(st))
	}
	c.Expect(in > 0, "resolve", "manifest", c.PosOf(fn.Pos()), "files listed in manifests are not resolved specially")
}

// filesQueued: ExploreAdd queues the files of valid objects only, with the listing file as parent.
func filesQueued(c *Ctx) {
	fn := c.Func("validator/pki", "*SimpleManager", "ExploreAdd")
	if fn == nil {
		return
	}
	an := c.NewAnalyzer()
	add, put := "(*validator/pki.Validator).AddResource", smT+"PutFiles"
	an.Opaque = opaque(append(append([]string{}, exploreOpaque...), put, "validator/pki.NewFileError", "(*validator/pki.PKIFile).ComputePath")...)
	// ExploreAdd itself is the root
	args := an.ParamTerms(fn)
	w := an.W
	backs := recordBacks(an)
	an.Record = func(ev *flow.Event) bool {
		return isCall(ev, add) || ev.Kind == "store" && strings.Contains(ev.Name, "pki.PKIFile.Parent")
	}
	n := 0
	inResource := resourceParents(c)
	an.OnEvent = func(st *flow.State, ev *flow.Event) {
		if !isCall(ev, put) {
			return
		}
		n++
		pos := c.evPos(ev)
		var res *flow.Term
		for _, e := range st.Events() {
			if isCall(e, add) {
				res = e.Res
				c.Expect(len(e.Args) == 3 && e.Args[1] == args[1] && isRef(e.Args[2], "Data") && refBase(e.Args[2]) == args[2], "queue", "validated data", pos, "what is validated is not the file and its data: %v", e.Args)
			}
		}
		ok := res != nil && ev.Args[1] == w.Extract(res, 0+1, nil)
		c.Expect(ok, "queue", "files of the object", pos, "files are queued that the validated object did not list: %s", ev.Args[1])
		if res == nil {
			return
		}
		c.Expect(st.Entails(flow.Or(flow.Lit(w.Extract(res, 0, boolT)), flow.Lit(args[3]))), "queue", "only of valid objects", pos, "the files of an object are queued although it is not valid: %s", facts(st))
		all := everyElement(an, *backs, st, ev.Args[1], func(s *flow.State) []*flow.Term {
			var out []*flow.Term
			for _, e := range s.Events() {
				if e.Kind == "store" && !e.Old && !e.May && e.Args[1] == args[1] {
					if i := elementOf(w, refBase(e.Args[0]), ev.Args[1]); i != nil {
						out = append(out, i)
					}
				}
			}
			return out
		})
		c.Expect(all || inResource, "queue", "parent", pos, "the listing file is not made the parent of every listed file")
	}
	c.Explore(an, fn)
	c.Expect(n > 0, "queue", "PutFiles", c.PosOf(fn.Pos()), "ExploreAdd never queues files")
	// callers of PutFiles
	for _, g := range moduleFuncs(c.P) {
		calls(g, func(in ssaCall, name string) {
			if name != put {
				return
			}
			ok := an.Visited[g] || nameIs(g, smT+"AddInitial") || strings.HasPrefix(c.P.Rel(g), "cmd/")
			c.Expect(ok, "queue", "caller of PutFiles "+fname(g), c.Pos(in), "%s queues files around the validation of what lists them", fname(g))
		})
	}
}

// resourceParents: AddResource itself makes the manifest the parent of every file it lists.
func resourceParents(c *Ctx) bool {
	fn := c.Func("validator/pki", "*Validator", "AddResource")
	if fn == nil {
		return false
	}
	an := c.NewAnalyzer()
	am := "(*validator/pki.Validator).AddManifest"
	op := opaque(addCertN, "(*validator/pki.Validator).AddROA", am, "(*validator/pki.Validator).AddCRL", "(*validator/pki.Validator).AddTAL", "(*validator/lib.RPKITAL).CheckCertificate", "validator/pki.crlAuthorityKeyId")
	an.Opaque = func(f *ssa.Function) bool { return op(f) || c.P.Rel(f) == "validator/lib" }
	an.AssumeDeref = true
	args := an.ParamTerms(fn)
	w := an.W
	backs := recordBacks(an)
	an.Record = func(ev *flow.Event) bool {
		return isCall(ev, am) || ev.Kind == "store" && strings.Contains(ev.Name, "pki.PKIFile.Parent")
	}
	ok, n := true, 0
	for _, e := range c.Explore(an, fn) {
		if e.Kind != "return" || e.St.IsNil(e.Results[1]) {
			continue
		}
		var files *flow.Term
		for _, ev := range e.St.Events() {
			if isCall(ev, am) && ev.Res != nil {
				files = w.Extract(ev.Res, 1, nil)
			}
		}
		if files == nil || e.Results[1] != files {
			continue
		}
		n++
		ok = ok && everyElement(an, *backs, e.St, files, func(s *flow.State) []*flow.Term {
			var out []*flow.Term
			for _, ev := range s.Events() {
				if ev.Kind == "store" && !ev.Old && !ev.May && ev.Args[1] == args[1] {
					if i := elementOf(w, refBase(ev.Args[0]), files); i != nil {
						out = append(out, i)
					}
				}
			}
			return out
		})
	}
	return ok && n > 0
}

// fileWriters: what a manifest states about a file is not changed afterwards.
func fileWriters(c *Ctx) {
	listing := map[*ssa.Function]bool{}
	for _, m := range [][2]string{{"*Validator", "AddResource"}, {"*SimpleManager", "ExploreAdd"}} {
		if fn := c.Func("validator/pki", m[0], m[1]); fn != nil {
			for f := range reachable(c.P, fn) {
				listing[f] = true
			}
		}
	}
	for _, f := range []string{"Path", "Repo", "Type", "ManifestHash", "Parent"} {
		storesField(c.P, "validator/pki", "PKIFile", f, func(fn *ssaFunc, in *ssaStore, fa *ssaFieldAddr) {
			ok := rootAlloc(fa.X) || f == "Parent" && listing[fn]
			c.Expect(ok, "file-writers", f+" in "+fname(fn), c.Pos(in), "the %s of a file is changed after it was made", f)
		})
	}
	c.AtLeast("file-writers", 5)
}
