package main

import (
	"go/types"
	"strings"

	"verif/checker/flow"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C24",
		Technique: "path-sensitive dataflow over every implementation of the store (what a result without an error is made of) and over every function that asks a store for a file (facts known about result and error at every dereference, hand-over and process end)",
		Rule:      "A store gives data without an error only where every operation that the data come from succeeded; it hands an entry of a directory to its callback under the same condition. A user dereferences what it got, or hands it to a function that does, only where the error is known to be nil and the result is known not to be; it does not end the process or panic because of either; what the Certificate Transparency submission puts into a chain comes from a file that was read. Files are asked for only where they are known to be there.",
		Note:      "Stores are the functions with the results (*pki.SeekFile, error), called directly or through the FileSeeker interface.",
		Run:       runC24})
}

func isSeekFile(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok && strings.HasSuffix(ownerName(t), "validator/pki.SeekFile")
}

// storeSig: a function that gives a file or an error.
func storeSig(s *types.Signature) bool {
	return s.Results().Len() == 2 && isSeekFile(s.Results().At(0).Type()) && s.Results().At(1).Type().String() == "error"
}

// seekOf: t is the file a store call gave; gives the call.
func seekOf(t *flow.Term) *flow.Term {
	t = strip(t)
	if t == nil || t.Op != flow.OExtract || t.Typ == nil || !isSeekFile(t.Typ) || t.Args[0].Op != flow.OCall {
		return nil
	}
	return t.Args[0]
}

// succeeded: every call that t comes from reported no error.
func succeeded(st *flow.State, t *flow.Term) (bool, *flow.Term) {
	w := st.W()
	ok := true
	var which *flow.Term
	t.Sub(func(x *flow.Term) {
		if x.Op != flow.OExtract || x.Args[0].Op != flow.OCall || x.Args[0].Typ == nil {
			return
		}
		tup, is := x.Args[0].Typ.(*types.Tuple)
		if !is {
			return
		}
		for i := 0; i < tup.Len(); i++ {
			if tup.At(i).Type().String() == "error" {
				e := w.Extract(x.Args[0], i, tup.At(i).Type())
				if x != e && !st.IsNil(e) {
					ok, which = false, x.Args[0]
				}
			}
		}
	})
	return ok, which
}

func runC24(c *Ctx) {
	stores, users := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	sites := 0
	for _, fn := range moduleFuncs(c.P) {
		if storeSig(fn.Signature) && len(fn.Blocks) > 0 && fn.Synthetic == "" {
			stores[fn] = true
		}
	}
	for _, fn := range moduleFuncs(c.P) {
		if fn.Synthetic != "" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if ok && storeSig(call.Common().Signature()) {
					sites++
					users[fn] = true
				}
			}
		}
	}
	isStore := func(fn *ssa.Function) bool { return stores[fn] }
	// a helper of a command is looked at in the functions that call it
	helper := map[*ssa.Function]bool{}
	for again := true; again; {
		again = false
		for fn := range users {
			if helper[fn] || stores[fn] || exportedAPI(fn) || fn.Parent() != nil || !asksForParam(fn, users) {
				continue
			}
			for g := range staticCallers(c.P, fn) {
				if g.Pkg == fn.Pkg {
					helper[fn] = true
					if !users[g] {
						users[g], again = true, true
					}
				}
			}
		}
	}
	// users that hand the file on to a caller by other means are looked at where they are called from too
	for fn := range stores {
		storeResults(c, fn)
	}
	repositoryStores(c)
	n := 0
	for fn := range users {
		if stores[fn] && !dereferences(fn) || helper[fn] {
			continue
		}
		fileUser(c, fn, isStore, helper)
		n++
	}
	errorInfo(c)
	c.Expect(len(stores) >= 3 && n >= 4, "user", "found", "", "%d stores and %d users of files were found, more are expected", len(stores), n)
	c.Sample("%d stores, %d call sites, %d users", len(stores), sites, n)
}

// asksForParam: the function asks for a file that it was given.
func asksForParam(fn *ssa.Function, users map[*ssa.Function]bool) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			cc := call.Common()
			if g := cc.StaticCallee(); !storeSig(cc.Signature()) && (g == nil || !users[g]) {
				continue
			}
			for _, a := range cc.Args {
				if p, ok := a.(*ssa.Parameter); ok && strings.HasSuffix(ownerName(p.Type()), "validator/pki.PKIFile") {
					return true
				}
			}
		}
	}
	return false
}

// dereferences: the function looks into a file it got.
func dereferences(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if fa, ok := in.(*ssa.FieldAddr); ok && isSeekFile(fa.X.Type()) {
				if _, ok := fa.X.(*ssa.Alloc); !ok {
					return true
				}
			}
		}
	}
	return false
}

func storeResults(c *Ctx, fn *ssa.Function) {
	an := c.NewAnalyzer()
	an.Opaque = opaque(mapperName, pathName, "validator/lib.BER2DER", "sync/lib.ExtractRsyncDomainModule")
	an.Record = func(ev *flow.Event) bool { return false }
	n := 0
	for _, e := range c.Explore(an, fn) {
		if e.Kind != "return" || len(e.Results) != 2 {
			c.Fail("store", fname(fn)+" end", c.Pos(e.Instr), "%s ends with %s instead of an error", fname(fn), e.Kind)
			continue
		}
		n++
		r, err := e.Results[0], e.Results[1]
		if e.St.NonNil(err) || e.St.IsNil(r) {
			c.OK("store", fname(fn))
			continue
		}
		if call := seekOf(r); call != nil {
			// handed on: the error of the same call
			same := strip(err) == e.St.W().Extract(call, 1, err.Typ) || e.St.IsNil(e.St.W().Extract(call, 1, err.Typ))
			c.Expect(same, "store", fname(fn)+" handed on", c.Pos(e.Instr), "%s hands on a file without the error that came with it: %s", fname(fn), err)
			continue
		}
		data := e.St.Path(r, "Data")
		if !c.Expect(data != nil && data.Op != flow.ONil, "store", fname(fn)+" data", c.Pos(e.Instr), "%s gives out a file without data and without an error where %s", fname(fn), facts(e.St)) {
			continue
		}
		ok, which := succeeded(e.St, data)
		c.Expect(ok, "store", fname(fn)+" data", c.Pos(e.Instr), "%s gives out data although %s may have failed, and no error: %s", fname(fn), which, facts(e.St))
	}
	c.Expect(n > 0, "store", fname(fn)+" returns", c.PosOf(fn.Pos()), "%s never returns", fname(fn))
}

// repositoryStores: the callbacks with the entries of a directory.
func repositoryStores(c *Ctx) {
	n := 0
	for _, fn := range moduleFuncs(c.P) {
		if fn.Synthetic != "" || len(fn.Blocks) == 0 || fn.Name() != "GetRepository" || len(fn.Params) != 3 || !strings.HasSuffix(fn.Params[2].Type().String(), "pki.CallbackExplore") {
			continue
		}
		n++
		an := c.NewAnalyzer()
		an.Opaque = opaque(mapperName, pathName, "validator/lib.BER2DER")
		args := an.ParamTerms(fn)
		an.Record = func(ev *flow.Event) bool { return false }
		hits := 0
		an.OnEvent = func(st *flow.State, ev *flow.Event) {
			if ev.Kind != "call" || ev.Callee != args[2] {
				return
			}
			hits++
			data := st.Path(ev.Args[1], "Data")
			if !c.Expect(data != nil && data.Op != flow.ONil && !st.IsNil(ev.Args[1]), "store", fname(fn)+" entry", c.evPos(ev), "%s gives out an entry without data", fname(fn)) {
				return
			}
			ok, which := succeeded(st, data)
			c.Expect(ok, "store", fname(fn)+" entry", c.evPos(ev), "%s gives out an entry although %s may have failed: %s", fname(fn), which, facts(st))
		}
		an.OnOblig = func(o flow.Oblig) {
			if o.Kind == "panic" || o.Kind == "fatal" {
				c.Fail("store", fname(fn)+" end", c.Pos(o.Instr), "%s may end the process", fname(fn))
			}
		}
		for _, e := range c.Explore(an, fn) {
			c.Expect(e.Kind == "return", "store", fname(fn)+" end", c.Pos(e.Instr), "%s may end with %s", fname(fn), e.Kind)
		}
		c.Expect(hits > 0, "store", fname(fn)+" entries", c.PosOf(fn.Pos()), "%s gives out no entries", fname(fn))
	}
	c.Expect(n >= 2, "store", "repositories", "", "the stores that list a repository were not found")
}

// paramUse: the function needs a file parameter not to be nil.
func paramNeeded(c *Ctx, fn *ssa.Function, i int) bool {
	if fn == nil || len(fn.Blocks) == 0 || i >= len(fn.Params) {
		return false
	}
	p := fn.Params[i]
	an := c.NewAnalyzer()
	an.Opaque = func(g *ssa.Function) bool { return true }
	an.Record = func(ev *flow.Event) bool { return false }
	args := an.ParamTerms(fn)
	needed := false
	_ = p
	an.OnOblig = func(o flow.Oblig) {
		if o.Kind == "nil" && o.Term == args[i] && !o.OK {
			needed = true
		}
	}
	an.Run(fn, args, nil)
	return needed
}

func fileUser(c *Ctx, fn *ssa.Function, isStore func(*ssa.Function) bool, helper map[*ssa.Function]bool) {
	an := c.NewAnalyzer()
	w := an.W
	roots := opaque("(*validator/pki.Validator).AddResource", "(*validator/pki.SimpleManager).PutFiles", "(*validator/pki.SimpleManager).ExploreAdd", "(*validator/pki.SimpleManager).InvalidateManifestParent", "(*validator/pki.SimpleManager).InvalidateCRLParent", pathName, "validator/lib.DecodeCMS")
	cmd := func(g *ssa.Function) bool { return g.Pkg != nil && strings.Contains(g.Pkg.Pkg.Path(), "/cmd/") }
	an.Opaque = func(g *ssa.Function) bool {
		return isStore(g) && !helper[g] || roots(g) || !handles(g, fn) || cmd(fn) && !cmd(g)
	}
	an.Record = func(ev *flow.Event) bool { return false }
	name := fname(fn)
	ask, used := 0, 0
	known := func(st *flow.State, t *flow.Term) bool {
		return st.NonNil(t) && st.IsNil(w.Extract(seekOf(t), 1, types.Universe.Lookup("error").Type()))
	}
	needs := map[*ssa.Function]map[int]bool{}
	an.OnOblig = func(o flow.Oblig) {
		switch o.Kind {
		case "nil":
			if o.Term != nil && seekOf(o.Term) != nil {
				used++
				c.Expect(o.OK && known(o.State, o.Term), "user", name+" use", c.Pos(o.Instr), "%s uses a file that may not be available: %s where %s", name, o.Term, facts(o.State))
			}
		case "panic", "fatal":
			bad := hasLit(o.State, func(t *flow.Term, v bool) bool {
				x := eqNilArg(t)
				if x == nil || x.Op != flow.OExtract || x.Args[0].Op != flow.OCall {
					return false
				}
				seek := x.Args[0].Typ != nil && isTupleOfSeek(x.Args[0].Typ)
				return seek && (isSeekFile(x.Typ) && v || !isSeekFile(x.Typ) && !v)
			})
			c.Expect(!bad, "user", name+" end", c.Pos(o.Instr), "%s ends the process because a file is not available", name)
		}
	}
	an.OnEvent = func(st *flow.State, ev *flow.Event) {
		switch ev.Kind {
		case "call":
			if cc, ok := ev.Instr.(ssa.CallInstruction); ok && storeSig(cc.Common().Signature()) {
				ask++
				file := ev.Args[len(ev.Args)-1]
				for _, a := range ev.Args {
					if a.Typ != nil && strings.HasSuffix(ownerName(a.Typ), "validator/pki.PKIFile") {
						file = a
					}
				}
				if cmd(ev.Instr.Parent()) {
					c.Expect(st.NonNil(file), "user", name+" asks", c.evPos(ev), "%s asks for a file that may not exist: %s where %s", name, file, facts(st))
				}
			}
			g := ev.Fn
			if g == nil || isStore(g) {
				return
			}
			for i, a := range ev.Args {
				if seekOf(a) == nil {
					continue
				}
				if needs[g] == nil {
					needs[g] = map[int]bool{}
				}
				if _, ok := needs[g][i]; !ok {
					needs[g][i] = paramNeeded(c, g, i)
				}
				if needs[g][i] {
					used++
					c.Expect(known(st, a), "user", name+" hands over", c.evPos(ev), "%s hands a file that may not be available to %s, which uses it: %s", name, g.Name(), facts(st))
				}
			}
		case "append":
			if ev.Args[1].Op != flow.OSliceLit || !strings.Contains(name, "cmd/") {
				return
			}
			for _, el := range ev.Args[1].Args {
				b := certBytes(st, el)
				if b == nil {
					continue
				}
				from := b.Any(func(x *flow.Term) bool { return seekOf(x) != nil })
				ok, which := succeeded(st, b)
				c.Expect(from && ok, "user", name+" chain", c.evPos(ev), "%s puts into a chain what does not come from a file that was read: %s (%s)", name, b, which)
			}
		}
	}
	c.Explore(an, fn)
	c.Expect(ask > 0, "user", name+" asks", c.PosOf(fn.Pos()), "%s asks for no file", name)
	if dereferences(fn) {
		c.Expect(used > 0, "user", name+" uses", c.PosOf(fn.Pos()), "the use of files in %s is not reached", name)
	}
}

func isTupleOfSeek(t types.Type) bool {
	tup, ok := t.(*types.Tuple)
	return ok && tup.Len() == 2 && isSeekFile(tup.At(0).Type())
}

// certBytes: the bytes of a certificate put into a chain: []byte, or a struct with Data.
func certBytes(st *flow.State, el *flow.Term) *flow.Term {
	if el.Typ == nil {
		return nil
	}
	isBytes := func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		if !ok {
			return false
		}
		b, ok := s.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Uint8
	}
	if isBytes(el.Typ) {
		return el
	}
	if s, ok := el.Typ.Underlying().(*types.Struct); ok && s.NumFields() == 1 && isBytes(s.Field(0).Type()) {
		return st.Path(el, s.Field(0).Name())
	}
	return nil
}

// handles: the function has to do with files from a store.
func handles(fn, root *ssa.Function) bool {
	for _, p := range fn.Params {
		if isSeekFile(p.Type()) {
			return true
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case ssa.CallInstruction:
				if storeSig(x.Common().Signature()) {
					return true
				}
			}
		}
	}
	// small helpers: pass or test the file
	sig := fn.Signature
	for i := 0; i < sig.Results().Len(); i++ {
		if isSeekFile(sig.Results().At(i).Type()) {
			return true
		}
	}
	return len(fn.Blocks) <= 6 && fn.Pkg == root.Pkg
}

// errorInfo: the errors that carry a file look into it only where there is one.
func errorInfo(c *Ctx) {
	for _, fn := range moduleFuncs(c.P, "validator/pki") {
		uses := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || !isSeekFile(fa.X.Type()) {
					continue
				}
				if ld, ok := fa.X.(*ssa.UnOp); ok {
					if _, ok := ld.X.(*ssa.FieldAddr); ok {
						uses = true
					}
				}
			}
		}
		if !uses {
			continue
		}
		an := c.NewAnalyzer()
		an.Opaque = func(g *ssa.Function) bool { return true }
		an.Record = func(ev *flow.Event) bool { return false }
		an.OnOblig = func(o flow.Oblig) {
			if o.Kind == "nil" && o.Term != nil && o.Term.Typ != nil && isSeekFile(o.Term.Typ) && isRef(o.Term, "SeekFile") {
				c.Expect(o.OK, "user", fname(fn)+" error", c.Pos(o.Instr), "%s looks into a file that an error need not have", fname(fn))
			}
		}
		c.Explore(an, fn)
	}
}
