package main

import (
	"go/types"
	"strings"

	"verif/checker/flow"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C26",
		Technique: "path-sensitive dataflow over the local store (the value of every path read, and of data, hash and file of every result and callback), over the directory mapping (what each round of its loop does to the path) and over the tables it uses",
		Rule:      "Everything the local store reads is the mapped path of the file asked for, the mapped directory of the repository asked for, or an entry of that directory joined to it; the mapping used is the store's own, which is set when it is made. The mapping replaces each key of the table by its directory, ended with a separator, in the given path, and does nothing else. In every result without an error the hash is the SHA-256 of the bytes of the one read, and the data are those bytes, converted exactly when conversion was asked for (files except TALs; all files of a repository).",
		Note:      "The order in which overlapping keys of the mapping are applied is not fixed by the property.",
		Run:       runC26})
}

// readSinks: functions that read a file or directory, with the index of the path.
var readSinks = map[string]int{
	"io/ioutil.ReadFile": 0, "os.ReadFile": 0, "io/ioutil.ReadDir": 0, "os.ReadDir": 0, "os.Open": 0, "os.OpenFile": 0, "os.Stat": -1, "os.Lstat": -1, "path/filepath.Glob": 0, "path/filepath.Walk": 0, "path/filepath.WalkDir": 0, "os.Readlink": 0, "os.DirFS": 0,
}

const mapperName = "sync/lib.GetLocalPath"
const pathName = "(*validator/pki.PKIFile).ComputePath"

func runC26(c *Ctx) {
	n := 0
	for _, name := range []string{"GetFileConv", "GetFile"} {
		if fn := c.Func("sync/lib", "*LocalFetch", name); fn != nil {
			storeRead(c, fn, name == "GetFile")
			n++
		}
	}
	if fn := c.Func("sync/lib", "*LocalFetch", "GetRepository"); fn != nil {
		storeList(c, fn)
		n++
	}
	// no other reader among the methods of the store
	seen := map[string]bool{"GetFileConv": true, "GetFile": true, "GetRepository": true}
	for _, fn := range moduleFuncs(c.P, "sync/lib") {
		if fn.Signature.Recv() == nil || !strings.HasSuffix(ownerName(fn.Signature.Recv().Type()), "sync/lib.LocalFetch") || seen[fn.Name()] || !fn.Object().Exported() {
			continue
		}
		for g := range staticReach(c.P, fn) {
			calls(g, func(in ssa.CallInstruction, nm string) {
				if _, ok := readSinks[nm]; ok {
					c.Fail("path", "reader "+fn.Name(), c.Pos(in), "%s reads %s for the store in a way that is not looked at", fname(fn), nm)
				}
			})
		}
	}
	mapping(c)
	mappingTables(c)
}

// mappedFile: the mapped path of a file.
func mappedFile(t, s, file *flow.Term) bool {
	return isCallTerm(t, mapperName) && isRef(t.Args[1], "MapDirectory") && refBase(t.Args[1]) == s &&
		isCallTerm(t.Args[0], pathName) && t.Args[0].Args[0] == file
}

func mappedDir(t, s, file *flow.Term) bool {
	return isCallTerm(t, mapperName) && isRef(t.Args[1], "MapDirectory") && refBase(t.Args[1]) == s && isRef(t.Args[0], "Repo") && refBase(t.Args[0]) == file
}

// readData: the bytes of a read: gives the read.
func readData(t *flow.Term) *flow.Term {
	t = strip(t)
	if t != nil && t.Op == flow.OExtract && t.Args[0].Op == flow.OCall && strings.HasSuffix(t.Args[0].Aux, ".ReadFile") {
		return t.Args[0]
	}
	return nil
}

// converted: the DER conversion of something.
func converted(t *flow.Term) *flow.Term {
	t = strip(t)
	if t != nil && t.Op == flow.OExtract && isCallTerm(t.Args[0], "validator/lib.BER2DER") {
		return t.Args[0].Args[0]
	}
	return nil
}

// hashedBytes: what the SHA-256 in a slice or array is computed of.
func hashedBytes(st *flow.State, t *flow.Term) *flow.Term {
	t = strip(t)
	for t != nil && t.Op == flow.OSlice {
		full := true
		for _, a := range t.Args[1:] {
			if a == nil || a.Op == flow.ONil {
				continue
			}
			if k, ok := a.IsInt(); !ok || k != 0 && k != 32 {
				full = false
			}
		}
		if !full {
			return nil
		}
		t = t.Args[0]
	}
	if t == nil {
		return nil
	}
	if p, ok := t.Typ.(*types.Pointer); ok {
		t = st.Load(t, p.Elem())
	}
	t = strip(t)
	if t == nil {
		return nil
	}
	if strings.HasPrefix(t.Aux, "sha256") || strings.HasSuffix(t.Aux, "sha256.Sum256") {
		return strip(t.Args[0])
	}
	return nil
}

// judgeRead: data and hash of one result; conv says whether conversion was asked for (nil: unknown).
func judgeRead(c *Ctx, st *flow.State, seek *flow.Term, pos, what string, conv func() (on, off bool)) (read *flow.Term) {
	data, sum := st.Path(seek, "Data"), st.Path(seek, "Sha256")
	raw := data
	isConv := false
	if x := converted(data); x != nil {
		raw, isConv = x, true
	}
	read = readData(raw)
	if !c.Expect(read != nil, "data", what+" data", pos, "the data returned are not those read: %s", data) {
		return nil
	}
	h := hashedBytes(st, sum)
	c.Expect(h != nil && h == strip(raw), "data", what+" hash", pos, "the hash returned is not the SHA-256 of the bytes read from disk: %s over %s", sum, h)
	on, off := conv()
	c.Expect(isConv && on || !isConv && off, "data", what+" conversion", pos, "the data are converted %v where conversion asked for is %v: %s", isConv, on, facts(st))
	return read
}

func storeOpaque(c *Ctx) func(*ssa.Function) bool {
	return opaque(mapperName, pathName, "validator/lib.BER2DER", "sync/lib.ExtractRsyncDomainModule")
}

// judgePaths: every path read is one of those allowed.
func judgePaths(c *Ctx, an *flow.Analyzer, ok func(st *flow.State, t *flow.Term, dir bool) bool, n *int) {
	an.Record = func(ev *flow.Event) bool { return false }
	an.OnEvent = func(st *flow.State, ev *flow.Event) {
		if ev.Kind != "call" {
			return
		}
		i, is := readSinks[short(ev.Name)]
		if !is || i < 0 {
			return
		}
		*n++
		t := ev.Args[i]
		c.Expect(ok(st, t, strings.HasSuffix(ev.Name, "ReadDir")), "path", short(ev.Name), c.evPos(ev), "the store reads something other than the mapped path of what was asked for: %s", t)
	}
}

func storeRead(c *Ctx, fn *ssa.Function, byType bool) {
	an := c.NewAnalyzer()
	an.Opaque = storeOpaque(c)
	args := an.ParamTerms(fn)
	w := an.W
	n, results := 0, 0
	judgePaths(c, an, func(st *flow.State, t *flow.Term, dir bool) bool { return !dir && mappedFile(t, args[0], args[1]) }, &n)
	tal, ok := pkiConst(c, "TYPE_TAL")
	if !ok {
		return
	}
	for _, e := range c.Explore(an, fn) {
		if e.Kind != "return" || len(e.Results) != 2 {
			c.Fail("data", fn.Name()+" end", c.Pos(e.Instr), "%s may end with %s", fn.Name(), e.Kind)
			continue
		}
		if e.St.NonNil(e.Results[1]) || e.St.IsNil(e.Results[0]) {
			continue
		}
		results++
		judgeRead(c, e.St, e.Results[0], c.Pos(e.Instr), fn.Name(), func() (on, off bool) {
			if !byType {
				on = hasLit(e.St, func(t *flow.Term, v bool) bool { return v && t == args[2] })
				off = hasLit(e.St, func(t *flow.Term, v bool) bool { return !v && t == args[2] })
				return
			}
			typ := e.St.Path(args[1], "Type")
			eq := flow.Lit(w.OrdEq(typ, w.Int(tal)))
			return e.St.Excludes(eq), e.St.Entails(eq)
		})
	}
	c.Expect(n > 0 && results > 0, "data", fn.Name()+" reads", c.PosOf(fn.Pos()), "%s reads nothing", fn.Name())
	c.Sample("%s: %d results", fn.Name(), results)
}

func pkiConst(c *Ctx, name string) (int64, bool) {
	if p := c.P.SSA["validator/pki"]; p != nil {
		if k, ok := p.Members[name].(*ssa.NamedConst); ok {
			return k.Value.Int64(), true
		}
	}
	c.Fail("anchor", name, "validator/pki", "the constant %s is gone", name)
	return 0, false
}

func storeList(c *Ctx, fn *ssa.Function) {
	an := c.NewAnalyzer()
	an.Opaque = storeOpaque(c)
	args := an.ParamTerms(fn)
	n, results := 0, 0
	// an entry of the directory: gives its name
	entry := func(t, s, file *flow.Term) bool {
		var parts []*flow.Term
		switch {
		case isCallTerm(t, "path/filepath.Join"):
			parts = joinParts(t)
		case t.Op == flow.OCat:
			parts = t.Args
		default:
			return false
		}
		if len(parts) < 2 || !mappedDir(parts[0], s, file) {
			return false
		}
		return entryName(parts[len(parts)-1], s, file)
	}
	judgePaths(c, an, func(st *flow.State, t *flow.Term, dir bool) bool {
		if dir {
			return mappedDir(t, args[0], args[1])
		}
		return entry(strip(t), args[0], args[1])
	}, &n)
	inner := an.OnEvent
	an.OnEvent = func(st *flow.State, ev *flow.Event) {
		inner(st, ev)
		if ev.Kind != "call" || ev.Callee != args[2] {
			return
		}
		results++
		pos := c.evPos(ev)
		read := judgeRead(c, st, ev.Args[1], pos, "entry", func() (bool, bool) { return true, false })
		if read == nil {
			return
		}
		p := st.Path(ev.Args[0], "Path")
		ok := p != nil && p.Op == flow.OCat && len(p.Args) >= 2 && isRef(p.Args[0], "Repo") && refBase(p.Args[0]) == args[1] && entryName(p.Args[len(p.Args)-1], args[0], args[1])
		if ok {
			r := strip(read.Args[0])
			var last *flow.Term
			if r.Op == flow.OCat {
				last = r.Args[len(r.Args)-1]
			} else {
				ps := joinParts(r)
				last = ps[len(ps)-1]
			}
			ok = last == p.Args[len(p.Args)-1]
		}
		c.Expect(ok, "data", "entry file", pos, "the data of an entry are given out under another name: %s for %s", p, read)
	}
	for _, e := range c.Explore(an, fn) {
		if e.Kind != "return" {
			c.Fail("data", fn.Name()+" end", c.Pos(e.Instr), "%s may end with %s", fn.Name(), e.Kind)
		}
	}
	c.Expect(n > 1 && results > 0, "data", fn.Name()+" reads", c.PosOf(fn.Pos()), "%s reads no entries or gives none out", fn.Name())
}

func joinParts(t *flow.Term) []*flow.Term {
	if len(t.Args) == 1 && t.Args[0].Op == flow.OSliceLit {
		return t.Args[0].Args
	}
	return t.Args
}

// entryName: the name of an entry of the mapped directory.
func entryName(t, s, file *flow.Term) bool {
	t = strip(t)
	if t == nil || t.Op != flow.OCall || !strings.HasSuffix(t.Aux, ").Name") {
		return false
	}
	l, _ := loopElem(t.Args[0])
	return l != nil && l.Op == flow.OExtract && l.Args[0].Op == flow.OCall && strings.HasSuffix(l.Args[0].Aux, ".ReadDir") && mappedDir(l.Args[0].Args[0], s, file)
}

// mapping: each round of the mapping replaces one key by its directory.
func mapping(c *Ctx) {
	fn := c.Func("sync/lib", "", "GetLocalPath")
	if fn == nil {
		return
	}
	an := c.NewAnalyzer()
	args := an.ParamTerms(fn)
	w := an.W
	type table struct{ key, val, ok *flow.Term }
	tables := map[loopKey]table{}
	an.Record = func(ev *flow.Event) bool { return false }
	an.OnEvent = func(st *flow.State, ev *flow.Event) {
		if ev.Kind == "next" && ev.Args[0] == args[1] {
			tables[loopKey{ev.Frame, ev.Instr.Block()}] = table{ev.Args[1], ev.Args[2], ev.Res}
		}
	}
	rec := recordBacks(an)
	exits := c.Explore(an, fn)
	backs := *rec
	// step: now is old with the key replaced by the directory
	step := func(st *flow.State, old, now *flow.Term, t table) bool {
		if now == old {
			return hasLit(st, func(l *flow.Term, v bool) bool {
				return !v && l.Op == flow.OCall && (l.Aux == "strings.HasPrefix" || l.Aux == "strings.Contains") && l.Args[0] == old && l.Args[1] == t.key
			})
		}
		dir := func(d *flow.Term) bool {
			sep := func(x *flow.Term) bool {
				if s, ok := x.IsStr(); ok {
					return s == "/"
				}
				return x.Any(func(y *flow.Term) bool { k, ok := y.IsInt(); return ok && k == 47 })
			}
			ends := hasLit(st, func(l *flow.Term, v bool) bool {
				return v && isCallTerm(l, "strings.HasSuffix") && l.Args[0] == t.val && sep(l.Args[1])
			})
			if d == t.val {
				return ends
			}
			if d.Op == flow.OCat && len(d.Args) == 2 && sep(d.Args[1]) {
				return d.Args[0] == t.val || endsCall(d.Args[0], "strings.TrimSuffix") && d.Args[0].Args[0] == t.val || endsCall(d.Args[0], "strings.TrimRight") && d.Args[0].Args[0] == t.val
			}
			return false
		}
		if isCallTerm(now, "strings.Replace") && now.Args[0] == old && now.Args[1] == t.key && dir(now.Args[2]) {
			k, ok := now.Args[3].IsInt()
			return ok && k != 0
		}
		if isCallTerm(now, "strings.ReplaceAll") {
			return now.Args[0] == old && now.Args[1] == t.key && dir(now.Args[2])
		}
		if now.Op == flow.OCat && len(now.Args) >= 2 {
			rest := now.Args[len(now.Args)-1]
			d := w.Cat(now.Args[:len(now.Args)-1]...)
			pre := hasLit(st, func(l *flow.Term, v bool) bool {
				return v && isCallTerm(l, "strings.HasPrefix") && l.Args[0] == old && l.Args[1] == t.key
			})
			if isCallTerm(rest, "strings.TrimPrefix") {
				return pre && rest.Args[0] == old && rest.Args[1] == t.key && dir(d)
			}
			if rest.Op == flow.OSlice && rest.Args[0] == old {
				return pre && rest.Args[1] == w.Len(t.key) && dir(d)
			}
		}
		return false
	}
	if !c.Expect(len(backs) > 0, "mapping", "loop", c.PosOf(fn.Pos()), "the mapping does not go through its table") {
		return
	}
	var phi *ssa.Phi
	for _, r := range backs {
		t, ok := tables[loopKey{r.Fr, r.H}]
		if !c.Expect(ok, "mapping", "loop", c.PosOf(firstPos(r.H)), "the mapping has a loop that does not go through its table") {
			continue
		}
		n := 0
		for p, v := range r.Vals {
			if p.Block() != r.H || !isStringT(p.Type()) {
				continue
			}
			n++
			phi = p
			for _, now := range r.St.Variants(v) {
				c.Expect(step(r.St, an.PhiSym(r.Fr, p), now, t), "mapping", "round", c.PosOf(firstPos(r.H)), "a round of the mapping does not replace the key by its directory: %s where %s", now, facts(r.St))
			}
		}
		c.Expect(n == 1, "mapping", "path", c.PosOf(firstPos(r.H)), "the mapping carries %d paths", n)
	}
	if phi == nil {
		return
	}
	for i, e := range phi.Edges {
		if !phi.Block().Dominates(phi.Block().Preds[i]) {
			c.Expect(e == ssa.Value(fn.Params[0]), "mapping", "start", c.PosOf(fn.Pos()), "the mapping does not start from the path it is given: %s", e)
		}
	}
	for _, e := range exits {
		if e.Kind != "return" {
			continue
		}
		done := false
		for k, t := range tables {
			sym := an.PhiSym(k.fr, phi)
			r := e.Results[0]
			done = done || r == sym && e.St.Excludes(flow.Lit(t.ok)) || r != sym && step(e.St, sym, r, t)
		}
		c.Expect(done, "mapping", "result", c.Pos(e.Instr), "the mapping gives something other than the path after all replacements: %s", e.Results[0])
	}
}

// mappingTables: what the tables of the mapping hold.
func mappingTables(c *Ctx) {
	made := 0
	storesField(c.P, "sync/lib", "LocalFetch", "MapDirectory", func(fn *ssa.Function, in *ssa.Store, addr *ssa.FieldAddr) {
		made++
		if strings.HasPrefix(fname(fn), "cmd/") || strings.HasPrefix(fname(fn), "(*cmd/") {
			for _, o := range origins(c.P, fn, in.Val) {
				c.Expect(o.Fn != nil && nameIs(o.Fn, "sync/lib.ParseMapDirectory"), "table", "set in "+fname(fn), c.Pos(in), "the directory mapping is replaced by something other than the parsed option")
			}
			return
		}
		al, ok := addr.X.(*ssa.Alloc)
		c.Expect(ok && al.Heap, "table", "set in "+fname(fn), c.Pos(in), "%s replaces the directory mapping of a store in use", fname(fn))
		mk, ok := in.Val.(*ssa.MakeMap)
		if !c.Expect(ok, "table", "made in "+fname(fn), c.Pos(in), "the directory mapping of a new store is not a new table") {
			return
		}
		n := 0
		for _, r := range *mk.Referrers() {
			u, ok := r.(*ssa.MapUpdate)
			if !ok {
				continue
			}
			n++
			k, is := u.Key.(*ssa.Const)
			c.Expect(is && k.Value != nil && strings.Trim(k.Value.ExactString(), "\"") == "rsync://" && len(fn.Params) == 1 && u.Value == ssa.Value(fn.Params[0]), "table", "entry in "+fname(fn), c.Pos(u), "the table of a new store does not map rsync:// to the base directory")
		}
		c.Expect(n == 1, "table", "entries in "+fname(fn), c.Pos(in), "the table of a new store has %d entries", n)
	})
	c.Expect(made > 0, "table", "made", "sync/lib", "no store has a directory mapping")
	for _, fn := range moduleFuncs(c.P) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var m ssa.Value
				switch x := in.(type) {
				case *ssa.MapUpdate:
					m = x.Map
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "delete" {
						m = x.Call.Args[0]
					}
				}
				if m == nil {
					continue
				}
				for _, o := range origins(c.P, fn, m) {
					if owner, f := fieldLoad(o.V); f == "MapDirectory" && strings.HasSuffix(owner, "sync/lib.LocalFetch") {
						c.Fail("table", "changed in "+fname(fn), c.Pos(in), "%s changes the directory mapping of a store in use", fname(fn))
					}
				}
			}
		}
	}
	parse := c.Func("sync/lib", "", "ParseMapDirectory")
	if parse == nil {
		return
	}
	an := c.NewAnalyzer()
	args := an.ParamTerms(parse)
	w := an.W
	an.Record = func(ev *flow.Event) bool { return false }
	sets := 0
	an.OnEvent = func(st *flow.State, ev *flow.Event) {
		if ev.Kind != "mapset" {
			return
		}
		sets++
		pos := c.evPos(ev)
		k, v := ev.Args[1], ev.Args[2]
		lk, ik := loopElem(k)
		lv, iv := loopElem(v)
		ok := lk != nil && lk == lv && ik == w.Zero0 && iv == w.Int(1) && splitOf(lk, "=") != nil
		if ok {
			el, _ := loopElem(splitOf(lk, "="))
			ok = el != nil && splitOf(el, ",") == args[0]
		} else if k.Op == flow.OExtract && v.Op == flow.OExtract && k.Args[0] == v.Args[0] && isCallTerm(k.Args[0], "strings.Cut") {
			el, _ := loopElem(k.Args[0].Args[0])
			ok = el != nil && splitOf(el, ",") == args[0] && k == w.Extract(k.Args[0], 0, k.Typ) && v == w.Extract(v.Args[0], 1, v.Typ)
		}
		c.Expect(ok, "table", "parsed entry", pos, "an entry of the mapping option is not read as URI=directory: %s -> %s", k, v)
	}
	c.Explore(an, parse)
	c.Expect(sets > 0, "table", "parsed", c.PosOf(parse.Pos()), "the mapping option is not read")
}

// splitOf: what was split at a separator.
func splitOf(t *flow.Term, sep string) *flow.Term {
	t = strip(t)
	if !isCallTerm(t, "strings.Split", "strings.SplitN") {
		return nil
	}
	if s, ok := t.Args[1].IsStr(); !ok || s != sep {
		return nil
	}
	return strip(t.Args[0])
}
