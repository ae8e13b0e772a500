package main

import (
	"go/token"
	"go/types"
	"strings"

	"verif/checker/flow"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C11",
		Technique: "taint-style sink enumeration over the whole module plus predicate dataflow over SSA: facts about the path at every file-system sink, unproven-panic obligations, argument rules for the rsync command",
		Rule:      "Every call in the module that creates, writes, links, renames or removes a file or directory, or runs a command, gets a path made only of operator options and constants, or one that is the cache option joined with a name proven local (filepath.IsLocal, and not the directory itself) or proven to start with the cache directory. On a path where the name is not proven local or not proven to be an rsync URL, nothing is created and the result is an error; the URL functions give a result only for rsync URLs; none of them can panic or end the process. The rsync command gets the URL, the proven directory and no option that copies links or devices.",
		Note:      "Existing symbolic links inside the cache that the operator made are outside the property.",
		Run:       runC11})
}

// fsSinks: index of the path argument of functions that change the file system.
var fsSinks = map[string][]int{
	"os.Mkdir": {0}, "os.MkdirAll": {0}, "os.MkdirTemp": {0}, "os.Create": {0}, "os.CreateTemp": {0}, "os.OpenFile": {0}, "os.WriteFile": {0},
	"os.Rename": {0, 1}, "os.Symlink": {0, 1}, "os.Link": {0, 1}, "os.Remove": {0}, "os.RemoveAll": {0}, "os.Truncate": {0}, "os.Chmod": {0}, "os.Chown": {0}, "os.Chtimes": {0}, "os.Chdir": {0},
	"io/ioutil.WriteFile": {0}, "io/ioutil.TempFile": {0}, "io/ioutil.TempDir": {0},
	"syscall.Open": {0}, "syscall.Mkdir": {0}, "syscall.Unlink": {0}, "syscall.Rename": {0, 1}, "syscall.Symlink": {0, 1}, "os.CopyFS": {0},
}

func isExec(n string) bool { return n == "os/exec.Command" || n == "os/exec.CommandContext" }

// operatorValue: v is made only of command line options, environment and constants.
func operatorValue(P *flow.Program, fn *ssa.Function, v ssa.Value, depth int) bool {
	if depth > 6 {
		return false
	}
	for _, s := range origins(P, fn, v) {
		switch x := s.V.(type) {
		case *ssa.Const:
		case *ssa.UnOp:
			if x.Op != token.MUL || !isOption(x.X) {
				return false
			}
		case *ssa.Call:
			n := callName(x.Common())
			if !strings.HasPrefix(n, "path/filepath.") && !strings.HasPrefix(n, "strings.") && !strings.HasPrefix(n, "path.") && n != "fmt.Sprintf" && n != "os.Getenv" {
				return false
			}
			for _, a := range x.Common().Args {
				if t, ok := a.Type().Underlying().(*types.Basic); ok && t.Info()&types.IsString != 0 {
					if !operatorValue(P, s.Fn, a, depth+1) {
						return false
					}
				} else if _, ok := a.Type().Underlying().(*types.Slice); ok {
					els, ok := sliceElems(a)
					if !ok {
						return false
					}
					for _, e := range els {
						if !operatorValue(P, s.Fn, e, depth+1) {
							return false
						}
					}
				}
			}
		case *ssa.BinOp:
			if !operatorValue(P, s.Fn, x.X, depth+1) || !operatorValue(P, s.Fn, x.Y, depth+1) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// isOption: the address is the cell of a command line option: *flagVar.
func isOption(addr ssa.Value) bool {
	ld, ok := addr.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return false
	}
	g, ok := ld.X.(*ssa.Global)
	return ok && flow.InitCall(g, "flag.") != ""
}

// sliceElems gives the elements of a slice made for a variadic call.
func sliceElems(v ssa.Value) ([]ssa.Value, bool) {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		if c, ok := v.(*ssa.Const); ok && c.IsNil() {
			return nil, true
		}
		return nil, false
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok || al.Referrers() == nil {
		return nil, false
	}
	var out []ssa.Value
	for _, r := range *al.Referrers() {
		switch x := r.(type) {
		case *ssa.IndexAddr:
			for _, rr := range *x.Referrers() {
				st, ok := rr.(*ssa.Store)
				if !ok || st.Addr != x {
					return nil, false
				}
				out = append(out, st.Val)
			}
		case *ssa.Slice, *ssa.DebugRef:
		default:
			return nil, false
		}
	}
	return out, true
}

// derivedFromParam: the value is computed from a parameter of its function by path and string functions only.
func derivedFromParam(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Parameter, *ssa.FreeVar:
		return true
	case *ssa.Phi:
		for _, e := range x.Edges {
			if derivedFromParam(e, seen) {
				return true
			}
		}
	case *ssa.BinOp:
		return derivedFromParam(x.X, seen) || derivedFromParam(x.Y, seen)
	case *ssa.Slice:
		if els, ok := sliceElems(x); ok {
			for _, e := range els {
				if derivedFromParam(e, seen) {
					return true
				}
			}
			return false
		}
		return derivedFromParam(x.X, seen)
	case *ssa.Convert:
		return derivedFromParam(x.X, seen)
	case *ssa.MakeInterface:
		return derivedFromParam(x.X, seen)
	case *ssa.Call:
		n := callName(x.Common())
		if strings.HasPrefix(n, "path/filepath.") || strings.HasPrefix(n, "path.") || strings.HasPrefix(n, "strings.") || n == "fmt.Sprintf" {
			for _, a := range x.Common().Args {
				if derivedFromParam(a, seen) {
					return true
				}
			}
		}
	}
	return false
}

func runC11(c *Ctx) {
	write := c.Func("cmd/octorpki", "*OctoRPKI", "WriteRsyncFileOnDisk")
	roots := map[*ssa.Function]bool{}
	if write != nil {
		roots[write] = true
	}
	var ascend func(fn *ssa.Function, seen map[*ssa.Function]bool)
	ascend = func(fn *ssa.Function, seen map[*ssa.Function]bool) {
		if seen[fn] {
			return
		}
		seen[fn] = true
		n := 0
		if nd := c.P.CG.Nodes[fn]; nd != nil && fn != write {
			for _, e := range nd.In {
				f := e.Caller.Func
				if f == fn || !c.P.InModule(f) || e.Site == nil {
					continue
				}
				n++
				up := false
				for _, a := range e.Site.Common().Args {
					if b, ok := a.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 && derivedFromParam(a, map[ssa.Value]bool{}) && !operatorValue(c.P, f, a, 0) {
						up = true
					}
				}
				if up && !urlGuard(f) {
					ascend(f, seen)
				} else {
					roots[f] = true
				}
			}
		}
		if n == 0 {
			roots[fn] = true
		}
	}
	// every sink of the module
	n, oper := 0, 0
	for _, fn := range moduleFuncs(c.P) {
		if fn.Synthetic != "" {
			continue
		}
		fn := fn
		calls(fn, func(in ssa.CallInstruction, name string) {
			idx := fsSinks[name]
			if isExec(name) {
				ascendArg(fn, in, roots, ascend)
				n++
				return
			}
			for _, i := range idx {
				n++
				a := in.Common().Args[i]
				if name == "os.OpenFile" {
					if k, ok := in.Common().Args[1].(*ssa.Const); ok && k.Value != nil && k.Int64() == 0 {
						continue
					}
				}
				if operatorValue(c.P, fn, a, 0) {
					oper++
					c.OK("operator", name+" in "+fname(fn))
					continue
				}
				ascendArg(fn, in, roots, ascend)
			}
		})
	}
	c.Expect(n > 0 && oper > 0, "sinks", "found", "", "no file is ever written")
	if len(roots) == 0 {
		c.Fail("sinks", "roots", "", "nothing of what the network sends is ever stored")
		return
	}
	for fn := range roots {
		confinedWrites(c, fn, fn == write)
	}
	// the URL functions
	for _, f := range []struct{ pkg, name string }{
		{"sync/lib", "ExtractFilePathFromRsyncURL"}, {"sync/lib", "ExtractFoldersPathFromRsyncURL"}, {"sync/lib", "ExtractRsyncDomainModule"}, {"cmd/octorpki", "ExtractRsyncDomain"},
	} {
		urlFunction(c, f.pkg, f.name)
	}
	c.AtLeast("contained", 2)
}

// urlGuard: the function turns a URL into a place in the cache itself.
func urlGuard(fn *ssa.Function) bool {
	hit := false
	calls(fn, func(_ ssa.CallInstruction, n string) {
		if n == "path/filepath.IsLocal" {
			hit = true
		}
	})
	return hit
}

// ascendArg finds the function in which the path of a sink can be judged.
func ascendArg(fn *ssa.Function, in ssa.CallInstruction, roots map[*ssa.Function]bool, ascend func(*ssa.Function, map[*ssa.Function]bool)) {
	for _, a := range in.Common().Args {
		if derivedFromParam(a, map[ssa.Value]bool{}) {
			ascend(fn, map[*ssa.Function]bool{})
			return
		}
	}
	roots[fn] = true
}

const rsyncScheme = "rsync://"

// isBase: the term is the cache directory option.
func isBase(t *flow.Term) bool {
	if isCallTerm(t, "path/filepath.Clean") && len(t.Args) == 1 {
		t = t.Args[0]
	}
	return t.Op == flow.ODeref && t.Args[0].Op == flow.ODeref && t.Args[0].Args[0].Op == flow.OGlobal && strings.HasSuffix(t.Args[0].Args[0].Aux, ".Basepath") ||
		t.Op == flow.ODeref && strings.HasSuffix(t.Args[0].String(), ".Basepath")
}

// operatorTerm: the term is made of options and constants.
func operatorTerm(t *flow.Term) bool {
	if _, ok := t.IsStr(); ok {
		return true
	}
	if t.Op == flow.ODeref && t.Args[0].Op == flow.ODeref && t.Args[0].Args[0].Op == flow.OGlobal {
		return true
	}
	if isBase(t) {
		return true
	}
	if isCallTerm(t, "path/filepath.Join", "path/filepath.Clean", "path/filepath.Dir") || t.Op == flow.OCat {
		for _, a := range t.Args {
			if !operatorTerm(a) {
				return false
			}
		}
		return true
	}
	return false
}

// contained: the path lies strictly inside the cache directory. self: the directory itself will do.
func contained(st *flow.State, t *flow.Term, self bool) bool {
	w := st.W()
	lit := func(name string, a ...*flow.Term) bool {
		return hasLit(st, func(x *flow.Term, v bool) bool {
			if !v || !isCallTerm(x, name) || len(x.Args) != len(a) {
				return false
			}
			for i := range a {
				if w.Shape(x.Args[i]) != w.Shape(a[i]) {
					return false
				}
			}
			return true
		})
	}
	if isCallTerm(t, "path/filepath.Dir") {
		return contained(st, t.Args[0], self) && self
	}
	if isCallTerm(t, "path/filepath.Clean") {
		t = t.Args[0]
	}
	if !isCallTerm(t, "path/filepath.Join") || len(t.Args) < 2 || !isBase(t.Args[0]) {
		return false
	}
	if len(t.Args) == 2 {
		p := t.Args[1]
		base := p
		if isCallTerm(p, "path/filepath.Clean", "path/filepath.FromSlash") {
			base = p.Args[0]
		}
		for _, x := range []*flow.Term{p, base} {
			if !lit("path/filepath.IsLocal", x) {
				continue
			}
			if self {
				return true
			}
			for _, y := range []*flow.Term{x, p, base} {
				cl := w.Call("path/filepath.Clean", types.Typ[types.String], y)
				if isCallTerm(y, "path/filepath.Clean") {
					cl = y
				}
				dot := false
				lits(st, func(l *flow.Term, v bool) {
					if !v && l.Op == flow.OEq && len(l.Args) == 2 && (w.Shape(l.Args[0]) == w.Shape(cl) && l.Args[1] == w.Str(".") || w.Shape(l.Args[1]) == w.Shape(cl) && l.Args[0] == w.Str(".")) {
						dot = true
					}
				})
				if dot {
					return true
				}
			}
		}
	}
	// proven by prefix
	ok := false
	lits(st, func(x *flow.Term, v bool) {
		if v && isCallTerm(x, "strings.HasPrefix") && w.Shape(x.Args[0]) == w.Shape(t) {
			p := x.Args[1]
			if p.Op == flow.OCat && len(p.Args) == 2 && isCallTerm(p.Args[0], "path/filepath.Clean") && isBase(p.Args[0].Args[0]) && isSeparator(p.Args[1]) {
				ok = true
			}
		}
	})
	return ok
}

func isSeparator(t *flow.Term) bool {
	s, ok := t.IsStr()
	return ok && s == "/"
}

// confinedWrites: the sinks reached from fn get contained paths; anything else is refused.
func confinedWrites(c *Ctx, fn *ssa.Function, anchor bool) {
	an := c.NewAnalyzer()
	args := an.ParamTerms(fn)
	w := an.W
	an.MaxFacts = 40
	an.Record = func(ev *flow.Event) bool { return ev.Kind == "call" && (fsSinks[ev.Name] != nil || isExec(ev.Name)) }
	sinks := 0
	urlProven := func(st *flow.State, u *flow.Term) bool {
		return st.Entails(flow.Lit(w.Call("strings.HasPrefix", types.Typ[types.Bool], u, w.Str(rsyncScheme)))) || hasLit(st, func(t *flow.Term, v bool) bool {
			return v && isCallTerm(t, "strings.HasPrefix") && w.Shape(t.Args[0]) == w.Shape(u) && isStr(t.Args[1], rsyncScheme)
		})
	}
	an.OnEvent = func(st *flow.State, ev *flow.Event) {
		if ev.Kind != "call" {
			return
		}
		pos := c.evPos(ev)
		if isExec(ev.Name) {
			sinks++
			commandArgs(c, st, ev, pos, urlProven)
			return
		}
		for _, i := range fsSinks[ev.Name] {
			p := ev.Args[i]
			if operatorTerm(p) {
				continue
			}
			sinks++
			dirs := ev.Name == "os.MkdirAll" || ev.Name == "os.Mkdir"
			ok := contained(st, p, dirs && isCallTerm(p, "path/filepath.Dir"))
			c.Expect(ok, "contained", short(ev.Name)+" from "+fname(fn), pos, "%s is called on a path not proven to lie inside the cache directory: %s, knowing %s", ev.Name, p, facts(st))
		}
	}
	an.OnOblig = func(o flow.Oblig) {
		switch o.Kind {
		case "index", "slice", "div", "nilmap", "panic", "fatal":
			if strings.HasPrefix(o.Kind, "nil") {
				return
			}
			c.Expect(o.OK, "no crash", o.Kind+" in "+fname(o.Frame.Fn), c.Pos(o.Instr), "a name can stop the process (%s): %s, knowing %s", o.Kind, o.Term, facts(o.State))
		}
	}
	for _, e := range c.Explore(an, fn) {
		pos := c.Pos(e.Instr)
		if e.Kind != "return" {
			c.Fail("no crash", "exit of "+fname(fn), pos, "%s ends in %s instead of an error: %s", fname(fn), e.Kind, facts(e.St))
			continue
		}
		if !anchor {
			continue
		}
		var wrote bool
		for _, ev := range e.St.Events() {
			if ev.Kind == "call" && (strings.HasSuffix(ev.Name, "WriteFile") || ev.Name == "os.Create" || ev.Name == "os.OpenFile" || ev.Name == "os.Rename") && !ev.May {
				wrote = true
			}
		}
		if e.St.NonNil(e.Results[0]) {
			c.OK("refused", "error")
			continue
		}
		c.Expect(wrote && urlProven(e.St, args[1]), "refused", "error", pos, "%s reports success without having stored an rsync URL's file: %s", fname(fn), facts(e.St))
	}
	c.Expect(sinks > 0, "sinks", fname(fn), c.PosOf(fn.Pos()), "nothing is written from %s", fname(fn))
}

func isStr(t *flow.Term, s string) bool {
	x, ok := t.IsStr()
	return ok && x == s
}

// commandArgs: the rsync command runs on a proven URL and directory, without options that copy links.
func commandArgs(c *Ctx, st *flow.State, ev *flow.Event, pos string, urlProven func(*flow.State, *flow.Term) bool) {
	i := 0
	if ev.Name == "os/exec.CommandContext" {
		i = 1
	}
	if len(ev.Args) != i+2 || ev.Args[i+1].Op != flow.OSliceLit {
		c.Fail("command", "arguments", pos, "the arguments of the command cannot be followed: %s", ev.Args)
		return
	}
	c.Expect(operatorTerm(ev.Args[i]), "command", "program", pos, "the program run is not an option or a constant: %s", ev.Args[i])
	var rest []*flow.Term
	for _, a := range ev.Args[i+1].Args {
		s, ok := a.IsStr()
		if !ok || !strings.HasPrefix(s, "-") {
			rest = append(rest, a)
			continue
		}
		bad := ""
		if strings.HasPrefix(s, "--") {
			n := strings.SplitN(s, "=", 2)[0]
			switch n {
			case "--links", "--archive", "--keep-dirlinks", "--relative", "--devices", "--specials", "--backup", "--backup-dir", "--copy-devices", "--write-devices", "--temp-dir", "--partial-dir", "--log-file", "--no-implied-dirs", "--trust-sender", "--files-from", "--daemon", "--insecure-links":
				bad = n
			}
		} else {
			for _, l := range s[1:] {
				if strings.ContainsRune("laKRDbT", l) {
					bad = "-" + string(l)
				}
			}
		}
		c.Expect(bad == "", "command", "option "+s, pos, "rsync is run with %s, which lets a repository create links, devices or files elsewhere", bad)
	}
	if !c.Expect(len(rest) == 2, "command", "operands", pos, "the command is not run on one source and one directory: %s", ev.Args[i+1]) {
		return
	}
	c.Expect(urlProven(st, rest[0]), "command", "source", pos, "rsync is run on something not proven to be an rsync URL: %s, knowing %s", rest[0], facts(st))
	c.Expect(contained(st, rest[1], false), "contained", "target of rsync", pos, "rsync is run on a directory not proven to lie inside the cache directory: %s, knowing %s", rest[1], facts(st))
}

// urlFunction: gives a result without error only for rsync URLs, and cannot panic.
func urlFunction(c *Ctx, pkg, name string) {
	fn := c.Func(pkg, "", name)
	if fn == nil {
		return
	}
	an := c.NewAnalyzer()
	args := an.ParamTerms(fn)
	w := an.W
	an.OnOblig = func(o flow.Oblig) {
		c.Expect(o.OK, "no crash", o.Kind+" in "+fname(o.Frame.Fn), c.Pos(o.Instr), "a name can stop the process (%s): %s, knowing %s", o.Kind, o.Term, facts(o.State))
	}
	n := 0
	for _, e := range c.Explore(an, fn) {
		if e.Kind != "return" {
			c.Fail("no crash", "exit of "+name, c.Pos(e.Instr), "%s ends in %s", name, e.Kind)
			continue
		}
		err := e.Results[len(e.Results)-1]
		if e.St.NonNil(err) {
			continue
		}
		n++
		ok := hasLit(e.St, func(t *flow.Term, v bool) bool {
			return v && isCallTerm(t, "strings.HasPrefix") && w.Shape(t.Args[0]) == w.Shape(args[0]) && isStr(t.Args[1], rsyncScheme)
		})
		c.Expect(ok, "rsync URL", name, c.Pos(e.Instr), "%s gives a result for a name not proven to be an rsync URL: %s", name, facts(e.St))
		// what it gives cannot step out of the host it is for
		if name == "ExtractRsyncDomainModule" {
			dots := 0
			for _, r := range e.Results[:2] {
				if r.Op == flow.OCat {
					dots++
				}
			}
			c.Expect(dots == 2, "rsync URL", name+" value", c.Pos(e.Instr), "%s gives something else than host and module: %s", name, e.Results)
		}
	}
	c.Expect(n > 0, "rsync URL", name+" accepts", c.PosOf(fn.Pos()), "%s never gives a result", name)
}
