package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"verif/checker/flow"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C27",
		Technique: "value-flow analysis from every option to the calls and fields it is for, constant propagation of the defaults, and path-sensitive analysis of the code that the boolean options guard, in both senses",
		Rule:      "Each option has its documented default, is read only after the command line was parsed and changed only by raising a number below one to one. Every exploration runs with the hash, manifest and CMS options in the manager's and decoder's fields and with the manifest option negated; the hash of a file is compared and its manifest's authority invalidated exactly under these; strict CMS decides whether a decoder demands matching signatures. RRDP runs in a round if and only if it is on; a failed RRDP fetch or trust anchor download falls back to rsync only with failover on; an rsync process runs under the timeout and binary given; as many workers are started as configured; the two filters are applied if filtering is on and only then; a list is signed with the key of the file given if signing is on and only then; data is withheld and a one-off result delayed for stability only if waiting is on; the rounds until stable are bounded by the number given. The paths, addresses, intervals and names given arrive unchanged at the calls that use them.",
		Note:      "What these mechanisms do beyond being switched is decided by the properties of their own (C05, C06, C10, C15, C16, C17, C19, C20, C22). Logging, tracing, profiling and Sentry options are left out.",
		Run:       runC27})
}

const localT = "cmd/localrpki"

// documented: the default of each option, as its constant.
var documented = map[string]map[string]string{
	octoT: {
		"allow.root": "false", "manifest.use": "true", "strict.manifests": "true", "strict.hash": "true", "strict.cms": "false",
		"filter": "true", "max.iterations": "32", "rsync.timeout": "1200000000000", "rrdp": "true", "rrdp.failover": "true",
		"output.wait": "true", "output.sign": "true", "output.sign.validity": "3600000000000", "refresh": "1200000000000",
		"cors.creds": "false", "max_concurrent_retrievals": "100", "mode": `"server"`, "cache": `"cache/"`, "output.sign.key": `"private.pem"`,
	},
	localT: {"manifest.use": "true", "strict.manifests": "true", "strict.hash": "true", "strict.cms": "false", "valid.time": `"now"`},
}

func runC27(c *Ctx) {
	c27Defaults(c)
	c27Reads(c)
	c27Values(c)
	c27Managers(c)
	c27Explore(c)
	c27Decoders(c)
	c27Round(c)
	c27Failover(c)
	c27Workers(c)
	c27List(c)
	c27Wait(c)
	c22Rounds(c)
}

// c27Defaults: the defaults of the options.
func c27Defaults(c *Ctx) {
	for _, pkg := range []string{octoT, localT} {
		for name, want := range documented[pkg] {
			g := optionVar(c.P, pkg, name)
			if !c.Expect(g != nil, "default", pkg+" "+name, "", "there is no option %s in %s", name, pkg) {
				continue
			}
			call := flagCall(g)
			got := "?"
			i := 1
			if strings.HasSuffix(callName(call.Common()), "Var") {
				i = 2
			}
			if k, ok := call.Call.Args[i].(*ssa.Const); ok && k.Value != nil {
				got = k.Value.ExactString()
			}
			c.Expect(got == want, "default", pkg+" "+name, c.Pos(call), "the default of %s is %s, documented is %s", name, got, want)
		}
	}
}

// optionGlobals: the variables of the options of a package, with their names.
func optionGlobals(P *flow.Program, pkg string) map[*ssa.Global]string {
	out := map[*ssa.Global]string{}
	p := P.SSA[pkg]
	if p == nil {
		return out
	}
	for _, m := range p.Members {
		g, ok := m.(*ssa.Global)
		if !ok {
			continue
		}
		call := flagCall(g)
		if call == nil {
			continue
		}
		for _, a := range call.Call.Args[:min(2, len(call.Call.Args))] {
			if k, ok := a.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
				out[g] = constant.StringVal(k.Value)
				break
			}
		}
	}
	return out
}

// c27Reads: options are read after the command line is parsed, and not written.
func c27Reads(c *Ctx) {
	for _, pkg := range []string{octoT, localT} {
		opts := optionGlobals(c.P, pkg)
		byVal := map[ssa.Value]string{}
		for g, n := range opts {
			byVal[g] = n
		}
		main := c.Func(pkg, "", "main")
		if main == nil {
			continue
		}
		reads := map[*ssa.Function][]ssa.Instruction{}
		inInit := map[*ssa.Function]bool{}
		for _, fn := range moduleFuncs(c.P, pkg) {
			if fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#") {
				for f := range staticReach(c.P, fn) {
					inInit[f] = true
				}
			}
		}
		for _, fn := range moduleFuncs(c.P, pkg) {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						name := byVal[*op]
						if name == "" {
							continue
						}
						where := fname(fn) + " " + name
						switch x := in.(type) {
						case *ssa.Store:
							c.Expect(x.Addr == *op && flagCall(x.Addr.(*ssa.Global)) == x.Val, "read", where+" variable", c.Pos(in), "the variable of the option %s is changed or passed on", name)
						case *ssa.UnOp:
							for _, r := range *x.Referrers() {
								switch y := r.(type) {
								case *ssa.DebugRef:
								case *ssa.UnOp:
									reads[fn] = append(reads[fn], y)
									c.Expect(!inInit[fn], "read", where+" early", c.Pos(y), "the option %s is read before the command line was parsed", name)
								case *ssa.Store:
									c.Expect(y.Addr == x && raised(c, y, *op), "read", where+" written", c.Pos(y), "the option %s is changed to something else than what was given", name)
								default:
									rs, ok := byAddress(c, y, x, 0)
									for _, r := range rs {
										reads[r.Parent()] = append(reads[r.Parent()], r)
									}
									c.Expect(ok, "read", where+" passed", c.Pos(y), "the option %s is passed on by address, its value cannot be followed", name)
									c.Expect(!inInit[fn], "read", where+" early", c.Pos(y), "the option %s is read before the command line was parsed", name)
								}
							}
						default:
							c.Fail("read", where+" passed", c.Pos(in), "the option %s is passed on by address, its value cannot be followed", name)
						}
					}
				}
			}
		}
		// the parsing comes first
		var parse ssa.Instruction
		calls(main, func(in ssa.CallInstruction, n string) {
			if n == "flag.Parse" {
				parse = in
			}
		})
		if !c.Expect(parse != nil, "read", pkg+" parse", c.PosOf(main.Pos()), "main does not parse the command line") {
			continue
		}
		bad := ""
		pos := c.Pos(parse)
		for _, b := range main.Blocks {
			for i, in := range b.Instrs {
				first := parse.Block() == b && i < instrIndex(b, parse) || parse.Block() != b && !parse.Block().Dominates(b)
				if !first {
					continue
				}
				for _, r := range reads[main] {
					if r == in {
						bad, pos = "an option", c.Pos(in)
					}
				}
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() != nil {
					for f := range staticReach(c.P, ci.Common().StaticCallee()) {
						if len(reads[f]) > 0 {
							bad, pos = fname(f), c.Pos(in)
						}
					}
				}
			}
		}
		c.Expect(bad == "", "read", pkg+" parse", pos, "%s is read or called before the command line was parsed", bad)
	}
	c.AtLeast("read", 30)
}

// byAddress: what a function of the module does with an option of which it is given the address: it
// reads it, or raises it to a minimum.
func byAddress(c *Ctx, in ssa.Instruction, addr ssa.Value, depth int) (reads []ssa.Instruction, ok bool) {
	call, isCall := in.(ssa.CallInstruction)
	if !isCall || depth > 5 {
		return nil, false
	}
	g := call.Common().StaticCallee()
	if g == nil || !c.P.InModule(g) || len(g.Blocks) == 0 {
		return nil, false
	}
	for i, a := range call.Common().Args {
		if a != addr {
			continue
		}
		p := g.Params[i]
		for _, r := range *p.Referrers() {
			switch y := r.(type) {
			case *ssa.DebugRef:
			case *ssa.UnOp:
				reads = append(reads, y)
			case *ssa.Store:
				if y.Addr != p || !raised(c, y, p) {
					return nil, false
				}
			default:
				rs, ok := byAddress(c, y, p, depth+1)
				if !ok {
					return nil, false
				}
				reads = append(reads, rs...)
			}
		}
	}
	return append(reads, in), true
}

// raised: the store sets a number that is below a positive constant to that constant; the number is
// that which g holds the address of.
func raised(c *Ctx, st *ssa.Store, g ssa.Value) bool {
	k, ok := intConst(st.Val)
	if !ok || k < 1 {
		return false
	}
	for d := st.Block(); d.Idom() != nil; d = d.Idom() {
		q := d.Idom()
		iff, ok := q.Instrs[len(q.Instrs)-1].(*ssa.If)
		if !ok || q.Succs[0] != d || len(d.Preds) != 1 {
			continue
		}
		b, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		u, ok := b.X.(*ssa.UnOp)
		if !ok {
			continue
		}
		ptr := u.X
		if ld, ok := ptr.(*ssa.UnOp); ok {
			ptr = ld.X
		}
		n, isK := intConst(b.Y)
		if ptr == g && isK && (b.Op == token.LSS && n <= k || b.Op == token.LEQ && n < k || b.Op == token.EQL && n == 0 && k == 1) {
			return true
		}
	}
	return false
}

// arrives: the options a value is made of, following fields to what is stored in them; plain says
// that nothing but one option and constants goes into it.
func arrives(c *Ctx, fn *ssa.Function, v ssa.Value) (opts map[*ssa.Global]bool, other bool) {
	opts = map[*ssa.Global]bool{}
	seen := map[ssa.Value]bool{}
	var rec func(fn *ssa.Function, v ssa.Value, depth int)
	rec = func(fn *ssa.Function, v ssa.Value, depth int) {
		if seen[v] {
			return
		}
		seen[v] = true
		if depth > 20 {
			other = true
			return
		}
		for _, o := range originsIn(c.P, fn, v, true) {
			switch x := o.V.(type) {
			case *ssa.Const:
			case *ssa.BinOp:
				rec(o.Fn, x.X, depth+1)
				rec(o.Fn, x.Y, depth+1)
			case *ssa.UnOp:
				if ld, ok := x.X.(*ssa.UnOp); ok && isOption(ld) {
					opts[ld.X.(*ssa.Global)] = true
					continue
				}
				if fa, ok := x.X.(*ssa.FieldAddr); ok {
					n := 0
					own, f := fieldAddrName(fa)
					storesField2(c.P, own[strings.LastIndex(own, "/")+1:], func(g *ssa.Function, in *ssa.Store, name string) {
						if name == f {
							n++
							rec(g, in.Val, depth+1)
						}
					})
					if n > 0 {
						continue
					}
				}
				if ia, ok := x.X.(*ssa.IndexAddr); ok {
					rec(o.Fn, ia.X, depth+1)
					continue
				}
				other = true
			case *ssa.Call:
				n := callName(&x.Call)
				if n == "strings.Split" || n == "path/filepath.Clean" || n == "strings.TrimSpace" || n == "fmt.Sprintf" {
					rec(o.Fn, x.Call.Args[0], depth+1)
					continue
				}
				other = true
			default:
				other = true
			}
		}
	}
	rec(fn, v, 0)
	return
}

// sink: a place that an option is for.
type sink struct {
	pkg, option string
	what        string
	every       bool // all such places are for the option
	args        func(fn *ssa.Function, in ssa.Instruction) ssa.Value
}

func argOf(names string, i int) func(fn *ssa.Function, in ssa.Instruction) ssa.Value {
	return func(fn *ssa.Function, in ssa.Instruction) ssa.Value {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return nil
		}
		for _, n := range strings.Fields(names) {
			if callName(ci.Common()) == n && i < len(ci.Common().Args) {
				return ci.Common().Args[i]
			}
		}
		return nil
	}
}

func fieldStore(owner, field string) func(fn *ssa.Function, in ssa.Instruction) ssa.Value {
	return func(fn *ssa.Function, in ssa.Instruction) ssa.Value {
		st, ok := in.(*ssa.Store)
		if !ok {
			return nil
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok {
			return nil
		}
		o, n := fieldAddrName(fa)
		if n == field && strings.HasSuffix(o, owner) {
			return st.Val
		}
		return nil
	}
}

// c27Values: the values given arrive at what uses them.
func c27Values(c *Ctx) {
	const open = "os.Open os.ReadFile io/ioutil.ReadFile os.OpenFile"
	const write = "os.WriteFile io/ioutil.WriteFile os.Create os.OpenFile"
	sinks := []sink{
		{octoT, "rsync.bin", "rsync binary", true, argOf("os/exec.CommandContext", 1)},
		{octoT, "cache", "cache directory", true, argOf("sync/lib.NewLocalFetch", 0)},
		{octoT, "useragent", "user agent", true, func(fn *ssa.Function, in ssa.Instruction) ssa.Value {
			v := argOf("(net/http.Header).Set", 2)(fn, in)
			if v == nil {
				return nil
			}
			if k, ok := in.(ssa.CallInstruction).Common().Args[1].(*ssa.Const); ok && strings.EqualFold(constant.StringVal(k.Value), "user-agent") {
				return v
			}
			return nil
		}},
		{octoT, "refresh", "interval", true, argOf("time.After time.Sleep time.NewTimer time.Tick time.NewTicker", 0)},
		{octoT, "output.sign.key", "key file", false, argOf(open, 0)},
		{octoT, "rrdp.file", "RRDP state read", false, argOf(open, 0)},
		{octoT, "rrdp.file", "RRDP state written", false, argOf(write, 0)},
		{octoT, "output.roa", "output file", false, argOf(write, 0)},
		{octoT, "http.addr", "address", true, argOf("net/http.ListenAndServe", 0)},
		{octoT, "cors.origins", "CORS origins", true, fieldStore("cors.Options", "AllowedOrigins")},
		{octoT, "cors.creds", "CORS credentials", true, fieldStore("cors.Options", "AllowCredentials")},
		{octoT, "ct.timeout", "log server timeout", false, fieldStore("http.Client", "Timeout")},
		{octoT, "loglevel", "log level", true, argOf("github.com/sirupsen/logrus.ParseLevel", 0)},
		{octoT, "filter", "filter", true, fieldStore("octorpki.OctoRPKI", "Filter")},
		{octoT, "ct", "certificate transparency", true, fieldStore("octorpki.OctoRPKI", "DoCT")},
		{octoT, "ct.addr", "log server", true, fieldStore("octorpki.OctoRPKI", "CTPath")},
		{octoT, "tal.name", "names", true, fieldStore("octorpki.OctoRPKI", "TalNames")},
		{octoT, "tal.root", "trust anchors", false, fieldStore("pki.PKIFile", "Path")},
		{localT, "tal.root", "trust anchors", false, fieldStore("pki.PKIFile", "Path")},
		{localT, "map.dir", "map", true, argOf("sync/lib.ParseMapDirectory", 0)},
		{localT, "output", "output file", true, argOf(write, 0)},
		{localT, "loglevel", "log level", true, argOf("github.com/sirupsen/logrus.ParseLevel", 0)},
	}
	for _, s := range sinks {
		g := optionVar(c.P, s.pkg, s.option)
		if !c.Expect(g != nil, "value", s.pkg+" "+s.option, "", "there is no option %s in %s", s.option, s.pkg) {
			continue
		}
		linked := imports(g.Pkg.Pkg)
		hits := 0
		for _, fn := range moduleFuncs(c.P) {
			if fn.Pkg == nil || !linked[fn.Pkg.Pkg] || fn.Pkg.Pkg.Name() == "main" && fn.Pkg != g.Pkg {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					v := s.args(fn, in)
					if v == nil {
						continue
					}
					opts, other := arrives(c, fn, v)
					ok := len(opts) == 1 && opts[g] && !other
					if ok {
						hits++
						c.OK("value", s.option+" is the "+s.what+" in "+fname(fn))
					} else if s.every {
						c.Fail("value", s.option+" "+s.what+" "+fname(fn), c.Pos(in), "the %s is not what -%s says", s.what, s.option)
					}
				}
			}
		}
		c.Expect(hits > 0, "value", s.option+" "+s.what, "", "-%s does not become the %s", s.option, s.what)
	}
	c27Timeout(c)
	c27Validity(c)
	c27Time(c)
	c27Routes(c)
}

// c27Timeout: an rsync process runs under the timeout.
func c27Timeout(c *Ctx) {
	g := optionVar(c.P, octoT, "rsync.timeout")
	n := 0
	for _, fn := range moduleFuncs(c.P) {
		if fn.Pkg == nil || fn.Pkg.Pkg.Name() == "main" && fn.Pkg != g.Pkg {
			continue
		}
		calls(fn, func(in ssa.CallInstruction, name string) {
			if name != "os/exec.CommandContext" && name != "os/exec.Command" {
				return
			}
			n++
			ok := name == "os/exec.CommandContext"
			if ok {
				for _, o := range originsIn(c.P, fn, in.Common().Args[0], true) {
					v := o.V
					if x, isX := v.(*ssa.Extract); isX {
						v = x.Tuple
					}
					call, isCall := v.(*ssa.Call)
					if !isCall {
						ok = false
						continue
					}
					for _, t := range timeoutsOf(c, o.Fn, call) {
						if t.V == nil {
							ok = false
							continue
						}
						opts, other := arrives(c, t.Fn, t.V)
						ok = ok && len(opts) == 1 && opts[g] && !other && directly(c, t.Fn, t.V)
					}
				}
			}
			c.Expect(ok, "value", "rsync.timeout in "+fname(fn), c.Pos(in), "a process does not run under the timeout that -rsync.timeout gives")
		})
	}
	c.Expect(n > 0, "value", "rsync.timeout", "", "no process is run")
}

// timeoutsOf: how long after now the context that a call makes ends.
func timeoutsOf(c *Ctx, fn *ssa.Function, call *ssa.Call) []source {
	switch callName(&call.Call) {
	case "context.WithTimeout", "context.WithTimeoutCause":
		return []source{{call.Call.Args[1], fn}}
	case "context.WithDeadline", "context.WithDeadlineCause":
		var out []source
		for _, o := range originsIn(c.P, fn, call.Call.Args[1], true) {
			d := source{nil, o.Fn}
			if add, ok := o.V.(*ssa.Call); ok && callName(&add.Call) == "(time.Time).Add" {
				d.V = add.Call.Args[1]
				for _, n := range originsIn(c.P, o.Fn, add.Call.Args[0], true) {
					if now, ok := n.V.(*ssa.Call); !ok || callName(&now.Call) != "time.Now" {
						d.V = nil
					}
				}
			}
			out = append(out, d)
		}
		return out
	}
	return []source{{nil, fn}}
}

// c27Validity: a list is valid as long as its option says.
func c27Validity(c *Ctx) {
	g := optionVar(c.P, octoT, "output.sign.validity")
	if !c.Expect(g != nil, "value", "output.sign.validity option", "", "the option output.sign.validity is not found") {
		return
	}
	n := 0
	store := fieldStore("prefixfile.MetaData", "Valid")
	for _, fn := range moduleFuncs(c.P, octoT) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				v := store(fn, in)
				if v == nil {
					continue
				}
				n++
				opts := map[*ssa.Global]bool{}
				bad := false
				var rec func(fn *ssa.Function, v ssa.Value, depth int)
				rec = func(fn *ssa.Function, v ssa.Value, depth int) {
					for _, o := range originsIn(c.P, fn, v, true) {
						call, ok := o.V.(*ssa.Call)
						name := ""
						if ok {
							name = callName(&call.Call)
						}
						switch {
						case name == "(time.Time).Add":
							os, other := arrives(c, o.Fn, call.Call.Args[1])
							bad = bad || other || len(os) != 1 || !directly(c, o.Fn, call.Call.Args[1])
							for g := range os {
								opts[g] = true
							}
						case depth < 5 && (name == "(time.Time).Unix" || name == "(time.Time).UTC"):
							rec(o.Fn, call.Call.Args[0], depth+1)
						default:
							bin, ok := o.V.(*ssa.BinOp)
							if !ok || bin.Op != token.ADD || depth > 5 {
								bad = true
								continue
							}
							// seconds added to a number of seconds
							found := false
							for _, x := range []ssa.Value{bin.X, bin.Y} {
								for g := range optionsIn(c, o.Fn, x) {
									opts[g], found = true, true
								}
							}
							bad = bad || !found
						}
					}
				}
				rec(fn, v, 0)
				c.Expect(!bad && len(opts) == 1 && opts[g], "value", "output.sign.validity in "+fname(fn), c.Pos(in), "the end of the validity is not what -output.sign.validity gives")
			}
		}
	}
	c.Expect(n > 0, "value", "output.sign.validity", "", "no list is given an end of its validity")
	// the answer to a request for the list is kept as long as the list is valid
	serve := c.Func(octoT, "*OctoRPKI", "ServeROAs")
	if serve == nil {
		return
	}
	for fn := range staticReach(c.P, serve) {
		calls(fn, func(in ssa.CallInstruction, n string) {
			for _, a := range in.Common().Args {
				if a.Type().String() != "time.Duration" || !strings.HasPrefix(n, "(time.") {
					continue
				}
				os, _ := arrives(c, fn, a)
				for o := range os {
					c.Expect(o == g, "value", "output.sign.validity served in "+fname(fn), c.Pos(in), "how long the answer may be kept is computed from the option %s", o.Name())
				}
			}
		})
	}
}

// optionsIn: the options that a number is computed from.
func optionsIn(c *Ctx, fn *ssa.Function, v ssa.Value) map[*ssa.Global]bool {
	out := map[*ssa.Global]bool{}
	for _, o := range originsIn(c.P, fn, v, true) {
		call, ok := o.V.(*ssa.Call)
		if ok && callName(&call.Call) == "(time.Duration).Seconds" {
			os, _ := arrives(c, o.Fn, call.Call.Args[0])
			for g := range os {
				out[g] = true
			}
		}
		if b, ok := o.V.(*ssa.BinOp); ok && b.Op == token.QUO {
			if k, ok := intConst(b.Y); ok && k == 1000000000 {
				os, _ := arrives(c, o.Fn, b.X)
				for g := range os {
					out[g] = true
				}
			}
		}
	}
	return out
}

// directly: the value is the option itself.
func directly(c *Ctx, fn *ssa.Function, v ssa.Value) bool {
	for _, o := range originsIn(c.P, fn, v, true) {
		u, ok := o.V.(*ssa.UnOp)
		if !ok || !isOption(u.X) {
			return false
		}
	}
	return true
}

// c27Routes: the paths lead to the handlers.
func c27Routes(c *Ctx) {
	want := map[string]string{"http.info": "ServeInfo", "http.health": "ServeHealth", "output.roa": "ServeROAs"}
	found := map[string]bool{}
	byOpt := map[*ssa.Global]string{}
	for n := range want {
		byOpt[optionVar(c.P, octoT, n)] = n
	}
	byOpt[optionVar(c.P, octoT, "http.metrics")] = "http.metrics"
	for _, fn := range moduleFuncs(c.P, octoT) {
		calls(fn, func(in ssa.CallInstruction, n string) {
			if n != "(*net/http.ServeMux).HandleFunc" && n != "(*net/http.ServeMux).Handle" && n != "net/http.HandleFunc" && n != "net/http.Handle" {
				return
			}
			args := in.Common().Args
			opts, _ := pathParts(c.P, fn, args[len(args)-2])
			for g := range opts {
				o := byOpt[g]
				if o == "" {
					continue
				}
				ok := o == "http.metrics"
				if ok {
					for _, h := range handlersIn(c, args[len(args)-1]) {
						ok = ok && !strings.HasPrefix(h.Name(), "Serve") && servedBy(h) == ""
					}
				} else {
					ok = anyHandler(handlersIn(c, args[len(args)-1]), func(h *ssa.Function) bool { return h.Name() == want[o] || servedBy(h) == want[o] })
				}
				found[o] = true
				c.Expect(ok && len(opts) == 1, "value", o+" path", c.Pos(in), "the path that -%s gives leads to another handler", o)
			}
		})
	}
	for _, o := range byOpt {
		c.Expect(found[o], "value", o+" path", "", "the path that -%s gives leads to no handler", o)
	}
}

// servedBy: the method that a handler leaves the answer to.
func servedBy(h *ssa.Function) string {
	name := ""
	calls(h, func(in ssa.CallInstruction, _ string) {
		if g := in.Common().StaticCallee(); g != nil && isHandler(g) && strings.HasPrefix(g.Name(), "Serve") {
			name += g.Name()
		}
	})
	return name
}

func isTime(t *flow.Term) bool {
	return t.Op == flow.OFieldAddr && t.Aux == "Time" && strings.HasSuffix(ownerName(t.Args[0].Typ), "pki.Validator")
}

// c27Time: the time of validation is made from its option.
func c27Time(c *Ctx) {
	g := optionVar(c.P, localT, "valid.time")
	if !c.Expect(g != nil, "value", "valid.time option", "", "the option valid.time is not found") {
		return
	}
	kinds := map[string]bool{}
	store := fieldStore("pki.Validator", "Time")
	for _, fn := range moduleFuncs(c.P, localT) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				v := store(fn, in)
				if v == nil {
					continue
				}
				for _, o := range originsIn(c.P, fn, v, true) {
					x := o.V
					if e, ok := x.(*ssa.Extract); ok && e.Index == 0 {
						x = e.Tuple
					}
					ok := false
					switch y := x.(type) {
					case *ssa.Const:
						ok = true
					case *ssa.UnOp: // a variable without a value yet
						_, ok = y.X.(*ssa.Alloc)
					case *ssa.Call:
						switch n := callName(&y.Call); n {
						case "(time.Time).UTC", "time.Now":
							kinds["now"] = true
							ok = true
						case "time.Parse", "time.Unix":
							i := 0
							if n == "time.Parse" {
								i = 1
							}
							for _, p := range originsIn(c.P, o.Fn, y.Call.Args[i], true) {
								q := p.V
								if e, isE := q.(*ssa.Extract); isE && e.Index == 0 {
									q = e.Tuple
								}
								if k, isC := q.(*ssa.Call); isC && callName(&k.Call) == "strconv.ParseInt" && n == "time.Unix" {
									q = k.Call.Args[0]
								}
								opts, other := arrives(c, p.Fn, q)
								ok = len(opts) == 1 && opts[g] && !other
							}
							kinds[n] = ok
						}
					}
					c.Expect(ok, "value", "valid.time from "+x.Name(), c.Pos(in), "the time of validation is not made from -valid.time")
				}
			}
		}
	}
	for _, k := range []string{"now", "time.Parse", "time.Unix"} {
		c.Expect(kinds[k], "value", "valid.time "+k, "", "-valid.time is not understood as it is documented (%s)", k)
	}
}

// c27Managers: the managers and decoders have the options when an exploration starts.
func c27Managers(c *Ctx) {
	for _, pkg := range []string{octoT, localT} {
		hash, man, cms, use := optionVar(c.P, pkg, "strict.hash"), optionVar(c.P, pkg, "strict.manifests"), optionVar(c.P, pkg, "strict.cms"), optionVar(c.P, pkg, "manifest.use")
		if hash == nil || man == nil || cms == nil || use == nil {
			continue // reported
		}
		fields := map[string]bool{"StrictHash": true, "StrictManifests": true, "ValidateStrict": true}
		matter := map[*ssa.Function]bool{}
		root := c.Func(pkg, "", "main")
		if pkg == octoT {
			root = mainValidationFn(c)
		}
		if root == nil {
			continue
		}
		for _, fn := range moduleFuncs(c.P, pkg) {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.FieldAddr:
						if _, f := fieldAddrName(x); fields[f] || f == "Time" && pkg == localT {
							matter[fn] = true
						}
					case ssa.CallInstruction:
						if callName(x.Common()) == smT+"Explore" {
							matter[fn] = true
						}
					}
				}
			}
		}
		an := c.NewAnalyzer()
		an.Opaque = func(g *ssa.Function) bool {
			for f := range staticReach(c.P, g) {
				if matter[f] {
					return false
				}
			}
			return true
		}
		an.Record = func(ev *flow.Event) bool { return false }
		n := 0
		an.OnEvent = func(st *flow.State, ev *flow.Event) {
			if ev.Kind == "store" && isTime(ev.Args[0]) && ev.Frame.Fn.Pkg != nil && ev.Frame.Fn.Pkg.Pkg.Name() == "main" {
				st.SetGhost("time "+ev.Args[0].String(), ev.Args[1])
			}
			if ev.Kind != "call" || !isCall(ev, smT+"Explore") {
				return
			}
			if pkg == localT {
				v := st.Path(ev.Args[0], "Validator")
				given := false
				for _, g := range st.Ghosts() {
					given = given || strings.HasPrefix(g, "time ") && strings.Contains(g, v.String()) && st.Ghost(g) == st.Path(v, "Time")
				}
				c.Expect(given, "value", "valid.time", c.evPos(ev), "an exploration does not judge at the time that -valid.time gives, but at %s", st.Path(v, "Time"))
			}
			n++
			sm := ev.Args[0]
			pos := c.evPos(ev)
			is := func(t *flow.Term, g *ssa.Global, what string) {
				c.Expect(t != nil && isOptionTerm(t, g), "strict", pkg+" "+what, pos, "an exploration in %s starts with %s set to %s", pkg, what, t)
			}
			is(st.Path(sm, "StrictHash"), hash, "StrictHash")
			is(st.Path(sm, "StrictManifests"), man, "StrictManifests")
			is(st.Path(sm, "Validator", "DecoderConfig", "ValidateStrict"), cms, "ValidateStrict")
			t, f := st.Clone().Assume(ev.Args[1], true), st.Clone().Assume(ev.Args[1], false)
			ok := (t == nil || optionIs(t, use, false)) && (f == nil || optionIs(f, use, true)) && (t != nil || f != nil)
			c.Expect(ok, "strict", pkg+" manifest.use", pos, "an exploration in %s leaves the manifests out if %s", pkg, ev.Args[1])
			c.Expect(ev.Args[2] == an.W.False, "strict", pkg+" invalid children", pos, "an exploration in %s follows what is invalid: %s", pkg, ev.Args[2])
		}
		c.Explore(an, root)
		c.Expect(n > 0, "strict", pkg+" exploration", c.PosOf(root.Pos()), "%s explores nothing", pkg)
		// nobody else changes them
		for _, fn := range moduleFuncs(c.P) {
			if fn.Pkg == nil || fn.Pkg.Pkg.Name() == "main" {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					st, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
						if _, f := fieldAddrName(fa); fields[f] {
							c.Expect(rootAlloc(fa.X), "strict", fname(fn)+" "+f, c.Pos(in), "%s changes %s, which the program set to what the option says", fname(fn), f)
						}
					}
				}
			}
		}
	}
}

// c27Explore: what the strictness of a manager does.
func c27Explore(c *Ctx) {
	fn := c.Func("validator/pki", "*SimpleManager", "Explore")
	if fn == nil {
		return
	}
	an := c.NewAnalyzer()
	w := an.W
	an.MaxStates = 400
	an.Opaque = opaque(smT+"GetNextExplore", smT+"GetNextFile", smT+"GetNextRepository", smT+"InvalidateManifestParent", smT+"InvalidateCRLParent", smT+"ExploreAdd", smT+"HasMore", smT+"reportError", smT+"reportErrorFile", smT+"PutFiles")
	args := an.ParamTerms(fn)
	mft := pkgConst(c, "validator/pki", "TYPE_MFT")
	if !c.Expect(mft >= 0, "manifests", "constant", "", "the type of manifests is not found") {
		return
	}
	isFlag := func(st *flow.State, f string, v bool) bool {
		return hasLit(st, func(t *flow.Term, b bool) bool {
			t = strip(t)
			return b == v && isRef(t, f) && refBase(t) == args[0]
		})
	}
	files, repos, adds, refused, invalid := 0, 0, 0, 0, 0
	an.Record = func(ev *flow.Event) bool { return false }
	an.OnEvent = func(st *flow.State, ev *flow.Event) {
		pos := c.evPos(ev)
		if ev.Kind != "call" {
			return
		}
		switch {
		case isCall(ev, smT+"GetNextExplore"):
			st.SetGhost("data", w.Nil)
			st.SetGhost("err", w.Nil)
			st.SetGhost("invalidated", w.False)
			st.SetGhost("added", w.False)
		case isCall(ev, smT+"GetNextFile"):
			files++
			typ := st.Path(ev.Args[1], "Type")
			ok := st.Entails(flow.Or(flow.Neg(flow.Lit(args[1])), flow.Neg(eqf(w, typ, w.Int(int64(mft))))))
			c.Expect(ok, "manifests", "file", pos, "a manifest is read although manifests are not used: %s", facts(st))
			st.SetGhost("data", w.Extract(ev.Res, 0, ev.Instr.(ssa.CallInstruction).Common().Signature().Results().At(0).Type()))
			st.SetGhost("err", errOf(w, ev))
		case isCall(ev, smT+"GetNextRepository"):
			repos++
			typ := st.Path(ev.Args[1], "Type")
			ok := st.Entails(flow.Lit(args[1])) && st.Entails(eqf(w, typ, w.Int(int64(mft))))
			c.Expect(ok, "manifests", "repository", pos, "a directory is explored although manifests are used, or without a manifest: %s", facts(st))
		case isCall(ev, smT+"InvalidateManifestParent"):
			invalid++
			d, e := st.Ghost("data"), st.Ghost("err")
			there := d != nil && e != nil && st.NonNil(d) && st.Entails(eqf(w, e, w.Nil))
			if there {
				c.Expect(isFlag(st, "StrictHash", true) || isFlag(st, "StrictManifests", true), "hash", "invalidated", pos, "an authority is invalidated for a file that is there although neither hashes nor manifests are checked strictly: %s", facts(st))
			} else {
				c.Expect(isFlag(st, "StrictManifests", true) || isFlag(st, "StrictHash", true) && d != nil && st.NonNil(d), "manifests", "invalidated", pos, "an authority is invalidated for a missing file although manifests need not be complete: %s", facts(st))
			}
			if isFlag(st, "StrictManifests", true) {
				st.SetGhost("invalidated", w.True)
			}
		case isCall(ev, smT+"ExploreAdd"):
			adds++
			d := ev.Args[2]
			c.Expect(ev.Args[3] == args[2], "manifests", "invalid children", pos, "what is invalid is not followed as asked: %s", ev.Args[3])
			sum, want := st.Path(d, "Sha256"), st.Path(ev.Args[1], "ManifestHash")
			ok := isFlag(st, "StrictHash", false) || st.IsNil(sum) || st.IsNil(want) || st.Entails(eqf(w, w.StrOf(sum), w.StrOf(want)))
			c.Expect(ok, "hash", "admitted", pos, "a file is admitted without its hash having been checked although hashes are checked: %s", facts(st))
			st.SetGhost("added", w.True)
		}
	}
	an.OnBack = func(st *flow.State, fr *flow.Frame, h *ssa.BasicBlock) {
		if fr.Fn != fn {
			return
		}
		d, e := st.Ghost("data"), st.Ghost("err")
		if d == nil || e == nil || d == w.Nil {
			return // no file was asked for
		}
		there := st.NonNil(d) && st.Entails(eqf(w, e, w.Nil))
		ok := there || isFlag(st, "StrictManifests", false) || st.Ghost("invalidated") == w.True
		c.Expect(ok, "manifests", "missing file", loopPos(c, h), "a file is missing and manifests must be complete, but its authority is not invalidated: %s", facts(st))
		if there && st.Ghost("added") != w.True {
			refused++
			c.Expect(isFlag(st, "StrictHash", true), "hash", "refused", loopPos(c, h), "a file that is there is not admitted although hashes are not checked: %s", facts(st))
		}
	}
	c.Explore(an, fn)
	c.Expect(files > 0 && repos > 0 && adds > 0 && refused > 0 && invalid > 0, "manifests", "found", c.PosOf(fn.Pos()), "the exploration reads no file, walks no directory, refuses nothing, invalidates nothing or admits nothing (%d, %d, %d, %d, %d)", files, repos, refused, invalid, adds)
}

func pkgConst(c *Ctx, pkg, name string) int {
	p := c.P.SSA[pkg]
	if p == nil {
		return -1
	}
	k, ok := p.Members[name].(*ssa.NamedConst)
	if !ok {
		return -1
	}
	n, ok := intConst(k.Value)
	if !ok {
		return -1
	}
	return int(n)
}

// c27Decoders: strict CMS decides whether a decoder demands matching signatures.
func c27Decoders(c *Ctx) {
	n := 0
	for _, fn := range moduleFuncs(c.P, "validator/lib") {
		if fn.Signature.Recv() == nil || !strings.HasPrefix(fn.Name(), "Decode") || !strings.HasSuffix(ownerName(fn.Signature.Recv().Type()), ".DecoderConfig") || fn.Synthetic != "" {
			continue
		}
		n++
		an := c.NewAnalyzer()
		w := an.W
		args := an.ParamTerms(fn)
		matter := map[*ssa.Function]bool{}
		for _, g := range moduleFuncs(c.P, "validator/lib") {
			calls(g, func(in ssa.CallInstruction, name string) {
				if strings.HasSuffix(name, "validator/lib.CMS).CheckSignaturesMatch") {
					matter[g] = true
				}
			})
		}
		an.Opaque = func(g *ssa.Function) bool {
			for f := range staticReach(c.P, g) {
				if matter[f] {
					return false
				}
			}
			return true
		}
		an.Record = func(ev *flow.Event) bool { return false }
		strict := func(st *flow.State, v bool) bool {
			return hasLit(st, func(t *flow.Term, b bool) bool {
				t = strip(t)
				return b == v && isRef(t, "ValidateStrict") && refBase(t) == args[0]
			})
		}
		an.OnEvent = func(st *flow.State, ev *flow.Event) {
			if ev.Kind == "call" && strings.HasSuffix(ev.Name, "validator/lib.CMS).CheckSignaturesMatch") {
				st.SetGhost("match", w.Extract(ev.Res, 0, types.Typ[types.Bool]))
				st.SetGhost("matchErr", errOf(w, ev))
				c.Expect(strict(st, true), "cms", fname(fn)+" demanded", c.evPos(ev), "%s demands matching signatures although decoding is not strict: %s", fname(fn), facts(st))
			}
		}
		ok := 0
		for _, e := range c.Explore(an, fn) {
			if e.Kind != "return" || len(e.Results) == 0 || e.St.NonNil(e.Results[len(e.Results)-1]) {
				continue
			}
			ok++
			m, merr := e.St.Ghost("match"), e.St.Ghost("matchErr")
			good := strict(e.St, false) || m != nil && e.St.Entails(flow.Lit(m)) && e.St.Entails(eqf(w, merr, w.Nil))
			c.Expect(good, "cms", fname(fn)+" accepted", c.Pos(e.Instr), "%s accepts a message whose signatures are not known to match although decoding is strict: %s", fname(fn), facts(e.St))
		}
		c.Expect(ok > 0, "cms", fname(fn), c.PosOf(fn.Pos()), "%s accepts nothing", fname(fn))
	}
	c.Expect(n >= 2, "cms", "decoders", "", "there are only %d decoders that take a configuration", n)
	// the validator decodes with its own configuration
	used := 0
	for _, fn := range moduleFuncs(c.P, "validator/pki") {
		calls(fn, func(in ssa.CallInstruction, name string) {
			i := strings.LastIndexByte(name, '.')
			if !strings.HasPrefix(name, "validator/lib.") && !strings.HasPrefix(name, "(*validator/lib.DecoderConfig)") && !strings.HasPrefix(name, "(validator/lib.DecoderConfig)") {
				return
			}
			switch name[i+1:] {
			case "DecodeROA", "DecodeManifest":
			default:
				return
			}
			used++
			ok := strings.HasPrefix(name, "(")
			if ok {
				for _, o := range originsIn(c.P, fn, in.Common().Args[0], true) {
					u, isU := o.V.(*ssa.UnOp)
					if !isU {
						ok = false
						continue
					}
					fa, isF := u.X.(*ssa.FieldAddr)
					if !isF {
						ok = false
						continue
					}
					own, f := fieldAddrName(fa)
					ok = ok && f == "DecoderConfig" && strings.HasSuffix(own, "pki.Validator")
				}
			}
			c.Expect(ok, "cms", fname(fn)+" "+name[i+1:], c.Pos(in), "%s does not decode with the configuration of its validator", fname(fn))
		})
	}
	c.Expect(used >= 2, "cms", "validator", "", "the validator decodes only %d kinds of messages", used)
}

// c27Round: RRDP runs in a round if it is on, and only then.
func c27Round(c *Ctx) {
	loop := loopFn(c)
	rrdp := optionVar(c.P, octoT, "rrdp")
	if loop == nil || !c.Expect(rrdp != nil, "rrdp", "option", "", "the option rrdp is not found") {
		return
	}
	ps := roundParts(c, loop, fetchRRDPFn)
	valid := mainValidationFn(c)
	if !c.Expect(len(ps) == 1, "rrdp", "part", c.PosOf(loop.Pos()), "the round loop has %d parts that fetch over RRDP", len(ps)) || valid == nil {
		return
	}
	fns, _ := siteFns(c, fetchRRDPFn)
	sites := map[*ssa.Function]bool{}
	for _, f := range fns {
		sites[f] = true
	}
	an := c.NewAnalyzer()
	w := an.W
	// the part that starts the workers is where RRDP begins
	starts := map[*ssa.Function]bool{}
	for f := range staticReach(c.P, ps[0]) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if g, ok := in.(*ssa.Go); ok && retrieves(c, g.Call.StaticCallee()) {
					starts[f] = true
				}
			}
		}
	}
	reaches := func(g *ssa.Function, set map[*ssa.Function]bool) bool {
		for f := range staticReach(c.P, g) {
			if set[f] {
				return true
			}
		}
		return false
	}
	an.Opaque = func(g *ssa.Function) bool {
		if starts[g] || g == valid {
			return true
		}
		return !reaches(g, starts) && !reaches(g, map[*ssa.Function]bool{valid: true})
	}
	an.Record = func(ev *flow.Event) bool { return false }
	runs := 0
	an.OnEvent = func(st *flow.State, ev *flow.Event) {
		if ev.Kind != "call" || ev.Fn == nil {
			return
		}
		switch {
		case starts[ev.Fn]:
			c.Expect(optionIs(st, rrdp, true), "rrdp", "started", c.evPos(ev), "RRDP is fetched although it may be off: %s", facts(st))
			st.SetGhost("rrdp", w.True)
		case ev.Fn == valid:
			runs++
			c.Expect(st.Ghost("rrdp") == w.True || optionIs(st, rrdp, false), "rrdp", "round", c.evPos(ev), "a round validates without having fetched over RRDP although it may be on: %s", facts(st))
		}
	}
	an.OnBack = func(st *flow.State, fr *flow.Frame, h *ssa.BasicBlock) {
		if fr.Fn == loop {
			st.SetGhost("rrdp", w.Nil)
		}
	}
	c.Explore(an, loop)
	c.Expect(runs > 0 && len(starts) > 0, "rrdp", "found", c.PosOf(loop.Pos()), "no round validates or fetches over RRDP")
}

// c27Failover: what failed over RRDP or HTTPS is left to rsync only with failover on.
func c27Failover(c *Ctx) {
	failover := optionVar(c.P, octoT, "rrdp.failover")
	loop := loopFn(c)
	if failover == nil || loop == nil {
		return
	}
	ps := roundParts(c, loop, fetchRRDPFn)
	if len(ps) != 1 {
		return
	}
	removals, kept := 0, 0
	var w *flow.World
	explorePool(c, ps[0], func(p *pool, st *flow.State, ev *flow.Event) {
		w = p.an.W
		switch {
		case ev.Kind == "call" && isCall(ev, fetchRRDPFn):
			st.SetGhost("fetchErr", errOf(w, ev))
		case ev.Kind == "recv":
			st.SetGhost("fetchErr", nil)
			st.SetGhost("removed", nil)
		case ev.Kind == "mapdel" && isJobTable(ev.Args[0]):
			removals++
			st.SetGhost("removed", w.True)
			err := st.Ghost("fetchErr")
			ok := err != nil && (st.Entails(eqf(w, err, w.Nil)) || st.NonNil(err) && (optionIs(st, failover, false) || tooLarge(st, err, true)))
			c.Expect(ok, "failover", "removed", c.evPos(ev), "an rsync job is removed although RRDP failed and failover is on: %s", facts(st))
		}
	}, func(p *pool, r backRec) {
		err := r.St.Ghost("fetchErr")
		if wf, _ := workerFrame(r.Fr); wf == nil || err == nil || r.St.Ghost("removed") != nil {
			return
		}
		kept++
		ok := r.St.NonNil(err) && optionIs(r.St, failover, true)
		c.Expect(ok, "failover", "kept", loopPos(c, r.H), "an rsync job is kept although RRDP succeeded or failover is off: %s", facts(r.St))
	})
	c.Expect(removals > 0 && kept > 0, "failover", "found", "", "no rsync job is removed or kept after a fetch over RRDP (%d, %d)", removals, kept)

	// trust anchors
	isTalURI := func(n string) bool { return strings.HasSuffix(n, "validator/lib.RPKITAL).GetRsyncURI") }
	users := map[*ssa.Function]bool{}
	for _, fn := range moduleFuncs(c.P, octoT) {
		calls(fn, func(in ssa.CallInstruction, n string) {
			if isTalURI(n) {
				users[fn] = true
			}
		})
	}
	// the outermost functions that lead to it, below the round loop
	var roots []*ssa.Function
	for _, fn := range moduleFuncs(c.P, octoT) {
		direct := false
		calls(loop, func(in ssa.CallInstruction, _ string) { direct = direct || in.Common().StaticCallee() == fn })
		if !direct || fn == mainValidationFn(c) {
			continue
		}
		for f := range staticReach(c.P, fn) {
			if users[f] {
				roots = append(roots, fn)
				break
			}
		}
	}
	n := 0
	for _, root := range roots {
		an := c.NewAnalyzer()
		tw := an.W
		an.Opaque = func(g *ssa.Function) bool {
			for f := range staticReach(c.P, g) {
				if users[f] || len(storesJobs(c, f)) > 0 {
					return false
				}
			}
			return true
		}
		an.Record = func(ev *flow.Event) bool { return false }
		an.OnEvent = func(st *flow.State, ev *flow.Event) {
			switch {
			case ev.Kind == "mapset" && isJobTable(ev.Args[0]):
				n++
				c.Expect(optionIs(st, failover, true), "failover", "trust anchor", c.evPos(ev), "a trust anchor is left to rsync although failover may be off: %s", facts(st))
				st.SetGhost("left", tw.True)
			}
		}
		c.Explore(an, root)
	}
	c.Expect(n > 0, "failover", "trust anchors", "", "no trust anchor is ever left to rsync")
}

// storesJobs: the insertions into the table of rsync jobs.
func storesJobs(c *Ctx, fn *ssa.Function) (out []ssa.Instruction) {
	for _, u := range fieldUses(c.P, octoT, "rsyncFetchJobManager", "rsyncFetchJobs") {
		if _, ok := u.Instr.(*ssa.MapUpdate); ok && u.Fn == fn {
			out = append(out, u.Instr)
		}
	}
	return
}

// c27Workers: as many workers as configured.
func c27Workers(c *Ctx) {
	loop := loopFn(c)
	if loop == nil {
		return
	}
	for _, n := range []string{fetchRRDPFn, runRsyncFn} {
		for _, root := range roundParts(c, loop, n) {
			goes := 0
			spawn := map[loopKey]bool{}
			label := fname(root)
			p := explorePool(c, root, func(p *pool, st *flow.State, ev *flow.Event) {
				if wf, _ := workerFrame(ev.Frame); ev.Kind != "go" || wf != nil || !retrieves(c, ev.Fn) {
					return
				}
				goes++
				c.Expect(workerBound(c, p, st, ev), "concurrency", label+": at most", c.evPos(ev), "more retrievals may run at once than configured: %s", facts(st))
			}, func(p *pool, r backRec) {
				if workerOf(r.Fr) == nil && startsWorkers(c, p, r) {
					spawn[loopKey{r.Fr, r.H}] = true
				}
			})
			c.Expect(goes > 0, "concurrency", label+": found", c.PosOf(root.Pos()), "%s starts no workers", label)
			for _, e := range p.exits {
				if e.Kind == "return" && !(n == fetchRRDPFn && optionIs(e.St, optionVar(c.P, octoT, "rrdp"), false)) {
					c.Expect(allStarted(c, p, e.St, spawn), "concurrency", label+": all", c.Pos(e.Instr), "fewer workers may be started than configured: %s", facts(e.St))
				}
			}
		}
	}
	c17Workers(c)
}

// c27List: filtering and signing of the list.
func c27List(c *Ctx) {
	fn := signingFn(c)
	sign := optionVar(c.P, octoT, "output.sign")
	if fn == nil || sign == nil {
		return
	}
	gen := genListFn(c)
	an := c.NewAnalyzer()
	w := an.W
	var names []string
	for _, n := range genOpaque {
		if !strings.Contains(n, "signROAList") {
			names = append(names, n)
		}
	}
	op, mop := opaque(names...), opaque(mainOpaque...)
	an.Opaque = func(g *ssa.Function) bool {
		return op(g) || fn != gen && (g == gen || mop(g) && !strings.Contains(fname(g), "signROAList"))
	}
	args := an.ParamTerms(fn)
	an.Record = func(ev *flow.Event) bool { return false }
	filter := func(st *flow.State, v bool) bool {
		return hasLit(st, func(t *flow.Term, b bool) bool {
			t = strip(t)
			return b == v && isRef(t, "Filter") && refBase(t) == args[0]
		})
	}
	// that no payload is in the list twice may also be seen to without asking
	isFilter := map[string]string{"FilterDuplicates": "duplicates", "FilterInvalidPrefixLen": "lengths", "filterDuplicates": "duplicates"}
	signs := 0
	an.OnEvent = func(st *flow.State, ev *flow.Event) {
		if ev.Kind != "call" {
			return
		}
		if isSign(ev.Name) {
			signs++
			c.Expect(optionIs(st, sign, true), "sign", "only if on", c.evPos(ev), "a list is signed although signing may be off: %s", facts(st))
			st.SetGhost("signed", w.True)
		}
		if k := isFilter[ev.Name[strings.LastIndexByte(ev.Name, '.')+1:]]; k != "" && strings.HasPrefix(short(ev.Name), "cmd/octorpki.") {
			c.Expect(k == "duplicates" || filter(st, true), "filter", k+" only if on", c.evPos(ev), "the list is filtered although filtering may be off: %s", facts(st))
			st.SetGhost("filtered "+k, w.True)
		}
	}
	n := 0
	for _, e := range c.Explore(an, fn) {
		if e.Kind != "return" {
			continue
		}
		n++
		c.Expect(optionIs(e.St, sign, false) || e.St.Ghost("signed") == w.True, "sign", "if on", c.Pos(e.Instr), "a list is made without being signed although signing may be on: %s", facts(e.St))
		if fn == gen {
			for _, k := range []string{"duplicates", "lengths"} {
				c.Expect(filter(e.St, false) || e.St.Ghost("filtered "+k) == w.True, "filter", k+" if on", c.Pos(e.Instr), "a list is made without being filtered although filtering may be on: %s", facts(e.St))
			}
		}
	}
	c.Expect(n > 0 && signs > 0, "sign", "found", c.PosOf(fn.Pos()), "no list is made or signed")
	c27Key(c)
}

// c27Key: the key of the server is the one in the file, and there is one if signing is on.
func c27Key(c *Ctx) {
	sign, loop := optionVar(c.P, octoT, "output.sign"), loopFn(c)
	main := c.Func(octoT, "", "main")
	mode := optionVar(c.P, octoT, "mode")
	if sign == nil || loop == nil || main == nil || mode == nil {
		return
	}
	matter := map[*ssa.Function]bool{loop: true}
	for _, fn := range moduleFuncs(c.P, octoT) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
						if o, f := fieldAddrName(fa); f == "Key" && strings.HasSuffix(o, "octorpki.OctoRPKI") {
							matter[fn] = true
						}
					}
				}
			}
		}
	}
	an := c.NewAnalyzer()
	serves := map[*ssa.Function]bool{}
	for _, fn := range moduleFuncs(c.P, octoT) {
		calls(fn, func(_ ssa.CallInstruction, n string) {
			if strings.Contains(n, "net/http.") && strings.HasSuffix(n, "ListenAndServe") {
				serves[fn] = true
				matter[fn] = true
			}
		})
	}
	is := func(st *flow.State, m string) bool {
		return hasLit(st, func(t *flow.Term, b bool) bool { return b && mentionsOption(t, mode) && mentionsStr(t, m) })
	}
	an.Opaque = func(g *ssa.Function) bool {
		if g == loop || serves[g] {
			return true
		}
		for f := range staticReach(c.P, g) {
			if matter[f] {
				return false
			}
		}
		return true
	}
	an.Record = func(ev *flow.Event) bool { return false }
	n := 0
	w := an.W
	an.OnEvent = func(st *flow.State, ev *flow.Event) {
		switch {
		case ev.Kind == "store" && ev.Args[0].Op == flow.OFieldAddr && ev.Args[0].Aux == "Key" && strings.HasSuffix(ownerName(ev.Args[0].Args[0].Typ), "OctoRPKI"):
			if !st.IsNil(ev.Args[1]) {
				st.SetGhost("key", w.True)
			}
		case (ev.Kind == "go" || ev.Kind == "call") && ev.Fn != nil && serves[ev.Fn]:
			c.Expect(is(st, "server"), "mode", "served", c.evPos(ev), "the server is started although the mode may be another: %s", facts(st))
			st.SetGhost("served", w.True)
		case ev.Kind == "call" && ev.Fn == loop:
			n++
			c.Expect(is(st, "oneoff") || is(st, "server") && st.Ghost("served") == w.True, "mode", "rounds", c.evPos(ev), "the rounds start without a server in server mode, or in no known mode: %s", facts(st))
			c.Expect(optionIs(st, sign, false) || st.Ghost("key") == w.True, "sign", "key", c.evPos(ev), "the rounds start without a key although signing may be on: %s", facts(st))
		}
	}
	c.Explore(an, main)
	c.Expect(n > 0, "sign", "rounds", c.PosOf(main.Pos()), "main never starts the rounds")
}

// c27Wait: waiting for a stable state.
func c27Wait(c *Ctx) {
	wait := optionVar(c.P, octoT, "output.wait")
	mode := optionVar(c.P, octoT, "mode")
	if !c.Expect(wait != nil && mode != nil, "wait", "options", "", "the options output.wait and mode are not found") {
		return
	}
	gates, caches := 0, 0
	cache := optionVar(c.P, octoT, "http.cache")
	for _, fn := range moduleFuncs(c.P, octoT) {
		if !isHandler(fn) || wrapsHandler(fn) {
			continue
		}
		// handlers that know the option
		knows := false
		for f := range staticReach(c.P, fn) {
			knows = knows || touchesOption(f, wait)
		}
		if !knows {
			continue
		}
		gates++
		an := c.NewAnalyzer()
		an.Record = func(ev *flow.Event) bool { return false }
		label := fname(fn)
		an.OnEvent = func(st *flow.State, ev *flow.Event) {
			if ev.Kind != "call" {
				return
			}
			n := short(ev.Name)
			if n == "(net/http.Header).Set" {
				if k, ok := ev.Args[1].IsStr(); ok && strings.EqualFold(k, "cache-control") {
					caches++
					c.Expect(optionIs(st, cache, true), "value", "http.cache: "+label, c.evPos(ev), "%s lets its answer be cached although that may be off", label)
				}
			}
			busy := false
			for i, name := range map[int]string{1: "(net/http.ResponseWriter).WriteHeader", 2: "net/http.Error"} {
				if n == name {
					k, ok := ev.Args[i].IsInt()
					busy = ok && k == 503
				}
			}
			if busy {
				c.Expect(optionIs(st, wait, true) && flagIs(st, "Stable", false) && flagIs(st, "HasPreviousStable", false), "wait", label+": withheld", c.evPos(ev), "%s withholds data although waiting may be off or the state stable: %s", label, facts(st))
			}
			if strings.HasSuffix(n, ".Encode") || n == "(net/http.ResponseWriter).Write" && !busyBefore(st) {
				ok := flagIs(st, "Stable", true) || flagIs(st, "HasPreviousStable", true) || optionIs(st, wait, false)
				c.Expect(ok, "wait", label+": sent", c.evPos(ev), "%s sends data although the state may be unstable and waiting on: %s", label, facts(st))
			}
			if busy {
				st.SetGhost("busy", an.W.True)
			}
		}
		c.Explore(an, fn)
	}
	c.Expect(caches > 0, "value", "http.cache", "", "no answer can be cached")
	c.Expect(gates >= 2, "wait", "handlers", "", "only %d handlers know whether to wait", gates)
	// one-off output
	r := &roundLoop{c: c}
	outs, logs := 0, 0
	r.onCall = func(st *flow.State, ev *flow.Event) {
		if !isCall(ev, "(*"+octoT+".OctoRPKI).SendCertificateTransparency") {
			return
		}
		logs++
		on := hasLit(st, func(t *flow.Term, b bool) bool { return b && isRef(strip(t), "DoCT") })
		c.Expect(on, "wait", "ct", c.evPos(ev), "certificates are sent to the log server although that may be off")
		c.Expect(r.stableNow(st) || optionIs(st, wait, false), "wait", "ct stable", c.evPos(ev), "certificates are sent to the log server although the state may be unstable and waiting on: %s", facts(st))
	}
	r.onOut = func(st *flow.State, ev *flow.Event) {
		outs++
		c.Expect(r.stableNow(st) || optionIs(st, wait, false), "wait", "one-off", c.evPos(ev), "the result is written although the state may be unstable and waiting on: %s", facts(st))
		once := hasLit(st, func(t *flow.Term, b bool) bool { return b && mentionsOption(t, mode) && mentionsStr(t, "oneoff") })
		c.Expect(once, "wait", "mode", c.evPos(ev), "the result is written although this may not be one-off mode: %s", facts(st))
	}
	r.explore()
	c.Expect(logs > 0, "wait", "ct found", "", "no certificates are ever sent to the log server")
	c.Expect(outs > 0, "wait", "output", "", "the round loop writes no result")
	// without waiting, every round of one-off mode writes its result
	o := &roundLoop{c: c}
	o.start = func(an *flow.Analyzer, st *flow.State) *flow.State {
		if st = st.Assume(optionTerm(an, st, wait), false); st != nil {
			st = st.Assume(an.W.OrdEq(optionTerm(an, st, mode), an.W.Str("oneoff")), true)
		}
		return st
	}
	o.onOut = func(st *flow.State, ev *flow.Event) { st.SetGhost("written", o.an.W.True) }
	rounds := 0
	o.onBack = func(b backRec) {
		rounds++
		c.Expect(b.St.Ghost("written") == o.an.W.True, "wait", "one-off delayed", loopPos(c, b.H), "a round of one-off mode writes no result although waiting is off: %s %s", b.St.Ghost("written"), facts(b.St))
	}
	for _, e := range o.explore() {
		if e.Kind == "return" {
			rounds++
			c.Expect(e.St.Ghost("written") == o.an.W.True, "wait", "one-off delayed", c.Pos(e.Instr), "the last round of one-off mode writes no result although waiting is off: %s", facts(e.St))
		}
	}
	c.Expect(rounds > 0, "wait", "one-off rounds", "", "no round of one-off mode ends")
}

func busyBefore(st *flow.State) bool { return st.Ghost("busy") != nil }

func mentionsOption(t *flow.Term, g *ssa.Global) bool {
	return t.Any(func(x *flow.Term) bool { return isOptionTerm(x, g) })
}

func mentionsStr(t *flow.Term, s string) bool {
	return t.Any(func(x *flow.Term) bool { v, ok := x.IsStr(); return ok && v == s })
}
