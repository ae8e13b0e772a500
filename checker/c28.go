package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C28",
		Technique: "interprocedural reference-flow analysis from the package variables (through fields, containers, calls and closures) to every write, and an effect check of the external calls of the library packages",
		Rule:      "Outside package initialisation, no function of a library package writes to memory that a package variable holds or leads to, calls a function that changes the state of the process, or gives a map or a changeable object that a package variable leads to a place in an object or to the caller; no command writes to what a package variable of a library leads to.",
		Note:      "Methods of external types count as changing their receiver by their name (Set…, Add…, Store…, Reset, …). State that the caller shares between two instances (the same map handed to both) is the caller's.",
		Run:       runC28})
}

// reference kinds: a copy of the value leads to the same memory
func leadsTo(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice, *types.Chan, *types.Interface:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if leadsTo(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return leadsTo(u.Elem())
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if leadsTo(u.At(i).Type()) {
				return true
			}
		}
	}
	return false
}

// unchangeable: types whose values no method changes in a way that matters, and the tables of generated code.
func unchangeable(t types.Type) bool {
	n := ownerName(t)
	for _, p := range []string{"regexp.Regexp", "time.Location", "strings.Replacer", "text/template.", "html/template.", "google.golang.org/grpc", "github.com/golang/protobuf", "google.golang.org/protobuf", "sync.Mutex", "sync.RWMutex", "sync.Pool", "encoding/base64.Encoding"} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

type globalSet map[*ssa.Global]bool

type globalFlow struct {
	c      *Ctx
	fns    []*ssa.Function
	vals   map[ssa.Value]globalSet
	fields map[string]globalSet // contents of fields and containers
	ret    map[*ssa.Function]globalSet
	more   bool
	errs   map[*ssa.Global]bool // variables that hold other than plain errors
}

func (g *globalFlow) add(m globalSet, to *globalSet) {
	if len(m) == 0 {
		return
	}
	if *to == nil {
		*to = globalSet{}
	}
	for k := range m {
		if !(*to)[k] {
			(*to)[k] = true
			g.more = true
		}
	}
}

func (g *globalFlow) flow(v ssa.Value, m globalSet) {
	s := g.vals[v]
	g.add(m, &s)
	g.vals[v] = s
}

func (g *globalFlow) put(k string, m globalSet) {
	s := g.fields[k]
	g.add(m, &s)
	g.fields[k] = s
}

func (g *globalFlow) of(v ssa.Value) globalSet {
	if x, ok := v.(*ssa.Global); ok {
		if strings.HasPrefix(x.Name(), "init$") {
			return nil
		}
		return globalSet{x: true}
	}
	return g.vals[v]
}

// plainError: the variable only ever holds errors that have nothing to change.
func (g *globalFlow) plainError(gl *ssa.Global) bool {
	if p, ok := gl.Type().Underlying().(*types.Pointer); !ok || p.Elem().String() != "error" {
		return false
	}
	if !g.c.P.InModule(gl.Pkg.Func("init")) {
		return true
	}
	if g.errs == nil {
		g.errs = map[*ssa.Global]bool{}
		for _, fn := range g.fns {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					st, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					x, ok := st.Addr.(*ssa.Global)
					if !ok {
						continue
					}
					call, ok := st.Val.(*ssa.Call)
					if n := ""; !ok {
						g.errs[x] = true
					} else if n = callName(call.Common()); n != "errors.New" && n != "fmt.Errorf" {
						g.errs[x] = true
					}
				}
			}
		}
	}
	return !g.errs[gl]
}

// place names what an address outside package variables stands for.
func place(addr ssa.Value) string {
	switch x := addr.(type) {
	case *ssa.FieldAddr:
		if o, f := fieldAddrName(x); f != "" {
			if strings.Contains(o, "struct{") {
				return place(x.X) + "." + f
			}
			return o + "." + f
		}
	case *ssa.IndexAddr:
		return "element of " + x.X.Type().Underlying().String()
	case *ssa.Alloc:
		return "local " + x.Parent().String() + " " + x.Name()
	case *ssa.FreeVar:
		return "free " + x.Parent().String() + " " + x.Name()
	}
	return "contents " + addr.Type().String()
}

// keep puts what a stored value leads to into a place; a struct also into its fields.
func (g *globalFlow) keep(addr ssa.Value, m globalSet) {
	if len(m) == 0 {
		return
	}
	if p, ok := addr.Type().Underlying().(*types.Pointer); ok && plainTable(p.Elem()) {
		if _, local := addr.(*ssa.Alloc); !local {
			return
		}
	}
	g.put(place(addr), m)
	if p, ok := addr.Type().Underlying().(*types.Pointer); ok {
		g.keepFields(p.Elem(), m, 0)
	}
}

func (g *globalFlow) keepFields(t types.Type, m globalSet, depth int) {
	st, ok := t.Underlying().(*types.Struct)
	if !ok || depth > 3 {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		if f := st.Field(i); leadsTo(f.Type()) && !plainTable(f.Type()) {
			g.put(typeName(t)+"."+f.Name(), m)
			g.keepFields(f.Type(), m, depth+1)
		}
	}
}

func (g *globalFlow) step(fn *ssa.Function) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.UnOp:
				if x.Op != token.MUL || !leadsTo(x.Type()) {
					continue
				}
				if gl, ok := x.X.(*ssa.Global); ok && g.plainError(gl) {
					continue
				}
				g.flow(x, g.of(x.X))
				g.flow(x, g.fields[place(x.X)])
			case *ssa.FieldAddr:
				g.flow(x, g.of(x.X))
			case *ssa.IndexAddr:
				g.flow(x, g.of(x.X))
			case *ssa.Field:
				if leadsTo(x.Type()) {
					g.flow(x, g.of(x.X))
				}
			case *ssa.Index:
				if leadsTo(x.Type()) {
					g.flow(x, g.of(x.X))
				}
			case *ssa.Lookup:
				if leadsTo(x.Type()) {
					g.flow(x, g.of(x.X))
					g.flow(x, g.fields["element of "+x.X.Type().Underlying().String()])
				}
			case *ssa.Range:
				g.flow(x, g.of(x.X))
				g.flow(x, g.fields["element of "+x.X.Type().Underlying().String()])
			case *ssa.Next:
				g.flow(x, g.of(x.Iter))
			case *ssa.Extract:
				if leadsTo(x.Type()) {
					g.flow(x, g.of(x.Tuple))
				}
			case *ssa.Phi:
				for _, e := range x.Edges {
					g.flow(x, g.of(e))
				}
			case *ssa.ChangeType:
				g.flow(x, g.of(x.X))
			case *ssa.Convert:
				if leadsTo(x.Type()) && leadsTo(x.X.Type()) {
					if _, str := x.X.Type().Underlying().(*types.Basic); !str {
						g.flow(x, g.of(x.X))
					}
				}
			case *ssa.MakeInterface:
				if leadsTo(x.X.Type()) {
					g.flow(x, g.of(x.X))
				}
			case *ssa.ChangeInterface:
				g.flow(x, g.of(x.X))
			case *ssa.TypeAssert:
				if leadsTo(x.AssertedType) {
					g.flow(x, g.of(x.X))
				}
			case *ssa.Slice:
				g.flow(x, g.of(x.X))
			case *ssa.SliceToArrayPointer:
				g.flow(x, g.of(x.X))
			case *ssa.MakeClosure:
				h := x.Fn.(*ssa.Function)
				for i, bd := range x.Bindings {
					if i < len(h.FreeVars) {
						g.flow(h.FreeVars[i], g.of(bd))
						// variables that the closure shares with the function around it
						s := g.fields[place(bd)]
						g.put(place(h.FreeVars[i]), s)
						g.put(place(bd), g.fields[place(h.FreeVars[i])])
					}
				}
			case *ssa.Store:
				if leadsTo(x.Val.Type()) {
					g.keep(x.Addr, g.of(x.Val))
				}
			case *ssa.MapUpdate:
				m := globalSet{}
				for k := range g.of(x.Value) {
					m[k] = true
				}
				if leadsTo(x.Key.Type()) {
					for k := range g.of(x.Key) {
						m[k] = true
					}
				}
				g.put("element of "+x.Map.Type().Underlying().String(), m)
			case *ssa.Send:
				g.put("element of "+x.Chan.Type().Underlying().String(), g.of(x.X))
			case *ssa.Return:
				for _, r := range x.Results {
					if leadsTo(r.Type()) {
						s := g.ret[fn]
						g.add(g.of(r), &s)
						g.ret[fn] = s
					}
				}
			}
			if ci, ok := in.(ssa.CallInstruction); ok {
				g.call(fn, ci)
			}
		}
	}
}

func (g *globalFlow) call(fn *ssa.Function, ci ssa.CallInstruction) {
	cc := ci.Common()
	v, _ := ci.(*ssa.Call)
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" && v != nil {
			g.flow(v, g.of(cc.Args[0]))
			if len(cc.Args) > 1 && elementsLead(cc.Args[1].Type()) {
				g.put("element of "+v.Type().Underlying().String(), g.of(cc.Args[1]))
			}
		}
		return
	}
	for _, callee := range g.callees(cc) {
		args := cc.Args
		if cc.IsInvoke() {
			args = append([]ssa.Value{cc.Value}, args...)
		}
		for i, a := range args {
			if i < len(callee.Params) && leadsTo(a.Type()) {
				g.flow(callee.Params[i], g.of(a))
			}
		}
		if v != nil && leadsTo(v.Type()) {
			g.flow(v, g.ret[callee])
		}
	}
	// what an external function makes of what it gets is its own
}

func elementsLead(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && leadsTo(s.Elem())
}

func (g *globalFlow) callees(cc *ssa.CallCommon) []*ssa.Function {
	if h := cc.StaticCallee(); h != nil {
		if g.c.P.InModule(h) && len(h.Blocks) > 0 {
			return []*ssa.Function{h}
		}
		return nil
	}
	if !cc.IsInvoke() {
		return nil
	}
	it, ok := cc.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	for _, f := range g.fns {
		if r := f.Signature.Recv(); r != nil && f.Name() == cc.Method.Name() && types.Implements(r.Type(), it) {
			out = append(out, f)
		}
	}
	return out
}

// atInit: the function runs only while the packages are set up.
func atInit(P *Ctx, fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if fn.Parent() == nil && (fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#")) && fn.Signature.Recv() == nil {
		return true
	}
	if exportedAPI(fn) || fn.Parent() != nil || fn.Name() == "main" || seen[fn] {
		return false
	}
	seen[fn] = true
	callers := staticCallers(P.P, fn)
	for g := range callers {
		if !atInit(P, g, seen) {
			return false
		}
	}
	return len(callers) > 0
}

var changing = []string{"Set", "Add", "Store", "Put", "Push", "Delete", "Remove", "Reset", "Inc", "Dec", "Observe", "Write", "Swap", "CompareAndSwap", "LoadOrStore", "LoadAndDelete", "Register", "Close", "Seed", "Insert", "Clear", "Sort", "Shuffle", "Do", "Append", "Merge", "Update", "Apply", "Pop", "Replace", "Fill", "Grow", "Truncate", "Stable", "Strings", "Ints", "Reverse", "Configure", "Handle", "Use", "Publish", "MustRegister", "Unregister", "Next"}

// filling: functions that change what their arguments lead to.
var filling = []string{"Unmarshal", "Decode", "Scan", "Sscan", "Fscan", "Read", "Sort", "Slice", "Strings", "Ints", "Stable", "Shuffle", "Add", "Store", "Swap", "CompareAndSwap", "Copy"}

func hasPrefixOf(s string, list []string) bool {
	for _, p := range list {
		if strings.HasPrefix(s, p) {
			return true
		}
	}
	return false
}

// processWide: external functions that change the state of the process.
func processWide(n string) bool {
	switch n {
	case "os.Setenv", "os.Unsetenv", "os.Clearenv", "os.Chdir", "syscall.Umask", "syscall.Chdir", "syscall.Setenv", "syscall.Setrlimit", "syscall.Setuid", "syscall.Setgid", "syscall.Chroot",
		"math/rand.Seed", "net/http.Handle", "net/http.HandleFunc", "os/signal.Notify", "os/signal.Ignore", "os/signal.Reset", "runtime.GOMAXPROCS",
		"github.com/getsentry/sentry-go.Init", "github.com/getsentry/sentry-go.ConfigureScope", "github.com/getsentry/sentry-go.PushScope", "mime.AddExtensionType", "expvar.Publish", "encoding/gob.Register", "encoding/gob.RegisterName", "runtime.SetFinalizer", "crypto.RegisterHash", "crypto/x509.SetFallbackRoots":
		return true
	}
	for _, p := range []string{"runtime/debug.Set", "flag.", "log.Set", "log/slog.SetDefault", "github.com/sirupsen/logrus.Set", "github.com/sirupsen/logrus.AddHook", "github.com/prometheus/client_golang/prometheus.MustRegister", "github.com/prometheus/client_golang/prometheus.Register", "github.com/prometheus/client_golang/prometheus.Unregister"} {
		if strings.HasPrefix(n, p) && !strings.HasPrefix(n, "flag.Arg") && !strings.HasPrefix(n, "flag.N") {
			return true
		}
	}
	return false
}

func isCommand(fn *ssa.Function) bool { return fn.Pkg != nil && fn.Pkg.Pkg.Name() == "main" }

func runC28(c *Ctx) {
	g := &globalFlow{c: c, fns: moduleFuncs(c.P), vals: map[ssa.Value]globalSet{}, fields: map[string]globalSet{}, ret: map[*ssa.Function]globalSet{}}
	for rounds := 0; ; rounds++ {
		g.more = false
		for _, fn := range g.fns {
			g.step(fn)
		}
		if !g.more {
			break
		}
		if rounds > 200 {
			c.Fail("state", "analysis", "", "the flow of the package variables was not found in 200 rounds")
			return
		}
	}
	globals := globalSet{}
	lib, writes := 0, 0
	for _, fn := range g.fns {
		start := atInit(c, fn, map[*ssa.Function]bool{})
		if start {
			continue
		}
		cmd := isCommand(fn)
		if !cmd {
			lib++
		}
		name := fname(fn)
		c.funcs[name] = true
		c.blocks += len(fn.Blocks)
		// counts are the package variables whose change is looked at here
		counts := func(m globalSet) string {
			var out []string
			for x := range m {
				if cmd && (x.Pkg.Pkg.Name() == "main" || !strings.HasPrefix(x.Pkg.Pkg.Path(), strings.TrimSuffix(modPath, "/"))) {
					continue
				}
				out = append(out, short(x.Pkg.Pkg.Path())+"."+x.Name())
			}
			sort.Strings(out)
			return strings.Join(out, ", ")
		}
		wrote := func(in ssa.Instruction, m globalSet, how string) {
			writes++
			l := counts(m)
			c.Expect(l == "", "state", name+" "+how, c.Pos(in), "%s %s what the package variable %s holds or leads to", name, how, l)
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if x, ok := (*op).(*ssa.Global); ok {
						globals[x] = true
					}
				}
				switch x := in.(type) {
				case *ssa.Store:
					wrote(in, g.of(x.Addr), "writes to")
					if !cmd && gives(x.Val.Type()) {
						if _, local := x.Addr.(*ssa.Alloc); !local {
							l := counts(g.of(x.Val))
							c.Expect(l == "" || unchangeable(x.Val.Type()), "share", name+" stores", c.Pos(in), "%s puts what the package variable %s leads to into %s: every instance shares it", name, l, place(x.Addr))
						}
					}
				case *ssa.MapUpdate:
					wrote(in, g.of(x.Map), "writes to")
				case *ssa.Return:
					if cmd || !exportedAPI(fn) {
						continue
					}
					for _, r := range x.Results {
						if gives(r.Type()) && !unchangeable(r.Type()) {
							l := counts(g.of(r))
							c.Expect(l == "", "share", name+" returns", c.Pos(in), "%s gives its callers what the package variable %s leads to", name, l)
						}
					}
				case ssa.CallInstruction:
					cc := x.Common()
					if bi, ok := cc.Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "delete", "copy", "clear":
							wrote(in, g.of(cc.Args[0]), "changes")
						case "append":
							if _, cut := cc.Args[0].(*ssa.Slice); cut {
								wrote(in, g.of(cc.Args[0]), "appends to a part of")
							}
						}
						continue
					}
					n := callName(cc)
					if h := cc.StaticCallee(); h != nil && c.P.InModule(h) {
						continue
					}
					if !cmd {
						c.Expect(!processWide(n), "state", name+" calls "+n, c.Pos(in), "%s calls %s, which changes the state of the process", name, n)
					}
					args := cc.Args
					base := n[strings.LastIndex(n, ".")+1:]
					method := cc.IsInvoke() || cc.Signature().Recv() != nil
					if cc.IsInvoke() {
						args = append([]ssa.Value{cc.Value}, args...)
					}
					for i, a := range args {
						list := filling
						if method && i == 0 {
							list = changing
						}
						if hasPrefixOf(base, list) && leadsTo(a.Type()) && !unchangeable(a.Type()) && (!plainTable(a.Type()) || strings.HasPrefix(n, "sort.") || strings.HasPrefix(n, "slices.")) {
							wrote(in, g.of(a), "calls "+base+" on")
						}
					}
				}
			}
		}
	}
	for x := range globals {
		c.Sample("%s.%s", short(x.Pkg.Pkg.Path()), x.Name())
	}
	c.Expect(lib > 100 && writes > 100, "state", "found", "", "%d functions of the libraries and %d writes were looked at, more are expected", lib, writes)
	c.AtLeast("state", 50)
}

// gives: a value of the type lets its holder change what others see.
func gives(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return true
	case *types.Map, *types.Chan:
		return true
	default:
		_ = u
		return false
	}
}

// plainTable: a slice of plain values, which functions read.
func plainTable(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	_, ok = s.Elem().Underlying().(*types.Basic)
	return ok
}
