package flow

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/callgraph"
	"golang.org/x/tools/go/callgraph/cha"
	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the loaded, type-checked and SSA-built repository.
type Program struct {
	Dir    string
	Module string
	Fset   *token.FileSet
	Pkgs   []*packages.Package
	Prog   *ssa.Program
	SSA    map[string]*ssa.Package // by path relative to the module, "." for the root
	CG     *callgraph.Graph
	Funcs  []*ssa.Function // every function of the module, synthetic ones included

	globals map[string]*Term
	mods    map[*ssa.Function]map[string]bool
}

// Load builds the program from the working tree at dir.
func Load(dir string) (*Program, error) {
	os.Setenv("GOFLAGS", "-mod=vendor")
	os.Setenv("GOPROXY", "off")
	os.Setenv("GOSUMDB", "off")
	os.Setenv("GOTOOLCHAIN", "local")
	os.Setenv("GOWORK", "off")
	if _, err := os.Stat(filepath.Join(dir, "vendor")); err != nil {
		os.Setenv("GOFLAGS", "-mod=mod")
	}
	fset := token.NewFileSet()
	cfg := &packages.Config{Mode: packages.LoadAllSyntax | packages.NeedModule, Dir: dir, Fset: fset}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("loading %s: %s", dir, strings.Join(errs[:1], "; "))
	}
	if len(ps) == 0 {
		return nil, fmt.Errorf("no packages in %s", dir)
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{Dir: dir, Fset: fset, Pkgs: ps, Prog: prog, SSA: map[string]*ssa.Package{}}
	for _, p := range ps {
		if p.Module != nil {
			P.Module = p.Module.Path
		}
	}
	for _, p := range ps {
		rel := strings.TrimPrefix(strings.TrimPrefix(p.PkgPath, P.Module), "/")
		if rel == "" {
			rel = "."
		}
		P.SSA[rel] = prog.Package(p.Types)
	}
	P.CG = cha.CallGraph(prog)
	all := ssautil.AllFunctions(prog)
	for f := range all {
		if P.InModule(f) {
			P.Funcs = append(P.Funcs, f)
		}
	}
	sort.Slice(P.Funcs, func(i, j int) bool {
		a, b := P.Funcs[i], P.Funcs[j]
		if a.RelString(nil) != b.RelString(nil) {
			return a.RelString(nil) < b.RelString(nil)
		}
		return a.Pos() < b.Pos()
	})
	P.scanGlobals()
	return P, nil
}

// InModule reports whether fn's code belongs to the repository.
func (P *Program) InModule(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return P.inMod(fn.Pkg.Pkg)
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return P.inMod(o.Pkg())
	}
	return false
}

func (P *Program) inMod(p *types.Package) bool {
	return p.Path() == P.Module || strings.HasPrefix(p.Path(), P.Module+"/")
}

// Rel gives the package path of fn relative to the module.
func (P *Program) Rel(fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	var p *types.Package
	if fn.Pkg != nil {
		p = fn.Pkg.Pkg
	} else if o := fn.Object(); o != nil {
		p = o.Pkg()
	}
	if p == nil {
		return ""
	}
	return strings.TrimPrefix(strings.TrimPrefix(p.Path(), P.Module), "/")
}

// Func finds a package function or, with recv, a method ("T" or "*T").
func (P *Program) Func(pkg, recv, name string) *ssa.Function {
	sp := P.SSA[pkg]
	if sp == nil {
		return nil
	}
	if recv == "" {
		return sp.Func(name)
	}
	ptr := strings.HasPrefix(recv, "*")
	tn := sp.Type(strings.TrimPrefix(recv, "*"))
	if tn == nil {
		return nil
	}
	var t types.Type = tn.Type()
	if ptr {
		t = types.NewPointer(t)
	}
	sel := types.NewMethodSet(t).Lookup(sp.Pkg, name)
	if sel == nil {
		return nil
	}
	fn := P.Prog.MethodValue(sel)
	return fn
}

// Named returns a named type of the repository.
func (P *Program) Named(pkg, name string) types.Type {
	sp := P.SSA[pkg]
	if sp == nil {
		return nil
	}
	tn := sp.Type(name)
	if tn == nil {
		return nil
	}
	return tn.Type()
}

// Pos renders a position relative to the repository.
func (P *Program) Pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := P.Fset.Position(p)
	r, err := filepath.Rel(P.Dir, q.Filename)
	if err != nil {
		r = q.Filename
	}
	return fmt.Sprintf("%s:%d", r, q.Line)
}

// FuncName is a stable readable name.
func FuncName(fn *ssa.Function) string {
	if fn.Object() != nil && fn.Parent() == nil {
		if f, ok := fn.Object().(*types.Func); ok && fn.Synthetic == "" {
			return f.FullName()
		}
	}
	return fn.String()
}

// ---- package variables

func (P *Program) scanGlobals() {
	writes := map[*ssa.Global]int{}
	escapes := map[*ssa.Global]bool{}
	inits := map[*ssa.Global]ssa.Value{}
	for fn := range ssautil.AllFunctions(P.Prog) {
		isInit := fn.Synthetic != "" && fn.Name() == "init"
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch x := in.(type) {
					case *ssa.Store:
						if x.Addr == g {
							writes[g]++
							if isInit && b != nil {
								inits[g] = x.Val
							} else {
								escapes[g] = true
							}
							continue
						}
						escapes[g] = true
					case *ssa.UnOp:
						continue
					case *ssa.FieldAddr, *ssa.IndexAddr:
						continue // element access; conservative handling below for stores
					case *ssa.DebugRef:
						continue
					default:
						escapes[g] = true
					}
				}
			}
		}
	}
	P.globals = map[string]*Term{}
	for g, v := range inits {
		if writes[g] != 1 || escapes[g] {
			continue
		}
		name := globalName(g)
		switch x := v.(type) {
		case *ssa.Const:
			P.globals[name] = nil
			globalInit[name] = x
		case *ssa.Slice, *ssa.UnOp:
			globalInit[name] = v
		}
		switch x := v.(type) {
		case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeInterface, *ssa.MakeClosure, *ssa.Function, *ssa.MakeChan, *ssa.Slice, *ssa.MakeSlice:
			NonNilGlobals[name] = true
		case *ssa.Call:
			if c := x.Call.StaticCallee(); c != nil {
				n := FuncName(c)
				if n == "regexp.MustCompile" && len(x.Call.Args) == 1 {
					if k, ok := x.Call.Args[0].(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
						if re, err := regexp.Compile(constant.StringVal(k.Value)); err == nil {
							regexGroups[name] = re.NumSubexp()
						}
					}
				}
				if NonNilFuncs[n] || strings.Contains(n, ".Must") || strings.Contains(n, "prometheus.New") || strings.HasPrefix(n, "flag.") {
					NonNilGlobals[name] = true
				}
			}
		}
	}
}

var globalInit = map[string]ssa.Value{}

func globalName(g *ssa.Global) string {
	if g.Pkg == nil {
		return g.Name()
	}
	return g.Pkg.Pkg.Path() + "." + g.Name()
}

// GlobalConst resolves a package variable that is set once, at initialisation,
// to a constant or to a literal of constants.
func (an *Analyzer) GlobalConst(name string) *Term {
	if t, ok := an.gconst[name]; ok {
		return t
	}
	an.gconst[name] = nil
	v, ok := globalInit[name]
	if !ok {
		return nil
	}
	var t *Term
	switch x := v.(type) {
	case *ssa.Const:
		t = an.constTerm(x)
	case *ssa.Slice:
		al, ok := x.X.(*ssa.Alloc)
		if !ok || x.Low != nil || x.High != nil {
			return nil
		}
		arr, ok := elemOf(al.Type()).Underlying().(*types.Array)
		if !ok {
			return nil
		}
		els := make([]*Term, arr.Len())
		for i := range els {
			els[i] = an.W.ZeroOf(arr.Elem())
		}
		for _, r := range *al.Referrers() {
			if ia, ok := r.(*ssa.IndexAddr); ok {
				ic, ok1 := ia.Index.(*ssa.Const)
				if !ok1 {
					return nil
				}
				for _, rr := range *ia.Referrers() {
					st, ok := rr.(*ssa.Store)
					if !ok {
						return nil
					}
					c, ok := st.Val.(*ssa.Const)
					if !ok {
						return nil
					}
					n, _ := constant.Int64Val(ic.Value)
					els[n] = an.constTerm(c)
				}
			}
		}
		t = an.W.mk(OSliceLit, "", x.Type(), nil, nil, els)
	}
	an.gconst[name] = t
	return t
}

// ---- effects of functions that are not followed

// Mods is the set of memory classes fn may write, transitively.
func (P *Program) Mods(fn *ssa.Function) map[string]bool {
	if P.mods == nil {
		P.computeMods()
	}
	return P.mods[fn]
}

func (P *Program) computeMods() {
	P.mods = map[*ssa.Function]map[string]bool{}
	callees := map[*ssa.Function][]*ssa.Function{}
	for _, fn := range P.Funcs {
		P.mods[fn] = directMods(fn)
		if n := P.CG.Nodes[fn]; n != nil {
			for _, e := range n.Out {
				if P.InModule(e.Callee.Func) {
					callees[fn] = append(callees[fn], e.Callee.Func)
				}
			}
		}
		for _, a := range fn.AnonFuncs {
			callees[fn] = append(callees[fn], a)
		}
	}
	for again := true; again; {
		again = false
		for _, fn := range P.Funcs {
			m := P.mods[fn]
			for _, c := range callees[fn] {
				for k := range P.mods[c] {
					if !m[k] {
						m[k] = true
						again = true
					}
				}
			}
		}
	}
}

func directMods(fn *ssa.Function) map[string]bool {
	m := map[string]bool{}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if ownObject(x.Addr) {
					continue // an object of this very call, which nobody else has known before
				}
				if c := ssaClass(x.Addr); c != "" {
					m[c] = true
				}
			case *ssa.MapUpdate:
				m[ssaMapClass(x.Map)] = true
			case ssa.CallInstruction:
				cc := x.Common()
				if bi, ok := cc.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "delete", "clear":
						m[ssaMapClass(cc.Args[0])] = true
					case "copy":
						if sl, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok {
							m["E:"+types.TypeString(sl.Elem(), nil)] = true
						}
					}
					continue
				}
				if cal := cc.StaticCallee(); cal != nil && cal.Blocks == nil || cc.StaticCallee() == nil {
					// pointer arguments of external calls
					for _, a := range cc.Args {
						if mi, ok := a.(*ssa.MakeInterface); ok {
							a = mi.X
						}
						if _, ok := a.Type().Underlying().(*types.Pointer); ok {
							switch a.(type) {
							case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Global:
								if c := ssaClass(a); c != "" {
									m[c] = true
								}
							}
						}
					}
				}
			}
		}
	}
	return m
}

// ownObject: the address lies in an object the function itself creates.
func ownObject(a ssa.Value) bool {
	for {
		switch x := a.(type) {
		case *ssa.FieldAddr:
			a = x.X
		case *ssa.IndexAddr:
			a = x.X
		case *ssa.Alloc:
			return true
		default:
			return false
		}
	}
}

func ssaClass(a ssa.Value) string {
	switch x := a.(type) {
	case *ssa.Alloc:
		if !x.Heap {
			return ""
		}
		return "P:" + types.TypeString(elemOf(x.Type()), nil)
	case *ssa.FieldAddr:
		if al, ok := x.X.(*ssa.Alloc); ok && !al.Heap {
			return ""
		}
		st, _ := structType(elemOf(x.X.Type()))
		return "F:" + structOwner(x.X.Type()) + "." + st.Field(x.Field).Name()
	case *ssa.IndexAddr:
		if al, ok := x.X.(*ssa.Alloc); ok && !al.Heap {
			return ""
		}
		return "E:" + types.TypeString(elemOf(x.Type()), nil)
	case *ssa.Global:
		return "G:" + globalName(x)
	}
	return "P:" + types.TypeString(elemOf(a.Type()), nil)
}

func ssaMapClass(v ssa.Value) string {
	ts := types.TypeString(v.Type().Underlying(), nil)
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		switch x := u.X.(type) {
		case *ssa.FieldAddr:
			st, _ := structType(elemOf(x.X.Type()))
			return "M:" + structOwner(x.X.Type()) + "." + st.Field(x.Field).Name() + "|" + ts
		case *ssa.Global:
			return "M:" + globalName(x) + "|" + ts
		}
	}
	return "MT:" + ts
}

// InitCall names the function whose result initialises the variable, if its name has the prefix
// and nothing else assigns the variable.
func InitCall(g *ssa.Global, prefix string) string {
	if g.Pkg == nil {
		return ""
	}
	init := g.Pkg.Func("init")
	if init == nil {
		return ""
	}
	name := ""
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok && st.Addr == g {
				c, ok := st.Val.(*ssa.Call)
				if !ok || c.Call.StaticCallee() == nil {
					return ""
				}
				name = FuncName(c.Call.StaticCallee())
			}
		}
	}
	if !strings.HasPrefix(name, prefix) {
		return ""
	}
	return name
}
