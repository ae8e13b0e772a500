package flow

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type callRes struct {
	st  *State
	res *Term
}

func ret(st *State, t *Term) []callRes { return []callRes{{st, t}} }

// callee evaluates the function and the arguments (receiver first).
func (an *Analyzer) callee(st *State, cc *ssa.CallCommon) (*Term, []*Term) {
	var args []*Term
	if cc.IsInvoke() {
		args = append(args, an.val(st, cc.Value))
		for _, a := range cc.Args {
			args = append(args, an.val(st, a))
		}
		return an.W.mk(OFunc, "invoke "+cc.Method.FullName(), cc.Method.Type(), nil, nil, nil), args
	}
	for _, a := range cc.Args {
		args = append(args, an.val(st, a))
	}
	return an.val(st, cc.Value), args
}

func (an *Analyzer) calleeName(cc *ssa.CallCommon, fn *Term) string {
	if strings.HasPrefix(fn.Aux, "invoke ") {
		return fn.Aux[7:]
	}
	if fn.Op == OFunc || fn.Op == OClosure {
		return fn.Aux
	}
	return "dyn " + fn.String()
}

var fatalFuncs = map[string]bool{
	"log.Fatal": true, "log.Fatalf": true, "log.Fatalln": true, "os.Exit": true, "runtime.Goexit": true,
	"log.Panic": true, "log.Panicf": true, "log.Panicln": true,
}

// IsFatal reports functions that end the process.
func IsFatal(name string) bool {
	if fatalFuncs[name] {
		return true
	}
	if strings.Contains(name, "sirupsen/logrus") {
		i := strings.LastIndex(name, ".")
		m := name[i+1:]
		return strings.HasPrefix(m, "Fatal") || strings.HasPrefix(m, "Panic") || m == "Exit"
	}
	return false
}

var boringPkgs = []string{"github.com/sirupsen/logrus", "github.com/getsentry/sentry-go", "github.com/opentracing/opentracing-go", "github.com/prometheus/client_golang", "github.com/uber/jaeger", "log", "runtime/debug"}

// IsBoring reports functions without effect on the properties: logging, tracing and metrics.
func IsBoring(name string) bool {
	n := strings.TrimLeft(name, "(*")
	for _, p := range boringPkgs {
		if strings.HasPrefix(n, p+".") || strings.HasPrefix(n, p+"/") || strings.HasPrefix(n, p+"-") {
			return true
		}
	}
	return strings.HasPrefix(n, "fmt.Print") || strings.HasPrefix(n, "fmt.Fprint")
}

var purePkgs = map[string]bool{"strings": true, "strconv": true, "path": true, "unicode": true, "unicode/utf8": true, "encoding/hex": true, "encoding/base64": true, "math": true, "errors": true, "net/netip": true, "math/bits": true, "slices": true, "maps": true}

var pureFuncs = map[string]bool{
	"path/filepath.Join": true, "path/filepath.Clean": true, "path/filepath.Dir": true, "path/filepath.Base": true, "path/filepath.Ext": true, "path/filepath.Rel": true, "path/filepath.IsAbs": true, "path/filepath.IsLocal": true, "path/filepath.ToSlash": true, "path/filepath.FromSlash": true, "path/filepath.Split": true, "path/filepath.SplitList": true, "path/filepath.VolumeName": true, "path/filepath.Match": true,
	"net/url.Parse": true, "net/url.ParseRequestURI": true, "net/url.PathEscape": true, "net/url.QueryEscape": true, "net/url.PathUnescape": true,
	"(*net/url.URL).String": true, "(*net/url.URL).Hostname": true, "(*net/url.URL).Port": true,
	"fmt.Sprintf": true, "fmt.Sprint": true, "fmt.Sprintln": true, "fmt.Errorf": false,
	"crypto/x509.ParseCertificate": true, "crypto/x509.ParseCRL": true, "crypto/x509.ParseRevocationList": true, "crypto/x509.ParsePKIXPublicKey": true, "crypto/x509.ParseDERCRL": true, "crypto/x509.MarshalPKIXPublicKey": true,
	"(*crypto/x509.Certificate).CheckSignatureFrom": true, "(*crypto/x509.Certificate).CheckSignature": true, "(*crypto/x509.Certificate).CheckCRLSignature": true, "(*crypto/x509.RevocationList).CheckSignatureFrom": true,
	"crypto/rsa.VerifyPKCS1v15": true, "crypto/rsa.VerifyPSS": true, "crypto/ecdsa.VerifyASN1": true, "(*crypto/rsa.PublicKey).Equal": true, "(*crypto/rsa.PublicKey).Size": true,
	"encoding/asn1.Marshal": true, "encoding/asn1.MarshalWithParams": true, "(encoding/asn1.ObjectIdentifier).String": true, "(encoding/asn1.BitString).At": true, "(encoding/asn1.BitString).RightAlign": true,
	"net.ParseCIDR": true, "net.ParseIP": true, "net.CIDRMask": true, "net.IPv4": true, "net.IPv4Mask": true, "(net.IP).To4": true, "(net.IP).To16": true, "(net.IP).String": true, "(net.IP).Mask": true, "(*net.IPNet).Contains": true, "(*net.IPNet).String": true, "(net.IPMask).Size": true, "(net.IPMask).String": true, "(net.IP).IsUnspecified": true,
	"(time.Time).Unix": true, "(time.Time).UnixNano": true, "(time.Time).String": true, "(time.Time).Format": true, "(time.Time).IsZero": true, "(time.Time).Truncate": true, "(time.Time).Round": true, "(time.Duration).String": true, "(time.Duration).Seconds": true, "time.Unix": true, "time.Date": true, "time.Parse": true, "time.ParseDuration": true, "(time.Duration).Nanoseconds": true, "(time.Time).UnixMilli": true, "(time.Time).AddDate": true,
	"(*math/big.Int).String": true, "(*math/big.Int).Text": true, "(*math/big.Int).Bytes": true, "(*math/big.Int).Int64": true, "(*math/big.Int).Uint64": true, "(*math/big.Int).IsInt64": true, "(*math/big.Int).IsUint64": true, "(*math/big.Int).BitLen": true, "math/big.NewInt": true,
	"os.IsNotExist": true, "os.IsExist": true, "os.IsPermission": true,
	"bytes.HasPrefix": true, "bytes.HasSuffix": true, "bytes.Contains": true, "bytes.TrimSpace": true, "bytes.Split": true, "bytes.Index": true, "bytes.Trim": true, "bytes.TrimRight": true, "bytes.TrimLeft": true, "bytes.ToLower": true, "bytes.Join": true, "bytes.IndexByte": true, "bytes.ContainsAny": true,
	"(*regexp.Regexp).FindStringSubmatch": true, "(*regexp.Regexp).MatchString": true, "(*regexp.Regexp).Match": true, "(*regexp.Regexp).FindString": true, "(*regexp.Regexp).FindSubmatch": true, "(*regexp.Regexp).ReplaceAllString": true, "regexp.MatchString": true,
	"(error).Error": true, "reflect.TypeOf": true, "(net.Error).Timeout": true, "(fmt.Stringer).String": true, "(net/http.Header).Get": true,
	"(net.Addr).String": true, "context.Background": true, "context.TODO": true, "(io/fs.FileInfo).Name": true, "(io/fs.FileInfo).IsDir": true, "(os.FileInfo).Name": true, "(os.FileInfo).IsDir": true, "(io/fs.DirEntry).Name": true, "(io/fs.DirEntry).IsDir": true, "(*os.ProcessState).Success": true,
	"(github.com/cloudflare/gortr/prefixfile.ROAJson).GetPrefix": true, "(*github.com/cloudflare/gortr/prefixfile.ROAJson).GetPrefix": true, "(*github.com/cloudflare/gortr/prefixfile.ROAJson).String": true, "(github.com/cloudflare/gortr/prefixfile.ROAJson).String": true, "(*github.com/cloudflare/gortr/prefixfile.ROAJson).GetASN": true, "(*github.com/cloudflare/gortr/prefixfile.ROAJson).GetMaxLen": true, "(*github.com/cloudflare/gortr/prefixfile.ROAJson).GetPrefixLen": true,
}

var noEffect = map[string]bool{ // effects that matter only as events
	"(*sync.Mutex).Lock": true, "(*sync.Mutex).Unlock": true, "(*sync.RWMutex).Lock": true, "(*sync.RWMutex).Unlock": true, "(*sync.RWMutex).RLock": true, "(*sync.RWMutex).RUnlock": true,
	"(*sync.WaitGroup).Add": true, "(*sync.WaitGroup).Done": true, "(*sync.WaitGroup).Wait": true, "time.Now": true, "time.Since": true, "time.Sleep": true,
	"(net/http.ResponseWriter).WriteHeader": true, "(net/http.ResponseWriter).Write": true, "(net/http.Header).Set": true, "(net/http.Header).Add": true, "(io.Closer).Close": true, "(io.ReadCloser).Close": true,
	"(*github.com/cloudflare/gortr/prefixfile.ROAList).Sign": true, // C20 looks at it
}

func isPure(name string) bool {
	if v, ok := pureFuncs[name]; ok {
		return v
	}
	if strings.HasPrefix(name, "(") {
		return false
	}
	if i := strings.LastIndex(name, "."); i > 0 {
		if purePkgs[name[:i]] {
			return name != "strings.NewReader" && name != "errors.New" && name != "strings.NewReplacer"
		}
	}
	return false
}

func (an *Analyzer) sigResult(cc *ssa.CallCommon) types.Type {
	r := cc.Signature().Results()
	switch r.Len() {
	case 0:
		return types.NewTuple()
	case 1:
		return r.At(0).Type()
	}
	return r
}

func (an *Analyzer) inlinable(fr *Frame, fn *ssa.Function) bool {
	if fn == nil || len(fn.Blocks) == 0 || !an.P.InModule(fn) {
		return false
	}
	if an.Opaque != nil && an.Opaque(fn) {
		return false
	}
	d := 0
	for f := fr; f != nil; f = f.Parent {
		if f.Fn == fn {
			return false
		}
		d++
	}
	return d < an.MaxDepth
}

func (an *Analyzer) call(act *activation, st *State, in ssa.Instruction, cc *ssa.CallCommon, fn *Term, args []*Term) []callRes {
	w, fr := an.W, act.fr
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return an.builtin(act, st, in, cc, b.Name(), args)
	}
	f := termFn(fn)
	name := an.calleeName(cc, fn)
	if cc.IsInvoke() {
		if r := args[0]; r.Op == OMkIface && !types.IsInterface(r.Typ) {
			if m := an.P.Prog.LookupMethod(r.Typ, cc.Method.Pkg(), cc.Method.Name()); m != nil {
				f = m
				args = append([]*Term{r.Args[0]}, args[1:]...)
				name = FuncName(m)
			}
		}
	}
	site := an.site(fr, in, "call")
	rt := an.sigResult(cc)
	if IsFatal(name) {
		an.event(st, &Event{Kind: "fatal", Name: name, Args: args, Instr: in, Frame: fr, Fn: f, Callee: fn})
		an.oblig(st, fr, "fatal", fn, in, false)
		act.exits = append(act.exits, Exit{St: st, Kind: "fatal", Instr: in})
		return nil
	}
	if IsBoring(name) {
		r := w.mk(OSym, "boring", rt, site, nil, nil)
		if strings.HasPrefix(name, "fmt.") {
			an.event(st, &Event{Kind: "call", Name: name, Args: args, Res: r, Fn: f, Instr: in, Frame: fr, Callee: fn})
		}
		if isNilable(rt) {
			if n := st.Assume(w.EqAtom(r, w.Nil), false); n != nil {
				st = n
			}
		}
		return ret(st, r)
	}
	ev := &Event{Kind: "call", Name: name, Args: args, Fn: f, Instr: in, Frame: fr, Callee: fn}
	if f != nil && an.P.InModule(f) {
		if an.Split != nil {
			if rs, ok := an.Split(st, f, args, site); ok {
				var out []callRes
				for _, r := range rs {
					e := *ev
					e.Res = r.Res
					an.event(r.St, &e)
					out = append(out, callRes{r.St, r.Res})
				}
				return out
			}
		}
		if an.Model != nil {
			if r, ok := an.Model(st, f, args, site); ok {
				ev.Res = r
				an.event(st, ev)
				return ret(st, r)
			}
		}
		if an.Pure != nil && an.Pure(f) {
			r := w.mk(OCall, name, rt, nil, nil, args)
			ev.Res = r
			an.event(st, ev)
			return ret(st, r)
		}
		if an.inlinable(fr, f) {
			an.event(st, ev)
			return an.inline(act, st, in, f, fn, args)
		}
		if an.recursive(fr, f) {
			an.oblig(st, fr, "recursion", fn, in, false)
		}
		r := w.mk(OCall, name, rt, site, "mod", args)
		ev.Res = r
		an.event(st, ev)
		for c := range an.P.Mods(f) {
			st.havocClass(c, site)
		}
		an.havocPtrs(st, args, site)
		return an.fresh(st, r, site)
	}
	if an.ModelExt != nil {
		if r, ok := an.ModelExt(st, name, args, site); ok {
			ev.Res = r
			an.event(st, ev)
			return ret(st, r)
		}
	}
	if r, ok := an.model(st, name, args, site, rt); ok {
		ev.Res = r
		an.event(st, ev)
		return ret(st, r)
	}
	if isPure(name) {
		r := w.mk(OCall, name, rt, nil, "ext", byContent(st, args))
		ev.Res = r
		an.event(st, ev)
		return ret(st, r)
	}
	// effects of unknown code
	var tag any = "ext"
	if cc.IsInvoke() && cc.Method.Pkg() != nil && an.P.inMod(cc.Method.Pkg()) || f == nil && !cc.IsInvoke() {
		tag = "mod"
	}
	r := w.mk(OCall, name, rt, site, tag, args)
	ev.Res = r
	an.event(st, ev)
	if an.Arith {
		an.bounded(st, name, args, r)
	}
	if noEffect[name] {
		return an.fresh(st, r, site)
	}
	if tag == "mod" {
		if n := an.P.CG.Nodes[fr.Fn]; n != nil {
			for _, e := range n.Out {
				if e.Site == in && an.P.InModule(e.Callee.Func) {
					for c := range an.P.Mods(e.Callee.Func) {
						st.havocClass(c, site)
					}
				}
			}
		}
	}
	an.havocArgs(st, args, site)
	return an.fresh(st, r, site)
}

// byContent replaces pointers to local structs by what they point to: the result of a pure function depends on that, and it may be
// written to between two calls.
func byContent(st *State, args []*Term) []*Term {
	var out []*Term
	for i, a := range args {
		if a == nil || a.Typ == nil {
			continue
		}
		p, ok := a.Typ.Underlying().(*types.Pointer)
		if !ok || !FreshAddr(a) {
			continue
		}
		if _, ok := p.Elem().Underlying().(*types.Struct); !ok {
			continue
		}
		if v := st.Load(a, p.Elem()); v != nil {
			if out == nil {
				out = append(out, args...)
			}
			out[i] = v
		}
	}
	if out == nil {
		return args
	}
	return out
}

func (an *Analyzer) recursive(fr *Frame, fn *ssa.Function) bool {
	for f := fr; f != nil; f = f.Parent {
		if f.Fn == fn {
			return true
		}
	}
	return false
}

// fresh forgets facts about an earlier result of the same call site.
func (an *Analyzer) fresh(st *State, r *Term, site *Site) []callRes {
	return ret(st, r)
}

// havocArgs: external code may write through pointers it is given.
func (an *Analyzer) havocArgs(st *State, args []*Term, site *Site) {
	w := an.W
	for i, a := range args {
		if a.Op == OMkIface {
			a = a.Args[0]
		}
		an.havocArg(st, a, fmt.Sprint(i), site)
		if a.Op == OSliceLit {
			for j, e := range a.Args {
				if e.Op == OMkIface {
					e = e.Args[0]
				}
				an.havocArg(st, e, fmt.Sprintf("%d.%d", i, j), site)
			}
		}
		if a.Op == OClosure {
			if f := termFn(a); f != nil && an.P.InModule(f) {
				for c := range an.P.Mods(f) {
					st.havocClass(c, site)
				}
				for _, b := range a.Args {
					an.havocArg(st, b, "free", site)
				}
			}
		}
	}
	_ = w
}

func (an *Analyzer) havocArg(st *State, a *Term, tag string, site *Site) {
	w := an.W
	switch a.Op {
	case OAlloc, OFieldAddr, OIndexAddr, OGlobal, OParam, ODeref, OExtract, OCall, OSym:
		if a.Typ == nil {
			return
		}
		e := elemOf(a.Typ)
		if e == nil {
			return
		}
		if a.Op != OAlloc && a.Op != OFieldAddr && a.Op != OIndexAddr && a.Op != OGlobal {
			// opaque pointer: only of interest when it points into the repository's data
			n, ok := e.(*types.Named)
			if !ok || n.Obj().Pkg() == nil || !an.P.inMod(n.Obj().Pkg()) {
				return
			}
		}
		out := w.mk(OOut, tag, e, site, nil, []*Term{a})
		st.Store(a, out, site)
	case OSlice:
		if a.Args[0].Op == OAlloc {
			an.havocArg(st, a.Args[0], tag, site)
		}
	}
}

// havocPtrs drops private cells that a skipped repository function was given a pointer to.
func (an *Analyzer) havocPtrs(st *State, args []*Term, site *Site) {
	for i, a := range args {
		if a.Op == OMkIface {
			a = a.Args[0]
		}
		if a.Op == OAlloc {
			an.havocArg(st, a, fmt.Sprint(i), site)
		}
	}
}

func (an *Analyzer) inline(act *activation, st *State, in ssa.Instruction, f *ssa.Function, fn *Term, args []*Term) []callRes {
	w := an.W
	savedEnv, savedDef := st.env, st.defers
	n := st.clone()
	n.env = map[ssa.Value]*Term{}
	n.defers = nil
	n.outer = &outerFrame{savedEnv, savedDef, st.outer}
	for i, p := range f.Params {
		if i < len(args) {
			n.env[p] = args[i]
		}
	}
	if fn.Op == OClosure {
		for i, fv := range f.FreeVars {
			if i < len(fn.Args) {
				n.env[fv] = fn.Args[i]
			}
		}
	}
	nf := w.frame(act.fr, in, f)
	exits := an.run(nf, n)
	var out []callRes
	type grp struct {
		st  *State
		res *Term
	}
	groups := map[string][]grp{}
	var order []string
	for _, e := range exits {
		e.St.defers = savedDef
		e.St.outer = st.outer
		if e.Kind != "return" {
			e.St.env = map[ssa.Value]*Term{}
			act.exits = append(act.exits, e)
			continue
		}
		e.St.env = copyEnv(savedEnv)
		var r *Term
		switch len(e.Results) {
		case 0:
			r = w.Nil
		case 1:
			r = e.Results[0]
		default:
			r = w.mk(OTuple, "", f.Signature.Results(), nil, nil, e.Results)
		}
		e.St.gc(r)
		k := fmt.Sprintf("%d|%s", r.ID, e.St.baseKey(map[ssa.Value]bool{}))
		if groups[k] == nil {
			order = append(order, k)
		}
		groups[k] = append(groups[k], grp{e.St, r})
	}
	for _, k := range order {
		g := groups[k]
		fs := make([]*Facts, len(g))
		for i := range g {
			fs[i] = g[i].st.F
		}
		fs = reduceFacts(fs)
		for len(fs) > an.MaxFacts {
			an.Joined++
			fs = reduceFacts(joinClosest(fs))
		}
		for _, f := range fs {
			s := g[0].st.clone()
			s.F = f
			out = append(out, callRes{s, g[0].res})
		}
	}
	return out
}

func (an *Analyzer) builtin(act *activation, st *State, in ssa.Instruction, cc *ssa.CallCommon, name string, args []*Term) []callRes {
	w, fr := an.W, act.fr
	site := an.site(fr, in, "builtin")
	rt := an.sigResult(cc)
	switch name {
	case "len":
		a := args[0]
		if a.Op == OMake && a.Aux == "map" {
			return ret(st, w.mk(OLen, "", types.Typ[types.Int], site, nil, []*Term{a}))
		}
		if cc.Args[0].Type() != nil {
			if _, ok := cc.Args[0].Type().Underlying().(*types.Map); ok {
				as := []*Term{a}
				if v := st.version(mapClass(a)); v != nil {
					as = append(as, v)
				}
				if a.Op == ONil {
					return ret(st, w.Zero0)
				}
				return ret(st, w.mk(OLen, "", types.Typ[types.Int], nil, nil, as))
			}
		}
		return ret(st, w.Len(a))
	case "cap":
		return ret(st, w.mk(OCall, "cap", types.Typ[types.Int], nil, nil, args))
	case "append":
		a := args[0]
		if len(args) == 1 {
			return ret(st, a)
		}
		b := args[1]
		if b.Typ != nil && isString(b.Typ) {
			b = w.mk(OConv, "bytes", rt, nil, nil, []*Term{b})
		}
		an.event(st, &Event{Kind: "append", Name: "append", Args: []*Term{a, b}, Instr: in, Frame: fr})
		return ret(st, w.Append(a, b, rt))
	case "delete":
		an.event(st, &Event{Kind: "mapdel", Name: mapClass(args[0]), Args: args, Instr: in, Frame: fr})
		st.MapDelete(args[0], args[1], site)
		return ret(st, w.Nil)
	case "copy":
		an.event(st, &Event{Kind: "copy", Name: "copy", Args: args, Instr: in, Frame: fr})
		if sl, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok {
			st.havocClass("E:"+types.TypeString(sl.Elem(), nil), site)
			an.havocArg(st, args[0], "copy", site)
		}
		return ret(st, w.mk(OSym, "copy", types.Typ[types.Int], site, nil, nil))
	case "close":
		an.event(st, &Event{Kind: "close", Name: "close", Args: args, Instr: in, Frame: fr})
		return ret(st, w.Nil)
	case "clear":
		an.event(st, &Event{Kind: "clear", Name: "clear", Args: args, Instr: in, Frame: fr})
		if len(args) > 0 {
			st.havocClass(mapClass(args[0]), site)
		}
		return ret(st, w.Nil)
	case "recover":
		an.event(st, &Event{Kind: "recover", Name: "recover", Instr: in, Frame: fr})
	case "min", "max":
		r := w.mk(OCall, name, rt, nil, nil, args)
		for _, a := range args {
			c := w.OrdLe(r, a)
			if name == "max" {
				c = w.OrdLe(a, r)
			}
			if isIntType(rt) {
				if n := st.Assume(c, true); n != nil {
					st = n
				}
			}
		}
		return ret(st, r)
	case "ssa:wrapnilchk":
		return ret(st, args[0])
	}
	return ret(st, w.mk(OSym, "builtin", rt, site, nil, nil))
}

// Append builds append(a, b...).
func (w *World) Append(a, b *Term, t types.Type) *Term {
	if b.Op == ONil || b.Op == OSliceLit && len(b.Args) == 0 {
		return a
	}
	if b.Op == OSliceLit {
		switch a.Op {
		case ONil:
			return w.mk(OSliceLit, "", t, nil, nil, b.Args)
		case OSliceLit:
			return w.mk(OSliceLit, "", t, nil, nil, append(append([]*Term{}, a.Args...), b.Args...))
		case OMake:
			if n, ok := a.Args[0].IsInt(); ok && n == 0 {
				return w.mk(OSliceLit, "", t, nil, nil, b.Args)
			}
		case OAppend:
			if a.Args[1].Op == OSliceLit {
				return w.Append(a.Args[0], w.mk(OSliceLit, "", t, nil, nil, append(append([]*Term{}, a.Args[1].Args...), b.Args...)), t)
			}
		}
	}
	return w.mk(OAppend, "", t, nil, nil, []*Term{a, b})
}

// model gives meaning to well-known library functions.
func (an *Analyzer) model(st *State, name string, args []*Term, site *Site, rt types.Type) (*Term, bool) {
	w := an.W
	switch name {
	case "(time.Time).After":
		return w.OrdLt(args[1], args[0]), true
	case "(time.Time).Before":
		return w.OrdLt(args[0], args[1]), true
	case "(time.Time).Equal":
		return w.OrdEq(args[0], args[1]), true
	case "(time.Time).Compare", "(*math/big.Int).Cmp":
		return w.mk(OCall, "cmp", rt, nil, nil, []*Term{bigInt(args[0]), bigInt(args[1])}), true
	case "(*math/big.Int).Sign":
		return w.mk(OCall, "cmp", rt, nil, nil, []*Term{bigInt(args[0]), w.Zero0}), true
	case "(time.Time).UTC", "(time.Time).Local", "(time.Time).In":
		return args[0], true
	case "(time.Time).Sub":
		return w.Sub(args[0], args[1], rt), true
	case "(time.Time).Add":
		return w.Add(args[0], args[1], rt), true
	case "bytes.Equal":
		return an.StrEq(w.StrOf(args[0]), w.StrOf(args[1])), true
	case "crypto/hmac.Equal":
		return an.StrEq(w.StrOf(args[0]), w.StrOf(args[1])), true
	case "crypto/subtle.ConstantTimeCompare":
		return w.mk(OCall, "cteq", rt, nil, nil, []*Term{w.StrOf(args[0]), w.StrOf(args[1])}), true
	case "bytes.Compare":
		return w.mk(OCall, "cmp", rt, nil, nil, []*Term{w.StrOf(args[0]), w.StrOf(args[1])}), true
	case "strings.Compare":
		return w.mk(OCall, "cmp", rt, nil, nil, args), true
	case "(encoding/asn1.ObjectIdentifier).Equal", "(net.IP).Equal":
		return w.EqAtom(args[0], args[1]), true
	case "reflect.DeepEqual":
		return an.deepEqual(args[0], args[1]), true
	case "crypto/sha256.Sum256":
		return w.mk(OHash, "sha256", rt, nil, nil, []*Term{w.StrOf(args[0])}), true
	case "crypto/sha1.Sum":
		return w.mk(OHash, "sha1", rt, nil, nil, []*Term{w.StrOf(args[0])}), true
	case "crypto/sha256.New", "crypto/sha1.New":
		alg := "sha256"
		if name == "crypto/sha1.New" {
			alg = "sha1"
		}
		h := w.mk(OCall, name, rt, site, "ext", nil)
		st.mem[h] = w.mk(OHash, alg, nil, nil, nil, nil)
		return h, true
	case "(hash.Hash).Write", "(io.Writer).Write", "io.WriteString":
		if h, ok := st.mem[args[0]]; ok && h.Op == OHash && args[0].Op == OCall {
			st.mem[args[0]] = w.mk(OHash, h.Aux, nil, nil, nil, append(append([]*Term{}, h.Args...), w.StrOf(args[1])))
			return w.mk(OTuple, "", rt, nil, nil, []*Term{w.Len(args[1]), w.Nil}), true
		}
	case "(hash.Hash).Sum":
		if h, ok := st.mem[args[0]]; ok && h.Op == OHash && args[0].Op == OCall {
			r := w.mk(OHash, h.Aux, rt, nil, nil, h.Args)
			if args[1].Op == ONil {
				return r, true
			}
			return w.Append(args[1], r, rt), true
		}
	case "(hash.Hash).Reset":
		if h, ok := st.mem[args[0]]; ok && h.Op == OHash {
			st.mem[args[0]] = w.mk(OHash, h.Aux, nil, nil, nil, nil)
			return w.Nil, true
		}
	case "math/big.NewInt":
		if _, ok := args[0].IsInt(); ok {
			return w.mk(OCall, name, rt, nil, "ext", args), true
		}
	case "strings.HasPrefix":
		if p, ok := args[1].IsStr(); ok {
			if s, ok := args[0].IsStr(); ok {
				return w.Bool(strings.HasPrefix(s, p)), true
			}
			if args[0].Op == OCat {
				if s, ok := args[0].Args[0].IsStr(); ok && strings.HasPrefix(s, p) {
					return w.True, true
				}
			}
		}
	case "strings.ToUpper", "strings.ToLower":
		if s, ok := args[0].IsStr(); ok {
			if name == "strings.ToUpper" {
				return w.Str(strings.ToUpper(s)), true
			}
			return w.Str(strings.ToLower(s)), true
		}
	case "strings.Index", "strings.LastIndex":
		// handled as pure, bounds in facts
	case "fmt.Sprintf":
		if t := an.sprintf(args); t != nil {
			return t, true
		}
	case "errors.New", "fmt.Errorf":
		return w.mk(OCall, name, rt, site, "ext", args), true
	case "path/filepath.Join", "path.Join":
		if args[0].Op == OSliceLit {
			return w.mk(OCall, "path/filepath.Join", rt, nil, "ext", args[0].Args), true
		}
	}
	return nil, false
}

func bigInt(t *Term) *Term {
	if t.Op == OCall && t.Aux == "math/big.NewInt" {
		return t.Args[0]
	}
	return t
}

func (an *Analyzer) deepEqual(a, b *Term) *Term {
	if a.Op == OMkIface && b.Op == OMkIface {
		if !types.Identical(a.Typ, b.Typ) {
			return an.W.False
		}
		a, b = a.Args[0], b.Args[0]
		if isStrOrBytes(a.Typ0()) && isStrOrBytes(b.Typ0()) {
			return an.StrEq(an.W.StrOf(a), an.W.StrOf(b))
		}
	}
	return an.W.EqAtom(a, b)
}

// Typ0 is the type or an empty struct when unknown.
func (t *Term) Typ0() types.Type {
	if t.Typ == nil {
		return types.NewStruct(nil, nil)
	}
	return t.Typ
}

// sprintf turns formats of plain strings into concatenations.
func (an *Analyzer) sprintf(args []*Term) *Term {
	w := an.W
	f, ok := args[0].IsStr()
	if !ok || len(args) < 2 {
		return nil
	}
	var as []*Term
	switch args[1].Op {
	case OSliceLit:
		as = args[1].Args
	case ONil:
	default:
		return nil
	}
	var parts []*Term
	cur := ""
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			cur += string(f[i])
			continue
		}
		i++
		if i >= len(f) {
			return nil
		}
		switch f[i] {
		case '%':
			cur += "%"
		case 's', 'v', 'd', 'x':
			if len(as) == 0 || as[0].Op != OMkIface {
				return nil
			}
			a := as[0].Args[0]
			at := as[0].Typ
			as = as[1:]
			parts = append(parts, w.Str(cur))
			cur = ""
			if f[i] != 'd' && f[i] != 'x' && isString(at) && !hasStringMethod(at) {
				parts = append(parts, a)
			} else {
				parts = append(parts, w.mk(OCall, "fmt%"+string(f[i]), types.Typ[types.String], nil, nil, []*Term{a}))
			}
		default:
			return nil
		}
	}
	parts = append(parts, w.Str(cur))
	if len(as) != 0 {
		return nil
	}
	return w.Cat(parts...)
}

func hasStringMethod(t types.Type) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if n := ms.At(i).Obj().Name(); n == "String" || n == "Error" {
			return true
		}
	}
	return false
}

var _ = constant.MakeBool
