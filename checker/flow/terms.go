// Package flow is a path-sensitive dataflow analysis over Go SSA. Values are
// hash-consed terms; states carry memory cells, predicate facts and
// difference-bound facts. Nothing is executed and no solver is used: facts are
// propagated, joined by exact resolution or intersection, and loops are run to
// a fixpoint with widening.
package flow

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Op uint8

const (
	OConst     Op = iota // Const
	ONil                 // nil of any type
	OZero                // zero struct/array
	OParam               // function parameter of the root function, or a symbol made by a rule
	OGlobal              // address of a package variable
	OFunc                // function value
	OClosure             // function value with bindings
	OAlloc               // address of a fresh cell
	OFieldAddr           // address: Args[0] base address, Aux field name
	OIndexAddr           // address: Args[0] slice or array address, Args[1] index
	OMapElem             // pseudo address of a map element
	ODeref               // content of Args[0] (Args[1]: version)
	OField               // field of an opaque struct value
	OIndex               // element of an array/string value
	OLookup              // map lookup value
	OLookupOk            // map lookup presence (bool)
	OCall                // result of a call; Aux callee; Args arguments [receiver first]
	OExtract             // component of an opaque tuple
	OOut                 // value written through a pointer argument by an external call
	OBin                 // binary operation
	OUn                  // unary operation
	OLen                 // len
	OConv                // value changing conversion
	OMkIface             // interface holding Args[0]
	OAssert              // x.(T)
	OTypeIs              // x holds T (bool)
	OSlice               // x[lo:hi]
	OSliceLit            // slice literal with known elements
	OAppend              // append(a, b...)
	OStruct              // struct value with known fields
	OTuple               // call result tuple
	OSym                 // fresh symbol (Site)
	OMake                // make(map/chan/slice)
	OCat                 // string concatenation
	OLin                 // linear combination: Args vars, Obj []int64 coefficients + const
	OHash                // digest of Args concatenated; Aux algorithm
	OEq                  // equality atom
	OLt                  // order atom a<b (only used to name conditions)
	OLe                  //
	ONot                 //
	OIter                // range iterator
	OBound               // bound method value
)

// Term is a hash-consed value. Compare with ==.
type Term struct {
	ID   int
	Op   Op
	Args []*Term
	Aux  string
	Typ  types.Type
	Site *Site
	Obj  any
	syms []*Term // fresh symbols inside, sorted by ID
}

// Frame is an inlining context.
type Frame struct {
	ID     int
	Parent *Frame
	Call   ssa.Instruction // in Parent.Fn
	Fn     *ssa.Function
}

// Depth is the number of enclosing frames.
func (f *Frame) Depth() int {
	n := 0
	for ; f.Parent != nil; f = f.Parent {
		n++
	}
	return n
}

// Site identifies a program point in a context, for fresh symbols.
type Site struct {
	ID    int
	Frame *Frame
	Block *ssa.BasicBlock
	Instr ssa.Instruction // may be nil (block site)
	Tag   string
}

func (s *Site) Pos() token.Pos {
	if s.Instr != nil {
		return InstrPos(s.Instr)
	}
	if s.Block != nil {
		for _, i := range s.Block.Instrs {
			if p := i.Pos(); p.IsValid() {
				return p
			}
		}
	}
	return token.NoPos
}

// World owns the interning tables.
type World struct {
	terms  map[string]*Term
	n      int
	frames map[string]*Frame
	sites  map[string]*Site
	Nil    *Term
	True   *Term
	False  *Term
	Zero0  *Term // the integer 0

	shapes   map[*Term]int
	shapeIDs map[string]int
}

func NewWorld() *World {
	w := &World{terms: map[string]*Term{}, frames: map[string]*Frame{}, sites: map[string]*Site{}}
	w.Nil = w.mk(ONil, "", nil, nil, nil, nil)
	w.True = w.Const(constant.MakeBool(true))
	w.False = w.Const(constant.MakeBool(false))
	w.Zero0 = w.Int(0)
	return w
}

func (w *World) frame(parent *Frame, call ssa.Instruction, fn *ssa.Function) *Frame {
	pid := -1
	if parent != nil {
		pid = parent.ID
	}
	k := fmt.Sprintf("%d|%p|%p", pid, call, fn)
	if f := w.frames[k]; f != nil {
		return f
	}
	f := &Frame{ID: len(w.frames), Parent: parent, Call: call, Fn: fn}
	w.frames[k] = f
	return f
}

func (w *World) site(fr *Frame, b *ssa.BasicBlock, in ssa.Instruction, tag string) *Site {
	k := fmt.Sprintf("%d|%p|%p|%s", fr.ID, b, in, tag)
	if s := w.sites[k]; s != nil {
		return s
	}
	s := &Site{ID: len(w.sites), Frame: fr, Block: b, Instr: in, Tag: tag}
	w.sites[k] = s
	return s
}

func (w *World) mk(op Op, aux string, typ types.Type, site *Site, obj any, args []*Term) *Term {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d|%s|", op, aux)
	if site != nil {
		fmt.Fprintf(&sb, "s%d", site.ID)
	}
	for _, a := range args {
		fmt.Fprintf(&sb, ",%d", a.ID)
	}
	switch op {
	case OConv, OAssert, OTypeIs, OZero, OMkIface:
		if typ != nil {
			sb.WriteString("|" + types.TypeString(typ, nil))
		}
	}
	if op == OLin {
		fmt.Fprintf(&sb, "|%v", obj)
	}
	k := sb.String()
	if t := w.terms[k]; t != nil {
		return t
	}
	t := &Term{ID: w.n, Op: op, Args: args, Aux: aux, Typ: typ, Site: site, Obj: obj}
	w.n++
	seen := map[*Term]bool{}
	for _, a := range args {
		for _, s := range a.syms {
			seen[s] = true
		}
	}
	if site != nil {
		seen[t] = true
	}
	for s := range seen {
		t.syms = append(t.syms, s)
	}
	sort.Slice(t.syms, func(i, j int) bool { return t.syms[i].ID < t.syms[j].ID })
	w.terms[k] = t
	return t
}

func (w *World) Const(v constant.Value) *Term {
	return w.mk(OConst, v.Kind().String()+":"+v.ExactString(), nil, nil, v, nil)
}
func (w *World) Int(n int64) *Term  { return w.Const(constant.MakeInt64(n)) }
func (w *World) Str(s string) *Term { return w.Const(constant.MakeString(s)) }
func (w *World) Bool(b bool) *Term {
	if b {
		return w.True
	}
	return w.False
}
func (w *World) Param(name string, t types.Type) *Term { return w.mk(OParam, name, t, nil, nil, nil) }

func (w *World) Sym(site *Site, t types.Type) *Term { return w.mk(OSym, "", t, site, nil, nil) }

// ConstVal returns the constant of an OConst term.
func (t *Term) ConstVal() constant.Value {
	if t.Op == OConst {
		return t.Obj.(constant.Value)
	}
	return nil
}

func (t *Term) IsInt() (int64, bool) {
	if t.Op == OConst {
		v := t.Obj.(constant.Value)
		if v.Kind() == constant.Int {
			return constant.Int64Val(v)
		}
	}
	return 0, false
}

func (t *Term) IsStr() (string, bool) {
	if t.Op == OConst {
		v := t.Obj.(constant.Value)
		if v.Kind() == constant.String {
			return constant.StringVal(v), true
		}
	}
	return "", false
}

var opNames = map[Op]string{OConst: "const", ONil: "nil", OZero: "zero", OParam: "param", OGlobal: "global", OFunc: "func", OClosure: "closure", OAlloc: "new", OFieldAddr: "&.", OIndexAddr: "&[]", OMapElem: "&map", ODeref: "*", OField: ".", OIndex: "[]", OLookup: "lookup", OLookupOk: "has", OCall: "call", OExtract: "#", OOut: "out", OBin: "bin", OUn: "un", OLen: "len", OConv: "conv", OMkIface: "iface", OAssert: "assert", OTypeIs: "is", OSlice: "slice", OSliceLit: "lit", OAppend: "append", OStruct: "struct", OTuple: "tuple", OSym: "sym", OMake: "make", OCat: "cat", OLin: "lin", OHash: "hash", OEq: "==", OLt: "<", OLe: "<=", ONot: "!", OIter: "iter", OBound: "bound"}

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if d > 7 {
		return "…"
	}
	s := func(i int) string { return t.Args[i].str(d + 1) }
	switch t.Op {
	case OConst:
		return t.Obj.(constant.Value).String()
	case ONil:
		return "nil"
	case OParam:
		return t.Aux
	case OGlobal:
		return "&" + t.Aux
	case OFunc:
		return t.Aux
	case OFieldAddr:
		return "&" + strings.TrimPrefix(s(0), "&") + "." + t.Aux
	case OIndexAddr:
		return "&" + s(0) + "[" + s(1) + "]"
	case ODeref:
		a := s(0)
		v := ""
		if len(t.Args) > 1 {
			v = "'" + fmt.Sprint(t.Args[1].ID)
		}
		if strings.HasPrefix(a, "&") {
			return a[1:] + v
		}
		return "*" + a + v
	case OField:
		return s(0) + "." + t.Aux
	case OLookup:
		return s(0) + "{" + s(1) + "}"
	case OLookupOk:
		return s(1) + " in " + s(0)
	case OBin:
		return "(" + s(0) + t.Aux + s(1) + ")"
	case OEq:
		return s(0) + "==" + s(1)
	case OLt:
		return s(0) + "<" + s(1)
	case OLe:
		return s(0) + "<=" + s(1)
	case ONot:
		return "!" + s(0)
	case OSym:
		return fmt.Sprintf("σ%d:%s", t.ID, t.Site.Tag)
	case OMkIface:
		return s(0)
	case OLin:
		lf := t.Obj.(linObj)
		var p []string
		for i := range t.Args {
			p = append(p, fmt.Sprintf("%+d*%s", lf.coef[i], s(i)))
		}
		return "(" + strings.Join(p, "") + fmt.Sprintf("%+d", lf.c) + ")"
	}
	var p []string
	for i := range t.Args {
		p = append(p, s(i))
	}
	aux := t.Aux
	if t.Op == OTypeIs || t.Op == OAssert || t.Op == OConv {
		aux = types.TypeString(t.Typ, func(p *types.Package) string { return p.Name() })
	}
	if t.Op == OCall {
		if i := strings.LastIndex(aux, "/"); i >= 0 {
			aux = aux[i+1:]
		}
		return aux + "(" + strings.Join(p, ",") + ")"
	}
	if aux != "" {
		aux = ":" + aux
	}
	return opNames[t.Op] + aux + "(" + strings.Join(p, ",") + ")"
}

// Contains reports whether x occurs in t.
func (t *Term) Contains(x *Term) bool {
	if t == x {
		return true
	}
	for _, a := range t.Args {
		if a.Contains(x) {
			return true
		}
	}
	return false
}

// Any reports whether some subterm satisfies f.
func (t *Term) Any(f func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var rec func(*Term) bool
	rec = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if f(t) {
			return true
		}
		for _, a := range t.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// Replace substitutes b for a in t.
func (w *World) Replace(t, a, b *Term) *Term {
	if t == a {
		return b
	}
	if !t.Contains(a) {
		return t
	}
	args := make([]*Term, len(t.Args))
	for i, x := range t.Args {
		args[i] = w.Replace(x, a, b)
	}
	return w.mk(t.Op, t.Aux, t.Typ, t.Site, t.Obj, args)
}

// ---- linear forms

type linObj struct {
	coef []int64
	c    int64
}

type lin struct {
	m map[*Term]int64
	c int64
}

func isIntType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func IsTime(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Time"
}

// LinOf decomposes an integer or time term.
func (w *World) linOf(t *Term) lin {
	l := lin{m: map[*Term]int64{}}
	w.linAdd(&l, t, 1)
	return l
}

func (w *World) linAdd(l *lin, t *Term, k int64) {
	if n, ok := t.IsInt(); ok {
		l.c += k * n
		return
	}
	switch t.Op {
	case OLin:
		o := t.Obj.(linObj)
		l.c += k * o.c
		for i, a := range t.Args {
			w.linAdd(l, a, k*o.coef[i])
		}
		return
	}
	l.m[t] += k
	if l.m[t] == 0 {
		delete(l.m, t)
	}
}

func (w *World) linTerm(l lin, typ types.Type) *Term {
	if len(l.m) == 0 {
		return w.Int(l.c)
	}
	var vars []*Term
	for v := range l.m {
		vars = append(vars, v)
	}
	sort.Slice(vars, func(i, j int) bool { return vars[i].ID < vars[j].ID })
	if len(vars) == 1 && l.m[vars[0]] == 1 && l.c == 0 {
		return vars[0]
	}
	o := linObj{c: l.c}
	for _, v := range vars {
		o.coef = append(o.coef, l.m[v])
	}
	return w.mk(OLin, "", typ, nil, o, vars)
}

func (w *World) Add(a, b *Term, typ types.Type) *Term {
	l := w.linOf(a)
	w.linAdd(&l, b, 1)
	return w.linTerm(l, typ)
}
func (w *World) Sub(a, b *Term, typ types.Type) *Term {
	l := w.linOf(a)
	w.linAdd(&l, b, -1)
	return w.linTerm(l, typ)
}
func (w *World) MulC(a *Term, c int64, typ types.Type) *Term {
	l := lin{m: map[*Term]int64{}}
	w.linAdd(&l, a, c)
	return w.linTerm(l, typ)
}

// ---- structured constructors

// Len builds the length of t as a linear term.
func (w *World) Len(t *Term) *Term {
	switch t.Op {
	case ONil:
		return w.Zero0
	case OConst:
		if s, ok := t.IsStr(); ok {
			return w.Int(int64(len(s)))
		}
	case OSliceLit:
		return w.Int(int64(len(t.Args)))
	case OAppend:
		return w.Add(w.Len(t.Args[0]), w.Len(t.Args[1]), types.Typ[types.Int])
	case OCat:
		r := w.Zero0
		for _, a := range t.Args {
			r = w.Add(r, w.Len(a), types.Typ[types.Int])
		}
		return r
	case OSlice:
		lo, hi := t.Args[1], t.Args[2]
		if hi.Op == ONil {
			hi = w.Len(t.Args[0])
		}
		if lo.Op == ONil {
			lo = w.Zero0
		}
		return w.Sub(hi, lo, types.Typ[types.Int])
	case OMake:
		if t.Aux == "slice" {
			return t.Args[0]
		}
	case OConv:
		if isStrOrBytes(t.Typ) && t.Args[0].Typ != nil && isStrOrBytes(t.Args[0].Typ) {
			return w.Len(t.Args[0])
		}
	case OHash:
		if t.Aux == "sha256" {
			return w.Int(32)
		}
	}
	if t.Typ != nil {
		ty := t.Typ.Underlying()
		if p, ok := ty.(*types.Pointer); ok {
			ty = p.Elem().Underlying()
		}
		if a, ok := ty.(*types.Array); ok {
			return w.Int(a.Len())
		}
	}
	return w.mk(OLen, "", types.Typ[types.Int], nil, nil, []*Term{t})
}

func isStrOrBytes(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Uint8
	}
	return false
}

func isString(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// StrOf views a byte slice term as the string with the same content.
func (w *World) StrOf(t *Term) *Term {
	if t.Op == OConv && t.Typ != nil && isStrOrBytes(t.Typ) && t.Args[0].Typ != nil && isStrOrBytes(t.Args[0].Typ) {
		return w.StrOf(t.Args[0])
	}
	if t.Op == OConst {
		return t
	}
	if t.Op == ONil {
		return w.Str("")
	}
	if t.Typ != nil && isString(t.Typ) {
		return t
	}
	return w.mk(OConv, "str", types.Typ[types.String], nil, nil, []*Term{t})
}

func (w *World) Cat(parts ...*Term) *Term {
	var flat []*Term
	for _, p := range parts {
		if p.Op == OCat {
			flat = append(flat, p.Args...)
		} else {
			flat = append(flat, p)
		}
	}
	var out []*Term
	for _, p := range flat {
		s, ok := p.IsStr()
		if ok && s == "" {
			continue
		}
		if ok && len(out) > 0 {
			if s0, ok0 := out[len(out)-1].IsStr(); ok0 {
				out[len(out)-1] = w.Str(s0 + s)
				continue
			}
		}
		out = append(out, p)
	}
	if len(out) == 0 {
		return w.Str("")
	}
	if len(out) == 1 {
		return out[0]
	}
	return w.mk(OCat, "", types.Typ[types.String], nil, nil, out)
}

func (w *World) Field(v *Term, name string, typ types.Type) *Term {
	switch v.Op {
	case OStruct:
		names := v.Obj.([]string)
		for i, n := range names {
			if n == name {
				return v.Args[i]
			}
		}
	case OZero:
		return w.ZeroOf(typ)
	case ODeref:
		owner := ""
		if v.Typ != nil {
			owner = types.TypeString(v.Typ, nil)
		}
		args := append([]*Term{w.fieldAddr(v.Args[0], owner, name, typ)}, v.Args[1:]...)
		return w.mk(ODeref, "", typ, nil, nil, args)
	}
	return w.mk(OField, name, typ, nil, nil, []*Term{v})
}

func (w *World) ZeroOf(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return w.False
		case u.Info()&types.IsInteger != 0:
			return w.Zero0
		case u.Info()&types.IsString != 0:
			return w.Str("")
		case u.Info()&types.IsFloat != 0:
			return w.Const(constant.MakeFloat64(0))
		}
		return w.Nil
	case *types.Struct, *types.Array:
		return w.mk(OZero, "", t, nil, nil, nil)
	}
	return w.Nil
}

// InstrPos gives a position for an instruction, falling back to its block.
func InstrPos(in ssa.Instruction) token.Pos {
	if p := in.Pos(); p.IsValid() {
		return p
	}
	if b := in.Block(); b != nil {
		for _, i := range b.Instrs {
			if p := i.Pos(); p.IsValid() {
				return p
			}
		}
		return b.Parent().Pos()
	}
	return token.NoPos
}
