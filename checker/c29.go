package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"verif/checker/flow"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C29",
		Technique: "path-sensitive must-consume dataflow over the SSA form for every error result",
		Rule:      "On every path from a call that gives an error, in every function that decoding, validation, fetching and the program's loop can reach, the error is returned, handed on, compared with io.EOF or its absence established; a path on which there is an error reports it or acts on it in the branch for it, does not use what the call gave, and does not end in a success that says nothing. A scanner that was read is asked for its error, and a process that was started for its end.",
		Note:      "An error may be dropped where it cannot occur or qualifies nothing: writing to a buffer in memory, to a hash, to the terminal, to a client's connection, closing what was read, the level of the log. The signing time of a CMS message is optional and used for display only. That the text of a report is helpful is not judged, and results other than errors (booleans) are for the properties they belong to.",
		Run:       runC29})
}

// c29Idle: calls whose error qualifies nothing, with the reason.
func c29Idle(ci ssa.CallInstruction) string {
	name := callName(ci.Common())
	short := name[strings.LastIndexByte(name, '.')+1:]
	recv := ""
	if cc := ci.Common(); cc.IsInvoke() {
		recv = types.TypeString(cc.Value.Type(), nil)
	} else if len(cc.Args) > 0 && cc.Signature().Recv() != nil {
		recv = types.TypeString(cc.Args[0].Type(), nil)
	}
	switch {
	case strings.HasPrefix(name, "fmt.Print"):
		return "prints to the terminal"
	case short == "Close" && ci.Common().Signature().Results().Len() == 1:
		return "closes what was read"
	case recv == "*bytes.Buffer" && strings.HasPrefix(short, "Write"), recv == "*strings.Builder":
		return "writes to memory and cannot fail"
	case recv == "hash.Hash":
		return "a hash never fails"
	case recv == "net/http.ResponseWriter", recv == "*encoding/json.Encoder" && short == "Encode":
		return "answers a client or a log server"
	case name == "github.com/sirupsen/logrus.ParseLevel":
		return "the level of the log"
	}
	if short == "Write" && ci.Common().IsInvoke() {
		// the writer may be a hash or a connection that was converted
		for _, v := range bases(ci.Common().Value) {
			t := types.TypeString(v.Type(), nil)
			if t == "hash.Hash" || t == "net/http.ResponseWriter" {
				return "writes to a hash or a client"
			}
			if call, ok := v.(*ssa.Call); ok && strings.Contains(callName(&call.Call), "hash") {
				return "a hash never fails"
			}
		}
	}
	return ""
}

// c29Used: calls whose results are used although their error was only reported, with the reason.
var c29Used = map[string]string{
	"validator/lib.CMS).GetSigningTime":           "the signing time is optional, and zero if there is none",
	"sync/lib.RunRsync":                           "the number of files received before the failure is a metric",
	"gortr/prefixfile.ROAList).Sign":              "a list that could not be signed has no signature",
	"sync/lib.ExtractRsyncDomainModule":           "a module that cannot be told was not synchronized",
	"validator/pki.SimpleManager).GetNextExplore": "fails only for an empty queue, which the rule of C22 excludes",
	"validator/pki.Validator).AddResource":        "its first result says whether the object is valid, and what is not is excluded by C01 to C07",
}

func c29Excuse(name string) string {
	for k, why := range c29Used {
		if strings.HasSuffix(name, k) {
			return why
		}
	}
	return ""
}

// excuseOf is c29Excuse, for a call that may also go to a function of the module which hands on all
// that such a call gives.
func excuseOf(cc *ssa.CallCommon) string {
	for i := 0; i < 5; i++ {
		if why := c29Excuse(callName(cc)); why != "" {
			return why
		}
		g := cc.StaticCallee()
		if g == nil || len(g.Blocks) == 0 {
			return ""
		}
		var inner *ssa.Call
		for _, b := range g.Blocks {
			r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok || b == g.Recover {
				continue
			}
			for i, v := range r.Results {
				vs := []ssa.Value{v}
				if ld, ok := v.(*ssa.UnOp); ok {
					// the place of a result, in a function that defers calls
					al, ok := ld.X.(*ssa.Alloc)
					if !ok {
						return ""
					}
					vs = nil
					for _, r := range *al.Referrers() {
						switch x := r.(type) {
						case *ssa.Store:
							vs = append(vs, x.Val)
						case *ssa.UnOp, *ssa.DebugRef:
						default:
							return ""
						}
					}
				}
				for _, v := range vs {
					e, ok := v.(*ssa.Extract)
					if !ok || e.Index != i {
						return ""
					}
					call, ok := e.Tuple.(*ssa.Call)
					if !ok || inner != nil && inner != call || call.Call.Signature().Results().Len() != len(r.Results) {
						return ""
					}
					inner = call
				}
			}
		}
		if inner == nil {
			return ""
		}
		cc = &inner.Call
	}
	return ""
}

// answers: the function has a client to answer.
func answers(fn *ssa.Function) bool {
	for _, p := range fn.Params {
		if types.TypeString(p.Type(), nil) == "net/http.ResponseWriter" {
			return true
		}
	}
	return false
}

// bases: the values that a value may be, without conversions.
func bases(v ssa.Value) []ssa.Value {
	var out []ssa.Value
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		out = append(out, v)
		switch x := v.(type) {
		case *ssa.ChangeInterface:
			visit(x.X)
		case *ssa.MakeInterface:
			visit(x.X)
		case *ssa.Phi:
			for _, e := range x.Edges {
				visit(e)
			}
		}
	}
	visit(v)
	return out
}

// errResults: the error that a call gives, and the results it qualifies.
func errResults(call *ssa.Call) (err ssa.Value, others []ssa.Value, has bool) {
	sig := call.Call.Signature().Results()
	n := sig.Len()
	if n == 0 || !isErrT(sig.At(n-1).Type()) {
		return nil, nil, false
	}
	if n == 1 {
		return call, nil, true
	}
	for _, r := range *call.Referrers() {
		if x, ok := r.(*ssa.Extract); ok {
			if x.Index == n-1 {
				err = x
			} else {
				others = append(others, x)
			}
		}
	}
	return err, others, true
}

// filled: the local variables that the call fills in, and whose content its error qualifies.
func filled(cc *ssa.CallCommon) map[ssa.Value]bool {
	out := map[ssa.Value]bool{}
	name := callName(cc)
	short := name[strings.LastIndexByte(name, '.')+1:]
	if !strings.HasPrefix(short, "Unmarshal") && !strings.HasPrefix(short, "Decode") && short != "Scan" {
		return out
	}
	for _, a := range cc.Args {
		for _, o := range bases(a) {
			if al, ok := o.(*ssa.Alloc); ok && !strings.HasSuffix(al.Type().String(), "xml.StartElement") {
				out[al] = true
			}
		}
	}
	return out
}

const resultUsed = "the result is used although there is an error"

// pending follows the error of a call along the paths from it.
type pending struct {
	call   *ssa.Call
	err    ssa.Value
	others map[ssa.Value]bool
	out    map[ssa.Value]bool
	found  map[string]ssa.Instruction
	seen   map[string]bool
	steps  int
	paths  int
}

// errState: what holds the error, whether it was compared with nil, and what was done about it.
type errState struct {
	vals     map[ssa.Value]bool // values and variables that hold it
	nils     map[ssa.Value]bool // errors known to be nil (true) or not nil (false)
	region   *ssa.BasicBlock    // the branch for the error
	tested   bool
	reported bool // handed to something
	acted    bool
	at       *ssa.BasicBlock // where it was last compared with nil
	used     ssa.Instruction // what the call gave is used
	kept     map[ssa.Value]bool
}

func (s errState) key() string {
	var ks []string
	for v := range s.vals {
		ks = append(ks, v.Name())
	}
	for v, b := range s.nils {
		ks = append(ks, fmt.Sprint(v.Name(), b))
	}
	sort.Strings(ks)
	r := -1
	if s.region != nil {
		r = s.region.Index
	}
	return strings.Join(ks, ",") + fmt.Sprint(s.tested, s.reported, s.acted, r, s.used != nil, len(s.kept))
}

func (s errState) clone() errState {
	m, n := map[ssa.Value]bool{}, map[ssa.Value]bool{}
	for v := range s.vals {
		m[v] = true
	}
	for v, b := range s.nils {
		n[v] = b
	}
	kept := map[ssa.Value]bool{}
	for v := range s.kept {
		kept[v] = true
	}
	s.vals, s.nils, s.kept = m, n, kept
	return s
}

func (p *pending) report(what string, in ssa.Instruction) {
	if _, ok := p.found[what]; !ok {
		p.found[what] = in
	}
}

// nilTest: the condition says whether an error is nil.
func nilTest(cond ssa.Value) (v ssa.Value, isNil bool) {
	x, ok := cond.(*ssa.BinOp)
	if !ok || x.Op != token.EQL && x.Op != token.NEQ {
		return nil, false
	}
	for _, o := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
		if k, ok := o[1].(*ssa.Const); ok && k.Value == nil && isErrT(o[0].Type()) {
			return o[0], x.Op == token.EQL
		}
	}
	return nil, false
}

// knownNils: the errors that a block is reached only with or without.
func knownNils(b *ssa.BasicBlock) map[ssa.Value]bool {
	out := map[ssa.Value]bool{}
	for d := b; d.Idom() != nil; d = d.Idom() {
		q := d.Idom()
		iff, ok := q.Instrs[len(q.Instrs)-1].(*ssa.If)
		if !ok || len(d.Preds) != 1 {
			continue
		}
		if v, isNil := nilTest(iff.Cond); v != nil {
			if q.Succs[0] == d {
				out[v] = isNil
			} else if q.Succs[1] == d {
				out[v] = !isNil
			}
		}
	}
	return out
}

func runC29(c *Ctx) {
	main := mainValidationFn(c)
	linked := imports(main.Pkg.Pkg)
	roots := c23Roots(c)
	if m := main.Pkg.Func("main"); m != nil {
		roots = append(roots, m)
	}
	roots = append(roots, main)
	set := reachable(c.P, roots...)
	var fns []*ssa.Function
	for _, fn := range moduleFuncs(c.P) {
		if fn.Pkg == nil || !linked[fn.Pkg.Pkg] || fn.Synthetic != "" || !set[fn] {
			continue
		}
		fns = append(fns, fn)
	}
	sort.Slice(fns, func(i, j int) bool { return fname(fns[i]) < fname(fns[j]) })
	c.Expect(len(fns) >= 60, "reach", "functions", "", "only %d functions can be reached", len(fns))
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				sig := ci.Common().Signature().Results()
				if sig.Len() == 0 || !isErrT(sig.At(sig.Len()-1).Type()) {
					continue
				}
				c29Call(c, fn, b, ci)
			}
		}
	}
	c29Deferred(c, fns)
	c.AtLeast("error", 100)
	c.AtLeast("later", 1)
}

func c29Call(c *Ctx, fn *ssa.Function, b *ssa.BasicBlock, ci ssa.CallInstruction) {
	name := callName(ci.Common())
	what := fname(fn) + ": " + name
	if carries(name) {
		return // makes an error, and has none
	}
	if why := c29Idle(ci); why != "" {
		c.OK("dropped", what+", which "+why)
		return
	}
	call, ok := ci.(*ssa.Call)
	if !ok {
		c.Fail("error", what, c.Pos(ci), "the error of a call that is deferred or started as a goroutine is lost")
		return
	}
	if answers(fn) && (name == "encoding/json.Marshal" || name == "encoding/json.MarshalIndent") {
		c.OK("dropped", what+", which answers a client")
		return
	}
	err, others, _ := errResults(call)
	if err == nil || len(*err.Referrers()) == 0 {
		if why := c29Excuse(name); why != "" && strings.HasSuffix(name, ".GetSigningTime") {
			c.OK("used", what+": "+why)
			return
		}
		c.Fail("error", what, c.Pos(ci), "the error is ignored")
		return
	}
	p := &pending{call: call, err: err, others: map[ssa.Value]bool{}, out: filled(&call.Call), found: map[string]ssa.Instruction{}, seen: map[string]bool{}}
	for _, o := range others {
		p.others[o] = true
	}
	p.walk(b, instrIndex(b, call)+1, nil, errState{vals: map[ssa.Value]bool{err: true}, nils: knownNils(b)})
	if p.steps > 200000 {
		c.Fail("error", what, c.Pos(ci), "there are too many paths to follow the error")
		return
	}
	var ws []string
	for w := range p.found {
		ws = append(ws, w)
	}
	sort.Strings(ws)
	if len(ws) == 1 && ws[0] == resultUsed {
		if why := excuseOf(&call.Call); why != "" {
			c.OK("used", what+": "+why)
			return
		}
	}
	for _, w := range ws {
		c.Fail("error", what, c.Pos(p.found[w]), "%s (the call is at %s)", w, c.Pos(ci))
	}
	if len(ws) == 0 {
		c.OK("error", fmt.Sprintf("%s, %d ways", what, p.paths))
	}
	if os.Getenv("C29") != "" {
		fmt.Println(c.Pos(ci), what, ws)
	}
}

// carries: the call makes an error of what it is given.
func carries(name string) bool {
	switch name {
	case "errors.New", "fmt.Errorf", "errors.Join", "errors.Unwrap":
		return true
	}
	short := name[strings.LastIndexByte(name, '.')+1:]
	return strings.HasPrefix(name, "github.com/pkg/errors.") && (strings.HasPrefix(short, "Wrap") || strings.HasPrefix(short, "With") || short == "Errorf" || short == "New")
}

func instrIndex(b *ssa.BasicBlock, in ssa.Instruction) int {
	for i, x := range b.Instrs {
		if x == in {
			return i
		}
	}
	return -1
}

// walk follows one path.
func (p *pending) walk(b *ssa.BasicBlock, from int, prev *ssa.BasicBlock, s errState) {
	if p.steps++; p.steps > 200000 {
		return
	}
	s = s.clone()
	if from == 0 && prev != nil {
		p.enter(b, prev, &s)
	}
	if from == 0 {
		k := fmt.Sprint(b.Index, " ", s.key())
		if p.seen[k] {
			return
		}
		p.seen[k] = true
	}
	for i := from; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		if in == p.call {
			p.end(s, in)
			return
		}
		uses := false
		for _, op := range in.Operands(nil) {
			if *op != nil && s.vals[*op] {
				uses = true
			}
		}
		here := s.region != nil && s.region.Dominates(b)
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Extract:
			if x.Tuple == p.call {
				continue
			}
		case *ssa.Store:
			if a, ok := x.Addr.(*ssa.Alloc); ok {
				if isErrT(x.Val.Type()) {
					delete(s.nils, a)
					if k, ok := x.Val.(*ssa.Const); ok && k.Value == nil {
						s.nils[a] = true
					} else if k, ok := s.nils[x.Val]; ok {
						s.nils[a] = k
					} else if s.vals[x.Val] && s.tested {
						s.nils[a] = false
					}
				}
				if s.vals[x.Val] {
					s.vals[a] = true
					continue
				}
				if s.vals[a] {
					delete(s.vals, a)
					if s.tested {
						s.acted = s.acted || here
					}
				}
			}
		case *ssa.FieldAddr:
			if p.out[x.X] {
				s.kept[x] = true
			}
			continue
		case *ssa.IndexAddr:
			if p.out[x.X] {
				s.kept[x] = true
			}
			continue
		case *ssa.UnOp:
			if a, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL && isErrT(x.Type()) {
				delete(s.nils, x)
				if k, ok := s.nils[a]; ok {
					s.nils[x] = k
				}
			}
			if x.Op == token.MUL && (p.out[x.X] || s.kept[x.X]) {
				s.kept[x] = true
				continue
			}
			if uses {
				if x.Op == token.MUL {
					s.vals[x] = true
				}
				continue
			}
		case *ssa.BinOp:
			if uses {
				continue
			}
		case *ssa.ChangeInterface, *ssa.MakeInterface:
			if _, ok := in.(*ssa.MakeInterface); ok {
				s.nils[in.(ssa.Value)] = false
			}
			if uses {
				s.vals[in.(ssa.Value)] = true
				continue
			}
		case *ssa.If:
			p.branch(x, b, s)
			return
		case *ssa.Jump:
			p.walk(b.Succs[0], 0, b, s)
			return
		case *ssa.Return:
			p.paths++
			p.leaves(x, uses, s)
			return
		case *ssa.Panic:
			p.paths++
			return
		}
		if uses {
			s.reported = true
			if v, ok := in.(*ssa.Call); ok && isErrT(v.Type()) {
				s.vals[v] = true
			}
			if _, ok := in.(*ssa.Send); ok {
				p.paths++
				return
			}
			continue
		}
		if v, ok := in.(*ssa.Call); ok && carries(callName(&v.Call)) {
			s.nils[v] = false
		} else if here && effect(in) {
			s.acted = true
		}
		if v, ok := in.(*ssa.Call); ok && flow.IsFatal(callName(&v.Call)) {
			p.paths++
			return
		}
		if s.used == nil && p.qualified(in, s) {
			s.used = in
		}
	}
}

// enter takes the edge into a block.
func (p *pending) enter(b, prev *ssa.BasicBlock, s *errState) {
	edge := -1
	for i, q := range b.Preds {
		if q == prev {
			edge = i
		}
	}
	vals, nils := map[ssa.Value]bool{}, map[ssa.Value]bool{}
	for v := range s.vals {
		vals[v] = true
	}
	for v, k := range s.nils {
		nils[v] = k
	}
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		e := phi.Edges[edge]
		delete(vals, phi)
		delete(nils, phi)
		if s.vals[e] {
			vals[phi] = true
		}
		if isErrT(phi.Type()) {
			if k, ok := e.(*ssa.Const); ok && k.Value == nil {
				nils[phi] = true
			} else if k, ok := s.nils[e]; ok {
				nils[phi] = k
			} else if s.tested && s.vals[e] {
				nils[phi] = false
			}
		}
		// a value that is chosen because of the error
		in := func(q *ssa.BasicBlock) bool {
			return s.region != nil && s.region.Dominates(q) || q == s.at && !p.returnsErr()
		}
		if in(prev) && !isErrT(phi.Type()) && !b.Dominates(prev) {
			for i, q := range b.Preds {
				if !in(q) && phi.Edges[i] != e {
					s.acted = true
				}
			}
		}
	}
	s.vals, s.nils = vals, nils
}

func (p *pending) returnsErr() bool {
	r := p.call.Parent().Signature.Results()
	return r.Len() > 0 && isErrT(r.At(r.Len()-1).Type())
}

func (p *pending) branch(x *ssa.If, b *ssa.BasicBlock, s errState) {
	v, isNil := nilTest(x.Cond)
	skip := loggerTest(x.Cond)
	special := eofTest(x.Cond, s.vals)
	zero := p.filledTest(x.Cond)
	for k, t := range b.Succs {
		if k == skip {
			continue
		}
		n := s.clone()
		if v != nil {
			nowNil := (k == 0) == isNil
			if s.vals[v] {
				if nowNil {
					p.paths++
					continue // no error on this path
				}
				n.tested = true
				n.at = b
				if len(t.Preds) == 1 {
					n.region = t
				}
			} else {
				if known, ok := s.nils[v]; ok && known != nowNil {
					continue
				}
				n.nils[v] = nowNil
			}
		}
		if special != 0 && (special > 0) == (k == 0) {
			p.paths++
			continue // the end of the data
		}
		if zero && k == 0 {
			p.paths++
			continue // what was decoded has content, so there is no error
		}
		p.walk(t, 0, b, n)
	}
}

// loggerTest: the condition asks whether there is a log, which the program always sets; the branch not taken, or -1.
func loggerTest(cond ssa.Value) int {
	x, ok := cond.(*ssa.BinOp)
	if !ok || x.Op != token.EQL && x.Op != token.NEQ {
		return -1
	}
	for _, o := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
		k, ok := o[1].(*ssa.Const)
		if !ok || k.Value != nil {
			continue
		}
		it, ok := o[0].Type().Underlying().(*types.Interface)
		if !ok {
			continue
		}
		for i := 0; i < it.NumMethods(); i++ {
			if it.Method(i).Name() == "Debugf" {
				if x.Op == token.EQL {
					return 0
				}
				return 1
			}
		}
	}
	return -1
}

// eofTest: the condition compares the error with io.EOF (1: equal, -1: not equal), or asks for what kind it is.
func eofTest(cond ssa.Value, vals map[ssa.Value]bool) int {
	switch x := cond.(type) {
	case *ssa.BinOp:
		if x.Op != token.EQL && x.Op != token.NEQ {
			return 0
		}
		for _, o := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
			if u, ok := o[1].(*ssa.UnOp); ok && vals[o[0]] {
				if g, ok := u.X.(*ssa.Global); ok && g.Pkg.Pkg.Path() == "io" && g.Name() == "EOF" {
					if x.Op == token.EQL {
						return 1
					}
					return -1
				}
			}
		}
	case *ssa.Call:
		n := callName(&x.Call)
		if (n == "os.IsNotExist" || n == "errors.Is") && len(x.Call.Args) > 0 && vals[x.Call.Args[0]] {
			return 1
		}
	}
	return 0
}

// filledTest: the condition holds only if a variable that the call fills has content: a field of it equals a constant other than zero.
func (p *pending) filledTest(cond ssa.Value) bool {
	x, ok := cond.(*ssa.BinOp)
	if !ok || x.Op != token.EQL {
		return false
	}
	k, ok := x.Y.(*ssa.Const)
	if !ok || k.Value == nil || k.Value.Kind() != constant.Int || constant.Sign(k.Value) == 0 {
		return false
	}
	u, ok := x.X.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	f, ok := u.X.(*ssa.FieldAddr)
	if !ok || !p.out[f.X] {
		return false
	}
	// nothing else writes it
	for _, r := range *f.X.Referrers() {
		switch r.(type) {
		case *ssa.FieldAddr, *ssa.MakeInterface, *ssa.DebugRef:
		default:
			return false
		}
	}
	return callName(&p.call.Call) == "encoding/asn1.Unmarshal"
}

// qualified: the instruction uses what the call gave.
func (p *pending) qualified(in ssa.Instruction, s errState) bool {
	if b, ok := in.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
		return false
	}
	for _, op := range in.Operands(nil) {
		if *op != nil && (p.others[*op] || s.kept[*op]) {
			return true
		}
	}
	return false
}

func effect(in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.Call:
		_, builtin := x.Call.Value.(*ssa.Builtin)
		return !builtin && !strings.HasPrefix(callName(&x.Call), "strings.")
	case *ssa.Store:
		a, ok := x.Addr.(*ssa.Alloc)
		return !ok || a.Heap
	case *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer:
		return true
	}
	return false
}

func (p *pending) leaves(r *ssa.Return, uses bool, s errState) {
	if uses {
		return
	}
	n := len(r.Results)
	if n > 0 && isErrT(r.Results[n-1].Type()) {
		v := r.Results[n-1]
		isNil, known := s.nils[v]
		if k, ok := v.(*ssa.Const); ok && k.Value == nil {
			isNil, known = true, true
		}
		if known && !isNil || !known && s.tested {
			return
		}
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			if _, ok := u.X.(*ssa.Global); ok {
				return // an error of the package
			}
		}
		if _, ok := v.(*ssa.MakeInterface); ok {
			return
		}
		if s.tested && refuses(r) {
			return // the answer is no
		}
		if s.tested && !s.acted && !s.reported {
			p.report("success is returned although there is an error", r)
			return
		}
	}
	if s.tested && n > 1 && !p.returnsErr() && emptyAnswer(r) {
		return // the caller is given nothing for what was asked for
	}
	if s.tested && n > 0 && !p.returnsErr() {
		for _, v := range r.Results {
			if _, ok := v.(*ssa.Const); !ok {
				p.end(s, r)
				return
			}
		}
		return // the caller is given nothing
	}
	p.end(s, r)
}

// refuses: the answer that is given is no.
func refuses(r *ssa.Return) bool {
	for _, v := range r.Results {
		if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool && !constant.BoolVal(k.Value) {
			return true
		}
	}
	return false
}

// emptyAnswer: one of the answers is the empty value.
func emptyAnswer(r *ssa.Return) bool {
	for _, v := range r.Results {
		k, ok := v.(*ssa.Const)
		if ok && (k.Value == nil || k.Value.Kind() == constant.String && constant.StringVal(k.Value) == "") {
			return true
		}
	}
	return false
}

func (p *pending) end(s errState, in ssa.Instruction) {
	switch {
	case s.reported || s.acted:
		if s.used != nil {
			p.report(resultUsed, s.used)
		}
	case !s.tested:
		p.report("the error is lost", in)
	default:
		p.report("nothing is done about the error", in)
	}
}

// c29Deferred: operations whose error is asked for later: a scanner that reads to its end, and a process that was started.
func c29Deferred(c *Ctx, fns []*ssa.Function) {
	later := map[string]string{"(*bufio.Scanner).Scan": "(*bufio.Scanner).Err", "(*os/exec.Cmd).Start": "(*os/exec.Cmd).Wait"}
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok || later[callName(&call.Call)] == "" || len(call.Call.Args) == 0 {
					continue
				}
				want := later[callName(&call.Call)]
				found := false
				for _, o := range fn.Blocks {
					for _, oi := range o.Instrs {
						oc, ok := oi.(*ssa.Call)
						if ok && callName(&oc.Call) == want && sameBase(oc.Call.Args[0], call.Call.Args[0]) {
							found = found || flowsTo(b, o)
						}
					}
				}
				if !found && returnsIt(call.Call.Args[0]) {
					found = true // what was made here is used elsewhere
				}
				c.Expect(found, "later", fname(fn)+": "+callName(&call.Call), c.Pos(call), "the error that %s gives is never asked for", want)
			}
		}
	}
}

func sameBase(a, b ssa.Value) bool {
	for _, x := range bases(a) {
		for _, y := range bases(b) {
			if x == y {
				return true
			}
			ux, ok1 := x.(*ssa.UnOp)
			uy, ok2 := y.(*ssa.UnOp)
			if ok1 && ok2 && ux.X == uy.X {
				return true
			}
		}
	}
	return false
}

func returnsIt(v ssa.Value) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.Return:
			return true
		case *ssa.Call:
			if x.Call.StaticCallee() != nil && x.Call.Signature().Recv() == nil {
				return true // handed to a function that goes on with it
			}
		}
	}
	return false
}

// flowsTo: the second block can be reached from the first.
func flowsTo(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{a}
	for len(work) > 0 {
		x := work[0]
		work = work[1:]
		if x == b {
			return true
		}
		if seen[x] {
			continue
		}
		seen[x] = true
		work = append(work, x.Succs...)
	}
	return false
}
