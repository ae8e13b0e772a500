package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"verif/checker/flow"

	"golang.org/x/tools/go/ssa"
)

// The lockset analysis follows every goroutine of a program from its start through the call graph
// with the set of locks it holds, path by path: a block is visited once per set it can be entered with.

// boundFn is a function value with the bindings of its free variables.
type boundFn struct {
	fn  *ssa.Function
	env map[ssa.Value]any
}

// root is a goroutine, or a handler that the HTTP server calls.
type lockRoot struct {
	name  string
	fn    boundFn
	multi bool
	main  bool
}

// sharedAccess is a use of a location by a goroutine.
type sharedAccess struct {
	loc    string
	write  bool
	atomic bool
	root   *lockRoot
	held   map[string]bool // lock -> exclusive
	in     ssa.Instruction
	fn     *ssa.Function
}

type lockState struct {
	held    map[string]bool
	where   map[string]ssa.Instruction
	defers  []*deferred
	started bool
}

type deferred struct {
	call ssa.CallInstruction
}

func (s *lockState) key() string {
	var k []string
	for l, w := range s.held {
		k = append(k, fmt.Sprintf("%s:%v", l, w))
	}
	sort.Strings(k)
	for _, d := range s.defers {
		k = append(k, fmt.Sprintf("%p", d.call))
	}
	return fmt.Sprint(s.started, k)
}

func (s *lockState) clone() *lockState {
	n := &lockState{held: map[string]bool{}, where: s.where, started: s.started, defers: append([]*deferred(nil), s.defers...)}
	for k, v := range s.held {
		n.held[k] = v
	}
	return n
}

func heldNames(h map[string]bool) string {
	var k []string
	for l := range h {
		k = append(k, l)
	}
	sort.Strings(k)
	return strings.Join(k, ", ")
}

type locksets struct {
	c        *Ctx
	server   map[string]bool // struct types with one instance that goroutines share
	taken    map[*ssa.Function]bool
	roots    []*lockRoot
	rootOf   map[string]*lockRoot
	accesses map[string]*sharedAccess
	order    map[string]map[string]ssa.Instruction // lock -> lock taken while it is held
	orderFn  map[string]string
	memo     map[string][]*lockState
	active   map[string]bool
	double   func(in ssa.Instruction, fn *ssa.Function, lock string)
	exitDiff func(fn *ssa.Function, in ssa.Instruction, a, b map[string]bool)
	unheld   func(in ssa.Instruction, fn *ssa.Function, lock string)
	blocking func(in ssa.Instruction, fn *ssa.Function, held map[string]bool, what string)
	rootEnd  func(r *lockRoot, in ssa.Instruction, held map[string]bool)
	locks    map[string]int
	steps    int
	visited  map[*ssa.Function]bool
	heldAt   map[ssa.Instruction]map[string]bool // exclusively held whenever the instruction is reached
}

func newLocksets(c *Ctx, server map[string]bool) *locksets {
	l := &locksets{c: c, server: server, taken: map[*ssa.Function]bool{}, rootOf: map[string]*lockRoot{}, accesses: map[string]*sharedAccess{},
		order: map[string]map[string]ssa.Instruction{}, orderFn: map[string]string{}, memo: map[string][]*lockState{}, active: map[string]bool{}, locks: map[string]int{}, visited: map[*ssa.Function]bool{}, heldAt: map[ssa.Instruction]map[string]bool{}}
	for _, fn := range c.P.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var callee *ssa.Value
				if ci, ok := in.(ssa.CallInstruction); ok && !ci.Common().IsInvoke() {
					callee = &ci.Common().Value
				}
				for _, op := range in.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok && op != callee {
						l.taken[f] = true
					}
				}
			}
		}
	}
	return l
}

// ownerName is the name of the struct type an address or a value has.
func ownerName(t types.Type) string {
	if t == nil {
		return ""
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return short(n.Obj().Pkg().Path() + "." + n.Obj().Name())
	}
	return ""
}

func isSyncLock(t types.Type) bool {
	n := ownerName(t)
	return n == "sync.Mutex" || n == "sync.RWMutex"
}

func isAtomicType(t types.Type) bool { return strings.HasPrefix(ownerName(t), "sync/atomic.") }

// isSyncType: the value is used through its own methods by several goroutines.
func isSyncType(t types.Type) bool {
	return strings.HasPrefix(ownerName(t), "sync.")
}

// fieldOfServer gives the location an address lies in, if it belongs to a shared struct or is a
// package variable; local is set for addresses within an object of the function's own.
func (l *locksets) location(v ssa.Value) (loc string, typ types.Type, local bool) {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			st := x.X.Type().Underlying().(*types.Pointer).Elem()
			n := ownerName(st)
			if l.server[n] {
				f := st.Underlying().(*types.Struct).Field(x.Field)
				return short(n) + "." + f.Name(), f.Type(), rootAlloc(x.X)
			}
			v = x.X
		case *ssa.IndexAddr:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); !ok {
				return "", nil, false
			}
			v = x.X
		case *ssa.Global:
			if x.Pkg != nil && strings.HasPrefix(x.Pkg.Pkg.Path()+"/", modPath) {
				return "var " + x.Name(), x.Type().Underlying().(*types.Pointer).Elem(), false
			}
			return "", nil, false
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if g, ok := x.X.(*ssa.Global); ok && isOption(x) {
					return "option " + g.Name(), x.Type().Underlying().(*types.Pointer).Elem(), false
				}
			}
			return "", nil, false
		default:
			return "", nil, false
		}
	}
}

// lockID names the lock an address stands for; "" is a lock of the function's own.
func (l *locksets) lockID(v ssa.Value, env map[ssa.Value]any) string {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		if rootAlloc(x) {
			return ""
		}
		st := x.X.Type().Underlying().(*types.Pointer).Elem()
		n := ownerName(st)
		if n == "" {
			return l.lockID(x.X, env) + "." + st.Underlying().(*types.Struct).Field(x.Field).Name()
		}
		return n + "." + st.Underlying().(*types.Struct).Field(x.Field).Name()
	case *ssa.Global:
		return "var " + x.Name()
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if al, ok := x.X.(*ssa.Alloc); ok {
				if s := onlyStore(al); s != nil {
					return l.lockID(s, env)
				}
			}
			return l.lockID(x.X, env)
		}
	case *ssa.Parameter, *ssa.FreeVar:
		if s, ok := env[v].(string); ok {
			return s
		}
		return fmt.Sprintf("%s of %s", v.Name(), v.Parent())
	case *ssa.MakeInterface:
		return l.lockID(x.X, env)
	case *ssa.Alloc:
		return fmt.Sprintf("local %s of %s", x.Comment, x.Parent())
	}
	return fmt.Sprintf("%s of %s", v.Name(), v.Parent())
}

func onlyStore(al *ssa.Alloc) (val ssa.Value) {
	for _, r := range *al.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == al {
			if val != nil {
				return nil
			}
			val = s.Val
		}
	}
	return
}

// funcOf resolves a function value.
func (l *locksets) funcOf(v ssa.Value, env map[ssa.Value]any) (boundFn, bool) {
	switch x := v.(type) {
	case *ssa.Function:
		return boundFn{fn: x}, true
	case *ssa.MakeClosure:
		f := x.Fn.(*ssa.Function)
		return boundFn{f, l.bind(nil, f.FreeVars, x.Bindings, env)}, true
	case *ssa.ChangeType:
		return l.funcOf(x.X, env)
	case *ssa.MakeInterface:
		return l.funcOf(x.X, env)
	case *ssa.Parameter, *ssa.FreeVar:
		b, ok := env[v].(boundFn)
		return b, ok
	}
	return boundFn{}, false
}

// bind gives the environment of a callee: what it knows of function values and locks it is given.
func (l *locksets) bind(params []*ssa.Parameter, free []*ssa.FreeVar, args []ssa.Value, env map[ssa.Value]any) map[ssa.Value]any {
	out := map[ssa.Value]any{}
	put := func(p ssa.Value, a ssa.Value) {
		switch t := p.Type().Underlying().(type) {
		case *types.Signature:
			if b, ok := l.funcOf(a, env); ok {
				out[p] = b
			}
		case *types.Pointer:
			if isSyncLock(t.Elem()) {
				out[p] = l.lockID(a, env)
			}
		}
		if ownerName(p.Type()) == "sync.Locker" {
			out[p] = l.lockID(a, env)
		}
	}
	for i, p := range params {
		if i < len(args) {
			put(p, args[i])
		}
	}
	for i, p := range free {
		if i < len(args) {
			put(p, args[i])
		}
	}
	return out
}

func envKey(env map[ssa.Value]any) string {
	var k []string
	for v, x := range env {
		switch y := x.(type) {
		case string:
			k = append(k, v.Name()+"="+y)
		case boundFn:
			k = append(k, fmt.Sprintf("%s=%p{%s}", v.Name(), y.fn, envKey(y.env)))
		}
	}
	sort.Strings(k)
	return strings.Join(k, ",")
}

func (l *locksets) addRoot(f boundFn, multi, isMain bool) {
	k := fmt.Sprintf("%p{%s}", f.fn, envKey(f.env))
	if r := l.rootOf[k]; r != nil {
		r.multi = r.multi || multi
		return
	}
	r := &lockRoot{name: fname(f.fn), fn: f, multi: multi, main: isMain}
	l.rootOf[k] = r
	l.roots = append(l.roots, r)
}

// run analyses all goroutines.
func (l *locksets) run() {
	for i := 0; i < len(l.roots); i++ {
		r := l.roots[i]
		exits := l.walk(r, r.fn, &lockState{held: map[string]bool{}, started: !r.main}, false)
		for _, e := range exits {
			if len(e.held) > 0 && l.rootEnd != nil {
				l.rootEnd(r, nil, e.held)
			}
		}
	}
}

func isHandler(fn *ssa.Function) bool {
	s := fn.Signature
	return s.Params().Len() == 2 && s.Results().Len() == 0 && ownerName(s.Params().At(0).Type()) == "net/http.ResponseWriter" && ownerName(s.Params().At(1).Type()) == "net/http.Request"
}

// walk gives the states a function ends with.
func (l *locksets) walk(r *lockRoot, f boundFn, in *lockState, cyc bool) []*lockState {
	fn := f.fn
	entry := in.clone()
	entry.defers = nil
	k := fmt.Sprintf("%p|%p{%s}|%s|%v", r, fn, envKey(f.env), entry.key(), cyc)
	if out, ok := l.memo[k]; ok {
		return out
	}
	if l.active[k] || len(fn.Blocks) == 0 {
		return []*lockState{entry}
	}
	l.active[k] = true
	defer delete(l.active, k)
	l.visited[fn] = true
	type item struct {
		b *ssa.BasicBlock
		s *lockState
	}
	seen := map[string]bool{}
	var work []item
	push := func(b *ssa.BasicBlock, s *lockState) {
		bk := fmt.Sprintf("%d|%s", b.Index, s.key())
		if !seen[bk] {
			seen[bk] = true
			work = append(work, item{b, s})
		}
	}
	push(fn.Blocks[0], entry)
	var exits []*lockState
	exitAt := map[string]bool{}
	var firstExit *lockState
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		l.steps++
		states := []*lockState{it.s.clone()}
		for _, ins := range it.b.Instrs {
			var next []*lockState
			for _, s := range states {
				l.note(ins, s)
				next = append(next, l.step(r, f, fn, ins, s, cyc || inCycle(it.b))...)
			}
			states = dedupe(next)
			switch ins.(type) {
			case *ssa.Return, *ssa.Panic:
				for _, s := range states {
					if _, ok := ins.(*ssa.Panic); ok {
						// the deferred calls run
						for _, e := range l.runDefers(r, f, fn, s, cyc) {
							if len(e.held) > 0 && l.rootEnd != nil && !r.main {
								l.rootEnd(r, ins, e.held)
							}
						}
						continue
					}
					e := s.clone()
					e.defers = nil
					if firstExit == nil {
						firstExit = e
					} else if !sameHeld(firstExit.held, e.held) && l.exitDiff != nil {
						l.exitDiff(fn, ins, firstExit.held, e.held)
					}
					if !exitAt[e.key()] {
						exitAt[e.key()] = true
						exits = append(exits, e)
					}
				}
				states = nil
			}
		}
		for _, s := range states {
			for _, nb := range it.b.Succs {
				push(nb, s)
			}
		}
	}
	l.memo[k] = exits
	return exits
}

func (l *locksets) note(in ssa.Instruction, s *lockState) {
	h, ok := l.heldAt[in]
	if !ok {
		h = map[string]bool{}
		for k, w := range s.held {
			if w {
				h[k] = true
			}
		}
		l.heldAt[in] = h
		return
	}
	for k := range h {
		if !s.held[k] {
			delete(h, k)
		}
	}
}

func dedupe(in []*lockState) []*lockState {
	if len(in) < 2 {
		return in
	}
	seen := map[string]bool{}
	var out []*lockState
	for _, s := range in {
		if k := s.key(); !seen[k] {
			seen[k] = true
			out = append(out, s)
		}
	}
	return out
}

func sameHeld(a, b map[string]bool) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || v != w {
			return false
		}
	}
	return true
}

func (l *locksets) runDefers(r *lockRoot, f boundFn, fn *ssa.Function, s *lockState, cyc bool) []*lockState {
	states := []*lockState{s.clone()}
	for i := len(s.defers) - 1; i >= 0; i-- {
		var next []*lockState
		for _, t := range states {
			next = append(next, l.call(r, f, fn, s.defers[i].call, t, cyc)...)
		}
		states = dedupe(next)
	}
	for _, t := range states {
		t.defers = nil
	}
	return states
}

func (l *locksets) step(r *lockRoot, f boundFn, fn *ssa.Function, in ssa.Instruction, s *lockState, cyc bool) []*lockState {
	switch x := in.(type) {
	case *ssa.Call:
		return l.call(r, f, fn, x, s, cyc)
	case *ssa.Defer:
		s.defers = append(s.defers, &deferred{x})
		if len(s.defers) > 32 {
			s.defers = s.defers[:32]
		}
	case *ssa.RunDefers:
		return l.runDefers(r, f, fn, s, cyc)
	case *ssa.Go:
		s.started = true
		if b, ok := l.funcOf(x.Call.Value, f.env); ok && !x.Call.IsInvoke() {
			b.env = merge(b.env, l.bind(b.fn.Params, nil, x.Call.Args, f.env))
			if l.c.P.InModule(b.fn) {
				l.addRoot(b, cyc || r.multi, false)
			}
		} else {
			for _, g := range l.dynCallees(fn, &x.Call) {
				l.addRoot(g, cyc || r.multi, false)
			}
		}
	case *ssa.Send:
		l.block(in, fn, s, "a channel send")
	case *ssa.UnOp:
		if x.Op == token.ARROW {
			l.block(in, fn, s, "a channel receive")
		}
		if x.Op == token.MUL {
			l.use(r, fn, in, x.X, s, false)
			if n := ownerName(x.Type()); l.server[n] && !rootAlloc(x.X) {
				if _, isStruct := x.Type().Underlying().(*types.Struct); isStruct {
					st := x.Type().Underlying().(*types.Struct)
					for i := 0; i < st.NumFields(); i++ {
						if t := st.Field(i).Type(); !isSyncType(t) {
							l.record(r, fn, in, n+"."+st.Field(i).Name(), s, false, false)
						}
					}
				}
			}
		}
	case *ssa.Select:
		if x.Blocking {
			l.block(in, fn, s, "a channel operation")
		}
	case *ssa.Store:
		l.use(r, fn, in, x.Addr, s, true)
		l.escapes(r, fn, in, x.Val, s)
	case *ssa.MapUpdate:
		l.contents(r, fn, in, x.Map, s, true)
	case *ssa.Lookup:
		l.contents(r, fn, in, x.X, s, false)
	case *ssa.Range:
		l.contents(r, fn, in, x.X, s, false)
	case *ssa.Next:
		if rg, ok := x.Iter.(*ssa.Range); ok {
			l.contents(r, fn, in, rg.X, s, false)
		}
	case *ssa.MakeClosure:
		if isHandler(x.Fn.(*ssa.Function)) {
			b, _ := l.funcOf(x, f.env)
			l.addRoot(b, true, false)
		}
	}
	// plain functions used as handlers
	for _, op := range in.Operands(nil) {
		if g, ok := (*op).(*ssa.Function); ok && isHandler(g) && l.c.P.InModule(g) {
			if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().Value == ssa.Value(g) {
				continue
			}
			if _, ok := in.(*ssa.MakeClosure); ok {
				continue
			}
			l.addRoot(boundFn{fn: g}, true, false)
		}
	}
	return []*lockState{s}
}

func merge(a, b map[ssa.Value]any) map[ssa.Value]any {
	if len(a) == 0 {
		return b
	}
	for k, v := range a {
		if _, ok := b[k]; !ok {
			b[k] = v
		}
	}
	return b
}

func (l *locksets) block(in ssa.Instruction, fn *ssa.Function, s *lockState, what string) {
	if len(s.held) > 0 && l.blocking != nil {
		l.blocking(in, fn, s.held, what)
	}
}

// use records an access to the location of an address.
func (l *locksets) use(r *lockRoot, fn *ssa.Function, in ssa.Instruction, addr ssa.Value, s *lockState, write bool) {
	if loc, t, local := l.location(addr); loc != "" {
		if local && !l.shared(addr, in) || isSyncType(t) && !isAtomicType(t) {
			return
		}
		l.record(r, fn, in, loc, s, write, false)
		return
	}
	// an element of what a location refers to
	switch x := addr.(type) {
	case *ssa.IndexAddr:
		l.contents(r, fn, in, x.X, s, write)
	case *ssa.FieldAddr:
		base := ssa.Value(x)
		for {
			if fa, ok := base.(*ssa.FieldAddr); ok {
				base = fa.X
				continue
			}
			if ia, ok := base.(*ssa.IndexAddr); ok {
				base = ia.X
				continue
			}
			break
		}
		l.contents(r, fn, in, base, s, write)
	}
}

// shared: an object of the function's own is known to a goroutine it has started before.
func (l *locksets) shared(addr ssa.Value, in ssa.Instruction) bool {
	for _, b := range in.Parent().Blocks {
		for i, x := range b.Instrs {
			if _, ok := x.(*ssa.Go); !ok {
				continue
			}
			if b == in.Block() {
				for _, y := range b.Instrs[i:] {
					if y == in {
						return true
					}
				}
				if inCycle(b) {
					return true
				}
			} else if reachableBlock(b, in.Block()) {
				return true
			}
		}
	}
	return false
}

// contents records an access to what a value taken from a location refers to.
func (l *locksets) contents(r *lockRoot, fn *ssa.Function, in ssa.Instruction, v ssa.Value, s *lockState, write bool) {
	for _, o := range l.originsOf(fn, v) {
		l.record(r, fn, in, o+"[]", s, write, false)
	}
}

func (l *locksets) originsOf(fn *ssa.Function, v ssa.Value) (out []string) {
	return l.originsAt(fn, v, 0)
}

func (l *locksets) originsAt(fn *ssa.Function, v ssa.Value, depth int) (out []string) {
	switch v.Type().Underlying().(type) {
	case *types.Map, *types.Slice, *types.Pointer, *types.Interface:
	default:
		return nil
	}
	seen := map[string]bool{}
	for _, o := range origins(l.c.P, fn, v) {
		x := o.V
		for {
			if sl, ok := x.(*ssa.Slice); ok {
				x = sl.X
				continue
			}
			break
		}
		u, ok := x.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			continue
		}
		loc, t, _ := l.location(u.X)
		if loc == "" && depth < 6 {
			// part of what a location refers to
			base := u.X
			for {
				if fa, ok := base.(*ssa.FieldAddr); ok {
					base = fa.X
				} else if ia, ok := base.(*ssa.IndexAddr); ok {
					base = ia.X
				} else {
					break
				}
			}
			if base != u.X {
				for _, d := range l.originsAt(o.Fn, base, depth+1) {
					if !seen[d] {
						seen[d] = true
						out = append(out, d)
					}
				}
			}
			continue
		}
		if loc == "" || seen[loc] || isSyncType(t) || l.server[ownerName(t)] || strings.HasPrefix(loc, "option ") || strings.HasPrefix(loc, "var ") && isOption(u) {
			continue
		}
		switch t.Underlying().(type) {
		case *types.Map, *types.Slice, *types.Pointer:
			seen[loc] = true
			out = append(out, loc)
		}
	}
	return
}

// escapes: the address of a shared location is stored somewhere; it counts as a write.
func (l *locksets) escapes(r *lockRoot, fn *ssa.Function, in ssa.Instruction, v ssa.Value, s *lockState) {
	if fa, ok := v.(*ssa.FieldAddr); ok {
		l.use(r, fn, in, fa, s, true)
	}
}

func (l *locksets) record(r *lockRoot, fn *ssa.Function, in ssa.Instruction, loc string, s *lockState, write, atomic bool) {
	if r.main && !s.started {
		return
	}
	k := fmt.Sprintf("%s|%v|%v|%p|%p|%s", loc, write, atomic, r, in, heldNames(s.held))
	if l.accesses[k] == nil {
		h := map[string]bool{}
		for a, b := range s.held {
			h[a] = b
		}
		l.accesses[k] = &sharedAccess{loc, write, atomic, r, h, in, fn}
	}
}

// storesTo are the assignments to a field, of whatever object.
func (l *locksets) storesTo(fa *ssa.FieldAddr) (out []*ssa.Store) {
	for _, fn := range l.c.P.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if f, ok := s.Addr.(*ssa.FieldAddr); ok && f.Field == fa.Field && types.Identical(f.X.Type(), fa.X.Type()) {
						out = append(out, s)
					}
				}
			}
		}
	}
	return
}

// dynCallees: the module functions a dynamic call may reach.
func (l *locksets) dynCallees(from *ssa.Function, cc *ssa.CallCommon) (out []boundFn) {
	if cc.IsInvoke() {
		for _, t := range moduleTypes(l.c.P) {
			for _, tt := range []types.Type{t, types.NewPointer(t)} {
				if types.Implements(tt, cc.Value.Type().Underlying().(*types.Interface)) {
					if m := l.c.P.Prog.LookupMethod(tt, cc.Method.Pkg(), cc.Method.Name()); m != nil {
						out = append(out, boundFn{fn: m})
					}
					break
				}
			}
		}
		return
	}
	all := false
	have := map[*ssa.Function]bool{}
	var from1 func(fn *ssa.Function, v ssa.Value, depth int)
	from1 = func(fn *ssa.Function, v ssa.Value, depth int) {
		for _, o := range origins(l.c.P, fn, v) {
			switch x := o.V.(type) {
			case *ssa.Function:
				have[x] = true
			case *ssa.MakeClosure:
				have[x.Fn.(*ssa.Function)] = true
			case *ssa.Const:
			case *ssa.Call:
				if g := x.Call.StaticCallee(); g == nil || l.c.P.InModule(g) {
					all = true
				}
			case *ssa.Extract:
				c, ok := x.Tuple.(*ssa.Call)
				if !ok || c.Call.StaticCallee() == nil || l.c.P.InModule(c.Call.StaticCallee()) {
					all = true
				}
			case *ssa.UnOp:
				fa, ok := x.X.(*ssa.FieldAddr)
				if !ok || depth > 3 {
					all = true
					continue
				}
				for _, s := range l.storesTo(fa) {
					from1(s.Parent(), s.Val, depth+1)
				}
			default:
				all = true
			}
		}
	}
	from1(from, cc.Value, 0)
	for _, fn := range l.c.P.Funcs {
		if (have[fn] || all && l.taken[fn]) && types.Identical(fn.Signature, cc.Signature()) && fn.Signature.Recv() == nil {
			out = append(out, boundFn{fn: fn})
		}
	}
	return
}

func (l *locksets) call(r *lockRoot, f boundFn, fn *ssa.Function, ci ssa.CallInstruction, s *lockState, cyc bool) []*lockState {
	cc := ci.Common()
	in := ci.(ssa.Instruction)
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "delete", "clear":
			l.contents(r, fn, in, cc.Args[0], s, true)
		case "copy":
			l.contents(r, fn, in, cc.Args[0], s, true)
			l.contents(r, fn, in, cc.Args[1], s, false)
		case "append":
			if sl, ok := cc.Args[0].(*ssa.Slice); ok && sl.High != nil {
				l.contents(r, fn, in, sl.X, s, true) // appends over what the slice holds
			}
			l.contents(r, fn, in, cc.Args[0], s, false)
			l.contents(r, fn, in, cc.Args[1], s, false)
		case "len":
			if _, ok := cc.Args[0].Type().Underlying().(*types.Map); ok {
				l.contents(r, fn, in, cc.Args[0], s, false)
			}
		}
		return []*lockState{s}
	}
	name := ""
	callee, known := boundFn{}, false
	if g := cc.StaticCallee(); g != nil {
		callee, known = boundFn{fn: g}, true
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			callee, _ = l.funcOf(mc, f.env)
		}
		name = flow.FuncName(g)
	} else if !cc.IsInvoke() {
		callee, known = l.funcOf(cc.Value, f.env)
		if known {
			name = flow.FuncName(callee.fn)
		}
	} else {
		name = "(" + ownerName(cc.Value.Type()) + ")." + cc.Method.Name()
	}
	// locks
	recv := ssa.Value(nil)
	if len(cc.Args) > 0 && !cc.IsInvoke() {
		recv = cc.Args[0]
	} else if cc.IsInvoke() {
		recv = cc.Value
	}
	op := ""
	for _, t := range []string{"(*sync.Mutex).", "(*sync.RWMutex).", "(sync.Locker)."} {
		if strings.HasPrefix(name, t) {
			op = name[len(t):]
		}
	}
	switch op {
	case "Lock", "RLock":
		id := l.lockID(recv, f.env)
		if id == "" {
			return []*lockState{s}
		}
		l.locks[id]++
		if _, ok := s.held[id]; ok {
			if l.double != nil {
				l.double(in, fn, id)
			}
		}
		for h := range s.held {
			if h != id {
				if l.order[h] == nil {
					l.order[h] = map[string]ssa.Instruction{}
				}
				l.order[h][id] = in
				l.orderFn[h+"|"+id] = fname(fn)
			}
		}
		s.held[id] = op == "Lock"
		return []*lockState{s}
	case "Unlock", "RUnlock":
		id := l.lockID(recv, f.env)
		if id == "" {
			return []*lockState{s}
		}
		if w, ok := s.held[id]; (!ok || w != (op == "Unlock")) && l.unheld != nil {
			l.unheld(in, fn, id)
		}
		delete(s.held, id)
		return []*lockState{s}
	case "TryLock", "TryRLock", "RLocker":
		return []*lockState{s}
	}
	// atomics
	if strings.HasPrefix(name, "(*sync/atomic.") || strings.HasPrefix(name, "sync/atomic.") {
		if loc, _, local := l.location(recv); loc != "" && !local {
			l.record(r, fn, in, loc, s, !strings.Contains(name, "Load"), true)
		}
		return []*lockState{s}
	}
	if known && l.c.P.InModule(callee.fn) && len(callee.fn.Blocks) > 0 {
		callee.env = merge(callee.env, l.bind(callee.fn.Params, nil, cc.Args, f.env))
		for _, a := range cc.Args {
			l.escapesCall(r, fn, in, a, s)
		}
		return l.follow(r, callee, s, cyc)
	}
	if cc.IsInvoke() || !known && cc.StaticCallee() == nil {
		if what := blockingCall(name, cc); what != "" {
			l.block(in, fn, s, what)
		}
		var out []*lockState
		for _, g := range l.dynCallees(fn, cc) {
			out = append(out, l.follow(r, g, s.clone(), cyc)...)
		}
		for _, a := range cc.Args {
			l.contents(r, fn, in, a, s, false)
		}
		if len(out) > 0 {
			return dedupe(out)
		}
		return []*lockState{s}
	}
	// other modules: arguments are read, what they point to may be written
	if what := blockingCall(name, cc); what != "" {
		l.block(in, fn, s, what)
	}
	changes := strings.HasPrefix(name, "sort.") || strings.HasPrefix(name, "slices.Sort") || strings.HasPrefix(name, "slices.Reverse") || strings.HasPrefix(name, "maps.Copy") || strings.HasPrefix(name, "maps.Delete")
	states := []*lockState{s}
	for i, a := range cc.Args {
		b := a
		if mi, ok := b.(*ssa.MakeInterface); ok {
			b = mi.X
		}
		switch b.(type) {
		case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Global:
			l.use(r, fn, in, b, s, true)
		default:
			l.contents(r, fn, in, b, s, changes && i == 0)
		}
		if g, ok := l.funcOf(a, f.env); ok && l.c.P.InModule(g.fn) {
			if isHandler(g.fn) {
				continue
			}
			if startsElsewhere(name) {
				l.addRoot(g, true, false)
				continue
			}
			var next []*lockState
			for _, t := range states {
				next = append(next, l.follow(r, g, t.clone(), cyc)...)
			}
			states = dedupe(next)
		}
	}
	return states
}

// escapesCall: the address of a shared location is given to a module function.
func (l *locksets) escapesCall(r *lockRoot, fn *ssa.Function, in ssa.Instruction, a ssa.Value, s *lockState) {
	if fa, ok := a.(*ssa.FieldAddr); ok {
		t := fa.Type().Underlying().(*types.Pointer).Elem()
		if _, isStruct := t.Underlying().(*types.Struct); isStruct || isSyncType(t) {
			return // its own fields are looked at where they are used
		}
		l.use(r, fn, in, fa, s, true)
	}
}

func (l *locksets) follow(r *lockRoot, g boundFn, s *lockState, cyc bool) []*lockState {
	if !l.c.P.InModule(g.fn) || len(g.fn.Blocks) == 0 {
		return []*lockState{s}
	}
	var out []*lockState
	for _, e := range l.walk(r, g, s, cyc) {
		n := e.clone()
		n.defers = append([]*deferred(nil), s.defers...)
		out = append(out, n)
	}
	return dedupe(out)
}

// startsElsewhere: function values given to these run in other goroutines.
func startsElsewhere(name string) bool {
	for _, p := range []string{"net/http.", "(*net/http.", "time.AfterFunc", "github.com/prometheus/", "(*github.com/prometheus/", "(*golang.org/x/sync/errgroup", "(*sync.WaitGroup).Go"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// blockingCall: the call may wait for the network, a client or another goroutine.
func blockingCall(name string, cc *ssa.CallCommon) string {
	for _, p := range []string{"(*net/http.Client).", "net/http.Get", "net/http.Post", "net/http.Head", "net/http.Listen", "net/http.Serve", "(*net/http.Server).", "(net/http.ResponseWriter).Write", "(net/http.Flusher).", "net.", "(*net.", "(net.",
		"(*os/exec.Cmd).Run", "(*os/exec.Cmd).Wait", "(*os/exec.Cmd).Output", "(*os/exec.Cmd).CombinedOutput", "time.Sleep", "(*sync.WaitGroup).Wait", "(*sync.Cond).Wait", "(io.ReadCloser).Read", "(net/http.RoundTripper)."} {
		if strings.HasPrefix(name, p) && name != "(net/http.ResponseWriter).WriteHeader" {
			switch name {
			case "net.ParseIP", "net.ParseCIDR", "net.CIDRMask", "net.IPv4", "net.IPv4Mask", "net.JoinHostPort", "net.SplitHostPort":
				return ""
			}
			if strings.HasPrefix(name, "(net.IP") || strings.HasPrefix(name, "(*net.IP") {
				return ""
			}
			return "a call of " + name
		}
	}
	// a writer or reader that is a connection
	args := cc.Args
	if cc.IsInvoke() {
		args = append([]ssa.Value{cc.Value}, args...)
	}
	for i, a := range args {
		if isConn(a, 0) && !strings.HasSuffix(name, ".NewEncoder") && !strings.HasSuffix(name, ".NewDecoder") && !strings.HasSuffix(name, ".NewWriter") && !strings.HasSuffix(name, ".NewReader") && !strings.HasSuffix(name, "MaxBytesReader") && !strings.HasSuffix(name, ".LimitReader") && !strings.HasSuffix(name, ".Header") && !(i == 0 && strings.HasSuffix(name, ".WriteHeader")) {
			return "a call of " + name + " on a connection"
		}
	}
	return ""
}

// isConn: the value is a response writer or body, or made from one.
func isConn(v ssa.Value, depth int) bool {
	if depth > 6 {
		return false
	}
	switch ownerName(v.Type()) {
	case "net/http.ResponseWriter":
		return true
	case "io.ReadCloser":
		return true
	}
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return isConn(x.X, depth+1)
	case *ssa.ChangeInterface:
		return isConn(x.X, depth+1)
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil {
			return false
		}
		n := flow.FuncName(g)
		if strings.HasSuffix(n, ".NewEncoder") || strings.HasSuffix(n, ".NewDecoder") || strings.HasSuffix(n, ".NewWriter") || strings.HasSuffix(n, ".NewReader") || strings.HasSuffix(n, "MaxBytesReader") || strings.HasSuffix(n, ".LimitReader") {
			for _, a := range x.Call.Args {
				if isConn(a, depth+1) {
					return true
				}
			}
		}
	}
	return false
}

// moduleTypes are the named types of the repository.
func moduleTypes(P *flow.Program) (out []types.Type) {
	var pk []string
	for p := range P.SSA {
		pk = append(pk, p)
	}
	sort.Strings(pk)
	for _, p := range pk {
		var ms []string
		for n, m := range P.SSA[p].Members {
			if _, ok := m.(*ssa.Type); ok {
				ms = append(ms, n)
			}
		}
		sort.Strings(ms)
		for _, n := range ms {
			t := P.SSA[p].Members[n].Type()
			if nt, ok := t.(*types.Named); ok && nt.TypeParams().Len() == 0 {
				out = append(out, t)
			}
		}
	}
	return
}
