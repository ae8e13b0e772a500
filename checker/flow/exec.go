package flow

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Oblig is a crash obligation met on some path.
type Oblig struct {
	Kind  string // index, slice, nil, assert, nilmap, div, panic, fatal, recursion
	Term  *Term
	Instr ssa.Instruction
	Frame *Frame
	OK    bool
	State *State
}

// Analyzer runs the dataflow analysis from a root function.
type Analyzer struct {
	P *Program
	W *World

	// Opaque functions of the repository are not followed; their memory effects are applied.
	Opaque func(fn *ssa.Function) bool
	// Pure functions are opaque, without effects, and deterministic in their arguments.
	Pure func(fn *ssa.Function) bool
	// Model may supply the result of a call to a repository function.
	Model func(st *State, fn *ssa.Function, args []*Term, site *Site) (*Term, bool)
	// Split may replace a call of a repository function by several outcomes.
	Split func(st *State, fn *ssa.Function, args []*Term, site *Site) ([]Outcome, bool)
	// SliceEmptiness keeps track of whether slices carried around loops are empty.
	SliceEmptiness bool
	AssumeDeref    bool // record that dereferenced pointers are not nil
	// BackVals holds, during OnBack, the next value of each header phi.
	BackVals map[*ssa.Phi]*Term
	// BackPrev holds, during OnBack, the value of each header phi in the round that ends.
	// (with KeepPhis, also of those that nothing uses any more)
	BackPrev map[*ssa.Phi]*Term
	KeepPhis bool
	// Arith: the results of divisions and masks and of some library functions are bounded by facts, and numbers that are counted
	// up together in a loop are expressed by each other.
	Arith bool
	// EntryFacts: that a number is not below its first value is tried as an invariant of every loop.
	EntryFacts bool
	// Record keeps an event in the state's history.
	Record func(ev *Event) bool
	// OnEvent sees every event in the state just before it takes effect.
	OnEvent func(st *State, ev *Event)
	// OnBack sees the state at every loop back edge.
	OnBack func(st *State, fr *Frame, header *ssa.BasicBlock)
	// GoInline: analyse the function of this go statement where it is started.
	GoInline func(ev *Event) bool
	// ModelExt gives the result of a call of external code.
	ModelExt func(st *State, name string, args []*Term, site *Site) (*Term, bool)
	// OnEnter sees the state at every entry of a loop, BackVals holding the first value of each header phi.
	OnEnter func(st *State, fr *Frame, header *ssa.BasicBlock)
	// OnOblig receives crash obligations.
	OnOblig func(o Oblig)
	// NonNilField says that a field is never nil once its owner is reachable.
	NonNilField func(owner, field string) bool
	// Known says that a value cannot be nil where the facts hold.
	Known func(f *Facts, t *Term) bool

	// Keep selects values on which states are kept apart when there are too many of them.
	Keep func(v ssa.Value) bool

	MaxDepth  int
	MaxFacts  int // fact sets per memory state before they are intersected
	MaxStates int // memory states per block before they are joined
	Budget    int // block executions

	deep      bool
	Steps     int
	Blocks    map[*ssa.BasicBlock]bool
	Visited   map[*ssa.Function]bool
	Joined    int
	Err       error
	Trace     bool
	gconst    map[string]*Term
	infos     map[*ssa.Function]*fnInfo
	loopCells map[string]map[*Term]bool
}

// Deep is how many times more states are kept apart before they are joined.
var Deep = 1

func NewAnalyzer(p *Program) *Analyzer {
	return &Analyzer{P: p, W: NewWorld(), MaxDepth: 14, MaxFacts: 24, MaxStates: 200, Budget: 400000,
		Blocks: map[*ssa.BasicBlock]bool{}, Visited: map[*ssa.Function]bool{}, gconst: map[string]*Term{}, infos: map[*ssa.Function]*fnInfo{}, loopCells: map[string]map[*Term]bool{}}
}

// Exit is one way the root function ends.
type Exit struct {
	St      *State
	Kind    string // return, panic, fatal
	Results []*Term
	Instr   ssa.Instruction
}

// NewState is an empty state.
func (an *Analyzer) NewState() *State {
	return &State{an: an, env: map[ssa.Value]*Term{}, mem: map[*Term]*Term{}, ver: map[string]*Term{}, F: newFacts(), evKeys: map[string]bool{}}
}

// ParamTerms makes the symbolic arguments of fn; receivers and pointer parameters are distinct symbols.
func (an *Analyzer) ParamTerms(fn *ssa.Function) []*Term {
	var out []*Term
	for i, p := range fn.Params {
		out = append(out, an.W.Param(fmt.Sprintf("%s#%d", p.Name(), i), p.Type()))
	}
	return out
}

// Run analyses fn from st with the given arguments.
func (an *Analyzer) Run(fn *ssa.Function, args []*Term, st *State) []Exit {
	if st == nil {
		st = an.NewState()
	}
	if Deep > 1 && !an.deep {
		an.deep = true
		an.MaxFacts *= Deep
		an.MaxStates *= Deep
		an.Budget *= 10 * Deep
	}
	fr := an.W.frame(nil, nil, fn)
	for i, p := range fn.Params {
		st.env[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		st.env[fv] = an.W.Param(fmt.Sprintf("free:%s#%d", fv.Name(), i), fv.Type())
	}
	return an.run(fr, st)
}

// ---- control flow information

type loopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type fnInfo struct {
	rpo    map[*ssa.BasicBlock]int
	order  []*ssa.BasicBlock
	loops  map[*ssa.BasicBlock]*loopInfo
	livein map[*ssa.BasicBlock]map[ssa.Value]bool
}

func (an *Analyzer) info(fn *ssa.Function) *fnInfo {
	if i := an.infos[fn]; i != nil {
		return i
	}
	fi := &fnInfo{rpo: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]*loopInfo{}, livein: map[*ssa.BasicBlock]map[ssa.Value]bool{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := fi.loops[s]
				if l == nil {
					l = &loopInfo{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					fi.loops[s] = l
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	inner := func(b *ssa.BasicBlock) *loopInfo {
		var best *loopInfo
		for _, l := range fi.loops {
			if l.blocks[b] && (best == nil || len(l.blocks) < len(best.blocks)) {
				best = l
			}
		}
		return best
	}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		succs := append([]*ssa.BasicBlock{}, b.Succs...)
		l := inner(b)
		sort.SliceStable(succs, func(i, j int) bool { // leave the loop first: exits get later numbers
			out := func(s *ssa.BasicBlock) bool { return l != nil && !l.blocks[s] }
			return out(succs[i]) && !out(succs[j])
		})
		for _, s := range succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
	}
	for i := len(post) - 1; i >= 0; i-- {
		fi.rpo[post[i]] = len(fi.order)
		fi.order = append(fi.order, post[i])
	}
	// liveness
	use := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	def := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	isVar := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin, nil:
			return false
		}
		return true
	}
	for _, b := range fi.order {
		u, d := map[ssa.Value]bool{}, map[ssa.Value]bool{}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Phi); !ok {
				for _, op := range in.Operands(nil) {
					if *op != nil && isVar(*op) && !d[*op] {
						u[*op] = true
					}
				}
			}
			if v, ok := in.(ssa.Value); ok {
				d[v] = true
			}
		}
		use[b], def[b] = u, d
		fi.livein[b] = map[ssa.Value]bool{}
		for v := range u {
			fi.livein[b][v] = true
		}
	}
	for again := true; again; {
		again = false
		for i := len(fi.order) - 1; i >= 0; i-- {
			b := fi.order[i]
			for _, s := range b.Succs {
				add := func(v ssa.Value) {
					if isVar(v) && !def[b][v] && !fi.livein[b][v] {
						fi.livein[b][v] = true
						again = true
					}
				}
				for v := range fi.livein[s] {
					if p, ok := v.(*ssa.Phi); ok && p.Block() == s {
						continue
					}
					add(v)
				}
				for _, in := range s.Instrs {
					p, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					for k, pr := range s.Preds {
						if pr == b {
							add(p.Edges[k])
						}
					}
				}
			}
		}
	}
	if an.KeepPhis {
		for h, l := range fi.loops {
			for _, in := range h.Instrs {
				p, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				for b := range l.blocks {
					fi.livein[b][p] = true
				}
			}
		}
	}
	for _, b := range fi.order { // the block's own phis are live at entry
		for _, in := range b.Instrs {
			if p, ok := in.(*ssa.Phi); ok {
				fi.livein[b][p] = true
			}
		}
	}
	an.infos[fn] = fi
	return fi
}

// ---- fixpoint over one activation

type activation struct {
	fr      *Frame
	fi      *fnInfo
	pending map[int][]*State
	seen    map[int]map[string][]*Facts
	exits   []Exit
}

func (an *Analyzer) run(fr *Frame, st *State) []Exit {
	fn := fr.Fn
	an.Visited[fn] = true
	fi := an.info(fn)
	act := &activation{fr: fr, fi: fi, pending: map[int][]*State{0: {st}}, seen: map[int]map[string][]*Facts{}}
	for len(act.pending) > 0 {
		idx := -1
		for i := range act.pending {
			if idx < 0 || i < idx {
				idx = i
			}
		}
		list := act.pending[idx]
		delete(act.pending, idx)
		b := fi.order[idx]
		for _, s := range list {
			s.trim(fi.livein[b])
		}
		list = an.merge(list, fi.livein[b], fr, b)
		if act.seen[idx] == nil {
			act.seen[idx] = map[string][]*Facts{}
		}
		for _, s := range list {
			k := s.baseKey(nil)
			dup := false
			for _, f := range act.seen[idx][k] {
				if f.weakerOrEqual(s.F) {
					dup = true
					break
				}
			}
			if dup {
				continue
			}
			if n := len(act.seen[idx][k]); n >= 6 && fi.loops[b] != nil {
				g := s.F
				for _, f := range act.seen[idx][k][n-6:] {
					g = intersect(g, f)
				}
				s = s.clone()
				s.F = g
			}
			act.seen[idx][k] = append(act.seen[idx][k], s.F)
			an.Steps++
			if an.Steps > an.Budget {
				if an.Err == nil {
					an.Err = fmt.Errorf("analysis budget exceeded in %s", FuncName(fn))
				}
				return act.exits
			}
			an.Blocks[b] = true
			an.block(act, b, s)
			if an.Err != nil {
				return act.exits
			}
		}
	}
	return act.exits
}

func (an *Analyzer) block(act *activation, b *ssa.BasicBlock, st *State) {
	states := []*State{st.clone()}
	for _, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		switch x := in.(type) {
		case *ssa.If:
			for _, s := range states {
				c := an.val(s, x.Cond)
				for i, succ := range b.Succs {
					if t := s.Assume(c, i == 0); t != nil {
						an.edge(act, b, succ, i, t)
					}
				}
			}
			return
		case *ssa.Jump:
			for _, s := range states {
				an.edge(act, b, b.Succs[0], 0, s)
			}
			return
		case *ssa.Return:
			for _, s := range states {
				var rs []*Term
				for _, r := range x.Results {
					rs = append(rs, an.val(s, r))
				}
				act.exits = append(act.exits, Exit{St: s, Kind: "return", Results: rs, Instr: x})
			}
			return
		case *ssa.Panic:
			for _, s := range states {
				an.event(s, &Event{Kind: "panic", Name: "panic", Args: []*Term{an.val(s, x.X)}, Instr: x, Frame: act.fr})
				an.oblig(s, act.fr, "panic", an.val(s, x.X), x, false)
				act.exits = append(act.exits, Exit{St: s, Kind: "panic", Instr: x})
			}
			return
		}
		var next []*State
		for _, s := range states {
			next = append(next, an.step(act, s, in)...)
			if an.Err != nil {
				return
			}
		}
		if len(next) > 1 {
			next = an.merge(next, nil, act.fr, nil)
		}
		states = next
		if len(states) == 0 {
			return
		}
	}
}

// edge moves a state along a control flow edge.
func (an *Analyzer) edge(act *activation, from, to *ssa.BasicBlock, succIdx int, st *State) {
	n := st.clone()
	pred := -1
	cnt := 0
	for i, p := range to.Preds {
		if p == from {
			// parallel edges: pick the matching occurrence
			same := 0
			for j := 0; j < succIdx; j++ {
				if from.Succs[j] == to {
					same++
				}
			}
			if cnt == same {
				pred = i
			}
			cnt++
		}
	}
	l := act.fi.loops[to]
	back := l != nil && l.blocks[from]
	vals := map[*ssa.Phi]*Term{}
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals[p] = an.val(st, p.Edges[pred])
	}
	if l == nil {
		for p, v := range vals {
			n.env[p] = v
		}
	} else if !back {
		if an.OnEnter != nil {
			an.BackVals = vals
			an.OnEnter(st, act.fr, to)
			an.BackVals = nil
			for a, v := range st.mem { // what a rule noted
				if isGhost(a) {
					n.mem[a] = v
				}
			}
		}
		linked := map[*ssa.Phi]*ssa.Phi{}
		if an.Arith {
			linked, _ = counted(to, l)
		}
		for p, v := range vals {
			if q := linked[p]; q != nil {
				qs := an.W.mk(OSym, "", q.Type(), an.W.site(act.fr, to, q, "phi"), nil, nil)
				n.env[p] = an.W.Add(qs, an.W.Sub(v, vals[q], p.Type()), p.Type())
				continue
			}
			if generalises(p.Type()) {
				sym := an.W.mk(OSym, "", p.Type(), an.W.site(act.fr, to, p, "phi"), nil, nil)
				n.env[p] = sym
				n.F = an.dropSyms(n.F, func(s *Site) bool { return s == sym.Site })
				an.ghostPhi(n, v, sym)
				an.emptiness(n, p, v, sym)
				if isIntType(p.Type()) && (an.EntryFacts && !multiplies(p, l) || inductive(p, l)) {
					if f := an.assume(n.F, an.W.OrdLe(v, sym), true); f != nil {
						n.F = f
					}
				}
				if an.Arith && isIntType(p.Type()) {
					for _, x := range placesOf(p, l) {
						if xt := n.env[x]; xt != nil {
							if lim := an.W.Len(xt); n.Entails(Lit(an.W.OrdLe(v, lim))) {
								an.bound(n, an.W.OrdLe(sym, lim))
							}
						}
					}
				}
				if lim, q, first := collects(p, l); lim != nil && n.Entails(Lit(an.W.OrdLe(an.W.Int(0), v))) && n.Entails(Lit(an.W.OrdLe(an.W.Sub(an.val(st, lim), vals[q], types.Typ[types.Int]), an.W.Int(7+first)))) {
					if f := an.assume(n.F, an.W.OrdLe(an.W.Int(0), sym), true); f != nil {
						n.F = f
					}
				}
			} else {
				n.env[p] = v
			}
		}
		for a, v := range an.countingCells(act, l, n, vals) {
			n.mem[a] = v
		}
	} else {
		if an.OnBack != nil {
			an.BackVals, an.BackPrev = vals, map[*ssa.Phi]*Term{}
			for p := range vals {
				an.BackPrev[p] = st.env[p]
			}
			an.OnBack(st, act.fr, to)
			an.BackVals, an.BackPrev = nil, nil
			for a, v := range st.mem { // what a rule noted
				if isGhost(a) {
					n.mem[a] = v
				}
			}
		}
		counts := an.countingCells(act, l, n, vals)
		an.loopBack(act, l, n, vals)
		for a, v := range counts {
			n.mem[a] = v
		}
	}
	i := act.fi.rpo[to]
	act.pending[i] = append(act.pending[i], n)
}

// countingCells: variables in memory that the loop sets and that keep, in this step, a constant distance to a number that
// counts its rounds, with their values in terms of that number.
func (an *Analyzer) countingCells(act *activation, l *loopInfo, n *State, vals map[*ssa.Phi]*Term) map[*Term]*Term {
	var out map[*Term]*Term
	for b := range l.blocks {
		for _, in := range b.Instrs {
			x, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			al, ok := x.Addr.(*ssa.Alloc)
			if !ok || l.blocks[al.Block()] || !isIntType(x.Val.Type()) {
				continue
			}
			a := n.env[al]
			v := n.mem[a]
			if a == nil || v == nil {
				continue
			}
			for _, hi := range l.header.Instrs {
				p, ok := hi.(*ssa.Phi)
				if !ok {
					break
				}
				if !types.Identical(p.Type(), x.Val.Type()) || vals[p] == nil {
					continue
				}
				d := an.W.Sub(vals[p], v, p.Type())
				if k, ok := d.IsInt(); ok {
					if out == nil {
						out = map[*Term]*Term{}
					}
					sym := an.W.mk(OSym, "", p.Type(), an.W.site(act.fr, l.header, p, "phi"), nil, nil)
					out[a] = an.W.Sub(sym, an.W.Int(k), p.Type())
					break
				}
			}
		}
	}
	return out
}

// placesOf: the lists from outside of the loop that the number is a place in.
func placesOf(p *ssa.Phi, l *loopInfo) (out []ssa.Value) {
	for _, r := range *p.Referrers() {
		if s, ok := r.(*ssa.Slice); ok && (s.Low == p || s.High == p) {
			if in, ok := s.X.(ssa.Instruction); !ok || !l.blocks[in.Block()] {
				out = append(out, s.X)
			}
		}
	}
	return
}

// counted: the numbers that are increased in every round by the same constant as another one.
func counted(h *ssa.BasicBlock, l *loopInfo) (out map[*ssa.Phi]*ssa.Phi, steps map[*ssa.Phi]int64) {
	out = map[*ssa.Phi]*ssa.Phi{}
	steps = map[*ssa.Phi]int64{}
	first := map[int64]*ssa.Phi{}
	for _, in := range h.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if b, ok := p.Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Int {
			continue
		}
		step, same := int64(0), true
		for i, e := range p.Edges {
			if !l.blocks[h.Preds[i]] {
				continue
			}
			x, ok := e.(*ssa.BinOp)
			if !ok || x.Op != token.ADD || x.X != p {
				same = false
				break
			}
			c, ok := x.Y.(*ssa.Const)
			if !ok || c.Int64() == 0 || step != 0 && step != c.Int64() {
				same = false
				break
			}
			step = c.Int64()
		}
		if !same || step == 0 {
			continue
		}
		if q := first[step]; q != nil {
			out[p], steps[p] = q, step
		} else {
			first[step] = p
		}
	}
	return
}

// inductive: every in-loop edge adds a non-negative constant to the phi (possibly through inner phis).
func inductive(p *ssa.Phi, l *loopInfo) bool {
	seen := map[ssa.Value]bool{}
	var ok func(v ssa.Value) bool
	ok = func(v ssa.Value) bool {
		if v == p || seen[v] {
			return true
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.BinOp:
			if x.Op == token.ADD {
				if c, isC := x.Y.(*ssa.Const); isC && c.Value != nil && constant.Sign(c.Value) >= 0 {
					return ok(x.X)
				}
			}
		case *ssa.Phi:
			if !l.blocks[x.Block()] {
				return false
			}
			for _, e := range x.Edges {
				if !ok(e) {
					return false
				}
			}
			return true
		}
		return false
	}
	for i, e := range p.Edges {
		if l.blocks[p.Block().Preds[i]] && !ok(e) {
			return false
		}
	}
	return true
}

func generalises(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsBoolean == 0
	case *types.Slice:
		return true
	}
	return false
}

// InLoop: the instruction of a frame is executed in the loop of a header of a frame.
func (an *Analyzer) InLoop(in ssa.Instruction, fr *Frame, lf *Frame, header *ssa.BasicBlock) bool {
	for fr != nil && fr != lf {
		in, fr = fr.Call, fr.Parent
	}
	if fr == nil || in == nil || in.Block() == nil {
		return false
	}
	l := an.info(lf.Fn).loops[header]
	return l != nil && l.blocks[in.Block()]
}

// LoopBlocks are the blocks of the loop with the header.
func (an *Analyzer) LoopBlocks(fn *ssa.Function, header *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	if l := an.info(fn).loops[header]; l != nil {
		return l.blocks
	}
	return nil
}

func (an *Analyzer) inLoop(s *Site, fr *Frame, l *loopInfo) bool {
	f, b := s.Frame, s.Block
	if b == nil && s.Instr != nil {
		b = s.Instr.Block()
	}
	for f != nil && f != fr {
		if f.Call == nil {
			return false
		}
		b = f.Call.Block()
		f = f.Parent
	}
	return f == fr && b != nil && l.blocks[b]
}

func hasSym(t *Term, in func(*Site) bool) bool {
	for _, s := range t.syms {
		if in(s.Site) {
			return true
		}
	}
	return false
}

func (an *Analyzer) dropSyms(f *Facts, in func(*Site) bool) *Facts {
	drop := false
	for l := range f.lits {
		if hasSym(l, in) {
			drop = true
		}
	}
	for k := range f.diffs {
		if hasSym(k[0], in) || hasSym(k[1], in) {
			drop = true
		}
	}
	if !drop {
		return f
	}
	g := newFacts()
	for l, v := range f.lits {
		if !hasSym(l, in) {
			g.lits[l] = v
		}
	}
	for k, c := range f.diffs {
		if !hasSym(k[0], in) && !hasSym(k[1], in) {
			g.diffs[k] = c
		}
	}
	return g
}

func (an *Analyzer) loopBack(act *activation, l *loopInfo, n *State, vals map[*ssa.Phi]*Term) {
	w := an.W
	memo := map[*Site]bool{}
	in := func(s *Site) bool {
		if v, ok := memo[s]; ok {
			return v
		}
		v := an.inLoop(s, act.fr, l)
		memo[s] = v
		return v
	}
	// facts about header symbols that are preserved by this iteration
	type cand struct {
		lit  *Term
		v    bool
		x, y *Term
		c    int64
	}
	var keep []cand
	ps := map[*Term]*Term{} // phi symbol -> new value
	for p, v := range vals {
		if generalises(p.Type()) {
			ps[w.mk(OSym, "", p.Type(), w.site(act.fr, l.header, p, "phi"), nil, nil)] = v
		}
	}
	onlyPhi := func(t *Term) bool {
		any := false
		for _, s := range t.syms {
			if _, ok := ps[s]; ok {
				any = true
			} else if in(s.Site) {
				return false
			}
		}
		return any
	}
	subst := func(t *Term) *Term {
		for s, v := range ps {
			t = w.substSimul(t, s, v)
		}
		return t
	}
	okInv := func(ts ...*Term) bool {
		any := false
		for _, t := range ts {
			if onlyPhi(t) {
				any = true
			} else if hasSym(t, in) {
				return false
			}
		}
		return any
	}
	for k, c := range n.F.diffs {
		if okInv(k[0], k[1]) {
			nl := w.OrdLe(w.Sub(subst(k[0]), subst(k[1]), types.Typ[types.Int]), w.Int(c))
			if an.eval(n.F, nl) == Yes {
				keep = append(keep, cand{x: k[0], y: k[1], c: c})
			}
		}
	}
	for lt, v := range n.F.lits {
		if okInv(lt) {
			nt := w.rebuild(subst(lt))
			if e := an.eval(n.F, nt); e == Yes && v || e == No && !v {
				keep = append(keep, cand{lit: lt, v: v})
			}
		}
	}
	nonnil := map[*ssa.Phi]bool{}
	for p, v := range vals {
		if !generalises(p.Type()) && isNilable(p.Type()) && n.NonNil(v) {
			nonnil[p] = true
		}
	}
	natural := map[*ssa.Phi]bool{}
	for p := range vals {
		if old := n.env[p]; old != nil && isIntType(p.Type()) && isCollecting(p, l) {
			natural[p] = n.Entails(Lit(w.OrdLe(w.Int(0), old)))
		}
	}
	empt := map[*ssa.Phi]int{}
	if an.SliceEmptiness {
		for p, v := range vals {
			empt[p] = an.emptyOf(n, p, v)
		}
	}
	// what is decided about conditions and lists that are about to be generalised
	decided := map[*ssa.Phi]*Term{}
	for p, v := range vals {
		if isBoolType(p.Type()) && hasSym(v, in) {
			switch an.eval(n.F, v) {
			case Yes:
				decided[p] = w.True
			case No:
				decided[p] = w.False
			}
		}
	}
	cellEmpt := map[*Term]int{}
	if an.SliceEmptiness {
		for a, v := range n.mem {
			if !isGhost(a) && v.Typ != nil && hasSym(v, in) {
				cellEmpt[a] = an.emptyTerm(n, v.Typ, v)
			}
		}
	}
	n.F = an.dropSyms(n.F, in)
	if len(keep) > 0 {
		g := n.F.clone()
		for _, k := range keep {
			if k.lit != nil {
				g.lits[k.lit] = k.v
			} else {
				setMin(g, k.x, k.y, k.c)
			}
		}
		n.F = g
	}
	for v, t := range n.env {
		if hasSym(t, in) {
			delete(n.env, v)
		}
	}
	var steps map[*ssa.Phi]int64
	if an.Arith {
		_, steps = counted(l.header, l)
	}
	for p, v := range vals {
		if k := steps[p]; k != 0 {
			n.env[p] = w.Sub(v, w.Int(k), p.Type())
			continue
		}
		sym := w.mk(OSym, "", p.Type(), w.site(act.fr, l.header, p, "phi"), nil, nil)
		if generalises(p.Type()) {
			n.env[p] = sym
			an.ghostPhi(n, v, sym)
			an.assumeEmpty(n, empt[p], sym)
			if natural[p] {
				if f := an.assume(n.F, w.OrdLe(w.Int(0), sym), true); f != nil {
					n.F = f
				}
			}
			continue
		}
		if k := decided[p]; k != nil {
			n.env[p] = k
			continue
		}
		if hasSym(v, in) || an.cellWidened(fmt.Sprintf("phi%d|%p", act.fr.ID, p), v) {
			an.ghostPhi(n, v, sym)
			n.env[p] = sym
			if nonnil[p] {
				if f := an.assume(n.F, w.EqAtom(sym, w.Nil), false); f != nil {
					n.F = f
				}
			}
		} else {
			n.env[p] = v
		}
	}
	cellSym := func(a, v *Term) *Term {
		var typ types.Type = elemOf(a.Typ)
		if a.Op == OMapElem {
			typ = v.Typ
		}
		return w.mk(OSym, "", typ, w.site(act.fr, l.header, nil, fmt.Sprintf("cell%d", a.ID)), nil, nil)
	}
	// rule state that holds the value of a list in a cell follows it
	follow := map[*Term]*Term{}
	for a, v := range n.mem {
		if !isGhost(a) && !hasSym(a, in) && hasSym(v, in) && v.Typ != nil {
			if _, ok := v.Typ.Underlying().(*types.Slice); ok && (follow[v] == nil || a.ID < follow[v].ID) {
				follow[v] = a
			}
		}
	}
	for v, a := range follow {
		follow[v] = cellSym(a, v)
	}
	for a, v := range n.mem {
		if hasSym(a, in) {
			delete(n.mem, a)
			continue
		}
		if isGhost(a) && follow[v] != nil {
			n.mem[a] = follow[v]
			continue
		}
		if isGhost(a) && !hasSym(v, in) {
			follows := false
			for _, pv := range vals {
				if pv == v {
					follows = true
				}
			}
			if follows {
				continue
			}
		}
		if isGhost(a) && v.Op == OSym && v.Site.Block == l.header && v.Site.Tag == "phi" && v.Site.Frame == act.fr {
			continue
		}
		if hasSym(v, in) || an.cellWidened(fmt.Sprintf("mem%d|%p|%d", act.fr.ID, l.header, a.ID), v) {
			if v.Op == OSym && v.Aux == absent {
				continue
			}
			n.mem[a] = cellSym(a, v)
			an.assumeEmpty(n, cellEmpt[a], n.mem[a])
		}
	}
	for c, e := range n.ver {
		if hasSym(e, in) {
			n.ver[c] = w.mk(OSym, "", nil, w.site(act.fr, l.header, nil, "epoch"), nil, nil)
		}
	}
	changed := false
	for i, e := range n.ev {
		if e.Old {
			continue
		}
		old := false
		for _, a := range e.Args {
			if hasSym(a, in) {
				old = true
			}
		}
		if e.Res != nil && hasSym(e.Res, in) {
			old = true
		}
		if old {
			if !changed {
				n.ev = append([]*Event{}, n.ev...)
				changed = true
			}
			c := *e
			c.Old = true
			n.ev[i] = &c
		}
	}
	if changed {
		var out []*Event
		n.evKeys = map[string]bool{}
		for _, e := range n.ev {
			k := e.key()
			if !n.evKeys[k] {
				n.evKeys[k] = true
				out = append(out, e)
			}
		}
		n.ev = out
	}
}

// cellWidened reports that too many different values reached this cell at this header.
func (an *Analyzer) cellWidened(key string, v *Term) bool {
	m := an.loopCells[key]
	if m == nil {
		m = map[*Term]bool{}
		an.loopCells[key] = m
	}
	if m[v] {
		return false
	}
	if len(m) >= 4 {
		return true
	}
	m[v] = true
	return false
}

func isNilable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Map, *types.Slice, *types.Signature, *types.Chan:
		return true
	}
	return false
}

// substSimul replaces a symbol by a value, keeping linear forms normalised.
func (w *World) substSimul(t, a, b *Term) *Term {
	if t == a {
		return b
	}
	if !t.Contains(a) {
		return t
	}
	args := make([]*Term, len(t.Args))
	for i, x := range t.Args {
		args[i] = w.substSimul(x, a, b)
	}
	if t.Op == OLin {
		o := t.Obj.(linObj)
		l := lin{m: map[*Term]int64{}, c: o.c}
		for i := range args {
			w.linAdd(&l, args[i], o.coef[i])
		}
		return w.linTerm(l, t.Typ)
	}
	if t.Op == OLen {
		return w.Len(args[0])
	}
	return w.mk(t.Op, t.Aux, t.Typ, t.Site, t.Obj, args)
}

// rebuild renormalises an atom after substitution.
func (w *World) rebuild(t *Term) *Term {
	switch t.Op {
	case OEq:
		if strings.HasPrefix(t.Aux, "ord") {
			return w.OrdEq(w.Sub(t.Args[0], t.Args[1], types.Typ[types.Int]), w.Int(t.Obj.(int64)))
		}
		return w.EqAtom(t.Args[0], t.Args[1])
	}
	return t
}

// ---- merging

func (an *Analyzer) merge(list []*State, live map[ssa.Value]bool, fr *Frame, b *ssa.BasicBlock) []*State {
	if len(list) < 2 {
		return list
	}
	groups := map[string][]*State{}
	var order []string
	for _, s := range list {
		k := s.baseKey(live)
		if groups[k] == nil {
			order = append(order, k)
		}
		groups[k] = append(groups[k], s)
	}
	var out []*State
	for _, k := range order {
		g := groups[k]
		fs := make([]*Facts, len(g))
		for i, s := range g {
			fs[i] = s.F
		}
		fs = reduceFacts(fs)
		for len(fs) > an.MaxFacts {
			an.Joined++
			fs = joinClosest(fs)
			fs = reduceFacts(fs)
		}
		for _, f := range fs {
			s := g[0].clone()
			s.F = f
			out = append(out, s)
		}
	}
	if b != nil && len(order) > an.MaxStates {
		an.Joined++
		parts := map[string]*State{}
		var pk []string
		for _, s := range out {
			k := s.partKey(live)
			if p := parts[k]; p != nil {
				parts[k] = an.joinStates(p, s, fr, b)
			} else {
				parts[k] = s
				pk = append(pk, k)
			}
		}
		if len(pk) > an.MaxStates {
			acc := out[0]
			for _, s := range out[1:] {
				acc = an.joinStates(acc, s, fr, b)
			}
			return []*State{acc}
		}
		out = out[:0:0]
		for _, k := range pk {
			out = append(out, parts[k])
		}
	}
	return out
}

func reduceFacts(fs []*Facts) []*Facts {
	for again := true; again; {
		again = false
	outer:
		for i := 0; i < len(fs); i++ {
			for j := i + 1; j < len(fs); j++ {
				var h *Facts
				if fs[i].weakerOrEqual(fs[j]) {
					h = fs[i]
				} else if fs[j].weakerOrEqual(fs[i]) {
					h = fs[j]
				} else {
					h = resolve(fs[i], fs[j])
				}
				if h != nil {
					fs = append(append(append([]*Facts{}, fs[:i]...), fs[i+1:j]...), fs[j+1:]...)
					fs = append(fs, h)
					again = true
					break outer
				}
			}
		}
	}
	return fs
}

// joinClosest intersects the two fact sets that lose the least.
func joinClosest(fs []*Facts) []*Facts {
	bi, bj, best := 0, 1, -1
	for i := 0; i < len(fs); i++ {
		for j := i + 1; j < len(fs) && j < i+8; j++ {
			loss := 0
			for l, v := range fs[i].lits {
				if gv, ok := fs[j].lits[l]; !ok || gv != v {
					loss++
				}
			}
			for l, v := range fs[j].lits {
				if gv, ok := fs[i].lits[l]; !ok || gv != v {
					loss++
				}
			}
			if best < 0 || loss < best {
				bi, bj, best = i, j, loss
			}
		}
	}
	h := intersect(fs[bi], fs[bj])
	out := append(append(append([]*Facts{}, fs[:bi]...), fs[bi+1:bj]...), fs[bj+1:]...)
	return append(out, h)
}

// partKey says which states may be joined: those that agree on constants, nilness and rule state.
func (s *State) partKey(live map[ssa.Value]bool) string {
	var ks []string
	for v, t := range s.env {
		if live != nil && !live[v] {
			continue
		}
		switch {
		case t.Op == OConst || t.Op == ONil || s.an.Keep != nil && s.an.Keep(v):
			ks = append(ks, fmt.Sprintf("%p=%d", v, t.ID))
		case isNilable(v.Type()) && s.NonNil(t):
			ks = append(ks, fmt.Sprintf("%p!", v))
		}
	}
	for a, t := range s.mem {
		if isGhost(a) {
			if t.Op == OConst || t.Op == ONil {
				ks = append(ks, fmt.Sprintf("g%d=%d", a.ID, t.ID))
			} else {
				ks = append(ks, fmt.Sprintf("g%d", a.ID))
			}
		}
	}
	sort.Strings(ks)
	return strings.Join(ks, ";")
}

func (an *Analyzer) joinStates(a, b *State, fr *Frame, blk *ssa.BasicBlock) *State {
	w := an.W
	n := a.clone()
	n.F = intersect(a.F, b.F)
	same := map[[2]*Term]*Term{} // equal values stay equal
	join := func(t, u *Term, tag string, typ types.Type) *Term {
		if s := same[[2]*Term{t, u}]; s != nil {
			return s
		}
		s := w.Sym(w.site(fr, blk, nil, tag), typ)
		same[[2]*Term{t, u}] = s
		n.F = an.dropSyms(n.F, func(x *Site) bool { return x == s.Site })
		if typ == nil {
			return s
		}
		if an.SliceEmptiness {
			if e := an.emptyTerm(a, typ, t); e != 0 && e == an.emptyTerm(b, typ, u) {
				an.assumeEmpty(n, e, s)
			}
		}
		if isNilable(typ) && a.NonNil(t) && b.NonNil(u) {
			if f := an.assume(n.F, w.EqAtom(s, w.Nil), false); f != nil {
				n.F = f
			}
		}
		return s
	}
	var vs []ssa.Value
	for v := range a.env {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
	for _, v := range vs {
		t := a.env[v]
		u, ok := b.env[v]
		if !ok {
			delete(n.env, v)
		} else if u != t {
			n.env[v] = join(t, u, "join"+v.Name(), v.Type())
		}
	}
	for c, t := range a.mem {
		if u, ok := b.mem[c]; !ok {
			delete(n.mem, c)
			n.ver[classOf(c)] = w.Sym(w.site(fr, blk, nil, "joinepoch"), nil)
		} else if u != t {
			n.mem[c] = join(t, u, fmt.Sprintf("join%d", c.ID), t.Typ)
		}
	}
	for c := range b.mem {
		if _, ok := a.mem[c]; !ok {
			n.ver[classOf(c)] = w.Sym(w.site(fr, blk, nil, "joinepoch"), nil)
		}
	}
	for c, e := range b.ver {
		if a.ver[c] != e {
			n.ver[c] = w.Sym(w.site(fr, blk, nil, "joinepoch"), nil)
		}
	}
	for c, e := range a.ver {
		if b.ver[c] != e {
			n.ver[c] = w.Sym(w.site(fr, blk, nil, "joinepoch"), nil)
		}
	}
	var ev []*Event
	n.evKeys = map[string]bool{}
	both := func(e *Event, o *State) *Event {
		if o.evKeys[e.key()] || e.May {
			return e
		}
		c := *e
		c.May = true
		return &c
	}
	for _, e := range a.ev {
		ev = append(ev, both(e, b))
	}
	for _, e := range b.ev {
		if !a.evKeys[e.key()] {
			ev = append(ev, both(e, a))
		}
	}
	n.ev = nil
	for _, e := range ev {
		n.addEvent(e)
	}
	return n
}

// gc drops cells of unreachable allocations.
func (s *State) gc(extra ...*Term) {
	reach := map[*Term]bool{}
	var visit func(t *Term)
	seen := map[*Term]bool{}
	visit = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if isFresh(t) {
			reach[t] = true
		}
		for _, a := range t.Args {
			visit(a)
		}
	}
	for _, t := range s.env {
		visit(t)
	}
	for o := s.outer; o != nil; o = o.parent {
		for _, t := range o.env {
			visit(t)
		}
		for _, d := range o.defers {
			for _, a := range d.args {
				visit(a)
			}
			if d.fn != nil {
				visit(d.fn)
			}
		}
	}
	for _, t := range extra {
		visit(t)
	}
	for _, e := range s.ev {
		for _, a := range e.Args {
			visit(a)
		}
	}
	for _, d := range s.defers {
		for _, a := range d.args {
			visit(a)
		}
		if d.fn != nil {
			visit(d.fn)
		}
	}
	for again := true; again; {
		again = false
		for a, v := range s.mem {
			if r := root(a); !isFresh(r) || reach[r] {
				if !seen[v] {
					visit(v)
					again = true
				}
				if a.Op == OMapElem && !seen[a.Args[1]] {
					visit(a.Args[1])
					again = true
				}
			}
		}
	}
	for a := range s.mem {
		if r := root(a); isFresh(r) && !reach[r] {
			delete(s.mem, a)
		}
	}
}

// ---- facts with implications

func (an *Analyzer) eval(f *Facts, t *Term) Tri {
	r := an.W.Eval(f, t)
	if r == Unknown && an.Known != nil && t.Op == ONot {
		switch an.eval(f, t.Args[0]) {
		case Yes:
			return No
		case No:
			return Yes
		}
	}
	if r == Unknown && an.Known != nil && t.Op == OEq && t.Args[1].Op == ONil && an.Known(f, t.Args[0]) {
		return No
	}
	if r == Unknown && t.Op == OEq && t.Args[1].Op == ONil && an.NonNilField != nil {
		a := t.Args[0]
		if a.Op == ODeref && a.Args[0].Op == OFieldAddr {
			o, _ := a.Args[0].Obj.(string)
			if an.NonNilField(o, a.Args[0].Aux) {
				return No
			}
		}
		if a.Op == OField {
			if an.NonNilField(structOwnerOf(a.Args[0]), a.Aux) {
				return No
			}
		}
	}
	return r
}

func structOwnerOf(t *Term) string {
	if t.Typ == nil {
		return ""
	}
	return structOwner(t.Typ)
}

func (an *Analyzer) assume(f *Facts, t *Term, v bool) *Facts {
	w := an.W
	if an.eval(f, t) == No && v || an.eval(f, t) == Yes && !v {
		return nil
	}
	g := w.Assume(f, t, v)
	if g == nil || g == f {
		return g
	}
	for t.Op == ONot {
		t, v = t.Args[0], !v
	}
	switch {
	case t.Op == OEq && t.Args[1].Op == ONil && v:
		a := t.Args[0]
		if a.Op == OExtract && a.Args[0].Op == OCall && a.Typ != nil && isErrorType(a.Typ) && a.Args[0].Obj == "ext" {
			if tup, ok := a.Args[0].Typ.(*types.Tuple); ok && pointers(tup) == 1 { // one of several alternatives may well be nil
				for i := 0; i < tup.Len(); i++ {
					switch tup.At(i).Type().Underlying().(type) {
					case *types.Pointer, *types.Interface:
						if isErrorType(tup.At(i).Type()) {
							continue
						}
						e := w.Extract(a.Args[0], i, tup.At(i).Type())
						if h := w.Assume(g, w.EqAtom(e, w.Nil), false); h != nil {
							g = h
						}
					}
				}
			}
		}
		// a nil slice or map is empty
		if a.Typ != nil {
			switch a.Typ.Underlying().(type) {
			case *types.Slice, *types.Map:
				g = w.Assume(g, w.OrdEq(w.Len(a), w.Zero0), true)
			}
		}
	case t.Op == OCall && v && (t.Aux == "strings.HasPrefix" || t.Aux == "strings.HasSuffix" || t.Aux == "strings.Contains"):
		if h := w.Assume(g, w.OrdLe(w.Len(t.Args[1]), w.Len(t.Args[0])), true); h != nil {
			g = h
		} else {
			return nil
		}
	case t.Op == OLe && (t.Args[1].Op == OLen || t.Args[0].Op == OLen) || t.Op == OEq && !v && strings.HasPrefix(t.Aux, "ord"):
		for _, a := range t.Args {
			if a.Op == OLen && a.Args[0].Typ != nil && isNilable(a.Args[0].Typ) && w.Eval(g, w.OrdLe(w.Int(1), a)) == Yes {
				if h := w.Assume(g, w.EqAtom(a.Args[0], w.Nil), false); h != nil {
					g = h
				} else {
					return nil
				}
			}
		}
	}
	return g
}

func pointers(tup *types.Tuple) (n int) {
	for i := 0; i < tup.Len(); i++ {
		switch t := tup.At(i).Type(); t.Underlying().(type) {
		case *types.Pointer, *types.Interface:
			if !isErrorType(t) {
				n++
			}
		}
	}
	return
}

func isErrorType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

func (w *World) Extract(t *Term, i int, typ types.Type) *Term {
	if t.Op == OTuple {
		return t.Args[i]
	}
	return w.mk(OExtract, fmt.Sprint(i), typ, nil, nil, []*Term{t})
}

// ---- values

func (an *Analyzer) constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		if isNilable(c.Type()) {
			return an.W.Nil
		}
		return an.W.ZeroOf(c.Type())
	}
	v := c.Value
	if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && v.Kind() == constant.Float {
		v = constant.ToInt(v)
	}
	return an.W.Const(v)
}

// Global is the address of a package variable.
func (an *Analyzer) Global(g *ssa.Global) *Term {
	return an.W.mk(OGlobal, globalName(g), g.Type(), nil, nil, nil)
}

func (an *Analyzer) val(st *State, v ssa.Value) *Term {
	w := an.W
	switch x := v.(type) {
	case *ssa.Const:
		return an.constTerm(x)
	case *ssa.Global:
		return w.mk(OGlobal, globalName(x), x.Type(), nil, nil, nil)
	case *ssa.Function:
		return w.mk(OFunc, FuncName(x), x.Type(), nil, x, nil)
	case *ssa.Builtin:
		return w.mk(OFunc, "builtin "+x.Name(), x.Type(), nil, nil, nil)
	}
	if t, ok := st.env[v]; ok {
		return t
	}
	// Unknown: the value was dropped; use an unconstrained symbol.
	return w.mk(OParam, fmt.Sprintf("?%s@%p", v.Name(), v), v.Type(), nil, nil, nil)
}

func (an *Analyzer) event(st *State, ev *Event) {
	if an.OnEvent != nil {
		an.OnEvent(st, ev)
	}
	if an.Record != nil && an.Record(ev) {
		st.addEvent(ev)
	}
}

func (an *Analyzer) oblig(st *State, fr *Frame, kind string, t *Term, in ssa.Instruction, ok bool) {
	if an.OnOblig != nil {
		an.OnOblig(Oblig{Kind: kind, Term: t, Instr: in, Frame: fr, OK: ok, State: st})
	}
}

// needNonNil registers a nil dereference obligation and then assumes it.
func (an *Analyzer) needNonNil(st *State, fr *Frame, t *Term, in ssa.Instruction) *State {
	if an.OnOblig == nil && !an.AssumeDeref {
		return st
	}
	ok := st.NonNil(t)
	an.oblig(st, fr, "nil", t, in, ok)
	if ok {
		return st
	}
	n := st.Assume(an.W.EqAtom(t, an.W.Nil), false)
	return n // nil when it is certainly nil: the path ends here
}

func (an *Analyzer) need(st *State, fr *Frame, kind string, c *Term, what *Term, in ssa.Instruction) *State {
	if an.OnOblig == nil {
		return st
	}
	ok := st.Eval(c) == Yes
	an.oblig(st, fr, kind, what, in, ok)
	if ok {
		return st
	}
	return st.Assume(c, true)
}

func one(s *State) []*State {
	if s == nil {
		return nil
	}
	return []*State{s}
}

func (an *Analyzer) site(fr *Frame, in ssa.Instruction, tag string) *Site {
	return an.W.site(fr, in.Block(), in, tag)
}

// cmp builds the boolean term of a comparison.
func (an *Analyzer) Cmp(op token.Token, x, y *Term, typ types.Type) *Term {
	w := an.W
	if op == token.NEQ {
		return w.Not(an.Cmp(token.EQL, x, y, typ))
	}
	if op == token.GTR || op == token.GEQ {
		o := token.LSS
		if op == token.GEQ {
			o = token.LEQ
		}
		return an.Cmp(o, y, x, typ)
	}
	// results of three-way comparisons
	for i, p := range []*Term{x, y} {
		q := []*Term{y, x}[i]
		if p.Op == OCall && p.Aux == "cmp" {
			if n, ok := q.IsInt(); ok {
				var set [3]bool
				for s := int64(-1); s <= 1; s++ {
					a, b := s, n
					if i == 1 {
						a, b = n, s
					}
					switch op {
					case token.EQL:
						set[s+1] = a == b
					case token.LSS:
						set[s+1] = a < b
					case token.LEQ:
						set[s+1] = a <= b
					}
				}
				a, b := p.Args[0], p.Args[1]
				switch set {
				case [3]bool{true, false, false}:
					return w.OrdLt(a, b)
				case [3]bool{false, true, false}:
					return w.OrdEq(a, b)
				case [3]bool{false, false, true}:
					return w.OrdLt(b, a)
				case [3]bool{true, true, false}:
					return w.OrdLe(a, b)
				case [3]bool{false, true, true}:
					return w.OrdLe(b, a)
				case [3]bool{true, false, true}:
					return w.Not(w.OrdEq(a, b))
				case [3]bool{true, true, true}:
					return w.True
				}
				return w.False
			}
		}
	}
	u := typ.Underlying()
	b, _ := u.(*types.Basic)
	switch {
	case b != nil && b.Info()&types.IsInteger != 0:
		switch op {
		case token.EQL:
			return w.OrdEq(x, y)
		case token.LSS:
			return w.OrdLt(x, y)
		case token.LEQ:
			return w.OrdLe(x, y)
		}
	case b != nil && b.Info()&types.IsString != 0:
		if op == token.EQL {
			return an.StrEq(x, y)
		}
		if op == token.LSS {
			return w.OrdLt(x, y)
		}
		return w.OrdLe(x, y)
	case b != nil && b.Info()&types.IsBoolean != 0:
		if op == token.EQL {
			switch {
			case y == w.True:
				return x
			case y == w.False:
				return w.Not(x)
			case x == w.True:
				return y
			case x == w.False:
				return w.Not(y)
			}
			// a==b for booleans stays an atom over ordered truth values
			return w.EqAtom(x, y)
		}
	}
	if op == token.EQL {
		if a, ok := u.(*types.Array); ok {
			if e, ok := a.Elem().Underlying().(*types.Basic); ok && e.Kind() == types.Uint8 {
				return w.OrdEq(w.StrOf(x), w.StrOf(y))
			}
		}
		if x.Op == OMkIface && y.Op == OMkIface {
			if !types.Identical(x.Typ, y.Typ) {
				return w.False
			}
			return an.Cmp(op, x.Args[0], y.Args[0], x.Typ)
		}
		return w.EqAtom(x, y)
	}
	return w.mk(OBin, op.String(), types.Typ[types.Bool], nil, nil, []*Term{x, y})
}

// StrEq compares strings or byte strings.
func (an *Analyzer) StrEq(x, y *Term) *Term {
	w := an.W
	for i, p := range []*Term{x, y} {
		if s, ok := p.IsStr(); ok && s == "" {
			return w.OrdEq(w.Len([]*Term{y, x}[i]), w.Zero0)
		}
	}
	return w.OrdEq(x, y)
}

func intRange(t types.Type) (lo, hi int64, bits int, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return -1 << 63, 1<<63 - 1, 64, true
	case types.Int8:
		return -128, 127, 8, true
	case types.Int16:
		return -32768, 32767, 16, true
	case types.Int32, types.UntypedRune:
		return -1 << 31, 1<<31 - 1, 32, true
	case types.Uint8:
		return 0, 255, 8, true
	case types.Uint16:
		return 0, 65535, 16, true
	case types.Uint32:
		return 0, 1<<32 - 1, 32, true
	}
	return
}

func (an *Analyzer) convert(st *State, x *Term, from, to types.Type) *Term {
	w := an.W
	if types.Identical(from.Underlying(), to.Underlying()) {
		return x
	}
	if isIntType(from) && isIntType(to) {
		flo, fhi, _, fok := intRange(from)
		tlo, thi, _, tok := intRange(to)
		if n, ok := x.IsInt(); ok {
			if tok && n >= tlo && n <= thi || !tok && n >= 0 {
				return x
			}
		}
		if fok && tok && flo >= tlo && fhi <= thi {
			return x
		}
		if fok && !tok { // to uint, uint64: fine when non-negative
			if flo >= 0 || st.Eval(w.OrdLe(w.Zero0, x)) == Yes {
				return x
			}
		}
		if tok && st.Eval(w.OrdLe(w.Int(tlo), x)) == Yes && (thi == 1<<63-1 && fok || st.Eval(w.OrdLe(x, w.Int(thi))) == Yes) {
			return x
		}
		if !fok && !tok {
			return x
		}
		return w.mk(OConv, "", to, nil, nil, []*Term{x})
	}
	if isStrOrBytes(from) && isStrOrBytes(to) {
		if c, ok := x.IsStr(); ok && isString(to) {
			return w.Str(c)
		}
		if isString(to) {
			return w.StrOf(x)
		}
		if x.Op == OConv && x.Aux == "str" {
			return x.Args[0]
		}
		return w.mk(OConv, "bytes", to, nil, nil, []*Term{x})
	}
	return w.mk(OConv, "", to, nil, nil, []*Term{x})
}

func (an *Analyzer) binop(st *State, x *ssa.BinOp) *Term {
	w := an.W
	a, b := an.val(st, x.X), an.val(st, x.Y)
	switch x.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return an.Cmp(x.Op, a, b, x.X.Type())
	}
	t := x.Type()
	if isString(t) && x.Op == token.ADD {
		return w.Cat(a, b)
	}
	if ca, cb := a.ConstVal(), b.ConstVal(); ca != nil && cb != nil && isIntType(t) && ca.Kind() == constant.Int && cb.Kind() == constant.Int {
		switch x.Op {
		case token.SHL, token.SHR:
			if n, ok := constant.Uint64Val(cb); ok && n < 64 {
				return w.Const(constant.Shift(ca, x.Op, uint(n)))
			}
		case token.QUO, token.REM:
			if constant.Sign(cb) != 0 {
				op := x.Op
				if op == token.QUO {
					op = token.QUO_ASSIGN
				}
				return w.Const(constant.BinaryOp(ca, op, cb))
			}
		default:
			return w.Const(constant.BinaryOp(ca, x.Op, cb))
		}
	}
	if isIntType(t) {
		switch x.Op {
		case token.ADD:
			return w.Add(a, b, t)
		case token.SUB:
			if !isUnsigned(t) || st.Eval(w.OrdLe(b, a)) == Yes {
				return w.Sub(a, b, t)
			}
		case token.MUL:
			if n, ok := b.IsInt(); ok {
				return w.MulC(a, n, t)
			}
			if n, ok := a.IsInt(); ok {
				return w.MulC(b, n, t)
			}
		case token.SHL:
			if n, ok := b.IsInt(); ok && n < 62 {
				if _, _, bits, ok := intRange(t); ok && bits == 64 {
					return w.MulC(a, 1<<uint(n), t)
				}
			}
		}
	}
	if k, ok := b.IsInt(); ok && x.Op == token.AND && an.Arith && k > 0 && k < 1<<30 && k&(k+1) == 0 {
		le := func(x, y *Term) bool { return st.Entails(Lit(w.OrdLe(x, y))) }
		switch {
		case le(w.Int(0), a) && le(a, w.Int(k)):
			return a
		case le(w.Int(k+1), a) && le(a, w.Int(2*k+1)):
			return w.Sub(a, w.Int(k+1), t)
		}
	}
	if (x.Op == token.AND || x.Op == token.OR || x.Op == token.XOR || x.Op == token.MUL) && a.ID > b.ID {
		a, b = b, a
	}
	r := w.mk(OBin, x.Op.String(), t, nil, nil, []*Term{a, b})
	if k, ok := b.IsInt(); ok && an.Arith && isIntType(t) && k > 0 && x.Op == token.QUO && st.Entails(Lit(w.OrdLe(w.Int(0), a))) {
		an.bound(st, w.OrdLe(w.Int(0), r), w.OrdLe(r, a))
	}
	return r
}

// bound notes what is known of a value.
func (an *Analyzer) bound(st *State, lits ...*Term) {
	for _, l := range lits {
		if f := an.assume(st.F, l, true); f != nil {
			st.F = f
		}
	}
}

// bounded: what the documentation of library functions says about their results.
func (an *Analyzer) bounded(st *State, name string, args []*Term, r *Term) {
	w := an.W
	switch name {
	case "runtime.Callers":
		an.bound(st, w.OrdLe(w.Int(0), r), w.OrdLe(r, w.Len(args[1])))
	case "encoding/asn1.Unmarshal", "encoding/asn1.UnmarshalWithParams":
		an.bound(st, w.OrdLe(w.Len(w.Extract(r, 0, types.NewSlice(types.Typ[types.Byte]))), w.Len(args[0])))
	case "copy":
		an.bound(st, w.OrdLe(w.Int(0), r))
	}
}

// IndexAddr builds the address of an element.
func (an *Analyzer) indexAddr(base, idx *Term, elem types.Type) *Term {
	w := an.W
	if base.Op == OSlice && base.Args[0].Op == OAlloc {
		lo := base.Args[1]
		if lo.Op == ONil {
			lo = w.Zero0
		}
		return w.mk(OIndexAddr, "", types.NewPointer(elem), nil, nil, []*Term{base.Args[0], w.Add(lo, idx, types.Typ[types.Int])})
	}
	return w.mk(OIndexAddr, "", types.NewPointer(elem), nil, nil, []*Term{base, idx})
}

// elem reads an element of a slice, string or array value.
func (an *Analyzer) elem(st *State, base, idx *Term, typ types.Type) *Term {
	w := an.W
	if n, ok := idx.IsInt(); ok {
		if base.Op == OSliceLit && n >= 0 && int(n) < len(base.Args) {
			return base.Args[n]
		}
		if base.Op == OAppend && base.Args[0].Op == OSliceLit && n >= 0 && int(n) < len(base.Args[0].Args) {
			return base.Args[0].Args[n]
		}
		if s, ok := base.IsStr(); ok && n >= 0 && int(n) < len(s) {
			return w.Int(int64(s[n]))
		}
	}
	if base.Op == OSlice && base.Args[1].Op != ONil {
		idx = w.Add(base.Args[1], idx, types.Typ[types.Int])
		base = base.Args[0]
		return an.elem(st, base, idx, typ)
	}
	if base.Op == OConv && len(base.Args) == 1 && base.Args[0].Typ != nil && isStrOrBytes(base.Args[0].Typ) && base.Aux != "" {
		base = base.Args[0]
	}
	return w.mk(OIndex, "", typ, nil, nil, []*Term{base, idx})
}

func (an *Analyzer) load(st *State, addr *Term, typ types.Type) *Term {
	w := an.W
	if addr.Op == OIndexAddr {
		if v, ok := st.mem[addr]; ok {
			if s, ok := structType(typ); ok && st.hasSub(addr) {
				return st.loadStruct(addr, s, typ)
			}
			return v
		}
		base, idx := addr.Args[0], addr.Args[1]
		if !isFresh(root(base)) && !(base.Typ != nil && isPtr(base.Typ)) && !st.hasSub(addr) {
			e := an.elem(st, base, idx, typ)
			if e.Op != OIndex {
				return e
			}
			if v := st.version(classOf(addr)); v == nil {
				return e
			} else {
				return w.mk(OIndex, "", typ, nil, nil, []*Term{e.Args[0], e.Args[1], v})
			}
		}
		if base.Op == OAlloc {
			if v, ok := st.mem[base]; ok {
				if v.Op == OZero {
					if _, isC := idx.IsInt(); isC || !st.anyIndexed(base) {
						if _, isC := idx.IsInt(); !isC || !st.unknownIndexed(base) {
							return w.ZeroOf(typ)
						}
					}
				} else {
					return an.elem(st, v, idx, typ)
				}
			}
		}
	}
	return st.Load(addr, typ)
}

func (s *State) anyIndexed(base *Term) bool {
	for a := range s.mem {
		if a.Op == OIndexAddr && a.Args[0] == base {
			return true
		}
	}
	return false
}

func (s *State) unknownIndexed(base *Term) bool {
	for a := range s.mem {
		if a.Op == OIndexAddr && a.Args[0] == base {
			if _, ok := a.Args[1].IsInt(); !ok {
				return true
			}
		}
	}
	return false
}

func isPtr(t types.Type) bool { _, ok := t.Underlying().(*types.Pointer); return ok }

// storedOnce: the cell is a captured variable that is written once, in its own function, and only read by the closures: no call can change it.
func storedOnce(x *ssa.Alloc) bool {
	stores := 0
	var readOnly func(v ssa.Value, own bool) bool
	readOnly = func(v ssa.Value, own bool) bool {
		if v.Referrers() == nil {
			return false
		}
		for _, r := range *v.Referrers() {
			switch y := r.(type) {
			case *ssa.DebugRef:
			case *ssa.UnOp:
				if y.Op != token.MUL {
					return false
				}
			case *ssa.Store:
				if !own || y.Addr != v || y.Val == v {
					return false
				}
				stores++
			case *ssa.MakeClosure:
				f := y.Fn.(*ssa.Function)
				for i, b := range y.Bindings {
					if b == v && !readOnly(f.FreeVars[i], false) {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	return readOnly(x, true) && stores <= 1
}

// ---- instructions

func (an *Analyzer) step(act *activation, st *State, in ssa.Instruction) []*State {
	w, fr := an.W, act.fr
	set := func(v ssa.Value, t *Term) []*State { st.env[v] = t; return []*State{st} }
	switch x := in.(type) {
	case *ssa.DebugRef:
		return one(st)
	case *ssa.Alloc:
		aux := ""
		if !x.Heap || storedOnce(x) {
			aux = "stack"
		}
		a := w.mk(OAlloc, aux, x.Type(), an.site(fr, x, "new"), nil, nil)
		for c := range st.mem {
			if c == a || isPrefix(a, c) {
				delete(st.mem, c)
			}
		}
		st.mem[a] = w.ZeroOf(elemOf(x.Type()))
		return set(x, a)
	case *ssa.FieldAddr:
		b := an.val(st, x.X)
		if st = an.needNonNil(st, fr, b, x); st == nil {
			return nil
		}
		s, _ := structType(elemOf(x.X.Type()))
		f := s.Field(x.Field)
		st.env[x] = w.fieldAddr(b, structOwner(x.X.Type()), f.Name(), f.Type())
		return one(st)
	case *ssa.Field:
		b := an.val(st, x.X)
		s, _ := structType(x.X.Type())
		return set(x, w.Field(b, s.Field(x.Field).Name(), x.Type()))
	case *ssa.IndexAddr:
		b, i := an.val(st, x.X), an.val(st, x.Index)
		if isPtr(x.X.Type()) {
			if st = an.needNonNil(st, fr, b, x); st == nil {
				return nil
			}
		}
		if st = an.boundsCheck(st, fr, b, i, x); st == nil {
			return nil
		}
		st.env[x] = an.indexAddr(b, i, elemOf(x.Type()))
		return one(st)
	case *ssa.Index:
		b, i := an.val(st, x.X), an.val(st, x.Index)
		if st = an.boundsCheck(st, fr, b, i, x); st == nil {
			return nil
		}
		st.env[x] = an.elem(st, b, i, x.Type())
		return one(st)
	case *ssa.UnOp:
		a := an.val(st, x.X)
		switch x.Op {
		case token.MUL:
			if a.Op != OFieldAddr && a.Op != OIndexAddr && a.Op != OGlobal {
				if st = an.needNonNil(st, fr, a, x); st == nil {
					return nil
				}
			}
			if an.OnEvent != nil {
				an.OnEvent(st, &Event{Kind: "load", Name: classOf(a), Args: []*Term{a}, Instr: x, Frame: fr})
			}
			st.env[x] = an.load(st, a, x.Type())
			return one(st)
		case token.NOT:
			return set(x, w.Not(a))
		case token.SUB:
			if isIntType(x.Type()) {
				return set(x, w.MulC(a, -1, x.Type()))
			}
		case token.ARROW:
			s := an.site(fr, x, "recv")
			var res *Term
			if x.CommaOk {
				tt := x.Type().(*types.Tuple)
				res = w.mk(OTuple, "", tt, nil, nil, []*Term{w.mk(OSym, "v", tt.At(0).Type(), s, nil, nil), w.mk(OSym, "ok", types.Typ[types.Bool], s, nil, nil)})
			} else {
				res = w.Sym(s, x.Type())
			}
			st.F = an.dropSyms(st.F, func(q *Site) bool { return q == s })
			an.event(st, &Event{Kind: "recv", Name: "recv", Args: []*Term{a}, Res: res, Instr: x, Frame: fr})
			return set(x, res)
		}
		return set(x, w.mk(OUn, x.Op.String(), x.Type(), nil, nil, []*Term{a}))
	case *ssa.BinOp:
		if (x.Op == token.QUO || x.Op == token.REM) && isIntType(x.Type()) {
			b := an.val(st, x.Y)
			if st = an.need(st, fr, "div", w.Not(w.OrdEq(b, w.Zero0)), b, x); st == nil {
				return nil
			}
		}
		st.env[x] = an.binop(st, x)
		return one(st)
	case *ssa.Convert:
		return set(x, an.convert(st, an.val(st, x.X), x.X.Type(), x.Type()))
	case *ssa.MultiConvert:
		return set(x, w.mk(OConv, "", x.Type(), nil, nil, []*Term{an.val(st, x.X)}))
	case *ssa.ChangeType:
		return set(x, an.val(st, x.X))
	case *ssa.ChangeInterface:
		return set(x, an.val(st, x.X))
	case *ssa.SliceToArrayPointer:
		b := an.val(st, x.X)
		arr := elemOf(x.Type()).Underlying().(*types.Array)
		if st = an.need(st, fr, "slice", w.OrdLe(w.Int(arr.Len()), w.Len(b)), b, x); st == nil {
			return nil
		}
		st.env[x] = w.mk(OConv, "arrptr", x.Type(), nil, nil, []*Term{b})
		return one(st)
	case *ssa.MakeInterface:
		return set(x, w.mk(OMkIface, "", x.X.Type(), nil, nil, []*Term{an.val(st, x.X)}))
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range x.Bindings {
			bs = append(bs, an.val(st, b))
		}
		return set(x, w.mk(OClosure, FuncName(x.Fn.(*ssa.Function)), x.Type(), nil, x.Fn, bs))
	case *ssa.MakeMap:
		m := w.mk(OMake, "map", x.Type(), an.site(fr, x, "make"), nil, nil)
		for a := range st.mem {
			if a.Op == OMapElem && a.Args[0] == m {
				delete(st.mem, a)
			}
		}
		return set(x, m)
	case *ssa.MakeChan:
		return set(x, w.mk(OMake, "chan", x.Type(), an.site(fr, x, "make"), nil, []*Term{an.val(st, x.Size)}))
	case *ssa.MakeSlice:
		n := an.val(st, x.Len)
		if st = an.need(st, fr, "slice", w.OrdLe(w.Zero0, n), n, x); st == nil {
			return nil
		}
		st.env[x] = w.mk(OMake, "slice", x.Type(), an.site(fr, x, "make"), nil, []*Term{n, an.val(st, x.Cap)})
		return one(st)
	case *ssa.Slice:
		return an.slice(act, st, x)
	case *ssa.Store:
		a, v := an.val(st, x.Addr), an.val(st, x.Val)
		if a.Op != OFieldAddr && a.Op != OIndexAddr && a.Op != OGlobal {
			if st = an.needNonNil(st, fr, a, x); st == nil {
				return nil
			}
		}
		an.event(st, &Event{Kind: "store", Name: classOf(a), Args: []*Term{a, v}, Instr: x, Frame: fr})
		st.Store(a, v, an.site(fr, x, "store"))
		return one(st)
	case *ssa.MapUpdate:
		m, k, v := an.val(st, x.Map), an.val(st, x.Key), an.val(st, x.Value)
		if an.OnOblig != nil {
			ok := st.NonNil(m)
			an.oblig(st, fr, "nilmap", m, x, ok)
		}
		an.event(st, &Event{Kind: "mapset", Name: mapClass(m), Args: []*Term{m, k, v}, Instr: x, Frame: fr})
		st.MapSet(m, k, v, an.site(fr, x, "mapset"))
		return one(st)
	case *ssa.Lookup:
		m, k := an.val(st, x.X), an.val(st, x.Index)
		if isString(x.X.Type()) {
			if st = an.boundsCheck(st, fr, m, k, x); st == nil {
				return nil
			}
			st.env[x] = an.elem(st, m, k, x.Type())
			return one(st)
		}
		vt := x.X.Type().Underlying().(*types.Map).Elem()
		if an.OnEvent != nil {
			an.OnEvent(st, &Event{Kind: "lookup", Name: mapClass(m), Args: []*Term{m, k}, Instr: x, Frame: fr})
		}
		v, ok := st.Lookup(m, k, vt)
		if x.CommaOk {
			// when absent the value is the zero value
			if st.Eval(ok) == No {
				v = w.ZeroOf(vt)
			}
			return set(x, w.mk(OTuple, "", x.Type(), nil, nil, []*Term{v, ok}))
		}
		return set(x, v)
	case *ssa.TypeAssert:
		v := an.val(st, x.X)
		is := w.mk(OTypeIs, "", x.AssertedType, nil, nil, []*Term{v})
		var r *Term
		if v.Op == OMkIface && types.Identical(v.Typ, x.AssertedType) {
			r = v.Args[0]
			is = w.True
		} else if v.Op == OMkIface && types.IsInterface(x.AssertedType) {
			r = v
			is = w.Bool(w.Eval(st.F, is) == Yes)
		} else if types.IsInterface(x.AssertedType) {
			r = v
			if v.Typ != nil && types.AssignableTo(v.Typ, x.AssertedType) {
				is = w.Not(w.EqAtom(v, w.Nil))
			}
		} else {
			r = w.mk(OAssert, "", x.AssertedType, nil, nil, []*Term{v})
		}
		if x.CommaOk {
			if st.Eval(is) == No {
				r = w.ZeroOf(x.AssertedType)
			}
			return set(x, w.mk(OTuple, "", x.Type(), nil, nil, []*Term{r, is}))
		}
		if st = an.need(st, fr, "assert", is, v, x); st == nil {
			return nil
		}
		if n := st.Assume(is, true); n != nil {
			st = n
		}
		if isPtr(x.AssertedType) {
			if n := st.Assume(w.EqAtom(r, w.Nil), false); n != nil {
				st = n
			}
		}
		st.env[x] = r
		return one(st)
	case *ssa.Extract:
		t := an.val(st, x.Tuple)
		r := w.Extract(t, x.Index, x.Type())
		return set(x, r)
	case *ssa.Range:
		return set(x, w.mk(OIter, "", x.Type(), an.site(fr, x, "range"), nil, []*Term{an.val(st, x.X)}))
	case *ssa.Next:
		it := an.val(st, x.Iter)
		s := an.site(fr, x, "next")
		tt := x.Type().(*types.Tuple)
		ok := w.mk(OSym, "ok", types.Typ[types.Bool], s, nil, nil)
		k := w.mk(OSym, "k", tt.At(1).Type(), s, nil, nil)
		st.F = an.dropSyms(st.F, func(q *Site) bool { return q == s })
		var v *Term
		if !x.IsString && it.Op == OIter {
			m := it.Args[0]
			mt, _ := x.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
			val, has := st.Lookup(m, k, mt.Elem())
			v = val
			if t := st.Assume(ok, true); t != nil {
				if t = t.Assume(has, true); t != nil {
					t.env[x] = w.mk(OTuple, "", tt, nil, nil, []*Term{ok, k, v})
					an.event(t, &Event{Kind: "next", Name: "next", Args: []*Term{m, k, v}, Res: ok, Instr: x, Frame: fr})
					f := st.Assume(ok, false)
					f.env = copyEnv(f.env)
					f.env[x] = t.env[x]
					return []*State{t, f}
				}
			}
		} else {
			v = w.mk(OSym, "v", tt.At(2).Type(), s, nil, nil)
		}
		return set(x, w.mk(OTuple, "", tt, nil, nil, []*Term{ok, k, v}))
	case *ssa.Send:
		an.event(st, &Event{Kind: "send", Name: "send", Args: []*Term{an.val(st, x.Chan), an.val(st, x.X)}, Instr: x, Frame: fr})
		return one(st)
	case *ssa.Select:
		s := an.site(fr, x, "select")
		tt := x.Type().(*types.Tuple)
		var ts []*Term
		for i := 0; i < tt.Len(); i++ {
			ts = append(ts, w.mk(OSym, fmt.Sprint("s", i), tt.At(i).Type(), s, nil, nil))
		}
		for _, c := range x.States {
			if c.Dir == types.SendOnly {
				an.event(st, &Event{Kind: "send", Name: "select", Args: []*Term{an.val(st, c.Chan), an.val(st, c.Send)}, Instr: x, Frame: fr})
			} else {
				an.event(st, &Event{Kind: "recv", Name: "select", Args: []*Term{an.val(st, c.Chan)}, Instr: x, Frame: fr})
			}
		}
		st.F = an.dropSyms(st.F, func(q *Site) bool { return q == s })
		return set(x, w.mk(OTuple, "", tt, nil, nil, ts))
	case *ssa.Go:
		fn, args := an.callee(st, &x.Call)
		ev := &Event{Kind: "go", Name: fnTermName(fn), Args: append([]*Term{fn}, args...), Fn: termFn(fn), Instr: x, Frame: fr}
		an.event(st, ev)
		if an.GoInline != nil && an.GoInline(ev) {
			var out []*State
			for _, r := range an.call(act, st, x, &x.Call, fn, args) {
				out = append(out, r.st)
			}
			return out
		}
		return one(st)
	case *ssa.Defer:
		fn, args := an.callee(st, &x.Call)
		an.event(st, &Event{Kind: "defer", Name: an.calleeName(&x.Call, fn), Args: args, Fn: termFn(fn), Instr: x, Frame: fr})
		st.defers = append(st.defers[:len(st.defers):len(st.defers)], deferred{call: x, fn: fn, args: args})
		return one(st)
	case *ssa.RunDefers:
		ds := st.defers
		st.defers = nil
		states := []*State{st}
		for i := len(ds) - 1; i >= 0; i-- {
			var next []*State
			for _, s := range states {
				for _, r := range an.call(act, s, ds[i].call, &ds[i].call.Call, ds[i].fn, ds[i].args) {
					next = append(next, r.st)
				}
			}
			states = next
		}
		return states
	case *ssa.Call:
		fn, args := an.callee(st, &x.Call)
		if x.Call.IsInvoke() {
			if st = an.needNonNil(st, fr, args[0], x); st == nil {
				return nil
			}
		} else if fn.Op != OFunc && fn.Op != OClosure {
			if st = an.needNonNil(st, fr, fn, x); st == nil {
				return nil
			}
		}
		var out []*State
		for _, r := range an.call(act, st, x, &x.Call, fn, args) {
			r.st.env[x] = r.res
			out = append(out, r.st)
		}
		return out
	}
	if v, ok := in.(ssa.Value); ok {
		return set(v, w.Sym(an.site(fr, in, "instr"), v.Type()))
	}
	return one(st)
}

func copyEnv(m map[ssa.Value]*Term) map[ssa.Value]*Term {
	n := make(map[ssa.Value]*Term, len(m)+1)
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (an *Analyzer) boundsCheck(st *State, fr *Frame, b, i *Term, in ssa.Instruction) *State {
	if an.OnOblig == nil {
		return st
	}
	w := an.W
	l := w.Len(b)
	ok := st.Eval(w.OrdLe(w.Zero0, i)) == Yes && st.Eval(w.OrdLt(i, l)) == Yes
	an.oblig(st, fr, "index", w.mk(OIndexAddr, "", nil, nil, nil, []*Term{b, i}), in, ok)
	if ok {
		return st
	}
	n := st.Assume(w.OrdLe(w.Zero0, i), true)
	if n == nil {
		return nil
	}
	return n.Assume(w.OrdLt(i, l), true)
}

func (an *Analyzer) slice(act *activation, st *State, x *ssa.Slice) []*State {
	w, fr := an.W, act.fr
	b := an.val(st, x.X)
	lo, hi := w.Nil, w.Nil
	if x.Low != nil {
		lo = an.val(st, x.Low)
		if lo == w.Zero0 {
			lo = w.Nil
		}
	}
	if x.High != nil {
		hi = an.val(st, x.High)
	}
	if isPtr(x.X.Type()) {
		if st = an.needNonNil(st, fr, b, x); st == nil {
			return nil
		}
	}
	if an.OnOblig != nil {
		l := w.Len(b)
		h := hi
		if h.Op == ONil {
			h = l
		}
		lw := lo
		if lw.Op == ONil {
			lw = w.Zero0
		}
		if !(lo.Op == ONil && hi.Op == ONil) {
			ok := st.Eval(w.OrdLe(w.Zero0, lw)) == Yes && st.Eval(w.OrdLe(lw, h)) == Yes && st.Eval(w.OrdLe(h, l)) == Yes
			an.oblig(st, fr, "slice", w.mk(OSlice, "", x.Type(), nil, nil, []*Term{b, lo, hi}), x, ok)
			for _, c := range []*Term{w.OrdLe(w.Zero0, lw), w.OrdLe(lw, h), w.OrdLe(h, l)} {
				if n := st.Assume(c, true); n != nil {
					st = n
				} else {
					return nil
				}
			}
		}
	}
	if lo.Op == ONil && hi.Op == ONil {
		if !isPtr(x.X.Type()) {
			st.env[x] = b
			return one(st)
		}
		if b.Op == OAlloc {
			al, _ := x.X.(*ssa.Alloc)
			arr, _ := elemOf(b.Typ).Underlying().(*types.Array)
			if al != nil && arr != nil && (al.Comment == "slicelit" || al.Comment == "varargs") {
				els := make([]*Term, arr.Len())
				good := true
				for i := range els {
					a := an.indexAddr(b, w.Int(int64(i)), arr.Elem())
					els[i] = an.load(st, a, arr.Elem())
					if els[i].Op == ODeref && els[i].Args[0] == a {
						good = false
					}
				}
				if good {
					st.env[x] = w.mk(OSliceLit, "", x.Type(), nil, nil, els)
					return one(st)
				}
			}
			if v, ok := st.mem[b]; ok && v.Op != OZero && !st.anyIndexed(b) {
				st.env[x] = v // the array value seen as a slice
				return one(st)
			}
		}
	}
	if lo.Op == ONil && b.Op == OSlice && hi.Op != ONil && b.Args[1].Op == ONil {
		st.env[x] = w.mk(OSlice, "", x.Type(), nil, nil, []*Term{b.Args[0], lo, hi})
		return one(st)
	}
	if s, ok := b.IsStr(); ok {
		l0, ok1 := lo.IsInt()
		if lo.Op == ONil {
			l0, ok1 = 0, true
		}
		h0, ok2 := hi.IsInt()
		if hi.Op == ONil {
			h0, ok2 = int64(len(s)), true
		}
		if ok1 && ok2 && l0 >= 0 && l0 <= h0 && h0 <= int64(len(s)) {
			st.env[x] = w.Str(s[l0:h0])
			return one(st)
		}
	}
	st.env[x] = w.mk(OSlice, "", x.Type(), nil, nil, []*Term{b, lo, hi})
	return one(st)
}

func termFn(t *Term) *ssa.Function {
	if t == nil {
		return nil
	}
	f, _ := t.Obj.(*ssa.Function)
	return f
}

func fnTermName(t *Term) string {
	if t == nil {
		return ""
	}
	return t.Aux
}
