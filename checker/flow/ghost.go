package flow

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Outcome is one result of a call supplied by a rule.
type Outcome struct {
	St  *State
	Res *Term
}

// Clone copies a state, for rules that supply several outcomes.
func (s *State) Clone() *State { return s.clone() }

// NewSym makes a fresh value of a site.
func (w *World) NewSym(site *Site, tag string, t types.Type) *Term {
	s := *site
	return w.mk(OSym, tag, t, w.site(s.Frame, s.Block, s.Instr, s.Tag+"/"+tag), nil, nil)
}

// Tuple makes the result of a call with several results.
func (w *World) Tuple(ts ...*Term) *Term { return w.mk(OTuple, "", nil, nil, nil, ts) }

func (w *World) ghost(name string) *Term {
	return w.mk(OGlobal, "ghost:"+name, types.NewPointer(types.Typ[types.Int]), nil, nil, nil)
}

func isGhost(a *Term) bool { return a.Op == OGlobal && strings.HasPrefix(a.Aux, "ghost:") }

// Ghost reads rule state carried along the paths; nil when never set.
func (s *State) Ghost(name string) *Term { return s.mem[s.an.W.ghost(name)] }

// Ghosts lists the names of the rule state.
func (s *State) Ghosts() (out []string) {
	for a := range s.mem {
		if isGhost(a) {
			out = append(out, strings.TrimPrefix(a.Aux, "ghost:"))
		}
	}
	sort.Strings(out)
	return
}

// SetGhost writes rule state.
func (s *State) SetGhost(name string, v *Term) {
	if v == nil {
		delete(s.mem, s.an.W.ghost(name))
		return
	}
	s.mem[s.an.W.ghost(name)] = v
}

// ghostPhi renames the value of a loop variable in rule state.
func (an *Analyzer) ghostPhi(n *State, v, sym *Term) {
	if v.Op == OConst || v.Op == ONil || v.Op == OZero {
		return
	}
	for a, x := range n.mem {
		if isGhost(a) && x == v {
			n.mem[a] = sym
		}
	}
}

func (an *Analyzer) emptyOf(n *State, p *ssa.Phi, v *Term) int {
	if !an.SliceEmptiness {
		return 0
	}
	return an.emptyTerm(n, p.Type(), v)
}

func (an *Analyzer) emptyTerm(n *State, typ types.Type, v *Term) int {
	if _, ok := typ.Underlying().(*types.Slice); !ok {
		return 0
	}
	w := an.W
	l := w.Len(v)
	if an.eval(n.F, w.OrdLe(w.Int(1), l)) == Yes {
		return 1
	}
	if an.eval(n.F, w.OrdLe(l, w.Zero0)) == Yes {
		return -1
	}
	return 0
}

func (an *Analyzer) assumeEmpty(n *State, e int, sym *Term) {
	w := an.W
	var c *Term
	switch e {
	case 1:
		c = w.OrdLe(w.Int(1), w.Len(sym))
	case -1:
		c = w.OrdLe(w.Len(sym), w.Zero0)
	default:
		return
	}
	if f := an.assume(n.F, c, true); f != nil {
		n.F = f
	}
}

func (an *Analyzer) emptiness(n *State, p *ssa.Phi, v, sym *Term) {
	an.assumeEmpty(n, an.emptyOf(n, p, v), sym)
}

// PhiSym is the symbol standing for a loop variable inside its loop.
func (an *Analyzer) PhiSym(fr *Frame, p *ssa.Phi) *Term {
	return an.W.mk(OSym, "", p.Type(), an.W.site(fr, p.Block(), p, "phi"), nil, nil)
}

// PhiOf gives the loop variable a symbol stands for.
func (t *Term) PhiOf() (*ssa.Phi, *Frame) {
	if t.Op == OSym && t.Site != nil && t.Site.Tag == "phi" {
		if p, ok := t.Site.Instr.(*ssa.Phi); ok {
			return p, t.Site.Frame
		}
	}
	return nil, nil
}

func isBoolType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// Value gives what a loop variable holds in a state, if the state still has it, and else the symbol for it.
func (s *State) Value(fr *Frame, p *ssa.Phi) *Term {
	if v := s.env[p]; v != nil {
		return v
	}
	return s.an.PhiSym(fr, p)
}
