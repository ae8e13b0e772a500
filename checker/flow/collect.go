package flow

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// collects: the loop variable is a number that each round shifts by one byte and adds a byte to. It gives what limits
// the number of rounds (a number that counts up, what is added to it for the comparison, and what it stays below): as long as
// there are not more than 7 rounds, the number cannot become negative.
func collects(p *ssa.Phi, l *loopInfo) (lim ssa.Value, counter *ssa.Phi, first int64) {
	if b, ok := p.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
		return nil, nil, 0
	}
	konst := func(v ssa.Value) (int64, bool) {
		c, ok := v.(*ssa.Const)
		if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
			return 0, false
		}
		return c.Int64(), true
	}
	shifted := func(v ssa.Value) bool {
		x, ok := v.(*ssa.BinOp)
		if !ok {
			return false
		}
		a, b := x.X, x.Y
		if x.Op == token.MUL && b == p {
			a, b = b, a
		}
		k, isK := konst(b)
		return a == p && isK && (x.Op == token.MUL && k == 256 || x.Op == token.SHL && k == 8)
	}
	isByte := func(v ssa.Value) bool {
		for {
			switch x := v.(type) {
			case *ssa.Convert:
				if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
					return true
				}
				v = x.X
				continue
			case *ssa.ChangeType:
				v = x.X
				continue
			}
			return false
		}
	}
	for i, e := range p.Edges {
		if !l.blocks[p.Block().Preds[i]] {
			continue
		}
		x, ok := e.(*ssa.BinOp)
		if !ok || x.Op != token.ADD && x.Op != token.OR {
			return nil, nil, 0
		}
		if !(shifted(x.X) && isByte(x.Y) || shifted(x.Y) && isByte(x.X)) {
			return nil, nil, 0
		}
	}
	// for i := 0; i < n; i++
	last := l.header.Instrs[len(l.header.Instrs)-1]
	cond, ok := last.(*ssa.If)
	if !ok || !l.blocks[l.header.Succs[0]] || l.blocks[l.header.Succs[1]] {
		return nil, nil, 0
	}
	cmp, ok := cond.Cond.(*ssa.BinOp)
	if !ok {
		return nil, nil, 0
	}
	i, n := cmp.X, cmp.Y
	switch cmp.Op {
	case token.GTR:
		i, n = n, i
	case token.LSS:
	default:
		return nil, nil, 0
	}
	if o, ok := i.(*ssa.BinOp); ok && o.Op == token.ADD {
		if k, isK := konst(o.Y); isK {
			first, i = k, o.X
		}
	}
	q, ok := i.(*ssa.Phi)
	if !ok || q.Block() != l.header {
		return nil, nil, 0
	}
	for j, e := range q.Edges {
		if !l.blocks[q.Block().Preds[j]] {
			continue
		}
		o, ok := e.(*ssa.BinOp)
		if !ok || o.Op != token.ADD || o.X != q {
			return nil, nil, 0
		}
		if k, isK := konst(o.Y); !isK || k < 1 {
			return nil, nil, 0
		}
	}
	if in, ok := n.(ssa.Instruction); ok && l.blocks[in.Block()] {
		return nil, nil, 0
	}
	return n, q, first
}

// multiplies: a round may multiply the loop variable, so that a few rounds take it beyond any bound.
func multiplies(p *ssa.Phi, l *loopInfo) bool {
	seen := map[ssa.Value]bool{}
	var in func(v ssa.Value, under bool) bool
	in = func(v ssa.Value, under bool) bool {
		if v == p {
			return under
		}
		i, ok := v.(ssa.Instruction)
		if !ok || !l.blocks[i.Block()] || seen[v] {
			return false
		}
		seen[v] = true
		defer delete(seen, v)
		switch x := v.(type) {
		case *ssa.BinOp:
			u := under || x.Op == token.MUL || x.Op == token.SHL
			return in(x.X, u) || in(x.Y, u)
		case *ssa.Convert:
			return in(x.X, under)
		case *ssa.Phi:
			for _, e := range x.Edges {
				if in(e, under) {
					return true
				}
			}
		}
		return false
	}
	for i, e := range p.Edges {
		if l.blocks[p.Block().Preds[i]] && in(e, false) {
			return true
		}
	}
	return false
}

func isCollecting(p *ssa.Phi, l *loopInfo) bool {
	lim, _, _ := collects(p, l)
	return lim != nil
}
