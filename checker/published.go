package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// What is changed and what is made known by a function, for values it is given.
type aliasing struct {
	c       *Ctx
	fns     []*ssa.Function
	changes map[*ssa.Function]map[int]bool   // parameter: what it refers to is written
	shares  map[*ssa.Function]map[int]string // parameter: stored in a shared location
	loc     func(addr ssa.Value) string      // shared location of an address
	gives   map[*ssa.Function]string         // the result was stored in a shared location
	cache   map[ssa.Value]map[ssa.Value]bool
	skip    func(*ssa.Store) bool                         // writes that do not count
	mark    func(ssa.CallInstruction) (ssa.Value, string) // calls after which a value counts as shared
}

func newAliasing(c *Ctx, fns []*ssa.Function, loc func(addr ssa.Value) string) *aliasing {
	a := &aliasing{c: c, fns: fns, changes: map[*ssa.Function]map[int]bool{}, shares: map[*ssa.Function]map[int]string{}, loc: loc, cache: map[ssa.Value]map[ssa.Value]bool{}}
	for _, fn := range fns {
		a.changes[fn] = map[int]bool{}
		a.shares[fn] = map[int]string{}
	}
	a.solve()
	return a
}

// solve computes the summaries of the functions.
func (a *aliasing) solve() {
	for _, fn := range a.fns {
		a.changes[fn] = map[int]bool{}
		a.shares[fn] = map[int]string{}
	}
	a.gives = map[*ssa.Function]string{}
	fns := a.fns
	for again := true; again; {
		again = false
		for _, fn := range fns {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					for _, v := range a.writes(in) {
						for o := range a.objects(v) {
							if i := paramIndex(fn, o); i >= 0 && !a.changes[fn][i] {
								a.changes[fn][i] = true
								again = true
							}
						}
					}
					for v, l := range a.publishes(in) {
						for o := range a.objects(v) {
							if a.gives[fn] == "" && returns(a, fn, o) {
								a.gives[fn] = l
								again = true
							}
							if i := paramIndex(fn, o); i >= 0 && a.shares[fn][i] == "" {
								a.shares[fn][i] = l
								again = true
							}
						}
					}
				}
			}
		}
	}
}

// returns: the function returns the object.
func returns(a *aliasing, fn *ssa.Function, o ssa.Value) bool {
	if p, ok := o.(*ssa.Parameter); ok && p == recvParam(fn) {
		return false
	}
	for _, b := range fn.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			for _, v := range r.Results {
				if isReference(v.Type()) && a.objects(v)[o] {
					return true
				}
			}
		}
	}
	return false
}

func paramIndex(fn *ssa.Function, v ssa.Value) int {
	for i, p := range fn.Params {
		if p == v {
			return i
		}
	}
	return -1
}

func isReference(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Map, *types.Slice, *types.Pointer:
		return true
	}
	return false
}

// objects are the places in the function where what the value refers to comes from.
func (a *aliasing) objects(v ssa.Value) map[ssa.Value]bool {
	if o, ok := a.cache[v]; ok {
		return o
	}
	out := map[ssa.Value]bool{}
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value)
	rec = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				rec(e)
			}
		case *ssa.ChangeType:
			rec(x.X)
		case *ssa.MakeInterface:
			rec(x.X)
		case *ssa.Slice:
			rec(x.X)
		case *ssa.FieldAddr:
			rec(x.X)
		case *ssa.IndexAddr:
			rec(x.X)
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				out[x] = true
				rec(x.Call.Args[0])
				return
			}
			out[x] = true
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if al, ok := x.X.(*ssa.Alloc); ok {
					for _, r := range *al.Referrers() {
						if s, ok := r.(*ssa.Store); ok && s.Addr == al {
							rec(s.Val)
						}
					}
					return
				}
				if isReference(x.Type()) {
					rec(x.X) // part of a larger object
				}
				return
			}
			out[x] = true
		case *ssa.Lookup:
			rec(x.X)
		case *ssa.Const:
		default:
			out[v] = true
		}
	}
	rec(v)
	a.cache[v] = out
	return out
}

// writes are the values whose referents an instruction changes.
func (a *aliasing) writes(in ssa.Instruction) (out []ssa.Value) {
	switch x := in.(type) {
	case *ssa.Store:
		if a.skip != nil && a.skip(x) {
			return
		}
		switch y := x.Addr.(type) {
		case *ssa.FieldAddr:
			out = append(out, y.X)
		case *ssa.IndexAddr:
			out = append(out, y.X)
		case *ssa.Alloc:
		default:
			out = append(out, x.Addr)
		}
	case *ssa.MapUpdate:
		out = append(out, x.Map)
	case ssa.CallInstruction:
		cc := x.Common()
		if b, ok := cc.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "delete", "clear", "copy":
				out = append(out, cc.Args[0])
			case "append":
				if sl, ok := cc.Args[0].(*ssa.Slice); ok && sl.High != nil {
					out = append(out, sl.X)
				}
			}
			return
		}
		if g := cc.StaticCallee(); g != nil {
			for i := range a.changes[g] {
				if i < len(cc.Args) {
					out = append(out, cc.Args[i])
				}
			}
			n := fname(g)
			if n == "sort.Slice" || n == "sort.SliceStable" || n == "sort.Sort" || n == "sort.Strings" || n == "slices.Sort" || n == "slices.SortFunc" || n == "slices.Reverse" || n == "encoding/json.Unmarshal" {
				k := 0
				if n == "encoding/json.Unmarshal" {
					k = 1
				}
				out = append(out, cc.Args[k])
			}
		}
	}
	return
}

// publishes are the values an instruction stores in a shared location.
func (a *aliasing) publishes(in ssa.Instruction) map[ssa.Value]string {
	out := map[ssa.Value]string{}
	switch x := in.(type) {
	case *ssa.Store:
		if isReference(x.Val.Type()) {
			if l := a.loc(x.Addr); l != "" {
				out[x.Val] = l
			}
		}
	case ssa.CallInstruction:
		if _, ok := in.(*ssa.Go); ok {
			return out
		}
		if a.mark != nil {
			if v, l := a.mark(x); v != nil {
				out[v] = l
			}
		}
		if g := x.Common().StaticCallee(); g != nil {
			if v, ok := in.(ssa.Value); ok && a.gives[g] != "" {
				out[v] = a.gives[g]
			}
			for i, l := range a.shares[g] {
				if i < len(x.Common().Args) {
					out[x.Common().Args[i]] = l
				}
			}
		}
	}
	return out
}

// lateWrites finds changes of an object after it has been stored in a shared location.
func (a *aliasing) lateWrites(report func(fn *ssa.Function, pub, write ssa.Instruction, loc string), quiet func(fn *ssa.Function, pub ssa.Instruction, loc string)) {
	for _, fn := range a.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for v, l := range a.publishes(in) {
					objs := a.objects(v)
					found := false
					after(in, func(y ssa.Instruction) bool {
						if v, ok := y.(ssa.Value); ok && objs[v] {
							return false // another object from here on
						}
						for _, wv := range a.writes(y) {
							for o := range a.objects(wv) {
								if objs[o] {
									if _, isGlobal := o.(*ssa.Global); isGlobal || o == ssa.Value(recvParam(fn)) {
										continue
									}
									found = true
									report(fn, in, y, l)
								}
							}
						}
						return true
					})
					if !found {
						quiet(fn, in, l)
					}
				}
			}
		}
	}
}

func recvParam(fn *ssa.Function) *ssa.Parameter {
	if fn.Signature.Recv() != nil && len(fn.Params) > 0 {
		return fn.Params[0]
	}
	return nil
}

// after visits the instructions that can follow, as long as visit says so.
func after(in ssa.Instruction, visit func(ssa.Instruction) bool) {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, from int)
	walk = func(b *ssa.BasicBlock, from int) {
		for _, y := range b.Instrs[from:] {
			if !visit(y) {
				return
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				walk(s, 0)
			}
		}
	}
	for i, y := range in.Block().Instrs {
		if y == in {
			walk(in.Block(), i+1)
		}
	}
}
