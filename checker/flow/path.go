package flow

import (
	"fmt"
	"go/types"
)

// Path reads base.f1.f2… in the state: pointers are followed, struct values are projected,
// promoted fields are not resolved. It returns nil when the fields do not exist.
func (s *State) Path(base *Term, names ...string) *Term {
	w := s.an.W
	t := base
	typ := base.Typ
	for _, n := range names {
		if typ == nil {
			return nil
		}
		if p, ok := typ.Underlying().(*types.Pointer); ok {
			st, ok := p.Elem().Underlying().(*types.Struct)
			if !ok {
				return nil
			}
			ft := fieldType(st, n)
			if ft == nil {
				return nil
			}
			a := w.fieldAddr(t, structOwner(typ), n, ft)
			t, typ = s.Load(a, ft), ft
			continue
		}
		st, ok := typ.Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		ft := fieldType(st, n)
		if ft == nil {
			return nil
		}
		t, typ = w.Field(t, n, ft), ft
	}
	return t
}

// Addr is the address of base.f for a pointer base.
func (s *State) Addr(base *Term, name string) *Term {
	p, ok := base.Typ.Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	st, ok := p.Elem().Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	ft := fieldType(st, name)
	if ft == nil {
		return nil
	}
	return s.an.W.fieldAddr(base, structOwner(base.Typ), name, ft)
}

func fieldType(st *types.Struct, n string) types.Type {
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == n {
			return st.Field(i).Type()
		}
	}
	return nil
}

// W gives access to the term constructors of the analysis.
func (s *State) W() *World { return s.an.W }

// An gives the analyzer.
func (s *State) An() *Analyzer { return s.an }

// FieldName says that t reads (the content of) field name of something.
func (t *Term) FieldName() string {
	switch t.Op {
	case ODeref:
		if t.Args[0].Op == OFieldAddr {
			return t.Args[0].Aux
		}
	case OField:
		return t.Aux
	}
	return ""
}

// FieldBase is what the field is read from: the address base or the struct value.
func (t *Term) FieldBase() *Term {
	switch t.Op {
	case ODeref:
		if t.Args[0].Op == OFieldAddr {
			return t.Args[0].Args[0]
		}
	case OField:
		return t.Args[0]
	}
	return nil
}

// Sub visits t and its parts.
func (t *Term) Sub(f func(*Term)) {
	t.Any(func(x *Term) bool { f(x); return false })
}

// Assert is the value of x.(T).
func (w *World) Assert(x *Term, t types.Type) *Term {
	return w.mk(OAssert, "", t, nil, nil, []*Term{x})
}

// Shape identifies a term up to the memory versions it reads from.
func (w *World) Shape(t *Term) int {
	if w.shapes == nil {
		w.shapes = map[*Term]int{}
		w.shapeIDs = map[string]int{}
	}
	if id, ok := w.shapes[t]; ok {
		return id
	}
	args := t.Args
	switch t.Op {
	case ODeref:
		args = args[:1]
	case OLookup, OLookupOk:
		args = args[:2]
	}
	k := fmt.Sprintf("%d|%s|", t.Op, t.Aux)
	if t.Site != nil {
		k += fmt.Sprintf("s%d", t.Site.ID)
	}
	for _, a := range args {
		k += fmt.Sprintf(",%d", w.Shape(a))
	}
	switch t.Op {
	case OConv, OAssert, OTypeIs, OZero, OMkIface:
		if t.Typ != nil {
			k += "|" + types.TypeString(t.Typ, nil)
		}
	case OLin:
		k += fmt.Sprintf("|%v", t.Obj)
	}
	id, ok := w.shapeIDs[k]
	if !ok {
		id = len(w.shapeIDs) + 1
		w.shapeIDs[k] = id
	}
	w.shapes[t] = id
	return id
}

// Variants lists the terms in the state's facts that equal t up to memory versions, t first.
func (s *State) Variants(t *Term) []*Term {
	w := s.an.W
	id := w.Shape(t)
	out := []*Term{t}
	seen := map[*Term]bool{t: true}
	visit := func(x *Term) {
		x.Sub(func(y *Term) {
			if !seen[y] && y.Op == t.Op && w.Shape(y) == id {
				seen[y] = true
				out = append(out, y)
			}
		})
	}
	for l := range s.F.lits {
		visit(l)
	}
	for k := range s.F.diffs {
		visit(k[0])
		visit(k[1])
	}
	return out
}

// EntailsAny reports whether the formula is entailed for some choice of versions of the terms.
func (s *State) EntailsAny(ts []*Term, build func(ts []*Term) Formula) bool {
	vs := make([][]*Term, len(ts))
	n := 1
	for i, t := range ts {
		if t == nil {
			return false
		}
		vs[i] = s.Variants(t)
		n *= len(vs[i])
		if n > 4096 {
			return s.Entails(build(ts))
		}
	}
	cur := make([]*Term, len(ts))
	var rec func(i int) bool
	rec = func(i int) bool {
		if i == len(ts) {
			return s.Entails(build(append([]*Term{}, cur...)))
		}
		for _, v := range vs[i] {
			cur[i] = v
			if rec(i + 1) {
				return true
			}
		}
		return false
	}
	return rec(0)
}

// Call is the result of a pure external function.
func (w *World) Call(name string, typ types.Type, args ...*Term) *Term {
	return w.mk(OCall, name, typ, nil, "ext", args)
}

// Atoms visits the literals of a formula and, through boolean structure, of its terms.
func (f Formula) Atoms(visit func(*Term)) {
	if f.kind == 'l' && f.lit != nil {
		f.lit.Sub(visit)
		return
	}
	for _, s := range f.sub {
		s.Atoms(visit)
	}
}

// False is the formula that never holds.
func False() Formula { return Formula{kind: '|'} }

// Elem is element idx of a list or string value.
func (s *State) Elem(base, idx *Term, typ types.Type) *Term { return s.an.elem(s, base, idx, typ) }

// At is element idx of a list as it is in memory now.
func (s *State) At(base, idx *Term, typ types.Type) *Term {
	return s.Load(s.an.indexAddr(base, idx, typ), typ)
}

// Is says that an interface holds a value of the type.
func (w *World) Is(x *Term, t types.Type) *Term { return w.mk(OTypeIs, "", t, nil, nil, []*Term{x}) }
