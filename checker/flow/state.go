package flow

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Event is an effect of the program on some path.
type Event struct {
	Kind   string // store, mapset, mapdel, call, go, send, close, panic, defer
	Name   string // callee or memory class
	Args   []*Term
	Res    *Term
	Fn     *ssa.Function // callee, when static
	Instr  ssa.Instruction
	Frame  *Frame
	Callee *Term // function value of a call
	May    bool  // on some of the joined paths only
	Old    bool  // happened in an earlier loop iteration, arguments no longer denote current values
}

func (e *Event) key() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%s|%s|%p|%d|%v%v", e.Kind, e.Name, e.Instr, e.Frame.ID, e.Old, e.May)
	if !e.Old {
		for _, a := range e.Args {
			fmt.Fprintf(&sb, ",%d", a.ID)
		}
	}
	return sb.String()
}

func (e *Event) String() string {
	var p []string
	for _, a := range e.Args {
		p = append(p, a.String())
	}
	return e.Kind + " " + e.Name + "(" + strings.Join(p, ", ") + ")"
}

type deferred struct {
	call *ssa.Defer
	fn   *Term
	args []*Term
}

// State is one abstract state.
type State struct {
	an     *Analyzer
	env    map[ssa.Value]*Term
	mem    map[*Term]*Term
	ver    map[string]*Term
	F      *Facts
	ev     []*Event
	evKeys map[string]bool
	defers []deferred
	outer  *outerFrame // the calling frames
}

// outerFrame is what a calling frame still holds.
type outerFrame struct {
	env    map[ssa.Value]*Term
	defers []deferred
	parent *outerFrame
}

func (s *State) clone() *State {
	t := &State{an: s.an, F: s.F, ev: s.ev[:len(s.ev):len(s.ev)], defers: s.defers[:len(s.defers):len(s.defers)], outer: s.outer}
	t.env = make(map[ssa.Value]*Term, len(s.env)+8)
	for k, v := range s.env {
		t.env[k] = v
	}
	t.mem = make(map[*Term]*Term, len(s.mem)+4)
	for k, v := range s.mem {
		t.mem[k] = v
	}
	t.ver = make(map[string]*Term, len(s.ver))
	for k, v := range s.ver {
		t.ver[k] = v
	}
	t.evKeys = make(map[string]bool, len(s.evKeys)+1)
	for k := range s.evKeys {
		t.evKeys[k] = true
	}
	return t
}

// Events lists the recorded events so far.
func (s *State) Events() []*Event { return s.ev }

func (s *State) addEvent(e *Event) {
	k := e.key()
	if s.evKeys[k] {
		return
	}
	s.evKeys[k] = true
	s.ev = append(s.ev, e)
}

// baseKey identifies everything but the facts.
func (s *State) baseKey(live map[ssa.Value]bool) string {
	var ks []string
	for v, t := range s.env {
		if live == nil || live[v] {
			ks = append(ks, fmt.Sprintf("e%s%p=%d", v.Name(), v, t.ID))
		}
	}
	for a, t := range s.mem {
		ks = append(ks, fmt.Sprintf("m%d=%d", a.ID, t.ID))
	}
	for c, t := range s.ver {
		ks = append(ks, fmt.Sprintf("v%s=%d", c, t.ID))
	}
	sort.Strings(ks)
	var es []string
	for k := range s.evKeys {
		es = append(es, k)
	}
	sort.Strings(es)
	for _, d := range s.defers {
		es = append(es, fmt.Sprintf("d%p", d.call))
	}
	return strings.Join(ks, ";") + "#" + strings.Join(es, ";")
}

// trim drops environment entries not live.
func (s *State) trim(live map[ssa.Value]bool) {
	for v := range s.env {
		if !live[v] {
			delete(s.env, v)
		}
	}
}

// ---- memory classes

func structOwner(t types.Type) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return types.TypeString(t, nil)
}

func (w *World) fieldAddr(base *Term, owner string, name string, ftyp types.Type) *Term {
	return w.mk(OFieldAddr, name, types.NewPointer(ftyp), nil, owner, []*Term{base})
}

func classOf(addr *Term) string {
	switch addr.Op {
	case OFieldAddr:
		o, _ := addr.Obj.(string)
		return "F:" + o + "." + addr.Aux
	case OIndexAddr:
		if addr.Typ != nil {
			if p, ok := addr.Typ.Underlying().(*types.Pointer); ok {
				return "E:" + types.TypeString(p.Elem(), nil)
			}
		}
		return "E:?"
	case OGlobal:
		return "G:" + addr.Aux
	case OMapElem:
		return mapClass(addr.Args[0])
	}
	if addr.Typ != nil {
		if p, ok := addr.Typ.Underlying().(*types.Pointer); ok {
			return "P:" + types.TypeString(p.Elem(), nil)
		}
	}
	return "P:?"
}

func mapClass(m *Term) string {
	ts := "?"
	if m.Typ != nil {
		ts = types.TypeString(m.Typ.Underlying(), nil)
	}
	switch m.Op {
	case ODeref:
		if a := m.Args[0]; a.Op == OFieldAddr {
			return "M:" + a.Obj.(string) + "." + a.Aux + "|" + ts
		} else if a.Op == OGlobal {
			return "M:" + a.Aux + "|" + ts
		}
	case OMake:
		return fmt.Sprintf("M:site%d|site", m.Site.ID)
	}
	return "MT:" + ts
}

func root(addr *Term) *Term {
	for addr.Op == OFieldAddr || addr.Op == OIndexAddr && addr.Args[0].Op != ODeref {
		addr = addr.Args[0]
	}
	if addr.Op == OMapElem {
		return addr.Args[0]
	}
	return addr
}

func isFresh(r *Term) bool { return r.Op == OAlloc || r.Op == OMake }

// FreshAddr: the address or reference leads into an object made during the analysed run.
func FreshAddr(addr *Term) bool { return isFresh(root(addr)) }

func isPrefix(p, a *Term) bool {
	for {
		if p == a {
			return true
		}
		if a.Op != OFieldAddr && a.Op != OIndexAddr {
			return false
		}
		a = a.Args[0]
	}
}

func (s *State) version(class string) *Term {
	if v := s.ver[class]; v != nil {
		return v
	}
	if strings.HasPrefix(class, "M:") {
		if i := strings.LastIndex(class, "|"); i >= 0 {
			return s.ver["MT:"+class[i+1:]]
		}
	}
	return nil
}

// Load reads an address.
func (s *State) Load(addr *Term, typ types.Type) *Term {
	w := s.an.W
	if v, ok := s.mem[addr]; ok {
		if st, ok := structType(typ); ok && s.hasSub(addr) {
			return s.loadStruct(addr, st, typ)
		}
		return v
	}
	if st, ok := structType(typ); ok && s.hasSub(addr) {
		return s.loadStruct(addr, st, typ)
	}
	if addr.Op == OFieldAddr {
		if v := s.whole(addr.Args[0]); v != nil {
			return w.Field(v, addr.Aux, typ)
		}
	}
	if addr.Op == OGlobal {
		if c := s.an.GlobalConst(addr.Aux); c != nil {
			return c
		}
	}
	return s.deref(addr, typ)
}

func (s *State) deref(addr *Term, typ types.Type) *Term {
	w := s.an.W
	ver := s.version(classOf(addr))
	if st, ok := structType(typ); ok && ver == nil {
		for i := 0; i < st.NumFields(); i++ {
			if v := s.version("F:" + types.TypeString(typ, nil) + "." + st.Field(i).Name()); v != nil {
				ver = v
			}
		}
	}
	if ver != nil {
		return w.mk(ODeref, "", typ, nil, nil, []*Term{addr, ver})
	}
	return w.mk(ODeref, "", typ, nil, nil, []*Term{addr})
}

// whole returns a struct value stored at addr as a unit, if known.
func (s *State) whole(addr *Term) *Term {
	if v, ok := s.mem[addr]; ok {
		return v
	}
	if addr.Op == OFieldAddr {
		if v := s.whole(addr.Args[0]); v != nil {
			return s.an.W.Field(v, addr.Aux, elemOf(addr.Typ))
		}
	}
	return nil
}

func elemOf(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

func structType(t types.Type) (*types.Struct, bool) {
	if t == nil {
		return nil, false
	}
	st, ok := t.Underlying().(*types.Struct)
	return st, ok
}

func (s *State) hasSub(addr *Term) bool {
	for a := range s.mem {
		if a != addr && a.Op == OFieldAddr && isPrefix(addr, a) {
			return true
		}
	}
	return false
}

func (s *State) loadStruct(addr *Term, st *types.Struct, typ types.Type) *Term {
	w := s.an.W
	var names []string
	var vals []*Term
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		names = append(names, f.Name())
		vals = append(vals, s.Load(w.fieldAddr(addr, types.TypeString(typ, nil), f.Name(), f.Type()), f.Type()))
	}
	return w.mk(OStruct, types.TypeString(typ, nil), typ, nil, names, vals)
}

// Store writes an address.
func (s *State) Store(addr, val *Term, site *Site) {
	for a := range s.mem { // sub-objects
		if a != addr && isPrefix(addr, a) {
			delete(s.mem, a)
		}
	}
	s.kill(addr, site)
	s.mem[addr] = val
}

// kill removes knowledge about cells that may alias addr.
func (s *State) kill(addr *Term, site *Site) {
	r := root(addr)
	if isFresh(r) {
		// index stores into a fresh array with unknown index
		if addr.Op == OIndexAddr {
			if _, ok := addr.Args[1].IsInt(); !ok {
				for a := range s.mem {
					if a.Op == OIndexAddr && a.Args[0] == addr.Args[0] {
						delete(s.mem, a)
					}
				}
			}
		}
		return
	}
	c := classOf(addr)
	for a := range s.mem {
		if a == addr || classOf(a) != c || isFresh(root(a)) {
			continue
		}
		if a.Op == OIndexAddr && addr.Op == OIndexAddr && a.Args[0] == addr.Args[0] {
			if _, ok1 := a.Args[1].IsInt(); ok1 {
				if _, ok2 := addr.Args[1].IsInt(); ok2 {
					continue
				}
			}
		}
		delete(s.mem, a)
	}
	if addr.Op == OGlobal {
		return
	}
	s.bump(c, site)
}

func (s *State) bump(c string, site *Site) {
	e := s.an.W.Sym(s.an.W.site(site.Frame, site.Block, site.Instr, "epoch"), nil)
	s.ver[c] = e
	if strings.HasPrefix(c, "MT:") {
		suf := "|" + c[3:]
		for k := range s.ver {
			if strings.HasSuffix(k, suf) {
				s.ver[k] = e
			}
		}
	}
}

// havocClass forgets everything in a memory class (effect of an opaque call).
func (s *State) havocClass(c string, site *Site) {
	for a := range s.mem {
		ac := classOf(a)
		if ac != c && !(strings.HasPrefix(c, "MT:") && strings.HasSuffix(ac, "|"+c[3:])) {
			continue
		}
		if r := root(a); r.Op == OAlloc && r.Aux == "stack" {
			continue
		}
		delete(s.mem, a)
	}
	if strings.HasPrefix(c, "F:") { // whole-struct cells holding this field
		owner := c[2:strings.LastIndex(c, ".")]
		for a := range s.mem {
			if a.Typ == nil || a.Op == OMapElem {
				continue
			}
			if e := elemOf(a.Typ); e != nil && types.TypeString(e, nil) == owner {
				if r := root(a); r.Op == OAlloc && r.Aux == "stack" {
					continue
				}
				delete(s.mem, a)
			}
		}
	}
	s.bump(c, site)
}

// ---- maps

func (s *State) mapElem(m, k *Term) *Term {
	return s.an.W.mk(OMapElem, "", nil, nil, nil, []*Term{m, k})
}

var absent = "absent"

// Lookup reads m[k]; returns value and presence.
func (s *State) Lookup(m, k *Term, vt types.Type) (*Term, *Term) {
	w := s.an.W
	if vt == nil && m.Typ != nil {
		if mt, ok := m.Typ.Underlying().(*types.Map); ok {
			vt = mt.Elem()
		}
	}
	if v, ok := s.mem[s.mapElem(m, k)]; ok {
		if v.Op == OSym && v.Aux == absent {
			return w.ZeroOf(vt), w.False
		}
		return v, w.True
	}
	if m.Op == ONil {
		return w.ZeroOf(vt), w.False
	}
	args := []*Term{m, k}
	if ver := s.version(mapClass(m)); ver != nil {
		args = append(args, ver)
	}
	return w.mk(OLookup, "", vt, nil, nil, args), w.mk(OLookupOk, "", types.Typ[types.Bool], nil, nil, args)
}

func (s *State) MapSet(m, k, v *Term, site *Site) {
	s.mapKill(m, k, site)
	s.mem[s.mapElem(m, k)] = v
}

func (s *State) MapDelete(m, k *Term, site *Site) {
	s.mapKill(m, k, site)
	s.mem[s.mapElem(m, k)] = s.an.W.mk(OSym, absent, nil, nil, nil, nil)
}

func (s *State) mapKill(m, k *Term, site *Site) {
	c := mapClass(m)
	for a := range s.mem {
		if a.Op != OMapElem {
			continue
		}
		ac := mapClass(a.Args[0])
		if ac != c && !(strings.HasPrefix(c, "MT:") && strings.HasSuffix(ac, "|"+c[3:])) {
			continue
		}
		if a.Args[0] == m && a.Args[1].Op == OConst && k.Op == OConst && a.Args[1] != k {
			continue
		}
		delete(s.mem, a)
	}
	s.bump(c, site)
}

// ---- conditions and facts

// Holds evaluates a boolean term.
func (s *State) Eval(t *Term) Tri { return s.an.eval(s.F, t) }

func (s *State) Assume(t *Term, v bool) *State {
	f := s.an.assume(s.F, t, v)
	if f == nil {
		return nil
	}
	if f == s.F {
		return s
	}
	n := s.clone()
	n.F = f
	return n
}

func (s *State) Entails(f Formula) bool  { return s.an.W.Entails(s.F, f) }
func (s *State) Excludes(f Formula) bool { return s.an.W.Excludes(s.F, f) }

// NonNil reports whether t is known not to be nil.
func (s *State) NonNil(t *Term) bool {
	return s.an.eval(s.F, s.an.W.EqAtom(t, s.an.W.Nil)) == No
}
func (s *State) IsNil(t *Term) bool {
	return s.an.eval(s.F, s.an.W.EqAtom(t, s.an.W.Nil)) == Yes
}

// DumpMem lists the memory cells, for reports.
func (s *State) DumpMem() []string {
	var out []string
	for a, v := range s.mem {
		out = append(out, a.String()+" = "+v.String())
	}
	sort.Strings(out)
	return out
}
