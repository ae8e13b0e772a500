package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"verif/checker/flow"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C31",
		Technique: "path-sensitive dataflow over the generation of the resource list: loop-coverage obligations for the tables of valid objects and for the lists inside an object, a transition table over the resource types, and the source of every field of a record",
		Rule:      "For every manager, and for every entry of its tables of valid objects, exactly one record is added to the resource list: for the certificates of ValidObjects, for ValidROA and for ValidManifest. A record's identifiers, name, serial number, path, times, numbers and trust anchor are read from that entry; each address and AS resource of a certificate, entry of a ROA, file of a manifest and access location is added to it once, with the values its type holds, for every type that implements the resource interfaces. The list that is served is the one that was filled.",
		Note:      "Encoding a record as JSON is the standard library's.",
		Run:       runC31})
}

const outRes = "api/schemas.OutputRes"

// resLists: the lists of a record and the lists of the object they are made from.
var resLists = map[string]struct {
	of   string   // type of the table
	path []string // from the resource
}{
	"SIAs":     {"ValidObjects", []string{"SubjectInformationAccess"}},
	"ASNs":     {"ValidObjects", []string{"ASNums"}},
	"IPs":      {"ValidObjects", []string{"IPAddresses"}},
	"ROAs":     {"ValidROA", []string{"Valids"}},
	"FileList": {"ValidManifest", []string{"Content", "FileList"}},
}

type resourceList struct {
	c     *Ctx
	an    *flow.Analyzer
	p     *pool
	tr    *loopTrace
	args  []*flow.Term
	impl  map[string]map[string]bool // types of resources
	kinds map[string]map[string]bool // interface -> implementers seen in a record
	loops map[string]map[loopKey]*counter
	cerT  int64
	// by the path back to the head of a loop: the elements that the round has dealt with
	rounds []map[string][]*flow.Term
}

// listOwner: the type of the elements of a list of a record.
func elemOwner(t types.Type) string {
	if t == nil {
		return ""
	}
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return ""
	}
	return ownerName(s.Elem())
}

func implementersOf(c *Ctx, iface string) map[string]bool {
	out := map[string]bool{}
	var it *types.Interface
	for _, t := range moduleTypes(c.P) {
		if strings.HasSuffix(ownerName(t), "validator/lib."+iface) {
			it, _ = t.Underlying().(*types.Interface)
		}
	}
	if it == nil {
		c.Fail("anchor", iface, "", "the interface %s is gone", iface)
		return out
	}
	for _, t := range moduleTypes(c.P) {
		if _, ok := t.Underlying().(*types.Interface); ok {
			continue
		}
		if types.Implements(types.NewPointer(t), it) || types.Implements(t, it) {
			n := ownerName(t)
			out[n[strings.LastIndex(n, ".")+1:]] = true
		}
	}
	return out
}

func runC31(c *Ctx) {
	fn := genListFn(c)
	if fn == nil {
		return
	}
	an := c.NewAnalyzer()
	r := &resourceList{c: c, an: an, kinds: map[string]map[string]bool{}}
	r.cerT, _ = pkiConst(c, "TYPE_CER")
	an.Opaque = opaque(genOpaque...)
	an.MaxFacts, an.MaxStates = 40, 200
	an.Keep = func(v ssa.Value) bool {
		_, phi := v.(*ssa.Phi)
		_, call := v.(*ssa.Call)
		return (phi || call) && (types.Identical(v.Type(), types.Typ[types.String]) || strings.Contains(ownerName(v.Type()), "api/schemas.Output"))
	}
	an.Record = func(ev *flow.Event) bool {
		switch ev.Kind {
		case "next":
			return true
		case "append":
			return r.relevant(ev)
		}
		return false
	}
	args := an.ParamTerms(fn)
	r.args = args
	r.p = &pool{c: c, an: an, root: fn, args: args, loops: map[loopKey]*mapLoop{}}
	r.tr = traceLoops(an)
	enterBack := an.OnBack
	an.OnBack = func(st *flow.State, fr *flow.Frame, h *ssa.BasicBlock) {
		enterBack(st, fr, h)
		rec := backRec{st, fr, h, an.BackVals, an.BackPrev}
		r.p.backs = append(r.p.backs, rec)
		r.round(rec)
		k := loopKey{fr, h}
		for _, ev := range st.Events() {
			if ev.Kind == "next" && !ev.Old && !ev.May && ev.Frame == fr && ev.Instr.Block() == h {
				l := r.p.loops[k]
				if l == nil {
					l = &mapLoop{key: k, m: ev.Args[0], ok: ev.Res}
					r.p.loops[k] = l
				}
				l.backs = append(l.backs, rec)
			}
		}
	}
	r.impl = map[string]map[string]bool{"ASNs": implementersOf(c, "ASNCertificateInformation"), "IPs": implementersOf(c, "IPCertificateInformation")}
	an.OnEvent = r.event
	exits := c.Explore(an, fn)
	r.tables(exits)
	for field, impl := range r.impl {
		for k := range impl {
			c.Expect(r.kinds[field][k], "resource", field+" "+k, c.PosOf(fn.Pos()), "a resource of the type %s is not reported in %s", k, field)
		}
	}
}

func (r *resourceList) relevant(ev *flow.Event) bool {
	o := elemOwner(ev.Args[0].Typ)
	if o == "" && ev.Res != nil {
		o = elemOwner(ev.Res.Typ)
	}
	if strings.Contains(o, "api/schemas.Output") {
		return true
	}
	return ev.Args[1].Op == flow.OSliceLit && len(ev.Args[1].Args) == 1 && isStringT(ev.Args[1].Args[0].Typ)
}

func (r *resourceList) event(st *flow.State, ev *flow.Event) {
	c := r.c
	switch ev.Kind {
	case "next":
		if t, _, _ := tableOf(ev.Args[0]); t != "" {
			for f := range recordFields["ValidROA"] {
				st.SetGhost("field "+f, nil)
			}
			for f := range recordFields["ValidManifest"] {
				st.SetGhost("field "+f, nil)
			}
			st.SetGhost("recorded", nil)
			st.SetGhost("recorded twice", nil)
			for f := range resLists {
				st.SetGhost("list "+f, nil)
				st.SetGhost("grown "+f, nil)
				r.forget(st, f)
			}
		}
	case "append":
		if !r.relevant(ev) {
			return
		}
		if ev.Args[1].Op != flow.OSliceLit {
			c.Expect(!strings.Contains(elemOwner(ev.Args[0].Typ), "api/schemas.Output"), "resource", "append", c.evPos(ev), "elements are added to a list of the resource list in a way that cannot be followed: %s", ev.Args[1])
			return
		}
		for _, el := range ev.Args[1].Args {
			if strings.HasSuffix(ownerName(el.Typ), outRes) {
				if st.Ghost("recorded") != nil {
					st.SetGhost("recorded twice", r.an.W.True)
				}
				st.SetGhost("recorded", el)
				c.Expect(r.inEntry(st), "record", "of an entry", c.evPos(ev), "a record is added that is not that of an entry of a table of valid objects")
				continue
			}
			f := r.fieldFor(st, ev, el)
			if f == "" {
				continue
			}
			list, idx, kind, bad := r.source(st, f, el)
			if r.kinds[f] == nil {
				r.kinds[f] = map[string]bool{}
			}
			if bad == "" {
				r.kinds[f][kind] = true
			}
			if bad == "" && list != nil && idx != nil {
				of := st.Elem(list, idx, elemTyp(list.Typ))
				st.SetGhost("again "+f, r.an.W.Bool(st.Ghost("of "+f) == of && st.Ghost("done "+f) == r.an.W.True))
				st.SetGhost("done "+f, r.an.W.True)
				st.SetGhost("of "+f, of)
			}
			c.Expect(bad == "", "resource", f+" "+kind+" values", c.evPos(ev), "the element of %s made from a resource of the type %s %s: %s", f, kind, bad, facts(st))
		}
	case "store":
		a := ev.Args[0]
		if a.Op != flow.OFieldAddr || a.Args[0].Typ == nil {
			return
		}
		own := ownerName(a.Args[0].Typ)
		f := a.Aux
		switch {
		case strings.HasSuffix(own, outRes) && resLists[f].of != "", strings.HasSuffix(own, "schemas.ResourcesJSON") && f == "Resources":
			v := ev.Args[1]
			fresh := isEmptyTerm(st, v)
			c.Expect((r.grown(st, a, v) || r.ownAddition(ev)) && !(fresh && st.Ghost("grown "+f) != nil), "list", f, c.evPos(ev), "the list %s of a record is replaced by something else than the list with additions: %s", f, v)
			st.SetGhost("list "+f, a.Args[0])
			if !fresh {
				st.SetGhost("grown "+f, r.an.W.True)
			}
		case strings.HasSuffix(own, outRes):
			st.SetGhost("field "+f, r.an.W.Bool(r.field(st, f, ev.Args[1], c.evPos(ev))))
			st.SetGhost("record", a.Args[0])
		}
	}
}

// ownAddition: the list is read, elements are added to it and it is stored, all in one block,
// with nothing between them that stores the same field.
func (r *resourceList) ownAddition(ev *flow.Event) bool {
	st, ok := ev.Instr.(*ssa.Store)
	if !ok {
		return false
	}
	to, ok := st.Addr.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	add, ok := st.Val.(*ssa.Call)
	if !ok || len(add.Call.Args) == 0 {
		return false
	}
	if b, ok := add.Call.Value.(*ssa.Builtin); !ok || b.Name() != "append" {
		return false
	}
	read, ok := add.Call.Args[0].(*ssa.UnOp)
	if !ok || read.Op != token.MUL || read.Block() != st.Block() {
		return false
	}
	from, ok := read.X.(*ssa.FieldAddr)
	if !ok || from.X != to.X || from.Field != to.Field {
		return false
	}
	stores := func(in ssa.Instruction) bool {
		s, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		f, ok := s.Addr.(*ssa.FieldAddr)
		return ok && f.Field == to.Field && types.Identical(f.X.Type(), to.X.Type())
	}
	same := func(fn *ssa.Function) (found bool) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				found = found || stores(in)
			}
		}
		return
	}
	between := false
	for _, in := range st.Block().Instrs {
		switch {
		case in == ssa.Instruction(read):
			between = true
		case in == ssa.Instruction(st):
			return between
		case !between:
		default:
			if stores(in) {
				return false
			}
			k, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if _, ok := k.Common().Value.(*ssa.Builtin); ok {
				continue
			}
			g := k.Common().StaticCallee()
			if g == nil {
				return false
			}
			for h := range staticReach(r.c.P, g) {
				if same(h) {
					return false
				}
			}
		}
	}
	return false
}

// grown: the value is empty, the present value of the field with additions, or a list made of nothing but additions.
func (r *resourceList) grown(st *flow.State, addr, v *flow.Term) bool {
	for v.Op == flow.OAppend {
		v = v.Args[0]
	}
	if isEmptyTerm(st, v) || v == st.Load(addr, v.Typ) {
		return true
	}
	if cur := st.Ghost("content of " + addr.Aux); cur != nil && cur == v {
		return true
	}
	bases, ok := r.tr.grownFrom(r.an, v, nil, 0)
	for _, b := range bases {
		ok = ok && isEmptyTerm(st, b)
	}
	return ok && len(bases) > 0
}

func isEmptyTerm(st *flow.State, t *flow.Term) bool {
	if t.Op == flow.ONil {
		return true
	}
	n, ok := st.W().Len(t).IsInt()
	return ok && n == 0
}

// source of an element of a record's list: the list it comes from, its position there and what is
// wrong with its values.
func (r *resourceList) source(st *flow.State, f string, el *flow.Term) (list, idx *flow.Term, kind, bad string) {
	w := r.an.W
	switch f {
	case "SIAs", "FileList":
		part := map[string]string{"SIAs": "GeneralName", "FileList": "Name"}[f]
		x := el
		for x.Op == flow.OConv {
			x = x.Args[0]
		}
		if !isRef(x, part) {
			return nil, nil, "", "is not the " + part
		}
		list, idx = loopElem(refBase(x))
		return
	case "ROAs":
		p, m := st.Path(el, "Prefix"), st.Path(el, "MaxLength")
		if !isCallTerm(p, "(*net.IPNet).String") || !isRef(p.Args[0], "IPNet") {
			return nil, nil, "", "has not the prefix of the entry"
		}
		e := refBase(p.Args[0])
		list, idx = loopElem(e)
		for m != nil && m.Op == flow.OConv && !narrow(m.Typ) {
			m = m.Args[0]
		}
		if !isRef(m, "MaxLength") || w.Shape(refBase(m)) != w.Shape(e) {
			bad = "has not the max length of the entry"
		}
		return
	}
	// the type that the resource holds on this path
	var held *flow.Term
	lits(st, func(t *flow.Term, v bool) {
		if t.Op == flow.OTypeIs && v {
			if l, _ := loopElem(t.Args[0]); l != nil && isRef(l, map[string]string{"ASNs": "ASNums", "IPs": "IPAddresses"}[f]) {
				held, kind = t.Args[0], ownerName(t.Typ)
			}
		}
	})
	if held == nil {
		return nil, nil, "", "is not made from a resource of a known type"
	}
	kind = kind[strings.LastIndex(kind, ".")+1:]
	list, idx = loopElem(held)
	// t is the part of the resource
	part := func(t *flow.Term, name string) bool {
		for t != nil && t.Op == flow.OConv && (!narrow(t.Typ) || name == "Family") {
			t = t.Args[0]
		}
		if !isRef(t, name) {
			return false
		}
		b := strip(refBase(t))
		for b != nil && (b.Op == flow.OAssert || b.Op == flow.OExtract && b.Args[0].Op == flow.OAssert) {
			b = strip(b.Args[0])
		}
		return b == strip(held) || w.Shape(b) == w.Shape(held)
	}
	text := func(t *flow.Term, name string) bool {
		return t != nil && t.Op == flow.OCall && len(t.Args) == 1 && (isCallTerm(t, "(net.IP).String") || isCallTerm(t, "(*net.IPNet).String")) && part(t.Args[0], name)
	}
	none := func(names ...string) bool {
		for _, n := range names {
			t := st.Path(el, n)
			zero := t != nil && (t.Op == flow.ONil || t == w.False || t.Op == flow.OZero)
			if x, ok := t.IsInt(); ok && x == 0 {
				zero = true
			}
			if x, ok := t.IsStr(); ok && x == "" {
				zero = true
			}
			if !zero {
				bad = "also has a value in " + n
				return false
			}
		}
		return true
	}
	pair := func(of func(t *flow.Term, name string) bool) bool {
		l := st.Path(el, "Range")
		if n, ok := w.Len(l).IsInt(); !ok || n != 2 {
			return false
		}
		for i, name := range []string{"Min", "Max"} {
			if !of(st.Elem(l, w.Int(int64(i)), elemTyp(l.Typ)), name) {
				return false
			}
		}
		return true
	}
	ok, rest := true, true
	switch f + " " + kind {
	case "ASNs ASNRange":
		ok, rest = pair(part), none("ASN", "Inherit")
	case "ASNs ASNull":
		ok, rest = st.Path(el, "Inherit") == w.True, none("ASN", "Range")
	case "ASNs ASN":
		ok, rest = part(st.Path(el, "ASN"), "ASN"), none("Range", "Inherit")
	case "IPs IPAddressRange":
		ok, rest = pair(text), none("Prefix", "Inherit")
	case "IPs IPNet":
		ok, rest = text(st.Path(el, "Prefix"), "IPNet"), none("Range", "Inherit")
	case "IPs IPAddressNull":
		ok, rest = part(st.Path(el, "Inherit"), "Family"), none("Prefix", "Range")
	}
	if rest && !ok {
		bad = "has not the values of the resource"
	}
	return
}

// field of a record's list by the type of its elements.
func (r *resourceList) fieldFor(st *flow.State, ev *flow.Event, el *flow.Term) string {
	switch o := ownerName(el.Typ); {
	case strings.HasSuffix(o, "schemas.OutputASN"):
		return "ASNs"
	case strings.HasSuffix(o, "schemas.OutputIP"):
		return "IPs"
	case strings.HasSuffix(o, "schemas.OutputROA"):
		return "ROAs"
	case isStringT(el.Typ):
		if el.Any(func(x *flow.Term) bool { return isRef(x, "GeneralName") }) {
			return "SIAs"
		}
		if el.Any(func(x *flow.Term) bool { return isRef(x, "FileList") }) {
			return "FileList"
		}
	}
	return ""
}

func (r *resourceList) forget(st *flow.State, f string) {
	st.SetGhost("done "+f, r.an.W.False)
	st.SetGhost("again "+f, r.an.W.False)
	st.SetGhost("of "+f, r.an.W.Nil)
}

// round: the elements that the round which ends here has dealt with: added to a record once, or of a type that there is not.
func (r *resourceList) round(b backRec) {
	w := r.an.W
	out := map[string][]*flow.Term{}
	r.rounds = append(r.rounds, out)
	for f := range resLists {
		if b.St.Ghost("done "+f) == w.True {
			of := b.St.Ghost("of " + f)
			if of == nil || of == w.Nil {
				continue
			}
			if _, i := loopElem(of); i != nil {
				if b.St.Ghost("again "+f) != w.True {
					out[f] = append(out[f], of)
				}
				if _, own := elementCounter(r.an, i, b); own {
					r.forget(b.St, f)
				}
			}
			continue
		}
		if impl := r.impl[f]; impl != nil {
			none := map[*flow.Term]map[string]bool{}
			lits(b.St, func(t *flow.Term, v bool) {
				if t.Op != flow.OTypeIs || v {
					return
				}
				k := ownerName(t.Typ)
				if k = k[strings.LastIndex(k, ".")+1:]; impl[k] {
					if none[t.Args[0]] == nil {
						none[t.Args[0]] = map[string]bool{}
					}
					none[t.Args[0]][k] = true
				}
			})
			for x, ks := range none {
				if len(ks) == len(impl) {
					out[f] = append(out[f], x)
				}
			}
		}
	}
}

// recordOf: the record that the iteration of a loop over a table adds.
func (r *resourceList) recordOf(st *flow.State) (rec *flow.Term, n int) {
	if rec = st.Ghost("recorded"); rec != nil {
		n = 1
	}
	if st.Ghost("recorded twice") != nil {
		n = 2
	}
	return
}

func typOf(t *flow.Term) types.Type {
	if t == nil {
		return nil
	}
	return t.Typ
}

// tableOf: the map is a table of valid objects of a manager.
func tableOf(m *flow.Term) (table string, list, idx *flow.Term) {
	name, vb := fieldRef(m)
	if vb == nil || !isRef(vb, "Validator") {
		return
	}
	l, i := loopElem(refBase(vb))
	if l == nil {
		return
	}
	return name, l, i
}

var tableKind = map[string]string{"ValidObjects": "certificate", "ValidROA": "roa", "ValidManifest": "manifest"}

func (r *resourceList) tables(exits []flow.Exit) {
	c, an := r.c, r.an
	w := an.W
	// the loops over tables all of whose rounds add the record of their entry
	type tableLoop struct {
		table string
		mgr   *flow.Term
		l     *mapLoop
	}
	var good []tableLoop
	for _, l := range r.p.loops {
		t, list, i := tableOf(l.m)
		if tableKind[t] == "" || list != r.args[1] {
			continue
		}
		all := true
		for _, b := range l.backs {
			for _, ev := range b.St.Events() {
				if ev.Kind == "next" && !ev.Old && !ev.May && ev.Frame == l.key.fr && ev.Instr.Block() == l.key.h {
					all = r.dealt(b.St, t, l.key, ev.Args[2], i) && all
				}
			}
		}
		if all {
			good = append(good, tableLoop{t, i, l})
		}
	}
	complete := func(st *flow.State) (out []*flow.Term) {
		done := map[*flow.Term]map[string]bool{}
		for _, g := range good {
			if !st.Excludes(flow.Lit(g.l.ok)) {
				continue
			}
			if done[g.mgr] == nil {
				done[g.mgr] = map[string]bool{}
			}
			done[g.mgr][g.table] = true
		}
		for i, ts := range done {
			if len(ts) == len(tableKind) {
				out = append(out, i)
			}
		}
		return
	}
	for t := range tableKind {
		n := 0
		for _, l := range r.p.loops {
			if t2, _, _ := tableOf(l.m); t2 == t {
				n++
				c.Sample("loop over %s with %d paths", l.m, len(l.backs))
			}
		}
		c.Expect(n > 0, "record", t, "", "there is no loop over the table %s", t)
	}
	var outer []backRec
	for _, b := range r.p.backs {
		for _, g := range good {
			if (b.Fr != g.l.key.fr || b.H != g.l.key.h) && an.InLoop(g.l.key.h.Instrs[0], g.l.key.fr, b.Fr, b.H) {
				outer = append(outer, b)
				break
			}
		}
	}
	n := 0
	for _, e := range exits {
		if e.Kind != "return" {
			continue
		}
		n++
		ok := everyElement(an, outer, e.St, e.St.Path(r.args[0], "Tals"), complete) || everyElement(an, outer, e.St, r.args[1], complete)
		c.Expect(ok, "record", "every manager", c.Pos(e.Instr), "the resource list is given out without a record for every entry of the tables of valid objects of every manager")
		served := e.St.Path(r.args[0], "Resources")
		c.Expect(served != nil && flow.FreshAddr(served) && served == e.St.Ghost("list Resources"), "list", "served", c.Pos(e.Instr), "the list that is served is not the one that was filled: %s", served)
	}
	c.Expect(n > 0, "record", "end", "", "the generation never returns")
	_ = w
}

// dealt: the iteration adds the record of this entry.
func (r *resourceList) dealt(st *flow.State, table string, k loopKey, obj, mgr *flow.Term) bool {
	c, an := r.c, r.an
	w := an.W
	pos := c.PosOf(k.fr.Fn.Pos())
	rec, n := r.recordOf(st)
	if obj == nil {
		return false
	}
	if table == "ValidObjects" {
		typ := st.Path(obj, "Type")
		if st.Excludes(flow.Lit(w.OrdEq(typ, w.Int(r.cerT)))) {
			return c.Expect(n == 0, "record", table+" other", pos, "a record of a certificate is made from another object")
		}
	}
	if !c.Expect(n == 1 && rec != nil, "record", table+" one", pos, "an entry of %s yields %d records: %s", table, n, facts(st)) {
		return false
	}
	ok := true
	file := st.Path(obj, "File")
	for f, of := range recordFields[table] {
		set := st.Ghost("field "+f) == w.True && st.Ghost("record") == rec
		if f == "Hash" || f == "Path" && st.IsNil(file) {
			set = set || !r.stored(st, f)
		}
		if !c.Expect(set, "field", table+" "+f, pos, "the %s of the record of an entry of %s is not set from its %s on every path: %s", f, table, of, facts(st)) {
			ok = false
		}
	}
	for f, l := range resLists {
		if l.of != table {
			continue
		}
		list := st.Path(r.resource(st, obj, table), l.path...)
		good := list != nil && st.Ghost("list "+f) == rec && r.covered(st, f, list)
		if !c.Expect(good, "field", table+" list "+f, pos, "the list %s of the record of an entry of %s has not one element for each of %s", f, table, list) {
			ok = false
		}
	}
	return ok
}

// resource: the object of an entry, with the type that the table holds.
func (r *resourceList) resource(st *flow.State, obj *flow.Term, table string) *flow.Term {
	name := map[string]string{"ValidObjects": "RPKICertificate", "ValidROA": "RPKIROA", "ValidManifest": "RPKIManifest"}[table]
	for _, t := range moduleTypes(r.c.P) {
		if strings.HasSuffix(ownerName(t), "validator/lib."+name) {
			return r.an.W.Assert(st.Path(obj, "Resource"), types.NewPointer(t))
		}
	}
	return nil
}

func elemTyp(t types.Type) types.Type {
	if s, ok := t.Underlying().(*types.Slice); ok {
		return s.Elem()
	}
	return nil
}

// covered: a loop of which every round adds an element of the list to the record has gone through all of it.
func (r *resourceList) covered(st *flow.State, f string, list *flow.Term) bool {
	key := fmt.Sprintf("%s %d", f, r.an.W.Shape(list))
	if r.loops == nil {
		r.loops = map[string]map[loopKey]*counter{}
	}
	ctr, ok := r.loops[key]
	if !ok {
		ctr = map[loopKey]*counter{}
		bad := map[loopKey]bool{}
		for n, b := range r.p.backs {
			k := loopKey{b.Fr, b.H}
			if bad[k] {
				continue
			}
			found := false
			for _, of := range r.rounds[n][f] {
				l, i := loopElem(of)
				if l == nil || i == nil || r.an.W.Shape(l) != r.an.W.Shape(list) {
					continue
				}
				n, ok := elementCounter(r.an, i, b)
				if !ok || ctr[k] != nil && ctr[k].phi != n.phi {
					continue
				}
				ctr[k], found = &n, true
				break
			}
			if !found {
				bad[k] = true
			}
		}
		for k := range bad {
			delete(ctr, k)
		}
		r.loops[key] = ctr
	}
	for _, n := range ctr {
		if n.exhausted(st, list) {
			return true
		}
	}
	return false
}

const certOf = "Resource.Certificate.Certificate"

// recordFields: the fields of a record and where in the entry they come from.
var recordFields = map[string]map[string]string{
	"ValidObjects":  certFields("Resource.Certificate", nil),
	"ValidROA":      certFields(certOf, map[string]string{"Emitted": "Resource.SigningTime", "ASN": "Resource.ASN"}),
	"ValidManifest": certFields(certOf, map[string]string{"ThisUpdate": "Resource.Content.ThisUpdate", "NextUpdate": "Resource.Content.NextUpdate", "ManifestNumber": "Resource.Content.ManifestNumber"}),
}

func certFields(cert string, more map[string]string) map[string]string {
	m := map[string]string{"Type": "", "Path": "File", "Hash": "File", "TA": "",
		"SubjectKeyId": cert + ".SubjectKeyId", "AuthorityKeyId": cert + ".AuthorityKeyId", "Name": cert + ".Subject.CommonName",
		"Serial": cert + ".SerialNumber", "ValidFrom": cert + ".NotBefore", "ValidTo": cert + ".NotAfter"}
	for k, v := range more {
		m[k] = v
	}
	return m
}

func (r *resourceList) stored(st *flow.State, f string) bool {
	g := st.Ghost("field " + f)
	return g != nil && g != r.an.W.Nil
}

// entry: the entry of a table that the present iteration is about.
func (r *resourceList) entry(st *flow.State) (table string, obj, mgr *flow.Term) {
	for _, ev := range st.Events() {
		if ev.Kind == "next" && !ev.Old {
			if t, _, i := tableOf(ev.Args[0]); t != "" {
				table, obj, mgr = t, ev.Args[2], i
			}
		}
	}
	return
}

func (r *resourceList) inEntry(st *flow.State) bool {
	for _, ev := range st.Events() {
		if ev.Kind == "next" && !ev.Old {
			if t, _, _ := tableOf(ev.Args[0]); t != "" && st.Entails(flow.Lit(ev.Res)) {
				return true
			}
		}
	}
	return false
}

// field: the value given to a field of a record is that of the entry.
func (r *resourceList) field(st *flow.State, f string, v *flow.Term, pos string) bool {
	c, w := r.c, r.an.W
	table, obj, mgr := r.entry(st)
	of, known := recordFields[table][f]
	if !known {
		return true
	}
	inner := func(t *flow.Term) *flow.Term {
		for t != nil && t.Op == flow.OConv && !narrow(t.Typ) {
			t = t.Args[0]
		}
		return t
	}
	// below: t is the named part of the entry
	below := func(t *flow.Term, want string) bool {
		var names []string
		for t = inner(t); t != nil; t = strip(refBase(t)) {
			for t != nil && (t.Op == flow.OAssert || t.Op == flow.OExtract && t.Args[0].Op == flow.OAssert) {
				t = strip(t.Args[0])
			}
			if t == strip(obj) || t != nil && w.Shape(t) == w.Shape(strip(obj)) {
				path := ""
				for _, n := range names {
					path = n + "." + path
				}
				return strings.TrimSuffix(path, ".") == want
			}
			n, b := fieldRef(t)
			if b == nil {
				break
			}
			names = append(names, n)
		}
		return false
	}
	ok := false
	file := st.Path(obj, "File")
	same := func(t *flow.Term) bool { return strip(t) == strip(file) || w.Shape(strip(t)) == w.Shape(strip(file)) }
	switch f {
	case "Type":
		s, is := v.IsStr()
		ok = is && s == tableKind[table]
	case "SubjectKeyId", "AuthorityKeyId":
		ok = isCallTerm(v, "encoding/hex.EncodeToString") && below(v.Args[0], of)
	case "Serial", "ManifestNumber":
		ok = isCallTerm(v, "(*math/big.Int).String") && below(v.Args[0], of)
	case "ValidFrom", "ValidTo", "Emitted", "ThisUpdate", "NextUpdate":
		x := inner(v)
		if x.Op == flow.OBin && x.Aux == "/" && isCallTerm(x.Args[0], "(time.Time).UnixNano") {
			if d, is := x.Args[1].IsInt(); is && d == 1000000000 {
				ok = below(x.Args[0].Args[0], of)
			}
		} else if isCallTerm(x, "(time.Time).Unix") {
			ok = below(x.Args[0], of)
		}
	case "TA":
		ok = taName(w, st, v, r.args[0], mgr)
	case "Path":
		if s, is := v.IsStr(); is && s == "" {
			ok = st.IsNil(file)
		} else {
			ok = isCallTerm(v, "(*validator/pki.PKIFile).ComputePath") && same(v.Args[0])
		}
	case "Hash":
		s, is := v.IsStr()
		own, read := false, false
		v.Sub(func(x *flow.Term) {
			if x.Op == flow.OCall && strings.HasSuffix(x.Aux, "LocalFetch).GetFileConv") && len(x.Args) > 1 {
				read = true
				own = same(x.Args[1])
			}
		})
		ok = is && s == "" || !is && read && own
	default:
		ok = below(v, of)
	}
	return c.Expect(ok, "field", table+" "+f+" value", pos, "the %s of the record of an entry of %s is not that of the entry: %s", f, table, v)
}
