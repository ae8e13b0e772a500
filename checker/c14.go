package main

import (
	"go/types"
	"reflect"
	"strings"

	"verif/checker/flow"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C14",
		Technique: "predicate dataflow over SSA: facts at every callback of an RRDP fetch, loop invariants of the document parsers",
		Rule:      "Whenever a fetch hands an element to its callback, the element comes out of a parse without error of a document that was downloaded from the URL of a snapshot or delta entry of the notification, and facts state that the SHA-256 of that document equals the hash of that very entry. The entries looked up by serial are the notification's, filed under their own serial. A parser gives no error only when a document element of the expected kind was decoded without error, and no read or decode error is passed over.",
		Run:       runC14})
}

func runC14(c *Ctx) {
	documents(c)
	parser(c, "ParseNode", []string{"delta", "snapshot"}, false)
	parser(c, "ParseRoot", []string{"notification"}, false)
}

// hexOf: t is the SHA-256 of data, in hexadecimal.
func hexSha(w *flow.World, t, data *flow.Term) bool {
	for {
		if isCallTerm(t, "strings.ToLower", "strings.ToUpper") && len(t.Args) == 1 {
			t = t.Args[0]
			continue
		}
		if t.Op == flow.OCat && len(t.Args) == 1 {
			t = t.Args[0]
			continue
		}
		break
	}
	if t.Op != flow.OCall || len(t.Args) != 1 || t.Aux != "encoding/hex.EncodeToString" && t.Aux != "fmt%x" {
		return false
	}
	return rawSha(w, t.Args[0], data)
}

func rawSha(w *flow.World, t, data *flow.Term) bool {
	t = strip(t)
	for t != nil && (t.Op == flow.OSlice || isCallTerm(t, "bytes.Clone")) {
		t = strip(t.Args[0])
	}
	if t == nil || t.Op != flow.OHash || t.Aux != "sha256" || len(t.Args) != 1 {
		return false
	}
	return sameBytes(w, t.Args[0], data)
}

// sameBytes: a and b are the same bytes, as text or slice.
func sameBytes(w *flow.World, a, b *flow.Term) bool {
	a, b = strip(a), strip(b)
	return a == b || w.Shape(a) == w.Shape(b) || w.Shape(w.StrOf(a)) == w.Shape(w.StrOf(b)) || w.Shape(w.StrOf(a)) == w.Shape(b) || w.Shape(a) == w.Shape(w.StrOf(b))
}

// hashOf: t is the hash stated by an entry, as text.
func statedHash(t, node *flow.Term) bool {
	for isCallTerm(t, "strings.ToLower", "strings.ToUpper", "strings.TrimSpace") && len(t.Args) == 1 {
		t = t.Args[0]
	}
	return isRef(t, "Hash") && refBase(t) == node
}

// hashMatches: facts state that the document has the hash of its entry.
func hashMatches(st *flow.State, node, data *flow.Term) bool {
	w := st.W()
	return hasLit(st, func(t *flow.Term, v bool) bool {
		if !v || len(t.Args) < 2 || t.Op != flow.OEq && !isCallTerm(t, "strings.EqualFold", "bytes.Equal") {
			return false
		}
		for i := 0; i < 2; i++ {
			a, b := t.Args[i], t.Args[1-i]
			if hexSha(w, a, data) && statedHash(b, node) {
				return true
			}
			d := strip(b)
			if d.Op == flow.OExtract && d.Aux == "0" && isCallTerm(d.Args[0], "encoding/hex.DecodeString") && statedHash(d.Args[0].Args[0], node) && rawSha(w, a, data) {
				return true
			}
		}
		return false
	})
}

func documents(c *Ctx) {
	n, filed := 0, 0
	maps := map[*flow.Term]bool{}
	set := map[*flow.Term]bool{}
	exploreFetch(c, func(st *flow.State, ev *flow.Event, an *flow.Analyzer, args []*flow.Term) {
		w := an.W
		pos := c.evPos(ev)
		if ev.Kind == "mapset" && ev.Args[0].Op == flow.OMake && ev.Args[2] != nil {
			v := ev.Args[2]
			l, _ := loopElem(v)
			if l == nil {
				l = elemListOf(v)
			}
			if nd := namedOf(v.Typ); nd == nil || nd.Obj().Name() != "ElNode" {
				return
			}
			filed++
			set[ev.Args[0]] = true
			c.Expect(l != nil && isRef(l, "Deltas"), "entries", "value", pos, "an entry is filed that is none of the notification's deltas: %s", v)
			k := ev.Args[1]
			for k.Op == flow.OConv {
				k = k.Args[0]
			}
			c.Expect(isRef(k, "Serial") && refBase(k) == v || k == st.Path(v, "Serial"), "entries", "key", pos, "an entry is filed under another serial than its own: %s", k)
			return
		}
		if !isCallback(ev) {
			return
		}
		n++
		el := docElem(ev.Args[2], "URI")
		var doc *flow.Term
		if el != nil {
			if l := elemListOf(el); l != nil && l.Op == flow.OExtract && (l.Aux == "0" || l.Aux == "1") && isCallTerm(l.Args[0], "sync/lib.ParseNode") {
				doc = l.Args[0]
			}
		}
		if doc == nil {
			c.Fail("document", "element", pos, "an element is handed on that does not come from a parsed document: %s", ev.Args[2])
			return
		}
		c.Expect(st.Entails(eqf(w, w.Extract(doc, 2, nil), w.Nil)), "document", "parsed", pos, "an element of a document that may not have parsed is handed on: %s", facts(st))
		data := strip(doc.Args[0])
		if data.Op != flow.OExtract || data.Aux != "0" || !strings.HasSuffix(data.Args[0].Aux, ".GetXML") || len(data.Args[0].Args) != 2 {
			c.Fail("document", "download", pos, "the document is not what was downloaded: %s", data)
			return
		}
		uri := data.Args[0].Args[1]
		node := refBase(uri)
		switch {
		case !isRef(uri, "URI") || node == nil:
			c.Fail("document", "URL", pos, "the document was not downloaded from the URL of an entry of the notification: %s", uri)
			return
		case node.Op == flow.OLookup && node.Args[0].Op == flow.OMake:
			maps[node.Args[0]] = true
		case isRef(node, "Snapshot"):
			c.Expect(notificationOf(refBase(node), args[0]), "document", "snapshot entry", pos, "the snapshot is not that of the notification: %s", node)
		default:
			l := elemListOf(node)
			c.Expect(l != nil && isRef(l, "Deltas"), "document", "URL", pos, "the document was not downloaded from the URL of an entry of the notification: %s", uri)
		}
		c.Expect(hashMatches(st, node, data), "document", "hash", pos, "an element of a document is handed on though its SHA-256 is not known to be the one its entry states: %s, knowing %s", node, facts(st))
	}, func(an *flow.Analyzer) { an.MaxFacts = 60 })
	for m := range maps {
		c.Expect(set[m], "entries", "filled", "", "the table of entries is never filled: %s", m)
	}
	c.Expect(n > 0, "document", "handed on", "", "no element is ever handed on")
}

// notificationOf: t is the parsed notification of the server.
func notificationOf(t, s *flow.Term) bool {
	for t != nil && (t.Op == flow.OField || t.Op == flow.ODeref) {
		t = t.Args[0]
	}
	return t != nil && (t.Op == flow.OAlloc || t.Op == flow.OExtract && isCallTerm(t.Args[0], "sync/lib.ParseRoot"))
}

// elemListOf is the list an element belongs to.
func elemListOf(t *flow.Term) *flow.Term {
	t = strip(t)
	if t == nil {
		return nil
	}
	if t.Op == flow.ODeref {
		t = t.Args[0]
	}
	if t.Op == flow.OIndex || t.Op == flow.OIndexAddr {
		return t.Args[0]
	}
	return nil
}

func namedOf(t types.Type) *types.Named {
	if t == nil {
		return nil
	}
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := t.(*types.Named)
	return n
}

// xmlKind is the element name a type insists on when it is decoded.
func xmlKind(t types.Type) string {
	n := namedOf(t)
	if n == nil {
		return ""
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "XMLName" && st.Field(i).Type().String() == "encoding/xml.Name" {
			tag := reflect.StructTag(st.Tag(i)).Get("xml")
			tag = strings.Split(tag, ",")[0]
			return tag[strings.LastIndexByte(tag, ' ')+1:]
		}
	}
	return ""
}

// parser: a document parser gives no error only for documents of a kind. elements: every
// element decoded is in its result.
func parser(c *Ctx, name string, kinds []string, elements bool) {
	fn := c.Func("sync/lib", "", name)
	if fn == nil {
		return
	}
	an := c.NewAnalyzer()
	args := an.ParamTerms(fn)
	w := an.W
	tr := traceLoops(an)
	var backs []backRec
	back := an.OnBack
	decode := func(ev *flow.Event) bool {
		return ev.Kind == "call" && (isCall(ev, "(*encoding/xml.Decoder).DecodeElement", "(*encoding/xml.Decoder).Decode", "encoding/xml.Unmarshal"))
	}
	token := func(ev *flow.Event) bool {
		return isCall(ev, "(*encoding/xml.Decoder).Token", "(*encoding/xml.Decoder).RawToken", "(*encoding/xml.Decoder).Skip")
	}
	an.Record = func(ev *flow.Event) bool { return decode(ev) || token(ev) || ev.Kind == "append" }
	an.MaxFacts, an.MaxStates = 40, 800
	an.AssumeDeref = true
	target := func(ev *flow.Event) *flow.Term {
		a := ev.Args[1]
		if a.Op == flow.OMkIface {
			a = a.Args[0]
		}
		return a
	}
	kind := func(t *flow.Term) string {
		if t.Typ == nil {
			return ""
		}
		return xmlKind(t.Typ)
	}
	// decoded: on this way a document element was decoded without error.
	decoded := func(st *flow.State) *flow.Event {
		for _, ev := range st.Events() {
			if !decode(ev) || ev.Old || ev.May {
				continue
			}
			for _, k := range kinds {
				if kind(target(ev)) == k && st.Entails(eqf(w, errOf(w, ev), w.Nil)) {
					return ev
				}
			}
		}
		return nil
	}
	an.OnBack = func(st *flow.State, fr *flow.Frame, h *ssa.BasicBlock) {
		if decoded(st) != nil {
			st.SetGhost("decoded", w.True)
		}
		back(st, fr, h)
		backs = append(backs, backRec{st, fr, h, an.BackVals, an.BackPrev})
	}
	eof := func(st *flow.State, e *flow.Term) bool {
		return hasLit(st, func(t *flow.Term, v bool) bool {
			if v && isCallTerm(t, "errors.Is") && len(t.Args) == 2 {
				return t.Args[0] == e && strings.HasSuffix(t.Args[1].String(), "io.EOF")
			}
			return v && t.Op == flow.OEq && (t.Args[0] == e && strings.HasSuffix(t.Args[1].String(), "io.EOF") || t.Args[1] == e && strings.HasSuffix(t.Args[0].String(), "io.EOF"))
		})
	}
	noErrors := func(st *flow.State, pos, what string, k *loopKey) {
		for _, ev := range st.Events() {
			if ev.Old || ev.May || !decode(ev) && !token(ev) {
				continue
			}
			if k != nil && !an.InLoop(ev.Instr, ev.Frame, k.fr, k.h) {
				continue
			}
			e := errOf(w, ev)
			c.Expect(st.Entails(eqf(w, e, w.Nil)) || token(ev) && eof(st, e), "parser", name+": "+short(ev.Name), pos, "an error of %s is passed over, %s %s: %s", short(ev.Name), name, what, facts(st))
		}
	}
	source := 0
	an.OnEvent = func(st *flow.State, ev *flow.Event) {
		if isCall(ev, "encoding/xml.NewDecoder", "encoding/xml.Unmarshal") {
			source++
			t := strip(ev.Args[0])
			for t.Op == flow.OCall && len(t.Args) == 1 {
				t = strip(t.Args[0])
			}
			c.Expect(t == args[0], "parser", name+": input", c.evPos(ev), "%s does not read the document it is given: %s", name, ev.Args[0])
		}
	}
	exits := c.Explore(an, fn)
	for _, k := range tr.order {
		for _, r := range tr.back[k] {
			noErrors(r.St, loopPos(c, k.h), "goes on", &k)
			if ev := decoded(r.St); ev != nil && elements && an.InLoop(ev.Instr, ev.Frame, k.fr, k.h) {
				for _, f := range []string{"Publish", "Withdraw"} {
					l := r.St.Path(target(ev), f)
					ok := l == nil || r.St.Entails(flow.Lit(w.OrdEq(w.Len(l), w.Int(0))))
					ok = ok || everyElement(an, backs, r.St, l, func(s *flow.State) (out []*flow.Term) {
						for _, e := range s.Events() {
							if e.Kind == "append" && !e.Old && !e.May && e.Args[1].Op == flow.OSliceLit {
								for _, x := range e.Args[1].Args {
									if i := elementOf(w, x, l); i != nil {
										out = append(out, i)
									}
								}
							}
						}
						return
					})
					for _, e := range r.St.Events() {
						if e.Kind == "append" && !e.May && w.Shape(e.Args[1]) == w.Shape(l) {
							ok = true
						}
					}
					c.Expect(ok, "elements", f+" of a document", loopPos(c, k.h), "%s goes on without having taken every %s element of the document: %s", name, f, facts(r.St))
				}
			}
		}
	}
	good, refused := 0, 0
	for _, e := range exits {
		pos := c.Pos(e.Instr)
		if e.Kind != "return" {
			c.Fail("parser", name+": exit", pos, "%s ends in %s", name, e.Kind)
			continue
		}
		st := e.St
		if st.NonNil(e.Results[len(e.Results)-1]) {
			refused++
			continue
		}
		good++
		noErrors(st, pos, "succeeds", nil)
		ok := decoded(st) != nil || st.Ghost("decoded") == w.True
		c.Expect(ok, "parser", name+": kind", pos, "%s accepts a text without a complete document element of the expected kind (%s): %s", name, strings.Join(kinds, " or "), facts(st))
	}
	c.Expect(good > 0 && refused > 0 && source > 0, "parser", name+": outcomes", c.PosOf(fn.Pos()), "%s accepts everything or nothing (%d, %d)", name, good, refused)
}
