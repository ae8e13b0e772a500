package main

import (
	"go/types"
	"strings"

	"verif/checker/flow"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C20",
		Technique: "path-sensitive dataflow over the list generation (values of the list's parts at the signing call against those at its end) and an aliasing analysis of writes to lists already signed or served",
		Rule:      "On every path with signing enabled the list that the generation returns was passed to its Sign method with the server's key; its entries, count, generation and validity time at the return are the values they had at that call, which come from this run; its two signature fields hold the results of that call in their places. After signing, and after a list is stored in the server, no function changes the list, what it contains or refers to, except the signature fields before publication. Nothing reached from the list held by the server is written.",
		Note:      "The digest computed by the vendored Sign is taken as it is.",
		Run:       runC20})
}

const signName = "ROAList).Sign"

func isSign(n string) bool { return strings.HasSuffix(n, signName) }

// signingFn is the function to analyse: the one that generates the list, or, if that does not sign,
// the closest caller that does.
func signingFn(c *Ctx) *ssa.Function {
	signs := func(fn *ssa.Function) bool {
		for g := range staticReach(c.P, fn) {
			hit := false
			calls(g, func(in ssa.CallInstruction, n string) { hit = hit || isSign(n) })
			if hit {
				return true
			}
		}
		return false
	}
	gen := genListFn(c)
	if gen == nil || signs(gen) {
		return gen
	}
	if m := mainValidationFn(c); m != nil && signs(m) {
		return m
	}
	return gen
}

// listParts are the parts of a list that are signed.
func listParts(st *flow.State, list *flow.Term) map[string]*flow.Term {
	return map[string]*flow.Term{
		"entries":         st.Path(list, "Data"),
		"count":           st.Path(list, "Metadata", "Counts"),
		"generation time": st.Path(list, "Metadata", "Generated"),
		"validity time":   st.Path(list, "Metadata", "Valid"),
	}
}

func runC20(c *Ctx) {
	fn := signingFn(c)
	if fn == nil {
		return
	}
	gen := genListFn(c)
	sign := optionVar(c.P, octoT, "output.sign")
	c.Expect(sign != nil, "signed", "option", "", "the option output.sign is not found")
	an := c.NewAnalyzer()
	var names []string
	for _, n := range genOpaque {
		if !strings.Contains(n, "signROAList") {
			names = append(names, n)
		}
	}
	op := opaque(names...)
	mop := opaque(mainOpaque...)
	an.Opaque = func(g *ssa.Function) bool {
		return op(g) || fn != gen && (g == gen || mop(g) && !strings.Contains(fname(g), "signROAList"))
	}
	args := an.ParamTerms(fn)
	w := an.W
	parts := []string{"entries", "count", "generation time", "validity time"}
	signs, clock := 0, 0
	published := func(st *flow.State, list *flow.Term, pos, how string) {
		on := optionIs(st, sign, true)
		off := optionIs(st, sign, false)
		signed := st.Ghost("signed")
		if off {
			c.OK("signed", "signing disabled "+how)
		} else if !c.Expect(on && signed == list, "signed", "list "+how, pos, "the list is %s without having been signed although signing may be enabled: %s", how, facts(st)) {
			return
		}
		now := listParts(st, list)
		for _, p := range parts {
			if signed != nil {
				c.Expect(st.Ghost("part "+p) == now[p], "unchanged", p, pos, "the %s of the list %s is not what was signed: %s, signed %s", p, how, now[p], st.Ghost("part "+p))
			}
		}
		if fn == gen {
			for _, p := range parts[2:] {
				t := now[p]
				clock++
				c.Expect(t != nil && t.Any(func(x *flow.Term) bool { return isCallTerm(x, "time.Now") }), "final", p, pos, "the %s of the list is not set from the time of this run: %s", p, t)
			}
			_, empty := now["count"].IsInt()
			if empty {
				c.OK("final", "count of an empty list")
			}
			c.Expect(now["entries"] != nil && now["entries"] != w.Nil, "final", "entries", pos, "the list has no entries")
		}
		if res := st.Ghost("signature"); res != nil {
			failed := hasLit(st, func(t *flow.Term, v bool) bool {
				x := eqNilArg(t)
				return !v && x == w.Extract(res, 2, x2typ(x))
			})
			if failed {
				return
			}
			str := types.Typ[types.String]
			c.Expect(st.Path(list, "Metadata", "SignatureDate") == w.Extract(res, 0, str), "signature", "signature without times", pos, "the field signatureDate is not the first result of signing: %s", st.Path(list, "Metadata", "SignatureDate"))
			c.Expect(st.Path(list, "Metadata", "Signature") == w.Extract(res, 1, str), "signature", "signature", pos, "the field signature is not the second result of signing: %s", st.Path(list, "Metadata", "Signature"))
		}
	}
	an.Record = func(ev *flow.Event) bool { return false }
	an.OnEvent = func(st *flow.State, ev *flow.Event) {
		switch {
		case ev.Kind == "call" && isSign(ev.Name):
			signs++
			list := ev.Args[0]
			if st.Ghost("signed") != nil {
				c.Expect(st.Ghost("signed") == list, "signed", "one list", c.evPos(ev), "two lists are signed")
			}
			c.Expect(len(ev.Args) > 1 && isRef(ev.Args[1], "Key") && refBase(ev.Args[1]) == args[0], "signed", "key", c.evPos(ev), "the list is not signed with the key of the server: %s", ev.Args[1])
			st.SetGhost("signed", list)
			st.SetGhost("signature", ev.Res)
			for p, t := range listParts(st, list) {
				st.SetGhost("part "+p, t)
			}
		case ev.Kind == "store" && st.Ghost("signed") != nil:
			a := ev.Args[0]
			within := a.Any(func(x *flow.Term) bool { return x == st.Ghost("signed") || x == st.Ghost("part entries") })
			if within && a.Op == flow.OIndexAddr || within && entryField(a) {
				c.Fail("unchanged", "an entry", c.evPos(ev), "an entry of the list is changed after signing: %s", a)
			}
		case fn != gen && ev.Kind == "store" && len(ev.Args) > 1 && strings.HasSuffix(ownerName(ev.Args[1].Typ), "prefixfile.ROAList"):
			published(st, ev.Args[1], c.evPos(ev), "published")
		}
	}
	returned := 0
	for _, e := range c.Explore(an, fn) {
		if e.Kind != "return" || fn != gen {
			continue
		}
		returned++
		published(e.St, e.Results[0], c.Pos(e.Instr), "returned")
	}
	c.Expect(signs > 0, "signed", "signs", c.PosOf(fn.Pos()), "no list is ever signed")
	signReads(c)
	servedLists(c)
}

func x2typ(x *flow.Term) types.Type {
	if x == nil {
		return nil
	}
	return x.Typ
}

func entryField(a *flow.Term) bool {
	for a != nil && a.Op == flow.OFieldAddr {
		a = a.Args[0]
	}
	return a != nil && a.Op == flow.OIndexAddr
}

// listObject: a type that is part of what is published.
func listObject(t types.Type) bool {
	for {
		switch x := t.(type) {
		case *types.Pointer:
			t = x.Elem()
			continue
		case *types.Slice:
			t = x.Elem()
			continue
		}
		break
	}
	n := ownerName(t)
	for _, s := range []string{"prefixfile.ROAList", "prefixfile.ROAJson", "prefixfile.MetaData", "api/schemas.ResourcesJSON", "api/schemas.OutputRes", "api/schemas.OutputROA", "api/schemas.OutputASN", "api/schemas.OutputIP"} {
		if strings.HasSuffix(n, s) {
			return true
		}
	}
	return false
}

// servedLists: nothing is changed after it was signed or stored in the server, nor through the server.
func servedLists(c *Ctx) {
	var fns []*ssa.Function
	for _, fn := range moduleFuncs(c.P, octoT) {
		fns = append(fns, fn)
	}
	shared := func(addr ssa.Value) string {
		fa, ok := addr.(*ssa.FieldAddr)
		if !ok {
			return ""
		}
		t := fa.Type().Underlying().(*types.Pointer).Elem()
		if !listObject(t) || listObject(fa.X.Type()) {
			return ""
		}
		o, n := fieldAddrName(fa)
		return o + "." + n
	}
	n := 0
	al := newAliasing(c, fns, shared)
	al.lateWrites(func(fn *ssa.Function, pub, write ssa.Instruction, loc string) {
		c.Fail("served", loc+" in "+fname(fn), c.Pos(write), "%s changes a list that it has stored in %s before (%s)", fname(fn), loc, c.Pos(pub))
	}, func(fn *ssa.Function, pub ssa.Instruction, loc string) {
		n++
		c.OK("served", loc+" in "+fname(fn))
	})
	c.Expect(n > 1, "served", "stores", "", "no list is ever stored in the server")
	// after signing
	signing := newAliasing(c, fns, func(ssa.Value) string { return "" })
	signing.skip = func(s *ssa.Store) bool {
		fa, ok := s.Addr.(*ssa.FieldAddr)
		if !ok {
			return false
		}
		_, n := fieldAddrName(fa)
		return n == "Signature" || n == "SignatureDate"
	}
	signing.mark = func(in ssa.CallInstruction) (ssa.Value, string) {
		if isSign(callName(in.Common())) {
			return in.Common().Args[0], "the signature"
		}
		return nil, ""
	}
	signing.solve()
	m := 0
	signing.lateWrites(func(fn *ssa.Function, pub, write ssa.Instruction, loc string) {
		c.Fail("unchanged", "after signing in "+fname(fn), c.Pos(write), "%s changes a list after it was signed (%s)", fname(fn), c.Pos(pub))
	}, func(fn *ssa.Function, pub ssa.Instruction, loc string) {
		m++
		c.OK("unchanged", "after signing in "+fname(fn))
	})
	c.Expect(m > 0, "unchanged", "signing", "", "no list is signed")
	// through the server
	k := 0
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, v := range al.writes(in) {
					for {
						fa, ok := v.(*ssa.FieldAddr)
						if !ok {
							break
						}
						v = fa.X // a part of a structure
					}
					if !listObject(v.Type()) {
						continue
					}
					k++
					held := heldBy(c, fn, v)
					c.Expect(held == "", "served", "write in "+fname(fn), c.Pos(in), "%s changes a list while it is served: what it changes comes from %s", fname(fn), held)
				}
			}
		}
	}
	c.Expect(k > 1, "served", "writes", "", "no code makes a list")
	// what is stored is what was generated
	gen, start := genListFn(c), map[*ssa.Function]bool{}
	if gen == nil {
		return
	}
	made := staticReach(c.P, gen)
	for _, fn := range fns {
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			if strings.HasSuffix(ownerName(fn.Signature.Results().At(i).Type()), "octorpki.OctoRPKI") {
				for g := range staticReach(c.P, fn) {
					start[g] = true
				}
			}
		}
	}
	stored := 0
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok || shared(s.Addr) == "" {
					continue
				}
				stored++
				for _, o := range origins(c.P, fn, s.Val) {
					al, ok := o.V.(*ssa.Alloc)
					ok = ok && (made[o.Fn] || start[o.Fn] && !hasEntries(al))
					c.Expect(ok, "served", "value stored by "+fname(fn), c.Pos(in), "%s stores a list in the server that does not come from the list generation: %s in %s", fname(fn), o.V, fname(o.Fn))
				}
			}
		}
	}
	c.Expect(stored > 1, "served", "stored", "", "no list is stored in the server")
}

// hasEntries: something other than an empty list is put into a new list.
func hasEntries(al *ssa.Alloc) bool {
	for _, r := range *al.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr == al {
				return true
			}
		case *ssa.FieldAddr:
			for _, q := range *x.Referrers() {
				if s, ok := q.(*ssa.Store); ok && s.Addr == x && !emptyList(s.Val) {
					if _, isList := s.Val.Type().Underlying().(*types.Slice); isList {
						return true
					}
				}
			}
		}
	}
	return false
}

// emptyList: the value is an empty slice.
func emptyList(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value == nil
	case *ssa.MakeSlice:
		n, ok := intConst(x.Len)
		return ok && n == 0
	case *ssa.Slice:
		if x.High != nil {
			n, ok := intConst(x.High)
			return ok && n == 0
		}
		if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			a, ok := p.Elem().Underlying().(*types.Array)
			return ok && a.Len() == 0
		}
	}
	return false
}

// signReads: signing does not change the list.
func signReads(c *Ctx) {
	n := 0
	var todo []*ssa.Function
	seen := map[*ssa.Function]bool{}
	add := func(fn *ssa.Function) {
		calls(fn, func(in ssa.CallInstruction, name string) {
			if f := in.Common().StaticCallee(); f != nil && len(f.Blocks) > 0 && !seen[f] && f.Signature.Recv() != nil && listObject(f.Signature.Recv().Type()) {
				if isSign(name) || seen[fn] {
					seen[f] = true
					todo = append(todo, f)
				}
			}
		})
	}
	for _, fn := range moduleFuncs(c.P, octoT) {
		add(fn)
	}
	for len(todo) > 0 {
		fn := todo[0]
		todo = todo[1:]
		add(fn)
		n++
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				ok = true
				if fa, is := s.Addr.(*ssa.FieldAddr); is && listObject(fa.X.Type()) {
					ok = false
				}
				if ia, is := s.Addr.(*ssa.IndexAddr); is && listObject(ia.X.Type()) {
					ok = false
				}
				c.Expect(ok, "unchanged", "by "+fn.Name(), c.Pos(in), "signing changes the list")
			}
		}
	}
	c.Expect(n > 0, "unchanged", "signing method", "", "the signing method of lists is not found")
}

// heldBy: the object comes out of a list held by the server.
func heldBy(c *Ctx, fn *ssa.Function, v ssa.Value) string {
	seen := map[ssa.Value]bool{}
	var rec func(fn *ssa.Function, v ssa.Value) string
	rec = func(fn *ssa.Function, v ssa.Value) string {
		for _, o := range origins(c.P, fn, v) {
			if seen[o.V] {
				continue
			}
			seen[o.V] = true
			var next ssa.Value
			switch x := o.V.(type) {
			case *ssa.FieldAddr:
				next = x.X
			case *ssa.IndexAddr:
				next = x.X
			case *ssa.Slice:
				next = x.X
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
					next = x.Call.Args[0]
				}
			case *ssa.UnOp:
				switch a := x.X.(type) {
				case *ssa.FieldAddr:
					if listObject(x.Type()) && !listObject(a.X.Type()) {
						owner, f := fieldAddrName(a)
						return owner + "." + f
					}
					next = a.X
				case *ssa.IndexAddr:
					next = a.X
				}
			}
			if next != nil {
				if r := rec(o.Fn, next); r != "" {
					return r
				}
			}
		}
		return ""
	}
	return rec(fn, v)
}
