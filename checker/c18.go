package main

import (
	"go/types"
	"sort"
	"strings"

	"verif/checker/flow"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C18",
		Technique: "interprocedural lockset analysis: every goroutine and HTTP handler is followed through the call graph with the locks it holds; guard inference per field, lock-order graph, release and blocking rules",
		Rule:      "For every field of the server's shared structures, what it refers to, and every package variable: if it is written after start-up and used by more than one of main loop, workers and handlers, all uses hold one common lock, writers exclusively, or all go through an atomic type; what is stored in such a field is not changed afterwards. A lock is never taken while it is held, nor released while it is not; the paths through a function agree on the locks held at its end, and goroutines and handlers end with none; the order in which locks are taken while others are held has no cycle; with a lock held no channel operation, network call, wait for a process or write to a client happens.",
		Note:      "Locks and fields are identified by struct type and field name; the types looked at have one instance (checked). Objects not yet shared and accesses of main before it starts goroutines are exempt.",
		Run:       runC18})
}

func runC18(c *Ctx) {
	loop := loopFn(c)
	main := c.Func(octoT, "", "main")
	if loop == nil || main == nil {
		return
	}
	server := serverTypes(c, loop)
	if !c.Expect(len(server) > 0, "types", "server", c.PosOf(loop.Pos()), "the round loop has no server structure") {
		return
	}
	l := newLocksets(c, server)
	l.double = func(in ssa.Instruction, fn *ssa.Function, lock string) {
		c.Fail("nesting", "twice "+lock, c.Pos(in), "%s takes %s while it is already held", fname(fn), lock)
	}
	l.unheld = func(in ssa.Instruction, fn *ssa.Function, lock string) {
		c.Fail("released", "not held "+lock, c.Pos(in), "%s releases %s, which is not held in that way", fname(fn), lock)
	}
	l.exitDiff = func(fn *ssa.Function, in ssa.Instruction, a, b map[string]bool) {
		c.Fail("released", "paths "+fname(fn), c.Pos(in), "%s ends with [%s] held on one path and [%s] on another", fname(fn), heldNames(a), heldNames(b))
	}
	l.rootEnd = func(r *lockRoot, in ssa.Instruction, held map[string]bool) {
		pos := c.PosOf(r.fn.fn.Pos())
		if in != nil {
			pos = c.Pos(in)
		}
		c.Fail("released", "end of "+r.name, pos, "%s may end with %s held", r.name, heldNames(held))
	}
	l.blocking = func(in ssa.Instruction, fn *ssa.Function, held map[string]bool, what string) {
		c.Fail("waiting", fname(fn), c.Pos(in), "%s waits (%s) with %s held", fname(fn), what, heldNames(held))
	}
	l.addRoot(boundFn{fn: main}, false, true)
	l.run()
	var names []string
	for _, r := range l.roots {
		n := r.name
		if r.multi {
			n += " (several)"
		}
		names = append(names, n)
		c.OK("goroutines", r.name)
	}
	c.Sample("goroutines and handlers: %s", strings.Join(names, ", "))
	c.AtLeast("goroutines", 7)
	for fn := range l.visited {
		c.funcs[flow.FuncName(fn)] = true
		c.blocks += len(fn.Blocks)
	}
	c.steps += l.steps
	for k, n := range l.locks {
		_ = n
		c.OK("released", k)
		c.OK("nesting", k)
		c.OK("waiting", k)
	}
	shared := guards(c, l)
	lockOrder(c, l)
	// what is handed over is not changed afterwards
	var fns []*ssa.Function
	for _, fn := range moduleFuncs(c.P) {
		if l.visited[fn] {
			fns = append(fns, fn)
		}
	}
	n := 0
	al := newAliasing(c, fns, func(addr ssa.Value) string {
		loc, _, local := l.location(addr)
		if local || shared[loc] == "" {
			return ""
		}
		return loc
	})
	al.lateWrites(func(fn *ssa.Function, pub, write ssa.Instruction, loc string) {
		if l.heldAt[write][shared[loc]] {
			return // still under the lock
		}
		c.Fail("handed over", loc+" in "+fname(fn), c.Pos(write), "%s changes what it has stored in %s before (%s): other goroutines may be using it", fname(fn), loc, c.Pos(pub))
	}, func(fn *ssa.Function, pub ssa.Instruction, loc string) {
		n++
		c.OK("handed over", loc+" in "+fname(fn))
	})
	c.AtLeast("handed over", 4)
}

// serverTypes are the struct types with one instance that the goroutines share: the receiver of the
// round loop, what it holds by value or in fields set at construction only, and the receivers of
// goroutines.
func serverTypes(c *Ctx, loop *ssa.Function) map[string]bool {
	out := map[string]bool{}
	var todo []types.Type
	add := func(t types.Type) {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		n := ownerName(t)
		nt, ok := t.(*types.Named)
		if !ok || n == "" || out[n] || nt.Obj().Pkg() == nil || !strings.HasPrefix(nt.Obj().Pkg().Path()+"/", modPath) {
			return
		}
		if _, ok := nt.Underlying().(*types.Struct); !ok {
			return
		}
		out[n] = true
		todo = append(todo, t)
	}
	for _, p := range loop.Params {
		add(p.Type())
	}
	for _, fn := range moduleFuncs(c.P, octoT) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if g, ok := in.(*ssa.Go); ok {
					if f := g.Call.StaticCallee(); f != nil && f.Signature.Recv() != nil {
						add(f.Signature.Recv().Type())
					}
				}
			}
		}
	}
	for len(todo) > 0 {
		t := todo[0]
		todo = todo[1:]
		st := t.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if _, ok := f.Type().Underlying().(*types.Pointer); ok && replacedLater(c, ownerName(t), f.Name()) {
				continue
			}
			add(f.Type())
		}
	}
	return out
}

// replacedLater: the field is assigned in an object that is not under construction.
func replacedLater(c *Ctx, owner, field string) bool {
	for _, fn := range moduleFuncs(c.P) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || rootAlloc(fa) {
					continue
				}
				t := fa.X.Type().Underlying().(*types.Pointer).Elem()
				if ownerName(t) == owner && t.Underlying().(*types.Struct).Field(fa.Field).Name() == field {
					return true
				}
			}
		}
	}
	return false
}

// guards checks the locks of every location and gives the lock of each that is shared.
func guards(c *Ctx, l *locksets) map[string]string {
	shared := map[string]string{}
	byLoc := map[string][]*sharedAccess{}
	for _, a := range l.accesses {
		byLoc[a.loc] = append(byLoc[a.loc], a)
	}
	var locs []string
	for k := range byLoc {
		locs = append(locs, k)
	}
	sort.Strings(locs)
	guarded := 0
	for _, loc := range locs {
		as := byLoc[loc]
		sort.Slice(as, func(i, j int) bool {
			if as[i].in.Pos() != as[j].in.Pos() {
				return as[i].in.Pos() < as[j].in.Pos()
			}
			return as[i].root.name < as[j].root.name
		})
		roots := map[*lockRoot]bool{}
		multi, written, plain, atom := false, false, 0, 0
		for _, a := range as {
			roots[a.root] = true
			multi = multi || a.root.multi
			written = written || a.write
			if a.atomic {
				atom++
			} else {
				plain++
			}
		}
		if !written || len(roots) < 2 && !multi {
			c.OK("guarded", loc+": one goroutine or never written")
			continue
		}
		guarded++
		shared[loc] = "atomic operations"
		if plain == 0 {
			c.OK("guarded", loc+": atomic")
			continue
		}
		// the lock most uses hold
		votes := map[string]int{}
		for _, a := range as {
			for k, w := range a.held {
				if w || !a.write {
					votes[k]++
				}
			}
		}
		best := ""
		for k, n := range votes {
			if n > votes[best] || n == votes[best] && k < best {
				best = k
			}
		}
		if best != "" {
			shared[loc] = best
		}
		if best != "" && votes[best] == len(as) {
			c.OK("guarded", loc+": "+best)
			continue
		}
		for _, a := range as {
			w, ok := a.held[best]
			if ok && (w || !a.write) {
				continue
			}
			verb := "reads"
			if a.write {
				verb = "writes"
			}
			lock := best
			if lock == "" {
				lock = "any lock"
			}
			if atom > 0 {
				lock = "the atomic operations used elsewhere"
			}
			if ok {
				lock += " exclusively"
			}
			c.Fail("guarded", loc+" in "+fname(a.fn), c.Pos(a.in), "%s %s %s, which is shared between goroutines and written after start-up, without %s", fname(a.fn), verb, loc, lock)
		}
	}
	c.Expect(guarded >= 8, "guarded", "locations", "", "only %d locations are shared and written after start-up: the analysis no longer finds them", guarded)
	return shared
}

func lockOrder(c *Ctx, l *locksets) {
	var from []string
	for a := range l.order {
		from = append(from, a)
	}
	sort.Strings(from)
	var reach func(a, b string, seen map[string]bool) bool
	reach = func(a, b string, seen map[string]bool) bool {
		if a == b {
			return true
		}
		if seen[a] {
			return false
		}
		seen[a] = true
		for n := range l.order[a] {
			if reach(n, b, seen) {
				return true
			}
		}
		return false
	}
	for _, a := range from {
		var to []string
		for b := range l.order[a] {
			to = append(to, b)
		}
		sort.Strings(to)
		for _, b := range to {
			c.Expect(!reach(b, a, map[string]bool{}), "order", a+" then "+b, c.Pos(l.order[a][b]), "%s takes %s while %s is held, and elsewhere they are taken in the other order", l.orderFn[a+"|"+b], b, a)
		}
	}
	c.OK("order", "acyclic")
}
