package flow

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

// Facts is a conjunction of literals and difference bounds x-y<=c.
type Facts struct {
	lits  map[*Term]bool
	diffs map[[2]*Term]int64
}

func newFacts() *Facts { return &Facts{lits: map[*Term]bool{}, diffs: map[[2]*Term]int64{}} }

func (f *Facts) clone() *Facts {
	g := &Facts{lits: make(map[*Term]bool, len(f.lits)+2), diffs: make(map[[2]*Term]int64, len(f.diffs)+2)}
	for k, v := range f.lits {
		g.lits[k] = v
	}
	for k, v := range f.diffs {
		g.diffs[k] = v
	}
	return g
}

// ---- condition construction

func (w *World) Not(t *Term) *Term {
	if t == w.True {
		return w.False
	}
	if t == w.False {
		return w.True
	}
	if t.Op == ONot {
		return t.Args[0]
	}
	if t.Op == OLe { // !(x-y<=c)  ==  y-x <= -c-1
		return w.le(t.Args[1], t.Args[0], -t.Obj.(int64)-1)
	}
	return w.mk(ONot, "", types.Typ[types.Bool], nil, nil, []*Term{t})
}

func (w *World) le(x, y *Term, c int64) *Term {
	if x == y {
		return w.Bool(0 <= c)
	}
	return w.mk(OLe, fmt.Sprint(c), types.Typ[types.Bool], nil, c, []*Term{x, y})
}

// EqAtom builds a==b for values that are only compared for identity.
func (w *World) EqAtom(a, b *Term) *Term {
	if a == b {
		return w.True
	}
	if a.Op == OConst && b.Op == OConst {
		return w.Bool(constant.Compare(a.ConstVal(), token.EQL, b.ConstVal()))
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	if a.Op == ONil && b.Op != ONil { // nil second
		a, b = b, a
	}
	if b.Op == ONil && IntrinsicNonNil(a) {
		return w.False
	}
	if a.Op == OMkIface && b.Op == OMkIface && !types.Identical(a.Typ, b.Typ) {
		return w.False
	}
	return w.mk(OEq, "0", types.Typ[types.Bool], nil, int64(0), []*Term{a, b})
}

// OrdEq builds a==b for ordered values (integers, strings, times, big integers).
func (w *World) OrdEq(a, b *Term) *Term {
	x, y, c, ok := w.diffOf(a, b)
	if !ok {
		return w.Bool(c == 0)
	}
	// x - y + c == 0  ->  x - y == -c
	c = -c
	if x.Op == OConst && y.Op == OConst && x != w.Zero0 && y != w.Zero0 {
		return w.Bool(x == y)
	}
	if x == w.Zero0 || (y != w.Zero0 && x.ID > y.ID) {
		x, y, c = y, x, -c
	}
	return w.mk(OEq, fmt.Sprintf("ord%d", c), types.Typ[types.Bool], nil, c, []*Term{x, y})
}

// diffOf writes a-b as x-y+c; ok=false when it is the constant c.
func (w *World) diffOf(a, b *Term) (x, y *Term, c int64, ok bool) {
	l := w.linOf(a)
	w.linAdd(&l, b, -1)
	if len(l.m) == 0 {
		return nil, nil, l.c, false
	}
	pos := lin{m: map[*Term]int64{}}
	neg := lin{m: map[*Term]int64{}}
	g := int64(0)
	for _, k := range l.m {
		if k < 0 {
			k = -k
		}
		g = gcd(g, k)
	}
	if g > 1 && l.c%g == 0 {
		for v := range l.m {
			l.m[v] /= g
		}
		l.c /= g
	}
	for v, k := range l.m {
		if k > 0 {
			pos.m[v] = k
		} else {
			neg.m[v] = -k
		}
	}
	return w.linTerm(pos, types.Typ[types.Int]), w.linTerm(neg, types.Typ[types.Int]), l.c, true
}

func gcd(a, b int64) int64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// OrdLe builds a<=b, OrdLt a<b.
func (w *World) OrdLe(a, b *Term) *Term {
	x, y, c, ok := w.diffOf(a, b)
	if !ok {
		return w.Bool(c <= 0)
	}
	return w.le(x, y, -c)
}
func (w *World) OrdLt(a, b *Term) *Term {
	x, y, c, ok := w.diffOf(a, b)
	if !ok {
		return w.Bool(c < 0)
	}
	return w.le(x, y, -c-1)
}

// ---- intrinsic knowledge

// NonNilFuncs are external functions that never return nil.
var NonNilFuncs = map[string]bool{
	"errors.New": true, "fmt.Errorf": true, "bytes.NewBuffer": true, "bytes.NewBufferString": true, "bytes.NewReader": true,
	"math/big.NewInt": true, "encoding/xml.NewDecoder": true, "encoding/xml.NewEncoder": true, "encoding/json.NewEncoder": true, "encoding/json.NewDecoder": true,
	"net/http.MaxBytesReader": true, "bufio.NewScanner": true, "bufio.NewReader": true, "crypto/sha256.New": true, "crypto/sha1.New": true, "strings.NewReader": true,
	"os/exec.CommandContext": true, "os/exec.Command": true, "context.Background": true, "net/http.NewServeMux": true, "io.LimitReader": true, "io.MultiReader": true,
	"github.com/sirupsen/logrus.StandardLogger": true, "github.com/getsentry/sentry-go.CurrentHub": true, "(*github.com/getsentry/sentry-go.Hub).Clone": true,
	"github.com/opentracing/opentracing-go.GlobalTracer": true, "(net/http.ResponseWriter).Header": true,
	"(*math/big.Int).SetBytes": true, "strings.Split": true, "bytes.Split": true, "flag.String": true, "flag.Bool": true, "flag.Int": true, "flag.Duration": true, "flag.Uint": true,
	"(*github.com/prometheus/client_golang/prometheus.GaugeVec).With":   true,
	"(*github.com/prometheus/client_golang/prometheus.SummaryVec).With": true,
	"(crypto.Hash).New": true, "(*net/http.Client).Do#0": false,
}

func IntrinsicNonNil(t *Term) bool {
	switch t.Op {
	case OAlloc, OMkIface, OClosure, OFunc, OMake, OFieldAddr, OIndexAddr, OGlobal, OSliceLit, OBound, OConst, OStruct, OZero:
		return true
	case OCall:
		return NonNilFuncs[t.Aux]
	case OAppend:
		if n, ok := t.Args[1].knownLen(); ok && n > 0 {
			return true
		}
		return IntrinsicNonNil(t.Args[0])
	case OSlice:
		return IntrinsicNonNil(t.Args[0])
	case ODeref:
		if t.Args[0].Op == OGlobal && len(t.Args) == 1 { // initialised package variable holding a non-nil constructor result
			return NonNilGlobals[t.Args[0].Aux]
		}
	}
	return false
}

// NonNilGlobals is filled by the loader: package variables that are assigned
// exactly once, at initialisation, with a non-nil value.
var NonNilGlobals = map[string]bool{}

func (t *Term) knownLen() (int64, bool) {
	switch t.Op {
	case OSliceLit:
		return int64(len(t.Args)), true
	case ONil:
		return 0, true
	}
	return 0, false
}

// regexGroups: number of groups of package variables holding a compiled constant expression.
var regexGroups = map[string]int{}

// lenBounds: what is known about the length of a result of the standard library; hi is -1 when unbounded.
func lenBounds(t *Term) (lo, hi int64, ok bool) {
	switch t.Op {
	case OCall:
		switch t.Aux {
		case "strings.Split", "bytes.Split":
			if s, isS := t.Args[1].IsStr(); isS && s != "" {
				return 1, -1, true
			}
		}
	case OIndex, ODeref:
		c := t.Args[0]
		if t.Op == ODeref {
			if c.Op != OIndexAddr {
				return
			}
			c = c.Args[0]
		}
		if c.Op == OCall && (c.Aux == "(*regexp.Regexp).FindAllStringSubmatch" || c.Aux == "(*regexp.Regexp).FindAllSubmatch") {
			if g := c.Args[0]; g.Op == ODeref && g.Args[0].Op == OGlobal {
				if n, ok := regexGroups[g.Args[0].Aux]; ok {
					return int64(n) + 1, int64(n) + 1, true
				}
			}
		}
	}
	return
}

// Bounds are always-true integer bounds of a term.
func (w *World) bounds(t *Term) (lo, hi int64, hasLo, hasHi bool) {
	switch t.Op {
	case OLen:
		if lo, hi, ok := lenBounds(t.Args[0]); ok {
			return lo, hi, true, hi >= 0
		}
		return 0, 0, true, false
	case OBin:
		if n, ok := t.Args[1].IsInt(); ok {
			switch t.Aux {
			case "&":
				if n >= 0 {
					return 0, n, true, true
				}
			case "%":
				if n > 0 {
					if isUnsigned(t.Args[0].Typ) || isNonNeg(w, t.Args[0]) {
						return 0, n - 1, true, true
					}
					return -(n - 1), n - 1, true, true
				}
			}
		}
		if t.Aux == "&" {
			if n, ok := t.Args[0].IsInt(); ok && n >= 0 {
				return 0, n, true, true
			}
		}
		if t.Aux == "/" {
			if n, ok := t.Args[1].IsInt(); ok && n > 0 && isNonNeg(w, t.Args[0]) {
				return 0, 0, true, false
			}
		}
		if t.Aux == "*" && isNonNeg(w, t.Args[0]) && isNonNeg(w, t.Args[1]) {
			return 0, 0, true, false
		}
	case OCall:
		if strings.HasSuffix(t.Aux, ".Index") || strings.HasSuffix(t.Aux, ".LastIndex") || strings.HasSuffix(t.Aux, ".IndexByte") {
			return -1, 0, true, false
		}
	case OExtract:
		if t.Args[0].Op == OCall && t.Args[0].Aux == "(net.IPMask).Size" {
			return 0, 128, true, true
		}
	}
	if t.Typ != nil {
		if b, ok := t.Typ.Underlying().(*types.Basic); ok {
			switch b.Kind() {
			case types.Uint8:
				return 0, 255, true, true
			case types.Uint16:
				return 0, 65535, true, true
			case types.Uint32:
				return 0, 4294967295, true, true
			case types.Uint, types.Uint64, types.Uintptr:
				return 0, 0, true, false
			case types.Int8:
				return -128, 127, true, true
			case types.Int16:
				return -32768, 32767, true, true
			case types.Int32:
				return -2147483648, 2147483647, true, true
			}
		}
	}
	return
}

func isUnsigned(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func isNonNeg(w *World, t *Term) bool {
	if n, ok := t.IsInt(); ok {
		return n >= 0
	}
	lo, _, h, _ := w.bounds(t)
	return h && lo >= 0
}

const inf = int64(1) << 60

func abs(n int64) int64 {
	if n < 0 {
		return -n
	}
	return n
}

// best returns the tightest known c with x-y<=c.
func (w *World) best(f *Facts, x, y *Term) int64 {
	if x == y {
		return 0
	}
	// collect nodes
	nodes := map[*Term]bool{x: true, y: true, w.Zero0: true}
	for k := range f.diffs {
		nodes[k[0]] = true
		nodes[k[1]] = true
	}
	type edge struct {
		a, b *Term
		c    int64
	}
	var edges []edge // a-b<=c
	for k, c := range f.diffs {
		edges = append(edges, edge{k[0], k[1], c})
	}
	for n := range nodes {
		if n == w.Zero0 {
			continue
		}
		if v, ok := n.IsInt(); ok {
			edges = append(edges, edge{n, w.Zero0, v}, edge{w.Zero0, n, -v})
			continue
		}
		if n.Op == OLin { // a sum whose other parts are bounded is bounded by each of its parts
			o := n.Obj.(linObj)
			los, his := make([]int64, len(n.Args)), make([]int64, len(n.Args))
			var sumLo, sumHi int64
			lacksLo, lacksHi := 0, 0
			lessLo, lessHi := -1, -1
			for i, a := range n.Args {
				lo, hi, hl, hh := w.bounds(a)
				if d, ok := f.diffs[[2]*Term{w.Zero0, a}]; ok && (!hl || -d > lo) {
					lo, hl = -d, true
				}
				if d, ok := f.diffs[[2]*Term{a, w.Zero0}]; ok && (!hh || d < hi) {
					hi, hh = d, true
				}
				k := o.coef[i]
				if k < 0 {
					lo, hi, hl, hh = hi, lo, hh, hl
				}
				los[i], his[i] = lo*k, hi*k
				if hl && abs(lo) < 1<<50 && abs(k) < 1<<8 {
					sumLo += lo * k
				} else {
					lacksLo, lessLo, los[i] = lacksLo+1, i, 0
				}
				if hh && abs(hi) < 1<<50 && abs(k) < 1<<8 {
					sumHi += hi * k
				} else {
					lacksHi, lessHi, his[i] = lacksHi+1, i, 0
				}
			}
			if lacksLo == 0 {
				edges = append(edges, edge{w.Zero0, n, -sumLo - o.c})
			}
			if lacksHi == 0 {
				edges = append(edges, edge{n, w.Zero0, sumHi + o.c})
			}
			for i, a := range n.Args {
				if o.coef[i] < 1 {
					continue
				}
				if lacksLo == 0 && (o.coef[i] == 1 || los[i] >= 0) || lacksLo == 1 && lessLo == i && o.coef[i] == 1 {
					// a <= n - rest, as a is at most its multiple where it is not negative
					rest := sumLo - los[i] + los[i]/o.coef[i]*(o.coef[i]-1) + o.c
					edges = append(edges, edge{a, n, -rest})
				}
				if o.coef[i] == 1 && (lacksHi == 0 || lacksHi == 1 && lessHi == i) {
					edges = append(edges, edge{n, a, sumHi - his[i] + o.c})
				}
			}
		}
		lo, hi, hl, hh := w.bounds(n)
		if hl {
			edges = append(edges, edge{w.Zero0, n, -lo})
		}
		if hh {
			edges = append(edges, edge{n, w.Zero0, hi})
		}
	}
	// x - y <= shortest path from x to y following edges a->b
	dist := map[*Term]int64{x: 0}
	for i := 0; i <= len(nodes)+8; i++ {
		ch := false
		for _, e := range edges {
			if d, ok := dist[e.a]; ok {
				if old, ok2 := dist[e.b]; !ok2 || d+e.c < old {
					dist[e.b] = d + e.c
					ch = true
				}
			}
		}
		if !ch {
			break
		}
	}
	if d, ok := dist[y]; ok {
		return d
	}
	return inf
}

// ---- evaluation

type Tri int8

const (
	Unknown Tri = iota
	Yes
	No
)

func tri(b bool) Tri {
	if b {
		return Yes
	}
	return No
}
func (t Tri) not() Tri {
	switch t {
	case Yes:
		return No
	case No:
		return Yes
	}
	return Unknown
}

// Eval decides a boolean term under the facts.
func (w *World) Eval(f *Facts, t *Term) Tri {
	switch {
	case t == w.True:
		return Yes
	case t == w.False:
		return No
	}
	if v, ok := f.lits[t]; ok {
		return tri(v)
	}
	switch t.Op {
	case ONot:
		return w.Eval(f, t.Args[0]).not()
	case OLe:
		x, y, c := t.Args[0], t.Args[1], t.Obj.(int64)
		if w.best(f, x, y) <= c {
			return Yes
		}
		if b := w.best(f, y, x); b < inf && b < -c {
			return No
		}
	case OEq:
		a, b := t.Args[0], t.Args[1]
		if strings.HasPrefix(t.Aux, "ord") {
			c := t.Obj.(int64)
			p, q := w.best(f, a, b), w.best(f, b, a)
			if p < c || q < -c {
				return No
			}
			if p <= c && q <= -c {
				return Yes
			}
			for _, xy := range [][2]*Term{{a, b}, {b, a}} {
				if xy[1].Op == OConst && xy[1] != w.Zero0 {
					for l, v := range f.lits {
						if v && l.Op == OEq && strings.HasPrefix(l.Aux, "ord") {
							o := other(l, xy[0])
							if o != nil && o.Op == OConst && o != xy[1] && o != w.Zero0 {
								return No
							}
						}
					}
				}
			}
			return Unknown
		}
		if b.Op == ONil {
			if IntrinsicNonNil(a) {
				return No
			}
			for l, v := range f.lits {
				if v && l.Op == OTypeIs && l.Args[0] == a {
					return No
				}
				// a == c with c non-nil
				if v && l.Op == OEq && !strings.HasPrefix(l.Aux, "ord") {
					if o := other(l, a); o != nil && o.Op != ONil && (IntrinsicNonNil(o)) {
						return No
					}
				}
			}
		}
	case OTypeIs:
		x := t.Args[0]
		if x.Op == ONil {
			return No
		}
		if x.Op == OMkIface {
			if types.IsInterface(t.Typ) {
				if i, ok := t.Typ.Underlying().(*types.Interface); ok && types.Implements(x.Typ, i) {
					return Yes
				}
				return No
			}
			return tri(types.Identical(x.Typ, t.Typ))
		}
		if v, ok := f.lits[w.EqAtom(x, w.Nil)]; ok && v {
			return No
		}
		for l, v := range f.lits {
			if v && l.Op == OTypeIs && l.Args[0] == x && l != t {
				if !types.IsInterface(l.Typ) {
					if i, ok := t.Typ.Underlying().(*types.Interface); ok {
						return tri(types.Implements(l.Typ, i))
					}
					return No
				}
			}
		}
	}
	return Unknown
}

func other(l, x *Term) *Term {
	if l.Args[0] == x {
		return l.Args[1]
	}
	if l.Args[1] == x {
		return l.Args[0]
	}
	return nil
}

// Assume adds a literal; nil means the conjunction is contradictory.
func (w *World) Assume(f *Facts, t *Term, v bool) *Facts {
	switch w.Eval(f, t) {
	case Yes:
		if v {
			return f
		}
		return nil
	case No:
		if !v {
			return f
		}
		return nil
	}
	for t.Op == ONot {
		t, v = t.Args[0], !v
	}
	if t.Op == OLe && !v {
		t, v = w.Not(t), true
	}
	g := f.clone()
	switch {
	case t.Op == OLe:
		g.diffs[[2]*Term{t.Args[0], t.Args[1]}] = t.Obj.(int64)
		w.splitSum(g, t.Args[0], t.Args[1], t.Obj.(int64))
	case t.Op == OEq && strings.HasPrefix(t.Aux, "ord"):
		g.lits[t] = v
		if v {
			c := t.Obj.(int64)
			setMin(g, t.Args[0], t.Args[1], c)
			setMin(g, t.Args[1], t.Args[0], -c)
		}
	default:
		g.lits[t] = v
	}
	// tighten with disequalities
	for again := true; again; {
		again = false
		for l, lv := range g.lits {
			if lv || l.Op != OEq || !strings.HasPrefix(l.Aux, "ord") {
				continue
			}
			c := l.Obj.(int64)
			x, y := l.Args[0], l.Args[1]
			p, q := w.best(g, x, y), w.best(g, y, x)
			if p == c && q == -c {
				return nil
			}
			if p == c {
				setMin(g, x, y, c-1)
				again = true
			} else if q == -c {
				setMin(g, y, x, -c-1)
				again = true
			}
		}
	}
	if t.Op == OEq && v { // equalities can contradict other literals
		if w.inconsistentEq(g, t) {
			return nil
		}
	}
	return g
}

// splitSum: a sum of non-negative values bounds each of them.
func (w *World) splitSum(g *Facts, x, y *Term, c int64) {
	if x.Op != OLin || y != w.Zero0 {
		return
	}
	o := x.Obj.(linObj)
	co := o.coef
	for i, v := range x.Args {
		lo, _, has, _ := w.bounds(v)
		if co[i] < 1 || !has || lo < 0 {
			return
		}
	}
	rest := c - o.c
	for i, v := range x.Args {
		b := rest / co[i]
		if rest < 0 {
			b = -1
		}
		setMin(g, v, y, b)
	}
}

func setMin(g *Facts, x, y *Term, c int64) {
	k := [2]*Term{x, y}
	if o, ok := g.diffs[k]; !ok || c < o {
		g.diffs[k] = c
	}
}

func (w *World) inconsistentEq(g *Facts, t *Term) bool {
	if strings.HasPrefix(t.Aux, "ord") {
		return false
	}
	a, b := t.Args[0], t.Args[1]
	if b.Op == ONil {
		for l, v := range g.lits {
			if v && l != t && l.Op == OEq && !strings.HasPrefix(l.Aux, "ord") {
				if o := other(l, a); o != nil && IntrinsicNonNil(o) {
					return true
				}
			}
		}
	}
	return false
}

// ---- canonical forms, joins

func (f *Facts) key() string {
	var ks []string
	for l, v := range f.lits {
		ks = append(ks, fmt.Sprintf("%d=%v", l.ID, v))
	}
	for k, c := range f.diffs {
		ks = append(ks, fmt.Sprintf("%d-%d<=%d", k[0].ID, k[1].ID, c))
	}
	sort.Strings(ks)
	return strings.Join(ks, ";")
}

// weakerOrEqual: every fact of f is in g (f is implied by g syntactically).
func (f *Facts) weakerOrEqual(g *Facts) bool {
	for l, v := range f.lits {
		if gv, ok := g.lits[l]; !ok || gv != v {
			return false
		}
	}
	for k, c := range f.diffs {
		gc, ok := g.diffs[k]
		if !ok || gc > c {
			return false
		}
	}
	return true
}

// resolve merges two fact sets exactly if they differ in one complementary
// literal or difference bound only.
func resolve(f, g *Facts) *Facts {
	if len(f.lits) != len(g.lits) {
		return nil
	}
	var dl *Term
	for l, v := range f.lits {
		gv, ok := g.lits[l]
		if !ok {
			return nil
		}
		if gv != v {
			if dl != nil {
				return nil
			}
			dl = l
		}
	}
	ordLit := dl != nil && dl.Op == OEq && strings.HasPrefix(dl.Aux, "ord")
	var onlyF, onlyG [][2]*Term
	for k, c := range f.diffs {
		if gc, ok := g.diffs[k]; !ok || gc != c {
			onlyF = append(onlyF, k)
		}
	}
	for k, c := range g.diffs {
		if fc, ok := f.diffs[k]; !ok || fc != c {
			onlyG = append(onlyG, k)
		}
	}
	if dl != nil {
		if ordLit {
			// an equality brings its two bounds along; a disequality may have tightened one bound
			x, y := dl.Args[0], dl.Args[1]
			for _, ks := range [][][2]*Term{onlyF, onlyG} {
				for _, k := range ks {
					if !(k[0] == x && k[1] == y || k[0] == y && k[1] == x) {
						return nil
					}
				}
			}
			eqSide, neSide := f, g
			if !f.lits[dl] {
				eqSide, neSide = g, f
			}
			_ = eqSide
			h := f.clone()
			delete(h.lits, dl)
			c := dl.Obj.(int64)
			for _, kk := range [][2]*Term{{x, y}, {y, x}} {
				nc, ok := neSide.diffs[kk]
				cc := c
				if kk[0] == y {
					cc = -c
				}
				delete(h.diffs, kk)
				if ok {
					if nc < cc {
						nc = cc // tightened by the disequality: the union reaches cc
						if neSide.diffs[kk] != cc-1 {
							return nil
						}
					}
					h.diffs[kk] = nc
				}
			}
			return h
		}
		if len(onlyF)+len(onlyG) != 0 {
			return nil
		}
		h := f.clone()
		delete(h.lits, dl)
		return h
	}
	// all differing bounds on one pair: merge if the two intervals of x-y touch
	if len(onlyF)+len(onlyG) == 0 {
		return f
	}
	var x, y *Term
	if len(onlyF) > 0 {
		x, y = onlyF[0][0], onlyF[0][1]
	} else {
		x, y = onlyG[0][0], onlyG[0][1]
	}
	for _, ks := range [][][2]*Term{onlyF, onlyG} {
		for _, k := range ks {
			if !(k[0] == x && k[1] == y || k[0] == y && k[1] == x) {
				return nil
			}
		}
	}
	get := func(h *Facts, p, q *Term) int64 {
		if c, ok := h.diffs[[2]*Term{p, q}]; ok {
			return c
		}
		return inf
	}
	fh, fl := get(f, x, y), -get(f, y, x)
	gh, gl := get(g, x, y), -get(g, y, x)
	if maxI(fl, gl) > minI(fh, gh)+1 {
		return nil
	}
	h := f.clone()
	delete(h.diffs, [2]*Term{x, y})
	delete(h.diffs, [2]*Term{y, x})
	if v := maxI(fh, gh); v < inf {
		h.diffs[[2]*Term{x, y}] = v
	}
	if v := minI(fl, gl); v > -inf {
		h.diffs[[2]*Term{y, x}] = -v
	}
	return h
}

func maxI(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}
func minI(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

func intersect(f, g *Facts) *Facts {
	h := newFacts()
	for l, v := range f.lits {
		if gv, ok := g.lits[l]; ok && gv == v {
			h.lits[l] = v
		}
	}
	for k, c := range f.diffs {
		if gc, ok := g.diffs[k]; ok {
			if gc > c {
				c = gc
			}
			h.diffs[k] = c
		}
	}
	return h
}

// ---- formulas over facts

type Formula struct {
	kind byte // 'l','&','|','!'
	lit  *Term
	sub  []Formula
}

func Lit(t *Term) Formula          { return Formula{kind: 'l', lit: t} }
func And(fs ...Formula) Formula    { return Formula{kind: '&', sub: fs} }
func Or(fs ...Formula) Formula     { return Formula{kind: '|', sub: fs} }
func Neg(f Formula) Formula        { return Formula{kind: '!', sub: []Formula{f}} }
func Implies(a, b Formula) Formula { return Or(Neg(a), b) }

func (f Formula) nnf(pos bool) Formula {
	switch f.kind {
	case 'l':
		if pos {
			return f
		}
		return Formula{kind: '!', sub: []Formula{f}}
	case '!':
		return f.sub[0].nnf(!pos)
	}
	k := f.kind
	if !pos {
		if k == '&' {
			k = '|'
		} else {
			k = '&'
		}
	}
	g := Formula{kind: k}
	for _, s := range f.sub {
		g.sub = append(g.sub, s.nnf(pos))
	}
	return g
}

func (w *World) sat(f *Facts, todo []Formula) bool {
	if len(todo) == 0 {
		return true
	}
	h, rest := todo[0], todo[1:]
	switch h.kind {
	case 'l':
		g := w.Assume(f, h.lit, true)
		return g != nil && w.sat(g, rest)
	case '!':
		g := w.Assume(f, h.sub[0].lit, false)
		return g != nil && w.sat(g, rest)
	case '&':
		return w.sat(f, append(append([]Formula{}, h.sub...), rest...))
	case '|':
		for _, s := range h.sub {
			if w.sat(f, append([]Formula{s}, rest...)) {
				return true
			}
		}
		return false
	}
	return true
}

// Entails reports whether the facts imply the formula.
func (w *World) Entails(f *Facts, g Formula) bool {
	return !w.sat(f, []Formula{g.nnf(false)})
}

// Excludes reports whether the facts contradict the formula.
func (w *World) Excludes(f *Facts, g Formula) bool {
	return !w.sat(f, []Formula{g.nnf(true)})
}

// Dump lists the facts, for reports.
func (f *Facts) Dump() []string {
	var out []string
	for l, v := range f.lits {
		if v {
			out = append(out, l.String())
		} else {
			out = append(out, "!("+l.String()+")")
		}
	}
	for k, c := range f.diffs {
		out = append(out, fmt.Sprintf("%s-%s<=%d", k[0], k[1], c))
	}
	sort.Strings(out)
	return out
}

// Lits iterates over the literals.
func (f *Facts) Lits(fn func(t *Term, v bool)) {
	var ts []*Term
	for l := range f.lits {
		ts = append(ts, l)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].ID < ts[j].ID })
	for _, l := range ts {
		fn(l, f.lits[l])
	}
}

// Terms visits the terms the facts speak about, in a fixed order.
func (f *Facts) Terms(fn func(t *Term)) {
	seen := map[*Term]bool{}
	var ts []*Term
	add := func(t *Term) {
		if t != nil && !seen[t] {
			seen[t] = true
			ts = append(ts, t)
		}
	}
	for l := range f.lits {
		add(l)
	}
	for k := range f.diffs {
		add(k[0])
		add(k[1])
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].ID < ts[j].ID })
	for _, t := range ts {
		fn(t)
	}
}
