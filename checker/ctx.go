package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif/checker/flow"

	"golang.org/x/tools/go/ssa"
)

// Check decides one property.
type Check struct {
	ID          string
	Technique   string
	Rule        string // the rule applied, in one paragraph
	Note        string // assurance and trust
	Assumptions []string
	Run         func(c *Ctx)
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

type violation struct {
	Key  string // rule|construct, independent of line numbers
	Pos  string
	Text string
}

// Ctx collects what one run of a check established.
type Ctx struct {
	P    *flow.Program
	ID   string
	Tier string

	viol    map[string]*violation
	rules   map[string]*ruleStat
	funcs   map[string]bool
	samples []string
	blocks  int
	steps   int
	joined  int
	sites   int
}

type ruleStat struct {
	Obligations int      `json:"obligations"`
	Discharged  int      `json:"discharged"`
	Min         int      `json:"minimum_expected"`
	Constructs  []string `json:"constructs"`
	seen        map[string]bool
}

func (c *Ctx) rule(r string) *ruleStat {
	s := c.rules[r]
	if s == nil {
		s = &ruleStat{seen: map[string]bool{}}
		c.rules[r] = s
	}
	return s
}

// OK records a discharged obligation; the construct names what was decided.
func (c *Ctx) OK(rule, construct string) {
	s := c.rule(rule)
	if s.seen[construct] {
		return
	}
	s.seen[construct] = true
	s.Obligations++
	s.Discharged++
	s.Constructs = append(s.Constructs, construct)
}

// Fail records a violated obligation.
func (c *Ctx) Fail(rule, construct, pos, format string, args ...any) {
	s := c.rule(rule)
	k := rule + "|" + construct
	if c.viol[k] != nil {
		return
	}
	if !s.seen[construct] {
		s.seen[construct] = true
		s.Obligations++
	} else {
		s.Discharged--
	}
	c.viol[k] = &violation{Key: k, Pos: pos, Text: fmt.Sprintf(format, args...)}
}

// Expect records either outcome.
func (c *Ctx) Expect(ok bool, rule, construct, pos, format string, args ...any) bool {
	if ok {
		if c.viol[rule+"|"+construct] == nil {
			c.OK(rule, construct)
		}
		return true
	}
	c.Fail(rule, construct, pos, format, args...)
	return false
}

// AtLeast makes a rule that matched too few constructs a violation: it would be vacuous.
func (c *Ctx) AtLeast(rule string, n int) {
	s := c.rule(rule)
	s.Min = n
	if s.Obligations < n {
		c.Fail(rule, "instances", "", "the rule matched %d constructs, at least %d are expected: the anchored code is gone or no longer recognised", s.Obligations, n)
	}
}

// Func resolves an anchor or reports it.
func (c *Ctx) Func(pkg, recv, name string) *ssa.Function {
	fn := c.P.Func(pkg, recv, name)
	if fn == nil || len(fn.Blocks) == 0 {
		c.Fail("anchor", pkg+"."+recv+"."+name, "", "the exported entry point %s %s.%s does not exist any more", pkg, recv, name)
		return nil
	}
	c.funcs[flow.FuncName(fn)] = true
	return fn
}

func (c *Ctx) Pos(in ssa.Instruction) string { return c.P.Pos(flow.InstrPos(in)) }
func (c *Ctx) PosOf(p token.Pos) string      { return c.P.Pos(p) }

// NewAnalyzer prepares a flow analysis; Done accounts for it.
func (c *Ctx) NewAnalyzer() *flow.Analyzer { return flow.NewAnalyzer(c.P) }

func (c *Ctx) Done(an *flow.Analyzer, root *ssa.Function) bool {
	for f := range an.Visited {
		c.funcs[flow.FuncName(f)] = true
	}
	c.blocks += len(an.Blocks)
	c.steps += an.Steps
	c.joined += an.Joined
	if an.Err != nil {
		c.Fail("analysis", flow.FuncName(root), c.PosOf(root.Pos()), "undecided: %v", an.Err)
		return false
	}
	return true
}

// Explore analyses fn with symbolic parameters.
func (c *Ctx) Explore(an *flow.Analyzer, fn *ssa.Function) []flow.Exit {
	ex := an.Run(fn, an.ParamTerms(fn), nil)
	c.Done(an, fn)
	return ex
}

func (c *Ctx) Sample(format string, args ...any) {
	if len(c.samples) < 12 {
		c.samples = append(c.samples, fmt.Sprintf(format, args...))
	}
}

// path renders the facts of a state, for reports.
func facts(st *flow.State) string {
	d := st.F.Dump()
	if len(d) > 14 {
		d = append(d[:14], "…")
	}
	return strings.Join(d, "; ")
}

// ---- known findings

type finding struct{ prop, key, text string }

func knownFindings(dir string) []finding {
	f, err := os.Open(filepath.Join(dir, "known-findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []finding
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		// finding: property=<id> key=<key> :: <text>
		l = strings.TrimSpace(strings.TrimPrefix(l, "finding:"))
		i := strings.Index(l, " ")
		j := strings.Index(l, " :: ")
		if i < 0 || j < 0 || !strings.HasPrefix(l, "property=") {
			continue
		}
		out = append(out, finding{prop: l[len("property="):i], key: strings.TrimPrefix(strings.TrimSpace(l[i:j]), "key="), text: l[j+4:]})
	}
	return out
}

// ---- running

func runCheck(id, verifDir string) int {
	start := time.Now()
	ch := checks[id]
	if ch == nil {
		fmt.Println("unknown property", id)
		return 2
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	} else {
		flow.Deep = 2
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	c := &Ctx{ID: id, Tier: tier, viol: map[string]*violation{}, rules: map[string]*ruleStat{}, funcs: map[string]bool{}}
	P, err := flow.Load(repoDir())
	if err != nil {
		c.Fail("load", "repository", "", "the repository does not load and type-check: %v", err)
	} else {
		c.P = P
		func() {
			defer func() {
				if r := recover(); r != nil {
					c.Fail("analysis", "internal", "", "the analysis failed: %v\n%s", r, debug.Stack())
				}
			}()
			ch.Run(c)
		}()
	}
	known := knownFindings(verifDir)
	var keys []string
	for k := range c.viol {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	evdir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(evdir, 0o755)
	bad := 0
	var report strings.Builder
	for _, k := range keys {
		v := c.viol[k]
		listed := false
		for _, f := range known {
			if f.prop == id && f.key == k {
				fmt.Printf("KNOWN-FINDING: property=%s %s [%s %s]\n", id, f.text, v.Pos, k)
				listed = true
			}
		}
		if listed {
			continue
		}
		bad++
		fmt.Fprintf(&report, "%s: %s\n    rule and construct: %s\n", v.Pos, v.Text, k)
	}
	obl, dis := 0, 0
	for _, r := range c.rules {
		sort.Strings(r.Constructs)
		obl += r.Obligations
		dis += r.Discharged
	}
	var fns []string
	for f := range c.funcs {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	var samples []string
	for name, r := range c.rules {
		for i, k := range r.Constructs {
			if i < 2 && len(samples) < 20 {
				samples = append(samples, name+": "+k)
			}
		}
	}
	sort.Strings(samples)
	samples = append(samples, c.samples...)
	fl := fns
	if len(fl) > 60 {
		fl = fl[:60]
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "other",
		"coverage": map[string]any{
			"explanation":          ch.Rule,
			"technique":            ch.Technique,
			"rules":                c.rules,
			"obligations":          obl,
			"discharged":           dis,
			"functions_analysed":   len(fns),
			"functions":            fl,
			"basic_blocks":         c.blocks,
			"block_states":         c.steps,
			"joins_with_loss":      c.joined,
			"call_sites":           c.sites,
			"samples":              samples,
			"repository_functions": repoFuncs(c.P),
		},
		"assumptions": append([]string{
			"the Go type checker and SSA builder represent the program faithfully; no unsafe or cgo in the analysed packages",
			"integer arithmetic on lengths, offsets and counters does not overflow 64 bits",
			"code outside the repository behaves as documented",
		}, ch.Assumptions...),
		"wall_s":     time.Since(start).Seconds(),
		"violations": bad,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evdir, id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
		return 2
	}
	fmt.Printf("%s: %d rules, %d obligations, %d discharged, %d functions, %d basic blocks, %d block states, %.1fs\n", id, len(c.rules), obl, dis, len(fns), c.blocks, c.steps, time.Since(start).Seconds())
	rp := filepath.Join(evdir, id+".report.txt")
	if bad > 0 {
		os.WriteFile(rp, []byte(report.String()), 0o644)
		fmt.Print(report.String())
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
		return 1
	}
	os.Remove(rp)
	return 0
}

func repoFuncs(P *flow.Program) int {
	if P == nil {
		return 0
	}
	return len(P.Funcs)
}
