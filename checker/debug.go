package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	"verif/checker/flow"

	"golang.org/x/tools/go/ssa"
)

// debugDump analyses one function and prints its exits.
func debugDump(P *flow.Program, args []string) {
	pkg, recv, name := args[0], args[1], args[2]
	if recv == "-" {
		recv = ""
	}
	fn := P.Func(pkg, recv, name)
	if fn == nil {
		fmt.Println("no such function")
		for k := range P.SSA {
			fmt.Println(k, P.SSA[k] != nil)
		}
		fmt.Println(P.Module)
		os.Exit(2)
	}
	an := flow.NewAnalyzer(P)
	opq := map[string]bool{}
	ev := false
	crash := false
	for _, a := range args[3:] {
		if a == "-ev" {
			ev = true
		} else if a == "-crash" {
			crash = true
		} else {
			opq[a] = true
		}
	}
	an.Opaque = func(f *ssa.Function) bool { return opq[f.Name()] }
	if ev {
		an.Record = func(e *flow.Event) bool { return true }
	}
	if crash {
		an.OnOblig = func(o flow.Oblig) {
			if !o.OK {
				fmt.Println("UNPROVED", o.Kind, P.Pos(flow.InstrPos(o.Instr)), o.Term)
			}
		}
	}
	t := time.Now()
	ex := an.Run(fn, an.ParamTerms(fn), nil)
	for i, e := range ex {
		var rs []string
		for _, r := range e.Results {
			rs = append(rs, r.String())
		}
		fmt.Printf("--- exit %d %s %s results [%s]\n", i, e.Kind, P.Pos(flow.InstrPos(e.Instr)), strings.Join(rs, " , "))
		for _, l := range e.St.F.Dump() {
			fmt.Println("     ", l)
		}
		for _, v := range e.St.Events() {
			fmt.Println("   ev", v, v.Old, v.May)
		}
		for _, v := range e.St.DumpMem() {
			fmt.Println("   mem", v)
		}
	}
	var fs []string
	for f := range an.Visited {
		fs = append(fs, f.Name())
	}
	sort.Strings(fs)
	fmt.Println(len(ex), "exits; steps", an.Steps, "joined", an.Joined, "err", an.Err, time.Since(t), fs)
}
