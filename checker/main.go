// Command checker decides the properties of /verif/properties.jsonl by static
// analysis of the repository's type-checked source in SSA form.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"

	"verif/checker/flow"
)

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: checker check ID | list | dump PKG RECV FUNC")
		os.Exit(2)
	}
	exe, _ := os.Executable()
	dir := filepath.Dir(filepath.Dir(exe))
	switch os.Args[1] {
	case "check":
		rc := 0
		for _, id := range os.Args[2:] {
			if r := runCheck(id, dir); r > rc {
				rc = r
			}
		}
		os.Exit(rc)
	case "list":
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
		}
	case "rules":
		writeRules()
	case "manifest":
		writeManifest(dir)
	case "dump":
		P, err := flow.Load(repoDir())
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		debugDump(P, os.Args[2:])
	}
}
