package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
)

var notApplicable = map[string]string{
	"C32": "round-trip equality of encoders and decoders quantifies over values computed at run time inside encoding/asn1; no structural clause of it is both necessary and independent of how the codec is written",
	"C33": "liveness over rounds, timing and the network's behaviour; no static argument bounds when an external repository stops changing, and the safety clauses that stand for it are claimed as C13, C16, C17, C22 and C30",
}

// writeManifest writes MANIFEST.json from the registered checks.
func writeManifest(dir string) {
	type chk struct {
		Property  string `json:"property"`
		Quick     string `json:"quick_cmd"`
		Thorough  string `json:"thorough_cmd"`
		Evidence  string `json:"evidence_file"`
		Technique string `json:"technique"`
		Level     string `json:"level"`
		Note      string `json:"level_note"`
	}
	var ids []string
	for id := range checks {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	var cs []chk
	for _, id := range ids {
		c := checks[id]
		cs = append(cs, chk{id, "./check.sh " + id, "VERIF_TIER=thorough ./check.sh " + id, "evidence/" + id + ".json", c.Technique, "other", c.Note})
	}
	na := []map[string]string{}
	for i := 1; i <= 33; i++ {
		id := fmt.Sprintf("C%02d", i)
		if checks[id] == nil {
			r := notApplicable[id]
			if r == "" {
				r = "not claimed yet: its check is still being built"
			}
			na = append(na, map[string]string{"property": id, "reason": r})
		}
	}
	m := map[string]any{
		"version":        1,
		"setup_cmd":      "./build.sh",
		"checks":         cs,
		"not_applicable": na,
		"notes":          "Every check loads /repo's working tree (type-checked, SSA form), analyses it without running it, and reports violated obligations. See DESIGN.md.",
	}
	b, _ := json.MarshalIndent(m, "", " ")
	if err := os.WriteFile(filepath.Join(dir, "MANIFEST.json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
}
