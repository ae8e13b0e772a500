package main

import (
	"encoding/json"
	"os"
)

// writeRules prints what each check applies, for DESIGN.md.
func writeRules() {
	out := map[string]map[string]any{}
	for id, c := range checks {
		out[id] = map[string]any{"technique": c.Technique, "rule": c.Rule, "note": c.Note, "assumptions": c.Assumptions}
	}
	json.NewEncoder(os.Stdout).Encode(out)
}
