package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"testing"
)

// Each diagnostic a rule reports arrives with exactly its content.
func TestReplayWire(t *testing.T) {
	r := seeded()
	dir := vproject(t, nil)
	payload := vjson(map[string]any{"version": 2, "configs": []any{}})
	for i := 0; i < 120; i++ {
		seed := r.Int63()
		var args []string
		fix, sug := i&1 != 0, i&2 != 0
		if fix {
			args = append(args, "-fix")
		}
		if sug {
			args = append(args, "-fix-suggestions")
		}
		v := vheadless(t, payload, vopts{scenario: "wire", dir: dir, args: args, env: []string{fmt.Sprintf("VERIF_WIRE=%d", seed)}})
		want := wireItems(seed)
		if len(v.rest) > 0 || len(v.frames) != len(want) {
			t.Fatalf("%d diagnostics reported: %v", len(want), v)
		}
		for k, it := range want {
			if it.rule == nil {
				continue
			}
			var got map[string]any
			json.Unmarshal(v.frames[k].Body, &got)
			if w := wireWant(it, fix, sug); !reflect.DeepEqual(got, w) {
				t.Fatalf("diagnostic %d (fixes wanted %v, suggestions wanted %v):\nreported %+v\nfixes %+v\nsuggestions %+v\narrives as %s\nexpected %s", k, fix, sug, *it.rule, it.rule.Fixes(), it.rule.GetSuggestions(), v.frames[k].Body, vjson(w))
			}
		}
	}
}
