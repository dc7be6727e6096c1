package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"testing"
)

// Each diagnostic the linter itself reports arrives with exactly its content.
func TestReplayInternalWire(t *testing.T) {
	r := seeded()
	dir := vproject(t, nil)
	payload := vjson(map[string]any{"version": 2, "configs": []any{}})
	for i := 0; i < 120; i++ {
		seed := r.Int63()
		var args []string
		fix, sug := i&1 != 0, i&2 != 0
		if fix {
			args = append(args, "-fix")
		}
		if sug {
			args = append(args, "-fix-suggestions")
		}
		v := vheadless(t, payload, vopts{scenario: "wire", dir: dir, args: args, env: []string{fmt.Sprintf("VERIF_WIRE=%d", seed)}})
		want := wireItems(seed)
		if len(v.rest) > 0 || len(v.frames) != len(want) {
			t.Fatalf("%d diagnostics reported: %v", len(want), v)
		}
		for k, it := range want {
			if it.internal == nil {
				continue
			}
			var got map[string]any
			json.Unmarshal(v.frames[k].Body, &got)
			if w := wireWant(it, fix, sug); !reflect.DeepEqual(got, w) {
				t.Fatalf("diagnostic %d (fixes wanted %v, suggestions wanted %v):\nreported %+v\narrives as %s\nexpected %s", k, fix, sug, *it.internal, v.frames[k].Body, vjson(w))
			}
		}
	}
}
