package main

import (
	"encoding/json"
	"fmt"
	"testing"
)

func sizes(n, size int) []int {
	s := make([]int, n)
	for i := range s {
		s[i] = size
	}
	return s
}

// Every diagnostic the linter reports reaches standard output, in order, before
// an error or timing frame and before the process ends.
func TestReplayFlush(t *testing.T) {
	r := seeded()
	var runs []synthetic
	for _, n := range []int{0, 1, 2, 3, 7, 100, 1000, 4095, 4096, 4097, 8193, 20000} {
		runs = append(runs, synthetic{Sizes: sizes(n, 10)})
	}
	for _, n := range []int{1, 2, 5, 50} {
		for _, sz := range []int{0, 3000, 4096, 5000, 70000, 409000, 409600, 420000} {
			runs = append(runs, synthetic{Sizes: sizes(n, sz)})
		}
	}
	for i := 0; i < 25; i++ {
		s := synthetic{Workers: r.Intn(9)}
		for j := r.Intn(300); j > 0; j-- {
			s.Sizes = append(s.Sizes, r.Intn(1<<uint(r.Intn(18))))
		}
		runs = append(runs, s)
	}
	dir := vproject(t, nil)
	payload := vjson(map[string]any{"version": 2, "configs": []any{}})
	for i, s := range runs {
		for _, fail := range []bool{false, true} {
			s.Fail = fail
			for _, timing := range []bool{false, true} {
				if timing && (fail || i%2 == 0) {
					continue
				}
				o := vopts{scenario: "synthetic", dir: dir, env: []string{"VERIF_SYNTHETIC=" + string(vjson(s))}}
				if timing {
					o.args = []string{"-debug", "timings"}
				}
				in := fmt.Sprintf("linter reporting %d diagnostics (from %d goroutines, sizes %v), failing: %v, timings: %v", len(s.Sizes), s.Workers, s.Sizes[:min(8, len(s.Sizes))], fail, timing)
				v := vheadless(t, payload, o)
				if len(v.rest) > 0 {
					t.Fatalf("%s: the output is not a sequence of frames: %v", in, v)
				}
				if n := v.count(headlessMessageTypeDiagnostic); n != len(s.Sizes) {
					t.Fatalf("%s: %d diagnostic frames: %v", in, n, v)
				}
				if s.Workers == 0 {
					for j := range s.Sizes {
						var d struct {
							Range   struct{ Pos int }
							Message struct{ Description string }
						}
						if v.frames[j].Type != byte(headlessMessageTypeDiagnostic) || json.Unmarshal(v.frames[j].Body, &d) != nil || d.Range.Pos != j || len(d.Message.Description) != s.Sizes[j] {
							t.Fatalf("%s: frame %d is %d %.150s", in, j, v.frames[j].Type, v.frames[j].Body)
						}
					}
				}
				want := []byte{}
				if fail {
					want = append(want, byte(headlessMessageTypeError))
				}
				if timing {
					want = append(want, byte(headlessMessageTypeTiming))
				}
				for j := len(s.Sizes); j < len(v.frames); j++ {
					if j-len(s.Sizes) >= len(want) || v.frames[j].Type != want[j-len(s.Sizes)] {
						t.Fatalf("%s: unexpected frame after the diagnostics: %v", in, v)
					}
				}
				if len(v.frames) != len(s.Sizes)+len(want) {
					t.Fatalf("%s: %d frames, want %d: %v", in, len(v.frames), len(s.Sizes)+len(want), v)
				}
			}
		}
	}
}
