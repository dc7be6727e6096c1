package utils

import (
	"errors"
	"fmt"
	"slices"
	"testing"
)

func check25(t *testing.T, what string, in []int, got, want any) {
	t.Helper()
	if fmt.Sprint(got) != fmt.Sprint(want) {
		t.Fatalf("%s on %v: got %v, expected %v", what, in, got, want)
	}
}

// Every list over {0,1,2,3} of length at most 5, predicates by bit mask.
func TestReplayHelpers(t *testing.T) {
	var lists [][]int
	cur := [][]int{{}}
	for n := 0; n < 5; n++ {
		lists = append(lists, cur...)
		var next [][]int
		for _, l := range cur {
			for v := 0; v < 4; v++ {
				next = append(next, append(slices.Clone(l), v))
			}
		}
		cur = next
	}
	lists = append(lists, cur...)
	for li, l := range lists {
		in := slices.Clone(l)
		for mask := 0; mask < 16; mask++ {
			f := func(x int) bool { return mask>>x&1 == 1 }
			fi := func(x, i int, s []int) bool { return mask>>((x+i)%4)&1 == 1 && &s[0] == &in[0] && len(s) == len(in) }
			want, wantI := []int{}, []int{}
			some, every := false, true
			for i, x := range l {
				if f(x) {
					want = append(want, x)
					some = true
				} else {
					every = false
				}
				if mask>>((x+i)%4)&1 == 1 {
					wantI = append(wantI, x)
				}
			}
			check25(t, fmt.Sprintf("Filter (%04b)", mask), l, Filter(in, f), want)
			check25(t, "the argument after Filter", l, in, l)
			check25(t, fmt.Sprintf("FilterIndex (%04b)", mask), l, FilterIndex(in, fi), wantI)
			check25(t, "the argument after FilterIndex", l, in, l)
			check25(t, fmt.Sprintf("Some (%04b)", mask), l, Some(in, f), some)
			check25(t, fmt.Sprintf("Every (%04b)", mask), l, Every(in, f), every)
			bad := errors.New("bad")
			at := -1
			r, err := TryMap(in, func(x int) (string, error) {
				if !f(x) {
					return fmt.Sprint("e", x), fmt.Errorf("%w %d", bad, x)
				}
				return fmt.Sprint("v", x), nil
			})
			for i, x := range l {
				if !f(x) {
					at = i
					break
				}
			}
			if at < 0 {
				w := []string{}
				for _, x := range l {
					w = append(w, fmt.Sprint("v", x))
				}
				check25(t, "TryMap", l, r, w)
				check25(t, "TryMap's error", l, err, nil)
			} else {
				check25(t, "TryMap's result on failure", l, r, []string{})
				check25(t, "TryMap's error", l, err, fmt.Sprintf("bad %d", l[at]))
			}
		}
		w := []string{}
		for _, x := range l {
			w = append(w, fmt.Sprint("v", x))
		}
		check25(t, "Map", l, Map(in, func(x int) string { return fmt.Sprint("v", x) }), w)
		// lists of lists
		parts := [][]int{}
		rest := in
		for k := li; len(rest) > 0; k = k/3 + 1 {
			n := min(len(rest), k%3)
			parts = append(parts, rest[:n:n])
			rest = rest[n:]
		}
		check25(t, fmt.Sprint("Flatten of ", parts), l, Flatten(parts), l)
		check25(t, "the argument after the helpers", l, in, l)
		// sets: l as a history of additions and removals
		for _, s := range []*Set[int]{{}, NewSetWithSizeHint[int](3)} {
			m := map[int]bool{}
			other := NewSetFromItems(7, 8)
			for i, x := range l {
				if i%3 == 2 {
					s.Delete(x)
					delete(m, x)
				} else {
					s.Add(x)
					m[x] = true
				}
				for v := 0; v < 4; v++ {
					check25(t, fmt.Sprintf("Has(%d) after step %d", v, i), l, s.Has(v), m[v])
					_, ok := s.Keys()[v]
					check25(t, fmt.Sprintf("Keys()[%d] after step %d", v, i), l, ok, m[v])
				}
				check25(t, "Len", l, s.Len(), len(m))
			}
			check25(t, "another set", l, other.Len(), 2)
			s.Clear()
			check25(t, "Len after Clear", l, s.Len(), 0)
		}
		s := NewSetFromItems(in...)
		for v := 0; v < 4; v++ {
			check25(t, fmt.Sprintf("NewSetFromItems(...).Has(%d)", v), l, s.Has(v), slices.Contains(l, v))
		}
	}
}
