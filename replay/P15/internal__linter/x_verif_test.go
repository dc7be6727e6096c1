package linter

import (
	"fmt"
	"math/rand"
	"reflect"
	"runtime"
	"sync"
	"testing"
	"time"
)

func refAdd(m map[string]RuleTimingStat, l map[string]RuleTimingStat) {
	for k, v := range l {
		w := m[k]
		m[k] = RuleTimingStat{Duration: w.Duration + v.Duration, Calls: w.Calls + v.Calls}
	}
}

func refCheck(t *testing.T, what string, s *RuleTimingStore, want map[string]RuleTimingStat) {
	r := s.Collect()
	got := map[string]RuleTimingStat{}
	for i, x := range r {
		if _, dup := got[x.RuleName]; dup {
			t.Fatalf("%s: rule %q is listed twice", what, x.RuleName)
		}
		got[x.RuleName] = RuleTimingStat{Duration: x.Duration, Calls: x.Calls}
		if i > 0 && !(r[i-1].Duration > x.Duration || r[i-1].Duration == x.Duration && r[i-1].RuleName < x.RuleName) {
			t.Fatalf("%s: %+v is listed before %+v", what, r[i-1], x)
		}
	}
	if !reflect.DeepEqual(got, want) {
		t.Fatalf("%s: listed %v, expected %v", what, got, want)
	}
}

// What several workers measured is added up rule by rule and listed completely, longest first.
func TestReplayTimings(t *testing.T) {
	rnd := rand.New(rand.NewSource(1))
	some := func() map[string]RuleTimingStat {
		m := map[string]RuleTimingStat{}
		for i := rnd.Intn(6); i > 0; i-- {
			m[fmt.Sprint("r", rnd.Intn(8))] = RuleTimingStat{Duration: time.Duration(rnd.Intn(3)), Calls: uint64(rnd.Intn(3))}
		}
		return m
	}
	for i := 0; i < 2000; i++ {
		s, want := NewRuleTimingStore(), map[string]RuleTimingStat{}
		refCheck(t, "new", s, want)
		for j := rnd.Intn(5); j > 0; j-- {
			l := some()
			was := map[string]RuleTimingStat{}
			refAdd(was, l)
			refAdd(want, l)
			s.merge(l)
			if !reflect.DeepEqual(l, was) {
				t.Fatalf("merging changed what was merged: %v, was %v", l, was)
			}
			refCheck(t, "merged", s, want)
		}
	}
	// several workers at the same time
	for round := 0; round < 60; round++ {
		s, want := NewRuleTimingStore(), map[string]RuleTimingStat{}
		var wg sync.WaitGroup
		for w := 0; w < 8; w++ {
			l := map[string]RuleTimingStat{}
			for i := 0; i < 200; i++ {
				l[fmt.Sprint("r", i)] = RuleTimingStat{Duration: time.Duration(1 + i), Calls: 1}
			}
			for k := 0; k < 5; k++ {
				refAdd(want, l)
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < 5; k++ {
					s.merge(l)
					runtime.Gosched()
				}
			}()
		}
		wg.Wait()
		refCheck(t, "concurrent", s, want)
	}
}
