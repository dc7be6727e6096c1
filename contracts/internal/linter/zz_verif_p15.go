//gover:file P15
//gover:requires NewRuleTimingStore
package linter

import (
	"sync"

	"github.com/typescript-eslint/tsgolint/internal/vs"
)

var (
	ghostStore *RuleTimingStore
	ghostWas   vs.MapVal[string, RuleTimingStat]
	ghostAdd   vs.MapVal[string, RuleTimingStat]
	ghostEnd   vs.MapVal[string, RuleTimingStat]
	ghostSorts int
	ghostHeld  bool
	ghostLocks int
)

// Other workers change the store whenever its lock is free: what it holds is arbitrary when the lock is
// taken (ghostWas), and what the holder leaves behind (ghostEnd) is arbitrary again once it is released.
//
//gover:stub (*sync.Mutex).Lock for=verify_Merge,verify_Collect
func stub_Lock(m *sync.Mutex) {
	vs.Assert("P15: the lock is not taken twice", !ghostHeld)
	ghostHeld = true
	ghostLocks++
	ghostStore.timings = vs.Any[map[string]RuleTimingStat]("timings")
	vs.Assume(ghostStore.timings != nil && !vs.Eq(ghostStore.timings, ghostLocal))
	ghostWas = vs.SnapMap(ghostStore.timings)
}

//gover:stub (*sync.Mutex).Unlock for=verify_Merge,verify_Collect
func stub_Unlock(m *sync.Mutex) {
	vs.Assert("P15: only a lock that is held is released", ghostHeld)
	ghostHeld = false
	ghostEnd = vs.SnapMap(ghostStore.timings)
	ghostStore.timings = vs.Any[map[string]RuleTimingStat]("released")
	vs.Assume(ghostStore.timings != nil && !vs.Eq(ghostStore.timings, ghostLocal))
}

var ghostLocal map[string]RuleTimingStat

func specAt(m vs.MapVal[string, RuleTimingStat], k string) RuleTimingStat {
	return vs.Ite(m.Has(k), m.At(k), RuleTimingStat{})
}

// rules the iteration has been at hold the sum, all others what they held before
//
//gover:inv * for=verify_Merge
func inv_merge() bool {
	return vs.Forall(func(k string) bool {
		v, ok := ghostStore.timings[k]
		a, w := specAt(ghostAdd, k), specAt(ghostWas, k)
		return vs.Imp(vs.Visited(k), ok && v.Duration == w.Duration+a.Duration && v.Calls == w.Calls+a.Calls) &&
			vs.Imp(!vs.Visited(k), vs.Iff(ok, ghostWas.Has(k)) && v == w)
	})
}

// merge adds one worker's measurements to the store, rule by rule.
//
//gover:prove P15
func verify_Merge(s *RuleTimingStore, local map[string]RuleTimingStat) {
	vs.Assume(s != nil && s.timings != nil && !vs.Eq(s.timings, local) && !ghostHeld && ghostLocks == 0)
	ghostStore, ghostLocal, ghostAdd = s, local, vs.SnapMap(local)
	s.merge(local)
	vs.Assert("P15: the lock is released", !ghostHeld)
	vs.Assert("P15: the store is taken once, unless there is nothing to add", ghostLocks == 1 || ghostLocks == 0 && len(local) == 0)
	vs.Assert("P15: the sum of both is stored for every rule", vs.Imp(ghostLocks == 1, vs.Forall(func(k string) bool {
		v, a, w := specAt(ghostEnd, k), specAt(ghostAdd, k), specAt(ghostWas, k)
		return v.Duration == w.Duration+a.Duration && v.Calls == w.Calls+a.Calls
	})))
	vs.Assert("P15: exactly the rules of both are stored", vs.Imp(ghostLocks == 1, vs.Forall(func(k string) bool {
		return vs.Iff(ghostEnd.Has(k), ghostWas.Has(k) || ghostAdd.Has(k))
	})))
	vs.Assert("P15: the measurements added are left alone", vs.Forall(func(k string) bool {
		v, ok := local[k]
		return vs.Iff(ok, ghostAdd.Has(k)) && vs.Imp(ok, v == ghostAdd.At(k))
	}))
}

// A new store holds nothing.
//
//gover:prove P15
func verify_NewStore() {
	s := NewRuleTimingStore()
	vs.Assert("P15: a new store is empty", s != nil && s.timings != nil && vs.Forall(func(k string) bool {
		_, ok := s.timings[k]
		return !ok
	}))
}

var ghostRecords []RuleTimingRecord

// sorting rearranges; the order asked for has to be by duration, longest first, and by name
//
//gover:stub sort.Slice for=verify_Collect
func stub_sort(x any, less func(i, j int) bool) {
	ghostSorts++
	r, ok := x.([]RuleTimingRecord)
	vs.Assert("P15: the records are sorted", ok)
	i, j := vs.Any[int]("i"), vs.Any[int]("j")
	vs.Assume(0 <= i && i < len(r) && 0 <= j && j < len(r))
	vs.Assert("P15: longest first, then by name", less(i, j) == (r[i].Duration > r[j].Duration || r[i].Duration == r[j].Duration && r[i].RuleName < r[j].RuleName))
}

//gover:inv * for=verify_Collect
func inv_collect(records []RuleTimingRecord) bool {
	return vs.Forall(func(i int) bool {
		return vs.Imp(0 <= i && i < len(records), vs.Visited(records[i].RuleName) && specRecord(records[i]))
	})
}

//gover:inv * for=verify_Collect
func inv_distinct(records []RuleTimingRecord) bool {
	return vs.Forall2(func(i, j int) bool {
		return vs.Imp(0 <= i && i < j && j < len(records), records[i].RuleName != records[j].RuleName)
	})
}

//gover:inv * for=verify_Collect
func inv_all(records []RuleTimingRecord) bool {
	return vs.Forall(func(k string) bool {
		return vs.Imp(vs.Visited(k), vs.Exists(func(i int) bool { return 0 <= i && i < len(records) && records[i].RuleName == k }))
	})
}

func specRecord(r RuleTimingRecord) bool {
	return ghostWas.Has(r.RuleName) && r.Duration == ghostWas.At(r.RuleName).Duration && r.Calls == ghostWas.At(r.RuleName).Calls
}

// Collect lists every rule of the store once.
//
//gover:prove P15
func verify_Collect(s *RuleTimingStore) {
	vs.Assume(s != nil && ghostSorts == 0 && !ghostHeld && ghostLocks == 0)
	ghostStore = s
	r := s.Collect()
	vs.Assert("P15: the lock is released", !ghostHeld && ghostLocks == 1)
	vs.Assert("P15: sorted once", ghostSorts == 1)
	vs.Assert("P15: every record is of a rule in the store, with its values", vs.Forall(func(i int) bool {
		return vs.Imp(0 <= i && i < len(r), specRecord(r[i]))
	}))
	vs.Assert("P15: no rule is listed twice", vs.Forall2(func(i, j int) bool {
		return vs.Imp(0 <= i && i < j && j < len(r), r[i].RuleName != r[j].RuleName)
	}))
	vs.Assert("P15: every rule is listed", vs.Forall(func(k string) bool {
		return vs.Imp(ghostWas.Has(k), vs.Exists(func(i int) bool { return 0 <= i && i < len(r) && r[i].RuleName == k }))
	}))
}
