//gover:file P25
package utils

import "github.com/typescript-eslint/tsgolint/internal/vs"

// filt is the subsequence of s[:n] whose elements satisfy f, in order.
//
//gover:logic
func filt(s vs.Seq[int], f func(int) bool, n int) vs.Seq[int] {
	if n <= 0 {
		return vs.EmptySeq[int]()
	}
	if f(s.At(n - 1)) {
		return filt(s, f, n-1).Push(s.At(n - 1))
	}
	return filt(s, f, n-1)
}

//gover:logic
func filtIdx(s vs.Seq[int], f func(int, int, []int) bool, sl []int, n int) vs.Seq[int] {
	if n <= 0 {
		return vs.EmptySeq[int]()
	}
	if f(s.At(n-1), n-1, sl) {
		return filtIdx(s, f, sl, n-1).Push(s.At(n - 1))
	}
	return filtIdx(s, f, sl, n-1)
}

func sameSeq(r []int, q vs.Seq[int]) bool {
	return len(r) == q.Len() && vs.Forall(func(j int) bool { return vs.Imp(0 <= j && j < len(r), vs.Snap(r).At(j) == q.At(j)) })
}

//gover:inv * for=verify_Filter
func inv_Filter(slice []int, f func(int) bool, rangeindex int) bool {
	return sameSeq(slice[:rangeindex+1], filt(vs.At(0, func() vs.Seq[int] { return vs.Snap(slice) }), f, rangeindex+1))
}

//gover:inv * for=verify_Filter
func inv_Filter2(slice []int, result []int, f func(int) bool, i int) bool {
	return sameSeq(result, filt(vs.At(0, func() vs.Seq[int] { return vs.Snap(slice) }), f, i))
}

//gover:inv * for=verify_FilterIndex
func inv_FilterI(slice []int, f func(int, int, []int) bool, rangeindex int) bool {
	return sameSeq(slice[:rangeindex+1], filtIdx(vs.At(0, func() vs.Seq[int] { return vs.Snap(slice) }), f, slice, rangeindex+1))
}

//gover:inv * for=verify_FilterIndex
func inv_FilterI2(slice []int, result []int, f func(int, int, []int) bool, i int) bool {
	return sameSeq(result, filtIdx(vs.At(0, func() vs.Seq[int] { return vs.Snap(slice) }), f, slice, i))
}

//gover:prove P25 nopanic purefuncs
func verify_Filter(s []int, f func(int) bool) {
	vs.Assume(f != nil)
	s0 := vs.Snap(s)
	m := vs.Mark()
	r := Filter(s, f)
	vs.Assert("Filter: exactly the matching elements, in order", sameSeq(r, filt(s0, f, s0.Len())))
	vs.Assert("Filter: the input is left alone", vs.OnlyModified(m))
}

//gover:prove P25 nopanic purefuncs
func verify_FilterIndex(s []int, f func(int, int, []int) bool) {
	vs.Assume(f != nil)
	s0 := vs.Snap(s)
	m := vs.Mark()
	r := FilterIndex(s, f)
	vs.Assert("FilterIndex: exactly the matching elements, in order", sameSeq(r, filtIdx(s0, f, s, s0.Len())))
	vs.Assert("FilterIndex: the input is left alone", vs.OnlyModified(m))
}

//gover:prove P25 nopanic purefuncs
func verify_Map(s []int, f func(int) string) {
	vs.Assume(f != nil)
	s0 := vs.Snap(s)
	m := vs.Mark()
	r := Map(s, f)
	vs.Assert("Map: as many elements", len(r) == s0.Len())
	vs.Assert("Map: each mapped, in order", vs.Forall(func(j int) bool { return vs.Imp(0 <= j && j < len(r), vs.Snap(r).At(j) == f(s0.At(j))) }))
	vs.Assert("Map: the input is left alone", vs.OnlyModified(m))
}

//gover:prove P25 nopanic purefuncs
func verify_Every(s []int, f func(int) bool) {
	vs.Assume(f != nil)
	s0 := vs.Snap(s)
	m := vs.Mark()
	r := Every(s, f)
	vs.Assert("Every: true exactly if all satisfy", r == vs.Forall(func(j int) bool { return vs.Imp(0 <= j && j < s0.Len(), f(s0.At(j))) }))
	vs.Assert("Every: the input is left alone", vs.OnlyModified(m))
}

//gover:prove P25 nopanic purefuncs
func verify_Some(s []int, f func(int) bool) {
	vs.Assume(f != nil)
	s0 := vs.Snap(s)
	m := vs.Mark()
	q := Some(s, f)
	vs.Assert("Some: true exactly if one satisfies", q == vs.Exists(func(j int) bool { return 0 <= j && j < s0.Len() && f(s0.At(j)) }))
	vs.Assert("Some: the input is left alone", vs.OnlyModified(m))
}

//gover:prove P25 nopanic purefuncs
func verify_TryMap(s []int, f func(int) (string, error)) {
	vs.Assume(f != nil)
	s0 := vs.Snap(s)
	m := vs.Mark()
	r, err := TryMap(s, f)
	vs.Assert("TryMap: an error exactly if some element fails", (err == nil) == vs.Forall(func(j int) bool { _, e := f(s0.At(j)); return vs.Imp(0 <= j && j < s0.Len(), e == nil) }))
	vs.Assert("TryMap: the error is that of the first failing element", vs.Imp(err != nil, vs.Exists(func(j int) bool {
		_, e := f(s0.At(j))
		return 0 <= j && j < s0.Len() && e == err && vs.Forall(func(k int) bool { _, ek := f(s0.At(k)); return vs.Imp(0 <= k && k < j, ek == nil) })
	})))
	vs.Assert("TryMap: each mapped, in order", vs.Imp(err == nil, len(r) == s0.Len() && vs.Forall(func(j int) bool { v, _ := f(s0.At(j)); return vs.Imp(0 <= j && j < len(r), vs.Snap(r).At(j) == v) })))
	vs.Assert("TryMap: nothing on failure", vs.Imp(err != nil, len(r) == 0))
	vs.Assert("TryMap: the input is left alone", vs.OnlyModified(m))
}

// start of list n in the concatenation
//
//gover:logic
func flatStart(a [][]int, n int) int {
	if n <= 0 {
		return 0
	}
	return flatStart(a, n-1) + len(a[n-1])
}

func flatten(a [][]int, r []int, n int) bool {
	return len(r) == flatStart(a, n) && vs.Forall2(func(i, j int) bool {
		return vs.Imp(0 <= i && i < n && 0 <= j && j < len(a[i]), flatStart(a, i) >= 0 && flatStart(a, i)+len(a[i]) <= flatStart(a, n) && r[flatStart(a, i)+j] == a[i][j])
	})
}

//gover:inv * for=verify_Flatten
func inv_Flatten(array [][]int, result []int, rangeindex int) bool {
	return flatten(array, result, rangeindex+1)
}

//gover:prove P25 nopanic
func verify_Flatten(a [][]int) {
	m := vs.Mark()
	r := Flatten(a)
	vs.Assert("Flatten: the lists one after the other", flatten(a, r, len(a)))
	vs.Assert("Flatten: the input is left alone", vs.OnlyModified(m))
}

// ---- sets

//gover:prove P25 nopanic
func verify_SetOps(s *Set[int], k int) {
	vs.Assume(s != nil)
	m0 := vs.SnapMap(s.M)
	other := vs.Any[*Set[int]]("other")
	vs.Assume(other != nil && other != s && vs.Imp(other.M != nil, !vs.Eq(other.M, s.M)))
	o0 := vs.SnapMap(other.M)
	vs.Fork(func() {
		s.Add(k)
		vs.Assert("Add: the element and the old ones", vs.Forall(func(j int) bool { return s.Has(j) == (j == k || m0.Has(j)) }))
		vs.Assert("Add: other sets are left alone", vs.Forall(func(j int) bool { return other.Has(j) == o0.Has(j) }))
	})
	vs.Fork(func() {
		s.Delete(k)
		vs.Assert("Delete: the old ones but the element", vs.Forall(func(j int) bool { return s.Has(j) == (j != k && m0.Has(j)) }))
		vs.Assert("Delete: other sets are left alone", vs.Forall(func(j int) bool { return other.Has(j) == o0.Has(j) }))
	})
	vs.Fork(func() {
		s.Clear()
		vs.Assert("Clear: none", vs.Forall(func(j int) bool { return !s.Has(j) }))
	})
	vs.Fork(func() {
		m := vs.Mark()
		b := s.Has(k)
		vs.Assert("Has: membership", b == m0.Has(k))
		vs.Assert("Len: as many as the members", s.Len() == m0.Len())
		vs.Assert("Keys: the members", vs.Forall(func(j int) bool { _, ok := s.Keys()[j]; return ok == m0.Has(j) }))
		vs.Assert("Has, Len, Keys: the set is left alone", vs.OnlyModified(m))
	})
}

//gover:inv * for=verify_SetFromItems
func inv_Items(items []int, s *Set[int], rangeindex int) bool {
	return vs.Forall(func(j int) bool { return s.Has(j) == vs.Exists(func(i int) bool { return 0 <= i && i < rangeindex+1 && items[i] == j }) })
}

//gover:prove P25 nopanic
func verify_SetFromItems(items []int) {
	b := NewSetFromItems(items...)
	vs.Assert("NewSetFromItems: exactly the items", vs.Forall(func(j int) bool { return b.Has(j) == vs.Exists(func(i int) bool { return 0 <= i && i < len(items) && items[i] == j }) }))
}

//gover:prove P25 nopanic
func verify_NewSet(n int) {
	vs.Assume(n >= 0)
	a := NewSetWithSizeHint[int](n)
	vs.Assert("NewSetWithSizeHint: empty", vs.Forall(func(j int) bool { return !a.Has(j) }))
}
