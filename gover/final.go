package main

import "golang.org/x/tools/go/ssa"

// Variables that closures capture live in memory cells. A cell that is stored to exactly once, in the
// block that declares it, and is otherwise only loaded (also by the closures) is a constant from then on:
// its value is remembered by address in the state, so that forgetting memory at a loop head does not forget it.

var finalCells = map[*ssa.Alloc]bool{}

func finalCell(a *ssa.Alloc) bool {
	if r, ok := finalCells[a]; ok {
		return r
	}
	stores := 0
	ok := finalRefs(a, a, &stores, map[ssa.Value]bool{}) && stores == 1
	finalCells[a] = ok
	return ok
}

func finalRefs(a *ssa.Alloc, v ssa.Value, stores *int, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	refs := v.Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		switch i := r.(type) {
		case *ssa.DebugRef:
		case *ssa.UnOp:
		case *ssa.Store:
			if i.Val == v || v != ssa.Value(a) || i.Block() != a.Block() {
				return false
			}
			*stores++
		case *ssa.MakeClosure:
			fn := i.Fn.(*ssa.Function)
			for k, b := range i.Bindings {
				if b == v && !finalRefs(a, fn.FreeVars[k], stores, seen) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}
