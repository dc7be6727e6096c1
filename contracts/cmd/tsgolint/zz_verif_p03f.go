//gover:file P03,P04
//gover:requires headlessFixesFromRuleFixes,headlessRangeFromRange
package main

import (
	"github.com/microsoft/typescript-go/shim/core"
	"github.com/typescript-eslint/tsgolint/internal/rule"
	"github.com/typescript-eslint/tsgolint/internal/vs"
)

//gover:inv * for=contract_Fixes*
func inv_fixList(fixes []rule.RuleFix, headlessFixes []headlessFix, rangeindex int) bool {
	return sameFixes(headlessFixes, fixes, rangeindex+1)
}

//gover:contract main.headlessFixesFromRuleFixes props=P03,P04 nopanic
func contract_Fixes(fixes []rule.RuleFix) []headlessFix {
	vs.Requires(validFixes(fixes))
	r := headlessFixesFromRuleFixes(fixes)
	vs.Ensures("P03: as many edits", len(r) == len(fixes))
	vs.Ensures("P03: the same edits", sameFixes(r, fixes, len(fixes)))
	vs.Ensures("a new list", vs.FreshSlice(r))
	return r
}

// the same for calls whose panics are accounted for elsewhere
//
//gover:contract main.headlessFixesFromRuleFixes props=P03
func contract_FixesAny(fixes []rule.RuleFix) []headlessFix {
	r := headlessFixesFromRuleFixes(fixes)
	vs.Ensures("P03: as many edits", len(r) == len(fixes))
	vs.Ensures("P03: the same edits", sameFixes(r, fixes, len(fixes)))
	vs.Ensures("a new list", vs.FreshSlice(r))
	return r
}

//gover:contract main.headlessRangeFromRange props=P03,P04 nopanic
func contract_Range(r core.TextRange) *headlessRange {
	w := headlessRangeFromRange(r)
	vs.Ensures("a range for a valid one, none otherwise", (w != nil) == r.IsValid())
	vs.Ensures("the same range", vs.Imp(w != nil, w != nil && sameRange(*w, r)))
	vs.Ensures("a new value", w == nil || vs.Fresh(w) && vs.Whole(w))
	return w
}
