//gover:file P13,P14
package linter

import (
	"github.com/microsoft/typescript-go/shim/ast"
	"github.com/microsoft/typescript-go/shim/core"
	"github.com/typescript-eslint/tsgolint/internal/rule"
	"github.com/typescript-eslint/tsgolint/internal/utils"
	"github.com/typescript-eslint/tsgolint/internal/vs"
)

// ---- what the callback received

var (
	ghostCalls int
	ghostGot   rule.RuleDiagnostic
	ghostFix   int // how often the fix callback ran
	ghostSug   int // how often the suggestion callback ran
)

func specSameRange(a, b core.TextRange) bool { return a.Pos() == b.Pos() && a.End() == b.End() }

// checkReport: one report of message msg at range r, by the rule and for the
// file the builder currently stands for.
func checkReport(b *ruleContextBuilder, r core.TextRange, msg rule.RuleMessage) {
	d := ghostGot
	vs.Assert("P13: exactly one diagnostic per report", ghostCalls == 1)
	vs.Assert("P13: the current rule's name", d.RuleName == b.ruleName)
	vs.Assert("P13: the current file", d.SourceFile == b.file)
	vs.Assert("P13: the range reported", specSameRange(d.Range, r))
	vs.Assert("P13: the message reported", vs.Eq(d.Message, msg))
	ghostCalls = 0
}

func checkNoFixes() {
	vs.Assert("P14: no fixes attached", ghostGot.FixesPtr == nil)
	vs.Assert("P14: no suggestions attached", ghostGot.Suggestions == nil)
}

func checkFixes(want bool, fixes []rule.RuleFix) {
	d := ghostGot
	vs.Assert("P14: the fix callback runs once if fixes are wanted, and not otherwise", ghostFix == vs.Ite(want, 1, 0))
	vs.Assert("P14: wanted fixes are attached as computed", vs.Imp(want, d.FixesPtr != nil && vs.Eq(*d.FixesPtr, fixes)))
	vs.Assert("P14: no fixes unless wanted", vs.Imp(!want, len(d.Fixes()) == 0))
	ghostFix = 0
}

func checkSuggestions(want bool, sugs []rule.RuleSuggestion) {
	d := ghostGot
	vs.Assert("P14: the suggestion callback runs once if suggestions are wanted, and not otherwise", ghostSug == vs.Ite(want, 1, 0))
	vs.Assert("P14: wanted suggestions are attached as computed", vs.Imp(want, d.Suggestions != nil && vs.Eq(*d.Suggestions, sugs)))
	vs.Assert("P14: no suggestions unless wanted", vs.Imp(!want, len(d.GetSuggestions()) == 0))
	ghostSug = 0
}

//gover:prove P13,P14
func verify_Reports(b *ruleContextBuilder, d rule.RuleDiagnostic, node *ast.Node, r core.TextRange, msg rule.RuleMessage, fixes []rule.RuleFix, sugs []rule.RuleSuggestion) {
	vs.Assume(b != nil && ghostCalls == 0 && ghostFix == 0 && ghostSug == 0)
	b.onDiagnostic = func(d rule.RuleDiagnostic) { ghostCalls++; ghostGot = d }
	mkFixes := func() []rule.RuleFix { ghostFix++; return fixes }
	mkSugs := func() []rule.RuleSuggestion { ghostSug++; return sugs }
	ctx := newRuleContext(b)
	// the builder moves on to another file and rule after the context was made
	b.file, b.ruleName = vs.Any[*ast.SourceFile]("file"), vs.Any[string]("rule")
	at := utils.TrimNodeTextRange(b.file, node)

	vs.Fork(func() {
		ctx.ReportDiagnostic(d)
		checkReport(b, d.Range, d.Message)
		vs.Assert("P14: fixes and suggestions as given", ghostGot.FixesPtr == d.FixesPtr && ghostGot.Suggestions == d.Suggestions)
		vs.Assert("P13: labeled ranges as given", vs.Eq(ghostGot.LabeledRanges, d.LabeledRanges))
	})
	vs.Fork(func() {
		ctx.ReportDiagnosticWithFixes(d, mkFixes)
		checkReport(b, d.Range, d.Message)
		checkFixes(b.fixState.Fix, fixes)
		vs.Assert("P14: suggestions as given", ghostGot.Suggestions == d.Suggestions)
		vs.Assert("P13: labeled ranges as given", vs.Eq(ghostGot.LabeledRanges, d.LabeledRanges))
	})
	vs.Fork(func() {
		ctx.ReportDiagnosticWithSuggestions(d, mkSugs)
		checkReport(b, d.Range, d.Message)
		checkSuggestions(b.fixState.FixSuggestions, sugs)
		vs.Assert("P14: fixes as given", ghostGot.FixesPtr == d.FixesPtr)
		vs.Assert("P13: labeled ranges as given", vs.Eq(ghostGot.LabeledRanges, d.LabeledRanges))
	})
	vs.Fork(func() {
		ctx.ReportRange(r, msg)
		checkReport(b, r, msg)
		checkNoFixes()
	})
	vs.Fork(func() {
		ctx.ReportRangeWithSuggestions(r, msg, mkSugs)
		checkReport(b, r, msg)
		checkSuggestions(b.fixState.FixSuggestions, sugs)
		vs.Assert("P14: no fixes attached", ghostGot.FixesPtr == nil)
	})
	vs.Fork(func() {
		ctx.ReportNode(node, msg)
		checkReport(b, at, msg)
		checkNoFixes()
	})
	vs.Fork(func() {
		ctx.ReportNodeWithFixes(node, msg, mkFixes)
		checkReport(b, at, msg)
		checkFixes(b.fixState.Fix, fixes)
		vs.Assert("P14: no suggestions attached", ghostGot.Suggestions == nil)
	})
	vs.Fork(func() {
		ctx.ReportNodeWithSuggestions(node, msg, mkSugs)
		checkReport(b, at, msg)
		checkSuggestions(b.fixState.FixSuggestions, sugs)
		vs.Assert("P14: no fixes attached", ghostGot.FixesPtr == nil)
	})
}
