//gover:file P13
//gover:requires newRuleContext,visitLintNodes,makeCheckerWorkloadQueue,reportTypeScriptDiagnostics
package linter

import (
	"time"

	"github.com/microsoft/typescript-go/shim/ast"
	"github.com/microsoft/typescript-go/shim/checker"
	"github.com/microsoft/typescript-go/shim/compiler"
	"github.com/microsoft/typescript-go/shim/core"
	"github.com/typescript-eslint/tsgolint/internal/diagnostic"
	"github.com/typescript-eslint/tsgolint/internal/rule"
	"github.com/typescript-eslint/tsgolint/internal/vs"
)

// ---- the world around a worker

// specRules: the rules configured for a file
func specRules(f *ast.SourceFile) []ConfiguredRule { return vs.UF[[]ConfiguredRule]("rules", f) }

// specName: the name of the rule a configured rule's Run, or a listener, belongs to
func specName(run func(rule.RuleContext) rule.RuleListeners) string {
	return vs.UF[string]("nameOfRun", run)
}

// specFile: the file a listener was made for
func specFile(l func(*ast.Node)) *ast.SourceFile { return vs.UF[*ast.SourceFile]("fileOf", l) }
func specOwner(l func(*ast.Node)) string         { return vs.UF[string]("owner", l) }

var (
	ghostCur  *ast.SourceFile // the file the worker is at
	ghostNext int             // how many of its rules have run
	ghostCtx  rule.RuleContext
	ghostProg *compiler.Program
	ghostChk  *checker.Checker
	ghostNode *ast.Node
	ghostSeen rule.RuleDiagnostic
	ghostN    int
)

// every worker has one context, whose functions it hands to all rules
//
//gover:stub linter.newRuleContext for=verify_Workers*
func stub_newRuleContext(b *ruleContextBuilder) rule.RuleContext {
	ghostCtx = newRuleContext(b)
	vs.Const(&ghostCtx)
	return ghostCtx
}

type specGroup struct{}

func (specGroup) Queue(f func()) { f() }
func (specGroup) RunAndWait()    {}

//gover:stub github.com/microsoft/typescript-go/shim/core.NewWorkGroup for=verify_Workers*
func stub_NewWorkGroup(single bool) core.WorkGroup { return specGroup{} }

//gover:stub linter.reportTypeScriptDiagnostics for=verify_Workers*
func stub_reportTS(p *compiler.Program, files []*ast.SourceFile, t TypeErrors, on func(diagnostic.Internal)) {
}

//gover:stub linter.makeCheckerWorkloadQueue for=verify_Workers*
func stub_makeQueue(p *compiler.Program, files []*ast.SourceFile) chan checkerWorkload {
	return vs.Any[chan checkerWorkload]("queue")
}

//gover:stub (*linter.RuleTimingStore).merge for=verify_Workers*
func stub_merge(s *RuleTimingStore, l map[string]RuleTimingStat) {}

//gover:stub log.Print for=verify_Workers*
func stub_Print(v ...any) {}

//gover:stub time.Now for=verify_Workers*
func stub_Now() time.Time { return vs.Any[time.Time]("now") }

//gover:stub time.Since for=verify_Workers*
func stub_Since(t time.Time) time.Duration { return vs.Any[time.Duration]("since") }

// a rule or listener reports something through the context it was given
func specReports(ctx rule.RuleContext, name string) {
	n := ghostN
	ctx.ReportDiagnostic(vs.Any[rule.RuleDiagnostic]("report"))
	vs.Assert("P13: a report reaches the callback once", ghostN == n+1)
	vs.Assert("P13: a report carries the name of the rule that made it", ghostSeen.RuleName == name)
	vs.Assert("P13: a report carries the file being linted", ghostSeen.SourceFile == ghostCur)
}

func specSame(ctx rule.RuleContext) {
	g := ghostCtx
	vs.Assert("P13: every rule reports through the worker's functions",
		vs.Eq(ctx.ReportRange, g.ReportRange) && vs.Eq(ctx.ReportRangeWithSuggestions, g.ReportRangeWithSuggestions) &&
			vs.Eq(ctx.ReportNode, g.ReportNode) && vs.Eq(ctx.ReportNodeWithFixes, g.ReportNodeWithFixes) && vs.Eq(ctx.ReportNodeWithSuggestions, g.ReportNodeWithSuggestions) &&
			vs.Eq(ctx.ReportDiagnostic, g.ReportDiagnostic) && vs.Eq(ctx.ReportDiagnosticWithFixes, g.ReportDiagnosticWithFixes) && vs.Eq(ctx.ReportDiagnosticWithSuggestions, g.ReportDiagnosticWithSuggestions))
}

//gover:dyncall for=verify_Workers*
func hook_onDiagnostic(f func(rule.RuleDiagnostic), d rule.RuleDiagnostic) {
	ghostN++
	ghostSeen = d
}

//gover:dyncall for=verify_Workers*
func hook_getRules(f func(*ast.SourceFile) []ConfiguredRule, file *ast.SourceFile) []ConfiguredRule {
	vs.Assume(!vs.Fresh(file)) // the files exist before the run
	ghostCur, ghostNext = file, 0
	return specRules(file)
}

//gover:dyncall for=verify_Workers*
func hook_run(f func(rule.RuleContext) rule.RuleListeners, ctx rule.RuleContext) rule.RuleListeners {
	vs.Assert("P13: every rule is set up with the file being linted", ctx.SourceFile == ghostCur)
	specSame(ctx)
	specReports(ghostCtx, specName(f))
	ghostNext++
	l := vs.Any[rule.RuleListeners]("listeners")
	vs.Assume(vs.Forall(func(k ast.Kind) bool { return specOwner(l[k]) == specName(f) && specFile(l[k]) == ghostCur }))
	return l
}

//gover:dyncall for=verify_Workers*
func hook_listener(f func(*ast.Node), node *ast.Node) {
	vs.Assert("P13: a listener gets the node visited", node == ghostNode)
	vs.Assert("P13: a listener is called for the file it was made for", specFile(f) == ghostCur)
	specReports(ghostCtx, specOwner(f))
}

//gover:stub linter.visitLintNodes for=verify_Workers*
func stub_visit(file *ast.SourceFile, run func(kind ast.Kind, node *ast.Node)) {
	vs.Assert("P13: the file visited is the one whose rules were set up", file == ghostCur)
	vs.Assert("P13: all rules of the file have been set up", ghostNext == len(specRules(file)))
	n := vs.Any[int]("events")
	for i := 0; i < n; i++ {
		ghostNode = vs.Any[*ast.Node]("node")
		run(vs.Any[ast.Kind]("kind"), ghostNode)
	}
}

// lists of different events lie in different arrays
//
//gover:inv * for=verify_WorkersUntimed
func inv_apart(m map[ast.Kind][]struct {
	ruleName string
	fn       func(*ast.Node)
}) bool {
	return vs.Forall2(func(k, l ast.Kind) bool {
		return len(m[k]) <= cap(m[k]) && vs.Imp(cap(m[k]) > 0, vs.Base(m[k]) > ghostOld) && vs.Imp(k != l && cap(m[k]) > 0 && cap(m[l]) > 0, vs.Base(m[k]) != vs.Base(m[l]))
	})
}

// a listener is registered under the name of its rule
//
//gover:inv * for=verify_WorkersUntimed
func inv_reg(m map[ast.Kind][]struct {
	ruleName string
	fn       func(*ast.Node)
}) bool {
	w := vs.SnapMap(m)
	return vs.Forall2(func(k ast.Kind, j int) bool {
		l := w.At(k)
		return vs.Imp(w.Has(k) && vs.Off(l) <= j && j < vs.Off(l)+len(l), specOwner(vs.Abs(l, j).fn) == vs.Abs(l, j).ruleName)
	})
}

// and belongs to the file at hand
//
//gover:inv * depth=3 for=verify_WorkersUntimed
func inv_file(m map[ast.Kind][]struct {
	ruleName string
	fn       func(*ast.Node)
}) bool {
	w := vs.SnapMap(m)
	return vs.Forall2(func(k ast.Kind, j int) bool {
		l := w.At(k)
		return vs.Imp(w.Has(k) && vs.Off(l) <= j && j < vs.Off(l)+len(l), specFile(vs.Abs(l, j).fn) == ghostCur)
	})
}

//gover:inv * depth=4 for=verify_WorkersUntimed
func inv_file4(m map[ast.Kind][]struct {
	ruleName string
	fn       func(*ast.Node)
}) bool {
	return inv_file(m)
}

// between files no listener is registered
//
//gover:inv * depth=1 for=verify_WorkersUntimed
func inv_none(m map[ast.Kind][]struct {
	ruleName string
	fn       func(*ast.Node)
}) bool {
	return vs.Forall(func(k ast.Kind) bool { return len(m[k]) == 0 })
}

//gover:inv * depth=2 for=verify_WorkersUntimed
func inv_none2(m map[ast.Kind][]struct {
	ruleName string
	fn       func(*ast.Node)
}) bool {
	return inv_none(m)
}

//gover:inv * depth=3 for=verify_WorkersUntimed
func inv_clear(m map[ast.Kind][]struct {
	ruleName string
	fn       func(*ast.Node)
}) bool {
	return vs.Forall(func(k ast.Kind) bool {
		_, ok := m[k]
		return vs.Imp(vs.Visited(k), len(m[k]) == 0) && vs.Imp(ok, vs.Ranged(k))
	})
}

//gover:inv * depth=3 for=verify_Workers*
func inv_next(rangeindex int) bool {
	return ghostNext == rangeindex+1 && ghostNext <= len(specRules(ghostCur))
}

// the rules configured for the files do not change
//
//gover:inv * for=verify_Workers*
func inv_world() bool { return specConfigured() }

// nor does the rule at hand
//
//gover:inv * for=verify_Workers*
func inv_rule(r ConfiguredRule) bool { return specName(r.Run) == r.Name }

func specConfigured() bool {
	return vs.Forall2(func(f *ast.SourceFile, i int) bool {
		r := specRules(f)
		return vs.Imp(!vs.Fresh(f) && 0 <= i && i < len(r), r[i].Run != nil && specName(r[i].Run) == r[i].Name)
	})
}

var ghostOld int // arrays made during the run have larger identities

func specWorld(o RunLinterOnProgramOptions) {
	ghostOld = vs.Base(make([]int, 1))
	vs.Assume(o.OnDiagnostic != nil && o.GetRulesForFile != nil && ghostN == 0)
	vs.Assume(vs.Forall(func(f *ast.SourceFile) bool { return vs.Base(specRules(f)) < ghostOld }))
	vs.Assume(specConfigured())
}

//gover:prove P13 lean
func verify_WorkersUntimed(o RunLinterOnProgramOptions) {
	specWorld(o)
	o.TimingStore = nil
	RunLinterOnProgram(o)
}
