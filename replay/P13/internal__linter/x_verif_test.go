package linter

import (
	"fmt"
	"sync"
	"testing"

	"github.com/microsoft/typescript-go/shim/ast"
	"github.com/microsoft/typescript-go/shim/bundled"
	"github.com/microsoft/typescript-go/shim/core"
	"github.com/microsoft/typescript-go/shim/parser"
	"github.com/microsoft/typescript-go/shim/vfs/osvfs"
	"github.com/typescript-eslint/tsgolint/internal/diagnostic"
	"github.com/typescript-eslint/tsgolint/internal/rule"
	"github.com/typescript-eslint/tsgolint/internal/utils"
)

// Every report through a context arrives once, with what it said, under the rule and file the context stands
// for when the report is made.
func TestReplayReports(t *testing.T) {
	f := parser.ParseSourceFile(ast.SourceFileParseOptions{FileName: "/a.ts"}, "  // c\n  const x = 1\n\n/* d */ y(2)", core.ScriptKindTS)
	g := parser.ParseSourceFile(ast.SourceFileParseOptions{FileName: "/b.ts"}, "z\n   w", core.ScriptKindTS)
	var got []rule.RuleDiagnostic
	b := &ruleContextBuilder{onDiagnostic: func(d rule.RuleDiagnostic) { got = append(got, d) }}
	ctx := newRuleContext(b)
	n := 0
	for round := 0; round < 3; round++ {
		for _, file := range []*ast.SourceFile{f, g} {
			for _, name := range []string{"r1", "", "r2"} {
				b.file, b.ruleName = file, name
				for si, node := range file.Statements.Nodes {
					n++
					msg := rule.RuleMessage{Id: fmt.Sprint("m", n), Description: fmt.Sprint("d", n), Help: fmt.Sprint("h", n)}
					r := core.NewTextRange(n, n+si)
					labels := []rule.RuleLabeledRange{{Label: fmt.Sprint("l", n), Range: core.NewTextRange(1, n)}}[:n%2]
					d := rule.RuleDiagnostic{Range: r, Message: msg, LabeledRanges: labels, RuleName: "wrong", SourceFile: nil}
					mf := func() []rule.RuleFix { return nil }
					ms := func() []rule.RuleSuggestion { return nil }
					nr := utils.TrimNodeTextRange(file, node)
					check := func(what string, wr core.TextRange, wl []rule.RuleLabeledRange) {
						if len(got) != 1 {
							t.Fatalf("%s: %d diagnostics for one report", what, len(got))
						}
						x := got[0]
						if x.RuleName != name || x.SourceFile != file || x.Range != wr || x.Message != msg || len(x.LabeledRanges) != len(wl) || len(wl) > 0 && x.LabeledRanges[0] != wl[0] {
							t.Fatalf("%s for rule %q, file %s: reported as rule %q, range %v (expected %v), message %+v, labels %+v, right file %v", what, name, file.FileName(), x.RuleName, x.Range, wr, x.Message, x.LabeledRanges, x.SourceFile == file)
						}
						got = nil
					}
					ctx.ReportDiagnostic(d)
					check("ReportDiagnostic", r, labels)
					ctx.ReportDiagnosticWithFixes(d, mf)
					check("ReportDiagnosticWithFixes", r, labels)
					ctx.ReportDiagnosticWithSuggestions(d, ms)
					check("ReportDiagnosticWithSuggestions", r, labels)
					ctx.ReportRange(r, msg)
					check("ReportRange", r, nil)
					ctx.ReportRangeWithSuggestions(r, msg, ms)
					check("ReportRangeWithSuggestions", r, nil)
					ctx.ReportNode(node, msg)
					check("ReportNode", nr, nil)
					ctx.ReportNodeWithFixes(node, msg, mf)
					check("ReportNodeWithFixes", nr, nil)
					ctx.ReportNodeWithSuggestions(node, msg, ms)
					check("ReportNodeWithSuggestions", nr, nil)
				}
			}
		}
	}
}

// Whole runs: rules that report at set-up and from listeners are credited with exactly their own reports,
// in the file these are about, with and without timings and with any number of workers.
func TestReplayWorkers(t *testing.T) {
	dir := "/nowhere/p"
	text := map[string]string{}
	list := ""
	const files = 7
	for i := 0; i < files; i++ {
		s := ""
		for j := 0; j <= i%4; j++ {
			s += fmt.Sprintf("export const v%d = [1, 2]\n", j)
		}
		if i == 3 {
			s = ""
		}
		text[fmt.Sprintf("%s/f%d.ts", dir, i)] = s
		list += fmt.Sprintf(",\"f%d.ts\"", i)
	}
	text[dir+"/tsconfig.json"] = `{"compilerOptions":{"strict":true},"files":[` + list[1:] + `]}`
	fs := utils.NewOverlayVFS(bundled.WrapFS(osvfs.FS()), text)
	program, _, err := utils.CreateProgram(true, fs, dir, dir+"/tsconfig.json", utils.CreateCompilerHost(dir, fs), true)
	if err != nil || program == nil {
		t.Fatalf("no program: %v", err)
	}
	var srcs []*ast.SourceFile
	for i := 0; i < files; i++ {
		srcs = append(srcs, program.GetSourceFile(fmt.Sprintf("%s/f%d.ts", dir, i)))
	}
	for mode := 0; mode < 12; mode++ {
		var mu sync.Mutex
		want, got := map[string]int{}, map[string]int{}
		count := func(m map[string]int, rule, file, what string) {
			mu.Lock()
			m[rule+"|"+file+"|"+what]++
			mu.Unlock()
		}
		mk := func(name string, kinds ...ast.Kind) ConfiguredRule {
			return ConfiguredRule{Name: name, Run: func(ctx rule.RuleContext) rule.RuleListeners {
				file := ctx.SourceFile
				say := func(what string, node *ast.Node) {
					count(want, name, file.FileName(), what)
					if node != nil && ast.GetSourceFileOfNode(node) != file {
						t.Errorf("rule %s set up for %s is called in another file", name, file.FileName())
					}
					ctx.ReportRange(core.NewTextRange(0, 0), rule.RuleMessage{Id: what})
				}
				say("setup", nil)
				l := rule.RuleListeners{}
				for _, k := range kinds {
					l[k] = func(node *ast.Node) { say(fmt.Sprint(k, node.Pos()), node) }
				}
				return l
			}}
		}
		// expected calls of a listener: once per node of that kind
		rules := func(f *ast.SourceFile) []ConfiguredRule {
			rs := []ConfiguredRule{
				mk("ids", ast.KindIdentifier), mk("both", ast.KindIdentifier, ast.KindNumericLiteral), mk("none"),
				mk("exits", rule.ListenerOnExit(ast.KindNumericLiteral), ast.KindVariableDeclaration),
			}
			k := int(f.FileName()[len(f.FileName())-4]-'0') % 5
			rs = append(rs[mode/2%4:], rs[:mode/2%4]...)
			return rs[k%2 : len(rs)-k%3]
		}
		var store *RuleTimingStore
		if mode%2 == 1 {
			store = NewRuleTimingStore()
		}
		RunLinterOnProgram(RunLinterOnProgramOptions{
			LogLevel: utils.LogLevelNormal, Program: program, Files: srcs, Workers: 1 + mode/2, GetRulesForFile: rules, TimingStore: store,
			OnDiagnostic: func(d rule.RuleDiagnostic) {
				count(got, d.RuleName, d.SourceFile.FileName(), d.Message.Id)
			},
			OnInternalDiagnostic: func(diagnostic.Internal) {},
		})
		for k, n := range want {
			if got[k] != n {
				t.Fatalf("mode %d: %d reports made as %s, %d delivered as such", mode, n, k, got[k])
			}
		}
		for k, n := range got {
			if want[k] != n {
				t.Fatalf("mode %d: %d reports delivered as %s, %d made as such", mode, n, k, want[k])
			}
		}
		for _, f := range srcs {
			for _, r := range rules(f) {
				if want[r.Name+"|"+f.FileName()+"|setup"] != 1 {
					t.Fatalf("mode %d: rule %s was set up %d times for %s", mode, r.Name, want[r.Name+"|"+f.FileName()+"|setup"], f.FileName())
				}
			}
			decls := len(f.Statements.Nodes)
			seen := 0
			for k, n := range want {
				var pos int
				if m, _ := fmt.Sscanf(k, "ids|"+f.FileName()+"|KindIdentifier%d", &pos); m == 1 {
					seen += n
				}
			}
			if has := hasRule(rules(f), "ids"); has && seen != decls {
				t.Fatalf("mode %d: %d identifiers in %s, a rule saw %d", mode, decls, f.FileName(), seen)
			}
		}
	}
}

func hasRule(rs []ConfiguredRule, name string) bool {
	for _, r := range rs {
		if r.Name == name {
			return true
		}
	}
	return false
}
