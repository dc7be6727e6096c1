package linter

import (
	"fmt"
	"reflect"
	"testing"

	"github.com/microsoft/typescript-go/shim/ast"
	"github.com/microsoft/typescript-go/shim/core"
	"github.com/microsoft/typescript-go/shim/parser"
	"github.com/typescript-eslint/tsgolint/internal/rule"
)

func TestReplayFixGating(t *testing.T) {
	f := parser.ParseSourceFile(ast.SourceFileParseOptions{FileName: "/a.ts"}, "  // c\n  const x = 1\n", core.ScriptKindTS)
	node := f.Statements.Nodes[0]
	msg := rule.RuleMessage{Id: "m", Description: "d", Help: "h"}
	given := []rule.RuleFix{{Text: "given", Range: core.NewTextRange(1, 2)}}
	givenS := []rule.RuleSuggestion{{Message: msg, FixesArr: given}}
	for k := 0; k < 3; k++ {
		fixes := make([]rule.RuleFix, k)
		sugs := make([]rule.RuleSuggestion, k)
		for i := range fixes {
			fixes[i] = rule.RuleFix{Text: fmt.Sprint(i), Range: core.NewTextRange(i, i+1)}
			sugs[i] = rule.RuleSuggestion{Message: rule.RuleMessage{Id: fmt.Sprint(i)}, FixesArr: fixes[:i]}
		}
		for m := 0; m < 16; m++ {
			st := Fixes{Fix: m&1 != 0, FixSuggestions: m&2 != 0}
			d := rule.RuleDiagnostic{Range: core.NewTextRange(3, 4), Message: msg}
			if m&4 != 0 {
				d.FixesPtr = &given
			}
			if m&8 != 0 {
				d.Suggestions = &givenS
			}
			var got []rule.RuleDiagnostic
			nf, ns := 0, 0
			b := &ruleContextBuilder{fixState: st, file: f, ruleName: "r", onDiagnostic: func(d rule.RuleDiagnostic) { got = append(got, d) }}
			mf := func() []rule.RuleFix { nf++; return fixes }
			ms := func() []rule.RuleSuggestion { ns++; return sugs }
			ctx := newRuleContext(b)
			same := func(a, b any, na, nb int) bool { return na == 0 && nb == 0 || reflect.DeepEqual(a, b) }
			check := func(what string, withFix, withSug bool, wf []rule.RuleFix, ws []rule.RuleSuggestion) {
				bad := func(s string, a ...any) {
					t.Fatalf("%s, wanted %+v, %d fixes: %s", what, st, k, fmt.Sprintf(s, a...))
				}
				if len(got) != 1 {
					bad("%d diagnostics", len(got))
				}
				en, es := 0, 0
				if withFix {
					wf = nil
					if st.Fix {
						en, wf = 1, fixes
					}
				}
				if withSug {
					ws = nil
					if st.FixSuggestions {
						es, ws = 1, sugs
					}
				}
				if nf != en || ns != es {
					bad("callbacks ran %d and %d times", nf, ns)
				}
				if !same(got[0].Fixes(), wf, len(got[0].Fixes()), len(wf)) || !same(got[0].GetSuggestions(), ws, len(got[0].GetSuggestions()), len(ws)) {
					bad("fixes %+v suggestions %+v, expected %+v and %+v", got[0].Fixes(), got[0].GetSuggestions(), wf, ws)
				}
				got, nf, ns = nil, 0, 0
			}
			ctx.ReportDiagnostic(d)
			check("ReportDiagnostic", false, false, d.Fixes(), d.GetSuggestions())
			ctx.ReportDiagnosticWithFixes(d, mf)
			check("ReportDiagnosticWithFixes", true, false, nil, d.GetSuggestions())
			ctx.ReportDiagnosticWithSuggestions(d, ms)
			check("ReportDiagnosticWithSuggestions", false, true, d.Fixes(), nil)
			ctx.ReportRange(d.Range, msg)
			check("ReportRange", false, false, nil, nil)
			ctx.ReportRangeWithSuggestions(d.Range, msg, ms)
			check("ReportRangeWithSuggestions", false, true, nil, nil)
			ctx.ReportNode(node, msg)
			check("ReportNode", false, false, nil, nil)
			ctx.ReportNodeWithFixes(node, msg, mf)
			check("ReportNodeWithFixes", true, false, nil, nil)
			ctx.ReportNodeWithSuggestions(node, msg, ms)
			check("ReportNodeWithSuggestions", false, true, nil, nil)
		}
	}
}
