package rule

import (
	"reflect"
	"testing"

	"github.com/microsoft/typescript-go/shim/ast"
	"github.com/microsoft/typescript-go/shim/core"
	"github.com/microsoft/typescript-go/shim/parser"
	"github.com/typescript-eslint/tsgolint/internal/utils"
)

func TestReplayFixes(t *testing.T) {
	f := parser.ParseSourceFile(ast.SourceFileParseOptions{FileName: "/a.ts"}, "  // c\n  const x = /* d */ f( a , b );\n/** e */ function g() { return  x + 1 }\n\n ;;", core.ScriptKindTS)
	n := 0
	var visit func(node *ast.Node) bool
	visit = func(node *ast.Node) bool {
		n++
		tr := utils.TrimNodeTextRange(f, node)
		if tr.End() != node.End() || tr.Pos() < node.Pos() {
			t.Fatalf("node of kind %d [%d,%d): trimmed to [%d,%d)", node.Kind, node.Pos(), node.End(), tr.Pos(), tr.End())
		}
		for _, text := range []string{"", "x", "'"} {
			for _, c := range []struct {
				what     string
				fix      RuleFix
				pos, end int
				text     string
			}{
				{"insert before", RuleFixInsertBefore(f, node, text), tr.Pos(), tr.Pos(), text},
				{"insert after", RuleFixInsertAfter(node, text), node.End(), node.End(), text},
				{"replace", RuleFixReplace(f, node, text), tr.Pos(), tr.End(), text},
				{"remove", RuleFixRemove(f, node), tr.Pos(), tr.End(), ""},
				{"replace range", RuleFixReplaceRange(core.NewTextRange(3, 3+n), text), 3, 3 + n, text},
				{"remove range", RuleFixRemoveRange(core.NewTextRange(3, 3+n)), 3, 3 + n, ""},
			} {
				if c.fix.Range.Pos() != c.pos || c.fix.Range.End() != c.end || c.fix.Text != c.text {
					t.Fatalf("%s %q at node of kind %d [%d,%d): got %q at [%d,%d), expected %q at [%d,%d)", c.what, text, node.Kind, node.Pos(), node.End(), c.fix.Text, c.fix.Range.Pos(), c.fix.Range.End(), c.text, c.pos, c.end)
				}
			}
		}
		for _, fix := range []bool{true, false} {
			for k := 0; k < 3; k++ {
				var fixes []RuleFix
				for i := 0; i < k; i++ {
					fixes = append(fixes, RuleFixReplaceRange(core.NewTextRange(i, i+1), string(rune('a'+i))))
				}
				var gotF []RuleFix
				var gotS []RuleSuggestion
				nf, ns := 0, 0
				msg, smsg := RuleMessage{Id: "m", Description: "d", Help: "h"}, RuleMessage{Id: "s", Description: "e", Help: "i"}
				check := func(x *ast.Node, m RuleMessage) {
					if x != node || m != msg {
						t.Fatalf("fix=%v with %d fixes: reported for another node or message %+v", fix, k, m)
					}
				}
				ReportNodeWithFixesOrSuggestions(RuleContext{
					ReportNodeWithFixes:       func(x *ast.Node, m RuleMessage, g func() []RuleFix) { nf++; check(x, m); gotF = g() },
					ReportNodeWithSuggestions: func(x *ast.Node, m RuleMessage, g func() []RuleSuggestion) { ns++; check(x, m); gotS = g() },
				}, node, fix, msg, smsg, fixes...)
				if fix && (nf != 1 || ns != 0 || !reflect.DeepEqual(gotF, fixes)) {
					t.Fatalf("as a fix: %d/%d reports, fixes %+v, expected %+v", nf, ns, gotF, fixes)
				}
				if !fix && (nf != 0 || ns != 1 || len(gotS) != 1 || gotS[0].Message != smsg || !reflect.DeepEqual(gotS[0].FixesArr, fixes) || !reflect.DeepEqual(gotS[0].Fixes(), fixes)) {
					t.Fatalf("as a suggestion: %d/%d reports, suggestions %+v, expected one with %+v", nf, ns, gotS, fixes)
				}
				d := RuleDiagnostic{}
				if len(d.Fixes()) != 0 || len(d.GetSuggestions()) != 0 {
					t.Fatalf("a diagnostic without fixes has %v %v", d.Fixes(), d.GetSuggestions())
				}
				d.FixesPtr, d.Suggestions = &fixes, &gotS
				if len(fixes)+len(d.Fixes()) > 0 && !reflect.DeepEqual(d.Fixes(), fixes) || len(gotS)+len(d.GetSuggestions()) > 0 && !reflect.DeepEqual(d.GetSuggestions(), gotS) {
					t.Fatalf("fixes %v suggestions %v, expected %v and %v", d.Fixes(), d.GetSuggestions(), fixes, gotS)
				}
			}
		}
		node.ForEachChild(visit)
		return false
	}
	f.AsNode().ForEachChild(visit)
	if n < 10 {
		t.Fatalf("only %d nodes", n)
	}
}
