//gover:file P12,P19
package rule

import (
	"github.com/microsoft/typescript-go/shim/ast"
	"github.com/microsoft/typescript-go/shim/core"
	"github.com/typescript-eslint/tsgolint/internal/utils"
	"github.com/typescript-eslint/tsgolint/internal/vs"
)

// the listener key of variant v (0..5) for node kind k
func specKey(v int, k ast.Kind) ast.Kind {
	switch v {
	case 0:
		return k
	case 1:
		return ListenerOnExit(k)
	case 2:
		return ListenerOnAllowPattern(k)
	case 3:
		return ListenerOnExit(ListenerOnAllowPattern(k))
	case 4:
		return ListenerOnNotAllowPattern(k)
	}
	return ListenerOnExit(ListenerOnNotAllowPattern(k))
}

func specRealKind(k ast.Kind) bool { return 0 <= k && k < ast.KindCount }

//gover:prove P12 nopanic
func verify_ListenerKinds(a, b ast.Kind, v, w int) {
	vs.Assume(specRealKind(a) && specRealKind(b) && 0 <= v && v < 6 && 0 <= w && w < 6)
	same := specKey(v, a) == specKey(w, b)
	vs.Assert("distinct kinds and variants have distinct listener keys", vs.Imp(same, v == w && a == b))
	vs.Assert("no synthetic key is a node kind", vs.Imp(v > 0, !specRealKind(specKey(v, a))))
}

// ---- fixes

func specSame(a, b core.TextRange) bool { return a.Pos() == b.Pos() && a.End() == b.End() }

//gover:stub (*github.com/microsoft/typescript-go/internal/ast.Node).End for=verify_FixConstructors
func stub_End(n *ast.Node) int { return n.Loc.End() }

//gover:prove P19
func verify_FixConstructors(file *ast.SourceFile, node *ast.Node, r core.TextRange, text string) {
	vs.Assume(file != nil && node != nil)
	trimmed := utils.TrimNodeTextRange(file, node)
	m := vs.Mark()
	b := RuleFixInsertBefore(file, node, text)
	vs.Assert("insert before: text", b.Text == text)
	vs.Assert("insert before: nothing is replaced, at the node's first character", b.Range.Pos() == trimmed.Pos() && b.Range.End() == trimmed.Pos())
	a := RuleFixInsertAfter(node, text)
	vs.Assert("insert after: text", a.Text == text)
	vs.Assert("insert after: nothing is replaced, at the node's end", a.Range.Pos() == node.End() && a.Range.End() == node.End())
	c := RuleFixReplace(file, node, text)
	vs.Assert("replace: text", c.Text == text)
	vs.Assert("replace: the node without its leading trivia", specSame(c.Range, trimmed))
	vs.Assert("the trimmed range ends where the node ends", trimmed.End() == node.End())
	d := RuleFixReplaceRange(r, text)
	vs.Assert("replace range: text and range as given", d.Text == text && specSame(d.Range, r))
	e := RuleFixRemove(file, node)
	vs.Assert("remove: the node without its leading trivia, by nothing", e.Text == "" && specSame(e.Range, trimmed))
	f := RuleFixRemoveRange(r)
	vs.Assert("remove range: as given, by nothing", f.Text == "" && specSame(f.Range, r))
	vs.Assert("constructors change nothing", vs.OnlyModified(m))
}

//gover:prove P19 nopanic
func verify_DiagnosticAccessors(d RuleDiagnostic, s RuleSuggestion) {
	f, g := d.Fixes(), d.GetSuggestions()
	vs.Assert("no fixes", vs.Imp(d.FixesPtr == nil, len(f) == 0))
	vs.Assert("fixes as attached", vs.Imp(d.FixesPtr != nil, vs.Eq(f, *d.FixesPtr)))
	vs.Assert("no suggestions", vs.Imp(d.Suggestions == nil, len(g) == 0))
	vs.Assert("suggestions as attached", vs.Imp(d.Suggestions != nil, vs.Eq(g, *d.Suggestions)))
	vs.Assert("a suggestion's fixes", vs.Eq(s.Fixes(), s.FixesArr))
}

var ghostFixed, ghostSuggested, ghostOther int
var ghostNode *ast.Node
var ghostMsg RuleMessage
var ghostFixes []RuleFix
var ghostSugs []RuleSuggestion

//gover:prove P19 nopanic
func verify_FixesOrSuggestions(ctx RuleContext, node *ast.Node, fix bool, msg, smsg RuleMessage, fixes []RuleFix) {
	vs.Assume(ghostFixed == 0 && ghostSuggested == 0)
	ctx.ReportNodeWithFixes = func(n *ast.Node, m RuleMessage, f func() []RuleFix) {
		ghostFixed++
		ghostNode, ghostMsg, ghostFixes = n, m, f()
	}
	ctx.ReportNodeWithSuggestions = func(n *ast.Node, m RuleMessage, f func() []RuleSuggestion) {
		ghostSuggested++
		ghostNode, ghostMsg, ghostSugs = n, m, f()
	}
	ReportNodeWithFixesOrSuggestions(ctx, node, fix, msg, smsg, fixes...)
	vs.Assert("reported exactly once", ghostFixed+ghostSuggested == 1)
	vs.Assert("as a fix if and only if asked to", fix == (ghostFixed == 1))
	vs.Assert("for the node and with the message given", ghostNode == node && vs.Eq(ghostMsg, msg))
	vs.Assert("the fixes given", vs.Imp(fix, vs.Eq(ghostFixes, fixes)))
	vs.Assert("one suggestion with its message and the fixes given", vs.Imp(!fix, len(ghostSugs) == 1 && vs.Eq(ghostSugs[0].Message, smsg) && vs.Eq(ghostSugs[0].FixesArr, fixes)))
}
