package main

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"

	"github.com/microsoft/typescript-go/shim/core"
	"github.com/typescript-eslint/tsgolint/internal/diagnostic"
	"github.com/typescript-eslint/tsgolint/internal/linter"
	"github.com/typescript-eslint/tsgolint/internal/rule"
)

// Random diagnostics for the wire: the child reports them, the test compares
// what arrives with the same list.
type wireItem struct {
	rule     *rule.RuleDiagnostic
	internal *diagnostic.Internal
}

func wireText(r *rand.Rand) string {
	parts := []string{"", "a", "é", "\u2028", "\"q\"", "\\", "\n\t", "<b>&", "x y", "日本"}
	s := ""
	for n := r.Intn(4); n > 0; n-- {
		s += parts[r.Intn(len(parts))]
	}
	return s
}

func wireRange(r *rand.Rand) core.TextRange {
	a := r.Intn(40)
	return core.NewTextRange(a, a+r.Intn(5))
}

func wireMessage(r *rand.Rand) rule.RuleMessage {
	return rule.RuleMessage{Id: "id" + wireText(r), Description: wireText(r), Help: wireText(r)}
}

func wireFixes(r *rand.Rand) []rule.RuleFix {
	var f []rule.RuleFix
	for n := r.Intn(4); n > 0; n-- {
		f = append(f, rule.RuleFix{Text: wireText(r), Range: wireRange(r)})
	}
	return f
}

func wireItems(seed int64) (l []wireItem) {
	r := rand.New(rand.NewSource(seed))
	for n := 1 + r.Intn(6); n > 0; n-- {
		if r.Intn(3) == 0 {
			d := &diagnostic.Internal{Range: wireRange(r), Id: wireText(r), Description: wireText(r), Help: wireText(r)}
			if r.Intn(2) == 0 {
				p := wireText(r)
				d.FilePath = &p
			}
			if r.Intn(4) == 0 {
				d.Range = core.UndefinedTextRange()
			}
			l = append(l, wireItem{internal: d})
			continue
		}
		d := &rule.RuleDiagnostic{Range: wireRange(r), RuleName: "r" + wireText(r), Message: wireMessage(r), SourceFile: vfile}
		for k := r.Intn(4); k > 0; k-- {
			d.LabeledRanges = append(d.LabeledRanges, rule.RuleLabeledRange{Label: wireText(r), Range: wireRange(r)})
		}
		if r.Intn(3) > 0 {
			f := wireFixes(r)
			d.FixesPtr = &f
		}
		if r.Intn(3) > 0 {
			s := []rule.RuleSuggestion{}
			for k := r.Intn(4); k > 0; k-- {
				s = append(s, rule.RuleSuggestion{Message: wireMessage(r), FixesArr: wireFixes(r)})
			}
			d.Suggestions = &s
		}
		l = append(l, wireItem{rule: d})
	}
	return
}

func init() {
	scenarios["wire"] = func() {
		seed, _ := strconv.ParseInt(os.Getenv("VERIF_WIRE"), 10, 64)
		linter.VerifRun = func(o linter.RunLinterOptions) error {
			for _, it := range wireItems(seed) {
				if it.rule != nil {
					o.OnRuleDiagnostic(*it.rule)
				} else {
					o.OnInternalDiagnostic(*it.internal)
				}
			}
			return nil
		}
	}
}

// The expected JSON, built independently of the code under test.
func wireSay(v any) string { return fmt.Sprintf("%#v", v) }

func jr(r core.TextRange) any {
	return map[string]any{"pos": float64(r.Pos()), "end": float64(r.End())}
}

func jm(m rule.RuleMessage) any {
	o := map[string]any{"id": m.Id, "description": m.Description}
	if m.Help != "" {
		o["help"] = m.Help
	}
	return o
}

func jf(l []rule.RuleFix) []any {
	a := []any{}
	for _, f := range l {
		a = append(a, map[string]any{"text": f.Text, "range": jr(f.Range)})
	}
	return a
}

// wireWant is the diagnostic as the consumer should decode it.
func wireWant(it wireItem, fix, sug bool) map[string]any {
	o := map[string]any{}
	if d := it.internal; d != nil {
		o["kind"] = float64(1)
		o["message"] = jm(rule.RuleMessage{Id: d.Id, Description: d.Description, Help: d.Help})
		o["file_path"] = nil
		if d.FilePath != nil {
			o["file_path"] = *d.FilePath
		}
		if d.Range != core.UndefinedTextRange() {
			o["range"] = jr(d.Range)
		}
		return o
	}
	d := it.rule
	o["kind"] = float64(0)
	o["rule"] = d.RuleName
	o["message"] = jm(d.Message)
	o["file_path"] = d.SourceFile.FileName()
	o["range"] = jr(d.Range)
	if len(d.LabeledRanges) > 0 {
		a := []any{}
		for _, l := range d.LabeledRanges {
			a = append(a, map[string]any{"label": l.Label, "range": jr(l.Range)})
		}
		o["labeled_ranges"] = a
	}
	if fix && len(d.Fixes()) > 0 {
		o["fixes"] = jf(d.Fixes())
	}
	if sug && len(d.GetSuggestions()) > 0 {
		a := []any{}
		for _, s := range d.GetSuggestions() {
			a = append(a, map[string]any{"message": jm(s.Message), "fixes": jf(s.FixesArr)})
		}
		o["suggestions"] = a
	}
	return o
}
