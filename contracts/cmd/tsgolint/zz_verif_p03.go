//gover:file P03,P04
package main

import (
	"io"
	"os"

	"github.com/microsoft/typescript-go/shim/core"
	"github.com/typescript-eslint/tsgolint/internal/diagnostic"
	"github.com/typescript-eslint/tsgolint/internal/linter"
	"github.com/typescript-eslint/tsgolint/internal/rule"
	"github.com/typescript-eslint/tsgolint/internal/vs"
)

// The wire format, as documented for consumers.
type (
	specRange struct {
		Pos int `json:"pos"`
		End int `json:"end"`
	}
	specMessage struct {
		Id          string `json:"id"`
		Description string `json:"description"`
		Help        string `json:"help,omitempty"`
	}
	specFix struct {
		Text  string    `json:"text"`
		Range specRange `json:"range"`
	}
	specSuggestion struct {
		Message specMessage `json:"message"`
		Fixes   []specFix   `json:"fixes"`
	}
	specLabel struct {
		Label string    `json:"label"`
		Range specRange `json:"range"`
	}
	specDiagnostic struct {
		Kind          uint8            `json:"kind"`
		Range         *specRange       `json:"range,omitempty"`
		Message       specMessage      `json:"message"`
		FilePath      *string          `json:"file_path"`
		LabeledRanges []specLabel      `json:"labeled_ranges,omitempty"`
		Rule          *string          `json:"rule,omitempty"`
		Fixes         []specFix        `json:"fixes,omitempty"`
		Suggestions   []specSuggestion `json:"suggestions,omitempty"`
	}
)

//gover:prove P03,P04
func verify_DiagnosticWireNames() {
	vs.Assert("diagnostic member names", vs.SameJSON[headlessDiagnostic, specDiagnostic]())
}

func sameRange(w headlessRange, r core.TextRange) bool { return w.Pos == r.Pos() && w.End == r.End() }

func sameMessage(w headlessRuleMessage, m rule.RuleMessage) bool {
	return w.Id == m.Id && w.Description == m.Description && w.Help == m.Help
}

func specRule(hd headlessDiagnostic, d rule.RuleDiagnostic) {
	vs.Assert("P03: kind is rule", hd.Kind == headlessDiagnosticKindRule)
	vs.Assert("P03: rule name", hd.Rule != nil && *hd.Rule == d.RuleName)
	vs.Assert("P03: message", sameMessage(hd.Message, d.Message))
	vs.Assert("P03: file path", hd.FilePath != nil && *hd.FilePath == d.SourceFile.FileName())
	vs.Assert("P03: range", (hd.Range != nil) == d.Range.IsValid() && vs.Imp(hd.Range != nil, sameRange(*hd.Range, d.Range)))
	labels, wl := d.LabeledRanges, hd.LabeledRanges
	vs.Assert("P03: number of labels", len(wl) == len(labels))
}

func specRuleFixes(hd headlessDiagnostic, d rule.RuleDiagnostic) {
	fix := vs.UF[bool]("flagb", "fix")
	var fixes []rule.RuleFix
	if d.FixesPtr != nil {
		fixes = *d.FixesPtr
	}
	wf := hd.Fixes
	vs.Assert("P03: no fixes unless asked for", vs.Imp(!fix, len(wf) == 0))
	vs.Assert("P03: number of fixes", vs.Imp(fix, len(wf) == len(fixes)))
}

func specRuleSuggestions(hd headlessDiagnostic, d rule.RuleDiagnostic) {
	sug := vs.UF[bool]("flagb", "fix-suggestions")
	var sugs []rule.RuleSuggestion
	if d.Suggestions != nil {
		sugs = *d.Suggestions
	}
	ws := hd.Suggestions
	vs.Assert("P03: no suggestions unless asked for", vs.Imp(!sug, len(ws) == 0))
	vs.Assert("P03: number of suggestions", vs.Imp(sug, len(ws) == len(sugs)))
}

func specInternal(hd headlessDiagnostic, d diagnostic.Internal) {
	vs.Assert("P04: kind is tsconfig", hd.Kind == headlessDiagnosticKindTsconfig)
	vs.Assert("P04: no rule, labels, fixes or suggestions", hd.Rule == nil && len(hd.LabeledRanges) == 0 && len(hd.Fixes) == 0 && len(hd.Suggestions) == 0)
	vs.Assert("P04: message", hd.Message.Id == d.Id && hd.Message.Description == d.Description && hd.Message.Help == d.Help)
	vs.Assert("P04: file path", (hd.FilePath == nil) == (d.FilePath == nil) && vs.Imp(d.FilePath != nil, *hd.FilePath == *d.FilePath))
	vs.Assert("P04: range", (hd.Range != nil) == d.Range.IsValid() && vs.Imp(hd.Range != nil, sameRange(*hd.Range, d.Range)))
}

//gover:stub main.writeMessage for=verify_Wire
func stub_writeWire(w io.Writer, t headlessMessageType, payload any) error {
	if t == headlessMessageTypeDiagnostic {
		hd, ok := payload.(headlessDiagnostic)
		vs.Assert("a diagnostic frame carries a diagnostic", ok)
		i := ghostWritten
		if ok {
			if vs.UF[bool]("isRule", i) {
				r := vs.ChanAt(vs.TheChan[anyDiagnostic](), i).ruleDiagnostic
				vs.Assert("P03: diagnostics are queued as reported", r != nil && vs.Eq(*r, vs.UF[rule.RuleDiagnostic]("diag", i)))
				vs.Assert("P03: a rule diagnostic is sent as one", hd.Kind == headlessDiagnosticKindRule && hd.Rule != nil && *hd.Rule == vs.UF[rule.RuleDiagnostic]("diag", i).RuleName)
			} else {
				specInternal(hd, vs.UF[diagnostic.Internal]("internal", i))
			}
		}
		ghostWritten++
	}
	return vs.Any[error]("writeMessage")
}

// The content of rule diagnostics is compared with the queued item, for a
// queue of arbitrary items.
func rulePart(t headlessMessageType, payload any, spec func(headlessDiagnostic, rule.RuleDiagnostic)) {
	if t == headlessMessageTypeDiagnostic {
		hd, ok := payload.(headlessDiagnostic)
		if r := vs.ChanAt(vs.TheChan[anyDiagnostic](), ghostWritten).ruleDiagnostic; ok && r != nil {
			spec(hd, *r)
		}
		ghostWritten++
	}
}

//gover:stub main.writeMessage for=verify_WireFixes
func stub_writeWireFixes(w io.Writer, t headlessMessageType, payload any) error {
	rulePart(t, payload, func(hd headlessDiagnostic, d rule.RuleDiagnostic) {
		specRule(hd, d)
		specRuleFixes(hd, d)
		specRuleSuggestions(hd, d)
	})
	return vs.Any[error]("writeMessage")
}

//gover:stub linter.RunLinter for=verify_WireFixes
func stub_RunLinterAny(o linter.RunLinterOptions) error {
	vs.Focus(true)
	n := vs.Any[int]("reported")
	for ghostEmitted < n {
		ghostEmitted++
		vs.TheChan[anyDiagnostic]() <- vs.Any[anyDiagnostic]("item")
	}
	return vs.Any[error]("RunLinter")
}

func validFixes(f []rule.RuleFix) bool {
	return vs.Forall(func(i int) bool { return vs.Imp(0 <= i && i < len(f), f[i].Range.IsValid()) })
}

//gover:stub linter.RunLinter for=verify_Wire
func stub_RunLinterWire(o linter.RunLinterOptions) error {
	vs.Focus(true)
	n := vs.Any[int]("reported")
	for ghostEmitted < n {
		i := ghostEmitted
		ghostEmitted++
		if vs.UF[bool]("isRule", i) {
			o.OnRuleDiagnostic(vs.UF[rule.RuleDiagnostic]("diag", i))
		} else {
			o.OnInternalDiagnostic(vs.UF[diagnostic.Internal]("internal", i))
		}
	}
	return vs.Any[error]("RunLinter")
}

//gover:inv * for=verify_Wire*
func inv_wire() bool {
	c := vs.TheChan[anyDiagnostic]()
	return vs.ChanSent(c) == ghostEmitted && vs.ChanRecvd(c) == ghostWritten && ghostWritten <= ghostEmitted && 0 <= ghostWritten
}

//gover:inv * for=verify_Wire
func inv_sent() bool {
	c := vs.TheChan[anyDiagnostic]()
	return vs.Forall(func(i int) bool {
		r, d := vs.ChanAt(c, i).ruleDiagnostic, vs.ChanAt(c, i).internalDiagnostic
		return vs.Imp(0 <= i && i < vs.ChanSent(c), vs.Ite(vs.UF[bool]("isRule", i),
			r != nil && vs.Eq(*r, vs.UF[rule.RuleDiagnostic]("diag", i)),
			r == nil && d != nil && vs.Eq(*d, vs.UF[diagnostic.Internal]("internal", i))))
	})
}

func sameFixes(w []headlessFix, f []rule.RuleFix, n int) bool {
	return vs.Forall(func(j int) bool {
		return vs.Imp(0 <= j && j < n, w[j].Text == f[j].Text && sameRange(w[j].Range, f[j].Range))
	})
}

//gover:prove P03,P04 purefuncs nopanic use=contract_Fixes
func verify_Wire(args []string) {
	assumeWire()
	vs.Focus(false)
	runHeadless(args)
}

func assumeWire() {
	vs.Assume(ghostTask == nil && ghostEmitted == 0 && ghostWritten == 0)
	vs.Assume(os.Stdout != os.Stderr)
	// the linter reports diagnostics for real files, with real edits
	vs.Assume(vs.Forall(func(i int) bool {
		d := vs.UF[rule.RuleDiagnostic]("diag", i)
		return d.SourceFile != nil && vs.Forall(func(j int) bool {
			return vs.Imp(0 <= j && j < len(d.LabeledRanges), d.LabeledRanges[j].Range.IsValid())
		}) && vs.Imp(d.FixesPtr != nil, validFixes(*d.FixesPtr)) &&
			vs.Imp(d.Suggestions != nil, vs.Forall(func(j int) bool {
				return vs.Imp(0 <= j && j < len(*d.Suggestions), validFixes((*d.Suggestions)[j].FixesArr))
			}))
	}))
}

//gover:prove P03 purefuncs use=contract_FixesAny
func verify_WireFixes(args []string) {
	vs.Assume(ghostTask == nil && ghostEmitted == 0 && ghostWritten == 0)
	vs.Assume(os.Stdout != os.Stderr)
	vs.Focus(false)
	runHeadless(args)
}

