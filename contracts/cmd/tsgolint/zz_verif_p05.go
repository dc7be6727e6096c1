//gover:file P05,P06
package main

import (
	"io"
	"os"

	"github.com/typescript-eslint/tsgolint/internal/diagnostic"
	"github.com/typescript-eslint/tsgolint/internal/linter"
	"github.com/typescript-eslint/tsgolint/internal/rule"
	"github.com/typescript-eslint/tsgolint/internal/vs"
)

//gover:stub main.writeMessage for=verify_RunOutcome
func stub_writeMessage(w io.Writer, t headlessMessageType, payload any) error {
	direct := w == io.Writer(os.Stdout)
	vs.Assert("P05: nothing follows an error frame", ghostErrors == 0)
	vs.Assert("P05: nothing follows the timing frame", ghostTimings == 0)
	if direct {
		vs.Assert("P05: one writer at a time", ghostTask == nil)
		vs.Assert("P05: a direct write overtakes no buffered diagnostic", ghostBuffered == 0)
	}
	switch t {
	case headlessMessageTypeDiagnostic:
		vs.Assert("frame type matches its payload (diagnostic)", vs.TypeIs[headlessDiagnostic](payload))
		vs.Assert("P05: only reported diagnostics are written", ghostWritten < ghostEmitted)
		ghostWritten++
		if !direct {
			ghostBuffered++
		}
	case headlessMessageTypeError:
		vs.Assert("frame type matches its payload (error)", vs.TypeIs[headlessMessagePayloadError](payload))
		vs.Assert("P05: error frames are written unbuffered", direct)
		vs.Assert("P06: an error frame means something failed", ghostStage || ghostFailed)
		vs.Assert("P05: an error frame follows every diagnostic", ghostWritten == ghostEmitted)
		ghostErrors++
	default:
		vs.Assert("no other frame types", t == headlessMessageTypeTiming)
		vs.Assert("frame type matches its payload (timing)", vs.TypeIs[headlessTimingPayload](payload))
		vs.Assert("P05: timing frames are written unbuffered", direct)
		vs.Assert("P05: the timing frame follows every diagnostic", ghostWritten == ghostEmitted && ghostDone)
		ghostTimings++
	}
	return vs.Any[error]("writeMessage")
}

//gover:stub linter.RunLinter for=verify_RunOutcome
func stub_RunLinter(o linter.RunLinterOptions) error {
	n := vs.Any[int]("reported")
	vs.Assert("P06: the linter runs once, after every stage succeeded", !ghostDone && !ghostStage)
	for ghostEmitted < n {
		ghostEmitted++
		if vs.UF[bool]("isRule", ghostEmitted) {
			d := vs.UF[rule.RuleDiagnostic]("diag", ghostEmitted)
			o.OnRuleDiagnostic(d)
		} else {
			o.OnInternalDiagnostic(vs.UF[diagnostic.Internal]("internal", ghostEmitted))
		}
	}
	ghostDone = true
	e := vs.Any[error]("RunLinter")
	ghostFailed = e != nil
	return e
}

//gover:inv * for=verify_RunOutcome
func inv_handed() bool {
	c := vs.TheChan[anyDiagnostic]()
	return vs.ChanSent(c) == ghostEmitted && vs.ChanRecvd(c) == ghostWritten && ghostWritten <= ghostEmitted
}

//gover:prove P05,P06 purefuncs
func verify_RunOutcome(args []string) {
	vs.Assume(ghostTask == nil && ghostEmitted == 0 && ghostWritten == 0 && ghostBuffered == 0 && ghostErrors == 0 && ghostTimings == 0)
	vs.Assume(!ghostDone && !ghostFailed && !ghostStage && !ghostStarted)
	vs.Assume(os.Stdout != os.Stderr)
	code := runHeadless(args)
	vs.Assert("P05: the consumer is joined before the run ends", ghostTask == nil)
	vs.Assert("P05: every diagnostic is written before the run ends", ghostWritten == ghostEmitted && ghostBuffered == 0)
	vs.Assert("P06: a failed stage ends with status 1", vs.Imp(ghostStage || ghostFailed || !ghostStarted, code == 1))
	vs.Assert("P06: a failed stage is reported by one error frame", vs.Imp(ghostStage || ghostFailed, ghostErrors == 1))
	vs.Assert("P06: no error frame without a failure", vs.Imp(!ghostStage && !ghostFailed, ghostErrors == 0))
	vs.Assert("P06: status 0 means the linter succeeded", vs.Imp(code == 0, ghostDone && !ghostFailed && !ghostStage))
	vs.Assert("P06: status is 0 or 1", code == 0 || code == 1)
}
