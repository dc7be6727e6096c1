//gover:file P03,P04,P05,P06,P08,P09
package main

import (
	"bufio"
	"flag"
	"io"
	"os"
	"sync"

	"github.com/microsoft/typescript-go/shim/vfs"
	"github.com/typescript-eslint/tsgolint/internal/linter"
	"github.com/typescript-eslint/tsgolint/internal/utils"
	"github.com/typescript-eslint/tsgolint/internal/vs"
)

// ---- ghost state of one headless run

var (
	ghostTask     func() // the consumer goroutine, spawned and not yet joined
	ghostEmitted  int    // diagnostics the linter has handed over
	ghostWritten  int    // diagnostic frames written, in order
	ghostBuffered int    // of these, still in a user-space buffer
	ghostErrors   int    // error frames written
	ghostTimings  int    // timing frames written
	ghostDone     bool   // the linter has returned
	ghostFailed   bool   // ... with an error
	ghostStage    bool   // a stage before linting failed
	ghostStarted  bool   // option parsing and profiling setup are done
)

// ---- environment

//gover:noeffect log.Printf for=verify_RunOutcome,verify_Wire*
func ne1() {}

//gover:noeffect log.SetOutput for=verify_RunOutcome,verify_Wire*
func ne2() {}

//gover:noeffect log.SetFlags for=verify_RunOutcome,verify_Wire*
func ne3() {}

//gover:stub fmt.Fprintf for=verify_RunOutcome,verify_Wire*
func stub_Fprintf(w io.Writer, format string, a ...any) (int, error) {
	vs.Assert("standard output carries frames only", w != io.Writer(os.Stdout))
	return vs.Any[int]("n"), nil
}

//gover:stub flag.StringVar for=verify_RunOutcome,verify_Wire*
func stub_StringVar(p *string, name string, value string, usage string) { *p = vs.UF[string]("flag", name) }

//gover:stub flag.BoolVar for=verify_RunOutcome,verify_Wire*
func stub_BoolVar(p *bool, name string, value bool, usage string) { *p = vs.UF[bool]("flagb", name) }

//gover:stub (*flag.FlagSet).Parse for=verify_RunOutcome,verify_Wire*
func stub_Parse(f *flag.FlagSet, args []string) error { return vs.Any[error]("flag.Parse") }

//gover:stub main.parseDebugTimings for=verify_RunOutcome,verify_Wire*
func stub_parseDebug(s string) (bool, error) {
	return vs.UF[bool]("debugTimings", s), vs.Any[error]("parseDebugTimings")
}

//gover:stub main.setupProfiling for=verify_RunOutcome,verify_Wire*
func stub_setupProfiling(o *headlessOptions) (func(), error) {
	if e := vs.Any[error]("setupProfiling"); e != nil {
		return nil, e
	}
	ghostStarted = true
	return func() {}, nil
}

//gover:stub os.Getwd for=verify_RunOutcome,verify_Wire*
func stub_Getwd() (string, error) {
	e := vs.Any[error]("os.Getwd")
	ghostStage = ghostStage || e != nil
	return vs.Any[string]("cwd"), e
}

//gover:stub io.ReadAll for=verify_RunOutcome,verify_Wire*
func stub_ReadAll(r io.Reader) ([]byte, error) {
	e := vs.Any[error]("io.ReadAll")
	ghostStage = ghostStage || e != nil
	return vs.Any[[]byte]("stdin"), e
}

//gover:stub main.deserializePayload for=verify_RunOutcome,verify_Wire*
func stub_deserializePayload(data []byte) (*headlessPayload, error) {
	if e := vs.Any[error]("payload"); e != nil {
		ghostStage = true
		return nil, e
	}
	p := vs.Any[headlessPayload]("payload")
	return &p, nil
}

//gover:stub main.newOverlayFS for=verify_RunOutcome,verify_Wire*
func stub_newOverlayFS(u vfs.FS, o map[string]string) vfs.FS { return vs.UF[vfs.FS]("overlay", u, o) }

//gover:stub utils.NewTsConfigResolver for=verify_RunOutcome,verify_Wire*
func stub_NewResolver(fs vfs.FS, cwd string) *utils.TsConfigResolver { return &utils.TsConfigResolver{} }

//gover:stub (*utils.TsConfigResolver).FindTsConfigParallel for=verify_RunOutcome,verify_Wire*
func stub_FindParallel(r *utils.TsConfigResolver, files []string) map[string]string {
	return vs.Any[map[string]string]("tsconfigs")
}

//gover:stub slices.SortFunc for=verify_RunOutcome,verify_Wire*
func stub_SortFunc[S ~[]E, E any](s S, cmp func(a, b E) int) {}

func inst_SortFunc() { stub_SortFunc([]string(nil), nil) }

// ---- standard output

//gover:stub bufio.NewWriterSize for=verify_RunOutcome,verify_Wire*
func stub_NewWriterSize(w io.Writer, n int) *bufio.Writer {
	vs.Assert("P05: diagnostics go to standard output", w == io.Writer(os.Stdout))
	return &bufio.Writer{}
}

//gover:stub (*bufio.Writer).Flush for=verify_RunOutcome,verify_Wire*
func stub_Flush(b *bufio.Writer) error {
	ghostBuffered = 0
	return nil
}

//gover:stub (*bufio.Writer).Available for=verify_RunOutcome,verify_Wire*
func stub_Available(b *bufio.Writer) int { return vs.Any[int]("available") }

// ---- goroutines and the linter

//gover:stub go for=verify_RunOutcome,verify_Wire*
func stub_go(f func()) {
	vs.Assert("P05: at most one consumer", ghostTask == nil)
	ghostTask = f
}

//gover:stub (*sync.WaitGroup).Go for=verify_RunOutcome,verify_Wire*
func stub_wgGo(wg *sync.WaitGroup, f func()) {
	vs.Assert("P05: at most one consumer", ghostTask == nil)
	ghostTask = f
}

//gover:stub (*sync.WaitGroup).Wait for=verify_RunOutcome,verify_Wire*
func stub_wgWait(wg *sync.WaitGroup) {
	if f := ghostTask; f != nil {
		f()
		ghostTask = nil
	}
}

//gover:stub linter.NewRuleTimingStore for=verify_RunOutcome,verify_Wire*
func stub_NewTiming() *linter.RuleTimingStore { return &linter.RuleTimingStore{} }

//gover:stub (*linter.RuleTimingStore).Collect for=verify_RunOutcome,verify_Wire*
func stub_Collect(s *linter.RuleTimingStore) []linter.RuleTimingRecord {
	return vs.Any[[]linter.RuleTimingRecord]("records")
}

