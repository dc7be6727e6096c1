//gover:file P17
package linter

import (
	"context"
	"strconv"

	"github.com/microsoft/typescript-go/shim/ast"
	"github.com/microsoft/typescript-go/shim/compiler"
	"github.com/microsoft/typescript-go/shim/core"
	"github.com/typescript-eslint/tsgolint/internal/diagnostic"
	"github.com/typescript-eslint/tsgolint/internal/utils"
	"github.com/typescript-eslint/tsgolint/internal/vs"
)

// ---- what the compiler says about a file

func specSyntactic(f *ast.SourceFile) []*ast.Diagnostic { return vs.UF[[]*ast.Diagnostic]("syntactic", f) }
func specSemantic(f *ast.SourceFile) []*ast.Diagnostic  { return ghostSem[f] }
func specFiltered(ds []*ast.Diagnostic) []*ast.Diagnostic {
	return vs.UF[[]*ast.Diagnostic]("filtered", ds)
}
func specInclude(f *ast.SourceFile) []*ast.Diagnostic { return vs.UF[[]*ast.Diagnostic]("include", f) }

// specFinal: the file's semantic and include diagnostics, sorted and without duplicates
func specFinal(f *ast.SourceFile) []*ast.Diagnostic { return vs.UF[[]*ast.Diagnostic]("final", f) }

var ghostFiles []*ast.SourceFile // the files being linted
var ghostSem map[*ast.SourceFile][]*ast.Diagnostic // the semantic diagnostics, by file
var ghostFile *ast.SourceFile    // the file whose include diagnostics were asked for last

//gover:stub github.com/microsoft/typescript-go/shim/core.WithRequestID
func stub_WithRequestID(ctx context.Context, id string) context.Context { return ctx }

//gover:stub (*github.com/microsoft/typescript-go/internal/compiler.Program).GetSyntacticDiagnostics
func stub_GetSyntactic(p *compiler.Program, ctx context.Context, f *ast.SourceFile) []*ast.Diagnostic {
	return specSyntactic(f)
}

//gover:stub (*github.com/microsoft/typescript-go/internal/compiler.Program).GetSemanticDiagnosticsWithoutNoEmitFiltering
func stub_GetSemantic(p *compiler.Program, ctx context.Context, files []*ast.SourceFile) map[*ast.SourceFile][]*ast.Diagnostic {
	vs.Assert("semantic diagnostics are asked for all files", vs.Eq(files, ghostFiles))
	return ghostSem
}

//gover:stub (*github.com/microsoft/typescript-go/internal/compiler.Program).GetIncludeProcessorDiagnostics
func stub_GetInclude(p *compiler.Program, f *ast.SourceFile) []*ast.Diagnostic {
	ghostFile = f
	return specInclude(f)
}

//gover:stub github.com/microsoft/typescript-go/shim/compiler.FilterNoEmitSemanticDiagnostics
func stub_Filter(ds []*ast.Diagnostic, o *core.CompilerOptions) []*ast.Diagnostic { return specFiltered(ds) }

//gover:stub github.com/microsoft/typescript-go/shim/compiler.SortAndDeduplicateDiagnostics
func stub_SortDedup(ds []*ast.Diagnostic) []*ast.Diagnostic {
	a, b := specFiltered(specSemantic(ghostFile)), specInclude(ghostFile)
	vs.Assert("all semantic and include diagnostics of the file are considered", len(ds) == len(a)+len(b))
	vs.Assert("semantic diagnostics are considered", vs.Forall(func(i int) bool { return vs.Imp(0 <= i && i < len(a), ds[i] == a[i]) }))
	vs.Assert("include diagnostics are considered", vs.Forall(func(i int) bool { return vs.Imp(0 <= i && i < len(b), ds[len(a)+i] == b[i]) }))
	return specFinal(ghostFile)
}

// ---- the expected history of reports

var ghostTrace int
var ghostProgram *compiler.Program

func specEvent(t int, pos, end int, id, text, path string) int {
	return vs.UF[int]("report", t, pos, end, id, text, path)
}

func specReport(t int, d *ast.Diagnostic, name string) int {
	if d.File() != nil && d.File().FileName() == name {
		return specEvent(t, d.Loc().Pos(), d.Loc().End(), "TS"+strconv.Itoa(int(d.Code())), utils.GetDiagnosticMessage(d), name)
	}
	return t
}

//gover:logic
func specList(t int, ds []*ast.Diagnostic, name string, n int) int {
	if n <= 0 {
		return t
	}
	return specReport(specList(t, ds, name, n-1), ds[n-1], name)
}

//gover:logic
func specSynAll(t int, files []*ast.SourceFile, n int) int {
	if n <= 0 {
		return t
	}
	ds := specSyntactic(files[n-1])
	return specList(specSynAll(t, files, n-1), ds, files[n-1].FileName(), len(ds))
}

//gover:logic
func specSemAll(t int, files []*ast.SourceFile, n int) int {
	if n <= 0 {
		return t
	}
	ds := specFinal(files[n-1])
	return specList(specSemAll(t, files, n-1), ds, files[n-1].FileName(), len(ds))
}

//gover:inv * for=verify_TypeScriptDiagnostics depth=1
func inv_syn(files []*ast.SourceFile, rangeindex int) bool { return ghostTrace == specSynAll(0, files, rangeindex+1) }

//gover:inv * for=verify_TypeScriptDiagnostics depth=1
func inv_sem(files []*ast.SourceFile, rangeindex int, typeErrors TypeErrors) bool {
	t := vs.Ite(typeErrors.ReportSyntactic, specSynAll(0, files, len(files)), 0)
	return ghostTrace == specSemAll(t, files, rangeindex+1)
}

//gover:inv * for=verify_TypeScriptDiagnostics depth=2
func inv_synIn(files []*ast.SourceFile, outer_rangeindex int, rangeindex int) bool {
	f := files[outer_rangeindex+1]
	return ghostTrace == specList(specSynAll(0, files, outer_rangeindex+1), specSyntactic(f), f.FileName(), rangeindex+1)
}

//gover:inv * for=verify_TypeScriptDiagnostics depth=2
func inv_semIn(files []*ast.SourceFile, outer_rangeindex int, typeErrors TypeErrors, rangeindex int) bool {
	t := vs.Ite(typeErrors.ReportSyntactic, specSynAll(0, files, len(files)), 0)
	f := files[outer_rangeindex+1]
	return ghostTrace == specList(specSemAll(t, files, outer_rangeindex+1), specFinal(f), f.FileName(), rangeindex+1)
}

//gover:inv * for=verify_TypeScriptDiagnostics depth=2 lemma=1
func inv_final(files []*ast.SourceFile, outer_rangeindex int, finalDiagnostics []*ast.Diagnostic) bool {
	c := specFinal(files[outer_rangeindex+1])
	return len(c) == len(finalDiagnostics) && vs.Forall(func(i int) bool { return vs.Imp(0 <= i && i < len(c), c[i] == finalDiagnostics[i]) })
}

//gover:prove P17
func verify_TypeScriptDiagnostics(program *compiler.Program, files []*ast.SourceFile, typeErrors TypeErrors) {
	vs.Assume(ghostTrace == 0)
	ghostFiles = files
	vs.Assume(vs.Forall(func(f *ast.SourceFile) bool {
		a, b, c := specFiltered(specSemantic(f)), specInclude(f), specFinal(f)
		return vs.Imp(len(a)+len(b) == 0, len(c) == 0) && vs.Imp(len(a) == 1 && len(b) == 0, len(c) == 1 && c[0] == a[0]) && vs.Imp(len(a) == 0 && len(b) == 1, len(c) == 1 && c[0] == b[0])
	}))
	reportTypeScriptDiagnostics(program, files, typeErrors, func(d diagnostic.Internal) {
		vs.Assert("a reported type error names its file", d.FilePath != nil)
		ghostTrace = specEvent(ghostTrace, d.Range.Pos(), d.Range.End(), d.Id, d.Description, *d.FilePath)
	})
	vs.Assert("nothing unless asked for", vs.Imp(!typeErrors.ReportSyntactic && !typeErrors.ReportSemantic, ghostTrace == 0))
	vs.Assert("syntactic: exactly the files' own diagnostics, in order", vs.Imp(typeErrors.ReportSyntactic && !typeErrors.ReportSemantic, ghostTrace == specSynAll(0, files, len(files))))
	vs.Assert("semantic: exactly the files' own diagnostics, in order", vs.Imp(typeErrors.ReportSemantic && !typeErrors.ReportSyntactic, ghostTrace == specSemAll(0, files, len(files))))
	vs.Assert("both: the syntactic ones of all files first", vs.Imp(typeErrors.ReportSemantic && typeErrors.ReportSyntactic, ghostTrace == specSemAll(specSynAll(0, files, len(files)), files, len(files))))
}
