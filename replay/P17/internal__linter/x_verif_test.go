package linter

import (
	"context"
	"fmt"
	"testing"

	"github.com/microsoft/typescript-go/shim/ast"
	"github.com/microsoft/typescript-go/shim/bundled"
	"github.com/microsoft/typescript-go/shim/compiler"
	"github.com/microsoft/typescript-go/shim/core"
	"github.com/microsoft/typescript-go/shim/vfs/osvfs"
	"github.com/typescript-eslint/tsgolint/internal/diagnostic"
	"github.com/typescript-eslint/tsgolint/internal/utils"
)

// The type errors reported for a list of files are those the compiler has for each file, in the order of the
// files, each once, and only those that lie in the file itself.
func TestReplayTypeErrors(t *testing.T) {
	dir := "/nowhere/p"
	text := map[string]string{
		dir + "/tsconfig.json": `{"compilerOptions":{"strict":true,"noEmit":true,"forceConsistentCasingInFileNames":true},"files":["ok.ts","syn.ts","sem.ts","both.ts","one.ts","dup1.ts","dup2.ts","imp.ts","many.ts"]}`,
		dir + "/ok.ts":         "export const a = 1\n",
		dir + "/syn.ts":        "export const a = \nlet b = ;\n",
		dir + "/sem.ts":        "export const a: number = 'x'\nexport const b: string = 1\na = 2\n",
		dir + "/both.ts":       "export const a: number = 'x';\nlet = 1 2;\nundefinedName;\n",
		dir + "/one.ts":        "export const q: boolean = 1\n",
		dir + "/dup1.ts":       "const dup = 1\nclass C {}\n",
		dir + "/dup2.ts":       "const dup = 2\nclass C {}\n",
		dir + "/imp.ts":        "import './missing'\nimport { nope } from './ok'\nnope\n",
		dir + "/many.ts":       "declare const xs: {a: number}\nxs.b; xs.c; xs.d\nasync function f() { await g() }\nfunction* h() { yield 1 }\nexport { z }\n",
	}
	fs := utils.NewOverlayVFS(bundled.WrapFS(osvfs.FS()), text)
	host := utils.CreateCompilerHost(dir, fs)
	program, _, err := utils.CreateProgram(true, fs, dir, dir+"/tsconfig.json", host, true)
	if err != nil || program == nil {
		t.Fatalf("no program: %v", err)
	}
	ctx := core.WithRequestID(context.Background(), "__single_run__")
	show := func(pos, end int, code int32, msg, path string) string {
		return fmt.Sprintf("[%d,%d) TS%d %s %s", pos, end, code, msg, path)
	}
	names := []string{"ok.ts", "syn.ts", "sem.ts", "both.ts", "one.ts", "dup1.ts", "dup2.ts", "imp.ts", "many.ts"}
	total := [2]int{}
	for mask := 0; mask < 1<<len(names); mask += 7 {
		var files []*ast.SourceFile
		for i := range names {
			k := i
			if mask%2 == 1 {
				k = len(names) - 1 - i
			}
			if mask>>k&1 != 0 {
				files = append(files, program.GetSourceFile(dir+"/"+names[k]))
			}
		}
		for m := 0; m < 4; m++ {
			te := TypeErrors{ReportSyntactic: m&1 != 0, ReportSemantic: m&2 != 0}
			var want, got []string
			own := func(ds []*ast.Diagnostic, f *ast.SourceFile, kind int) {
				for _, d := range ds {
					if d.File() != nil && d.File().FileName() == f.FileName() {
						want = append(want, show(d.Loc().Pos(), d.Loc().End(), int32(d.Code()), utils.GetDiagnosticMessage(d), f.FileName()))
						total[kind]++
					}
				}
			}
			if te.ReportSyntactic {
				for _, f := range files {
					own(program.GetSyntacticDiagnostics(ctx, f), f, 0)
				}
			}
			if te.ReportSemantic {
				by := program.GetSemanticDiagnosticsWithoutNoEmitFiltering(ctx, files)
				for _, f := range files {
					all := append([]*ast.Diagnostic{}, compiler.FilterNoEmitSemanticDiagnostics(by[f], program.Options())...)
					all = append(all, program.GetIncludeProcessorDiagnostics(f)...)
					own(compiler.SortAndDeduplicateDiagnostics(all), f, 1)
				}
			}
			reportTypeScriptDiagnostics(program, files, te, func(d diagnostic.Internal) {
				p := "?"
				if d.FilePath != nil {
					p = *d.FilePath
				}
				got = append(got, fmt.Sprintf("[%d,%d) %s %s %s", d.Range.Pos(), d.Range.End(), d.Id, d.Description, p))
			})
			if fmt.Sprint(got) != fmt.Sprint(want) {
				t.Fatalf("files %b, %+v: reported\n%q\nexpected\n%q", mask, te, got, want)
			}
		}
	}
	if total[0] < 100 || total[1] < 100 {
		t.Fatalf("too few type errors: %v", total)
	}
}
