package utils

import (
	"strings"
	"testing"

	"github.com/microsoft/typescript-go/shim/ast"
	"github.com/microsoft/typescript-go/shim/bundled"
	"github.com/microsoft/typescript-go/shim/core"
	"github.com/microsoft/typescript-go/shim/compiler"
	"github.com/microsoft/typescript-go/shim/tsoptions"
	"github.com/microsoft/typescript-go/shim/vfs/osvfs"
	"github.com/typescript-eslint/tsgolint/internal/diagnostic"
)

func TestReplayCreateProgram(t *testing.T) {
	configs := map[string]string{
		"/nowhere/a/tsconfig.json": `{"files":["x.ts"]}`,
		"/nowhere/b/tsconfig.json": `{"files":["x.ts"], "compilerOptions": {"target": "bogus", "module": 3, "nosuch": 1}}`,
		"/nowhere/c/tsconfig.json": `{"files":["x.ts"], "compilerOptions": {`,
		"/nowhere/d/tsconfig.json": `{"files":["x.ts"], "compilerOptions": {"baseUrl": ".", "moduleResolution":"node10", "outFile":"x.js"}}`,
		"/nowhere/e/tsconfig.json": `{"extends": "./base.json", "files":["x.ts"], "compilerOptions": {"module": "bogus"}}`,
		"/nowhere/e/base.json":     `{"compilerOptions": {"target": "bogus", "lib": ["zz"]}}`,
		"/nowhere/f/tsconfig.json": `{"files":[]}`,
		"/nowhere/g/tsconfig.json": `{"extends": "./nope.json", "files":["x.ts"]}`,
		"/nowhere/h/tsconfig.json": `{"files":["x.ts","missing.ts"], "compilerOptions": {"allowImportingTsExtensions": true, "noEmit": false, "outDir":"o"}}`,
		"/nowhere/z/tsconfig.json": "",
	}
	files := map[string]string{}
	for k, v := range configs {
		if v != "" {
			files[k] = v
		}
		files[k[:strings.LastIndexByte(k, '/')]+"/x.ts"] = "export const a: number = 1\n"
	}
	fs := NewOverlayVFS(bundled.WrapFS(osvfs.FS()), files)
	stages := map[string]int{}
	for cfg, text := range configs {
		if !strings.HasSuffix(cfg, "tsconfig.json") {
			continue
		}
		dir := cfg[:strings.LastIndexByte(cfg, '/')]
		for _, suppress := range []bool{false, true} {
			for _, given := range []string{cfg, "tsconfig.json"} {
				host := CreateCompilerHost(dir, fs)
				p, diags, err := CreateProgram(true, fs, dir, given, host, suppress)
				bad := func(s string, a ...any) {
					t.Helper()
					t.Fatalf("%s (%q, suppress %v): "+s, append([]any{given, text, suppress}, a...)...)
				}
				if text == "" {
					if err == nil || p != nil {
						bad("no error for a missing configuration")
					}
					stages["missing"]++
					continue
				}
				if err != nil {
					bad("failed: %v", err)
				}
				want, ds := expected(dir, cfg, given, CreateCompilerHost(dir, fs), suppress)
				stages[want]++
				if want == "" {
					if p == nil || len(diags) != 0 {
						bad("program %v with %d diagnostics, expected one without", p != nil, len(diags))
					}
					continue
				}
				if p != nil || len(diags) != len(ds) {
					bad("%s: program %v, %d diagnostics, expected none and %d", want, p != nil, len(diags), len(ds))
				}
				for i, d := range ds {
					file := cfg
					if d.File() != nil && d.File().FileName() != "" {
						file = d.File().FileName()
					}
					g := diags[i]
					if g.Range.Pos() != d.Loc().Pos() || g.Range.End() != d.Loc().End() || g.Id != "tsconfig-error" || g.FilePath == nil || *g.FilePath != file || !strings.HasPrefix(g.Help, GetDiagnosticMessage(d)) {
						bad("%s: diagnostic %d is %s, expected %q at [%d,%d) of %s", want, i, show(g), GetDiagnosticMessage(d), d.Loc().Pos(), d.Loc().End(), file)
					}
				}
			}
		}
	}
	for _, s := range []string{"missing", "", "errors", "options"} {
		if stages[s] == 0 {
			t.Fatalf("stage %q not reached: %v", s, stages)
		}
	}
}

func show(d diagnostic.Internal) string {
	f := "no file"
	if d.FilePath != nil {
		f = *d.FilePath
	}
	return d.Id + " " + d.Description + " " + d.Help + " in " + f
}

// expected: what the compiler itself says, and at which stage
func expected(dir, cfg, given string, host compiler.CompilerHost, suppress bool) (string, []*ast.Diagnostic) {
	c, ds := tsoptions.GetParsedCommandLineOfConfigFile(given, &core.CompilerOptions{}, nil, host, nil)
	if len(ds) > 0 {
		return "parse", ds
	}
	if len(c.Errors) > 0 && !suppress {
		return "errors", c.Errors
	}
	p := compiler.NewProgram(compiler.ProgramOptions{Config: c, SingleThreaded: core.TSTrue, Host: host, UseSourceOfProjectReference: true})
	if ds := p.GetProgramDiagnostics(); len(ds) > 0 && !suppress {
		return "options", ds
	}
	return "", nil
}
