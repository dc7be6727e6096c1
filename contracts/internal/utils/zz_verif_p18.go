//gover:file P18
package utils

import (
	"github.com/microsoft/typescript-go/shim/ast"
	"github.com/microsoft/typescript-go/shim/compiler"
	"github.com/microsoft/typescript-go/shim/core"
	"github.com/microsoft/typescript-go/shim/tsoptions"
	"github.com/microsoft/typescript-go/shim/vfs"
	"github.com/typescript-eslint/tsgolint/internal/diagnostic"
	"github.com/typescript-eslint/tsgolint/internal/vs"
	"strings"
)

// ---- what the compiler says about the configuration

var (
	ghostConfig     *tsoptions.ParsedCommandLine
	ghostParseDiags []*ast.Diagnostic
	ghostProgram    *compiler.Program
	ghostProgDiags  []*ast.Diagnostic
	ghostCreated    bool
	ghostBound      bool
)

//gover:stub github.com/microsoft/typescript-go/shim/tsoptions.GetParsedCommandLineOfConfigFile
func stub_Parse(configFileName string, options *core.CompilerOptions, raw any, sys tsoptions.ParseConfigHost, cache tsoptions.ExtendedConfigCache) (*tsoptions.ParsedCommandLine, []*ast.Diagnostic) {
	vs.Assert("the configuration file asked for is parsed", configFileName == ghostPath)
	return ghostConfig, ghostParseDiags
}

//gover:stub github.com/microsoft/typescript-go/shim/compiler.NewProgram
func stub_NewProgram(opts compiler.ProgramOptions) *compiler.Program {
	vs.Assert("the program is made from the parsed configuration", opts.Config == ghostConfig)
	ghostCreated = true
	return ghostProgram
}

//gover:stub (*github.com/microsoft/typescript-go/internal/compiler.Program).GetProgramDiagnostics
func stub_ProgDiags(p *compiler.Program) []*ast.Diagnostic { return ghostProgDiags }

//gover:stub (*github.com/microsoft/typescript-go/internal/compiler.Program).BindSourceFiles
func stub_Bind(p *compiler.Program) { ghostBound = ghostBound || p == ghostProgram }

//gover:stub github.com/microsoft/typescript-go/shim/tspath.ResolvePath
func stub_Resolve(path string, paths ...string) string {
	return vs.UF[string]("resolve", path, paths[0], len(paths))
}

var ghostPath string
var ghostResolved string

// specReported: w[i] tells what diagnostic ds[i] says
func specOne(w diagnostic.Internal, d *ast.Diagnostic) bool {
	return w.Range.Pos() == d.Loc().Pos() && w.Range.End() == d.Loc().End() && w.Id == "tsconfig-error" && w.FilePath != nil
}

func specFile(d *ast.Diagnostic) string {
	if d.File() != nil && d.File().FileName() != "" {
		return d.File().FileName()
	}
	return ghostResolved
}

func specHelp(w diagnostic.Internal, d *ast.Diagnostic) bool { return w.Help == GetDiagnosticMessage(d) }
func specHelp2(w diagnostic.Internal, d *ast.Diagnostic) bool {
	m := GetDiagnosticMessage(d)
	return strings.HasPrefix(w.Help, m)
}

//gover:inv * for=verify_CreateProgram
func inv_reported(ds []*ast.Diagnostic, w []diagnostic.Internal, rangeindex int) bool {
	return vs.Forall(func(i int) bool { return vs.Imp(0 <= i && i <= rangeindex, specOne(w[i], ds[i])) })
}

//gover:inv * for=verify_CreateProgram
func inv_path(ds []*ast.Diagnostic, w []diagnostic.Internal, rangeindex int) bool {
	return vs.Forall(func(i int) bool { return vs.Imp(0 <= i && i <= rangeindex, vs.Whole(w[i].FilePath) && *w[i].FilePath == specFile(ds[i])) })
}

//gover:inv * for=verify_CreateProgram
func inv_help(ds []*ast.Diagnostic, w []diagnostic.Internal, rangeindex int) bool {
	return vs.Forall(func(i int) bool { return vs.Imp(0 <= i && i <= rangeindex, specHelp(w[i], ds[i])) })
}

//gover:inv * for=verify_CreateProgram
func inv_help2(ds []*ast.Diagnostic, w []diagnostic.Internal, rangeindex int) bool {
	return vs.Forall(func(i int) bool { return vs.Imp(0 <= i && i <= rangeindex, specHelp2(w[i], ds[i])) })
}

func specPaths(w []diagnostic.Internal, ds []*ast.Diagnostic) bool {
	return vs.Forall(func(i int) bool { return vs.Imp(0 <= i && i < len(ds), *w[i].FilePath == specFile(ds[i])) })
}

func specAll(w []diagnostic.Internal, ds []*ast.Diagnostic) bool {
	return len(w) == len(ds) && vs.Forall(func(i int) bool { return vs.Imp(0 <= i && i < len(ds), specOne(w[i], ds[i])) })
}

//gover:prove P18
func verify_CreateProgram(single bool, fs vfs.FS, cwd string, tsconfigPath string, host compiler.CompilerHost, suppress bool) {
	vs.Assume(!ghostCreated && !ghostBound && fs != nil)
	vs.Assume(vs.Imp(len(ghostParseDiags) == 0, ghostConfig != nil))
	vs.Assume(vs.Forall(func(i int) bool { return vs.Imp(0 <= i && i < len(ghostParseDiags), ghostParseDiags[i] != nil) }))
	vs.Assume(vs.Forall(func(i int) bool { return vs.Imp(0 <= i && i < len(ghostProgDiags), ghostProgDiags[i] != nil) }))
	ghostPath = tsconfigPath
	ghostResolved = stub_Resolve(cwd, tsconfigPath)
	exists := fs.FileExists(ghostResolved)
	program, diags, err := CreateProgram(single, fs, cwd, tsconfigPath, host, suppress)
	errs := ghostConfig.Errors
	vs.Assert("a missing configuration file is an error", vs.Imp(!exists, err != nil && program == nil))
	if exists {
		switch {
		case len(ghostParseDiags) > 0:
			vs.Assert("parse problems: no program and no failure", program == nil && err == nil)
			vs.Assert("parse problems: each reported once, in order", specAll(diags, ghostParseDiags))
			vs.Assert("parse problems: each names its file, or else the configuration", specPaths(diags, ghostParseDiags))
			vs.Assert("parse problems: the message", vs.Forall(func(i int) bool {
				return vs.Imp(0 <= i && i < len(diags), specHelp(diags[i], ghostParseDiags[i]))
			}))
		case len(errs) > 0 && !suppress:
			vs.Assert("configuration errors: no program and no failure", program == nil && err == nil)
			vs.Assert("configuration errors: each reported once, in order", specAll(diags, errs))
			vs.Assert("configuration errors: each names its file, or else the configuration", specPaths(diags, errs))
			vs.Assert("configuration errors: the message", vs.Forall(func(i int) bool {
				return vs.Imp(0 <= i && i < len(diags), specHelp(diags[i], errs[i]))
			}))
		case ghostProgram == nil:
			vs.Assert("no program: an error", program == nil && err != nil)
		case len(ghostProgDiags) > 0 && !suppress:
			vs.Assert("option errors: no program and no failure", program == nil && err == nil)
			vs.Assert("option errors: each reported once, in order", specAll(diags, ghostProgDiags))
			vs.Assert("option errors: each names its file, or else the configuration", specPaths(diags, ghostProgDiags))
			vs.Assert("option errors: the message", vs.Forall(func(i int) bool {
				return vs.Imp(0 <= i && i < len(diags), specHelp2(diags[i], ghostProgDiags[i]))
			}))
		default:
			vs.Assert("otherwise the program, bound, and no diagnostics", program == ghostProgram && err == nil && len(diags) == 0 && ghostBound)
		}
	}
}
