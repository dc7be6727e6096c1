package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

const (
	goroot  = "/opt/veriftools/go1.26.10"
	modroot = "/root/go/pkg/mod"
	tsgo    = modroot + "/github.com/microsoft/typescript-go@v0.0.0-20260708042240-2bd066d87f5b"
	modPath = "github.com/typescript-eslint/tsgolint"
	vsPath  = modPath + "/internal/vs"
)

// Env is a prepared scratch area through which the real /repo tree is compiled
// or loaded: overlay (patched typescript-go files, internal/collections,
// contract files) and a modfile with absolute replacements.
type Env struct {
	Repo    string
	Work    string
	Overlay map[string]string
	ModFile string
	OvFile  string
}

func goEnv(work string) []string {
	env := []string{}
	for _, e := range os.Environ() {
		k, _, _ := strings.Cut(e, "=")
		switch k {
		case "GOROOT", "GOFLAGS", "GOPROXY", "GOWORK", "GOMODCACHE", "GOTOOLCHAIN", "GOSUMDB", "GONOSUMDB", "CGO_ENABLED", "PATH", "GOCACHE", "GO111MODULE":
			continue
		}
		env = append(env, e)
	}
	if os.Getenv("HOME") == "" {
		env = append(env, "HOME=/root")
	}
	if c := os.Getenv("GOCACHE"); c != "" {
		env = append(env, "GOCACHE="+c)
	}
	return append(env,
		"GOROOT="+goroot, "PATH="+goroot+"/bin:"+os.Getenv("PATH"),
		"GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0", "GONOSUMDB=*", "GOSUMDB=off",
		"GOFLAGS=-modcacherw", "GOPROXY=file://"+modroot+"/cache/download", "GOMODCACHE="+work+"/mc")
}

// PrepareEnv builds overlay and modfile below work.
func PrepareEnv(repo, work string, extra map[string]string) (*Env, error) {
	e := &Env{Repo: repo, Work: work, Overlay: map[string]string{}}
	ts := filepath.Join(work, "ts")
	if err := os.MkdirAll(ts, 0o755); err != nil {
		return nil, err
	}
	if err := os.MkdirAll(filepath.Join(work, "mc"), 0o755); err != nil {
		return nil, err
	}
	patches, _ := filepath.Glob(filepath.Join(repo, "patches", "*.patch"))
	sort.Strings(patches)
	files := map[string]bool{}
	for _, p := range patches {
		b, err := os.ReadFile(p)
		if err != nil {
			return nil, err
		}
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "+++ b/") {
				f, _, _ := strings.Cut(strings.TrimSpace(l[6:]), "\t")
				files[f] = true
			}
		}
	}
	for f := range files {
		b, err := os.ReadFile(filepath.Join(tsgo, f))
		if err != nil {
			continue // new file
		}
		d := filepath.Join(ts, f)
		os.MkdirAll(filepath.Dir(d), 0o755)
		if err := os.WriteFile(d, b, 0o644); err != nil {
			return nil, err
		}
	}
	for _, p := range patches {
		c := exec.Command("patch", "-p1", "-s", "--no-backup-if-mismatch", "-i", p)
		c.Dir = ts
		if out, err := c.CombinedOutput(); err != nil {
			return nil, fmt.Errorf("patch %s: %v: %s", p, err, out)
		}
	}
	err := filepath.Walk(ts, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() {
			return err
		}
		rel, _ := filepath.Rel(ts, p)
		if !strings.HasSuffix(rel, ".go") {
			return nil
		}
		if strings.HasPrefix(rel, "internal/collections/") {
			if !strings.HasSuffix(rel, "_test.go") {
				e.Overlay[filepath.Join(repo, rel)] = p
			}
			return nil
		}
		e.Overlay[filepath.Join(tsgo, rel)] = p
		return nil
	})
	if err != nil {
		return nil, err
	}
	cs, _ := filepath.Glob(filepath.Join(tsgo, "internal/collections/*.go"))
	for _, c := range cs {
		if strings.HasSuffix(c, "_test.go") {
			continue
		}
		d := filepath.Join(repo, "internal/collections", filepath.Base(c))
		if _, ok := e.Overlay[d]; !ok {
			e.Overlay[d] = c
		}
	}
	for k, v := range extra {
		e.Overlay[k] = v
	}
	e.OvFile = filepath.Join(work, "overlay.json")
	b, _ := json.MarshalIndent(map[string]any{"Replace": e.Overlay}, "", " ")
	if err := os.WriteFile(e.OvFile, b, 0o644); err != nil {
		return nil, err
	}
	// modfile
	gm, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return nil, err
	}
	m := strings.ReplaceAll(string(gm), "=> ./", "=> "+repo+"/")
	m += `
replace (
 github.com/dlclark/regexp2/v2 => MC/github.com/dlclark/regexp2/v2@v2.7.1
 github.com/go-json-experiment/json => MC/github.com/go-json-experiment/json@v0.0.0-20260623181947-01eb4420fa68
 github.com/google/go-cmp => MC/github.com/google/go-cmp@v0.7.0
 github.com/klauspost/cpuid/v2 => MC/github.com/klauspost/cpuid/v2@v2.2.10
 github.com/mackerelio/go-osstat => MC/github.com/mackerelio/go-osstat@v0.2.7
 github.com/microsoft/typescript-go => ` + tsgo + `
 github.com/zeebo/xxh3 => MC/github.com/zeebo/xxh3@v1.1.0
 golang.org/x/sync => MC/golang.org/x/sync@v0.22.0
 golang.org/x/sys => MC/golang.org/x/sys@v0.47.0
 golang.org/x/text => MC/golang.org/x/text@v0.41.0
 gotest.tools/v3 => MC/gotest.tools/v3@v3.5.2
)
`
	m = strings.ReplaceAll(m, "MC/", modroot+"/")
	e.ModFile = filepath.Join(work, "m.mod")
	if err := os.WriteFile(e.ModFile, []byte(m), 0o644); err != nil {
		return nil, err
	}
	lines := map[string]bool{}
	for _, f := range []string{filepath.Join(repo, "go.sum"), "/opt/vp/mod/extra.sum"} {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, l := range strings.Split(string(b), "\n") {
			if l != "" {
				lines[l] = true
			}
		}
	}
	var ls []string
	for l := range lines {
		ls = append(ls, l)
	}
	sort.Strings(ls)
	return e, os.WriteFile(filepath.Join(work, "m.sum"), []byte(strings.Join(ls, "\n")+"\n"), 0o644)
}

func (e *Env) GoCmd(args ...string) *exec.Cmd {
	c := exec.Command(goroot+"/bin/go", args...)
	c.Dir = e.Repo
	c.Env = goEnv(e.Work)
	return c
}
func (e *Env) BuildFlags() []string {
	return []string{"-mod=mod", "-modfile=" + e.ModFile, "-overlay=" + e.OvFile}
}

type listPkg struct {
	ImportPath string
	Dir        string
	Name       string
	GoFiles    []string
	Imports    []string
	ImportMap  map[string]string
	Standard   bool
	DepOnly    bool
	Error      *struct{ Err string }
	DepsErrors []*struct{ Err string }
}

type Loaded struct {
	Fset *token.FileSet
	Pkgs map[string]*LPkg
	Prog *ssa.Program
	SSA  map[string]*ssa.Package
	Errs []string // type errors in packages with bodies
}
type LPkg struct {
	L     *listPkg
	Types *types.Package
	Info  *types.Info
	Files []*ast.File
	Body  bool
	done  chan struct{}
}

func wantBody(path string, std bool, bodyPkgs map[string]bool) bool {
	if bodyPkgs[path] {
		return true
	}
	return strings.HasPrefix(path, modPath+"/") || path == modPath
}

func (e *Env) Load(patterns []string, bodyPkgs map[string]bool) (*Loaded, error) {
	args := append([]string{"list", "-e", "-deps", "-json=ImportPath,Dir,Name,GoFiles,Imports,ImportMap,Standard,DepOnly,Error,DepsErrors"}, e.BuildFlags()...)
	c := e.GoCmd(append(args, patterns...)...)
	var se bytes.Buffer
	c.Stderr = &se
	out, err := c.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v: %s", err, se.String())
	}
	ld := &Loaded{Fset: token.NewFileSet(), Pkgs: map[string]*LPkg{}, SSA: map[string]*ssa.Package{}}
	dec := json.NewDecoder(bytes.NewReader(out))
	var order []*LPkg
	for dec.More() {
		var l listPkg
		if err := dec.Decode(&l); err != nil {
			return nil, err
		}
		if l.Error != nil {
			return nil, fmt.Errorf("package %s: %s", l.ImportPath, l.Error.Err)
		}
		p := &LPkg{L: &l, done: make(chan struct{}), Body: wantBody(l.ImportPath, l.Standard, bodyPkgs)}
		ld.Pkgs[l.ImportPath] = p
		order = append(order, p)
	}
	var mu sync.Mutex
	sem := make(chan struct{}, runtime.NumCPU())
	var wg sync.WaitGroup
	for _, p := range order {
		wg.Add(1)
		go func(p *LPkg) {
			defer wg.Done()
			defer close(p.done)
			if p.L.ImportPath == "unsafe" {
				p.Types = types.Unsafe
				return
			}
			for _, f := range p.L.GoFiles {
				fn := filepath.Join(p.L.Dir, f)
				if filepath.IsAbs(f) {
					fn = f
				}
				src := fn
				if o, ok := e.Overlay[fn]; ok {
					src = o
				}
				sem <- struct{}{}
				b, err := os.ReadFile(src)
				var af *ast.File
				if err == nil {
					mode := parser.SkipObjectResolution
					if p.Body {
						mode |= parser.ParseComments
					}
					af, err = parser.ParseFile(ld.Fset, fn, b, mode)
				}
				<-sem
				if err != nil {
					mu.Lock()
					ld.Errs = append(ld.Errs, err.Error())
					mu.Unlock()
					if af == nil {
						continue
					}
				}
				p.Files = append(p.Files, af)
			}
			for _, i := range p.L.Imports {
				if m, ok := p.L.ImportMap[i]; ok {
					i = m
				}
				if d := ld.Pkgs[i]; d != nil {
					<-d.done
				}
			}
			sem <- struct{}{}
			defer func() { <-sem }()
			conf := types.Config{
				IgnoreFuncBodies: !p.Body,
				FakeImportC:      true,
				GoVersion:        "go1.26",
				Sizes:            types.SizesFor("gc", "amd64"),
				Importer: importerFunc(func(path string) (*types.Package, error) {
					if path == "unsafe" {
						return types.Unsafe, nil
					}
					if m, ok := p.L.ImportMap[path]; ok {
						path = m
					}
					d := ld.Pkgs[path]
					if d == nil || d.Types == nil {
						return nil, fmt.Errorf("no package %s", path)
					}
					return d.Types, nil
				}),
				Error: func(err error) {
					if p.Body {
						mu.Lock()
						ld.Errs = append(ld.Errs, err.Error())
						mu.Unlock()
					}
				},
			}
			if p.Body {
				p.Info = &types.Info{
					Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
					Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{},
					Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{},
				}
			}
			p.Types, _ = conf.Check(p.L.ImportPath, ld.Fset, p.Files, p.Info)
		}(p)
	}
	wg.Wait()
	if len(ld.Errs) > 0 {
		return ld, nil
	}
	ld.Prog = ssa.NewProgram(ld.Fset, ssa.InstantiateGenerics)
	for _, p := range order {
		if p.L.ImportPath == "unsafe" {
			ld.SSA["unsafe"] = ld.Prog.CreatePackage(types.Unsafe, nil, nil, true)
			continue
		}
		var fs []*ast.File
		if p.Body {
			fs = p.Files
		}
		ld.SSA[p.L.ImportPath] = ld.Prog.CreatePackage(p.Types, fs, p.Info, true)
	}
	for _, p := range order {
		if p.Body {
			ld.SSA[p.L.ImportPath].Build()
		}
	}
	return ld, nil
}

type importerFunc func(string) (*types.Package, error)

func (f importerFunc) Import(p string) (*types.Package, error) { return f(p) }
