package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"
	"time"
)

var bodyPkgs = map[string]bool{"slices": true, "maps": true, "cmp": true, "iter": true, "encoding/binary": true, vsPath: true, tsCore: true}

// of the compiler's core package only the text ranges are taken with their code
const tsCore = "github.com/microsoft/typescript-go/internal/core"

func contractOverlay(repo, verif string) map[string]string {
	m := map[string]string{}
	root := filepath.Join(verif, "contracts")
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasSuffix(p, ".go") {
			rel, _ := filepath.Rel(root, p)
			if !requirementsMet(p, filepath.Join(repo, filepath.Dir(rel))) {
				return nil
			}
			m[filepath.Join(repo, rel)] = p
		}
		return nil
	})
	return m
}

// requirementsMet: a contract file whose second line is "//gover:requires F,G" is about helper
// functions that the code may or may not have; without them, their callers are verified with
// whatever code has taken their place.
func requirementsMet(file, dir string) bool {
	b, err := os.ReadFile(file)
	if err != nil {
		return true
	}
	l := strings.SplitN(string(b), "\n", 3)
	if len(l) < 3 || !strings.HasPrefix(l[1], "//gover:requires ") {
		return true
	}
	need := map[string]bool{}
	for _, f := range strings.Split(strings.TrimSpace(l[1][len("//gover:requires "):]), ",") {
		need[f] = true
	}
	fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, f := range fs {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		a, err := parser.ParseFile(token.NewFileSet(), f, nil, parser.SkipObjectResolution)
		if err != nil {
			return true
		}
		for _, d := range a.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil {
				delete(need, fd.Name.Name)
			}
		}
	}
	return len(need) == 0
}

func main() {
	// gover run [-v] name-or-prop...
	if len(os.Args) < 2 {
		fmt.Println("usage: gover run|check ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run":
		cmdRun(os.Args[2:])
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	case "replay":
		// gover replay PROP: run only the replay harness
		work, _ := os.MkdirTemp("", "gover")
		repo := "/repo"
		if r := os.Getenv("GOVER_REPO"); r != "" {
			repo = r
		}
		hit, out, note := runHarness(repo, "/verif", os.Args[2], "quick", 1, work, 860*time.Second)
		os.RemoveAll(work)
		fmt.Println(out, note, "violation reproduced:", hit)
		if hit {
			os.Exit(1)
		}
	default:
		fmt.Println("unknown command")
		os.Exit(2)
	}
}

func cmdRun(args []string) {
	verbose := false
	var names []string
	tier := "quick"
	for _, a := range args {
		if a == "-v" {
			verbose = true
		} else if a == "-t" {
			tier = "thorough"
		} else {
			names = append(names, a)
		}
	}
	repo := "/repo"
	if r := os.Getenv("GOVER_REPO"); r != "" {
		repo = r
	}
	t0 := time.Now()
	work, _ := os.MkdirTemp("", "gover")
	defer os.RemoveAll(work)
	e, err := PrepareEnv(repo, work, contractOverlay(repo, "/verif"))
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	ld, err := e.Load([]string{"./cmd/tsgolint", "./internal/..."}, bodyPkgs)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	if len(ld.Errs) > 0 {
		for i, s := range ld.Errs {
			if i < 20 {
				fmt.Println(s)
			}
		}
		os.Exit(2)
	}
	sp, err := LoadSpec(ld)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	fmt.Printf("loaded in %.2fs\n", time.Since(t0).Seconds())
	fails, tot := 0, 0
	for _, p := range sp.Proves() {
		ok := len(names) == 0
		for _, n := range names {
			if p.fn.Name() == n || contains2(p.props, n) || strings.HasSuffix(n, "*") && strings.HasPrefix(p.fn.Name(), n[:len(n)-1]) {
				ok = true
			}
		}
		if !ok {
			continue
		}
		r := sp.Run(p, tier, func(f string, a ...any) {
			if verbose {
				fmt.Printf(f+"\n", a...)
			}
		})
		good := 0
		for _, o := range r.Obs {
			if o.Res == "discharged" {
				good++
			}
		}
		tot += len(r.Obs)
		fmt.Printf("%-50s %d/%d discharged, %d/%d invariants, %.1fs %s\n", r.Fn, good, len(r.Obs), r.Kept, r.Cands, r.Wall, r.Err)
		if r.Err != "" {
			fails++
		}
		for _, o := range r.Obs {
			if o.Res != "discharged" {
				fails++
				fmt.Printf("   FAIL %s (%s): %s\n", o.Name, o.Pos, o.Res)
				if os.Getenv("GOVER_DUMP") != "" {
					os.WriteFile(fmt.Sprintf("/tmp/dump%d.smt2", fails), []byte(o.text), 0o644)
				}
			} else if verbose {
				fmt.Printf("   ok   %s (%s) %s %.2fs\n", o.Name, o.Pos, o.Solver, o.Sec)
			}
		}
		if verbose {
			for _, a := range r.Assume {
				fmt.Println("   assume:", a)
			}
			for _, a := range r.Trusted {
				fmt.Println("   trusted:", a)
			}
			fmt.Println("   inlined:", r.Inlined)
		}
	}
	fmt.Printf("%d obligations, %d failures, %.1fs, solver runs %d, solver time %.1fs\n", tot, fails, time.Since(t0).Seconds(), solverRuns.Load(), time.Duration(solverTime.Load()).Seconds())
	if fails > 0 {
		os.Exit(1)
	}
}

func contains2(s []string, n string) bool {
	for _, x := range s {
		if x == n {
			return true
		}
	}
	return false
}
