package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// relevant contract files for a property: files without a "//gover:file" header
// are shared; files with one are included when it lists the property.
func contractOverlayFor(repo, verif, prop string) map[string]string {
	m := map[string]string{}
	for k, v := range contractOverlay(repo, verif) {
		b, err := os.ReadFile(v)
		if err != nil {
			continue
		}
		line, _, _ := strings.Cut(string(b), "\n")
		if strings.HasPrefix(line, "//gover:file ") {
			ok := false
			for _, p := range strings.Split(strings.TrimSpace(line[len("//gover:file "):]), ",") {
				if p == prop {
					ok = true
				}
			}
			if !ok {
				continue
			}
		}
		m[k] = v
	}
	return m
}

type Finding struct {
	Property   string `json:"property"`
	Obligation string `json:"obligation"`
	What       string `json:"what"`
}

type findingsFile struct {
	Findings []Finding `json:"findings"`
	Fixed    []string  `json:"fixed"`
}

type fnReport struct {
	Function    string   `json:"contract_function"`
	Obligations int      `json:"obligations"`
	Discharged  int      `json:"discharged"`
	Invariants  string   `json:"loop_invariants_kept_of_candidates"`
	Inlined     []string `json:"real_functions_executed,omitempty"`
	Used        []string `json:"callee_contracts_used,omitempty"`
	Seconds     float64  `json:"seconds"`
	Error       string   `json:"error,omitempty"`
}

func cmdCheck(args []string) int {
	if len(args) < 1 {
		fmt.Println("usage: gover check PROP [quick|thorough]")
		return 2
	}
	prop, tier := args[0], "quick"
	if len(args) > 1 {
		tier = args[1]
	}
	verif := os.Getenv("GOVER_VERIF")
	if verif == "" {
		verif = "/verif"
	}
	repo := os.Getenv("GOVER_REPO")
	if repo == "" {
		repo = "/repo"
	}
	seed := 1
	if s, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
		seed = s
	}
	t0 := time.Now()
	work, err := os.MkdirTemp("", "gover")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(work)
	var kf findingsFile
	if b, err := os.ReadFile(filepath.Join(verif, "known_findings.json")); err == nil {
		if err := json.Unmarshal(b, &kf); err != nil {
			fmt.Println("known_findings.json:", err)
			return 2
		}
	}

	var fatal []string
	var results []*ProveRes
	e, err := PrepareEnv(repo, work, contractOverlayFor(repo, verif, prop))
	var sp *Spec
	if err != nil {
		fatal = append(fatal, err.Error())
	} else {
		ld, err := e.Load([]string{"./cmd/tsgolint", "./internal/..."}, bodyPkgs)
		if err != nil {
			fatal = append(fatal, err.Error())
		} else if len(ld.Errs) > 0 {
			fatal = append(fatal, ld.Errs...)
		} else if sp, err = LoadSpec(ld); err != nil {
			fatal = append(fatal, err.Error())
		}
	}
	if sp != nil {
		for _, p := range sp.Proves() {
			if !contains2(p.props, prop) {
				continue
			}
			sp.only = prop
			r := sp.Run(p, tier, func(string, ...any) {})
			results = append(results, r)
			good := 0
			for _, o := range r.Obs {
				if o.Res == "discharged" {
					good++
				}
			}
			fmt.Printf("%s: %d/%d obligations discharged, %.1fs %s\n", r.Fn, good, len(r.Obs), r.Wall, r.Err)
		}
		if len(results) == 0 {
			fatal = append(fatal, "no contract function for "+prop)
		}
	}

	// collect
	type failure struct {
		Name, Pos, Why string
		text           string
	}
	var fails []failure
	var known []Finding
	obl, dis := 0, 0
	bySolver := map[string]int{}
	trusted, assume, inl := map[string]bool{}, map[string]bool{}, map[string]bool{}
	var fns []fnReport
	var samples []map[string]any
	for _, m := range fatal {
		fails = append(fails, failure{Name: "load of /repo with its contracts", Why: m})
	}
	for _, r := range results {
		fr := fnReport{Function: r.Fn, Invariants: fmt.Sprintf("%d of %d", r.Kept, r.Cands), Used: r.Used, Seconds: r.Wall, Error: r.Err, Inlined: r.Inlined}
		for _, a := range r.Trusted {
			trusted[a] = true
		}
		for _, a := range r.Assume {
			assume[a] = true
		}
		for _, a := range r.Inlined {
			inl[a] = true
		}
		if r.Err != "" {
			fails = append(fails, failure{Name: r.Fn + ": obligations could not be generated", Why: r.Err})
			obl++
		}
		for _, o := range r.Obs {
			obl++
			fr.Obligations++
			if o.Res == "discharged" {
				dis++
				fr.Discharged++
				bySolver[o.Solver]++
				if len(samples) < 5 {
					samples = append(samples, map[string]any{"obligation": o.Name, "at": o.Pos, "solver": o.Solver, "seconds": o.Sec})
				}
				continue
			}
			kn := false
			for _, f := range kf.Findings {
				if f.Property == prop && f.Obligation == o.Name {
					known = append(known, f)
					kn = true
				}
			}
			if !kn {
				fails = append(fails, failure{o.Name, o.Pos, o.Res, o.text})
			}
		}
		fns = append(fns, fr)
	}
	for _, f := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, f.What)
	}

	exit := 0
	replayNote := "not run (all obligations discharged)"
	harness := filepath.Join(verif, "replay", prop)
	_, herr := os.Stat(harness)
	os.MkdirAll(filepath.Join(verif, "replays"), 0o755)
	rp := filepath.Join(verif, "replays", prop+"-"+tier+".txt")
	os.Remove(rp)
	bounded, berr := os.ReadFile(filepath.Join(harness, "BOUNDED")) // a bounded stand-in always runs
	if len(fails) > 0 || tier == "thorough" || berr == nil {
		hit, out := false, ""
		left := 860*time.Second - time.Since(t0)
		if herr == nil && left > 20*time.Second {
			hit, out, replayNote = runHarness(repo, verif, prop, tier, seed, work, left)
		} else {
			replayNote = "no replay harness"
		}
		if len(fails) > 0 || hit {
			var b bytes.Buffer
			fmt.Fprintf(&b, "property %s, tier %s\n", prop, tier)
			for _, f := range fails {
				fmt.Fprintf(&b, "FAILED OBLIGATION %s\n  at %s\n  verifier: %s\n", f.Name, f.Pos, f.Why)
				fmt.Printf("failed: %s (%s) %s\n", f.Name, f.Pos, f.Why)
			}
			if hit {
				fmt.Fprintf(&b, "\nFAILING INPUT, replayed against the real code:\n%s\n", out)
			} else {
				fmt.Fprintf(&b, "\nreplay harness: %s\n%s\n", replayNote, out)
			}
			n := 0
			for _, f := range fails {
				if f.text == "" || n >= 3 {
					continue
				}
				n++
				fmt.Fprintf(&b, "\n=== verifier output for %s\n%s\n", f.Name, modelFor(f.text))
			}
			os.WriteFile(rp, b.Bytes(), 0o644)
			exit = 1
			if hit {
				fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
			} else {
				fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, rp)
			}
		}
	}

	tb := []string{
		"gover (this repository's verifier, /verif/gover: SSA symbolic execution, memory model, loop-invariant inference and SMT encoding); no independent proof certificate",
		"golang.org/x/tools/go/ssa and go/types translate the compiled sources faithfully",
		"solvers z3-new 5.x, z3 4.8, cvc5 1.1 answer unsat only when unsatisfiable",
		"typescript-go sources from the module cache with /repo/patches applied (the submodule directory is empty here)",
	}
	for _, a := range sortedKeys(trusted) {
		tb = append(tb, a)
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "proof",
		"wall_s":     time.Since(t0).Seconds(),
		"violations": len(fails),
		"assumptions": append([]string{
			"int is 64-bit and machine overflow of int arithmetic does not occur (mathematical integers)",
			"memory allocation succeeds; stack does not overflow",
			"termination is not proved (partial correctness)",
		}, sortedKeys(assume)...),
		"coverage": map[string]any{
			"obligations": obl, "discharged": dis,
			"checker_cmd":             "/verif/check.sh " + prop + " " + tier,
			"trusted_base":            tb,
			"contract_functions":      fns,
			"real_functions_executed": sortedKeys(inl),
			"discharged_by":           bySolver,
			"solver_runs":             solverRuns.Load(),
			"solver_seconds":          time.Duration(solverTime.Load()).Seconds(),
			"samples":                 samples,
			"known_findings":          known,
			"replay_harness":          replayNote,
		},
	}
	if berr == nil {
		ev["coverage"].(map[string]any)["bounded_stand_in_not_counted_as_proved"] = strings.TrimSpace(string(bounded))
	}
	eb, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(eb, '\n'), 0o644)
	fmt.Printf("%s: %d of %d obligations discharged, %.1fs\n", prop, dis, obl, time.Since(t0).Seconds())
	return exit
}

func modelFor(text string) string {
	q := text + "\n(get-info :reason-unknown)\n(get-model)\n"
	ctx, cancel := context.WithTimeout(context.Background(), 8*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, "z3-new", "-in", "-T:6", "smt.mbqi=false", "smt.auto_config=false")
	c.Stdin = strings.NewReader(q)
	out, _ := c.CombinedOutput()
	if len(out) > 20000 {
		out = append(out[:20000], "\n... truncated"...)
	}
	return string(out)
}

// runHarness compiles the property's replay test into its package through an
// overlay and runs it: a failing test names the concrete failing input.
// A file /verif/replay/PROP/<pkg path with __ for />/x_test.go goes to that package.
func runHarness(repo, verif, prop, tier string, seed int, work string, left time.Duration) (hit bool, out, note string) {
	root := filepath.Join(verif, "replay", prop)
	extra := map[string]string{}
	pkgs := map[string]bool{}
	common := filepath.Join(verif, "replay", "common")
	for _, r := range []string{root, common} {
		filepath.Walk(r, func(p string, fi os.FileInfo, err error) error {
			if err == nil && !fi.IsDir() && strings.HasSuffix(p, ".go") {
				rel, _ := filepath.Rel(r, p)
				dir := strings.ReplaceAll(filepath.Dir(rel), "__", "/")
				if r == common && !pkgs["./"+dir] {
					return nil
				}
				extra[filepath.Join(repo, dir, filepath.Base(p))] = p
				pkgs["./"+dir] = true
			}
			return nil
		})
	}
	hw := filepath.Join(work, "h")
	os.MkdirAll(hw, 0o755)
	pc := exec.Command("python3", filepath.Join(common, "prep.py"), repo, hw)
	if o, err := pc.Output(); err == nil {
		json.Unmarshal(o, &extra)
	}
	e, err := PrepareEnv(repo, hw, extra)
	if err != nil {
		return false, err.Error(), "harness could not be prepared"
	}
	names := []string{}
	for p := range pkgs {
		names = append(names, p)
	}
	sort.Strings(names)
	t0 := time.Now()
	var all bytes.Buffer
	notes := []string{}
	for i, p := range names {
		bin := filepath.Join(hw, fmt.Sprintf("t%d.test", i))
		a := append([]string{"test", "-vet=off", "-c", "-o", bin, "-gcflags=all=-N -l"}, e.BuildFlags()...)
		c := e.GoCmd(append(a, p)...)
		c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
		o, err := runLimited(c, left-time.Since(t0)-10*time.Second)
		if err != nil {
			fmt.Fprintf(&all, "build of harness in %s: %v\n%s\n", p, err, tail(o, 4000))
			notes = append(notes, p+": harness does not build against this tree")
			continue
		}
		r := exec.Command(bin, "-test.run", "^TestReplay", "-test.v", "-test.count=1", "-test.timeout", "240s")
		r.Dir = hw
		r.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
		r.Env = append(goEnv(hw), fmt.Sprintf("VERIF_SEED=%d", seed), "VERIF_TIER="+tier, "GOVER_REPO="+repo)
		lim := left - time.Since(t0) - 5*time.Second
		if lim > 250*time.Second {
			lim = 250 * time.Second
		}
		o, err = runLimited(r, lim)
		os.Remove(bin)
		fmt.Fprintf(&all, "%s:\n%s\n", p, tail(o, 8000))
		if err != nil && (bytes.Contains(o, []byte("--- FAIL")) || bytes.Contains(o, []byte("panic:")) || bytes.Contains(o, []byte("FAIL"))) {
			hit = true
		}
		notes = append(notes, fmt.Sprintf("%s: run, %d test(s) passed, error %v", p, bytes.Count(o, []byte("--- PASS")), err))
	}
	return hit, all.String(), strings.Join(notes, "; ") + fmt.Sprintf(" (%.0fs)", time.Since(t0).Seconds())
}

func tail(b []byte, n int) string {
	if len(b) > n {
		h := n / 2
		return string(b[:h]) + "\n...\n" + string(b[len(b)-h:])
	}
	return string(b)
}

func runLimited(c *exec.Cmd, d time.Duration) ([]byte, error) {
	var b bytes.Buffer
	c.Stdout, c.Stderr = &b, &b
	if d < time.Second {
		return nil, fmt.Errorf("no time left")
	}
	if err := c.Start(); err != nil {
		return nil, err
	}
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	select {
	case err := <-done:
		return b.Bytes(), err
	case <-time.After(d):
		syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
		<-done
		return b.Bytes(), fmt.Errorf("time limit %v", d)
	}
}
