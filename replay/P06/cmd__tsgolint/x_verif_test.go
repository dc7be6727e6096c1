package main

import (
	"encoding/json"
	"os"
	"strings"
	"testing"
)

// Failing stages end with status 1 and exactly one error frame; successful runs
// end with status 0 and none.
func TestReplayOutcome(t *testing.T) {
	dir := vproject(t, map[string]string{
		"tsconfig.json":     `{"compilerOptions":{"strict":true}}`,
		"a.ts":              "declare const p: Promise<number>\np\n",
		"bad/tsconfig.json": `{"compilerOptions":{"noSuchOption":1,"target":"zzz"}}`,
		"bad/b.ts":          "export const x = 1\n",
		"loose.txt":         "",
	})
	gone := dir + "/gone"
	os.Mkdir(gone, 0o755)
	check := func(name string, v *vrun, exit, errs int, text string) {
		t.Helper()
		if len(v.rest) > 0 || v.exit != exit || v.count(headlessMessageTypeError) != errs {
			t.Fatalf("%s: want exit status %d and %d error frame(s), got %v", name, exit, errs, v)
		}
		if errs == 1 {
			f := v.frames[len(v.frames)-1]
			var e struct {
				Error *string `json:"error"`
			}
			if f.Type != byte(headlessMessageTypeError) || json.Unmarshal(f.Body, &e) != nil || e.Error == nil || !strings.Contains(*e.Error, text) {
				t.Fatalf("%s: error frame %v", name, v)
			}
		}
	}
	ok := func(paths ...string) []byte {
		return vjson(map[string]any{"version": 2, "configs": []any{map[string]any{"file_paths": paths, "rules": []any{map[string]any{"name": "no-floating-promises"}}}}})
	}
	for _, in := range []string{"", "{", "nonsense", "[]", `{"version":3}`, `{"version":1,"files":[{"file_path":"a","rules":[]}]}`, `{"files":[]}`, `{}`, `{"version":2,"configs":7}`, `{"version":"2"}`} {
		check("payload "+in, vheadless(t, []byte(in), vopts{dir: dir}), 1, 1, "error parsing config")
	}
	d, _ := os.Open(dir)
	check("standard input is a directory", vheadless(t, nil, vopts{dir: dir, stdin: d}), 1, 1, "reading from stdin")
	d.Close()
	// the working directory vanishes before the run
	check("no working directory", vheadless(t, ok(), vopts{scenario: "rmcwd", dir: gone, env: []string{"PWD="}}), 1, 1, "current directory")
	check("unknown option", vheadless(t, ok(), vopts{dir: dir, args: []string{"-debug", "nonsense"}}), 1, 0, "")
	check("profile cannot be written", vheadless(t, ok(), vopts{dir: dir, args: []string{"-cpuprof", dir + "/no/such/dir/x"}}), 1, 0, "")
	check("trace cannot be written", vheadless(t, ok(), vopts{dir: dir, args: []string{"-trace", dir + "/no/such/dir/x"}}), 1, 0, "")
	check("nothing to lint", vheadless(t, ok(), vopts{dir: dir}), 0, 0, "")
	v := vheadless(t, ok(dir+"/a.ts"), vopts{dir: dir})
	check("one file", v, 0, 0, "")
	if v.count(headlessMessageTypeDiagnostic) != 1 {
		t.Fatalf("one file: %v", v)
	}
	check("broken tsconfig", vheadless(t, ok(dir+"/bad/b.ts"), vopts{dir: dir}), 0, 0, "")
	for _, n := range []int{0, 1, 5000} {
		for _, fail := range []bool{false, true} {
			s := synthetic{Sizes: make([]int, n), Fail: fail}
			for _, args := range [][]string{nil, {"-debug", "timings"}, {"-fix", "-fix-suggestions"}} {
				v := vheadless(t, ok(), vopts{scenario: "synthetic", dir: dir, args: args, env: []string{"VERIF_SYNTHETIC=" + string(vjson(s))}})
				if fail {
					check("linter fails", v, 1, 1, "synthetic failure")
				} else {
					check("linter succeeds", v, 0, 0, "")
				}
			}
		}
	}
}

func init() {
	scenarios["rmcwd"] = func() {
		d, _ := os.Getwd()
		os.Remove(d)
		os.Unsetenv("PWD")
	}
}
