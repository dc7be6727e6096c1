package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"testing"
	"time"
)

// Tests run the headless command in a child process: this test binary itself,
// with VERIF_HEADLESS naming a scenario.
var scenarios = map[string]func(){"real": func() {}}

func TestMain(m *testing.M) {
	if s := os.Getenv("VERIF_HEADLESS"); s != "" {
		scenarios[s]()
		var args []string
		json.Unmarshal([]byte(os.Getenv("VERIF_ARGS")), &args)
		os.Exit(runHeadless(args))
	}
	os.Exit(m.Run())
}

func seeded() *rand.Rand {
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return rand.New(rand.NewSource(n))
}

type vframe struct {
	Type byte
	Body []byte
}

type vrun struct {
	frames []vframe
	rest   []byte // bytes after the last whole frame
	stderr string
	exit   int
}

func (r *vrun) count(t headlessMessageType) (n int) {
	for _, f := range r.frames {
		if f.Type == byte(t) {
			n++
		}
	}
	return
}

func (r *vrun) String() string {
	var b bytes.Buffer
	fmt.Fprintf(&b, "exit status %d, %d frames, %d stray bytes", r.exit, len(r.frames), len(r.rest))
	for i, f := range r.frames {
		if i > 5 {
			break
		}
		fmt.Fprintf(&b, "\n  frame type %d: %.200s", f.Type, f.Body)
	}
	fmt.Fprintf(&b, "\n  stderr: %.1500s", r.stderr)
	return b.String()
}

type vopts struct {
	scenario string
	args     []string
	env      []string
	dir      string
	stdin    *os.File
	timeout  time.Duration
}

func vheadless(t *testing.T, payload []byte, o vopts) *vrun {
	t.Helper()
	if o.scenario == "" {
		o.scenario = "real"
	}
	if o.timeout == 0 {
		o.timeout = 60 * time.Second
	}
	exe, _ := os.Executable()
	c := exec.Command(exe)
	a, _ := json.Marshal(o.args)
	c.Env = append(append(os.Environ(), "VERIF_HEADLESS="+o.scenario, "VERIF_ARGS="+string(a)), o.env...)
	c.Dir = o.dir
	if o.stdin != nil {
		c.Stdin = o.stdin
	} else {
		c.Stdin = bytes.NewReader(payload)
	}
	var out, errb bytes.Buffer
	c.Stdout, c.Stderr = &out, &errb
	if err := c.Start(); err != nil {
		t.Fatal(err)
	}
	timer := time.AfterFunc(o.timeout, func() { c.Process.Kill() })
	c.Wait()
	if !timer.Stop() {
		t.Fatalf("headless run does not end within %v (stdin %.300s)", o.timeout, payload)
	}
	r := &vrun{stderr: errb.String(), exit: c.ProcessState.ExitCode(), rest: out.Bytes()}
	for len(r.rest) >= 5 {
		n := int(binary.LittleEndian.Uint32(r.rest))
		if n > len(r.rest)-5 || r.rest[4] > 2 || !json.Valid(r.rest[5:5+n]) {
			break
		}
		r.frames = append(r.frames, vframe{r.rest[4], r.rest[5 : 5+n]})
		r.rest = r.rest[5+n:]
	}
	return r
}

// vproject writes files below a fresh directory and returns it.
func vproject(t *testing.T, files map[string]string) string {
	dir := t.TempDir()
	if d, err := filepath.EvalSymlinks(dir); err == nil {
		dir = d
	}
	for n, s := range files {
		p := filepath.Join(dir, n)
		os.MkdirAll(filepath.Dir(p), 0o755)
		if err := os.WriteFile(p, []byte(s), 0o644); err != nil {
			t.Fatal(err)
		}
	}
	return filepath.ToSlash(dir)
}

func vjson(v any) []byte { b, _ := json.Marshal(v); return b }
