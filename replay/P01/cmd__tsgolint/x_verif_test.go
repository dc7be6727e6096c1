package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"testing"

	"github.com/microsoft/typescript-go/shim/vfs"
	"github.com/microsoft/typescript-go/shim/vfs/osvfs"
)

func vseed() int64 { n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); return n }

// Reads through the overlay are compared with the overrides and the real
// underlying file system, in random order with repetition (so that state kept
// between reads shows).
func TestReplayOverlay(t *testing.T) {
	dir := t.TempDir()
	r := rand.New(rand.NewSource(vseed()))
	contents := []string{"", "a", "x = 1\n", "\n", " ", "\xff", "// disk", "é"}
	stems := []string{"a.ts", "A.ts", "b.TS", "sub/a.ts", "sub/../a.ts", "./a.ts", "c.d.ts", "c.js", "d.json", "node_modules/x/i.ts", "tsconfig.json", "é.ts", "é.ts", "x y.ts", ""}
	for round := 0; round < 300; round++ {
		root := filepath.Join(dir, fmt.Sprint(round))
		os.MkdirAll(filepath.Join(root, "sub"), 0o755)
		os.MkdirAll(filepath.Join(root, "node_modules/x"), 0o755)
		over := map[string]string{}
		var paths []string
		for _, s := range stems {
			p := filepath.ToSlash(root) + "/" + s
			if r.Intn(3) == 0 {
				p = s
			}
			if r.Intn(6) == 0 {
				p = strings.ReplaceAll(p, "/", "\\")
			}
			paths = append(paths, p, strings.ToUpper(p), p+"/", strings.TrimSuffix(p, ".ts"))
			if r.Intn(2) == 0 {
				os.WriteFile(filepath.Join(root, s), []byte(contents[r.Intn(len(contents))]), 0o644)
			}
			if r.Intn(2) == 0 {
				over[p] = contents[r.Intn(len(contents))]
			}
		}
		want := map[string]string{}
		for k, v := range over {
			want[k] = v
		}
		base := osvfs.FS()
		var fs vfs.FS = newOverlayFS(base, over)
		for i := 0; i < 200; i++ {
			p := paths[r.Intn(len(paths))]
			rel := p != "" && !filepath.IsAbs(p)
			if w, ok := want[p]; ok {
				if r.Intn(2) == 0 {
					if !fs.FileExists(p) {
						t.Fatalf("overrides=%q: FileExists(%q) = false for an overridden path", want, p)
					}
				}
				if c, ok := fs.ReadFile(p); !ok || c != w {
					t.Fatalf("overrides=%q: ReadFile(%q) = %q, %v; the override is %q", want, p, c, ok, w)
				}
				continue
			}
			if rel || p == "" {
				continue // the OS file system insists on absolute paths
			}
			if g, w := fs.FileExists(p), base.FileExists(p); g != w {
				t.Fatalf("overrides=%q: FileExists(%q) = %v, underlying %v", want, p, g, w)
			}
			c, ok := fs.ReadFile(p)
			uc, uok := base.ReadFile(p)
			if c != uc || ok != uok {
				t.Fatalf("overrides=%q: ReadFile(%q) = %q, %v; underlying %q, %v", want, p, c, ok, uc, uok)
			}
		}
	}
}
