package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"testing"
)

func TestReplayPayload(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	r := rand.New(rand.NewSource(seed))
	bad := func(in string, f string, a ...any) { t.Fatalf("payload %s: %s", in, fmt.Sprintf(f, a...)) }
	names := []string{"", "a", "no-floating-promises", "typescript/no-x", "é", "a.ts", "C:\\x.ts", "/a/b.ts"}
	name := func() string { return names[r.Intn(len(names))] }
	for i := 0; i < 4000; i++ {
		// V1
		type f1 struct {
			FilePath string   `json:"file_path"`
			Rules    []string `json:"rules"`
		}
		n := r.Intn(5)
		files := []f1{}
		for j := 0; j < n; j++ {
			f := f1{FilePath: name(), Rules: []string{}}
			for k := r.Intn(5); k > 0; k-- {
				f.Rules = append(f.Rules, name())
			}
			files = append(files, f)
		}
		m := map[string]any{"files": files}
		if r.Intn(2) == 0 {
			m["version"] = 0
		}
		b, _ := json.Marshal(m)
		p, err := deserializePayload(b)
		if n == 0 {
			if err == nil {
				bad(string(b), "accepted without files")
			}
		} else {
			if err != nil || p == nil {
				bad(string(b), "rejected: %v", err)
			}
			if p.Version != 2 || len(p.SourceOverrides) != 0 || p.ReportSemantic || p.ReportSyntactic {
				bad(string(b), "version %d overrides %v report %v %v", p.Version, p.SourceOverrides, p.ReportSyntactic, p.ReportSemantic)
			}
			if len(p.Configs) != n {
				bad(string(b), "%d configs", len(p.Configs))
			}
			for j, c := range p.Configs {
				if len(c.FilePaths) != 1 || c.FilePaths[0] != files[j].FilePath {
					bad(string(b), "config %d has paths %q", j, c.FilePaths)
				}
				var got []string
				for _, x := range c.Rules {
					if x.Options != nil {
						bad(string(b), "config %d: options %v", j, x.Options)
					}
					got = append(got, x.Name)
				}
				if len(got)+len(files[j].Rules) > 0 && !reflect.DeepEqual(got, files[j].Rules) {
					bad(string(b), "config %d has rules %q", j, got)
				}
			}
		}
		// V2
		var cfgs []map[string]any
		for j := r.Intn(4); j > 0; j-- {
			var paths []string
			for k := r.Intn(4); k > 0; k-- {
				paths = append(paths, name())
			}
			var rules []map[string]any
			for k := r.Intn(4); k > 0; k-- {
				x := map[string]any{"name": name()}
				switch r.Intn(5) {
				case 0:
					x["options"] = map[string]any{"a": []any{"b", 1.5, nil}}
				case 1:
					x["options"] = "s"
				case 2:
					x["options"] = false
				case 3:
					x["options"] = map[string]any{}
				}
				rules = append(rules, x)
			}
			cfgs = append(cfgs, map[string]any{"file_paths": paths, "rules": rules})
		}
		over := map[string]string{}
		for j := r.Intn(3); j > 0; j-- {
			over[name()] = name()
		}
		syn, sem := r.Intn(2) == 0, r.Intn(2) == 0
		m2 := map[string]any{"version": 2, "configs": cfgs, "source_overrides": over, "report_syntactic": syn, "report_semantic": sem}
		if r.Intn(4) == 0 {
			m2["files"] = files
		}
		b, _ = json.Marshal(m2)
		p, err = deserializePayload(b)
		if err != nil || p == nil {
			bad(string(b), "rejected: %v", err)
		}
		if p.Version != 2 || p.ReportSyntactic != syn || p.ReportSemantic != sem || len(p.Configs) != len(cfgs) {
			bad(string(b), "got %+v", *p)
		}
		if len(over)+len(p.SourceOverrides) > 0 && !reflect.DeepEqual(p.SourceOverrides, over) {
			bad(string(b), "overrides %v", p.SourceOverrides)
		}
		for j, c := range p.Configs {
			paths, _ := cfgs[j]["file_paths"].([]string)
			rules, _ := cfgs[j]["rules"].([]map[string]any)
			if len(paths)+len(c.FilePaths) > 0 && !reflect.DeepEqual(c.FilePaths, paths) || len(rules) != len(c.Rules) {
				bad(string(b), "config %d: %+v", j, c)
			}
			for k, x := range c.Rules {
				if x.Name != rules[k]["name"] || !reflect.DeepEqual(x.Options, rules[k]["options"]) {
					bad(string(b), "config %d rule %d: %+v", j, k, x)
				}
			}
		}
	}
	for _, v := range []string{"1", "3", "-1", "4", "20", "22", "256", "258", "65538", "4294967298", "2147483647", "-2"} {
		for _, rest := range []string{`,"files":[{"file_path":"a","rules":[]}]`, `,"configs":[]`, ""} {
			in := `{"version":` + v + rest + "}"
			if p, err := deserializePayload([]byte(in)); err == nil || p != nil {
				bad(in, "accepted: %+v", p)
			}
		}
	}
	for _, in := range []string{"", "{", "[]", "null x", `{"version":"2"}`, `{"version":2,"configs":{}}`, `{"files":{}}`, `{"files":[{"file_path":1}]}`, `{"version":2,"configs":[{"file_paths":[1]}]}`, `{"version":2,"configs":[{"rules":["a"]}]}`, `{"version":2,"report_semantic":"x"}`, `{"version":2,"configs":[]} x`, `{"version":2.5}`} {
		if p, err := deserializePayload([]byte(in)); err == nil || p != nil {
			bad(in, "accepted: %+v", p)
		}
	}
}
