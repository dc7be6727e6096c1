package main

import (
	"encoding/json"
	"errors"
	"os"
	"strings"
	"sync"

	"github.com/microsoft/typescript-go/shim/ast"
	"github.com/microsoft/typescript-go/shim/core"
	"github.com/microsoft/typescript-go/shim/parser"
	"github.com/typescript-eslint/tsgolint/internal/diagnostic"
	"github.com/typescript-eslint/tsgolint/internal/linter"
	"github.com/typescript-eslint/tsgolint/internal/rule"
)

// A synthetic linter run: what it reports, how fast and with what result.
type synthetic struct {
	Sizes   []int // length of each diagnostic's description
	Workers int   // 0: reported in order by the calling goroutine
	Fail    bool
}

var vfile = parser.ParseSourceFile(ast.SourceFileParseOptions{FileName: "/v/a.ts", Path: "/v/a.ts"}, "let x = 1\n", core.ScriptKindTS)

func (s *synthetic) report(o linter.RunLinterOptions, i int) {
	text := strings.Repeat("d", s.Sizes[i])
	id := "m" + string(rune('0'+i%10))
	if i%3 == 2 {
		p := "/v/tsconfig.json"
		o.OnInternalDiagnostic(diagnostic.Internal{Range: core.NewTextRange(i, i+1), Id: id, Description: text, FilePath: &p})
	} else {
		o.OnRuleDiagnostic(rule.RuleDiagnostic{Range: core.NewTextRange(i, i+1), RuleName: "r", Message: rule.RuleMessage{Id: id, Description: text}, SourceFile: vfile})
	}
}

func init() {
	scenarios["synthetic"] = func() {
		var s synthetic
		json.Unmarshal([]byte(os.Getenv("VERIF_SYNTHETIC")), &s)
		linter.VerifRun = func(o linter.RunLinterOptions) error {
			if s.Workers == 0 {
				for i := range s.Sizes {
					s.report(o, i)
				}
			} else {
				var wg sync.WaitGroup
				for w := range s.Workers {
					wg.Add(1)
					go func() {
						defer wg.Done()
						for i := w; i < len(s.Sizes); i += s.Workers {
							s.report(o, i)
						}
					}()
				}
				wg.Wait()
			}
			if s.Fail {
				return errors.New("synthetic failure")
			}
			return nil
		}
	}
}
