package rule

import (
	"testing"

	"github.com/microsoft/typescript-go/shim/ast"
)

func TestReplayListenerKinds(t *testing.T) {
	names := []string{"enter", "exit", "pattern", "pattern exit", "not pattern", "not pattern exit"}
	type src struct {
		v string
		k ast.Kind
	}
	seen := map[ast.Kind]src{}
	for k := ast.Kind(0); k < ast.KindCount; k++ {
		ks := []ast.Kind{k, ListenerOnExit(k), ListenerOnAllowPattern(k), ListenerOnExit(ListenerOnAllowPattern(k)), ListenerOnNotAllowPattern(k), ListenerOnExit(ListenerOnNotAllowPattern(k))}
		for i, key := range ks {
			if i > 0 && key >= 0 && key < ast.KindCount {
				t.Fatalf("the %s key of kind %d is %d, which is a node kind", names[i], k, key)
			}
			if o, ok := seen[key]; ok {
				t.Fatalf("the %s key of kind %d is %d, the same as the %s key of kind %d", names[i], k, key, o.v, o.k)
			}
			seen[key] = src{names[i], k}
		}
	}
}
