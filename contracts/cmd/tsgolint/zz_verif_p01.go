//gover:file P01
package main

import (
	"github.com/microsoft/typescript-go/shim/vfs"
	"github.com/typescript-eslint/tsgolint/internal/vs"
)

//gover:prove P01 nopanic
func verify_OverlayReads(under vfs.FS, m map[string]string, p string) {
	vs.Assume(under != nil)
	over := vs.SnapMap(m)
	fs := newOverlayFS(under, m)
	c, ok := fs.ReadFile(p)
	ex := fs.FileExists(p)
	uc, uok := under.ReadFile(p)
	vs.Assert("override content wins", vs.Imp(over.Has(p), ok && c == over.At(p)))
	vs.Assert("override exists", vs.Imp(over.Has(p), ex))
	vs.Assert("otherwise underlying content", vs.Imp(!over.Has(p), c == uc && ok == uok))
	vs.Assert("otherwise underlying existence", vs.Imp(!over.Has(p), ex == under.FileExists(p)))
}

