package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/types/typeutil"
)

// A Go value is represented by the flat list of its leaf terms.
type Val []*Term

type step struct {
	elm bool
	n   int64
}
type Leaf struct {
	Sort Sort
	Key  string // heap key
	Path []step
	Kind string // "", "ptr", "arr","off","len","cap","uint","byte"...
	T    types.Type
}

var layCache typeutil.Map

var fldIDs = map[string]int64{}

func fieldID(st *types.Struct, i int) int64 {
	k := fmt.Sprintf("%s#%d", typeKey(st), i)
	if id, ok := fldIDs[k]; ok {
		return id
	}
	id := int64(len(fldIDs) + 1)
	fldIDs[k] = id
	return id
}

func isFlagType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	b, ok := n.Underlying().(*types.Basic)
	if !ok {
		return false
	}
	nm := n.Obj().Name()
	return (b.Kind() == types.Uint32 || b.Kind() == types.Int32) && strings.HasSuffix(nm, "Flags") || nm == "SignatureCheckMode"
}

func isSeqType(t types.Type) (*types.Named, bool) {
	n, ok := types.Unalias(t).(*types.Named)
	if ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == vsPath && (n.Obj().Name() == "Seq" || n.Obj().Name() == "MapVal") {
		return n, true
	}
	return nil, false
}

// typeKey names a type; aliases are resolved at every depth, and a type declared inside a function is
// named by its structure (so that contracts, which cannot name it, can name the structure).
func typeKey(t types.Type) string {
	if s, ok := typeKeys[t]; ok {
		return s
	}
	var b strings.Builder
	writeType(&b, t, nil)
	typeKeys[t] = b.String()
	return typeKeys[t]
}

var typeKeys = map[types.Type]string{}

func sameType(a, b types.Type) bool { return types.Identical(a, b) || typeKey(a) == typeKey(b) }

func writeType(b *strings.Builder, t types.Type, seen []types.Type) {
	t = types.Unalias(t)
	switch u := t.(type) {
	case *types.Pointer:
		b.WriteString("*")
		writeType(b, u.Elem(), seen)
	case *types.Slice:
		b.WriteString("[]")
		writeType(b, u.Elem(), seen)
	case *types.Array:
		fmt.Fprintf(b, "[%d]", u.Len())
		writeType(b, u.Elem(), seen)
	case *types.Map:
		b.WriteString("map[")
		writeType(b, u.Key(), seen)
		b.WriteString("]")
		writeType(b, u.Elem(), seen)
	case *types.Chan:
		b.WriteString([]string{"chan (", "chan<- (", "<-chan ("}[u.Dir()])
		writeType(b, u.Elem(), seen)
		b.WriteString(")")
	case *types.Struct:
		b.WriteString("struct{")
		for i := 0; i < u.NumFields(); i++ {
			if i > 0 {
				b.WriteString("; ")
			}
			if !u.Field(i).Embedded() {
				b.WriteString(u.Field(i).Name() + " ")
			}
			writeType(b, u.Field(i).Type(), seen)
			if u.Tag(i) != "" {
				fmt.Fprintf(b, " %q", u.Tag(i))
			}
		}
		b.WriteString("}")
	case *types.Tuple:
		b.WriteString("(")
		for i := 0; i < u.Len(); i++ {
			if i > 0 {
				b.WriteString(", ")
			}
			writeType(b, u.At(i).Type(), seen)
		}
		b.WriteString(")")
	case *types.Signature:
		b.WriteString("func")
		writeType(b, u.Params(), seen)
		if u.Variadic() {
			b.WriteString("...")
		}
		writeType(b, u.Results(), seen)
	case *types.Named:
		o := u.Obj()
		if o.Pkg() != nil && o.Parent() != nil && o.Parent() != o.Pkg().Scope() && u.TypeArgs().Len() == 0 {
			for _, s := range seen {
				if s == t {
					b.WriteString("local " + o.Name())
					return
				}
			}
			if _, ok := u.Underlying().(*types.Struct); ok {
				writeType(b, u.Underlying(), append(seen, t))
				return
			}
		}
		if o.Pkg() != nil {
			b.WriteString(o.Pkg().Path() + ".")
		}
		b.WriteString(o.Name())
		if n := u.TypeArgs().Len(); n > 0 {
			b.WriteString("[")
			for i := 0; i < n; i++ {
				if i > 0 {
					b.WriteString(",")
				}
				writeType(b, u.TypeArgs().At(i), seen)
			}
			b.WriteString("]")
		}
	default:
		b.WriteString(types.TypeString(t, nil))
	}
}

type unsupported struct{ msg string }

func (u unsupported) Error() string { return "unsupported: " + u.msg }
func fail(f string, a ...any)       { panic(unsupported{fmt.Sprintf(f, a...)}) }

// keySort: SMT sort used for keys of maps with key type t.
func keySort(t types.Type) Sort {
	l := layout(t)
	if len(l) == 1 {
		return l[0].Sort
	}
	return tupleSort(l)
}

var tupleSorts = map[string][]Sort{}
var tupleOrder []string

func tupleSort(l []Leaf) Sort {
	var ss []string
	var so []Sort
	for _, x := range l {
		ss = append(ss, sanitize(string(x.Sort)))
		so = append(so, x.Sort)
	}
	n := "Tup_" + strings.Join(ss, "_")
	if _, ok := tupleSorts[n]; !ok {
		tupleSorts[n] = so
		tupleOrder = append(tupleOrder, n)
	}
	return Sort(n)
}
func mkKey(t types.Type, v Val) *Term {
	l := layout(t)
	if len(l) == 1 {
		return v[0]
	}
	s := tupleSort(l)
	return mk(Term{Op: OApp, Sort: s, Name: "mk" + string(s), Args: v})
}
func unKey(t types.Type, k *Term) Val {
	l := layout(t)
	if len(l) == 1 {
		return Val{k}
	}
	s := tupleSort(l)
	if k.Op == OApp && k.Name == "mk"+string(s) {
		return Val(k.Args)
	}
	var v Val
	for i, x := range l {
		v = append(v, mk(Term{Op: OApp, Sort: x.Sort, Name: fmt.Sprintf("sel%d%s", i, s), Args: []*Term{k}}))
	}
	return v
}

func layout(t types.Type) []Leaf {
	if l := layCache.At(t); l != nil {
		return l.([]Leaf)
	}
	l := layout0(t)
	if l == nil {
		l = []Leaf{}
	}
	layCache.Set(t, l)
	return l
}

func layout0(t types.Type) []Leaf {
	if n, ok := isSeqType(t); ok {
		if n.Obj().Name() == "Seq" {
			el := layout(n.TypeArgs().At(0))
			var r []Leaf
			for i, e := range el {
				s := SArr(SInt, e.Sort)
				r = append(r, Leaf{Sort: s, Key: fmt.Sprintf("seq%d:%s", i, s)})
			}
			return append(r, Leaf{Sort: SInt, Key: "seqlen"})
		}
		ks := keySort(n.TypeArgs().At(0))
		r := []Leaf{{Sort: SArr(ks, SBool), Key: "mapval.dom:" + string(ks)}}
		for i, e := range layout(n.TypeArgs().At(1)) {
			s := SArr(ks, e.Sort)
			r = append(r, Leaf{Sort: s, Key: fmt.Sprintf("mapval%d:%s", i, s)})
		}
		return append(r, Leaf{Sort: SInt, Key: "mapvallen"})
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []Leaf{{Sort: SBool, Key: "bool", T: t}}
		case u.Info()&types.IsString != 0:
			return []Leaf{{Sort: SStr, Key: "string", T: t}}
		case u.Info()&types.IsInteger != 0:
			if isFlagType(t) {
				return []Leaf{{Sort: SBV32, Key: "flags32", T: t}}
			}
			kind := ""
			if u.Info()&types.IsUnsigned != 0 {
				kind = "uint"
				if u.Kind() == types.Uint8 {
					kind = "byte"
				}
			}
			return []Leaf{{Sort: SInt, Key: u.Name(), Kind: kind, T: t}}
		case u.Info()&types.IsFloat != 0:
			return []Leaf{{Sort: SF64, Key: u.Name(), T: t}}
		case u.Kind() == types.UnsafePointer:
			return []Leaf{{Sort: SAddr, Key: "unsafeptr", Kind: "ptr", T: t}}
		case u.Kind() == types.UntypedNil:
			return []Leaf{{Sort: SAddr, Key: "nil", Kind: "ptr", T: t}}
		}
		fail("basic type %s", t)
	case *types.Pointer:
		return []Leaf{{Sort: SAddr, Key: "*" + typeKey(u.Elem()), Kind: "ptr", T: t}}
	case *types.Map:
		return []Leaf{{Sort: SAddr, Key: typeKey(u), Kind: "ptr", T: t}}
	case *types.Chan:
		return []Leaf{{Sort: SAddr, Key: "chan " + typeKey(u.Elem()), Kind: "ptr", T: t}}
	case *types.Signature:
		return []Leaf{{Sort: SFunc, Key: "func " + typeKey(u), T: t}}
	case *types.Interface:
		return []Leaf{{Sort: SIface, Key: "iface", T: t}}
	case *types.Slice:
		k := "[]" + typeKey(u.Elem())
		return []Leaf{{Sort: SAddr, Key: k + ".arr", Kind: "arr", T: t}, {Sort: SInt, Key: k + ".off", Kind: "off", T: t}, {Sort: SInt, Key: k + ".len", Kind: "len", T: t}, {Sort: SInt, Key: k + ".cap", Kind: "cap", T: t}}
	case *types.Struct:
		var r []Leaf
		for i := 0; i < u.NumFields(); i++ {
			f := fieldID(u, i)
			for _, l := range layout(u.Field(i).Type()) {
				l.Path = append([]step{{false, f}}, l.Path...)
				r = append(r, l)
			}
		}
		return r
	case *types.Array:
		if u.Len() > 256 {
			fail("array of %d elements", u.Len())
		}
		var r []Leaf
		for i := int64(0); i < u.Len(); i++ {
			for _, l := range layout(u.Elem()) {
				l.Path = append([]step{{true, i}}, l.Path...)
				r = append(r, l)
			}
		}
		return r
	case *types.Tuple:
		var r []Leaf
		for i := 0; i < u.Len(); i++ {
			r = append(r, layout(u.At(i).Type())...)
		}
		return r
	}
	fail("type %s (%T)", t, t.Underlying())
	return nil
}

func size(t types.Type) int { return len(layout(t)) }

func addPath(a *Term, p []step) *Term {
	for _, s := range p {
		if s.elm {
			a = AElm(a, IntC(s.n))
		} else {
			a = AFld(a, s.n)
		}
	}
	return a
}

func zeroOf(s Sort) *Term {
	switch s {
	case SBool:
		return False
	case SInt:
		return IntC(0)
	case SStr:
		return StrC("")
	case SBV32:
		return BVC(0)
	case SAddr:
		return NilAddr
	case SIface:
		return NilIface
	case SFunc:
		return NilFunc
	case SF64:
		return mk(Term{Op: OSym, Sort: SF64, Name: "f64.zero"})
	}
	if _, v, ok := splitArr(s); ok {
		return ConstArr(s, zeroOf(v))
	}
	if so, ok := tupleSorts[string(s)]; ok {
		var as []*Term
		for _, x := range so {
			as = append(as, zeroOf(x))
		}
		return mk(Term{Op: OApp, Sort: s, Name: "mk" + string(s), Args: as})
	}
	fail("zero of sort %s", s)
	return nil
}

func zeroVal(t types.Type) Val {
	var v Val
	for _, l := range layout(t) {
		v = append(v, zeroOf(l.Sort))
	}
	return v
}

// fieldRange returns the leaf range of field i in struct type.
func fieldRange(st *types.Struct, i int) (int, int) {
	off := 0
	for j := 0; j < i; j++ {
		off += size(st.Field(j).Type())
	}
	return off, off + size(st.Field(i).Type())
}
func tupleRange(tp *types.Tuple, i int) (int, int) {
	off := 0
	for j := 0; j < i; j++ {
		off += size(tp.At(j).Type())
	}
	return off, off + size(tp.At(i).Type())
}
