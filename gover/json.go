package main

import (
	"go/types"
	"reflect"
	"sort"
	"strings"
)

// jsonShape describes how a value of type t looks on the JSON wire.
func jsonShape(t types.Type) string { return jsonShapeR(t, map[string]bool{}) }

func jsonShapeR(t types.Type, seen map[string]bool) string {
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		ms := types.NewMethodSet(types.NewPointer(n))
		for i := 0; i < ms.Len(); i++ {
			if m := ms.At(i).Obj().Name(); strings.HasPrefix(m, "MarshalJSON") || strings.HasPrefix(m, "UnmarshalJSON") || m == "MarshalText" || m == "UnmarshalText" {
				return "custom(" + n.String() + ")"
			}
		}
		if seen[n.String()] {
			return "rec"
		}
		seen[n.String()] = true
		defer delete(seen, n.String())
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return "int"
		case u.Info()&types.IsFloat != 0:
			return "float"
		}
		return u.Name()
	case *types.Pointer:
		return "opt(" + jsonShapeR(u.Elem(), seen) + ")"
	case *types.Slice:
		return "[]" + jsonShapeR(u.Elem(), seen)
	case *types.Map:
		return "map[" + jsonShapeR(u.Key(), seen) + "]" + jsonShapeR(u.Elem(), seen)
	case *types.Interface:
		return "any"
	case *types.Struct:
		var fs []string
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			name, opts, skip := jsonField(u, i)
			if skip {
				continue
			}
			fs = append(fs, name+opts+":"+jsonShapeR(f.Type(), seen))
		}
		sort.Strings(fs)
		return "{" + strings.Join(fs, ";") + "}"
	}
	return t.String()
}

func jsonField(s *types.Struct, i int) (name, opts string, skip bool) {
	f := s.Field(i)
	if !f.Exported() {
		return "", "", true
	}
	tag, has := reflect.StructTag(s.Tag(i)).Lookup("json")
	name = f.Name()
	if has {
		n, o, _ := strings.Cut(tag, ",")
		if n == "-" && o == "" {
			return "", "", true
		}
		if n != "" {
			name = n
		}
		if o != "" {
			os := strings.Split(o, ",")
			sort.Strings(os)
			opts = "," + strings.Join(os, ",")
		}
	}
	return
}

func (x *Exec) jsonMember(st *State, t types.Type, name string, data *Term) Val {
	return x.ufVal(st, "json.member/"+name+"/"+jsonShape(t), t, []*Term{data})
}

// jsonDecode stores into *out the value an ideal JSON decoder reads from data.
func (x *Exec) jsonDecode(st *State, out, data *Term) {
	if !isBox(out) {
		fail("vs.Decode needs a statically known target type")
	}
	t := x.boxT[out.Name]
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		fail("vs.Decode needs a pointer")
	}
	addr := out.Args[0]
	s, ok := under(p.Elem()).(*types.Struct)
	if !ok {
		x.StoreVal(st, p.Elem(), addr, x.jsonMember(st, p.Elem(), "", data))
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		name, _, skip := jsonField(s, i)
		if skip {
			continue
		}
		x.StoreVal(st, s.Field(i).Type(), AFld(addr, fieldID(s, i)), x.jsonMember(st, s.Field(i).Type(), name, data))
	}
}
