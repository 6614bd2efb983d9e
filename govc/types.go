package main

import (
	"go/types"
	"reflect"
	"strings"
)

// opaque struct types are a single value of their own sort.
func isTime(t types.Type) bool { return typeKey(t) == "time.Time" }

func sortOf(t types.Type) (Sort, bool) {
	if isTime(t) {
		return STime, true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool, true
		case u.Info()&types.IsInteger != 0:
			return SInt, true
		case u.Info()&types.IsString != 0:
			return SStr, true
		case u.Info()&types.IsFloat != 0:
			return SReal, true
		case u.Kind() == types.UnsafePointer, u.Kind() == types.UntypedNil:
			return SInt, true
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return SInt, true
	case *types.Slice:
		return SSlice, true
	case *types.Interface:
		return SIface, true
	case *types.Array:
		if s, ok := sortOf(u.Elem()); ok {
			return arr(SInt, s), true
		}
	}
	return "", false
}

type leaf struct {
	path string
	t    types.Type
	sort Sort
	exp  bool // every field on the path is exported
}

var leafCache = map[types.Type][]leaf{}

// leaves flattens a struct type into its scalar fields. A non-struct has the single leaf "".
func leaves(t types.Type) []leaf {
	if s, ok := sortOf(t); ok {
		return []leaf{{"", t, s, true}}
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var out []leaf
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		for _, l := range leaves(f.Type()) {
			out = append(out, leaf{"." + f.Name() + l.path, l.t, l.sort, l.exp && f.Exported()})
		}
	}
	return out
}

func isStruct(t types.Type) bool {
	if _, ok := sortOf(t); ok {
		return false
	}
	_, ok := t.Underlying().(*types.Struct)
	return ok
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

// intBits returns the width of an integer type and whether wrapping is modelled.
func intBits(t types.Type) (bits int, unsigned bool, ok bool) {
	b, k := t.Underlying().(*types.Basic)
	if !k || b.Info()&types.IsInteger == 0 {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, false, true
	case types.Int16:
		return 16, false, true
	case types.Int32:
		return 32, false, true
	case types.Int64, types.Int, types.UntypedInt, types.UntypedRune:
		return 64, false, true
	case types.Uint8:
		return 8, true, true
	case types.Uint16:
		return 16, true, true
	case types.Uint32:
		return 32, true, true
	default:
		return 64, true, true
	}
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// jsonSchema reports why a value of type t is not restored by decoding its JSON encoding ("" if it is).
func (e *Engine) jsonSchema(t types.Type, allowed map[string]bool) string {
	for _, s := range e.graphTypes(t) {
		n := s.(*types.Named)
		for _, m := range []string{"MarshalJSON", "UnmarshalJSON", "MarshalText", "UnmarshalText"} {
			if o, _, _ := types.LookupFieldOrMethod(types.NewPointer(n), true, n.Obj().Pkg(), m); o != nil {
				return typeKey(s) + " has its own " + m
			}
		}
		st := s.Underlying().(*types.Struct)
		names := map[string]string{}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			id := typeKey(s) + "." + f.Name()
			if !f.Exported() {
				if !allowed[id] {
					return id + " is not exported"
				}
				continue
			}
			if allowed[id] {
				continue
			}
			if f.Embedded() {
				return id + " is embedded"
			}
			tag := reflect.StructTag(st.Tag(i)).Get("json")
			name, opts, _ := strings.Cut(tag, ",")
			if tag == "-" {
				return id + " is left out of the encoding"
			}
			if name == "" {
				name = f.Name()
			}
			for _, r := range name {
				if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '-') {
					return id + " has the unusual name " + name
				}
			}
			for _, o := range strings.Split(opts, ",") {
				if o != "" && o != "omitempty" && o != "string" && o != "omitzero" {
					return id + " has the option " + o
				}
			}
			k := strings.ToLower(name)
			if other := names[k]; other != "" {
				return id + " has the same name as " + other
			}
			names[k] = id
			if msg := e.jsonType(f.Type(), 0); msg != "" {
				return id + " " + msg
			}
		}
	}
	return ""
}

func (e *Engine) jsonType(t types.Type, d int) string {
	if isTime(t) {
		return ""
	}
	switch x := t.Underlying().(type) {
	case *types.Basic:
		if x.Info()&(types.IsString|types.IsBoolean|types.IsInteger) != 0 && x.Kind() != types.Uintptr {
			return ""
		}
		return "is of type " + typeKey(t)
	case *types.Pointer:
		if d > 0 {
			if _, ok := x.Elem().Underlying().(*types.Pointer); ok {
				return "is a pointer to a pointer"
			}
		}
		return e.jsonType(x.Elem(), d+1)
	case *types.Slice:
		return e.jsonType(x.Elem(), d+1)
	case *types.Map:
		if b, ok := x.Key().Underlying().(*types.Basic); !ok || b.Info()&(types.IsString|types.IsInteger) == 0 {
			return "is a map with keys of type " + typeKey(x.Key())
		}
		return e.jsonType(x.Elem(), d+1)
	case *types.Struct:
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), e.mod) {
			return "" // visited on its own
		}
		return "is a struct from elsewhere"
	}
	return "is of type " + typeKey(t)
}
