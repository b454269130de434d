package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

const modPath = "github.com/libsv/libsv"

// structs of the repository that appear in deep terms
type structInfo struct {
	Name   string // Verus name
	Typ    *types.Struct
	Named  *types.Named
	Fields []string
	Sorts  []string
	Idx    []int // which field of the Go struct each is
}

// at gives the place of the k-th Go field, -1 if it is not part of the value.
func (si *structInfo) at(k int) int {
	for i, j := range si.Idx {
		if j == k {
			return i
		}
	}
	return -1
}

var structTab = map[string]*structInfo{}
var structOrder []string

func isExternalNamed(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	if n.Obj().Pkg() == nil {
		return false
	}
	p := n.Obj().Pkg().Path()
	return !(p == modPath || strings.HasPrefix(p, modPath+"/"))
}

func shortPkg(p string) string {
	if p == modPath {
		return "."
	}
	return strings.TrimPrefix(p, modPath+"/")
}

func structName(n *types.Named) string {
	p := n.Obj().Pkg().Name()
	return strings.ToUpper(p[:1]) + p[1:] + "_" + n.Obj().Name()
}

// sortOf maps a Go type to the Verus sort of its deep value.
func sortOf(t types.Type) (string, error) {
	if isErrorType(t) {
		return "bool", nil
	}
	switch u := t.(type) {
	case *types.Named:
		if _, ok := u.Underlying().(*types.Struct); ok {
			if isExternalNamed(u) {
				return "int", nil // opaque identity / value
			}
			return structSort(u)
		}
		if isExternalNamed(u) {
			switch u.Underlying().(type) {
			case *types.Interface:
				return "int", nil
			}
		}
		return sortOf(u.Underlying())
	case *types.Alias:
		return sortOf(types.Unalias(u))
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return "bool", nil
		case types.Uint8:
			return "u8", nil
		case types.Uint16:
			return "u16", nil
		case types.Uint32:
			return "u32", nil
		case types.Uint64, types.Uint, types.Uintptr:
			return "u64", nil
		case types.Int8:
			return "i8", nil
		case types.Int16:
			return "i16", nil
		case types.Int32, types.UntypedRune:
			return "i32", nil
		case types.Int64, types.Int, types.UntypedInt:
			return "i64", nil
		case types.String, types.UntypedString:
			return "Seq<u8>", nil
		case types.Float64, types.Float32, types.UntypedFloat:
			return "real", nil
		}
	case *types.Slice:
		e, err := sortOf(u.Elem())
		if err != nil {
			return "", err
		}
		return "Seq<" + e + ">", nil
	case *types.Array:
		e, err := sortOf(u.Elem())
		if err != nil {
			return "", err
		}
		return "Seq<" + e + ">", nil
	case *types.Pointer:
		e, err := sortOf(u.Elem())
		if err != nil {
			return "", err
		}
		return "Option<" + e + ">", nil
	case *types.Interface:
		return "int", nil
	case *types.Struct:
		return "", fmt.Errorf("anonymous struct")
	}
	return "", fmt.Errorf("no sort for %s", t)
}

func structSort(n *types.Named) (string, error) {
	name := structName(n)
	if _, ok := structTab[name]; ok {
		return name, nil
	}
	st := n.Underlying().(*types.Struct)
	si := &structInfo{Name: name, Typ: st, Named: n}
	structTab[name] = si
	for i := 0; i < st.NumFields(); i++ {
		// the value of an exported struct is what its users can see: unexported fields are not part
		// of it, and read as anything when the struct comes from elsewhere
		if !st.Field(i).Exported() && n.Obj().Exported() {
			continue
		}
		s, err := sortOf(st.Field(i).Type())
		if err != nil {
			delete(structTab, name)
			return "", err
		}
		si.Fields = append(si.Fields, st.Field(i).Name())
		si.Sorts = append(si.Sorts, s)
		si.Idx = append(si.Idx, i)
	}
	structOrder = append(structOrder, name)
	return name, nil
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func intSort(t types.Type) (string, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return "", false
	}
	s, err := sortOf(b)
	if err != nil {
		return "", false
	}
	return s, true
}

func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isFloatT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func sortedKeys(m map[string]string) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
