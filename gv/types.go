package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
)

// Val is a Go value flattened to its leaves.
type Val struct {
	T types.Type
	L []*Term
}

// strSeqT is the specification-only type of lists of strings.
var strSeqT types.Type = types.NewNamed(types.NewTypeName(0, nil, "strseq", nil), types.NewStruct(nil, nil), nil)
var realT types.Type = types.Typ[types.Float64]
var intT types.Type = types.Typ[types.Int]
var boolT types.Type = types.Typ[types.Bool]
var stringT types.Type = types.Typ[types.String]
var addrT types.Type = types.Typ[types.UnsafePointer]
var errorT = types.Universe.Lookup("error").Type()
var emptyIfaceT = types.NewInterfaceType(nil, nil)

func VInt(t *Term) Val             { return Val{intT, []*Term{t}} }
func VBool(t *Term) Val            { return Val{boolT, []*Term{t}} }
func VStr(t *Term) Val             { return Val{stringT, []*Term{t}} }
func VReal(t *Term) Val            { return Val{realT, []*Term{t}} }
func VList(t *Term) Val            { return Val{strSeqT, []*Term{t}} }
func VAddr(t *Term) Val            { return Val{addrT, []*Term{t}} }
func VErr(t *Term) Val             { return Val{errorT, []*Term{t}} }
func (v Val) t() *Term             { return v.L[0] }
func V1(T types.Type, t *Term) Val { return Val{T, []*Term{t}} }

var typeStrCache = map[types.Type]string{}

func tstr(t types.Type) string {
	if s, ok := typeStrCache[t]; ok {
		return s
	}
	s := types.TypeString(types.Unalias(t), func(p *types.Package) string {
		if p.Path() == modPath {
			return ""
		}
		return p.Path()
	})
	typeStrCache[t] = s
	return s
}

var modPath = "github.com/simonmittag/j8a"

func isTime(t types.Type) bool { return tstr(t) == "time.Time" }

func under(t types.Type) types.Type { return types.Unalias(t).Underlying() }

func isByteSlice(t types.Type) bool {
	s, ok := under(t).(*types.Slice)
	return ok && isByte(s.Elem())
}
func isByte(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Kind() == types.Uint8
}
func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isInteger(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isUnsigned(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}
func isFloat(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isIface(t types.Type) bool { _, ok := under(t).(*types.Interface); return ok }
func isPtr(t types.Type) bool   { _, ok := under(t).(*types.Pointer); return ok }
func isSlice(t types.Type) bool { _, ok := under(t).(*types.Slice); return ok }
func isStruct(t types.Type) bool {
	if isTime(t) || t == strSeqT {
		return false
	}
	_, ok := under(t).(*types.Struct)
	return ok
}

// content-level arrays: the whole array is one string or one list of strings
func contentArr(elem types.Type) string {
	if isByte(elem) {
		return "B"
	}
	if isString(elem) {
		return "L"
	}
	return ""
}

func isHeaderMap(t types.Type) bool {
	m, ok := under(t).(*types.Map)
	if !ok || !isString(m.Key()) {
		return false
	}
	s, ok := under(m.Elem()).(*types.Slice)
	return ok && isString(s.Elem())
}

func deref(t types.Type) types.Type {
	if p, ok := under(t).(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// ---- struct fields

type fieldInfo struct {
	strct types.Type
	idx   int
	name  string // Struct.field
	typ   types.Type
}

var fieldTab []fieldInfo
var fieldIds = map[string]int{}

func fid(st types.Type, i int) int {
	k := fmt.Sprintf("%s#%d", tstr(st), i)
	if id, ok := fieldIds[k]; ok {
		return id
	}
	f := under(st).(*types.Struct).Field(i)
	fieldTab = append(fieldTab, fieldInfo{st, i, tstr(st) + "." + f.Name(), f.Type()})
	fieldIds[k] = len(fieldTab)
	return len(fieldTab)
}

func fieldName(id int) string {
	if id >= 1 && id <= len(fieldTab) {
		return fieldTab[id-1].name
	}
	return fmt.Sprint(id)
}

// ---- leaves

type leaf struct {
	suffix string // ".arr" etc for slices
	sort   string
}

var sliceLeaves = []leaf{{".arr", SAddr}, {".off", SInt}, {".len", SInt}, {".cap", SInt}}

// scalarLeaves lists the leaves of a non-struct type.
func scalarLeaves(t types.Type) []leaf {
	if t == strSeqT {
		return []leaf{{"", SList}}
	}
	if isTime(t) {
		return []leaf{{"", SInt}}
	}
	switch u := under(t).(type) {
	case *types.Basic:
		i := u.Info()
		switch {
		case i&types.IsBoolean != 0:
			return []leaf{{"", SBool}}
		case i&types.IsInteger != 0:
			return []leaf{{"", SInt}}
		case i&types.IsFloat != 0:
			return []leaf{{"", SReal}}
		case i&types.IsString != 0:
			return []leaf{{"", SStr}}
		case u.Kind() == types.UnsafePointer, u.Kind() == types.UntypedNil:
			return []leaf{{"", SAddr}}
		}
		return []leaf{{"", SInt}}
	case *types.Pointer, *types.Chan, *types.Map, *types.Signature:
		return []leaf{{"", SAddr}}
	case *types.Interface:
		return []leaf{{"", SIface}}
	case *types.Slice:
		return sliceLeaves
	case *types.Array:
		if isByte(u.Elem()) {
			return []leaf{{"", SStr}}
		}
		return []leaf{{"", SAddr}} // opaque identity
	case *types.TypeParam:
		return []leaf{{"", SIface}}
	}
	return []leaf{{"", SInt}}
}

var numLeavesCache = map[types.Type]int{}

func numLeaves(t types.Type) int {
	if n, ok := numLeavesCache[t]; ok {
		return n
	}
	n := 0
	if isStruct(t) {
		s := under(t).(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			n += numLeaves(s.Field(i).Type())
		}
	} else if tup, ok := t.(*types.Tuple); ok {
		for i := 0; i < tup.Len(); i++ {
			n += numLeaves(tup.At(i).Type())
		}
	} else {
		n = len(scalarLeaves(t))
	}
	numLeavesCache[t] = n
	return n
}

func leafSorts(t types.Type) []string {
	var out []string
	if isStruct(t) {
		s := under(t).(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			out = append(out, leafSorts(s.Field(i).Type())...)
		}
		return out
	}
	if tup, ok := t.(*types.Tuple); ok {
		for i := 0; i < tup.Len(); i++ {
			out = append(out, leafSorts(tup.At(i).Type())...)
		}
		return out
	}
	for _, l := range scalarLeaves(t) {
		out = append(out, l.sort)
	}
	return out
}

func zeroOfSort(s string) *Term {
	switch s {
	case SBool:
		return False
	case SInt:
		return Int(0)
	case SReal:
		return RealR(new(big.Rat))
	case SStr:
		return Str("")
	case SAddr:
		return Null
	case SIface:
		return INil
	case SList:
		return SeqLit()
	}
	panic("zero of " + s)
}

func zeroVal(t types.Type) Val {
	v := Val{T: t}
	for _, s := range leafSorts(t) {
		v.L = append(v.L, zeroOfSort(s))
	}
	if a, ok := under(t).(*types.Array); ok && isByte(a.Elem()) {
		v.L[0] = Str(string(make([]byte, a.Len())))
	}
	return v
}

// fieldOf extracts field i of a flattened struct value.
func fieldOf(v Val, i int) Val {
	s := under(v.T).(*types.Struct)
	off := 0
	for j := 0; j < i; j++ {
		off += numLeaves(s.Field(j).Type())
	}
	ft := s.Field(i).Type()
	return Val{ft, v.L[off : off+numLeaves(ft)]}
}

func tupleElem(v Val, i int) Val {
	tup := v.T.(*types.Tuple)
	off := 0
	for j := 0; j < i; j++ {
		off += numLeaves(tup.At(j).Type())
	}
	ft := tup.At(i).Type()
	return Val{ft, v.L[off : off+numLeaves(ft)]}
}

func mkTuple(t types.Type, vs ...Val) Val {
	r := Val{T: t}
	for _, v := range vs {
		r.L = append(r.L, v.L...)
	}
	if len(r.L) != numLeaves(t) {
		panic(fmt.Sprintf("tuple arity %s: %d leaves", tstr(t), len(r.L)))
	}
	return r
}

// constVal converts a Go constant.
func constVal(c constant.Value, t types.Type) Val {
	if c == nil {
		return zeroVal(t)
	}
	switch {
	case isFloat(t):
		r := new(big.Rat)
		if s := constant.ToFloat(c); s.Kind() == constant.Float || s.Kind() == constant.Int {
			if _, ok := r.SetString(s.ExactString()); !ok {
				f, _ := constant.Float64Val(s)
				r.SetFloat64(f)
			}
		}
		return Val{t, []*Term{RealR(r)}}
	case isInteger(t):
		i := constant.ToInt(c)
		b, _ := new(big.Int).SetString(i.ExactString(), 10)
		if b == nil {
			b = new(big.Int)
		}
		return Val{t, []*Term{IntB(b)}}
	}
	switch c.Kind() {
	case constant.Bool:
		return Val{t, []*Term{Bool(constant.BoolVal(c))}}
	case constant.String:
		if isString(t) {
			return Val{t, []*Term{Str(constant.StringVal(c))}}
		}
	case constant.Int:
		b, _ := new(big.Int).SetString(c.ExactString(), 10)
		return Val{t, []*Term{IntB(b)}}
	}
	return zeroVal(t)
}

// ---- type tags for interfaces

var tagIds = map[string]int{}
var tagTypes []types.Type

func tagOf(t types.Type) int {
	k := tstr(t)
	if id, ok := tagIds[k]; ok {
		return id
	}
	tagTypes = append(tagTypes, t)
	tagIds[k] = len(tagTypes)
	return len(tagTypes)
}
func tagType(id int) types.Type {
	if id >= 1 && id <= len(tagTypes) {
		return tagTypes[id-1]
	}
	return nil
}

// how a type is boxed in an interface
func boxKind(t types.Type) string {
	if isTime(t) {
		return "int"
	}
	switch u := under(t).(type) {
	case *types.Basic:
		i := u.Info()
		switch {
		case i&types.IsString != 0:
			return "str"
		case i&(types.IsInteger) != 0:
			return "int"
		case i&types.IsBoolean != 0:
			return "bool"
		}
		return "box"
	case *types.Pointer, *types.Chan, *types.Map, *types.Signature:
		return "ptr"
	case *types.Array:
		if isByte(u.Elem()) {
			return "str"
		}
	}
	return "box"
}
