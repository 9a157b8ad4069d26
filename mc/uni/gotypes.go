//go:build go1.23

package uni

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/itstarsun/go-thrift/internal/zzverif/engine"
	"github.com/itstarsun/go-thrift/internal/zzverif/ref"
	"github.com/itstarsun/go-thrift/thrift"
)

// Named types.
type (
	NBool   bool
	NI8     int8
	NI16    int16
	NI32    int32
	NI64    int64
	NU8     uint8
	NU16    uint16
	NU32    uint32
	NU64    uint64
	NF32    float32
	NF64    float64
	NStr    string
	NBytes  []byte
	NBytes2 []NU8 // a list of bytes, not a string
	NList   []int32
	NMap    map[string]int32
	NUUID   [16]byte // not supported: only [16]byte is

	// ZVal is zero when it is 7.
	ZVal int32
	// ZPtr is zero when it is 7, by a pointer receiver.
	ZPtr int32
	// ZStruct is zero when A is 7.
	ZStruct struct {
		A int32 `thrift:"1"`
		B int32 `thrift:"2"`
	}
	// ZSlice is zero when its length is 1.
	ZSlice []int32

	// Tree is recursive.
	Tree struct {
		V int32           `thrift:"1"`
		L []Tree          `thrift:"2"`
		P *Tree           `thrift:"3"`
		M map[string]Tree `thrift:"4"`
	}
	// TreeS is recursive through sets and named types.
	TreeS struct {
		S thrift.Set[*TreeS] `thrift:"-3"`
		L TreeL              `thrift:"300"`
		B bool               `thrift:"301"`
	}
	TreeL []TreeS
	RS    []RS
	RSP   []*RSP
	RM    map[string]RM
	RSet  struct {
		X thrift.Set[RSet]  `thrift:"1"`
		Y thrift.List[RSet] `thrift:"2"`
	}
	MutA struct {
		B *MutB `thrift:"1"`
		N int8  `thrift:"2"`
	}
	MutB struct {
		A []MutA         `thrift:"1"`
		M map[int32]MutA `thrift:"16"`
	}

	// Person is an ordinary struct.
	Person struct {
		Name  string            `thrift:"1"`
		Age   int32             `thrift:"2"`
		Email *string           `thrift:"3"`
		Tags  []string          `thrift:"4"`
		Attrs map[string]string `thrift:"5"`
		On    bool              `thrift:"6"`
		Raw   []byte            `thrift:"7"`
		ID    [16]byte          `thrift:"8"`
		Best  *Person           `thrift:"9"`
		Score float64           `thrift:"10"`
		Bits  thrift.Set[int16] `thrift:"27"`
		Peers []*Person         `thrift:"43"`
		Grid  [][]int64         `thrift:"-5"`
		By    map[int64][]bool  `thrift:"1000"`
		skip  int
		Local int `thrift:"-"`
	}
	// Key is a struct usable as a map key.
	Key struct {
		A int16  `thrift:"1"`
		B string `thrift:"2"`
	}
	// Req has required and optional fields of every kind.
	Req struct {
		B  bool             `thrift:"1,required"`
		N  int32            `thrift:"2,required"`
		S  string           `thrift:"3,required"`
		Y  []byte           `thrift:"4,required"`
		U  [16]byte         `thrift:"5,required"`
		L  []int16          `thrift:"6,required"`
		T  thrift.Set[bool] `thrift:"7,required"`
		M  map[string]bool  `thrift:"8,required"`
		P  *int64           `thrift:"9,required"`
		Z  ZVal             `thrift:"10,required"`
		In struct{}         `thrift:"11,required"`
		D  float32          `thrift:"26,required"`
		Bl *bool            `thrift:"27,required"`
		PP **string         `thrift:"28,required"`
		LL [][]bool         `thrift:"29,required"`
		K  *struct {
			A bool `thrift:"1"`
		} `thrift:"30,required"`
	}
)

func (z ZVal) IsZero() bool    { return z == 7 }
func (z *ZPtr) IsZero() bool   { return *z == 7 }
func (z ZStruct) IsZero() bool { return z.A == 7 }
func (z ZSlice) IsZero() bool  { return len(z) == 1 }

var (
	setIface    = reflect.TypeOf(thrift.Set[int32]{})
	isZeroIface = reflect.TypeOf((*interface{ IsZero() bool })(nil)).Elem()
)

func isSet(t reflect.Type) bool {
	return t.Kind() == reflect.Slice && t.PkgPath() == setIface.PkgPath() && strings.HasPrefix(t.Name(), "Set[")
}

func isList(t reflect.Type) bool {
	return t.Kind() == reflect.Slice && t.PkgPath() == setIface.PkgPath() && strings.HasPrefix(t.Name(), "List[")
}

func isBytes(t reflect.Type) bool {
	return t.Kind() == reflect.Slice && !isSet(t) && !isList(t) && t.Elem() == reflect.TypeOf(byte(0))
}

func isUUID(t reflect.Type) bool { return t == reflect.TypeOf([16]byte{}) }

// WT is the Thrift type of a Go type, Stop if it has none.
func WT(t reflect.Type) byte {
	seen := map[reflect.Type]bool{}
	for t.Kind() == reflect.Pointer {
		if seen[t] {
			return ref.Stop
		}
		seen[t] = true
		t = t.Elem()
	}
	switch t.Kind() {
	case reflect.Bool:
		return ref.Bool
	case reflect.Float32, reflect.Float64:
		return ref.Double
	case reflect.Int8, reflect.Uint8:
		return ref.Byte
	case reflect.Int16, reflect.Uint16:
		return ref.I16
	case reflect.Int32, reflect.Uint32:
		return ref.I32
	case reflect.Int64, reflect.Uint64:
		return ref.I64
	case reflect.String:
		return ref.String
	case reflect.Struct:
		return ref.Struct
	case reflect.Map:
		return ref.Map
	case reflect.Slice:
		switch {
		case isSet(t):
			return ref.Set
		case isBytes(t):
			return ref.String
		}
		return ref.List
	case reflect.Array:
		if isUUID(t) {
			return ref.UUID
		}
	}
	return ref.Stop
}

// Supported reports whether t and everything in it has a Thrift type.
func Supported(t reflect.Type) bool { return supported(t, map[reflect.Type]bool{}) }

func supported(t reflect.Type, seen map[reflect.Type]bool) bool {
	if WT(t) == ref.Stop {
		return false
	}
	if seen[t] {
		return true
	}
	seen[t] = true
	switch t.Kind() {
	case reflect.Pointer:
		return supported(t.Elem(), seen)
	case reflect.Slice:
		return isBytes(t) || supported(t.Elem(), seen)
	case reflect.Map:
		return supported(t.Key(), seen) && supported(t.Elem(), seen)
	case reflect.Struct:
		fs, err := Fields(t)
		if err != nil {
			return false
		}
		for _, f := range fs {
			if !supported(f.Type, seen) {
				return false
			}
		}
	}
	return true
}

// FieldInfo is the plan of a field.
type FieldInfo struct {
	ID       int16
	Index    int
	Required bool
	Type     reflect.Type
}

// Fields is the reference field plan for well-formed tags, by ascending ID.
func Fields(t reflect.Type) ([]FieldInfo, error) {
	var fs []FieldInfo
	tags := 0
	for i := 0; i < t.NumField(); i++ {
		sf := t.Field(i)
		tag, has := sf.Tag.Lookup("thrift")
		if has {
			tags++
		}
		if tag == "-" {
			continue
		}
		if !sf.IsExported() {
			if has {
				return nil, errors.New("tag on an unexported field")
			}
			continue
		}
		parts := strings.Split(tag, ",")
		n, err := strconv.ParseInt(parts[0], 10, 16)
		if err != nil {
			return nil, err
		}
		f := FieldInfo{ID: int16(n), Index: i, Type: sf.Type}
		for _, o := range parts[1:] {
			if o == "required" {
				f.Required = true
			}
		}
		fs = append(fs, f)
	}
	if t.NumField() > 0 && tags == 0 {
		return nil, errors.New("no fields")
	}
	sort.SliceStable(fs, func(i, j int) bool { return fs[i].ID < fs[j].ID })
	return fs, nil
}

func fieldZero(v reflect.Value) bool {
	t := v.Type()
	switch {
	case t.Kind() == reflect.Pointer && t.Implements(isZeroIface):
		return v.IsNil() || v.Interface().(interface{ IsZero() bool }).IsZero()
	case t.Implements(isZeroIface):
		return v.Interface().(interface{ IsZero() bool }).IsZero()
	case reflect.PointerTo(t).Implements(isZeroIface):
		p := reflect.New(t)
		p.Elem().Set(v)
		return p.Interface().(interface{ IsZero() bool }).IsZero()
	}
	return v.IsZero()
}

// FromGo is the reference model of Marshal for supported types.
// Map entries come in the order of their encoded keys.
func FromGo(v reflect.Value) ref.V { return fromGo(v) }

func fromGo(v reflect.Value) ref.V {
	t := v.Type()
	switch t.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return fromGo(reflect.Zero(t.Elem()))
		}
		return fromGo(v.Elem())
	case reflect.Bool:
		return ref.BoolV(v.Bool())
	case reflect.Int8:
		return ref.ByteV(byte(v.Int()))
	case reflect.Uint8:
		return ref.ByteV(byte(v.Uint()))
	case reflect.Int16:
		return ref.I16V(int16(v.Int()))
	case reflect.Uint16:
		return ref.I16V(int16(v.Uint()))
	case reflect.Int32:
		return ref.I32V(int32(v.Int()))
	case reflect.Uint32:
		return ref.I32V(int32(v.Uint()))
	case reflect.Int64:
		return ref.I64V(v.Int())
	case reflect.Uint64:
		return ref.I64V(int64(v.Uint()))
	case reflect.Float32, reflect.Float64:
		return ref.DoubleV(v.Float())
	case reflect.String:
		return ref.StrV(v.String())
	case reflect.Array:
		var b []byte
		for i := 0; i < v.Len(); i++ {
			b = append(b, byte(v.Index(i).Uint()))
		}
		return ref.UUIDV(string(b))
	case reflect.Slice:
		if isBytes(t) {
			return ref.StrV(string(v.Bytes()))
		}
		out := ref.V{T: ref.List, ET: WT(t.Elem())}
		if isSet(t) {
			out.T = ref.Set
		}
		for i := 0; i < v.Len(); i++ {
			out.L = append(out.L, fromGo(v.Index(i)))
		}
		return out
	case reflect.Map:
		out := ref.V{T: ref.Map, KT: WT(t.Key()), ET: WT(t.Elem())}
		for it := v.MapRange(); it.Next(); {
			out.L = append(out.L, fromGo(it.Key()), fromGo(it.Value()))
		}
		return ref.Canon(out)
	case reflect.Struct:
		fs, err := Fields(t)
		if err != nil {
			panic(err)
		}
		out := ref.V{T: ref.Struct}
		for _, f := range fs {
			fv := v.Field(f.Index)
			if !f.Required && fieldZero(fv) {
				continue
			}
			out.F = append(out.F, ref.Fld{ID: f.ID, V: fromGo(fv)})
		}
		return out
	}
	panic("uni: unsupported type " + t.String())
}

// ErrMismatch is the reference error for a wire type that does not fit.
var ErrMismatch = errors.New("uni: wire type does not fit the Go type")

// IntoGo is the reference model of Unmarshal into dst, which is addressable.
// Nothing that dst shares with other variables is written to, except through
// pointers that dst holds.
func IntoGo(v ref.V, dst reflect.Value) error {
	t := dst.Type()
	if t.Kind() == reflect.Pointer {
		if WT(t) == ref.Stop {
			return ErrMismatch
		}
		if dst.IsNil() {
			dst.Set(reflect.New(t.Elem()))
		}
		return IntoGo(v, dst.Elem())
	}
	if v.T != WT(t) {
		return ErrMismatch
	}
	switch t.Kind() {
	case reflect.Bool:
		dst.SetBool(v.N != 0)
	case reflect.Int8:
		dst.SetInt(int64(int8(v.N)))
	case reflect.Int16, reflect.Int32, reflect.Int64:
		dst.SetInt(v.N)
	case reflect.Uint8:
		dst.SetUint(uint64(uint8(v.N)))
	case reflect.Uint16:
		dst.SetUint(uint64(uint16(v.N)))
	case reflect.Uint32:
		dst.SetUint(uint64(uint32(v.N)))
	case reflect.Uint64:
		dst.SetUint(uint64(v.N))
	case reflect.Float32, reflect.Float64:
		dst.SetFloat(math.Float64frombits(uint64(v.N)))
	case reflect.String:
		dst.SetString(v.S)
	case reflect.Array:
		for i := range 16 {
			dst.Index(i).SetUint(uint64(v.S[i]))
		}
	case reflect.Slice:
		if dst.IsNil() && v.S == "" && len(v.L) == 0 {
			return nil
		}
		if isBytes(t) {
			dst.SetBytes([]byte(v.S))
			return nil
		}
		s := reflect.MakeSlice(t, len(v.L), len(v.L))
		for i, e := range v.L {
			if err := IntoGo(e, s.Index(i)); err != nil {
				return err
			}
		}
		dst.Set(s)
	case reflect.Map:
		if len(v.L) > 0 && dst.IsNil() {
			dst.Set(reflect.MakeMap(t))
		}
		for i := 0; i+1 < len(v.L); i += 2 {
			k := reflect.New(t.Key()).Elem()
			if err := IntoGo(v.L[i], k); err != nil {
				return err
			}
			e := reflect.New(t.Elem()).Elem()
			if old := dst.MapIndex(k); old.IsValid() {
				e.Set(old)
			}
			if err := IntoGo(v.L[i+1], e); err != nil {
				return err
			}
			dst.SetMapIndex(k, e)
		}
	case reflect.Struct:
		fs, err := Fields(t)
		if err != nil {
			return err
		}
		for _, f := range v.F {
			for _, fi := range fs {
				if fi.ID == f.ID {
					if err := IntoGo(f.V, dst.Field(fi.Index)); err != nil {
						return err
					}
				}
			}
		}
	}
	return nil
}

// Eq compares Go values: nil and empty slices and maps are equal,
// floats compare by bits (any NaN equals any NaN for float32).
func Eq(a, b reflect.Value) bool { return eq(a, b, false) }

// EqWire is Eq where a nil pointer equals a pointer to a zero value,
// which the wire cannot tell apart inside containers.
func EqWire(a, b reflect.Value) bool { return eq(a, b, true) }

func eq(a, b reflect.Value, wire bool) bool {
	t := a.Type()
	if t != b.Type() {
		return false
	}
	switch t.Kind() {
	case reflect.Float32:
		x, y := float32(a.Float()), float32(b.Float())
		return math.Float32bits(x) == math.Float32bits(y) || x != x && y != y
	case reflect.Float64:
		return math.Float64bits(a.Float()) == math.Float64bits(b.Float())
	case reflect.Pointer:
		if a.IsNil() && b.IsNil() {
			return true
		}
		if wire {
			if a.IsNil() {
				a = reflect.New(t.Elem())
			}
			if b.IsNil() {
				b = reflect.New(t.Elem())
			}
		}
		if a.IsNil() != b.IsNil() {
			return false
		}
		return eq(a.Elem(), b.Elem(), wire)
	case reflect.Slice:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !eq(a.Index(i), b.Index(i), wire) {
				return false
			}
		}
		return true
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if !eq(a.Index(i), b.Index(i), wire) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.Len() != b.Len() {
			return false
		}
		for it := a.MapRange(); it.Next(); {
			if k := it.Key(); k.Comparable() && k.Kind() != reflect.Pointer && !(k.CanFloat() && k.Float() != k.Float()) {
				e := b.MapIndex(k)
				if !e.IsValid() || !eq(it.Value(), e, wire) {
					return false
				}
				continue
			}
			// Pointer keys: find an entry that is equal.
			found := false
			for jt := b.MapRange(); jt.Next(); {
				if eq(it.Key(), jt.Key(), wire) && eq(it.Value(), jt.Value(), wire) {
					found = true
				}
			}
			if !found {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if !t.Field(i).IsExported() {
				continue
			}
			if !eq(a.Field(i), b.Field(i), wire) {
				return false
			}
		}
		return true
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return eq(a.Elem(), b.Elem(), wire)
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		return a.IsZero() == b.IsZero()
	}
	return a.Equal(b)
}

// Clone copies a value deeply.
func Clone(v reflect.Value) reflect.Value {
	t := v.Type()
	out := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			p := reflect.New(t.Elem())
			p.Elem().Set(Clone(v.Elem()))
			out.Set(p)
		}
	case reflect.Slice:
		if !v.IsNil() {
			s := reflect.MakeSlice(t, v.Len(), v.Len())
			for i := 0; i < v.Len(); i++ {
				s.Index(i).Set(Clone(v.Index(i)))
			}
			out.Set(s)
		}
	case reflect.Map:
		if !v.IsNil() {
			m := reflect.MakeMap(t)
			for it := v.MapRange(); it.Next(); {
				m.SetMapIndex(Clone(it.Key()), Clone(it.Value()))
			}
			out.Set(m)
		}
	case reflect.Struct:
		out.Set(v)
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).IsExported() {
				out.Field(i).Set(Clone(v.Field(i)))
			}
		}
	default:
		out.Set(v)
	}
	return out
}

// Show renders a Go value with pointers followed.
func Show(v reflect.Value) string {
	var sb strings.Builder
	show(&sb, v, 0)
	s := sb.String()
	if len(s) > 500 {
		s = s[:500] + "..."
	}
	return s
}

func show(sb *strings.Builder, v reflect.Value, d int) {
	if sb.Len() > 600 || d > 50 {
		sb.WriteString("..")
		return
	}
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		sb.WriteString("&")
		show(sb, v.Elem(), d+1)
	case reflect.Slice:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		if isBytes(v.Type()) {
			fmt.Fprintf(sb, "%q", clipB(v.Bytes()))
			return
		}
		fmt.Fprintf(sb, "%d[", v.Len())
		for i := 0; i < v.Len() && sb.Len() < 600; i++ {
			if i > 0 {
				sb.WriteString(" ")
			}
			show(sb, v.Index(i), d+1)
		}
		sb.WriteString("]")
	case reflect.Map:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		sb.WriteString("map[")
		for it := v.MapRange(); it.Next(); {
			show(sb, it.Key(), d+1)
			sb.WriteString(":")
			show(sb, it.Value(), d+1)
			sb.WriteString(" ")
		}
		sb.WriteString("]")
	case reflect.Struct:
		sb.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() && !v.Field(i).IsZero() {
				fmt.Fprintf(sb, "%s:", v.Type().Field(i).Name)
				show(sb, v.Field(i), d+1)
				sb.WriteString(" ")
			}
		}
		sb.WriteString("}")
	case reflect.String:
		fmt.Fprintf(sb, "%q", clipB([]byte(v.String())))
	case reflect.Float32, reflect.Float64:
		fmt.Fprintf(sb, "%v(%x)", v.Float(), math.Float64bits(v.Float()))
	default:
		fmt.Fprintf(sb, "%v", v)
	}
}

func clipB(b []byte) []byte {
	if len(b) > 40 {
		return b[:40]
	}
	return b
}

// Field describes a field for StructOf.
type Field struct {
	T    reflect.Type
	ID   int
	Opts string
}

// StructOf builds a struct type.
func StructOf(fs ...Field) reflect.Type {
	var sf []reflect.StructField
	for i, f := range fs {
		sf = append(sf, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: f.T, Tag: reflect.StructTag(fmt.Sprintf(`thrift:"%d%s"`, f.ID, f.Opts))})
	}
	return reflect.StructOf(sf)
}

// TypeOf is reflect.TypeOf for a type parameter.
func TypeOf[T any]() reflect.Type { return reflect.TypeOf((*T)(nil)).Elem() }

// Scalars lists the scalar Go types.
var Scalars = []reflect.Type{
	TypeOf[bool](), TypeOf[int8](), TypeOf[int16](), TypeOf[int32](), TypeOf[int64](),
	TypeOf[uint8](), TypeOf[uint16](), TypeOf[uint32](), TypeOf[uint64](),
	TypeOf[float32](), TypeOf[float64](), TypeOf[string](), TypeOf[[]byte](), TypeOf[[16]byte](),
	TypeOf[NBool](), TypeOf[NI8](), TypeOf[NI16](), TypeOf[NI32](), TypeOf[NI64](),
	TypeOf[NU8](), TypeOf[NU16](), TypeOf[NU32](), TypeOf[NU64](), TypeOf[NF32](), TypeOf[NF64](),
	TypeOf[NStr](), TypeOf[NBytes](), TypeOf[NBytes2](),
}

// Sets lists instantiations of Set and List.
var Sets = []reflect.Type{
	TypeOf[thrift.Set[bool]](), TypeOf[thrift.Set[int8]](), TypeOf[thrift.Set[byte]](), TypeOf[thrift.Set[int16]](),
	TypeOf[thrift.Set[int32]](), TypeOf[thrift.Set[uint64]](), TypeOf[thrift.Set[float32]](), TypeOf[thrift.Set[string]](),
	TypeOf[thrift.Set[[]byte]](), TypeOf[thrift.Set[[16]byte]](), TypeOf[thrift.Set[*string]](), TypeOf[thrift.Set[Key]](),
	TypeOf[thrift.Set[[]int32]](), TypeOf[thrift.Set[map[string]bool]](), TypeOf[thrift.Set[thrift.Set[bool]]](),
	TypeOf[thrift.List[bool]](), TypeOf[thrift.List[byte]](), TypeOf[thrift.List[int8]](), TypeOf[thrift.List[uint16]](), TypeOf[thrift.List[int64]](),
	TypeOf[thrift.List[float64]](), TypeOf[thrift.List[NStr]](), TypeOf[thrift.List[NBytes]](), TypeOf[thrift.List[[16]byte]](),
	TypeOf[thrift.List[*Key]](), TypeOf[thrift.List[thrift.List[int32]]](), TypeOf[thrift.List[thrift.Set[string]]](),
	TypeOf[[]thrift.Set[int32]](), TypeOf[map[string]thrift.Set[int32]](), TypeOf[*thrift.Set[int32]](), TypeOf[*thrift.List[byte]](),
}

// Named lists static struct and recursive types.
var Named = []reflect.Type{
	TypeOf[Person](), TypeOf[Key](), TypeOf[Req](), TypeOf[Tree](), TypeOf[TreeS](), TypeOf[TreeL](), TypeOf[RS](), TypeOf[RSP](), TypeOf[RM](), TypeOf[RSet](),
	TypeOf[MutA](), TypeOf[MutB](), TypeOf[NList](), TypeOf[NMap](), TypeOf[ZStruct](), TypeOf[struct{}](),
	TypeOf[map[Key]string](), TypeOf[map[Key]Key](), TypeOf[map[[16]byte]bool](), TypeOf[map[bool]bool](), TypeOf[map[float64]float32](),
	TypeOf[map[NStr][]NBytes](), TypeOf[map[int8]map[string][]bool](), TypeOf[map[*int32]bool](),
	TypeOf[struct {
		A ZVal     `thrift:"1"`
		B ZPtr     `thrift:"2"`
		C ZStruct  `thrift:"3"`
		D ZSlice   `thrift:"4"`
		E *ZVal    `thrift:"5"`
		F *ZPtr    `thrift:"6"`
		G *ZStruct `thrift:"7"`
		H **ZVal   `thrift:"8"`
		I ZVal     `thrift:"9,required"`
	}](),
}

// Composites returns the one-step composites over t.
func Composites(t reflect.Type) []reflect.Type {
	out := []reflect.Type{
		reflect.PointerTo(t),
		reflect.PointerTo(reflect.PointerTo(t)),
		reflect.SliceOf(t),
		reflect.SliceOf(reflect.PointerTo(t)),
		reflect.MapOf(TypeOf[string](), t),
		reflect.MapOf(TypeOf[int32](), reflect.PointerTo(t)),
		StructOf(Field{t, 1, ""}),
		StructOf(Field{t, 1, ",required"}),
		StructOf(Field{reflect.PointerTo(t), -300, ""}, Field{t, 15, ""}, Field{t, 16, ""}),
		StructOf(Field{reflect.PointerTo(t), 40, ",required"}, Field{reflect.SliceOf(t), 7, ""}),
	}
	if t.Comparable() {
		out = append(out, reflect.MapOf(t, TypeOf[bool]()), reflect.MapOf(t, t))
	}
	return out
}

// Types lists the types of the universe.
func Types(thorough bool) []reflect.Type {
	var out []reflect.Type
	out = append(out, Scalars...)
	for _, s := range Scalars {
		out = append(out, Composites(s)...)
	}
	out = append(out, Sets...)
	out = append(out, Named...)
	for _, s := range []reflect.Type{TypeOf[bool](), TypeOf[int32](), TypeOf[string](), TypeOf[Key]()} {
		for _, c := range Composites(s) {
			out = append(out, reflect.SliceOf(c), reflect.MapOf(TypeOf[int8](), c), StructOf(Field{c, 3, ""}, Field{TypeOf[bool](), 4, ""}, Field{s, 5, ",required"}))
		}
	}
	if thorough {
		for _, s := range []reflect.Type{TypeOf[[]byte](), TypeOf[[16]byte](), TypeOf[NF32](), TypeOf[thrift.Set[int32]](), TypeOf[ZStruct](), TypeOf[uint16](), TypeOf[Tree]()} {
			for _, c := range Composites(s) {
				out = append(out, c, reflect.SliceOf(c), reflect.MapOf(TypeOf[int64](), c), StructOf(Field{c, 3, ""}, Field{TypeOf[bool](), 4, ""}, Field{s, 5, ",required"}))
			}
		}
	}
	return out
}

var (
	i8s    = []int64{0, 1, -1, 127, -128}
	i16s   = []int64{0, 1, -1, 63, 64, -64, -65, 255, 256, 8191, 8192, math.MaxInt16, math.MinInt16}
	i32s   = []int64{0, 1, -1, 64, -65, 8192, 1 << 20, -1<<20 - 1, 1 << 27, math.MaxInt32, math.MinInt32, 0x01020304}
	i64s   = []int64{0, 1, -1, 1 << 31, -1 << 31, 1 << 34, 1 << 41, -1 << 48, 1 << 55, 1 << 62, math.MaxInt64, math.MinInt64, 0x0102030405060708}
	f64s   = []float64{0, 1, math.Copysign(0, -1), math.Inf(1), math.Inf(-1), math.NaN(), math.Float64frombits(0x7ff8000000000001), math.SmallestNonzeroFloat64, math.MaxFloat64, math.Float64frombits(0x0102030405060708), -1.5}
	f32s   = []float64{0, 1, math.Copysign(0, -1), math.Inf(1), math.NaN(), math.SmallestNonzeroFloat32, math.MaxFloat32, -1.5}
	strs   = []string{"", "a", "\x00", "h\u00e9llo \u4e16", "\xff\xfe", strings.Repeat("x", 15), strings.Repeat("y", 127), strings.Repeat("z", 128), strings.Repeat("w", 300)}
	uuids  = []string{"", "\x00\x01\x02\x03\x04\x05\x06\x07\x08\x09\x0a\x0b\x0c\x0d\x0e\x0f", strings.Repeat("\xff", 16)}
	mapLen = 3
)

func ints(k reflect.Kind) []int64 {
	switch k {
	case reflect.Int8, reflect.Uint8:
		return i8s
	case reflect.Int16, reflect.Uint16:
		return i16s
	case reflect.Int32, reflect.Uint32:
		return i32s
	}
	return i64s
}

func pickI[T any](c *engine.Ctx, xs []T, lvl int) T {
	n := len(xs)
	switch {
	case lvl == 1:
		n = min(n, 4)
	case lvl == 2:
		n = min(n, 2)
	case lvl > 2:
		return xs[min(len(xs)-1, 1+lvl%2)]
	}
	return xs[c.Choose(n)]
}

// Gen builds a value of type t from choices. Every scalar takes boundary
// values (fewer, the deeper it is), containers have 0 to 3 elements (fewer,
// the deeper they are), struct fields are zero or not (deviation-bounded).
func Gen(c *engine.Ctx, t reflect.Type, lvl int) reflect.Value {
	v := reflect.New(t).Elem()
	gen(c, v, lvl)
	return v
}

func gen(c *engine.Ctx, v reflect.Value, lvl int) {
	t := v.Type()
	switch t.Kind() {
	case reflect.Bool:
		if lvl > 3 {
			v.SetBool(true)
			return
		}
		v.SetBool(c.Choose(2) == 1)
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(pickI(c, ints(t.Kind()), lvl))
		if strings.HasPrefix(t.Name(), "Z") && lvl < 3 && c.Choose(3) == 0 {
			v.SetInt(7)
		}
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		n := uint64(pickI(c, ints(t.Kind()), lvl))
		v.SetUint(n & (1<<t.Bits() - 1))
	case reflect.Float32:
		v.SetFloat(pickI(c, f32s, lvl))
	case reflect.Float64:
		v.SetFloat(pickI(c, f64s, lvl))
	case reflect.String:
		v.SetString(pickI(c, strs, lvl))
	case reflect.Array:
		u := ref.UUIDV(pickI(c, uuids, lvl)).S
		for i := range 16 {
			v.Index(i).SetUint(uint64(u[i]))
		}
	case reflect.Pointer:
		if lvl > 4 || c.Choose(2) == 0 {
			return
		}
		p := reflect.New(t.Elem())
		gen(c, p.Elem(), lvl+b2i(lvl > 0))
		v.Set(p)
	case reflect.Slice:
		if isBytes(t) {
			n := 0
			if lvl < 3 {
				n = c.Choose(2)
			}
			if n == 1 || lvl >= 3 {
				v.SetBytes([]byte(pickI(c, strs, lvl)))
			}
			return
		}
		if lvl > 4 {
			return
		}
		n := c.Choose(max(4-lvl, 2))
		s := reflect.MakeSlice(t, n, n)
		for i := range n {
			gen(c, s.Index(i), lvl+1)
		}
		if n > 0 || c.Choose(2) == 1 {
			v.Set(s)
		}
	case reflect.Map:
		if lvl > 4 {
			return
		}
		n := c.Choose(max(3-lvl, 2))
		if n == 0 && c.Choose(2) == 0 {
			return
		}
		m := reflect.MakeMap(t)
		for i := range n {
			k := reflect.New(t.Key()).Elem()
			e := reflect.New(t.Elem()).Elem()
			genKey(c, k, i)
			gen(c, e, lvl+1)
			m.SetMapIndex(k, e)
		}
		v.Set(m)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if !t.Field(i).IsExported() || t.Field(i).Tag.Get("thrift") == "-" {
				continue
			}
			if c.Dev(2) == 1 {
				gen(c, v.Field(i), lvl+1)
			}
		}
	default:
		panic("uni: cannot generate " + t.String())
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// genKey makes the i-th key: keys of different i differ.
func genKey(c *engine.Ctx, k reflect.Value, i int) {
	switch k.Kind() {
	case reflect.Bool:
		k.SetBool(i%2 == 1)
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		xs := ints(k.Kind())
		k.SetInt(xs[(i+3*c.Choose(2))%len(xs)])
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		xs := ints(k.Kind())
		k.SetUint(uint64(xs[(i+3*c.Choose(2))%len(xs)]) & (1<<k.Type().Bits() - 1))
	case reflect.Float32, reflect.Float64:
		k.SetFloat([]float64{0, 1.5, -2.25, math.Inf(1)}[i%4])
	case reflect.String:
		k.SetString([]string{"", "k", "\xfe\x00", strings.Repeat("q", 130)}[(i+2*c.Choose(2))%4])
	case reflect.Array:
		k.Index(15).SetUint(uint64(i))
	case reflect.Struct:
		genKey(c, k.Field(0), i)
	case reflect.Pointer:
		p := reflect.New(k.Type().Elem())
		genKey(c, p.Elem(), i)
		k.Set(p)
	case reflect.Interface:
	default:
		panic("uni: key " + k.Type().String())
	}
}

// NonZero makes a value in which everything is set.
func NonZero(t reflect.Type) reflect.Value {
	v := reflect.New(t).Elem()
	nonZero(v, 0)
	return v
}

func nonZero(v reflect.Value, d int) {
	t := v.Type()
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(true)
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(41)
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(42)
	case reflect.Float32, reflect.Float64:
		v.SetFloat(4.25)
	case reflect.String:
		v.SetString("before")
	case reflect.Array:
		for i := range v.Len() {
			v.Index(i).SetUint(uint64(0x40 + i))
		}
	case reflect.Pointer:
		if d > 6 {
			return
		}
		p := reflect.New(t.Elem())
		nonZero(p.Elem(), d+1)
		v.Set(p)
	case reflect.Slice:
		if isBytes(t) {
			v.SetBytes([]byte("bytes before"))
			return
		}
		if d > 4 {
			return
		}
		s := reflect.MakeSlice(t, 2, 2)
		nonZero(s.Index(0), d+1)
		nonZero(s.Index(1), d+2)
		v.Set(s)
	case reflect.Map:
		if d > 4 {
			return
		}
		m := reflect.MakeMap(t)
		for i := range 2 {
			k, e := reflect.New(t.Key()).Elem(), reflect.New(t.Elem()).Elem()
			plainKey(k, i)
			nonZero(e, d+1)
			m.SetMapIndex(k, e)
		}
		v.Set(m)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).IsExported() {
				nonZero(v.Field(i), d+1)
			}
		}
	}
}

func plainKey(k reflect.Value, i int) {
	switch k.Kind() {
	case reflect.Bool:
		k.SetBool(i == 1)
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		k.SetInt(int64(i))
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		k.SetUint(uint64(i))
	case reflect.Float32, reflect.Float64:
		k.SetFloat([]float64{0, 1.5}[i])
	case reflect.String:
		k.SetString([]string{"", "k"}[i])
	case reflect.Array:
		k.Index(15).SetUint(uint64(i))
	case reflect.Struct:
		if k.NumField() > 0 {
			plainKey(k.Field(0), i)
		}
	case reflect.Pointer:
		p := reflect.New(k.Type().Elem())
		plainKey(p.Elem(), i)
		k.Set(p)
	}
}

// WithSpare copies v; every slice in it gets n elements of spare capacity
// that hold stale data.
func WithSpare(v reflect.Value, n int) reflect.Value {
	out := Clone(v)
	withSpare(out, n)
	return out
}

func withSpare(v reflect.Value, n int) {
	t := v.Type()
	switch t.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			withSpare(v.Elem(), n)
		}
	case reflect.Slice:
		s := reflect.MakeSlice(t, v.Len()+n, v.Len()+n)
		for i := range s.Len() {
			if i < v.Len() {
				withSpare(v.Index(i), n)
				s.Index(i).Set(v.Index(i))
			} else {
				nonZero(s.Index(i), 3)
			}
		}
		v.Set(s.Slice(0, v.Len()))
	case reflect.Map:
		if v.IsNil() {
			return
		}
		for _, k := range v.MapKeys() {
			e := reflect.New(t.Elem()).Elem()
			e.Set(v.MapIndex(k))
			withSpare(e, n)
			v.SetMapIndex(k, e)
		}
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).IsExported() {
				withSpare(v.Field(i), n)
			}
		}
	}
}

// FieldZero tells whether a field that is not required is left out.
func FieldZero(v reflect.Value) bool {
	if v.Kind() == reflect.Interface && (v.IsNil() || v.Elem().Kind() == reflect.Pointer && v.Elem().IsNil()) {
		return true
	}
	return fieldZero(v)
}
