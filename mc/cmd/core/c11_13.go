//go:build go1.23

package main

import (
	"bytes"
	"fmt"
	"go/token"
	"reflect"
	"runtime/debug"
	"strings"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/internal/zzverif/engine"
	"github.com/itstarsun/go-thrift/internal/zzverif/ref"
	"github.com/itstarsun/go-thrift/internal/zzverif/uni"
	"github.com/itstarsun/go-thrift/thrift"
	"github.com/itstarsun/go-thrift/tools/thriftfile"
)

func init() {
	register(&engine.Prop{ID: "C11", Level: level,
		Rule:        "an execution processes one value or document of one depth",
		Assumptions: []string{"recursion without a limit overflows a stack of 256 MB at a depth of 3 million"},
		Spaces:      c11Spaces})
	register(&engine.Prop{ID: "C12", Level: level,
		Rule:        "an execution unmarshals one value whose type does not fit, in one position",
		Assumptions: []string{"empty containers fit whatever their element type is"},
		Spaces:      c12Spaces})
	register(&engine.Prop{ID: "C13", Level: level,
		Rule:        "an execution unmarshals one value into one initial value",
		Assumptions: []string{"mc/uni models the documented rules of Unmarshal"},
		Spaces:      c13Spaces})
}

// DeepL and DeepM recurse through all kinds of containers.
type (
	DeepS struct {
		L []DeepS           `thrift:"1"`
		S thrift.Set[DeepS] `thrift:"2"`
		M map[int8]DeepS    `thrift:"3"`
		P *DeepS            `thrift:"4"`
		N int32             `thrift:"5"`
	}
	DeepL []DeepL
	DeepM map[int8]DeepM
)

type deepKind struct {
	name  string
	t     byte
	child byte // type of the child
	bin   string
	cmp   string
	gt    reflect.Type
	fin   string // what follows the child
}

// Containers of one child: struct field, list, set, map value.
var deepKinds = []deepKind{
	{"struct field", ref.Struct, 0, "T\x00I", "", nil, "\x00"},
	{"list", ref.List, 0, "T\x00\x00\x00\x01", "", nil, ""},
	{"set", ref.Set, 0, "T\x00\x00\x00\x01", "", nil, ""},
	{"map value", ref.Map, 0, "\x03T\x00\x00\x00\x01\x07", "", nil, ""},
	{"map key", ref.Map, 0, "T\x03\x00\x00\x00\x01", "", nil, "\x07"},
}

// deepInput nests the kinds by turns, n levels deep; the innermost value is empty.
func deepInput(p ref.Proto, kinds []int, n int, known bool) (byte, []byte) {
	var b, fin []byte
	at := func(i int) deepKind { return deepKinds[kinds[i%len(kinds)]] }
	for i := range n {
		k := at(i)
		ct := at(i + 1).t
		id := byte(9) // not known
		if known {
			id = map[byte]byte{ref.List: 1, ref.Set: 2, ref.Map: 3, ref.Struct: 4}[ct]
		}
		if p == ref.CompactP {
			c := ref.CType(ct)
			switch k.name {
			case "struct field":
				b = append(b, id<<4|c)
			case "list", "set":
				b = append(b, 0x10|c)
			case "map value":
				b = append(b, 1, 0x30|c, 7)
			case "map key":
				b = append(b, 1, c<<4|3)
			}
		} else {
			for _, x := range []byte(k.bin) {
				switch x {
				case 'T':
					x = ct
				case 'I':
					x = id
				}
				b = append(b, x)
			}
		}
		fin = append(fin, k.fin...)
	}
	switch k := at(n); {
	case k.t == ref.Struct:
		b = append(b, 0)
	case p == ref.CompactP && k.t == ref.Map:
		b = append(b, 0)
	case p == ref.CompactP:
		b = append(b, 0x03)
	case k.t == ref.Map:
		b = append(b, 3, 3, 0, 0, 0, 0)
	default:
		b = append(b, 3, 0, 0, 0, 0)
	}
	for i := len(fin) - 1; i >= 0; i-- {
		b = append(b, fin[i])
	}
	return at(0).t, b
}

const deepStack = 256 << 20

func c11Spaces(th bool) []engine.Space {
	depths := []int{1, 2, 10, 100, 1000, 20000, 300000, 3000000}
	if th {
		depths = []int{1, 2, 3, 10, 64, 100, 500, 1000, 9000, 9999, 10000, 10001, 20000, 65536, 100000, 300000, 1000000, 3000000}
	}
	mustWork := func(n int) bool { return n <= 1000 }
	protos := []ref.Proto{ref.BinStrict, ref.CompactP}
	idlShapes := []struct{ name, pre, open, mid, close, post string }{
		{"list types", "typedef ", "list<", "i32", ">", " T"},
		{"set types", "struct S { 1: ", "set<", "bool", ">", " f }"},
		{"map value types", "typedef ", "map<i32,", "i32", ">", " T"},
		{"map key types", "service S { void f(1: ", "map<", "i32", ",i32>", " a) }"},
		{"const lists", "const i32 c = ", "[", "1", "]", ""},
		{"const maps", "const i32 c = ", "{1:", "1", "}", ""},
		{"const map keys", "const i32 c = ", "{", "1", ":1}", ""},
		{"field default", "struct S { 1: i32 a = ", "[", "1", ",]", "}"},
		{"mixed constants", "const X c = ", "[{2:", "1", "}]", ""},
		{"unclosed lists", "const X c = ", "[", "", "", ""},
		{"unclosed types", "typedef ", "map<list<", "", "", ""},
	}
	return []engine.Space{
		{Name: "wire values", Shards: 2 * 5 * 5, Serial: true, Bound: fmt.Sprintf("every pair of 5 kinds of nesting by turns, depths %v: Skip, and Unmarshal as an unknown field", depths),
			Run: func(c *engine.Ctx, sh int) {
				debug.SetMaxStack(deepStack)
				p := protos[sh%2]
				kinds := []int{sh / 2 % 5, sh / 10}
				n := engine.Pick(c, depths)
				if n > 30000 && kinds[0] > kinds[1] && !th {
					return
				}
				t, in := deepInput(p, kinds, n, false)
				c.Steps(2)
				err := thriftwire.Skip(uni.Impl(p).NewReader(bytes.NewReader(in)), thriftwire.Type(t))
				if err != nil && mustWork(n) {
					c.Failf("%v: Skip of %s and %s nested %d deep: %v", p, deepKinds[kinds[0]].name, deepKinds[kinds[1]].name, n, err)
				}
				var f []byte
				if p == ref.CompactP {
					f = append([]byte{0x10 | ref.CType(t)}, in...)
				} else {
					f = append([]byte{t, 0, 1}, in...)
				}
				var s struct{}
				err = thrift.Unmarshal(uni.Impl(p).NewReader(bytes.NewReader(append(f, 0))), &s)
				if err != nil && mustWork(n) {
					c.Failf("%v: an unknown field of %s and %s nested %d deep: %v", p, deepKinds[kinds[0]].name, deepKinds[kinds[1]].name, n, err)
				}
				c.Logf("%v: %s and %s nested %d deep: %v", p, deepKinds[kinds[0]].name, deepKinds[kinds[1]].name, n, err)
				c.Outcome(fmt.Sprintf("depth %d: error %v", n, err != nil))
				c.StateOf(sh, n)
			}},
		{Name: "go values", Shards: 2 * 7, Serial: true, Bound: "recursive Go types by field pointer, list, set, map; list of lists; map of maps; the same depths: Unmarshal, then Marshal again",
			Run: func(c *engine.Ctx, sh int) {
				debug.SetMaxStack(deepStack)
				p := protos[sh%2]
				n := engine.Pick(c, depths)
				var kinds []int
				gt := uni.TypeOf[DeepS]()
				switch sh / 2 {
				case 0:
					kinds = []int{0}
				case 1:
					kinds = []int{0, 1}
				case 2:
					kinds = []int{0, 2}
				case 3:
					kinds = []int{0, 3}
				case 4:
					kinds = []int{1}
					gt = uni.TypeOf[DeepL]()
				case 5:
					kinds = []int{3}
					gt = uni.TypeOf[DeepM]()
				case 6:
					kinds = []int{0, 0, 1, 0, 2, 0, 3}
				}
				_, in := deepInput(p, kinds, n, true)
				out := reflect.New(gt)
				c.Steps(2)
				err := thrift.Unmarshal(uni.Impl(p).NewReader(bytes.NewReader(in)), out.Interface())
				if err != nil && mustWork(n) {
					c.Failf("%v: Unmarshal of %v nested %d deep: %v", p, gt, n, err)
				}
				var buf bytes.Buffer
				w := uni.Impl(p).NewWriter(&buf)
				err2 := thrift.Marshal(w, out.Interface())
				if err2 == nil {
					err2 = w.Flush()
				}
				if mustWork(n) {
					if err2 != nil {
						c.Failf("%v: Marshal of %v nested %d deep: %v", p, gt, n, err2)
					}
					// Zero-valued innermost fields are left out.
					out2 := reflect.New(gt)
					if err := thrift.Unmarshal(uni.Impl(p).NewReader(&buf), out2.Interface()); err != nil || !uni.EqWire(out.Elem(), out2.Elem()) && n > 3 && sh/2 < 6 && sh/2 > 3 {
						c.Failf("%v: %v nested %d deep does not come back: %v", p, gt, n, err)
					}
				}
				c.Logf("%v: %v nested %d deep: %v", p, gt, n, err)
				c.StateOf(sh, n)
			}},
		{Name: "go marshal", Shards: 2 * 6, Serial: true, Bound: "Marshal of Go values built in memory: the same depths, and cyclic values through pointers, slices and maps",
			Run: func(c *engine.Ctx, sh int) {
				debug.SetMaxStack(deepStack)
				p := protos[sh%2]
				n := engine.Pick(c, append(depths[:len(depths):len(depths)], -1)) // -1: cyclic
				var v any
				switch sh / 2 {
				case 0: // pointers
					head := &DeepS{N: 5}
					x := head
					for range n {
						x = &DeepS{P: x}
					}
					if n < 0 {
						head.P = x
					}
					v = x
				case 1: // lists
					x := DeepL{nil}
					last := x
					for range n {
						x = DeepL{x}
					}
					if n < 0 {
						last[0] = last
					}
					v = x
				case 2: // maps
					x := DeepM{}
					last := x
					for range n {
						x = DeepM{1: x}
					}
					if n < 0 {
						last[1] = last
					}
					v = x
				case 3: // a list in a struct
					x := DeepS{L: []DeepS{{}}}
					last := x.L
					for range n {
						x = DeepS{L: []DeepS{x}}
					}
					if n < 0 {
						last[0] = x
					}
					v = x
				case 4: // a set in a struct
					x := DeepS{S: thrift.Set[DeepS]{{}}}
					last := x.S
					for range n {
						x = DeepS{S: thrift.Set[DeepS]{x}}
					}
					if n < 0 {
						last[0] = x
					}
					v = &x
				case 5: // a map in a struct
					x := DeepS{M: map[int8]DeepS{}}
					last := x.M
					for range n {
						x = DeepS{M: map[int8]DeepS{2: x}}
					}
					if n < 0 {
						last[1] = x
					}
					v = x
				}
				var buf discard
				w := uni.Impl(p).NewWriter(&buf)
				c.Step()
				err := thrift.Marshal(w, v)
				if err == nil {
					err = w.Flush()
				}
				switch {
				case n < 0 && err == nil:
					c.Failf("%v: Marshal of a cyclic %T succeeds", p, v)
				case n >= 0 && n <= 1000 && err != nil:
					c.Failf("%v: Marshal of a %T nested %d deep: %v", p, v, n, err)
				}
				c.StateOf(sh, n)
			}},
		{Name: "idl", Shards: len(idlShapes), Serial: true, Bound: "11 kinds of nested types and values in IDL documents, the same depths",
			Run: func(c *engine.Ctx, sh int) {
				debug.SetMaxStack(deepStack)
				s := idlShapes[sh]
				n := engine.Pick(c, depths)
				if n > 2000000 {
					n = 2000000
				}
				doc := s.pre + strings.Repeat(s.open, n) + s.mid + strings.Repeat(s.close, n) + s.post
				c.Step()
				_, err := thriftfile.Parse(token.NewFileSet(), "x.thrift", []byte(doc))
				if complete := s.mid != ""; complete && err != nil && mustWork(n) {
					c.Failf("%s nested %d deep: %v", s.name, n, err)
				} else if !complete && err == nil {
					c.Failf("%s nested %d deep: no error", s.name, n)
				}
				c.Logf("%s nested %d deep: %v", s.name, n, err)
				c.StateOf(sh, n)
			}},
	}
}

type discard struct{}

func (discard) Write(p []byte) (int, error) { return len(p), nil }

// tags for types that do not exist in the binary protocol.
var noTypes = []byte{1, 5, 7, 9, 17, 18, 31, 128, 255}

func c12Spaces(th bool) []engine.Space {
	var types []reflect.Type
	types = append(types, uni.Scalars...)
	types = append(types, uni.Sets...)
	types = append(types, uni.Named...)
	types = append(types, uni.TypeOf[*int32](), uni.TypeOf[**string](), uni.TypeOf[[]string](), uni.TypeOf[[]*uni.Key](), uni.TypeOf[[][]int32](), uni.TypeOf[map[string]int32](), uni.TypeOf[map[int32]*uni.Key](), uni.TypeOf[*map[bool]bool](), uni.TypeOf[*struct{}]())
	if th {
		for _, t := range []reflect.Type{uni.TypeOf[bool](), uni.TypeOf[[]byte](), uni.TypeOf[[16]byte](), uni.TypeOf[uni.Key]()} {
			types = append(types, uni.Composites(t)...)
		}
	}
	samples := []ref.V{
		ref.BoolV(true), ref.ByteV(5), ref.I16V(5), ref.I32V(5), ref.I64V(5), ref.DoubleV(5), ref.StrV("five!"), ref.UUIDV("555"),
		ref.StructV(ref.F(1, ref.I32V(5))), ref.StructV(), ref.MapV(ref.String, ref.I32, ref.StrV("a"), ref.I32V(1)), ref.MapV(ref.Bool, ref.Bool, ref.BoolV(true), ref.BoolV(true)),
		ref.SetV(ref.I32, ref.I32V(5)), ref.ListV(ref.I32, ref.I32V(5)), ref.ListV(ref.Byte, ref.ByteV(1), ref.ByteV(2)), ref.ListV(ref.Struct, ref.StructV()), ref.SetV(ref.Bool), ref.ListV(ref.String), ref.MapV(ref.I16, ref.I16),
	}
	places := []string{"field", "second field", "list element", "set element", "map key", "map value", "field of a list element", "field of a pointer"}
	run := func(c *engine.Ctx, p ref.Proto, t reflect.Type, v ref.V, raw []byte, place int) {
		init := uni.NonZero(t)
		var gt reflect.Type
		var enc []byte
		// wrap encodes the value in its place; wt is its announced type.
		wt := v.T
		var dst reflect.Value
		var unchanged func() bool
		small := uni.WT(t)
		_ = small
		hdr := func(kind byte, kt, et byte, n int) []byte { return rawHeader(p, kind, kt, et, n) }
		zeroish := func(x reflect.Value) bool {
			for x.Kind() == reflect.Pointer {
				if x.IsNil() {
					return true
				}
				x = x.Elem()
			}
			return x.IsZero()
		}
		switch places[place] {
		case "field", "second field":
			gt = uni.StructOf(uni.Field{T: uni.TypeOf[int32](), ID: 1}, uni.Field{T: t, ID: 3}, uni.Field{T: t, ID: 4})
			dst = reflect.New(gt)
			dst.Elem().Field(1).Set(uni.Clone(init))
			dst.Elem().Field(2).Set(uni.Clone(init))
			k := 1
			if places[place] == "field" {
				enc = rawField(p, 0, 3, wt)
			} else {
				k = 2
				enc = p.Enc(rawField(p, 0, 1, ref.I32), ref.I32V(9))
				enc = append(enc, rawField(p, 1, 4, wt)...)
			}
			if p == ref.CompactP && wt == ref.Bool {
				enc = append(enc, raw[1:]...)
			} else {
				enc = append(enc, raw...)
			}
			unchanged = func() bool {
				return uni.Eq(dst.Elem().Field(k), init) && uni.Eq(dst.Elem().Field(3-k), init)
			}
		case "list element", "set element":
			kind := byte(ref.List)
			gt = reflect.SliceOf(t)
			if places[place] == "set element" {
				kind = ref.Set
				var ok bool
				if gt, ok = setOf[t]; !ok {
					return
				}
			}
			if uni.WT(gt) == ref.String {
				return
			}
			dst = reflect.New(gt)
			enc = append(hdr(kind, 0, wt, 1), raw...)
			unchanged = func() bool { return dst.Elem().Len() == 0 || dst.Elem().Len() == 1 && zeroish(dst.Elem().Index(0)) }
		case "map key":
			if !t.Comparable() || t.Kind() == reflect.Pointer {
				return
			}
			gt = reflect.MapOf(t, uni.TypeOf[int8]())
			dst = reflect.New(gt)
			enc = append(append(hdr(ref.Map, wt, ref.Byte, 1), raw...), 7)
			unchanged = func() bool { return dst.Elem().Len() == 0 }
		case "map value":
			gt = reflect.MapOf(uni.TypeOf[int8](), t)
			dst = reflect.New(gt)
			m := reflect.MakeMap(gt)
			m.SetMapIndex(reflect.ValueOf(int8(7)), uni.Clone(init))
			dst.Elem().Set(m)
			enc = append(append(hdr(ref.Map, ref.Byte, wt, 1), 7), raw...)
			unchanged = func() bool {
				return m.Len() == 1 && uni.Eq(m.MapIndex(reflect.ValueOf(int8(7))), init)
			}
		case "field of a list element":
			st := uni.StructOf(uni.Field{T: t, ID: 2})
			gt = reflect.SliceOf(st)
			dst = reflect.New(gt)
			enc = append(hdr(ref.List, 0, ref.Struct, 1), rawField(p, 0, 2, wt)...)
			if p == ref.CompactP && wt == ref.Bool {
				enc = append(enc, raw[1:]...)
			} else {
				enc = append(enc, raw...)
			}
			unchanged = func() bool { return dst.Elem().Len() == 0 || zeroish(dst.Elem().Index(0).Field(0)) }
		case "field of a pointer":
			st := uni.StructOf(uni.Field{T: t, ID: -2})
			gt = reflect.PointerTo(st)
			dst = reflect.New(gt)
			dst.Elem().Set(reflect.New(st))
			dst.Elem().Elem().Field(0).Set(uni.Clone(init))
			enc = rawField(p, 0, -2, wt)
			if p == ref.CompactP && wt == ref.Bool {
				enc = append(enc, raw[1:]...)
			} else {
				enc = append(enc, raw...)
			}
			unchanged = func() bool { return uni.Eq(dst.Elem().Elem().Field(0), init) }
		}
		// What follows would be decoded if the mismatch were overlooked.
		enc = append(enc, make([]byte, 40)...)
		c.Step()
		err := thrift.Unmarshal(uni.Impl(p).NewReader(bytes.NewReader(enc)), dst.Interface())
		if err == nil {
			c.Failf("%v: wire type %d as %s of Go type %v: no error, value %s", p, wt, places[place], t, uni.Show(dst.Elem()))
		}
		if !isSemantic(err) {
			c.Failf("%v: wire type %d as %s of Go type %v: the error %T %q is not a SemanticError", p, wt, places[place], t, err, err)
		}
		if !unchanged() {
			c.Failf("%v: wire type %d as %s of Go type %v: an error, but the value is now %s", p, wt, places[place], t, uni.Show(dst.Elem()))
		}
		c.Logf("%v: %s as %s of %v: %v", p, v, places[place], t, err != nil)
		c.StateOf(p, wt, t, place)
	}
	return []engine.Space{
		{Name: "types", Shards: 3 * len(types), Bound: fmt.Sprintf("%d Go types x %d values of other wire types x %d positions", len(types), len(samples), len(places)),
			Run: func(c *engine.Ctx, sh int) {
				p, t := uni.Protos[sh%3], types[sh/3]
				place := c.Choose(len(places))
				v := engine.Pick(c, samples)
				if v.T == uni.WT(t) {
					return
				}
				run(c, p, t, v, p.Enc(nil, v), place)
			}},
		{Name: "numbers without a type", Shards: 2 * len(types), Bound: "the same for wire type numbers that stand for no type",
			Run: func(c *engine.Ctx, sh int) {
				p, t := uni.Protos[sh%2], types[sh/2]
				place := c.Choose(len(places))
				run(c, p, t, ref.V{T: engine.Pick(c, noTypes)}, []byte{1, 2, 3}, place)
			}},
		{Name: "elements of the right container", Shards: 3 * 12 * 12, Bound: "lists, sets and maps of 1 or 2 elements (after 0 or 1 right one at the outer level) with every pair of expected and actual element type",
			Run: func(c *engine.Ctx, sh int) {
				p := uni.Protos[sh%3]
				want, got := ref.All[sh/3%12], ref.All[sh/36]
				if want == got {
					return
				}
				gt := scalarOf[want]
				kind := engine.Pick(c, []byte{ref.List, ref.Map})
				bad := ref.V{T: kind, ET: got, L: []ref.V{smallest(got)}}
				outer := reflect.SliceOf(reflect.SliceOf(gt))
				good := ref.V{T: kind, ET: want, L: []ref.V{smallest(want)}}
				if kind == ref.Map {
					if c.Choose(2) == 0 {
						bad = ref.V{T: ref.Map, KT: ref.Byte, ET: got, L: []ref.V{ref.ByteV(1), smallest(got)}}
						good = ref.V{T: ref.Map, KT: ref.Byte, ET: want, L: []ref.V{ref.ByteV(1), smallest(want)}}
						outer = reflect.SliceOf(reflect.MapOf(uni.TypeOf[int8](), gt))
					} else {
						if !gt.Comparable() {
							return
						}
						bad = ref.V{T: ref.Map, KT: got, ET: ref.Byte, L: []ref.V{smallest(got), ref.ByteV(1)}}
						good = ref.V{T: ref.Map, KT: want, ET: ref.Byte, L: []ref.V{smallest(want), ref.ByteV(1)}}
						outer = reflect.SliceOf(reflect.MapOf(gt, uni.TypeOf[int8]()))
					}
				} else if gt == uni.TypeOf[byte]() {
					return
				}
				v := ref.V{T: ref.List, ET: kind}
				n := c.Choose(3)
				for range n {
					v.L = append(v.L, good)
				}
				v.L = append(v.L, bad, good)
				out := reflect.New(outer)
				c.Step()
				err := thrift.Unmarshal(uni.Impl(p).NewReader(bytes.NewReader(p.Enc(nil, v))), out.Interface())
				if err == nil || !isSemantic(err) {
					c.Failf("%v: %v into %v: %v, %s", p, v, outer, err, uni.Show(out.Elem()))
				}
				for i := 0; i < min(n, out.Elem().Len()); i++ {
					w := reflect.New(outer.Elem()).Elem()
					if e := uni.IntoGo(good, w); e != nil {
						panic("engine: " + e.Error())
					}
					if !uni.Eq(out.Elem().Index(i), w) {
						c.Failf("%v: %v into %v: element %d is %s", p, v, outer, i, uni.Show(out.Elem().Index(i)))
					}
				}
				c.StateOf(sh, n, kind)
			}},
	}
}

var setOf = map[reflect.Type]reflect.Type{
	uni.TypeOf[bool](): uni.TypeOf[thrift.Set[bool]](), uni.TypeOf[int8](): uni.TypeOf[thrift.Set[int8]](), uni.TypeOf[uint16](): uni.TypeOf[thrift.Set[uint16]](), uni.TypeOf[int32](): uni.TypeOf[thrift.Set[int32]](),
	uni.TypeOf[int64](): uni.TypeOf[thrift.Set[int64]](), uni.TypeOf[float64](): uni.TypeOf[thrift.Set[float64]](), uni.TypeOf[string](): uni.TypeOf[thrift.Set[string]](), uni.TypeOf[[]byte](): uni.TypeOf[thrift.Set[[]byte]](),
	uni.TypeOf[[16]byte](): uni.TypeOf[thrift.Set[[16]byte]](), uni.TypeOf[uni.Key](): uni.TypeOf[thrift.Set[uni.Key]](), uni.TypeOf[[]string](): uni.TypeOf[thrift.Set[[]string]](), uni.TypeOf[*int32](): uni.TypeOf[thrift.Set[*int32]](),
	uni.TypeOf[map[string]int32](): uni.TypeOf[thrift.Set[map[string]int32]](), uni.TypeOf[thrift.Set[int32]](): uni.TypeOf[thrift.Set[thrift.Set[int32]]](),
}

// scalarOf is a Go type for every wire type.
var scalarOf = map[byte]reflect.Type{
	ref.Bool: uni.TypeOf[bool](), ref.Byte: uni.TypeOf[int8](), ref.I16: uni.TypeOf[int16](), ref.I32: uni.TypeOf[int32](), ref.I64: uni.TypeOf[int64](), ref.Double: uni.TypeOf[float64](),
	ref.String: uni.TypeOf[string](), ref.UUID: uni.TypeOf[[16]byte](), ref.Struct: uni.TypeOf[struct{}](), ref.List: uni.TypeOf[[]bool](), ref.Set: uni.TypeOf[thrift.Set[bool]](), ref.Map: uni.TypeOf[map[bool]bool](),
}

// rawField is a field header.
func rawField(p ref.Proto, last, id int16, t byte) []byte {
	if p == ref.CompactP {
		ct := ref.CType(t)
		if t == ref.Bool {
			ct = 1
		}
		if d := int(id) - int(last); d > 0 && d <= 15 {
			return []byte{byte(d)<<4 | ct}
		}
		return ref.ZZ([]byte{ct}, int64(id))
	}
	return []byte{t, byte(uint16(id) >> 8), byte(id)}
}

// rawHeader is a container header.
func rawHeader(p ref.Proto, kind, kt, et byte, n int) []byte {
	if p == ref.CompactP {
		if kind == ref.Map {
			return append(ref.UV(nil, uint64(n)), ref.CType(kt)<<4|ref.CType(et))
		}
		return []byte{byte(n)<<4 | ref.CType(et)}
	}
	sz := []byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}
	if kind == ref.Map {
		return append([]byte{kt, et}, sz...)
	}
	return append([]byte{et}, sz...)
}

// Part is a struct that may be a key.
type Part struct {
	A int16  `thrift:"1"`
	B string `thrift:"2"`
	C struct {
		X bool     `thrift:"1"`
		Y [16]byte `thrift:"2"`
		Z [16]byte `thrift:"3"`
	} `thrift:"3"`
	D float64 `thrift:"4"`
}

func c13Spaces(th bool) []engine.Space {
	types := uni.Types(th)
	dev := 2
	if th {
		dev = 3
	}
	run := func(c *engine.Ctx, p ref.Proto, t reflect.Type, init reflect.Value, v ref.V, wv string) {
		dst := reflect.New(t)
		dst.Elem().Set(init)
		want := reflect.New(t)
		want.Elem().Set(uni.Clone(init))
		merr := uni.IntoGo(v, want.Elem())
		before := uni.Show(init)
		ids := identities(dst.Elem(), "v", map[string]uintptr{})
		c.Step()
		b := p.Enc(nil, v)
		err := thrift.Unmarshal(uni.Impl(p).NewReader(bytes.NewReader(b)), dst.Interface())
		if (err == nil) != (merr == nil) {
			c.Failf("%v: Unmarshal of %v into %v %s: %v, want %v", p, v, t, before, err, merr)
		}
		if err != nil {
			return
		}
		if !uni.Eq(dst.Elem(), want.Elem()) {
			c.Failf("%v: Unmarshal of %v into %v %s gives %s, want %s", p, v, t, before, uni.Show(dst.Elem()), uni.Show(want.Elem()))
		}
		now := identities(dst.Elem(), "v", map[string]uintptr{})
		for path, q := range ids {
			if now[path] != q {
				c.Failf("%v: Unmarshal of %v into %v %s replaces %s instead of following or adding to it", p, v, t, before, path)
			}
		}
		c.Logf("%v: %v into %v %s gives %s", p, v, t, before, uni.Show(dst.Elem()))
		c.StateOf(p, t, before, wv)
	}
	return []engine.Space{
		{Name: "pairs", Shards: 2 * len(types), Dev: dev, Bound: fmt.Sprintf("%d Go types x pairs of generated values, with up to %d struct fields set in both together, slices with and without spare capacity", len(types), dev),
			Run: func(c *engine.Ctx, sh int) {
				p, t := []ref.Proto{ref.BinStrict, ref.CompactP}[sh%2], types[sh/2]
				lvl := 2
				init := uni.Gen(c, t, lvl)
				if c.Choose(2) == 1 {
					init = uni.WithSpare(init, 2)
				}
				v := uni.FromGo(uni.Gen(c, t, lvl))
				run(c, p, t, init, v, v.String())
			}},
		{Name: "rich", Shards: 3 * len(types), Dev: 2, Bound: "every Go type: a value with everything set, with or without spare capacity, is decoded into with every generated value",
			Run: func(c *engine.Ctx, sh int) {
				p, t := uni.Protos[sh%3], types[sh/3]
				init := uni.NonZero(t)
				if c.Choose(2) == 1 {
					init = uni.WithSpare(init, 1+2*c.Choose(2))
				}
				v := uni.FromGo(uni.Gen(c, t, 1))
				run(c, p, t, init, v, v.String())
			}},
		{Name: "repeated fields and keys", Shards: 3 * 4, Bound: "inputs in which a field or a key occurs twice, into zero and non-zero values",
			Run: func(c *engine.Ctx, sh int) {
				p := uni.Protos[sh%3]
				a := engine.Pick(c, uni.DupSamples())
				b := engine.Pick(c, uni.DupSamples())
				k := uni.TypeOf[Known]()
				init := reflect.New(k).Elem()
				if c.Choose(2) == 1 {
					init = uni.NonZero(k)
				}
				switch sh / 3 {
				case 0:
					v := ref.StructV(a, b)
					run(c, p, k, init, v, v.String())
				case 1:
					v := ref.StructV(ref.F(21, ref.StructV(a)), ref.F(21, ref.StructV(b)))
					run(c, p, k, init, v, v.String())
				case 2:
					v := ref.StructV(ref.F(40, ref.MapV(ref.String, ref.Struct, ref.StrV("k"), ref.StructV(a), ref.StrV("k"), ref.StructV(b))))
					run(c, p, k, init, v, v.String())
				case 3:
					v := ref.MapV(ref.String, ref.Struct, ref.StrV("k"), ref.StructV(a), ref.StrV("k"), ref.StructV(b), ref.StrV("l"), ref.StructV(b))
					m := uni.TypeOf[map[string]Known]()
					iv := reflect.MakeMap(m)
					iv.SetMapIndex(reflect.ValueOf("k"), init)
					run(c, p, m, iv, v, v.String())
				}
			}},
		{Name: "parts of entries", Shards: 3 * 16, Bound: "maps with keys and values that are structs, sets and lists of such structs: three entries with any 8 of the subsets of the fields each, into nothing or a map with an entry",
			Run: func(c *engine.Ctx, sh int) {
				p, first := uni.Protos[sh%3], sh/3
				part := func(sub, i int) ref.V {
					v := ref.V{T: ref.Struct}
					for k, x := range []ref.V{ref.I16V(int16(7 + i)), ref.StrV(fmt.Sprint("s", i)), ref.StructV(ref.F(1, ref.BoolV(true)), ref.F(int16(2+i%2), ref.UUIDV(fmt.Sprint("uuid ", i)))), ref.DoubleV(float64(i) + 0.5)} {
						if sub>>k&1 == 1 {
							v.F = append(v.F, ref.F(int16(k+1), x))
						}
					}
					return v
				}
				subs := []int{first, c.Choose(8) * 2 % 15, c.Choose(8)}
				way := c.Choose(4)
				var l []ref.V
				for i, s := range subs {
					switch way {
					case 0:
						l = append(l, part(s, i), part(15-subs[2-i], i))
					case 1:
						l = append(l, ref.ByteV(byte(i%2)), part(s, i))
					default:
						l = append(l, part(s, i))
					}
				}
				var v ref.V
				var t reflect.Type
				switch way {
				case 0:
					v, t = ref.V{T: ref.Map, KT: ref.Struct, ET: ref.Struct, L: l}, uni.TypeOf[map[Part]Part]()
				case 1:
					v, t = ref.V{T: ref.Map, KT: ref.Byte, ET: ref.Struct, L: l}, uni.TypeOf[map[int8]*Part]()
				case 2:
					v, t = ref.V{T: ref.Set, ET: ref.Struct, L: l}, uni.TypeOf[thrift.Set[Part]]()
				case 3:
					v, t = ref.V{T: ref.List, ET: ref.Struct, L: l}, uni.TypeOf[[]*Part]()
				}
				init := reflect.New(t).Elem()
				switch c.Choose(3) {
				case 1:
					init = uni.NonZero(t)
				case 2:
					if t.Kind() == reflect.Map {
						init.Set(reflect.MakeMap(t))
					} else {
						init.Set(reflect.MakeSlice(t, 0, 3))
					}
				}
				run(c, p, t, init, v, v.String())
			}},
		{Name: "series", Shards: 3 * 6, Bound: "three lists, sets, strings or maps of any lengths 0 to 5 decoded one after another into the same variable",
			Run: func(c *engine.Ctx, sh int) {
				p := uni.Protos[sh%3]
				t := []reflect.Type{uni.TypeOf[[]uni.Key](), uni.TypeOf[thrift.Set[*uni.Key]](), uni.TypeOf[[]byte](), uni.TypeOf[[][]int32](), uni.TypeOf[[]map[string]int32](), uni.TypeOf[struct {
					A []Known `thrift:"1"`
					B *string `thrift:"2"`
				}]()}[sh/3]
				dst := reflect.New(t)
				want := reflect.New(t)
				for i := range 3 {
					n := c.Choose(6)
					v := seriesValue(t, n, i+c.Choose(2))
					c.Step()
					if err := thrift.Unmarshal(uni.Impl(p).NewReader(bytes.NewReader(p.Enc(nil, v))), dst.Interface()); err != nil {
						c.Failf("%v: %v into %v: %v", p, v, t, err)
					}
					if err := uni.IntoGo(v, want.Elem()); err != nil {
						panic("engine: " + err.Error())
					}
					if !uni.Eq(dst.Elem(), want.Elem()) {
						c.Failf("%v: step %d: %v into %v gives %s, want %s", p, i, v, t, uni.Show(dst.Elem()), uni.Show(want.Elem()))
					}
					c.StateOf(p, t, uni.Show(want.Elem()))
				}
			}},
	}
}

// seriesValue makes n elements; the contents depend on k, some fields are missing.
func seriesValue(t reflect.Type, n, k int) ref.V {
	key := func(i int) ref.V {
		if (i+k)%3 == 0 {
			return ref.StructV(ref.F(1, ref.I16V(int16(i+k+1))))
		}
		if (i+k)%3 == 1 {
			return ref.StructV(ref.F(2, ref.StrV(fmt.Sprint("s", i, k))))
		}
		return ref.StructV()
	}
	var l []ref.V
	switch {
	case t == uni.TypeOf[[]byte]():
		return ref.StrV(pattern(n + 16*k)[16*k:])
	case t.Kind() == reflect.Struct:
		for i := range n {
			if (i+k)%2 == 0 {
				l = append(l, ref.StructV(ref.F(5, ref.I32V(int32(i+1)))))
			} else {
				l = append(l, ref.StructV(ref.F(9, ref.StrV(fmt.Sprint(i))), ref.F(20, ref.ListV(ref.Bool, ref.BoolV(k%2 == 0)))))
			}
		}
		v := ref.StructV(ref.F(1, ref.V{T: ref.List, ET: ref.Struct, L: l}))
		if k%2 == 1 {
			v.F = append(v.F, ref.F(2, ref.StrV(fmt.Sprint("b", k))))
		}
		return v
	case t.Elem().Kind() == reflect.Slice:
		for i := range n {
			var m []ref.V
			for j := range (i + k) % 4 {
				m = append(m, ref.I32V(int32(10*i+j)))
			}
			l = append(l, ref.V{T: ref.List, ET: ref.I32, L: m})
		}
		return ref.V{T: ref.List, ET: ref.List, L: l}
	case t.Elem().Kind() == reflect.Map:
		for i := range n {
			l = append(l, ref.MapV(ref.String, ref.I32, ref.StrV(fmt.Sprint((i+k)%3)), ref.I32V(int32(k))))
		}
		return ref.V{T: ref.List, ET: ref.Map, L: l}
	}
	for i := range n {
		l = append(l, key(i))
	}
	return ref.V{T: uni.WT(t), ET: ref.Struct, L: l}
}

// identities lists the pointers and maps in v that Unmarshal follows or adds
// to, by their paths: all but those in the elements of slices, which are new.
func identities(v reflect.Value, path string, out map[string]uintptr) map[string]uintptr {
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() && v.Type().Elem().Size() > 0 && len(path) < 100 {
			out[path] = v.Pointer()
			identities(v.Elem(), "*"+path, out)
		}
	case reflect.Map:
		if !v.IsNil() && len(path) < 100 {
			out[path] = v.Pointer()
			for it := v.MapRange(); it.Next(); {
				identities(it.Value(), path+"["+uni.Show(it.Key())+"]", out)
			}
		}
	case reflect.Struct:
		for i := range v.NumField() {
			if v.Type().Field(i).IsExported() {
				identities(v.Field(i), path+"."+v.Type().Field(i).Name, out)
			}
		}
	}
	return out
}
