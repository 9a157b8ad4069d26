//go:build go1.23

package main

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"

	"github.com/itstarsun/go-thrift/internal/zzverif/ref"
	"github.com/itstarsun/go-thrift/internal/zzverif/uni"
	"github.com/itstarsun/go-thrift/thrift"
)

var unique int

// A family is a set of types no one has used before.
type family struct {
	tag   string
	tag2  string // of types from the supply
	types map[string]reflect.Type
	vals  map[string]reflect.Value // addressable; shared by all threads
}

// ZIn has an IsZero method and a field.
type ZIn struct {
	A int32 `thrift:"1"`
}

// IsZero tells whether A is 7.
func (z *ZIn) IsZero() bool { return z.A == 7 }

// newFamily returns fresh struct types and values of them, of those names.
func newFamily(names ...string) *family {
	unique++
	f := &family{tag: fmt.Sprintf("%08d", unique), types: map[string]reflect.Type{}, vals: map[string]reflect.Value{}}
	fld := func(name string, t reflect.Type, tag string) reflect.StructField {
		return reflect.StructField{Name: name, Type: t, Tag: reflect.StructTag(`thrift:"` + tag + `" u:"` + f.tag + `"`)}
	}
	str := func(fs ...reflect.StructField) reflect.Type { return reflect.StructOf(fs) }
	tInt, tStr := uni.TypeOf[int32](), uni.TypeOf[string]()
	in := str(fld("A", tInt, "1"), fld("B", tStr, "2,required"))
	for _, name := range names {
		var t reflect.Type
		switch name {
		case "in":
			t = in
		case "out", "wrap":
			t = str(
				fld("P", reflect.PointerTo(in), "2"),
				fld("L", reflect.SliceOf(in), "3"),
				fld("M", reflect.MapOf(in, in), "1"),
				fld("Z", uni.TypeOf[ZIn](), "4"),
			)
			if name == "wrap" {
				t = str(fld("O", t, "1"))
			}
		case "slice":
			t = reflect.SliceOf(in)
		case "arr":
			t = reflect.SliceOf(reflect.SliceOf(in))
		case "map":
			t = reflect.MapOf(tStr, reflect.PointerTo(in))
		case "bad", "badin":
			t = str(fld("A", tInt, "1"), fld("B", tStr, "1"))
			if name == "badin" {
				t = str(fld("A", tInt, "1"), fld("X", reflect.SliceOf(t), "2,required"))
			}
		case "uns":
			t = str(fld("A", tInt, "1"), fld("C", uni.TypeOf[chan int](), "2"))
		}
		f.types[name] = t
	}

	setIn := func(v reflect.Value, a int64, b string) {
		v.Field(0).SetInt(a)
		v.Field(1).SetString(b)
	}
	newIn := func(a int64, b string) reflect.Value {
		v := reflect.New(in).Elem()
		setIn(v, a, b)
		return v
	}
	for name, t := range f.types {
		v := reflect.New(t).Elem()
		switch name {
		case "in":
			setIn(v, 300, "b")
		case "out", "wrap":
			o := v
			if name == "wrap" {
				o = v.Field(0)
			}
			o.Field(0).Set(newIn(2, "p").Addr())
			o.Field(1).Set(reflect.Append(reflect.Zero(o.Field(1).Type()), newIn(3, "l"), newIn(0, "")))
			o.Field(2).Set(reflect.MakeMap(o.Field(2).Type()))
			o.Field(2).SetMapIndex(newIn(4, "k"), newIn(5, "v"))
			o.Field(3).Field(0).SetInt(9)
		case "slice":
			v.Set(reflect.Append(v, newIn(1, "x"), newIn(0, "y")))
		case "arr":
			v.Set(reflect.Append(v, reflect.Append(reflect.Zero(reflect.SliceOf(in)), newIn(6, "z"))))
		case "map":
			v.Set(reflect.MakeMap(t))
			v.SetMapIndex(reflect.ValueOf("key"), newIn(8, "w").Addr())
		case "badin":
			v.Field(1).Set(reflect.MakeSlice(v.Field(1).Type(), 1, 1))
		case "uns":
			v.Field(0).SetInt(1)
			v.Field(1).Set(reflect.MakeChan(v.Field(1).Type(), 0))
		}
		f.vals[name] = v
	}
	return f
}

// normal removes what differs between families.
func (f *family) normal(s string) string {
	s = strings.ReplaceAll(s, "unable to", "cannot") // one of them at random
	s = strings.ReplaceAll(s, " ", "")
	if f.tag == "" {
		return s
	}
	if f.tag2 != "" {
		s = strings.ReplaceAll(s, f.tag2, "#")
	}
	return strings.ReplaceAll(s, f.tag, "#")
}

// template is a family only the harness uses.
var template = newFamily(allTypes...)

var recTemplate = fillRec(&family{types: map[string]reflect.Type{}, vals: map[string]reflect.Value{}}, uni.TypeOf[R[int]](), uni.TypeOf[A[int]]())

var allTypes = []string{"in", "out", "wrap", "slice", "arr", "map", "bad", "badin", "uns"}

// wire is an input for the type of that name.
func wire(name string) ref.V {
	switch name {
	case "bad", "uns":
		return ref.StructV(ref.F(1, ref.I32V(1)), ref.F(2, ref.StrV("x")))
	case "badin":
		return ref.StructV(ref.F(1, ref.I32V(1)), ref.F(2, ref.ListV(ref.Struct, ref.StructV())))
	}
	if v, ok := recTemplate.vals[name]; ok {
		return uni.FromGo(v)
	}
	return uni.FromGo(template.vals[name])
}

// An op is something a thread does with a family. What a thread runs is exec
// alone: the harness itself must not order the threads, not even by the locks
// and pools of packages fmt and reflect. What exec saw is told by finish, when
// the threads have ended.
type op struct {
	name  string
	types []string
	prep  func(f *family) (exec func(), finish func() string)
	model string // what the result must be ("": left to sequential use)
}

func (o op) run(f *family) string {
	exec, finish := o.prep(f)
	exec()
	return finish()
}

func (o op) String() string { return o.name }

func good(name string) bool { return name != "bad" && name != "badin" && name != "uns" }

func marshalOp(p ref.Proto, name string, ptr bool) op {
	o := op{name: fmt.Sprintf("%v.Marshal(%s)", p, name), types: []string{name}}
	if !ptr {
		o.name = fmt.Sprintf("%v.Marshal(%s by value)", p, name)
	}
	if good(name) {
		o.model = fmt.Sprintf("%x", p.Enc(nil, wire(name)))
	}
	o.prep = func(f *family) (func(), func() string) {
		var buf bytes.Buffer
		v := f.vals[name]
		var in any
		if ptr {
			in = v.Addr().Interface()
		} else {
			in = v.Interface()
		}
		var msg, fmsg string
		return func() {
				w := uni.Impl(p).NewWriter(&buf)
				if err := thrift.Marshal(w, in); err != nil {
					msg = "error: " + err.Error()
				} else if err := w.Flush(); err != nil {
					fmsg = "Flush: " + err.Error()
				}
			}, func() string {
				if msg+fmsg != "" {
					return f.normal(msg) + fmsg
				}
				return fmt.Sprintf("%x", buf.Bytes())
			}
	}
	return o
}

func unmarshalOp(p ref.Proto, name, from string) op {
	o := op{name: fmt.Sprintf("%v.Unmarshal(%s from %s)", p, name, from), types: []string{name}}
	if good(name) && name == from {
		o.model = "the value"
	}
	in := p.Enc(nil, wire(from))
	o.prep = func(f *family) (func(), func() string) {
		out := reflect.New(f.types[name])
		ptr := out.Interface()
		var msg string
		return func() {
				r := uni.Impl(p).NewReader(bytes.NewReader(in))
				if err := thrift.Unmarshal(r, ptr); err != nil {
					msg = "error: " + err.Error()
				}
			}, func() string {
				if msg != "" {
					return f.normal(msg)
				}
				if uni.Eq(out.Elem(), f.vals[name]) {
					return "the value"
				}
				return "another value: " + f.normal(uni.Show(out.Elem()))
			}
	}
	return o
}

var sequential = map[string]string{}

// expected is the result of o when it is alone, with a family of its own.
func expected(o op, fresh func(types ...string) *family) string {
	if o.model != "" {
		return o.model
	}
	s, ok := sequential[o.name]
	if !ok {
		f := fresh(o.types...)
		if f == nil {
			return ""
		}
		s = o.run(f)
		sequential[o.name] = s
	}
	return s
}

// Recursive types cannot be made by reflection; there is a supply of them.
type (
	// R refers to itself.
	R[T any] struct {
		N    int32           `thrift:"1"`
		Next *R[T]           `thrift:"2"`
		Kids []R[T]          `thrift:"3"`
		M    map[string]R[T] `thrift:"4"`
	}
	// A and B refer to each other.
	A[T any] struct {
		N int32  `thrift:"1"`
		B *B[T]  `thrift:"2"`
		L []B[T] `thrift:"3"`
	}
	// B and A refer to each other.
	B[T any] struct {
		N int32         `thrift:"1"`
		A *A[T]         `thrift:"2"`
		M map[int8]A[T] `thrift:"3"`
	}
)

type instance struct{ r, a any }

var (
	pool     []instance
	poolNext int
)

// recFamily returns fresh recursive types, nil if there are none left.
func recFamily(names ...string) *family {
	if poolNext >= len(pool) {
		return nil
	}
	inst := pool[poolNext]
	poolNext++
	return recAt(inst, poolNext-1)
}

func recAt(inst instance, n int) *family {
	f := family{tag: fmt.Sprintf("[%d]struct{}", n), types: map[string]reflect.Type{}, vals: map[string]reflect.Value{}}
	return fillRec(&f, reflect.TypeOf(inst.r).Elem(), reflect.TypeOf(inst.a).Elem())
}

func fillRec(f *family, r, a reflect.Type) *family {
	f.types["r"], f.types["a"] = r, a
	b := a.Field(1).Type.Elem()
	f.types["b"] = b
	newN := func(t reflect.Type, n int) reflect.Value {
		v := reflect.New(t).Elem()
		v.Field(0).SetInt(int64(n))
		return v
	}
	v := newN(r, 1)
	v.Field(1).Set(newN(r, 2).Addr())
	v.Field(2).Set(reflect.Append(v.Field(2), newN(r, 3)))
	v.Field(3).Set(reflect.MakeMap(v.Field(3).Type()))
	v.Field(3).SetMapIndex(reflect.ValueOf("k"), newN(r, 4))
	f.vals["r"] = v

	vb := newN(b, 1)
	vb.Field(2).Set(reflect.MakeMap(vb.Field(2).Type()))
	vb.Field(2).SetMapIndex(reflect.ValueOf(int8(5)), newN(a, 6))
	vb.Field(1).Set(newN(a, 7).Addr())
	f.vals["b"] = vb

	va := newN(a, 1)
	va.Field(1).Set(newN(b, 2).Addr())
	va.Field(1).Elem().Field(1).Set(newN(a, 3).Addr())
	va.Field(2).Set(reflect.Append(va.Field(2), newN(b, 4)))
	f.vals["a"] = va
	return f
}
