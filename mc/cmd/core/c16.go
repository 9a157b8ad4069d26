//go:build go1.23

package main

import (
	"bytes"
	"errors"
	"fmt"
	"reflect"
	"slices"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/itstarsun/go-thrift/internal/zzverif/engine"
	"github.com/itstarsun/go-thrift/internal/zzverif/ref"
	"github.com/itstarsun/go-thrift/internal/zzverif/uni"
	"github.com/itstarsun/go-thrift/thrift"
)

func init() {
	register(&engine.Prop{ID: "C16", Level: level,
		Rule:        "an execution builds one struct type and marshals and unmarshals one value of it",
		Assumptions: []string{"unknown options are ignored"},
		Spaces:      c16Spaces})
}

type tagPlan struct {
	id       int16
	required bool
	ignored  bool
	bad      string
}

// refTag is the reference tag parser: ID ("," identifier)*.
func refTag(tag string, has, exported bool) (p tagPlan) {
	if tag == "-" {
		return tagPlan{ignored: true}
	}
	if !exported {
		if has {
			return tagPlan{bad: "tag on an unexported field"}
		}
		return tagPlan{ignored: true}
	}
	parts := strings.Split(tag, ",")
	digits := strings.TrimPrefix(parts[0], "-")
	if digits == parts[0] {
		digits = strings.TrimPrefix(digits, "+")
	}
	if digits == "" || strings.Trim(digits, "0123456789") != "" {
		return tagPlan{bad: "no decimal ID"}
	}
	n, err := strconv.Atoi(digits)
	if strings.HasPrefix(parts[0], "-") {
		n = -n
	}
	if err != nil || n > 32767 || n < -32768 {
		return tagPlan{bad: "ID out of range"}
	}
	p.id = int16(n)
	seen := map[string]bool{}
	for _, o := range parts[1:] {
		for i, r := range o {
			letter := r == '_' || unicode.IsLetter(r)
			if !letter && (i == 0 || !unicode.IsNumber(r)) {
				return tagPlan{bad: "malformed option"}
			}
		}
		if o == "" || !utf8.ValidString(o) {
			return tagPlan{bad: "malformed option"}
		}
		if seen[o] {
			return tagPlan{bad: "duplicate option"}
		}
		seen[o] = true
		if o == "required" {
			p.required = true
		} else if strings.ReplaceAll(strings.ToLower(o), "_", "") == "required" {
			return tagPlan{bad: "misspelt required"}
		}
	}
	return p
}

// refPlan is the reference field plan of a struct type; bad tells why there is none.
func refPlan(t reflect.Type) (plan map[int16]tagPlan, index map[int16]int, bad string) {
	plan, index = map[int16]tagPlan{}, map[int16]int{}
	tagged, fields := false, 0
	for i := range t.NumField() {
		sf := t.Field(i)
		tag, has := sf.Tag.Lookup("thrift")
		tagged = tagged || has
		p := refTag(tag, has, sf.PkgPath == "")
		if p.bad != "" {
			return nil, nil, fmt.Sprintf("field %s: %s", sf.Name, p.bad)
		}
		if p.ignored {
			continue
		}
		fields++
		if _, ok := plan[p.id]; ok {
			return nil, nil, fmt.Sprintf("field %s: duplicate ID", sf.Name)
		}
		plan[p.id], index[p.id] = p, i
	}
	if t.NumField() > 0 && !tagged && fields == 0 {
		return nil, nil, "no exported fields"
	}
	return plan, index, ""
}

// namesFault reports whether the cause of an error about a bad struct type
// names a field with a malformed tag, or both of two fields with the same ID.
func namesFault(t reflect.Type, se *thrift.SemanticError) bool {
	if se.Err == nil || se.GoType != t {
		return false
	}
	words := strings.FieldsFunc(se.Err.Error(), func(r rune) bool { return r != '_' && !unicode.IsLetter(r) && !unicode.IsDigit(r) })
	named := func(i int) bool { return slices.Contains(words, t.Field(i).Name) }
	ids, any := map[int16]int{}, false
	for i := range t.NumField() {
		sf := t.Field(i)
		tag, has := sf.Tag.Lookup("thrift")
		p := refTag(tag, has, sf.PkgPath == "")
		if p.bad != "" {
			if any = true; named(i) {
				return true
			}
			continue
		}
		if p.ignored {
			continue
		}
		if j, ok := ids[p.id]; ok {
			if any = true; named(i) && named(j) {
				return true
			}
		} else {
			ids[p.id] = i
		}
	}
	return !any
}

// checkStruct marshals v, a struct, and unmarshals the result and an input
// that has every field of the plan, and compares both with the plan.
func checkStruct(c *engine.Ctx, p ref.Proto, v reflect.Value, zero func(i int) bool) {
	t := v.Type()
	plan, index, bad := refPlan(t)
	pv := reflect.New(t)
	pv.Elem().Set(v)
	var buf bytes.Buffer
	w := uni.Impl(p).NewWriter(&buf)
	c.Step()
	err := thrift.Marshal(w, pv.Interface())
	_ = w.Flush()
	in := p.Enc(nil, ref.StructV())
	if bad != "" {
		if !isSemantic(err) || buf.Len() > 0 {
			c.Failf("%v: %v (%s): Marshal gives %v and writes %s", p, t, bad, err, uni.Hex(buf.Bytes()))
		}
		err2 := thrift.Unmarshal(uni.Impl(p).NewReader(bytes.NewReader(in)), reflect.New(t).Interface())
		if !isSemantic(err2) {
			c.Failf("%v: %v (%s): Unmarshal gives %v", p, t, bad, err2)
		}
		for _, err := range []error{err, err2} {
			var se *thrift.SemanticError
			if errors.As(err, &se) && !namesFault(t, se) {
				c.Failf("%v: %v (%s): the error does not name the field: %v", p, t, bad, se.Err)
			}
		}
		return
	}
	if err != nil {
		c.Failf("%v: Marshal(%v): %v", p, t, err)
	}
	got := canonDecode(c, p, ref.Struct, buf.Bytes())
	// The expected fields by ascending ID.
	want := ref.V{T: ref.Struct}
	for id := -32768; id <= 32767; id++ {
		tp, ok := plan[int16(id)]
		if !ok {
			continue
		}
		i := index[int16(id)]
		if tp.required || !zero(i) {
			want.F = append(want.F, ref.F(int16(id), uni.FromGo(v.Field(i))))
		}
		if len(want.F) > len(plan) {
			break
		}
	}
	if !bytes.Equal(buf.Bytes(), p.Enc(nil, want)) {
		c.Failf("%v: %v %s is marshaled as %v, want %v", p, t, uni.Show(v), got, want)
	}
	// Unmarshal what was written.
	out := reflect.New(t)
	c.Step()
	if err := thrift.Unmarshal(uni.Impl(p).NewReader(bytes.NewReader(buf.Bytes())), out.Interface()); err != nil {
		c.Failf("%v: Unmarshal(%v) of %v: %v", p, t, got, err)
	}
	for _, f := range want.F {
		i := index[f.ID]
		if !ref.Equal(uni.FromGo(out.Elem().Field(i)), f.V, false) {
			c.Failf("%v: %v: field %s comes back as %s, was %s", p, t, t.Field(i).Name, uni.Show(out.Elem().Field(i)), uni.Show(v.Field(i)))
		}
	}
	for i := range t.NumField() {
		id, in := int16(0), false
		for k, j := range index {
			if j == i {
				id, in = k, true
			}
		}
		present := false
		for _, f := range want.F {
			present = present || in && f.ID == id
		}
		if !present && !out.Elem().Field(i).IsZero() {
			c.Failf("%v: %v: field %s was not written, but comes back as %s", p, t, t.Field(i).Name, uni.Show(out.Elem().Field(i)))
		}
	}
	if len(plan) == 0 {
		// IDs of fields that are left out are unknown IDs.
		in := p.Enc(nil, ref.StructV(ref.F(0, ref.StrV("x")), ref.F(1, ref.I32V(3))))
		out := reflect.New(t)
		if err := thrift.Unmarshal(uni.Impl(p).NewReader(bytes.NewReader(in)), out.Interface()); err != nil || !out.Elem().IsZero() {
			c.Failf("%v: %v, which has no fields: unmarshal of unknown ones: %v, %s", p, t, err, uni.Show(out.Elem()))
		}
	}
}

type comboField struct {
	name string
	typ  reflect.Type
	tag  string
	zero func(v int) any // values: 0 zero, 1 and 2 others
	is   [3]bool         // whether value counts as zero
}

func same(xs ...any) func(int) any { return func(i int) any { return xs[i] } }

func ptr[T any](x T) *T { return &x }

// Types with embedded fields and tags around other tags, as reflect cannot build them all.
type (
	embKey struct {
		A int32 `thrift:"1"`
	}
	EmbTagged struct {
		embKey `thrift:"1"`
		B      int32 `thrift:"2"`
	}
	EmbUntagged struct {
		embKey
		B int32 `thrift:"2"`
	}
	EmbOnly struct{ embKey }
	EmbExp  struct {
		uni.Key
		B int32 `thrift:"2"`
	}
	EmbExpTagged struct {
		uni.Key `thrift:"5"`
		B       int32 `thrift:"2"`
	}
	EmbPtrTagged struct {
		*uni.Key `thrift:"5"`
		B        int32 `thrift:"2"`
	}
	EmbDash struct {
		uni.Key `thrift:"-"`
		embKey  `thrift:"-"`
		B       int32 `thrift:"2"`
	}
)

func c16Spaces(th bool) []engine.Space {
	ids := []string{"1", "0", "-1", "+1", "01", "32767", "32768", "-32768", "-32769", "", "x", "1_0", "0x1", " 1", "１", "-", "+", "--1", "1e1", "4294967297", "65537", "18446744073709551617", "'1'"}
	toks := []string{",", "required", "Required", "re_quired", "req", "foo", "_", "é", "1", "'", "-", " "}
	if th {
		toks = append(toks, "REQUIRED", "\xff", "Ⅷ", "foo_1")
	}
	i32 := uni.TypeOf[int32]()
	combos := []comboField{
		{"A", i32, `thrift:"1"`, same(int32(0), int32(5), int32(-1)), [3]bool{true}},
		{"A", i32, `thrift:"2,required"`, same(int32(0), int32(5), int32(-1)), [3]bool{true}},
		{"A", i32, `json:"a" thrift:"-7" xml:"b"`, same(int32(0), int32(5), int32(-1)), [3]bool{true}},
		{"A", i32, `thrift:"-"`, same(int32(0), int32(5), int32(-1)), [3]bool{true}},
		{"A", i32, ``, same(int32(0), int32(5), int32(-1)), [3]bool{true}},
		{"a", i32, ``, same(int32(0), int32(0), int32(0)), [3]bool{true, true, true}},
		{"a", i32, `thrift:"-"`, same(int32(0), int32(0), int32(0)), [3]bool{true, true, true}},
		{"a", i32, `thrift:"6"`, same(int32(0), int32(0), int32(0)), [3]bool{true, true, true}},
		{"A", uni.TypeOf[bool](), `thrift:"3"`, same(false, true, true), [3]bool{true}},
		{"A", uni.TypeOf[*string](), `thrift:"4,required"`, same((*string)(nil), ptr(""), ptr("x")), [3]bool{true}},
		{"A", uni.TypeOf[*bool](), `thrift:"300"`, same((*bool)(nil), ptr(false), ptr(true)), [3]bool{true}},
		{"A", uni.TypeOf[uni.ZVal](), `thrift:"5"`, same(uni.ZVal(0), uni.ZVal(7), uni.ZVal(1)), [3]bool{false, true, false}},
		{"A", uni.TypeOf[uni.ZPtr](), `thrift:"8"`, same(uni.ZPtr(0), uni.ZPtr(7), uni.ZPtr(1)), [3]bool{false, true, false}},
		{"A", uni.TypeOf[uni.ZStruct](), `thrift:"9"`, same(uni.ZStruct{}, uni.ZStruct{A: 7, B: 1}, uni.ZStruct{A: 1}), [3]bool{false, true, false}},
		{"A", uni.TypeOf[uni.ZSlice](), `thrift:"10,required"`, same(uni.ZSlice(nil), uni.ZSlice{1}, uni.ZSlice{1, 2}), [3]bool{false, true, false}},
		{"A", uni.TypeOf[*uni.ZVal](), `thrift:"11"`, same((*uni.ZVal)(nil), ptr(uni.ZVal(7)), ptr(uni.ZVal(0))), [3]bool{true, true, false}},
		{"A", uni.TypeOf[*uni.ZPtr](), `thrift:"12"`, same((*uni.ZPtr)(nil), ptr(uni.ZPtr(7)), ptr(uni.ZPtr(0))), [3]bool{true, true, false}},
		{"A", uni.TypeOf[uni.Key](), `thrift:"13"`, same(uni.Key{}, uni.Key{A: 1}, uni.Key{B: "x"}), [3]bool{true}},
		{"A", uni.TypeOf[uni.Key](), `thrift:"14,required"`, same(uni.Key{}, uni.Key{A: 1}, uni.Key{B: "x"}), [3]bool{true}},
		{"A", uni.TypeOf[[]bool](), `thrift:"15"`, same([]bool(nil), []bool{}, []bool{false}), [3]bool{true}},
		{"A", uni.TypeOf[map[string]int32](), `thrift:"16"`, same(map[string]int32(nil), map[string]int32{}, map[string]int32{"": 0}), [3]bool{true}},
		{"A", uni.TypeOf[[16]byte](), `thrift:"17"`, same([16]byte{}, [16]byte{15: 1}, [16]byte{1}), [3]bool{true}},
		{"A", uni.TypeOf[float64](), `thrift:"18,req"`, same(0.0, -1.5, 2.5), [3]bool{true}},
		{"A", i32, `thrift:"1,required,required"`, same(int32(0), int32(5), int32(-1)), [3]bool{true}},
	}
	maxTail := 3
	if th {
		maxTail = 4
	}
	static := []struct {
		v    any
		zero [3]bool
	}{
		{EmbTagged{B: 1}, [3]bool{false, false}}, {EmbUntagged{B: 1}, [3]bool{true, false}}, {EmbOnly{}, [3]bool{true}},
		{EmbExp{B: 1}, [3]bool{true, false}}, {EmbExpTagged{Key: uni.Key{A: 2}, B: 1}, [3]bool{}}, {EmbExpTagged{B: 1}, [3]bool{true}},
		{EmbPtrTagged{Key: &uni.Key{}, B: 1}, [3]bool{}}, {EmbPtrTagged{B: 1}, [3]bool{true}}, {EmbDash{B: 1}, [3]bool{true, true, false}},
		{struct{}{}, [3]bool{}},
	}
	rawTags := []string{
		`thrift:"1"`, `json:"x" thrift:"1"`, `thrift:"1" json:"x"`, `thrift:1`, `thrift:""`, `thrift: "1"`, `Thrift:"1"`, `thrift:"1`, `x`,
		`json:"thrift:\"1\""`, `thrift:"1" thrift:"2"`, ` thrift:"1"`, `thrift:"\x31"`, `thrift:"1\n"`, `thrift:"2,required"json:"x"`,
	}
	return []engine.Space{
		{Name: "tags", Shards: len(ids) * 2, Bound: fmt.Sprintf("every tag of one of %d IDs followed by up to %d tokens of %d (%d more after a good ID), exported and not", len(ids), maxTail, len(toks), 1),
			Run: func(c *engine.Ctx, sh int) {
				id, exported := ids[sh%len(ids)], sh < len(ids)
				tag := id
				n := maxTail
				if id == "1" && exported {
					n++
				}
				if !exported || id != "1" && id != "-" && id != "" && !th {
					n = 2
				}
				for range n {
					k := c.Choose(len(toks) + 1)
					if k == 0 {
						break
					}
					tag += toks[k-1]
				}
				sf := reflect.StructField{Name: "A", Type: i32, Tag: reflect.StructTag("thrift:" + strconv.Quote(tag))}
				if !exported {
					sf.Name, sf.PkgPath = "a", "x/y"
				}
				t := reflect.StructOf([]reflect.StructField{sf})
				v := reflect.New(t).Elem()
				nz := exported && c.Choose(2) == 1
				if nz {
					v.Field(0).SetInt(-77)
				}
				checkStruct(c, ref.CompactP, v, func(int) bool { return !nz })
				c.StateOf(tag, exported, nz)
			}},
		{Name: "raw tags", Shards: len(rawTags), Bound: fmt.Sprintf("%d tags by the conventions of package reflect", len(rawTags)),
			Run: func(c *engine.Ctx, sh int) {
				t := reflect.StructOf([]reflect.StructField{{Name: "A", Type: i32, Tag: reflect.StructTag(rawTags[sh])}})
				v := reflect.New(t).Elem()
				nz := c.Choose(2) == 1
				if nz {
					v.Field(0).SetInt(99)
				}
				checkStruct(c, engine.Pick(c, uni.Protos), v, func(int) bool { return !nz })
				c.StateOf(sh, nz)
			}},
		{Name: "all IDs", Shards: 1024, Bound: "all 65536 field IDs, 64 per struct, 4 orders of declaration, zero or not",
			Run: func(c *engine.Ctx, sh int) {
				order := c.Choose(4)
				var fs []reflect.StructField
				perm := make([]int, 64)
				for i := range 64 {
					j := [4]int{i, 63 - i, i * 37 % 64, i ^ 1}[order]
					perm[i] = j
					// strided, so that IDs of one struct are far apart, or adjacent
					id := sh*64 + j
					if order == 2 {
						id = sh + j*1024
					}
					fs = append(fs, reflect.StructField{Name: "F" + strconv.Itoa(i), Type: i32, Tag: reflect.StructTag(fmt.Sprintf(`thrift:"%d"`, int16(id)))})
				}
				v := reflect.New(reflect.StructOf(fs)).Elem()
				mask := [3]int{1, 2, 3}[c.Choose(3)]
				for i := range 64 {
					if i%mask == 0 {
						v.Field(i).SetInt(int64(i) + 1)
					}
				}
				checkStruct(c, engine.Pick(c, []ref.Proto{ref.BinStrict, ref.CompactP}), v, func(i int) bool { return i%mask != 0 })
				c.StateOf(sh, order, mask)
			}},
		{Name: "combinations", Shards: len(combos), Bound: fmt.Sprintf("all structs of up to 3 (thorough: 4) of %d kinds of fields, with 3 values each", len(combos)),
			Run: func(c *engine.Ctx, sh int) {
				n := 1 + c.Choose(3)
				if th {
					n = 1 + c.Choose(4)
				}
				var fs []reflect.StructField
				var ks []int
				for i := range n {
					k := sh
					if i > 0 {
						m := len(combos)
						if i == 3 {
							m = 12
						}
						k = c.Choose(m)
					}
					cf := combos[k]
					sf := reflect.StructField{Name: cf.name + strconv.Itoa(i), Type: cf.typ, Tag: reflect.StructTag(cf.tag)}
					if cf.name == "a" {
						sf.PkgPath = "x/y"
					}
					fs = append(fs, sf)
					ks = append(ks, k)
				}
				v := reflect.New(reflect.StructOf(fs)).Elem()
				val := c.Choose(3)
				which := val
				vals := make([]int, n)
				for i, k := range ks {
					if i > 0 && n <= 2 {
						which = c.Choose(3)
					} else if i > 0 {
						which = (val + i) % 3
					}
					vals[i] = which
					if combos[k].name == "A" {
						v.Field(i).Set(reflect.ValueOf(combos[k].zero(which)))
					}
				}
				p := ref.CompactP
				if n < 3 {
					p = engine.Pick(c, uni.Protos)
				}
				checkStruct(c, p, v, func(i int) bool { return combos[ks[i]].is[vals[i]] })
				c.StateOf(fmt.Sprint(ks, vals))
			}},
		{Name: "embedded", Shards: len(static), Bound: fmt.Sprintf("%d structs with embedded fields", len(static)),
			Run: func(c *engine.Ctx, sh int) {
				v := reflect.ValueOf(static[sh].v)
				// EmbTagged's embedded field is not exported, all the others are settable.
				checkStruct(c, engine.Pick(c, uni.Protos), v, func(i int) bool { return static[sh].zero[i] })
				c.StateOf(sh)
			}},
		{Name: "nested", Shards: 6, Bound: "a struct with a malformed tag inside a field, pointer, list, map key, map value or set",
			Run: func(c *engine.Ctx, sh int) {
				bad := []reflect.Type{uni.TypeOf[struct {
					A int32 `thrift:"1,"`
				}](), uni.TypeOf[struct{ A int32 }](), uni.TypeOf[struct{ a int32 }]()}[c.Choose(3)]
				p := engine.Pick(c, uni.Protos)
				t := []reflect.Type{bad, reflect.PointerTo(bad), reflect.SliceOf(bad), reflect.MapOf(bad, i32), reflect.MapOf(i32, bad), reflect.SliceOf(reflect.PointerTo(bad))}[sh]
				if c.Choose(2) == 1 {
					t = uni.StructOf(uni.Field{T: t, ID: 1, Opts: ",required"})
				}
				v := reflect.New(t)
				e := v.Elem()
				if e.Kind() == reflect.Struct && t != bad {
					e = e.Field(0)
				}
				switch e.Kind() {
				case reflect.Slice:
					e.Set(reflect.MakeSlice(e.Type(), 1, 1))
				case reflect.Map:
					e.Set(reflect.MakeMap(e.Type()))
					e.SetMapIndex(reflect.Zero(e.Type().Key()), reflect.Zero(e.Type().Elem()))
				}
				var buf bytes.Buffer
				c.Step()
				if err := thrift.Marshal(uni.Impl(p).NewWriter(&buf), v.Interface()); !isSemantic(err) {
					c.Failf("%v: Marshal(%v): %v", p, t, err)
				}
				wv := uni.WT(t)
				var in ref.V
				bv := ref.StructV()
				switch e.Kind() {
				case reflect.Slice:
					bv = ref.ListV(ref.Struct, ref.StructV())
				case reflect.Map:
					bv = ref.MapV(uni.WT(e.Type().Key()), uni.WT(e.Type().Elem()), small(uni.WT(e.Type().Key())), small(uni.WT(e.Type().Elem())))
				}
				in = bv
				if wv == ref.Struct && t != bad && t.Kind() == reflect.Struct {
					in = ref.StructV(ref.F(1, bv))
				}
				b := p.Enc(nil, in)
				c.Step()
				if err := thrift.Unmarshal(uni.Impl(p).NewReader(bytes.NewReader(b)), reflect.New(t).Interface()); !isSemantic(err) {
					c.Failf("%v: Unmarshal of %v into %v: %v", p, in, t, err)
				}
				c.StateOf(sh, t.String())
			}},
	}
}

func small(t byte) ref.V {
	if t == ref.Struct {
		return ref.StructV()
	}
	return ref.I32V(1)
}
