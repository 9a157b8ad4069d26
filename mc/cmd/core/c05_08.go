//go:build go1.23

package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"reflect"
	"slices"
	"strings"

	"github.com/itstarsun/go-thrift/encoding/thriftcompact"
	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/internal/zzverif/engine"
	"github.com/itstarsun/go-thrift/internal/zzverif/ref"
	"github.com/itstarsun/go-thrift/internal/zzverif/uni"
	"github.com/itstarsun/go-thrift/thrift"
)

func init() {
	register(&engine.Prop{ID: "C05", Level: level,
		Rule:        "an execution skips one value, or decodes a struct in which unknown fields are interleaved",
		Assumptions: []string{"the reference encoder renders the specification"},
		Spaces:      c05Spaces})
	register(&engine.Prop{ID: "C06", Level: level,
		Rule:        "an execution decodes one input delivered in one way",
		Assumptions: []string{"io.Reader implementations follow the io.Reader contract"},
		Spaces:      c06Spaces})
	register(&engine.Prop{ID: "C07", Level: level,
		Rule:        "an execution decodes one input that ends or fails at one offset",
		Assumptions: []string{"io.Reader implementations follow the io.Reader contract"},
		Spaces:      c07Spaces})
	register(&engine.Prop{ID: "C08", Level: level,
		Rule:        "an execution writes a history of values to sinks that fail at one offset or not at all",
		Assumptions: []string{"io.Writer implementations follow the io.Writer contract, except for short writes without an error, which are enumerated"},
		Spaces:      c08Spaces})
	register(&engine.Prop{ID: "C15", Level: level,
		Rule:        "an execution decodes one value or message whose last byte is the last one available and watches for reads after it",
		Assumptions: []string{"a read after the last byte would block"},
		Spaces:      c15Spaces})
}

// Known is the destination that unknown fields are added to.
type Known struct {
	A bool              `thrift:"2"`
	B int32             `thrift:"5"`
	C string            `thrift:"9"`
	D []bool            `thrift:"20"`
	E *Known            `thrift:"21"`
	F map[string]*Known `thrift:"40"`
	G [16]byte          `thrift:"-7"`
}

var knownV = ref.StructV(
	ref.F(-7, ref.UUIDV("0123456789abcdef")),
	ref.F(2, ref.BoolV(true)), ref.F(5, ref.I32V(-5)), ref.F(9, ref.StrV("nine")),
	ref.F(20, ref.ListV(ref.Bool, ref.BoolV(true), ref.BoolV(false))),
	ref.F(21, ref.StructV(ref.F(2, ref.BoolV(true)), ref.F(9, ref.StrV("inner")))),
	ref.F(40, ref.MapV(ref.String, ref.Struct, ref.StrV("k"), ref.StructV(ref.F(5, ref.I32V(1)), ref.F(21, ref.StructV())))),
)

// insertUnknown inserts f into the struct reached by path at position pos.
func insertUnknown(v ref.V, where, pos int, f ref.Fld) ref.V {
	cp := func(v ref.V) ref.V {
		v.F = append([]ref.Fld(nil), v.F...)
		v.L = append([]ref.V(nil), v.L...)
		return v
	}
	ins := func(v ref.V) ref.V {
		v = cp(v)
		p := pos % (len(v.F) + 1)
		v.F = append(v.F[:p:p], append([]ref.Fld{f}, v.F[p:]...)...)
		return v
	}
	at := func(id int16) int {
		return slices.IndexFunc(v.F, func(f ref.Fld) bool { return f.ID == id })
	}
	switch where {
	case 0:
		return ins(v)
	case 1:
		v = cp(v)
		i := at(21)
		v.F[i].V = ins(v.F[i].V)
		return v
	default:
		v = cp(v)
		i := at(40)
		m := cp(v.F[i].V)
		m.L[1] = ins(m.L[1])
		v.F[i].V = m
		return v
	}
}

func c05Spaces(th bool) []engine.Space {
	samples := uni.Samples(th)
	unknownIDs := []int16{1, 3, 6, 19, 22, 100, 32767, -32768, -1, 0}
	return []engine.Space{
		{Name: "skip", Shards: 3 * 12 * 12, Bound: "every value of the wire generator is skipped, whole and byte by byte",
			Run: func(c *engine.Ctx, sh int) {
				p := uni.Protos[sh%3]
				t, et := ref.All[sh/3%12], ref.All[sh/36]
				var v ref.V
				switch t {
				case ref.Struct, ref.List, ref.Set, ref.Map:
					v = genSmall(c, t, et)
				default:
					if et != ref.Bool {
						return
					}
					v = uni.GenV(c, t, 0)
				}
				b := p.Enc(nil, v)
				in := p.Enc(append([]byte(nil), b...), ref.I32V(sentinel))
				for k := range 2 {
					f := &uni.Feed{B: in, Chunk: k}
					r := uni.Impl(p).NewReader(f)
					c.Step()
					if err := thriftwire.Skip(r, thriftwire.Type(t)); err != nil {
						c.Failf("%v: Skip of %v (%s): %v", p, v, uni.Hex(b), err)
					}
					expectSentinel(c, p, r, b)
				}
				c.Logf("%v: skip %v", p, v)
				c.StateOf(protoSum(p, b))
			}},
		{Name: "skip sizes", Shards: 3 * 12, Bound: "strings and containers of every element type with every boundary size, behind 0 to 5 bytes of padding",
			Run: func(c *engine.Ctx, sh int) {
				p, et := uni.Protos[sh%3], ref.All[sh/3]
				n := engine.Pick(c, sizes)
				pad := engine.Pick(c, []int{0, 1, 5, 4090})
				l := make([]ref.V, n)
				for i := range l {
					l[i] = smallest(et)
				}
				vs := []ref.V{{T: ref.List, ET: et, L: l}, {T: ref.Set, ET: et, L: l}, {T: ref.Map, KT: et, ET: et, L: l[:n&^1]}}
				if et == ref.String {
					vs = append(vs, ref.StrV(pattern(n)), ref.StrV(pattern(5*n)))
				}
				for _, v := range vs {
					b := p.Enc(p.Enc(nil, ref.StrV(pattern(pad))), v)
					r := uni.Impl(p).NewReader(bytes.NewReader(p.Enc(b, ref.I32V(sentinel))))
					c.Steps(2)
					must(c, r.SkipString(), "SkipString")
					must(c, thriftwire.Skip(r, thriftwire.Type(v.T)), "%v: Skip of %v", p, v)
					expectSentinel(c, p, r, b)
				}
				c.StateOf(sh, n, pad)
			}},
		{Name: "unknown fields", Shards: 3 * len(samples), Bound: "a struct with nested structs; one unknown field of every sample value (two in the thorough tier) with 10 IDs inserted at every position of three nested structs",
			Run: func(c *engine.Ctx, sh int) {
				p, u := uni.Protos[sh%3], samples[sh/3]
				v := knownV
				n := 1
				if th {
					n = 1 + c.Choose(2)
				}
				for i := range n {
					ids := unknownIDs
					if i > 0 {
						ids = unknownIDs[3:6]
					}
					v = insertUnknown(v, c.Choose(3), c.Choose(8), ref.Fld{ID: engine.Pick(c, ids), V: u})
				}
				b := p.Enc(nil, v)
				got := unmarshal(c, p, uni.TypeOf[Known](), b)
				want := reflect.New(uni.TypeOf[Known]()).Elem()
				if err := uni.IntoGo(knownV, want); err != nil {
					panic("engine: " + err.Error())
				}
				if !uni.Eq(got, want) {
					c.Failf("%v: with an unknown field, %v is decoded as %s, without it as %s", p, v, uni.Show(got), uni.Show(want))
				}
				c.Logf("%v: %v", p, v)
				c.StateOf(protoSum(p, b))
			}},
		{Name: "unknown ids", Shards: 2 * len(idSets) * 16, Bound: fmt.Sprintf("%d structs, numbered densely from 1, around 0 and 256 and sparsely: one field of each of the 65536 IDs before, within or after the fields of the struct", len(idSets)),
			Run: func(c *engine.Ctx, sh int) {
				p := []ref.Proto{ref.BinStrict, ref.CompactP}[sh%2]
				part := sh / 2 % 16
				ids := idSets[sh/2/16]
				pos := []int{0, len(ids) / 2, len(ids)}[c.Choose(3)]
				u := []ref.V{ref.I32V(-77), ref.BoolV(true), ref.StrV("unknown")}[c.Choose(3)]
				t, v := idStruct(ids, nil)
				known := map[int16]bool{}
				for _, id := range ids {
					known[id] = true
				}
				want := reflect.New(t).Elem()
				if err := uni.IntoGo(v, want); err != nil {
					panic("engine: " + err.Error())
				}
				for k := range 4096 {
					id := int16(part<<12 | k)
					if known[id] {
						continue
					}
					w := v
					w.F = append(append(append([]ref.Fld(nil), v.F[:pos]...), ref.F(id, u)), v.F[pos:]...)
					if got := unmarshal(c, p, t, p.Enc(nil, w)); !uni.Eq(got, want) {
						c.Failf("%v: with an unknown field, %v is decoded as %s, without it as %s", p, w, uni.Show(got), uni.Show(want))
					}
				}
				c.Logf("%v: IDs %v, unknown %v at %d", p, ids, u, pos)
				c.State(uint64(sh)<<8 | uint64(pos))
			}},
		{Name: "field order", Shards: 3 * len(idSets), Bound: "the same structs with their first four fields in every order and an unknown field with 8 IDs at every position",
			Run: func(c *engine.Ctx, sh int) {
				p := uni.Protos[sh%3]
				ids := idSets[sh/3]
				perm := []int{}
				left := []int{0, 1, 2, 3}[:min(4, len(ids))]
				for len(left) > 0 {
					i := c.Choose(len(left))
					perm = append(perm, left[i])
					left = append(left[:i:i], left[i+1:]...)
				}
				t, v := idStruct(ids, perm)
				want := reflect.New(t).Elem()
				if err := uni.IntoGo(v, want); err != nil {
					panic("engine: " + err.Error())
				}
				pos := c.Choose(len(v.F) + 1)
				for _, id := range []int16{-30000, -3, 10, 99, 255, 254, 1030, 30000} {
					w := v
					w.F = append(append(append([]ref.Fld(nil), v.F[:pos]...), ref.F(id, ref.ListV(ref.Bool, ref.BoolV(true)))), v.F[pos:]...)
					if got := unmarshal(c, p, t, p.Enc(nil, w)); !uni.Eq(got, want) {
						c.Failf("%v: with an unknown field, %v is decoded as %s, without it as %s", p, w, uni.Show(got), uni.Show(want))
					}
				}
				if got := unmarshal(c, p, t, p.Enc(nil, v)); !uni.Eq(got, want) {
					c.Failf("%v: %v is decoded as %s, want %s", p, v, uni.Show(got), uni.Show(want))
				}
				c.StateOf(sh, fmt.Sprint(perm), pos)
			}},
		{Name: "unknown values", Shards: 3 * 12 * 12, Bound: "a struct with one unknown field holding every value of the wire generator, between a bool and a string field",
			Run: func(c *engine.Ctx, sh int) {
				p := uni.Protos[sh%3]
				t, et := ref.All[sh/3%12], ref.All[sh/36]
				if t != ref.Struct && t != ref.List && t != ref.Set && t != ref.Map && et != ref.Bool {
					return
				}
				u := genTier(c, t, et, th)
				id := engine.Pick(c, []int16{3, 4, 30})
				v := ref.StructV(ref.F(2, ref.BoolV(true)), ref.F(id, u), ref.F(9, ref.StrV("nine")))
				b := p.Enc(nil, v)
				got := unmarshal(c, p, uni.TypeOf[Known](), b).Interface().(Known)
				if !reflect.DeepEqual(got, Known{A: true, C: "nine"}) {
					c.Failf("%v: with an unknown field %d: %v, the known fields are decoded as %+v", p, id, u, got)
				}
				// The same value where every field is unknown.
				if e := unmarshal(c, p, uni.TypeOf[struct{}](), b); e.NumField() != 0 {
					panic("unreachable")
				}
				c.StateOf(protoSum(p, b))
			}},
	}
}

// idSets are the field IDs of structs; none has -30000, -3, 10, 99, 254, 255, 1030 or 30000.
var idSets = [][]int16{
	{1}, {0}, {1, 2, 3}, {1, 2, 3, 4, 5, 6, 7, 8}, {0, 1, 2, 3}, {-2, -1, 0, 1, 2}, {256, 257, 258}, {1, 257, 513}, {2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384},
	{-32768, -1, 32767}, {100, 200, 300}, {1, 2, 3, 5, 6, 7}, {3, 2, 1, 17, 16, 15},
	{11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43},
}

// idStruct returns a struct type with the given field IDs and a value of it,
// whose fields come in the order of perm first.
func idStruct(ids []int16, perm []int) (reflect.Type, ref.V) {
	fs := []uni.Field{}
	v := ref.V{T: ref.Struct}
	vals := []ref.V{}
	for i, id := range ids {
		switch i % 3 {
		case 1:
			fs = append(fs, uni.Field{T: uni.TypeOf[bool](), ID: int(id)})
			vals = append(vals, ref.BoolV(true))
		case 2:
			fs = append(fs, uni.Field{T: uni.TypeOf[string](), ID: int(id)})
			vals = append(vals, ref.StrV(fmt.Sprint("s", id)))
		default:
			fs = append(fs, uni.Field{T: uni.TypeOf[int32](), ID: int(id)})
			vals = append(vals, ref.I32V(int32(id)+100000))
		}
	}
	done := map[int]bool{}
	for _, i := range perm {
		done[i] = true
		v.F = append(v.F, ref.F(ids[i], vals[i]))
	}
	for i := range ids {
		if !done[i] {
			v.F = append(v.F, ref.F(ids[i], vals[i]))
		}
	}
	return uni.StructOf(fs...), v
}

// genTier is genSmall, or a smaller one in the quick tier.
func genTier(c *engine.Ctx, t, et byte, th bool) ref.V {
	if th {
		return genSmall(c, t, et)
	}
	switch t {
	case ref.Struct:
		id := engine.Pick(c, []int16{1, 16, -1})
		v := ref.V{T: ref.Struct, F: []ref.Fld{{ID: id, V: uni.GenV(c, et, 2)}}}
		if c.Choose(2) == 1 {
			v.F = append(v.F, ref.Fld{ID: engine.Pick(c, []int16{2, 300}), V: uni.GenV(c, engine.Pick(c, ref.All), 3)})
		}
		return v
	case ref.Map:
		v := ref.V{T: t, KT: et, ET: engine.Pick(c, ref.All)}
		for i := range c.Choose(3) {
			v.L = append(v.L, uni.GenV(c, v.KT, 3), uni.GenV(c, v.ET, 2+i))
		}
		return v
	case ref.Set, ref.List:
		v := ref.V{T: t, ET: et}
		for i := range c.Choose(4) {
			v.L = append(v.L, uni.GenV(c, et, 2+i))
		}
		return v
	}
	return uni.GenV(c, t, 0)
}

// genSmall is a smaller genFixed.
func genSmall(c *engine.Ctx, t, et byte) ref.V {
	switch t {
	case ref.Struct:
		id := engine.Pick(c, []int16{1, 16, -1})
		v := ref.V{T: ref.Struct, F: []ref.Fld{{ID: id, V: uni.GenV(c, et, 1)}}}
		if c.Choose(2) == 1 {
			v.F = append(v.F, ref.Fld{ID: engine.Pick(c, []int16{2, 300}), V: uni.GenV(c, engine.Pick(c, ref.All), 2)})
		}
		return v
	case ref.Map:
		v := ref.V{T: t, KT: et, ET: engine.Pick(c, ref.All)}
		for i := range c.Choose(3) {
			v.L = append(v.L, uni.GenV(c, v.KT, 2+i), uni.GenV(c, v.ET, 2+i))
		}
		return v
	case ref.Set, ref.List:
		v := ref.V{T: t, ET: et}
		for i := range c.Choose(4) {
			v.L = append(v.L, uni.GenV(c, et, 1+i))
		}
		return v
	}
	return uni.GenV(c, t, 1)
}

// goInput is an encoded value of a Go type.
type goInput struct {
	t reflect.Type
	v ref.V
}

// goInputs are Go values with their wire values, of all shapes.
func goInputs(th bool) []goInput {
	str, age := "mail", int64(12)
	best := uni.Person{Name: "best", On: true, Peers: []*uni.Person{{Age: 1}, {On: true}}}
	vals := []any{
		true, int8(-1), int16(300), int32(-70000), int64(1) << 40, 2.5, "text", []byte("bytes"), [16]byte{1, 15: 2},
		[]bool{true, false, true}, []int64{1, -1}, []string{"a", ""}, thrift.Set[int16]{1, 2}, thrift.List[bool]{false},
		map[string]bool{"x": true}, map[int32]string{7: "seven"}, map[string]uni.Key{"k": {A: 1, B: "b"}},
		uni.Key{A: 5, B: "five"}, struct{}{},
		uni.Person{Name: "p", Age: 3, Email: &str, Tags: []string{"t", "u"}, Attrs: map[string]string{"a": "b"}, On: true, Raw: []byte{0, 1}, ID: [16]byte{9}, Best: &best, Score: -0.5, Bits: thrift.Set[int16]{4}, Grid: [][]int64{{1}, {}, {2, 3}}, By: map[int64][]bool{5: {true}}},
		uni.Tree{V: 1, L: []uni.Tree{{V: 2}, {L: []uni.Tree{{V: 3}}}}, P: &uni.Tree{V: 4}, M: map[string]uni.Tree{"m": {V: 5}}},
		uni.Req{S: "s", M: map[string]bool{"t": true}, P: &age, LL: [][]bool{{true}, {}}},
		uni.RS{{}, {{}, {}}}, uni.MutA{B: &uni.MutB{A: []uni.MutA{{N: 1}}, M: map[int32]uni.MutA{1: {N: 2}}}, N: 3},
	}
	if th {
		vals = append(vals, [][]byte{[]byte("x"), {}, []byte("yz")}, map[[16]byte]float32{{1}: 1.5}, []map[string]int8{{"a": 1}, {}}, map[bool][]uni.Tree{true: {{V: 9}}}, thrift.Set[thrift.Set[bool]]{{true}, {}}, make([]bool, 40))
	}
	var out []goInput
	for _, v := range vals {
		rv := reflect.ValueOf(v)
		out = append(out, goInput{rv.Type(), uni.FromGo(rv)})
	}
	return out
}

// decodeAll decodes in one of several ways; the result is rendered for comparison.
const decodeModes = 3

func decodeBy(mode int, p ref.Proto, r thriftwire.Reader, gi goInput) (string, error) {
	switch mode {
	case 0:
		out := reflect.New(gi.t)
		err := thrift.Unmarshal(r, out.Interface())
		if err != nil {
			return "", err
		}
		want := reflect.New(gi.t).Elem()
		if e := uni.IntoGo(gi.v, want); e != nil {
			panic("engine: " + e.Error())
		}
		if uni.Eq(out.Elem(), want) {
			return "ok", nil
		}
		return uni.Show(out.Elem()), nil
	case 1:
		v, err := uni.ReadV(r, gi.v.T)
		if err != nil {
			return "", err
		}
		if ref.Equal(v, gi.v, true) {
			return "ok", nil
		}
		return v.String(), nil
	}
	return "ok", thriftwire.Skip(r, thriftwire.Type(gi.v.T))
}

var modeNames = [...]string{"Unmarshal", "streaming reads", "Skip"}

func c06Spaces(th bool) []engine.Space {
	ins := goInputs(th)
	maxComp := 13
	if th {
		maxComp = 18
	}
	type gap struct{ b []byte }
	return []engine.Space{
		{Name: "compositions", Shards: 3 * len(ins), Bound: fmt.Sprintf("inputs of up to %d bytes: every way to cut them into chunks", maxComp),
			Run: func(c *engine.Ctx, sh int) {
				p, gi := uni.Protos[sh%3], ins[sh/3]
				b := p.Enc(nil, gi.v)
				if len(b) > maxComp {
					return
				}
				cuts := []int{}
				for i := 1; i < len(b); i++ {
					if c.Choose(2) == 1 {
						cuts = append(cuts, i)
					}
				}
				mode := c.Choose(decodeModes)
				checkDelivery(c, p, gi, b, mode, &chunked{b: b, cuts: cuts, withLast: len(cuts)%2 == 1})
				c.StateOf(sh, cuts)
			}},
		{Name: "splits", Shards: 3 * len(ins), Bound: "every input: every single and every double split, with empty reads between, error with the last bytes or after them",
			Run: func(c *engine.Ctx, sh int) {
				p, gi := uni.Protos[sh%3], ins[sh/3]
				b := p.Enc(nil, gi.v)
				b = p.Enc(append(p.EncMsg(nil, ref.Msg{Name: "m", Type: 1, ID: 3}), b...), ref.I32V(1))
				i := c.Choose(len(b))
				j := i
				if len(b) < 150 || th {
					j = i + c.Choose(len(b)-i)
				}
				k := c.Choose(4)
				mode := c.Choose(decodeModes)
				f := &chunked{b: b, cuts: []int{i, j}, zeros: (k & 1) * 3, withLast: k&2 != 0}
				checkMsgDelivery(c, p, gi, b, mode, f)
				c.StateOf(sh, i, j, k)
			}},
		{Name: "fixed chunks", Shards: 3 * len(ins), Bound: "every input behind paddings around the buffer size: chunks of 1 to 40 bytes and of 4080 to 4100 bytes",
			Run: func(c *engine.Ctx, sh int) {
				p, gi := uni.Protos[sh%3], ins[sh/3]
				n := 1 + c.Choose(61)
				if n > 40 {
					n += 4080 - 41
				}
				pad := engine.Pick(c, []int{0, 1, 100, 4075, 4085, 4089, 4090, 4091, 4092, 4093, 4094, 4095, 4096, 9000})
				mode := c.Choose(decodeModes)
				b := p.EncMsg(nil, ref.Msg{Name: pattern(pad), Type: 2, ID: -3})
				b = p.Enc(p.Enc(b, gi.v), ref.I32V(1))
				checkMsgDelivery(c, p, gi, b, mode, &chunked{b: b, every: n, zeros: n % 2})
				c.StateOf(sh, n, pad, mode)
			}},
		{Name: "large", Shards: 3 * len(sizedShapes), Bound: "large strings and containers in chunks of 1, 2, 3, 7, 16, 1000, 4095, 4096, 4097, 5000 and 100000 bytes",
			Run: func(c *engine.Ctx, sh int) {
				p, s := uni.Protos[sh%3], sizedShapes[sh/3]
				v := s.mk(engine.Pick(c, []int{100, 4090, 4096, 5000, 8193, 20000}))
				n := engine.Pick(c, []int{1, 2, 3, 7, 16, 1000, 4095, 4096, 4097, 5000, 100000})
				gi := goInput{v.Type(), uni.FromGo(v)}
				b := p.Enc(nil, gi.v)
				for mode := range decodeModes {
					checkDelivery(c, p, gi, b, mode, &chunked{b: b, every: n})
				}
				c.StateOf(sh, n, len(b))
			}},
	}
}

// chunked delivers b cut at cuts or every n bytes.
type chunked struct {
	b        []byte
	cuts     []int
	every    int
	zeros    int // empty reads before every chunk
	withLast bool
	off, z   int
	err      error
	over     int
}

func (f *chunked) Read(p []byte) (int, error) {
	err := f.err
	if err == nil {
		err = io.EOF
	}
	if f.off >= len(f.b) {
		f.over++
		return 0, err
	}
	if f.z < f.zeros {
		f.z++
		return 0, nil
	}
	f.z = 0
	end := len(f.b)
	if f.every > 0 {
		end = min(end, f.off+f.every)
	}
	for _, c := range f.cuts {
		if c > f.off && c < end {
			end = c
		}
	}
	n := copy(p, f.b[f.off:end])
	f.off += n
	if f.withLast && f.off == len(f.b) {
		return n, err
	}
	return n, nil
}

func checkDelivery(c *engine.Ctx, p ref.Proto, gi goInput, b []byte, mode int, f *chunked) {
	r := uni.Impl(p).NewReader(f)
	c.Step()
	got, err := decodeBy(mode, p, r, gi)
	if err != nil || got != "ok" {
		c.Failf("%v: %s of %v from %s cut at %v (every %d): %s, %v; want %v", p, modeNames[mode], gi.t, uni.Hex(b), f.cuts, f.every, got, err, gi.v)
	}
	if _, err := r.ReadByte(); !errors.Is(err, io.EOF) {
		c.Failf("%v: %s of %v from %s cut at %v (every %d): input left over (%v)", p, modeNames[mode], gi.t, uni.Hex(b), f.cuts, f.every, err)
	}
	c.Logf("%v: %s of %v cut at %v, every %d", p, modeNames[mode], gi.t, f.cuts, f.every)
}

func checkMsgDelivery(c *engine.Ctx, p ref.Proto, gi goInput, b []byte, mode int, f *chunked) {
	d := ref.Dec{P: p, B: b}
	want, err := d.Msg()
	if err != nil {
		panic("engine: " + err.Error())
	}
	r := uni.Impl(p).NewReader(f)
	c.Steps(2)
	m, err := uni.ReadMsg(r)
	if err != nil || m != want {
		c.Failf("%v: message header of %s cut at %v (every %d) read as %+v, %v", p, uni.Hex(b), f.cuts, f.every, m, err)
	}
	got, err := decodeBy(mode, p, r, gi)
	if err != nil || got != "ok" {
		c.Failf("%v: %s of %v from %s cut at %v (every %d, %d empty reads): %s, %v; want %v", p, modeNames[mode], gi.t, uni.Hex(b), f.cuts, f.every, f.zeros, got, err, gi.v)
	}
	n, err := r.ReadI32()
	if err != nil || n != 1 {
		c.Failf("%v: %s of %v from %s cut at %v (every %d): the value after it is read as %d, %v", p, modeNames[mode], gi.t, uni.Hex(b), f.cuts, f.every, n, err)
	}
	c.Logf("%v: %s of %v cut at %v, every %d", p, modeNames[mode], gi.t, f.cuts, f.every)
}

var errCause = errors.New("the cause")

func c07Spaces(th bool) []engine.Space {
	ins := goInputs(th)
	big := []goInput{}
	for _, s := range sizedShapes {
		for _, n := range []int{20, 5000} {
			v := s.mk(n)
			big = append(big, goInput{v.Type(), uni.FromGo(v)})
		}
	}
	check := func(c *engine.Ctx, p ref.Proto, gi goInput, b []byte, hdr int, k, mode, chunk int, cause error, withLast bool) {
		f := &uni.Feed{B: b[:k], Chunk: chunk, Err: cause, WithLast: withLast}
		r := uni.Impl(p).NewReader(f)
		c.Step()
		var err error
		var got string
		if hdr > 0 {
			_, err = r.ReadMessageBegin()
			if err != nil && k >= hdr {
				c.Failf("%v: message header of %s with %d of %d bytes: %v", p, uni.Hex(b), k, len(b), err)
			}
		}
		if err == nil {
			got, err = decodeBy(mode, p, r, gi)
		}
		if k == len(b) {
			if err != nil || got != "ok" {
				c.Failf("%v: %s of %v from all of %s, then %v: %s, %v", p, modeNames[mode], gi.t, uni.Hex(b), cause, got, err)
			}
			c.Outcome("complete")
			return
		}
		if err == nil {
			c.Failf("%v: %s of %v from %s cut after %d of %d bytes (then %v) succeeds: %s", p, modeNames[mode], gi.t, uni.Hex(b), k, len(b), cause, got)
		}
		if cause != nil && !errors.Is(err, cause) {
			c.Failf("%v: %s of %v from %s failing after %d of %d bytes with %q: the error %q does not wrap it", p, modeNames[mode], gi.t, uni.Hex(b), k, len(b), cause, err)
		}
		if cause == nil && !errors.Is(err, io.EOF) && !errors.Is(err, io.ErrUnexpectedEOF) {
			c.Failf("%v: %s of %v from %s cut after %d of %d bytes: the error %q is not an EOF", p, modeNames[mode], gi.t, uni.Hex(b), k, len(b), err)
		}
		if err.Error() == "" {
			c.Failf("%v: empty error text", p)
		}
		c.Outcome("error")
	}
	causes := []error{nil, errCause, io.ErrClosedPipe, io.ErrUnexpectedEOF}
	mid := append([]goInput(nil), ins...)
	for i := range 4 * len(sizedShapes) {
		{
			v := sizedShapes[i%len(sizedShapes)].mk([]int{17, 40, 4090, 9000}[i/len(sizedShapes)])
			mid = append(mid, goInput{v.Type(), uni.FromGo(v)})
		}
	}
	return []engine.Space{
		{Name: "failing once", Shards: 3 * len(mid), Bound: "every input, and the sized shapes with 17, 40, 4090 and 9000 elements (from 120 bytes on, offsets near both ends and the ends of the buffers and 10 spread over the rest): an end of input or an error, that lasts or comes only once before the rest is delivered, after each of its bytes, alone or with the bytes before; alone, after a message header or after another value",
			Run: func(c *engine.Ctx, sh int) {
				p, gi := uni.Protos[sh%3], mid[sh/3]
				var b []byte
				hdr := 0
				if sh/3 < len(ins)+2*len(sizedShapes) {
					hdr = c.Choose(3)
				}
				switch hdr {
				case 1:
					b = p.EncMsg(nil, ref.Msg{Name: "m", Type: 2, ID: 300})
				case 2:
					b = p.Enc(nil, ref.StrV("0123456789ab"))
				}
				start := len(b)
				b = p.Enc(b, gi.v)
				var k int
				if n := len(b) - start; n < 120 {
					k = start + c.Choose(n+1)
				} else {
					var ks []int
					for i := range n + 1 {
						if off := start + i; i < 8 || n-i < 6 || (off+4)%4096 < 8 || (off-start+4)%4096 < 12 || i%(n/10) == 0 {
							ks = append(ks, off)
						}
					}
					k = engine.Pick(c, ks)
				}
				f := &feedOnce{b: b, at: k}
				f.lasts = c.Choose(2) == 1
				f.err = engine.Pick(c, causes[:2])
				if f.err == nil {
					f.err = io.EOF
				}
				if sh/3 < len(ins)+2*len(sizedShapes) {
					f.chunk = engine.Pick(c, []int{0, 7})
				}
				if len(b) < 120 && c.Choose(2) == 1 {
					f.chunk = 1
				}
				f.with = c.Choose(2) == 1
				for mode := range decodeModes {
					g := *f
					r := uni.Impl(p).NewReader(&g)
					c.Step()
					desc := func() string {
						return fmt.Sprintf("%v: %s of %v from %s failing after %d of %d bytes with %q (lasts: %v, with the bytes: %v, chunks of %d)", p, modeNames[mode], gi.t, uni.Hex(b), k, len(b), f.err, f.lasts, f.with, f.chunk)
					}
					var err error
					switch hdr {
					case 1:
						_, err = uni.ReadMsg(r)
					case 2:
						_, err = r.ReadString()
					}
					if err != nil {
						if hdr == 0 || k > start {
							c.Failf("%s: what comes before the value: %v", desc(), err)
						}
						continue
					}
					got, err := decodeBy(mode, p, r, gi)
					switch {
					case k == len(b):
						if err != nil || got != "ok" {
							c.Failf("%s: %s, %v", desc(), got, err)
						}
						c.Outcome("complete")
					case err == nil && mode == 2 && !f.lasts:
						// bufio.Reader.Discard goes on after an error that came
						// with data, and gets the rest.
						c.Outcome("skipped all the same")
					case err == nil:
						c.Failf("%s: succeeds: %s", desc(), got)
					case f.err == io.EOF:
						if !errors.Is(err, io.EOF) && !errors.Is(err, io.ErrUnexpectedEOF) {
							c.Failf("%s: the error %q is not an EOF", desc(), err)
						}
						c.Outcome("EOF")
					case !errors.Is(err, f.err):
						c.Failf("%s: the error %q does not wrap it", desc(), err)
					default:
						c.Outcome("error")
					}
				}
				c.StateOf(sh, hdr, k, f.err, f.chunk)
			}},
		{Name: "helpers", Shards: 9, Bound: "Next, ReadString, ReadBytes, the varint and the compact header helpers on buffers of 16, 17 and 64 bytes and 0 to 6 bytes read before: an end of input or an error, for good or once, after every byte",
			Run: func(c *engine.Ctx, sh int) {
				size := []int{16, 17, 64}[sh%3]
				n := engine.Pick(c, []int{1, 2, 3, 5, 9, 10, 15, 16, 17, 18, 31, 32, 33, 34, 47, 48, 49, 63, 64, 65, 128, 130})
				skip := engine.Pick(c, []int{0, 1, 6})
				op := c.Choose(7)
				b := []byte(strings.Repeat("s", skip))
				switch op {
				case 0, 1, 2:
					b = append(b, pattern(n)...)
				case 3, 4:
					if n > 10 {
						return
					}
					for range n - 1 {
						b = append(b, 0x81)
					}
					b = append(b, 1)
				case 5, 6: // headers of n bytes
					if n < 2 || n > 6 || op == 5 && n < 3 {
						return
					}
					pre, post := []byte{0xf5}, []byte{}
					if op == 5 {
						pre, post = nil, []byte{0x55}
					}
					b = append(b, pre...)
					for range n - len(pre) - len(post) - 1 {
						b = append(b, 0x80|0x10)
					}
					b = append(append(b, 7), post...)
				}
				k := skip + c.Choose(len(b)-skip+1)
				f := &feedOnce{b: b, at: k, lasts: c.Choose(2) == 1, with: c.Choose(2) == 1, err: []error{io.EOF, errCause}[c.Choose(2)], chunk: sh / 3}
				br := bufio.NewReaderSize(f, size)
				if _, err := io.ReadFull(br, make([]byte, skip)); err != nil {
					return
				}
				var err error
				var got any
				switch op {
				case 0:
					if n > size {
						return
					}
					got, err = thriftwire.Next(br, n)
				case 1:
					got, err = thriftwire.ReadString(br, n)
				case 2:
					got, err = thriftwire.ReadBytes(br, n, []byte("x"))
				case 3:
					got, err = thriftwire.ReadUvarint(br)
				case 4:
					got, err = thriftwire.ReadVarint(br)
				case 5:
					got, err = thriftcompact.ReadMapHeader(br)
				case 6:
					got, err = thriftcompact.ReadListHeader(br)
				}
				c.Step()
				c.StateOf(sh, n, op, k)
				desc := func() string {
					return fmt.Sprintf("helper %d of %d bytes, %d read before, buffer of %d, %q after %d (lasts: %v, with the bytes: %v, chunks of %d): %v, %v", op, n, skip, size, f.err, k-skip, f.lasts, f.with, f.chunk, got, err)
				}
				switch {
				case k == len(b):
					if err != nil {
						c.Failf("%s, want no error", desc())
					}
					c.Outcome("complete")
				case err == nil || f.err == errCause && !errors.Is(err, errCause) || f.err == io.EOF && !errors.Is(err, io.EOF) && !errors.Is(err, io.ErrUnexpectedEOF):
					c.Failf("%s, want that error", desc())
				case f.err == io.EOF && op < 3 && errors.Is(err, io.EOF) != (k == skip):
					c.Failf("%s, want an io.EOF before the first byte and an io.ErrUnexpectedEOF after it", desc())
				default:
					c.Outcome("error")
				}
			}},
		{Name: "every offset", Shards: 3 * len(ins), Bound: "every input: end of input or an error after each of its bytes, alone or with the last bytes, delivered whole, byte by byte or in threes",
			Run: func(c *engine.Ctx, sh int) {
				p, gi := uni.Protos[sh%3], ins[sh/3]
				b := p.Enc(nil, gi.v)
				k := c.Choose(len(b) + 1)
				cause := engine.Pick(c, causes)
				chunk := engine.Pick(c, []int{0, 1, 3})
				withLast := c.Choose(2) == 1
				for mode := range decodeModes {
					check(c, p, gi, b, 0, k, mode, chunk, cause, withLast)
				}
				c.Logf("%v: %v cut after %d of %d, %v", p, gi.t, k, len(b), cause)
				c.StateOf(sh, k, cause, chunk)
			}},
		{Name: "messages", Shards: 3 * len(ins), Bound: "the same for messages",
			Run: func(c *engine.Ctx, sh int) {
				p, gi := uni.Protos[sh%3], ins[sh/3]
				b := p.EncMsg(nil, ref.Msg{Name: "method", Type: 1, ID: 1 << 20})
				hdr := len(b)
				b = p.Enc(b, gi.v)
				k := c.Choose(len(b) + 1)
				cause := engine.Pick(c, causes)
				chunk := engine.Pick(c, []int{0, 1})
				for mode := range decodeModes {
					check(c, p, gi, b, hdr, k, mode, chunk, cause, false)
				}
				c.StateOf(sh, k, cause, chunk)
			}},
		{Name: "wire values", Shards: 3 * 12 * 12, Bound: "every value of the small wire generator: end of input after every byte",
			Run: func(c *engine.Ctx, sh int) {
				p := uni.Protos[sh%3]
				t, et := ref.All[sh/3%12], ref.All[sh/36]
				if t != ref.Struct && t != ref.List && t != ref.Set && t != ref.Map && et != ref.Bool {
					return
				}
				v := genTier(c, t, et, th)
				b := p.Enc(nil, v)
				if len(b) > 60 {
					return
				}
				for k := range len(b) {
					c.Step()
					if got, err := uni.ReadV(uni.Impl(p).NewReader(bytes.NewReader(b[:k])), t); err == nil {
						c.Failf("%v: %s cut after %d bytes is read as %v", p, uni.Hex(b), k, got)
					}
					if err := thriftwire.Skip(uni.Impl(p).NewReader(bytes.NewReader(b[:k])), thriftwire.Type(t)); err == nil {
						c.Failf("%v: %s cut after %d bytes is skipped", p, uni.Hex(b), k)
					}
				}
				c.StateOf(protoSum(p, b))
			}},
		{Name: "large", Shards: 3 * len(big), Bound: "large values: end of input or an error at 60 offsets spread over the value and around its buffer boundaries",
			Run: func(c *engine.Ctx, sh int) {
				p, gi := uni.Protos[sh%3], big[sh/3]
				b := p.Enc(nil, gi.v)
				i := c.Choose(100)
				var k int
				switch {
				case i < 40:
					k = len(b) * i / 40
				case i < 50:
					k = 4091 + i - 40
				case i < 60:
					k = 8187 + i - 50
				case i < 80:
					k = i - 60
				default:
					k = len(b) - (i - 80)
				}
				k = max(0, min(k, len(b)))
				cause := engine.Pick(c, causes[:2])
				for mode := range decodeModes {
					check(c, p, gi, b, 0, k, mode, engine.Pick(c, []int{0, 1000}), cause, false)
				}
				c.StateOf(sh, k, cause)
			}},
	}
}

// feedOnce fails after at bytes, for good or once only.
type feedOnce struct {
	b      []byte
	at     int
	chunk  int
	err    error
	with   bool // the error comes with the bytes before it
	lasts  bool
	failed bool
	off    int
}

func (f *feedOnce) Read(p []byte) (int, error) {
	fails := !f.failed || f.lasts
	if fails && f.off == f.at {
		f.failed = true
		return 0, f.err
	}
	if f.off == len(f.b) {
		return 0, io.EOF
	}
	end := len(f.b)
	if fails {
		end = f.at
	}
	if f.chunk > 0 {
		end = min(end, f.off+f.chunk)
	}
	n := copy(p, f.b[f.off:end])
	f.off += n
	if fails && f.with && f.off == f.at {
		f.failed = true
		return n, f.err
	}
	return n, nil
}

// sink is an io.Writer that fails after a number of bytes.
type sink struct {
	got      []byte
	limit    int // -1: never fails
	err      error
	short    bool // short write without an error
	once     bool // fails once
	fails    int
	flushed  int // calls of Flush
	flushAt  int // len(got) at the last call of Flush
	flushErr error
}

func (s *sink) Write(p []byte) (int, error) {
	if s.limit >= 0 && len(s.got)+len(p) > s.limit && !(s.once && s.fails > 0) {
		n := max(0, s.limit-len(s.got))
		s.got = append(s.got, p[:n]...)
		s.fails++
		if s.short && s.fails == 1 {
			return n, nil // for bufio.Writer to notice, or to write the rest
		}
		return n, s.err
	}
	s.got = append(s.got, p...)
	return len(p), nil
}

// flushSink is a sink with a Flush method.
type flushSink struct{ sink }

func (s *flushSink) Flush() error {
	s.flushed++
	s.flushAt = len(s.got)
	return s.flushErr
}

func c08Spaces(th bool) []engine.Space {
	ins := goInputs(th)
	long := func(n int) goInput {
		v := reflect.ValueOf(struct {
			A string `thrift:"1"`
			B bool   `thrift:"2,required"`
			C []byte `thrift:"3"`
			D []bool `thrift:"4"`
		}{pattern(n), true, []byte(pattern(n / 2)), make([]bool, n%100+1)})
		return goInput{v.Type(), uni.FromGo(v)}
	}
	ins = append(ins, long(4000), long(4090), long(5000), long(10000))
	toGo := func(gi goInput) any {
		v := reflect.New(gi.t)
		if err := uni.IntoGo(gi.v, v.Elem()); err != nil {
			panic("engine: " + err.Error())
		}
		return v.Interface()
	}
	depth := 4
	if th {
		depth = 6
	}
	hv := []goInput{ins[0], ins[6], long(4093)}
	return []engine.Space{
		{Name: "failing sinks", Shards: 3 * len(ins), Bound: "every input written as the body of a message, the sink failing after every byte (every 37th of long ones): error, short write, once or for good",
			Run: func(c *engine.Ctx, sh int) {
				p, gi := uni.Protos[sh%3], ins[sh/3]
				m := ref.Msg{Name: "method", Type: 1, ID: -5}
				want := p.Enc(p.EncMsg(nil, m), gi.v)
				stride := 1
				if len(want) > 300 {
					stride = 37
				}
				k := c.Choose(len(want)/stride+3) * stride
				kind := c.Choose(4)
				var s *sink
				var w io.Writer
				fl := c.Choose(3)
				if fl > 0 {
					fs := &flushSink{}
					if fl == 2 {
						fs.flushErr = errCause
					}
					s, w = &fs.sink, fs
				} else {
					s = &sink{}
					w = s
				}
				s.limit, s.err, s.short, s.once = k, errCause, kind&1 == 1, kind&2 == 2
				tw := uni.Impl(p).NewWriter(w)
				var errs []error
				note := func(err error) {
					if err != nil {
						errs = append(errs, err)
					}
				}
				c.Steps(3)
				note(uni.WriteMsg(tw, m))
				if sh%2 == 0 || c.Choose(2) == 0 {
					note(thrift.Marshal(tw, toGo(gi)))
				} else {
					note(uni.WriteV(tw, gi.v))
				}
				note(tw.WriteMessageEnd())
				ferr := tw.Flush()
				if gi.v.T != ref.Map && !bytes.HasPrefix(want, s.got) && !hasMap(gi.v) {
					c.Failf("%v: the sink holds %s, not a prefix of %s", p, uni.Hex(s.got), uni.Hex(want))
				}
				switch {
				case s.fails == 1 && s.short && len(errs) == 0 && len(s.got) == len(want) && (ferr == nil) == (fl < 2):
					c.Outcome("the rest written after a short write")
				case s.fails > 0:
					if ferr == nil {
						c.Failf("%v: the sink failed after %d of %d bytes, and Flush succeeds (earlier errors: %v)", p, k, len(want), errs)
					}
					wantErr := errCause
					if s.short {
						wantErr = io.ErrShortWrite
					}
					for _, err := range append(errs, ferr) {
						if !errors.Is(err, wantErr) && !(s.fails > 1 && errors.Is(err, errCause)) {
							c.Failf("%v: the sink failed with %q, reported as %q", p, wantErr, err)
						}
					}
					c.Outcome("failure reported")
				case fl == 2:
					if len(errs) > 0 || !errors.Is(ferr, errCause) {
						c.Failf("%v: the sink's Flush fails with %q, reported as %v, %v", p, errCause, errs, ferr)
					}
					c.Outcome("flush failure reported")
				default:
					if len(errs) > 0 || ferr != nil {
						c.Failf("%v: nothing failed, but errors %v, %v", p, errs, ferr)
					}
					if len(s.got) != len(want) || !hasMap(gi.v) && !bytes.Equal(s.got, want) {
						c.Failf("%v: after Flush the sink holds %s, want %s", p, uni.Hex(s.got), uni.Hex(want))
					}
					if fl == 1 && (s.flushed == 0 || s.flushAt != len(want)) {
						c.Failf("%v: the sink's Flush was called %d times, the last time after %d of %d bytes", p, s.flushed, s.flushAt, len(want))
					}
					c.Outcome("delivered")
				}
				c.Logf("%v: %v to a sink failing after %d of %d bytes, kind %d", p, gi.t, k, len(want), kind)
				c.StateOf(sh, k, kind, fl)
			}},
		{Name: "histories", Shards: 3 * 4, Bound: fmt.Sprintf("histories of %d steps: marshal one of 3 values, Flush, Reset to one of 2 sinks with a Flush method and 1 without", depth),
			Run: func(c *engine.Ctx, sh int) {
				p := uni.Protos[sh%3]
				start := sh / 3
				type tgt struct {
					w       io.Writer
					s       *sink
					written []byte // since the last Reset
					flushes int
				}
				a, b, d := &flushSink{sink{limit: -1}}, &flushSink{sink{limit: -1}}, &sink{limit: -1}
				tg := []*tgt{{w: a, s: &a.sink}, {w: b, s: &b.sink}, {w: d, s: d}}
				cur := tg[start%3]
				tw := uni.Impl(p).NewWriter(cur.w)
				flushed := make(map[*tgt][]byte) // what must have arrived
				hist := ""
				for i := range depth {
					op := c.Choose(7)
					c.Step()
					switch {
					case op < 3:
						gi := hv[op]
						must(c, thrift.Marshal(tw, toGo(gi)), "%v after %s: Marshal", p, hist)
						cur.written = p.Enc(cur.written, gi.v)
						hist += fmt.Sprintf("marshal%d ", op)
					case op == 3:
						must(c, tw.Flush(), "%v after %s: Flush", p, hist)
						flushed[cur] = append(flushed[cur], cur.written...)
						cur.written = nil
						cur.flushes++
						hist += "flush "
					default:
						if len(cur.s.got) < len(flushed[cur]) {
							c.Failf("%v after %s: flushed bytes are missing", p, hist)
						}
						cur.written = nil // may be lost
						cur.s.got = cur.s.got[:len(flushed[cur])]
						cur = tg[op-4]
						tw.Reset(cur.w)
						hist += fmt.Sprintf("reset%d ", op-4)
					}
					for k, x := range tg {
						must := flushed[x]
						may := must
						if x == cur {
							may = append(may[:len(may):len(may)], x.written...)
						}
						if len(x.s.got) < len(must) || len(x.s.got) > len(may) || !bytes.Equal(x.s.got, may[:len(x.s.got)]) {
							c.Failf("%v after %s(step %d): sink %d holds %s; %d bytes were flushed to it, %d written", p, hist, i, k, uni.Hex(x.s.got), len(must), len(may))
						}
						if _, ok := x.w.(*flushSink); ok && x.s.flushed != x.flushes {
							c.Failf("%v after %s: Flush was called %d times for sink %d, the sink's Flush %d times", p, hist, x.flushes, k, x.s.flushed)
						}
					}
				}
				c.Logf("%v: %s", p, hist)
				c.StateOf(p, hist)
			}},
		{Name: "sizes", Shards: 3 * 4, Bound: "strings of every size from 4060 to 4110 and boundary sizes after prefixes of every size from 0 to 40 bytes and around the buffer size: nothing is lost or repeated, nothing needs a second Flush",
			Run: func(c *engine.Ctx, sh int) {
				p, half := uni.Protos[sh%3], sh/3
				var n, pad int
				if half < 2 {
					n = 4060 + c.Choose(50)
					pad = c.Choose(20) + 20*half
				} else {
					n = engine.Pick(c, sizes)
					pad = 4070 + c.Choose(15) + 15*(half-2)
				}
				vs := []ref.V{ref.StrV(pattern(pad)), ref.StrV(pattern(n)), ref.StructV(ref.F(1, ref.StrV(pattern(n+1))), ref.F(2, ref.BoolV(true))), ref.MapV(ref.Byte, ref.I64, ref.ByteV(1), ref.I64V(-1)), ref.UUIDV("u"), ref.DoubleV(1)}
				var want []byte
				fs := &flushSink{sink{limit: -1}}
				tw := uni.Impl(p).NewWriter(fs)
				for _, v := range vs {
					c.Step()
					must(c, uni.WriteV(tw, v), "write")
					want = p.Enc(want, v)
				}
				must(c, tw.Flush(), "flush")
				if !bytes.Equal(fs.got, want) || fs.flushed != 1 {
					c.Failf("%v: strings of %d and %d bytes: %d bytes delivered, want %d (first difference at %d); %d flushes", p, pad, n, len(fs.got), len(want), diffAt(fs.got, want), fs.flushed)
				}
				c.StateOf(sh, n, pad)
			}},
	}
}

func diffAt(a, b []byte) int {
	for i := range min(len(a), len(b)) {
		if a[i] != b[i] {
			return i
		}
	}
	return min(len(a), len(b))
}

// hasMap reports whether the bytes of v depend on an order of iteration.
func hasMap(v ref.V) bool {
	if v.T == ref.Map && len(v.L) > 2 {
		return true
	}
	for _, e := range v.L {
		if hasMap(e) {
			return true
		}
	}
	for _, f := range v.F {
		if hasMap(f.V) {
			return true
		}
	}
	return false
}

func c15Spaces(th bool) []engine.Space {
	ins := goInputs(th)
	check := func(c *engine.Ctx, p ref.Proto, b []byte, f *uni.Feed, what string, op func(r thriftwire.Reader) error) {
		r := uni.Impl(p).NewReader(f)
		c.Step()
		if err := op(r); err != nil {
			c.Failf("%v: %s of %s: %v", p, what, uni.Hex(b), err)
		}
		if f.OverEnd > 0 {
			c.Failf("%v: %s of %s asks for more input although the last byte was delivered", p, what, uni.Hex(b))
		}
	}
	return []engine.Space{
		{Name: "go values", Shards: 3 * len(ins), Bound: "every input as value or message, delivered whole, byte by byte, or cut once anywhere: no read after its last byte",
			Run: func(c *engine.Ctx, sh int) {
				p, gi := uni.Protos[sh%3], ins[sh/3]
				b := p.Enc(nil, gi.v)
				msg := c.Choose(2) == 1
				if msg {
					b = p.Enc(p.EncMsg(nil, ref.Msg{Name: "m", Type: 2, ID: 300}), gi.v)
				}
				chunk := c.Choose(len(b) + 1)
				for mode := range decodeModes {
					check(c, p, b, &uni.Feed{B: b, Chunk: chunk}, modeNames[mode], func(r thriftwire.Reader) error {
						if msg {
							if _, err := r.ReadMessageBegin(); err != nil {
								return err
							}
						}
						_, err := decodeBy(mode, p, r, gi)
						if err == nil && msg {
							err = r.ReadMessageEnd()
						}
						return err
					})
				}
				c.Logf("%v: %v in chunks of %d", p, gi.t, chunk)
				c.StateOf(sh, msg, chunk)
			}},
		{Name: "wire values", Shards: 3 * 12 * 12, Bound: "every value of the small wire generator, whole and byte by byte",
			Run: func(c *engine.Ctx, sh int) {
				p := uni.Protos[sh%3]
				t, et := ref.All[sh/3%12], ref.All[sh/36]
				if t != ref.Struct && t != ref.List && t != ref.Set && t != ref.Map && et != ref.Bool {
					return
				}
				v := genTier(c, t, et, th)
				b := p.Enc(nil, v)
				for k := range 2 {
					check(c, p, b, &uni.Feed{B: b, Chunk: k}, "streaming reads", func(r thriftwire.Reader) error { _, err := uni.ReadV(r, t); return err })
					check(c, p, b, &uni.Feed{B: b, Chunk: k}, "Skip", func(r thriftwire.Reader) error { return thriftwire.Skip(r, thriftwire.Type(t)) })
				}
				c.StateOf(protoSum(p, b))
			}},
		{Name: "integers", Shards: 3 * 9, Bound: "integers of one or two bits at every fill of a buffer: a value that ends where the delivered bytes end",
			Run: func(c *engine.Ctx, sh int) {
				p, pad := uni.Protos[sh%3], sh/3
				if pad == 8 {
					pad = 4090 + c.Choose(10)
				}
				for _, n := range patterns64() {
					b := p.Enc(p.Enc(nil, ref.StrV(pattern(pad))), ref.I64V(n))
					check(c, p, b, &uni.Feed{B: b}, "reading a string and an i64", func(r thriftwire.Reader) error {
						if err := r.SkipString(); err != nil {
							return err
						}
						got, err := r.ReadI64()
						if err == nil && got != n {
							return fmt.Errorf("read %d, want %d", got, n)
						}
						return err
					})
				}
				c.StateOf(sh, pad)
			}},
		{Name: "sizes", Shards: 3 * len(sizedShapes), Bound: "values of every boundary size, whole and in chunks of 4096 and 1000",
			Run: func(c *engine.Ctx, sh int) {
				p, s := uni.Protos[sh%3], sizedShapes[sh/3]
				n := engine.Pick(c, sizes)
				if n > 4200 && n%4096 != 0 && !th {
					return
				}
				v := s.mk(n)
				gi := goInput{v.Type(), uni.FromGo(v)}
				b := p.Enc(nil, gi.v)
				mode := c.Choose(decodeModes)
				for _, chunk := range []int{0, 4096, 1000} {
					check(c, p, b, &uni.Feed{B: b, Chunk: chunk}, modeNames[mode], func(r thriftwire.Reader) error { _, err := decodeBy(mode, p, r, gi); return err })
				}
				c.StateOf(sh, n)
			}},
		{Name: "consecutive messages", Shards: 3, Bound: "four messages on one stream, each available only after the one before was decoded",
			Run: func(c *engine.Ctx, sh int) {
				p := uni.Protos[sh]
				f := &uni.Feed{}
				r := uni.Impl(p).NewReader(f)
				for i := range 4 {
					gi := ins[c.Choose(len(ins)/(1+i*2))]
					m := ref.Msg{Name: fmt.Sprint("m", i), Type: 1, ID: int32(i)}
					f.B = p.Enc(p.EncMsg(f.B, m), gi.v)
					c.Step()
					if got, err := uni.ReadMsg(r); err != nil || got != m {
						c.Failf("%v: message %d read as %+v, %v", p, i, got, err)
					}
					if got, err := decodeBy(i%decodeModes, p, r, gi); err != nil || got != "ok" {
						c.Failf("%v: body %d (%v) read as %s, %v", p, i, gi.t, got, err)
					}
					must(c, r.ReadMessageEnd(), "ReadMessageEnd")
					if f.OverEnd > 0 {
						c.Failf("%v: message %d: more input is asked for although the message was delivered", p, i)
					}
				}
				c.StateOf(sh, f.B)
			}},
	}
}
