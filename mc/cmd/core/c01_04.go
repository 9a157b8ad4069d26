//go:build go1.23

package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math"
	"reflect"
	"strings"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/internal/zzverif/engine"
	"github.com/itstarsun/go-thrift/internal/zzverif/ref"
	"github.com/itstarsun/go-thrift/internal/zzverif/uni"
	"github.com/itstarsun/go-thrift/thrift"
)

func init() {
	register(&engine.Prop{
		ID: "C01", Level: level,
		Rule:        "an execution marshals one value and unmarshals it; values are enumerated from the Go types of the universe",
		Assumptions: []string{"values outside the enumerated boundary sets behave like the ones inside"},
		Spaces:      c01Spaces,
	})
	for _, p := range []struct {
		id string
		ps []ref.Proto
	}{{"C02", []ref.Proto{ref.BinStrict, ref.BinNonStrict}}, {"C03", []ref.Proto{ref.CompactP}}} {
		register(&engine.Prop{
			ID: p.id, Level: level,
			Rule:        "an execution encodes one value and compares the bytes with the reference encoder, and decodes the reference encoding",
			Assumptions: []string{"the reference encoder and decoder (mc/ref) render the specification; it is checked against published byte vectors"},
			Spaces:      func(th bool) []engine.Space { return bytesSpaces(th, p.ps) },
		})
	}
	register(&engine.Prop{
		ID: "C04", Level: level,
		Rule:        "an execution writes or reads messages over one stream",
		Assumptions: []string{"message types are 1 to 4"},
		Spaces:      c04Spaces,
	})
}

// roundTrip is one Marshal and Unmarshal, against the model.
func roundTrip(c *engine.Ctx, p ref.Proto, v reflect.Value, byPtr bool) []byte {
	b := marshal(c, p, v, byPtr)
	out := unmarshal(c, p, v.Type(), b)
	want := reflect.New(v.Type()).Elem()
	if err := uni.IntoGo(uni.FromGo(v), want); err != nil {
		panic("engine: model: " + err.Error())
	}
	if !uni.Eq(out, want) {
		c.Failf("%v: %v %s came back as %s, want %s (bytes %s)", p, v.Type(), uni.Show(v), uni.Show(out), uni.Show(want), uni.Hex(b))
	}
	return b
}

var sizes = []int{0, 1, 2, 3, 5, 8, 13, 14, 15, 16, 17, 31, 32, 63, 64, 65, 126, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049,
	4085, 4086, 4087, 4088, 4089, 4090, 4091, 4092, 4093, 4094, 4095, 4096, 4097, 4098, 4099, 4100, 4101, 8188, 8189, 8190, 8191, 8192, 8193, 8194, 12287, 12288, 12289,
	16382, 16383, 16384, 16385, 32767, 32768, 32769, 65533, 65534, 65535, 65536, 65537}

func pattern(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + i>>8)
	}
	return string(b)
}

// patterns64 lists integers with one or two bits set, their neighbours and complements.
func patterns64() []int64 {
	var out []int64
	for i := range 64 {
		for j := i; j < 64; j++ {
			n := int64(1)<<i | int64(1)<<j
			out = append(out, n, n-1, ^n, -n)
		}
	}
	return out
}

// sizedShapes make a value with a size.
var sizedShapes = []struct {
	name string
	mk   func(n int) reflect.Value
}{
	{"string", func(n int) reflect.Value { return reflect.ValueOf(pattern(n)) }},
	{"bytes", func(n int) reflect.Value { return reflect.ValueOf([]byte(pattern(n))) }},
	{"struct{string,bool,bytes}", func(n int) reflect.Value {
		return reflect.ValueOf(struct {
			A string `thrift:"1"`
			B bool   `thrift:"2,required"`
			C []byte `thrift:"3"`
			D int32  `thrift:"4"`
		}{pattern(n), true, []byte(pattern(n)), 1})
	}},
	{"[]bool", func(n int) reflect.Value {
		s := make([]bool, n)
		for i := range s {
			s[i] = i%3 == 1
		}
		return reflect.ValueOf(s)
	}},
	{"[]int32", func(n int) reflect.Value {
		s := make([]int32, n)
		for i := range s {
			s[i] = int32(i*i - 7)
		}
		return reflect.ValueOf(s)
	}},
	{"Set[int8]", func(n int) reflect.Value {
		s := make(thrift.Set[int8], n)
		for i := range s {
			s[i] = int8(i)
		}
		return reflect.ValueOf(s)
	}},
	{"[]struct{}", func(n int) reflect.Value { return reflect.ValueOf(make([]struct{}, n)) }},
	{"List[string]", func(n int) reflect.Value {
		s := make(thrift.List[string], n)
		for i := range s {
			s[i] = pattern(i % 5)
		}
		return reflect.ValueOf(s)
	}},
	{"map[int32]bool", func(n int) reflect.Value {
		m := make(map[int32]bool, n)
		for i := range n {
			m[int32(i)] = i%2 == 0
		}
		return reflect.ValueOf(m)
	}},
	{"map[string][]byte", func(n int) reflect.Value {
		m := make(map[string][]byte, n)
		for i := range n {
			m[fmt.Sprint(i)] = []byte{byte(i)}
		}
		return reflect.ValueOf(m)
	}},
	{"[][]bool", func(n int) reflect.Value { return reflect.ValueOf([][]bool{make([]bool, n), {true}, make([]bool, n)}) }},
}

// alignValues straddle buffer boundaries behind padding.
var alignValues = []reflect.Value{
	reflect.ValueOf(true), reflect.ValueOf(int8(-5)), reflect.ValueOf(int16(-12345)), reflect.ValueOf(int32(0x12345678)), reflect.ValueOf(int64(-0x123456789abcdef)),
	reflect.ValueOf(1.2345e67), reflect.ValueOf(float32(2.5)), reflect.ValueOf("straddle me"), reflect.ValueOf([]byte("and these bytes")),
	reflect.ValueOf([16]byte{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}),
	reflect.ValueOf([]int64{1, -1 << 60}), reflect.ValueOf(map[string]int32{"key": -5}), reflect.ValueOf(uni.Key{A: 300, B: "xyz"}), reflect.ValueOf(make([]bool, 17)),
}

var idBoundaries = []int{1, 2, 3, 14, 15, 16, 17, 18, 30, 31, 32, 63, 64, 65, 127, 128, 129, 255, 256, 257, 8191, 8192, 16383, 16384, 32752, 32753, 32766, 32767, 0, -1, -2, -15, -16, -17, -64, -65, -128, -129, -8192, -8193, -32753, -32767, -32768}

func c01Spaces(th bool) []engine.Space {
	types := uni.Types(th)
	dev := 2
	if th {
		dev = 3
	}
	pats := patterns64()
	return []engine.Space{
		{Name: "go values", Shards: len(types) * 3, Dev: dev, Bound: fmt.Sprintf("%d Go types, every value of the generator (up to %d struct fields set), 3 protocols", len(types), dev),
			Run: func(c *engine.Ctx, sh int) {
				p, t := uni.Protos[sh%3], types[sh/3]
				v := uni.Gen(c, t, 0)
				c.Logf("%v %v %s", p, t, uni.Show(v))
				b := roundTrip(c, p, v, sh%2 == 0)
				c.StateOf(protoSum(p, b))
				c.Outcome(fmt.Sprintf("%v/%d bytes", p, min(len(b), 40)))
			}},
		{Name: "integers", Shards: 3 * 260, Bound: "all 8 and 16-bit integers, all 32 and 64-bit integers with up to two bits set or cleared and their neighbours; alone, in lists, as map keys",
			Run: func(c *engine.Ctx, sh int) {
				p, k := uni.Protos[sh%3], sh/3
				if k < 256 {
					for i := range 256 {
						n := int16(uint16(k)<<8 | uint16(i))
						roundTrip(c, p, reflect.ValueOf(n), false)
						roundTrip(c, p, reflect.ValueOf(uint16(n)), false)
						roundTrip(c, p, reflect.ValueOf([]int16{n, 1}), false)
						if k == 0 {
							roundTrip(c, p, reflect.ValueOf(int8(n)), false)
							roundTrip(c, p, reflect.ValueOf(uint8(n)), false)
							roundTrip(c, p, reflect.ValueOf(map[int8]uint8{int8(n): uint8(n)}), false)
						}
					}
					c.Logf("%v: the 256 integers with high byte %d", p, k)
					c.State(uint64(sh))
					return
				}
				for i := k - 256; i < len(pats); i += 4 {
					n := pats[i]
					roundTrip(c, p, reflect.ValueOf(n), false)
					roundTrip(c, p, reflect.ValueOf(uint64(n)), false)
					roundTrip(c, p, reflect.ValueOf(int32(n)), false)
					roundTrip(c, p, reflect.ValueOf(uint32(n>>32)), false)
					roundTrip(c, p, reflect.ValueOf(math.Float64frombits(uint64(n))), false)
					roundTrip(c, p, reflect.ValueOf(math.Float32frombits(uint32(n>>20))), false)
					roundTrip(c, p, reflect.ValueOf(map[int64]int32{n: int32(n)}), false)
				}
				c.Logf("%v: %d bit patterns", p, len(pats)/4)
				c.State(uint64(sh))
			}},
		{Name: "sizes", Shards: 3 * len(sizedShapes), Bound: "every shape with every size of the boundary list up to 65537 (and strings of 2^21)",
			Run: func(c *engine.Ctx, sh int) {
				p, s := uni.Protos[sh%3], sizedShapes[sh/3]
				ns := sizes
				if sh/3 < 2 {
					ns = append(ns[:len(ns):len(ns)], 1<<21-1, 1<<21, 1<<21+1)
				}
				n := engine.Pick(c, ns)
				c.Logf("%v %s of size %d", p, s.name, n)
				b := roundTrip(c, p, s.mk(n), false)
				c.StateOf(sh, len(b))
			}},
		{Name: "alignment", Shards: 3 * len(alignValues), Bound: "a struct whose field crosses each of 60 offsets around the 4096-byte buffers",
			Run: func(c *engine.Ctx, sh int) {
				p, v := uni.Protos[sh%3], alignValues[sh/3]
				pad := 4060 + c.Choose(60)
				t := uni.StructOf(uni.Field{T: uni.TypeOf[[]byte](), ID: 1}, uni.Field{T: v.Type(), ID: 2}, uni.Field{T: v.Type(), ID: 40}, uni.Field{T: uni.TypeOf[int32](), ID: 41})
				s := reflect.New(t).Elem()
				s.Field(0).SetBytes([]byte(pattern(pad)))
				s.Field(1).Set(v)
				s.Field(2).Set(v)
				s.Field(3).SetInt(99)
				c.Logf("%v padding %d before %v", p, pad, v)
				roundTrip(c, p, s, true)
				c.StateOf(sh, pad)
			}},
		{Name: "field ids", Shards: len(idBoundaries), Bound: "structs with every ordered pair of boundary field IDs, for bool, i32 and string fields",
			Run: func(c *engine.Ctx, sh int) {
				a := idBoundaries[sh]
				b := engine.Pick(c, idBoundaries)
				if a == b {
					return
				}
				t := uni.StructOf(uni.Field{T: uni.TypeOf[bool](), ID: a, Opts: ",required"}, uni.Field{T: uni.TypeOf[bool](), ID: b, Opts: ",required"})
				t2 := uni.StructOf(uni.Field{T: uni.TypeOf[int32](), ID: a}, uni.Field{T: t, ID: b})
				for _, p := range uni.Protos {
					for k := range 4 {
						s := reflect.New(t2).Elem()
						s.Field(0).SetInt(int64(k*1000 + 1))
						s.Field(1).Field(0).SetBool(k&1 == 1)
						s.Field(1).Field(1).SetBool(k&2 == 2)
						roundTrip(c, p, s, false)
					}
				}
				c.Logf("field IDs %d and %d", a, b)
				c.StateOf(a, b)
			}},
	}
}

// checkBytes compares both directions of one wire value with the reference.
func checkBytes(c *engine.Ctx, p ref.Proto, v ref.V) {
	want := p.Enc(nil, v)
	c.Steps(2)
	got, err := uni.EncImpl(p, v)
	if err != nil {
		c.Failf("%v: writing %v: %v", p, v, err)
	}
	if !bytes.Equal(got, want) {
		c.Failf("%v: %v is written as %s, the specification says %s", p, v, uni.Hex(got), uni.Hex(want))
	}
	in := p.Enc(append([]byte(nil), want...), ref.I32V(sentinel))
	r := uni.Impl(p).NewReader(bytes.NewReader(in))
	back, err := uni.ReadV(r, v.T)
	if err != nil {
		c.Failf("%v: reading %s (%v): %v", p, uni.Hex(want), v, err)
	}
	if !ref.Equal(back, v, true) {
		c.Failf("%v: %s is read as %v, the specification says %v", p, uni.Hex(want), back, v)
	}
	expectSentinel(c, p, r, want)
}

// vectors are encodings copied by hand from the specifications and from
// other implementations; they tie the reference to the outside world.
var vectors = []struct {
	p   ref.Proto
	v   ref.V
	hex string
}{
	{ref.BinStrict, ref.BoolV(true), "01"}, {ref.BinStrict, ref.BoolV(false), "00"},
	{ref.BinStrict, ref.ByteV(0xfe), "fe"}, {ref.BinStrict, ref.I16V(-2), "fffe"}, {ref.BinStrict, ref.I32V(1), "00000001"},
	{ref.BinStrict, ref.I64V(-2), "fffffffffffffffe"}, {ref.BinStrict, ref.DoubleV(1), "3ff0000000000000"},
	{ref.BinStrict, ref.StrV("abc"), "00000003616263"},
	{ref.BinStrict, ref.UUIDV("\x00\x11\x22\x33\x44\x55\x66\x77\x88\x99\xaa\xbb\xcc\xdd\xee\xff"), "00112233445566778899aabbccddeeff"},
	{ref.BinStrict, ref.StructV(ref.F(1, ref.I32V(7)), ref.F(-1, ref.BoolV(true))), "080001000000070" + "2ffff0100"},
	{ref.BinStrict, ref.ListV(ref.Byte, ref.ByteV(1), ref.ByteV(2)), "03000000020102"},
	{ref.BinStrict, ref.MapV(ref.Byte, ref.Bool, ref.ByteV(1), ref.BoolV(true)), "0302000000010101"},
	{ref.CompactP, ref.I32V(0), "00"}, {ref.CompactP, ref.I32V(-1), "01"}, {ref.CompactP, ref.I32V(1), "02"}, {ref.CompactP, ref.I32V(-2), "03"},
	{ref.CompactP, ref.I32V(2147483647), "feffffff0f"}, {ref.CompactP, ref.I32V(-2147483648), "ffffffff0f"},
	{ref.CompactP, ref.I64V(math.MinInt64), "ffffffffffffffffff01"}, {ref.CompactP, ref.I64V(math.MaxInt64), "feffffffffffffffff01"},
	{ref.CompactP, ref.I16V(8200), "908001"}, {ref.CompactP, ref.ByteV(0xfe), "fe"}, {ref.CompactP, ref.DoubleV(1), "000000000000f03f"},
	{ref.CompactP, ref.StrV("abc"), "03616263"},
	{ref.CompactP, ref.UUIDV("\x00\x11\x22\x33\x44\x55\x66\x77\x88\x99\xaa\xbb\xcc\xdd\xee\xff"), "00112233445566778899aabbccddeeff"},
	{ref.CompactP, ref.StructV(ref.F(1, ref.BoolV(true)), ref.F(2, ref.BoolV(false)), ref.F(20, ref.I32V(-3)), ref.F(19, ref.ByteV(4))), "11120528050326040" + "0"},
	{ref.CompactP, ref.ListV(ref.Bool, ref.BoolV(true), ref.BoolV(false)), "220102"},
	{ref.CompactP, ref.SetV(ref.I16, ref.I16V(1)), "1402"},
	{ref.CompactP, ref.MapV(ref.String, ref.I32), "00"}, {ref.CompactP, ref.MapV(ref.String, ref.Bool, ref.StrV("k"), ref.BoolV(true)), "0182016b01"},
	{ref.CompactP, ref.ListV(ref.Byte, func() (l []ref.V) {
		for i := range 16 {
			l = append(l, ref.ByteV(byte(i)))
		}
		return
	}()...), "f310000102030405060708090a0b0c0d0e0f"},
}

var msgVectors = []struct {
	p   ref.Proto
	m   ref.Msg
	hex string
}{
	{ref.BinStrict, ref.Msg{Name: "ping", Type: 1, ID: 7}, "800100010000000470696e6700000007"},
	{ref.BinNonStrict, ref.Msg{Name: "ping", Type: 2, ID: -1}, "0000000470696e6702ffffffff"},
	{ref.CompactP, ref.Msg{Name: "ping", Type: 1, ID: 300}, "8221ac020470696e67"},
	{ref.CompactP, ref.Msg{Name: "", Type: 4, ID: 0}, "82810000"},
}

func bytesSpaces(th bool, ps []ref.Proto) []engine.Space {
	np := len(ps)
	types := uni.Types(th)
	dev := 2
	if th {
		dev = 3
	}
	prevs := []int16{0, 1, -1, 15, 16, 255, 32767, 32752, -32768, 8192, -8193, 100}
	return []engine.Space{
		{Name: "vectors", Shards: 1, Bound: "published encodings", Run: func(c *engine.Ctx, sh int) {
			x := vectors[c.Choose(len(vectors))]
			want, err := hex.DecodeString(x.hex)
			if err != nil || !bytes.Equal(x.p.Enc(nil, x.v), want) {
				panic(fmt.Sprintf("engine: reference encoder: %v %v %x %s %v", x.p, x.v, x.p.Enc(nil, x.v), x.hex, err))
			}
			checkBytes(c, x.p, x.v)
			c.Logf("%v %v is %s", x.p, x.v, x.hex)
			c.StateOf(x.hex)
		}},
		{Name: "go values", Shards: len(types) * np, Dev: dev, Bound: "every Go value of the universe: the bytes of Marshal decode to the model's value and are its exact encoding",
			Run: func(c *engine.Ctx, sh int) {
				p, t := ps[sh%np], types[sh/np]
				v := uni.Gen(c, t, 0)
				b := marshal(c, p, v, sh%2 == 1)
				got := ref.Canon(canonDecode(c, p, uni.WT(t), b))
				want := uni.FromGo(v)
				if !ref.Equal(got, want, true) {
					c.Failf("%v: Marshal(%v %s) wrote %s, which means %v, not %v", p, t, uni.Show(v), uni.Hex(b), got, want)
				}
				c.Logf("%v %v %s -> %s", p, t, uni.Show(v), uni.Hex(b))
				c.StateOf(protoSum(p, b))
			}},
		{Name: "integers", Shards: np * 257, Bound: "all bytes and 16-bit integers, all 32 and 64-bit integers and doubles with up to two bits set or cleared and their neighbours",
			Run: func(c *engine.Ctx, sh int) {
				p, k := ps[sh%np], sh/np
				if k < 256 {
					for i := range 256 {
						checkBytes(c, p, ref.I16V(int16(k<<8|i)))
						if k == 0 {
							checkBytes(c, p, ref.ByteV(byte(i)))
							checkBytes(c, p, ref.ListV(ref.Byte, ref.ByteV(byte(i))))
						}
					}
					c.Logf("%v: 256 integers with high byte %d", p, k)
					c.State(uint64(sh))
					return
				}
				for _, n := range patterns64() {
					checkBytes(c, p, ref.I64V(n))
					checkBytes(c, p, ref.I32V(int32(n)))
					checkBytes(c, p, ref.DoubleV(math.Float64frombits(uint64(n))))
				}
			}},
		{Name: "field headers", Shards: np * 256, Bound: "all 65536 field IDs after 12 previous field IDs, bool and i32 fields",
			Run: func(c *engine.Ctx, sh int) {
				p, hi := ps[sh%np], sh/np
				prev := engine.Pick(c, prevs)
				for lo := range 256 {
					id := int16(uint16(hi)<<8 | uint16(lo))
					if wraps(prev, id) || wraps(id, prev) {
						continue // the wrapped delta is as good
					}
					checkBytes(c, p, ref.StructV(ref.F(prev, ref.I32V(1)), ref.F(id, ref.BoolV(lo&1 == 1)), ref.F(prev, ref.BoolV(true)), ref.F(prev, ref.BoolV(true))))
				}
				c.Logf("%v: 256 field IDs from %d after %d", p, int16(uint16(hi)<<8), prev)
				c.StateOf(sh, prev)
			}},
		{Name: "sizes", Shards: np * 12, Bound: "strings of every boundary size up to 2^21+1, lists, sets and maps of each element type up to 65537",
			Run: func(c *engine.Ctx, sh int) {
				p, t := ps[sh%np], ref.All[sh/np]
				n := engine.Pick(c, sizes)
				small := smallest(t)
				l := make([]ref.V, n)
				for i := range l {
					l[i] = small
				}
				checkBytes(c, p, ref.V{T: ref.List, ET: t, L: l})
				if n <= 8193 {
					checkBytes(c, p, ref.V{T: ref.Set, ET: t, L: l})
					m := make([]ref.V, 2*n)
					for i := range m {
						m[i] = ref.ByteV(byte(i))
						if i%2 == 1 {
							m[i] = small
						}
					}
					checkBytes(c, p, ref.V{T: ref.Map, KT: ref.Byte, ET: t, L: m})
				}
				if t == ref.String {
					checkBytes(c, p, ref.StrV(pattern(n)))
					checkBytes(c, p, ref.StrV(pattern(n*32+1)))
				}
				c.Logf("%v: containers of %d %s", p, n, ref.TName(t))
				c.StateOf(sh, n)
			}},
		{Name: "alignment", Shards: np * 70, Bound: "every kind of value at 70 offsets around the end of the 4096-byte buffers",
			Run: func(c *engine.Ctx, sh int) {
				p, pad := ps[sh%np], 4050+sh/np
				v := engine.Pick(c, uni.Samples(th))
				checkBytes(c, p, ref.StructV(ref.F(1, ref.StrV(pattern(pad))), ref.F(2, v), ref.F(3, v), ref.F(100, ref.BoolV(true))))
				c.Logf("%v: %v behind %d bytes", p, v, pad)
				c.StateOf(sh, v.String())
			}},
		{Name: "wire values", Shards: np * len(ref.All) * len(ref.All), Bound: "every value of the generator: 12 types nested to depth 3, boundary scalars, boundary field IDs in any order, containers of up to 3 elements",
			Run: func(c *engine.Ctx, sh int) {
				p := ps[sh%np]
				t, et := ref.All[sh/np%12], ref.All[sh/np/12]
				var v ref.V
				switch t {
				case ref.Struct, ref.List, ref.Set:
					// the second shard index fixes the first element type
					v = genBytes(c, t, et, th)
				case ref.Map:
					v = genBytes(c, t, et, th)
				default:
					if et != ref.Bool {
						return
					}
					v = uni.GenV(c, t, 0)
				}
				checkBytes(c, p, v)
				c.Logf("%v %v", p, v)
				c.StateOf(protoSum(p, p.Enc(nil, v)))
			}},
	}
}

// genBytes is genFixed, or genSmall in the quick tier.
func genBytes(c *engine.Ctx, t, et byte, th bool) ref.V {
	if th {
		return genFixed(c, t, et, false)
	}
	return genSmall(c, t, et)
}

func smallest(t byte) ref.V {
	switch t {
	case ref.Struct:
		return ref.StructV()
	case ref.Map:
		return ref.MapV(ref.Bool, ref.Bool)
	case ref.List, ref.Set:
		return ref.V{T: t, ET: ref.Bool}
	case ref.UUID:
		return ref.UUIDV("uuid")
	case ref.String:
		return ref.StrV("s")
	}
	return ref.V{T: t, N: 1}
}

// wraps reports whether the difference of field IDs fits a delta by overflowing.
func wraps(prev, id int16) bool { return id < prev && id-prev > 0 && id-prev <= 15 }

// genFixed is GenV with the first element type given.
func genFixed(c *engine.Ctx, t, et byte, deep bool) ref.V {
	rest := 2
	if deep {
		rest = 1
	}
	switch t {
	case ref.Struct:
		id := engine.Pick(c, []int16{1, 16, -1, 0, 32767, -32768, 15})
		v := ref.V{T: ref.Struct, F: []ref.Fld{{ID: id, V: uni.GenV(c, et, 1)}}}
		for range c.Choose(2) {
			v.F = append(v.F, ref.Fld{ID: engine.Pick(c, []int16{2, 17, 300, 1, -7}), V: uni.GenV(c, engine.Pick(c, ref.All), rest)})
		}
		return v
	case ref.Map:
		v := ref.V{T: t, KT: et, ET: engine.Pick(c, ref.All)}
		switch c.Choose(3) {
		case 1:
			v.L = append(v.L, uni.GenV(c, v.KT, rest), uni.GenV(c, v.ET, rest))
		case 2:
			v.L = append(v.L, uni.GenV(c, v.KT, 2), uni.GenV(c, v.ET, 2), uni.GenV(c, v.KT, 3), uni.GenV(c, v.ET, 3))
		}
		return v
	}
	v := ref.V{T: t, ET: et}
	for i := range c.Choose(4) {
		v.L = append(v.L, uni.GenV(c, et, 1+i))
	}
	return v
}

var (
	msgNames = []string{"", "a", "ping", "caf\u00e9", "\x00\xff", strings.Repeat("n", 127), strings.Repeat("m", 128), strings.Repeat("o", 4090), strings.Repeat("p", 5000)}
	msgIDs   = []int32{0, 1, -1, 127, 128, 255, 16383, 16384, 1<<21 - 1, 1 << 21, 1<<28 - 1, 1 << 28, math.MaxInt32, math.MinInt32, -2, 0x01020304}
)

func encMsgImpl(c *engine.Ctx, p ref.Proto, m ref.Msg) []byte {
	var buf bytes.Buffer
	w := uni.Impl(p).NewWriter(&buf)
	must(c, uni.WriteMsg(w, m), "%v: WriteMessageBegin(%+v)", p, m)
	must(c, w.WriteMessageEnd(), "WriteMessageEnd")
	must(c, w.Flush(), "Flush")
	c.Step()
	return buf.Bytes()
}

// accepts reports whether a reader of protocol r takes messages of protocol w.
func accepts(r, w ref.Proto) bool { return r == w || r == ref.BinNonStrict && w == ref.BinStrict }

func c04Spaces(th bool) []engine.Space {
	bodies := uni.Samples(false)
	structs := []ref.V{}
	for _, b := range bodies {
		if b.T == ref.Struct {
			structs = append(structs, b)
		}
	}
	depth := 2
	if th {
		depth = 3
	}
	return []engine.Space{
		{Name: "vectors", Shards: 1, Bound: "published encodings", Run: func(c *engine.Ctx, sh int) {
			x := msgVectors[c.Choose(len(msgVectors))]
			want, _ := hex.DecodeString(x.hex)
			if !bytes.Equal(x.p.EncMsg(nil, x.m), want) {
				panic("engine: reference message encoder")
			}
			if got := encMsgImpl(c, x.p, x.m); !bytes.Equal(got, want) {
				c.Failf("%v: %+v is written as %x, the specification says %x", x.p, x.m, got, want)
			}
			c.StateOf(x.hex)
		}},
		{Name: "headers", Shards: 3 * len(msgNames), Bound: "4 message types, 16 boundary IDs, 9 names, written by 3 protocols and read by 3 protocols",
			Run: func(c *engine.Ctx, sh int) {
				p := uni.Protos[sh%3]
				m := ref.Msg{Name: msgNames[sh/3], Type: byte(1 + c.Choose(4)), ID: engine.Pick(c, msgIDs)}
				want := p.EncMsg(nil, m)
				got := encMsgImpl(c, p, m)
				if !bytes.Equal(got, want) {
					c.Failf("%v: %+v is written as %s, the specification says %s", p, m, uni.Hex(got), uni.Hex(want))
				}
				for _, rp := range uni.Protos {
					in := rp.Enc(append([]byte(nil), want...), ref.I32V(sentinel))
					r := uni.Impl(rp).NewReader(bytes.NewReader(in))
					back, err := uni.ReadMsg(r)
					c.Step()
					d := ref.Dec{P: rp, B: in}
					refm, referr := d.Msg()
					if !accepts(rp, p) {
						// A message of the other protocol is rejected; an empty
						// name or other coincidence is settled by the reference.
						if referr == nil && !d.DC && (err != nil || back != refm) {
							c.Failf("%v reads %s as %+v, %v; the specification says %+v", rp, uni.Hex(in), back, err, refm)
						}
						if referr != nil && err == nil {
							c.Failf("%v accepts the %v message %s as %+v", rp, p, uni.Hex(in), back)
						}
						c.Outcome("rejected")
						continue
					}
					if err != nil || back != m {
						c.Failf("%v reads %s as %+v, %v; want %+v", rp, uni.Hex(want), back, err, m)
					}
					must(c, r.ReadMessageEnd(), "ReadMessageEnd")
					expectSentinel(c, rp, r, want)
					c.Outcome("accepted")
				}
				c.Logf("%v %+v is %s", p, m, uni.Hex(want))
				c.StateOf(protoSum(p, want))
			}},
		{Name: "ids", Shards: 3 * 33, Bound: "message IDs of one or two bits set or cleared and their neighbours, all types",
			Run: func(c *engine.Ctx, sh int) {
				p := uni.Protos[sh%3]
				i := sh / 3
				for j := range 33 {
					for _, n := range []int64{1<<i | 1<<j, 1<<i - 1, ^(1<<i | 1<<j), -(1<<i | 1<<j), 1<<i + 1<<j - 1} {
						for ty := byte(1); ty <= 4; ty++ {
							m := ref.Msg{Name: "f", Type: ty, ID: int32(n)}
							b := p.EncMsg(nil, m)
							if got := encMsgImpl(c, p, m); !bytes.Equal(got, b) {
								c.Failf("%v: %+v is written as %x, the specification says %x", p, m, got, b)
							}
							back, err := uni.ReadMsg(uni.Impl(p).NewReader(bytes.NewReader(b)))
							if err != nil || back != m {
								c.Failf("%v reads %x as %+v, %v; want %+v", p, b, back, err, m)
							}
						}
					}
				}
				c.State(uint64(sh))
			}},
		{Name: "versions", Shards: 3 * 256, Bound: "all 65536 values of the first two bytes of a message, and all values of its third and fourth",
			Run: func(c *engine.Ctx, sh int) {
				p := uni.Protos[sh%3]
				for lo := range 256 {
					for _, m := range []ref.Msg{{Name: "", Type: 1, ID: 5}, {Name: "ab", Type: 3, ID: 1}} {
						for _, src := range uni.Protos {
							for pos := range 2 {
								b := src.EncMsg(nil, m)
								if pos == 0 {
									b[0], b[1] = byte(sh/3), byte(lo)
								} else {
									b[2], b[3] = byte(sh/3), byte(lo)
								}
								d := ref.Dec{P: p, B: b}
								want, referr := d.Msg()
								c.Step()
								got, err := uni.ReadMsg(uni.Impl(p).NewReader(bytes.NewReader(b)))
								if d.DC {
									c.Outcome("left open: " + d.Why)
									continue
								}
								if (err == nil) != (referr == nil) || err == nil && got != want {
									c.Failf("%v reads %x as %+v, %v; the specification says %+v, %v", p, b, got, err, want, referr)
								}
								c.Outcome(fmt.Sprintf("accepted: %v", err == nil))
							}
						}
					}
				}
				c.Logf("%v: message starts %02x..", p, sh/3)
				c.State(uint64(sh))
			}},
		{Name: "mixed streams", Shards: 9, Bound: fmt.Sprintf("%d messages one after another on one stream, each written in any of the 3 protocols, read by one reader of each protocol up to the first that it must reject; then the same after Reset", depth+2),
			Run: func(c *engine.Ctx, sh int) {
				rp := uni.Protos[sh%3]
				var in []byte
				var ms []ref.Msg
				var vs []ref.V
				var ws []ref.Proto
				for i := range depth + 2 {
					w := uni.Protos[sh/3]
					if i > 0 {
						w = engine.Pick(c, uni.Protos)
					}
					m := ref.Msg{Name: []string{"first", "", "third", strings.Repeat("n", 300), "e"}[i], Type: byte(1 + (i+sh)%4), ID: []int32{-1, 7, 1 << 30, 300, 0}[i]}
					v := ref.StructV(ref.F(1, ref.BoolV(true)), ref.F(int16(2+20*c.Choose(2)), ref.I32V(-5)))
					ws, ms, vs = append(ws, w), append(ms, m), append(vs, v)
					in = w.Enc(w.EncMsg(in, m), v)
					if !accepts(rp, w) {
						break
					}
				}
				src := bytes.NewReader(in)
				r := uni.Impl(rp).NewReader(src)
				for round := range 2 {
					off := 0
					for i, m := range ms {
						c.Step()
						back, err := uni.ReadMsg(r)
						if !accepts(rp, ws[i]) {
							d := ref.Dec{P: rp, B: in, Off: off}
							if _, referr := d.Msg(); referr != nil && err == nil {
								c.Failf("%v accepts the %v message %d of %s as %+v", rp, ws[i], i, uni.Hex(in), back)
							}
							c.Outcome("rejected")
							break
						}
						if err != nil || back != m {
							c.Failf("%v (round %d): message %d of %s, written by %v, is read as %+v, %v; want %+v", rp, round, i, uni.Hex(in), ws[:i+1], back, err, m)
						}
						if i > 1 {
							must(c, thriftwire.Skip(r, thriftwire.Struct), "Skip")
						} else if rp == ws[i] || rp != ref.CompactP {
							v, err := uni.ReadV(r, ref.Struct)
							if err != nil || !ref.Equal(v, vs[i], true) {
								c.Failf("%v: body %d of %s is read as %v, %v", rp, i, uni.Hex(in), v, err)
							}
						}
						must(c, r.ReadMessageEnd(), "ReadMessageEnd")
						off += len(ws[i].Enc(ws[i].EncMsg(nil, m), vs[i]))
						c.Outcome("accepted")
					}
					src.Reset(in)
					r.Reset(src)
				}
				c.Logf("%v reads messages of %v", rp, ws)
				c.StateOf(rp, fmt.Sprint(ws))
			}},
		{Name: "streams", Shards: 3 * len(structs), Bound: fmt.Sprintf("%d messages one after another on one stream by one writer and one reader, each body decoded or skipped", depth),
			Run: func(c *engine.Ctx, sh int) {
				p := uni.Protos[sh%3]
				var buf bytes.Buffer
				w := uni.Impl(p).NewWriter(&buf)
				var ms []ref.Msg
				var vs []ref.V
				var want []byte
				for i := range depth {
					v := structs[sh/3]
					if i > 0 {
						v = engine.Pick(c, structs)
					}
					m := ref.Msg{Name: []string{"first", "", "third"}[i], Type: byte(1 + (i+sh)%4), ID: []int32{-1, 7, 1 << 30}[i]}
					ms, vs = append(ms, m), append(vs, v)
					must(c, uni.WriteMsg(w, m), "WriteMessageBegin")
					must(c, uni.WriteV(w, v), "write")
					must(c, w.WriteMessageEnd(), "WriteMessageEnd")
					want = p.Enc(p.EncMsg(want, m), v)
				}
				must(c, w.Flush(), "Flush")
				if !bytes.Equal(buf.Bytes(), want) {
					c.Failf("%v: messages %v are written as %s, want %s", p, vs, uni.Hex(buf.Bytes()), uni.Hex(want))
				}
				r := uni.Impl(p).NewReader(&buf)
				for i := range depth {
					m, err := uni.ReadMsg(r)
					if err != nil || m != ms[i] {
						c.Failf("%v: message %d of %v is read as %+v, %v", p, i, vs, m, err)
					}
					c.Step()
					if c.Choose(2) == 0 {
						v, err := uni.ReadV(r, ref.Struct)
						if err != nil || !ref.Equal(v, vs[i], true) {
							c.Failf("%v: body %d of %v is read as %v, %v", p, i, vs, v, err)
						}
					} else {
						must(c, thriftwire.Skip(r, thriftwire.Struct), "%v: Skip of body %d of %v", p, i, vs)
					}
					must(c, r.ReadMessageEnd(), "ReadMessageEnd")
				}
				if _, err := r.ReadByte(); err == nil {
					c.Failf("%v: bytes left after %v", p, vs)
				}
				c.Logf("%v: %v", p, vs)
				c.StateOf(protoSum(p, want))
			}},
	}
}
