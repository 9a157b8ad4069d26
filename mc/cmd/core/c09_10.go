//go:build go1.23

package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"math"
	"reflect"
	"runtime"

	"github.com/itstarsun/go-thrift/encoding/thriftcompact"
	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/internal/zzverif/engine"
	"github.com/itstarsun/go-thrift/internal/zzverif/ref"
	"github.com/itstarsun/go-thrift/internal/zzverif/uni"
	"github.com/itstarsun/go-thrift/thrift"
)

func init() {
	register(&engine.Prop{ID: "C09", Level: level,
		Rule:        "an execution decodes one byte sequence in one way",
		Assumptions: []string{"the reference decoder renders the specification; encodings it leaves open are only checked for panics and hangs"},
		Spaces:      c09Spaces})
	register(&engine.Prop{ID: "C10", Level: level,
		Rule:        "an execution decodes one input that announces more than it delivers, and measures the bytes allocated",
		Assumptions: []string{"runtime.MemStats.TotalAlloc counts the bytes allocated"},
		Spaces:      c10Spaces})
}

// lazyEnv is an input stream whose bytes are chosen when they are asked for.
type lazyEnv struct {
	c     *engine.Ctx
	alpha func(i int) []byte
	pre   []byte // fixed bytes delivered first
	max   int    // bytes chosen before the end of the stream
	b     []byte // everything delivered
	ended bool
}

func (e *lazyEnv) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if len(e.b) < len(e.pre) {
		p[0] = e.pre[len(e.b)]
		e.b = append(e.b, p[0])
		return 1, nil
	}
	i := len(e.b) - len(e.pre)
	if i >= e.max {
		e.ended = true
		return 0, io.EOF
	}
	a := e.alpha(i)
	if a == nil {
		p[0] = byte(e.c.Choose(256))
	} else {
		p[0] = engine.Pick(e.c, a)
	}
	e.b = append(e.b, p[0])
	return 1, nil
}

// Any is a struct that takes many of the fields that small alphabets make.
type Any struct {
	F0  bool              `thrift:"0"`
	F1  int32             `thrift:"1"`
	F2  []bool            `thrift:"2"`
	F3  *Any              `thrift:"3"`
	F4  string            `thrift:"4"`
	Fm1 map[string]int8   `thrift:"-1"`
	F8  thrift.Set[int64] `thrift:"8"`
	F15 []Any             `thrift:"15"`
	F16 map[bool]Any      `thrift:"16"`
	Fb  int8              `thrift:"257"`
	Fc  [16]byte          `thrift:"258"`
}

var lazyTypes = map[byte][]reflect.Type{
	ref.Bool: {uni.TypeOf[bool]()}, ref.Byte: {uni.TypeOf[uint8]()}, ref.I16: {uni.TypeOf[int16]()}, ref.I32: {uni.TypeOf[uint32]()}, ref.I64: {uni.TypeOf[int64]()},
	ref.Double: {uni.TypeOf[float64]()}, ref.String: {uni.TypeOf[string](), uni.TypeOf[[]byte]()}, ref.UUID: {uni.TypeOf[[16]byte]()},
	ref.Struct: {uni.TypeOf[Any](), uni.TypeOf[struct{}](), uni.TypeOf[*Any]()},
	ref.Map:    {uni.TypeOf[map[int8]bool](), uni.TypeOf[map[string]Any](), uni.TypeOf[map[bool][]int16]()},
	ref.Set:    {uni.TypeOf[thrift.Set[bool]](), uni.TypeOf[thrift.Set[Any]](), uni.TypeOf[thrift.Set[[]string]]()},
	ref.List:   {uni.TypeOf[[]bool](), uni.TypeOf[[]Any](), uni.TypeOf[[]string](), uni.TypeOf[[][]int32](), uni.TypeOf[[]map[int8]int8]()},
}

// judge compares an outcome of the implementation with the reference.
// rest is the number of bytes that were delivered.
func judge(c *engine.Ctx, p ref.Proto, t byte, in []byte, how string, err error, same func(v ref.V) (string, bool), mismatch func(v ref.V) bool) {
	d := ref.Dec{P: p, B: in}
	v, referr := d.Value(t)
	switch {
	case d.DC:
		c.Outcome("left open")
	case referr != nil:
		if err == nil {
			c.Failf("%v: %s of %s as %s succeeds, but the specification says %v", p, how, uni.Hex(in), ref.TName(t), referr)
		}
		c.Outcome("rejected")
	case mismatch != nil && mismatch(v):
		if err == nil {
			c.Failf("%v: %s of %s (%v) succeeds, but its types do not fit", p, how, uni.Hex(in), v)
		}
		c.Outcome("mismatch")
	default:
		if err != nil {
			c.Failf("%v: %s of %s as %s: %v; the specification says it is %v", p, how, uni.Hex(in[:d.Off]), ref.TName(t), err, v)
		}
		if got, ok := same(v); !ok {
			c.Failf("%v: %s of %s as %s: %s; the specification says it is %v", p, how, uni.Hex(in[:d.Off]), ref.TName(t), got, v)
		}
		c.Outcome("value")
		c.StateOf(protoSum(p, in[:d.Off]), t)
	}
}

// judgeAll decodes in by one mode and judges it; modes beyond 2 are the Go types.
func judgeBy(c *engine.Ctx, p ref.Proto, t byte, src io.Reader, delivered func() []byte, gt reflect.Type, mode int) {
	r := uni.Impl(p).NewReader(src)
	c.Step()
	switch mode {
	case 0:
		v, err := uni.ReadV(r, t)
		judge(c, p, t, delivered(), "a streaming read", err, func(w ref.V) (string, bool) { return v.String(), ref.Equal(v, w, true) }, nil)
	case 1:
		err := thriftwire.Skip(r, thriftwire.Type(t))
		judge(c, p, t, delivered(), "Skip", err, func(ref.V) (string, bool) { return "", true }, nil)
	default:
		out := reflect.New(gt)
		err := thrift.Unmarshal(r, out.Interface())
		want := reflect.New(gt).Elem()
		judge(c, p, t, delivered(), "Unmarshal", err, func(ref.V) (string, bool) {
			return uni.Show(out.Elem()), uni.Eq(out.Elem(), want)
		}, func(w ref.V) bool { return uni.IntoGo(w, want) != nil })
	}
}

func c09Spaces(th bool) []engine.Space {
	depthB, depthC := 5, 4
	alphaB := []byte{0, 1, 2, 0x0b, 0x0c, 0x0f, 0x80, 0xff}
	alphaC := []byte{0, 1, 2, 0x11, 0x12, 0x1c, 0x19, 0x18, 0x1b, 0x80, 0xff, 0xf1, 0x15, 0x13}
	if th {
		depthB, depthC = 6, 5
	}
	ins := goInputs(th)
	samples := uni.Samples(th)
	type lazyCase struct {
		t    byte
		mode int
		gt   reflect.Type
	}
	var lazies []lazyCase
	for _, t := range ref.All {
		lazies = append(lazies, lazyCase{t, 0, nil}, lazyCase{t, 1, nil})
		for _, gt := range lazyTypes[t] {
			lazies = append(lazies, lazyCase{t, 2, gt})
		}
	}
	// Headers after which the environment takes over in the binary protocol.
	type pre struct {
		t  byte
		b  string
		gt reflect.Type
	}
	pres := []pre{
		{ref.Struct, "\x0c\x00\x03", uni.TypeOf[Any]()}, {ref.Struct, "\x0f\x00\x0f", uni.TypeOf[Any]()}, {ref.Struct, "\x0d\x00\x10\x02", uni.TypeOf[Any]()}, {ref.Struct, "\x0b\x00\x04\x00\x00\x00", uni.TypeOf[Any]()},
		{ref.Struct, "\x0f\x00\x02\x02\x00\x00\x00", uni.TypeOf[Any]()}, {ref.Struct, "\x0d\x00\x10\x02\x0c\x00\x00\x00", uni.TypeOf[Any]()}, {ref.Struct, "\x0f\x01\x00\x0c\x00\x00\x00\x01", uni.TypeOf[Any]()},
		{ref.List, "\x0c\x00\x00\x00", uni.TypeOf[[]Any]()}, {ref.List, "\x0b\x00\x00\x00\x02", uni.TypeOf[[]string]()}, {ref.List, "\x0f\x00\x00\x00\x01", uni.TypeOf[[][]int32]()}, {ref.List, "\x0d\x00\x00\x00\x01", uni.TypeOf[[]map[int8]int8]()}, {ref.List, "\x02\x00\x00\x00", uni.TypeOf[[]bool]()},
		{ref.Set, "\x0c\x00\x00\x00\x01", uni.TypeOf[thrift.Set[Any]]()}, {ref.Set, "\x0f\x00\x00\x00\x01\x0b", uni.TypeOf[thrift.Set[[]string]]()},
		{ref.Map, "\x0b\x0c\x00\x00\x00\x01\x00\x00\x00", uni.TypeOf[map[string]Any]()}, {ref.Map, "\x02\x0f\x00\x00\x00\x02", uni.TypeOf[map[bool][]int16]()}, {ref.Map, "\x03\x02\x00\x00\x00", uni.TypeOf[map[int8]bool]()},
		{ref.String, "\x00\x00\x00", uni.TypeOf[string]()},
	}
	presC := []pre{
		{ref.Struct, "\x1c", uni.TypeOf[Any]()}, {ref.Struct, "\x3c\x1c", uni.TypeOf[Any]()}, {ref.Struct, "\x29\x21", uni.TypeOf[Any]()}, {ref.Struct, "\xf9\x1c", uni.TypeOf[Any]()}, {ref.Struct, "\x08\x08", uni.TypeOf[Any]()}, {ref.Struct, "\x0b\x20", uni.TypeOf[Any]()}, {ref.Struct, "\x01\x00", uni.TypeOf[Any]()},
		{ref.List, "\x1c", uni.TypeOf[[]Any]()}, {ref.List, "\x29\x1b", uni.TypeOf[[][]int32]()}, {ref.List, "\xf8", uni.TypeOf[[]string]()}, {ref.List, "\xf1", uni.TypeOf[[]bool]()}, {ref.List, "\x2b", uni.TypeOf[[]map[int8]int8]()},
		{ref.Set, "\x2c\x11", uni.TypeOf[thrift.Set[Any]]()}, {ref.Map, "\x01\x8c", uni.TypeOf[map[string]Any]()}, {ref.Map, "\x02\x19", uni.TypeOf[map[bool][]int16]()}, {ref.Map, "\x01\x31", uni.TypeOf[map[int8]bool]()},
	}
	muts := func(c *engine.Ctx, b []byte) []byte {
		b = append([]byte(nil), b...)
		switch c.Choose(5) {
		case 0: // another byte
			i := c.Choose(len(b))
			b[i] = byte(c.Choose(256))
		case 1: // a byte left out
			i := c.Choose(len(b))
			b = append(b[:i], b[i+1:]...)
		case 2: // a byte put in
			i := c.Choose(len(b) + 1)
			x := engine.Pick(c, []byte{0, 1, 0x0c, 0x7f, 0x80, 0xff})
			b = append(b[:i], append([]byte{x}, b[i:]...)...)
		case 3: // two bytes changed
			i := c.Choose(len(b))
			var j int
			if len(b) > 40 && !th {
				j = (i + 1 + c.Choose(4)) % len(b)
			} else {
				j = c.Choose(len(b))
			}
			b[i] = engine.Pick(c, []byte{0, 1, 2, 0x0c, 0x80, 0xff})
			b[j] = engine.Pick(c, []byte{0, 1, 0x0f, 0x80, 0xff, 0x7f})
		case 4: // a piece repeated
			i := c.Choose(len(b))
			n := 1 + c.Choose(min(4, len(b)-i))
			b = append(b[:i+n:i+n], b[i:]...)
		}
		return b
	}
	alphas := [][]byte{{0, 1, 2, 0x7f, 0x80, 0x81, 0xff}}
	return []engine.Space{
		{Name: "varints", Shards: 6 * 11, Bound: "compact integers, sizes and IDs: varints of up to 11 bytes over {0,1,2,7f,80,81,ff}",
			Run: func(c *engine.Ctx, sh int) {
				n := sh % 11
				t := []byte{ref.I16, ref.I32, ref.I64, ref.String, ref.Map, ref.List}[sh/11]
				b := []byte{}
				if t == ref.List {
					b = append(b, 0xf3)
				}
				for i := range n {
					if n > 5 && i > 1 && i < n-2 {
						b = append(b, 0x80|byte(c.Choose(2)*0x7f))
						continue
					}
					b = append(b, engine.Pick(c, alphas[0]))
				}
				c.State(uint64(sh)<<32 | uint64(len(b)))
				for mode := range 2 {
					judgeBy(c, ref.CompactP, t, bytes.NewReader(b), func() []byte { return b }, nil, mode)
				}
			}},
		{Name: "mutations", Shards: 3 * len(samples), Bound: "every sample value: every byte replaced by all others, left out, put in, pairs replaced, pieces repeated",
			Run: func(c *engine.Ctx, sh int) {
				p, v := uni.Protos[sh%3], samples[sh/3]
				if p == ref.BinNonStrict {
					return
				}
				b := muts(c, p.Enc(nil, v))
				for mode := range 2 {
					judgeBy(c, p, v.T, bytes.NewReader(b), func() []byte { return b }, nil, mode)
				}
			}},
		{Name: "go mutations", Shards: 2 * len(ins), Bound: "every Go input: the same mutations, unmarshaled",
			Run: func(c *engine.Ctx, sh int) {
				p, gi := []ref.Proto{ref.BinStrict, ref.CompactP}[sh%2], ins[sh/2]
				b := muts(c, p.Enc(nil, gi.v))
				judgeBy(c, p, gi.v.T, bytes.NewReader(b), func() []byte { return b }, gi.t, 2)
			}},
		{Name: "message mutations", Shards: 3 * 4, Bound: "message headers: the same mutations, read by all protocols",
			Run: func(c *engine.Ctx, sh int) {
				src := uni.Protos[sh%3]
				m := []ref.Msg{{Name: "add", Type: 1, ID: 1}, {Name: "", Type: 2, ID: -1}, {Name: "long method name", Type: 3, ID: 1 << 28}, {Name: "x", Type: 4, ID: 0}}[sh/3]
				b := muts(c, src.EncMsg(nil, m))
				for _, p := range uni.Protos {
					c.Step()
					d := ref.Dec{P: p, B: b}
					want, referr := d.Msg()
					got, err := uni.ReadMsg(uni.Impl(p).NewReader(bytes.NewReader(b)))
					if d.DC {
						continue
					}
					if (err == nil) != (referr == nil) || err == nil && got != want {
						c.Failf("%v: message %x is read as %+v, %v; the specification says %+v, %v", p, b, got, err, want, referr)
					}
					c.StateOf(protoSum(p, b))
				}
			}},
		{Name: "headers", Shards: 256, Bound: "field, map, set and list headers of both protocols on their own (exported functions of the compact protocol too): first byte any of 256, second any of 256, followed by boundary sizes and IDs",
			Run: func(c *engine.Ctx, sh int) { c09Headers(c, byte(sh)) }},
		{Name: "lazy binary", Shards: 2 * len(lazies) * 256, Bound: fmt.Sprintf("binary protocols: the first byte any of 256, up to %d further bytes from %x, then the end of the stream; 12 expected types, streaming reads, Skip and Unmarshal", depthB-1, alphaB),
			Run: func(c *engine.Ctx, sh int) {
				lc := lazies[sh/2/256]
				p := uni.Protos[sh%2]
				if p == ref.BinNonStrict && (lc.mode != 0 || !th) {
					return
				}
				if first := sh / 2 % 256; lc.mode != 0 && !th && first > 20 && first != 0x7f && first != 0x80 && first != 0xff {
					return // all of them only in the streaming mode
				}
				env := &lazyEnv{c: c, pre: []byte{byte(sh / 2 % 256)}, max: depthB - 1, alpha: func(int) []byte { return alphaB }}
				judgeBy(c, p, lc.t, env, func() []byte { return env.b }, lc.gt, lc.mode)
			}},
		{Name: "lazy compact", Shards: len(lazies) * 256, Bound: fmt.Sprintf("compact protocol: the first byte any of 256, up to %d further bytes from %x", depthC-1, alphaC),
			Run: func(c *engine.Ctx, sh int) {
				lc := lazies[sh/256]
				if first := sh % 256; lc.mode == 2 && !th && first%16 > 13 {
					return // not a compact type: all of them only in the other modes
				}
				env := &lazyEnv{c: c, pre: []byte{byte(sh % 256)}, max: depthC - 1, alpha: func(int) []byte { return alphaC }}
				judgeBy(c, ref.CompactP, lc.t, env, func() []byte { return env.b }, lc.gt, lc.mode)
			}},
		{Name: "lazy after headers", Shards: (len(pres) + len(presC)) * 3, Bound: "the same after 34 beginnings of nested values, with the first chosen byte (in the thorough tier, the first two) any of 256 values",
			Run: func(c *engine.Ctx, sh int) {
				p, x := ref.BinStrict, pre{}
				if i := sh / 3; i < len(pres) {
					x = pres[i]
				} else {
					p, x = ref.CompactP, presC[i-len(pres)]
				}
				n := 4
				a := alphaB
				if p == ref.CompactP {
					a = alphaC
				}
				env := &lazyEnv{c: c, pre: []byte(x.b), max: n, alpha: func(i int) []byte {
					if i < 1 || i < 2 && sh%3 == 0 && th {
						return nil
					}
					return a
				}}
				judgeBy(c, p, x.t, env, func() []byte { return env.b }, x.gt, sh%3)
			}},
	}
}

// A header as the calls return it; a field has its ID in size.
type anyHeader struct {
	k, e byte
	size int
}

// readHeader reads a header of the given kind: 0 field, 1 map, 2 set, 3 list;
// 4 to 6 are the exported functions of the compact protocol.
func readHeader(r thriftwire.Reader, b *bufio.Reader, kind int) (h anyHeader, err error) {
	switch kind {
	case 0:
		x, err := r.ReadFieldBegin()
		return anyHeader{0, byte(x.Type), int(x.ID)}, err
	case 1, 4:
		x := r.ReadMapBegin
		if kind == 4 {
			x = func() (thriftwire.MapHeader, error) { return thriftcompact.ReadMapHeader(b) }
		}
		y, err := x()
		return anyHeader{byte(y.Key), byte(y.Value), y.Size}, err
	case 2, 5:
		x := r.ReadSetBegin
		if kind == 5 {
			x = func() (thriftwire.SetHeader, error) { return thriftcompact.ReadSetHeader(b) }
		}
		y, err := x()
		return anyHeader{0, byte(y.Element), y.Size}, err
	default:
		x := r.ReadListBegin
		if kind == 6 {
			x = func() (thriftwire.ListHeader, error) { return thriftcompact.ReadListHeader(b) }
		}
		y, err := x()
		return anyHeader{0, byte(y.Element), y.Size}, err
	}
}

var headerKinds = []string{"ReadFieldBegin", "ReadMapBegin", "ReadSetBegin", "ReadListBegin", "ReadMapHeader", "ReadSetHeader", "ReadListHeader"}

// c09Headers reads all headers that begin with the byte first. The compact
// protocol has no type for some numbers, which therefore are errors; in the
// binary protocol an unknown number may be returned as it is.
func c09Headers(c *engine.Ctx, first byte) {
	kind := c.Choose(len(headerKinds))
	var ins [][]byte
	p := ref.CompactP
	if kind < 4 && c.Choose(2) == 1 {
		p = ref.BinStrict
	}
	tails := []string{"\x00\x01\x55\x66", "\x01\x7f\x33\x44", "\x80\x01\x80\x01\x22", "\x7f\xff\xff\xff\x11", "\xff\xff\xff\xff\x0f\x37\x11", "\x00\x00\x00\x02\x31", "\xff\xff\xff\xff\xff\xff\xff\xff\x7f\x53", "\x00\x00\x00\x00\x3e", ""}
	for lo := range 256 {
		for _, t := range tails {
			ins = append(ins, append([]byte{first, byte(lo)}, t...))
		}
	}
	for _, in := range ins {
		d := ref.Dec{P: p, B: in}
		want, referr := d.Header([]int{0, 1, 2, 3, 1, 2, 3}[kind])
		b := bufio.NewReader(bytes.NewReader(in))
		r := uni.Impl(p).NewReader(b)
		got, err := readHeader(r, b, kind)
		c.Step()
		if d.DC {
			continue
		}
		if (err == nil) != (referr == nil) || err == nil && got != (anyHeader{want.K, want.E, want.N}) {
			c.Failf("%v: %s of %x is %+v, %v; the specification says %+v, %v", p, headerKinds[kind], in, got, err, want, referr)
		}
		if err == nil {
			c.State(uint64(kind)<<40 | uint64(p)<<36 | uint64(want.K)<<24 | uint64(want.E)<<16 | uint64(want.N)&0xffff)
			rest, _ := io.ReadAll(b)
			if len(in)-len(rest) != d.Off {
				c.Failf("%v: %s of %x consumes %d bytes, the header has %d", p, headerKinds[kind], in, len(in)-len(rest), d.Off)
			}
		}
	}
}

func allocated(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

func c10Spaces(th bool) []engine.Space {
	binSizes := []int64{1 << 10, 1 << 16, 1<<16 + 1, 1 << 20, 1 << 24, 1 << 28, math.MaxInt32}
	cmpSizes := append(binSizes[:len(binSizes):len(binSizes)], 1<<32, 1<<40, 1<<48, 1<<62, math.MaxInt64)
	if !th {
		binSizes = []int64{1 << 16, 1 << 22, 1 << 27, math.MaxInt32}
		cmpSizes = append(binSizes[:len(binSizes):len(binSizes)], 1<<32, 1<<40, math.MaxInt64)
	}
	delivered := []int{0, 1, 10, 1000, 70000}
	elems := []byte{ref.Bool, ref.Byte, ref.I16, ref.I32, ref.I64, ref.Double, ref.String, ref.UUID, ref.Struct, ref.List, ref.Set, ref.Map}
	goElem := map[byte]reflect.Type{
		ref.Bool: uni.TypeOf[bool](), ref.Byte: uni.TypeOf[int8](), ref.I16: uni.TypeOf[int16](), ref.I32: uni.TypeOf[uint32](), ref.I64: uni.TypeOf[int64](), ref.Double: uni.TypeOf[float64](),
		ref.String: uni.TypeOf[string](), ref.UUID: uni.TypeOf[[16]byte](), ref.Struct: uni.TypeOf[uni.Key](), ref.List: uni.TypeOf[[]bool](), ref.Set: uni.TypeOf[thrift.Set[bool]](), ref.Map: uni.TypeOf[map[bool]bool](),
	}
	header := func(p ref.Proto, kind int, et byte, n int64) (byte, []byte) {
		if p == ref.CompactP {
			uv := func(u int64) []byte { return ref.UV(nil, uint64(u)) }
			switch kind {
			case 0, 1:
				return ref.String, uv(n)
			case 2:
				return ref.List, append([]byte{0xf0 | ref.CType(et)}, uv(n)...)
			case 3:
				return ref.Set, append([]byte{0xf0 | ref.CType(et)}, uv(n)...)
			default:
				return ref.Map, append(uv(n), ref.CType(ref.Byte)<<4|ref.CType(et))
			}
		}
		sz := []byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}
		switch kind {
		case 0, 1:
			return ref.String, sz
		case 2:
			return ref.List, append([]byte{et}, sz...)
		case 3:
			return ref.Set, append([]byte{et}, sz...)
		default:
			return ref.Map, append([]byte{ref.Byte, et}, sz...)
		}
	}
	body := func(p ref.Proto, kind int, et byte, n int) []byte {
		if kind < 2 {
			return []byte(pattern(n))
		}
		var b []byte
		for i := 0; len(b) < n; i++ {
			if kind == 4 {
				b = p.Enc(b, ref.ByteV(byte(i)))
			}
			b = p.Enc(b, smallest(et))
		}
		return b[:n]
	}
	limit := func(read int) uint64 { return 600<<10 + 400*uint64(read) }
	check := func(c *engine.Ctx, p ref.Proto, t byte, gt reflect.Type, in []byte, mode int, what string) {
		var err error
		src := &uni.Feed{B: in}
		n := allocated(func() {
			r := uni.Impl(p).NewReader(src)
			c.Step()
			switch mode {
			case 0:
				err = thriftwire.Skip(r, thriftwire.Type(t))
			case 1:
				out := reflect.New(gt)
				err = thrift.Unmarshal(r, out.Interface())
			case 2:
				switch t {
				case ref.String:
					_, err = r.ReadString()
				default:
					_, err = readFlat(r, t)
				}
			case 3:
				_, err = r.ReadBytes(make([]byte, 0, 10))
			}
		})
		if err == nil {
			c.Failf("%v: %s: no error", p, what)
		}
		if n > limit(len(in)) {
			c.Failf("%v: %s (%d bytes delivered, mode %d) allocates %d bytes", p, what, len(in), mode, n)
		}
		c.Outcome(fmt.Sprintf("allocated below 2^%d", bitlen(n)))
	}
	protos := []ref.Proto{ref.BinStrict, ref.CompactP}
	return []engine.Space{
		{Name: "announced sizes", Shards: 2, Serial: true, Bound: "strings, byte strings, lists, sets and maps of 12 element types x announced sizes up to the largest x delivered bytes; Skip, Unmarshal, streaming reads",
			Run: func(c *engine.Ctx, sh int) {
				p := protos[sh]
				kind := c.Choose(5)
				szs := binSizes
				if p == ref.CompactP {
					szs = cmpSizes
				}
				n := engine.Pick(c, szs)
				k := engine.Pick(c, delivered)
				et := byte(ref.Byte)
				if kind >= 2 {
					et = engine.Pick(c, elems)
				}
				if int64(k) >= n || k*10 > int(min(n, 1<<40)) && kind >= 2 {
					return
				}
				t, in := header(p, kind, et, n)
				in = append(in, body(p, kind, et, k)...)
				gt := goElem[et]
				switch kind {
				case 0:
					gt = uni.TypeOf[string]()
				case 1:
					gt = uni.TypeOf[[]byte]()
				case 2:
					gt = reflect.SliceOf(gt)
				case 3:
					gt = reflect.TypeOf(struct {
						A thrift.Set[int32] `thrift:"1"`
					}{}).Field(0).Type
					if et != ref.I32 {
						gt = map[byte]reflect.Type{ref.Bool: uni.TypeOf[thrift.Set[bool]](), ref.String: uni.TypeOf[thrift.Set[string]](), ref.Struct: uni.TypeOf[thrift.Set[uni.Key]](), ref.UUID: uni.TypeOf[thrift.Set[[16]byte]]()}[et]
					}
				case 4:
					gt = reflect.MapOf(uni.TypeOf[int8](), gt)
				}
				what := fmt.Sprintf("kind %d of %d %s", kind, n, ref.TName(et))
				check(c, p, t, nil, in, 0, "Skip of "+what)
				if gt != nil {
					check(c, p, t, gt, in, 1, "Unmarshal of "+what)
				}
				check(c, p, t, nil, in, 2, "streaming read of "+what)
				if kind == 1 {
					check(c, p, t, nil, in, 3, "ReadBytes of "+what)
				}
				c.Logf("%v: %s, %d bytes delivered", p, what, k)
				c.StateOf(sh, what, k)
			}},
		{Name: "nested", Shards: 2, Serial: true, Bound: "up to 200 levels of containers of 4 kinds, each announcing the largest size; and the announcement as a known and an unknown field, as element, key, map value and message name",
			Run: func(c *engine.Ctx, sh int) {
				p := protos[sh]
				szs := binSizes[len(binSizes)-3:]
				if p == ref.CompactP {
					szs = cmpSizes[len(cmpSizes)-5:]
				}
				n := engine.Pick(c, szs)
				switch where := c.Choose(7); where {
				case 0: // lists in lists
					depth := engine.Pick(c, []int{1, 2, 10, 200})
					var in []byte
					for range depth {
						_, h := header(p, 2, ref.List, n)
						in = append(in, h...)
					}
					check(c, p, ref.List, uni.TypeOf[uni.RS](), in, c.Choose(2), fmt.Sprintf("%d nested lists of %d", depth, n))
				case 1: // maps in maps
					depth := engine.Pick(c, []int{1, 2, 10, 200})
					var in []byte
					for range depth {
						_, h := header(p, 4, ref.Map, n)
						in = append(append(in, h...), p.Enc(nil, ref.ByteV(1))...)
					}
					check(c, p, ref.Map, uni.TypeOf[rm8](), in, c.Choose(2), fmt.Sprintf("%d nested maps of %d", depth, n))
				case 2: // sets in structs in sets
					depth := engine.Pick(c, []int{1, 2, 10, 200})
					var in []byte
					for i := range depth {
						_, h := header(p, 3, ref.Struct, n)
						in = append(in, h...)
						if i < depth-1 {
							if p == ref.CompactP {
								in = append(in, 0x1a)
							} else {
								in = append(in, ref.Set, 0, 1)
							}
						}
					}
					check(c, p, ref.Set, uni.TypeOf[thrift.Set[uni.RSet]](), in, c.Choose(2), fmt.Sprintf("%d nested sets of %d", depth, n))
				case 3, 4: // a field, known or unknown
					kind := c.Choose(5)
					et := byte(ref.I32)
					t, h := header(p, kind, et, n)
					var in []byte
					if p == ref.CompactP {
						in = append(in, 0x10|ref.CType(t))
					} else {
						in = append(in, t, 0, 1)
					}
					in = append(in, h...)
					gt := uni.TypeOf[struct{}]()
					if where == 4 {
						ft := []reflect.Type{uni.TypeOf[string](), uni.TypeOf[*[]byte](), uni.TypeOf[[]int32](), uni.TypeOf[thrift.Set[int32]](), uni.TypeOf[*map[int8]int32]()}[kind]
						gt = uni.StructOf(uni.Field{T: ft, ID: 1})
					}
					check(c, p, ref.Struct, gt, in, 1, fmt.Sprintf("field of kind %d and size %d", kind, n))
				case 5: // element of a list, key or value of a map
					kind := c.Choose(2)
					_, h := header(p, kind, 0, n)
					gt := []reflect.Type{uni.TypeOf[string](), uni.TypeOf[[]byte]()}[kind]
					switch c.Choose(3) {
					case 0:
						_, o := header(p, 2, ref.String, 3)
						check(c, p, ref.List, reflect.SliceOf(gt), append(o, h...), c.Choose(3), fmt.Sprintf("list element of size %d", n))
					case 1:
						_, o := header(p, 4, ref.String, 1)
						o = append(p.Enc(o, ref.ByteV(7)), h...)
						check(c, p, ref.Map, reflect.MapOf(uni.TypeOf[int8](), gt), o, c.Choose(2), fmt.Sprintf("map value of size %d", n))
					case 2:
						var o []byte
						if p == ref.CompactP {
							o = []byte{1, 0x83}
						} else {
							o = []byte{ref.String, ref.Byte, 0, 0, 0, 1}
						}
						check(c, p, ref.Map, uni.TypeOf[map[string]int8](), append(o, h...), c.Choose(2), fmt.Sprintf("map key of size %d", n))
					}
				case 6: // a message name, in all three forms
					var in []byte
					pp := p
					switch {
					case p == ref.CompactP:
						in = append([]byte{0x82, 0x21, 5}, ref.UV(nil, uint64(n))...)
					case c.Choose(2) == 0:
						in = []byte{0x80, 1, 0, 1, byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}
					default:
						pp = ref.BinNonStrict
						in = []byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}
					}
					in = append(in, "abcdefg"...)
					var err error
					c.Step()
					got := allocated(func() {
						_, err = uni.Impl(pp).NewReader(bytes.NewReader(in)).ReadMessageBegin()
					})
					if err == nil || got > limit(len(in)) {
						c.Failf("%v: message with a name of %d bytes of which 7 arrive: %d bytes allocated, error %v", pp, n, got, err)
					}
				}
				c.StateOf(sh, n, c.DevsLeft())
			}},
		{Name: "complete values", Shards: 2, Serial: true, Bound: "complete strings, lists and maps of 1 to 2^20 bytes: memory in proportion",
			Run: func(c *engine.Ctx, sh int) {
				p := protos[sh]
				n := engine.Pick(c, []int{10, 1000, 5000, 70000, 1 << 20})
				vs := []ref.V{ref.StrV(pattern(n)), {T: ref.List, ET: ref.Bool}, {T: ref.Map, KT: ref.I32, ET: ref.Bool}, {T: ref.List, ET: ref.String}}
				gts := []reflect.Type{uni.TypeOf[string](), uni.TypeOf[[]bool](), uni.TypeOf[map[int32]bool](), uni.TypeOf[[]string]()}
				k := c.Choose(len(vs))
				v := vs[k]
				for i := range n {
					switch k {
					case 1:
						v.L = append(v.L, ref.BoolV(true))
					case 2:
						if i < n/5 {
							v.L = append(v.L, ref.I32V(int32(i)), ref.BoolV(true))
						}
					case 3:
						if i < n/10 {
							v.L = append(v.L, ref.StrV("element"))
						}
					}
				}
				in := p.Enc(nil, v)
				for mode := range 2 {
					var err error
					got := allocated(func() {
						r := uni.Impl(p).NewReader(bytes.NewReader(in))
						if mode == 0 {
							err = thriftwire.Skip(r, thriftwire.Type(v.T))
						} else {
							err = thrift.Unmarshal(r, reflect.New(gts[k]).Interface())
						}
					})
					c.Step()
					lim := limit(len(in))
					if mode == 0 {
						lim = 600 << 10
					}
					if err != nil || got > lim {
						c.Failf("%v: decoding (mode %d) a value of %d bytes allocates %d bytes, error %v", p, mode, len(in), got, err)
					}
				}
				c.StateOf(sh, n, k)
			}},
	}
}

type rm8 map[int8]rm8

// readFlat reads a container by streaming calls without keeping anything.
func readFlat(r thriftwire.Reader, t byte) (n int, err error) {
	var kt, et thriftwire.Type
	var size int
	switch t {
	case ref.List:
		h, e := r.ReadListBegin()
		et, size, err = h.Element, h.Size, e
	case ref.Set:
		h, e := r.ReadSetBegin()
		et, size, err = h.Element, h.Size, e
	case ref.Map:
		h, e := r.ReadMapBegin()
		kt, et, size, err = h.Key, h.Value, h.Size, e
	}
	if err != nil {
		return 0, err
	}
	for i := 0; i < size; i++ {
		if kt != 0 {
			if err := thriftwire.Skip(r, kt); err != nil {
				return i, err
			}
		}
		if et == thriftwire.String {
			_, err = r.ReadString()
		} else {
			err = thriftwire.Skip(r, et)
		}
		if err != nil {
			return i, err
		}
	}
	return size, nil
}

func bitlen(n uint64) int {
	i := 0
	for ; n > 0; n >>= 1 {
		i++
	}
	return i
}
