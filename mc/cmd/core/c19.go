//go:build go1.23

package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"reflect"
	"strings"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/internal/zzverif/engine"
	"github.com/itstarsun/go-thrift/internal/zzverif/ref"
	"github.com/itstarsun/go-thrift/internal/zzverif/uni"
	"github.com/itstarsun/go-thrift/thrift"
)

func init() {
	register(&engine.Prop{ID: "C19", Level: level,
		Rule:        "an execution writes or reads one or two values and then overwrites every buffer and variable involved",
		Assumptions: []string{"strings that were handed out or in are never written to, as the language demands"},
		Spaces:      c19Spaces})
}

// Rich holds memory of every kind.
type Rich struct {
	Y []byte               `thrift:"1"`
	S string               `thrift:"2"`
	U [16]byte             `thrift:"3"`
	L [][]byte             `thrift:"4"`
	N []int32              `thrift:"5"`
	M map[string][]byte    `thrift:"6"`
	P *[]byte              `thrift:"7"`
	T thrift.Set[string]   `thrift:"8"`
	K map[[16]byte]*string `thrift:"9"`
	R *Rich                `thrift:"10"`
	W []Rich               `thrift:"11"`
	D map[int32][]int16    `thrift:"12"`
	Z uni.NBytes           `thrift:"13"`
	Q []uni.NBytes         `thrift:"14"`
	H []map[string]string  `thrift:"15"`
}

// memRange is memory that a value holds.
type memRange struct {
	lo, hi uintptr
	path   string
}

func memory(v reflect.Value, path string, out []memRange, d int) []memRange {
	if d > 2000 {
		return out
	}
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return out
		}
		out = append(out, memRange{v.Pointer(), v.Pointer() + v.Type().Elem().Size(), "*" + path})
		return memory(v.Elem(), "*"+path, out, d+1)
	case reflect.Slice:
		if v.Cap() == 0 {
			return out
		}
		p := v.Pointer()
		out = append(out, memRange{p, p + uintptr(v.Cap())*v.Type().Elem().Size(), path + "[:]"})
		for i := range v.Len() {
			out = memory(v.Index(i), fmt.Sprintf("%s[%d]", path, i), out, d+1)
		}
	case reflect.Map:
		if v.IsNil() {
			return out
		}
		out = append(out, memRange{v.Pointer(), v.Pointer() + 1, path})
		for it := v.MapRange(); it.Next(); {
			out = memory(it.Key(), path+" key", out, d+1)
			out = memory(it.Value(), fmt.Sprintf("%s[%s]", path, uni.Show(it.Key())), out, d+1)
		}
	case reflect.Struct:
		for i := range v.NumField() {
			out = memory(v.Field(i), path+"."+v.Type().Field(i).Name, out, d+1)
		}
	}
	return out
}

// shared finds memory that is reachable by two paths.
func shared(vs ...reflect.Value) string {
	var rs []memRange
	for i, v := range vs {
		rs = memory(v, fmt.Sprintf("value%d", i+1), rs, 0)
	}
	for i, a := range rs {
		for _, b := range rs[i+1:] {
			if a.lo < b.hi && b.lo < a.hi && a.hi > a.lo && b.hi > b.lo {
				return fmt.Sprintf("%s and %s share memory", a.path, b.path)
			}
		}
	}
	return ""
}

// scribble overwrites everything that v reaches, spare capacity included.
func scribble(v reflect.Value, d int) {
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			scribble(v.Elem(), d+1)
		}
	case reflect.Slice:
		if v.Cap() == 0 {
			return
		}
		for i := range v.Len() {
			scribble(v.Index(i), d+1)
		}
		all := v.Slice(0, v.Cap())
		for i := range all.Len() {
			scribble1(all.Index(i))
		}
	case reflect.Map:
		for it := v.MapRange(); it.Next(); {
			scribble(it.Key(), d+1)
			scribble(it.Value(), d+1)
		}
		if !v.IsNil() {
			v.Clear()
		}
	case reflect.Struct:
		for i := range v.NumField() {
			if v.Field(i).CanInterface() {
				scribble(v.Field(i), d+1)
			}
		}
	}
	if v.CanSet() {
		scribble1(v)
	}
}

func scribble1(v reflect.Value) {
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(!v.Bool())
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(v.Int() ^ 0x5e)
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(v.Uint() ^ 0xee)
	case reflect.Float32, reflect.Float64:
		v.SetFloat(-99)
	case reflect.String:
		v.SetString("scribbled")
	case reflect.Array:
		for i := range v.Len() {
			scribble1(v.Index(i))
		}
	default:
		v.SetZero()
	}
}

// lengths around the sizes of buffers.
var lengths = []int{0, 1, 15, 16, 17, 64, 500, 4080, 4095, 4096, 4097, 5000, 8192, 8200, 20000}

// richOf makes a Rich with byte strings and strings of length n.
func richOf(n, salt int, deep bool) *Rich {
	b := func(k int) []byte { return []byte(pattern(n + 8))[k%8 : k%8+n] }
	dup := func(k int) []byte { return append([]byte{}, b(k)...) }
	s := string(dup(salt))
	y := dup(salt + 1)
	r := &Rich{Y: dup(salt), S: s, U: [16]byte{byte(salt), 1, 15: 9}, L: [][]byte{dup(1), {}, dup(2)}, N: []int32{1, int32(salt), 3},
		M: map[string][]byte{"a": dup(3)}, P: &y, T: thrift.Set[string]{s, "t"}, K: map[[16]byte]*string{{1}: &s}, D: map[int32][]int16{7: {1, 2}},
		Z: dup(4), Q: []uni.NBytes{dup(5), dup(6)}, H: []map[string]string{{"h": s}}}
	if deep {
		r.R = richOf(n, salt+1, false)
		r.W = []Rich{*richOf(min(n, 20), salt+2, false), {}}
	}
	return r
}

// hoard is an input that keeps what it was read into, and can overwrite it:
// a reader may be handed any memory of the caller.
type hoard struct {
	b     []byte
	chunk int
}

func (h *hoard) Read(p []byte) (int, error) {
	if len(h.b) == 0 {
		return 0, io.EOF
	}
	n := copy(p[:min(len(p), h.chunk)], h.b)
	h.b = h.b[n:]
	return n, nil
}

func c19Spaces(th bool) []engine.Space {
	types := uni.Types(th)
	samples := uni.Samples(th)
	np := len(uni.Protos)
	var inputs []reflect.Value
	for i, n := range lengths {
		if th || n <= 5000 {
			inputs = append(inputs, reflect.ValueOf(richOf(n, i, n < 1000)).Elem())
		}
	}
	for _, t := range uni.Named {
		inputs = append(inputs, uni.NonZero(t))
	}
	for _, t := range uni.Sets {
		inputs = append(inputs, uni.NonZero(t))
	}
	for _, s := range []any{
		[][]byte{[]byte("one"), []byte("two"), nil, []byte("three")}, []string{"x", "yy", ""}, map[string]string{"k": "v", "kk": ""}, map[string][]byte{"k": []byte("v"), "l": []byte("w")},
		[]*[]byte{ptr([]byte("p")), ptr([]byte("q"))}, [][][]byte{{[]byte("a"), []byte("b")}, {[]byte("c")}}, []map[string][]byte{{"a": []byte("1")}, {"a": []byte("2")}},
		thrift.Set[[]byte]{[]byte("s"), []byte("t")}, [][16]byte{{1}, {2}}, map[[16]byte][16]byte{{1}: {2}, {3}: {4}}, []*int32{ptr(int32(1)), ptr(int32(1))}, [][]int32{{1, 2}, {}, {3}},
		map[string][]int32{"a": {1}, "b": {2, 3}}, map[int8]*uni.Key{1: {A: 1}, 2: {A: 2}}, []uni.NBytes{[]byte("n"), []byte("m")}, []byte("bytes"), "string", [16]byte{1, 2, 3},
	} {
		inputs = append(inputs, reflect.ValueOf(s))
	}
	chunks := []int{1 << 20, 1, 7}
	later := func(c *engine.Ctx, p ref.Proto, r thriftwire.Reader, in []byte, k int, check func(what string)) {
		// What may happen to the reader, its buffer and its input afterwards.
		switch k {
		case 0:
			for i := range in {
				in[i] ^= 0xee
			}
			check("overwriting the input")
		case 1:
			c.Step()
			if v, err := uni.ReadV(r, ref.String); err != nil || v.S != junk {
				c.Failf("%v: the string that follows is read as %s, %v", p, v, err)
			}
			check("reading what follows")
		case 2:
			c.Step()
			r.Reset(strings.NewReader(junk + junk))
			_, _ = r.ReadI64()
			check("Reset and one read")
			for range 300 {
				if _, err := r.ReadUUID(new([16]byte)), error(nil); err != nil {
					break
				}
			}
			check("Reset and many reads")
		case 3:
			_ = r.SkipString()
			check("skipping what follows")
		}
	}
	return []engine.Space{
		{Name: "marshal changes nothing", Shards: len(types), Bound: fmt.Sprintf("%d types with generated values and spare capacity, by value and by pointer", len(types)),
			Run: func(c *engine.Ctx, sh int) {
				lvl := 1
				if th {
					lvl = 0
				}
				v := uni.Gen(c, types[sh], lvl)
				v = uni.WithSpare(v, 2)
				v2 := reflect.New(v.Type())
				v2.Elem().Set(v)
				before := uni.Clone(v)
				m := memory(v2.Elem(), "v", nil, 0)
				spare := uni.Show(spareOf(v2.Elem()))
				p := uni.Protos[c.Choose(2)*2]
				in := v2.Interface()
				if c.Choose(2) == 1 && v.Kind() != reflect.Pointer {
					in = v2.Elem().Interface()
				}
				c.Step()
				w := uni.Impl(p).NewWriter(io.Discard)
				if err := thrift.Marshal(w, in); err != nil {
					c.Failf("%v: Marshal(%v): %v", p, v.Type(), err)
				}
				_ = w.Flush()
				if !uni.Eq(before, v2.Elem()) || fmt.Sprint(m) != fmt.Sprint(memory(v2.Elem(), "v", nil, 0)) && !hasMapKind(v.Type()) {
					c.Failf("%v: Marshal changes %s to %s", p, uni.Show(before), uni.Show(v2.Elem()))
				}
				if s := uni.Show(spareOf(v2.Elem())); s != spare {
					c.Failf("%v: Marshal of %s changes what is beyond the length of a slice: %s, was %s", p, uni.Show(before), s, spare)
				}
				c.StateOf(sh, uni.Show(before))
			}},
		{Name: "marshal then scribble", Shards: len(inputs) * np, Bound: fmt.Sprintf("%d values with every kind of memory, one or two of them, overwritten between Marshal and Flush", len(inputs)),
			Run: func(c *engine.Ctx, sh int) {
				p := uni.Protos[sh%np]
				v := uni.Clone(inputs[sh/np])
				var buf bytes.Buffer
				w := uni.Impl(p).NewWriter(&buf)
				var want, ts []byte
				lead := []int{0, 100, 4090, 4096}[c.Choose(4)]
				if lead > 0 {
					s := pattern(lead)
					must(c, w.WriteString(s), "WriteString")
					want = p.Enc(want, ref.StrV(s))
					ts = append(ts, ref.String)
				}
				one := func(v reflect.Value) {
					pv := reflect.New(v.Type())
					pv.Elem().Set(v)
					c.Step()
					wv := uni.FromGo(pv.Elem())
					ts = append(ts, wv.T)
					if err := thrift.Marshal(w, pv.Interface()); err != nil {
						c.Failf("%v: Marshal(%v): %v", p, v.Type(), err)
					}
					want = p.Enc(want, wv)
					scribble(pv.Elem(), 0)
				}
				one(v)
				if n := c.Choose(3); n > 0 {
					one(uni.Clone(inputs[[]int{0, 5}[n-1]]))
				}
				must(c, w.Flush(), "Flush")
				if !sameUpToMaps(p, buf.Bytes(), want, ts) {
					c.Failf("%v: %v overwritten between Marshal and Flush: at byte %d of %d the output differs", p, v.Type(), diffAt(buf.Bytes(), want), len(want))
				}
				c.StateOf(sh, lead)
			}},
		{Name: "write then scribble", Shards: len(lengths) * np, Bound: fmt.Sprintf("three writes of byte strings of %d lengths or UUIDs from one buffer that is overwritten after every write", len(lengths)),
			Run: func(c *engine.Ctx, sh int) {
				p := uni.Protos[sh%np]
				var out bytes.Buffer
				w := uni.Impl(p).NewWriter(&out)
				var want []byte
				shared := make([]byte, 20000)
				for i := range 3 {
					n := lengths[sh/np]
					if i > 0 {
						k := c.Choose(len(lengths) + 1)
						if k == 0 {
							u := [16]byte{1, byte(i), 15: 7}
							c.Step()
							must(c, w.WriteUUID(&u), "WriteUUID")
							want = p.Enc(want, ref.UUIDV(string(u[:])))
							scribbleUUID(&u)
							continue
						}
						n = lengths[k-1]
					}
					b := shared[:n]
					copy(b, pattern(n + i)[i:])
					c.Step()
					must(c, w.WriteBytes(b), "WriteBytes")
					want = p.Enc(want, ref.StrV(string(b)))
					for j := range shared {
						shared[j] = 0xee
					}
				}
				must(c, w.Flush(), "Flush")
				if !bytes.Equal(out.Bytes(), want) {
					c.Failf("%v: bytes overwritten after WriteBytes returned: the output differs at %d of %d", p, diffAt(out.Bytes(), want), len(want))
				}
				c.StateOf(sh, len(want))
			}},
		{Name: "streaming results", Shards: len(lengths) * np, Bound: "strings, byte strings and message names of boundary lengths read by the streaming API x 3 chunkings x 3 kinds of input x what comes later",
			Run: func(c *engine.Ctx, sh int) {
				p, n := uni.Protos[sh%np], lengths[sh/np]
				s := pattern(n)
				in := []byte{}
				what := c.Choose(4)
				lead := []int{0, 1, 4000}[c.Choose(3)]
				in = p.Enc(in, ref.StrV(pattern(lead)))
				if what == 2 {
					in = p.EncMsg(in, ref.Msg{Name: s, Type: 1, ID: 3})
				} else {
					in = p.Enc(in, ref.StrV(s))
				}
				in = p.Enc(in, ref.StrV(junk))
				in = append(in, junk...)
				var src io.Reader
				if k := c.Choose(5); k < 3 {
					src = &hoard{b: in, chunk: chunks[k]}
				} else if k == 3 {
					src = bytes.NewReader(in)
				} else {
					src = bufio.NewReaderSize(bytes.NewReader(in), 5000)
				}
				r := uni.Impl(p).NewReader(src)
				c.Step()
				first, err := r.ReadString()
				must(c, err, "ReadString")
				var got string
				var gotB []byte
				pre := 0
				switch what {
				case 0:
					got, err = r.ReadString()
				case 1:
					gotB, err = r.ReadBytes(nil)
				case 2:
					var h thriftwire.MessageHeader
					h, err = r.ReadMessageBegin()
					got = h.Name
				case 3:
					pre = 3
					gotB, err = r.ReadBytes([]byte{1, 2, 3})
				}
				must(c, err, "%v: reading %d bytes", p, n)
				check := func(after string) {
					if what == 0 || what == 2 {
						if got != s {
							c.Failf("%v: a string of %d bytes has changed after %s (at %d)", p, n, after, diffAt([]byte(got), []byte(s)))
						}
					} else if string(gotB[pre:]) != s || pre > 0 && !bytes.Equal(gotB[:3], []byte{1, 2, 3}) {
						c.Failf("%v: a byte string of %d bytes has changed after %s (at %d)", p, n, after, diffAt(gotB[pre:], []byte(s)))
					}
					if first != pattern(lead) {
						c.Failf("%v: the string of %d bytes read first has changed after %s", p, lead, after)
					}
				}
				check("reading it")
				k := c.Choose(4)
				later(c, p, r, in, k, check)
				if gotB != nil { // the caller may do with it what it likes
					full := gotB[:cap(gotB)]
					for i := range full {
						full[i] = 0xdd
					}
					copy(gotB[pre:], s)
					copy(gotB, []byte{1, 2, 3}[:pre])
					if k == 3 {
						later(c, p, r, in, 2, check)
					}
				}
				c.StateOf(sh, what, lead, k)
			}},
		{Name: "byte strings of the caller", Shards: len(lengths) * np, Bound: "what the caller does with the capacity of a byte string it got does not reach the reader",
			Run: func(c *engine.Ctx, sh int) {
				p, n := uni.Protos[sh%np], lengths[sh/np]
				n2 := engine.Pick(c, lengths)
				in := p.Enc(p.Enc(p.Enc(nil, ref.StrV(pattern(n))), ref.StrV(pattern(n2))), ref.I64V(sentinel))
				r := uni.Impl(p).NewReader(&hoard{b: append([]byte{}, in...), chunk: chunks[c.Choose(3)]})
				c.Step()
				b, err := r.ReadBytes(nil)
				must(c, err, "ReadBytes")
				full := b[:cap(b)]
				for i := range full {
					full[i] = 0xdd
				}
				v, err := uni.ReadV(r, ref.String)
				if err != nil || v.S != pattern(n2) {
					c.Failf("%v: after the caller overwrote a byte string of %d bytes it got, the next string of %d bytes is read as %s, %v", p, n, n2, uni.Hex([]byte(v.S)), err)
				}
				if x, err := r.ReadI64(); err != nil || x != sentinel {
					c.Failf("%v: after the caller overwrote a byte string of %d bytes it got, the integer after is read as %x, %v", p, n, x, err)
				}
				c.StateOf(sh, n2)
			}},
		{Name: "unmarshal results", Shards: len(inputs) * np, Bound: fmt.Sprintf("%d values with every kind of memory x 3 chunkings x what comes later; a second value of the same type after the first; no memory shared within or between them", len(inputs)),
			Run: func(c *engine.Ctx, sh int) {
				p, v := uni.Protos[sh%np], inputs[sh/np]
				t := v.Type()
				wv := uni.FromGo(v)
				in := p.Enc(p.Enc(p.Enc(nil, wv), wv), ref.StrV(junk))
				in = append(in, junk...)
				var src io.Reader = &hoard{b: in, chunk: chunks[c.Choose(3)]}
				if c.Choose(2) == 1 {
					src = bufio.NewReaderSize(src, 5000)
				}
				r := uni.Impl(p).NewReader(src)
				o1, o2 := reflect.New(t), reflect.New(t)
				c.Step()
				if err := thrift.Unmarshal(r, o1.Interface()); err != nil {
					c.Failf("%v: Unmarshal(%v): %v", p, t, err)
				}
				want := reflect.New(t)
				_ = uni.IntoGo(wv, want.Elem())
				check := func(after string) {
					if !uni.EqWire(o1.Elem(), want.Elem()) && !bytes.Equal(p.Enc(nil, ref.Canon(uni.FromGo(o1.Elem()))), p.Enc(nil, ref.Canon(wv))) {
						c.Failf("%v: a %v has changed after %s: %s, was %s", p, t, after, uni.Show(o1.Elem()), uni.Show(want.Elem()))
					}
				}
				check("decoding it")
				c.Step()
				if err := thrift.Unmarshal(r, o2.Interface()); err != nil {
					c.Failf("%v: Unmarshal(%v) again: %v", p, t, err)
				}
				check("decoding another one")
				if s := shared(o1, o2); s != "" {
					c.Failf("%v: after two Unmarshals of %s, %s", p, uni.Show(v), s)
				}
				k := c.Choose(5)
				if k == 4 {
					scribble(o2.Elem(), 0)
					check("overwriting the second one")
				} else {
					later(c, p, r, in, k, check)
				}
				c.StateOf(sh, k)
			}},
		{Name: "samples", Shards: len(samples) * np, Bound: fmt.Sprintf("%d wire values read by the streaming API, then any other sample, then the input overwritten", len(samples)),
			Run: func(c *engine.Ctx, sh int) {
				p, v := uni.Protos[sh%np], samples[sh/np]
				v2 := engine.Pick(c, samples)
				in := p.Enc(p.Enc(nil, v), v2)
				r := uni.Impl(p).NewReader(&hoard{b: in, chunk: chunks[c.Choose(3)]})
				c.Steps(2)
				g1, err := uni.ReadV(r, v.T)
				must(c, err, "%v: reading %v", p, v)
				g2, err := uni.ReadV(r, v2.T)
				must(c, err, "%v: reading %v", p, v2)
				for i := range in {
					in[i] = 0xee
				}
				r.Reset(strings.NewReader(junk))
				_, _ = r.ReadBool()
				for _, x := range [][2]ref.V{{g1, v}, {g2, v2}} {
					if !bytes.Equal(p.Enc(nil, x[0]), p.Enc(nil, x[1])) {
						c.Failf("%v: %v has become %v", p, x[1], x[0])
					}
				}
				c.StateOf(sh, v2.String())
			}},
	}
}

const junkN = 5003

var junk = strings.Repeat("\x5a", junkN)

func scribbleUUID(u *[16]byte) {
	for i := range u {
		u[i] = 0xee
	}
}

// spareOf collects what lies beyond the length of slices.
func spareOf(v reflect.Value) reflect.Value {
	var out []string
	var walk func(v reflect.Value, d int)
	walk = func(v reflect.Value, d int) {
		if d > 10 {
			return
		}
		switch v.Kind() {
		case reflect.Pointer:
			if !v.IsNil() {
				walk(v.Elem(), d+1)
			}
		case reflect.Slice:
			if v.Cap() > v.Len() {
				full := v.Slice(0, v.Cap())
				for i := v.Len(); i < v.Cap(); i++ {
					out = append(out, ref.Canon(uni.FromGo(full.Index(i))).String())
				}
			}
			for i := range v.Len() {
				walk(v.Index(i), d+1)
			}
		case reflect.Struct:
			for i := range v.NumField() {
				walk(v.Field(i), d+1)
			}
		}
	}
	walk(v, 0)
	return reflect.ValueOf(out)
}

func hasMapKind(t reflect.Type) bool {
	return strings.Contains(t.String(), "map[") || t.Kind() == reflect.Struct
}

// sameUpToMaps compares output with the expected encoding of values of the
// types ts; entries of maps may come in any order.
func sameUpToMaps(p ref.Proto, got, want []byte, ts []byte) bool {
	if bytes.Equal(got, want) {
		return true
	}
	a, b := ref.Dec{P: p, B: got}, ref.Dec{P: p, B: want}
	for _, t := range ts {
		x, err := a.Value(t)
		y, err2 := b.Value(t)
		if err != nil || err2 != nil || !bytes.Equal(p.Enc(nil, ref.Canon(x)), p.Enc(nil, ref.Canon(y))) {
			return false
		}
	}
	return a.Off == len(got) && b.Off == len(want)
}
