//go:build go1.23

package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"reflect"
	"sort"
	"strings"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/internal/zzverif/engine"
	"github.com/itstarsun/go-thrift/internal/zzverif/idl"
	"github.com/itstarsun/go-thrift/internal/zzverif/ref"
	"github.com/itstarsun/go-thrift/internal/zzverif/uni"
	"github.com/itstarsun/go-thrift/thrift"
)

// This file holds the spaces of values that are much deeper or wider than
// the generators make them: an implementation may behave differently from
// some depth, number of fields or number of elements on.

// DS, DL, DT, DM and Deep nest.
type (
	DS struct {
		A    bool  `thrift:"1,required"`
		Back int8  `thrift:"5"`
		Next *DS   `thrift:"20"`
		C    int32 `thrift:"21"`
		D    bool  `thrift:"40,required"`
	}
	DL   []DL
	DM   map[int8]DM
	Deep struct {
		A bool             `thrift:"1,required"`
		N *Deep            `thrift:"2"`
		L []*Deep          `thrift:"3"`
		S thrift.Set[Deep] `thrift:"18"`
		M map[string]*Deep `thrift:"19"`
		Z int64            `thrift:"20"`
		B bool             `thrift:"21,required"`
		P [][]Deep         `thrift:"300"`
		Y string           `thrift:"301"`
	}
)

var deepNames = []string{"structs", "lists", "maps", "mixed", "mixed backwards"}

// deepGo makes a value nested n deep, with something after every nested value.
func deepGo(kind, n int) reflect.Value {
	switch kind {
	case 0:
		v := &DS{A: true, C: 7}
		for i := range n {
			v = &DS{A: i%2 == 0, Back: int8(i % 5), Next: v, C: int32(i), D: i%3 == 0}
		}
		return reflect.ValueOf(*v)
	case 1:
		v := DL{}
		for i := range n {
			if i%2 == 0 {
				v = DL{v, {}}
			} else {
				v = DL{{{}}, v}
			}
		}
		return reflect.ValueOf(v)
	case 2:
		v := DM{}
		for i := range n {
			v = DM{int8(i%7 + 1): v}
		}
		return reflect.ValueOf(v)
	}
	v := Deep{A: true, Z: 1}
	for i := range n {
		k := i % 5
		if kind == 4 {
			k = 4 - k
		}
		w := v
		v = Deep{A: i%2 == 1, B: i%3 == 1, Z: int64(i), Y: fmt.Sprint("y", i)}
		switch k {
		case 0:
			v.N = &w
		case 1:
			v.L = []*Deep{{Z: 2}, &w, {B: true}}
		case 2:
			v.S = thrift.Set[Deep]{w, {Y: "s"}}
		case 3:
			v.M = map[string]*Deep{"key": &w}
		case 4:
			v.P = [][]Deep{{{A: true}, w}, {}, {{Z: 3}}}
		}
	}
	return reflect.ValueOf(v)
}

var wideTypes = []reflect.Type{
	uni.TypeOf[int32](), uni.TypeOf[bool](), uni.TypeOf[string](), uni.TypeOf[int8](), uni.TypeOf[*int64](), uni.TypeOf[[]bool](), uni.TypeOf[float64](), uni.TypeOf[[16]byte](),
	uni.TypeOf[map[int8]int16](), uni.TypeOf[uni.Key](), uni.TypeOf[thrift.Set[string]](), uni.TypeOf[[]byte](), uni.TypeOf[*uni.Key](), uni.TypeOf[int16](),
}

var wideNames = []string{"IDs from 1", "IDs in steps of 16", "IDs down from -1", "IDs around 0", "IDs from 1 in reverse order", "two runs of IDs"}

// wideID is the ID of the i-th of n fields.
func wideID(layout, i, n int) int {
	switch layout {
	case 1:
		return 16*i + 1
	case 2:
		return -1 - i
	case 3:
		return i - n/2
	case 4:
		return n - i
	case 5:
		if i < n/2 {
			return i + 1
		}
		return i + 20000
	}
	return i + 1
}

// wideGo makes a struct of n fields, all set except every seventh.
func wideGo(layout, n int) reflect.Value {
	fs := make([]uni.Field, n)
	for i := range n {
		fs[i] = uni.Field{T: wideTypes[(i+layout)%len(wideTypes)], ID: wideID(layout, i, n)}
	}
	v := reflect.New(uni.StructOf(fs...)).Elem()
	for i := range n {
		if i%7 == 5 {
			continue
		}
		f := v.Field(i)
		f.Set(uni.NonZero(f.Type()))
		switch f.Kind() {
		case reflect.Int32, reflect.Int16:
			f.SetInt(int64(i*91 + 1))
		case reflect.String:
			f.SetString(fmt.Sprint("field ", i))
		case reflect.Map: // one entry: the bytes do not depend on the order
			f.Set(reflect.ValueOf(map[int8]int16{int8(i): int16(i)}))
		}
	}
	return v
}

func toInput(v reflect.Value) goInput { return goInput{v.Type(), uni.FromGo(v)} }

var (
	scaleDepths = func() (ds []int) {
		for i := 1; i <= 72; i++ {
			ds = append(ds, i)
		}
		return append(ds, 99, 100, 101, 126, 127, 128, 129, 130, 199, 200, 201, 254, 255, 256, 257, 258, 299, 300, 301, 499, 500, 501, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025)
	}()
	scaleWidths = func() (ws []int) {
		for i := 1; i <= 72; i++ {
			ws = append(ws, i)
		}
		return append(ws, 99, 100, 101, 126, 127, 128, 129, 130, 199, 200, 201, 254, 255, 256, 257, 258, 300, 511, 512, 513, 700, 1000, 1024, 1025)
	}()
	someDepths = []int{3, 9, 17, 33, 65, 130, 300}
	someWidths = []int{9, 17, 33, 65, 130, 300}
)

// scaled runs f on every deep and every wide value.
func scaled(name, bound string, ps []ref.Proto, depths, widths []int, f func(c *engine.Ctx, p ref.Proto, what string, gi goInput, v reflect.Value)) engine.Space {
	np := len(ps)
	return engine.Space{Name: name, Shards: np * (len(deepNames) + len(wideNames)),
		Bound: fmt.Sprintf("%d ways of nesting %d to %d deep (%d depths), %d layouts of %d to %d fields (%d numbers): %s", len(deepNames), depths[0], depths[len(depths)-1], len(depths), len(wideNames), widths[0], widths[len(widths)-1], len(widths), bound),
		Run: func(c *engine.Ctx, sh int) {
			p, k := ps[sh%np], sh/np
			var v reflect.Value
			var what string
			if k < len(deepNames) {
				n := engine.Pick(c, depths)
				if k >= 3 && n > 520 {
					return
				}
				v, what = deepGo(k, n), fmt.Sprintf("%s %d deep", deepNames[k], n)
			} else {
				n := engine.Pick(c, widths)
				k -= len(deepNames)
				v, what = wideGo(k, n), fmt.Sprintf("%d fields, %s", n, wideNames[k])
			}
			c.Logf("%v: %s", p, what)
			f(c, p, what, toInput(v), v)
			c.StateOf(p, what)
		}}
}

// abandonAt reads or writes with the first n operations only.
func opsLimit(n int) func(string) error {
	return func(string) error {
		if n == 0 {
			return errStop
		}
		n--
		return nil
	}
}

func init() {
	extend("C01", func(bool) []engine.Space {
		return []engine.Space{
			scaled("deep and wide", "round trip", uni.Protos, scaleDepths, scaleWidths, func(c *engine.Ctx, p ref.Proto, what string, gi goInput, v reflect.Value) {
				roundTrip(c, p, v, false)
			}),
			{Name: "NaN keys", Shards: 3, Bound: "maps with 0 to 5 NaN keys of two bit patterns among 0 to 3 other keys", Run: func(c *engine.Ctx, sh int) {
				p := uni.Protos[sh]
				m := map[float64]string{}
				want := map[string]int{}
				add := func(k float64, v string) {
					m[k] = v
					want[fmt.Sprintf("%016x %s", math.Float64bits(k), v)]++
				}
				nan := c.Choose(6)
				for i := range nan {
					add(math.Float64frombits(0x7ff8000000000001+uint64(c.Choose(2))), fmt.Sprint("nan", i))
				}
				n := c.Choose(4)
				for i := range n {
					add(float64(i), fmt.Sprint("v", i))
				}
				got := map[string]int{}
				out := unmarshal(c, p, reflect.TypeOf(m), marshal(c, p, reflect.ValueOf(m), false)).Interface().(map[float64]string)
				for k, v := range out {
					got[fmt.Sprintf("%016x %s", math.Float64bits(k), v)]++
				}
				if !reflect.DeepEqual(got, want) {
					c.Failf("%v: a map with %d NaN and %d other keys comes back as %v, want %v", p, nan, n, got, want)
				}
				c.StateOf(sh, fmt.Sprint(want))
			}},
		}
	})
	for _, x := range []struct {
		id string
		ps []ref.Proto
	}{{"C02", []ref.Proto{ref.BinStrict, ref.BinNonStrict}}, {"C03", []ref.Proto{ref.CompactP}}} {
		extend(x.id, func(th bool) []engine.Space {
			big := []int{1<<24 - 1, 1 << 24, 1<<24 + 1}
			if th {
				big = append(big, 1<<28-1, 1<<28, 1<<28+1)
			}
			return []engine.Space{
				scaled("deep and wide", "streaming and Marshal, bytes and values as the specification says", x.ps, scaleDepths, scaleWidths, func(c *engine.Ctx, p ref.Proto, what string, gi goInput, v reflect.Value) {
					checkBytes(c, p, gi.v)
					b := marshal(c, p, v, true)
					if got := ref.Canon(canonDecode(c, p, gi.v.T, b)); !ref.Equal(got, gi.v, true) {
						c.Failf("%v: %s: Marshal wrote %s, which means %v, not %v", p, what, uni.Hex(b), got, gi.v)
					}
				}),
				{Name: "huge strings", Shards: len(x.ps), Serial: th, Bound: fmt.Sprintf("strings of %v bytes", big), Run: func(c *engine.Ctx, sh int) {
					n := engine.Pick(c, big)
					checkBytes(c, x.ps[sh], ref.StrV(string(make([]byte, n))))
					c.StateOf(sh, n)
				}},
			}
		})
	}
	extend("C05", func(bool) []engine.Space {
		return []engine.Space{
			scaled("deep and wide", "skipped whole and byte by byte, and as an unknown field between known ones", uni.Protos, scaleDepths, scaleWidths, func(c *engine.Ctx, p ref.Proto, what string, gi goInput, v reflect.Value) {
				b := p.Enc(nil, gi.v)
				in := p.Enc(append([]byte(nil), b...), ref.I32V(sentinel))
				for k := range 2 {
					r := uni.Impl(p).NewReader(&uni.Feed{B: in, Chunk: k})
					c.Step()
					if err := thriftwire.Skip(r, thriftwire.Type(gi.v.T)); err != nil {
						c.Failf("%v: Skip of %s (%s): %v", p, what, uni.Hex(b), err)
					}
					expectSentinel(c, p, r, b)
				}
				w := ref.StructV(ref.F(2, ref.BoolV(true)), ref.F(6, gi.v), ref.F(9, ref.StrV("nine")), ref.F(10, ref.ListV(gi.v.T, gi.v, gi.v)), ref.F(20, ref.ListV(ref.Bool, ref.BoolV(true))))
				got := unmarshal(c, p, uni.TypeOf[Known](), p.Enc(nil, w)).Interface().(Known)
				if !reflect.DeepEqual(got, Known{A: true, C: "nine", D: []bool{true}}) {
					c.Failf("%v: with %s as unknown fields, the known fields are decoded as %+v", p, what, got)
				}
			}),
			{Name: "unknown among many", Shards: 3 * len(wideNames), Bound: fmt.Sprintf("structs of %v fields: unknown fields before, between and after all of them; and one known field among all those of the input", scaleWidths), Run: func(c *engine.Ctx, sh int) {
				p, lay := uni.Protos[sh%3], sh/3
				n := engine.Pick(c, scaleWidths)
				v := wideGo(lay, n)
				wv := uni.FromGo(v)
				w := ref.V{T: ref.Struct}
				for i, f := range wv.F {
					w.F = append(w.F, ref.F(int16(-20000-i), smallest(ref.All[i%len(ref.All)])), f)
				}
				w.F = append(w.F, ref.F(-20001, ref.BoolV(true)))
				if got := unmarshal(c, p, v.Type(), p.Enc(nil, w)); !uni.Eq(got, v) {
					c.Failf("%v: %d fields, %s, an unknown field before each: decoded as %s, want %s", p, n, wideNames[lay], uni.Show(got), uni.Show(v))
				}
				b := p.Enc(nil, wv)
				for _, i := range []int{0, n / 2, n - 1} {
					one := uni.StructOf(uni.Field{T: v.Field(i).Type(), ID: wideID(lay, i, n)})
					got := unmarshal(c, p, one, b)
					if !uni.Eq(got.Field(0), v.Field(i)) {
						c.Failf("%v: %d fields, %s: the field %d alone is decoded as %s, want %s", p, n, wideNames[lay], wideID(lay, i, n), uni.Show(got.Field(0)), uni.Show(v.Field(i)))
					}
				}
				c.StateOf(sh, n)
			}},
		}
	})
	extend("C06", func(bool) []engine.Space {
		return []engine.Space{scaled("deep and wide", "in chunks of 1, 2, 3, 7, 64, 1000 and 4096 bytes, with empty reads between", uni.Protos, someDepths, someWidths, func(c *engine.Ctx, p ref.Proto, what string, gi goInput, v reflect.Value) {
			every := engine.Pick(c, []int{1, 2, 3, 7, 64, 1000, 4096})
			b := p.Enc(nil, gi.v)
			for mode := range decodeModes {
				checkDelivery(c, p, gi, b, mode, &chunked{b: b, every: every, zeros: every % 3, withLast: every%2 == 1})
			}
			c.StateOf(p, what, every)
		})}
	})
	extend("C07", func(bool) []engine.Space {
		return []engine.Space{scaled("deep and wide", "the end of the input or an error at 90 offsets", uni.Protos, someDepths, someWidths, func(c *engine.Ctx, p ref.Proto, what string, gi goInput, v reflect.Value) {
			b := p.Enc(nil, gi.v)
			for i := range 90 {
				k := i
				switch {
				case i >= 60:
					k = len(b) - (i - 59)
				case i >= 20:
					k = len(b) * (i - 20) / 40
				}
				if k < 0 || k >= len(b) {
					continue
				}
				for mode := range decodeModes {
					for _, cause := range []error{nil, errCause} {
						c.Step()
						got, err := decodeBy(mode, p, uni.Impl(p).NewReader(&uni.Feed{B: b[:k], Err: cause, WithLast: i%2 == 0}), gi)
						if err == nil {
							c.Failf("%v: %s of %s cut after %d of %d bytes (then %v) succeeds: %s", p, modeNames[mode], what, k, len(b), cause, got)
						}
						if cause != nil && !errors.Is(err, cause) || cause == nil && !errors.Is(err, io.EOF) && !errors.Is(err, io.ErrUnexpectedEOF) {
							c.Failf("%v: %s of %s cut after %d of %d bytes: the error %q does not wrap %v", p, modeNames[mode], what, k, len(b), err, cause)
						}
					}
				}
			}
		})}
	})
	extend("C08", func(bool) []engine.Space {
		return []engine.Space{
			scaled("deep and wide", "delivered whole by one Flush; a sink that fails at 12 offsets is reported", uni.Protos, someDepths, someWidths, func(c *engine.Ctx, p ref.Proto, what string, gi goInput, v reflect.Value) {
				want := p.Enc(nil, gi.v)
				for i := -1; i <= 12; i++ {
					fs := &flushSink{sink{limit: -1, err: errCause}}
					if i >= 0 {
						fs.limit = (len(want) - 1) * i / 12
					}
					tw := uni.Impl(p).NewWriter(fs)
					c.Step()
					werr := thrift.Marshal(tw, v.Interface())
					ferr := tw.Flush()
					switch {
					case i < 0 && (werr != nil || ferr != nil || !bytes.Equal(fs.got, want) || fs.flushed != 1 || fs.flushAt != len(want)):
						c.Failf("%v: %s: %v, %v, %d bytes delivered of %d (first difference at %d), %d flushes", p, what, werr, ferr, len(fs.got), len(want), diffAt(fs.got, want), fs.flushed)
					case i >= 0 && (ferr == nil || !errors.Is(ferr, errCause) || werr != nil && !errors.Is(werr, errCause)):
						c.Failf("%v: %s to a sink that fails after %d of %d bytes: %v, %v", p, what, fs.limit, len(want), werr, ferr)
					case i >= 0 && !bytes.HasPrefix(want, fs.got):
						c.Failf("%v: %s: the sink holds %s, not a prefix of %s", p, what, uni.Hex(fs.got), uni.Hex(want))
					}
				}
			}),
			{Name: "many flushes", Shards: 3 * 3, Bound: "1000 values on one writer, flushed after each, after every 7th or only at the end; every flush delivers everything written before it", Run: func(c *engine.Ctx, sh int) {
				p, how := uni.Protos[sh%3], sh/3
				fs := &flushSink{sink{limit: -1}}
				tw := uni.Impl(p).NewWriter(fs)
				var want []byte
				flushes := 0
				samples := uni.Samples(true)
				start := c.Choose(len(samples))
				for i := range 1000 {
					v := samples[(start+i)%len(samples)]
					c.Step()
					must(c, uni.WriteV(tw, v), "write")
					want = p.Enc(want, v)
					if how == 0 || how == 1 && i%7 == 6 || i == 999 {
						must(c, tw.Flush(), "flush")
						if flushes++; !bytes.Equal(fs.got, want) || fs.flushed != flushes {
							c.Failf("%v: after value %d and flush %d: %d bytes delivered, want %d (first difference at %d), %d flushes of the sink", p, i, flushes, len(fs.got), len(want), diffAt(fs.got, want), fs.flushed)
						}
					} else if !bytes.HasPrefix(want, fs.got) {
						c.Failf("%v: after value %d the sink holds other bytes than those written", p, i)
					}
				}
				c.StateOf(sh, start)
			}},
		}
	})
	extend("C13", func(bool) []engine.Space {
		return []engine.Space{scaled("deep and wide", "into a zero value, into itself, and into one that is shallower, deeper or has the other fields set", uni.Protos, someDepths, someWidths, func(c *engine.Ctx, p ref.Proto, what string, gi goInput, v reflect.Value) {
			init := reflect.New(gi.t).Elem()
			switch c.Choose(4) {
			case 1:
				init = uni.Clone(v)
			case 2:
				switch gi.t {
				case uni.TypeOf[DS]():
					init = deepGo(0, 10)
				case uni.TypeOf[DL]():
					init = deepGo(1, 10)
				case uni.TypeOf[DM]():
					init = deepGo(2, 10)
				case uni.TypeOf[Deep]():
					init = deepGo(4, 12)
				default:
					init = uni.NonZero(gi.t)
				}
			case 3:
				switch gi.t {
				case uni.TypeOf[DS]():
					init = deepGo(0, 400)
				case uni.TypeOf[DL]():
					init = deepGo(1, 400)
				case uni.TypeOf[DM]():
					init = deepGo(2, 400)
				case uni.TypeOf[Deep]():
					init = deepGo(3, 310)
				default:
					init.Field(0).Set(uni.NonZero(init.Field(0).Type()))
				}
			}
			dst, want := reflect.New(gi.t), reflect.New(gi.t)
			dst.Elem().Set(init)
			want.Elem().Set(uni.Clone(init))
			if err := uni.IntoGo(gi.v, want.Elem()); err != nil {
				panic("engine: " + err.Error())
			}
			c.Step()
			must(c, thrift.Unmarshal(uni.Impl(p).NewReader(bytes.NewReader(p.Enc(nil, gi.v))), dst.Interface()), "%v: %s", p, what)
			if !uni.Eq(dst.Elem(), want.Elem()) {
				c.Failf("%v: Unmarshal of %s gives %s, want %s", p, what, uni.Show(dst.Elem()), uni.Show(want.Elem()))
			}
		})}
	})
	extend("C14", func(th bool) []engine.Space {
		rp, wp := readProbes(th), writeProbes(th)
		return []engine.Space{scaled("deep and wide", "abandoned after 14 numbers of operations, reset, and used for a probe and for the value itself", uni.Protos, someDepths, someWidths, func(c *engine.Ctx, p ref.Proto, what string, gi goInput, v reflect.Value) {
			b := p.Enc(nil, gi.v)
			nops := 0
			_, err := uni.ReadV(&uni.TapR{R: uni.Impl(p).NewReader(bytes.NewReader(b)), Before: func(string) error { nops++; return nil }}, gi.v.T)
			must(c, err, "%v: reading %s", p, what)
			k := c.Choose(14)
			stop := []int{0, 1, 2, 3, nops / 8, nops / 4, nops / 3, nops/2 - 1, nops / 2, nops/2 + 1, nops * 3 / 4, nops - 2, nops - 1, nops}[k]
			r := uni.Impl(p).NewReader(bytes.NewReader(b))
			_, _ = uni.ReadV(&uni.TapR{R: r, Before: opsLimit(stop)}, gi.v.T)
			var out bytes.Buffer
			w := uni.Impl(p).NewWriter(&out)
			limit := opsLimit(stop)
			_ = uni.WriteV(&uni.TapW{W: w, Before: func(op string, _ any) error { return limit(op) }}, gi.v)
			checkW(c, p, w, 0, wp[(k*5+stop)%len(wp)])
			pr := rp[(k*5+stop)%len(rp)]
			in := pr.in(p)
			c.Steps(4)
			r.Reset(bytes.NewReader(in))
			got := pr.run(r)
			if want := pr.run(uni.Impl(p).NewReader(bytes.NewReader(in))); got != want {
				c.Failf("%v: %s after %d of %d operations of %s and Reset: %s; a new reader: %s", p, pr.name, stop, nops, what, got, want)
			}
			r.Reset(bytes.NewReader(b))
			if got, err := uni.ReadV(r, gi.v.T); err != nil || !ref.Equal(got, gi.v, true) {
				c.Failf("%v: %s after %d of its %d operations and Reset is read as %v, %v", p, what, stop, nops, got, err)
			}
			out.Reset()
			w.Reset(&out)
			if err := errors.Join(uni.WriteV(w, gi.v), w.Flush()); err != nil || !bytes.Equal(out.Bytes(), b) {
				c.Failf("%v: %s after %d of its operations and Reset is written as %s, %v", p, what, stop, uni.Hex(out.Bytes()), err)
			}
			c.StateOf(p, what, k)
		})}
	})
	extend("C15", func(bool) []engine.Space {
		return []engine.Space{scaled("deep and wide", "whole and in chunks of 1, 5 and 4096: no read after the last byte", uni.Protos, someDepths, someWidths, func(c *engine.Ctx, p ref.Proto, what string, gi goInput, v reflect.Value) {
			b := p.Enc(nil, gi.v)
			for mode := range decodeModes {
				for _, chunk := range []int{0, 1, 5, 4096} {
					f := &uni.Feed{B: b, Chunk: chunk}
					c.Step()
					if got, err := decodeBy(mode, p, uni.Impl(p).NewReader(f), gi); err != nil || got != "ok" || f.OverEnd > 0 {
						c.Failf("%v: %s of %s in chunks of %d: %s, %v, %d reads after the last byte", p, modeNames[mode], what, chunk, got, err, f.OverEnd)
					}
				}
			}
		})}
	})
	extend("C16", func(bool) []engine.Space {
		return []engine.Space{{Name: "many fields", Shards: len(wideNames), Bound: fmt.Sprintf("structs of %v fields: exactly the tagged fields, in the order of their IDs; an ID used twice, anywhere, is refused", scaleWidths), Run: func(c *engine.Ctx, sh int) {
			n := engine.Pick(c, scaleWidths)
			v := wideGo(sh, n)
			var out bytes.Buffer
			var ids []int
			tap := &uni.TapW{W: uni.Impl(ref.CompactP).NewWriter(&out)}
			depth := 0
			tap.Before = func(op string, a any) error {
				switch op {
				case "WriteStructBegin":
					depth++
				case "WriteStructEnd":
					depth--
				case "WriteFieldBegin":
					if depth == 1 {
						ids = append(ids, int(a.(*thriftwire.FieldHeader).ID))
					}
				}
				return nil
			}
			c.Step()
			must(c, thrift.Marshal(tap, v.Interface()), "Marshal of %d fields", n)
			var want []int
			for i := range n {
				if i%7 != 5 {
					want = append(want, wideID(sh, i, n))
				}
			}
			sort.Ints(want)
			if !reflect.DeepEqual(ids, want) {
				c.Failf("a struct of %d fields (%s): the fields written are %v, want %v", n, wideNames[sh], ids, want)
			}
			if n > 1 {
				for _, x := range [][2]int{{0, n - 1}, {n / 2, n - 1}, {0, 1}, {n - 2, n - 1}} {
					i, j := x[0], x[1]
					if i == j {
						continue
					}
					fs := make([]uni.Field, n)
					for k := range n {
						fs[k] = uni.Field{T: uni.TypeOf[bool](), ID: wideID(sh, k, n)}
					}
					fs[j].ID = fs[i].ID
					t := uni.StructOf(fs...)
					c.Steps(2)
					err := thrift.Marshal(uni.Impl(ref.BinStrict).NewWriter(io.Discard), reflect.Zero(t).Interface())
					err2 := thrift.Unmarshal(uni.Impl(ref.BinStrict).NewReader(bytes.NewReader([]byte{0})), reflect.New(t).Interface())
					if !isSemantic(err) || !isSemantic(err2) {
						c.Failf("a struct of %d fields (%s), of which the %d. and the %d. have the same ID: %v, %v", n, wideNames[sh], i, j, err, err2)
					}
				}
			}
			c.StateOf(sh, n)
		}}}
	})
	extend("C28", func(bool) []engine.Space {
		return []engine.Space{scaled("deep and wide", "copied token by token from the other protocols", uni.Protos, someDepths, someWidths, func(c *engine.Ctx, p ref.Proto, what string, gi goInput, v reflect.Value) {
			for _, q := range uni.Protos {
				var out bytes.Buffer
				w := uni.Impl(q).NewWriter(&out)
				c.Step()
				must(c, copyV(uni.Impl(p).NewReader(bytes.NewReader(p.Enc(nil, gi.v))), w, thriftwire.Type(gi.v.T), false), "%v to %v: %s", p, q, what)
				must(c, w.Flush(), "Flush")
				if want := q.Enc(nil, carried(p, gi.v)); !bytes.Equal(out.Bytes(), want) {
					c.Failf("%v copied to %v: %s becomes %s, want %s", p, q, what, uni.Hex(out.Bytes()), uni.Hex(want))
				}
			}
		})}
	})
}

// longToks makes tokens and fillers of n characters.
var longToks = []struct {
	name string
	kind string // ident, int, float, string, filler
	mk   func(n int) string
}{
	{"identifier", "ident", func(n int) string { return strings.Repeat("abcXYZ_9", n/8+1)[:n] }},
	{"identifier with dots", "ident", func(n int) string { return "a" + strings.Repeat(".b7_", n/4+1)[:n-1] }},
	{"identifier of letters of two bytes", "ident", func(n int) string { return strings.Repeat("é", n) }},
	{"identifier that ends with a wide letter", "ident", func(n int) string { return strings.Repeat("k", n) + "世" }},
	{"underscores", "ident", func(n int) string { return strings.Repeat("_", n) }},
	{"keyword and more", "ident", func(n int) string { return "struct" + strings.Repeat("t", n) }},
	{"integer", "int", func(n int) string { return strings.Repeat("1029384756", n/10+1)[:n] }},
	{"negative integer", "int", func(n int) string { return "-" + strings.Repeat("0", n-1) + "7" }},
	{"hexadecimal", "int", func(n int) string { return "0x" + strings.Repeat("aF09", n/4+1)[:n] }},
	{"fraction", "float", func(n int) string { return "1." + strings.Repeat("25", n/2+1)[:n] }},
	{"whole part", "float", func(n int) string { return strings.Repeat("31", n/2+1)[:n] + ".5e7" }},
	{"exponent", "float", func(n int) string { return "+.5E-" + strings.Repeat("90", n/2+1)[:n] }},
	{"string", "string", func(n int) string { return `"` + strings.Repeat("text it's ", n/10+1)[:n] + `"` }},
	{"string of escapes", "string", func(n int) string { return `'` + strings.Repeat(`\'\"\\\n`, n/4+1)[:n&^1] + `'` }},
	{"string that ends with an escape", "string", func(n int) string { return `"` + strings.Repeat("s", n) + `\""` }},
	{"string of wide characters", "string", func(n int) string { return `'` + strings.Repeat("é€\U0001F600", n/3+1) + `'` }},
	{"line comment", "filler", func(n int) string { return "//" + strings.Repeat(`c"'/*`, n/5+1)[:n] + "\n" }},
	{"hash comment", "filler", func(n int) string { return "#" + strings.Repeat("é", n) + "\r\n" }},
	{"block comment", "filler", func(n int) string { return "/*" + strings.Repeat("block* ", n/7+1)[:n] + " */" }},
	{"block comment of stars", "filler", func(n int) string { return "/*" + strings.Repeat("*", n) + "/" }},
	{"block comment of lines", "filler", func(n int) string { return "/*" + strings.Repeat("\n *", n) + "/" }},
	{"spaces", "filler", func(n int) string { return strings.Repeat(" ", n) }},
	{"blank lines", "filler", func(n int) string { return strings.Repeat("\n", n) }},
	{"blank lines with returns", "filler", func(n int) string { return strings.Repeat("\r\n\t", n) }},
	{"comments", "filler", func(n int) string { return strings.Repeat("/**/#\n//\n", n) }},
}

var tokSizes = func() (ns []int) {
	for n := 1; n <= 300; n++ {
		ns = append(ns, n)
	}
	return append(ns, 510, 511, 512, 513, 1000, 1021, 1022, 1023, 1024, 1025, 2047, 2048, 2049, 4093, 4094, 4095, 4096, 4097, 4098, 8191, 8192, 8193, 10000, 32767, 32768, 65534, 65535, 65536, 65537, 100000)
}()

// longDocs are documents with one long token in it, with their trees.
func longDocs(kind, w string) (docs [][2]string) {
	add := func(src, want string) { docs = append(docs, [2]string{src, want}) }
	switch kind {
	case "ident":
		add("typedef "+w+" b", "typedef("+w+" b)")
		add("typedef a b struct "+w+"{1:"+w+" "+w+"="+w+"}", "typedef(a b)\nstruct("+w+"{ 1:"+w+" "+w+"="+w+";})")
		add("\nnamespace * "+w, "namespace(* "+w+")")
	case "int":
		add("const t c="+w, "const(t c=int "+w+")")
		add("enum e{a="+w+",b="+w+"}", "enum(e a="+w+" b="+w+";)")
		add("struct s{"+w+":t u}", "struct(s{ "+w+":t u;})")
	case "float":
		add("const t c="+w, "const(t c=float "+w+")")
		add("const t c=["+w+" "+w+"]", "const(t c=[float "+w+",float "+w+",])")
	case "string":
		add("include"+w, "include("+w+")")
		add("const t c="+w+"typedef t u(a="+w+")", "const(t c="+w+")\ntypedef(t u@(a="+w+"))")
	case "filler":
		add(w, "")
		add(w+"typedef a b", "typedef(a b)")
		add("typedef a"+w+" "+w+"b", "typedef(a b)")
		add("typedef a b "+w+"\nconst t c=1", "typedef(a b)\nconst(t c=int 1)")
		add("typedef a b "+w, "typedef(a b)")
	}
	return docs
}

func init() {
	lines := func(s string) []string {
		if s == "" {
			return nil
		}
		return strings.Split(s, "\n")
	}
	extend("C22", func(bool) []engine.Space {
		return []engine.Space{
			{Name: "long tokens", Shards: len(longToks), Bound: fmt.Sprintf("%d kinds of tokens and of layout of %d sizes from 1 to 100000, in up to 5 places: the tree and the lines", len(longToks), len(tokSizes)),
				Run: func(c *engine.Ctx, sh int) {
					lt := longToks[sh]
					n := engine.Pick(c, tokSizes)
					if n > 9000 && lt.kind == "filler" && n != 65536 {
						return
					}
					for _, d := range longDocs(lt.kind, lt.mk(n)) {
						c.Step()
						expectTree(c, d[0], lines(d[1]))
					}
					c.Nontrivial()
					c.Logf("%s, %d", lt.name, n)
					c.StateOf(sh, n)
				}},
			{Name: "deep types and values", Shards: 6, Bound: fmt.Sprintf("types and values nested %d to %d deep (%d depths)", scaleDepths[0], scaleDepths[len(scaleDepths)-1], len(scaleDepths)),
				Run: func(c *engine.Ctx, sh int) {
					n := engine.Pick(c, scaleDepths)
					in := func(pre, mid, post string) string { return strings.Repeat(pre, n) + mid + strings.Repeat(post, n) }
					var d [2]string
					switch sh {
					case 0:
						d = [2]string{"typedef " + in("list<", "a", ">") + " b", "typedef(" + in("list<", "a", ">") + " b)"}
					case 1:
						d = [2]string{"typedef " + in("map<set<k>,", "a", ">(x)") + " b", "typedef(" + in("map<set<k>,", "a", ">@(x)") + " b)"}
					case 2:
						d = [2]string{"typedef " + in("map<", "a", ",v>") + " b", "typedef(" + in("map<", "a", ",v>") + " b)"}
					case 3:
						d = [2]string{"const t c=" + in("[1 ", "2", " x]"), "const(t c=" + in("[int 1,", "int 2", ",x,]") + ")"}
					case 4:
						d = [2]string{"const t c=" + in("{1:", "'s'", ";y:z}"), "const(t c=" + in("{int 1:", "'s'", ",y:z,}") + ")"}
					case 5:
						d = [2]string{"const t c=" + in("{", "{}", ":[]}"), "const(t c=" + in("{", "{}", ":[],}") + ")"}
					}
					c.Step()
					expectTree(c, d[0], []string{d[1]})
					c.Nontrivial()
					c.StateOf(sh, n)
				}},
		}
	})
	extend("C23", func(bool) []engine.Space {
		pre := []string{"typedef a b\n", "struct s{1:t u;2:v w='x'}", "service s{void a(1:b c)throws(d e)}\n", "const t c=[1,2,{3:4}];", "enum e{a,b=2}(x)"}
		tails := []string{"", "typedef", "typedef a", "}", "struct s{", "struct s{1:t}", "include 'x'", "const t c=[", "1", "typedef a b c", "\"", "/*", "enum e{a=b}", "service s{a}", "namespace * x", "x", "union u{1:t v}", "typedef list<a b"}
		return []engine.Space{{Name: "far errors", Shards: len(pre) * len(tails), Bound: fmt.Sprintf("0 to 100 and up to 3000 definitions of %d kinds, followed by %d endings", len(pre), len(tails)),
			Run: func(c *engine.Ctx, sh int) {
				n := c.Choose(106)
				if n > 100 {
					n = []int{128, 255, 256, 1000, 3000}[n-101]
				}
				c.Step()
				c.Outcome(checkDoc(c, strings.Repeat(pre[sh/len(tails)], n)+tails[sh%len(tails)]))
				c.Nontrivial()
				c.StateOf(sh, n)
			}}}
	})
	extend("C24", func(bool) []engine.Space {
		ends := []string{"", "\"", "\n", "\\", "\x00", "\xff", "*", "/", "\xc3", ".", "e", "-", "0x", "'"}
		return []engine.Space{{Name: "long tokens", Shards: len(longToks), Bound: fmt.Sprintf("%d kinds of tokens and of layout of %d sizes from 1 to 100000, whole or cut short by one to three characters, with %d endings", len(longToks), len(tokSizes), len(ends)),
			Run: func(c *engine.Ctx, sh int) {
				lt := longToks[sh]
				n := engine.Pick(c, tokSizes)
				if n > 300 && n%1024 > 1 || n > 70000 || n > 40 && n < 300 && n%8 > 1 {
					return
				}
				w := lt.mk(n)
				for cut := range 4 {
					for _, e := range ends {
						if cut > len(w) {
							continue
						}
						c.Step()
						c.Outcome(checkDoc(c, "const t c="+w[:len(w)-cut]+e))
					}
				}
				c.Nontrivial()
				c.StateOf(sh, n)
			}}}
	})
	extend("C25", func(bool) []engine.Space {
		var fs []int
		for i, lt := range longToks {
			if lt.kind == "filler" {
				fs = append(fs, i)
			}
		}
		base := docSamples()
		return []engine.Space{{Name: "long layout", Shards: len(fs) * len(base), Bound: fmt.Sprintf("%d kinds of layout of 20 sizes up to 65536 in every gap of %d documents, one at a time or (up to 64) in all of them", len(fs), len(base)),
			Run: func(c *engine.Ctx, sh int) {
				lt, b := longToks[fs[sh/len(base)]], base[sh%len(base)]
				n := engine.Pick(c, []int{1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 255, 256, 257, 1023, 1024, 4096, 65536})
				f := " " + lt.mk(n) + " "
				toks, _ := idl.Lex([]byte(strings.Join(b, " ")))
				want := idl.Tree(toks)
				gap := -1
				if n > 64 {
					gap = c.Choose(len(b) + 1)
					if n == 65536 && gap%7 != 0 {
						return
					}
				}
				var src strings.Builder
				for i := 0; i <= len(b); i++ {
					if gap < 0 || gap == i {
						src.WriteString(f)
					} else {
						src.WriteByte(' ')
					}
					if i < len(b) {
						src.WriteString(b[i])
					}
				}
				c.Step()
				expectTree(c, src.String(), want)
				c.Nontrivial()
				c.StateOf(sh, n, gap)
			}}}
	})
}
