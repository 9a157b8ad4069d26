//go:build go1.23

package main

import (
	"bytes"
	"errors"
	"fmt"
	"reflect"
	"strings"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/internal/thriftmemo"
	"github.com/itstarsun/go-thrift/internal/zzverif/engine"
	"github.com/itstarsun/go-thrift/internal/zzverif/ref"
	"github.com/itstarsun/go-thrift/internal/zzverif/uni"
	"github.com/itstarsun/go-thrift/thrift"
)

// misfit returns v with the i-th of its typed places (in the order of the
// encoding) holding another type, and how many places there are. A place is
// a field or the key, the value or the element type of a container that is
// not empty.
func misfit(v ref.V, i int) (ref.V, int) {
	n := 0
	other := func(t byte) byte {
		for k, o := range ref.All {
			if o == t {
				return ref.All[(k+1+i%(len(ref.All)-1))%len(ref.All)]
			}
		}
		panic("engine: no such type")
	}
	var walk func(v ref.V) ref.V
	walk = func(v ref.V) ref.V {
		switch v.T {
		case ref.Struct:
			var fs []ref.Fld
			for _, f := range v.F {
				at := n == i
				n++
				if at {
					fs = append(fs, ref.F(f.ID, smallest(other(f.V.T))))
				} else {
					fs = append(fs, ref.F(f.ID, walk(f.V)))
				}
			}
			v.F = fs
		case ref.List, ref.Set, ref.Map:
			if len(v.L) == 0 {
				return v
			}
			step, from := 1, 0
			l := append([]ref.V(nil), v.L...)
			swap := func(t byte, from, step int) byte {
				if n++; n-1 != i {
					return t
				}
				t = other(t)
				for k := from; k < len(l); k += step {
					l[k] = smallest(t)
				}
				return t
			}
			if v.T == ref.Map {
				step, from = 2, 1
				v.KT = swap(v.KT, 0, 2)
			}
			v.ET = swap(v.ET, from, step)
			for k := range l {
				l[k] = walk(l[k])
			}
			v.L = l
		}
		return v
	}
	w := walk(v)
	return w, n
}

// The marks are places in 0..n-1.
func marks(n int) []int {
	var out []int
	for _, i := range []int{0, 1, 2, 3, n / 7, n / 5, n / 4, n / 3, n/2 - 1, n / 2, n/2 + 1, n * 2 / 3, n * 3 / 4, n - 5, n - 4, n - 3, n - 2, n - 1} {
		if i >= 0 && i < n && (len(out) == 0 || i > out[len(out)-1]) {
			out = append(out, i)
		}
	}
	return out
}

func init() {
	extend("C12", func(bool) []engine.Space {
		return []engine.Space{scaled("deep and wide", "another type in 18 of the places where a type is announced, into a zero value and over the value itself", uni.Protos, someDepths, someWidths, func(c *engine.Ctx, p ref.Proto, what string, gi goInput, v reflect.Value) {
			_, n := misfit(gi.v, -1)
			for _, i := range marks(n) {
				w, _ := misfit(gi.v, i)
				b := p.Enc(nil, w)
				for _, over := range []bool{false, true} {
					dst := reflect.New(gi.t)
					if over {
						dst.Elem().Set(uni.Clone(v))
					}
					c.Step()
					if err := thrift.Unmarshal(uni.Impl(p).NewReader(bytes.NewReader(b)), dst.Interface()); err == nil || !isSemantic(err) {
						c.Failf("%v: %s with another type in the place %d of %d: %T %v", p, what, i, n, err, err)
					}
				}
			}
		})}
	})
	extend("C19", func(bool) []engine.Space {
		return []engine.Space{
			scaled("deep and wide", "decoded twice by one reader: no memory shared within or between them, and nothing that happens to one, the input or the reader changes the other", uni.Protos, someDepths, someWidths, func(c *engine.Ctx, p ref.Proto, what string, gi goInput, v reflect.Value) {
				in := p.Enc(p.Enc(nil, gi.v), gi.v)
				b := append([]byte(nil), in...)
				r := uni.Impl(p).NewReader(&hoard{b: b, chunk: 4096})
				o1, o2 := reflect.New(gi.t), reflect.New(gi.t)
				c.Steps(2)
				must(c, thrift.Unmarshal(r, o1.Interface()), "%v: %s", p, what)
				must(c, thrift.Unmarshal(r, o2.Interface()), "%v: %s again", p, what)
				if s := shared(o1, o2); s != "" {
					c.Failf("%v: after two Unmarshals of %s, %s", p, what, s)
				}
				for i := range b {
					b[i] ^= 0x55
				}
				r.Reset(strings.NewReader(junk))
				for range 300 {
					_ = r.ReadUUID(new([16]byte))
				}
				scribble(o2.Elem(), 0)
				if !uni.Eq(o1.Elem(), v) {
					c.Failf("%v: %s is %s after the reader, its input and another value were overwritten", p, what, uni.Show(o1.Elem()))
				}
			}),
			{Name: "many entries", Shards: 3 * 4, Bound: "lists, sets and maps of 0 to 70, 512 and 600 byte strings, of one length or of growing lengths, over nothing or over a container with other entries: each has its own memory", Run: func(c *engine.Ctx, sh int) {
				p, kind := uni.Protos[sh%3], sh/3
				n := c.Choose(73)
				if n > 70 {
					n = []int{512, 600}[n-71]
				}
				grow := c.Choose(3)
				used := c.Choose(2)
				t := []reflect.Type{uni.TypeOf[[][]byte](), uni.TypeOf[thrift.Set[[]byte]](), uni.TypeOf[map[int32][]byte](), uni.TypeOf[map[string]*[]byte]()}[kind]
				mk := func(salt int) reflect.Value {
					v := reflect.New(t).Elem()
					if kind < 2 {
						v.Set(reflect.MakeSlice(t, n, n))
					} else {
						v.Set(reflect.MakeMap(t))
					}
					for i := range n {
						b := []byte(pattern(8 + salt + []int{0, i % 50, 50 - i%50}[grow]))
						b[0], b[1] = byte(i), byte(i>>8)
						switch kind {
						case 0, 1:
							v.Index(i).SetBytes(b)
						case 2:
							v.SetMapIndex(reflect.ValueOf(int32(i)), reflect.ValueOf(b))
						case 3:
							v.SetMapIndex(reflect.ValueOf(fmt.Sprint(i)), reflect.ValueOf(&b))
						}
					}
					return v
				}
				v := mk(0)
				dst := reflect.New(t)
				if used == 1 {
					dst.Elem().Set(mk(5))
				}
				c.Step()
				must(c, thrift.Unmarshal(uni.Impl(p).NewReader(bytes.NewReader(p.Enc(nil, uni.FromGo(v)))), dst.Interface()), "%v: %d entries", p, n)
				if !uni.Eq(dst.Elem(), v) {
					c.Failf("%v: %d entries of a %v are decoded as %s, want %s", p, n, t, uni.Show(dst.Elem()), uni.Show(v))
				}
				if s := shared(dst); s != "" {
					c.Failf("%v: after Unmarshal of %d entries of a %v, %s", p, n, t, s)
				}
				c.StateOf(sh, n, grow, used)
			}},
		}
	})
	extend("C26", func(bool) []engine.Space {
		return []engine.Space{scaled("deep and wide", "recorded and replayed by Marshal and Unmarshal, with a fault at 18 places of either", []ref.Proto{ref.BinStrict}, someDepths, someWidths, func(c *engine.Ctx, p ref.Proto, what string, gi goInput, v reflect.Value) {
			record := func() *thriftmemo.Memo {
				m := new(thriftmemo.Memo)
				c.Step()
				must(c, thrift.Marshal(m.Writer(), v.Interface()), "Marshal of %s", what)
				return m
			}
			n := len(record().Steps())
			for _, k := range append(marks(n), -1) {
				m := record()
				m.Breakpoint = k + 1
				dst := reflect.New(gi.t)
				c.Step()
				err := thrift.Unmarshal(m.Reader(), dst.Interface())
				switch {
				case k >= 0 && !errors.Is(err, thriftmemo.ErrBreak):
					c.Failf("%s replayed with the fault at %d of %d: %v", what, k+1, n, err)
				case k < 0 && (err != nil || !uni.Eq(dst.Elem(), v)):
					c.Failf("%s is replayed as %s, %v", what, uni.Show(dst.Elem()), err)
				}
			}
			for _, k := range marks(n) {
				var m thriftmemo.Memo
				m.Breakpoint = k + 1
				c.Step()
				if err := thrift.Marshal(m.Writer(), v.Interface()); !errors.Is(err, thriftmemo.ErrBreak) || len(m.Steps()) != k {
					c.Failf("%s recorded with the fault at %d of %d: %v after %d steps", what, k+1, n, err, len(m.Steps()))
				}
			}
			c.Step()
			m := record()
			if strings.Contains(strings.Join(m.Steps(), " ")+" ", "Bytes ") {
				return // left open
			}
			r := m.Reader()
			must(c, thriftwire.Skip(r, thriftwire.Type(gi.v.T)), "Skip of %s", what)
			var err error
			if catch(func() { _, err = r.ReadBool() }) == nil && err == nil {
				c.Failf("%s: something is left after it was skipped", what)
			}
		})}
	})
	extend("C21", func(bool) []engine.Space {
		return []engine.Space{scaled("deep and wide", "as message and bare, with something after it", uni.Protos, someDepths, someWidths, func(c *engine.Ctx, p ref.Proto, what string, gi goInput, v reflect.Value) {
			after := item{v: ref.StructV(ref.F(1, ref.BoolV(true)), ref.F(3, ref.BoolV(false)))}
			if c.Choose(2) == 0 {
				runItems(c, p, []item{{v: gi.v}, after})
			} else {
				runItems(c, p, []item{{msg: &ref.Msg{Name: "m", Type: 1, ID: 1}, v: gi.v}, after, {msg: &ref.Msg{Name: strings.Repeat("n", 130), Type: 4, ID: 1 << 30}, v: gi.v}})
			}
		})}
	})
	extend("C04", func(bool) []engine.Space {
		return []engine.Space{{Name: "long streams", Shards: 3, Bound: "700 messages on one writer and one reader, names of 0 to 699 bytes, all types, sequence numbers of both signs, with Reset after none, every 7th or every message", Run: func(c *engine.Ctx, sh int) {
			p := uni.Protos[sh]
			reset := c.Choose(3)
			start := c.Choose(7)
			var out bytes.Buffer
			w := uni.Impl(p).NewWriter(&out)
			var want []byte
			var msgs []ref.Msg
			for i := range 700 {
				m := ref.Msg{Name: pattern((i * 13) % 700), Type: byte(1 + (i+start)%4), ID: int32(i+start) * 6700417}
				msgs = append(msgs, m)
				c.Step()
				must(c, w.WriteMessageBegin(thriftwire.MessageHeader{Name: m.Name, Type: thriftwire.MessageType(m.Type), ID: m.ID}), "WriteMessageBegin")
				body := ref.StructV(ref.F(1, ref.BoolV(i%2 == 0)), ref.F(int16(i+2), ref.I32V(int32(i))))
				must(c, uni.WriteV(w, body), "body")
				must(c, w.WriteMessageEnd(), "WriteMessageEnd")
				want = p.Enc(p.EncMsg(want, m), body)
				if reset == 1 && i%7 == 6 || reset == 2 {
					must(c, w.Flush(), "Flush")
					w.Reset(&out)
				}
			}
			must(c, w.Flush(), "Flush")
			if !bytes.Equal(out.Bytes(), want) {
				c.Failf("%v: 700 messages: the output of %d bytes differs from what it should be (%d) at byte %d", p, out.Len(), len(want), diffAt(out.Bytes(), want))
			}
			src := &uni.Feed{B: want, Chunk: []int{0, 1, 100}[reset]}
			r := uni.Impl(p).NewReader(src)
			for i, m := range msgs {
				c.Step()
				h, err := r.ReadMessageBegin()
				if err != nil || h.Name != m.Name || byte(h.Type) != m.Type || h.ID != m.ID {
					c.Failf("%v: the message %d, %+v, is read as %+v, %v", p, i, m, h, err)
				}
				body, err := uni.ReadV(r, ref.Struct)
				if err != nil || !ref.Equal(body, ref.StructV(ref.F(1, ref.BoolV(i%2 == 0)), ref.F(int16(i+2), ref.I32V(int32(i)))), true) {
					c.Failf("%v: the body of message %d is read as %v, %v", p, i, body, err)
				}
				must(c, r.ReadMessageEnd(), "ReadMessageEnd")
			}
			c.StateOf(sh, reset, start)
		}}}
	})
	extend("C09", func(bool) []engine.Space {
		return []engine.Space{scaled("deep and wide", "each byte of the first, middle and last 12 replaced by 11 others, decoded in every way and judged by the reference", uni.Protos, []int{5, 17, 33, 65, 130}, []int{17, 33, 130}, func(c *engine.Ctx, p ref.Proto, what string, gi goInput, v reflect.Value) {
			b := p.Enc(nil, gi.v)
			at := c.Choose(36)
			switch {
			case at >= 24:
				at = len(b) - (at - 23)
			case at >= 12:
				at = len(b)/2 + at - 18
			}
			if at < 0 || at >= len(b) {
				return
			}
			for _, x := range []byte{0, 1, 2, 3, 8, 12, 15, 0x7f, 0x80, 0xf0, 0xff} {
				in := append([]byte(nil), b...)
				in[at] = x
				for mode := range 3 {
					c.Step()
					src := &uni.Feed{B: in, Chunk: mode}
					judgeBy(c, p, gi.v.T, src, func() []byte { return in }, gi.t, mode)
				}
			}
			c.StateOf(p, what, at)
		})}
	})
}
