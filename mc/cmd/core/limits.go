//go:build go1.23

package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"reflect"
	"strings"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/internal/zzverif/engine"
	"github.com/itstarsun/go-thrift/internal/zzverif/ref"
	"github.com/itstarsun/go-thrift/internal/zzverif/uni"
	"github.com/itstarsun/go-thrift/thrift"
)

// This file holds the spaces of values that are larger than any limit an
// implementation may be tempted to set: the format knows none.

// A hugeKind is a way of being huge, with the bytes the specifications
// prescribe for size n before and for each of the n parts.
type hugeKind struct {
	name    string
	sizes   []int // in parts
	mk      func(n int) reflect.Value
	bin     []byte // type bytes before the size
	compact func(n int) []byte
	part    [2][]byte // of a part; maps are of one entry per key and not compared
}

func fillN[T any](n int, f func(i int) T) []T {
	s := make([]T, n)
	for i := range s {
		s[i] = f(i)
	}
	return s
}

func compactList(e byte) func(n int) []byte {
	return func(n int) []byte { return binary.AppendUvarint([]byte{0xf0 | e}, uint64(n)) }
}

func hugeKinds(th bool) []hugeKind {
	strs := []int{1 << 24, 1<<24 + 1, 1<<26 + 1, 100<<20 + 1}
	many := []int{1<<17 + 1, 1<<20 + 1, 10000001}
	few := []int{1<<17 + 1, 1<<20 + 1}
	if th {
		strs = append(strs, 1<<28+1, 1<<29+1)
		many = append(many, 1<<24+1, 1<<26+1)
		few = append(few, 1<<22+1)
	}
	str := func(n int) []byte { return binary.AppendUvarint(nil, uint64(n)) }
	return []hugeKind{
		{"string", strs, func(n int) reflect.Value { return reflect.ValueOf(strings.Repeat("x", n)) }, nil, str, [2][]byte{{'x'}, {'x'}}},
		{"bytes", strs, func(n int) reflect.Value { return reflect.ValueOf(bytes.Repeat([]byte("y"), n)) }, nil, str, [2][]byte{{'y'}, {'y'}}},
		{"list<i8>", many, func(n int) reflect.Value { return reflect.ValueOf(fillN(n, func(i int) int8 { return 5 })) }, []byte{ref.Byte}, compactList(3), [2][]byte{{5}, {5}}},
		{"set<bool>", few, func(n int) reflect.Value {
			return reflect.ValueOf(thrift.Set[bool](fillN(n, func(i int) bool { return true })))
		}, []byte{ref.Bool}, compactList(2), [2][]byte{{1}, {1}}},
		{"list<string>", few, func(n int) reflect.Value { return reflect.ValueOf(fillN(n, func(i int) string { return "z" })) }, []byte{ref.String}, compactList(8), [2][]byte{{0, 0, 0, 1, 'z'}, {1, 'z'}}},
		{"list<struct>", few, func(n int) reflect.Value {
			return reflect.ValueOf(fillN(n, func(i int) uni.Key { return uni.Key{} }))
		}, []byte{ref.Struct}, compactList(12), [2][]byte{{0}, {0}}},
		{"map<i32,bool>", few, func(n int) reflect.Value {
			m := make(map[int32]bool, n)
			for i := range n {
				m[int32(i)] = i%2 == 0
			}
			return reflect.ValueOf(m)
		}, nil, nil, [2][]byte{}},
	}
}

func hugeBytes(p ref.Proto, k hugeKind, n int) []byte {
	if p == ref.CompactP {
		b := k.compact(n)
		return append(b, bytes.Repeat(k.part[1], n)...)
	}
	b := binary.BigEndian.AppendUint32(append([]byte(nil), k.bin...), uint32(n))
	return append(b, bytes.Repeat(k.part[0], n)...)
}

// hugeSpace runs f on every huge value.
func hugeSpace(th bool, bound string, ps []ref.Proto, f func(c *engine.Ctx, p ref.Proto, k hugeKind, n int)) engine.Space {
	kinds := hugeKinds(th)
	var desc []string
	for _, k := range kinds {
		desc = append(desc, fmt.Sprint(k.name, " ", k.sizes))
	}
	return engine.Space{Name: "limits", Shards: len(kinds) * len(ps), Serial: th, Bound: "values of many parts (" + strings.Join(desc, ", ") + "): " + bound, Run: func(c *engine.Ctx, sh int) {
		k, p := kinds[sh%len(kinds)], ps[sh/len(kinds)]
		n := engine.Pick(c, k.sizes)
		c.Logf("%v: %s of %d", p, k.name, n)
		f(c, p, k, n)
		c.StateOf(sh, n)
	}}
}

// hugeMarshal is Marshal's encoding of v, followed by a sentinel.
func hugeMarshal(c *engine.Ctx, p ref.Proto, k hugeKind, n int, v reflect.Value) []byte {
	var buf bytes.Buffer
	w := uni.Impl(p).NewWriter(&buf)
	c.Step()
	must(c, thrift.Marshal(w, v.Interface()), "%v: Marshal of a %s of %d", p, k.name, n)
	must(c, w.WriteI32(sentinel), "%v: after a %s of %d", p, k.name, n)
	must(c, w.Flush(), "%v: after a %s of %d", p, k.name, n)
	return buf.Bytes()
}

func init() {
	extend("C01", func(th bool) []engine.Space {
		return []engine.Space{hugeSpace(th, "come back", uni.Protos, func(c *engine.Ctx, p ref.Proto, k hugeKind, n int) {
			v := k.mk(n)
			b := hugeMarshal(c, p, k, n, v)
			r := uni.Impl(p).NewReader(bytes.NewReader(b))
			out := reflect.New(v.Type())
			c.Step()
			must(c, thrift.Unmarshal(r, out.Interface()), "%v: Unmarshal of a %s of %d", p, k.name, n)
			if !reflect.DeepEqual(out.Elem().Interface(), v.Interface()) {
				c.Failf("%v: a %s of %d does not come back as it was", p, k.name, n)
			}
			expectSentinel(c, p, r, b[:20])
		})}
	})
	for _, x := range []struct {
		id string
		ps []ref.Proto
	}{{"C02", []ref.Proto{ref.BinStrict, ref.BinNonStrict}}, {"C03", []ref.Proto{ref.CompactP}}} {
		extend(x.id, func(th bool) []engine.Space {
			return []engine.Space{hugeSpace(th, "the bytes, and what they are read as", x.ps, func(c *engine.Ctx, p ref.Proto, k hugeKind, n int) {
				if k.part[0] == nil {
					return
				}
				v := k.mk(n)
				want := p.Enc(hugeBytes(p, k, n), ref.I32V(sentinel))
				if got := hugeMarshal(c, p, k, n, v); !bytes.Equal(got, want) {
					c.Failf("%v: a %s of %d is written as %d bytes %s, want %d bytes %s", p, k.name, n, len(got), uni.Hex(got), len(want), uni.Hex(want))
				}
				r := uni.Impl(p).NewReader(bytes.NewReader(want))
				out := reflect.New(v.Type())
				c.Step()
				must(c, thrift.Unmarshal(r, out.Interface()), "%v: Unmarshal of a %s of %d", p, k.name, n)
				if !reflect.DeepEqual(out.Elem().Interface(), v.Interface()) {
					c.Failf("%v: %s, a %s of %d, is read as another value", p, uni.Hex(want), k.name, n)
				}
				expectSentinel(c, p, r, want[:20])
			})}
		})
	}
	extend("C05", func(th bool) []engine.Space {
		return []engine.Space{hugeSpace(th, "skipped, and as an unknown field", uni.Protos, func(c *engine.Ctx, p ref.Proto, k hugeKind, n int) {
			v := k.mk(n)
			b := hugeMarshal(c, p, k, n, v)
			t := uni.WT(v.Type())
			r := uni.Impl(p).NewReader(bytes.NewReader(b))
			c.Steps(2)
			must(c, thriftwire.Skip(r, thriftwire.Type(t)), "%v: Skip of a %s of %d", p, k.name, n)
			expectSentinel(c, p, r, b[:20])

			// The same value as field 3, which Known does not have.
			b = b[:len(b)-len(p.Enc(nil, ref.I32V(sentinel)))]
			head, tail := p.Enc(nil, ref.StructV(ref.F(2, ref.BoolV(true)))), p.Enc(nil, ref.StructV(ref.F(9, ref.StrV("nine"))))
			head = head[:len(head)-1] // without the stop
			if p == ref.CompactP {
				head = append(head, 0x10|map[byte]byte{ref.String: 8, ref.List: 9, ref.Set: 10, ref.Map: 11}[t])
				tail[0] = tail[0]&15 | 6<<4 // 9 after 3
			} else {
				head = append(head, t, 0, 3)
			}
			in := io.MultiReader(bytes.NewReader(head), bytes.NewReader(b), bytes.NewReader(p.Enc(tail, ref.I32V(sentinel))))
			r = uni.Impl(p).NewReader(in)
			var got Known
			must(c, thrift.Unmarshal(r, &got), "%v: Unmarshal of a struct with an unknown %s of %d", p, k.name, n)
			if !reflect.DeepEqual(got, Known{A: true, C: "nine"}) {
				c.Failf("%v: with an unknown %s of %d, the known fields are decoded as %+v", p, k.name, n, got)
			}
			expectSentinel(c, p, r, head)
		})}
	})
	extend("C04", func(th bool) []engine.Space {
		sizes := []int{1<<16 + 1, 1<<20 + 1, 1<<24 + 1}
		if th {
			sizes = append(sizes, 100<<20+1, 1<<28+1)
		}
		return []engine.Space{{Name: "huge names", Shards: 3 * len(sizes), Serial: th, Bound: fmt.Sprintf("names of %v bytes, all types of messages, written and read; both binary forms by the non-strict reader", sizes), Run: func(c *engine.Ctx, sh int) {
			p, n := uni.Protos[sh%3], sizes[sh/3]
			h := thriftwire.MessageHeader{Name: strings.Repeat("n", n), Type: thriftwire.MessageType(1 + c.Choose(4)), ID: []int32{0, -1}[c.Choose(2)]}
			want := p.EncMsg(nil, ref.Msg{Name: h.Name, Type: byte(h.Type), ID: h.ID})
			var buf bytes.Buffer
			w := uni.Impl(p).NewWriter(&buf)
			c.Step()
			must(c, w.WriteMessageBegin(h), "%v: a name of %d bytes", p, n)
			must(c, w.Flush(), "%v: a name of %d bytes", p, n)
			if !bytes.Equal(buf.Bytes(), want) {
				c.Failf("%v: a message header with a name of %d bytes is written as %s, want %s", p, n, uni.Hex(buf.Bytes()), uni.Hex(want))
			}
			forms := [][]byte{want}
			if p == ref.BinNonStrict {
				forms = append(forms, ref.BinStrict.EncMsg(nil, ref.Msg{Name: h.Name, Type: byte(h.Type), ID: h.ID}))
			}
			for _, b := range forms {
				r := uni.Impl(p).NewReader(bytes.NewReader(p.Enc(b, ref.I32V(sentinel))))
				c.Step()
				got, err := r.ReadMessageBegin()
				must(c, err, "%v: reading %s, with a name of %d bytes", p, uni.Hex(b), n)
				if got != h {
					c.Failf("%v: %s, a header with a name of %d bytes, is read with a name of %d bytes, type %v, ID %d", p, uni.Hex(b), n, len(got.Name), got.Type, got.ID)
				}
				expectSentinel(c, p, r, b[:20])
			}
			c.StateOf(sh, h.Type, h.ID)
		}}}
	})
	extend("C20", func(th bool) []engine.Space {
		sizes := []int{1 << 24, 1<<24 + 1, 100<<20 + 1}
		if th {
			sizes = append(sizes, 1<<28, 1<<29+1)
		}
		bufs := []int{16, 100, 4096, 1 << 16, 1 << 24}
		return []engine.Space{{Name: "huge strings", Shards: len(sizes) * len(bufs), Serial: th, Bound: fmt.Sprintf("ReadString and ReadBytes of %v bytes with buffers of %v, whole or one byte short", sizes, bufs), Run: func(c *engine.Ctx, sh int) {
			n, size := sizes[sh%len(sizes)], bufs[sh/len(sizes)]
			b := bufio.NewReaderSize(io.LimitReader(&cycle{}, int64(n)+3), size)
			short := c.Choose(2) == 1
			if short {
				b = bufio.NewReaderSize(io.LimitReader(&cycle{}, int64(n)-1), size)
			}
			c.Step()
			var got []byte
			var err error
			if c.Choose(2) == 1 {
				got, err = thriftwire.ReadBytes(b, n, nil)
			} else {
				var s string
				s, err = thriftwire.ReadString(b, n)
				got = []byte(s)
			}
			want := n
			if short {
				want--
				if err != io.ErrUnexpectedEOF {
					c.Failf("%d of %d bytes, buffer of %d: error %v", want, n, size, err)
				}
			} else {
				must(c, err, "%d bytes, buffer of %d", n, size)
				if rest, _ := io.ReadAll(b); len(rest) != 3 {
					c.Failf("%d bytes, buffer of %d: %d bytes follow, want 3", n, size, len(rest))
				}
			}
			if len(got) != want {
				c.Failf("%d bytes, buffer of %d: %d bytes read", n, size, len(got))
			}
			exp := &cycle{}
			page := make([]byte, 1<<16)
			for off := 0; off < len(got); {
				k := min(len(page), len(got)-off)
				exp.Read(page[:k])
				if !bytes.Equal(got[off:off+k], page[:k]) {
					c.Failf("%d bytes, buffer of %d: wrong bytes from %d to %d", n, size, off, off+k)
				}
				off += k
			}
			c.StateOf(sh, short)
		}}}
	})
}

// cycle is an endless stream of changing bytes.
type cycle struct{ n uint32 }

func (x *cycle) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(x.n ^ x.n>>8 ^ x.n>>16)
		x.n++
	}
	return len(p), nil
}
