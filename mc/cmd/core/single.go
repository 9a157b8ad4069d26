//go:build go1.23

package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"strings"

	"github.com/itstarsun/go-thrift/internal/zzverif/engine"
	"github.com/itstarsun/go-thrift/internal/zzverif/ref"
	"github.com/itstarsun/go-thrift/internal/zzverif/uni"
)

// oneCall is a call of a Reader and the bytes it reads.
type oneCall struct {
	op string
	b  []byte
}

// oneCalls are the calls of a reader of protocol p that read bytes, for
// encodings of all lengths.
func oneCalls(p ref.Proto) (out []oneCall) {
	add := func(b []byte, ops ...string) {
		for _, op := range ops {
			out = append(out, oneCall{op, b})
		}
	}
	val := func(v ref.V, ops ...string) { add(p.Enc(nil, v), ops...) }
	for _, n := range []int{0, 1, 2, 16, 127, 128, 300} {
		for _, id := range []int32{0, 1, -1, 1 << 20} {
			m := ref.Msg{Name: pattern(n), Type: byte(n%4 + 1), ID: id}
			add(p.EncMsg(nil, m), "ReadMessageBegin")
			if p == ref.BinNonStrict {
				add(ref.BinStrict.EncMsg(nil, m), "ReadMessageBegin")
			}
		}
		val(ref.StrV(pattern(n)), "ReadString", "ReadBytes", "SkipString")
	}
	val(ref.StrV(pattern(5000)), "ReadString", "ReadBytes", "SkipString")
	val(ref.V{T: ref.Bool, N: 1}, "ReadBool")
	val(ref.V{T: ref.Byte, N: 5}, "ReadByte")
	val(ref.V{T: ref.Double, N: int64(math.Float64bits(1.5))}, "ReadDouble")
	val(ref.V{T: ref.UUID, S: "0123456789abcdef"}, "ReadUUID", "SkipUUID")
	for _, n := range []int64{0, -1, 64, -300, math.MaxInt16} {
		val(ref.V{T: ref.I16, N: n}, "ReadI16")
	}
	for _, n := range []int64{0, -1, 64, 1 << 20, math.MinInt32} {
		val(ref.V{T: ref.I32, N: n}, "ReadI32")
	}
	for _, n := range []int64{0, -1, 64, 1 << 20, 1 << 41, math.MinInt64} {
		val(ref.V{T: ref.I64, N: n}, "ReadI64")
	}
	for _, id := range []int16{1, 15, 16, 300, -1, math.MinInt16} {
		for _, t := range []byte{ref.Bool, ref.I32, ref.Struct} {
			if p != ref.CompactP {
				add([]byte{t, byte(uint16(id) >> 8), byte(id)}, "ReadFieldBegin")
				continue
			}
			add(ref.CFieldHeader(nil, id, 0, ref.CType(t)), "ReadFieldBegin")
		}
	}
	for _, n := range []int{0, 1, 14, 15, 127, 128, 20000} {
		for _, t := range []byte{ref.Bool, ref.I64, ref.Map} {
			be := []byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}
			var list, mp []byte
			switch {
			case p != ref.CompactP:
				list = append([]byte{t}, be...)
				mp = append([]byte{ref.String, t}, be...)
			default:
				if list = []byte{byte(min(n, 15))<<4 | ref.CType(t)}; n >= 15 {
					list = ref.UV(list, uint64(n))
				}
				if mp = ref.UV(nil, uint64(n)); n > 0 {
					mp = append(mp, ref.CType(ref.String)<<4|ref.CType(t))
				}
			}
			add(list, "ReadListBegin", "ReadSetBegin")
			add(mp, "ReadMapBegin")
		}
	}
	return out
}

func init() {
	extend("C07", func(th bool) []engine.Space {
		var calls [3][]oneCall
		most := 0
		for _, p := range uni.Protos {
			calls[p] = oneCalls(p)
			most = max(most, len(calls[p]))
		}
		return []engine.Space{{Name: "single calls", Shards: 3 * most, Bound: fmt.Sprintf("%d calls of the Reader of every protocol, on encodings of up to 5000 bytes, alone or after 3 or 4093 bytes: an end of input or an error, that lasts or comes only once before the rest is delivered, after each of the bytes of the call (from 400 bytes on, the first and last 40 and the ends of the buffers), alone or with the bytes before, the rest delivered in one piece or byte by byte: the call itself returns it", len(calls[0])+len(calls[1])+len(calls[2])),
			Run: func(c *engine.Ctx, sh int) {
				p := uni.Protos[sh%3]
				if sh/3 >= len(calls[p]) {
					return
				}
				oc := calls[p][sh/3]
				pre := engine.Pick(c, []int{0, 3, 4093})
				n := len(oc.b)
				var at []int
				for i := range n + 1 {
					if n < 400 || i < 40 || n-i < 40 || (pre+i+4)%4096 < 8 {
						at = append(at, i)
					}
				}
				k := engine.Pick(c, at)
				f := &feedOnce{b: append([]byte(strings.Repeat("p", pre)), oc.b...), at: pre + k}
				f.lasts, f.with = c.Choose(2) == 1, c.Choose(2) == 1
				f.err = []error{io.EOF, errCause}[c.Choose(2)]
				if pre < 100 && n < 400 {
					f.chunk = c.Choose(2)
				}
				r := uni.Impl(p).NewReader(f)
				for range pre {
					if _, err := r.ReadByte(); err != nil {
						if k == 0 {
							return
						}
						c.Failf("%v: ReadByte before the failure: %v", p, err)
					}
				}
				got, err := uni.CallR(r, oc.op, []byte("x"))
				c.Step()
				c.StateOf(sh, pre, k)
				desc := func() string {
					return fmt.Sprintf("%v: %s of %s after %d bytes, failing after %d of %d bytes with %q (lasts: %v, with the bytes: %v, chunks of %d): %v, %v", p, oc.op, uni.Hex(oc.b), pre, k, n, f.err, f.lasts, f.with, f.chunk, got, err)
				}
				switch {
				case k == n:
					want, err2 := uni.CallR(uni.Impl(p).NewReader(bytes.NewReader(oc.b)), oc.op, []byte("x"))
					if err2 != nil {
						c.Failf("%v: %s of %s: %v", p, oc.op, uni.Hex(oc.b), err2)
					}
					if err != nil || got != want {
						c.Failf("%s, want %v", desc(), want)
					}
					c.Outcome("complete")
				case err == nil && !f.lasts && strings.HasPrefix(oc.op, "Skip"):
					// bufio.Reader.Discard goes on after an error that came
					// with data, and gets the rest.
					c.Outcome("skipped all the same")
				case err == nil:
					c.Failf("%s, want the error", desc())
				case f.err == io.EOF && !errors.Is(err, io.EOF) && !errors.Is(err, io.ErrUnexpectedEOF), f.err != io.EOF && !errors.Is(err, f.err):
					c.Failf("%s, want that error", desc())
				default:
					c.Outcome("error")
				}
			}}}
	})
}
