//go:build go1.23

package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"sync"
	"syscall"
	"unsafe"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/internal/zzverif/engine"
	"github.com/itstarsun/go-thrift/internal/zzverif/ref"
	"github.com/itstarsun/go-thrift/internal/zzverif/uni"
)

// This file holds sizes the formats have no room for.

// zeros returns n bytes that take no memory.
var zeros = sync.OnceValues(func() ([]byte, error) {
	return syscall.Mmap(-1, 0, 1<<32+16, syscall.PROT_READ, syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_NORESERVE)
})

// counter keeps the beginning of what is written.
type counter struct {
	head []byte
	n    int
}

func (x *counter) Write(p []byte) (int, error) {
	x.head = append(x.head, p[:min(len(p), 64-len(x.head))]...)
	x.n += len(p)
	return len(p), nil
}

func (x *counter) WriteString(s string) (int, error) {
	x.head = append(x.head, s[:min(len(s), 64-len(x.head))]...)
	x.n += len(s)
	return len(s), nil
}

func init() {
	extend("C21", func(bool) []engine.Space {
		np := len(uni.Protos)
		sizes := []int{math.MaxInt32, math.MaxInt32 + 1, math.MaxInt32 + 2, math.MaxUint32, 1 << 32, 1<<32 + 1, 1<<32 + 5, 1<<35 - 1, 1 << 35, 3<<40 + 7, 1<<62 + 1, math.MaxInt64}
		lens := []int{math.MaxInt32, math.MaxInt32 + 1, 1 << 32, 1<<32 + 5}
		return []engine.Space{
			{Name: "sizes beyond the format", Shards: np * 3, Bound: fmt.Sprintf("headers of lists, sets and maps of all types and %d sizes from 2^31-1 to 2^63-1: written and read again, they are the same or rejected", len(sizes)),
				Run: func(c *engine.Ctx, sh int) {
					p, kind := uni.Protos[sh%np], sh/np
					n, et := engine.Pick(c, sizes), engine.Pick(c, ref.All)
					var out bytes.Buffer
					w := uni.Impl(p).NewWriter(&out)
					r := uni.Impl(p).NewReader(&out)
					var werr, rerr error
					got := n
					c.Steps(2)
					switch kind {
					case 0:
						werr = w.WriteListBegin(thriftwire.ListHeader{Element: thriftwire.Type(et), Size: n})
					case 1:
						werr = w.WriteSetBegin(thriftwire.SetHeader{Element: thriftwire.Type(et), Size: n})
					case 2:
						werr = w.WriteMapBegin(thriftwire.MapHeader{Key: thriftwire.I32, Value: thriftwire.Type(et), Size: n})
					}
					what := "rejected by the writer"
					if werr == nil {
						must(c, w.Flush(), "Flush")
						switch kind {
						case 0:
							var h thriftwire.ListHeader
							h, rerr = r.ReadListBegin()
							got = h.Size
						case 1:
							var h thriftwire.SetHeader
							h, rerr = r.ReadSetBegin()
							got = h.Size
						case 2:
							var h thriftwire.MapHeader
							h, rerr = r.ReadMapBegin()
							got = h.Size
						}
						what = "read again"
						if rerr != nil {
							what = "rejected by the reader"
						} else if got != n {
							c.Failf("%s: a header of kind %d of size %d is read as one of size %d", p, kind, n, got)
						}
					} else if n == math.MaxInt32 {
						c.Failf("%s: a header of kind %d of size %d: %v", p, kind, n, werr)
					}
					c.Outcome(what)
					c.Nontrivial()
					c.StateOf(sh, n, et)
				}},
			{Name: "lengths beyond the format", Shards: 1, Serial: true, Bound: fmt.Sprintf("strings and byte strings of %d lengths of 2^31 and more: written with the length they have or rejected, and then nothing of them is written", len(lens)),
				Run: func(c *engine.Ctx, _ int) {
					p, n, str := engine.Pick(c, uni.Protos), engine.Pick(c, lens), c.Choose(2) == 1
					all, err := zeros()
					if err != nil {
						c.Outcome("no address space")
						return
					}
					var out counter
					w := uni.Impl(p).NewWriter(&out)
					c.Step()
					if str {
						err = w.WriteString(unsafe.String(&all[0], n))
					} else {
						err = w.WriteBytes(all[:n])
					}
					ferr := w.Flush()
					if err != nil {
						if n <= math.MaxInt32 || out.n != 0 {
							c.Failf("%s: writing %d bytes: %v; %d bytes written", p, n, err, out.n)
						}
						c.Outcome("rejected")
						c.Nontrivial()
						return
					}
					must(c, ferr, "Flush")
					var size uint64
					k := 4
					if p == ref.CompactP {
						size, k = binary.Uvarint(out.head)
					} else {
						size = uint64(binary.BigEndian.Uint32(out.head))
					}
					if p != ref.CompactP && n > math.MaxInt32 || size != uint64(n) || out.n != k+n {
						c.Failf("%s: %d bytes are written as %d: %x..., %d bytes", p, n, size, out.head[:k], out.n)
					}
					c.Outcome("written")
					c.Nontrivial()
				}},
		}
	})
}
