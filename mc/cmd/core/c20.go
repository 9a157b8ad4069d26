//go:build go1.23

package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/internal/zzverif/engine"
	"github.com/itstarsun/go-thrift/internal/zzverif/uni"
)

func init() {
	register(&engine.Prop{ID: "C20", Level: level,
		Rule:        "an execution calls one or two of the helpers on one buffer in one state over one input",
		Assumptions: []string{"after a varint over 64 bits the position is left open", "what a failing ReadString or ReadBytes returns is a prefix of what there was"},
		Spaces:      c20Spaces})
}

var errFeed = errors.New("the input failed")

// window is a model of the helpers: data, of which off bytes were consumed,
// and then err.
type window struct {
	data []byte
	off  int
	err  error
}

// take is what reading n bytes must do.
func (w *window) take(n int) (b []byte, err error) {
	left := w.data[w.off:]
	if n <= len(left) {
		w.off += n
		return left[:n], nil
	}
	w.off = len(w.data)
	if w.err == io.EOF && len(left) > 0 {
		return left, io.ErrUnexpectedEOF
	}
	return left, w.err
}

// op is one of Next, ReadString, ReadBytes with several destinations.
func (w *window) op(c *engine.Ctx, b *bufio.Reader, op, n int) bool {
	c.Step()
	off := w.off
	want, wantErr := w.take(n)
	name := []string{"Next", "ReadString", "ReadBytes", "ReadBytes to a prefix", "ReadBytes to spare capacity"}[op]
	var got []byte
	var err error
	switch op {
	case 0:
		if n > b.Size() { // as Peek: not more than the buffer holds
			w.off = min(off+b.Size(), len(w.data))
			full := off+b.Size() <= len(w.data)
			got, err = thriftwire.Next(b, n)
			if err == nil || len(got) > 0 && !bytes.HasPrefix(w.data[off:], got) || len(got) > b.Size() || full && !errors.Is(err, bufio.ErrBufferFull) {
				c.Failf("Next(%d) of a buffer of %d: %x, %v", n, b.Size(), got, err)
			}
			w.off = off + len(got)
			return false
		}
		got, err = thriftwire.Next(b, n)
		got = bytes.Clone(got)
	case 1:
		var s string
		s, err = thriftwire.ReadString(b, n)
		got = []byte(s)
	case 2:
		got, err = thriftwire.ReadBytes(b, n, nil)
	case 3:
		got, err = thriftwire.ReadBytes(b, n, []byte("prefix"))
		if !bytes.HasPrefix(got, []byte("prefix")) {
			c.Failf("ReadBytes(%d) after a prefix gives %x", n, got)
		}
		got = got[len("prefix"):]
	case 4:
		back := bytes.Repeat([]byte{0xcc}, 64)
		got, err = thriftwire.ReadBytes(b, n, back[1:3:40])
		if !bytes.HasPrefix(got, []byte{0xcc, 0xcc}) {
			c.Failf("ReadBytes(%d) after a prefix gives %x", n, got)
		}
		got = got[2:]
		if back[0] != 0xcc || !bytes.Equal(back[40:], bytes.Repeat([]byte{0xcc}, 24)) {
			c.Failf("ReadBytes(%d) writes outside of its buffer: %x", n, back)
		}
	}
	switch {
	case wantErr == nil && (err != nil || !bytes.Equal(got, want)):
		c.Failf("%s(%d) of %d bytes left, buffer %d: %x, %v; want %x", name, n, len(w.data)-off, b.Size(), got, err, want)
	case wantErr != nil && err != wantErr:
		c.Failf("%s(%d) of %d bytes left, buffer %d: error %v, want %v", name, n, len(w.data)-off, b.Size(), err, wantErr)
	case wantErr != nil && (op == 0 && !bytes.Equal(got, want) || !bytes.HasPrefix(want, got)):
		c.Failf("%s(%d) of %d bytes left, buffer %d: %x with %v, want %x", name, n, len(w.data)-off, b.Size(), got, err, want)
	}
	return wantErr == nil
}

// rest checks that exactly what was not consumed is left.
func (w *window) rest(c *engine.Ctx, b *bufio.Reader) {
	got, err := io.ReadAll(b)
	if !bytes.Equal(got, w.data[w.off:]) || err != nil && err != w.err {
		c.Failf("%d bytes are left (%x, %v), want %d", len(got), got, err, len(w.data)-w.off)
	}
}

func c20Spaces(th bool) []engine.Space {
	data := []byte(pattern(80))
	sizes := []int{16, 17, 24, 33}
	totals := []int{0, 1, 2, 8, 15, 16, 17, 31, 32, 33, 40, 47, 48, 49, 64, 65, 70}
	chunks := []int{0, 1, 2, 5, 15, 16, 17}
	if th {
		sizes = append(sizes, 18, 31, 32, 48)
		totals = nil
		for i := range 72 {
			totals = append(totals, i)
		}
		chunks = append(chunks, 3, 4, 7, 8, 31, 33)
	}
	big := []int{0, 1, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 12289, 20000}
	setup := func(c *engine.Ctx, size, total, chunk int) (*window, *bufio.Reader) {
		w := &window{data: data[:total], err: io.EOF}
		f := &uni.Feed{B: w.data, Chunk: chunk}
		switch c.Choose(3) {
		case 1:
			f.WithLast = true
		case 2:
			f.Err, w.err = errFeed, errFeed
		}
		return w, bufio.NewReaderSize(f, size)
	}
	alphabet := []byte{0, 1, 2, 0x3f, 0x40, 0x7e, 0x7f, 0x80, 0x81, 0x82, 0xbf, 0xc0, 0xfe, 0xff}
	// varint compares both helpers with the standard library on in, with lead
	// bytes consumed before and ahead bytes buffered.
	varint := func(c *engine.Ctx, in []byte, size, lead, ahead, chunk int, feedErr error) {
		mk := func() *bufio.Reader {
			full := append(make([]byte, lead), in...)
			b := bufio.NewReaderSize(&uni.Feed{B: full, Chunk: chunk, Err: feedErr}, size)
			_, _ = b.Discard(lead)
			if ahead > 0 {
				_, _ = b.Peek(ahead)
			}
			return b
		}
		for signed := range 2 {
			c.Step()
			b, b2 := mk(), mk()
			var x, y uint64
			var err, err2 error
			if signed == 1 {
				var i, j int64
				i, err = thriftwire.ReadVarint(b)
				j, err2 = binary.ReadVarint(b2)
				x, y = uint64(i), uint64(j)
			} else {
				x, err = thriftwire.ReadUvarint(b)
				y, err2 = binary.ReadUvarint(b2)
			}
			stdEOF := err2 == io.EOF || err2 == io.ErrUnexpectedEOF || err2 == errFeed
			if (err == nil) != (err2 == nil) || err == nil && x != y || stdEOF && err != err2 || err2 != nil && !stdEOF && (err == io.EOF || err == io.ErrUnexpectedEOF) {
				c.Failf("varint %x (signed %d, buffer %d, %d before, %d buffered): %x, %v; encoding/binary says %x, %v", in, signed, size, lead, ahead, x, err, y, err2)
			}
			if err2 == nil {
				r1, _ := io.ReadAll(b)
				r2, _ := io.ReadAll(b2)
				if !bytes.Equal(r1, r2) {
					c.Failf("varint %x (signed %d, buffer %d, %d before, %d buffered): %d bytes are left, want %d", in, signed, size, lead, ahead, len(r1), len(r2))
				}
			}
		}
	}
	tail := []byte{0xd5, 0x83, 0x05}
	return []engine.Space{
		{Name: "two operations", Shards: len(sizes) * len(totals), Bound: fmt.Sprintf("buffers of %v, inputs of %v bytes in chunks of %v, ending in three ways, 0 to 3 bytes buffered before; two operations out of 5 with all lengths up to 70", sizes, totals, chunks),
			Run: func(c *engine.Ctx, sh int) {
				size, total := sizes[sh%len(sizes)], totals[sh/len(sizes)]
				w, b := setup(c, size, total, engine.Pick(c, chunks))
				if k := c.Choose(3); k > 0 && total > 0 { // a part of the buffer is filled or used up
					n := min(total, []int{0, 1, 13}[k])
					if _, err := b.Discard(n); err != nil {
						c.Failf("setup: %v", err)
					}
					w.off = n
				}
				n1 := c.Choose(72)
				ok := w.op(c, b, c.Choose(5), n1)
				if ok && w.off < len(w.data) {
					if k := c.Choose(6); k < 5 {
						w.op(c, b, k, []int{1, size, len(w.data) - w.off, len(w.data) - w.off + 1}[c.Choose(4)])
					}
				}
				w.rest(c, b)
				c.StateOf(size, total, n1, w.off)
			}},
		{Name: "sequences", Shards: len(sizes), Bound: "all sequences of up to 4 operations with lengths 0, 1, 7, 16, 20 on 70 bytes",
			Run: func(c *engine.Ctx, sh int) {
				w, b := setup(c, sizes[sh], 70, []int{0, 1, 9}[c.Choose(3)])
				n := 3
				if th {
					n = 4
				}
				for range n {
					op := c.Choose(6)
					if op == 5 {
						break
					}
					k := engine.Pick(c, []int{0, 1, 7, 16, 20})
					if !w.op(c, b, op, k) && !(op == 0 && k > sizes[sh]) {
						break
					}
				}
				w.rest(c, b)
				c.StateOf(sh, w.off)
			}},
		{Name: "large and negative lengths", Shards: len(big), Bound: fmt.Sprintf("lengths of %v and -1 of as many bytes or one less, buffers of 16, 4096 and 8192", big),
			Run: func(c *engine.Ctx, sh int) {
				n := big[sh]
				size := []int{16, 4096, 8192}[c.Choose(3)]
				d := []byte(pattern(n + 1))
				total := n + []int{0, 1, -1}[c.Choose(3)]
				if total < 0 {
					return
				}
				w := &window{data: d[:total], err: io.EOF}
				b := bufio.NewReaderSize(&uni.Feed{B: w.data, Chunk: []int{0, 1000}[c.Choose(2)]}, size)
				op := c.Choose(5)
				if c.Choose(2) == 1 {
					c.Step()
					var err error
					switch op {
					case 0:
						_, err = thriftwire.Next(b, -1)
					case 1:
						_, err = thriftwire.ReadString(b, -1)
					default:
						var got []byte
						got, err = thriftwire.ReadBytes(b, -1, []byte("xy"))
						if string(got) != "xy" {
							c.Failf("ReadBytes(-1) returns %x", got)
						}
					}
					if err == nil {
						c.Failf("operation %d with a negative length: no error", op)
					}
				} else {
					w.op(c, b, op, n)
				}
				w.rest(c, b)
				c.StateOf(sh, size, op, total)
			}},
		{Name: "short varints", Shards: 256, Bound: "all varints of up to 2 bytes (thorough: 3), cut or not",
			Run: func(c *engine.Ctx, sh int) {
				in := []byte{byte(sh)}
				n := 2
				if th {
					n = 3
				}
				for in[len(in)-1] >= 0x80 && len(in) < n {
					k := c.Choose(257)
					if k == 256 {
						break
					}
					in = append(in, byte(k))
				}
				full := in
				if in[len(in)-1] < 0x80 {
					full = append(append([]byte{}, in...), tail...)
				}
				for _, ahead := range []int{0, 1, len(full)} {
					varint(c, full, 16, 0, ahead, 0, nil)
				}
				c.StateOf(in)
			}},
		{Name: "long varints", Shards: 16, Bound: "all varints of up to 12 bytes over continuation bytes 80, 81, ff and 14 last bytes, cut or followed by others",
			Run: func(c *engine.Ctx, sh int) {
				var in []byte
				n := c.Choose(13)
				for i := range n {
					k := []byte{0x80, 0xff, 0x81}
					if i > 1 && !th || i > 9 {
						k = k[:2]
					}
					in = append(in, engine.Pick(c, k))
				}
				if k := c.Choose(len(alphabet) + 1); k > 0 {
					in = append(append(in, alphabet[k-1]), tail...)
				}
				// One of 16 ways to deliver it.
				lead, chunk := []int{0, 9, 13, 15}[sh%4], []int{0, 1, 3, 0}[sh/4]
				var fe error
				if sh/4 == 3 {
					fe = errFeed
				}
				for _, ahead := range []int{0, 1, len(in), 16} {
					varint(c, in, 16, lead, ahead, chunk, fe)
				}
				c.StateOf(in)
			}},
		{Name: "varint positions", Shards: 12, Bound: "varints of 1 to 12 bytes at every position of the buffer x every number of bytes buffered x buffers of 16, 17 and 4096 x chunks",
			Run: func(c *engine.Ctx, sh int) {
				var in []byte
				fill := engine.Pick(c, []byte{0x80, 0xff, 0x95})
				for range sh {
					in = append(in, fill)
				}
				in = append(in, []byte{0, 1, 0x7f}[c.Choose(3)])
				if c.Choose(2) == 1 {
					in = append(in, tail...)
				}
				lead := c.Choose(34)
				ahead := c.Choose(17)
				varint(c, in, []int{16, 17, 4096}[c.Choose(3)], lead, ahead, []int{0, 1, 4}[c.Choose(3)], nil)
				c.StateOf(in, lead, ahead)
			}},
	}
}
