//go:build go1.23

package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/internal/zzverif/engine"
	"github.com/itstarsun/go-thrift/internal/zzverif/ref"
	"github.com/itstarsun/go-thrift/internal/zzverif/uni"
)

func init() {
	register(&engine.Prop{ID: "C14", Level: level,
		Rule:        "an execution abandons one or two operations at one point, resets, and compares with a new reader or writer",
		Assumptions: []string{"readers and writers are compared by results, error texts and bytes delivered"},
		Spaces:      c14Spaces})
}

var errStop = errors.New("the caller stops here")

// Streams for readers: plain, a bufio.Reader that is large enough to be used
// as it is, one that is not, and one that already holds data in its buffer.
var readerKinds = []string{"bytes.Reader", "bufio.Reader", "small bufio.Reader", "filled bufio.Reader"}

func readerOf(kind int, b []byte) io.Reader {
	switch kind {
	case 1:
		return bufio.NewReader(bytes.NewReader(b))
	case 2:
		return bufio.NewReaderSize(bytes.NewReader(b), 16)
	case 3:
		r := bufio.NewReaderSize(bytes.NewReader(b), 8192)
		_, _ = r.Peek(1)
		return r
	}
	return bytes.NewReader(b)
}

// readProbe reads from r and tells everything it saw.
type readProbe struct {
	name string
	in   func(p ref.Proto) []byte
	run  func(r thriftwire.Reader) string
}

func readProbes(th bool) []readProbe {
	var ps []readProbe
	samples := uni.Samples(th)
	if !th {
		samples = []ref.V{samples[0], samples[10], samples[13], samples[15], samples[17], samples[24], samples[27], samples[28]}
	}
	for _, v := range samples {
		ps = append(ps, readProbe{"value " + v.String(),
			func(p ref.Proto) []byte { return p.Enc(p.Enc(nil, v), ref.I32V(sentinel)) },
			func(r thriftwire.Reader) string {
				x, err := uni.ReadV(r, v.T)
				y, err2 := r.ReadI32()
				_, err3 := r.ReadByte()
				return fmt.Sprint(x, err, y, err2, err3)
			}})
	}
	// Single operations, twice in a row, also out of place.
	for _, op := range uni.ReadOps {
		for _, in := range []string{"\x15\x15\x11\x02\x01\x02\x03\x04\x05\x06\x07\x08\x09\x0a\x0b\x0c\x0d\x0e\x0f", ""} {
			ps = append(ps, readProbe{op, func(ref.Proto) []byte { return []byte(in) },
				func(r thriftwire.Reader) string {
					a, err := uni.CallR(r, op, nil)
					b, err2 := uni.CallR(r, op, nil)
					c, err3 := r.ReadBool()
					return fmt.Sprint(a, err, b, err2, c, err3)
				}})
		}
	}
	for _, op := range [][]string{
		{"ReadFieldBegin", "ReadFieldBegin", "ReadBool", "ReadBool"},
		{"ReadStructBegin", "ReadStructEnd", "ReadStructEnd"},
		{"ReadMessageBegin", "ReadMessageEnd"},
		{"ReadFieldBegin", "ReadStructBegin", "ReadFieldBegin", "ReadStructEnd", "ReadFieldBegin"},
	} {
		ps = append(ps, readProbe{fmt.Sprint(op), func(p ref.Proto) []byte {
			if p == ref.CompactP {
				return []byte("\x82\x21\x05\x01x\x15\x11\x12\x12\x31\x41\x51\x61")
			}
			return []byte("\x80\x01\x00\x01\x00\x00\x00\x01x\x00\x00\x00\x07\x02\x00\x01\x01\x02\x00\x03")
		}, func(r thriftwire.Reader) string {
			var s string
			for _, o := range op {
				v, err := uni.CallR(r, o, nil)
				s += fmt.Sprintf("%v %v;", v, err)
			}
			return s
		}})
	}
	return ps
}

// abandonR starts to read v and stops after some operation, or because the
// input ends or fails. It returns what was not delivered yet.
func abandonR(c *engine.Ctx, p ref.Proto, v ref.V, mk func(b []byte) thriftwire.Reader, few bool) thriftwire.Reader {
	b := p.Enc(nil, v)
	nops := 0
	tap := &uni.TapR{R: uni.Impl(p).NewReader(bytes.NewReader(b)), Before: func(string) error { nops++; return nil }}
	if _, err := uni.ReadV(tap, v.T); err != nil {
		c.Failf("%v: reading %v: %v", p, v, err)
	}
	n := nops + 1
	cut := len(b)
	if few {
		n = min(n, 3)
		cut = min(cut, 2)
	}
	stop := c.Choose(n + cut)
	c.Step()
	if stop >= n { // the input ends early
		b = b[:stop-n]
		r := mk(b)
		_, err := uni.ReadV(r, v.T)
		c.Logf("read %v from %d bytes: %v", v, len(b), err)
		return r
	}
	if few && stop == 2 {
		stop = nops - 1
	}
	r := mk(p.Enc(b, ref.StrV("leftover")))
	left := stop
	_, err := uni.ReadV(&uni.TapR{R: r, Before: func(string) error {
		if left == 0 {
			return errStop
		}
		left--
		return nil
	}}, v.T)
	c.Logf("read %v up to operation %d of %d: %v", v, stop, nops, err)
	return r
}

type writeProbe struct {
	name string
	run  func(w thriftwire.Writer) string
}

func writeProbes(th bool) []writeProbe {
	var ps []writeProbe
	samples := uni.Samples(th)
	if !th {
		samples = []ref.V{samples[0], samples[10], samples[13], samples[15], samples[17], samples[24], samples[27], samples[28]}
	}
	for _, v := range samples {
		ps = append(ps, writeProbe{"value " + v.String(), func(w thriftwire.Writer) string {
			err := uni.WriteV(w, v)
			return fmt.Sprint(err, w.Flush())
		}})
	}
	for _, op := range uni.WriteOps {
		ps = append(ps, writeProbe{op, func(w thriftwire.Writer) string {
			err := uni.CallW(w, op, uni.Arg(op, 0))
			err2 := uni.CallW(w, op, uni.Arg(op, 1))
			err3 := w.WriteBool(true)
			return fmt.Sprint(err, err2, err3, w.Flush())
		}})
	}
	for _, ops := range [][]string{
		{"WriteFieldBegin", "WriteBool", "WriteBool"},
		{"WriteStructBegin", "WriteFieldBegin", "WriteBool", "WriteStructEnd", "WriteStructEnd", "WriteFieldBegin", "WriteBool"},
		{"Flush", "WriteMessageBegin", "Flush"},
	} {
		ps = append(ps, writeProbe{fmt.Sprint(ops), func(w thriftwire.Writer) (s string) {
			for _, op := range ops {
				s += fmt.Sprint(uni.CallW(w, op, uni.Arg(op, 0)), ";")
			}
			return s + fmt.Sprint(w.Flush())
		}})
	}
	return ps
}

// flakySink takes n bytes and then fails (n < 0: never).
type flakySink struct {
	buf     bytes.Buffer
	n       int
	flushes int
}

var errSink = errors.New("sink failed")

func (s *flakySink) Write(p []byte) (int, error) {
	if s.n >= 0 && s.buf.Len()+len(p) > s.n {
		k := s.n - s.buf.Len()
		s.buf.Write(p[:k])
		return k, errSink
	}
	return s.buf.Write(p)
}

func (s *flakySink) Flush() error { s.flushes++; return nil }

type plainSink struct{ *flakySink }

func (s plainSink) Flush(int) {} // hides Flush

// Streams for writers: without and with Flush, a bufio.Writer large enough to
// be used as it is, one that is not.
var writerKinds = []string{"io.Writer", "io.Writer with Flush", "bufio.Writer", "small bufio.Writer"}

func writerOf(kind int, s *flakySink) io.Writer {
	switch kind {
	case 0:
		return plainSink{s}
	case 2:
		return bufio.NewWriter(s)
	case 3:
		return bufio.NewWriterSize(s, 16)
	}
	return s
}

func abandonW(c *engine.Ctx, p ref.Proto, v ref.V, w thriftwire.Writer, few bool) (ops int) {
	nops := 0
	tap := &uni.TapW{W: uni.Impl(p).NewWriter(&bytes.Buffer{}), Before: func(string, any) error { nops++; return nil }}
	if err := uni.WriteV(tap, v); err != nil {
		c.Failf("%v: writing %v: %v", p, v, err)
	}
	n := nops + 1
	if few {
		n = min(n, 3)
	}
	stop := c.Choose(n)
	if few && stop == 2 {
		stop = nops - 1
	}
	left := stop
	c.Step()
	err := uni.WriteV(&uni.TapW{W: w, Before: func(string, any) error {
		if left == 0 {
			return errStop
		}
		left--
		return nil
	}}, v)
	flush := c.Choose(2) == 1
	if flush {
		err = w.Flush()
	}
	c.Logf("write %v up to operation %d of %d, flush %v: %v", v, stop, nops, flush, err)
	return stop
}

func c14Spaces(th bool) []engine.Space {
	hist := uni.Samples(th)
	rp, wp := readProbes(th), writeProbes(th)
	np := len(uni.Protos)
	second := []ref.V{
		ref.StructV(ref.F(1, ref.BoolV(true))),
		ref.StructV(ref.F(9, ref.StructV(ref.F(3, ref.BoolV(false))))),
		ref.ListV(ref.Bool, ref.BoolV(true)),
	}
	checkR := func(c *engine.Ctx, p ref.Proto, r thriftwire.Reader, kind int, pr readProbe) {
		in := pr.in(p)
		src := readerOf(kind, in)
		c.Step()
		r.Reset(src)
		got := pr.run(r)
		src2 := readerOf(kind, in)
		want := pr.run(uni.Impl(p).NewReader(src2))
		if got != want {
			c.Failf("%v: %s on %s after Reset to a %s: %s; a new reader: %s", p, pr.name, uni.Hex(in), readerKinds[kind], got, want)
		}
		if kind == 1 || kind == 3 { // the stream is the reader's buffer
			a, err := io.ReadAll(src)
			b, err2 := io.ReadAll(src2)
			if !bytes.Equal(a, b) || err != err2 {
				c.Failf("%v: %s on a %s after Reset leaves %s, %v; a new reader: %s, %v", p, pr.name, readerKinds[kind], uni.Hex(a), err, uni.Hex(b), err2)
			}
		}
		c.State(uint64(len(got)) ^ uint64(len(in))<<20)
	}
	return []engine.Space{
		{Name: "reader", Shards: np * len(hist), Bound: fmt.Sprintf("%d values abandoned after every operation or cut at every byte, at most one more abandonment, %d probes", len(hist), len(rp)),
			Run: func(c *engine.Ctx, sh int) {
				p, v := uni.Protos[sh%np], hist[sh/np]
				if !th && v.Size() > 12 && len(v.L) > 10 {
					v.L = v.L[:3]
				}
				r := abandonR(c, p, v, func(b []byte) thriftwire.Reader { return uni.Impl(p).NewReader(bytes.NewReader(b)) }, false)
				if n := c.Choose(1 + len(second)); n > 0 {
					abandonR(c, p, second[n-1], func(b []byte) thriftwire.Reader { r.Reset(bytes.NewReader(b)); return r }, true)
				}
				pr := rp[c.Choose(len(rp))]
				checkR(c, p, r, 0, pr)
				c.StateOf(sh, pr.name)
			}},
		{Name: "reader streams", Shards: np * len(second) * 4, Bound: "every pair of 4 kinds of streams, 3 values abandoned after every operation, at most one more reset, all probes, the earlier streams untouched",
			Run: func(c *engine.Ctx, sh int) {
				p, v, k1 := uni.Protos[sh%np], second[sh/np%len(second)], sh/np/len(second)
				k2, k3 := c.Choose(4), c.Choose(5)
				b := append(p.Enc(nil, v), "rest"...)
				nops := 0
				_, _ = uni.ReadV(&uni.TapR{R: uni.Impl(p).NewReader(bytes.NewReader(b)), Before: func(string) error { nops++; return nil }}, v.T)
				stop := c.Choose(nops + 1)
				src := readerOf(k1, b)
				r := uni.Impl(p).NewReader(src)
				left := stop
				_, _ = uni.ReadV(&uni.TapR{R: r, Before: func(string) error {
					if left == 0 {
						return errStop
					}
					left--
					return nil
				}}, v.T)
				// What a reader that is thrown away instead leaves in the stream.
				twin := readerOf(k1, b)
				left = stop
				_, _ = uni.ReadV(&uni.TapR{R: uni.Impl(p).NewReader(twin), Before: func(string) error {
					if left == 0 {
						return errStop
					}
					left--
					return nil
				}}, v.T)
				var src3 io.Reader
				if k3 < 4 { // a reset in between
					src3 = readerOf(k3, []byte("\x15\x02abcdef"))
					r.Reset(src3)
					_, _ = r.ReadByte()
				}
				c.Logf("%s, %d operations of %v; then %v; then %s", readerKinds[k1], stop, v, k3, readerKinds[k2])
				checkR(c, p, r, k2, rp[c.Choose(len(rp))])
				check := func(src, twin io.Reader, name string) {
					a, err := io.ReadAll(src)
					b, err2 := io.ReadAll(twin)
					if !bytes.Equal(a, b) || err != err2 {
						c.Failf("%v: the %s the reader was made for had %s, %v left before Reset, %s, %v after", p, name, uni.Hex(b), err2, uni.Hex(a), err)
					}
				}
				if k1 == 1 || k1 == 3 {
					check(src, twin, readerKinds[k1])
				}
				if k3 == 1 || k3 == 3 {
					check(src3, bytes.NewReader([]byte("\x02abcdef")), readerKinds[k3])
				}
				c.StateOf(sh, k2, k3, stop)
			}},
		{Name: "writer", Shards: np * len(hist), Bound: fmt.Sprintf("%d values abandoned after every operation, flushed or not, output failing or not, at most one more abandonment, %d probes", len(hist), len(wp)),
			Run: func(c *engine.Ctx, sh int) {
				p, v := uni.Protos[sh%np], hist[sh/np]
				if !th && len(v.L) > 10 {
					v.L = v.L[:3]
				}
				first := &flakySink{n: []int{-1, 0, 1}[c.Choose(3)]}
				w := uni.Impl(p).NewWriter(first)
				abandonW(c, p, v, w, false)
				var mid *flakySink
				if n := c.Choose(1 + len(second)); n > 0 {
					mid = &flakySink{n: -1}
					w.Reset(mid)
					abandonW(c, p, second[n-1], w, true)
				}
				before := first.buf.String()
				pr := wp[c.Choose(len(wp))]
				checkW(c, p, w, 1, pr)
				if first.buf.String() != before {
					c.Failf("%v: after Reset the first output still got %s", p, uni.Hex(first.buf.Bytes()[len(before):]))
				}
				c.StateOf(sh, pr.name)
			}},
		{Name: "writer streams", Shards: np * len(second) * 4, Bound: "every pair of 4 kinds of streams, 3 values abandoned after every operation, flushed or not, at most one more reset, all probes, the earlier streams untouched",
			Run: func(c *engine.Ctx, sh int) {
				p, v, k1 := uni.Protos[sh%np], second[sh/np%len(second)], sh/np/len(second)
				k2, k3 := c.Choose(4), c.Choose(5)
				s1, s3 := &flakySink{n: -1}, &flakySink{n: -1}
				u1 := writerOf(k1, s1)
				w := uni.Impl(p).NewWriter(u1)
				abandonW(c, p, v, w, false)
				var u3 io.Writer
				if k3 < 4 {
					u3 = writerOf(k3, s3)
					w.Reset(u3)
					_ = w.WriteByte('3')
				}
				checkW(c, p, w, k2, wp[c.Choose(len(wp))])
				// What the caller writes to its own streams goes there.
				own := func(u io.Writer, s *flakySink, name string) {
					if bw, ok := u.(*bufio.Writer); ok {
						_, err := bw.WriteString("!own!")
						err2 := bw.Flush()
						if !bytes.HasSuffix(s.buf.Bytes(), []byte("!own!")) || err != nil || err2 != nil {
							c.Failf("%v: the %s the writer used before Reset does not deliver to its own output any more: %s %v %v", p, name, uni.Hex(s.buf.Bytes()), err, err2)
						}
					}
				}
				own(u1, s1, writerKinds[k1])
				if k3 < 4 {
					own(u3, s3, writerKinds[k3])
				}
				c.StateOf(sh, k2, k3)
			}},
		{Name: "the same stream again", Shards: np * len(hist) * 2, Bound: fmt.Sprintf("%d values abandoned after every operation, then the stream itself is rewound and given to Reset, once or twice: 2 kinds of inputs, 4 kinds of outputs that work, fail or accept one byte, %d and %d probes", len(hist), len(rp), len(wp)),
			Run: func(c *engine.Ctx, sh int) {
				p, v := uni.Protos[sh/2%np], hist[sh/2/np]
				if len(v.L) > 10 {
					v.L = v.L[:3]
				}
				again := 1 + c.Choose(2)
				if sh%2 == 0 {
					kind := c.Choose(2)
					plain, br := bytes.NewReader(nil), bufio.NewReader(nil)
					var src io.Reader = plain
					if kind == 1 {
						src = br
					}
					fill := func(b []byte) {
						plain.Reset(b)
						br.Reset(bytes.NewReader(b))
					}
					r := abandonR(c, p, v, func(b []byte) thriftwire.Reader { fill(b); return uni.Impl(p).NewReader(src) }, again == 2)
					pr := rp[c.Choose(len(rp))]
					in := pr.in(p)
					want := pr.run(uni.Impl(p).NewReader(bytes.NewReader(in)))
					for i := range again {
						fill(in)
						c.Step()
						r.Reset(src)
						if got := pr.run(r); got != want {
							c.Failf("%v: %s on %s after Reset %d to the same %s: %s; a new reader: %s", p, pr.name, uni.Hex(in), i+1, readerKinds[kind], got, want)
						}
					}
					c.StateOf(sh, kind, pr.name)
					return
				}
				kind := c.Choose(4)
				s := &flakySink{n: []int{-1, 0, 1}[c.Choose(3)]}
				u := writerOf(kind, s)
				w := uni.Impl(p).NewWriter(u)
				abandonW(c, p, v, w, again == 2)
				pr := wp[c.Choose(len(wp))]
				s2 := &flakySink{n: -1}
				want := pr.run(uni.Impl(p).NewWriter(writerOf(kind, s2)))
				for i := range again {
					*s = flakySink{n: -1}
					if bw, ok := u.(*bufio.Writer); ok {
						bw.Reset(s)
					}
					c.Step()
					w.Reset(u)
					if got := pr.run(w); got != want || !bytes.Equal(s.buf.Bytes(), s2.buf.Bytes()) || s.flushes != s2.flushes {
						c.Failf("%v: %s after Reset %d to the same %s: %s, delivered %s, %d flushes; a new writer: %s, %s, %d", p, pr.name, i+1, writerKinds[kind],
							got, uni.Hex(s.buf.Bytes()), s.flushes, want, uni.Hex(s2.buf.Bytes()), s2.flushes)
					}
				}
				c.StateOf(sh, kind, pr.name)
			}},
		{Name: "series", Shards: np * 3, Bound: "the same reader and writer reset 1 to 300 times, every value in turn abandoned in the middle",
			Run: func(c *engine.Ctx, sh int) {
				p, part := uni.Protos[sh%np], sh/np
				n := []int{1, 2, 3, 50, 300}[c.Choose(5)]
				hs := []int{0, 1, len(hist) / 2}[part]
				r := uni.Impl(p).NewReader(bytes.NewReader(nil))
				w := uni.Impl(p).NewWriter(io.Discard)
				for i := range n {
					v := hist[(i+hs)%len(hist)]
					b := p.Enc(nil, v)
					left := i % 5
					stop := func(string) error {
						if left == 0 {
							return errStop
						}
						left--
						return nil
					}
					c.Step()
					r.Reset(bytes.NewReader(b[:len(b)-i%2]))
					_, _ = uni.ReadV(&uni.TapR{R: r, Before: stop}, v.T)
					left = i % 7
					_ = uni.WriteV(&uni.TapW{W: w, Before: func(op string, _ any) error { return stop(op) }}, v)
					w.Reset(io.Discard)
				}
				checkR(c, p, r, 0, rp[c.Choose(len(rp))])
				checkW(c, p, w, 0, wp[c.Choose(len(wp))])
				c.StateOf(sh, n)
			}},
	}
}

func checkW(c *engine.Ctx, p ref.Proto, w thriftwire.Writer, kind int, pr writeProbe) {
	s := &flakySink{n: -1}
	u := writerOf(kind, s)
	c.Step()
	w.Reset(u)
	got := pr.run(w)
	s2 := &flakySink{n: -1}
	want := pr.run(uni.Impl(p).NewWriter(writerOf(kind, s2)))
	if got != want || !bytes.Equal(s.buf.Bytes(), s2.buf.Bytes()) || s.flushes != s2.flushes {
		c.Failf("%v: %s after Reset to a %s: %s, delivered %s, %d flushes; a new writer: %s, %s, %d", p, pr.name, writerKinds[kind],
			got, uni.Hex(s.buf.Bytes()), s.flushes, want, uni.Hex(s2.buf.Bytes()), s2.flushes)
	}
}
