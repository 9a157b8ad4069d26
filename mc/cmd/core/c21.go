//go:build go1.23

package main

import (
	"bufio"
	"bytes"
	"fmt"
	"math"
	"strings"

	"github.com/itstarsun/go-thrift/encoding/thriftcompact"
	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/internal/zzverif/engine"
	"github.com/itstarsun/go-thrift/internal/zzverif/ref"
	"github.com/itstarsun/go-thrift/internal/zzverif/uni"
)

func init() {
	register(&engine.Prop{ID: "C21", Level: level,
		Rule:        "an execution writes one sequence of calls and reads it back with one choice among the equivalent calls at every step",
		Assumptions: []string{"header helpers are mixed with a reader or writer only through a bufio.Reader or bufio.Writer that it uses directly"},
		Spaces:      c21Spaces})
}

// stream is a writer or reader together with the buffer it uses directly.
type wstream struct {
	p   ref.Proto
	w   thriftwire.Writer
	bw  *bufio.Writer
	out bytes.Buffer
}

func newWStream(p ref.Proto) *wstream {
	s := &wstream{p: p}
	s.bw = bufio.NewWriter(&s.out)
	s.w = uni.Impl(p).NewWriter(s.bw)
	return s
}

type rstream struct {
	p  ref.Proto
	r  thriftwire.Reader
	br *bufio.Reader
}

func newRStream(p ref.Proto, b []byte) *rstream {
	s := &rstream{p: p, br: bufio.NewReader(bytes.NewReader(b))}
	s.r = uni.Impl(p).NewReader(s.br)
	return s
}

// write writes v; at every step it may deviate from the usual call.
func (s *wstream) write(c *engine.Ctx, v ref.V) {
	w := s.w
	switch v.T {
	case ref.String:
		c.Step()
		switch c.Dev(2) {
		case 0:
			must(c, w.WriteString(v.S), "WriteString")
		case 1:
			must(c, w.WriteBytes([]byte(v.S)), "WriteBytes")
		}
	case ref.Struct:
		must(c, w.WriteStructBegin(thriftwire.StructHeader{Name: [2]string{"S", ""}[len(v.F)%2]}), "WriteStructBegin")
		for _, f := range v.F {
			must(c, w.WriteFieldBegin(thriftwire.FieldHeader{Name: "f", Type: thriftwire.Type(f.V.T), ID: f.ID}), "WriteFieldBegin")
			s.write(c, f.V)
			must(c, w.WriteFieldEnd(), "WriteFieldEnd")
			c.Steps(2)
		}
		must(c, w.WriteStructEnd(), "WriteStructEnd")
	case ref.Map, ref.Set, ref.List:
		n := len(v.L)
		helper := s.p == ref.CompactP && c.Dev(2) == 1
		c.Step()
		var b []byte
		var err error
		switch v.T {
		case ref.Map:
			h := thriftwire.MapHeader{Key: thriftwire.Type(v.KT), Value: thriftwire.Type(v.ET), Size: n / 2}
			if helper {
				b, err = thriftcompact.AppendMapHeader(s.bw.AvailableBuffer(), h)
			} else {
				err = w.WriteMapBegin(h)
			}
		case ref.Set:
			h := thriftwire.SetHeader{Element: thriftwire.Type(v.ET), Size: n}
			if helper {
				b, err = thriftcompact.AppendSetHeader(nil, h)
			} else {
				err = w.WriteSetBegin(h)
			}
		case ref.List:
			h := thriftwire.ListHeader{Element: thriftwire.Type(v.ET), Size: n}
			if helper {
				b, err = thriftcompact.AppendListHeader(make([]byte, 0, thriftcompact.MaxListHeaderSize), h)
			} else {
				err = w.WriteListBegin(h)
			}
		}
		must(c, err, "container header")
		if helper {
			_, err := s.bw.Write(b)
			must(c, err, "Write")
		}
		for _, e := range v.L {
			s.write(c, e)
		}
		switch v.T {
		case ref.Map:
			must(c, w.WriteMapEnd(), "WriteMapEnd")
		case ref.Set:
			must(c, w.WriteSetEnd(), "WriteSetEnd")
		case ref.List:
			must(c, w.WriteListEnd(), "WriteListEnd")
		}
	default:
		c.Step()
		must(c, uni.WriteV(w, v), "writing %v", v)
	}
}

// read reads what must be v; at every step it may deviate from the usual call.
func (s *rstream) read(c *engine.Ctx, v ref.V) {
	r := s.r
	bad := func(got any, err error) {
		c.Failf("%v: %v is read as %v, %v", s.p, v, got, err)
	}
	c.Step()
	switch v.T {
	case ref.String:
		switch c.Dev(5) {
		case 0:
			if x, err := r.ReadString(); x != v.S || err != nil {
				bad(x, err)
			}
		case 1:
			if x, err := r.ReadBytes(nil); string(x) != v.S || err != nil {
				bad(x, err)
			}
		case 2:
			if x, err := r.ReadBytes(make([]byte, 3, 20)); string(x) != "\x00\x00\x00"+v.S || err != nil {
				bad(x, err)
			}
		case 3:
			if err := r.SkipString(); err != nil {
				bad("SkipString", err)
			}
		case 4:
			if err := thriftwire.Skip(r, thriftwire.String); err != nil {
				bad("Skip", err)
			}
		}
	case ref.UUID:
		switch c.Dev(3) {
		case 0:
			var u [16]byte
			if err := r.ReadUUID(&u); string(u[:]) != v.S || err != nil {
				bad(u, err)
			}
		case 1:
			if err := r.SkipUUID(); err != nil {
				bad("SkipUUID", err)
			}
		case 2:
			if err := thriftwire.Skip(r, thriftwire.UUID); err != nil {
				bad("Skip", err)
			}
		}
	case ref.Struct:
		if c.Dev(2) == 1 {
			if err := thriftwire.Skip(r, thriftwire.Struct); err != nil {
				bad("Skip", err)
			}
			return
		}
		if _, err := r.ReadStructBegin(); err != nil {
			bad("ReadStructBegin", err)
		}
		for _, f := range v.F {
			h, err := r.ReadFieldBegin()
			if err != nil || h.ID != f.ID || byte(h.Type) != f.V.T {
				c.Failf("%v: field %d of type %s in %v is read as %v, %v", s.p, f.ID, ref.TName(f.V.T), v, h, err)
			}
			s.read(c, f.V)
			must(c, r.ReadFieldEnd(), "ReadFieldEnd")
			c.Steps(2)
		}
		if h, err := r.ReadFieldBegin(); err != nil || h.Type != thriftwire.Stop {
			c.Failf("%v: the end of %v is read as %v, %v", s.p, v, h, err)
		}
		must(c, r.ReadStructEnd(), "ReadStructEnd")
	case ref.Map, ref.Set, ref.List:
		n := 2
		if s.p == ref.CompactP {
			n = 3
		}
		k := c.Dev(n)
		if k == 1 {
			if err := thriftwire.Skip(r, thriftwire.Type(v.T)); err != nil {
				bad("Skip", err)
			}
			return
		}
		var kt, et thriftwire.Type
		var size int
		var err error
		want := len(v.L)
		switch v.T {
		case ref.Map:
			var h thriftwire.MapHeader
			if k == 2 {
				h, err = thriftcompact.ReadMapHeader(s.br)
			} else {
				h, err = r.ReadMapBegin()
			}
			kt, et, size = h.Key, h.Value, h.Size
			want /= 2
		case ref.Set:
			var h thriftwire.SetHeader
			if k == 2 {
				h, err = thriftcompact.ReadSetHeader(s.br)
			} else {
				h, err = r.ReadSetBegin()
			}
			et, size = h.Element, h.Size
		case ref.List:
			var h thriftwire.ListHeader
			if k == 2 {
				h, err = thriftcompact.ReadListHeader(s.br)
			} else {
				h, err = r.ReadListBegin()
			}
			et, size = h.Element, h.Size
		}
		typed := s.p != ref.CompactP || v.T != ref.Map || want > 0
		if err != nil || size != want || typed && (byte(et) != v.ET || byte(kt) != v.KT) {
			c.Failf("%v: the header of %v is read as %v, %v, %d, %v", s.p, v, kt, et, size, err)
		}
		for _, e := range v.L {
			s.read(c, e)
		}
		switch v.T {
		case ref.Map:
			err = r.ReadMapEnd()
		case ref.Set:
			err = r.ReadSetEnd()
		case ref.List:
			err = r.ReadListEnd()
		}
		must(c, err, "end of %v", v)
	default:
		if c.Dev(2) == 1 {
			if err := thriftwire.Skip(r, thriftwire.Type(v.T)); err != nil {
				bad("Skip", err)
			}
			return
		}
		if x, err := uni.ReadV(r, v.T); err != nil || !ref.Equal(x, v, false) {
			bad(x, err)
		}
	}
}

type item struct {
	msg *ref.Msg
	v   ref.V
}

// runItems writes a stream of messages and values and reads it back.
func runItems(c *engine.Ctx, p ref.Proto, items []item) {
	ws := newWStream(p)
	var want []byte
	for _, it := range items {
		if it.msg != nil {
			c.Step()
			must(c, ws.w.WriteMessageBegin(thriftwire.MessageHeader{Name: it.msg.Name, Type: thriftwire.MessageType(it.msg.Type), ID: it.msg.ID}), "WriteMessageBegin")
			want = p.EncMsg(want, *it.msg)
		}
		ws.write(c, it.v)
		want = p.Enc(want, it.v)
		if it.msg != nil {
			must(c, ws.w.WriteMessageEnd(), "WriteMessageEnd")
		}
	}
	must(c, ws.w.Flush(), "Flush")
	if !bytes.Equal(ws.out.Bytes(), want) {
		c.Failf("%v: %v is written as %s, want %s", p, items, uni.Hex(ws.out.Bytes()), uni.Hex(want))
	}
	rs := newRStream(p, want)
	for _, it := range items {
		if it.msg != nil {
			c.Step()
			h, err := rs.r.ReadMessageBegin()
			if err != nil || h.Name != it.msg.Name || byte(h.Type) != byte(it.msg.Type) || h.ID != it.msg.ID {
				c.Failf("%v: message header %+v is read as %+v, %v", p, *it.msg, h, err)
			}
		}
		rs.read(c, it.v)
		if it.msg != nil {
			must(c, rs.r.ReadMessageEnd(), "ReadMessageEnd")
		}
	}
	if n := rs.br.Buffered(); n != 0 {
		c.Failf("%v: %d bytes are left after %v", p, n, items)
	}
	c.StateOf(p, want)
}

func (it item) String() string {
	if it.msg != nil {
		return fmt.Sprintf("message %q %d %d %v", it.msg.Name, it.msg.Type, it.msg.ID, it.v)
	}
	return it.v.String()
}

func c21Spaces(th bool) []engine.Space {
	np := len(uni.Protos)
	samples := uni.Samples(th)
	var nested []ref.V
	for _, v := range samples {
		if v.T == ref.Struct || v.T >= ref.Struct {
			nested = append(nested, v)
		}
	}
	sizes := []int{0, 1, 2, 13, 14, 15, 16, 17, 63, 64, 127, 128, 255, 256, 16383, 16384, 1 << 20, 1<<21 - 1, 1 << 21, 1<<28 - 1, 1 << 28, math.MaxInt32}
	lasts := []int16{0, 1, -1, 7, 15, 16, 100, 32767, -32768, -16, 300}
	msgs := []ref.Msg{{Name: "m", Type: 1, ID: 1}, {Name: "", Type: 2, ID: -1}, {Name: strings.Repeat("n", 130), Type: 4, ID: 1 << 30}}
	dev := 2
	if th {
		dev = 3
	}
	return []engine.Space{
		{Name: "trees", Shards: np * len(ref.All), Dev: 1 + dev/3, Bound: fmt.Sprintf("every generated value (as C02 and C03) at top level, up to %d deviations among the equivalent calls", 1+dev/3),
			Run: func(c *engine.Ctx, sh int) {
				p, t := uni.Protos[sh%np], ref.All[sh/np]
				lvl := 1
				if th {
					lvl = 0
				}
				v := uni.GenV(c, t, lvl)
				runItems(c, p, []item{{v: v}, {v: ref.I32V(sentinel)}})
			}},
		{Name: "streams", Shards: np * len(samples), Dev: 1, Bound: fmt.Sprintf("every pair of %d samples, as messages and bare, and one more, up to 1 deviation", len(samples)),
			Run: func(c *engine.Ctx, sh int) {
				p := uni.Protos[sh%np]
				its := []item{{v: samples[sh/np]}, {v: engine.Pick(c, samples)}}
				for i := range its {
					if k := c.Choose(1 + len(msgs)); k > 0 {
						its[i].msg = &msgs[k-1]
					}
				}
				its = append(its, item{v: nested[0]}, item{v: ref.StructV(ref.F(1, ref.BoolV(true)), ref.F(3, ref.BoolV(false)))})
				runItems(c, p, its)
			}},
		{Name: "nested in structs", Shards: np * len(nested), Dev: dev, Bound: fmt.Sprintf("every pair of %d nested samples as fields of a struct between other fields, up to %d deviations", len(nested), dev),
			Run: func(c *engine.Ctx, sh int) {
				p := uni.Protos[sh%np]
				a, b := nested[sh/np], engine.Pick(c, nested)
				if a.Size()+b.Size() > 30 && !th {
					return
				}
				id := engine.Pick(c, []int16{2, 16, 17, -5})
				v := ref.StructV(ref.F(1, ref.BoolV(true)), ref.F(id, a), ref.F(id+1, ref.BoolV(false)), ref.F(id+20, b), ref.F(id+21, ref.BoolV(true)))
				runItems(c, p, []item{{v: v}})
			}},
		{Name: "deep structs", Shards: np * 6, Bound: "structs nested 1 to 2000 deep, with fields after each one, IDs from a list",
			Run: func(c *engine.Ctx, sh int) {
				p, d := uni.Protos[sh%np], []int{1, 2, 3, 20, 300, 2000}[sh/np]
				down := engine.Pick(c, []int16{1, 15, 16, 200, -1})
				up := engine.Pick(c, []int16{1, 15, 16, -3})
				v := ref.StructV(ref.F(7, ref.BoolV(true)))
				for i := range d {
					v = ref.StructV(ref.F(down+int16(i%3), v), ref.F(down+int16(i%3)+up, ref.BoolV(i%2 == 0)))
				}
				runItems(c, p, []item{{v: v}})
			}},
		{Name: "container headers", Shards: len(ref.All) * 3, Bound: "compact header helpers for all types and boundary sizes: same bytes and results as the methods and the reference, prefix and limits kept",
			Run: func(c *engine.Ctx, sh int) {
				et, kind := ref.All[sh%len(ref.All)], sh/len(ref.All)
				n := engine.Pick(c, sizes)
				kt := byte(0)
				if kind == 2 {
					kt = engine.Pick(c, ref.All)
				}
				var out bytes.Buffer
				w := thriftcompact.Protocol.NewWriter(&out)
				prefix := []byte("prefix")[:c.Choose(2)*6]
				if c.Choose(2) == 1 {
					prefix = append(make([]byte, 0, 30), prefix...)
				}
				var b, want []byte
				var err, err2 error
				limit := 0
				switch kind {
				case 0:
					h := thriftwire.ListHeader{Element: thriftwire.Type(et), Size: n}
					b, err = thriftcompact.AppendListHeader(prefix, h)
					err2, limit, want = w.WriteListBegin(h), thriftcompact.MaxListHeaderSize, ref.CListHeader(nil, et, n)
				case 1:
					h := thriftwire.SetHeader{Element: thriftwire.Type(et), Size: n}
					b, err = thriftcompact.AppendSetHeader(prefix, h)
					err2, limit, want = w.WriteSetBegin(h), thriftcompact.MaxSetHeaderSize, ref.CListHeader(nil, et, n)
				case 2:
					h := thriftwire.MapHeader{Key: thriftwire.Type(kt), Value: thriftwire.Type(et), Size: n}
					b, err = thriftcompact.AppendMapHeader(prefix, h)
					err2, limit, want = w.WriteMapBegin(h), thriftcompact.MaxMapHeaderSize, ref.CMapHeader(nil, kt, et, n)
				}
				c.Steps(2)
				must(c, err, "Append")
				must(c, err2, "Write")
				must(c, w.Flush(), "Flush")
				if !bytes.HasPrefix(b, prefix) || !bytes.Equal(b[len(prefix):], want) || !bytes.Equal(out.Bytes(), want) || len(want) > limit {
					c.Failf("compact header of kind %d, types %s %s, size %d: helper %x, method %x, want %x (limit %d)", kind, ref.TName(kt), ref.TName(et), n, b, out.Bytes(), want, limit)
				}
				for cut := range len(want) + 1 {
					br := bufio.NewReader(bytes.NewReader(append(append([]byte{}, want[:cut]...), "tail"[:4*(cut/len(want))]...)))
					var gk, ge thriftwire.Type
					var gn int
					c.Step()
					switch kind {
					case 0:
						h, err2 := thriftcompact.ReadListHeader(br)
						ge, gn, err = h.Element, h.Size, err2
					case 1:
						h, err2 := thriftcompact.ReadSetHeader(br)
						ge, gn, err = h.Element, h.Size, err2
					case 2:
						h, err2 := thriftcompact.ReadMapHeader(br)
						gk, ge, gn, err = h.Key, h.Value, h.Size, err2
					}
					if cut < len(want) {
						if err == nil {
							c.Failf("compact header %x cut to %d bytes is read without error", want, cut)
						}
						continue
					}
					typed := kind != 2 || n > 0
					if err != nil || gn != n || typed && (byte(ge) != et || byte(gk) != kt) || br.Buffered() != 4 {
						c.Failf("compact header %x is read as %v %v %d, %v; %d bytes left", want, gk, ge, gn, err, br.Buffered()-4)
					}
				}
				c.StateOf(want)
			}},
		{Name: "field headers", Shards: len(lasts), Bound: "AppendFieldHeader for all 65536 IDs after 11 previous ones, all types: as the reference",
			Run: func(c *engine.Ctx, sh int) {
				last := lasts[sh]
				t := engine.Pick(c, ref.All)
				hi := c.Choose(256)
				for lo := range 256 {
					id := int16(uint16(hi<<8 | lo))
					if wraps(last, id) {
						continue
					}
					for _, isTrue := range []bool{false, true} {
						if t != ref.Bool && isTrue {
							continue
						}
						nib := ref.CType(t)
						if t == ref.Bool {
							nib = 2
							if isTrue {
								nib = 1
							}
						}
						want := ref.CFieldHeader([]byte("p"), id, last, nib)
						got, err := thriftcompact.AppendFieldHeader([]byte("p"), thriftwire.FieldHeader{Type: thriftwire.Type(t), ID: id}, isTrue, last)
						c.Step()
						if err != nil || !bytes.Equal(got, want) || len(want)-1 > thriftcompact.MaxFieldHeaderSize {
							c.Failf("AppendFieldHeader(%s %d after %d) is %x, %v; want %x", ref.TName(t), id, last, got, err, want)
						}
					}
				}
				c.StateOf(sh, t, hi)
			}},
		{Name: "invalid types", Shards: 256, Bound: "all 256 type numbers: helpers and methods of the compact protocol refuse those that are no value type and leave the output alone",
			Run: func(c *engine.Ctx, sh int) {
				t := thriftwire.Type(sh)
				ok := ref.Valid(byte(sh))
				var out bytes.Buffer
				w := thriftcompact.Protocol.NewWriter(&out)
				var errs [8]error
				var bs [4][]byte
				p := []byte("p")
				bs[0], errs[0] = thriftcompact.AppendFieldHeader(p, thriftwire.FieldHeader{Type: t, ID: 1}, false, 0)
				bs[1], errs[1] = thriftcompact.AppendListHeader(p, thriftwire.ListHeader{Element: t, Size: 1})
				bs[2], errs[2] = thriftcompact.AppendSetHeader(p, thriftwire.SetHeader{Element: t, Size: 1})
				bs[3], errs[3] = thriftcompact.AppendMapHeader(p, thriftwire.MapHeader{Key: t, Value: thriftwire.I32, Size: 1})
				if !ok {
					errs[4] = w.WriteListBegin(thriftwire.ListHeader{Element: t, Size: 1})
					errs[5] = w.WriteSetBegin(thriftwire.SetHeader{Element: t, Size: 16})
					errs[6] = w.WriteMapBegin(thriftwire.MapHeader{Key: thriftwire.I32, Value: t, Size: 1})
					errs[7] = w.WriteFieldBegin(thriftwire.FieldHeader{Type: t, ID: 1})
				}
				_ = w.Flush()
				c.Steps(8)
				for i, err := range errs {
					if (err == nil) != ok || !ok && i < 4 && string(bs[i]) != "p" || out.Len() > 0 {
						c.Failf("compact header with type %v, call %d: %v, output %x", t, i, err, out.Bytes())
					}
				}
				c.StateOf(sh)
			}},
	}
}
