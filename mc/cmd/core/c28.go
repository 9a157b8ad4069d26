//go:build go1.23

package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"reflect"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/internal/zzverif/engine"
	"github.com/itstarsun/go-thrift/internal/zzverif/ref"
	"github.com/itstarsun/go-thrift/internal/zzverif/uni"
	"github.com/itstarsun/go-thrift/thrift"
)

func init() {
	register(&engine.Prop{ID: "C28", Level: level,
		Rule:        "an execution copies a value or a stream of messages from one protocol to another",
		Assumptions: []string{"the compact protocol does not carry the types of an empty map, so the types in its copy are those that were read"},
		Spaces:      c28Spaces})
}

// copyV copies a value from r to w call by call.
func copyV(r thriftwire.Reader, w thriftwire.Writer, t thriftwire.Type, alt bool) error {
	elems := func(n int, ts ...thriftwire.Type) error {
		for range n {
			for _, t := range ts {
				if err := copyV(r, w, t, !alt); err != nil {
					return err
				}
			}
		}
		return nil
	}
	switch t {
	case thriftwire.Bool:
		v, err := r.ReadBool()
		return errors.Join(err, w.WriteBool(v))
	case thriftwire.Byte:
		v, err := r.ReadByte()
		return errors.Join(err, w.WriteByte(v))
	case thriftwire.I16:
		v, err := r.ReadI16()
		return errors.Join(err, w.WriteI16(v))
	case thriftwire.I32:
		v, err := r.ReadI32()
		return errors.Join(err, w.WriteI32(v))
	case thriftwire.I64:
		v, err := r.ReadI64()
		return errors.Join(err, w.WriteI64(v))
	case thriftwire.Double:
		v, err := r.ReadDouble()
		return errors.Join(err, w.WriteDouble(v))
	case thriftwire.String:
		if alt {
			v, err := r.ReadBytes(nil)
			return errors.Join(err, w.WriteBytes(v))
		}
		v, err := r.ReadString()
		return errors.Join(err, w.WriteString(v))
	case thriftwire.UUID:
		var u [16]byte
		return errors.Join(r.ReadUUID(&u), w.WriteUUID(&u))
	case thriftwire.Struct:
		h, err := r.ReadStructBegin()
		if err := errors.Join(err, w.WriteStructBegin(h)); err != nil {
			return err
		}
		for {
			h, err := r.ReadFieldBegin()
			if err != nil {
				return err
			}
			if h.Type == thriftwire.Stop {
				return errors.Join(r.ReadStructEnd(), w.WriteStructEnd())
			}
			if err := errors.Join(w.WriteFieldBegin(h), copyV(r, w, h.Type, !alt), r.ReadFieldEnd(), w.WriteFieldEnd()); err != nil {
				return err
			}
		}
	case thriftwire.Map:
		h, err := r.ReadMapBegin()
		if err := errors.Join(err, w.WriteMapBegin(h)); err != nil {
			return err
		}
		return errors.Join(elems(h.Size, h.Key, h.Value), r.ReadMapEnd(), w.WriteMapEnd())
	case thriftwire.Set:
		h, err := r.ReadSetBegin()
		if err := errors.Join(err, w.WriteSetBegin(h)); err != nil {
			return err
		}
		return errors.Join(elems(h.Size, h.Element), r.ReadSetEnd(), w.WriteSetEnd())
	case thriftwire.List:
		h, err := r.ReadListBegin()
		if err := errors.Join(err, w.WriteListBegin(h)); err != nil {
			return err
		}
		return errors.Join(elems(h.Size, h.Element), r.ReadListEnd(), w.WriteListEnd())
	}
	return fmt.Errorf("unexpected type %d", t)
}

// carried is v as far as p carries it: the compact protocol has no types for an empty map.
func carried(p ref.Proto, v ref.V) ref.V {
	d := ref.Dec{P: p, B: p.Enc(nil, v)}
	out, err := d.Value(v.T)
	if err != nil {
		panic(err)
	}
	return out
}

type protoPair struct{ from, to ref.Proto }

func protoPairs() (out []protoPair) {
	for _, p := range uni.Protos {
		for _, q := range uni.Protos {
			out = append(out, protoPair{p, q})
		}
	}
	return out
}

// joined returns the protocol that reads pp.from and writes pp.to, joined in one of several ways.
func (pp protoPair) joined(how int) thriftwire.Protocol {
	a, b := uni.Impl(pp.from), uni.Impl(pp.to)
	switch how {
	case 0:
		return thriftwire.JoinProtocol(a, b)
	case 1:
		return thriftwire.JoinProtocol(thriftwire.JoinProtocol(a, a), thriftwire.JoinProtocol(a, b))
	}
	return thriftwire.JoinProtocol(thriftwire.JoinProtocol(a, b), thriftwire.JoinProtocol(thriftwire.JoinProtocol(b, a), thriftwire.JoinProtocol(a, b)))
}

func protoName(p ref.Proto) string {
	return map[ref.Proto]string{ref.BinStrict: "thriftbinary.Protocol", ref.BinNonStrict: "thriftbinary.ProtocolNonStrict", ref.CompactP: "thriftcompact.Protocol"}[p]
}

func c28Spaces(th bool) []engine.Space {
	pairs := protoPairs()
	transcode := func(c *engine.Ctx, pp protoPair, how int, vs ...ref.V) {
		var in, want []byte
		for _, v := range vs {
			in = pp.from.Enc(in, v)
			want = pp.to.Enc(want, carried(pp.from, v))
		}
		p := pp.joined(how)
		var out bytes.Buffer
		r, w := p.NewReader(bytes.NewReader(in)), p.NewWriter(&out)
		for i, v := range vs {
			c.Step()
			if err := copyV(r, w, thriftwire.Type(v.T), i%2 == 0); err != nil {
				c.Failf("%v to %v: copying %v: %v", pp.from, pp.to, v, err)
			}
		}
		must(c, w.Flush(), "Flush")
		if _, err := r.ReadByte(); !errors.Is(err, io.EOF) {
			c.Failf("%v to %v: input is left after copying %v: %v", pp.from, pp.to, vs, err)
		}
		if !bytes.Equal(out.Bytes(), want) {
			c.Failf("%v to %v: copying %v gives %s, want %s", pp.from, pp.to, vs, uni.Hex(out.Bytes()), uni.Hex(want))
		}
		c.Nontrivial()
		c.StateOf(out.Bytes())
		c.Logf("%v to %v: %v", pp.from, pp.to, vs)
	}
	lvl := 1
	if th {
		lvl = 0
	}
	var spaces []engine.Space
	spaces = append(spaces, engine.Space{Name: "values", Shards: len(pairs) * len(ref.All),
		Bound: "every generated value of every type, 9 pairs of protocols",
		Run: func(c *engine.Ctx, sh int) {
			transcode(c, pairs[sh/len(ref.All)], 0, uni.GenV(c, ref.All[sh%len(ref.All)], lvl))
		}})
	samples := uni.Samples(true)
	spaces = append(spaces, engine.Space{Name: "pairs of values", Shards: len(pairs) * len(samples),
		Bound: "every two sample values on one stream, 9 pairs of protocols joined in 3 ways",
		Run: func(c *engine.Ctx, sh int) {
			v := samples[sh%len(samples)]
			how := c.Choose(3)
			transcode(c, pairs[sh/len(samples)], how, v, engine.Pick(c, samples))
		}})
	names := []string{"", "n", "name with \x00\xff", string(bytes.Repeat([]byte("N"), 130))}
	types := []byte{1, 2, 3, 4}
	ids := []int32{0, 1, -1, 127, 128, 1 << 14, -1 << 31, 1<<31 - 1}
	spaces = append(spaces, engine.Space{Name: "messages", Shards: len(pairs),
		Bound: "two messages: names of 4 kinds x 4 types x 8 IDs, the second one of 2 headers, bodies from 4 samples, 9 pairs of protocols",
		Run: func(c *engine.Ctx, sh int) {
			pp := pairs[sh]
			bodies := []ref.V{ref.StructV(), ref.StructV(ref.F(1, ref.BoolV(true))), ref.StructV(ref.F(0, ref.StrV("r")), ref.F(9, ref.MapV(ref.I32, ref.Bool))), ref.StructV(ref.F(-1, ref.ListV(ref.Bool, ref.BoolV(false))))}
			ms := []ref.Msg{{Name: engine.Pick(c, names), Type: engine.Pick(c, types), ID: engine.Pick(c, ids)}, {Name: "second", Type: 1 + byte(c.Choose(2)), ID: 5}}
			b := engine.Pick(c, bodies)
			var in, want []byte
			for _, m := range ms {
				in = pp.from.Enc(pp.from.EncMsg(in, m), b)
				want = pp.to.Enc(pp.to.EncMsg(want, m), carried(pp.from, b))
			}
			p := pp.joined(c.Choose(3))
			var out bytes.Buffer
			r, w := p.NewReader(bytes.NewReader(in)), p.NewWriter(&out)
			for range ms {
				c.Step()
				h, err := r.ReadMessageBegin()
				must(c, err, "ReadMessageBegin")
				must(c, w.WriteMessageBegin(h), "WriteMessageBegin")
				must(c, copyV(r, w, thriftwire.Struct, false), "copying the body")
				must(c, r.ReadMessageEnd(), "ReadMessageEnd")
				must(c, w.WriteMessageEnd(), "WriteMessageEnd")
			}
			must(c, w.Flush(), "Flush")
			if !bytes.Equal(out.Bytes(), want) {
				c.Failf("%v to %v: copying %v %v gives %s, want %s", pp.from, pp.to, ms, b, uni.Hex(out.Bytes()), uni.Hex(want))
			}
			c.Nontrivial()
		}})
	gts := uni.Types(th)
	spaces = append(spaces, engine.Space{Name: "through Go values", Shards: len(gts),
		Bound: "generated values of every type of the universe: unmarshaled from one protocol and marshaled to another, 9 pairs",
		Run: func(c *engine.Ctx, sh int) {
			pp := engine.Pick(c, pairs)
			t := gts[sh]
			v := uni.Gen(c, t, 1)
			in := pp.from.Enc(nil, uni.FromGo(v))
			p := pp.joined(0)
			out := reflect.New(t)
			c.Step()
			if err := thrift.Unmarshal(p.NewReader(bytes.NewReader(in)), out.Interface()); err != nil {
				c.Failf("%v: Unmarshal of %s into %v: %v", pp.from, uni.Hex(in), t, err)
			}
			var b bytes.Buffer
			w := p.NewWriter(&b)
			if err := errors.Join(thrift.Marshal(w, out.Interface()), w.Flush()); err != nil {
				c.Failf("%v: Marshal of %v: %v", pp.to, t, err)
			}
			d := ref.Dec{P: pp.to, B: b.Bytes()}
			got, err := d.Value(uni.WT(t))
			if err != nil || d.Off != b.Len() {
				c.Failf("%v to %v: %v %s becomes %s (%v)", pp.from, pp.to, t, uni.Show(v), uni.Hex(b.Bytes()), err)
			}
			if want := uni.FromGo(v); !ref.Equal(ref.Canon(got), ref.Canon(carried(pp.to, want)), true) {
				c.Failf("%v to %v: %v %s becomes %v, want %v", pp.from, pp.to, t, uni.Show(v), got, want)
			}
			c.Nontrivial()
		}})
	spaces = append(spaces, engine.Space{Name: "names and reuse", Shards: len(pairs),
		Bound: "the printed names of protocols and joined protocols; readers and writers of one joined protocol used side by side",
		Run: func(c *engine.Ctx, sh int) {
			pp := pairs[sh]
			p := pp.joined(0)
			c.Steps(4)
			want := fmt.Sprintf("thriftwire.JoinProtocol(%s, %s)", protoName(pp.from), protoName(pp.to))
			if got := fmt.Sprint(p); got != want {
				c.Failf("the joined protocol is called %s, want %s", got, want)
			}
			if got := fmt.Sprint(uni.Impl(pp.from)); got != protoName(pp.from) {
				c.Failf("the protocol is called %s, want %s", got, protoName(pp.from))
			}
			if got, want := fmt.Sprint(thriftwire.JoinProtocol(p, p)), fmt.Sprintf("thriftwire.JoinProtocol(%s, %s)", want, want); got != want {
				c.Failf("the joined protocol is called %s, want %s", got, want)
			}
			// Readers and writers made by one protocol are independent.
			x, y := engine.Pick(c, samples), engine.Pick(c, samples)
			var bx, by bytes.Buffer
			wx, wy := p.NewWriter(&bx), p.NewWriter(&by)
			rx, ry := p.NewReader(bytes.NewReader(pp.from.Enc(nil, x))), p.NewReader(bytes.NewReader(pp.from.Enc(nil, y)))
			must(c, copyV(rx, wx, thriftwire.Type(x.T), false), "copying %v", x)
			must(c, copyV(ry, wy, thriftwire.Type(y.T), false), "copying %v", y)
			must(c, errors.Join(wy.Flush(), wx.Flush()), "Flush")
			if !bytes.Equal(bx.Bytes(), pp.to.Enc(nil, carried(pp.from, x))) || !bytes.Equal(by.Bytes(), pp.to.Enc(nil, carried(pp.from, y))) {
				c.Failf("%v to %v: copying %v and %v side by side gives %s and %s", pp.from, pp.to, x, y, uni.Hex(bx.Bytes()), uni.Hex(by.Bytes()))
			}
			c.Nontrivial()
		}})
	return spaces
}
