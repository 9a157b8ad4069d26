//go:build go1.23

package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"reflect"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/internal/zzverif/engine"
	"github.com/itstarsun/go-thrift/internal/zzverif/ref"
	"github.com/itstarsun/go-thrift/internal/zzverif/uni"
	"github.com/itstarsun/go-thrift/thrift"
)

const level = "model_checking"

const sentinel = 0x5a6b7c0d

// marshal encodes v (by value or by pointer) followed by a sentinel.
func marshal(c *engine.Ctx, p ref.Proto, v reflect.Value, byPtr bool) []byte {
	var buf bytes.Buffer
	w := uni.Impl(p).NewWriter(&buf)
	var in any
	if byPtr {
		pv := reflect.New(v.Type())
		pv.Elem().Set(v)
		in = pv.Interface()
	} else {
		in = v.Interface()
		if v.Kind() == reflect.Pointer && v.IsNil() {
			pv := reflect.New(v.Type())
			in = pv.Interface()
		}
	}
	c.Step()
	if err := thrift.Marshal(w, in); err != nil {
		c.Failf("%v: Marshal(%v %s): %v", p, v.Type(), uni.Show(v), err)
	}
	if err := w.Flush(); err != nil {
		c.Failf("%v: Flush: %v", p, err)
	}
	return buf.Bytes()
}

// unmarshal decodes b into a new value of type t and checks that exactly b is consumed.
func unmarshal(c *engine.Ctx, p ref.Proto, t reflect.Type, b []byte) reflect.Value {
	in := p.Enc(append([]byte(nil), b...), ref.I32V(sentinel))
	r := uni.Impl(p).NewReader(bytes.NewReader(in))
	out := reflect.New(t)
	c.Step()
	if err := thrift.Unmarshal(r, out.Interface()); err != nil {
		c.Failf("%v: Unmarshal of %s into %v: %v", p, uni.Hex(b), t, err)
	}
	expectSentinel(c, p, r, b)
	return out.Elem()
}

func expectSentinel(c *engine.Ctx, p ref.Proto, r thriftwire.Reader, b []byte) {
	n, err := r.ReadI32()
	if err != nil || n != sentinel {
		c.Failf("%v: the value after %s is read as %x, %v: not exactly the value was consumed", p, uni.Hex(b), n, err)
	}
	if _, err := r.ReadByte(); !errors.Is(err, io.EOF) {
		c.Failf("%v: expected EOF after %s, got %v", p, uni.Hex(b), err)
	}
}

// canonDecode decodes impl bytes with the reference decoder and checks that
// they are exactly the reference encoding of what they mean.
func canonDecode(c *engine.Ctx, p ref.Proto, t byte, b []byte) ref.V {
	d := ref.Dec{P: p, B: b}
	v, err := d.Value(t)
	if err != nil {
		c.Failf("%v: the bytes written, %s, are not a %s: %v", p, uni.Hex(b), ref.TName(t), err)
	}
	if d.Off != len(b) {
		c.Failf("%v: %d bytes follow the value in %s", p, len(b)-d.Off, uni.Hex(b))
	}
	if enc := p.Enc(nil, v); !bytes.Equal(enc, b) {
		c.Failf("%v: wrote %s, the specification says %s for %v", p, uni.Hex(b), uni.Hex(enc), v)
	}
	return v
}

func isSemantic(err error) bool {
	var se *thrift.SemanticError
	return errors.As(err, &se)
}

func must(c *engine.Ctx, err error, format string, args ...any) {
	if err != nil {
		c.Failf("%s: %v", fmt.Sprintf(format, args...), err)
	}
}

func protoSum(p ref.Proto, b []byte) string { return p.String() + string(b) }
