//go:build go1.23

package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"reflect"

	"github.com/itstarsun/go-thrift/internal/zzverif/engine"
	"github.com/itstarsun/go-thrift/internal/zzverif/ref"
	"github.com/itstarsun/go-thrift/internal/zzverif/uni"
	"github.com/itstarsun/go-thrift/thrift"
)

func init() {
	register(&engine.Prop{ID: "C31", Level: level,
		Rule:        "an execution lets one Unmarshal fail at one point and compares all that is reachable from the destination",
		Assumptions: []string{"the element or entry being decoded when it fails may be kept or dropped, and a byte string or UUID being read may be left with any content of its length"},
		Spaces:      c31Spaces})
}

func c31Spaces(th bool) []engine.Space {
	types := uni.Types(th)
	dev := 1
	if th {
		dev = 2
	}
	// check compares dst with what n successful calls make of init.
	check := func(c *engine.Ctx, what string, v ref.V, init, dst reflect.Value, n int, err error) {
		want := reflect.New(init.Type()).Elem()
		want.Set(uni.Clone(init))
		p := uni.Part{Left: n}
		if p.Into(v, want) {
			c.Failf("%s: %v into %v: %v, after all of it was read", what, v, init.Type(), err)
		}
		if d := p.Differs(want, dst); d != "" {
			c.Failf("%s: %v into %v %s fails after %d calls (%v) and leaves %s: %s", what, v, init.Type(), uni.Show(init), n, err, uni.Show(dst), d)
		}
		c.StateOf(what, v.String(), init.Type(), n)
	}
	// cut decodes every proper prefix of the encoding of v.
	cut := func(c *engine.Ctx, p ref.Proto, v ref.V, init reflect.Value, spare int, every int) {
		b := p.Enc(nil, v)
		for end := c.Choose(min(every, max(len(b), 1))); end < len(b); end += every {
			dst := reflect.New(init.Type())
			dst.Elem().Set(uni.WithSpare(init, spare))
			n := 0
			r := &uni.TapR{R: uni.Impl(p).NewReader(bytes.NewReader(b[:end])), After: func(op string, v any, err error) error {
				if err == nil {
					n++
				}
				return err
			}}
			c.Step()
			err := thrift.Unmarshal(r, dst.Interface())
			if err == nil || !errors.Is(err, io.EOF) && !errors.Is(err, io.ErrUnexpectedEOF) {
				c.Failf("%v: %d of %d bytes of %v into %v: %v", p, end, len(b), v, init.Type(), err)
			}
			check(c, fmt.Sprint(p, " cut after ", end, " bytes"), v, init, dst.Elem(), n, err)
		}
	}
	// fail lets every call fail.
	fail := func(c *engine.Ctx, v ref.V, init reflect.Value, spare int) {
		for n := 0; ; n++ {
			dst := reflect.New(init.Type())
			dst.Elem().Set(uni.WithSpare(init, spare))
			r := uni.NewTreeR(v)
			r.FailAt, r.Err = n+1, errC29
			c.Step()
			err := thrift.Unmarshal(r, dst.Interface())
			if r.Failed == "" {
				must(c, err, "%v into %v", v, init.Type())
				return
			}
			if !errors.Is(err, errC29) {
				c.Failf("%v into %v: %s fails, the error is %v", v, init.Type(), r.Failed, err)
			}
			check(c, "failing "+r.Failed, v, init, dst.Elem(), n, err)
		}
	}
	inits := func(c *engine.Ctx, t reflect.Type) (reflect.Value, int) {
		switch c.Choose(3) {
		case 0:
			return reflect.New(t).Elem(), 0
		case 1:
			return uni.NonZero(t), 0
		}
		return uni.NonZero(t), 3
	}
	return []engine.Space{
		{Name: "cut short", Shards: 3 * len(types), Dev: dev, Bound: fmt.Sprintf("%d Go types: generated values (up to %d struct fields set), cut after every byte, into nothing and into full variables with and without spare capacity", len(types), dev),
			Run: func(c *engine.Ctx, sh int) {
				p, t := uni.Protos[sh%3], types[sh/3]
				init, spare := inits(c, t)
				cut(c, p, uni.FromGo(uni.Gen(c, t, 1)), init, spare, 1)
			}},
		{Name: "failing calls", Shards: len(types), Dev: dev, Bound: "the same with every call to the Reader failing",
			Run: func(c *engine.Ctx, sh int) {
				t := types[sh]
				init, spare := inits(c, t)
				fail(c, uni.FromGo(uni.Gen(c, t, 1)), init, spare)
			}},
		{Name: "full values", Shards: 4 * len(types), Bound: "values with everything set, cut after every byte or at every call, into nothing and into full variables with and without spare capacity",
			Run: func(c *engine.Ctx, sh int) {
				t := types[sh/4]
				v := uni.FromGo(uni.NonZero(t))
				init, spare := inits(c, t)
				if sh%4 == 3 {
					fail(c, v, init, spare)
					return
				}
				cut(c, uni.Protos[sh%4], v, init, spare, 1)
			}},
		{Name: "unknown and repeated fields", Shards: 4, Bound: "two fields, known or unknown, or the same twice, into nothing and a full variable: cut after every byte or at every call",
			Run: func(c *engine.Ctx, sh int) {
				t := uni.TypeOf[Known]()
				a, b := engine.Pick(c, uni.DupSamples()), engine.Pick(c, uni.DupSamples())
				v := ref.StructV(a, b)
				switch c.Choose(4) {
				case 1:
					v = ref.StructV(a, ref.F(100, v), ref.F(21, ref.StructV(b)))
				case 2:
					v = ref.StructV(ref.F(21, v), ref.F(21, ref.StructV(b)), a)
				case 3:
					v = ref.StructV(ref.F(40, ref.MapV(ref.String, ref.Struct, ref.StrV("k"), v, ref.StrV("k"), ref.StructV(b), ref.StrV("l"), v)))
				}
				init, spare := inits(c, t)
				if sh == 3 {
					fail(c, v, init, spare)
					return
				}
				cut(c, uni.Protos[sh], v, init, spare, 1)
			}},
		{Name: "sizes", Shards: 3 * len(sizedShapes), Bound: "every shape of 0 to 40, 64, 100 and 300 parts, cut after every byte (or every 7th from any start), over nothing or over the same shape with 17 parts",
			Run: func(c *engine.Ctx, sh int) {
				p, s := uni.Protos[sh%3], sizedShapes[sh/3]
				ns := []int{64, 100, 300}
				for i := range 41 {
					ns = append(ns, i)
				}
				n := engine.Pick(c, ns)
				v := s.mk(n)
				init, spare := reflect.New(v.Type()).Elem(), 0
				if c.Choose(2) == 1 {
					init, spare = s.mk(17), n%3*10
				}
				every := 1
				if n > 40 {
					every = 7
				}
				cut(c, p, uni.FromGo(v), init, spare, every)
			}},
	}
}
