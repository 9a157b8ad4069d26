//go:build go1.23

package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"reflect"
	"strings"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/internal/thriftmemo"
	"github.com/itstarsun/go-thrift/internal/zzverif/engine"
	"github.com/itstarsun/go-thrift/internal/zzverif/ref"
	"github.com/itstarsun/go-thrift/internal/zzverif/uni"
	"github.com/itstarsun/go-thrift/thrift"
)

func init() {
	register(&engine.Prop{ID: "C26", Level: level,
		Rule:        "an execution records one sequence of calls and replays it, as it is or with one deviation",
		Assumptions: []string{"whether SkipString may replay WriteBytes and which panic reports a deviation are left open"},
		Spaces:      c26Spaces})
}

// readFor lists the reading operations that replay a recorded step, with the results they give.
func readFor(step string) []string {
	switch step {
	case "String":
		return []string{"ReadString", "SkipString"}
	case "UUID":
		return []string{"ReadUUID", "SkipUUID"}
	}
	return []string{"Read" + step}
}

type memoStep struct {
	name string
	v    any // nil for steps without a value
}

// memoSteps lists the steps a writing operation records.
func memoSteps(op string, v any) []memoStep {
	switch op {
	case "WriteStructEnd":
		return []memoStep{{"FieldBegin", thriftwire.FieldHeader{}}, {"StructEnd", nil}}
	case "WriteDouble":
		v = math.Float64bits(v.(float64))
	}
	return []memoStep{{strings.TrimPrefix(op, "Write"), v}}
}

// catch runs f and reports whether it panicked.
func catch(f func()) (p any) {
	defer func() { p = recover() }()
	f()
	return nil
}

var memoPrefix = []byte("before:")

// replay1 replays one recorded step by one operation and checks its result.
func replay1(c *engine.Ctx, r thriftwire.Reader, s memoStep, op string) {
	c.Step()
	buf := append(make([]byte, 0, 64), memoPrefix...)
	got, err := uni.CallR(r, op, buf)
	if err != nil {
		c.Failf("%s replays %v: %v", op, s, err)
	}
	want := s.v
	switch {
	case strings.HasPrefix(op, "Skip"):
		want = nil
	case op == "ReadBytes":
		want = string(memoPrefix) + s.v.(string)
	}
	if got != want {
		c.Failf("%s replays %v as %v", op, s, got)
	}
}

func c26Spaces(th bool) []engine.Space {
	type call struct {
		op string
		v  any
	}
	var calls []call
	for _, op := range uni.WriteOps {
		if op == "Flush" {
			continue
		}
		n := 2
		if uni.Arg(op, 0) == uni.Arg(op, 1) {
			n = 1
		}
		for i := range n {
			calls = append(calls, call{op, uni.Arg(op, i)})
		}
	}
	few := []call{{"WriteString", "s"}, {"WriteBytes", "b"}, {"WriteBool", true}, {"WriteStructEnd", nil}, {"WriteFieldEnd", nil}, {"WriteMapEnd", nil}, {"WriteUUID", [16]byte{1}}, {"WriteFieldBegin", thriftwire.FieldHeader{Type: thriftwire.Bool, ID: 3}}, {"WriteListBegin", thriftwire.ListHeader{Size: 3}}}
	// record makes the calls; brk is the call at which the fault is set.
	record := func(c *engine.Ctx, m *thriftmemo.Memo, seq []call, brk int) (steps []memoStep) {
		m.Breakpoint = brk
		w := m.Writer()
		n := 0
		for _, a := range seq {
			c.Step()
			before := len(steps)
			for _, s := range memoSteps(a.op, a.v) {
				n++
				if brk > 0 && n >= brk {
					break
				}
				steps = append(steps, s)
			}
			fails := brk > 0 && len(steps)-before < len(memoSteps(a.op, a.v))
			err := uni.CallW(w, a.op, a.v)
			if fails && err != thriftmemo.ErrBreak || !fails && err != nil {
				c.Failf("%s, call %d with the fault at %d: %v", a.op, n, brk, err)
			}
			if fails {
				n = len(steps)
			}
		}
		m.Breakpoint = 0
		return steps
	}
	checkSteps := func(c *engine.Ctx, m *thriftmemo.Memo, steps []memoStep) {
		var want []string
		for _, s := range steps {
			want = append(want, s.name)
		}
		got := m.Steps()
		if strings.Join(got, " ") != strings.Join(want, " ") {
			c.Failf("the steps are %v, want %v", got, want)
		}
		if len(got) > 0 {
			got[0] = "changed"
			if g := m.Steps(); g[0] != want[0] {
				c.Failf("Steps gives away its own slice")
			}
		}
	}
	// run records seq and replays it with a deviation of the given kind.
	run := func(c *engine.Ctx, seq []call) {
		m := new(thriftmemo.Memo)
		if c.Choose(2) == 1 { // a used one
			record(c, m, []call{{"WriteI64", int64(1)}, {"WriteStructEnd", nil}, {"WriteBytes", "x"}}, 0)
			replay1(c, m.Reader(), memoStep{"I64", int64(1)}, "ReadI64")
			if c.Choose(2) == 1 { // one whose fault struck
				m.Breakpoint = 2
				if _, err := m.Reader().ReadBytes(nil); err != thriftmemo.ErrBreak {
					c.Failf("a fault set at %d, struck by the next read: %v", m.Breakpoint, err)
				}
			}
			m.Reset()
			if m.Breakpoint != 0 || len(m.Steps()) != 0 {
				c.Failf("after Reset the fault is set at %d and %d steps are recorded", m.Breakpoint, len(m.Steps()))
			}
		}
		nsteps := 0
		for _, a := range seq {
			nsteps += len(memoSteps(a.op, a.v))
		}
		switch kind := c.Choose(4); kind {
		case 0: // replay as it is, with the equivalent operations, and then one more
			steps := record(c, m, seq, 0)
			checkSteps(c, m, steps)
			r := m.Reader()
			for _, s := range steps {
				replay1(c, r, s, engine.Pick(c, readFor(s.name)))
			}
			op := engine.Pick(c, uni.ReadOps)
			var err error
			if p := catch(func() { _, err = uni.CallR(r, op, nil) }); p == nil && err == nil {
				c.Failf("%s after the end of %v is accepted", op, steps)
			}
		case 1: // one operation is another one
			steps := record(c, m, seq, 0)
			if len(steps) == 0 {
				return
			}
			at := c.Choose(len(steps))
			op := engine.Pick(c, uni.ReadOps)
			for _, o := range readFor(steps[at].name) {
				if o == op {
					return
				}
			}
			if op == "SkipString" && steps[at].name == "Bytes" {
				return
			}
			r := m.Reader()
			for _, s := range steps[:at] {
				replay1(c, r, s, readFor(s.name)[0])
			}
			var err error
			if p := catch(func() { _, err = uni.CallR(r, op, nil) }); p == nil && err == nil {
				c.Failf("%s at step %d of %v is accepted", op, at, steps)
			}
		case 2: // a fault while recording
			brk := 1 + c.Choose(nsteps+2)
			steps := record(c, m, seq, brk)
			checkSteps(c, m, steps)
			r := m.Reader()
			for _, s := range steps {
				replay1(c, r, s, readFor(s.name)[0])
			}
		case 3: // a fault while replaying
			brk := 1 + c.Choose(nsteps+2)
			steps := record(c, m, seq, 0)
			m.Breakpoint = brk
			r := m.Reader()
			for i, s := range steps {
				op := engine.Pick(c, readFor(s.name))
				if i+1 < brk {
					replay1(c, r, s, op)
					continue
				}
				if _, err := uni.CallR(r, op, nil); err != thriftmemo.ErrBreak {
					c.Failf("%s, read %d with the fault at %d: %v", op, i+1, brk, err)
				}
				if _, err := uni.CallR(r, op, nil); err != thriftmemo.ErrBreak {
					c.Failf("%s, read %d again with the fault at %d: %v", op, i+1, brk, err)
				}
				m.Breakpoint = 0 // without the fault it goes on where it was
				for _, s := range steps[i:] {
					replay1(c, r, s, readFor(s.name)[0])
				}
				break
			}
		}
		c.Nontrivial()
		c.StateOf(fmt.Sprint(seq))
		c.Logf("%v", seq)
	}
	sequences := func(c *engine.Ctx, first call, rest []call, depth int) {
		seq := []call{first}
		for range depth - 1 {
			i := c.Choose(len(rest) + 1)
			if i == 0 {
				break
			}
			seq = append(seq, rest[i-1])
		}
		run(c, seq)
	}
	fewDepth := 3
	if th {
		fewDepth = 5
	}
	spaces := []engine.Space{
		{Name: "all calls", Shards: len(calls), Bound: "all sequences of up to 2 (thorough: 3) of all writing calls with 2 arguments, x every deviation: another reading call at each step, a call after the end, a fault at each call while recording or replaying",
			Run: func(c *engine.Ctx, sh int) { sequences(c, calls[sh], calls, 2+b2i(th)) }},
		{Name: "some calls", Shards: len(few), Bound: "the same for sequences of up to 3 (thorough: 5) of 9 calls",
			Run: func(c *engine.Ctx, sh int) { sequences(c, few[sh], few, fewDepth) }},
		{Name: "nothing recorded", Shards: 1, Bound: "every reading call on an empty memo; a Reader or Writer method that is not supported panics",
			Run: func(c *engine.Ctx, sh int) {
				run(c, nil)
				m := new(thriftmemo.Memo)
				for i, f := range []func(){func() { m.Reader().Reset(bytes.NewReader(nil)) }, func() { m.Writer().Reset(io.Discard) }, func() { _ = m.Writer().Flush() }} {
					if catch(f) == nil {
						c.Failf("unsupported call %d is accepted", i)
					}
				}
			}},
		{Name: "arguments", Shards: 4, Bound: "arguments of WriteBytes and WriteUUID that the caller changes afterwards; results of ReadBytes and ReadUUID that it changes",
			Run: func(c *engine.Ctx, sh int) {
				n := engine.Pick(c, []int{1, 2, 16, 40})
				var m thriftmemo.Memo
				w := m.Writer()
				b := []byte(pattern(n))
				u := [16]byte{1, 2, 3}
				must(c, errors.Join(w.WriteBytes(b), w.WriteUUID(&u), w.WriteBytes(b[:n/2]), w.WriteUUID(&u)), "recording")
				u = [16]byte{9}
				for i := range b {
					b[i] = '!'
				}
				r := m.Reader()
				want := pattern(n)
				dst := make([]byte, sh, 8*sh)
				got, err := r.ReadBytes(dst)
				if err != nil || string(got[sh:]) != want {
					c.Failf("bytes %q are replayed as %q, %v", want, got, err)
				}
				var gu [16]byte
				if err := r.ReadUUID(&gu); err != nil || gu != [16]byte{1, 2, 3} {
					c.Failf("a UUID is replayed as %x, %v", gu, err)
				}
				for i := range got {
					got[i] = '?'
				}
				if got, err := r.ReadBytes(nil); err != nil || string(got) != want[:n/2] {
					c.Failf("bytes %q are replayed as %q, %v", want[:n/2], got, err)
				}
				gu = [16]byte{7}
				if err := r.ReadUUID(&gu); err != nil || gu != [16]byte{1, 2, 3} {
					c.Failf("a UUID is replayed as %x, %v", gu, err)
				}
				c.Nontrivial()
			}},
	}
	gts := uni.Types(th)
	spaces = append(spaces, engine.Space{Name: "Go values", Shards: len(gts), Bound: "a full value of every type of the universe: Marshal to and Unmarshal from a memo, with a fault at every call of either, and Skip",
		Run: func(c *engine.Ctx, sh int) {
			t := gts[sh]
			v := uni.NonZero(t)
			var steps []string // as the streaming API sees them
			w := &uni.TapW{W: uni.Impl(ref.BinStrict).NewWriter(io.Discard), Before: func(op string, _ any) error {
				for _, s := range memoSteps(op, float64(0)) {
					steps = append(steps, s.name)
				}
				return nil
			}}
			must(c, thrift.Marshal(w, v.Addr().Interface()), "Marshal")
			var m thriftmemo.Memo
			kind := c.Choose(3)
			if kind == 1 {
				m.Breakpoint = 1 + c.Choose(len(steps)+1)
			}
			c.Step()
			err := thrift.Marshal(m.Writer(), v.Addr().Interface())
			got := m.Steps()
			if k := m.Breakpoint; k > 0 && k <= len(steps) {
				if !errors.Is(err, thriftmemo.ErrBreak) || len(got) != k-1 {
					c.Failf("Marshal of %v with the fault at %d of %d: %d steps, %v", t, k, len(steps), len(got), err)
				}
			} else if err != nil || len(got) != len(steps) || !mapInside(t) && strings.Join(got, " ") != strings.Join(steps, " ") {
				c.Failf("Marshal of %v records %v (%v), want %v", t, got, err, steps)
			}
			if kind == 1 {
				return
			}
			n := 0
			reads := len(steps)
			if kind == 2 {
				n = 1 + c.Choose(reads+1)
				m.Breakpoint = n
			}
			out := reflect.New(t)
			c.Step()
			err = thrift.Unmarshal(m.Reader(), out.Interface())
			switch {
			case n > 0 && n <= reads:
				if !errors.Is(err, thriftmemo.ErrBreak) {
					c.Failf("Unmarshal of %v with the fault at %d of %d: %v", t, n, reads, err)
				}
			case err != nil || !uni.EqWire(out.Elem(), v):
				c.Failf("Unmarshal of %v gives %s, want %s (%v)", t, uni.Show(out.Elem()), uni.Show(v), err)
			}
			c.Nontrivial()
			c.StateOf(t.String(), kind, n)
		}})
	samples := uni.Samples(th)
	spaces = append(spaces, engine.Space{Name: "wire values", Shards: len(samples), Bound: "two sample values, read back or skipped; another type of header at each point",
		Run: func(c *engine.Ctx, sh int) {
			vs := []ref.V{samples[sh], engine.Pick(c, samples)}
			var m thriftmemo.Memo
			var bytesUsed bool
			w := &uni.TapW{W: m.Writer(), Before: func(op string, _ any) error {
				bytesUsed = bytesUsed || op == "WriteBytes"
				return nil
			}}
			for _, v := range vs {
				must(c, uni.WriteV(w, v), "recording %v", v)
			}
			if bytesUsed {
				return
			}
			r := m.Reader()
			skip := c.Choose(3)
			for i, v := range vs {
				c.Step()
				if skip == i {
					must(c, thriftwire.Skip(r, thriftwire.Type(v.T)), "Skip of %v", v)
					continue
				}
				got, err := uni.ReadV(r, v.T)
				if err != nil || !ref.Equal(got, v, false) {
					c.Failf("%v is replayed as %v, %v", v, got, err)
				}
			}
			c.Nontrivial()
		}})
	return spaces
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// mapInside reports whether values of t are written in random order.
func mapInside(t reflect.Type) bool {
	for t := range reach(t, map[reflect.Type]bool{}) {
		if t.Kind() == reflect.Map {
			return true
		}
	}
	return false
}
