//go:build go1.23

package main

import (
	"bytes"
	"errors"
	"io"
	"math"
	"os"
	"reflect"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/internal/zzverif/engine"
	"github.com/itstarsun/go-thrift/internal/zzverif/ref"
	"github.com/itstarsun/go-thrift/internal/zzverif/uni"
	"github.com/itstarsun/go-thrift/testing/thrifttest"
)

func init() {
	register(&engine.Prop{ID: "C27", Level: level,
		Rule:        "an execution runs the protocol test on a correct protocol with at most one fault put in",
		Assumptions: []string{"a fault that changes neither what is written nor what is read need not be caught"},
		Spaces:      c27Spaces})
}

var testingInit sync.Once

// testDeps is what package testing needs to start.
type testDeps struct{}

type corpusEntry = struct {
	Parent     string
	Path       string
	Data       []byte
	Values     []any
	Generation int
	IsSeed     bool
}

func (testDeps) ImportPath() string                          { return "" }
func (testDeps) ModulePath() string                          { return "" }
func (testDeps) MatchString(pat, str string) (bool, error)   { return true, nil }
func (testDeps) SetPanicOnExit0(bool)                        {}
func (testDeps) StartCPUProfile(io.Writer) error             { return nil }
func (testDeps) StopCPUProfile()                             {}
func (testDeps) StartTestLog(io.Writer)                      {}
func (testDeps) StopTestLog() error                          { return nil }
func (testDeps) WriteProfileTo(string, io.Writer, int) error { return nil }
func (testDeps) RunFuzzWorker(func(corpusEntry) error) error { return nil }
func (testDeps) CheckCorpus([]any, []reflect.Type) error     { return nil }
func (testDeps) ResetCoverage()                              {}
func (testDeps) SnapshotCoverage()                           {}
func (testDeps) ReadCorpus(string, []reflect.Type) ([]corpusEntry, error) {
	return nil, nil
}
func (testDeps) CoordinateFuzzing(time.Duration, int64, time.Duration, int64, int, []corpusEntry, []reflect.Type, string, string) error {
	return nil
}
func (testDeps) InitRuntimeCoverage() (mode string, tearDown func(string, string) (string, error), snapcov func() float64) {
	return "", nil, nil
}

// protocolTest runs the exported test and reports whether it passed.
// It is run in one goroutine at a time, as it uses os.Stdout.
func protocolTest(p thriftwire.Protocol, uuid bool) bool {
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		panic(err)
	}
	defer null.Close()
	out := os.Stdout
	os.Stdout = null
	defer func() { os.Stdout = out }()
	testingInit.Do(func() { // reads the flags
		ran := false
		testing.MainStart(testDeps{}, []testing.InternalTest{{Name: "TestNothing", F: func(t *testing.T) { ran = true }}}, nil, nil, nil).Run()
		if !ran {
			panic("engine: package testing runs no tests")
		}
	})
	return testing.RunTests(func(string, string) (bool, error) { return true, nil }, []testing.InternalTest{{Name: "TestProtocol", F: func(t *testing.T) {
		thrifttest.TestProtocol(t, p, thrifttest.ProtocolOptions{UUID: uuid})
	}}})
}

// faulty is a protocol whose readers and writers are tapped.
type faulty struct {
	p      thriftwire.Protocol
	before func(op string) error                     // of both
	rvalue func(op string, v any)                    // changes what was read
	wvalue func(op string, v any)                    // changes what is written
	skip   func(op string) bool                      // loses a write
	wrapR  func(thriftwire.Reader) thriftwire.Reader // innermost
}

func (f *faulty) NewReader(r io.Reader) thriftwire.Reader {
	in := f.p.NewReader(r)
	if f.wrapR != nil {
		in = f.wrapR(in)
	}
	t := &uni.TapR{R: in, Before: f.before}
	if f.rvalue != nil {
		t.After = func(op string, v any, err error) error {
			if err == nil && v != nil {
				f.rvalue(op, v)
			}
			return err
		}
	}
	return t
}

func (f *faulty) NewWriter(w io.Writer) thriftwire.Writer {
	t := &uni.TapW{W: f.p.NewWriter(w), Skip: f.skip}
	t.Before = func(op string, v any) error {
		if f.before != nil {
			if err := f.before(op); err != nil {
				return err
			}
		}
		if f.wvalue != nil && v != nil {
			f.wvalue(op, v)
		}
		return nil
	}
	return t
}

// noSkip is a Reader that loses one of the skipping calls.
type noSkip struct {
	thriftwire.Reader
	op string
}

func (n noSkip) SkipString() error {
	if n.op == "SkipString" {
		return nil
	}
	return n.Reader.SkipString()
}

func (n noSkip) SkipUUID() error {
	if n.op == "SkipUUID" {
		return nil
	}
	return n.Reader.SkipUUID()
}

// faultKey names a fault of an operation.
func faultKey(op, fault string) string { return op + ":" + strings.ReplaceAll(fault, " ", "-") }

// A change is a way to change a value; it gets a pointer to it.
type change struct {
	name string
	ok   func(v any) bool // whether it applies
	do   func(v any)
}

func changes() []change {
	field := func(name string, types []any, do func(f reflect.Value)) change {
		return change{name,
			func(v any) bool {
				for _, t := range types {
					if reflect.TypeOf(v) == reflect.TypeOf(t) {
						return true
					}
				}
				return false
			},
			func(v any) { do(reflect.ValueOf(v).Elem()) }}
	}
	ints := []any{new(byte), new(int16), new(int32), new(int64)}
	inc := func(v reflect.Value) {
		if v.CanInt() {
			v.SetInt(v.Int() + 1)
		} else {
			v.SetUint(uint64(byte(v.Uint() + 1)))
		}
	}
	msg, fld, mp, set, lst := new(thriftwire.MessageHeader), new(thriftwire.FieldHeader), new(thriftwire.MapHeader), new(thriftwire.SetHeader), new(thriftwire.ListHeader)
	return []change{
		field("zero", []any{new(byte), new(int16), new(int32), new(int64), new(float64), new(string), new([]byte), new(bool), new([16]byte)}, func(v reflect.Value) { v.SetZero() }),
		field("one more", ints, inc),
		field("high bit lost", ints, func(v reflect.Value) {
			if v.CanInt() {
				v.SetInt(v.Int() &^ (math.MinInt64 >> (64 - v.Type().Bits())))
			} else {
				v.SetUint(v.Uint() & 0x7f)
			}
		}),
		field("low half only", []any{new(int32), new(int64)}, func(v reflect.Value) {
			if v.Type().Bits() == 64 {
				v.SetInt(int64(int32(v.Int())))
			} else {
				v.SetInt(int64(int16(v.Int())))
			}
		}),
		field("32 bits only", []any{new(float64)}, func(v reflect.Value) { v.SetFloat(float64(float32(v.Float()))) }),
		field("negated", []any{new(float64)}, func(v reflect.Value) { v.SetFloat(-v.Float()) }),
		field("last bit", []any{new(float64)}, func(v reflect.Value) { v.SetFloat(math.Float64frombits(math.Float64bits(v.Float()) ^ 1)) }),
		field("true", []any{new(bool)}, func(v reflect.Value) { v.SetBool(true) }),
		field("inverted", []any{new(bool)}, func(v reflect.Value) { v.SetBool(!v.Bool()) }),
		field("shortened", []any{new(string), new([]byte)}, func(v reflect.Value) {
			if v.Len() > 0 {
				v.Set(v.Slice(0, v.Len()-1))
			}
		}),
		field("extended", []any{new(string)}, func(v reflect.Value) { v.SetString(v.String() + "x") }),
		field("extended", []any{new([]byte)}, func(v reflect.Value) { v.SetBytes(append(bytes.Clone(v.Bytes()), 'x')) }),
		field("one byte changed", []any{new(string)}, func(v reflect.Value) {
			if v.Len() > 0 {
				v.SetString("#" + v.String()[1:])
			}
		}),
		field("one byte changed", []any{new([]byte)}, func(v reflect.Value) {
			if v.Len() > 0 {
				v.SetBytes(append([]byte("#"), v.Bytes()[1:]...))
			}
		}),
		field("one byte changed", []any{new([16]byte)}, func(v reflect.Value) { v.Index(15).SetUint(0xee) }),
		field("another name", []any{msg}, func(v reflect.Value) { v.Field(0).SetString(v.Field(0).String() + "?") }),
		field("another type", []any{msg}, func(v reflect.Value) { v.Field(1).SetUint(v.Field(1).Uint()%4 + 1) }),
		field("one type only", []any{msg}, func(v reflect.Value) { v.Field(1).SetUint(2) }),
		field("another ID", []any{msg}, func(v reflect.Value) { v.Field(2).SetInt(v.Field(2).Int() + 1) }),
		field("no ID", []any{msg}, func(v reflect.Value) { v.Field(2).SetInt(0) }),
		field("another type", []any{fld}, func(v reflect.Value) {
			if t := v.Field(1).Uint(); t != 0 {
				v.Field(1).SetUint(map[bool]uint64{true: 8, false: 10}[t != 8])
			}
		}),
		field("another ID", []any{fld}, func(v reflect.Value) { v.Field(2).SetInt(int64(int16(v.Field(2).Int() + 1))) }),
		field("no ID", []any{fld}, func(v reflect.Value) { v.Field(2).SetInt(0) }),
		field("ID of 4 bits", []any{fld}, func(v reflect.Value) { v.Field(2).SetInt(v.Field(2).Int() & 15) }),
		field("another key type", []any{mp}, func(v reflect.Value) { v.Field(0).SetUint(10) }),
		field("another value type", []any{mp}, func(v reflect.Value) { v.Field(1).SetUint(10) }),
		field("another element type", []any{set, lst}, func(v reflect.Value) { v.Field(0).SetUint(10) }),
		field("one element less", []any{mp, set, lst}, func(v reflect.Value) {
			f := v.FieldByName("Size")
			f.SetInt(max(0, f.Int()-1))
		}),
		field("one element more", []any{mp, set, lst}, func(v reflect.Value) {
			f := v.FieldByName("Size")
			f.SetInt(f.Int() + 1)
		}),
		field("no elements", []any{mp, set, lst}, func(v reflect.Value) { v.FieldByName("Size").SetInt(0) }),
		// not of maps: the test has one larger map only, whose order is not
		// fixed, so that it sees such a fault or not
		field("at most 15 elements", []any{set, lst}, func(v reflect.Value) {
			f := v.FieldByName("Size")
			f.SetInt(min(15, f.Int()))
		}),
	}
}

var readTypes = map[string]any{
	"MessageBegin": new(thriftwire.MessageHeader), "FieldBegin": new(thriftwire.FieldHeader), "MapBegin": new(thriftwire.MapHeader), "SetBegin": new(thriftwire.SetHeader), "ListBegin": new(thriftwire.ListHeader),
	"Bool": new(bool), "Byte": new(byte), "Double": new(float64), "I16": new(int16), "I32": new(int32), "I64": new(int64), "String": new(string), "Bytes": new([]byte), "UUID": new([16]byte),
}

func c27Spaces(th bool) []engine.Space {
	chs := changes()
	ops := append(append([]string{}, uni.ReadOps...), uni.WriteOps...)
	errFault := errors.New("fault")
	var spaces []engine.Space
	pairs := protoPairs()
	spaces = append(spaces, engine.Space{Name: "correct protocols", Shards: 3, Serial: true, Bound: "the three protocols, joined ones that read what they write, and ones that drop the names of messages",
		Run: func(c *engine.Ctx, sh int) {
			pp := pairs[sh*3+sh]
			var p thriftwire.Protocol = uni.Impl(pp.from)
			kind := c.Choose(5)
			switch kind {
			case 1:
				p = pp.joined(1)
			case 2:
				p = thriftwire.JoinProtocol(uni.Impl(ref.BinNonStrict), uni.Impl(ref.BinStrict))
			case 3:
				p = &faulty{p: p, rvalue: func(_ string, v any) {
					if h, ok := v.(*thriftwire.MessageHeader); ok {
						h.Name = ""
					}
				}}
			case 4:
				p = &faulty{p: p, wvalue: func(_ string, v any) {
					if h, ok := v.(*thriftwire.MessageHeader); ok {
						h.Name = ""
					}
				}}
			}
			c.Step()
			uuid := c.Choose(2) == 0
			if !uuid { // then UUIDs may be not supported
				q := p
				p = &faulty{p: q, before: func(op string) error {
					if strings.HasSuffix(op, "UUID") {
						return errFault
					}
					return nil
				}}
			}
			if !protocolTest(p, uuid) {
				c.Failf("the test fails for %v (%d, UUID %v)", pp.from, kind, uuid)
			}
			c.Nontrivial()
			c.StateOf(sh, kind, uuid)
		}})
	spaces = append(spaces, engine.Space{Name: "changed values", Shards: len(pairs) / 3, Serial: true, Bound: "every operation x every way to change what it reads or writes x 3 protocols",
		Run: func(c *engine.Ctx, sh int) {
			p := uni.Impl(uni.Protos[sh])
			op := engine.Pick(c, ops)
			ch := chs[c.Choose(len(chs))]
			v := readTypes[strings.TrimPrefix(strings.TrimPrefix(op, "Read"), "Write")]
			if v == nil || !ch.ok(v) {
				return
			}
			calls := 0
			do := func(o string, v any) {
				if o != op {
					return
				}
				calls++
				ch.do(v)
			}
			f := &faulty{p: p}
			if strings.HasPrefix(op, "Read") {
				f.rvalue = do
			} else {
				f.wvalue = do
			}
			c.Step()
			pass := protocolTest(f, true)
			if pass {
				c.FailKey(faultKey(op, ch.name), "%v: the test passes although %s has the fault %q (%d calls)", uni.Protos[sh], op, ch.name, calls)
			}
			c.Nontrivial()
			c.StateOf(sh, op, ch.name)
			c.Logf("%s %s", op, ch.name)
		}})
	spaces = append(spaces, engine.Space{Name: "stale values", Shards: 3, Serial: true, Bound: "every operation gives or takes the value of the previous call instead",
		Run: func(c *engine.Ctx, sh int) {
			op := engine.Pick(c, ops)
			if readTypes[strings.TrimPrefix(strings.TrimPrefix(op, "Read"), "Write")] == nil {
				return
			}
			var prev reflect.Value
			changed := false
			do := func(o string, v any) {
				if o != op {
					return
				}
				rv := reflect.ValueOf(v).Elem()
				now := reflect.New(rv.Type()).Elem()
				now.Set(rv)
				if prev.IsValid() {
					changed = changed || !reflect.DeepEqual(prev.Interface(), now.Interface())
					rv.Set(prev)
				}
				prev = now
			}
			f := &faulty{p: uni.Impl(uni.Protos[sh])}
			if strings.HasPrefix(op, "Read") {
				f.rvalue = do
			} else {
				f.wvalue = do
			}
			c.Step()
			if protocolTest(f, true) && changed {
				c.FailKey(faultKey(op, "stale"), "%v: the test passes although %s always gives the previous value", uni.Protos[sh], op)
			}
			c.Nontrivial()
			c.StateOf(sh, op)
		}})
	spaces = append(spaces, engine.Space{Name: "lost calls", Shards: 3, Serial: true, Bound: "every writing call and every skipping call that has an effect on the bytes does nothing",
		Run: func(c *engine.Ctx, sh int) {
			p := uni.Protos[sh]
			op := engine.Pick(c, append([]string{"SkipString", "SkipUUID"}, uni.WriteOps...))
			f := &faulty{p: uni.Impl(p), skip: func(o string) bool { return o == op }}
			if strings.HasPrefix(op, "Skip") {
				f.wrapR = func(r thriftwire.Reader) thriftwire.Reader { return noSkip{r, op} }
			} else { // does the call have an effect?
				var b1, b2 bytes.Buffer
				for i, b := range []*bytes.Buffer{&b1, &b2} {
					w := uni.Impl(p).NewWriter(b)
					if i == 1 {
						w = f.NewWriter(b)
					}
					func() {
						defer func() { _ = recover() }()
						for _, v := range uni.Samples(true) {
							if uni.WriteMsg(w, ref.Msg{Name: "n", Type: 1, ID: 1}) != nil || uni.WriteV(w, v) != nil || w.WriteMessageEnd() != nil {
								b.WriteString("error")
							}
						}
						_ = w.Flush()
					}()
				}
				if bytes.Equal(b1.Bytes(), b2.Bytes()) {
					return
				}
			}
			c.Step()
			if protocolTest(f, true) {
				c.FailKey(faultKey(op, "lost"), "%v: the test passes although %s does nothing", p, op)
			}
			c.Nontrivial()
			c.StateOf(sh, op)
		}})
	spaces = append(spaces, engine.Space{Name: "errors", Shards: 3, Serial: true, Bound: "every operation fails, from its first call on or at one of its calls only",
		Run: func(c *engine.Ctx, sh int) {
			f := &faulty{p: uni.Impl(uni.Protos[sh])}
			op := engine.Pick(c, ops)
			calls := 0
			f.before = func(o string) error {
				if o == op {
					calls++
				}
				return nil
			}
			if !protocolTest(f, true) {
				c.Failf("the test fails without a fault")
			}
			if calls == 0 {
				c.FailKey(faultKey(op, "never called"), "%v: the test never calls %s", uni.Protos[sh], op)
			}
			limit := 12
			if c.Thorough {
				limit = 1 << 20
			}
			n := min(calls, limit)
			at := c.Choose(n+1) - 1
			if at >= n/2 { // the first and the last ones
				at = calls - n + at
			}
			i := 0
			f.before = func(o string) error {
				if o == op {
					i++
					if at < 0 || i-1 == at {
						return errFault
					}
				}
				return nil
			}
			c.Step()
			if protocolTest(f, true) {
				c.Failf("%v: the test passes although %s fails at call %d of %d", uni.Protos[sh], op, at, calls)
			}
			c.Nontrivial()
			c.StateOf(sh, op, at)
			c.Logf("%s fails at %d of %d", op, at, calls)
		}})
	return spaces
}
