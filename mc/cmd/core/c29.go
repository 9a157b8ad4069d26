//go:build go1.23

package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/internal/zzverif/engine"
	"github.com/itstarsun/go-thrift/internal/zzverif/ref"
	"github.com/itstarsun/go-thrift/internal/zzverif/uni"
	"github.com/itstarsun/go-thrift/thrift"
)

func init() {
	register(&engine.Prop{ID: "C29", Level: level,
		Rule:        "an execution prints one name or makes one call fail at one point",
		Assumptions: []string{"the wording of texts is open; what has to be in them is checked"},
		Spaces:      c29Spaces})
}

var typeNames = map[byte]string{
	ref.Stop: "Stop", ref.Bool: "Bool", ref.Byte: "Byte", ref.Double: "Double", ref.I16: "I16", ref.I32: "I32", ref.I64: "I64", ref.String: "String",
	ref.Struct: "Struct", ref.Map: "Map", ref.Set: "Set", ref.List: "List", ref.UUID: "UUID",
}

var thriftNames = map[byte]string{
	ref.Bool: "bool", ref.Byte: "byte", ref.Double: "double", ref.I16: "i16", ref.I32: "i32", ref.I64: "i64", ref.String: "string",
	ref.Struct: "struct", ref.Map: "map", ref.Set: "set", ref.List: "list", ref.UUID: "UUID",
}

// opType is the Thrift type an operation belongs to.
func opType(op string) byte {
	op = strings.TrimPrefix(strings.TrimPrefix(strings.TrimPrefix(op, "Read"), "Write"), "Skip")
	op = strings.TrimSuffix(strings.TrimSuffix(op, "Begin"), "End")
	switch op {
	case "Field":
		return ref.Struct
	case "Bytes":
		return ref.String
	}
	for t, n := range typeNames {
		if n == op {
			return t
		}
	}
	return 0
}

// reach lists the types a value of type t is made of.
func reach(t reflect.Type, seen map[reflect.Type]bool) map[reflect.Type]bool {
	if seen[t] {
		return seen
	}
	seen[t] = true
	switch t.Kind() {
	case reflect.Pointer, reflect.Slice, reflect.Array, reflect.Chan:
		reach(t.Elem(), seen)
	case reflect.Map:
		reach(t.Key(), seen)
		reach(t.Elem(), seen)
	case reflect.Struct:
		for i := range t.NumField() {
			reach(t.Field(i).Type, seen)
		}
	}
	return seen
}

var errC29 = errors.New("the cause c29")

// checkText checks the text of a SemanticError against its contents.
func checkText(c *engine.Ctx, se *thrift.SemanticError, action string) {
	plain := func(err error) string { return strings.ReplaceAll(err.Error(), "unable to", "cannot") } // one of them at random
	s := plain(se)
	body := s
	if se.Err != nil {
		if !strings.Contains(s, plain(se.Err)) {
			c.Failf("the text %q does not tell the cause %q", s, se.Err.Error())
		}
		body = strings.Replace(s, plain(se.Err), "", 1)
	}
	for t, n := range thriftNames {
		want := byte(se.ThriftType) == t
		// the Go type may contain the word too
		if got := strings.Contains(body, " Thrift "+n+" ") || strings.HasSuffix(strings.TrimRight(body, ": "), " Thrift "+n); got != want {
			c.Failf("the text %q of an error with Thrift type %v mentions %s: %v", s, se.ThriftType, n, got)
		}
	}
	if se.GoType != nil && !strings.Contains(body, se.GoType.String()) {
		c.Failf("the text %q does not tell the Go type %v", s, se.GoType)
	}
	if action != "" && !strings.Contains(strings.ReplaceAll(body, ":", " ")+" ", " "+action+" ") {
		c.Failf("the text %q does not tell that it was %s", s, action)
	}
}

func c29Spaces(th bool) []engine.Space {
	var spaces []engine.Space
	spaces = append(spaces, engine.Space{Name: "names", Shards: 256, Bound: "all 256 types and message types",
		Run: func(c *engine.Ctx, sh int) {
			b := byte(sh)
			want := typeNames[b]
			if want == "" {
				want = fmt.Sprintf("Type(%d)", b)
			}
			if got := thriftwire.Type(b).String(); got != want {
				c.Failf("type %d is called %q, want %q", b, got, want)
			}
			wantM := map[byte]string{1: "Call", 2: "Reply", 3: "Exception", 4: "OneWay"}[b]
			if wantM == "" {
				wantM = fmt.Sprintf("MessageType(%d)", b)
			}
			if got := thriftwire.MessageType(b).String(); got != wantM {
				c.Failf("message type %d is called %q, want %q", b, got, wantM)
			}
			if got := thriftwire.InvalidTypeError(b).Error(); !strings.HasSuffix(got, " "+want) {
				c.Failf("an invalid type error says %q, which does not tell %s", got, want)
			}
			if got := thriftwire.InvalidMessageTypeError(b).Error(); !strings.HasSuffix(got, " "+wantM) {
				c.Failf("an invalid message type error says %q, which does not tell %s", got, wantM)
			}
			c.Steps(4)
			if !ref.Valid(b) {
				// what the helpers do with it
				var te thriftwire.InvalidTypeError
				err := thriftwire.Skip(uni.Impl(ref.BinStrict).NewReader(bytes.NewReader(nil)), thriftwire.Type(b))
				if !errors.As(err, &te) || byte(te) != b {
					c.Failf("Skip of type %d: %v", b, err)
				}
				// an element of an unknown type at some depth
				in := append([]byte{15, 0, 1, b, 0, 0, 0, 1}, 0, 0)
				err = thriftwire.Skip(uni.Impl(ref.BinStrict).NewReader(bytes.NewReader(in)), thriftwire.Struct)
				if !errors.As(err, &te) || byte(te) != b {
					c.Failf("Skip of a list of type %d: %v", b, err)
				}
				type skipped struct {
					A int32 `thrift:"7"`
				}
				err = thrift.Unmarshal(uni.Impl(ref.BinStrict).NewReader(bytes.NewReader(in)), new(skipped))
				if !errors.As(err, &te) || byte(te) != b {
					c.Failf("Unmarshal of an unknown list of type %d: %v", b, err)
				}
				// writing it in the compact protocol
				w := uni.Impl(ref.CompactP).NewWriter(io.Discard)
				_ = w.WriteStructBegin(thriftwire.StructHeader{})
				errs := []error{w.WriteFieldBegin(thriftwire.FieldHeader{Type: thriftwire.Type(b), ID: 3})}
				for _, n := range []int{1, 15, 300} {
					for _, h := range []thriftwire.MapHeader{{Key: thriftwire.Type(b), Value: thriftwire.I32, Size: n}, {Key: thriftwire.I32, Value: thriftwire.Type(b), Size: n}} {
						errs = append(errs, w.WriteMapBegin(h))
					}
					errs = append(errs, w.WriteListBegin(thriftwire.ListHeader{Element: thriftwire.Type(b), Size: n}), w.WriteSetBegin(thriftwire.SetHeader{Element: thriftwire.Type(b), Size: n}))
				}
				for i, err := range errs {
					if !errors.As(err, &te) || byte(te) != b {
						c.Failf("writing a header with type %d (%d): %v", b, i, err)
					}
				}
				c.Nontrivial()
			}
			if b < 16 && b > 13 { // unknown compact types
				for _, in := range [][]byte{{0x10 | b}, {0x20 | b}, {0xf0 | b, 20}} {
					r := uni.Impl(ref.CompactP).NewReader(bytes.NewReader(in))
					_, _ = r.ReadStructBegin()
					_, err := r.ReadFieldBegin()
					r.Reset(bytes.NewReader(in))
					_, err2 := r.ReadListBegin()
					for _, err := range []error{err, err2} {
						if err == nil || !strings.Contains(err.Error(), fmt.Sprintf("(%d)", b)) {
							c.Failf("compact type %d: %v", b, err)
						}
					}
				}
				c.Nontrivial()
			}
			c.StateOf(sh)
		}})

	inner := &thrift.SemanticError{ThriftType: thriftwire.Map, GoType: uni.TypeOf[chan int](), Err: io.ErrUnexpectedEOF}
	gotypes := append([]reflect.Type{nil, uni.TypeOf[any](), uni.TypeOf[chan<- int](), uni.TypeOf[func()](), uni.TypeOf[error]()}, uni.Types(th)...)
	spaces = append(spaces, engine.Space{Name: "texts", Shards: 256, Bound: "errors with all 256 Thrift types x the Go types of the universe x 5 causes",
		Run: func(c *engine.Ctx, sh int) {
			cause := engine.Pick(c, []error{nil, errC29, io.EOF, fmt.Errorf("wrapped: %w", errC29), inner})
			for _, gt := range gotypes {
				c.Step()
				se := &thrift.SemanticError{ThriftType: thriftwire.Type(sh), GoType: gt, Err: cause}
				checkText(c, se, "")
				var as *thrift.SemanticError
				if cause != nil && !errors.Is(se, cause) || !errors.As(fmt.Errorf("x: %w", se), &as) || as != se {
					c.Failf("%v does not lead to %v", se, cause)
				}
				if cause == inner && !errors.Is(se, io.ErrUnexpectedEOF) {
					c.Failf("%v does not lead to its innermost cause", se)
				}
			}
			c.Nontrivial()
			c.StateOf(sh, fmt.Sprint(cause))
		}})

	gts := uni.Types(th)
	spaces = append(spaces, engine.Space{Name: "failing calls", Shards: len(gts) * 2, Bound: "one full value of every type of the universe, Marshal and Unmarshal, every call of the streaming API fails once",
		Run: func(c *engine.Ctx, sh int) {
			t := gts[sh/2]
			p := uni.Protos[c.Choose(len(uni.Protos))]
			v := uni.NonZero(t)
			var ops []string
			at := -1
			var run func() error
			action := "marshal"
			if sh%2 == 0 {
				run = func() error {
					w := uni.Impl(p).NewWriter(io.Discard)
					return thrift.Marshal(&uni.TapW{W: w, Before: func(op string, _ any) error {
						ops = append(ops, op)
						if len(ops)-1 == at {
							return errC29
						}
						return nil
					}}, v.Addr().Interface())
				}
			} else {
				action = "unmarshal"
				in := p.Enc(nil, uni.FromGo(v))
				run = func() error {
					r := uni.Impl(p).NewReader(bytes.NewReader(in))
					return thrift.Unmarshal(&uni.TapR{R: r, Before: func(op string) error {
						ops = append(ops, op)
						if len(ops)-1 == at {
							return errC29
						}
						return nil
					}}, reflect.New(t).Interface())
				}
			}
			must(c, run(), "%s %v", action, t)
			n := len(ops)
			at = c.Choose(n)
			ops = nil
			err := run()
			c.Step()
			op := ops[at]
			if len(ops) != at+1 {
				c.Failf("%v %s %v: call %d, %s, failed, but %d more followed", p, action, t, at, op, len(ops)-at-1)
			}
			if !errors.Is(err, errC29) {
				c.Failf("%v %s %v: %s fails, and the error is %v", p, action, t, op, err)
			}
			var se *thrift.SemanticError
			if !errors.As(err, &se) {
				c.Failf("%v %s %v: %s fails, and the error is a %T", p, action, t, op, err)
			}
			if byte(se.ThriftType) != opType(op) || se.GoType == nil || !reach(t, map[reflect.Type]bool{})[se.GoType] || uni.WT(se.GoType) != opType(op) {
				c.Failf("%v %s %v: %s fails, and the error is about %v and %v", p, action, t, op, se.ThriftType, se.GoType)
			}
			checkText(c, se, action)
			if !strings.Contains(err.Error(), op) || !strings.Contains(err.Error(), errC29.Error()) {
				c.Failf("%v %s %v: %s fails, and the error says %q", p, action, t, op, err)
			}
			c.Outcome(action + " " + op)
			c.Nontrivial()
			c.StateOf(sh, op, se.GoType.String())
			c.Logf("%v: %v", op, err)
		}})

	spaces = append(spaces, engine.Space{Name: "types that do not fit", Shards: len(gts), Bound: "every type of the universe x every wire type (in the binary protocol also all unknown ones) as field, element, key, map value",
		Run: func(c *engine.Ctx, sh int) {
			t := gts[sh]
			wt := byte(c.Choose(256))
			if wt == uni.WT(t) || wt == ref.Stop {
				return
			}
			pos := c.Choose(5)
			var v []byte // of a binary encoding
			var root reflect.Type
			switch pos {
			case 0:
				root = uni.StructOf(uni.Field{T: t, ID: 1})
				v = []byte{wt, 0, 1}
			case 1:
				root = reflect.SliceOf(t)
				v = []byte{wt, 0, 0, 0, 1}
			case 2:
				root = reflect.MapOf(uni.TypeOf[string](), t)
				v = []byte{ref.String, wt, 0, 0, 0, 1, 0, 0, 0, 0}
			case 3:
				if !t.Comparable() {
					return
				}
				root = reflect.MapOf(t, uni.TypeOf[bool]())
				v = []byte{wt, ref.Bool, 0, 0, 0, 1}
			case 4:
				root = reflect.PointerTo(uni.StructOf(uni.Field{T: reflect.PointerTo(t), ID: 1}))
				v = []byte{wt, 0, 1}
			}
			if root.Kind() == reflect.Slice && root.Elem().Kind() == reflect.Uint8 && root.Elem().PkgPath() == "" {
				return // []byte is a string
			}
			if uni.WT(root) != ref.List && pos == 1 {
				return
			}
			c.Step()
			err := thrift.Unmarshal(uni.Impl(ref.BinStrict).NewReader(bytes.NewReader(append(v, make([]byte, 64)...))), reflect.New(root).Interface())
			var se *thrift.SemanticError
			if !errors.As(err, &se) {
				c.Failf("Unmarshal of %x into %v: %v", v, root, err)
			}
			ok := se.GoType == t
			for e := t; e.Kind() == reflect.Pointer && !ok; {
				e = e.Elem()
				ok = se.GoType == e
			}
			if pos == 4 {
				ok = ok || se.GoType == reflect.PointerTo(t)
			}
			if !ok || byte(se.ThriftType) != wt {
				c.Failf("Unmarshal of %x into %v: the error is about %v and %v, want %v and %v", v, root, se.ThriftType, se.GoType, thriftwire.Type(wt), t)
			}
			checkText(c, se, "unmarshal")
			c.Nontrivial()
			c.StateOf(sh, pos, wt)
		}})

	bad := []reflect.Type{uni.TypeOf[int](), uni.TypeOf[uint](), uni.TypeOf[uintptr](), uni.TypeOf[complex64](), uni.TypeOf[chan int](), uni.TypeOf[func()](), uni.TypeOf[any](), uni.TypeOf[[3]byte](), uni.TypeOf[[16]int8](), uni.TypeOf[struct{ X int }](),
		uni.TypeOf[struct {
			A int32 `thrift:"x"`
		}]()}
	spaces = append(spaces, engine.Space{Name: "types that are not handled", Shards: len(bad), Bound: "11 unsupported types alone and in composites of up to two steps, Marshal and Unmarshal",
		Run: func(c *engine.Ctx, sh int) {
			b := bad[sh]
			ts := []reflect.Type{b}
			ts = append(ts, uni.Composites(b)...)
			t := engine.Pick(c, ts)
			if c.Choose(2) == 1 && t != b {
				t = engine.Pick(c, []reflect.Type{reflect.SliceOf(t), reflect.MapOf(uni.TypeOf[string](), t), uni.StructOf(uni.Field{T: t, ID: 3, Opts: ",required"})})
			}
			for i, action := range []string{"marshal", "unmarshal"} {
				var err error
				c.Step()
				if i == 0 {
					v := reflect.New(t)
					fill(v.Elem(), 0)
					err = thrift.Marshal(uni.Impl(ref.BinStrict).NewWriter(io.Discard), v.Interface())
				} else {
					in := ref.BinStrict.Enc(nil, wireFor(t, 0))
					err = thrift.Unmarshal(uni.Impl(ref.BinStrict).NewReader(bytes.NewReader(in)), reflect.New(t).Interface())
				}
				var se *thrift.SemanticError
				if !errors.As(err, &se) {
					c.Failf("%s %v: %v", action, t, err)
				}
				if se.GoType == nil || !reach(t, map[reflect.Type]bool{})[se.GoType] || !reach(se.GoType, map[reflect.Type]bool{})[b] {
					c.Failf("%s %v: the error is about %v", action, t, se.GoType)
				}
				checkText(c, se, action)
			}
			c.Nontrivial()
			c.StateOf(t.String())
		}})
	spaces = append(spaces, engine.Space{Name: "bad arguments", Shards: len(gts), Bound: "nil, nil pointers and non-pointers for every type of the universe",
		Run: func(c *engine.Ctx, sh int) {
			t := gts[sh]
			w, r := uni.Impl(ref.BinStrict).NewWriter(io.Discard), uni.Impl(ref.BinStrict).NewReader(bytes.NewReader(make([]byte, 64)))
			null := reflect.Zero(reflect.PointerTo(t)).Interface()
			for i, err := range []error{thrift.Marshal(w, nil), thrift.Marshal(w, null), thrift.Unmarshal(r, nil), thrift.Unmarshal(r, null), thrift.Unmarshal(r, reflect.Zero(t).Interface())} {
				c.Step()
				var se *thrift.SemanticError
				if !errors.As(err, &se) {
					c.Failf("case %d with %v: %v", i, t, err)
				}
				if gt := t; i == 0 || i == 2 {
					if se.GoType != nil {
						c.Failf("case %d with nil: the error is about %v", i, se.GoType)
					}
				} else if se.GoType != gt && !(i == 4 && t.Kind() == reflect.Pointer && se.GoType == t.Elem()) {
					c.Failf("case %d with %v: the error is about %v", i, t, se.GoType)
				}
				checkText(c, se, []string{"marshal", "marshal", "unmarshal", "unmarshal", "unmarshal"}[i])
			}
			c.Nontrivial()
			c.StateOf(t.String())
		}})
	return spaces
}
