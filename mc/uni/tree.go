//go:build go1.23

package uni

import (
	"errors"
	"fmt"
	"io"
	"math"
	"reflect"
	"sort"
	"strings"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/internal/zzverif/ref"
)

// ErrTree is returned by TreeR and TreeW for calls that are not allowed.
var ErrTree = errors.New("uni: call out of order")

// tcall counts the calls of a tree and makes one of them fail.
type tcall struct {
	FailAt int // fails call FailAt (from 1) with Err
	Err    error
	N      int
	Ops    []string
	Failed string // the call that failed
	Bad    string // the first call that was not allowed
}

func (t *tcall) call(op string) error {
	t.N++
	t.Ops = append(t.Ops, op)
	if t.Failed != "" || t.Bad != "" {
		return t.bad(op, "after a call that failed, "+t.Failed)
	}
	if t.N == t.FailAt {
		t.Failed = op
		return t.Err
	}
	return nil
}

func (t *tcall) bad(op, why string) error {
	if t.Bad == "" {
		t.Bad = fmt.Sprintf("call %d, %s: %s", t.N, op, why)
	}
	return ErrTree
}

// TreeR is a Reader that presents a value which has no bytes at all, to calls
// in the right order only.
type TreeR struct {
	tcall
	Names bool // reports names of structs and fields
	Junk  bool // the stop field has an ID and a name
	Neg   bool // empty containers have a negative size

	st []*rframe
}

type rframe struct {
	v     ref.V
	i     int // the next element or field
	phase int // of a struct: 0 field or stop, 1 value, 2 end of field, 3 end of struct
}

// NewTreeR returns a Reader that presents the values one after another.
func NewTreeR(vs ...ref.V) *TreeR {
	return &TreeR{st: []*rframe{{v: ref.V{L: vs}}}}
}

// Done tells what is left, if anything.
func (t *TreeR) Done() string {
	if len(t.st) != 1 {
		return fmt.Sprintf("%d values are not ended", len(t.st)-1)
	}
	if f := t.st[0]; f.i != len(f.v.L) {
		return fmt.Sprintf("%d values are not read", len(f.v.L)-f.i)
	}
	return ""
}

func (t *TreeR) top() *rframe { return t.st[len(t.st)-1] }

// value is the value that is next, which has to be of type typ.
func (t *TreeR) value(op string, typ byte) (v ref.V, err error) {
	if err := t.call(op); err != nil {
		return v, err
	}
	f := t.top()
	switch {
	case f.v.T == ref.Struct && f.phase == 1:
		v = f.v.F[f.i].V
		f.phase = 2
	case f.v.T != ref.Struct && f.i < len(f.v.L):
		v = f.v.L[f.i]
		f.i++
	default:
		return v, t.bad(op, fmt.Sprintf("no value is next, in a %s", ref.TName(f.v.T)))
	}
	if v.T != typ {
		return v, t.bad(op, "the next value is a "+ref.TName(v.T))
	}
	if typ == ref.Struct || typ == ref.Map || typ == ref.Set || typ == ref.List {
		t.st = append(t.st, &rframe{v: v})
	}
	return v, nil
}

func (t *TreeR) end(op string, typ byte) error {
	if err := t.call(op); err != nil {
		return err
	}
	f := t.top()
	if f.v.T != typ || len(t.st) == 1 {
		return t.bad(op, "in a "+ref.TName(f.v.T))
	}
	if typ == ref.Struct && f.phase != 3 || typ != ref.Struct && f.i != len(f.v.L) {
		return t.bad(op, "not at the end")
	}
	t.st = t.st[:len(t.st)-1]
	return nil
}

func (t *TreeR) ReadMessageBegin() (h thriftwire.MessageHeader, err error) {
	if err = t.call("ReadMessageBegin"); err == nil {
		err = t.bad("ReadMessageBegin", "there are no messages")
	}
	return
}

func (t *TreeR) ReadMessageEnd() error {
	if err := t.call("ReadMessageEnd"); err != nil {
		return err
	}
	return t.bad("ReadMessageEnd", "there are no messages")
}

func (t *TreeR) ReadStructBegin() (h thriftwire.StructHeader, err error) {
	_, err = t.value("ReadStructBegin", ref.Struct)
	if err == nil && t.Names {
		h.Name = "StructOnTheWire"
	}
	return h, err
}
func (t *TreeR) ReadStructEnd() error { return t.end("ReadStructEnd", ref.Struct) }

func (t *TreeR) ReadFieldBegin() (h thriftwire.FieldHeader, err error) {
	if err := t.call("ReadFieldBegin"); err != nil {
		return h, err
	}
	f := t.top()
	if f.v.T != ref.Struct || f.phase != 0 {
		return h, t.bad("ReadFieldBegin", fmt.Sprintf("in a %s, phase %d", ref.TName(f.v.T), f.phase))
	}
	if f.i == len(f.v.F) {
		f.phase = 3
		if t.Junk {
			h.ID, h.Name = 1, "V"
		}
		return h, nil
	}
	f.phase = 1
	h = thriftwire.FieldHeader{ID: f.v.F[f.i].ID, Type: thriftwire.Type(f.v.F[f.i].V.T)}
	if t.Names {
		h.Name = []string{"fieldOnTheWire", "A", ""}[f.i%3]
	}
	return h, nil
}

func (t *TreeR) ReadFieldEnd() error {
	if err := t.call("ReadFieldEnd"); err != nil {
		return err
	}
	f := t.top()
	if f.v.T != ref.Struct || f.phase != 2 {
		return t.bad("ReadFieldEnd", fmt.Sprintf("in a %s, phase %d", ref.TName(f.v.T), f.phase))
	}
	f.phase = 0
	f.i++
	return nil
}

func (t *TreeR) size(n int) int {
	if n == 0 && t.Neg {
		return -1 << (t.N % 40)
	}
	return n
}

func (t *TreeR) ReadMapBegin() (h thriftwire.MapHeader, err error) {
	v, err := t.value("ReadMapBegin", ref.Map)
	if err == nil {
		h = thriftwire.MapHeader{Key: thriftwire.Type(v.KT), Value: thriftwire.Type(v.ET), Size: t.size(len(v.L) / 2)}
	}
	return h, err
}
func (t *TreeR) ReadMapEnd() error { return t.end("ReadMapEnd", ref.Map) }

func (t *TreeR) ReadSetBegin() (h thriftwire.SetHeader, err error) {
	v, err := t.value("ReadSetBegin", ref.Set)
	if err == nil {
		h = thriftwire.SetHeader{Element: thriftwire.Type(v.ET), Size: t.size(len(v.L))}
	}
	return h, err
}
func (t *TreeR) ReadSetEnd() error { return t.end("ReadSetEnd", ref.Set) }

func (t *TreeR) ReadListBegin() (h thriftwire.ListHeader, err error) {
	v, err := t.value("ReadListBegin", ref.List)
	if err == nil {
		h = thriftwire.ListHeader{Element: thriftwire.Type(v.ET), Size: t.size(len(v.L))}
	}
	return h, err
}
func (t *TreeR) ReadListEnd() error { return t.end("ReadListEnd", ref.List) }

func (t *TreeR) ReadBool() (bool, error) {
	v, err := t.value("ReadBool", ref.Bool)
	return v.N != 0, err
}
func (t *TreeR) ReadByte() (byte, error) {
	v, err := t.value("ReadByte", ref.Byte)
	return byte(v.N), err
}
func (t *TreeR) ReadDouble() (float64, error) {
	v, err := t.value("ReadDouble", ref.Double)
	return math.Float64frombits(uint64(v.N)), err
}
func (t *TreeR) ReadI16() (int16, error) {
	v, err := t.value("ReadI16", ref.I16)
	return int16(v.N), err
}
func (t *TreeR) ReadI32() (int32, error) {
	v, err := t.value("ReadI32", ref.I32)
	return int32(v.N), err
}
func (t *TreeR) ReadI64() (int64, error) {
	v, err := t.value("ReadI64", ref.I64)
	return v.N, err
}
func (t *TreeR) ReadString() (string, error) {
	v, err := t.value("ReadString", ref.String)
	return v.S, err
}
func (t *TreeR) ReadBytes(b []byte) ([]byte, error) {
	v, err := t.value("ReadBytes", ref.String)
	return append(b, v.S...), err
}
func (t *TreeR) ReadUUID(u *[16]byte) error {
	v, err := t.value("ReadUUID", ref.UUID)
	if err == nil {
		copy(u[:], v.S)
	}
	return err
}
func (t *TreeR) SkipString() error {
	_, err := t.value("SkipString", ref.String)
	return err
}
func (t *TreeR) SkipUUID() error {
	_, err := t.value("SkipUUID", ref.UUID)
	return err
}
func (t *TreeR) Reset(io.Reader) {
	t.N++
	t.bad("Reset", "the reader is the caller's")
}

// TreeW is a Writer that renders what is written as a text, names included,
// and takes calls in the right order only.
type TreeW struct {
	tcall
	st []*wframe
}

type wframe struct {
	t      byte
	kt, et byte // of elements; et of the field
	n      int  // elements to come
	phase  int  // of a struct: 0 field or end, 1 value, 2 end of field
	head   string
	parts  []string
}

// NewTreeW returns a Writer for n values of type t.
func NewTreeW(t byte, n int) *TreeW {
	return &TreeW{st: []*wframe{{et: t, n: n}}}
}

// Text is what was written; left tells what is missing, if anything.
func (t *TreeW) Text() (text, left string) {
	if len(t.st) != 1 {
		return "", fmt.Sprintf("%d values are not ended", len(t.st)-1)
	}
	if n := t.st[0].n; n > 0 {
		return "", fmt.Sprintf("%d values are not written", n)
	}
	return strings.Join(t.st[0].parts, ";"), ""
}

func (t *TreeW) top() *wframe { return t.st[len(t.st)-1] }

// slot makes sure that a value of type typ is next.
func (t *TreeW) slot(op string, typ byte) error {
	if err := t.call(op); err != nil {
		return err
	}
	f := t.top()
	want := f.et
	switch {
	case f.t == ref.Struct && f.phase == 1:
		f.phase = 2
	case f.t != ref.Struct && f.n > 0:
		if f.t == ref.Map && f.n%2 == 0 {
			want = f.kt
		}
		f.n--
	default:
		return t.bad(op, "no value is next, in a "+ref.TName(f.t))
	}
	if want != typ {
		return t.bad(op, "the next value is a "+ref.TName(want))
	}
	return nil
}

func (t *TreeW) put(s string) { f := t.top(); f.parts = append(f.parts, s) }

func (t *TreeW) scalar(op string, typ byte, text string) error {
	if err := t.slot(op, typ); err != nil {
		return err
	}
	t.put(text)
	return nil
}

func (t *TreeW) begin(op string, f wframe) error {
	if err := t.slot(op, f.t); err != nil {
		return err
	}
	if f.n < 0 {
		return t.bad(op, "negative size")
	}
	t.st = append(t.st, &f)
	return nil
}

func (t *TreeW) end(op string, typ byte) error {
	if err := t.call(op); err != nil {
		return err
	}
	f := t.top()
	if f.t != typ || len(t.st) == 1 {
		return t.bad(op, "in a "+ref.TName(f.t))
	}
	if f.phase != 0 || f.n != 0 {
		return t.bad(op, fmt.Sprintf("not at the end, %d values to come", f.n))
	}
	t.st = t.st[:len(t.st)-1]
	t.put(f.head + composite(f.t, f.parts))
	return nil
}

func composite(t byte, parts []string) string {
	if t == ref.Map { // any order
		var kv []string
		for i := 0; i+1 < len(parts); i += 2 {
			kv = append(kv, parts[i]+"="+parts[i+1])
		}
		sort.Strings(kv)
		parts = kv
	}
	return "{" + strings.Join(parts, ";") + "}"
}

func (t *TreeW) WriteMessageBegin(thriftwire.MessageHeader) error {
	if err := t.call("WriteMessageBegin"); err != nil {
		return err
	}
	return t.bad("WriteMessageBegin", "a value is not a message")
}

func (t *TreeW) WriteMessageEnd() error {
	if err := t.call("WriteMessageEnd"); err != nil {
		return err
	}
	return t.bad("WriteMessageEnd", "a value is not a message")
}

func (t *TreeW) WriteStructBegin(h thriftwire.StructHeader) error {
	return t.begin("WriteStructBegin", wframe{t: ref.Struct, head: structHead(h.Name)})
}
func (t *TreeW) WriteStructEnd() error { return t.end("WriteStructEnd", ref.Struct) }

func (t *TreeW) WriteFieldBegin(h thriftwire.FieldHeader) error {
	if err := t.call("WriteFieldBegin"); err != nil {
		return err
	}
	f := t.top()
	if f.t != ref.Struct || f.phase != 0 {
		return t.bad("WriteFieldBegin", "no field is next, in a "+ref.TName(f.t))
	}
	f.phase, f.et = 1, byte(h.Type)
	t.put(fieldHead(h.Name, h.ID))
	return nil
}

func (t *TreeW) WriteFieldEnd() error {
	if err := t.call("WriteFieldEnd"); err != nil {
		return err
	}
	f := t.top()
	if f.t != ref.Struct || f.phase != 2 {
		return t.bad("WriteFieldEnd", "no value was written, in a "+ref.TName(f.t))
	}
	f.phase = 0
	return nil
}

func (t *TreeW) WriteMapBegin(h thriftwire.MapHeader) error {
	return t.begin("WriteMapBegin", wframe{t: ref.Map, kt: byte(h.Key), et: byte(h.Value), n: 2 * h.Size, head: contHead(ref.Map, byte(h.Key), byte(h.Value))})
}
func (t *TreeW) WriteMapEnd() error { return t.end("WriteMapEnd", ref.Map) }
func (t *TreeW) WriteSetBegin(h thriftwire.SetHeader) error {
	return t.begin("WriteSetBegin", wframe{t: ref.Set, et: byte(h.Element), n: h.Size, head: contHead(ref.Set, 0, byte(h.Element))})
}
func (t *TreeW) WriteSetEnd() error { return t.end("WriteSetEnd", ref.Set) }
func (t *TreeW) WriteListBegin(h thriftwire.ListHeader) error {
	return t.begin("WriteListBegin", wframe{t: ref.List, et: byte(h.Element), n: h.Size, head: contHead(ref.List, 0, byte(h.Element))})
}
func (t *TreeW) WriteListEnd() error    { return t.end("WriteListEnd", ref.List) }
func (t *TreeW) WriteBool(v bool) error { return t.scalar("WriteBool", ref.Bool, fmt.Sprint(v)) }
func (t *TreeW) WriteByte(v byte) error { return t.scalar("WriteByte", ref.Byte, fmt.Sprint(v)) }
func (t *TreeW) WriteI16(v int16) error { return t.scalar("WriteI16", ref.I16, fmt.Sprint(v)) }
func (t *TreeW) WriteI32(v int32) error { return t.scalar("WriteI32", ref.I32, fmt.Sprint(v)) }
func (t *TreeW) WriteI64(v int64) error { return t.scalar("WriteI64", ref.I64, fmt.Sprint(v)) }
func (t *TreeW) WriteString(v string) error {
	return t.scalar("WriteString", ref.String, fmt.Sprintf("%q", v))
}
func (t *TreeW) WriteBytes(v []byte) error {
	return t.scalar("WriteBytes", ref.String, fmt.Sprintf("%q", v))
}
func (t *TreeW) WriteDouble(v float64) error {
	return t.scalar("WriteDouble", ref.Double, fmt.Sprintf("%x", math.Float64bits(v)))
}
func (t *TreeW) WriteUUID(v *[16]byte) error {
	return t.scalar("WriteUUID", ref.UUID, fmt.Sprintf("%x", v[:]))
}
func (t *TreeW) Flush() error { return t.call("Flush") }
func (t *TreeW) Reset(io.Writer) {
	t.N++
	t.bad("Reset", "the writer is the caller's")
}

func structHead(name string) string          { return "struct " + name }
func fieldHead(name string, id int16) string { return fmt.Sprintf("%d %s", id, name) }
func contHead(t, k, e byte) string {
	return fmt.Sprintf("%s<%s,%s>", ref.TName(t), ref.TName(k), ref.TName(e))
}

// GoText is the text a TreeW has after v is marshaled, by the reference model.
func GoText(v reflect.Value) string {
	t := v.Type()
	switch t.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return GoText(reflect.Zero(t.Elem()))
		}
		return GoText(v.Elem())
	case reflect.Slice:
		if isBytes(t) {
			return fmt.Sprintf("%q", v.Bytes())
		}
		var parts []string
		for i := range v.Len() {
			parts = append(parts, GoText(v.Index(i)))
		}
		return contHead(WT(t), 0, WT(t.Elem())) + composite(WT(t), parts)
	case reflect.Map:
		var parts []string
		for it := v.MapRange(); it.Next(); {
			parts = append(parts, GoText(it.Key()), GoText(it.Value()))
		}
		return contHead(ref.Map, WT(t.Key()), WT(t.Elem())) + composite(ref.Map, parts)
	case reflect.Struct:
		fs, err := Fields(t)
		if err != nil {
			panic(err)
		}
		var parts []string
		for _, f := range fs {
			if fv := v.Field(f.Index); f.Required || !fieldZero(fv) {
				parts = append(parts, fieldHead(t.Field(f.Index).Name, f.ID), GoText(fv))
			}
		}
		return structHead(t.Name()) + composite(ref.Struct, parts)
	}
	s := fromGo(v)
	switch s.T {
	case ref.Bool:
		return fmt.Sprint(s.N != 0)
	case ref.Byte:
		return fmt.Sprint(byte(s.N))
	case ref.Double:
		return fmt.Sprintf("%x", uint64(s.N))
	case ref.String:
		return fmt.Sprintf("%q", s.S)
	case ref.UUID:
		return fmt.Sprintf("%x", s.S)
	}
	return fmt.Sprint(s.N)
}
