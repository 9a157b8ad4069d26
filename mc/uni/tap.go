//go:build go1.23

package uni

import (
	"io"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
)

// TapR passes calls on to R and shows them to its hooks. Before may return an
// error instead; After may change the result.
type TapR struct {
	R      thriftwire.Reader
	Before func(op string) error
	// After gets the results of the call; v is a pointer to the value, or nil.
	After   func(op string, v any, err error) error
	OnReset func()
}

func (t *TapR) before(op string) error {
	if t.Before != nil {
		return t.Before(op)
	}
	return nil
}

func (t *TapR) after(op string, v any, err error) error {
	if t.After != nil {
		return t.After(op, v, err)
	}
	return err
}

func (t *TapR) Reset(r io.Reader) {
	t.R.Reset(r)
	if t.OnReset != nil {
		t.OnReset()
	}
}

// TapW passes calls on to W. Before may change the argument, to which v
// points, or return an error instead.
type TapW struct {
	W      thriftwire.Writer
	Before func(op string, v any) error
	// Skip tells that the call is not to be passed on.
	Skip    func(op string) bool
	After   func(op string, err error) error
	OnReset func()
}

func (t *TapW) before(op string, v any) error {
	if t.Before != nil {
		return t.Before(op, v)
	}
	return nil
}

func (t *TapW) after(op string, err error) error {
	if t.After != nil {
		return t.After(op, err)
	}
	return err
}

func (t *TapW) skip(op string) bool { return t.Skip != nil && t.Skip(op) }

func (t *TapW) Reset(w io.Writer) {
	t.W.Reset(w)
	if t.OnReset != nil {
		t.OnReset()
	}
}

// ReadOps lists the operations of a Reader.
var ReadOps = []string{"ReadMessageBegin", "ReadMessageEnd", "ReadStructBegin", "ReadStructEnd", "ReadFieldBegin", "ReadFieldEnd", "ReadMapBegin", "ReadMapEnd", "ReadSetBegin", "ReadSetEnd", "ReadListBegin", "ReadListEnd", "ReadBool", "ReadByte", "ReadDouble", "ReadI16", "ReadI32", "ReadI64", "ReadString", "ReadBytes", "ReadUUID", "SkipString", "SkipUUID"}

// WriteOps lists the operations of a Writer.
var WriteOps = []string{"WriteMessageBegin", "WriteMessageEnd", "WriteStructBegin", "WriteStructEnd", "WriteFieldBegin", "WriteFieldEnd", "WriteMapBegin", "WriteMapEnd", "WriteSetBegin", "WriteSetEnd", "WriteListBegin", "WriteListEnd", "WriteBool", "WriteByte", "WriteDouble", "WriteI16", "WriteI32", "WriteI64", "WriteString", "WriteBytes", "WriteUUID", "Flush"}

func (t *TapR) ReadMessageBegin() (v thriftwire.MessageHeader, err error) {
	if err = t.before("ReadMessageBegin"); err != nil {
		return v, err
	}
	v, err = t.R.ReadMessageBegin()
	err = t.after("ReadMessageBegin", &v, err)
	return v, err
}

func (t *TapR) ReadMessageEnd() error {
	if err := t.before("ReadMessageEnd"); err != nil {
		return err
	}
	return t.after("ReadMessageEnd", nil, t.R.ReadMessageEnd())
}

func (t *TapR) ReadStructBegin() (v thriftwire.StructHeader, err error) {
	if err = t.before("ReadStructBegin"); err != nil {
		return v, err
	}
	v, err = t.R.ReadStructBegin()
	err = t.after("ReadStructBegin", &v, err)
	return v, err
}

func (t *TapR) ReadStructEnd() error {
	if err := t.before("ReadStructEnd"); err != nil {
		return err
	}
	return t.after("ReadStructEnd", nil, t.R.ReadStructEnd())
}

func (t *TapR) ReadFieldBegin() (v thriftwire.FieldHeader, err error) {
	if err = t.before("ReadFieldBegin"); err != nil {
		return v, err
	}
	v, err = t.R.ReadFieldBegin()
	err = t.after("ReadFieldBegin", &v, err)
	return v, err
}

func (t *TapR) ReadFieldEnd() error {
	if err := t.before("ReadFieldEnd"); err != nil {
		return err
	}
	return t.after("ReadFieldEnd", nil, t.R.ReadFieldEnd())
}

func (t *TapR) ReadMapBegin() (v thriftwire.MapHeader, err error) {
	if err = t.before("ReadMapBegin"); err != nil {
		return v, err
	}
	v, err = t.R.ReadMapBegin()
	err = t.after("ReadMapBegin", &v, err)
	return v, err
}

func (t *TapR) ReadMapEnd() error {
	if err := t.before("ReadMapEnd"); err != nil {
		return err
	}
	return t.after("ReadMapEnd", nil, t.R.ReadMapEnd())
}

func (t *TapR) ReadSetBegin() (v thriftwire.SetHeader, err error) {
	if err = t.before("ReadSetBegin"); err != nil {
		return v, err
	}
	v, err = t.R.ReadSetBegin()
	err = t.after("ReadSetBegin", &v, err)
	return v, err
}

func (t *TapR) ReadSetEnd() error {
	if err := t.before("ReadSetEnd"); err != nil {
		return err
	}
	return t.after("ReadSetEnd", nil, t.R.ReadSetEnd())
}

func (t *TapR) ReadListBegin() (v thriftwire.ListHeader, err error) {
	if err = t.before("ReadListBegin"); err != nil {
		return v, err
	}
	v, err = t.R.ReadListBegin()
	err = t.after("ReadListBegin", &v, err)
	return v, err
}

func (t *TapR) ReadListEnd() error {
	if err := t.before("ReadListEnd"); err != nil {
		return err
	}
	return t.after("ReadListEnd", nil, t.R.ReadListEnd())
}

func (t *TapR) ReadBool() (v bool, err error) {
	if err = t.before("ReadBool"); err != nil {
		return v, err
	}
	v, err = t.R.ReadBool()
	err = t.after("ReadBool", &v, err)
	return v, err
}

func (t *TapR) ReadByte() (v byte, err error) {
	if err = t.before("ReadByte"); err != nil {
		return v, err
	}
	v, err = t.R.ReadByte()
	err = t.after("ReadByte", &v, err)
	return v, err
}

func (t *TapR) ReadDouble() (v float64, err error) {
	if err = t.before("ReadDouble"); err != nil {
		return v, err
	}
	v, err = t.R.ReadDouble()
	err = t.after("ReadDouble", &v, err)
	return v, err
}

func (t *TapR) ReadI16() (v int16, err error) {
	if err = t.before("ReadI16"); err != nil {
		return v, err
	}
	v, err = t.R.ReadI16()
	err = t.after("ReadI16", &v, err)
	return v, err
}

func (t *TapR) ReadI32() (v int32, err error) {
	if err = t.before("ReadI32"); err != nil {
		return v, err
	}
	v, err = t.R.ReadI32()
	err = t.after("ReadI32", &v, err)
	return v, err
}

func (t *TapR) ReadI64() (v int64, err error) {
	if err = t.before("ReadI64"); err != nil {
		return v, err
	}
	v, err = t.R.ReadI64()
	err = t.after("ReadI64", &v, err)
	return v, err
}

func (t *TapR) ReadString() (v string, err error) {
	if err = t.before("ReadString"); err != nil {
		return v, err
	}
	v, err = t.R.ReadString()
	err = t.after("ReadString", &v, err)
	return v, err
}

func (t *TapR) ReadBytes(a []byte) (v []byte, err error) {
	if err = t.before("ReadBytes"); err != nil {
		return v, err
	}
	v, err = t.R.ReadBytes(a)
	err = t.after("ReadBytes", &v, err)
	return v, err
}

func (t *TapR) ReadUUID(a *[16]byte) error {
	if err := t.before("ReadUUID"); err != nil {
		return err
	}
	return t.after("ReadUUID", a, t.R.ReadUUID(a))
}

func (t *TapR) SkipString() error {
	if err := t.before("SkipString"); err != nil {
		return err
	}
	return t.after("SkipString", nil, t.R.SkipString())
}

func (t *TapR) SkipUUID() error {
	if err := t.before("SkipUUID"); err != nil {
		return err
	}
	return t.after("SkipUUID", nil, t.R.SkipUUID())
}

func (t *TapW) WriteMessageBegin(a thriftwire.MessageHeader) error {
	if err := t.before("WriteMessageBegin", &a); err != nil {
		return err
	}
	if t.skip("WriteMessageBegin") {
		return t.after("WriteMessageBegin", nil)
	}
	return t.after("WriteMessageBegin", t.W.WriteMessageBegin(a))
}

func (t *TapW) WriteMessageEnd() error {
	if err := t.before("WriteMessageEnd", nil); err != nil {
		return err
	}
	if t.skip("WriteMessageEnd") {
		return t.after("WriteMessageEnd", nil)
	}
	return t.after("WriteMessageEnd", t.W.WriteMessageEnd())
}

func (t *TapW) WriteStructBegin(a thriftwire.StructHeader) error {
	if err := t.before("WriteStructBegin", &a); err != nil {
		return err
	}
	if t.skip("WriteStructBegin") {
		return t.after("WriteStructBegin", nil)
	}
	return t.after("WriteStructBegin", t.W.WriteStructBegin(a))
}

func (t *TapW) WriteStructEnd() error {
	if err := t.before("WriteStructEnd", nil); err != nil {
		return err
	}
	if t.skip("WriteStructEnd") {
		return t.after("WriteStructEnd", nil)
	}
	return t.after("WriteStructEnd", t.W.WriteStructEnd())
}

func (t *TapW) WriteFieldBegin(a thriftwire.FieldHeader) error {
	if err := t.before("WriteFieldBegin", &a); err != nil {
		return err
	}
	if t.skip("WriteFieldBegin") {
		return t.after("WriteFieldBegin", nil)
	}
	return t.after("WriteFieldBegin", t.W.WriteFieldBegin(a))
}

func (t *TapW) WriteFieldEnd() error {
	if err := t.before("WriteFieldEnd", nil); err != nil {
		return err
	}
	if t.skip("WriteFieldEnd") {
		return t.after("WriteFieldEnd", nil)
	}
	return t.after("WriteFieldEnd", t.W.WriteFieldEnd())
}

func (t *TapW) WriteMapBegin(a thriftwire.MapHeader) error {
	if err := t.before("WriteMapBegin", &a); err != nil {
		return err
	}
	if t.skip("WriteMapBegin") {
		return t.after("WriteMapBegin", nil)
	}
	return t.after("WriteMapBegin", t.W.WriteMapBegin(a))
}

func (t *TapW) WriteMapEnd() error {
	if err := t.before("WriteMapEnd", nil); err != nil {
		return err
	}
	if t.skip("WriteMapEnd") {
		return t.after("WriteMapEnd", nil)
	}
	return t.after("WriteMapEnd", t.W.WriteMapEnd())
}

func (t *TapW) WriteSetBegin(a thriftwire.SetHeader) error {
	if err := t.before("WriteSetBegin", &a); err != nil {
		return err
	}
	if t.skip("WriteSetBegin") {
		return t.after("WriteSetBegin", nil)
	}
	return t.after("WriteSetBegin", t.W.WriteSetBegin(a))
}

func (t *TapW) WriteSetEnd() error {
	if err := t.before("WriteSetEnd", nil); err != nil {
		return err
	}
	if t.skip("WriteSetEnd") {
		return t.after("WriteSetEnd", nil)
	}
	return t.after("WriteSetEnd", t.W.WriteSetEnd())
}

func (t *TapW) WriteListBegin(a thriftwire.ListHeader) error {
	if err := t.before("WriteListBegin", &a); err != nil {
		return err
	}
	if t.skip("WriteListBegin") {
		return t.after("WriteListBegin", nil)
	}
	return t.after("WriteListBegin", t.W.WriteListBegin(a))
}

func (t *TapW) WriteListEnd() error {
	if err := t.before("WriteListEnd", nil); err != nil {
		return err
	}
	if t.skip("WriteListEnd") {
		return t.after("WriteListEnd", nil)
	}
	return t.after("WriteListEnd", t.W.WriteListEnd())
}

func (t *TapW) WriteBool(a bool) error {
	if err := t.before("WriteBool", &a); err != nil {
		return err
	}
	if t.skip("WriteBool") {
		return t.after("WriteBool", nil)
	}
	return t.after("WriteBool", t.W.WriteBool(a))
}

func (t *TapW) WriteByte(a byte) error {
	if err := t.before("WriteByte", &a); err != nil {
		return err
	}
	if t.skip("WriteByte") {
		return t.after("WriteByte", nil)
	}
	return t.after("WriteByte", t.W.WriteByte(a))
}

func (t *TapW) WriteDouble(a float64) error {
	if err := t.before("WriteDouble", &a); err != nil {
		return err
	}
	if t.skip("WriteDouble") {
		return t.after("WriteDouble", nil)
	}
	return t.after("WriteDouble", t.W.WriteDouble(a))
}

func (t *TapW) WriteI16(a int16) error {
	if err := t.before("WriteI16", &a); err != nil {
		return err
	}
	if t.skip("WriteI16") {
		return t.after("WriteI16", nil)
	}
	return t.after("WriteI16", t.W.WriteI16(a))
}

func (t *TapW) WriteI32(a int32) error {
	if err := t.before("WriteI32", &a); err != nil {
		return err
	}
	if t.skip("WriteI32") {
		return t.after("WriteI32", nil)
	}
	return t.after("WriteI32", t.W.WriteI32(a))
}

func (t *TapW) WriteI64(a int64) error {
	if err := t.before("WriteI64", &a); err != nil {
		return err
	}
	if t.skip("WriteI64") {
		return t.after("WriteI64", nil)
	}
	return t.after("WriteI64", t.W.WriteI64(a))
}

func (t *TapW) WriteString(a string) error {
	if err := t.before("WriteString", &a); err != nil {
		return err
	}
	if t.skip("WriteString") {
		return t.after("WriteString", nil)
	}
	return t.after("WriteString", t.W.WriteString(a))
}

func (t *TapW) WriteBytes(a []byte) error {
	if err := t.before("WriteBytes", &a); err != nil {
		return err
	}
	if t.skip("WriteBytes") {
		return t.after("WriteBytes", nil)
	}
	return t.after("WriteBytes", t.W.WriteBytes(a))
}

func (t *TapW) WriteUUID(a *[16]byte) error {
	if err := t.before("WriteUUID", a); err != nil {
		return err
	}
	if t.skip("WriteUUID") {
		return t.after("WriteUUID", nil)
	}
	return t.after("WriteUUID", t.W.WriteUUID(a))
}

func (t *TapW) Flush() error {
	if err := t.before("Flush", nil); err != nil {
		return err
	}
	if t.skip("Flush") {
		return t.after("Flush", nil)
	}
	return t.after("Flush", t.W.Flush())
}
