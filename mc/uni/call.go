//go:build go1.23

package uni

import (
	"fmt"
	"math"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
)

// CallR calls one operation of r; buf is what ReadBytes appends to.
func CallR(r thriftwire.Reader, op string, buf []byte) (any, error) {
	switch op {
	case "ReadMessageBegin":
		return r.ReadMessageBegin()
	case "ReadMessageEnd":
		return nil, r.ReadMessageEnd()
	case "ReadStructBegin":
		return r.ReadStructBegin()
	case "ReadStructEnd":
		return nil, r.ReadStructEnd()
	case "ReadFieldBegin":
		return r.ReadFieldBegin()
	case "ReadFieldEnd":
		return nil, r.ReadFieldEnd()
	case "ReadMapBegin":
		return r.ReadMapBegin()
	case "ReadMapEnd":
		return nil, r.ReadMapEnd()
	case "ReadSetBegin":
		return r.ReadSetBegin()
	case "ReadSetEnd":
		return nil, r.ReadSetEnd()
	case "ReadListBegin":
		return r.ReadListBegin()
	case "ReadListEnd":
		return nil, r.ReadListEnd()
	case "ReadBool":
		return r.ReadBool()
	case "ReadByte":
		return r.ReadByte()
	case "ReadDouble":
		v, err := r.ReadDouble()
		return math.Float64bits(v), err
	case "ReadI16":
		return r.ReadI16()
	case "ReadI32":
		return r.ReadI32()
	case "ReadI64":
		return r.ReadI64()
	case "ReadString":
		return r.ReadString()
	case "ReadBytes":
		b, err := r.ReadBytes(buf)
		return string(b), err
	case "ReadUUID":
		var u [16]byte
		err := r.ReadUUID(&u)
		return u, err
	case "SkipString":
		return nil, r.SkipString()
	case "SkipUUID":
		return nil, r.SkipUUID()
	}
	panic("CallR: " + op)
}

// CallW calls one operation of w with the argument v.
func CallW(w thriftwire.Writer, op string, v any) error {
	switch op {
	case "WriteMessageBegin":
		return w.WriteMessageBegin(v.(thriftwire.MessageHeader))
	case "WriteMessageEnd":
		return w.WriteMessageEnd()
	case "WriteStructBegin":
		return w.WriteStructBegin(v.(thriftwire.StructHeader))
	case "WriteStructEnd":
		return w.WriteStructEnd()
	case "WriteFieldBegin":
		return w.WriteFieldBegin(v.(thriftwire.FieldHeader))
	case "WriteFieldEnd":
		return w.WriteFieldEnd()
	case "WriteMapBegin":
		return w.WriteMapBegin(v.(thriftwire.MapHeader))
	case "WriteMapEnd":
		return w.WriteMapEnd()
	case "WriteSetBegin":
		return w.WriteSetBegin(v.(thriftwire.SetHeader))
	case "WriteSetEnd":
		return w.WriteSetEnd()
	case "WriteListBegin":
		return w.WriteListBegin(v.(thriftwire.ListHeader))
	case "WriteListEnd":
		return w.WriteListEnd()
	case "WriteBool":
		return w.WriteBool(v.(bool))
	case "WriteByte":
		return w.WriteByte(v.(byte))
	case "WriteDouble":
		return w.WriteDouble(v.(float64))
	case "WriteI16":
		return w.WriteI16(v.(int16))
	case "WriteI32":
		return w.WriteI32(v.(int32))
	case "WriteI64":
		return w.WriteI64(v.(int64))
	case "WriteString":
		return w.WriteString(v.(string))
	case "WriteBytes":
		return w.WriteBytes([]byte(v.(string)))
	case "WriteUUID":
		u := v.([16]byte)
		return w.WriteUUID(&u)
	case "Flush":
		return w.Flush()
	}
	panic("CallW: " + op)
}

// Arg returns the i-th argument (of 2 different ones) for an operation of a Writer.
func Arg(op string, i int) any {
	x := i % 2
	switch op {
	case "WriteMessageBegin":
		return thriftwire.MessageHeader{Name: "m" + fmt.Sprint(x), Type: thriftwire.Call, ID: int32(7 + x)}
	case "WriteStructBegin":
		return thriftwire.StructHeader{Name: "S"}
	case "WriteFieldBegin":
		return []thriftwire.FieldHeader{{Name: "f", Type: thriftwire.Bool, ID: 3}, {Name: "g", Type: thriftwire.I32, ID: 5}}[x]
	case "WriteMapBegin":
		return []thriftwire.MapHeader{{Key: thriftwire.Bool, Value: thriftwire.I64, Size: 1}, {Key: thriftwire.String, Value: thriftwire.Bool}}[x]
	case "WriteSetBegin":
		return []thriftwire.SetHeader{{Element: thriftwire.Bool, Size: 1}, {Element: thriftwire.String, Size: 20}}[x]
	case "WriteListBegin":
		return []thriftwire.ListHeader{{Element: thriftwire.Byte, Size: 2}, {Element: thriftwire.Bool, Size: 0}}[x]
	case "WriteBool":
		return x == 0
	case "WriteByte":
		return byte(x + 9)
	case "WriteDouble":
		return float64(x) + 0.5
	case "WriteI16":
		return int16(x) - 300
	case "WriteI32":
		return int32(x) + 70000
	case "WriteI64":
		return int64(x) - 1<<40
	case "WriteString":
		return []string{"str", ""}[x]
	case "WriteBytes":
		return []string{"", "bytes"}[x]
	case "WriteUUID":
		return [16]byte{byte(x), 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}
	}
	return nil
}
