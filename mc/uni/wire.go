//go:build go1.23

// Package uni is the universe the checks range over: bridges between the
// reference values and the streaming API, the Go types and their values, and
// the reference model of Marshal and Unmarshal.
package uni

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"

	"github.com/itstarsun/go-thrift/encoding/thriftbinary"
	"github.com/itstarsun/go-thrift/encoding/thriftcompact"
	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/internal/zzverif/ref"
)

// Protos lists the protocols.
var Protos = []ref.Proto{ref.BinStrict, ref.BinNonStrict, ref.CompactP}

// Impl returns the implementation of p.
func Impl(p ref.Proto) thriftwire.Protocol {
	switch p {
	case ref.BinStrict:
		return thriftbinary.Protocol
	case ref.BinNonStrict:
		return thriftbinary.ProtocolNonStrict
	}
	return thriftcompact.Protocol
}

// WriteV writes v with the streaming API.
func WriteV(w thriftwire.Writer, v ref.V) error {
	switch v.T {
	case ref.Bool:
		return w.WriteBool(v.N != 0)
	case ref.Byte:
		return w.WriteByte(byte(v.N))
	case ref.I16:
		return w.WriteI16(int16(v.N))
	case ref.I32:
		return w.WriteI32(int32(v.N))
	case ref.I64:
		return w.WriteI64(v.N)
	case ref.Double:
		return w.WriteDouble(math.Float64frombits(uint64(v.N)))
	case ref.String:
		if len(v.S)%2 == 1 {
			return w.WriteBytes([]byte(v.S))
		}
		return w.WriteString(v.S)
	case ref.UUID:
		var u [16]byte
		copy(u[:], v.S)
		return w.WriteUUID(&u)
	case ref.Struct:
		if err := w.WriteStructBegin(thriftwire.StructHeader{Name: "S"}); err != nil {
			return err
		}
		for _, f := range v.F {
			if err := w.WriteFieldBegin(thriftwire.FieldHeader{Name: "f", Type: thriftwire.Type(f.V.T), ID: f.ID}); err != nil {
				return err
			}
			if err := WriteV(w, f.V); err != nil {
				return err
			}
			if err := w.WriteFieldEnd(); err != nil {
				return err
			}
		}
		return w.WriteStructEnd()
	case ref.Map:
		if err := w.WriteMapBegin(thriftwire.MapHeader{Key: thriftwire.Type(v.KT), Value: thriftwire.Type(v.ET), Size: v.Size()}); err != nil {
			return err
		}
		for _, e := range v.L {
			if err := WriteV(w, e); err != nil {
				return err
			}
		}
		return w.WriteMapEnd()
	case ref.Set:
		if err := w.WriteSetBegin(thriftwire.SetHeader{Element: thriftwire.Type(v.ET), Size: v.Size()}); err != nil {
			return err
		}
		for _, e := range v.L {
			if err := WriteV(w, e); err != nil {
				return err
			}
		}
		return w.WriteSetEnd()
	case ref.List:
		if err := w.WriteListBegin(thriftwire.ListHeader{Element: thriftwire.Type(v.ET), Size: v.Size()}); err != nil {
			return err
		}
		for _, e := range v.L {
			if err := WriteV(w, e); err != nil {
				return err
			}
		}
		return w.WriteListEnd()
	}
	panic("uni: bad type")
}

// WriteMsg writes a message envelope.
func WriteMsg(w thriftwire.Writer, m ref.Msg) error {
	return w.WriteMessageBegin(thriftwire.MessageHeader{Name: m.Name, Type: thriftwire.MessageType(m.Type), ID: m.ID})
}

// ReadMsg reads a message envelope.
func ReadMsg(r thriftwire.Reader) (ref.Msg, error) {
	h, err := r.ReadMessageBegin()
	return ref.Msg{Name: h.Name, Type: byte(h.Type), ID: h.ID}, err
}

// ErrType is returned by ReadV for a type that is no value type.
var ErrType = errors.New("uni: not a value type")

// ErrDepth is returned by ReadV for absurdly nested values.
var ErrDepth = errors.New("uni: too deep")

// ReadV reads a value with the streaming API.
func ReadV(r thriftwire.Reader, t byte) (ref.V, error) { return readV(r, t, 0) }

func readV(r thriftwire.Reader, t byte, depth int) (v ref.V, err error) {
	if depth > 20000 {
		return v, ErrDepth
	}
	v.T = t
	switch t {
	case ref.Bool:
		b, err := r.ReadBool()
		return ref.BoolV(b), err
	case ref.Byte:
		b, err := r.ReadByte()
		v.N = int64(b)
		return v, err
	case ref.I16:
		n, err := r.ReadI16()
		v.N = int64(n)
		return v, err
	case ref.I32:
		n, err := r.ReadI32()
		v.N = int64(n)
		return v, err
	case ref.I64:
		v.N, err = r.ReadI64()
		return v, err
	case ref.Double:
		f, err := r.ReadDouble()
		v.N = int64(math.Float64bits(f))
		return v, err
	case ref.String:
		v.S, err = r.ReadString()
		return v, err
	case ref.UUID:
		var u [16]byte
		err = r.ReadUUID(&u)
		v.S = string(u[:])
		return v, err
	case ref.Struct:
		if _, err := r.ReadStructBegin(); err != nil {
			return v, err
		}
		for {
			h, err := r.ReadFieldBegin()
			if err != nil {
				return v, err
			}
			if h.Type == thriftwire.Stop {
				return v, r.ReadStructEnd()
			}
			f, err := readV(r, byte(h.Type), depth+1)
			if err != nil {
				return v, err
			}
			if err := r.ReadFieldEnd(); err != nil {
				return v, err
			}
			v.F = append(v.F, ref.Fld{ID: h.ID, V: f})
		}
	case ref.Map:
		h, err := r.ReadMapBegin()
		if err != nil {
			return v, err
		}
		if h.Size < 0 {
			return v, fmt.Errorf("uni: header with size %d", h.Size)
		}
		v.KT, v.ET = byte(h.Key), byte(h.Value)
		for i := 0; i < h.Size; i++ {
			k, err := readV(r, v.KT, depth+1)
			if err != nil {
				return v, err
			}
			e, err := readV(r, v.ET, depth+1)
			if err != nil {
				return v, err
			}
			v.L = append(v.L, k, e)
		}
		return v, r.ReadMapEnd()
	case ref.Set, ref.List:
		var n int
		if t == ref.Set {
			h, err := r.ReadSetBegin()
			if err != nil {
				return v, err
			}
			v.ET, n = byte(h.Element), h.Size
		} else {
			h, err := r.ReadListBegin()
			if err != nil {
				return v, err
			}
			v.ET, n = byte(h.Element), h.Size
		}
		if n < 0 {
			return v, fmt.Errorf("uni: header with size %d", n)
		}
		for i := 0; i < n; i++ {
			e, err := readV(r, v.ET, depth+1)
			if err != nil {
				return v, err
			}
			v.L = append(v.L, e)
		}
		if t == ref.Set {
			return v, r.ReadSetEnd()
		}
		return v, r.ReadListEnd()
	}
	return v, ErrType
}

// Feed is an io.Reader over B that hands out chunks of at most Chunk bytes
// (0: everything asked for) and then returns Err (nil: io.EOF).
type Feed struct {
	B     []byte
	Off   int
	Chunk int
	Err   error
	Reads int
	// WithLast delivers the error together with the last bytes.
	WithLast bool
	// OverEnd counts reads after everything was handed out.
	OverEnd int
}

func (f *Feed) Read(p []byte) (int, error) {
	f.Reads++
	err := f.Err
	if err == nil {
		err = io.EOF
	}
	if f.Off >= len(f.B) {
		f.OverEnd++
		return 0, err
	}
	n := len(p)
	if f.Chunk > 0 {
		n = min(n, f.Chunk)
	}
	n = copy(p[:n], f.B[f.Off:])
	f.Off += n
	if f.WithLast && f.Off == len(f.B) {
		return n, err
	}
	return n, nil
}

// Feed1 feeds b one byte at a time; what is left tells what was consumed.
func Feed1(b []byte) *Feed { return &Feed{B: b, Chunk: 1} }

// EncImpl writes v by the streaming API into a buffer.
func EncImpl(p ref.Proto, v ref.V) ([]byte, error) {
	var buf bytes.Buffer
	w := Impl(p).NewWriter(&buf)
	if err := WriteV(w, v); err != nil {
		return nil, err
	}
	if err := w.Flush(); err != nil {
		return nil, err
	}
	return buf.Bytes(), nil
}

// Hex renders bytes.
func Hex(b []byte) string {
	if len(b) > 80 {
		return fmt.Sprintf("%x...%x(%d bytes)", b[:60], b[len(b)-12:], len(b))
	}
	return fmt.Sprintf("%x", b)
}
