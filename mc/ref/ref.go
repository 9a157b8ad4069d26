//go:build go1.23

// Package ref is an independent model of Thrift values and of the binary and
// compact protocols, written from the protocol specifications. It shares no
// code with the implementation.
package ref

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"sort"
	"strings"
)

// Wire types, numbered as in the binary protocol.
const (
	Stop   byte = 0
	Bool   byte = 2
	Byte   byte = 3
	Double byte = 4
	I16    byte = 6
	I32    byte = 8
	I64    byte = 10
	String byte = 11
	Struct byte = 12
	Map    byte = 13
	Set    byte = 14
	List   byte = 15
	UUID   byte = 16
)

// All lists the value types.
var All = []byte{Bool, Byte, Double, I16, I32, I64, String, Struct, Map, Set, List, UUID}

// Valid reports whether t is a value type.
func Valid(t byte) bool { return bytes.IndexByte(All, t) >= 0 }

// V is a Thrift value.
type V struct {
	T  byte
	N  int64  // bool (0, 1), byte (0..255), ints, bits of a double
	S  string // string, UUID
	ET byte   // element type of a list or set, value type of a map
	KT byte   // key type of a map
	L  []V    // elements; keys and values alternate in a map
	F  []Fld  // fields of a struct
}

// Fld is a field.
type Fld struct {
	ID int16
	V  V
}

func BoolV(b bool) V {
	if b {
		return V{T: Bool, N: 1}
	}
	return V{T: Bool}
}
func ByteV(b byte) V             { return V{T: Byte, N: int64(b)} }
func I16V(n int16) V             { return V{T: I16, N: int64(n)} }
func I32V(n int32) V             { return V{T: I32, N: int64(n)} }
func I64V(n int64) V             { return V{T: I64, N: n} }
func DoubleV(f float64) V        { return V{T: Double, N: int64(math.Float64bits(f))} }
func StrV(s string) V            { return V{T: String, S: s} }
func UUIDV(s string) V           { return V{T: UUID, S: (s + strings.Repeat("\x00", 16))[:16]} }
func StructV(f ...Fld) V         { return V{T: Struct, F: f} }
func ListV(et byte, l ...V) V    { return V{T: List, ET: et, L: l} }
func SetV(et byte, l ...V) V     { return V{T: Set, ET: et, L: l} }
func MapV(kt, vt byte, l ...V) V { return V{T: Map, KT: kt, ET: vt, L: l} }
func F(id int16, v V) Fld        { return Fld{id, v} }
func (v V) Size() int {
	if v.T == Map {
		return len(v.L) / 2
	}
	return len(v.L)
}

// Equal compares values structurally (order matters everywhere).
// The element types of empty containers are compared too unless loose.
func Equal(a, b V, loose bool) bool {
	if a.T != b.T || a.N != b.N || a.S != b.S || len(a.L) != len(b.L) || len(a.F) != len(b.F) {
		return false
	}
	if !(loose && len(a.L) == 0) && (a.ET != b.ET || a.KT != b.KT) {
		return false
	}
	for i := range a.L {
		if !Equal(a.L[i], b.L[i], loose) {
			return false
		}
	}
	for i := range a.F {
		if a.F[i].ID != b.F[i].ID || !Equal(a.F[i].V, b.F[i].V, loose) {
			return false
		}
	}
	return true
}

// Canon sorts map entries, recursively.
func Canon(v V) V {
	if len(v.L) > 0 {
		l := make([]V, len(v.L))
		for i := range v.L {
			l[i] = Canon(v.L[i])
		}
		if v.T == Map {
			type kv struct {
				k    []byte
				a, b V
			}
			kvs := make([]kv, len(l)/2)
			for i := range kvs {
				kvs[i] = kv{Bin(nil, l[2*i]), l[2*i], l[2*i+1]}
			}
			sort.SliceStable(kvs, func(i, j int) bool {
				if c := bytes.Compare(kvs[i].k, kvs[j].k); c != 0 {
					return c < 0
				}
				return bytes.Compare(Bin(nil, kvs[i].b), Bin(nil, kvs[j].b)) < 0
			})
			for i := range kvs {
				l[2*i], l[2*i+1] = kvs[i].a, kvs[i].b
			}
		}
		v.L = l
	}
	if len(v.F) > 0 {
		f := make([]Fld, len(v.F))
		for i := range v.F {
			f[i] = Fld{v.F[i].ID, Canon(v.F[i].V)}
		}
		v.F = f
	}
	return v
}

func (v V) String() string {
	var sb strings.Builder
	v.str(&sb)
	s := sb.String()
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return s
}

func (v V) str(sb *strings.Builder) {
	if sb.Len() > 500 {
		return
	}
	switch v.T {
	case Bool:
		fmt.Fprintf(sb, "bool(%d)", v.N)
	case Byte, I16, I32, I64:
		fmt.Fprintf(sb, "%s(%d)", TName(v.T), v.N)
	case Double:
		fmt.Fprintf(sb, "double(%x)", uint64(v.N))
	case String, UUID:
		if len(v.S) > 40 {
			fmt.Fprintf(sb, "%s(%q... %d bytes)", TName(v.T), v.S[:20], len(v.S))
		} else {
			fmt.Fprintf(sb, "%s(%q)", TName(v.T), v.S)
		}
	case Struct:
		sb.WriteString("{")
		for i, f := range v.F {
			if i > 0 {
				sb.WriteString(" ")
			}
			fmt.Fprintf(sb, "%d:", f.ID)
			f.V.str(sb)
		}
		sb.WriteString("}")
	default:
		fmt.Fprintf(sb, "%s<", TName(v.T))
		if v.T == Map {
			fmt.Fprintf(sb, "%s,", TName(v.KT))
		}
		fmt.Fprintf(sb, "%s>[", TName(v.ET))
		for i, e := range v.L {
			if i > 0 {
				sb.WriteString(" ")
			}
			e.str(sb)
		}
		sb.WriteString("]")
	}
}

// TName names a type.
func TName(t byte) string {
	switch t {
	case Stop:
		return "stop"
	case Bool:
		return "bool"
	case Byte:
		return "byte"
	case Double:
		return "double"
	case I16:
		return "i16"
	case I32:
		return "i32"
	case I64:
		return "i64"
	case String:
		return "string"
	case Struct:
		return "struct"
	case Map:
		return "map"
	case Set:
		return "set"
	case List:
		return "list"
	case UUID:
		return "uuid"
	}
	return fmt.Sprintf("type%d", t)
}

// Msg is a message envelope.
type Msg struct {
	Name string
	Type byte
	ID   int32
}

// Proto is a protocol variant.
type Proto int

const (
	BinStrict Proto = iota
	BinNonStrict
	CompactP
)

func (p Proto) String() string { return [...]string{"binary", "binary-nonstrict", "compact"}[p] }

// Enc encodes a value.
func (p Proto) Enc(b []byte, v V) []byte {
	if p == CompactP {
		return Compact(b, v)
	}
	return Bin(b, v)
}

// EncMsg encodes a message envelope.
func (p Proto) EncMsg(b []byte, m Msg) []byte {
	switch p {
	case BinStrict:
		b = append(b, 0x80, 0x01, 0x00, m.Type)
		b = be32(b, int32(len(m.Name)))
		b = append(b, m.Name...)
		return be32(b, m.ID)
	case BinNonStrict:
		b = be32(b, int32(len(m.Name)))
		b = append(b, m.Name...)
		b = append(b, m.Type)
		return be32(b, m.ID)
	default:
		b = append(b, 0x82, m.Type<<5|1)
		b = uvarint(b, uint64(uint32(m.ID)))
		b = uvarint(b, uint64(len(m.Name)))
		return append(b, m.Name...)
	}
}

func be16(b []byte, n int16) []byte { return append(b, byte(uint16(n)>>8), byte(n)) }
func be32(b []byte, n int32) []byte {
	u := uint32(n)
	return append(b, byte(u>>24), byte(u>>16), byte(u>>8), byte(u))
}
func be64(b []byte, n int64) []byte {
	for i := 7; i >= 0; i-- {
		b = append(b, byte(uint64(n)>>(8*i)))
	}
	return b
}

// Bin encodes a value in the binary protocol.
func Bin(b []byte, v V) []byte {
	switch v.T {
	case Bool, Byte:
		return append(b, byte(v.N))
	case I16:
		return be16(b, int16(v.N))
	case I32:
		return be32(b, int32(v.N))
	case I64, Double:
		return be64(b, v.N)
	case String:
		b = be32(b, int32(len(v.S)))
		return append(b, v.S...)
	case UUID:
		return append(b, v.S...)
	case Struct:
		for _, f := range v.F {
			b = append(b, f.V.T)
			b = be16(b, f.ID)
			b = Bin(b, f.V)
		}
		return append(b, Stop)
	case Map:
		b = append(b, v.KT)
	case List, Set:
	default:
		panic("ref: bad type")
	}
	b = append(b, v.ET)
	b = be32(b, int32(v.Size()))
	for _, e := range v.L {
		b = Bin(b, e)
	}
	return b
}

func uvarint(b []byte, u uint64) []byte {
	for u > 127 {
		b = append(b, byte(u)|128)
		u /= 128
	}
	return append(b, byte(u))
}

func zigzag(n int64) uint64 {
	if n >= 0 {
		return uint64(n) * 2
	}
	return uint64(-(n+1))*2 + 1
}

func unzigzag(u uint64) int64 {
	if u%2 == 0 {
		return int64(u / 2)
	}
	return -int64(u/2) - 1
}

// UV and ZZ encode varints.
func UV(b []byte, u uint64) []byte { return uvarint(b, u) }
func ZZ(b []byte, n int64) []byte  { return uvarint(b, zigzag(n)) }

// CType maps a wire type to the compact protocol's nibble (bool as 2).
func CType(t byte) byte {
	switch t {
	case Stop:
		return 0
	case Bool:
		return 2
	case Byte:
		return 3
	case I16:
		return 4
	case I32:
		return 5
	case I64:
		return 6
	case Double:
		return 7
	case String:
		return 8
	case List:
		return 9
	case Set:
		return 10
	case Map:
		return 11
	case Struct:
		return 12
	case UUID:
		return 13
	}
	panic("ref: bad type")
}

func wtype(n byte) (byte, bool) {
	switch n {
	case 0:
		return Stop, true
	case 1, 2:
		return Bool, true
	case 3:
		return Byte, true
	case 4:
		return I16, true
	case 5:
		return I32, true
	case 6:
		return I64, true
	case 7:
		return Double, true
	case 8:
		return String, true
	case 9:
		return List, true
	case 10:
		return Set, true
	case 11:
		return Map, true
	case 12:
		return Struct, true
	case 13:
		return UUID, true
	}
	return 0, false
}

// CFieldHeader encodes a compact field header.
func CFieldHeader(b []byte, id, last int16, nibble byte) []byte {
	if d := int(id) - int(last); d > 0 && d <= 15 {
		return append(b, byte(d)<<4|nibble)
	}
	return ZZ(append(b, nibble), int64(id))
}

// CListHeader encodes a compact list or set header.
func CListHeader(b []byte, et byte, n int) []byte {
	if n < 15 {
		return append(b, byte(n)<<4|CType(et))
	}
	return uvarint(append(b, 0xf0|CType(et)), uint64(n))
}

// CMapHeader encodes a compact map header.
func CMapHeader(b []byte, kt, vt byte, n int) []byte {
	if n == 0 {
		return append(b, 0)
	}
	return append(uvarint(b, uint64(n)), CType(kt)<<4|CType(vt))
}

// Compact encodes a value in the compact protocol
// (outside of a struct field, where bools differ).
func Compact(b []byte, v V) []byte {
	switch v.T {
	case Bool:
		if v.N != 0 {
			return append(b, 1)
		}
		return append(b, 2)
	case Byte:
		return append(b, byte(v.N))
	case I16, I32, I64:
		return ZZ(b, v.N)
	case Double:
		for i := 0; i < 8; i++ {
			b = append(b, byte(uint64(v.N)>>(8*i)))
		}
		return b
	case String:
		b = uvarint(b, uint64(len(v.S)))
		return append(b, v.S...)
	case UUID:
		return append(b, v.S...)
	case Struct:
		var last int16
		for _, f := range v.F {
			if f.V.T == Bool {
				n := byte(2)
				if f.V.N != 0 {
					n = 1
				}
				b = CFieldHeader(b, f.ID, last, n)
			} else {
				b = CFieldHeader(b, f.ID, last, CType(f.V.T))
				b = Compact(b, f.V)
			}
			last = f.ID
		}
		return append(b, 0)
	case Map:
		b = CMapHeader(b, v.KT, v.ET, v.Size())
	case List, Set:
		b = CListHeader(b, v.ET, v.Size())
	default:
		panic("ref: bad type")
	}
	for _, e := range v.L {
		b = Compact(b, e)
	}
	return b
}

var (
	ErrTrunc = errors.New("ref: input ends inside the value")
	ErrBad   = errors.New("ref: malformed")
)

// Dec decodes. DC becomes true when the input contains something the
// specifications leave open, so that no outcome can be called wrong.
type Dec struct {
	P   Proto
	B   []byte
	Off int
	DC  bool
	Why string
	// DCMsgID: a compact message ID varint above 32 bits, and similar.
	Depth    int
	MaxDepth int // 0: 100000
}

func (d *Dec) dc(why string) {
	if !d.DC {
		d.DC, d.Why = true, why
	}
}

func (d *Dec) take(n int) ([]byte, error) {
	if n < 0 {
		return nil, ErrBad
	}
	if n > len(d.B)-d.Off {
		d.Off = len(d.B)
		return nil, ErrTrunc
	}
	b := d.B[d.Off : d.Off+n]
	d.Off += n
	return b, nil
}

func (d *Dec) byte() (byte, error) {
	b, err := d.take(1)
	if err != nil {
		return 0, err
	}
	return b[0], nil
}

func (d *Dec) be(n int) (uint64, error) {
	b, err := d.take(n)
	if err != nil {
		return 0, err
	}
	var u uint64
	for _, c := range b {
		u = u<<8 | uint64(c)
	}
	return u, nil
}

func (d *Dec) uv() (uint64, error) {
	var u uint64
	for i := 0; ; i++ {
		c, err := d.byte()
		if err != nil {
			return 0, err
		}
		if i == 9 && c > 1 {
			return 0, ErrBad
		}
		u |= uint64(c&127) << (7 * i)
		if c < 128 {
			return u, nil
		}
		if i == 9 {
			return 0, ErrBad
		}
	}
}

func (d *Dec) zz() (int64, error) {
	u, err := d.uv()
	return unzigzag(u), err
}

// size reads the size of a string or container.
func (d *Dec) size() (int, error) {
	if d.P == CompactP {
		u, err := d.uv()
		if err != nil {
			return 0, err
		}
		if u > math.MaxInt64 {
			return 0, ErrBad
		}
		if u > math.MaxInt32 {
			// Beyond the 32 bits of the specification: may be rejected at once.
			d.dc("size above 31 bits")
		}
		return int(u), nil
	}
	u, err := d.be(4)
	if err != nil {
		return 0, err
	}
	n := int32(u)
	if n < 0 {
		return 0, ErrBad
	}
	return int(n), nil
}

// Msg decodes a message envelope.
func (d *Dec) Msg() (m Msg, err error) {
	if d.P == CompactP {
		c, err := d.byte()
		if err != nil {
			return m, err
		}
		if c != 0x82 {
			return m, ErrBad
		}
		c, err = d.byte()
		if err != nil {
			return m, err
		}
		if c&31 != 1 {
			return m, ErrBad
		}
		m.Type = c >> 5
		u, err := d.uv()
		if err != nil {
			return m, err
		}
		if u > math.MaxUint32 {
			d.dc("message ID above 32 bits")
		}
		m.ID = int32(uint32(u))
		n, err := d.size()
		if err != nil {
			return m, err
		}
		b, err := d.take(n)
		m.Name = string(b)
		return m, err
	}
	u, err := d.be(4)
	if err != nil {
		return m, err
	}
	n := int32(u)
	if n < 0 {
		if u>>16 != 0x8001 {
			return m, ErrBad
		}
		if u>>8&0xff != 0 {
			d.dc("unused byte of the version is not zero")
		}
		m.Type = byte(u)
		u, err = d.be(4)
		if err != nil {
			return m, err
		}
		b, err := d.take(int(int32(u)))
		if err != nil {
			return m, err
		}
		m.Name = string(b)
		u, err = d.be(4)
		m.ID = int32(u)
		return m, err
	}
	if d.P == BinStrict {
		return m, ErrBad
	}
	b, err := d.take(int(n))
	if err != nil {
		return m, err
	}
	m.Name = string(b)
	if m.Type, err = d.byte(); err != nil {
		return m, err
	}
	u, err = d.be(4)
	m.ID = int32(u)
	return m, err
}

// Value decodes a value of type t.
func (d *Dec) Value(t byte) (v V, err error) {
	d.Depth++
	defer func() { d.Depth-- }()
	lim := d.MaxDepth
	if lim == 0 {
		lim = 100000
	}
	if d.Depth > lim {
		return v, ErrBad
	}
	v.T = t
	compact := d.P == CompactP
	switch t {
	case Bool:
		c, err := d.byte()
		if err != nil {
			return v, err
		}
		if compact {
			// 1 is true, 2 is false; 0 is the false of older writers.
			if c > 2 {
				d.dc("bool element is not 0, 1 or 2")
			}
			v.N = b2i(c == 1)
		} else {
			if c > 1 {
				d.dc("bool is not 0 or 1")
			}
			v.N = b2i(c != 0)
		}
		return v, nil
	case Byte:
		c, err := d.byte()
		v.N = int64(c)
		return v, err
	case I16, I32, I64:
		if compact {
			v.N, err = d.zz()
			if err == nil && (t == I16 && int64(int16(v.N)) != v.N || t == I32 && int64(int32(v.N)) != v.N) {
				d.dc("integer out of range")
			}
			return v, err
		}
		switch t {
		case I16:
			u, err := d.be(2)
			v.N = int64(int16(u))
			return v, err
		case I32:
			u, err := d.be(4)
			v.N = int64(int32(u))
			return v, err
		}
		u, err := d.be(8)
		v.N = int64(u)
		return v, err
	case Double:
		b, err := d.take(8)
		if err != nil {
			return v, err
		}
		for i := range 8 {
			if compact {
				v.N |= int64(b[i]) << (8 * i)
			} else {
				v.N |= int64(b[i]) << (8 * (7 - i))
			}
		}
		return v, nil
	case String:
		n, err := d.size()
		if err != nil {
			return v, err
		}
		b, err := d.take(n)
		v.S = string(b)
		return v, err
	case UUID:
		b, err := d.take(16)
		v.S = string(b)
		return v, err
	case Struct:
		return d.strct()
	case Map:
		var n int
		if compact {
			if n, err = d.size(); err != nil || n == 0 {
				return v, err
			}
			c, err := d.byte()
			if err != nil {
				return v, err
			}
			kt, ok := wtype(c >> 4)
			if !ok {
				return v, ErrBad
			}
			vt, ok := wtype(c & 15)
			if !ok {
				return v, ErrBad
			}
			v.KT, v.ET = kt, vt
		} else {
			if v.KT, err = d.byte(); err != nil {
				return v, err
			}
			if v.ET, err = d.byte(); err != nil {
				return v, err
			}
			if n, err = d.size(); err != nil {
				return v, err
			}
		}
		return d.elems(v, n)
	case Set, List:
		var n int
		if compact {
			c, err := d.byte()
			if err != nil {
				return v, err
			}
			et, ok := wtype(c & 15)
			if !ok {
				return v, ErrBad
			}
			v.ET = et
			n = int(c >> 4)
			if n == 15 {
				if n, err = d.size(); err != nil {
					return v, err
				}
			}
		} else {
			if v.ET, err = d.byte(); err != nil {
				return v, err
			}
			if n, err = d.size(); err != nil {
				return v, err
			}
		}
		return d.elems(v, n)
	}
	return v, ErrBad
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

func (d *Dec) elems(v V, n int) (V, error) {
	if n == 0 {
		if !Valid(v.ET) && v.ET != Stop || v.T == Map && !Valid(v.KT) && v.KT != Stop {
			d.dc("unknown element type of an empty container")
		}
		return v, nil
	}
	per := 1
	if v.T == Map {
		per = 2
	}
	for i := 0; i < n; i++ {
		for k := 0; k < per; k++ {
			t := v.ET
			if per == 2 && k == 0 {
				t = v.KT
			}
			e, err := d.Value(t)
			if err != nil {
				return v, err
			}
			v.L = append(v.L, e)
		}
	}
	return v, nil
}

func (d *Dec) strct() (v V, err error) {
	v.T = Struct
	var last int16
	for {
		c, err := d.byte()
		if err != nil {
			return v, err
		}
		if d.P != CompactP {
			if c == Stop {
				return v, nil
			}
			u, err := d.be(2)
			if err != nil {
				return v, err
			}
			f, err := d.Value(c)
			if err != nil {
				return v, err
			}
			v.F = append(v.F, Fld{int16(u), f})
			continue
		}
		t, ok := wtype(c & 15)
		if !ok {
			return v, ErrBad
		}
		if t == Stop {
			if c>>4 != 0 {
				d.dc("stop field with a delta")
			}
			return v, nil
		}
		var id int16
		if c>>4 == 0 {
			n, err := d.zz()
			if err != nil {
				return v, err
			}
			if int64(int16(n)) != n {
				d.dc("field ID out of range")
			}
			id = int16(n)
		} else {
			n := int(last) + int(c>>4)
			if n > math.MaxInt16 {
				d.dc("field ID delta overflows")
			}
			id = int16(n)
		}
		last = id
		var f V
		if t == Bool {
			f = BoolV(c&15 == 1)
		} else if f, err = d.Value(t); err != nil {
			return v, err
		}
		v.F = append(v.F, Fld{id, f})
	}
}

// Hdr is the header of a field (N is its ID), a map, a set or a list.
type Hdr struct {
	K, E byte
	N    int
}

// Header decodes the header of a field (0), map (1), set (2) or list (3) that
// is read on its own. In the binary protocol types that do not exist are left
// to the reading of the values.
func (d *Dec) Header(kind int) (h Hdr, err error) {
	ctype := func(n byte) (byte, error) {
		t, ok := wtype(n)
		if !ok {
			return 0, ErrBad
		}
		if t == Stop && kind != 0 {
			d.dc("stop as an element type") // left to the reading of the values
		}
		return t, nil
	}
	c, err := d.byte()
	if d.P != CompactP {
		switch {
		case err != nil:
		case kind == 0:
			h.E = c
			if c != Stop {
				var u uint64
				u, err = d.be(2)
				h.N = int(int16(u))
			}
		case kind == 1:
			h.K = c
			if h.E, err = d.byte(); err == nil {
				h.N, err = d.size()
			}
		default:
			h.E = c
			h.N, err = d.size()
		}
		return h, err
	}
	switch {
	case err != nil:
	case kind == 0:
		if h.E, err = ctype(c & 15); err != nil {
			return h, err
		}
		if h.E == Stop {
			if c>>4 != 0 {
				d.dc("stop field with a delta")
			}
			return h, nil
		}
		if h.N = int(c >> 4); h.N == 0 {
			var n int64
			n, err = d.zz()
			if int64(int16(n)) != n {
				d.dc("field ID out of range")
			}
			h.N = int(n)
		}
	case kind == 1:
		d.Off--
		if h.N, err = d.size(); err != nil || h.N == 0 {
			return h, err
		}
		if c, err = d.byte(); err != nil {
			return h, err
		}
		if h.K, err = ctype(c >> 4); err == nil {
			h.E, err = ctype(c & 15)
		}
	default:
		if h.E, err = ctype(c & 15); err != nil {
			return h, err
		}
		if h.N = int(c >> 4); h.N == 15 {
			h.N, err = d.size()
		}
	}
	return h, err
}
