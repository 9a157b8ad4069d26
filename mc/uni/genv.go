//go:build go1.23

package uni

import (
	"math"
	"strings"

	"github.com/itstarsun/go-thrift/internal/zzverif/engine"
	"github.com/itstarsun/go-thrift/internal/zzverif/ref"
)

var (
	fieldIDs  = []int16{1, 16, -1, 0, 32767, -32768, 15, 17, 255}
	fieldID2s = []int16{2, 300, 1, -7}
)

// few limits a list of choices by depth.
func few(lvl int, counts ...int) int {
	if lvl >= len(counts) {
		return counts[len(counts)-1]
	}
	return counts[lvl]
}

// GenV builds a wire value of type t from choices.
func GenV(c *engine.Ctx, t byte, lvl int) ref.V {
	switch t {
	case ref.Bool:
		if lvl > 2 {
			return ref.BoolV(lvl%2 == 0)
		}
		return ref.BoolV(c.Choose(2) == 1)
	case ref.Byte:
		return ref.ByteV(byte(i8s[c.Choose(few(lvl, 5, 2, 2, 1))]))
	case ref.I16:
		return ref.I16V(int16(i16s[c.Choose(few(lvl, len(i16s), 3, 2, 1))]))
	case ref.I32:
		return ref.I32V(int32(i32s[c.Choose(few(lvl, len(i32s), 3, 2, 1))]))
	case ref.I64:
		return ref.I64V(i64s[c.Choose(few(lvl, len(i64s), 3, 2, 1))])
	case ref.Double:
		return ref.DoubleV(f64s[c.Choose(few(lvl, len(f64s), 3, 2, 1))])
	case ref.String:
		return ref.StrV(strs[c.Choose(few(lvl, len(strs), 3, 2, 1))])
	case ref.UUID:
		return ref.UUIDV(uuids[c.Choose(few(lvl, 3, 2, 2, 1))])
	case ref.Struct:
		v := ref.V{T: ref.Struct}
		n := c.Choose(few(lvl, 3, 2, 2, 1))
		for i := range n {
			ids := fieldIDs[:few(lvl, 9, 3, 1)]
			if i > 0 {
				ids = fieldID2s
			}
			id := engine.Pick(c, ids)
			et := pickType(c, lvl+i)
			v.F = append(v.F, ref.Fld{ID: id, V: GenV(c, et, lvl+1+i)})
		}
		return v
	case ref.Map:
		v := ref.V{T: ref.Map, KT: pickType(c, lvl), ET: pickType(c, lvl)}
		n := c.Choose(few(lvl, 3, 2, 2, 1))
		for i := range n {
			v.L = append(v.L, GenV(c, v.KT, lvl+1+i), GenV(c, v.ET, lvl+1+i))
		}
		return v
	default:
		v := ref.V{T: t, ET: pickType(c, lvl)}
		n := c.Choose(few(lvl, 4, 2, 2, 1))
		for i := range n {
			v.L = append(v.L, GenV(c, v.ET, lvl+1+i))
		}
		return v
	}
}

func pickType(c *engine.Ctx, lvl int) byte {
	switch {
	case lvl <= 0:
		return engine.Pick(c, ref.All)
	case lvl == 1:
		return engine.Pick(c, ref.All[:])
	case lvl == 2:
		return engine.Pick(c, []byte{ref.Bool, ref.I32, ref.Struct})
	}
	return ref.Bool
}

// Samples is a list of values that has every type, every nesting and every
// kind of header, for the checks that enumerate something else around it.
func Samples(thorough bool) []ref.V {
	b := []ref.V{
		ref.BoolV(true), ref.BoolV(false), ref.ByteV(0x80), ref.I16V(-300), ref.I32V(1 << 29), ref.I64V(-1 << 40), ref.I64V(0),
		ref.DoubleV(-1.25), ref.StrV(""), ref.StrV("abc"), ref.StrV("hello w\x00rld\xff"), ref.UUIDV("0123456789abcdef"),
		ref.StructV(),
		ref.StructV(ref.F(1, ref.BoolV(true))),
		ref.StructV(ref.F(1, ref.BoolV(false)), ref.F(2, ref.I32V(5))),
		ref.StructV(ref.F(5, ref.I64V(77)), ref.F(3, ref.StrV("x")), ref.F(300, ref.BoolV(true)), ref.F(-2, ref.ByteV(9))),
		ref.ListV(ref.Bool), ref.ListV(ref.Bool, ref.BoolV(true), ref.BoolV(false), ref.BoolV(true)),
		ref.ListV(ref.I32, ref.I32V(1), ref.I32V(-1)), ref.SetV(ref.String, ref.StrV("k"), ref.StrV("")),
		ref.SetV(ref.Byte, ref.ByteV(1)), ref.ListV(ref.UUID, ref.UUIDV("u")),
		ref.MapV(ref.String, ref.I64), ref.MapV(ref.String, ref.Bool, ref.StrV("a"), ref.BoolV(true)),
		ref.MapV(ref.I16, ref.Struct, ref.I16V(1), ref.StructV(), ref.I16V(2), ref.StructV(ref.F(1, ref.BoolV(true)))),
		ref.ListV(ref.List, ref.ListV(ref.Bool, ref.BoolV(true)), ref.ListV(ref.Bool)),
		ref.ListV(ref.Struct, ref.StructV(ref.F(1, ref.BoolV(true))), ref.StructV(ref.F(20, ref.StrV("q")))),
		ref.StructV(ref.F(1, ref.StructV(ref.F(1, ref.StructV(ref.F(2, ref.BoolV(true)))), ref.F(2, ref.BoolV(false)))), ref.F(2, ref.ListV(ref.Double, ref.DoubleV(math.Pi)))),
		ref.StructV(ref.F(16, ref.MapV(ref.Bool, ref.List, ref.BoolV(false), ref.ListV(ref.I16, ref.I16V(7)))), ref.F(17, ref.SetV(ref.Struct)), ref.F(18, ref.UUIDV("zz"))),
	}
	// 15 and 16 elements: the long form of the compact header.
	l := ref.V{T: ref.List, ET: ref.Bool}
	for i := range 15 {
		l.L = append(l.L, ref.BoolV(i%3 == 0))
	}
	b = append(b, l)
	if thorough {
		b = append(b, ref.StrV(strings.Repeat("long ", 30)),
			ref.MapV(ref.List, ref.Map, ref.ListV(ref.Byte, ref.ByteV(1)), ref.MapV(ref.Bool, ref.Bool, ref.BoolV(true), ref.BoolV(false))),
			ref.SetV(ref.Set, ref.SetV(ref.Set, ref.SetV(ref.I64, ref.I64V(1)))),
			ref.StructV(ref.F(1, ref.BoolV(true)), ref.F(2, ref.BoolV(false)), ref.F(3, ref.ListV(ref.Bool, ref.BoolV(true))), ref.F(4, ref.BoolV(true)), ref.F(4, ref.I16V(3))),
		)
	}
	return b
}

// DupSamples are fields that occur more than once in an input.
func DupSamples() []ref.Fld {
	return []ref.Fld{
		ref.F(2, ref.BoolV(true)), ref.F(2, ref.BoolV(false)), ref.F(5, ref.I32V(3)), ref.F(9, ref.StrV("dup")), ref.F(9, ref.StrV("")),
		ref.F(20, ref.ListV(ref.Bool, ref.BoolV(true))), ref.F(20, ref.ListV(ref.Bool)), ref.F(20, ref.ListV(ref.Bool, ref.BoolV(false), ref.BoolV(true), ref.BoolV(true))),
		ref.F(21, ref.StructV(ref.F(5, ref.I32V(8)))), ref.F(21, ref.StructV(ref.F(9, ref.StrV("in")))), ref.F(21, ref.StructV()),
		ref.F(40, ref.MapV(ref.String, ref.Struct, ref.StrV("k"), ref.StructV(ref.F(5, ref.I32V(1))))),
		ref.F(40, ref.MapV(ref.String, ref.Struct, ref.StrV("k"), ref.StructV(ref.F(9, ref.StrV("x"))), ref.StrV("z"), ref.StructV())),
		ref.F(40, ref.MapV(ref.String, ref.Struct)), ref.F(-7, ref.UUIDV("abcdefghijklmnop")), ref.F(6, ref.StrV("unknown")),
	}
}
