//go:build go1.23

package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"reflect"
	"runtime/debug"
	"strconv"
	"strings"
	"time"
	"unsafe"

	"github.com/itstarsun/go-thrift/internal/zzverif/engine"
	"github.com/itstarsun/go-thrift/internal/zzverif/ref"
	"github.com/itstarsun/go-thrift/internal/zzverif/uni"
	"github.com/itstarsun/go-thrift/thrift"
)

func init() {
	register(&engine.Prop{ID: "C17", Level: level,
		Rule:        "an execution marshals or unmarshals one value of one type, or uses several types for the first time in one order in a process of its own",
		Assumptions: []string{"where an unsupported kind is not needed (below a field left out, a nil pointer or an empty container, and in reading where no value of it comes), either outcome is right", "IsZero methods of the caller do not panic"},
		Spaces:      c17Spaces})
}

// Recursive types, with and without unsupported kinds.
type (
	PSelf    *PSelf
	PA       *PB
	PB       *PA
	PSlice   *[]PSlice
	PMap     *map[string]PMap
	PStruct  *PStructS
	PStructS struct {
		N PStruct             `thrift:"1"`
		B bool                `thrift:"2"`
		L []PStruct           `thrift:"3"`
		S thrift.Set[PStruct] `thrift:"4"`
	}
	BadRec struct {
		C chan int  `thrift:"1"`
		N *BadRec   `thrift:"2"`
		L []*BadRec `thrift:"3"`
	}
	BadRecReq struct {
		N *BadRecReq `thrift:"2"`
		C func()     `thrift:"3,required"`
	}
	BadDeep struct {
		M map[string]BadDeep2 `thrift:"1"`
		I int32               `thrift:"2"`
	}
	BadDeep2 struct {
		P PSelf    `thrift:"1"`
		D *BadDeep `thrift:"2"`
	}
	MSelf   map[string]MSelf
	MSelfP  map[string]*MSelfP
	SMut    []MMut
	MMut    map[int8]SMut
	SelfKey struct {
		K *SelfKey           `thrift:"1"`
		M map[int16]*SelfKey `thrift:"2"`
	}
	IfaceZ struct {
		Z interface{ IsZero() bool } `thrift:"1"`
	}
	IfaceZReq struct {
		A int32 `thrift:"1"`
		Z any   `thrift:"2,required"`
	}
	SetOfBad struct {
		S thrift.Set[int] `thrift:"1"`
	}
	ListOfBad struct {
		S thrift.List[[2]int] `thrift:"1"`
	}
)

var badKinds = []reflect.Type{
	uni.TypeOf[int](), uni.TypeOf[uint](), uni.TypeOf[uintptr](), uni.TypeOf[complex64](), uni.TypeOf[complex128](), uni.TypeOf[chan int](), uni.TypeOf[func()](),
	uni.TypeOf[any](), uni.TypeOf[error](), uni.TypeOf[unsafe.Pointer](), uni.TypeOf[[4]int32](), uni.TypeOf[[16]int8](), uni.TypeOf[[15]byte](), uni.TypeOf[[17]byte](),
	uni.TypeOf[[0]byte](), uni.TypeOf[uni.NUUID](), uni.TypeOf[[16]uni.NU8](), uni.TypeOf[PSelf](), uni.TypeOf[PA](), uni.TypeOf[**PSelf](),
	uni.TypeOf[interface{ IsZero() bool }](), uni.TypeOf[<-chan struct{}](), uni.TypeOf[time.Month](), uni.TypeOf[[1][16]byte](),
}

// fill makes a value with everything set, unsupported kinds included.
func fill(v reflect.Value, d int) {
	t := v.Type()
	if uni.WT(t) == ref.Stop {
		switch t.Kind() {
		case reflect.Int:
			v.SetInt(3)
		case reflect.Uint, reflect.Uintptr:
			v.SetUint(4)
		case reflect.Complex64, reflect.Complex128:
			v.SetComplex(1i)
		case reflect.Chan:
			if t.ChanDir() == reflect.BothDir {
				v.Set(reflect.MakeChan(t, 0))
			}
		case reflect.Func:
			v.Set(reflect.MakeFunc(t, func([]reflect.Value) []reflect.Value { return nil }))
		case reflect.Interface:
			switch {
			case t.NumMethod() == 0:
				v.Set(reflect.ValueOf(int32(5)))
			case t == uni.TypeOf[error]():
				v.Set(reflect.ValueOf(io.EOF))
			default:
				v.Set(reflect.ValueOf(uni.ZVal(3)))
			}
		case reflect.UnsafePointer:
			v.SetPointer(unsafe.Pointer(new(int)))
		case reflect.Pointer:
			if d < 3 {
				p := reflect.New(t.Elem())
				fill(p.Elem(), d+1)
				v.Set(p.Convert(t))
			}
		}
		return
	}
	switch t.Kind() {
	case reflect.Pointer:
		if d > 5 {
			return
		}
		p := reflect.New(t.Elem())
		fill(p.Elem(), d+1)
		v.Set(p.Convert(t))
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			v.Set(uni.NonZero(t))
			return
		}
		if d > 4 {
			return
		}
		s := reflect.MakeSlice(t, 1, 1)
		fill(s.Index(0), d+1)
		v.Set(s)
	case reflect.Map:
		if d > 4 {
			return
		}
		m := reflect.MakeMap(t)
		k, e := reflect.New(t.Key()).Elem(), reflect.New(t.Elem()).Elem()
		if t.Key().Kind() != reflect.Interface && t.Key().Kind() != reflect.Struct {
			fill(k, d+1)
		}
		fill(e, d+1)
		m.SetMapIndex(k, e)
		v.Set(m)
	case reflect.Struct:
		for i := range t.NumField() {
			if t.Field(i).IsExported() {
				fill(v.Field(i), d+1)
			}
		}
	default:
		v.Set(uni.NonZero(t))
	}
}

// needs tells whether marshaling v needs an unsupported kind: as the type of
// v itself, or of a field, element or key of v or of a value in it that is
// written, whether or not there is such a value.
func needs(v reflect.Value) bool {
	t := v.Type()
	if uni.WT(t) == ref.Stop {
		return true
	}
	switch t.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return needs(reflect.Zero(t.Elem()))
		}
		return needs(v.Elem())
	case reflect.Slice:
		if uni.WT(t) == ref.String {
			return false
		}
		if uni.WT(t.Elem()) == ref.Stop {
			return true
		}
		for i := range v.Len() {
			if needs(v.Index(i)) {
				return true
			}
		}
	case reflect.Map:
		if uni.WT(t.Key()) == ref.Stop || uni.WT(t.Elem()) == ref.Stop {
			return true
		}
		for it := v.MapRange(); it.Next(); {
			if needs(it.Key()) || needs(it.Value()) {
				return true
			}
		}
	case reflect.Struct:
		fs, err := uni.Fields(t)
		if err != nil {
			return true
		}
		for _, f := range fs {
			fv := v.Field(f.Index)
			if uni.WT(f.Type) == ref.Stop {
				return true
			}
			if !f.Required && uni.FieldZero(fv) {
				continue
			}
			if needs(fv) {
				return true
			}
		}
	}
	return false
}

// wireFor is an input for t with everything set; unsupported kinds get an i32.
func wireFor(t reflect.Type, d int) ref.V {
	switch uni.WT(t) {
	case ref.Stop:
		return ref.I32V(7)
	case ref.Bool:
		return ref.BoolV(true)
	case ref.Byte:
		return ref.ByteV(7)
	case ref.I16:
		return ref.I16V(7)
	case ref.I32:
		return ref.I32V(7)
	case ref.I64:
		return ref.I64V(7)
	case ref.Double:
		return ref.DoubleV(7.5)
	case ref.String:
		return ref.StrV("seven")
	case ref.UUID:
		return ref.UUIDV("seven")
	}
	wt := func(t reflect.Type) byte {
		if w := uni.WT(t); w != ref.Stop {
			return w
		}
		return ref.I32
	}
	for t.Kind() == reflect.Pointer {
		t = t.Elem()
	}
	switch t.Kind() {
	case reflect.Slice:
		v := ref.V{T: uni.WT(t), ET: wt(t.Elem())}
		if d < 4 {
			v.L = append(v.L, wireFor(t.Elem(), d+1))
		}
		return v
	case reflect.Map:
		v := ref.V{T: ref.Map, KT: wt(t.Key()), ET: wt(t.Elem())}
		if d < 4 {
			v.L = append(v.L, wireFor(t.Key(), d+1), wireFor(t.Elem(), d+1))
		}
		return v
	}
	v := ref.V{T: ref.Struct}
	fs, err := uni.Fields(t)
	if err != nil || d >= 4 {
		return v
	}
	for _, f := range fs {
		v.F = append(v.F, ref.Fld{ID: f.ID, V: wireFor(f.Type, d+1)})
	}
	return v
}

// useType marshals or unmarshals a value of t, and returns what is wrong.
// how: 0 marshal zero, 1 marshal filled, 2 unmarshal filled, 3 unmarshal an
// empty value, 4 and 5 nil and wrong arguments.
func useType(p ref.Proto, t reflect.Type, how int) string {
	im := uni.Impl(p)
	var buf bytes.Buffer
	check := func(what string, err error, must bool) string {
		switch ok := uni.Supported(t); {
		case err != nil && !isSemantic(err):
			return fmt.Sprintf("%s(%v): %v is not a SemanticError", what, t, err)
		case err == nil && must:
			return fmt.Sprintf("%s(%v) succeeds though a value of an unsupported kind is needed", what, t)
		case err != nil && ok:
			return fmt.Sprintf("%s(%v): %v", what, t, err)
		}
		return ""
	}
	switch how {
	case 0, 1:
		v := reflect.New(t)
		if how == 1 {
			fill(v.Elem(), 0)
		}
		w := im.NewWriter(&buf)
		err := thrift.Marshal(w, v.Interface())
		_ = w.Flush()
		need := needs(v.Elem())
		if s := check("Marshal", err, need); s != "" {
			return s
		}
		if err == nil && uni.Supported(t) {
			d := ref.Dec{P: p, B: buf.Bytes()}
			if got, err := d.Value(uni.WT(t)); err != nil || !bytes.Equal(p.Enc(nil, uni.FromGo(v.Elem())), buf.Bytes()) {
				return fmt.Sprintf("Marshal(%v) of %s gives %v, %v", t, uni.Show(v.Elem()), got, err)
			}
		}
		return ""
	case 2, 3:
		d := 0
		if how == 3 {
			d = 4
		}
		wv := wireFor(t, d)
		b := p.Enc(nil, wv)
		var must bool
		want := reflect.New(t)
		must = uni.IntoGo(wv, want.Elem()) != nil
		out := reflect.New(t)
		err := thrift.Unmarshal(im.NewReader(bytes.NewReader(b)), out.Interface())
		if s := check("Unmarshal of "+wv.String(), err, must); s != "" {
			return s
		}
		if err == nil && uni.Supported(t) && !uni.Eq(out.Elem(), want.Elem()) && !bytes.Equal(p.Enc(nil, uni.FromGo(out.Elem())), p.Enc(nil, uni.FromGo(want.Elem()))) {
			return fmt.Sprintf("Unmarshal of %v into %v gives %s, want %s", wv, t, uni.Show(out.Elem()), uni.Show(want.Elem()))
		}
		return ""
	case 4:
		nilp := reflect.Zero(reflect.PointerTo(t)).Interface()
		for what, err := range map[string]error{
			"Marshal of a nil pointer":     thrift.Marshal(im.NewWriter(&buf), nilp),
			"Unmarshal into a nil pointer": thrift.Unmarshal(im.NewReader(strings.NewReader("xxxxxxxxxxx")), nilp),
			"Marshal of nil":               thrift.Marshal(im.NewWriter(&buf), nil),
			"Unmarshal into nil":           thrift.Unmarshal(im.NewReader(strings.NewReader("xxxxxxxxxxx")), nil),
		} {
			if !isSemantic(err) {
				return fmt.Sprintf("%s (%v): %v", what, t, err)
			}
		}
		return ""
	case 5:
		if v := reflect.Zero(t); t.Kind() != reflect.Pointer {
			err := thrift.Unmarshal(im.NewReader(strings.NewReader("xxxxxxxxxxx")), v.Interface())
			if !isSemantic(err) {
				return fmt.Sprintf("Unmarshal into a %v, not a pointer: %v", t, err)
			}
			if t.Kind() != reflect.Interface {
				err := thrift.Marshal(im.NewWriter(&buf), v.Interface())
				return check("Marshal by value", err, needs(v))
			}
		}
		return ""
	}
	panic("how")
}

// firstUse lists families of types that depend on one another.
var firstUse = [][]reflect.Type{
	{uni.TypeOf[uni.MutA](), uni.TypeOf[uni.MutB](), uni.TypeOf[*uni.MutA](), uni.TypeOf[map[int32]uni.MutA]()},
	{uni.TypeOf[uni.Tree](), uni.TypeOf[[]uni.Tree](), uni.TypeOf[*uni.Tree](), uni.TypeOf[map[string]uni.Tree]()},
	{uni.TypeOf[uni.RS](), uni.TypeOf[uni.RSP](), uni.TypeOf[*uni.RSP](), uni.TypeOf[uni.RM]()},
	{uni.TypeOf[PSelf](), uni.TypeOf[*PSelf](), uni.TypeOf[[]PSelf](), uni.TypeOf[struct {
		P PSelf `thrift:"1"`
	}]()},
	{uni.TypeOf[PA](), uni.TypeOf[PB](), uni.TypeOf[map[string]PA](), uni.TypeOf[BadDeep]()},
	{uni.TypeOf[PStruct](), uni.TypeOf[PStructS](), uni.TypeOf[thrift.Set[PStruct]](), uni.TypeOf[[]PStruct]()},
	{uni.TypeOf[BadRec](), uni.TypeOf[*BadRec](), uni.TypeOf[[]*BadRec](), uni.TypeOf[BadRecReq]()},
	{uni.TypeOf[PSlice](), uni.TypeOf[[]PSlice](), uni.TypeOf[PMap](), uni.TypeOf[map[string]PMap]()},
	{uni.TypeOf[SMut](), uni.TypeOf[MMut](), uni.TypeOf[MSelf](), uni.TypeOf[MSelfP]()},
	{uni.TypeOf[uni.TreeS](), uni.TypeOf[uni.TreeL](), uni.TypeOf[thrift.Set[*uni.TreeS]](), uni.TypeOf[uni.RSet]()},
	{uni.TypeOf[BadDeep2](), uni.TypeOf[BadDeep](), uni.TypeOf[map[string]BadDeep2](), uni.TypeOf[*BadDeep]()},
}

// firstUseMain runs one order of first use: family, then type and use by turns.
func firstUseMain(args []string) {
	debug.SetMaxStack(64 << 20)
	n := make([]int, len(args))
	for i, a := range args {
		n[i], _ = strconv.Atoi(a)
	}
	for i := 1; i+1 < len(n); i += 2 {
		p := uni.Protos[(i+n[i])%len(uni.Protos)]
		if s := useType(p, firstUse[n[0]][n[i]], n[i+1]); s != "" {
			fmt.Printf("use %d: %v: %s\n", i/2+1, p, s)
			os.Exit(1)
		}
	}
	fmt.Println("ok")
}

func c17Spaces(th bool) []engine.Space {
	good := []reflect.Type{uni.TypeOf[bool](), uni.TypeOf[string](), uni.TypeOf[[]byte](), uni.TypeOf[uni.Key](), uni.TypeOf[[16]byte]()}
	if th {
		good = append(good, uni.TypeOf[float32](), uni.TypeOf[thrift.Set[int16]](), uni.TypeOf[uni.ZVal]())
	}
	base := append(append([]reflect.Type{}, good...), badKinds...)
	compose := func(t reflect.Type, k int) reflect.Type {
		switch k {
		case 0:
			return reflect.PointerTo(t)
		case 1:
			return reflect.SliceOf(t)
		case 2:
			return reflect.MapOf(uni.TypeOf[string](), t)
		case 3:
			return uni.StructOf(uni.Field{T: t, ID: 1})
		case 4:
			return uni.StructOf(uni.Field{T: t, ID: 1, Opts: ",required"})
		case 5:
			return uni.StructOf(uni.Field{T: uni.TypeOf[bool](), ID: 2}, uni.Field{T: t, ID: 3}, uni.Field{T: reflect.PointerTo(t), ID: 400})
		case 6:
			return reflect.SliceOf(reflect.PointerTo(t))
		case 7, 8:
			if !t.Comparable() || t.Kind() == reflect.Interface {
				return nil
			}
			if k == 7 {
				return reflect.MapOf(t, uni.TypeOf[bool]())
			}
			return reflect.MapOf(t, t)
		}
		panic("k")
	}
	static := []reflect.Type{
		uni.TypeOf[PSlice](), uni.TypeOf[PMap](), uni.TypeOf[PStruct](), uni.TypeOf[PStructS](), uni.TypeOf[BadRec](), uni.TypeOf[BadRecReq](), uni.TypeOf[BadDeep](), uni.TypeOf[BadDeep2](),
		uni.TypeOf[MSelf](), uni.TypeOf[MSelfP](), uni.TypeOf[SMut](), uni.TypeOf[MMut](), uni.TypeOf[IfaceZ](), uni.TypeOf[IfaceZReq](), uni.TypeOf[SetOfBad](), uni.TypeOf[ListOfBad](),
		uni.TypeOf[thrift.Set[any]](), uni.TypeOf[thrift.List[chan int]](), uni.TypeOf[thrift.Set[*int]](), uni.TypeOf[thrift.Set[PSelf]](), uni.TypeOf[*thrift.List[uni.NUUID]](),
		uni.TypeOf[map[PSelf]bool](), uni.TypeOf[time.Time](), uni.TypeOf[*time.Location](), uni.TypeOf[map[time.Month]string](), uni.TypeOf[error](),
		uni.TypeOf[struct{ thrift.Set[int32] }](), uni.TypeOf[struct {
			thrift.Set[int32] `thrift:"1"`
		}](), uni.TypeOf[struct {
			*PStructS `thrift:"9"`
			N         PStruct `thrift:"1"`
		}](),
	}
	static = append(static, uni.Types(th)...)
	const uses = 6
	nFirst := 3
	if th {
		nFirst = 4
	}
	self, _ := os.Executable()
	return []engine.Space{
		{Name: "types", Shards: len(base), Bound: fmt.Sprintf("%d base types (%d not supported) x up to 2 (thorough: 3) of 9 compositions, 6 uses", len(base), len(badKinds)),
			Run: func(c *engine.Ctx, sh int) {
				t := base[sh]
				n := c.Choose(3)
				if th {
					n = c.Choose(4)
				}
				for range n {
					if t = compose(t, c.Choose(9)); t == nil {
						return
					}
				}
				how := c.Choose(uses)
				p := ref.CompactP
				if n < 2 {
					p = engine.Pick(c, uni.Protos)
				}
				c.Step()
				if s := useType(p, t, how); s != "" {
					c.Failf("%v: %s", p, s)
				}
				c.StateOf(t.String(), how)
			}},
		{Name: "named types", Shards: len(static), Bound: fmt.Sprintf("%d named, recursive and generic types, alone and composed, 6 uses, 3 protocols", len(static)),
			Run: func(c *engine.Ctx, sh int) {
				t := static[sh]
				if k := c.Choose(10); k > 0 {
					if t = compose(t, k-1); t == nil {
						return
					}
				}
				how := c.Choose(uses)
				p := engine.Pick(c, uni.Protos)
				c.Step()
				if s := useType(p, t, how); s != "" {
					c.Failf("%v: %s", p, s)
				}
				c.StateOf(t.String(), how)
			}},
		{Name: "first use", Shards: len(firstUse), Bound: fmt.Sprintf("%d families of 4 types that depend on one another, first used in every order of %d, each by marshal or unmarshal, in a new process", len(firstUse), nFirst),
			Run: func(c *engine.Ctx, sh int) {
				args := []string{"first-use", strconv.Itoa(sh)}
				used := map[int]bool{}
				for range nFirst {
					var left []int
					for i := range firstUse[sh] {
						if !used[i] {
							left = append(left, i)
						}
					}
					i := engine.Pick(c, left)
					used[i] = true
					args = append(args, strconv.Itoa(i), strconv.Itoa(1+c.Choose(2)))
				}
				// The last type by all means, so that one type sees all the others.
				for i := range firstUse[sh] {
					if !used[i] {
						args = append(args, strconv.Itoa(i), "2")
					}
				}
				c.Steps((len(args) - 2) / 2)
				cmd := exec.Command(self, args...)
				cmd.WaitDelay = time.Second
				out, err := outputWithin(cmd, 60*time.Second)
				if err != nil || strings.TrimSpace(out) != "ok" {
					c.Failf("first use in the order %v (family, then type and use by turns): %v: %s", args[1:], err, strings.SplitN(out, "\n\n", 2)[0])
				}
				c.StateOf(args)
			}},
	}
}

func outputWithin(cmd *exec.Cmd, d time.Duration) (string, error) {
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	if err := cmd.Start(); err != nil {
		return "", err
	}
	t := time.AfterFunc(d, func() { _ = cmd.Process.Kill() })
	defer t.Stop()
	err := cmd.Wait()
	return buf.String(), err
}
