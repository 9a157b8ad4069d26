//go:build go1.23

package main

import (
	"errors"
	"fmt"
	"reflect"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/internal/zzverif/engine"
	"github.com/itstarsun/go-thrift/internal/zzverif/ref"
	"github.com/itstarsun/go-thrift/internal/zzverif/uni"
	"github.com/itstarsun/go-thrift/thrift"
)

func init() {
	register(&engine.Prop{ID: "C30", Level: level,
		Rule:        "an execution marshals, unmarshals or skips one value through a Writer or Reader that is an automaton of the calls allowed",
		Assumptions: []string{"a string may be read, written or skipped by either of its calls; a Writer may be flushed at any time"},
		Spaces:      c30Spaces})
}

// marshalTree marshals v, failing the call failAt if it is not 0.
func marshalTree(c *engine.Ctx, v reflect.Value, byPtr bool, failAt int) (*uni.TreeW, error) {
	w := uni.NewTreeW(uni.WT(v.Type()), 1)
	w.FailAt, w.Err = failAt, errC29
	c.Step()
	arg := v.Interface()
	byPtr = byPtr || v.Kind() == reflect.Pointer
	if byPtr {
		p := reflect.New(v.Type())
		p.Elem().Set(v)
		arg = p.Interface()
	}
	err := thrift.Marshal(w, arg)
	if w.Bad != "" {
		c.Failf("Marshal of %v %s: %s", v.Type(), uni.Show(v), w.Bad)
	}
	return w, err
}

func checkMarshalTree(c *engine.Ctx, v reflect.Value, byPtr bool) *uni.TreeW {
	w, err := marshalTree(c, v, byPtr, 0)
	must(c, err, "Marshal of %v %s", v.Type(), uni.Show(v))
	got, left := w.Text()
	if left != "" {
		c.Failf("Marshal of %v %s: %s", v.Type(), uni.Show(v), left)
	}
	if want := uni.GoText(v); got != want {
		c.Failf("Marshal of %v %s writes %s, want %s", v.Type(), uni.Show(v), got, want)
	}
	return w
}

// treeR makes a Reader that reports names (1), junk with the stop field (2) or
// negative sizes (4); the calls allowed are the same for all.
func treeR(kind int, vs ...ref.V) *uni.TreeR {
	r := uni.NewTreeR(vs...)
	r.Names = kind&1 != 0
	r.Junk = kind&2 != 0
	r.Neg = kind&4 != 0
	return r
}

var treeKinds = []int{0, 3, 4}

// checkUnmarshalTree unmarshals v into a variable of type t and expects what v without unknown fields gives.
func checkUnmarshalTree(c *engine.Ctx, r *uni.TreeR, v ref.V, t reflect.Type, known ref.V) {
	out, want := reflect.New(t), reflect.New(t).Elem()
	if err := uni.IntoGo(known, want); err != nil {
		panic("engine: model: " + err.Error())
	}
	c.Step()
	err := thrift.Unmarshal(r, out.Interface())
	if r.Bad != "" {
		c.Failf("Unmarshal of %v into %v: %s", v, t, r.Bad)
	}
	if r.Neg && err != nil { // such sizes may be rejected
		return
	}
	must(c, err, "Unmarshal of %v into %v", v, t)
	if left := r.Done(); left != "" {
		c.Failf("Unmarshal of %v into %v: %s", v, t, left)
	}
	if !uni.Eq(out.Elem(), want) {
		c.Failf("Unmarshal of %v into %v gives %s, want %s", v, t, uni.Show(out.Elem()), uni.Show(want))
	}
}

func checkSkipTree(c *engine.Ctx, r *uni.TreeR, v ref.V) {
	c.Step()
	err := thriftwire.Skip(r, thriftwire.Type(v.T))
	if r.Bad != "" {
		c.Failf("Skip of %v: %s", v, r.Bad)
	}
	if r.Neg && err != nil {
		return
	}
	must(c, err, "Skip of %v", v)
	if left := r.Done(); left != "1 values are not read" {
		c.Failf("Skip of %v: %s", v, left)
	}
}

func c30Spaces(th bool) []engine.Space {
	types := uni.Types(th)
	samples := uni.Samples(th)
	dev := 2
	if th {
		dev = 3
	}
	unknownIDs := []int16{1, 6, 100, 32767, -32768, 0}
	return []engine.Space{
		{Name: "go values", Shards: len(types), Dev: dev, Bound: fmt.Sprintf("%d Go types, every value of the generator (up to %d struct fields set): calls and names of Marshal, and Unmarshal of the same value from readers of %d kinds", len(types), dev, len(treeKinds)),
			Run: func(c *engine.Ctx, sh int) {
				t := types[sh]
				v := uni.Gen(c, t, 0)
				w := checkMarshalTree(c, v, sh%2 == 0)
				wv := uni.FromGo(v)
				for _, kind := range treeKinds {
					checkUnmarshalTree(c, treeR(kind, wv), wv, t, wv)
				}
				c.Logf("%v %s: %d calls", t, uni.Show(v), w.N)
				c.Outcome(fmt.Sprintf("%d calls", min(w.N, 40)))
				if w.N > 1 {
					c.Nontrivial()
				}
				text, _ := w.Text()
				c.StateOf(sh, text)
			}},
		{Name: "full values", Shards: len(types) * 2, Bound: "a value with everything set, and a zero value, of every type: names, types, IDs and sizes told by Marshal; then every call of Marshal and Unmarshal fails, and no other call follows",
			Run: func(c *engine.Ctx, sh int) {
				t := types[sh/2]
				v := reflect.Zero(t)
				if sh%2 == 0 {
					v = uni.NonZero(t)
				}
				wv := uni.FromGo(v)
				n := checkMarshalTree(c, v, true).N
				checkMarshalTree(c, v, false)
				for i := 1; i <= n; i++ {
					w, err := marshalTree(c, v, i%2 == 0, i)
					if !errors.Is(err, errC29) {
						c.Failf("Marshal of %v %s: call %d, %s, fails, and the error is %v", t, uni.Show(v), i, w.Failed, err)
					}
					c.StateOf(sh, "w", i, w.Failed)
				}
				r := treeR(0, wv)
				checkUnmarshalTree(c, r, wv, t, wv)
				for i := 1; i <= r.N; i++ {
					fr := treeR(i&3, wv)
					fr.FailAt, fr.Err = i, errC29
					c.Step()
					err := thrift.Unmarshal(fr, reflect.New(t).Interface())
					if fr.Bad != "" {
						c.Failf("Unmarshal of %v into %v: %s", wv, t, fr.Bad)
					}
					if !errors.Is(err, errC29) {
						c.Failf("Unmarshal of %v into %v: call %d, %s, fails, and the error is %v", wv, t, i, fr.Failed, err)
					}
					c.StateOf(sh, "r", i, fr.Failed)
				}
				c.Nontrivial()
				c.Logf("%v: %d calls of Marshal, %d of Unmarshal", t, n, r.N)
			}},
		{Name: "skip", Shards: 3 * 12 * 12, Bound: "every value of the wire generator is skipped, from readers of 3 kinds",
			Run: func(c *engine.Ctx, sh int) {
				kind := treeKinds[sh%3]
				t, et := ref.All[sh/3%12], ref.All[sh/36]
				var v ref.V
				switch t {
				case ref.Struct, ref.List, ref.Set, ref.Map:
					v = genSmall(c, t, et)
					c.Nontrivial()
				default:
					if et != ref.Bool {
						return
					}
					v = uni.GenV(c, t, 0)
				}
				checkSkipTree(c, treeR(kind, v, ref.I32V(sentinel)), v)
				c.Logf("skip %v", v)
				c.StateOf(sh, v.String())
			}},
		{Name: "skip failing", Shards: len(samples), Bound: "every call made to skip a sample, alone and as an unknown field, fails, and no other call follows",
			Run: func(c *engine.Ctx, sh int) {
				v := samples[sh]
				r := treeR(0, v, v)
				checkSkipTree(c, r, v)
				for i := 1; i <= r.N; i++ {
					fr := treeR(i&3, v)
					fr.FailAt, fr.Err = i, errC29
					c.Step()
					err := thriftwire.Skip(fr, thriftwire.Type(v.T))
					if fr.Bad != "" || !errors.Is(err, errC29) {
						c.Failf("Skip of %v: call %d, %s, fails, and the error is %v; %s", v, i, fr.Failed, err, fr.Bad)
					}
					c.StateOf(sh, i)
				}
				for where := range 3 {
					for pos := range 8 {
						u := insertUnknown(knownV, where, pos, ref.Fld{ID: 100, V: v})
						n := 1
						for i := 1; i <= n; i++ {
							fr := treeR(i&3, u)
							fr.Err = errC29
							if i > 1 {
								fr.FailAt = i - 1
							}
							c.Step()
							err := thrift.Unmarshal(fr, new(Known))
							if i == 1 {
								n = fr.N + 1
								must(c, err, "Unmarshal of %v", u)
								continue
							}
							if fr.Bad != "" || !errors.Is(err, errC29) {
								c.Failf("Unmarshal of %v: call %d, %s, fails, and the error is %v; %s", u, i-1, fr.Failed, err, fr.Bad)
							}
							c.StateOf(sh, where, pos, i)
						}
					}
				}
				c.Nontrivial()
				c.Logf("skip %v: %d calls", v, r.N)
			}},
		{Name: "unknown fields", Shards: len(treeKinds) * len(samples), Bound: "a struct with nested structs; one or two unknown fields of every sample value with 6 IDs inserted at every position of three nested structs",
			Run: func(c *engine.Ctx, sh int) {
				kind, u := treeKinds[sh%3], samples[sh/3]
				v := insertUnknown(knownV, c.Choose(3), c.Choose(8), ref.Fld{ID: engine.Pick(c, unknownIDs), V: u})
				if c.Choose(2) == 1 {
					v = insertUnknown(v, c.Choose(3), c.Choose(8), ref.Fld{ID: engine.Pick(c, unknownIDs[2:4]), V: u})
				}
				checkUnmarshalTree(c, treeR(kind, v), v, uni.TypeOf[Known](), knownV)
				c.Nontrivial()
				c.Logf("%v", v)
				c.StateOf(sh, v.String())
			}},
		{Name: "misfits", Shards: len(types), Bound: "every type of the universe is given every sample: the calls up to the rejection are in order",
			Run: func(c *engine.Ctx, sh int) {
				t := types[sh]
				for i, v := range samples {
					want := reflect.New(t)
					fits := uni.IntoGo(v, want.Elem())
					out := reflect.New(t)
					r := treeR(i&3, v)
					c.Step()
					err := thrift.Unmarshal(r, out.Interface())
					if r.Bad != "" && v.T == uni.WT(t) {
						c.Failf("Unmarshal of %v into %v: %s", v, t, r.Bad)
					}
					if fits == nil && v.T == uni.WT(t) {
						must(c, err, "Unmarshal of %v into %v", v, t)
						if left := r.Done(); left != "" || !uni.Eq(out.Elem(), want.Elem()) {
							c.Failf("Unmarshal of %v into %v gives %s, want %s; %s", v, t, uni.Show(out.Elem()), uni.Show(want.Elem()), left)
						}
						c.Nontrivial()
					} else if err == nil {
						c.Failf("Unmarshal of %v into %v gives %s", v, t, uni.Show(out.Elem()))
					}
					c.StateOf(sh, i, fmt.Sprint(err != nil))
				}
				c.Logf("%v: %d samples", t, len(samples))
			}},
	}
}
