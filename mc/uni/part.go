//go:build go1.23

package uni

import (
	"fmt"
	"reflect"

	"github.com/itstarsun/go-thrift/internal/zzverif/ref"
)

// partStep is a step from a Go value to the part of it that was being decoded
// when decoding failed.
type partStep struct {
	kind  byte // field, element, key or pointer
	i     int
	k     reflect.Value
	old   reflect.Value // what the map held for the key
	isNil bool          // the pointer was nil
}

// Part is the reference model of an Unmarshal that fails: the first Left
// calls to the Reader succeed and the one after them fails.
type Part struct {
	Left int
	path []partStep // from the inside out
}

func (p *Part) take() bool {
	if p.Left == 0 {
		return false
	}
	p.Left--
	return true
}

func (p *Part) at(s partStep, ok bool) bool {
	if !ok {
		p.path = append(p.path, s)
	}
	return ok
}

// skip goes over a value that is skipped.
func (p *Part) skip(v ref.V) bool {
	if !p.take() {
		return false
	}
	switch v.T {
	case ref.Struct:
		for _, f := range v.F {
			if !p.take() || !p.skip(f.V) || !p.take() {
				return false
			}
		}
		return p.take() && p.take()
	case ref.List, ref.Set, ref.Map:
		for _, e := range v.L {
			if !p.skip(e) {
				return false
			}
		}
		return p.take()
	}
	return true
}

// Into decodes v into dst as far as the calls go and tells whether they went
// to the end.
func (p *Part) Into(v ref.V, dst reflect.Value) bool {
	t := dst.Type()
	if t.Kind() == reflect.Pointer {
		s := partStep{kind: 'p', isNil: dst.IsNil()}
		if dst.IsNil() {
			dst.Set(reflect.New(t.Elem()))
		}
		return p.at(s, p.Into(v, dst.Elem()))
	}
	if v.T != WT(t) {
		panic("uni: the types do not fit")
	}
	if !p.take() {
		return false
	}
	switch {
	case t.Kind() == reflect.Struct:
		fs, err := Fields(t)
		if err != nil {
			panic(err)
		}
		for _, f := range v.F {
			if !p.take() {
				return false
			}
			known := false
			for _, fi := range fs {
				if fi.ID == f.ID {
					known = true
					if !p.at(partStep{kind: 'f', i: fi.Index}, p.Into(f.V, dst.Field(fi.Index))) {
						return false
					}
				}
			}
			if !known && !p.skip(f.V) || !p.take() {
				return false
			}
		}
		return p.take() && p.take()
	case t.Kind() == reflect.Slice && !isBytes(t):
		dst.Set(reflect.MakeSlice(t, 0, len(v.L)))
		for i, e := range v.L {
			dst.SetLen(i + 1)
			if !p.at(partStep{kind: 'e', i: i}, p.Into(e, dst.Index(i))) {
				return false
			}
		}
		return p.take()
	case t.Kind() == reflect.Map:
		if len(v.L) > 0 && dst.IsNil() {
			dst.Set(reflect.MakeMap(t))
		}
		for i := 0; i+1 < len(v.L); i += 2 {
			k := reflect.New(t.Key()).Elem()
			if !p.Into(v.L[i], k) {
				p.path = nil // the map stays as it is
				return false
			}
			e := reflect.New(t.Elem()).Elem()
			old := dst.MapIndex(k)
			if old.IsValid() {
				e.Set(old)
				old = Clone(old)
			}
			ok := p.Into(v.L[i+1], e)
			dst.SetMapIndex(k, e)
			if !p.at(partStep{kind: 'k', k: k, old: old}, ok) {
				return false
			}
		}
		return p.take()
	}
	return IntoGo(v, dst) == nil
}

// Differs tells how got differs from want, which is what Into left, or "".
// The element or entry that was being decoded may be left out, and a byte
// string or UUID that was being read may have any content.
func (p *Part) Differs(want, got reflect.Value) string {
	return p.differs(want, got, p.path)
}

func (p *Part) differs(want, got reflect.Value, path []partStep) string {
	t := want.Type()
	neq := func(what string, w, g reflect.Value) string {
		if Eq(w, g) {
			return ""
		}
		return fmt.Sprintf("%s is %s, want %s", what, Show(g), Show(w))
	}
	if len(path) == 0 {
		if isBytes(t) && want.Len() == got.Len() || t.Kind() == reflect.Array {
			return ""
		}
		return neq("a "+t.String(), want, got)
	}
	s, in := path[len(path)-1], path[:len(path)-1]
	switch s.kind {
	case 'p':
		if got.IsNil() {
			if s.isNil {
				return ""
			}
			return "a pointer was set to nil"
		}
		return p.differs(want.Elem(), got.Elem(), in)
	case 'f':
		for i := range t.NumField() {
			if i == s.i {
				if d := p.differs(want.Field(i), got.Field(i), in); d != "" {
					return d
				}
			} else if d := neq("field "+t.Field(i).Name, want.Field(i), got.Field(i)); d != "" {
				return d
			}
		}
	case 'e':
		if got.Len() != s.i && got.Len() != s.i+1 {
			return fmt.Sprintf("a %v has %d elements after %d were decoded", t, got.Len(), s.i)
		}
		for i := range s.i {
			if d := neq(fmt.Sprint("element ", i), want.Index(i), got.Index(i)); d != "" {
				return d
			}
		}
		if got.Len() > s.i {
			return p.differs(want.Index(s.i), got.Index(s.i), in)
		}
	case 'k':
		if s.k.Kind() == reflect.Pointer { // no two keys are the same
			if n := got.Len(); n != want.Len() && n != want.Len()-1 {
				return fmt.Sprintf("a %v has %d entries, want %d", t, n, want.Len())
			}
			return ""
		}
		g := got.MapIndex(s.k)
		w2, g2 := reflect.MakeMap(t), reflect.MakeMap(t)
		for it := want.MapRange(); it.Next(); {
			w2.SetMapIndex(it.Key(), it.Value())
		}
		for it := got.MapRange(); it.Next(); {
			g2.SetMapIndex(it.Key(), it.Value())
		}
		w2.SetMapIndex(s.k, reflect.Value{})
		g2.SetMapIndex(s.k, reflect.Value{})
		if d := neq("the other entries of a map", w2, g2); d != "" {
			return d
		}
		if !g.IsValid() {
			if s.old.IsValid() {
				return "an entry of a map is gone"
			}
			return ""
		}
		if s.old.IsValid() && Eq(g, s.old) {
			return ""
		}
		return p.differs(want.MapIndex(s.k), g, in)
	}
	return ""
}
