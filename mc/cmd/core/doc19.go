//go:build go1.23

package main

import (
	"fmt"
	gotoken "go/token"
	"slices"
	"strings"

	"github.com/itstarsun/go-thrift/internal/zzverif/engine"
	"github.com/itstarsun/go-thrift/internal/zzverif/idl"
	"github.com/itstarsun/go-thrift/tools/thriftfile"
)

func init() {
	extend("C19", func(th bool) []engine.Space {
		var docs []string
		for _, toks := range docSamples() {
			for how := range 3 {
				docs = append(docs, layout(toks, how))
			}
		}
		n := len(docs)
		for i := range n { // with an error
			docs = append(docs, docs[i]+" struct $ { 1: i32 x = ", docs[i]+" const string s = \"unterminated")
		}
		for _, n := range []int{1, 2, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 4095, 4096, 4097, 5000} {
			w, d := strings.Repeat("w", n), strings.Repeat("7", min(n, 18))
			docs = append(docs, fmt.Sprintf("include '%[1]s' namespace %[1]s n%[1]s const %[1]s c%[1]s = \"%[1]s\" const double x = %[2]s.%[2]s typedef i%[1]s t%[1]s (a%[1]s = 'b%[1]s') enum E%[1]s { m%[1]s = %[2]s } struct S%[1]s { %[2]s: F%[1]s f%[1]s = %[1]s.%[1]s } service V%[1]s extends X%[1]s { void g%[1]s(1: i32 p%[1]s) throws (1: E%[1]s e%[1]s) }", w, d))
		}
		return []engine.Space{{Name: "documents", Shards: len(docs), Bound: fmt.Sprintf("every ordered pair of %d documents, well-formed or not, parsed out of the same buffer into the same or another file set", len(docs)),
			Run: func(c *engine.Ctx, sh int) {
				a, b := docs[sh], engine.Pick(c, docs)
				buf := make([]byte, max(len(a), len(b)))
				fset := gotoken.NewFileSet()
				parse := func(name, src string) (*thriftfile.File, []string, string) {
					c.Step()
					in := buf[:copy(buf, src)]
					f, err := thriftfile.Parse(fset, name, in)
					var tree []string
					if f != nil {
						tree = idl.Dump(f)
					}
					if string(in) != src {
						c.Failf("%q: the parser has changed the document", src)
					}
					clear(in)
					if f != nil && !slices.Equal(tree, idl.Dump(f)) {
						c.Failf("%q: the tree changes together with the bytes of the document", src)
					}
					return f, tree, fmt.Sprint(err)
				}
				fa, ta, ea := parse("a", a)
				if c.Choose(2) == 1 {
					fset = gotoken.NewFileSet()
				}
				parse("b", b)
				if _, ta2, ea2 := parse("a", a); ea2 != ea || !slices.Equal(ta, ta2) {
					c.Failf("%q is parsed differently after %q: %s and %s", a, b, ea, ea2)
				}
				if fa != nil && !slices.Equal(ta, idl.Dump(fa)) {
					c.Failf("the tree of %q changes while %q is parsed", a, b)
				}
				c.Nontrivial()
				c.StateOf(a, b)
				c.Logf("%q, then %q", a, b)
			}}}
	})
}
