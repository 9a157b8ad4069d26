//go:build go1.23

package main

import (
	"fmt"
	gotoken "go/token"
	"slices"
	"strings"

	"github.com/itstarsun/go-thrift/internal/zzverif/engine"
	"github.com/itstarsun/go-thrift/internal/zzverif/idl"
	"github.com/itstarsun/go-thrift/tools/thriftfile"
)

func init() {
	register(&engine.Prop{ID: "C32", Level: level,
		Rule:        "an execution parses one document, and the rest of it after and from each definition that cannot be parsed",
		Assumptions: []string{"which definition keyword parsing goes on with after an error is only fixed by the error's position"},
		Spaces:      c32Spaces})
}

var defKinds = []string{"const", "typedef", "enum", "struct", "union", "exception", "service"}

// located is an error at an offset of the document.
type located struct {
	off int
	msg string
}

func locate(c *engine.Ctx, src string, err error) (all []located) {
	if err == nil {
		return nil
	}
	f := gotoken.NewFileSet().AddFile("", -1, len(src))
	f.SetLinesForContent([]byte(src))
	for _, e := range eachError(err) {
		var line, col int
		if n, _ := fmt.Sscanf(strings.TrimPrefix(e.Error(), "doc:"), "%d:%d:", &line, &col); n != 2 || line < 1 || line > f.LineCount() {
			c.Failf("%q: error without position: %v", src, e)
		}
		pos := fmt.Sprintf("doc:%d:%d:", line, col)
		all = append(all, located{f.Offset(f.LineStart(line)) + col - 1, strings.TrimPrefix(e.Error(), pos)})
	}
	return all
}

// shifted dumps definitions as those of a document that starts later.
func shifted(f *thriftfile.File, base, by int) []string {
	defs := append([]thriftfile.Def(nil), f.Defs...)
	for i, d := range defs {
		if b, ok := d.(*thriftfile.BadDef); ok {
			b := *b
			b.From += gotoken.Pos(by - base)
			b.To += gotoken.Pos(by - base)
			defs[i] = &b
		}
	}
	var all []string
	for _, d := range defs {
		if b, ok := d.(*thriftfile.BadDef); ok {
			all = append(all, fmt.Sprintf("bad %d %d", b.From, b.To))
			continue
		}
		all = append(all, idl.Dump(&thriftfile.File{Defs: []thriftfile.Def{d}})...)
	}
	return all
}

// brief is a document with what is long about it left out.
func brief(s string) string {
	if len(s) > 2000 {
		return s[:200] + " ... " + s[len(s)-200:]
	}
	return s
}

// checkRecovery checks that parsing goes on after each definition that
// cannot be parsed as if the document started there.
func checkRecovery(c *engine.Ctx, src string) string {
	p := parseIDL(c, src)
	if p.file == nil {
		return "no tree"
	}
	var bad []int
	for i, d := range p.file.Defs {
		if _, ok := d.(*thriftfile.BadDef); ok {
			bad = append(bad, i)
		}
	}
	if len(bad) == 0 {
		return "no bad definition"
	}
	if p.err == nil {
		c.Failf("%q: a definition is bad, but there is no error", brief(src))
	}
	toks, lex := idl.Lex([]byte(src))
	at := make(map[int]idl.Tok)
	for _, t := range toks {
		at[t.Off] = t
	}
	errs := locate(c, src, p.err)
	base := p.tf.Base()
	all := shifted(p.file, base, 0)
	end := 0
	for _, i := range bad {
		b := p.file.Defs[i].(*thriftfile.BadDef)
		from, to := int(b.From)-base, int(b.To)-base
		if from < end {
			c.Failf("%q: bad definition from %d, the one before it ends at %d", brief(src), from, end)
		}
		end = to
		if to < len(src) {
			t, ok := at[to]
			if !ok && lex == nil || ok && !slices.Contains(defKinds, t.Kind) {
				c.Failf("%q: after the bad definition from %d parsing goes on at %d, which is %q", brief(src), from, to, brief(src[to:]))
			}
		}
		if t, ok := at[from]; lex == nil && (!ok || t.Kind == "EOF") {
			c.Failf("%q: the bad definition starts at %d, which is no token", brief(src), from)
		}
		var there []int
		for _, e := range errs {
			if e.off >= from && e.off <= to {
				there = append(there, e.off)
			}
		}
		if len(there) == 0 {
			c.Failf("%q: no error in the bad definition from %d to %d: %v", brief(src), from, to, eachError(p.err))
		}
		// no definition is passed over after the error
		if lex == nil {
			last := slices.Max(there)
			for _, t := range toks {
				if t.Off >= last && t.Off < to && t.Off > from && slices.Contains(defKinds, t.Kind) {
					c.Failf("%q: the bad definition from %d with an error at %d goes on to %d, past %q", brief(src), from, last, to, brief(src[t.Off:]))
				}
			}
		}
		rest := func(off, n int, what string) {
			sub := src[off:]
			q := parseIDL(c, sub)
			if q.file == nil {
				c.Failf("%q: tree for all of it, but not %s: %q", brief(src), what, brief(sub))
			}
			if len(q.file.Headers) > 0 {
				return // headers would be definitions here
			}
			if got := shifted(q.file, q.tf.Base(), off); !slices.Equal(got, all[n:]) {
				c.Failf("%q: %s parses to\n%s\nalone to\n%s", brief(src), what, strings.Join(all[n:], "\n"), strings.Join(got, "\n"))
			}
			own := locate(c, sub, q.err)
			for i := range own {
				own[i].off += off
			}
			for _, e := range own {
				if !slices.Contains(errs, e) {
					c.Failf("%q: %s alone has the error %q at %d, which is missing: %v", brief(src), what, e.msg, e.off, eachError(p.err))
				}
			}
			for _, e := range errs {
				if e.off > off && !slices.Contains(own, e) {
					c.Failf("%q: there is the error %q at %d, which %s alone has not", brief(src), e.msg, e.off, what)
				}
			}
		}
		rest(to, i+1, "what follows the bad definition")
		rest(from, i, "what starts with the bad definition")
	}
	if len(bad) == 1 {
		return "one bad definition"
	}
	return "bad definitions"
}

// pieces are definitions, most of them damaged at one place.
var pieces = []string{
	"const i32 A = 1", "typedef i32 b", "enum c { X = 1, Y }", "struct d { 1: i32 x; 2: list<string> y = [] }", "service e extends f { void m(1: i32 a) throws (1: g h), oneway void n() }",
	"const i32 A =", "const map<i32 A = {}", "typedef map<i32, > b", "enum c { X = , Y = 2 }", "enum c { X", "struct d { 1: x; 2: i32 }", "struct d 1: i32 x }", "struct { 1: i32 x }",
	"union u { 1: list<> x }", "exception { }", "service e { void m(1: ) }", "service e extends { }", "service { void m( }", "i32 x", "= }", "const const i32 A = 1", "struct d { struct }", "const string s = \"", "const i32 A = 0x", "/*", "const i32 A = [1, {2: ]",
}

func c32Spaces(th bool) []engine.Space {
	depth, seq, n := 8, 3, 3
	if th {
		depth, seq, n = 10, 4, 4
	}
	base := docSamples()
	run := func(c *engine.Ctx, src string) {
		c.Step()
		c.Outcome(checkRecovery(c, src))
		c.Nontrivial()
		c.StateOf(src)
		c.Logf("%s", src)
	}
	return append(tokenSpaces(th, depth, seq, checkRecovery),
		engine.Space{Name: "damaged bytes", Shards: len(base), Bound: "every insertion, replacement and deletion of a byte in 8 documents, 56 characters",
			Run: func(c *engine.Ctx, sh int) {
				src := layout(base[sh], 1)
				i := c.Choose(len(src) + 1)
				ins := ""
				if k := c.Choose(len(byteAlphabet) + 1); k > 0 {
					ins = byteAlphabet[k-1]
				}
				j := i
				if i < len(src) {
					j += c.Choose(2)
				}
				run(c, src[:i]+ins+src[j:])
			}},
		engine.Space{Name: "damaged definitions", Shards: len(pieces), Bound: fmt.Sprintf("every sequence of up to %d of %d definitions, 21 of them damaged, on one line or several", n, len(pieces)),
			Run: func(c *engine.Ctx, sh int) {
				all := []string{pieces[sh]}
				for k := c.Choose(n); k > 0; k-- {
					all = append(all, engine.Pick(c, pieces))
				}
				run(c, strings.Join(all, []string{" ", "\n", " // é\r\n"}[c.Choose(3)]))
			}},
		engine.Space{Name: "many damaged definitions", Shards: len(pieces), Bound: "every two definitions taking turns 1, 2, 5 and 20 times, and then one that is right",
			Run: func(c *engine.Ctx, sh int) {
				two := pieces[sh] + "\n" + engine.Pick(c, pieces) + "\n"
				run(c, strings.Repeat(two, 1+[]int{0, 1, 4, 19}[c.Choose(4)])+"struct z { 1: i32 x }")
			}},
		engine.Space{Name: "deep definitions", Shards: 12, Bound: "types and values nested up to and beyond the limit, closed or cut off, once or twice, with and without a definition after them",
			Run: func(c *engine.Ctx, sh int) {
				form := [][3]string{{"typedef ", "list<", ">"}, {"const i32 x = ", "[", "]"}, {"const i32 x = ", "{1:", "}"}, {"struct s { 1: ", "map<i32,", ">"}}[sh/3]
				deep := []int{1, 10000, 10001}
				first := true
				one := func() string {
					n := deep[sh%3]
					if !first {
						n = engine.Pick(c, deep)
					}
					first = false
					leaf := "i32"
					if sh/3 == 1 || sh/3 == 2 {
						leaf = "1"
					}
					s := form[0] + strings.Repeat(form[1], n)
					if c.Choose(2) == 0 {
						s += leaf + strings.Repeat(form[2], n)
					}
					if sh/3 != 1 && sh/3 != 2 {
						s += " x"
					}
					if sh/3 == 3 {
						s += " }"
					}
					return s
				}
				src := one()
				if c.Choose(2) == 1 {
					src += "\n" + one()
				}
				if c.Choose(2) == 1 {
					src += "\nstruct z { 1: list<list<i32>> x = [[1]] }"
				}
				c.Step()
				c.Outcome(checkRecovery(c, src))
				c.Nontrivial()
			}})
}
