//go:build go1.23

package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/itstarsun/go-thrift/internal/zzverif/engine"
	"github.com/itstarsun/go-thrift/internal/zzverif/idl"
)

func init() {
	register(&engine.Prop{ID: "C22", Level: level,
		Rule:        "an execution derives one document of the grammar together with its tree and parses it",
		Assumptions: []string{"cpp_include, cpp_type and the xsd_ forms are not part of the grammar", "fields may have keywords as names"},
		Spaces:      c22Spaces})
	register(&engine.Prop{ID: "C23", Level: level,
		Rule:        "an execution parses one token sequence",
		Assumptions: []string{"several separators in a row are left open", "fields may have keywords as names"},
		Spaces:      c23Spaces})
	register(&engine.Prop{ID: "C24", Level: level,
		Rule:        "an execution parses one byte sequence",
		Assumptions: []string{"several separators in a row are left open", "a number may end in a point"},
		Spaces:      c24Spaces})
	register(&engine.Prop{ID: "C25", Level: level,
		Rule:        "an execution parses one document in one layout",
		Assumptions: []string{"several separators in a row are left open"},
		Spaces:      c25Spaces})
}

// docGen derives documents, one token and one piece of the tree at a time.
type docGen struct {
	c    *engine.Ctx
	toks []string
	n    int // names given
	lits int
}

func (g *docGen) tok(s ...string) { g.toks = append(g.toks, s...) }

func (g *docGen) ident() string {
	g.n++
	s := []string{"a", "Bc", "_d", "e.f", "g9", "In", "mapX", "Void", "é"}[g.n%9] + fmt.Sprint(g.n)
	g.tok(s)
	return s
}

func (g *docGen) lit(kind string) string {
	g.lits++
	n := fmt.Sprint(g.lits)
	s := ""
	switch kind {
	case "INT":
		s = []string{n, "-" + n, "+" + n, "0x" + n + "F", "0" + n}[g.lits%5]
	case "FLOAT":
		s = []string{n + ".5", "-" + n + "e3", "+." + n, n + ".25E-" + n, "0." + n}[g.lits%5]
	default:
		s = []string{`"s` + n + `"`, `'s` + n + `'`, `"` + n + `\n\\'\""`, `'` + n + `é	//x'`, `""`}[g.lits%5]
	}
	g.tok(s)
	return s
}

// count gives the number of elements of a list: one, or another as a
// deviation.
func (g *docGen) count() int { return []int{1, 0, 2, 3}[g.c.Dev(4)] }

func (g *docGen) opt() bool { return g.c.Dev(2) == 1 }

func (g *docGen) sep() {
	switch g.c.Dev(3) {
	case 1:
		g.tok(",")
	case 2:
		g.tok(";")
	}
}

func (g *docGen) anns() string {
	if !g.opt() {
		return ""
	}
	g.tok("(")
	var all []string
	for n := g.count(); n > 0; n-- {
		s := g.ident()
		if g.opt() {
			g.tok("=")
			s += "=" + g.lit("STRING")
		}
		all = append(all, s)
		g.sep()
	}
	g.tok(")")
	return "@(" + strings.Join(all, ",") + ")"
}

func (g *docGen) typ() string {
	switch g.c.Dev(4) {
	case 1:
		g.tok("map", "<")
		k := g.typ()
		g.tok(",")
		v := g.typ()
		g.tok(">")
		return "map<" + k + "," + v + ">" + g.anns()
	case 2:
		g.tok("set", "<")
		e := g.typ()
		g.tok(">")
		return "set<" + e + ">" + g.anns()
	case 3:
		g.tok("list", "<")
		e := g.typ()
		g.tok(">")
		return "list<" + e + ">" + g.anns()
	}
	s := g.ident()
	return s + g.anns()
}

func (g *docGen) val() string {
	switch g.c.Dev(6) {
	case 1:
		return g.ident()
	case 2:
		return "float " + g.lit("FLOAT")
	case 3:
		return g.lit("STRING")
	case 4:
		g.tok("[")
		s := "["
		for n := g.count(); n > 0; n-- {
			s += g.val() + ","
			g.sep()
		}
		g.tok("]")
		return s + "]"
	case 5:
		g.tok("{")
		s := "{"
		for n := g.count(); n > 0; n-- {
			s += g.val() + ":"
			g.tok(":")
			s += g.val() + ","
			g.sep()
		}
		g.tok("}")
		return s + "}"
	}
	return "int " + g.lit("INT")
}

func (g *docGen) fields(open, end string, def int) string {
	g.tok(open)
	s := "{"
	n := def
	if k := g.c.Dev(4); k > 0 {
		n = k - 1
		if n >= def {
			n++
		}
	}
	for ; n > 0; n-- {
		s += " "
		if g.opt() {
			s += g.lit("INT") + ":"
			g.tok(":")
		}
		switch g.c.Dev(3) {
		case 1:
			g.tok("required")
			s += "required "
		case 2:
			g.tok("optional")
			s += "optional "
		}
		s += g.typ()
		if g.opt() {
			g.tok("&")
			s += "&"
		}
		if g.opt() {
			g.n++
			k := idl.Keywords[g.n%len(idl.Keywords)]
			g.tok(k)
			s += " " + k
		} else {
			s += " " + g.ident()
		}
		if g.opt() {
			g.tok("=")
			s += "=" + g.val()
		}
		s += g.anns() + ";"
		g.sep()
	}
	g.tok(end)
	return s + "}"
}

var docKinds = []string{"include", "namespace", "const", "typedef", "enum", "struct", "union", "exception", "service"}

func (g *docGen) part(kind string) string {
	g.tok(kind)
	switch kind {
	case "include":
		return "include(" + g.lit("STRING") + ")"
	case "namespace":
		s := "namespace("
		if g.opt() {
			g.tok("*")
			s += "* "
		} else {
			s += g.ident() + " "
		}
		return s + g.ident() + g.anns() + ")"
	case "const":
		s := "const(" + g.typ() + " " + g.ident() + "="
		g.tok("=")
		s += g.val() + ")"
		g.sep()
		return s
	case "typedef":
		s := "typedef(" + g.typ() + " " + g.ident() + g.anns() + ")"
		g.sep()
		return s
	case "enum":
		s := "enum(" + g.ident()
		g.tok("{")
		for n := g.count(); n > 0; n-- {
			s += " " + g.ident()
			if g.opt() {
				g.tok("=")
				s += "=" + g.lit("INT")
			}
			s += g.anns()
			g.sep()
		}
		g.tok("}")
		return s + ";" + g.anns() + ")"
	case "struct", "union":
		return kind + "(" + g.ident() + g.fields("{", "}", 1) + g.anns() + ")"
	case "exception":
		return "struct(exception(" + g.ident() + g.fields("{", "}", 1) + g.anns() + ")"
	}
	s := "service(" + g.ident()
	if g.opt() {
		g.tok("extends")
		s += " extends " + g.ident()
	}
	g.tok("{")
	for n := g.count(); n > 0; n-- {
		s += "\n "
		if g.opt() {
			g.tok("oneway")
			s += "oneway "
		}
		if g.opt() {
			s += g.typ() + " "
		} else {
			g.tok("void")
			s += "void "
		}
		s += g.ident() + g.fields("(", ")", 0)
		if g.opt() {
			g.tok("throws")
			s += " throws" + g.fields("(", ")", 0)
		}
		s += g.anns()
		g.sep()
	}
	g.tok("}")
	return s + ";" + g.anns() + ")"
}

// layout joins tokens: 0 with as little space as possible, 1 with spaces, 2
// one to a line.
func layout(toks []string, how int) string {
	var b strings.Builder
	prev := ""
	for i, t := range toks {
		if i > 0 {
			switch {
			case how == 1:
				b.WriteByte(' ')
			case how == 2:
				b.WriteByte('\n')
			case needSpace(prev, t):
				b.WriteByte(' ')
			}
		}
		b.WriteString(t)
		prev = t
	}
	return b.String()
}

// needSpace reports whether two tokens must be kept apart.
func needSpace(a, b string) bool {
	word := func(c byte) bool {
		return c == '_' || c == '.' || c >= 0x80 || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
	}
	x, y := a[len(a)-1], b[0]
	return word(x) && (word(y) || y == '+' || y == '-') || x == '=' && y == '=' || x == '/' && (y == '/' || y == '*') || (x == '+' || x == '-') && word(y)
}

func expectTree(c *engine.Ctx, src string, want []string) {
	p := parseIDL(c, src)
	if p.err != nil {
		c.Failf("%q: rejected: %v", src, p.err)
	}
	if !reflect.DeepEqual(p.tree, want) && len(p.tree)+len(want) > 0 {
		c.Failf("%q: the tree is\n%s\nwant\n%s", src, strings.Join(p.tree, "\n"), strings.Join(want, "\n"))
	}
	checkLines(c, src, p)
}

func c22Spaces(th bool) []engine.Space {
	dev, dev2 := 5, 2
	if th {
		dev, dev2 = 6, 3
	}
	one := func(c *engine.Ctx, kinds []string) {
		g := &docGen{c: c}
		var want []string
		for _, k := range kinds {
			if k != "" {
				want = append(want, g.part(k))
			}
		}
		c.Step()
		how := c.Choose(3)
		src := layout(g.toks, how)
		expectTree(c, src, want)
		c.Nontrivial()
		if how == 0 {
			c.StateOf(src)
		}
		c.Logf("%s", src)
	}
	linePieces := []string{"\n", " ", "\r", "\t", "\n\n", "\r\n", "//\n", "# x\n", "//é\r\n", "/**/", "/*\n*/", "/*\n\n*/", "/* x\n\n\n y\n */", "/*\r\n\r\n*/", "/*\\\n*/", "//\\\n", "/*é\n//\n#*/"}
	linesN := 4
	if th {
		linesN = 5
	}
	spaces := []engine.Space{
		{Name: "one part", Shards: len(docKinds), Dev: dev, Bound: fmt.Sprintf("every header and definition with up to %d deviations from its shortest form, 3 layouts", dev),
			Run: func(c *engine.Ctx, sh int) { one(c, docKinds[sh:sh+1]) }},
		{Name: "several parts", Shards: 81, Dev: dev2, Bound: fmt.Sprintf("every two headers and definitions with up to %d deviations together, 3 layouts", dev2),
			Run: func(c *engine.Ctx, sh int) {
				a, b := docKinds[sh/9], docKinds[sh%9]
				if sh/9 >= 2 && sh%9 < 2 {
					return // headers come first
				}
				one(c, []string{a, b})
			}},
		{Name: "sequences of parts", Shards: 1, Bound: "every sequence of up to 5 headers and definitions in their shortest form",
			Run: func(c *engine.Ctx, _ int) {
				var kinds []string
				least := 0
				for n := c.Choose(6); n > 0; n-- {
					k := least + c.Choose(9-least)
					if k >= 2 {
						least = 2
					}
					kinds = append(kinds, docKinds[k])
				}
				one(c, kinds)
			}},
		{Name: "long lists", Shards: 8, Bound: "lists of up to 300 and of 1000 and 5000 elements of every kind",
			Run: func(c *engine.Ctx, sh int) {
				n := c.Choose(302)
				if n >= 300 {
					n = []int{1000, 5000}[n-300]
				}
				var toks, want []string
				rep := func(pre string, tok func(i int) string, post string) {
					toks = append(toks, strings.Fields(pre)...)
					for i := 0; i < n; i++ {
						toks = append(toks, strings.Fields(tok(i))...)
					}
					toks = append(toks, strings.Fields(post)...)
				}
				each := func(f string) string {
					var b strings.Builder
					for i := 0; i < n; i++ {
						b.WriteString(strings.ReplaceAll(f, "#", fmt.Sprint(i)))
					}
					return b.String()
				}
				switch sh {
				case 0:
					rep("", func(i int) string { return fmt.Sprintf(`include "%d"`, i) }, "")
					for i := 0; i < n; i++ {
						want = append(want, fmt.Sprintf(`include("%d")`, i))
					}
				case 1:
					rep("", func(i int) string { return fmt.Sprintf(`typedef a b%d`, i) }, "")
					for i := 0; i < n; i++ {
						want = append(want, fmt.Sprintf(`typedef(a b%d)`, i))
					}
				case 2:
					rep("enum e {", func(i int) string { return fmt.Sprintf(`v%d = %d`, i, i) }, "}")
					want = []string{"enum(e" + each(" v#=#") + ";)"}
				case 3:
					rep("struct s {", func(i int) string { return fmt.Sprintf(`%d : t v%d`, i, i) }, "}")
					want = []string{"struct(s{" + each(" #:t v#;") + "})"}
				case 4:
					rep("service s {", func(i int) string { return fmt.Sprintf(`void v%d ( )`, i) }, "}")
					want = []string{"service(s" + each("\n void v#{}") + ";)"}
				case 5:
					rep("const t c = [", func(i int) string { return fmt.Sprint(i) }, "]")
					want = []string{"const(t c=[" + each("int #,") + "])"}
				case 6:
					rep("const t c = {", func(i int) string { return fmt.Sprintf("%d : v%d", i, i) }, "}")
					want = []string{"const(t c={" + each("int #:v#,") + "})"}
				case 7:
					rep("typedef t u (", func(i int) string { return fmt.Sprintf("a%d", i) }, ")")
					want = []string{"typedef(t u@(" + strings.TrimSuffix(each("a#,"), ",") + "))"}
				}
				c.Step()
				expectTree(c, layout(toks, 1+sh%2), want)
				c.Nontrivial()
				c.StateOf(sh, n)
			}},
		{Name: "lines", Shards: len(linePieces), Bound: fmt.Sprintf("every sequence of up to %d out of %d pieces of white space and comments with and without line ends, before, within or after a definition: the tree and the lines of the document", linesN, len(linePieces)),
			Run: func(c *engine.Ctx, sh int) {
				f := linePieces[sh]
				for n := c.Choose(linesN); n > 0; n-- {
					f += engine.Pick(c, linePieces)
				}
				src := []string{"@typedef a b", "typedef@a b", "typedef a b@"}[c.Choose(3)]
				c.Step()
				expectTree(c, strings.Replace(src, "@", f, 1), []string{"typedef(a b)"})
				c.Nontrivial()
				c.StateOf(f)
			}},
		{Name: "words", Shards: 8, Bound: "every word of up to 3 characters of an alphabet, and every keyword with one letter changed, cut or added, as a name in 8 places",
			Run: func(c *engine.Ctx, sh int) {
				const first, rest = "aZ_éi", "aZ_é09.t"
				var w string
				if c.Choose(2) == 0 {
					rs := []rune(first)
					w = string(rs[c.Choose(len(rs))])
					rs = []rune(rest)
					for n := c.Choose(3); n > 0; n-- {
						w += string(rs[c.Choose(len(rs))])
					}
				} else {
					w = engine.Pick(c, idl.Keywords)
					i := c.Choose(len(w) + 1)
					switch c.Choose(5) {
					case 0:
						if i == len(w) {
							return
						}
						w = w[:i] + w[i+1:]
					case 1:
						if i == len(w) {
							return
						}
						w = w[:i] + strings.ToUpper(w[i:i+1]) + w[i+1:]
					case 2:
						w = w[:i] + "x" + w[i:]
					case 3:
						w = w[:i] + "_" + w[i:]
					case 4:
						if i == 0 {
							return
						}
						w = w[:i] + "." + w[i:]
					}
				}
				for _, k := range idl.Keywords {
					if w == k {
						return
					}
				}
				f := []string{"namespace # b|namespace(# b)", "namespace a #|namespace(a #)", "typedef # b|typedef(# b)", "struct # { }|struct(#{})", "const t c = [ # # ]|const(t c=[#,#,])", "service # extends # { # # ( ) }|service(# extends #\n # #{};)", "enum # { # # = 1 } ( # )|enum(# # #=int 1;@(#))", "union # { # # = # }|union(#{ # #=#;})"}[sh]
				f = strings.ReplaceAll(strings.ReplaceAll(f, "#", w), "=int 1", "=1")
				src, want, _ := strings.Cut(f, "|")
				c.Step()
				expectTree(c, src, []string{want})
				c.Nontrivial()
				c.StateOf(w)
			}},
		{Name: "literals", Shards: 3, Bound: "every number of the grammar of up to 8 characters of an alphabet, and every string of up to 3 characters and escapes, in 5 places",
			Run: func(c *engine.Ctx, sh int) {
				var w, kind string
				switch sh {
				case 0: // integers
					kind = "int "
					w = engine.Pick(c, []string{"", "+", "-"})
					if c.Choose(2) == 1 {
						w += engine.Pick(c, []string{"0x", "0X"})
						for n := 1 + c.Choose(3); n > 0; n-- {
							w += engine.Pick(c, []string{"0", "9", "a", "F", "e"})
						}
					} else {
						for n := 1 + c.Choose(4); n > 0; n-- {
							w += engine.Pick(c, []string{"0", "1", "7", "9"})
						}
						if c.Choose(2) == 1 {
							w += "99999999999999999999"
						}
					}
				case 1: // floats
					kind = "float "
					w = engine.Pick(c, []string{"", "+", "-"})
					w += engine.Pick(c, []string{"", "0", "7", "00", "19"})
					frac := engine.Pick(c, []string{"", ".0", ".7", ".00", ".19"})
					if frac == "" && strings.Trim(w, "+-") == "" {
						return
					}
					exp := engine.Pick(c, []string{"", "e0", "E9", "e+1", "E-12", "e007"})
					if frac+exp == "" {
						return
					}
					w += frac + exp
				case 2:
					w = engine.Pick(c, []string{`"`, `'`})
					q := w
					for n := c.Choose(4); n > 0; n-- {
						s := engine.Pick(c, []string{"a", " ", "\t", "\r", "#", "//", "/*", "é", "\U0010ffff", "'", `"`, `\n`, `\r`, `\t`, `\\`, `\'`, `\"`, "{", ";", "\x7f", "\x01"})
						if s == q {
							return
						}
						w += s
					}
					w += q
				}
				place := c.Choose(5)
				f := []string{"const t c=§|const(t c=¤)", "const t c=[§ §]|const(t c=[¤,¤,])", "const t c={§:§}|const(t c={¤:¤,})", "struct s{t u=§}|struct(s{ t u=¤;})", ""}[place]
				if place == 4 {
					f = []string{"struct s{§:t u}enum e{f=§}|struct(s{ §:t u;});enum(e f=§;)", "", "include§ typedef t u(a=§,b=§)|include(§);typedef(t u@(a=§,b=§))"}[sh]
					if f == "" {
						return
					}
				}
				src, want, _ := strings.Cut(f, "|")
				src = strings.ReplaceAll(src, "§", w)
				var wants []string
				for _, s := range strings.Split(want, ");") {
					wants = append(wants, s+")")
				}
				n := len(wants) - 1
				wants[n] = strings.TrimSuffix(wants[n], ")")
				for i := range wants {
					wants[i] = strings.ReplaceAll(strings.ReplaceAll(wants[i], "¤", kind+w), "§", w)
				}
				c.Step()
				expectTree(c, src, wants)
				c.Nontrivial()
				c.StateOf(w)
			}},
	}
	return spaces
}

// docSamples returns token sequences of documents in which every production
// is used.
func docSamples() [][]string {
	var all [][]string
	for _, s := range []string{
		``,
		`include "x" namespace * a.b ( c = "d" ) namespace py e const i32 f = -1 ;`,
		`typedef map < string ( a ) , set < list < g > > ( b = 'c' , ) > h ( i ; ) ,`,
		`const m n = { "k" : [ 1 , 2.5 ; x.y ] , 'l' : { } , 3 : [ ] } typedef a b`,
		`enum E { A B = 0x1F , C ( x = "y" ) ; D = +2 ( z ) } ( w ) enum F { }`,
		`struct S { 1 : required i32 a = 5 ( b ) , -2 : optional list < T > & include ; c d } ( e = "f" ) union U { }`,
		`exception X { 0x3 : t struct = [ ] ; map < k , v > set } union V { optional w x }`,
		`service S extends T.U { oneway void a ( ) , list < b > c ( 1 : d e , f g ) throws ( h i ) ( j ) ; k l ( ) throws ( ) } ( m ) service N { void o ( p q ) }`,
	} {
		all = append(all, strings.Fields(s))
	}
	return all
}

// kindTexts gives a token of each kind.
func kindTexts() []string {
	return append(append([]string{"x", "7", "1.5", `"s"`}, idl.Keywords...), idl.Puncts...)
}

func c23Spaces(th bool) []engine.Space {
	if th {
		return tokenSpaces(th, 11, 5, checkDoc)
	}
	return tokenSpaces(th, 9, 4, checkDoc)
}

// tokenSpaces are spaces of documents right and wrong.
func tokenSpaces(th bool, depth, seq int, check func(c *engine.Ctx, src string) string) []engine.Space {
	texts := kindTexts()
	kinds := idl.Kinds()
	starts := docKinds
	run := func(c *engine.Ctx, toks []string, how int) {
		c.Step()
		src := layout(toks, how)
		c.Outcome(check(c, src))
		c.Nontrivial()
		c.Logf("%s", src)
	}
	// viable lists the tokens some document goes on with.
	viable := func(a *idl.Automaton) (ok, bad []int) {
		for i, k := range kinds {
			if a.Clone().Next(k) {
				ok = append(ok, i)
			} else {
				bad = append(bad, i)
			}
		}
		return ok, bad
	}
	base := docSamples()
	edit := func(c *engine.Ctx, toks []string) []string {
		i := c.Choose(len(toks) + 1)
		out := append([]string(nil), toks[:i]...)
		switch c.Choose(4) {
		case 0: // insert
			return append(append(out, engine.Pick(c, texts)), toks[i:]...)
		case 1: // replace
			if i == len(toks) {
				return nil
			}
			return append(append(out, engine.Pick(c, texts)), toks[i+1:]...)
		case 2: // delete
			if i == len(toks) {
				return nil
			}
			return append(out, toks[i+1:]...)
		}
		if i+1 >= len(toks) {
			return nil
		}
		return append(append(out, toks[i+1], toks[i]), toks[i+2:]...) // swap
	}
	var edits []int
	for i, b := range base {
		for range b {
			edits = append(edits, i)
		}
	}
	words := texts
	if !th {
		words = []string{"x", "7", `"s"`, "struct", "const", "required", "map", "void", "=", "==", "(", ")", "{", "}", "[", "]", "<", ">", ",", ":", "*", "&"}
	}
	return []engine.Space{
		{Name: "all sequences", Shards: len(texts) + 1, Bound: fmt.Sprintf("every sequence of up to %d tokens of all kinds", seq),
			Run: func(c *engine.Ctx, sh int) {
				var toks []string
				if sh > 0 {
					toks = append(toks, texts[sh-1])
					for n := c.Choose(seq); n > 0; n-- {
						toks = append(toks, texts[c.Choose(len(texts))])
					}
				}
				run(c, toks, 1)
				if !th {
					c.StateOf(toks)
				}
			}},
		{Name: "viable sequences", Shards: len(starts) * 8, Bound: fmt.Sprintf("every sequence of up to %d tokens of one header or definition (keywords as field names: one), ended there or gone on with every token that does not fit, alone or with a definition after it", depth),
			Run: func(c *engine.Ctx, sh int) {
				a := idl.New()
				toks := []string{starts[sh/8]}
				a.Next(starts[sh/8])
				first := true
				for len(toks) < depth && a.Defs == 0 {
					ok, bad := viable(a)
					// keywords as names are one choice
					var next []int
					kw := false
					for _, k := range ok {
						if k >= 4 && k < 4+len(idl.Keywords) && len(ok) > len(idl.Keywords) {
							if kw {
								continue
							}
							kw = true
						}
						next = append(next, k)
					}
					var n int
					if first { // shards divide the first choice
						if sh%8 == 0 {
							n = len(next)
						} else if n = sh%8 - 1; n >= len(next) {
							return
						}
						first = false
					} else {
						n = c.Choose(len(next) + 1)
					}
					if n == len(next) {
						if k := c.Choose(len(bad) + 1); k > 0 {
							toks = append(toks, texts[bad[k-1]])
							toks = append(toks, [][]string{{}, {"struct", "z", "{", "}"}, {texts[bad[k-1]]}}[c.Choose(3)]...)
						}
						break
					}
					a.Next(kinds[next[n]])
					toks = append(toks, texts[next[n]])
				}
				run(c, toks, len(toks)%2)
				c.StateOf(toks)
			}},
		{Name: "edited documents", Shards: len(base), Bound: "every insertion, replacement, deletion and exchange of tokens in 8 documents, 2 layouts",
			Run: func(c *engine.Ctx, sh int) {
				toks := edit(c, base[sh])
				if toks == nil {
					return
				}
				run(c, toks, c.Choose(2))
				c.StateOf(toks)
			}},
		{Name: "twice edited documents", Shards: len(edits), Bound: "every two insertions or replacements in 8 documents",
			Run: func(c *engine.Ctx, sh int) {
				b := base[edits[sh]]
				i := 0
				for sh-i > 0 && edits[sh-i-1] == edits[sh] {
					i++
				}
				toks := append([]string(nil), b...)
				j := i + c.Choose(len(b)-i)
				if j == i {
					toks[i] = engine.Pick(c, words)
					at := i + 1
					toks = append(toks[:at:at], append([]string{engine.Pick(c, words)}, toks[at:]...)...)
				} else {
					toks[i] = engine.Pick(c, words)
					toks[j] = engine.Pick(c, words)
				}
				run(c, toks, 1)
				c.StateOf(toks)
			}},
		{Name: "cut and joined documents", Shards: len(base), Bound: "every beginning of each of 8 documents, alone and followed by every end of each of the others",
			Run: func(c *engine.Ctx, sh int) {
				b := base[sh]
				i := c.Choose(len(b) + 1)
				toks := append([]string(nil), b[:i]...)
				if k := c.Choose(len(base) + 1); k > 0 {
					o := base[k-1]
					toks = append(toks, o[c.Choose(len(o)+1):]...)
				}
				run(c, toks, 1)
				c.StateOf(toks)
			}},
	}
}

var byteAlphabet = []string{"a", "0", "1", "x", "e", ".", "_", " ", "\n", "\r", "\t", "\"", "'", "\\", "/", "*", "#", "+", "-", "=", "(", ")", "{", "}", "[", "]", "<", ">", ",", ";", ":", "&", "!", "\x00", "\x01", "\x80", "\xc3", "\xa9", "\xff", "é", "٣", "\ufeff", "\ufffd", "€", "$", "@", "`", "~", "?", "%", "^", "|", "\x7f", "\v", "\f", "\u2028"}

func c24Spaces(th bool) []engine.Space {
	prefixes := []string{"", "\ufeff", "const t c=", "const t c=[1 ", "struct s{", "struct s{1:t u=", "include ", "enum e{a=", "const t c=0", "const t c=\"", "const t c='", "/*", "//", "#", "typedef a b\n", "service s{void a(", "const t c=1e", "const t c=-", "const t c=0x", "typedef a b /*", "const t c=\"a\\", "typedef a é", "typedef a b", "const t c=1.", "const t c=."}
	small := []string{"a", "0", "x", "e", ".", " ", "\n", "\"", "'", "\\", "/", "*", "#", "+", "-", "=", ")", "}", "]", ",", ":", "\x00", "\x80", "é", "\ufeff"}
	n, m, ends, after := 3, 4, 3, len(prefixes)
	if th {
		n, m, ends, after = 4, 5, 1, 12
	}
	docs := []string{
		"include \"a\" // b\nnamespace * c\n/* d\n * e **/\nconst map<f,list<g>> h = {'i': [1, -2.5e+3, .5, 0xF]};\r\n",
		"#x\ntypedef é j (k = \"l\\n\\\"\", m)\nenum n { o, p = 1; q }\n\nunion r { 1: optional s t = u; v & w }",
		"service x extends y.z {\n\toneway void a(), // b\n\tlist<c> d(1: e f = \"g\") throws (1: h i) (j)\n} (k = '')\nstruct l {}\n",
	}
	run := func(c *engine.Ctx, src string) {
		c.Step()
		what := checkDoc(c, src)
		c.Outcome(what)
		if what != "syntax error" {
			c.Nontrivial()
		}
	}
	return []engine.Space{
		{Name: "characters", Shards: after, Bound: fmt.Sprintf("every sequence of up to %d characters out of %d after %d beginnings, with %d endings", n, len(byteAlphabet), after, ends),
			Run: func(c *engine.Ctx, sh int) {
				s := prefixes[sh]
				for k := c.Choose(n + 1); k > 0; k-- {
					s += engine.Pick(c, byteAlphabet)
				}
				end := c.Choose(ends)
				s += []string{"", "\n", "}"}[end]
				run(c, s)
				if end == 0 && !th {
					c.StateOf(s)
				}
			}},
		{Name: "longer sequences", Shards: after, Bound: fmt.Sprintf("every sequence of %d characters out of %d after %d beginnings", m, len(small), after),
			Run: func(c *engine.Ctx, sh int) {
				s := prefixes[sh]
				for k := 0; k < m; k++ {
					s += engine.Pick(c, small)
				}
				run(c, s)
			}},
		{Name: "single bytes", Shards: len(prefixes), Bound: "each byte and each two bytes after every beginning",
			Run: func(c *engine.Ctx, sh int) {
				s := prefixes[sh] + string([]byte{byte(c.Choose(256))})
				if c.Choose(2) == 1 {
					s += string([]byte{byte(c.Choose(256))})
				}
				run(c, s)
			}},
		{Name: "changed documents", Shards: len(docs), Bound: "every byte of 3 documents replaced by or preceded by each of 256, cut before, deleted",
			Run: func(c *engine.Ctx, sh int) {
				d := docs[sh]
				i := c.Choose(len(d) + 1)
				switch c.Choose(4) {
				case 0:
					d = d[:i] + string([]byte{byte(c.Choose(256))}) + d[i:]
				case 1:
					if i == len(d) {
						return
					}
					d = d[:i] + string([]byte{byte(c.Choose(256))}) + d[i+1:]
				case 2:
					d = d[:i]
				case 3:
					if i == len(d) {
						return
					}
					d = d[:i] + d[i+1:]
				}
				run(c, d)
				c.StateOf(d)
			}},
		{Name: "twice changed documents", Shards: len(docs) * 8, Bound: "every two places of 3 documents at which one of 10 characters is put in",
			Run: func(c *engine.Ctx, sh int) {
				d := docs[sh/8]
				chars := []string{"\"", "'", "/*", "*/", "\n", "#", "\\", "\x00", "\xff", " "}
				i := c.Choose(len(d) + 1)
				if i%8 != sh%8 {
					return
				}
				j := i + c.Choose(len(d)+1-i)
				d = d[:i] + engine.Pick(c, chars) + d[i:j] + engine.Pick(c, chars) + d[j:]
				run(c, d)
			}},
	}
}

func c25Spaces(th bool) []engine.Space {
	base := docSamples()
	fillers := []string{" ", "\n", "\t", "\r\n", "\r", "  \n\n ", "//\n", "//x\n", "//x\r y\n", "#\rx\r\n", "/*\r*/", "// \"'/* {\r\n", "#\n", "#x/*\n", "##//\n ", "/**/", "/***/", "/* */", "/*\n*/", "/*//*/", "/*#\"'*/", "/****/ /*/ */", "/* * / **/\n", "/*é*/", "//é\n", "/*/**/", "\n//a\n#b\n/*c*/\n", "/* ; , } */", "/*x*/ //y\n\t", "//x\\\n", "# \\\n", "//\\\\\r\n", "/*\\*/", "/*\n\n\n*/", "/*x\n\n*\n/\n*/ ", "#'\\'\"\n", "//*\n", "#*/\n", "\n\n\n"}
	trees := make([][]string, len(base))
	for i, b := range base {
		toks, _ := idl.Lex([]byte(strings.Join(b, " ")))
		trees[i] = idl.Tree(toks)
	}
	var gaps []int
	for i, b := range base {
		for range b {
			gaps = append(gaps, i)
		}
		gaps = append(gaps, i)
	}
	join := func(toks []string, with map[int]string, usual string) string {
		var b strings.Builder
		for i := 0; i <= len(toks); i++ {
			if f, ok := with[i]; ok {
				b.WriteString(f)
			} else if i > 0 && i < len(toks) && (usual != "" || needSpace(toks[i-1], toks[i])) {
				if usual == "" {
					b.WriteByte(' ')
				} else {
					b.WriteString(usual)
				}
			}
			if i < len(toks) {
				b.WriteString(toks[i])
			}
		}
		return b.String()
	}
	lists := func(toks []string, i int) bool { // is toks[i] an optional separator?
		if toks[i] != "," && toks[i] != ";" {
			return false
		}
		without := append(append([]string(nil), toks[:i]...), toks[i+1:]...)
		t, lex := idl.Lex([]byte(strings.Join(without, " ")))
		if bad, _ := idl.Check(t); lex != nil || bad >= 0 {
			return false
		}
		// removing it must not change what the rest means
		u, _ := idl.Lex([]byte(strings.Join(toks, " ")))
		return reflect.DeepEqual(idl.Tree(t), idl.Tree(u))
	}
	return []engine.Space{
		{Name: "one gap", Shards: len(base), Bound: fmt.Sprintf("every gap of 8 documents x %d fillers, or each of them twice, or nothing where that is possible; the other gaps in 3 ways", len(fillers)),
			Run: func(c *engine.Ctx, sh int) {
				b := base[sh]
				g := c.Choose(len(b) + 1)
				f := ""
				if k := c.Choose(2*len(fillers) + 1); k > 0 {
					f = fillers[(k-1)/2]
					if k%2 == 0 {
						f += f
					}
				} else if g > 0 && g < len(b) && needSpace(b[g-1], b[g]) {
					return
				}
				usual := []string{" ", "", "\n"}[c.Choose(3)]
				if g > 0 && strings.HasPrefix(f, "/") && strings.HasSuffix(b[g-1], "/") {
					return
				}
				c.Step()
				expectTree(c, join(b, map[int]string{g: f}, usual), trees[sh])
				c.Nontrivial()
				c.StateOf(sh, g, f, usual)
			}},
		{Name: "two gaps", Shards: len(gaps), Bound: fmt.Sprintf("every two gaps of 8 documents x every pair of %d fillers", len(fillers)),
			Run: func(c *engine.Ctx, sh int) {
				d := gaps[sh]
				b := base[d]
				i := 0
				for sh-i > 0 && gaps[sh-i-1] == d {
					i++
				}
				if i == len(b) {
					return
				}
				if !th && len(b) > 30 && i%3 != 0 {
					return
				}
				j := i + 1 + c.Choose(len(b)-i)
				c.Step()
				expectTree(c, join(b, map[int]string{i: engine.Pick(c, fillers), j: engine.Pick(c, fillers)}, " "), trees[d])
				c.Nontrivial()
			}},
		{Name: "all gaps", Shards: len(base), Bound: "every gap with the same filler, or with one filler and every second, third or fourth with another; ends without line end and after a byte order mark",
			Run: func(c *engine.Ctx, sh int) {
				b := base[sh]
				f1, f2 := engine.Pick(c, fillers), engine.Pick(c, fillers)
				every, off := 2+c.Choose(3), 0
				off = c.Choose(every)
				with := map[int]string{}
				for i := 0; i <= len(b); i++ {
					with[i] = f1
					if i%every == off {
						with[i] = f2
					}
				}
				if c.Choose(2) == 1 {
					with[len(b)] = strings.TrimSuffix(with[len(b)], "\n")
				}
				bom := []string{"", "\ufeff"}[c.Choose(2)]
				c.Step()
				expectTree(c, bom+join(b, with, " "), trees[sh])
				c.Nontrivial()
			}},
		{Name: "separators", Shards: len(base), Bound: "every choice of comma, semicolon and nothing for up to 8 separators of a document at once",
			Run: func(c *engine.Ctx, sh int) {
				b := base[sh]
				// the document with every optional separator
				var toks []string
				n := 0
				for i, t := range b {
					if lists(b, i) {
						if n++; n <= 8 {
							if s := engine.Pick(c, []string{"", ",", ";"}); s != "" {
								toks = append(toks, s)
							}
							continue
						}
					}
					toks = append(toks, t)
				}
				src := layout(toks, c.Choose(3))
				t, _ := idl.Lex([]byte(src))
				if !reflect.DeepEqual(idl.Tree(t), trees[sh]) {
					return // the next element would be read as part of the last
				}
				c.Step()
				expectTree(c, src, trees[sh])
				c.Nontrivial()
				c.StateOf(src)
			}},
		{Name: "added separators", Shards: len(base), Bound: "every place of 8 documents at which a separator changes nothing",
			Run: func(c *engine.Ctx, sh int) {
				b := base[sh]
				i := c.Choose(len(b) + 1)
				s := engine.Pick(c, []string{",", ";"})
				toks := append(append(append([]string(nil), b[:i]...), s), b[i:]...)
				if i > 0 && (b[i-1] == "," || b[i-1] == ";") || i < len(b) && (b[i] == "," || b[i] == ";") {
					return
				}
				t, _ := idl.Lex([]byte(strings.Join(toks, " ")))
				if bad, _ := idl.Check(t); bad >= 0 {
					return
				}
				c.Step()
				expectTree(c, strings.Join(toks, " "), trees[sh])
				c.Nontrivial()
				c.StateOf(sh, i, s)
			}},
		{Name: "quotes", Shards: len(base), Bound: "every literal of 8 documents in the other quotes",
			Run: func(c *engine.Ctx, sh int) {
				toks := append([]string(nil), base[sh]...)
				want := append([]string(nil), trees[sh]...)
				for i, t := range toks {
					if t[0] != '"' && t[0] != '\'' || c.Choose(2) == 0 {
						continue
					}
					q := map[byte]string{'"': "'", '\'': `"`}[t[0]]
					toks[i] = q + t[1:len(t)-1] + q
					for k := range want {
						want[k] = strings.Replace(want[k], t, toks[i], 1)
					}
				}
				c.Step()
				expectTree(c, layout(toks, c.Choose(3)), want)
				c.Nontrivial()
				c.StateOf(toks)
			}},
	}
}
