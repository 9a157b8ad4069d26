//go:build go1.23

package main

import (
	"fmt"
	gotoken "go/token"
	"reflect"
	"slices"
	"strings"

	"github.com/itstarsun/go-thrift/internal/zzverif/engine"
	"github.com/itstarsun/go-thrift/internal/zzverif/idl"
	"github.com/itstarsun/go-thrift/tools/thriftfile"
)

// parsed is what the parser makes of a document.
type parsed struct {
	file *thriftfile.File
	err  error
	tree []string
	fset *gotoken.FileSet
	tf   *gotoken.File
	at   string // line:column of the first error
}

// parseIDL runs the parser and checks what holds for every document.
func parseIDL(c *engine.Ctx, src string) (p parsed) {
	const name = "doc"
	in := []byte(src)
	p.fset = gotoken.NewFileSet()
	if len(src)%2 == 1 { // positions are those of the document among other files
		p.fset.AddFile("earlier", -1, 1000).AddLine(500)
		p.fset.AddFile("empty", -1, 0)
	}
	f, err := thriftfile.Parse(p.fset, name, in)
	p.file, p.err = f, err
	if f == nil && err == nil {
		c.Failf("%q: neither a tree nor an error", src)
	}
	if string(in) != src {
		c.Failf("%q: the parser has changed the document", src)
	}
	p.fset.Iterate(func(f *gotoken.File) bool { p.tf = f; return true })
	if p.tf == nil || p.tf.Name() != name || p.tf.Size() != len(src) {
		c.Failf("%q: the file set does not have the document", src)
	}
	if f != nil {
		p.tree = idl.Dump(f)
		for _, d := range f.Defs {
			if b, ok := d.(*thriftfile.BadDef); ok && (b.From > b.To || int(b.From) < p.tf.Base() || int(b.To) > p.tf.Base()+len(src)) {
				c.Failf("%q: the bad definition from %d to %d is not in the document", src, b.From, b.To)
			}
		}
	}
	if err != nil {
		var last [2]int
		for i, e := range eachError(err) {
			rest, ok := strings.CutPrefix(e.Error(), name+":")
			var line, col int
			if !ok || func() bool { n, _ := fmt.Sscanf(rest, "%d:%d:", &line, &col); return n != 2 }() {
				c.Failf("%q: error without position: %v", src, e)
			}
			// lines end with their line end, the last one after the last byte
			if line < 1 || line > 1+strings.Count(src, "\n") || col < 1 || col > 1+len(lineOf(src, line)) {
				c.Failf("%q: error outside of the document: %v", src, e)
			}
			if at := [2]int{line, col}; at[0] < last[0] || at[0] == last[0] && at[1] < last[1] {
				c.Failf("%q: the errors are not in the order of their positions: %v", src, eachError(err))
			} else {
				last = at
			}
			if i == 0 {
				p.at = fmt.Sprintf("%d:%d", line, col)
			}
		}
		if !strings.HasPrefix(err.Error(), name+":"+p.at+":") {
			c.Failf("%q: the first error is not at %s: %v", src, p.at, err)
		}
		all := eachError(err)
		rest := strings.TrimPrefix(err.Error(), all[0].Error())
		var n int
		if k, _ := fmt.Sscanf(rest, " (and %d more", &n); k == 1 && n != len(all)-1 || len(all) == 1 && rest != "" && err.Error() != rest {
			c.Failf("%q: %q stands for %d errors", src, err, len(all))
		}
	}
	// what was parsed does not depend on the document's bytes any more
	text := fmt.Sprint(err)
	for i := range in {
		in[i] ^= 0xa5
	}
	if f != nil && !slices.Equal(idl.Dump(f), p.tree) {
		c.Failf("%q: the tree changes together with the bytes of the document", src)
	}
	if fmt.Sprint(err) != text {
		c.Failf("%q: the error changes together with the bytes of the document", src)
	}
	return p
}

// eachError returns the errors of a list.
func eachError(err error) []error {
	if v := reflect.ValueOf(err); v.Kind() == reflect.Slice && v.Len() > 0 {
		var all []error
		for i := 0; i < v.Len(); i++ {
			e, ok := v.Index(i).Interface().(error)
			if !ok {
				return []error{err}
			}
			all = append(all, e)
		}
		return all
	}
	return []error{err}
}

func lineOf(src string, n int) string {
	lines := strings.SplitAfter(src, "\n")
	if n > len(lines) {
		return ""
	}
	if n == len(lines)-1 && lines[n] == "" { // end of file after the last line end
		return lines[n-1]
	}
	return lines[n-1]
}

// position returns line:column as package token has it.
func position(src string, off int) string {
	f := gotoken.NewFileSet().AddFile("", -1, len(src))
	f.SetLinesForContent([]byte(src))
	p := f.Position(f.Pos(off))
	return fmt.Sprintf("%d:%d", p.Line, p.Column)
}

// checkLines checks the lines entered into the file set.
func checkLines(c *engine.Ctx, src string, p parsed) {
	ref := gotoken.NewFileSet().AddFile("", -1, len(src))
	ref.SetLinesForContent([]byte(src))
	if got, want := p.tf.Lines(), ref.Lines(); len(src) > 0 && !reflect.DeepEqual(got, want) {
		c.Failf("%q: the file set has the lines %v, want %v", src, got, want)
	}
}

// checkDoc compares the parser with the model on any document. It returns
// a word on what the document is.
func checkDoc(c *engine.Ctx, src string) string {
	toks, lex := idl.Lex([]byte(src))
	p := parseIDL(c, src)
	checkLines(c, src, p)
	bad, defs := idl.Check(toks)
	for i := 1; i < len(toks) && (bad < 0 || i <= bad); i++ {
		sep := func(t idl.Tok) bool { return t.Kind == "," || t.Kind == ";" }
		if sep(toks[i-1]) && sep(toks[i]) {
			return "several separators" // left open
		}
	}
	if lex == nil && bad < 0 {
		if p.err != nil {
			c.Failf("%q: rejected: %v", src, p.err)
		}
		if want := idl.Tree(toks); !reflect.DeepEqual(p.tree, want) && len(want)+len(p.tree) > 0 {
			c.Failf("%q: the tree is\n%s\nwant\n%s", src, strings.Join(p.tree, "\n"), strings.Join(want, "\n"))
		}
		return "document"
	}
	if p.err == nil {
		c.Failf("%q: accepted, but there is an error: %s", src, whatsWrong(toks, bad, lex))
	}
	if bad >= 0 {
		if want := position(src, toks[bad].Off); p.at != want {
			c.Failf("%q: the first error is at %s, want %s (%s): %v", src, p.at, want, whatsWrong(toks, bad, lex), p.err)
		}
	} else {
		f := gotoken.NewFileSet().AddFile("", -1, len(src))
		f.SetLinesForContent([]byte(src))
		var line, col int
		if n, _ := fmt.Sscanf(p.at, "%d:%d", &line, &col); n != 2 {
			c.Failf("%q: the first error has no position: %v", src, p.err)
		}
		at := -1
		if line >= 1 && line <= f.LineCount() {
			at = f.Offset(f.LineStart(line)) + col - 1
		}
		if at < lex.Start || at > lex.At || p.at != position(src, at) {
			c.Failf("%q: the first error is at %s, want one from %s to %s (%s): %v", src, p.at, position(src, lex.Start), position(src, lex.At), lex.What, p.err)
		}
	}
	// what comes before the error is in the tree
	if p.file != nil {
		if want := complete(toks, defs); len(p.tree) < defs || !reflect.DeepEqual(p.tree[:defs:defs], want) && defs > 0 {
			c.Failf("%q: the tree is\n%s\nwant it to start with\n%s", src, strings.Join(p.tree, "\n"), strings.Join(want, "\n"))
		}
	}
	if bad >= 0 {
		return "syntax error"
	}
	return lex.What
}

// complete returns the first n headers and definitions.
func complete(toks []idl.Tok, n int) []string {
	if n == 0 {
		return nil
	}
	a := idl.New()
	end := 0
	for i, t := range toks {
		if a.Defs >= n || !a.Next(t.Kind) {
			break
		}
		end = i + 1
		if a.Defs >= n {
			end = i
		}
	}
	all := idl.Tree(append(append([]idl.Tok(nil), toks[:end]...), idl.Tok{Kind: "EOF"}))
	return all[:n]
}

func whatsWrong(toks []idl.Tok, bad int, lex *idl.LexError) string {
	if bad >= 0 {
		return fmt.Sprintf("unexpected %s %q", toks[bad].Kind, toks[bad].Text)
	}
	return lex.What
}
