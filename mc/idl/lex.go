//go:build go1.23

// Package idl is a model of the Thrift IDL: a lexer, the grammar as a table
// run by a pushdown automaton, and trees as text.
package idl

import (
	"unicode"
	"unicode/utf8"
)

// A Tok is a token. Its kind is IDENT, INT, FLOAT, STRING, EOF, or the text
// of a keyword or punctuation mark.
type Tok struct {
	Kind, Text string
	Off        int
}

// A LexError is the first lexical error of a document. Its cause lies at At,
// in the token that starts at Start.
type LexError struct {
	What      string
	Start, At int
}

// Keywords lists the words that are not identifiers.
var Keywords = []string{"include", "namespace", "const", "typedef", "enum", "struct", "union", "exception", "service",
	"required", "optional", "extends", "oneway", "void", "throws", "map", "set", "list"}

// Puncts lists the punctuation marks.
var Puncts = []string{"+", "-", "*", "/", "%", "&", "|", "^", "==", "<", ">", "=", "!", "(", "[", "{", ",", ".", ")", "]", "}", ";", ":"}

var keyword, punct = map[string]bool{}, map[string]bool{}

func init() {
	for _, k := range Keywords {
		keyword[k] = true
	}
	for _, k := range Puncts {
		punct[k] = true
	}
}

func digit(b byte) bool { return b >= '0' && b <= '9' }
func hex(b byte) bool   { return digit(b) || b >= 'a' && b <= 'f' || b >= 'A' && b <= 'F' }

// number returns the length and kind of the number at the start of s.
func number(s []byte) (n int, kind string, bad string) {
	at := func(i int) byte {
		if i < len(s) {
			return s[i]
		}
		return 0
	}
	i := 0
	if at(0) == '+' || at(0) == '-' {
		i++
	}
	if !digit(at(i)) && !(at(i) == '.' && digit(at(i+1))) {
		return 0, "", ""
	}
	if at(i) == '0' && (at(i+1) == 'x' || at(i+1) == 'X') {
		i += 2
		if !hex(at(i)) {
			return i, "INT", "hexadecimal number without digits"
		}
		for hex(at(i)) {
			i++
		}
		return i, "INT", ""
	}
	kind = "INT"
	for digit(at(i)) {
		i++
	}
	if at(i) == '.' {
		kind = "FLOAT"
		i++
		for digit(at(i)) {
			i++
		}
	}
	if at(i) == 'e' || at(i) == 'E' {
		kind = "FLOAT"
		i++
		if at(i) == '+' || at(i) == '-' {
			i++
		}
		if !digit(at(i)) {
			return i, kind, "exponent without digits"
		}
		for digit(at(i)) {
			i++
		}
	}
	return i, kind, ""
}

// Lex splits a document into tokens, up to its end or first error.
func Lex(src []byte) (toks []Tok, bad *LexError) {
	// bytes that stand nowhere
	foul := len(src)
	what := ""
	for i := 0; i < len(src); {
		r, w := utf8.DecodeRune(src[i:])
		switch {
		case r == 0:
			what = "NUL"
		case r == utf8.RuneError && w == 1:
			what = "invalid UTF-8"
		case r == 0xfeff && i > 0:
			what = "byte order mark"
		}
		if what != "" {
			foul = i
			break
		}
		i += w
	}
	i := 0
	if len(src) >= 3 && string(src[:3]) == "\xef\xbb\xbf" {
		i = 3
	}
	at := func(i int) byte {
		if i < len(src) {
			return src[i]
		}
		return 0
	}
	for {
		for i < len(src) && (src[i] == ' ' || src[i] == '\t' || src[i] == '\n' || src[i] == '\r') {
			i++
		}
		start := i
		fail := func(what string, at int) ([]Tok, *LexError) { return toks, &LexError{what, start, at} }
		var kind, msg string
		switch {
		case i == len(src):
			return append(toks, Tok{"EOF", "", i}), nil
		case i == foul:
		case src[i] == '#' || src[i] == '/' && at(i+1) == '/':
			for i < foul && src[i] != '\n' {
				i++
			}
			if i == foul && foul < len(src) {
				return fail(what, foul)
			}
			continue
		case src[i] == '/' && at(i+1) == '*':
			for i += 2; i < foul && !(src[i] == '*' && at(i+1) == '/'); i++ {
			}
			if i == foul && foul < len(src) {
				return fail(what, foul)
			}
			if i >= len(src) {
				return fail("comment without end", len(src))
			}
			i += 2
			continue
		case src[i] == '"' || src[i] == '\'':
			q := src[i]
			kind = "STRING"
			for i++; i < foul && src[i] != q; i++ {
				if src[i] == '\n' {
					return fail("string without end", i)
				}
				if src[i] == '\\' {
					i++
					switch at(i) {
					case 'n', 'r', 't', '\\', '"', '\'':
					default:
						if i < foul {
							return fail("unknown escape", i)
						}
						i = foul - 1
					}
				}
			}
			if i >= foul && foul < len(src) {
				return fail(what, foul)
			}
			if i >= len(src) {
				return fail("string without end", len(src))
			}
			i++
		case func() bool { var n int; n, kind, msg = number(src[i:]); i += n; return n > 0 }():
			if msg != "" {
				return fail(msg, i)
			}
		default:
			for i < foul {
				r, w := utf8.DecodeRune(src[i:])
				if r != '_' && !unicode.IsLetter(r) && (i == start || !unicode.IsDigit(r) && r != '.') {
					break
				}
				i += w
			}
			if i > start {
				kind = "IDENT"
				if keyword[string(src[start:i])] {
					kind = string(src[start:i])
				}
				break
			}
			i++
			if at(i-1) == '=' && at(i) == '=' {
				i++
			}
			kind = string(src[start:i])
			if !punct[kind] {
				return fail("invalid character", start)
			}
		}
		if i == foul && foul < len(src) {
			return fail(what, foul) // in or right after the token
		}
		toks = append(toks, Tok{kind, string(src[start:i]), start})
	}
}

// Joined reports whether two tokens need space between them.
func Joined(a, b string) bool {
	toks, err := Lex([]byte(a + b))
	return err != nil || len(toks) != 3 || toks[0].Text != a || toks[1].Text != b
}
