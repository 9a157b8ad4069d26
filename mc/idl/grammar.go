//go:build go1.23

package idl

import "strings"

// rules are the productions of the grammar. Words in capitals with a colon
// are not terminals here.
var rules = parseRules(`
File: Headers Defs EOF
Headers: Header Headers |
Header: include STRING | namespace Scope IDENT Anns
Scope: * | IDENT
Defs: Def Defs |
Def: const Type IDENT = Value Sep | typedef Type IDENT Anns Sep | enum IDENT { EnumValues } Anns
Def: struct IDENT { Fields } Anns | union IDENT { Fields } Anns | exception IDENT { Fields } Anns
Def: service IDENT Extends { Methods } Anns
Extends: extends IDENT |
Sep: , | ; |
Type: map < Type , Type > Anns | set < Type > Anns | list < Type > Anns | IDENT Anns
EnumValues: EnumValue Sep EnumValues |
EnumValue: IDENT EnumNumber Anns
EnumNumber: = INT |
Fields: Field Sep Fields |
Field: FieldID Presence Type Reference FieldName Default Anns
FieldID: INT : |
Presence: required | optional |
Reference: & |
FieldName: IDENT | include | namespace | const | typedef | enum | struct | union | exception | service | required | optional | extends | oneway | void | throws | map | set | list
Default: = Value |
Methods: Method Sep Methods |
Method: Oneway Result IDENT ( Fields ) Throws Anns
Oneway: oneway |
Result: void | Type
Throws: throws ( Fields ) |
Anns: ( AnnList ) |
AnnList: Ann Sep AnnList |
Ann: IDENT AnnValue
AnnValue: = STRING |
Value: IDENT | INT | FLOAT | STRING | [ Values ] | { Pairs }
Values: Value Sep Values |
Pairs: Value : Value Sep Pairs |
`)

func parseRules(s string) map[string][][]string {
	m := map[string][][]string{}
	for _, line := range strings.Split(strings.TrimSpace(s), "\n") {
		name, alts, _ := strings.Cut(line, ": ")
		for _, alt := range strings.Split(alts+" ", "| ") {
			m[name] = append(m[name], strings.Fields(alt))
		}
		if strings.HasSuffix(line, "|") {
			m[name][len(m[name])-1] = []string{}
		}
	}
	return m
}

// table gives the production for a nonterminal and the next token; the
// one of the empty string, if any, is that of the token "".
var table = func() map[string]map[string][]string {
	nullable := map[string]bool{}
	for again := true; again; {
		again = false
		for n, alts := range rules {
			for _, alt := range alts {
				all := true
				for _, s := range alt {
					all = all && nullable[s]
				}
				if all && !nullable[n] {
					nullable[n] = true
					again = true
				}
			}
		}
	}
	first := map[string]map[string]bool{}
	firstOf := func(alt []string) map[string]bool {
		f := map[string]bool{}
		for _, s := range alt {
			if rules[s] == nil {
				f[s] = true
				break
			}
			for t := range first[s] {
				f[t] = true
			}
			if !nullable[s] {
				break
			}
		}
		return f
	}
	for again := true; again; {
		again = false
		for n, alts := range rules {
			if first[n] == nil {
				first[n] = map[string]bool{}
			}
			for _, alt := range alts {
				for t := range firstOf(alt) {
					if !first[n][t] {
						first[n][t] = true
						again = true
					}
				}
			}
		}
	}
	tab := map[string]map[string][]string{}
	for n, alts := range rules {
		tab[n] = map[string][]string{}
		for _, alt := range alts {
			for t := range firstOf(alt) {
				if tab[n][t] != nil {
					panic("engine: the grammar is not LL(1): " + n + " " + t)
				}
				tab[n][t] = alt
			}
			all := true
			for _, s := range alt {
				all = all && nullable[s]
			}
			if all {
				tab[n][""] = alt
			}
		}
	}
	return tab
}()

// An Automaton reads tokens. Its states are stacks, the top of which is the
// last element.
type Automaton struct {
	Stack []string
	Defs  int // complete headers and definitions
}

// New returns an automaton at the start of a document.
func New() *Automaton { return &Automaton{Stack: []string{"File"}} }

// Clone returns a copy.
func (a *Automaton) Clone() *Automaton {
	return &Automaton{append([]string(nil), a.Stack...), a.Defs}
}

// Next reads a token and reports whether some document goes on with it.
func (a *Automaton) Next(kind string) bool {
	for len(a.Stack) > 0 {
		top := a.Stack[len(a.Stack)-1]
		a.Stack = a.Stack[:len(a.Stack)-1]
		if top == "done" {
			a.Defs++
			continue
		}
		t, ok := table[top]
		if !ok {
			return top == kind
		}
		alt, ok := t[kind]
		if !ok {
			if alt, ok = t[""]; !ok {
				return false
			}
		}
		if top == "Header" || top == "Def" {
			a.Stack = append(a.Stack, "done")
		}
		for i := len(alt) - 1; i >= 0; i-- {
			a.Stack = append(a.Stack, alt[i])
		}
	}
	return false
}

// Kinds lists the kinds of all tokens but EOF.
func Kinds() []string {
	return append(append([]string{"IDENT", "INT", "FLOAT", "STRING"}, Keywords...), Puncts...)
}

// Check returns the index of the first token no document continues with,
// and -1 if the tokens are a document; defs is the number of headers and
// definitions complete before.
func Check(toks []Tok) (bad, defs int) {
	a := New()
	for i, t := range toks {
		if !a.Next(t.Kind) {
			return i, a.Defs
		}
	}
	return -1, a.Defs
}
