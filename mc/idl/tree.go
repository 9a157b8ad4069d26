//go:build go1.23

package idl

import (
	"fmt"
	"strings"

	"github.com/itstarsun/go-thrift/tools/thriftfile"
)

// Dump returns the headers and definitions of a tree as text.
func Dump(f *thriftfile.File) []string {
	var all []string
	for _, h := range f.Headers {
		switch h := h.(type) {
		case *thriftfile.Include:
			all = append(all, "include("+str(h.Path)+")")
		case *thriftfile.Namespace:
			scope := "*"
			if h.Scope != nil {
				scope = id(h.Scope)
			}
			all = append(all, "namespace("+scope+" "+id(h.Name)+anns(h.Annotations)+")")
		default:
			all = append(all, fmt.Sprintf("%T", h))
		}
	}
	for _, d := range f.Defs {
		switch d := d.(type) {
		case *thriftfile.Const:
			all = append(all, "const("+typ(d.Type)+" "+id(d.Name)+"="+val(d.Value)+")")
		case *thriftfile.Typedef:
			all = append(all, "typedef("+typ(d.Type)+" "+id(d.Name)+anns(d.Annotations)+")")
		case *thriftfile.Enum:
			s := "enum(" + id(d.Name)
			if d.Values == nil {
				s += " no values"
			} else {
				for _, v := range d.Values.List {
					s += " " + id(v.Name)
					if v.Value != nil {
						s += "=" + num(v.Value)
					}
					s += anns(v.Annotations)
				}
			}
			all = append(all, s+";"+anns(d.Annotations)+")")
		case *thriftfile.Struct:
			s := "struct("
			if d.Union {
				s = "union("
			}
			if d.Exception {
				s += "exception("
			}
			all = append(all, s+id(d.Name)+fields(d.Fields)+anns(d.Annotations)+")")
		case *thriftfile.Service:
			s := "service(" + id(d.Name)
			if d.Extends != nil {
				s += " extends " + id(d.Extends)
			}
			if d.Methods == nil {
				s += " no methods"
			} else {
				for _, m := range d.Methods.List {
					s += "\n "
					if m.OneWay {
						s += "oneway "
					}
					if m.Void {
						s += "void "
					}
					if m.Return != nil {
						s += typ(m.Return) + " "
					}
					s += id(m.Name) + fields(m.Arguments)
					if m.Throws != nil {
						s += " throws" + fields(m.Throws)
					}
					s += anns(m.Annotations)
				}
			}
			all = append(all, s+";"+anns(d.Annotations)+")")
		default:
			all = append(all, fmt.Sprintf("%T", d))
		}
	}
	return all
}

func id(x *thriftfile.Ident) string {
	if x == nil {
		return "<no name>"
	}
	return x.Name
}

func str(x *thriftfile.String) string {
	if x == nil {
		return "<no string>"
	}
	return x.Value
}

func num(x *thriftfile.Int) string {
	if x == nil {
		return "<no number>"
	}
	return x.Value
}

func anns(x *thriftfile.AnnotationList) string {
	if x == nil {
		return ""
	}
	var s []string
	for _, a := range x.List {
		t := id(a.Name)
		if a.Value != nil {
			t += "=" + str(a.Value)
		}
		s = append(s, t)
	}
	return "@(" + strings.Join(s, ",") + ")"
}

func fields(x *thriftfile.FieldList) string {
	if x == nil {
		return "<no fields>"
	}
	s := "{"
	for _, f := range x.List {
		s += " "
		if f.ID != nil {
			s += num(f.ID) + ":"
		}
		if f.Required {
			s += "required "
		}
		if f.Optional {
			s += "optional "
		}
		s += typ(f.Type)
		if f.Reference {
			s += "&"
		}
		s += " " + id(f.Name)
		if f.Default != nil {
			s += "=" + val(f.Default)
		}
		s += anns(f.Annotations) + ";"
	}
	return s + "}"
}

func typ(x thriftfile.Type) string {
	switch x := x.(type) {
	case *thriftfile.Map:
		return "map<" + typ(x.Key) + "," + typ(x.Value) + ">" + anns(x.Annotations)
	case *thriftfile.Set:
		return "set<" + typ(x.Element) + ">" + anns(x.Annotations)
	case *thriftfile.List:
		return "list<" + typ(x.Element) + ">" + anns(x.Annotations)
	case *thriftfile.TypeRef:
		return id(x.Name) + anns(x.Annotations)
	}
	return fmt.Sprintf("%T", x)
}

func val(x thriftfile.Value) string {
	switch x := x.(type) {
	case *thriftfile.Ident:
		return id(x)
	case *thriftfile.Int:
		return "int " + num(x)
	case *thriftfile.Float:
		return "float " + x.Value
	case *thriftfile.String:
		return str(x)
	case *thriftfile.ValueList:
		s := "["
		for _, v := range x.List {
			s += val(v) + ","
		}
		return s + "]"
	case *thriftfile.KeyValuePairList:
		s := "{"
		for _, p := range x.List {
			s += val(p.Key) + ":" + val(p.Value) + ","
		}
		return s + "}"
	}
	return fmt.Sprintf("%T", x)
}

// Tree returns the headers and definitions of a document, given as tokens
// that Check accepts, in the form of Dump.
func Tree(toks []Tok) []string {
	p := &builder{toks: toks}
	var all []string
	for p.kind() != "EOF" {
		p.sb.Reset()
		switch k := p.next().Kind; k {
		case "include":
			p.put("include(", p.next().Text, ")")
		case "namespace":
			p.put("namespace(", p.next().Text, " ", p.next().Text)
			p.anns()
			p.put(")")
		case "const":
			p.put("const(")
			p.typ()
			p.put(" ", p.next().Text, p.next().Text)
			p.val()
			p.put(")")
			p.sep()
		case "typedef":
			p.put("typedef(")
			p.typ()
			p.put(" ", p.next().Text)
			p.anns()
			p.put(")")
			p.sep()
		case "enum":
			p.put("enum(", p.next().Text)
			p.next()
			for !p.got("}") {
				p.put(" ", p.next().Text)
				if p.got("=") {
					p.put("=", p.next().Text)
				}
				p.anns()
				p.sep()
			}
			p.put(";")
			p.anns()
			p.put(")")
		case "struct", "union", "exception":
			p.put(map[string]string{"struct": "struct(", "union": "union(", "exception": "struct(exception("}[k], p.next().Text)
			p.fields("}")
			p.anns()
			p.put(")")
		case "service":
			p.put("service(", p.next().Text)
			if p.got("extends") {
				p.put(" extends ", p.next().Text)
			}
			p.next()
			for !p.got("}") {
				p.put("\n ")
				if p.got("oneway") {
					p.put("oneway ")
				}
				if p.got("void") {
					p.put("void ")
				} else {
					p.typ()
					p.put(" ")
				}
				p.put(p.next().Text)
				p.fields(")")
				if p.got("throws") {
					p.put(" throws")
					p.fields(")")
				}
				p.anns()
				p.sep()
			}
			p.put(";")
			p.anns()
			p.put(")")
		}
		all = append(all, p.sb.String())
	}
	return all
}

type builder struct {
	toks []Tok
	sb   strings.Builder
}

func (p *builder) kind() string { return p.toks[0].Kind }

func (p *builder) next() Tok {
	t := p.toks[0]
	p.toks = p.toks[1:]
	return t
}

func (p *builder) put(s ...string) {
	for _, s := range s {
		p.sb.WriteString(s)
	}
}

func (p *builder) got(kind string) bool {
	if p.kind() == kind {
		p.next()
		return true
	}
	return false
}

func (p *builder) sep() {
	if !p.got(",") {
		p.got(";")
	}
}

func (p *builder) anns() {
	if !p.got("(") {
		return
	}
	p.put("@(")
	for i := 0; !p.got(")"); i++ {
		if i > 0 {
			p.put(",")
		}
		p.put(p.next().Text)
		if p.got("=") {
			p.put("=", p.next().Text)
		}
		p.sep()
	}
	p.put(")")
}

func (p *builder) fields(end string) {
	p.next()
	p.put("{")
	for !p.got(end) {
		p.put(" ")
		if p.kind() == "INT" {
			p.put(p.next().Text, p.next().Text)
		}
		if k := p.kind(); k == "required" || k == "optional" {
			p.put(p.next().Text, " ")
		}
		p.typ()
		if p.got("&") {
			p.put("&")
		}
		p.put(" ", p.next().Text)
		if p.got("=") {
			p.put("=")
			p.val()
		}
		p.anns()
		p.sep()
		p.put(";")
	}
	p.put("}")
}

func (p *builder) typ() {
	switch t := p.next(); t.Kind {
	case "map":
		p.next()
		p.put("map<")
		p.typ()
		p.next()
		p.put(",")
		p.typ()
		p.next()
		p.put(">")
	case "set", "list":
		p.next()
		p.put(t.Kind, "<")
		p.typ()
		p.next()
		p.put(">")
	default:
		p.put(t.Text)
	}
	p.anns()
}

func (p *builder) val() {
	switch t := p.next(); t.Kind {
	case "[":
		p.put("[")
		for !p.got("]") {
			p.val()
			p.sep()
			p.put(",")
		}
		p.put("]")
	case "{":
		p.put("{")
		for !p.got("}") {
			p.val()
			p.next()
			p.put(":")
			p.val()
			p.sep()
			p.put(",")
		}
		p.put("}")
	case "INT":
		p.put("int ", t.Text)
	case "FLOAT":
		p.put("float ", t.Text)
	default:
		p.put(t.Text)
	}
}
