// C26: XML import.
package main

import (
	"fmt"
	"strings"
	"unicode"

	"github.com/rveen/ogdl/io/gxml"
	"pgregory.net/rapid"
)

type xmlCase struct {
	Want *T `json:"want"`
	Text S  `json:"text"`
}

// name characters and what is left of them
var xmlStart = [][2]string{
	{"a", "a"}, {"b", "b"}, {"Z", "Z"}, {"_", "_"}, {"é", "e"}, {"ñ", "n"}, {"Å", "A"}, {"ü", "u"}, {"Ç", "C"}, {"ő", "o"}, {"ž", "z"}, {"ê", "e"},
	{"ø", "ø"}, {"ß", "ß"}, {"ж", "ж"}, {"漢", "漢"}, {"e\u0301", "e"}, {"n\u0303", "n"}, {"ệ", "e"}, {"o\u0308\u0301", "o"}, {"가", "가"}, {"힣", "힣"},
}
var xmlRest = [][2]string{{"-", "_"}, {"-", "_"}, {".", "."}, {"1", "1"}, {"0", "0"}, {"_", "_"}, {"--", "__"}}

func xmlName(t *rapid.T) (name, node string) {
	if chance(t, 3, "common") {
		s := pick(t, "cname", "a", "b", "item", "x-y", "field", "id", "p")
		return s, strings.ReplaceAll(s, "-", "_")
	}
	n := 1 + uni(t, 6, "len")
	if chance(t, 300, "longname") {
		n = 200 + uni(t, 5000, "len")
	}
	var a, b strings.Builder
	for i := 0; i < n; i++ {
		l := xmlStart
		if i > 0 && chance(t, 3, "rest") {
			l = xmlRest
		}
		e := l[uni(t, len(l), "char")]
		a.WriteString(e[0])
		b.WriteString(e[1])
	}
	return a.String(), b.String()
}

type xmlWriter struct {
	t      *rapid.T
	b      strings.Builder
	budget int
	feat   map[string]bool
}

// value writes s with some of its characters as references. attr is the quote, or 0.
func (w *xmlWriter) value(s string, attr byte) {
	refs := uni(w.t, 4, "refs") // how many characters are written as references
	for _, r := range s {
		must := r == '<' || r == '&' || r == '>' || attr != 0 && (byte(r) == attr && r < 128 || r == '\n' || r == '\t') || r == '\r'
		if !must && !(refs == 0 && chance(w.t, 3, "ref")) {
			w.b.WriteRune(r)
			continue
		}
		n := map[rune]string{'<': "lt", '>': "gt", '&': "amp", '"': "quot", '\'': "apos"}[r]
		k := uni(w.t, 4, "form")
		switch {
		case k == 0:
			fmt.Fprintf(&w.b, "&#%d;", r)
		case k == 1:
			fmt.Fprintf(&w.b, "&#x%x;", r)
		case k == 2 || n == "":
			fmt.Fprintf(&w.b, "&#x%X;", r)
		default:
			w.b.WriteString("&" + n + ";")
		}
		w.feat["references"] = true
	}
}

func (w *xmlWriter) space(must bool) {
	s := pick(w.t, "sp", "", "", " ", "\n", "  ", "\t", "\n\n    ")
	if must && s == "" {
		s = " "
	}
	w.b.WriteString(s)
}

// misc writes something that leaves no trace.
func (w *xmlWriter) misc() {
	switch uni(w.t, 3, "misc") {
	case 0:
		w.b.WriteString(pick(w.t, "comment", "<!-- a comment -->", "<!---->", "<!-- <b>x</b> & ]]> -->", "<!--\n\n-->"))
	case 1:
		w.b.WriteString(pick(w.t, "pi", "<?pi?>", "<?php echo '<a>' ?>", "<?x  y='z' ?>"))
	}
	w.feat["misc"] = true
}

func xmlText(t *rapid.T) string {
	if chance(t, 3, "repeated") {
		return pick(t, "rw", "x", "x", "a", "b", "item", "field", "p", "id")
	}
	n := 1 + uni(t, 5, "words")
	if chance(t, 200, "longtext") {
		n = 200 + uni(t, 4000, "words")
	}
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, pick(t, "w", "x", "two", "<", "&", "&amp;", "]]>", "é", "漢", "\U0001f600", "\"", "'", "a=b", "-", "<b>", "@id", "#", "1.5", "{}"))
	}
	return strings.Join(l, pick(t, "join", " ", "", "\n", "\t", " \n "))
}

// element writes an element and returns its node.
func (w *xmlWriter) element(depth int) *T {
	t := w.t
	w.budget--
	name, node := xmlName(t)
	n := &T{C: S(node)}
	if chance(t, 5, "prefix") {
		name = pick(t, "pre", "ns", "x", "é", "a-b") + ":" + name
		w.feat["prefix"] = true
	}
	w.b.WriteString("<" + name)
	seen := map[string]bool{}
	first := true
	for k := uni(t, 4, "attrs"); k > 0 && depth > 0 || k > 1; k-- {
		a, _ := xmlName(t)
		if first && chance(t, 5, "idname") {
			a = pick(t, "idn", "id", "id", "name")
			if a == "name" && name == node && chance(t, 2, "isfield") && strings.HasSuffix(w.b.String(), "<"+name) {
				x := w.b.String()
				w.b.Reset()
				w.b.WriteString(x[:len(x)-len(name)] + "field")
				name, node = "field", "field"
				n.C = "field"
			}
		}
		first = false
		if chance(t, 8, "xmlns") {
			a = "xmlns"
		}
		full := a
		if chance(t, 4, "attprefix") {
			full = pick(t, "attpre", "x", "y", "xmlns", "xml") + ":" + a
			w.feat["prefix"] = true
		}
		if seen[full] {
			continue
		}
		seen[full] = true
		v := ""
		if !chance(t, 6, "empty") {
			v = xmlText(t)
			if chance(t, 3, "spaced") {
				v = " " + v + "  "
			}
		}
		w.space(true)
		w.b.WriteString(full)
		w.space(false)
		w.b.WriteString("=")
		w.space(false)
		q := byte("'\""[uni(t, 2, "q")])
		w.b.WriteByte(q)
		w.value(v, q)
		w.b.WriteByte(q)
		n.K = append(n.K, &T{C: S("@" + a), K: []*T{leaf(v)}})
		w.feat["attributes"] = true
	}
	if chance(t, 200, "many attributes") {
		for i, k := 0, 10+uni(t, 300, "attrs"); i < k; i++ {
			a, v := fmt.Sprintf("m.%d", i), pick(t, "mv", "x", "", "1")
			w.b.WriteString(" " + a + "='" + v + "'")
			n.K = append(n.K, &T{C: S("@" + a), K: []*T{leaf(v)}})
		}
	}
	w.space(false)
	if chance(t, 6, "selfclosing") {
		w.b.WriteString("/>")
		return n
	}
	w.b.WriteString(">")
	items := uni(t, 6, "items")
	if depth > 30 {
		items = 1
	}
	text := false // text was the last thing
	for ; items > 0; items-- {
		if chance(t, 300, "grown") {
			// many elements, or one deep inside
			name, node := pick(t, "gname", "i", "item", "p"), ""
			node = name
			if rapid.Bool().Draw(t, "wide") {
				for i, k := 0, 20+uni(t, 400, "children"); i < k; i++ {
					v := fmt.Sprint(i)
					w.b.WriteString("<" + name + ">" + v + "</" + name + ">")
					n.K = append(n.K, &T{C: S(node), K: []*T{leaf(v)}})
				}
			} else {
				in, k := n, 40+uni(t, 300, "levels")
				for i := 0; i < k; i++ {
					w.b.WriteString("<" + name + ">")
					x := &T{C: S(node)}
					in.K = append(in.K, x)
					in = x
				}
				in.K = append(in.K, w.element(depth+31))
				for i := 0; i < k; i++ {
					w.b.WriteString("</" + name + ">")
					if i > 0 && i%10 == 0 {
						// something after it, as it is left
						w.b.WriteString("<up/>")
						x := n
						for j := 0; j < k-1-i; j++ {
							x = x.K[len(x.K)-1]
						}
						x.K = append(x.K, &T{C: "up"})
					}
				}
			}
			text = false
			continue
		}
		switch k := uni(t, 6, "item"); {
		case k < 3 && w.budget > 0 || depth > 30 && w.budget > 0:
			w.space(false)
			n.K = append(n.K, w.element(depth+1))
			text = false
		case k < 5 && !text:
			s := strings.TrimFunc(xmlText(t), unicode.IsSpace)
			if chance(t, 4, "cdata") && !strings.Contains(s, "]]>") {
				w.b.WriteString("<![CDATA[" + pick(t, "csp", "", " ", "\n") + s + pick(t, "csp", "", " ", "\n") + "]]>")
				w.feat["cdata"] = true
				n.K = append(n.K, leaf(s))
				// (a white space after it would be a text of its own, which is blank)
			} else {
				w.space(false)
				w.value(s, 0)
				n.K = append(n.K, leaf(s))
				w.space(false)
			}
			text = true
			w.feat["text"] = true
		case k == 5 && !text:
			// blank, between markup
			w.space(false)
			w.misc()
			w.space(false)
		case k == 5:
			// between two texts
			w.b.WriteString(pick(t, "between", "<!-- c -->", "<!---->", "<?pi?>"))
			w.feat["texts around markup"] = true
			text = false
		}
	}
	if !text {
		w.space(false)
	}
	w.b.WriteString("</" + name)
	w.space(false)
	w.b.WriteString(">")
	return n
}

func genXML(t *rapid.T) xmlCase {
	w := &xmlWriter{t: t, feat: map[string]bool{}, budget: 2 + uni(t, 20, "budget")}
	depth := 0
	if chance(t, 12, "big") {
		w.budget = 300
		if rapid.Bool().Draw(t, "deep") {
			depth = 31
		}
	}
	if chance(t, 3, "decl") {
		w.b.WriteString(pick(t, "declaration", "<?xml version=\"1.0\"?>", "<?xml version='1.0' encoding='UTF-8'?>", "<?xml version=\"1.0\" encoding=\"utf-8\" standalone=\"yes\" ?>"))
	} else if chance(t, 6, "lead") {
		w.space(true)
	}
	if chance(t, 6, "doctype") {
		w.space(false)
		w.b.WriteString(pick(t, "dt", "<!DOCTYPE a>", "<!DOCTYPE a [<!ELEMENT a (#PCDATA)>]>", "<!DOCTYPE html PUBLIC \"-//x\" \"http://y/z.dtd\">"))
	}
	w.space(false)
	if chance(t, 4, "prolog") {
		w.misc()
		w.space(false)
	}
	root := &T{}
	root.K = append(root.K, w.element(depth))
	w.space(false)
	if chance(t, 6, "epilog") {
		w.misc()
		w.space(false)
	}
	return xmlCase{root, S(w.b.String())}
}

func checkXML(c xmlCase, o *Obs) error {
	attrs, text := false, false
	c.Want.walk(func(n *T, l int) {
		attrs = attrs || strings.HasPrefix(string(n.C), "@") && len(n.K) == 1
		text = text || l > 1 && len(n.K) == 0
	})
	o.NonTrivial(c.Want.size() > 4 && attrs && text)
	o.LabelIf(strings.Contains(string(c.Text), "CDATA"), "CDATA")
	o.LabelIf(strings.Contains(string(c.Text), "&"), "references")
	o.LabelIf(c.Want.depth() > 30, "deep")
	o.LabelIf(len(c.Text) > 4096, "large")
	b := []byte(c.Text)
	for pass := 0; pass < 2; pass++ {
		g := gxml.FromXML(b)
		if d := diff(c.Want, g); d != "" {
			return fmt.Errorf("import: %s", d)
		}
	}
	if string(b) != string(c.Text) {
		return fmt.Errorf("the document was modified")
	}
	return nil
}

// refSimplify: an element whose first attribute is id and that has more than it
// is named by it (unless it is a p) and left with its last part; a field whose
// first attribute is name is named by it.
func refSimplify(g *T, fields bool) {
	for _, n := range g.K {
		if len(n.K) == 0 {
			continue
		}
		switch a := n.K[0]; {
		case a.C == "@id" && len(a.K) > 0 && len(n.K) > 1:
			if n.C != "p" {
				n.C = a.K[0].C
			}
			n.K = []*T{n.K[len(n.K)-1]}
		case fields && n.C == "field" && a.C == "@name" && len(a.K) == 1:
			n.C = S(strings.ReplaceAll(string(a.K[0].C), " ", "_"))
			n.K = n.K[1:]
		}
		refSimplify(n, fields)
	}
}

func (t *T) copy() *T {
	x := &T{C: t.C}
	for _, k := range t.K {
		x.K = append(x.K, k.copy())
	}
	return x
}

func checkSimplify(c xmlCase, o *Obs) error {
	want := c.Want.copy()
	refSimplify(want, true)
	g := gxml.FromXML([]byte(c.Text))
	o.NonTrivial(equalT(c.Want, want) != "")
	gxml.Simplify(g)
	if d := diff(want, g); d != "" {
		return fmt.Errorf("simplified: %s", d)
	}
	return nil
}

func init() {
	reg("C26", "simplify",
		"the same documents, with more attributes id and name; the graph simplified is compared with the tree simplified. Non-trivial: it changes.",
		24000, 1500000, genXML, checkSimplify, nil)
	reg("C26", "import",
		"random XML documents written from random element trees: names with accents (composed and not), hyphens, other scripts and prefixes, attributes with any text, references in every form, CDATA, comments, processing instructions, declarations and document types in between, white space everywhere, long and deep documents; the imported graph is compared with the tree. Non-trivial: more than 4 nodes with an attribute and a text.",
		24000, 1500000, genXML, checkXML, nil)
}
