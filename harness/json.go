// C22: JSON import. C23: JSON export.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"strconv"
	"strings"
	"unicode/utf16"
	"unicode/utf8"

	"github.com/rveen/ogdl"
	"pgregory.net/rapid"
)

// J is a JSON value.
type J struct {
	T string `json:"t"` // object, list, string, number, true, false, null
	S S      `json:"s,omitempty"`
	K []*J   `json:"k,omitempty"` // elements
	N []S    `json:"n,omitempty"` // keys
}

type jsonCase struct {
	Doc  *J   `json:"doc"`
	Text S    `json:"text"`
	Bad  []S  `json:"bad,omitempty"`
	Ws   bool `json:"ws,omitempty"`
}

var jsonStrings = []string{"", "a", "b", "key", "some text", "_", "é", "日本", "😀", "\"", "\\", "/", "\n", "\t\r\b\f", "\x00", "\x1f", "</script>", "&", "true", "null", "12", "-1.5", "1e5", "{", "}", "[]", ",", ":", "a.b", "!if", "#c", "'", "(x)", "\u2028", "\ufffd", "\uffff", "'a b'"}

var jsonNumbers = []string{"0", "1", "-1", "12", "-0", "1.5", "-0.25", "1e5", "1E+2", "1e-7", "2.0", "1.0", "100", "9007199254740993", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "-9223372036854775809", "123456789012345678901234567890", "1e300", "4.9e-324", "0.1", "3.14159265358979", "2147483648", "0e0", "-0.0"}

func genJ(t *rapid.T, depth int, budget *int) *J {
	*budget--
	k := uni(t, 12, "jk")
	if depth <= 0 || *budget <= 0 {
		k = 4 + uni(t, 8, "leaf")
	}
	switch {
	case k < 2:
		j := &J{T: "object"}
		seen := map[string]bool{}
		if chance(t, 60, "many") {
			for n := 8 + uni(t, 120, "keys"); n > 0; n-- {
				s := fmt.Sprint(pick(t, "start", "k", "", "K", "é"), uni(t, 400, "key"))
				if seen[s] {
					continue
				}
				seen[s] = true
				j.N = append(j.N, S(s))
				j.K = append(j.K, &J{T: "number", S: S(fmt.Sprint(n))})
			}
			return j
		}
		for n := uni(t, 6, "keys"); n > 0; n-- {
			s := jsonStrings[uni(t, len(jsonStrings), "key")]
			if chance(t, 6, "rnd") {
				s = rapid.String().Draw(t, "rkey")
			}
			if seen[s] {
				continue
			}
			seen[s] = true
			j.N = append(j.N, S(s))
			j.K = append(j.K, genJ(t, depth-1, budget))
		}
		return j
	case k < 4:
		j := &J{T: "list"}
		for n := uni(t, 6, "elems"); n > 0; n-- {
			j.K = append(j.K, genJ(t, depth-1, budget))
		}
		return j
	case k < 7:
		s := jsonStrings[uni(t, len(jsonStrings), "str")]
		if chance(t, 5, "rnd") {
			s = rapid.String().Draw(t, "rstr")
		}
		if chance(t, 60, "long") {
			s = strings.Repeat(s, 1+uni(t, 3000, "rep"))
		}
		return &J{T: "string", S: S(s)}
	case k < 10:
		s := jsonNumbers[uni(t, len(jsonNumbers), "num")]
		switch uni(t, 4, "nk") {
		case 0:
			s = strconv.FormatInt(rapid.Int64().Draw(t, "i"), 10)
		case 1:
			f := rapid.Float64().Draw(t, "f")
			if !math.IsInf(f, 0) && !math.IsNaN(f) {
				s = strconv.FormatFloat(f, pick(t, "fmt", byte('g'), byte('f'), byte('e')), -1, 64)
				s = strings.Replace(s, "e+0", "e+", 1)
			}
		}
		return &J{T: "number", S: S(s)}
	case k == 10:
		return &J{T: pick(t, "b", "true", "false")}
	}
	return &J{T: "null"}
}

// write writes the value: t chooses white space and escapes.
func (j *J) write(t *rapid.T, b *strings.Builder, ws bool) {
	sp := func() {
		if ws && chance(t, 3, "ws") {
			b.WriteString(pick(t, "sp", " ", "\n", "\t", "\r\n", "  "))
		}
	}
	sp()
	switch j.T {
	case "object":
		b.WriteByte('{')
		for i, k := range j.K {
			if i > 0 {
				b.WriteByte(',')
			}
			sp()
			jsonString(t, string(j.N[i]), b)
			sp()
			b.WriteByte(':')
			k.write(t, b, ws)
		}
		sp()
		b.WriteByte('}')
	case "list":
		b.WriteByte('[')
		for i, k := range j.K {
			if i > 0 {
				b.WriteByte(',')
			}
			k.write(t, b, ws)
		}
		sp()
		b.WriteByte(']')
	case "string":
		jsonString(t, string(j.S), b)
	case "number":
		b.WriteString(string(j.S))
	default:
		b.WriteString(j.T)
	}
	sp()
}

func jsonString(t *rapid.T, s string, b *strings.Builder) {
	esc := len(s) < 200
	b.WriteByte('"')
	for _, r := range s {
		k := 0
		if esc {
			k = uni(t, 8, "esc")
		}
		u := func() {
			for _, x := range utf16.Encode([]rune{r}) {
				f := "\\u%04x"
				if esc && k == 6 {
					f = "\\u%04X"
				}
				fmt.Fprintf(b, f, x)
			}
		}
		short := strings.IndexRune("\"\\/\b\f\n\r\t", r)
		switch {
		case k >= 6:
			u()
		case short >= 0 && (r != '/' || k == 5):
			b.WriteByte('\\')
			b.WriteByte("\"\\/bfnrt"[strings.IndexByte("\"\\/\b\f\n\r\t", byte(r))])
		case r < 32:
			u()
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
}

// jvalid reads a JSON value at i; it gives the position after it, or -1.
func jvalid(s string, i int) int {
	ws := func() {
		for i < len(s) && strings.IndexByte(" \t\r\n", s[i]) >= 0 {
			i++
		}
	}
	str := func() bool {
		if i >= len(s) || s[i] != '"' {
			return false
		}
		for i++; i < len(s); i++ {
			switch {
			case s[i] == '"':
				i++
				return true
			case s[i] < 32:
				return false
			case s[i] == '\\':
				i++
				if i >= len(s) || strings.IndexByte("\"\\/bfnrtu", s[i]) < 0 {
					return false
				}
				if s[i] == 'u' {
					for k := 1; k <= 4; k++ {
						if i+k >= len(s) || strings.IndexByte("0123456789abcdefABCDEF", s[i+k]) < 0 {
							return false
						}
					}
					i += 4
				}
			}
		}
		return false
	}
	ws()
	if i >= len(s) {
		return -1
	}
	switch c := s[i]; {
	case c == '{' || c == '[':
		i++
		ws()
		if i < len(s) && s[i] == c+2 {
			return i + 1
		}
		for {
			if c == '{' {
				ws()
				if !str() {
					return -1
				}
				ws()
				if i >= len(s) || s[i] != ':' {
					return -1
				}
				i++
			}
			if i = jvalid(s, i); i < 0 {
				return -1
			}
			ws()
			if i >= len(s) {
				return -1
			}
			i++
			switch s[i-1] {
			case ',':
			case c + 2:
				return i
			default:
				return -1
			}
		}
	case c == '"':
		if !str() {
			return -1
		}
		return i
	case c == '-' || c >= '0' && c <= '9':
		digits := func() bool {
			k := i
			for i < len(s) && s[i] >= '0' && s[i] <= '9' {
				i++
			}
			return i > k
		}
		if c == '-' {
			i++
		}
		if i < len(s) && s[i] == '0' {
			i++
		} else if !digits() {
			return -1
		}
		if i < len(s) && s[i] == '.' {
			i++
			if !digits() {
				return -1
			}
		}
		if i < len(s) && (s[i] == 'e' || s[i] == 'E') {
			i++
			if i < len(s) && (s[i] == '+' || s[i] == '-') {
				i++
			}
			if !digits() {
				return -1
			}
		}
		return i
	}
	for _, w := range []string{"true", "false", "null"} {
		if strings.HasPrefix(s[i:], w) {
			return i + len(w)
		}
	}
	return -1
}

func genJSON(t *rapid.T) jsonCase {
	budget := 40
	j := genJ(t, 1+uni(t, 6, "depth"), &budget)
	for j.T != "object" && j.T != "list" && !chance(t, 6, "scalar") {
		budget = 40
		j = genJ(t, 1+uni(t, 6, "depth"), &budget)
		if len(j.K) == 0 && j.T != "object" {
			j = &J{T: pick(t, "top", "object", "list"), K: []*J{j}}
			if j.T == "object" {
				j.N = []S{"k"}
			}
		}
	}
	if chance(t, 40, "deep") {
		for n := uni(t, 600, "deeper"); n > 0; n-- {
			j = &J{T: "list", K: []*J{j}}
			if n%3 == 0 {
				j = &J{T: "object", K: j.K, N: []S{"d"}}
			}
		}
	}
	var b strings.Builder
	ws := rapid.Bool().Draw(t, "layout")
	j.write(t, &b, ws)
	c := jsonCase{Doc: j, Text: S(b.String())}
	// damaged forms
	s := b.String()
	if j.T == "object" || j.T == "list" || j.T == "string" {
		for n := 3; n > 0; n-- {
			bad := s
			switch uni(t, 5, "damage") {
			case 0, 1:
				bad = s[:uni(t, len(s), "cut")]
			case 2:
				i := uni(t, len(s), "at")
				bad = s[:i] + s[i+1:]
			case 3:
				i := uni(t, len(s), "at")
				bad = s[:i] + pick(t, "junk", ",", ":", "x", "\"", "}", "]", "{", "[", "\\", "\n", "0", "-", "'") + s[i:]
			case 4:
				i := uni(t, len(s), "at")
				bad = s[:i] + pick(t, "junk", ",", ":", "x", "\"", "}", "]", "{", "[") + s[i+1:]
			}
			if jvalid(bad, 0) < 0 {
				c.Bad = append(c.Bad, S(bad))
			}
		}
	}
	return c
}

// jmatch compares the subnodes of g with those that the value gives.
func jmatch(j *J, top bool, g []*ogdl.Graph, at string) error {
	switch j.T {
	case "null":
		return nil // says nothing
	case "list":
		if len(g) != len(j.K) {
			return fmt.Errorf("%s: %d elements, want %d", at, len(g), len(j.K))
		}
		for i, k := range j.K {
			if g[i] == nil || str(g[i].This) != "_" {
				return fmt.Errorf("%s[%d]: element is not under a \"_\" node", at, i)
			}
			if err := jmatch(k, false, g[i].Out, fmt.Sprintf("%s[%d]", at, i)); err != nil {
				return err
			}
		}
		return nil
	case "object":
		if !top {
			if len(g) != 1 || g[0] == nil || str(g[0].This) != "_" {
				return fmt.Errorf("%s: no single \"_\" node holding the object", at)
			}
			g = g[0].Out
		}
		if len(g) != len(j.K) {
			return fmt.Errorf("%s: %d keys, want %d", at, len(g), len(j.K))
		}
		for i, k := range j.K {
			var n *ogdl.Graph
			for _, x := range g {
				if s, ok := x.This.(string); ok && s == string(j.N[i]) {
					if n != nil {
						return fmt.Errorf("%s: key %q twice", at, s)
					}
					n = x
				}
			}
			if n == nil {
				return fmt.Errorf("%s: key %q is missing", at, clip(string(j.N[i])))
			}
			if err := jmatch(k, false, n.Out, at+"."+clip(string(j.N[i]))); err != nil {
				return err
			}
		}
		return nil
	}
	if len(g) != 1 || g[0] == nil || g[0].Len() != 0 {
		return fmt.Errorf("%s: %d subnodes, want a single value", at, len(g))
	}
	return jscalar(j, g[0].This, at)
}

func jscalar(j *J, x interface{}, at string) error {
	var want interface{}
	switch j.T {
	case "null":
		return nil
	case "string":
		want = string(j.S)
	case "true", "false":
		want = j.T == "true"
	case "number":
		i, err := strconv.ParseInt(string(j.S), 10, 64)
		f, ferr := strconv.ParseFloat(string(j.S), 64)
		switch {
		case err == nil:
			want = i
		case ferr == nil:
			want = f
		default:
			return nil
		}
	}
	if val(x) != val(want) {
		return fmt.Errorf("%s: %s, want %s", at, clip(val(x)), clip(val(want)))
	}
	return nil
}

func (j *J) size() int {
	n := 1
	for _, k := range j.K {
		n += k.size()
	}
	return n
}

func checkJSONImport(c jsonCase, o *Obs) error {
	first := ""
	for i := 0; i < 3; i++ {
		buf := []byte(c.Text)
		g, err := ogdl.FromJSON(buf)
		if err != nil {
			return fmt.Errorf("error for a valid document: %v\n%s", err, clip(string(c.Text)))
		}
		if string(buf) != string(c.Text) {
			return fmt.Errorf("the document was changed")
		}
		for k := range buf {
			buf[k] = 'X' // the graph does not depend on it
		}
		d := dump(g)
		if i == 0 {
			first = d
			switch c.Doc.T {
			case "object", "list":
				if g == nil {
					return fmt.Errorf("no graph and no error")
				}
				err = jmatch(c.Doc, true, g.Out, "")
			case "null":
			default:
				if g == nil || g.Len() != 0 {
					return fmt.Errorf("not a single value: %s", dump(g))
				}
				err = jscalar(c.Doc, g.This, "")
			}
			if err != nil {
				return fmt.Errorf("%v\n%s", err, clip(string(c.Text)))
			}
		} else if d != first {
			return fmt.Errorf("importing the same document again gives another graph:\n%s\n%s", clip(d), clip(first))
		}
	}
	o.NonTrivial(c.Doc.size() > 2)
	o.Label(c.Doc.T)
	o.LabelIf(c.Doc.size() > 15, "large")
	for _, s := range c.Bad {
		o.Label("damaged")
		g, err := ogdl.FromJSON([]byte(s))
		if err == nil {
			return fmt.Errorf("no error for the malformed document %q", clip(string(s)))
		}
		if g != nil {
			return fmt.Errorf("an error (%v) and a graph for the malformed document %q", err, clip(string(s)))
		}
	}
	return nil
}

// ---- export

type exportCase struct {
	Graph *N `json:"graph"`
}

var jsonV = func(t *rapid.T, l int) V {
	switch uni(t, 12, "jv") {
	case 0:
		return vf(rapid.Float64().Draw(t, "f"))
	case 1:
		return vi(rapid.Int64().Draw(t, "i"))
	case 2, 3:
		return vs("_")
	case 4:
		return vs(jsonStrings[uni(t, len(jsonStrings), "s")])
	case 5:
		if chance(t, 4, "bad") {
			return vs("x\xffy")
		}
		return vs(rapid.String().Draw(t, "s"))
	case 6:
		if chance(t, 5, "nil") {
			return V{T: "nil"}
		}
	case 7:
		if chance(t, 3, "odd") {
			return pick(t, "oddnum", vf(math.Inf(1)), vf(math.NaN()), vf(math.Inf(-1)), vf(math.Copysign(0, -1)), vf(1e21), vf(5e-324), V{T: "uint64", I: -1}, V{T: "uint", I: math.MinInt64}, V{T: "float32", F: math.Float64bits(float64(float32(0.1)))}, V{T: "bytes", S: "\x00\xff"})
		}
	}
	return anyV(t)
}

func genExport(t *rapid.T) exportCase {
	n := 14
	if chance(t, 20, "big") {
		n = 200
	}
	g := typedShape(t, n, func(l int) V { return jsonV(t, l) })
	if chance(t, 3, "root") {
		g.V = jsonV(t, 0)
	}
	return exportCase{g}
}

// jf is a node of the forest that a JSON document stands for: lists are transparent.
type jf struct {
	tok  interface{} // string, json.Number, bool or nil
	kids []jf
}

func jforest(d *json.Decoder) ([]jf, error) {
	tok, err := d.Token()
	if err != nil {
		return nil, err
	}
	switch x := tok.(type) {
	case json.Delim:
		var r []jf
		for d.More() {
			if x == '{' {
				k, err := d.Token()
				if err != nil {
					return nil, err
				}
				kids, err := jforest(d)
				if err != nil {
					return nil, err
				}
				r = append(r, jf{k, kids})
				continue
			}
			e, err := jforest(d)
			if err != nil {
				return nil, err
			}
			r = append(r, e...)
		}
		_, err := d.Token()
		return r, err
	}
	return []jf{{tok: tok}}, nil
}

// gforest: the nodes of the graph, where "_" nodes with subnodes are lists.
func gforest(ns []*N) (r []*N) {
	for _, n := range ns {
		if len(n.K) > 0 && nameOf(n.V) == "_" {
			r = append(r, gforest(n.K)...)
			continue
		}
		r = append(r, n)
	}
	return
}

func jsame(want []*N, got []jf, at string) error {
	for i, n := range want {
		if i >= len(got) {
			return fmt.Errorf("%s: %s is missing", at, clip(val(n.V.val())))
		}
		if !jtoken(n.V, got[i].tok) {
			return fmt.Errorf("%s: %v, want %s", at, clip(fmt.Sprintf("%#v", got[i].tok)), clip(val(n.V.val())))
		}
		if err := jsame(gforest(n.K), got[i].kids, fmt.Sprintf("%s/%d", at, i)); err != nil {
			return err
		}
	}
	if len(got) > len(want) {
		return fmt.Errorf("%s: extra %v", at, got[len(want)].tok)
	}
	return nil
}

// jtoken: does the token carry the value?
func jtoken(v V, tok interface{}) bool {
	text, num := "", false
	switch x := tok.(type) {
	case string:
		text = x
	case json.Number:
		text, num = x.String(), true
	case bool:
		text = fmt.Sprint(x)
	case nil:
		return v.T == "nil" || v.T == ""
	}
	switch v.T {
	case "nil", "":
		return text == ""
	case "string", "bytes":
		s := string(v.S)
		if !utf8.ValidString(s) {
			return !num // (JSON cannot hold it)
		}
		return text == s && !num
	case "bool":
		return text == fmt.Sprint(v.B)
	case "float64", "float32":
		f := v.f()
		if v.T == "float32" {
			f = float64(float32(f))
		}
		if math.IsNaN(f) || math.IsInf(f, 0) {
			return text == fmt.Sprint(v.val())
		}
		g, err := strconv.ParseFloat(text, 64)
		if v.T == "float32" && float32(g) == float32(f) {
			return err == nil
		}
		return err == nil && g == f
	}
	return text == fmt.Sprint(v.val())
}

func checkJSONExport(c exportCase, o *Obs) error {
	g := c.Graph.graph()
	before := dump(g)
	b := g.JSON()
	o.NonTrivial(c.Graph.size() > 3)
	if !json.Valid(b) {
		return fmt.Errorf("not valid JSON: %s\n%s", clip(string(b)), clip(g.Show()))
	}
	if len(c.Graph.K) > 0 {
		d := json.NewDecoder(bytes.NewReader(b))
		d.UseNumber()
		f, err := jforest(d)
		if err != nil {
			return fmt.Errorf("%v: %s", err, clip(string(b)))
		}
		if err := jsame(gforest(c.Graph.K), f, ""); err != nil {
			return fmt.Errorf("%v\n%s\n%s", err, clip(string(b)), clip(g.Show()))
		}
	}
	o.LabelIf(bytes.IndexByte(b, '{') >= 0, "object")
	o.LabelIf(bytes.IndexByte(b, '[') >= 0, "list")
	o.LabelIf(len(c.Graph.K) == 0, "leaf")
	if dump(g) != before {
		return fmt.Errorf("exporting changed the graph")
	}
	if b2 := g.JSON(); !bytes.Equal(b, b2) {
		return fmt.Errorf("exporting again gives another document")
	}
	return nil
}

// ---- import after export: the text of every node survives both

func checkJSONBoth(c jsonCase, o *Obs) error {
	g, err := ogdl.FromJSON([]byte(c.Text))
	if err != nil {
		return fmt.Errorf("error for a valid document: %v", err)
	}
	o.NonTrivial(c.Doc.size() > 2)
	if g == nil || g.Len() == 0 {
		return nil
	}
	b := g.JSON()
	if !json.Valid(b) {
		return fmt.Errorf("export of the imported document is not valid JSON: %s", clip(string(b)))
	}
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	f, err := jforest(d)
	if err != nil {
		return err
	}
	var want []string
	var walk func(g *ogdl.Graph)
	walk = func(g *ogdl.Graph) {
		for _, n := range g.Out {
			if !(n.Len() > 0 && n.ThisString() == "_") {
				want = append(want, n.ThisString())
			}
			walk(n)
		}
	}
	walk(g)
	var got []string
	var count func(f []jf)
	count = func(f []jf) {
		for _, x := range f {
			s := fmt.Sprint(x.tok)
			if n, ok := x.tok.(json.Number); ok {
				if f, err := n.Float64(); err == nil && strings.ContainsAny(s, ".eE") {
					s = fmt.Sprint(f)
				}
			}
			got = append(got, s)
			count(x.kids)
		}
	}
	count(f)
	if strings.Join(got, "\x01") != strings.Join(want, "\x01") {
		return fmt.Errorf("the export of the imported document holds %q, want %q", clip(fmt.Sprint(got)), clip(fmt.Sprint(want)))
	}
	return nil
}

func init() {
	reg("C22", "import",
		"random JSON documents (nested objects and lists, any strings with any escapes, integers to the limits of 64 bits and beyond, floats, white space) imported three times and compared with the reference structure, types included; each also damaged (cut, characters removed, inserted or replaced; judged malformed by an independent reader). Non-trivial: more than 2 values.",
		144000, 1500000, genJSON, checkJSONImport, nil)
	reg("C23", "export",
		"random graphs with content of any type, with \"_\" nodes, empty and special strings, up to 200 nodes; the document is valid and its keys and values, with lists taken as transparent, are exactly the graph's nodes in order and at their place. Non-trivial: more than 3 nodes.",
		280000, 2500000, genExport, checkJSONExport, nil)
	reg("C23", "reexport",
		"random JSON documents are imported and exported again: valid JSON with every node of the graph, in order. Non-trivial: more than 2 values.",
		84000, 600000, genJSON, checkJSONBoth, nil)
}
