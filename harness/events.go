// C31: token readers. C32: trees built from events. C33: HTML export.
package main

import (
	"bytes"
	"fmt"
	"io"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/rveen/ogdl"
	"pgregory.net/rapid"
)

// ---- C31

type tokCase struct {
	Data []lexPiece `json:"data"`
	Cuts []int      `json:"cuts"`
	Ops  []lexOp    `json:"ops"`
}

var tokUnits = []string{"1", "42", "007", "-5", "+3", "1.5", "-0.25", "12.", "1.2.3", "a", "word", "x_1", "été", "漢字", "٣", " ", "  ", "\t", "\t\t", "\n", "\r\n", "\r", "+", "-", "==", "&&", "<=", "!", "+=", "~^", "# a comment", "# c\n", "#x", "#", "#\tt\r\n", "$", "${a}", "$end", ",", "(", ")", "a,b", "\x00", "\xff", "é\xc3", "[", "]", ".", "'", "1a", "a1", "-a", "\U0001f600", "\U0001d7db", "\U00010400", "e\u0301", "\u2160", "\u00b2", "_", "\u0660\u0661", "\u00aa"}

const tokSoup = "\\\\\\\n\n\r\t #\"'`$a1.,;:()[]{}<>=!-+*/%&|^~@_?\x00\x01\x1f\x7f\x80\xc3\xa9\xff"

var tokOps = []string{"number", "number", "number", "integer", "integer", "operator", "operator", "operator", "token", "token", "token", "string", "stringstop", "space", "space", "spacemax", "break", "break", "whitespace", "comment", "comment", "comment", "template", "scalar", "quoted", "quoted", "end", "peek", "step"}

func genTok(t *rapid.T) tokCase {
	c := tokCase{Cuts: genCuts(t)}
	n := 0
	add := func(s string, k int) {
		if k > 0 {
			c.Data = append(c.Data, lexPiece{S(s), k})
			n += k * len(s)
		}
	}
	if chance(t, 3, "edge") {
		u := tokUnits[uni(t, len(tokUnits), "fill")]
		room := []int{2048, 4096, 6144}[uni(t, 3, "edge")] - uni(t, 14, "before")
		add(u, room/len(u))
		add("x", room%len(u))
	}
	for j := 1 + uni(t, 24, "units"); j > 0; j-- {
		if chance(t, 8, "soup") {
			// any characters, also those that mean something elsewhere
			var b []byte
			if rapid.Bool().Draw(t, "comment") {
				b = append(b, "# "...)
			}
			for k := 1 + uni(t, 6, "len"); k > 0; k-- {
				b = append(b, tokSoup[uni(t, len(tokSoup), "char")])
			}
			add(string(b), 1)
			continue
		}
		if chance(t, 6, "quoted") {
			q := pick(t, "quote", "\"", "'", "`")
			ind := strings.Repeat(" ", uni(t, 3, "ind"))
			b := q
			for k := uni(t, 6, "len"); k > 0; k-- {
				b += pick(t, "in", "a", "two words", "é", "\\\\", "\\\"", "\\'", "\\n", "\\", "\"", "'", "`", "\n"+ind, "\n"+ind, "\r\n"+ind, "\t", "#", "\xff")
			}
			add(b+q, 1)
			continue
		}
		add(tokUnits[uni(t, len(tokUnits), "unit")], 1)
	}
	data := string((&lexCase{Data: c.Data}).bytes())
	pos := 0
	for j := 2 + uni(t, 40, "nops"); j > 0; j-- {
		op := lexOp{K: tokOps[uni(t, len(tokOps), "op")], N: uni(t, 8, "n")}
		// mostly a reader that finds something here
		for k := 0; k < 4; k++ {
			cons, _, found, ok := tokWant(op, data[pos:])
			if ok && found && cons != "" || k == 3 {
				pos += len(cons)
				break
			}
			op.K = tokOps[uni(t, len(tokOps), "op")]
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func isOp(b byte) bool { return strings.IndexByte("+-*/%&|!<>=~^", b) >= 0 }

// runOf is the longest start of s whose bytes are in the class.
func runOf(s string, in func(byte) bool) string {
	k := 0
	for k < len(s) && in(s[k]) {
		k++
	}
	return s[:k]
}

func isEndByte(b byte) bool { return b < 32 && b != '\t' && b != '\n' && b != '\r' }

// quotedWant is the quoted string that s starts with. Continuation lines lose
// ind spaces.
func quotedWant(s string, ind int) (consumed, result string, found, ok bool) {
	if s == "" || strings.IndexByte("\"'`", s[0]) < 0 {
		return "", "", false, true
	}
	var b []byte
	for i := 1; i < len(s); i++ {
		switch c := s[i]; {
		case c == s[0]:
			return s[:i+1], string(b), true, true
		case isEndByte(c):
			return "", "", false, false
		case c == '\\' && s[0] != '`' && i+1 < len(s) && strings.IndexByte("\\\"'", s[i+1]) >= 0:
			i++
			b = append(b, s[i])
		case c == '\n':
			b = append(b, c)
			if !strings.HasPrefix(s[i+1:], strings.Repeat(" ", ind)) {
				return "", "", false, false // (not indented enough)
			}
			i += ind
		default:
			b = append(b, c)
		}
	}
	return "", "", false, false // (not terminated)
}

// tokWant is the reference: what is consumed and what is returned. ok is false
// where the property does not settle it.
func tokWant(op lexOp, s string) (consumed, result string, found, ok bool) {
	digit := func(b byte) bool { return b >= '0' && b <= '9' }
	switch op.K {
	case "number":
		r := s
		sign := ""
		if r != "" && (r[0] == '-' || r[0] == '+') {
			sign, r = r[:1], r[1:]
		}
		if r != "" && r[0] == '.' {
			return "", "", false, false
		}
		d := runOf(r, digit)
		if d == "" {
			return "", "", false, true
		}
		if len(d) < len(r) && r[len(d)] == '.' {
			d += "." + runOf(r[len(d)+1:], digit)
		}
		res := d
		if sign == "-" {
			res = "-" + d
		}
		return sign + d, res, true, true
	case "integer":
		d := runOf(s, digit)
		return d, d, d != "", true
	case "operator":
		d := runOf(s, isOp)
		return d, d, d != "", true
	case "token":
		k := 0
		for k < len(s) {
			r, size := utf8.DecodeRuneInString(s[k:])
			if !(unicode.IsLetter(r) || unicode.IsDigit(r) || r == '_') {
				break
			}
			k += size
		}
		return s[:k], s[:k], k > 0, true
	case "string":
		d := runOf(s, func(b byte) bool { return b > 32 })
		return d, d, d != "", true
	case "stringstop":
		d := runOf(s, func(b byte) bool { return b > 32 && b != ',' && b != ')' })
		return d, d, d != "", true
	case "space":
		d := runOf(s, func(b byte) bool { return b == ' ' || b == '\t' })
		return d, d, true, true
	case "spacemax":
		d := runOf(s, func(b byte) bool { return b == ' ' || b == '\t' })
		d = d[:min(len(d), op.N)]
		if strings.Contains(d, " ") && strings.Contains(d, "\t") {
			return "", "", false, false
		}
		return d, d, true, true
	case "break":
		for _, b := range []string{"\r\n", "\n", "\r"} {
			if strings.HasPrefix(s, b) {
				return b, "", true, true
			}
		}
		return "", "", false, true
	case "whitespace":
		d := runOf(s, func(b byte) bool { return b == ' ' || b == '\t' || b == '\n' || b == '\r' })
		return d, "", d != "", true
	case "comment":
		if len(s) < 2 || s[0] != '#' || s[1] != ' ' && s[1] != '\t' {
			return "", "", false, true
		}
		d := runOf(s, func(b byte) bool { return !isEndByte(b) && b != '\n' && b != '\r' })
		if len(d) < len(s) {
			d = s[:len(d)+1] // the end of the line is part of it
		}
		return d, "", true, true
	case "template":
		d := runOf(s, func(b byte) bool { return !isEndByte(b) && b != '$' })
		return d, d, d != "", true
	case "scalar":
		if s != "" && strings.IndexByte("\"'`", s[0]) >= 0 {
			return quotedWant(s, op.N%3)
		}
		d := runOf(s, func(b byte) bool { return b > 32 })
		return d, d, d != "", true
	case "quoted":
		return quotedWant(s, op.N%3)
	case "end":
		if s == "" {
			return "", "", true, true
		}
		if isEndByte(s[0]) {
			return s[:1], "", true, true
		}
		return "", "", false, true
	case "step":
		if s == "" {
			return "", "", false, true
		}
		return s[:1], s[:1], true, true
	}
	return "", "", false, true
}

func tokRun(c *tokCase, data string, rd io.Reader, o *Obs) error {
	lx := ogdl.NewLexer(rd)
	pos := 0
	tokens := 0
	for i, op := range c.Ops {
		rest := data[pos:]
		cons, want, found, ok := tokWant(op, rest)
		if !ok {
			continue
		}
		got, gf := "", found
		var err error
		switch op.K {
		case "number":
			got, gf = lx.Number()
		case "integer":
			got, gf = lx.Integer()
		case "operator":
			got, gf = lx.Operator()
		case "token":
			got, gf = lx.Token8()
		case "string":
			got, gf = lx.String()
		case "stringstop":
			got, gf = lx.StringStop([]byte(",)"))
		case "space", "spacemax":
			var n int
			var u byte
			if op.K == "space" {
				n, u = lx.Space()
			} else {
				n, u = lx.SpaceMax(op.N)
			}
			if n != len(want) {
				err = fmt.Errorf("%d spaces, want %d", n, len(want))
			}
			got = want
			w := byte(0)
			if !strings.Contains(want, "\t") {
				w = ' '
			} else if !strings.Contains(want, " ") {
				w = '\t'
			}
			if u != w {
				err = fmt.Errorf("the kind of space is %q, want %q", u, w)
			}
		case "break":
			gf = lx.Break()
		case "whitespace":
			gf = lx.WhiteSpace()
		case "comment":
			gf = lx.Comment()
		case "template":
			got, gf = lx.TemplateText()
		case "scalar":
			got, gf = lx.Scalar(op.N % 3)
		case "quoted":
			got, gf, err = lx.Quoted(op.N % 3)
		case "end":
			gf = lx.End()
		case "step":
			if b, e := lx.Byte(); e == nil {
				got = string([]byte{b})
			}
		}
		if err == nil && (gf != found || found && got != want) {
			err = fmt.Errorf("%q, %v, want %q, %v", clip(got), gf, clip(want), found)
		}
		if err == nil {
			pos += len(cons)
			var w byte
			if pos < len(data) {
				w = data[pos]
			}
			if b := lx.PeekByte(); b != w {
				err = fmt.Errorf("the next byte is %q, want %q", b, w)
			}
		}
		if err != nil {
			return fmt.Errorf("operation %d, %s at %q: %v", i, op.K, clip(rest), err)
		}
		if found && op.K != "step" && op.K != "end" && cons != "" {
			tokens++
			o.Label(op.K)
		}
	}
	o.NonTrivial(tokens > 2)
	for pos < len(data) {
		b, err := lx.Byte()
		if err != nil || b != data[pos] {
			return fmt.Errorf("the rest: Byte at %d of %d: %q, %v, want %q", pos, len(data), b, err, data[pos])
		}
		pos++
	}
	return nil
}

func checkTok(c tokCase, o *Obs) error {
	lc := lexCase{Data: c.Data}
	data := lc.bytes()
	rds := []io.Reader{bytes.NewReader(data)}
	if len(c.Cuts) > 0 {
		rds = append(rds, readers(data, c.Cuts)[:2]...)
	}
	for i, r := range rds {
		if err := tokRun(&c, string(data), r, o); err != nil {
			return fmt.Errorf("reader %d: %v", i, err)
		}
	}
	return nil
}

// ---- C32

type evOp struct {
	K string `json:"k"`
	V V      `json:"v"`
	L int    `json:"l,omitempty"`
}

type evCase struct {
	Parser bool   `json:"parser"` // through a Parser
	Ops    []evOp `json:"ops"`
}

// evModel follows the events: items with levels.
type evModel struct {
	cur    int
	items  []*N
	levels []int
}

func (m *evModel) last() int {
	if len(m.levels) == 0 {
		return -1
	}
	return m.levels[len(m.levels)-1]
}

func (m *evModel) apply(op evOp) {
	add := func(l int) {
		m.items = append(m.items, &N{V: op.V})
		m.levels = append(m.levels, l)
	}
	switch op.K {
	case "add", "additf", "addbytes", "emit":
		add(m.cur)
	case "addat", "addbytesat":
		add(op.L)
	case "inc":
		m.cur++
	case "dec":
		m.cur = max(0, m.cur-1)
	case "setlevel":
		m.cur = op.L
	case "delete":
		m.items = m.items[:len(m.items)-1]
		m.levels = m.levels[:len(m.levels)-1]
	}
}

func (m *evModel) tree() *N {
	root := &N{V: vs("_")}
	at := []*N{root}
	for i, x := range m.items {
		n := &N{V: x.V}
		l := m.levels[i]
		at = at[:l+1]
		at[l].K = append(at[l].K, n)
		at = append(at, n)
	}
	return root
}

func genEv(t *rapid.T) evCase {
	c := evCase{Parser: chance(t, 4, "parser")}
	m := &evModel{}
	n := 1 + uni(t, 30, "n")
	if chance(t, 40, "many") {
		n = 300
	}
	climb := 0
	if chance(t, 60, "climb") {
		climb = uni(t, n, "from") + 1
	}
	for ; n > 0; n-- {
		if n == climb {
			// to a great depth
			for k := 100 + uni(t, 300, "levels"); k > 0; k-- {
				for _, op := range []evOp{{K: "setlevel", L: m.last() + 1}, {K: "add", V: vs("x")}} {
					if op.L > 0 && m.cur == m.last() && k%3 > 0 {
						op = evOp{K: "inc"}
					}
					if c.Parser && op.K == "add" {
						op.K = "emit"
					}
					m.apply(op)
					c.Ops = append(c.Ops, op)
				}
			}
		}
		op := evOp{K: pick(t, "k", "add", "add", "add", "additf", "addbytes", "addat", "addbytesat", "inc", "inc", "inc", "dec", "setlevel", "setlevel", "delete", "tree")}
		ok := m.last() + 1 // the deepest level an item may have now
		switch op.K {
		case "add", "additf", "addbytes":
			if m.cur > ok {
				op = evOp{K: "setlevel", L: uni(t, ok+1, "l")}
			}
		case "inc":
			if m.cur > ok+2 {
				op.K = "dec"
			}
		case "setlevel", "addat", "addbytesat":
			op.L = ok
			if chance(t, 2, "up") {
				op.L = uni(t, ok+1, "l")
			}
		case "delete":
			if len(m.items) == 0 {
				op.K = "tree"
			}
		}
		if c.Parser {
			switch op.K {
			case "add":
				op.K = "emit"
			}
		}
		switch op.K {
		case "add", "addat", "emit":
			op.V = vs(string(pathContent(t)))
		case "addbytes", "addbytesat":
			op.V = V{T: "bytes", S: pathContent(t)}
		case "additf":
			op.V = anyV(t)
		}
		m.apply(op)
		c.Ops = append(c.Ops, op)
	}
	return c
}

func checkEv(c evCase, o *Obs) error {
	var p *ogdl.Parser
	e := &ogdl.SimpleEventHandler{}
	if c.Parser {
		p = ogdl.NewStringParser("")
		e = p.Handler()
		o.Label("parser")
	}
	m := &evModel{}
	for i, op := range c.Ops {
		v := op.V.val()
		switch op.K {
		case "emit":
			p.Emit(v.(string))
		case "add":
			e.Add(v.(string))
		case "additf":
			e.AddItf(v)
		case "addbytes":
			e.AddBytes(v.([]byte))
		case "addat":
			e.AddAt(v.(string), op.L)
		case "addbytesat":
			e.AddBytesAt(v.([]byte), op.L)
		case "inc":
			if p != nil {
				p.Inc()
			} else {
				e.Inc()
			}
		case "dec":
			if p != nil {
				p.Dec()
			} else {
				e.Dec()
			}
		case "setlevel":
			e.SetLevel(op.L)
		case "delete":
			e.Delete()
		case "tree":
			if d := ndiff(m.tree(), e.Tree()); d != "" {
				return fmt.Errorf("the tree after %d events: node %s", i, d)
			}
		}
		m.apply(op)
		if e.Level() != m.cur {
			return fmt.Errorf("event %d, %s: the level is %d, want %d", i, op.K, e.Level(), m.cur)
		}
	}
	want := m.tree()
	o.NonTrivial(want.size() > 4)
	g := e.Tree()
	if p != nil {
		g = p.Graph()
	}
	if d := ndiff(want, g); d != "" {
		return fmt.Errorf("the tree: node %s", d)
	}
	// Each tree is one of its own
	if g.Len() > 0 {
		g.Out[0].Add("more")
		g.Add("more")
	}
	if d := ndiff(want, e.Tree()); d != "" {
		return fmt.Errorf("the tree a second time, after the first was edited: node %s", d)
	}
	return nil
}

// ---- C33

type htmlCase struct {
	Tree *N `json:"tree"`
	Path S  `json:"path"`
}

func checkHtml(c htmlCase, o *Obs) error {
	g := c.Tree.graph()
	s := g.Html(string(c.Path))
	o.NonTrivial(c.Tree.size() > 4)
	var want []string
	var walk func(n *N, level int, path string)
	walk = func(n *N, level int, path string) {
		s := nameOf(n.V)
		path += "/" + s
		l := strings.Repeat("&nbsp;&nbsp;", level) + s
		if len(n.K) > 0 {
			l = "<a href='" + path + "'>" + l + "</a>"
			o.Label("link")
		}
		want = append(want, l+"<br>")
		for _, k := range n.K {
			walk(k, level+1, path)
		}
	}
	for _, k := range c.Tree.K {
		walk(k, 0, string(c.Path))
	}
	if w := strings.Join(want, "\n"); s != w {
		k := 0
		for k < len(s) && k < len(w) && s[k] == w[k] {
			k++
		}
		return fmt.Errorf("Html differs from byte %d: %q, want %q", k, clip(s[max(0, k-30):]), clip(w[max(0, k-30):]))
	}
	return nil
}

func init() {
	reg("C31", "tokens",
		"random sequences of the token readers of the lexer (numbers, integers, operators, tokens, words, space, line ends, comments, template text, end) over data made of tokens of every kind side by side, also laid across the edges of the buffer, whole and in pieces; result and position are compared with a reference after each, and the rest is read to the end. Non-trivial: more than two tokens found.",
		60000, 2500000, genTok, checkTok, nil)
	reg("C32", "events",
		"random histories of events (items of every kind at the current or a given level, level changes, removal of the last item) given to an event handler or a parser; the tree, at several points, and the level are compared with a model. Non-trivial: more than 4 nodes.",
		100000, 4000000, genEv, checkEv, nil)
	reg("C33", "html",
		"random graphs of words and numbers of every native type, written as HTML under a random path and compared with the lines, indentation and links that the tree prescribes. Non-trivial: more than 4 nodes.",
		60000, 2500000,
		func(t *rapid.T) htmlCase {
			tr := typedShape(t, 20, func(int) V {
				v := anyV(t)
				s := nameOf(v)
				if s == "" || strings.ContainsAny(s, " \t\n\r'\",()<>&\\`") {
					v = vs(pick(t, "w", "a", "b", "word", "é", "漢", "x-1", "a.b", "#c", "_", "_"))
				}
				return v
			})
			return htmlCase{tr, S(pick(t, "path", "", "/p", "/a/b", "http://h", "."))}
		}, checkHtml, nil)
}
