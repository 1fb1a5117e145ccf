// C01, C02, C03, C04, C19: OGDL text.
package main

import (
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"testing/iotest"

	"github.com/rveen/ogdl"
	"pgregory.net/rapid"
)

// ---- layouts

type phys struct {
	ind  int
	text string
}

// lline is a logical line: one or more physical lines.
type lline struct {
	kind byte // p: plain, q: holds a multi-line quoted string, b: ends in a block, c: blank or comment
	ph   []phys
}

type layout struct {
	t     *rapid.T
	lines []lline
	plain bool // keep everything on the simplest layout
	noise bool // blank lines and comments

	forms map[*T]byte // how each node was written: w word, q quoted, b block
	used  map[string]bool
}

func newLayout(t *rapid.T) *layout {
	return &layout{t: t, forms: map[*T]byte{}, used: map[string]bool{}}
}

func linear(n *T) bool {
	for ; ; n = n.K[0] {
		if len(n.K) == 0 {
			return true
		}
		if len(n.K) > 1 {
			return false
		}
	}
}

func blockable(s string) bool {
	if s == "" || s[len(s)-1] == '\n' {
		return false
	}
	for _, l := range strings.Split(s, "\n") {
		if l != "" && (l[0] == ' ' || l[0] == '\t') {
			return false
		}
	}
	return strings.IndexByte(s, '\r') < 0
}

// quote writes s as quoted string with the quote q.
func quote(t *rapid.T, s string, q byte) string {
	var b strings.Builder
	b.WriteByte(q)
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case q == '`':
			b.WriteByte(c)
		case c == q:
			b.WriteByte('\\')
			b.WriteByte(c)
		case c == '\'' || c == '"':
			if chance(t, 4, "esc") {
				b.WriteByte('\\')
			}
			b.WriteByte(c)
		case c == '\\':
			b.WriteByte('\\')
			if i == len(s)-1 || strings.IndexByte("\\'\"", s[i+1]) >= 0 || chance(t, 4, "esc") {
				b.WriteByte('\\')
			}
		default:
			b.WriteByte(c)
		}
	}
	b.WriteByte(q)
	return b.String()
}

func (l *layout) scalar(n *T) string {
	s := string(n.C)
	w := isWord(s)
	if w && !chance(l.t, 4, "quoteword") {
		l.forms[n] = 'w'
		return s
	}
	l.forms[n] = 'q'
	q := byte('"')
	switch intn(l.t, 3, "quote") {
	case 1:
		q = '\''
	case 2:
		if strings.IndexByte(s, '`') < 0 {
			q = '`'
		}
	}
	l.used[string(q)] = true
	return quote(l.t, s, q)
}

// longLen draws a length, often next to a power of two.
func longLen(t *rapid.T, max int) int {
	if rapid.Bool().Draw(t, "edge") {
		n := 8<<uni(t, 6, "pow") - 1 + uni(t, 3, "off")
		if n > max {
			n = max
		}
		return n
	}
	return 6 + uni(t, max-5, "len")
}

func spaces(t *rapid.T, max int) string {
	n := longLen(t, max)
	if s := pick(t, "blank", " ", " ", "\t"); n > 0 {
		return strings.Repeat(s, n)
	}
	return ""
}

func (l *layout) gap() string {
	if chance(l.t, 60, "longgap") {
		return spaces(l.t, 300)
	}
	if chance(l.t, 4, "gap") {
		return pick(l.t, "gapw", "  ", "\t", " \t ", "     ")
	}
	return " "
}

func comment(t *rapid.T) string {
	c := pick(t, "comment", commentText...)
	if chance(t, 50, "long") {
		c += strings.Repeat(pick(t, "more", "c", " c", "# ", "é", "\\", "\""), 1+uni(t, 3000, "rep"))
	}
	return c
}

var commentText = []string{"# a comment", "#\tx", "# ", "# \"unclosed", "# # \\", "# a\\", "# 'x' `y` (z), é", "#  "}

func (l *layout) noiseLines(after byte, maxInd int) {
	if !l.noise {
		return
	}
	for chance(l.t, 4, "noise") {
		ind := uni(l.t, 9, "nind")
		if chance(l.t, 15, "farnoise") {
			ind = longLen(l.t, 300)
		}
		if after == 'b' && ind > maxInd {
			ind = maxInd
		}
		txt := ""
		if rapid.Bool().Draw(l.t, "iscomment") {
			txt = comment(l.t)
		}
		l.lines = append(l.lines, lline{'c', []phys{{ind, txt}}})
		l.used["noise"] = true
	}
}

// node writes the node and what is below it, starting at indentation n.
func (l *layout) node(k *T, n int) {
	var parts []string
	rest := k.K
	chain := []*T{k}
	if len(k.K) > 0 && linear(k.K[0]) && !chance(l.t, 3, "nochain") {
		for c := k.K[0]; ; c = c.K[0] {
			chain = append(chain, c)
			if len(c.K) == 0 {
				break
			}
		}
		rest = k.K[1:]
		l.used["chain"] = true
	}
	var block []string
	for i, c := range chain {
		s := string(c.C)
		if i == len(chain)-1 && len(rest) == 0 && blockable(s) && (strings.Contains(s, "\n") || chance(l.t, 6, "wblock")) && chance(l.t, 2, "block") {
			block = strings.Split(s, "\n")
			parts = append(parts, "\\")
			l.forms[c] = 'b'
			l.used["block"] = true
			break
		}
		parts = append(parts, l.scalar(c))
	}
	line := parts[0]
	for _, p := range parts[1:] {
		line += l.gap() + p
	}
	ll := lline{kind: 'p'}
	tail := ""
	if block == nil && l.noise {
		if chance(l.t, 5, "trail") {
			tail = pick(l.t, "trailw", " ", "\t", "   ")
			if chance(l.t, 12, "longtrail") {
				tail = spaces(l.t, 300)
			}
		}
		if chance(l.t, 6, "eolcomment") {
			tail += l.gap() + comment(l.t)
			l.used["eolcomment"] = true
		}
	}
	for i, p := range strings.Split(line, "\n") {
		if i > 0 {
			ll.kind = 'q'
			l.used["multiline"] = true
		}
		ll.ph = append(ll.ph, phys{n, p})
	}
	ll.ph[len(ll.ph)-1].text += tail
	if block != nil {
		kind := ll.kind
		ll.kind = 'b'
		if kind == 'q' {
			ll.kind = 'm' // both
		}
		w := 1 + intn(l.t, 4, "bind")
		for _, b := range block {
			if chance(l.t, 8, "bvar") {
				w = 1 + intn(l.t, 4, "bind")
			}
			ll.ph = append(ll.ph, phys{n + w, b})
		}
	}
	l.lines = append(l.lines, ll)
	kind := ll.kind
	if kind == 'm' {
		kind = 'b'
	}
	l.noiseLines(kind, n)
	if len(rest) > 0 {
		w := 1
		if n < 300 {
			w += intn(l.t, 4, "ind")
			if chance(l.t, 12, "bigind") {
				w += uni(l.t, 12, "ind2")
			}
		}
		for _, c := range rest {
			if w > 1 && chance(l.t, 8, "dedent") {
				w = 1 + uni(l.t, w-1, "ind3")
				l.used["dedent"] = true
			}
			l.node(c, n+w)
		}
	}
}

func (l *layout) doc(root *T) {
	l.noiseLines('p', 0)
	n := 0
	if chance(l.t, 5, "indent0") {
		n = 1 + intn(l.t, 6, "ind0")
	}
	for _, k := range root.K {
		if n > 0 && chance(l.t, 4, "dedent0") {
			n = uni(l.t, n, "ind0")
			l.used["dedent"] = true
		}
		l.node(k, n)
	}
}

// text renders the lines. eol gives the line end for a physical line.
func renderLines(lines []lline, ch string, extra int, eol func(kind byte, i, n int) string) string {
	var b strings.Builder
	for _, l := range lines {
		for i, p := range l.ph {
			ind := p.ind
			if l.kind != 'c' || p.text != "" {
				ind += extra
			}
			b.WriteString(strings.Repeat(ch, ind))
			b.WriteString(p.text)
			b.WriteString(eol(l.kind, i, len(l.ph)))
		}
	}
	return b.String()
}

func lf(byte, int, int) string { return "\n" }

func usedLabels(o *Obs, used []string) {
	for _, u := range used {
		o.Label(u)
	}
}

type textCase struct {
	Want *T       `json:"want"`
	Text S        `json:"text"`
	Used []string `json:"used,omitempty"`
}

func (l *layout) usedList() []string {
	var r []string
	for _, k := range []string{"chain", "block", "multiline", "dedent", "noise", "eolcomment", "\"", "'", "`"} {
		if l.used[k] {
			r = append(r, k)
		}
	}
	return r
}

// textContent is the content of a node in text: sometimes the empty string.
func textContent(t *rapid.T) S {
	if chance(t, 30, "empty") {
		return ""
	}
	return content(t)
}

func genText(t *rapid.T, budget int, f func(int) S) (textCase, *layout, string) {
	if f == nil {
		f = func(int) S { return textContent(t) }
	}
	tr := shape(t, budget, f)
	l := newLayout(t)
	l.noise = rapid.Bool().Draw(t, "withnoise")
	l.doc(tr)
	ch := " "
	if chance(t, 5, "tabs") {
		ch = "\t"
	}
	s := renderLines(l.lines, ch, 0, lf)
	if n := len(l.lines); n > 0 && s != "" && chance(t, 2, "noeol") {
		s = s[:len(s)-1]
	}
	return textCase{tr, S(s), l.usedList()}, l, ch
}

func init() {
	reg("C01", "layouts",
		"random trees (content: words, phrases with newlines/quotes/backslashes/hashes/Unicode) written in a random layout (indentation widths, chains, 3 quote styles, blocks, comments, blank lines, dedents); FromString/FromBytes must give exactly the tree. Non-trivial: at least 3 nodes, 2 levels and one of chain, block, quotes, comment.",
		80000, 1600000,
		func(t *rapid.T) textCase { c, _, _ := genText(t, 14, nil); return c },
		func(c textCase, o *Obs) error {
			usedLabels(o, c.Used)
			o.NonTrivial(c.Want.size() > 3 && c.Want.depth() > 2 && len(c.Used) > 0)
			if d := diff(c.Want, ogdl.FromString(string(c.Text))); d != "" {
				return fmt.Errorf("FromString: %s\ntext: %q", d, clip(string(c.Text)))
			}
			if d := diff(c.Want, ogdl.FromBytes([]byte(c.Text))); d != "" {
				return fmt.Errorf("FromBytes: %s\ntext: %q", d, clip(string(c.Text)))
			}
			return nil
		},
		[]textCase{
			{&T{K: []*T{leaf("a")}}, "a", nil},
			{&T{K: []*T{{C: "a", K: []*T{leaf("b"), leaf("c")}}, leaf("d")}}, "a b\n  c\nd", nil},
			{&T{K: []*T{{C: "a", K: []*T{leaf("x\n\ny")}}, leaf("d")}}, "a \\\n  x\n  \n  y\nd", nil},
			{&T{K: []*T{{C: "a", K: []*T{leaf("x\\y\\")}}}}, "a `x\\y\\`", nil},
		})

	reg("C01", "big",
		"as layouts, with documents of thousands of bytes and deep nesting. Non-trivial: text above 4096 bytes or more than 20 levels.",
		1600, 24000,
		func(t *rapid.T) textCase {
			c, _, _ := genText(t, 250, nil)
			return c
		},
		func(c textCase, o *Obs) error {
			usedLabels(o, c.Used)
			o.NonTrivial(len(c.Text) > 4096 || c.Want.depth() > 20)
			o.LabelIf(c.Want.depth() > 20, "deep")
			o.LabelIf(len(c.Text) > 4096, "long")
			if d := diff(c.Want, ogdl.FromString(string(c.Text))); d != "" {
				return fmt.Errorf("FromString: %s\ntext: %q", d, clip(string(c.Text)))
			}
			return nil
		}, nil)

	// ---- C02

	reg("C02", "layout-edits",
		"a random document and a second version of it with blank/white lines, comments and trailing space inserted between nodes, all lines indented uniformly, and other line ends; both must parse to the same, known tree. Non-trivial: at least two kinds of edits took place on a document with 2 or more nodes.",
		200000, 1500000, genEdits, checkEdits,
		[]editCase{
			{&T{K: []*T{{C: "a", K: []*T{leaf("b")}}, leaf("c")}}, "a\n  b\nc\n", "a\r  b\rc\r", []string{"cr"}},
			{&T{K: []*T{{C: "a", K: []*T{leaf("b")}}, leaf("c")}}, "a\n  b\nc\n", "\n   \na\n# x\n  b\n\nc\n", []string{"noise"}},
		})

	// ---- C03

	reg("C03", "delivery",
		"a random document placed at random offsets around the buffer sizes, delivered as string, bytes, file and through readers that cut it in random pieces, give empty reads, and report EOF with the last data; every way must give the known tree. Non-trivial: some reader returned short reads and the text has 2 or more nodes.",
		5000, 160000, genDelivery, checkDelivery, nil)

	reg("C03", "delivery-any",
		"arbitrary (also malformed) text below and above the buffer size through the same deliveries; all must agree with FromString. Non-trivial: text of 2048 bytes or more, or more than one read.",
		5000, 120000,
		func(t *rapid.T) anyDelivery {
			return anyDelivery{genSoup(t, 3), genCuts(t)}
		},
		func(c anyDelivery, o *Obs) error {
			o.NonTrivial(len(c.Text) >= 2048 || len(c.Cuts) > 1)
			o.LabelIf(len(c.Text) > 4096, "long")
			want := fromGraph(ogdl.FromString(string(c.Text)))
			return deliver(want, string(c.Text), c.Cuts, o)
		}, nil)

	reg("C03", "binary-delivery",
		"a random graph in binary form through readers that cut it in random pieces, from bytes and from a file; all must give the known tree. Non-trivial: more than one read.",
		6000, 160000,
		func(t *rapid.T) binDelivery {
			tr := shape(t, 20, func(int) S {
				if chance(t, 10, "big") {
					w := word(t)
					return S(strings.Repeat(w, 1+uni(t, 2000, "rep")%(1+10000/len(w))))
				}
				return content(t)
			})
			return binDelivery{tr, genCuts(t)}
		},
		func(c binDelivery, o *Obs) error {
			b := c.Tree.graph().Binary()
			o.NonTrivial(len(c.Cuts) > 1 && len(c.Tree.K) > 0)
			o.LabelIf(len(b) > 4096, "long")
			for i, r := range readers(b, c.Cuts) {
				if d := diff(c.Tree, ogdl.FromBinaryReader(r)); d != "" {
					return fmt.Errorf("FromBinaryReader (reader %d): %s", i, d)
				}
			}
			if d := diff(c.Tree, ogdl.FromBinary(b)); d != "" {
				return fmt.Errorf("FromBinary: %s", d)
			}
			f := scratchFile("c03b")
			if err := os.WriteFile(f, b, 0600); err != nil {
				panic(err)
			}
			if d := diff(c.Tree, ogdl.FromBinaryFile(f)); d != "" {
				return fmt.Errorf("FromBinaryFile: %s", d)
			}
			return nil
		}, nil)

	// ---- C04

	reg("C04", "text-roundtrip",
		"random graphs (first level: plain words; below: any printable content) emitted with Text and parsed again: same tree, and the same text when emitted again. Non-trivial: content that needs quoting below the first level.",
		200000, 1600000,
		func(t *rapid.T) *T {
			return shape(t, 14, func(l int) S {
				if l == 0 {
					return S(plainWord(t))
				}
				return content(t)
			})
		}, checkTextRoundtrip,
		[]*T{
			{C: "_", K: []*T{{C: "a", K: []*T{leaf("b c"), leaf("\"q\""), leaf("\\"), leaf("x\\"), leaf("#"), leaf("# x"), leaf("a,b"), leaf("`"), leaf("'"), leaf("\\\"")}}}},
			{C: "_", K: []*T{{C: "a", K: []*T{{C: "l1\nl2\n\n  l4", K: []*T{leaf("\n"), leaf(" "), leaf("\t")}}}}}},
		})

	reg("C04", "text-roundtrip-big",
		"as text-roundtrip with up to 400 nodes, long content and deep nesting. Non-trivial: text above 4096 bytes or more than 20 levels.",
		2500, 16000,
		func(t *rapid.T) *T {
			return shape(t, 400, func(l int) S {
				if l == 0 {
					return S(plainWord(t))
				}
				return content(t)
			})
		}, func(c *T, o *Obs) error {
			if err := checkTextRoundtrip(c, &Obs{}); err != nil {
				return err
			}
			o.NonTrivial(len(c.graph().Text()) > 4096 || c.depth() > 20)
			o.LabelIf(c.depth() > 20, "deep")
			return nil
		}, nil)

	reg("C04", "any-text-normalises",
		"random documents in random layouts (content without empty strings, first level plain words): parse, emit, parse: same tree and stable text. Non-trivial: some node of the document was written quoted, as block or chained.",
		80000, 600000,
		func(t *rapid.T) textCase {
			c, _, _ := genText(t, 14, func(l int) S {
				if l == 0 {
					return S(plainWord(t))
				}
				return content(t)
			})
			return c
		},
		func(c textCase, o *Obs) error {
			o.NonTrivial(len(c.Used) > 0)
			g := ogdl.FromString(string(c.Text))
			s := g.Text()
			if d := diff(c.Want, ogdl.FromString(s)); d != "" {
				return fmt.Errorf("after emitting: %s\ntext: %q\nemitted: %q", d, clip(string(c.Text)), clip(s))
			}
			if s2 := ogdl.FromString(s).Text(); s2 != s {
				return fmt.Errorf("text not stable: %q, then %q", clip(s), clip(s2))
			}
			return nil
		}, nil)

	// ---- C19

	reg("C19", "typed-parse",
		"random documents with numeric, boolean and look-alike content, quoted, unquoted and in blocks, parsed with FromStringTypes: same tree as FromString, with exactly the unquoted words that read as integer, float, true or false stored as int64, float64, bool. Non-trivial: at least one native value and one string that looks like one.",
		180000, 1000000, genTyped, checkTyped,
		[]typedText{
			{&N{K: []*N{{V: vs("a"), K: []*N{{V: vi(1)}, {V: vs("1")}, {V: vf(1.5)}, {V: vb(true)}, {V: vs("true")}}}}}, "a\n  1\n  '1'\n  1.5\n  true\n  \"true\"\n", nil},
		})
}

func plainWord(t *rapid.T) string {
	n := 1 + intn(t, 3, "wlen")
	s := ""
	for i := 0; i < n; i++ {
		s += pick(t, "pw", "a", "b", "c", "x1", "é", "日", "_", "-", ".", "7")
	}
	return s
}

func checkTextRoundtrip(c *T, o *Obs) error {
	special := false
	c.walk(func(n *T, l int) {
		if l > 1 && !isWord(string(n.C)) {
			special = true
		}
	})
	o.NonTrivial(special)
	o.LabelIf(c.depth() > 4, "nested")
	g := c.graph()
	s := g.Text()
	g2 := ogdl.FromString(s)
	if d := diff(c, g2); d != "" {
		return fmt.Errorf("%s\ntext: %q", d, clip(s))
	}
	if s2 := g2.Text(); s2 != s {
		return fmt.Errorf("text is not stable: %q, then %q", clip(s), clip(s2))
	}
	// with the node itself at the top
	w := &T{K: []*T{{C: "_", K: c.K}}}
	s = g.Show()
	if d := diff(w, ogdl.FromString(s)); d != "" {
		return fmt.Errorf("Show: %s\ntext: %q", d, clip(s))
	}
	for i, k := range g.Out {
		if i > 4 {
			break
		}
		w := &T{K: []*T{c.K[i]}}
		s = k.Show()
		if d := diff(w, ogdl.FromString(s)); d != "" {
			return fmt.Errorf("Show of node %d: %s\ntext: %q", i, d, clip(s))
		}
	}
	return nil
}

// ---- C02

type editCase struct {
	Want   *T       `json:"want"`
	Base   S        `json:"base"`
	Edited S        `json:"edited"`
	Edits  []string `json:"edits"`
}

func genEdits(t *rapid.T) editCase {
	c, l, ch := genText(t, 10, nil)
	var edits []string
	lines := l.lines
	if rapid.Bool().Draw(t, "addnoise") {
		var nl []lline
		ins := func(after byte, maxInd int) {
			for chance(t, 3, "ins") {
				ind := uni(t, 7, "iind")
				if after == 'b' && ind > maxInd {
					ind = maxInd
				}
				txt := ""
				if rapid.Bool().Draw(t, "iscomment") {
					txt = comment(t)
				}
				nl = append(nl, lline{'c', []phys{{ind, txt}}})
			}
		}
		ins('p', 0)
		prev, ind := byte('p'), 0
		for _, x := range lines {
			nl = append(nl, x)
			if x.kind != 'c' {
				prev, ind = x.kind, x.ph[0].ind
				if prev == 'm' {
					prev = 'b'
				}
			}
			ins(prev, ind)
		}
		if len(nl) > len(lines) {
			edits = append(edits, "noise")
		}
		lines = nl
	} else if rapid.Bool().Draw(t, "delnoise") {
		var nl []lline
		for _, x := range lines {
			if x.kind != 'c' {
				nl = append(nl, x)
			}
		}
		if len(nl) < len(lines) {
			edits = append(edits, "remove")
		}
		lines = nl
	}
	if rapid.Bool().Draw(t, "trailing") {
		var nl []lline
		some := false
		for _, x := range lines {
			y := lline{x.kind, append([]phys(nil), x.ph...)}
			if x.kind != 'b' && x.kind != 'm' && (x.kind != 'c' || x.ph[0].text != "") && chance(t, 2, "trail") {
				y.ph[len(y.ph)-1].text += pick(t, "trailw", " ", "\t", "  \t ", " # note", "\t#\tnote")
				some = true
			}
			nl = append(nl, y)
		}
		if some {
			edits = append(edits, "trailing")
		}
		lines = nl
	}
	extra := 0
	if chance(t, 3, "indentall") {
		extra = 1 + uni(t, 9, "extra")
		edits = append(edits, "indent")
	}
	mode := pick(t, "eol", "lf", "crlf", "cr", "mixed")
	if mode != "lf" {
		edits = append(edits, mode)
	}
	eol := func(kind byte, i, n int) string {
		// not inside a multi-line quoted string (there it is content)
		if kind == 'm' || (kind == 'q' && i < n-1) {
			return "\n"
		}
		switch mode {
		case "crlf":
			return "\r\n"
		case "cr":
			return "\r"
		case "mixed":
			return pick(t, "eolc", "\n", "\r\n", "\r")
		}
		return "\n"
	}
	s := renderLines(lines, ch, extra, eol)
	if chance(t, 3, "noeol") {
		s = strings.TrimRight(s, "\r\n")
		edits = append(edits, "noeol")
	}
	return editCase{c.Want, c.Text, S(s), edits}
}

func checkEdits(c editCase, o *Obs) error {
	usedLabels(o, c.Edits)
	o.NonTrivial(len(c.Edits) > 1 && c.Want.size() > 2)
	if d := diff(c.Want, ogdl.FromString(string(c.Edited))); d != "" {
		return fmt.Errorf("after edits %v: %s\ntext: %q", c.Edits, d, clip(string(c.Edited)))
	}
	// and the original
	if d := diff(c.Want, ogdl.FromString(string(c.Base))); d != "" {
		return fmt.Errorf("original: %s\ntext: %q", d, clip(string(c.Base)))
	}
	return nil
}

// ---- C03

// cuts: sizes of reads, repeated; 0 is an empty read; negative ends with EOF and data together
type deliveryCase struct {
	Want *T    `json:"want"`
	Text S     `json:"text"`
	Cuts []int `json:"cuts"`
}
type anyDelivery struct {
	Text S     `json:"text"`
	Cuts []int `json:"cuts"`
}
type binDelivery struct {
	Tree *T    `json:"tree"`
	Cuts []int `json:"cuts"`
}

func genCuts(t *rapid.T) []int {
	n := 1 + intn(t, 5, "ncuts")
	var c []int
	for i := 0; i < n; i++ {
		switch uni(t, 6, "cutkind") {
		case 0:
			c = append(c, 0)
		case 1:
			c = append(c, 1)
		case 2:
			c = append(c, 1+uni(t, 7, "cut"))
		case 3:
			c = append(c, 2040+uni(t, 16, "cut"))
		case 4:
			c = append(c, 4090+uni(t, 12, "cut"))
		case 5:
			c = append(c, 1+uni(t, 3000, "cut"))
		}
	}
	return c
}

// cutReader delivers data in pieces.
type cutReader struct {
	data    []byte
	cuts    []int
	i       int
	empty   int
	dataEOF bool
}

func (r *cutReader) Read(p []byte) (int, error) {
	if len(r.data) == 0 {
		return 0, io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := r.cuts[r.i%len(r.cuts)]
	r.i++
	if n == 0 {
		r.empty++
		if r.empty <= 20 { // never more than 20 empty reads in a row
			return 0, nil
		}
		n = 1
	}
	r.empty = 0
	n = min(n, len(p), len(r.data))
	copy(p, r.data[:n])
	r.data = r.data[n:]
	if len(r.data) == 0 && r.dataEOF {
		return n, io.EOF
	}
	return n, nil
}

func readers(b []byte, cuts []int) []io.Reader {
	return []io.Reader{
		&cutReader{data: b, cuts: cuts},
		&cutReader{data: b, cuts: cuts, dataEOF: true},
		iotest.OneByteReader(strings.NewReader(string(b))),
		iotest.DataErrReader(strings.NewReader(string(b))),
	}
}

func scratchFile(name string) string {
	d := os.Getenv("PBT_SCRATCH")
	if d == "" {
		d = os.TempDir()
	}
	return filepath.Join(d, fmt.Sprintf("%s-%d", name, os.Getpid()))
}

func deliver(want *T, s string, cuts []int, o *Obs) error {
	for i, r := range readers([]byte(s), cuts) {
		if d := diff(want, ogdl.FromReader(r)); d != "" {
			return fmt.Errorf("FromReader (reader %d): %s", i, d)
		}
	}
	if d := diff(want, ogdl.FromString(s)); d != "" {
		return fmt.Errorf("FromString: %s", d)
	}
	for i, p := range []*ogdl.Parser{ogdl.NewParser(readers([]byte(s), cuts)[0]), ogdl.NewStringParser(s), ogdl.NewBytesParser([]byte(s))} {
		p.Ogdl()
		if d := diff(want, p.Graph()); d != "" {
			return fmt.Errorf("parser %d: %s", i, d)
		}
	}
	if d := diff(want, ogdl.FromBytes([]byte(s))); d != "" {
		return fmt.Errorf("FromBytes: %s", d)
	}
	if s != "" {
		f := scratchFile("c03")
		if err := os.WriteFile(f, []byte(s), 0600); err != nil {
			panic(err)
		}
		if d := diff(want, ogdl.FromFile(f)); d != "" {
			return fmt.Errorf("FromFile: %s", d)
		}
	}
	return nil
}

func genDelivery(t *rapid.T) deliveryCase {
	c, _, _ := genText(t, 12, nil)
	s := string(c.Text)
	// shift it towards a buffer boundary with a comment (a first line, so that the tree remains)
	if k := uni(t, 4, "shift"); k > 0 {
		target := []int{0, 2048, 4096, 6144}[k] - uni(t, len(s)+3, "at") + 1
		if target > 4 {
			pad := target - 3
			s = "# " + strings.Repeat("x", pad) + "\n" + s
		}
	}
	return deliveryCase{c.Want, S(s), genCuts(t)}
}

func checkDelivery(c deliveryCase, o *Obs) error {
	short := false
	for _, k := range c.Cuts {
		if k < len(c.Text) {
			short = true
		}
	}
	o.NonTrivial(short && c.Want.size() > 2)
	o.LabelIf(len(c.Text) > 2048, "over half buffer")
	o.LabelIf(len(c.Text) > 4096, "over buffer")
	return deliver(c.Want, string(c.Text), c.Cuts, o)
}

// ---- arbitrary text

var soupBits = append(append([]string{}, textBits...), wordBits...)
var soupMore = []string{"a", "b", "\n", "\n  ", "\n\t", " ", "\r", "\r\n", "\x00", "\x01", "\x0b", "\xff", "\xc3", "\xe6\x97", "\ufeff", ".", "$", "(", ")", "{", "}", "[", "]", "$if(", "$for(", "$end", "$else", "==", "+", "-", "!", "!p", "!e", "!i", "0", "123", "\\\n", "\n    \\\n", "# c\n", "_"}

// genSoup draws arbitrary text made of significant pieces; scale lengthens it.
func genSoup(t *rapid.T, scale int) S {
	var b strings.Builder
	n := intn(t, 25, "n")
	for i := 0; i < n; i++ {
		switch uni(t, 5, "soup") {
		case 0, 1:
			b.WriteString(soupBits[uni(t, len(soupBits), "sb")])
		case 2, 3:
			b.WriteString(soupMore[uni(t, len(soupMore), "sm")])
		case 4:
			b.WriteByte(byte(uni(t, 256, "byte")))
		}
		if scale > 0 && chance(t, 30/scale, "long") {
			k := 1 + uni(t, 3000, "rep")
			p := soupBits[uni(t, len(soupBits), "sb")]
			b.WriteString(strings.Repeat(p, k))
		}
	}
	return S(b.String())
}

// ---- C19

type typedText struct {
	Want *N       `json:"want"`
	Text S        `json:"text"`
	Used []string `json:"used,omitempty"`
}

var numberish = []string{"0", "1", "-1", "+5", "42", "007", "-0", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "18446744073709551616", "1.5", "-2.25", ".5", "5.", "1e3", "1E-2", "-1.5e+10", "1e400", "true", "false", "True", "TRUE", "t", "1.2.3", "1,5", "0x1F", "1_000", "--1", "+", "-", "1-", "truefalse", "yes", "nil", "12a", "1e", "e1", "٣", "½", "0.1", "100000000000000000000.5"}

// scalarOf is the native value of an unquoted word.
func scalarOf(s string) V {
	if i, err := strconv.ParseInt(s, 10, 64); err == nil {
		return vi(i)
	}
	if f, err := strconv.ParseFloat(s, 64); err == nil {
		return vf(f)
	}
	if s == "true" {
		return vb(true)
	}
	if s == "false" {
		return vb(false)
	}
	return vs(s)
}

// specialFloat: words such as inf or nan, which ParseFloat also takes for
// numbers. Not in the domain of the check.
func specialFloat(s string) bool {
	f, err := strconv.ParseFloat(s, 64)
	return err == nil && (math.IsInf(f, 0) || math.IsNaN(f))
}

func genTyped(t *rapid.T) typedText {
	c, l, _ := genText(t, 12, func(int) S {
		if !chance(t, 3, "other") {
			s := numberish[uni(t, len(numberish), "num")]
			if chance(t, 6, "ph") {
				s += pick(t, "phs", " 1", "\n2", " ")
			}
			return S(s)
		}
		for {
			s := content(t)
			if !specialFloat(string(s)) {
				return s
			}
		}
	})
	var conv func(n *T) *N
	conv = func(n *T) *N {
		r := &N{V: vs(string(n.C))}
		if l.forms[n] == 'w' {
			r.V = scalarOf(string(n.C))
		}
		for _, k := range n.K {
			r.K = append(r.K, conv(k))
		}
		return r
	}
	w := conv(c.Want)
	w.V = vs("_")
	return typedText{w, c.Text, c.Used}
}

func checkTyped(c typedText, o *Obs) error {
	native, look := false, false
	c.Want.walk(func(n *N, l int) {
		if l == 0 {
			return
		}
		if n.V.T != "string" {
			native = true
		} else if scalarOf(string(n.V.S)).T != "string" {
			look = true
		}
	})
	o.LabelIf(native, "native")
	o.LabelIf(look, "quoted look-alike")
	o.NonTrivial(native && look)
	typed := ogdl.FromStringTypes(string(c.Text))
	plain := ogdl.FromString(string(c.Text))
	if err := typedDiff(c.Want, typed, plain, ""); err != nil {
		return err
	}
	// the same with parsers, the text coming in pieces
	n := len(c.Text)
	parser := func() *ogdl.Parser {
		return ogdl.NewParser(&cutReader{data: []byte(c.Text), cuts: []int{1 + n%3, 1 + n%7*5, 1 + n%4*n}})
	}
	tp, pp := parser(), parser()
	tp.OgdlTypes()
	pp.Ogdl()
	if err := typedDiff(c.Want, tp.Graph(), pp.Graph(), ""); err != nil {
		return fmt.Errorf("with a parser, in pieces: %v", err)
	}
	return nil
}

func typedDiff(w *N, g, p *ogdl.Graph, at string) error {
	if g == nil || p == nil {
		return fmt.Errorf("at %q: nil graph", at)
	}
	if len(g.Out) != len(w.K) {
		return fmt.Errorf("at %q: %d subnodes, want %d", at, len(g.Out), len(w.K))
	}
	if len(p.Out) != len(w.K) {
		return fmt.Errorf("plain parse at %q: %d subnodes, want %d", at, len(p.Out), len(w.K))
	}
	for i, k := range w.K {
		if x, y := val(g.Out[i].This), val(k.V.val()); x != y {
			return fmt.Errorf("at %s/%d: %s, want %s", at, i, x, y)
		}
		if k.V.T == "string" && str(p.Out[i].This) != string(k.V.S) {
			return fmt.Errorf("plain parse at %s/%d: %q, want %q", at, i, str(p.Out[i].This), k.V.S)
		}
		if err := typedDiff(k, g.Out[i], p.Out[i], fmt.Sprintf("%s/%d", at, i)); err != nil {
			return err
		}
	}
	return nil
}
