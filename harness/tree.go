// Trees as plain data (JSON-safe, so that a case is its own replay file), their
// generators, and comparison with graphs.
package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"math"
	"math/rand/v2"
	"strings"
	"unicode/utf8"

	"github.com/rveen/ogdl"
	"pgregory.net/rapid"
)

func quietLogs() { log.SetOutput(io.Discard) }

// S is a string of arbitrary bytes that survives JSON.
type S string

func (s S) MarshalJSON() ([]byte, error) {
	if utf8.ValidString(string(s)) {
		var b bytes.Buffer
		e := json.NewEncoder(&b)
		e.SetEscapeHTML(false)
		err := e.Encode(string(s))
		return bytes.TrimRight(b.Bytes(), "\n"), err
	}
	return json.Marshal(map[string]string{"b64": base64.StdEncoding.EncodeToString([]byte(s))})
}

func (s *S) UnmarshalJSON(b []byte) error {
	if len(b) > 0 && b[0] == '{' {
		var m map[string]string
		if err := json.Unmarshal(b, &m); err != nil {
			return err
		}
		d, err := base64.StdEncoding.DecodeString(m["b64"])
		*s = S(d)
		return err
	}
	var x string
	err := json.Unmarshal(b, &x)
	*s = S(x)
	return err
}

// T is a tree of text. The root's content is not significant.
type T struct {
	C S    `json:"c"`
	K []*T `json:"k,omitempty"`
}

func leaf(s string) *T { return &T{C: S(s)} }

// graph converts the tree to a graph with string content.
func (t *T) graph() *ogdl.Graph {
	g := ogdl.New(string(t.C))
	for _, k := range t.K {
		g.Out = append(g.Out, k.graph())
	}
	return g
}

func (t *T) clone() *T {
	c := &T{C: t.C}
	for _, k := range t.K {
		c.K = append(c.K, k.clone())
	}
	return c
}

func (t *T) size() int {
	n := 1
	for _, k := range t.K {
		n += k.size()
	}
	return n
}

func (t *T) depth() int {
	n := 0
	for _, k := range t.K {
		if d := k.depth(); d > n {
			n = d
		}
	}
	return n + 1
}

func (t *T) walk(f func(n *T, level int)) { t.walk1(f, 0) }
func (t *T) walk1(f func(n *T, level int), l int) {
	f(t, l)
	for _, k := range t.K {
		k.walk1(f, l+1)
	}
}

func (t *T) equal(u *T) bool {
	if t.C != u.C || len(t.K) != len(u.K) {
		return false
	}
	for i := range t.K {
		if !t.K[i].equal(u.K[i]) {
			return false
		}
	}
	return true
}

// text content of a graph node, whatever its type
func str(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return ""
	case string:
		return x
	case []byte:
		return string(x)
	}
	return fmt.Sprint(v)
}

// diff compares the subnodes of a graph with those of the tree (text content).
// It returns "" if they are the same.
func diff(want *T, got *ogdl.Graph) string {
	msg, path := diffAt(want, got)
	if msg == "" {
		return ""
	}
	var b strings.Builder
	for i := len(path) - 1; i >= 0; i-- {
		if len(path)-i > 40 {
			b.WriteString("/…")
			break
		}
		fmt.Fprintf(&b, "/%d", path[i])
	}
	return fmt.Sprintf("at %q: %s", b.String(), msg)
}

func diffAt(want *T, got *ogdl.Graph) (string, []int) {
	if got == nil {
		return "nil graph", nil
	}
	for i, k := range want.K {
		if i >= len(got.Out) {
			return fmt.Sprintf("%d subnodes, want %d; missing %q", len(got.Out), len(want.K), clip(string(k.C))), nil
		}
		n := got.Out[i]
		if n == nil {
			return fmt.Sprintf("subnode %d is nil", i), nil
		}
		if _, isg := n.This.(*ogdl.Graph); isg {
			return "content is a graph", []int{i}
		}
		if s := str(n.This); s != string(k.C) {
			return fmt.Sprintf("content %q, want %q", clip(s), clip(string(k.C))), []int{i}
		}
		if d, p := diffAt(k, n); d != "" {
			return d, append(p, i)
		}
	}
	if len(got.Out) > len(want.K) {
		n := got.Out[len(want.K)]
		s := "<nil>"
		if n != nil {
			s = str(n.This)
		}
		return fmt.Sprintf("%d subnodes, want %d; extra %q", len(got.Out), len(want.K), clip(s)), nil
	}
	return "", nil
}

// ndiff compares the subnodes of a graph with those of a typed tree, types included.
func ndiff(want *N, got *ogdl.Graph) string {
	if got == nil {
		return "nil graph"
	}
	for i, k := range want.K {
		if i >= len(got.Out) {
			return fmt.Sprintf(": %d subnodes, want %d; missing %s", len(got.Out), len(want.K), clip(val(k.V.val())))
		}
		n := got.Out[i]
		if n == nil {
			return fmt.Sprintf("/%d: nil node", i)
		}
		if x, y := val(n.This), val(k.V.val()); x != y {
			return fmt.Sprintf("/%d: content %s, want %s", i, clip(x), clip(y))
		}
		if d := ndiff(k, n); d != "" {
			return fmt.Sprintf("/%d%s", i, d)
		}
	}
	if len(got.Out) > len(want.K) {
		x := "<nil>"
		if n := got.Out[len(want.K)]; n != nil {
			x = val(n.This)
		}
		return fmt.Sprintf(": %d subnodes, want %d; extra %s", len(got.Out), len(want.K), clip(x))
	}
	return ""
}

func clip(s string) string {
	if len(s) > 160 {
		return s[:80] + "…" + s[len(s)-60:]
	}
	return s
}

// fromGraph converts a graph with text content (bounded, in case of cycles).
func fromGraph(g *ogdl.Graph) *T {
	n := 0
	return fromGraph1(g, &n)
}

func fromGraph1(g *ogdl.Graph, n *int) *T {
	*n++
	if *n > 2000000 {
		panic("graph has too many nodes (a cycle?)")
	}
	if g == nil {
		return &T{C: "<nil>"}
	}
	t := &T{C: S(str(g.This))}
	for _, k := range g.Out {
		t.K = append(t.K, fromGraph1(k, n))
	}
	return t
}

// dump writes a graph exactly: content with its type, structure, nil nodes.
func dump(g *ogdl.Graph) string {
	var b strings.Builder
	dump1(g, &b, 0)
	return b.String()
}

func dump1(g *ogdl.Graph, b *strings.Builder, l int) {
	if l > 100000 || b.Len() > 64<<20 {
		panic("graph too deep or too large (a cycle?)")
	}
	if g == nil {
		b.WriteString("<nil>\n")
		return
	}
	fmt.Fprintf(b, "%d:%s", l, val(g.This))
	if g.Out != nil && len(g.Out) == 0 {
		b.WriteString("[]")
	}
	b.WriteByte('\n')
	for _, k := range g.Out {
		dump1(k, b, l+1)
	}
}

// val formats a value with its type.
func val(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case string:
		return fmt.Sprintf("string %q", x)
	case []byte:
		return fmt.Sprintf("bytes %q", x)
	case float64:
		return fmt.Sprintf("float64 %x (%v)", math.Float64bits(x), x)
	case float32:
		return fmt.Sprintf("float32 %x (%v)", math.Float32bits(x), x)
	case *ogdl.Graph:
		if x == nil {
			return "*Graph nil"
		}
		return "*Graph{\n" + dump(x) + "}"
	}
	return fmt.Sprintf("%T %v", v, v)
}

// ---- typed content

// V is a value of a native type.
type V struct {
	T string `json:"t"`
	S S      `json:"s,omitempty"`
	I int64  `json:"i,omitempty"`
	F uint64 `json:"f,omitempty"` // bits
	B bool   `json:"b,omitempty"`
}

func vs(s string) V    { return V{T: "string", S: S(s)} }
func vi(i int64) V     { return V{T: "int64", I: i} }
func vf(f float64) V   { return V{T: "float64", F: math.Float64bits(f)} }
func vb(b bool) V      { return V{T: "bool", B: b} }
func (v V) f() float64 { return math.Float64frombits(v.F) }

func (v V) val() interface{} {
	switch v.T {
	case "nil", "":
		return nil
	case "string":
		return string(v.S)
	case "bytes":
		return []byte(v.S)
	case "int":
		return int(v.I)
	case "int8":
		return int8(v.I)
	case "int16":
		return int16(v.I)
	case "int32":
		return int32(v.I)
	case "int64":
		return v.I
	case "uint":
		return uint(v.I)
	case "uint8":
		return uint8(v.I)
	case "uint16":
		return uint16(v.I)
	case "uint32":
		return uint32(v.I)
	case "uint64":
		return uint64(v.I)
	case "float32":
		return float32(v.f())
	case "float64":
		return v.f()
	case "bool":
		return v.B
	}
	panic("unknown type " + v.T)
}

// N is a tree with typed content.
type N struct {
	V V    `json:"v"`
	K []*N `json:"k,omitempty"`
}

// graph builds the graph. The lists of subnodes have room for more, as those
// built with Add have.
func (n *N) graph() *ogdl.Graph {
	g := ogdl.New(n.V.val())
	if len(n.K) > 0 {
		g.Out = make([]*ogdl.Graph, 0, len(n.K)+2)
	}
	for _, k := range n.K {
		g.Out = append(g.Out, k.graph())
	}
	return g
}

func (n *N) size() int {
	c := 1
	for _, k := range n.K {
		c += k.size()
	}
	return c
}

func (n *N) walk(f func(n *N, level int)) { n.walk1(f, 0) }
func (n *N) walk1(f func(n *N, level int), l int) {
	f(n, l)
	for _, k := range n.K {
		k.walk1(f, l+1)
	}
}

func (n *N) clone() *N {
	c := &N{V: n.V}
	for _, k := range n.K {
		c.K = append(c.K, k.clone())
	}
	return c
}

// ---- drawing helpers

func pick[X any](t *rapid.T, label string, xs ...X) X {
	return rapid.SampledFrom(xs).Draw(t, label)
}

func intn(t *rapid.T, n int, label string) int { return rapid.IntRange(0, n-1).Draw(t, label) }

// chance is true with probability of about 1/n (false is the simple case).
func chance(t *rapid.T, n int, label string) bool {
	return rapid.IntRange(0, n-1).Draw(t, label) == n-1
}

// uniform integer without rapid's bias to small values
var u8 = rapid.SampledFrom(func() []int {
	a := make([]int, 256)
	for i := range a {
		a[i] = i
	}
	return a
}())

func uni(t *rapid.T, n int, label string) int {
	if n <= 1 {
		return 0
	}
	if n <= 256 {
		return u8.Draw(t, label) % n
	}
	return (u8.Draw(t, label)<<16 | u8.Draw(t, label)<<8 | u8.Draw(t, label)) % n
}

// shape draws a tree: budget nodes, content from f(level). deep prefers nesting.
func shape(t *rapid.T, budget int, f func(level int) S) *T {
	root := &T{C: "_"}
	stack := []*T{root}
	n := uni(t, budget+1, "nodes")
	style := intn(t, 4, "style") // 0,1: mixed; 2: deep; 3: wide
	for i := 0; i < n; i++ {
		// where to attach: at the last node or one of its ancestors
		up := 0
		switch style {
		case 0, 1:
			up = uni(t, len(stack), "up")
			if len(stack) > 4 && up == 0 {
				up = uni(t, len(stack), "up2")
			}
		case 2:
			if len(stack) > 1 && chance(t, 5, "pop") {
				up = 1 + uni(t, len(stack)-1, "up")
			}
		case 3:
			up = len(stack) - 1 - uni(t, min(len(stack), 2), "up")
		}
		stack = stack[:len(stack)-up]
		p := stack[len(stack)-1]
		k := &T{C: f(len(stack) - 1)}
		p.K = append(p.K, k)
		stack = append(stack, k)
	}
	if chance(t, 100, "grow") {
		grow(t, root, f)
	}
	return root
}

// grow makes a node of the tree wide, or a branch of it deep.
func grow(t *rapid.T, root *T, f func(level int) S) {
	at, level := root, 0
	for len(at.K) > 0 && chance(t, 2, "down") {
		at = at.K[uni(t, len(at.K), "kid")]
		level++
	}
	m := 9 + uni(t, 30, "more")
	switch uni(t, 8, "size") {
	case 0, 1, 2:
		m = 40 + uni(t, 90, "more")
	case 3:
		m = 130 + uni(t, 180, "more")
	}
	rnd := rand.New(rand.NewPCG(uint64(uni(t, 65536, "gseed")), 1))
	var pool [2][]S
	// (not many nodes with long contents: the size is that of all of them, and
	// with line breaks it also grows with the depth)
	short := func(level int) S {
		for try := 0; try < 4; try++ {
			if s := f(level); len(s) <= 60000/m {
				return s
			}
		}
		return "a"
	}
	for i := 0; i < 5; i++ {
		pool[0] = append(pool[0], short(level))
		pool[1] = append(pool[1], short(level+1))
	}
	any := func(l int) *T { return &T{C: pool[l][rnd.IntN(len(pool[l]))]} }
	if rapid.Bool().Draw(t, "deep") {
		linear := chance(t, 3, "linear")
		for i := 0; i < m; i++ {
			k := any(min(i, 1))
			at.K = append(at.K, k)
			if !linear && rnd.IntN(6) == 0 {
				x := any(min(i, 1))
				if rnd.IntN(2) == 0 {
					at.K = append(at.K, x)
				} else {
					at.K = append(at.K[:len(at.K)-1], x, k)
				}
			}
			at = k
		}
		return
	}
	i := uni(t, len(at.K)+1, "place")
	ks := append([]*T(nil), at.K[:i]...)
	for ; m > 0; m-- {
		k := any(0)
		for rnd.IntN(3) == 0 {
			k.K = append(k.K, any(1))
		}
		ks = append(ks, k)
	}
	at.K = append(ks, at.K[i:]...)
}

// typedShape draws a typed tree.
func typedShape(t *rapid.T, budget int, f func(level int) V) *N {
	tr := shape(t, budget, func(int) S { return "" })
	return typed(tr, f, 0)
}

func typed(t *T, f func(level int) V, l int) *N {
	n := &N{V: vs("_")}
	for _, k := range t.K {
		v := f(l)
		nk := typed(k, f, l+1)
		nk.V = v
		n.K = append(n.K, nk)
	}
	return n
}

// ---- content

var names = []string{"a", "b", "c", "d", "ab", "name", "x1", "_", "ñ", "été", "Ω", "long_name_for_a_node", "a2", "z"}

func name(t *rapid.T) string { return rapid.SampledFrom(names).Draw(t, "name") }

var wordBits = []string{
	"a", "b", "c", "x", "1", "0", "-", ".", "_", "é", "日本", "😀", "/", ":", "=", "!", "$", "%", "&", "*", "+", ";", "<", ">", "?", "@", "[", "]", "^", "{", "|", "}", "~",
	"#", "\\", "'", "\"", "`", ",", "(", ")", "Z9", "word", "192.168.1.1", "\u00a0", "\u2028", "\x7f", "\u0085", "\u3000", "\u200b", "x\ufeff", "e\u0301", "\U0010fffd",
}

// word draws a bare word: no white space, cannot be taken for something else
// in a line of OGDL text.
func word(t *rapid.T) string {
	n := 1 + intn(t, 4, "wlen")
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(wordBits[uni(t, len(wordBits), "wb")])
	}
	if chance(t, 40, "raw") {
		b.WriteByte(byte(0x80 + uni(t, 128, "byte")))
	}
	if chance(t, 60, "longword") {
		return "w" + strings.Repeat(b.String(), 1+uni(t, 1500, "rep"))
	}
	s := b.String()
	if !isWord(s) {
		return "w" + s
	}
	return s
}

// isWord tells if s can be written as a bare word anywhere in a line.
func isWord(s string) bool {
	if s == "" || s == "\\" || s == "#" || strings.IndexByte("\"'`,", s[0]) >= 0 {
		return false
	}
	for i := 0; i < len(s); i++ {
		if s[i] <= 32 {
			return false
		}
	}
	return true
}

var textBits = []string{
	"a", "b", " ", " ", "  ", "\n", "\n", "\n ", "\n\n", "\t", "\"", "'", "`", "\\", "\\\\", "\\\"", "\\'", "\\n", "#", "# ", ",", "(", ")", "some words", "é", "日本語", "😀", "_", "\\\n", "\n\t", "\n    ", "$x", "1", "{", "}", "[", "]", "~", "\x7f", "'\"", "\"\"", "\n#", "\n\\", "\u0085", "\u3000", "\u200b", "\u2028", "\u00a0", "x\ufeff", "e\u0301", "\U0010fffd", "\n\u00a0", "\u3000\n", "True", "-1", "0x1f", "\t\n", " \n",
}

// phrase draws text with spaces, newlines, tabs, quotes, backslashes…
// (non-empty, no control characters besides \n and \t).
func phrase(t *rapid.T) string {
	n := 1 + intn(t, 9, "plen")
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(textBits[uni(t, len(textBits), "pb")])
	}
	if chance(t, 50, "raw") {
		b.WriteByte(byte(0x80 + uni(t, 128, "byte")))
	}
	s := b.String()
	if chance(t, 60, "longphrase") {
		if rapid.Bool().Draw(t, "late") {
			// an ordinary word at first
			return strings.Repeat(pick(t, "w", "x", "word", "é"), 1+uni(t, 1500, "rep")) + s
		}
		s = strings.Repeat(s, 1+uni(t, 900, "rep"))
	}
	return s
}

func content(t *rapid.T) S {
	if chance(t, 3, "isphrase") {
		return S(phrase(t))
	}
	return S(word(t))
}
