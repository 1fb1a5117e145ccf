// C17: any input, any graph: everything returns.
package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/rveen/ogdl"
	"github.com/rveen/ogdl/io/gxml"
	"pgregory.net/rapid"
)

// exercise reads, prints and converts a graph in every way.
func exercise(g *ogdl.Graph) error {
	n := 0
	nodes(g, func(x *ogdl.Graph) {
		n++
		if n > 3000000 {
			panic("too many nodes (a cycle?)")
		}
	})
	b := g.Binary()
	if maxDepth(g) > 300 {
		// (The indented forms of a deep chain have the square of its size.)
		ogdl.FromBinary(b)
		g.Clone().Equals(g)
		return nil
	}
	text := g.Text()
	g.Show()
	g.Html("/p")
	js := g.JSON()
	g2 := ogdl.FromBinary(b)
	g2.Text()
	ogdl.FromString(text).Text()
	ogdl.FromStringTypes(text).Show()
	ogdl.FromJSON(js)
	g.Clone().Equals(g)
	g.Check(g)
	g.Find("a|^$")
	g.Strings()
	g.StringCSV()
	g.StringTxt()
	nodes(g, func(x *ogdl.Graph) {
		x.Int64()
		x.Float64(1)
		x.Bool()
		x.Bytes()
		x.Number()
		x.Scalar()
		x.ThisScalar()
		x.ThisNumber()
		x.ThisType()
	})
	c := g.Clone()
	c.Sort("a")
	c.SortAsInt("a.b")
	c.Substitute("a", "b")
	c.Delete("a")
	c.Merge(g)
	c.DeleteAt(0)
	c.Clear()
	return nil
}

// maxDepth is the number of levels below g.
func maxDepth(g *ogdl.Graph) int {
	level := []*ogdl.Graph{g}
	d := -1
	for len(level) > 0 {
		d++
		var next []*ogdl.Graph
		for _, x := range level {
			if x != nil {
				next = append(next, x.Out...)
			}
		}
		level = next
	}
	return d
}

type soupCase struct {
	Text S `json:"text"`
	More S `json:"more"`
}

func checkSoupText(c soupCase, o *Obs) error {
	s := string(c.Text)
	o.NonTrivial(len(s) > 8)
	o.LabelIf(len(s) > 4096, "large")
	for _, g := range []*ogdl.Graph{ogdl.FromString(s), ogdl.FromStringTypes(s), ogdl.FromReader(strings.NewReader(s)), ogdl.FromBytes([]byte(s))} {
		exercise(g)
	}
	g, x := ogdl.FromString(s), ogdl.FromString(string(c.More))
	o.LabelIf(g.Len() > 2, "several nodes")
	g.Check(x)
	x.Check(g)
	g.Equals(x)
	g.Merge(x)
	x.Copy(g)
	deep := maxDepth(g) > 300
	if !deep {
		g.Text()
	}
	// as paths of the graph itself
	for i, n := range g.Out {
		if i > 5 {
			break
		}
		g.Get(n.ThisString())
		x.Set(n.ThisString(), "v")
	}
	// the result as the parsed form of something
	if !deep {
		g.Eval(x)
		x.Process(g)
		if maxDepth(x) < 700 {
			x.Show()
		}
	}
	return nil
}

// ---- paths, expressions, templates

type langCase struct {
	Kind string `json:"kind"` // path, expression, template
	Text S      `json:"text"`
	Ctx  S      `json:"ctx"` // the context, as text
	Odd  int    `json:"odd"`
	Val  V      `json:"val"`
}

var langBits = []string{
	"a", "b", "i", "n", "l", "s", "x", "_", ".", "..", "[", "]", "{", "}", "(", ")", "[0]", "[1]", "{}", "{0}", "{1}", "[a]", "[[0]]", "[-1]", "(a)", "()", ".(a)", ".()", "(a,b)", "(,)", ",",
	"'", "\"", "`", "'a b'", "\"\"", "''", "1", "0", "-1", "1.5", "99", ".5", "5.", "9223372036854775807", "99999999999999999999", "+", "-", "*", "/", "%", "&&", "||", "!", "==", "!=", "<=", ">=", "<", ">", "~", "^", "&", "|", " ", "  ", "\t", "\n",
	"_this", "_len", "_string", "_json", "_thisString", "!p", "!e", "!i", "!s", "!a", "!g", "!t", "!string", "true", "false", "é", "日", "\xff", "\x00", "\\", "#", "$",
}

var asgBits = []string{"=", "+=", "-=", "*=", "/=", "%=", "a = ", "l[0]=", "n.x =", "x[100]=", "l[70000]=", "= a", "= l"}

var tplDirs = []string{
	"$if(a)", "$if(", "$if", "$elseif(b)", "$elseif", "$else", "$end", "$break", "$for(", "$for(x,l)", "$for(x,n)", "$for(x,_this)", "$for(x,x)", "$for(l,l)", "$for(x,l[0])", "$for(x,missing)", "$for(x)", "$for(x,)", "$for(,x)", "$for()", "$for", "$for(x,l{})",
	"${", "${a", "${a}", "$(", "$(a)", "$a", "$x", "$x.a", "$x[0]", "$", "$$", "$\\", "text ", "\n", "!if", "!for", "!end", "!p", "$if(x==1)", "$if(!a)", "$_this", "$x._this", "$_json", "$_len",
}

var contexts = []S{
	"", "a", "a 1\nb 2", "a\n  b\n    c\na\n  d", "n\n  x 1\n  y 2.5\n  l\n    1\n    2\nl\n  1\n  2\n  3\ns 'some text'\ni 5", "!p\n  a\n!e\n  !p\n    b\na 1", "a\n  !i\n    0\n  !s\n  !a\n  !g", "_ _ _\n_\n  _", "x 1\nx 2\nx 3\nl\n  x 1\n  x 2", "a ''\nb \"\"", "1 2 3\n-1\n0", "_this 1\n_len 5\n_json x", "l\n  a\n    b\n  a\n    c\na true\nb false", "a '!string'\nb '!e'\ns '+'\nx '$a'",
}

// oddContext adds content that text cannot give.
func oddContext(g *ogdl.Graph, odd int) {
	switch odd {
	case 1:
		g.Add(nil)
		g.Out = append(g.Out, ogdl.New(nil))
		g.Add("a").Add(ogdl.New(nil))
	case 2:
		x := ogdl.New("a")
		x.Out = append(x.Out, ogdl.New(ogdl.FromString("x 1\nl\n  1\n  2"))) // a graph as content
		g.Out = append([]*ogdl.Graph{x}, g.Out...)
	case 3:
		x := ogdl.New("a")
		x.Out = append(x.Out, ogdl.New([]int{1, 2}))
		g.Out = append([]*ogdl.Graph{x}, g.Out...)
	case 4:
		x := ogdl.New("a")
		x.Out = append(x.Out, ogdl.New(&point{1, 2}))
		g.Out = append([]*ogdl.Graph{x}, g.Out...)
	case 5:
		x := ogdl.New("a")
		x.Out = append(x.Out, ogdl.New(func(s string, i int64) string { return s }))
		g.Out = append([]*ogdl.Graph{x}, g.Out...)
	case 6:
		x := ogdl.New("a")
		x.Out = append(x.Out, ogdl.New(map[string]int{}), ogdl.New(point{}))
		g.Out = append([]*ogdl.Graph{x}, g.Out...)
	case 7:
		x := ogdl.New("a")
		x.Out = append(x.Out, ogdl.New((*ogdl.Graph)(nil)), ogdl.New((*point)(nil)))
		g.Out = append([]*ogdl.Graph{x}, g.Out...)
	case 8:
		x := ogdl.New("a")
		x.Out = append(x.Out, ogdl.New(func(g *ogdl.Graph) (*ogdl.Graph, error) { return g, nil }))
		g.Out = append([]*ogdl.Graph{x}, g.Out...)
	case 9:
		g.Set("i", int64(5))
		g.Set("n.x", 2.5)
		g.Set("b", true)
		g.Set("s", []byte("bytes"))
	case 10:
		x := ogdl.New("a")
		x.Out = append(x.Out, ogdl.New(func(a ...interface{}) interface{} { return a }))
		g.Out = append([]*ogdl.Graph{x}, g.Out...)
	}
}

func mutate(t *rapid.T, s string, bits []string) string {
	for n := uni(t, 4, "nmut"); n > 0; n-- {
		i := uni(t, len(s)+1, "at")
		switch uni(t, 5, "mut") {
		case 0:
			s = s[:i] + bits[uni(t, len(bits), "bit")] + s[i:]
		case 1:
			j := min(len(s), i+1+uni(t, 8, "len"))
			s = s[:i] + s[j:]
		case 2:
			s = s[:i]
		case 3:
			j := min(len(s), i+1+uni(t, 20, "len"))
			k := uni(t, len(s)+1, "to")
			s = s[:k] + s[i:j] + s[k:]
		case 4:
			s = s[:i] + string([]byte{byte(uni(t, 256, "byte"))}) + s[i:]
		}
	}
	return s
}

func genLang(t *rapid.T) langCase {
	c := langCase{Kind: pick(t, "kind", "path", "expression", "template"), Ctx: contexts[uni(t, len(contexts), "ctx")]}
	if chance(t, 3, "odd") {
		c.Odd = 1 + uni(t, 10, "oddc")
	}
	c.Val = anyV(t)
	bits := langBits
	asg := chance(t, 3, "assign")
	loops := false
	var s string
	switch {
	case chance(t, 3, "valid"):
		switch c.Kind {
		case "path":
			tr := shape(t, 8, func(int) S { return pathContent(t) })
			s = string(writePath(t, genPath(t, tr)))
		case "expression":
			s = writeE(t, genE(t, newVars(t), pick(t, "kind", "num", "bool", "str"), 3), false)
		case "template":
			if asg {
				s = "$(a = b)$if(a == 1)x$(s += 'x')$elseif(b)y$(i = i*2)$else z$end$a${b}$(n.x -= l[0])"
			} else {
				s = "$if(a == 1)$for(x,l)$x${x.a}$for(y,x[0])$if(y == b)$break$end$y$end$end$elseif(b)$n.x$else z$end$a"
				loops = true
			}
		}
		s = mutate(t, s, bits)
	default:
		n := uni(t, 14, "n")
		var b strings.Builder
		reps := 0
		for i := 0; i < n; i++ {
			x := ""
			switch k := uni(t, 8, "bk"); {
			case c.Kind == "template" && k < 4:
				x = tplDirs[uni(t, len(tplDirs), "dir")]
				if asg && strings.HasPrefix(x, "$for") {
					x = "$("
				}
			case asg && k == 4:
				x = asgBits[uni(t, len(asgBits), "asg")]
			case k == 5 && chance(t, 5, "byte"):
				x = string([]byte{byte(uni(t, 256, "byte"))})
			default:
				x = langBits[uni(t, len(langBits), "bit")]
			}
			// (loops and the growth they can cause are limited, see loops)
			if chance(t, 40, "rep") && !strings.HasPrefix(x, "$for") && reps < 2 {
				x = strings.Repeat(x, 1+uni(t, 1500, "reps"))
				reps++
			}
			b.WriteString(x)
		}
		s = b.String()
	}
	// Assignments within loops can legitimately grow without limit: a program
	// with loops has no assignments here, and at most a few loops.
	loops = loops || strings.Contains(s, "for")
	// (The text of a deep graph, such as a nested program, is long.)
	if c.Kind == "template" && loops {
		if len(s) > 3000 {
			s = s[:3000]
		}
		s = noAssign(s)
		for strings.Count(s, "for") > 5 {
			i := strings.LastIndex(s, "for")
			s = s[:i] + s[i+3:]
		}
	}
	c.Text = S(s)
	return c
}

// noAssign removes anything that is an assignment operator.
func noAssign(s string) string {
	for i := 0; i < len(s); i++ {
		if s[i] != '=' {
			continue
		}
		l := i > 0 && strings.IndexByte("=!<>", s[i-1]) >= 0
		r := i+1 < len(s) && s[i+1] == '='
		if r {
			i++ // ==
			continue
		}
		if !l {
			s = s[:i] + "~" + s[i+1:]
		}
	}
	return s
}

func checkLang(c langCase, o *Obs) error {
	o.NonTrivial(len(c.Text) > 3)
	o.Label(c.Kind)
	o.LabelIf(c.Odd > 0, "odd context")
	s := string(c.Text)
	var x *ogdl.Graph
	switch c.Kind {
	case "path":
		x = ogdl.NewPath(s)
	case "expression":
		x = ogdl.NewExpression(s)
	case "template":
		x = ogdl.NewTemplate(s)
		ogdl.NewTemplateFromBytes([]byte(s))
	}
	o.LabelIf(x.Len() > 3, "several parsed nodes")
	exercise(x)
	ctx := func() *ogdl.Graph {
		g := ogdl.FromString(string(c.Ctx))
		oddContext(g, c.Odd)
		return g
	}
	for _, g := range []*ogdl.Graph{nil, ogdl.New(nil), ogdl.New("_"), ctx(), x} {
		switch c.Kind {
		case "template":
			if g == x {
				continue
			}
			x.Process(g)
			if g != nil && strings.Count(s, "for") < 3 {
				x.Process(g)
			}
		default:
			h := g
			if g == x {
				h = g.Clone()
			}
			h.Eval(x)
			h.Get(s)
			h.GetString(s)
			h.GetInt64(s)
			h.GetFloat64(s)
			h.GetBool(s)
			h.GetBytes(s)
			h.Eval(x)
			if c.Kind == "path" {
				h.Set(s, c.Val.val())
				h.Get(s)
				h.Set(s, ogdl.FromString("a b"))
				h.Get(s)
			}
			h.Process(ctx())
		}
		if g != x && g != nil {
			n := 0
			nodes(g, func(*ogdl.Graph) {
				n++
				if n > 5000000 {
					panic("the context has too many nodes (a cycle?)")
				}
			})
			if n < 20000 && maxDepth(g) <= 300 {
				g.Text()
				g.JSON()
			}
		}
	}
	return nil
}

// ---- JSON and XML

type docCase struct {
	XML  bool `json:"xml"`
	Text S    `json:"text"`
}

var jsonBits = []string{"{", "}", "[", "]", ":", ",", "\"a\"", "\"\"", "\"b c\"", "\"\\u00e9\"", "\"\\ud83d\"", "1", "-1", "0", "1.5", "1e5", "1e999", "99999999999999999999", "-", "true", "false", "null", "nul", " ", "\n", "\"", "\\", "{}", "[]", "[[]]", "{\"a\":", "[1,", "\xff", "\x00", "\"\\\"\"", "\"a\":1"}
var xmlBits = []string{"<a>", "</a>", "<b x='1'>", "</b>", "<c/>", "<a ", "<", ">", "/>", "&amp;", "&", "&#65;", "&#x;", "text", " ", "\n", "<!-- c -->", "<!--", "-->", "<?xml version='1.0'?>", "<?", "?>", "<![CDATA[x<y]]>", "<![CDATA[", "]]>", "<!DOCTYPE a>", "<é-ö n:x=\"v\">", "</é-ö>", "\xff", "\x00", "'", "\"", "=", "xmlns='u'", "<x:y>", "</x:y>", "</", "<a id='1'>"}

func genDoc(t *rapid.T) docCase {
	c := docCase{XML: rapid.Bool().Draw(t, "xml")}
	bits := jsonBits
	s := `{"a":{"b":[1,2.5,"x",null,true,{"c":[]}],"d":{}},"e":"f\n"}`
	if c.XML {
		bits = xmlBits
		s = `<?xml version="1.0"?><a x="1" y-z="2"><b>text &amp; more</b><!-- c --><c-d id="k"><![CDATA[raw]]></c-d><n:e/></a>`
	}
	if chance(t, 3, "valid") {
		c.Text = S(mutate(t, s, bits))
		return c
	}
	var b strings.Builder
	for n := uni(t, 20, "n"); n > 0; n-- {
		x := bits[uni(t, len(bits), "bit")]
		if chance(t, 40, "rep") {
			x = strings.Repeat(x, 1+uni(t, 3000, "reps"))
		}
		b.WriteString(x)
	}
	c.Text = S(b.String())
	return c
}

func checkDoc(c docCase, o *Obs) error {
	o.NonTrivial(len(c.Text) > 4)
	var g *ogdl.Graph
	if c.XML {
		o.Label("xml")
		g = gxml.FromXML([]byte(c.Text))
	} else {
		o.Label("json")
		var err error
		g, err = ogdl.FromJSON([]byte(c.Text))
		if err != nil && g != nil {
			return fmt.Errorf("an error and a graph")
		}
	}
	o.LabelIf(g.Len() > 0, "something imported")
	exercise(g)
	if c.XML {
		gxml.Simplify(g)
		exercise(g)
	}
	return nil
}

// ---- pairs of graphs

type pairCase struct {
	A *N `json:"a"` // nil: the missing graph
	B *N `json:"b"`
	// B is A, changed, when Ops is not empty
	Ops []editOp `json:"ops,omitempty"`
}

func genPair(t *rapid.T) pairCase {
	v := func(int) V {
		switch uni(t, 4, "kind") {
		case 0:
			return vs(pick(t, "type", "!int", "!float", "!bool", "!string", "!binary", "!int32", "!", "!nothing", "!any"))
		case 1:
			return V{T: "nil"}
		case 2:
			return vs(pick(t, "str", "1", "-7", "1.5", "true", "x", "", "1e400", "99999999999999999999"))
		}
		return anyV(t)
	}
	var c pairCase
	if !chance(t, 8, "nila") {
		c.A = typedShape(t, 10, v)
		if chance(t, 3, "root") {
			c.A.V = v(0)
		}
	}
	switch {
	case chance(t, 8, "nilb"):
	case c.A != nil && rapid.Bool().Draw(t, "like"):
		m := c.A.clone()
		c.Ops = genEditOps(t, m, 4)
		c.B = c.A.clone()
	default:
		c.B = typedShape(t, 10, v)
		if chance(t, 3, "root") {
			c.B.V = v(0)
		}
	}
	return c
}

func checkPair(c pairCase, o *Obs) error {
	get := func() (a, b *ogdl.Graph) {
		if c.A != nil {
			a = c.A.graph()
		}
		if c.B != nil {
			b = c.B.graph()
			m := c.B.clone()
			for _, op := range c.Ops {
				var d []donor
				applyEdit(b, walkN(m, op.At).clone(), op, &d)
				editModel(walkN(m, op.At), op)
			}
		}
		return
	}
	a, b := get()
	o.LabelIf(a == nil || b == nil, "a missing graph")
	o.NonTrivial(a.Len() > 0 && b.Len() > 0)
	for i := 0; i < 2; i++ {
		ok, _ := a.Check(b)
		o.LabelIf(ok, "valid")
		a.Check(a)
		a.Check(nil)
		a.Equals(b)
		a.Equals(nil)
		for _, k := range b.Strings() {
			a.Node(k)
			a.Get(k)
		}
		if a != nil {
			for _, k := range b.Strings() {
				x := a.Clone()
				x.Delete(k)
				x.Substitute(k, 1)
				x.Create(k)
				x.NodeSet(k, nil)
				x.Set(k, nil)
			}
			x := a.Clone()
			x.Copy(b)
			exercise(x)
			x = a.Clone()
			x.AddNodes(b)
			exercise(x)
			x = a.Clone()
			x.Merge(b)
			exercise(x)
			x = a.Clone()
			x.Add(b)
			exercise(x)
			x = a.Clone()
			x.Set("a.b", b)
			x.Set("a", b)
			exercise(x)
		}
		x := a.Clone()
		x.Eval(b)
		x.Process(b)
		b.Process(x)
		a, b = b, a
	}
	return nil
}

func init() {
	reg("C17", "pairs",
		"random pairs of graphs (type names of schemas, every native type, nil content, the missing graph; or a graph and an edited copy of it): checked as schemas of each other, compared, searched, combined and evaluated in every way, in both directions; everything returns. Non-trivial: neither is empty.",
		8000, 400000, genPair, checkPair, nil)
	reg("C17", "text",
		"random mixtures of OGDL text fragments, other bytes and long repetitions through the text parser in all forms; the result is printed, converted, re-read, searched, compared, checked as a schema, edited, and evaluated as if it were a parsed expression or template; everything returns within the limits of time and memory. Non-trivial: more than 8 bytes.",
		16000, 1200000, func(t *rapid.T) soupCase { return soupCase{genSoup(t, 2), genSoup(t, 0)} }, checkSoupText, nil)
	reg("C17", "languages",
		"random mixtures of fragments of paths, expressions and templates, and mutated valid ones, parsed and evaluated against the missing, the empty, ordinary, hostile (special names) and odd graphs (nil, functions, pointers, graphs as content); everything returns within limits. Non-trivial: more than 3 bytes.",
		40000, 2500000, genLang, checkLang, []langCase{{Kind: "template", Text: "$for(x,_this)$x;$end", Ctx: "a 1\nb 2"}})
	reg("C17", "documents",
		"random mixtures of fragments of JSON and XML and mutated valid documents through the importers; the result is printed, converted and edited; everything returns within limits, and an import error comes without a graph. Non-trivial: more than 4 bytes.",
		24000, 1200000, genDoc, checkDoc, nil)
	_ = bytes.NewReader
}
