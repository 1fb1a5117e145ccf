// C17: the time that long inputs take.
package main

import (
	"bufio"
	"fmt"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/rveen/ogdl"
	"github.com/rveen/ogdl/io/gxml"
	"pgregory.net/rapid"
)

type growCase struct {
	Entry string `json:"entry"`
	Pre   S      `json:"pre"`
	Unit  S      `json:"unit"` // repeated (with a number for each §)
	N     int    `json:"n"`    // to so many bytes
	Post  S      `json:"post"`
}

func cpuTime() time.Duration {
	var r syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &r)
	return time.Duration(r.Utime.Nano() + r.Stime.Nano())
}

func growContext() *ogdl.Graph {
	g := ogdl.New("_")
	g.Add("a").Add(int64(1))
	g.Add("b").Add("x")
	return g
}

// isFlat tells that the graph is not deep (the text of a deep graph is long).
func isFlat(g *ogdl.Graph) bool { return maxDepth(g) < 20 }

var growEntries = []struct {
	name string
	max  int
	f    func(s string)
}{
	{"text", 400000, func(s string) {
		g := ogdl.FromString(s)
		if g != nil && isFlat(g) {
			g.Text()
			g.JSON()
			g.Html("p")
			b := g.Binary()
			ogdl.FromBinary(b)
			g.Clone().Equals(g)
			g.Check(g)
			g.Find("a")
			g.Strings()
			g.StringCSV()
			g.StringTxt()
			g.Show()
			ogdl.New("_").Copy(g)
			c := g.Clone()
			if c.Len() > 20000 {
				c.Out = c.Out[:20000]
			}
			c.Sort("a")
			c.SortAsInt("b")
			c.Substitute("a", "b")
			g.GetString("b.a")
		}
	}},
	{"types", 400000, func(s string) { ogdl.FromStringTypes(s) }},
	{"path", 400000, func(s string) { ogdl.NewPath(s) }},
	{"get", 60000, func(s string) { growContext().Get(s) }},
	{"expression", 400000, func(s string) { ogdl.NewExpression(s) }},
	{"eval", 30000, func(s string) { growContext().Eval(ogdl.NewExpression(s)) }},
	{"template", 400000, func(s string) { ogdl.NewTemplate(s) }},
	{"process", 60000, func(s string) { ogdl.NewTemplate(s).Process(growContext()) }},
	{"json", 400000, func(s string) {
		g, _ := ogdl.FromJSON([]byte(s))
		if g != nil && isFlat(g) {
			g.Text()
		}
	}},
	{"xml", 400000, func(s string) {
		g := gxml.FromXML([]byte(s))
		if g != nil && isFlat(g) {
			gxml.Simplify(g)
			g.Text()
		}
	}},
	{"binary", 400000, func(s string) {
		g := ogdl.FromBinary([]byte("\x01G\x00" + s))
		if g != nil && isFlat(g) {
			g.Text()
		}
	}},
	{"lexer", 400000, func(s string) {
		for _, op := range []string{"number", "integer", "operator", "token", "string", "stringstop", "space", "whitespace", "comment", "template", "scalar"} {
			p := ogdl.NewLexer(bufio.NewReader(strings.NewReader(s)))
			for i := 0; i < 3; i++ {
				switch op {
				case "number":
					p.Number()
				case "integer":
					p.Integer()
				case "operator":
					p.Operator()
				case "token":
					p.Token8()
				case "string":
					p.String()
				case "stringstop":
					p.StringStop([]byte("$]"))
				case "space":
					p.Space()
				case "whitespace":
					p.WhiteSpace()
				case "comment":
					p.Comment()
				case "template":
					p.TemplateText()
				case "scalar":
					p.Quoted(2)
				}
				p.Byte()
			}
		}
	}},
}

var growBits = []string{"a", "b", "1", ".", "a.", ".a", "[", "]", "[0]", "{0}", "{", "}", "(", ")", "()", "(a)", "a(", ",", "'", "\"", "`", "\\", "\\\n", "\\\\", "'a'", "\"a\"", " ", "\t", "\n", "\r", "\r\n", "a\n", " a", "\n a", "\n\n", "a b", "\n  \\", "#", "# ", "# a\n", "+", "-", "!", "=", "a+", "1+", "1*", "a=", "a==", "-(", "!(", "&&", "$", "$a", "$b", "${", "${a}", "$(", "$(a)", "$if(", "$if(a)", "$end", "$else", "$elseif(a)", "$for(x,a)", "$break", "é", "\xff", "\x00", "\x01", "\x01a\x00", "\x01\x01\x00", "\x01\x01\x01a\x00", "\x02\x01\x01a\x00", "{\"a\":", "[1,", "1,", "<a>", "</a>", "<a", "<a b=''", "&amp;", "x &", "<!--", "-->", "a:", "_", "_len", "\\\"", "12.5", "1.", "+5", "true", "\"a\":1,", "<a/>", "<a>x</a>", "e", "<![CDATA[", "a§", "§\n", "k§\n", "k§ v§\n", "k§=1,", "$k§ ", "$(k§=1)", "\"k§\":1,", "\"§\",", "§,", "<e§/>", "<e§>t§</e§>", "<e a§='1'/>", " a§='1'", "\x01k§\x00", "\x02k§\x00", "§+", "k§+"}

var growPre = []string{"", "", "", "a ", "a", "(", "[", "'", "\"", "`", "a\n  \\\n  ", "a \\\n  ", "{\"", "[", "<a>", "<a b='", "$if(a)", "${", "a[", "a(", "# ", "1", "-", "\x01", "\x01\x01"}

// valid long inputs
var growValid = [][4]string{
	{"json", "{", "\"k§\":1,", "\"z\":1}"},
	{"json", "{", "\"k§\":\"v§\",", "\"z\":1}"},
	{"json", "{", "\"k\":1,", "\"z\":1}"},
	{"json", "[", "§,", "1]"},
	{"json", "[", "\"s§\",", "1]"},
	{"json", "[", "{\"a\":§},", "1]"},
	{"json", "[", "1,", "1]"},
	{"json", "\"", "x", "\""},
	{"xml", "<r>", "<e/>", "</r>"},
	{"xml", "<r>", "<e§/>", "</r>"},
	{"xml", "<r>", "<e>t§</e>", "</r>"},
	{"xml", "<r>", "<e id='i§'/>", "</r>"},
	{"xml", "<r>", "<field name='n§'>v</field>", "</r>"},
	{"xml", "<r>", "t§<e/>", "</r>"},
	{"xml", "<r", " a§='1'", "/>"},
	{"xml", "<r a='", "x", "'/>"},
	{"xml", "<r>", "long text ", "</r>"},
	{"text", "", "k§\n", ""},
	{"text", "", "k\n", ""},
	{"text", "r\n", "  k§ v§\n", ""},
	{"text", "r\n", "  'a quoted §'\n", ""},
	{"text", "r ", "k§, ", "z"},
	{"text", "r '", "long text ", "'"},
	{"text", "r \\\n", "  line §\n", ""},
	{"types", "", "§\n", ""},
	{"types", "r\n", "  §.5\n", ""},
	{"template", "", "$k§ ", ""},
	{"template", "", "text § $a\n", ""},
	{"process", "", "$a § ", ""},
	{"process", "", "$(k§=§)", ""},
	{"process", "", "$if(a==§)x$else y$end", ""},
	{"process", "$for(x,b)", "$x ", "$end"},
	{"expression", "", "k§+", "1"},
	{"eval", "", "§+", "1"},
	{"eval", "", "§*2-", "1"},
	{"eval", "", "'x'==", "'x'"},
	{"binary", "\x01r\x00", "\x02k§\x00", "\x00"},
	{"binary", "\x01r\x00", "\x02\x01\x03abc\x00", "\x00"},
	{"binary", "\x01r\x00\x02\x01", "\x03abc", "\x00\x00"},
	{"binary", "\x01", "long text", "\x00\x00"},
}

func genGrow(t *rapid.T) growCase {
	if chance(t, 4, "valid") {
		v := growValid[uni(t, len(growValid), "v")]
		for _, e := range growEntries {
			if e.name == v[0] {
				return growCase{Entry: v[0], N: e.max / (1 + uni(t, 3, "size")), Pre: S(v[1]), Unit: S(v[2]), Post: S(v[3])}
			}
		}
	}
	e := growEntries[uni(t, len(growEntries), "entry")]
	c := growCase{Entry: e.name, N: e.max / (1 + uni(t, 3, "size"))}
	c.Pre = S(growPre[uni(t, len(growPre), "pre")])
	for n := 1 + uni(t, 3, "bits"); n > 0; n-- {
		c.Unit += S(growBits[uni(t, len(growBits), "bit")])
		if chance(t, 3, "one") {
			break
		}
	}
	if rapid.Bool().Draw(t, "closed") {
		c.Post = S(growBits[uni(t, len(growBits), "post")])
	}
	return c
}

const growLimit = 6 * time.Second

func checkGrow(c growCase, o *Obs) error {
	body := ""
	if strings.Contains(string(c.Unit), "§") {
		var b strings.Builder
		for i := 0; b.Len() < c.N; i++ {
			b.WriteString(strings.ReplaceAll(string(c.Unit), "§", strconv.Itoa(i)))
		}
		body = b.String()
		o.Label("numbered")
	} else {
		body = strings.Repeat(string(c.Unit), c.N/len(c.Unit))
	}
	s := string(c.Pre) + body + string(c.Post)
	o.NonTrivial(c.N >= 10000)
	o.Label(c.Entry)
	for _, e := range growEntries {
		if e.name == c.Entry {
			t := cpuTime()
			e.f(s)
			if d := cpuTime() - t; d > growLimit {
				return fmt.Errorf("%s of %d bytes takes %v: %q, then %q again and again", c.Entry, len(s), d, string(c.Pre), string(c.Unit))
			}
		}
	}
	return nil
}

func init() {
	reg("C17", "growth",
		"up to 400 KB made of a start and a random piece repeated, through each parser, importer, evaluator, lexer function and, unless they are deep, the outputs of the result: the processor time stays below a limit far above what a linear time needs. Non-trivial: 10 KB or more.",
		3200, 60000, genGrow, checkGrow, nil)
}
