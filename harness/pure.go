// C18: reading, printing and evaluating do not modify anything.
package main

import (
	"bytes"
	"fmt"
	"strings"
	"sync"

	"github.com/rveen/ogdl"
	"github.com/rveen/ogdl/io/gxml"
	"pgregory.net/rapid"
)

// rop is a reading operation. Parsed forms are shared: X is an index in them.
type rop struct {
	K  string `json:"k"`
	At []int  `json:"at,omitempty"` // the node it is applied to
	X  int    `json:"x,omitempty"`
	S  S      `json:"s,omitempty"`
}

type pureCase struct {
	Vars    []xvar `json:"vars"`
	Lists   []*N   `json:"lists"`
	Paths   []S    `json:"paths"`
	Exprs   []S    `json:"exprs"`
	Tpls    []S    `json:"templates"` // without loops and assignments: on the shared graph
	Prog    S      `json:"program"`   // any template: on a graph of its own
	Ops     []rop  `json:"ops"`
	Workers int    `json:"workers,omitempty"`
	Rounds  int    `json:"rounds,omitempty"`
}

var readOps = []string{"get", "get", "get", "getstring", "getint64", "getfloat64", "getbool", "getbytes", "evalpath", "evalpath", "evalexpr", "evalexpr", "evalexpr", "process", "process", "program", "text", "show", "html", "json", "binary", "clone", "equals", "find", "check", "typed", "typed", "nodes", "strings", "interface", "parse", "parsepath", "parseexpr", "parsetpl", "frombinary", "fromjson", "copyout", "call", "call", "edit", "fromxml"}

func treeOf(n *N) *T {
	t := &T{C: S(str(n.V.val()))}
	for _, k := range n.K {
		t.K = append(t.K, treeOf(k))
	}
	return t
}

func (c *pureCase) model() *N {
	m := varsModel(c.Vars)
	for _, l := range c.Lists {
		m.K = append(m.K, l.clone())
	}
	return m
}

func genPure(t *rapid.T) pureCase {
	b := genTplOf(t, false)
	c := pureCase{Vars: b.Vars, Lists: b.Lists, Prog: b.Text}
	c.Lists = append(c.Lists, typedShape(t, 12, func(int) V { return anyV(t) }))
	m := c.model()
	tr := treeOf(m)
	for i := 0; i < 3; i++ {
		p := genPath(t, tr)
		ok := true
		for _, e := range p {
			if e.K == "name" && (e.S == "" || len(e.S) > 200) {
				ok = false
			}
		}
		if !ok {
			p = nm("n", "x")
		}
		c.Paths = append(c.Paths, writePath(t, p))
		c.Exprs = append(c.Exprs, S(writeE(t, genE(t, c.Vars, pick(t, "kind", "num", "bool", "str"), 3), false)))
		g := &tplGen{t: t, vars: c.Vars, budget: 3 + uni(t, 12, "budget"), pure: true}
		w := &tplWriter{t: t}
		w.items(g.items(3, nil, 5))
		c.Tpls = append(c.Tpls, S(w.b.String()))
	}
	for n := 1 + uni(t, 14, "nops"); n > 0; n-- {
		o := rop{K: readOps[uni(t, len(readOps), "op")], X: uni(t, 3, "x")}
		if chance(t, 3, "below") {
			n := m
			for len(n.K) > 0 && rapid.Bool().Draw(t, "down") {
				i := uni(t, len(n.K), "i")
				o.At = append(o.At, i)
				n = n.K[i]
			}
		}
		switch o.K {
		case "find":
			o.S = S(pick(t, "re", ".", "^[a-z]$", "x", "1", "", "[0-9]+", "("))
		case "nodes":
			o.S = pathContent(t)
		case "parse":
			o.S = S(pick(t, "doc", "a\n  b c\n  d (e,f) g", "x 'y z'\nw \\\n  block\n   text", "1 2 3", "k #comment\nv"))
			if rapid.Bool().Draw(t, "anydoc") {
				tc, _, _ := genText(t, 8, nil)
				o.S = tc.Text
			}
		case "frombinary":
			if rapid.Bool().Draw(t, "anydoc") {
				o.S = S(shape(t, 8, func(int) S { return textContent(t) }).graph().Binary())
			}
		case "fromjson":
			if rapid.Bool().Draw(t, "anydoc") {
				o.S = genJSON(t).Text
			}
		case "fromxml":
			if chance(t, 4, "anyxml") {
				o.S = genXML(t).Text
			} else {
				o.S = S(pick(t, "xml", "<é-a b='1'><c>x</c></é-a>", "<a><b id='x'>y</b><ñ>z</ñ></a>", "<Å/>"))
			}
		case "call":
			o.S = S(pureCalls[uni(t, len(pureCalls), "call")])
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

func genPureC(t *rapid.T) pureCase {
	c := genPure(t)
	c.Workers = 2 + uni(t, 7, "workers")
	c.Rounds = 1 + uni(t, 4, "rounds")
	return c
}

// pureEnv holds what the operations share.
type pureEnv struct {
	c      *pureCase
	g      *ogdl.Graph
	other  *ogdl.Graph // equal to g
	schema *ogdl.Graph
	paths  []*ogdl.Graph
	exprs  []*ogdl.Graph
	tpls   []*ogdl.Graph
	prog   *ogdl.Graph
	bin    []byte
	js     []byte
	calls  []*ogdl.Graph // parsed pureCalls
	fns    *ogdl.Graph   // their context
}

// functions that can be called at the same time
type pureObj struct{ N int64 }

func (p *pureObj) Add(i int64, f float64) float64 { return float64(p.N+i) * f }
func (p *pureObj) Cat(s string, l []string) string {
	return s + ":" + strings.Join(l, "+")
}
func (p *pureObj) Tree(s string) *ogdl.Graph { return answerGraph(s) }

var pureCalls = []string{
	"add(1, n)", "add(n, 2)", "cat('a', s)", "cat(s, 'b')", "o.Add(n, 2.5)", "o.Add(1, x.f)", "o.Cat('x', l)", "o.Cat(s, l)", "o.Tree(s).r", "tree('t').q{}", "tree(s).q[0]", "cat(cat('i', s), 'j')", "add(add(1,2), add(n,n))",
	"rf.some.name(1, s)", "add('x', 1)", "add(1)", "nofn(1)", "o.None(1)", "l[add(0,1)]",
}

func pureFns() *ogdl.Graph {
	g := ogdl.New("_")
	g.Add("add").Add(func(a, b int64) int64 { return a*1000 + b })
	g.Add("cat").Add(func(a, b string) string { return a + "|" + b })
	g.Add("tree").Add(func(s string) *ogdl.Graph { return answerGraph(s) })
	g.Add("rf").Add(func(r *ogdl.Graph) (*ogdl.Graph, error) { return r.Clone(), nil })
	g.Add("o").Add(&pureObj{7})
	g.Add("n").Add(int64(3))
	g.Add("s").Add("some text")
	g.Add("x").Add("f").Add(1.5)
	l := g.Add("l")
	l.Add("one")
	l.Add("two")
	return g
}

func newEnv(c *pureCase) *pureEnv {
	e := &pureEnv{c: c}
	m := c.model()
	e.g, e.other = m.graph(), m.graph()
	e.schema = ogdl.FromString("!string\n  !int\nj\n  !int\nf\n  !float")
	for i := range c.Paths {
		e.paths = append(e.paths, ogdl.NewPath(string(c.Paths[i])))
		e.exprs = append(e.exprs, ogdl.NewExpression(string(c.Exprs[i])))
		e.tpls = append(e.tpls, ogdl.NewTemplate(string(c.Tpls[i])))
	}
	e.prog = ogdl.NewTemplate(string(c.Prog))
	e.bin = ogdl.FromString("a\n  b 'c d'\ne f").Binary()
	e.fns = pureFns()
	for _, x := range pureCalls {
		e.calls = append(e.calls, ogdl.NewExpression(x))
	}
	e.js = []byte(`{"a":[1,2.5,"x",null,true,{"b":{}}],"c":"d"}`)
	return e
}

// state is everything shared, exactly.
func (e *pureEnv) state() string {
	var b strings.Builder
	for _, g := range e.all() {
		b.WriteString(dump(g))
		b.WriteString("----\n")
	}
	fmt.Fprintf(&b, "%q %q", e.bin, e.js)
	return b.String()
}

func (e *pureEnv) all() []*ogdl.Graph {
	return append(append(append([]*ogdl.Graph{e.g, e.other, e.schema, e.prog}, e.paths...), e.exprs...), append(e.calls[:len(e.calls):len(e.calls)], e.tpls...)...)
}

// snap is a copy of a graph.
type snap struct {
	g    *ogdl.Graph
	this interface{}
	isn  bool // Out is nil
	out  []*snap
	room bool // there is something in the room after the list
}

func snapOf(g *ogdl.Graph) *snap {
	if g == nil {
		return nil
	}
	s := &snap{g: g, this: g.This, isn: g.Out == nil}
	if b, ok := g.This.([]byte); ok {
		s.this = append([]byte{}, b...)
	}
	for _, k := range g.Out {
		s.out = append(s.out, snapOf(k))
	}
	for _, k := range g.Out[len(g.Out):cap(g.Out)] {
		s.room = s.room || k != nil
	}
	return s
}

// same tells if the graph is still the same: nodes, content with its type, order.
func (s *snap) same(g *ogdl.Graph) bool {
	if s == nil || g == nil {
		return s == nil && g == nil
	}
	if s.g != g || s.isn != (g.Out == nil) || len(s.out) != len(g.Out) {
		return false
	}
	switch x := s.this.(type) {
	case []byte:
		y, ok := g.This.([]byte)
		if !ok || string(x) != string(y) {
			return false
		}
	case string:
		y, ok := g.This.(string)
		if !ok || x != y {
			return false
		}
	case int64:
		y, ok := g.This.(int64)
		if !ok || x != y {
			return false
		}
	default:
		if val(x) != val(g.This) {
			return false
		}
	}
	for i, k := range s.out {
		if !k.same(g.Out[i]) {
			return false
		}
	}
	// nor may the room after the list be written to: it is shared by all readers
	for _, k := range g.Out[len(g.Out):cap(g.Out)] {
		if k != nil && !s.room {
			return false
		}
	}
	return true
}

// do performs an operation and gives its results.
func (e *pureEnv) do(o rop) string {
	n := e.g
	other := e.other
	for _, i := range o.At {
		n, other = n.Out[i], other.Out[i]
	}
	c := e.c
	res := func(x interface{}, err error) string { return fmt.Sprintf("%s %v", val(x), err) }
	switch o.K {
	case "get":
		return dump(n.Get(string(c.Paths[o.X])))
	case "getstring":
		x, err := n.GetString(string(c.Paths[o.X]))
		return res(x, err)
	case "getint64":
		x, err := n.GetInt64(string(c.Paths[o.X]))
		return res(x, err)
	case "getfloat64":
		x, err := n.GetFloat64(string(c.Paths[o.X]))
		return res(x, err)
	case "getbool":
		x, err := n.GetBool(string(c.Paths[o.X]))
		return res(x, err)
	case "getbytes":
		x, err := n.GetBytes(string(c.Paths[o.X]))
		return res(x, err)
	case "evalpath":
		return res(n.Eval(e.paths[o.X]))
	case "evalexpr":
		return res(n.Eval(e.exprs[o.X]))
	case "process":
		return string(e.tpls[o.X].Process(n))
	case "program":
		ctx := c.model().graph()
		out := string(e.prog.Process(ctx))
		return out + "\n" + dump(ctx)
	case "text":
		return n.Text()
	case "show":
		return n.Show()
	case "html":
		return n.Html("/x")
	case "json":
		return string(n.JSON())
	case "binary":
		return string(n.Binary())
	case "clone":
		return dump(n.Clone())
	case "copyout":
		x := ogdl.New("_")
		x.Copy(n)
		x.AddNodes(n.Clone())
		return dump(x)
	case "equals":
		return fmt.Sprint(n.Equals(other), n.Equals(e.schema), n.Equals(nil))
	case "find":
		x, err := n.Find(string(o.S))
		return fmt.Sprintf("%s %v", dump(x), err != nil)
	case "check":
		a, b := e.schema.Check(n)
		d, f := n.Check(other)
		return fmt.Sprint(a, b, d, f)
	case "typed":
		ti, tok := n.ThisInt64()
		tf, fok := n.ThisFloat64()
		return fmt.Sprint(n.Int64(), n.Float64(), n.Bool(), n.String(), n.Len(), n.ThisString(), string(n.Bytes()), string(n.ThisBytes()), n.ThisType(), ti, tok, tf, fok) +
			val(n.Number()) + val(n.ThisNumber()) + val(n.Scalar()) + val(n.ThisScalar())
	case "nodes":
		r := dump(n.Node(string(o.S)))
		for i := -1; i <= n.Len(); i++ {
			r += dump(n.GetAt(i))
		}
		return r
	case "strings":
		return fmt.Sprintf("%q %q %q", n.Strings(), n.StringCSV(), n.StringTxt())
	case "interface":
		return fmt.Sprint(n.Interface(), n.Value().IsValid(), n.ThisValue().IsValid())
	case "parse":
		return dump(ogdl.FromString(string(o.S))) + dump(ogdl.FromStringTypes(string(o.S))) + dump(ogdl.FromReader(strings.NewReader(string(o.S))))
	case "parsepath":
		return dump(ogdl.NewPath(string(c.Paths[o.X])))
	case "parseexpr":
		return dump(ogdl.NewExpression(string(c.Exprs[o.X])))
	case "parsetpl":
		return dump(ogdl.NewTemplate(string(c.Tpls[o.X]))) + dump(ogdl.NewTemplateFromBytes([]byte(c.Prog)))
	case "frombinary":
		if o.S != "" {
			return dump(ogdl.FromBinary([]byte(o.S)))
		}
		return dump(ogdl.FromBinary(e.bin)) + dump(ogdl.FromBinaryReader(bytes.NewReader(e.bin)))
	case "call":
		for i, x := range pureCalls {
			if x == string(o.S) {
				r, err := e.fns.Eval(e.calls[i])
				t := string(ogdl.NewTemplate("${" + x + "}").Process(e.fns))
				if g, ok := r.(*ogdl.Graph); ok {
					return dump(g) + t
				}
				// (an error may tell an address)
				return fmt.Sprintf("%s %v %s", val(r), err != nil, t)
			}
		}
		return "?"
	case "edit":
		x := n.Clone()
		x.Sort("x")
		x.SortAsInt("y")
		x.Set("some.path[1]", "v")
		x.Substitute("v", "w")
		x.NodeSet("node", int64(1))
		x.Set("some.other", n.Clone())
		x.Create("created").Add(1.5)
		x.Delete("x")
		x.DeleteAt(0)
		return dump(x)
	case "fromxml":
		x := gxml.FromXML([]byte(o.S))
		r := dump(x)
		gxml.Simplify(x)
		return r + dump(x)
	case "fromjson":
		if o.S != "" {
			x, err := ogdl.FromJSON([]byte(o.S))
			return fmt.Sprint(dump(x), err)
		}
		x, err := ogdl.FromJSON(e.js)
		return fmt.Sprint(dump(x), err)
	}
	panic("unknown operation " + o.K)
}

func checkPure(c pureCase, o *Obs) error {
	e := newEnv(&c)
	before := e.state()
	var snaps []*snap
	for _, g := range e.all() {
		snaps = append(snaps, snapOf(g))
	}
	unchanged := func() bool {
		for i, g := range e.all() {
			if !snaps[i].same(g) {
				return false
			}
		}
		return true
	}
	o.NonTrivial(len(c.Ops) > 3)
	results := map[string]string{}
	for pass := 0; pass < 2; pass++ {
		for i := range c.Ops {
			op := c.Ops[i]
			if pass == 1 {
				op = c.Ops[len(c.Ops)-1-i] // in another order
			}
			r := e.do(op)
			if !unchanged() || i == len(c.Ops)-1 && e.state() != before {
				d := e.state()
				k := 0
				for k < len(d) && k < len(before) && d[k] == before[k] {
					k++
				}
				return fmt.Errorf("%s (%+v) changed what it was given: %q, was %q", op.K, op, clip(d[max(0, k-60):]), clip(before[max(0, k-60):]))
			}
			key := fmt.Sprint(op)
			if w, ok := results[key]; ok && w != r {
				return fmt.Errorf("%s (%+v) gives %q the second time, %q before", op.K, op, clip(r), clip(w))
			}
			results[key] = r
			if pass == 0 {
				o.Label(op.K)
			}
		}
	}
	return nil
}

func checkPureC(c pureCase, o *Obs) error {
	e := newEnv(&c)
	before := e.state()
	o.NonTrivial(len(c.Ops) > 3 && c.Workers > 1)
	for _, op := range c.Ops {
		o.Label(op.K)
	}
	var wg sync.WaitGroup
	errs := make(chan error, c.Workers)
	start := make(chan bool)
	results := make([][]string, c.Workers)
	for w := range results {
		results[w] = make([]string, len(c.Ops))
	}
	for w := 0; w < c.Workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			defer func() {
				if x := recover(); x != nil {
					errs <- fmt.Errorf("panic in a concurrent reader: %v", x)
				}
			}()
			<-start
			for r := 0; r < c.Rounds; r++ {
				for i := range c.Ops {
					k := (i + w*3) % len(c.Ops)
					got := e.do(c.Ops[k])
					if r == 0 {
						results[w][k] = got
					} else if got != results[w][k] {
						errs <- fmt.Errorf("%s (%+v) gives %q, then %q, among concurrent readers", c.Ops[k].K, c.Ops[k], clip(results[w][k]), clip(got))
						return
					}
				}
			}
		}(w)
	}
	close(start)
	wg.Wait()
	select {
	case err := <-errs:
		return err
	default:
	}
	if e.state() != before {
		return fmt.Errorf("concurrent reading changed what it was given")
	}
	// The expected results come from another, equal, environment; after the
	// concurrent run, so that nothing is prepared for it.
	ref := newEnv(&c)
	for k, op := range c.Ops {
		want := ref.do(op)
		for w := range results {
			if got := results[w][k]; got != want {
				return fmt.Errorf("%s (%+v) gives %q among concurrent readers, %q alone", op.K, op, clip(got), clip(want))
			}
		}
	}
	return nil
}

func init() {
	reg("C18", "unchanged",
		"random graphs (typed values, lists, random trees) and sequences of reading operations (lookup by path, typed access, all emitters, comparison, search, schema check, clone, evaluation of parsed paths and expressions without assignment, templates, parsing); the graph and every parsed form are compared exactly, types included, after each operation, and each operation is done twice. Non-trivial: more than 3 operations.",
		8000, 400000, genPure, checkPure, nil)
	reg("C18", "concurrent",
		"the same operations by 2 to 8 goroutines at once on the same graph and parsed forms (templates with loops or assignments: the same compiled template, graphs of their own); every result is that of the sequential run. Also run with the race detector. Non-trivial: more than 3 operations by several goroutines.",
		2400, 100000, genPureC, checkPureC, nil, withRace())
}
