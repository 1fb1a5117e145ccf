// C09: reading paths. C10: setting paths.
package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/rveen/ogdl"
	"pgregory.net/rapid"
)

// PE is a path element.
type PE struct {
	K string `json:"k"` // name, index, selector, all
	S S      `json:"s,omitempty"`
	N int    `json:"n,omitempty"`
}

type pathCase struct {
	Tree *T    `json:"tree"`
	Path []PE  `json:"path"`
	Text S     `json:"text"`           // the path as written
	Vars []int `json:"vars,omitempty"` // values of i0, i1.., first subnodes of the root
}

var pathNames = []string{"a", "b", "c", "ab", "x1", "_x", "ñ", "日本", "7", "a b", "a.b", "a[0]", "{}", "it's", "say \"x\"", "back\\slash", "(", " ", "$", "-1", "e$"}

func isToken(s string) bool {
	for _, r := range s {
		if !(r == '_' || r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r == 'ñ' || r == '日' || r == '本') {
			return false
		}
	}
	return s != ""
}

func pathName(t *rapid.T) S {
	if chance(t, 3, "odd") {
		return S(pathNames[uni(t, len(pathNames), "pn")])
	}
	return S(pathNames[uni(t, 4, "pn")])
}

func pathContent(t *rapid.T) S {
	if chance(t, 4, "numish") {
		return S(numberish[uni(t, len(numberish), "num")])
	}
	return pathName(t)
}

// writePath writes the path, in one of its forms.
func writePath(t *rapid.T, path []PE) S { return writePathIx(t, path, nil, nil) }

// writePathIx may also write an index as an expression over the nodes i0, i1,..
// of the root graph, that have the given values, and a name as an expression
// over n0, n1,..
func writePathIx(t *rapid.T, path []PE, vars []int, names []S) S {
	var b strings.Builder
	for i, e := range path {
		switch e.K {
		case "name":
			if i > 0 {
				b.WriteByte('.')
			}
			s := string(e.S)
			if names != nil && i > 0 && s != "" {
				k := -1
				for j := range names {
					if names[j] == e.S {
						k = j
					}
				}
				str := func(s string) string { return quote(t, s, pick(t, "quote", byte('"'), byte('\''))) }
				switch {
				case k >= 0 && chance(t, 2, "group"):
					b.WriteString("(" + pick(t, "sp", "", " ") + fmt.Sprintf("n%d", k) + pick(t, "sp", "", " ") + ")")
					continue
				case chance(t, 12, "group"):
					b.WriteString("(" + str(s) + ")")
					continue
				case k >= 0 && chance(t, 4, "group"):
					b.WriteString("(" + fmt.Sprintf("n%d + ", k) + str("") + ")")
					continue
				case s[0] < 0x80 && chance(t, 12, "group"):
					b.WriteString("(" + str(s[:1]) + " + " + str(s[1:]) + ")")
					continue
				}
			}
			if isToken(s) && !chance(t, 6, "q") {
				b.WriteString(s)
			} else {
				q := pick(t, "quote", byte('"'), byte('\''), byte('`'))
				if q == '`' && strings.IndexByte(s, '`') >= 0 {
					q = '"'
				}
				b.WriteString(quote(t, s, q))
			}
			continue
		case "index", "selector":
			if i > 0 && chance(t, 4, "dot") {
				b.WriteByte('.')
			}
			n := strconv.Itoa(e.N)
			if e.N > 0 && chance(t, 8, "expr") {
				n = pick(t, "ex", fmt.Sprintf("%d+1", e.N-1), fmt.Sprintf("%d - 1", e.N+1), fmt.Sprintf("1 * %d", e.N), fmt.Sprintf("(%d)", e.N))
			}
			if len(vars) > 0 && chance(t, 2, "var") {
				k := uni(t, len(vars), "vark")
				switch d := e.N - vars[k]; {
				case d == 0:
					n = fmt.Sprintf("i%d", k)
				case d > 0:
					n = fmt.Sprintf("i%d + %d", k, d)
				default:
					n = fmt.Sprintf("i%d - %d", k, -d)
				}
			}
			if chance(t, 6, "sp") {
				n = " " + n + " "
			}
			if e.K == "index" {
				b.WriteString("[" + n + "]")
			} else {
				b.WriteString("{" + n + "}")
			}
		case "all":
			b.WriteString("{}")
		}
	}
	return S(b.String())
}

// genPath draws a path over the tree: most steps exist.
func genPath(t *rapid.T, tr *T) []PE {
	var path []PE
	ctx := []*T{tr} // nodes whose subnodes are reachable now (several after {})
	n := 1 + intn(t, 6, "plen")
	often := 12
	if d := tr.depth(); d > 8 && chance(t, 2, "long") {
		n, often = 1+uni(t, d+2, "long"), 60
	}
	for i := 0; i < n; i++ {
		var kids []*T
		for _, c := range ctx {
			kids = append(kids, c.K...)
		}
		last := ""
		if len(path) > 0 {
			last = path[len(path)-1].K
		}
		if i > 0 && len(kids) == 0 && !chance(t, 4, "beyond") {
			break
		}
		miss := chance(t, often, "miss")
		switch k := uni(t, 6, "kind"); {
		case k <= 2 || len(kids) == 0 && k < 5:
			nm := pathName(t)
			if !miss && len(kids) > 0 {
				k := kids[uni(t, len(kids), "kid")]
				for j := 0; j < 2+n/8 && len(k.K) == 0; j++ {
					k = kids[uni(t, len(kids), "kid")]
				}
				nm = k.C
			}
			path = append(path, PE{K: "name", S: nm})
			var next []*T
			for _, c := range kids {
				if c.C == nm {
					next = []*T{c}
					break
				}
			}
			ctx = next
		case k == 3 || last != "name":
			ix := 0
			if len(kids) > 0 {
				ix = uni(t, len(kids), "ix")
			}
			if miss {
				ix = len(kids) + pick(t, "over", 0, 1, 100, 70000)
				if chance(t, 4, "neg") {
					ix = -1
				}
			}
			path = append(path, PE{K: "index", N: ix})
			ctx = nil
			if ix >= 0 && ix < len(kids) {
				ctx = []*T{kids[ix]}
			}
		default:
			// (not reached when the last step is not a name)
			if rapid.Bool().Draw(t, "all") {
				path = append(path, PE{K: "all"})
			} else {
				path = append(path, PE{K: "selector", N: uni(t, 4, "sel")})
			}
			r, _ := resolve(tr, path)
			ctx = nil
			if r != nil {
				ctx = []*T{{K: r.nodes}}
			}
		}
	}
	return path
}

// result of a path in the model
type presult struct {
	kind  string // name: the node itself; index: the node, wrapped; list: subnodes of selected nodes
	nodes []*T   // subnodes of the result
	node  *T
}

// resolve is the reference for path resolution. ok is false outside of the
// domain of the property (a selector that does not follow a name).
func resolve(root *T, path []PE) (*presult, bool) {
	var prev *T
	res := &presult{kind: "name", node: root, nodes: root.K}
	lastName := S("")
	for i, e := range path {
		switch e.K {
		case "name":
			var next *T
			for _, k := range res.nodes {
				if k.C == e.S {
					next = k
					break
				}
			}
			if next == nil {
				return nil, true
			}
			prev = &T{K: res.nodes}
			lastName = e.S
			res = &presult{kind: "name", node: next, nodes: next.K}
		case "index":
			if e.N < 0 || e.N >= len(res.nodes) {
				return nil, true
			}
			n := res.nodes[e.N]
			res = &presult{kind: "index", node: n, nodes: n.K}
		case "selector", "all":
			if i == 0 || path[i-1].K != "name" {
				return nil, false
			}
			var nodes []*T
			c := 0
			for _, k := range prev.K {
				if k.C == lastName {
					if e.K == "all" || c == e.N {
						nodes = append(nodes, k.K...)
					}
					c++
				}
			}
			if len(nodes) == 0 {
				nodes = nil
			}
			res = &presult{kind: "list", nodes: nodes}
			if e.K == "selector" && e.N >= c {
				res.kind = "none"
			}
		}
		if res.kind == "none" && i < len(path)-1 {
			return nil, true
		}
	}
	if res.kind == "none" {
		return nil, true
	}
	return res, true
}

// build makes the graph, remembering which graph node is which tree node.
func build(t *T, m map[*T]*ogdl.Graph) *ogdl.Graph {
	g := ogdl.New(string(t.C))
	m[t] = g
	for _, k := range t.K {
		g.Out = append(g.Out, build(k, m))
	}
	return g
}

func same(want []*T, got []*ogdl.Graph, m map[*T]*ogdl.Graph) bool {
	if len(want) != len(got) {
		return false
	}
	for i := range want {
		if m[want[i]] != got[i] {
			return false
		}
	}
	return true
}

func checkPath(c pathCase, o *Obs) error {
	m := map[*T]*ogdl.Graph{}
	g := build(c.Tree, m)
	for i, n := range c.Vars {
		m[c.Tree.K[i].K[0]].This = int64(n)
	}
	before := dump(g)
	res, ok := resolve(c.Tree, c.Path)
	if !ok {
		return nil
	}
	o.NonTrivial(len(c.Path) > 1 && c.Tree.size() > 3)
	o.LabelIf(res == nil, "nothing")
	o.LabelIf(res != nil, "found")
	for _, e := range c.Path {
		if e.K != "name" {
			o.Label(e.K)
		}
	}
	p := string(c.Text)
	r := g.Get(p)
	// the first subnode of the result is its value
	value, has := "", false
	if res != nil {
		switch res.kind {
		case "name":
			if r != m[res.node] {
				return fmt.Errorf("Get(%q) is not the node: %s", p, clip(dump(r)))
			}
		case "index":
			if r == nil || len(r.Out) != 1 || r.Out[0] != m[res.node] {
				return fmt.Errorf("Get(%q) does not hold the indexed node: %s", p, clip(dump(r)))
			}
		case "list":
			if !(len(res.nodes) == 0 && r.Len() <= 0) && (r == nil || !same(res.nodes, r.Out, m)) {
				return fmt.Errorf("Get(%q) does not hold the selected subnodes: %s", p, clip(dump(r)))
			}
		}
		if res.kind == "index" {
			value, has = string(res.node.C), true
		} else if len(res.nodes) > 0 {
			value, has = string(res.nodes[0].C), true
		}
	} else if r.Len() > 0 {
		return fmt.Errorf("Get(%q) should be nothing: %s", p, clip(dump(r)))
	}

	// Typed getters: the value of that same node
	if s := r.String(); s != value {
		return fmt.Errorf("Get(%q).String() is %q, want %q", p, s, value)
	}
	if s, err := g.GetString(p); s != value && (has || err == nil) || has && err != nil || !has && s != "" {
		return fmt.Errorf("GetString(%q) is %q, %v, want %q (%v)", p, s, err, value, has)
	} else if !has && err == nil && res == nil {
		return fmt.Errorf("GetString(%q): no error for a missing path", p)
	}
	if b, err := g.GetBytes(p); string(b) != value || has && err != nil || res == nil && err == nil {
		return fmt.Errorf("GetBytes(%q) is %q, %v, want %q (%v)", p, b, err, value, has)
	}
	wi, werr := strconv.ParseInt(value, 10, 64)
	if i, err := g.GetInt64(p); has && (werr == nil) != (err == nil) || werr == nil && has && i != wi || !has && (i != 0 || err == nil) {
		return fmt.Errorf("GetInt64(%q) is %d, %v; the value is %q (%v)", p, i, err, value, has)
	}
	wf, werr := strconv.ParseFloat(value, 64)
	if f, err := g.GetFloat64(p); has && (werr == nil) != (err == nil) || werr == nil && has && !(f == wf || math.IsNaN(f) && math.IsNaN(wf)) || !has && (f != 0 || err == nil) {
		return fmt.Errorf("GetFloat64(%q) is %v, %v; the value is %q (%v)", p, f, err, value, has)
	}
	native := false // an integer: not settled as a boolean
	for i := range c.Vars {
		native = native || res != nil && len(res.nodes) > 0 && res.nodes[0] == c.Tree.K[i].K[0] || res != nil && res.node == c.Tree.K[i].K[0]
	}
	isb := value == "true" || value == "false"
	if b, err := g.GetBool(p); !native && (isb != (err == nil) || b != (value == "true")) {
		return fmt.Errorf("GetBool(%q) is %v, %v; the value is %q (%v)", p, b, err, value, has)
	}

	// Evaluation of the same path: a single value is given as such
	e, err := g.Eval(ogdl.NewPath(p))
	switch x := e.(type) {
	case nil:
		if res != nil && len(res.nodes) > 0 || res != nil && res.kind == "index" {
			return fmt.Errorf("Eval(%q) is nil, %v", p, err)
		}
	case *ogdl.Graph:
		switch {
		case res == nil:
			if x.Len() > 0 {
				return fmt.Errorf("Eval(%q) should be nothing: %s", p, clip(dump(x)))
			}
		case res.kind == "name" && x != m[res.node],
			res.kind == "index" && (x == nil || len(x.Out) != 1 || x.Out[0] != m[res.node]),
			res.kind == "list" && !(len(res.nodes) == 0 && x.Len() <= 0) && (x == nil || !same(res.nodes, x.Out, m)):
			return fmt.Errorf("Eval(%q) is %s", p, clip(dump(x)))
		}
	default:
		single := has && (res.kind == "index" && len(res.nodes) == 0 || res.kind != "index" && len(res.nodes) == 1 && len(res.nodes[0].K) == 0)
		if !single || str(x) != value {
			return fmt.Errorf("Eval(%q) is %s; the value is %q (%v)", p, val(x), value, has)
		}
	}
	if dump(g) != before {
		return fmt.Errorf("reading %q changed the graph", p)
	}
	return nil
}

// ---- C10

type setOp struct {
	Path  []PE `json:"path"`
	Text  S    `json:"text"`
	Val   V    `json:"val"`
	Graph *N   `json:"graph,omitempty"` // instead of Val
}

type setCase struct {
	Tree *N      `json:"tree"`
	Ops  []setOp `json:"ops"`
}

func nameOf(v V) string { return str(v.val()) }

// setModel applies the operation to the model.
func setModel(root *N, op setOp) {
	n := root
	for _, e := range op.Path {
		if e.K == "index" {
			for len(n.K) <= e.N {
				n.K = append(n.K, &N{V: vs("_")})
			}
			n.K[e.N] = &N{V: op.Val}
			return
		}
		var next *N
		for _, k := range n.K {
			if nameOf(k.V) == string(e.S) {
				next = k
				break
			}
		}
		if next == nil {
			next = &N{V: vs(string(e.S))}
			n.K = append(n.K, next)
		}
		n = next
	}
	if op.Graph != nil {
		n.K = op.Graph.clone().K
	} else {
		n.K = []*N{{V: op.Val}}
	}
}

func genValue(t *rapid.T) V {
	switch uni(t, 6, "vk") {
	case 0:
		return vi(int64(uni(t, 2000, "i")) - 1000)
	case 1:
		if chance(t, 3, "odd") {
			return vf(float64(uni(t, 200000, "f")-100000) / pick(t, "scale", 3.0, 1000, 1e7, 1e-9))
		}
		return vf(float64(uni(t, 4000, "f")-2000) / 8)
	case 2:
		return vb(rapid.Bool().Draw(t, "b"))
	case 3:
		return V{T: "bytes", S: pathContent(t)}
	}
	return vs(string(pathContent(t)))
}

func genSet(t *rapid.T) setCase {
	tr := shape(t, 8, func(int) S { return pathContent(t) })
	var conv func(x *T) *N
	conv = func(x *T) *N {
		n := &N{V: vs(string(x.C))}
		if i, err := strconv.ParseInt(string(x.C), 10, 64); err == nil && strconv.FormatInt(i, 10) == string(x.C) {
			n.V = vi(i)
		}
		for _, k := range x.K {
			n.K = append(n.K, conv(k))
		}
		return n
	}
	c := setCase{Tree: conv(tr)}
	c.Tree.V = vs("_")
	model := c.Tree.clone()
	for i, n := 0, 1+intn(t, 6, "nops"); i < n; i++ {
		var op setOp
		cur := model
		k := 1 + intn(t, 4, "plen")
		if chance(t, 20, "long") {
			k = 5 + uni(t, 30, "plen")
		}
		for j := 0; j < k; j++ {
			nm := string(pathName(t))
			if j > 0 && cur == nil && chance(t, 5, "same") {
				nm = string(op.Path[uni(t, len(op.Path), "as")].S)
			}
			if cur != nil && len(cur.K) > 0 && !chance(t, 4, "new") {
				nm = nameOf(cur.K[uni(t, len(cur.K), "kid")].V)
			}
			op.Path = append(op.Path, PE{K: "name", S: S(nm)})
			var next *N
			if cur != nil {
				for _, x := range cur.K {
					if nameOf(x.V) == nm {
						next = x
						break
					}
				}
			}
			cur = next
		}
		if chance(t, 3, "index") {
			l := 0
			if cur != nil {
				l = len(cur.K)
			}
			ix := uni(t, l+2, "ix")
			if chance(t, 8, "far") {
				ix += uni(t, 20, "far")
				if chance(t, 100, "farther") {
					ix += uni(t, 1<<uint(6+uni(t, 11, "bits")), "farther")
					if ix > 65536 {
						ix = 65536
					}
					n = i + 1 // the last operation of the case
				}
			}
			op.Path = append(op.Path, PE{K: "index", N: ix})
			if chance(t, 8, "rootindex") {
				op.Path = op.Path[len(op.Path)-1:]
			}
		}
		if op.Path[len(op.Path)-1].K == "name" && chance(t, 5, "graph") {
			op.Graph = typedShape(t, 4, func(int) V { return genValue(t) })
			if len(op.Graph.K) == 0 && !chance(t, 3, "empty") {
				op.Graph.K = []*N{{V: vs("v")}}
			}
		} else {
			op.Val = genValue(t)
		}
		op.Text = writePath(t, op.Path)
		setModel(model, op)
		c.Ops = append(c.Ops, op)
	}
	return c
}

func checkSet(c setCase, o *Obs) error {
	g := c.Tree.graph()
	model := c.Tree.clone()
	o.NonTrivial(len(c.Ops) > 1 && len(c.Tree.K) > 0)
	for i, op := range c.Ops {
		before := model.size()
		setModel(model, op)
		o.LabelIf(model.size() > before+1, "created")
		o.LabelIf(op.Path[len(op.Path)-1].K == "index", "index")
		o.LabelIf(op.Graph != nil, "graph value")
		var v interface{} = op.Val.val()
		if op.Graph != nil {
			v = op.Graph.graph()
		}
		p := string(op.Text)
		g.Set(p, v)
		if d := ndiff(model, g); d != "" {
			return fmt.Errorf("op %d, Set(%q, %s): node %s", i, p, val(v), d)
		}
		r := g.Get(p)
		if op.Graph != nil {
			if d := ndiff(op.Graph, r); d != "" {
				return fmt.Errorf("op %d: Get(%q) after Set: node %s", i, p, d)
			}
		} else if x := r.Interface(); val(x) != val(v) {
			return fmt.Errorf("op %d: Get(%q) after Set is %s, want %s", i, p, val(x), val(v))
		}
	}
	return nil
}

// sharedOp acts on a or b, that were set to the same graph value.
type sharedOp struct {
	At  int    `json:"at"` // 0: a, 1: b, 2: the value itself
	Op  string `json:"op"` // index, child, sub, replace
	I   int    `json:"i,omitempty"`
	S   S      `json:"s,omitempty"`
	Val V      `json:"val"`
}

type sharedCase struct {
	Val *N         `json:"val"`
	Ops []sharedOp `json:"ops"`
}

func genShared(t *rapid.T) sharedCase {
	c := sharedCase{Val: typedShape(t, 6, func(int) V { return genValue(t) })}
	for i, n := 0, 1+intn(t, 6, "nops"); i < n; i++ {
		op := sharedOp{At: uni(t, 3, "at"), Op: pick(t, "op", "index", "child", "add", "replace", "delete", "deleteat", "clear"), Val: genValue(t)}
		if op.At == 2 {
			op.Op = pick(t, "op2", "add", "deleteat", "clear")
		}
		op.I = uni(t, 8, "i")
		op.S = S(fmt.Sprintf("new%d", i))
		c.Ops = append(c.Ops, op)
	}
	return c
}

// checkShared: a graph value that is set at two places (and kept by the
// caller). Only lists of subnodes are edited here, not the nodes in them.
func checkShared(c sharedCase, o *Obs) error {
	v := c.Val.graph()
	g := ogdl.New("_")
	g.Set("a", v)
	g.Set("b", v)
	names := []string{"a", "b", "the value"}
	gs := []*ogdl.Graph{g.Get("a"), g.Get("b"), v}
	var ms []*N
	for range gs {
		ms = append(ms, c.Val.clone())
	}
	o.NonTrivial(len(c.Ops) > 1 && len(c.Val.K) > 0)
	check := func(what string) error {
		for i := range gs {
			if d := ndiffKids(ms[i], gs[i]); d != "" {
				return fmt.Errorf("%s: at %s: node %s", what, names[i], d)
			}
		}
		return nil
	}
	if err := check("after setting a and b"); err != nil {
		return err
	}
	for i, op := range c.Ops {
		x, m := gs[op.At], ms[op.At]
		o.Label(op.Op)
		switch op.Op {
		case "index":
			g.Set(fmt.Sprintf("%s[%d]", names[op.At], op.I), op.Val.val())
			for len(m.K) <= op.I {
				m.K = append(m.K, &N{V: vs("_")})
			}
			m.K[op.I] = &N{V: op.Val}
		case "child":
			g.Set(names[op.At]+"."+string(op.S), op.Val.val())
			m.K = append(m.K, &N{V: vs(string(op.S)), K: []*N{{V: op.Val}}})
		case "add":
			x.Add(op.Val.val())
			m.K = append(m.K, &N{V: op.Val})
		case "replace":
			g.Set(names[op.At], op.Val.val())
			m.K = []*N{{V: op.Val}}
		case "delete":
			x.Delete(op.Val.val())
			editModel(m, editOp{Op: "delete", V: op.Val})
		case "deleteat":
			x.DeleteAt(op.I)
			editModel(m, editOp{Op: "deleteat", I: op.I})
		case "clear":
			x.Clear()
			m.K = nil
		}
		if err := check(fmt.Sprintf("op %d, %s on %s", i, op.Op, names[op.At])); err != nil {
			return err
		}
	}
	return nil
}

// ndiffKids compares the subnodes only.
func ndiffKids(n *N, g *ogdl.Graph) string {
	if len(n.K) != max(g.Len(), 0) {
		return fmt.Sprintf("has %d subnodes instead of %d", max(g.Len(), 0), len(n.K))
	}
	for i, k := range n.K {
		if d := ndiff(k, g.Out[i]); d != "" {
			return fmt.Sprintf("%d: %s", i, d)
		}
	}
	return ""
}

func init() {
	reg("C10", "shared",
		"the same graph value set at two places and kept by the caller; then nodes are added to, replaced in (by index) and removed from each of the three lists of subnodes, and after every step each of them equals its own model. Non-trivial: 2 or more operations on a value with subnodes.",
		120000, 1500000, genShared, checkShared, nil)
	reg("C09", "index-path",
		"as resolve, with indices and selectors given as expressions over integer nodes of the root graph, which also occur, with other values, inside of the tree. Non-trivial: path of 2 or more steps over 3 or more nodes.",
		180000, 1500000,
		func(t *rapid.T) pathCase {
			tr := shape(t, 14, func(int) S {
				if chance(t, 6, "decoy") {
					return S(fmt.Sprintf("i%d", uni(t, 2, "d")))
				}
				return pathContent(t)
			})
			var vars []int
			var k []*T
			for i := 0; i < 2; i++ {
				vars = append(vars, uni(t, 5, "v"))
				k = append(k, &T{C: S(fmt.Sprintf("i%d", i)), K: []*T{leaf(strconv.Itoa(vars[i]))}})
			}
			names := []S{pathName(t), pathName(t)}
			for i, s := range names {
				k = append(k, &T{C: S(fmt.Sprintf("n%d", i)), K: []*T{leaf(string(s))}})
			}
			tr.K = append(k, tr.K...)
			p := genPath(t, tr)
			return pathCase{tr, p, writePathIx(t, p, vars, names), vars}
		}, checkPath, nil)
	reg("C09", "resolve",
		"random trees with repeated and odd names, random paths over them (names, quoted names, indices, selectors, expressions as index; hitting and missing) in random spelling; Get (node identity), the typed getters and Eval against a reference resolver. Non-trivial: path of 2 or more steps over 3 or more nodes.",
		180000, 2500000,
		func(t *rapid.T) pathCase {
			tr := shape(t, 20, func(int) S { return pathContent(t) })
			p := genPath(t, tr)
			return pathCase{tr, p, writePath(t, p), nil}
		}, checkPath,
		[]pathCase{
			{&T{C: "_", K: []*T{{C: "a", K: []*T{leaf("b"), leaf("c")}}, {C: "a", K: []*T{leaf("d")}}}}, []PE{{K: "name", S: "a"}, {K: "selector", N: 1}}, "a{1}", nil},
			{&T{C: "_", K: []*T{{C: "a", K: []*T{leaf("b"), leaf("c")}}}}, []PE{{K: "name", S: "a"}, {K: "index", N: 2}}, "a[2]", nil},
		})
	reg("C10", "set",
		"random typed trees (repeated names) and sequences of Set with random paths (existing, partly existing, new; optional final index, also beyond the last node) and values (native types, graphs); after every step the whole graph equals a model and Get gives the value back. Non-trivial: 2 or more operations on a non-empty graph.",
		150000, 2000000, genSet, checkSet, nil)
}
