// C11: edit operations. C12: copies and equality. C20: sorting. C21: schemas.
package main

import (
	"fmt"
	"math"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/rveen/ogdl"
	"pgregory.net/rapid"
)

// anyV draws a value of any native type.
func anyV(t *rapid.T) V {
	switch uni(t, 18, "vk") {
	case 0, 1:
		return vi(int64(uni(t, 5, "i")) - 1)
	case 2:
		if chance(t, 4, "odd") {
			return vf(genFloat(t))
		}
		return vf(float64(uni(t, 9, "f")-4) / 4)
	case 3:
		return vb(rapid.Bool().Draw(t, "b"))
	case 4:
		return V{T: "bytes", S: pathContent(t)}
	case 5:
		return V{T: pick(t, "it", "int", "int8", "int16", "int32", "uint", "uint8", "uint16", "uint32", "uint64"), I: int64(uni(t, 4, "i"))}
	case 6:
		return V{T: "float32", F: math.Float64bits(float64(uni(t, 9, "f")-4) / 4)}
	case 7:
		return vi(pick(t, "edge", int64(math.MaxInt64), math.MinInt64, 1<<53+1, -1<<31, 1<<32))
	case 8:
		return vs("")
	}
	return vs(string(pathContent(t)))
}

// ---- C11

type editOp struct {
	Op   string `json:"op"`
	At   []int  `json:"at,omitempty"` // the node it is applied to
	S    S      `json:"s,omitempty"`
	I    int    `json:"i,omitempty"`
	V    V      `json:"v"`
	G    *N     `json:"g,omitempty"`
	Noop bool   `json:"-"`
}

type histCase struct {
	Tree *N       `json:"tree"`
	Ops  []editOp `json:"ops"`
}

var editOps = []string{"add", "add", "addgraph", "addnodes", "copy", "node", "nodeornew", "create", "nodeset", "delete", "delete", "deleteat", "deleteat", "clear", "substitute", "find", "list", "getat", "set"}

var patterns = []string{"a", "^a", "b$", "^(a|b)$", ".", "^$", "[0-9]+", "", "\\.", "a.b", "(", "[", "x*", "^-?[0-9]+$", "(?i)A", "é", "zz", "ñ|日"}

func walkN(n *N, at []int) *N {
	for _, i := range at {
		n = n.K[i]
	}
	return n
}

func removeAt(ks []*N, i int) []*N {
	return append(append([]*N(nil), ks[:i]...), ks[i+1:]...)
}

// editModel applies the operation to the model.
func editModel(n *N, op editOp) {
	find := func(s string) *N {
		for _, k := range n.K {
			if nameOf(k.V) == s {
				return k
			}
		}
		return nil
	}
	switch op.Op {
	case "add":
		n.K = append(n.K, &N{V: op.V})
	case "addgraph":
		n.K = append(n.K, op.G.clone())
	case "addnodes", "copy":
		n.K = append(n.K, op.G.clone().K...)
	case "nodeornew":
		if find(string(op.S)) == nil {
			n.K = append(n.K, &N{V: vs(string(op.S))})
		}
	case "create":
		if k := find(string(op.S)); k != nil {
			k.K = nil
		} else {
			n.K = append(n.K, &N{V: vs(string(op.S))})
		}
	case "nodeset", "set":
		k := find(string(op.S))
		if k == nil {
			k = &N{V: vs(string(op.S))}
			n.K = append(n.K, k)
		}
		k.K = []*N{{V: op.V}}
		if op.G != nil {
			k.K = op.G.clone().K
		}
	case "delete":
		var ks []*N
		for _, k := range n.K {
			if val(k.V.val()) != val(op.V.val()) {
				ks = append(ks, k)
			}
		}
		n.K = ks
	case "deleteat":
		if op.I >= 0 && op.I < len(n.K) {
			n.K = removeAt(n.K, op.I)
		}
	case "clear":
		n.K = nil
	case "substitute":
		for _, k := range n.K {
			if nameOf(k.V) == string(op.S) {
				k.V = op.V
			}
			editModel(k, op)
		}
	}
}

// nonNil: values that can be stored with Add
func genEditValue(t *rapid.T) V {
	v := anyV(t)
	return v
}

// genContent draws the content of a node, which can be missing.
func genContent(t *rapid.T) V {
	if chance(t, 30, "nil") {
		return V{T: "nil"}
	}
	return genEditValue(t)
}

func genEditOps(t *rapid.T, model *N, max int) []editOp {
	var ops []editOp
	for i, n := 0, 1+intn(t, max, "nops"); i < n; i++ {
		op := editOp{Op: editOps[uni(t, len(editOps), "op")]}
		cur := model
		for len(cur.K) > 0 && chance(t, 2, "down") {
			j := uni(t, len(cur.K), "kid")
			op.At = append(op.At, j)
			cur = cur.K[j]
		}
		any := cur
		if op.Op == "substitute" {
			// also names that are deeper
			for len(any.K) > 0 && chance(t, 2, "deeper") {
				any = any.K[uni(t, len(any.K), "kid2")]
			}
		}
		switch op.Op {
		case "node", "nodeornew", "create", "nodeset", "substitute", "set":
			op.S = pathName(t)
			if len(any.K) > 0 && !chance(t, 4, "new") {
				op.S = S(nameOf(any.K[uni(t, len(any.K), "kid")].V))
			}
			if op.Op == "set" && !isToken(string(op.S)) {
				op.S = "a"
			}
			op.V = genEditValue(t)
			if op.Op == "set" && chance(t, 3, "graph") {
				op.G = typedShape(t, 5, func(int) V { return genEditValue(t) })
			}
		case "add":
			op.V = genEditValue(t)
		case "delete":
			op.V = genEditValue(t)
			if len(cur.K) > 0 && !chance(t, 4, "new") {
				op.V = cur.K[uni(t, len(cur.K), "kid")].V
			}
		case "deleteat", "getat":
			op.I = uni(t, len(cur.K)+3, "i") - 1
		case "addgraph", "addnodes", "copy":
			op.G = typedShape(t, 5, func(int) V { return genContent(t) })
			op.G.V = genEditValue(t)
		case "find":
			op.S = S(pick(t, "re", patterns...))
			if len(cur.K) > 0 && chance(t, 3, "lit") {
				op.S = S(regexp.QuoteMeta(nameOf(cur.K[uni(t, len(cur.K), "kid")].V)))
			}
		}
		editModel(cur, op)
		ops = append(ops, op)
	}
	return ops
}

func genEdit(t *rapid.T) histCase {
	tree := typedShape(t, 10, func(int) V { return genContent(t) })
	return histCase{tree, genEditOps(t, tree.clone(), 12)}
}

func walkG(g *ogdl.Graph, at []int) *ogdl.Graph {
	for _, i := range at {
		g = g.Out[i]
	}
	return g
}

// donor is a graph whose subnodes were added to another one.
type donor struct {
	g   *ogdl.Graph
	out []*ogdl.Graph
	why string
}

func newDonor(g *ogdl.Graph, why string) donor {
	return donor{g, append([]*ogdl.Graph(nil), g.Out...), why}
}

func (d donor) check() error {
	if len(d.g.Out) != len(d.out) {
		return fmt.Errorf("%s was changed by a later operation on another graph: %d subnodes instead of %d", d.why, len(d.g.Out), len(d.out))
	}
	for i := range d.out {
		if d.g.Out[i] != d.out[i] {
			return fmt.Errorf("%s was changed by a later operation on another graph (subnode %d)", d.why, i)
		}
	}
	return nil
}

// applyEdit applies the operation to the graph and checks its result.
// before is the model node before the operation.
func applyEdit(root *ogdl.Graph, before *N, op editOp, donors *[]donor) error {
	g := walkG(root, op.At)
	first := -1
	for i, k := range before.K {
		if nameOf(k.V) == string(op.S) {
			first = i
			break
		}
	}
	old := append([]*ogdl.Graph(nil), g.Out...)
	switch op.Op {
	case "add":
		r := g.Add(op.V.val())
		if r == nil || len(g.Out) == 0 || r != g.Out[len(g.Out)-1] {
			return fmt.Errorf("Add does not return the new node")
		}
	case "addgraph":
		x := op.G.graph()
		r := g.Add(x)
		if r == nil || r != x || len(g.Out) == 0 || r != g.Out[len(g.Out)-1] {
			return fmt.Errorf("Add(graph) does not return the graph")
		}
	case "addnodes":
		x := op.G.graph()
		*donors = append(*donors, newDonor(x, "the graph given to AddNodes"))
		if r := g.AddNodes(x); r != g {
			return fmt.Errorf("AddNodes does not return the node")
		}
	case "copy":
		x := op.G.graph()
		was := dump(x)
		g.Copy(x)
		if dump(x) != was {
			return fmt.Errorf("Copy changed the graph given")
		}
		*donors = append(*donors, newDonor(x, "the graph given to Copy"))
	case "node", "nodeornew", "create":
		var r *ogdl.Graph
		switch op.Op {
		case "node":
			r = g.Node(string(op.S))
		case "nodeornew":
			r = g.NodeOrNew(string(op.S))
		case "create":
			r = g.Create(string(op.S))
		}
		switch {
		case first >= 0 && r != old[first]:
			return fmt.Errorf("%s(%q) does not return the first match", op.Op, op.S)
		case first < 0 && op.Op == "node" && r != nil:
			return fmt.Errorf("Node(%q) found something", op.S)
		case first < 0 && op.Op != "node" && (r == nil || r != g.Out[len(g.Out)-1]):
			return fmt.Errorf("%s(%q) does not return the new node", op.Op, op.S)
		}
	case "nodeset":
		r := g.NodeSet(string(op.S), op.V.val())
		if r == nil || val(r.This) != val(op.V.val()) {
			return fmt.Errorf("NodeSet(%q) returns %s", op.S, clip(dump(r)))
		}
	case "set":
		if op.G != nil {
			x := op.G.graph()
			g.Set(string(op.S), x)
			*donors = append(*donors, newDonor(x, "the graph given to Set"))
			return nil
		}
		g.Set(string(op.S), op.V.val())
	case "delete":
		g.Delete(op.V.val())
	case "deleteat":
		g.DeleteAt(op.I)
	case "clear":
		g.Clear()
	case "substitute":
		g.Substitute(string(op.S), op.V.val())
	case "getat":
		r := g.GetAt(op.I)
		if op.I >= 0 && op.I < len(old) {
			if r != old[op.I] {
				return fmt.Errorf("GetAt(%d) is another node", op.I)
			}
		} else if r != nil {
			return fmt.Errorf("GetAt(%d) of %d found something", op.I, len(old))
		}
	case "find":
		re, rerr := regexp.Compile(string(op.S))
		r, err := g.Find(string(op.S))
		if (err != nil) != (rerr != nil) {
			return fmt.Errorf("Find(%q): error %v, want %v", op.S, err, rerr)
		}
		if err != nil {
			return nil
		}
		var want []*ogdl.Graph
		for i, k := range before.K {
			if re.MatchString(nameOf(k.V)) {
				want = append(want, old[i])
			}
		}
		if len(want) != max(r.Len(), 0) {
			return fmt.Errorf("Find(%q) found %d nodes instead of %d", op.S, r.Len(), len(want))
		}
		for i := range want {
			if r.Out[i] != want[i] {
				return fmt.Errorf("Find(%q): result %d is another node", op.S, i)
			}
		}
		if r != nil {
			*donors = append(*donors, newDonor(r, "the result of Find"))
		}
	case "list":
		var want []string
		for _, k := range before.K {
			want = append(want, nameOf(k.V))
		}
		if ss := g.Strings(); len(ss) != len(want) || strings.Join(ss, "\x00") != strings.Join(want, "\x00") {
			return fmt.Errorf("Strings() is %q, want %q", ss, want)
		}
		if s := g.StringCSV(); s != strings.Join(want, ", ") {
			return fmt.Errorf("StringCSV() is %q, want %q", s, want)
		}
		if s := g.StringTxt(); s != strings.Join(want, " ") {
			return fmt.Errorf("StringTxt() is %q, want %q", s, want)
		}
		if n := g.Len(); n != len(want) {
			return fmt.Errorf("Len() is %d, want %d", n, len(want))
		}
	}
	return nil
}

func checkEdit(c histCase, o *Obs) error {
	g := c.Tree.graph()
	model := c.Tree.clone()
	var donors []donor
	o.NonTrivial(len(c.Ops) > 2 && len(c.Tree.K) > 0)
	for i, op := range c.Ops {
		o.Label(op.Op)
		before := walkN(model, op.At).clone()
		if err := applyEdit(g, before, op, &donors); err != nil {
			return fmt.Errorf("op %d: %v", i, err)
		}
		editModel(walkN(model, op.At), op)
		if d := ndiff(model, g); d != "" {
			return fmt.Errorf("after op %d, %s at %v: node %s", i, op.Op, op.At, d)
		}
		for _, d := range donors {
			if err := d.check(); err != nil {
				return fmt.Errorf("after op %d, %s at %v: %v", i, op.Op, op.At, err)
			}
		}
	}
	// The graphs given remain those of the caller
	for _, d := range donors {
		d.g.Add("added to the donor")
		if x := ndiff(model, g); x != "" {
			return fmt.Errorf("adding to %s afterwards changed the graph it was given to: node %s", d.why, x)
		}
	}
	return nil
}

// ---- C12

type copyCase struct {
	Tree *N       `json:"tree"`
	Into *N       `json:"into"` // target of Copy
	OnA  []editOp `json:"on_original"`
	OnB  []editOp `json:"on_clone"`
	OnC  []editOp `json:"on_copy"`
}

func genCopy(t *rapid.T) copyCase {
	v := func(int) V {
		if chance(t, 12, "nil") {
			return V{T: "nil"}
		}
		return anyV(t)
	}
	c := copyCase{Tree: typedShape(t, 12, v), Into: typedShape(t, 4, v)}
	c.Tree.V = v(0)
	c.OnA = genEditOps(t, c.Tree.clone(), 5)
	c.OnB = genEditOps(t, c.Tree.clone(), 5)
	m := c.Into.clone()
	m.K = append(m.K, c.Tree.clone().K...)
	c.OnC = genEditOps(t, m, 5)
	return c
}

func nodes(g *ogdl.Graph, f func(*ogdl.Graph)) {
	if g != nil {
		f(g)
		for _, k := range g.Out {
			nodes(k, f)
		}
	}
}

func edit(g *ogdl.Graph, model *N, ops []editOp) error {
	var donors []donor
	for _, op := range ops {
		if err := applyEdit(g, walkN(model, op.At).clone(), op, &donors); err != nil {
			return err
		}
		editModel(walkN(model, op.At), op)
	}
	if d := ndiff(model, g); d != "" {
		return fmt.Errorf("node %s", d)
	}
	return nil
}

func checkCopy(c copyCase, o *Obs) error {
	a := c.Tree.graph()
	was := dump(a)
	o.NonTrivial(c.Tree.size() > 3)
	b := a.Clone()
	if dump(a) != was {
		return fmt.Errorf("Clone changed the original")
	}
	if val(b.This) != val(a.This) {
		return fmt.Errorf("the clone's content is %s, not %s", val(b.This), val(a.This))
	}
	if d := ndiff(c.Tree, b); d != "" {
		return fmt.Errorf("the clone differs: node %s", d)
	}
	if !a.Equals(b) || !b.Equals(a) || !a.Equals(a) {
		return fmt.Errorf("the clone is not equal to the original")
	}
	into := c.Into.graph()
	into.Copy(a)
	if dump(a) != was {
		return fmt.Errorf("Copy changed the original")
	}
	model := c.Into.clone()
	model.K = append(model.K, c.Tree.clone().K...)
	if d := ndiff(model, into); d != "" {
		return fmt.Errorf("after Copy: node %s", d)
	}
	seen := map[*ogdl.Graph]string{}
	var err error
	for i, x := range []*ogdl.Graph{a, b, into} {
		who := []string{"original", "clone", "copy"}[i]
		nodes(x, func(n *ogdl.Graph) {
			if w := seen[n]; w != "" && w != who && err == nil {
				err = fmt.Errorf("node %s is shared by the %s and the %s", val(n.This), w, who)
			}
			seen[n] = who
		})
	}
	if err != nil {
		return err
	}
	if err := edit(b, c.Tree.clone(), c.OnB); err != nil {
		return fmt.Errorf("edits of the clone: %v", err)
	}
	if dump(a) != was {
		return fmt.Errorf("edits of the clone changed the original")
	}
	if d := ndiff(model, into); d != "" {
		return fmt.Errorf("edits of the clone changed the copy: node %s", d)
	}
	b1, i1 := dump(b), dump(into)
	if err := edit(a, c.Tree.clone(), c.OnA); err != nil {
		return fmt.Errorf("edits of the original: %v", err)
	}
	if dump(b) != b1 || dump(into) != i1 {
		return fmt.Errorf("edits of the original changed the clone or the copy")
	}
	a1 := dump(a)
	if err := edit(into, model, c.OnC); err != nil {
		return fmt.Errorf("edits of the copy: %v", err)
	}
	if dump(b) != b1 || dump(a) != a1 {
		return fmt.Errorf("edits of the copy changed the clone or the original")
	}
	return nil
}

// eqCase: two trees, and content that the plain types do not cover.
type eqCase struct {
	A, B  *N
	Kind  string
	Exo   int // exotic content put at the first nodes of A and B
	ExoB  int
	Where int
}

type point struct{ X, Y int }
type anyBox struct{ X interface{} }

// exotic content. Those with the same group number are equal.
func exotic(i int) (v interface{}, group int) {
	p := &point{1, 2}
	switch i {
	case 1:
		return []int{1}, -1
	case 2:
		return map[string]int{"a": 1}, -1
	case 3:
		return func() {}, -1
	case 4:
		return point{1, 2}, 4
	case 5:
		return point{1, 3}, 5
	case 6:
		return anyBox{[]int{1}}, -1
	case 7:
		return anyBox{1}, 7
	case 8:
		return [1]interface{}{map[int]int{}}, -1
	case 9:
		return p, -1
	case 10:
		return 'x', 10
	case 11:
		return []string{"a"}, -1
	case 12:
		return complex(1, 2), 12
	case 13:
		return error(fmt.Errorf("e")), -1
	case 14:
		return (*ogdl.Graph)(nil), 14
	}
	return nil, 0
}

func genEq(t *rapid.T) eqCase {
	v := func(int) V {
		if chance(t, 12, "nil") {
			return V{T: "nil"}
		}
		if chance(t, 100, "long") {
			s := strings.Repeat(pick(t, "unit", "x", "ab ", "\x00", "é"), 20+uni(t, 2000, "rep"))
			return V{T: pick(t, "ty", "string", "bytes"), S: S(s)}
		}
		return anyV(t)
	}
	a := typedShape(t, 10, v)
	b := a.clone()
	c := eqCase{A: a, B: b, Kind: pick(t, "change", "none", "content", "byte", "type", "add", "remove", "swap", "nest", "other")}
	var all []*N
	b.walk(func(n *N, l int) { all = append(all, n) })
	n := all[uni(t, len(all), "where")]
	switch c.Kind {
	case "byte":
		// one of them, in one of the longest contents
		for i := 0; i < 4; i++ {
			if x := all[uni(t, len(all), "longer")]; len(x.V.S) > len(n.V.S) {
				n = x
			}
		}
		if b := []byte(n.V.S); len(b) > 0 {
			b[uni(t, len(b), "at")] ^= 1 << uni(t, 7, "bit")
			n.V.S = S(b)
		}
	case "content":
		n.V = v(0)
	case "type":
		s := nameOf(n.V)
		switch uni(t, 3, "ty") {
		case 0:
			if n.V.T == "string" {
				n.V = V{T: "bytes", S: S(s)}
			} else {
				n.V = vs(s)
			}
		case 1:
			if i, err := strconv.ParseInt(s, 10, 64); err == nil {
				n.V = vi(i)
			} else if s == "" {
				n.V = V{T: "nil"}
			}
		case 2:
			n.V.T = map[string]string{"int64": "int", "int": "int64", "float64": "float32", "float32": "float64", "string": "bytes", "bytes": "string", "uint8": "int32", "int32": "uint8", "nil": "string"}[n.V.T]
		}
	case "add":
		i := uni(t, len(n.K)+1, "i")
		n.K = append(n.K[:i:i], append([]*N{{V: v(0)}}, n.K[i:]...)...)
	case "remove":
		if len(n.K) > 0 {
			n.K = removeAt(n.K, uni(t, len(n.K), "i"))
		}
	case "swap":
		if len(n.K) > 1 {
			i := uni(t, len(n.K)-1, "i")
			n.K[i], n.K[i+1] = n.K[i+1], n.K[i]
		}
	case "nest":
		if len(n.K) > 1 {
			i := 1 + uni(t, len(n.K)-1, "i")
			n.K[i-1].K = append(n.K[i-1].K, n.K[i])
			n.K = removeAt(n.K, i)
		}
	case "other":
		c.B = typedShape(t, 10, v)
	}
	if chance(t, 3, "exotic") {
		c.Exo = uni(t, 15, "exo")
		c.ExoB = c.Exo
		if chance(t, 3, "exob") {
			c.ExoB = uni(t, 15, "exob")
		}
		c.Where = uni(t, 3, "at")
	}
	return c
}

func checkEq(c eqCase, o *Obs) error {
	a, b := c.A.graph(), c.B.graph()
	want := dump(a) == dump(b)
	known := true
	if c.Exo != 0 || c.ExoB != 0 {
		put := func(g *ogdl.Graph, e int) int {
			v, grp := exotic(e)
			for i := 0; i < c.Where && len(g.Out) > 0; i++ {
				g = g.Out[len(g.Out)-1]
			}
			g.This = v
			return grp
		}
		ga, gb := put(a, c.Exo), put(b, c.ExoB)
		switch {
		case !want:
			known = false // the difference may have been overwritten
		case c.Exo != c.ExoB:
			want = false
		case ga < 0 || gb < 0:
			known = false // not comparable, or a pointer
		}
		o.Label("exotic")
	}
	o.NonTrivial(c.A.size() > 2 && c.Kind != "other")
	o.Label(c.Kind)
	o.LabelIf(want, "equal")
	x, y := a.Equals(b), b.Equals(a)
	if x != y {
		return fmt.Errorf("Equals is not symmetric: %v, %v", x, y)
	}
	if known && x != want {
		return fmt.Errorf("Equals is %v, want %v", x, want)
	}
	if a.Equals(nil) || (*ogdl.Graph)(nil).Equals(a) {
		return fmt.Errorf("equal to nil")
	}
	// With a missing node
	if len(a.Out) > 0 {
		a.Out[len(a.Out)-1] = nil
		if a.Equals(c.A.graph()) || c.A.graph().Equals(a) {
			return fmt.Errorf("a graph with a nil node equals one without")
		}
		if !a.Equals(a.Clone()) && c.Exo == 0 {
			return fmt.Errorf("a graph with a nil node is not equal to its clone")
		}
	}
	return nil
}

// ---- C20

type sortItem struct {
	Name V
	Key  *V // value of the field, or none
	Rest []*N
	Pre  int // how many of Rest come before the field
	Dup  *V  // a second node with the field's name, after it
}

type sortCase struct {
	Field string // a path
	Items []sortItem
	By    string
}

func genSort(t *rapid.T) sortCase {
	c := sortCase{Field: pick(t, "field", "a", "a", "a", "x.y", "x.y", "x.y.a", "a.a", "été", "'two words'", "_x1.'a.b'"), By: pick(t, "by", "string", "int", "Sort")}
	n := uni(t, 20, "n")
	if chance(t, 8, "many") {
		n = uni(t, 300, "many")
		if chance(t, 40, "more") {
			n = uni(t, 3000, "many")
		}
	}
	spread := pick(t, "spread", 2, 10, 1000)
	// keys that are alike for many digits, or characters
	alike := ""
	base := pick(t, "base", int64(1)<<53, 1<<62, -1<<53, 1<<31, 1<<32, math.MaxInt64-4, math.MinInt64)
	if chance(t, 3, "alike") {
		alike = strings.Repeat(pick(t, "fill", "x", "é", " ", "9"), pick(t, "len", 7, 15, 16, 31, 32, 63, 64, 100, 255, 256))
	}
	for i := 0; i < n; i++ {
		it := sortItem{Name: vi(int64(i))}
		if chance(t, 3, "samename") {
			it.Name = pick(t, "nm", vs("a"), vs("item"), vs("x"), V{T: "nil"})
		}
		if !chance(t, 8, "nokey") {
			var k V
			x := uni(t, 10, "kk")
			if alike != "" && rapid.Bool().Draw(t, "ak") {
				x = 9
				if c.By != "int" || chance(t, 4, "str") {
					x = 10
				}
			}
			switch {
			case x < 3:
				k = vi(int64(uni(t, spread, "ik")) - int64(spread/2))
			case x < 6:
				k = vs(strconv.Itoa(uni(t, spread, "ik") - spread/2))
			case x < 8:
				k = vs(string(word(t)))
			case x == 8:
				k = vs(pick(t, "edge", "9223372036854775807", "-9223372036854775808", "9", "10", "09", "", "B", "b", "é", "\xff", "Z", "a", "9223372036854775808"))
			case alike != "" && x == 9:
				n := base + int64(uni(t, 5, "ik"))
				k = vi(n)
				if rapid.Bool().Draw(t, "text") {
					k = vs(strconv.FormatInt(n, 10))
				}
			case alike != "" && x == 10:
				k = vs(alike + pick(t, "end", "", "a", "b", "ab", "B", "é", "z", "0"))
			default:
				k = V{T: pick(t, "ty", "int", "int32", "bytes"), I: int64(uni(t, spread, "ik"))}
				if k.T == "bytes" {
					k.S = S(strconv.FormatInt(k.I, 10))
					k.I = 0
				}
			}
			it.Key = &k
			if chance(t, 6, "dup") {
				it.Dup = &V{T: "int64", I: int64(uni(t, spread, "dk"))}
			}
		}
		for j := uni(t, 3, "nrest"); j > 0; j-- {
			it.Rest = append(it.Rest, &N{V: pick(t, "rest", vs("b"), vs("zz"), vi(1)), K: []*N{{V: anyV(t)}}})
		}
		it.Pre = uni(t, len(it.Rest)+1, "pre")
		c.Items = append(c.Items, it)
	}
	return c
}

func (it sortItem) node(field string) *N {
	n := &N{V: it.Name}
	n.K = append(n.K, it.Rest[:it.Pre]...)
	add := func(v *V) {
		if v == nil {
			return
		}
		k := &N{V: *v}
		names := strings.Split(strings.ReplaceAll(field, "a.b", "a\x00b"), ".")
		for i := len(names) - 1; i >= 0; i-- {
			k = &N{V: vs(strings.ReplaceAll(strings.Trim(names[i], "'"), "\x00", ".")), K: []*N{k}}
		}
		n.K = append(n.K, k)
	}
	add(it.Key)
	add(it.Dup)
	n.K = append(n.K, it.Rest[it.Pre:]...)
	return n
}

func checkSort(c sortCase, o *Obs) error {
	g := ogdl.New("_")
	type info struct {
		s string
		i int64
		d string
	}
	known := map[*ogdl.Graph]info{}
	distinct := map[string]bool{}
	for _, it := range c.Items {
		n := it.node(c.Field).graph()
		inf := info{d: dump(n)}
		if it.Key != nil {
			inf.s = str(it.Key.val())
			inf.i, _ = strconv.ParseInt(inf.s, 10, 64)
			if _, err := strconv.ParseInt(inf.s, 10, 64); err != nil {
				inf.i = 0
			}
		}
		known[n] = inf
		distinct[inf.s] = true
		g.Out = append(g.Out, n)
	}
	o.NonTrivial(len(c.Items) > 2 && len(distinct) > 1)
	o.Label(c.By)
	o.LabelIf(len(c.Items) > 12, "more than 12")
	switch c.By {
	case "int":
		g.SortAsInt(c.Field)
	case "string":
		g.SortAsString(c.Field)
	default:
		g.Sort(c.Field)
	}
	if len(g.Out) != len(c.Items) {
		return fmt.Errorf("%d children instead of %d", len(g.Out), len(c.Items))
	}
	seen := map[*ogdl.Graph]bool{}
	for i, n := range g.Out {
		inf, ok := known[n]
		if !ok || seen[n] {
			return fmt.Errorf("child %d is not one of the children, or is repeated", i)
		}
		seen[n] = true
		if dump(n) != inf.d {
			return fmt.Errorf("child %d was changed", i)
		}
		if i > 0 {
			p := known[g.Out[i-1]]
			if c.By == "int" && p.i > inf.i {
				return fmt.Errorf("child %d has %d after %d", i, inf.i, p.i)
			}
			if c.By != "int" && p.s > inf.s {
				return fmt.Errorf("child %d has %q after %q", i, inf.s, p.s)
			}
		}
	}
	return nil
}

// ---- C21

type schemaCase struct {
	Schema *T
	Graph  *N
	Text   bool // both through their text form
}

var schemaTypes = []string{"!int", "!float", "!bool", "!string", "!binary"}

// fits is the reference for a single node. domain is false if the property
// does not settle it.
func fits(s string, v V) (ok, domain bool) {
	if s == "" || s[0] != '!' {
		return nameOf(v) == s, true
	}
	text := nameOf(v)
	isText := v.T == "string" || v.T == "bytes"
	isInt := strings.Contains(v.T, "int")
	isFloat := v.T == "float64" || v.T == "float32"
	switch s {
	case "!int":
		if isText {
			_, err := strconv.ParseInt(text, 10, 64)
			return err == nil, true
		}
		return isInt, !isFloat
	case "!float":
		if isText {
			_, err := strconv.ParseFloat(text, 64)
			return err == nil, !specialFloat(text) && !strings.ContainsAny(text, "xX_")
		}
		return isInt || isFloat, true
	case "!bool":
		if isText {
			return text == "true" || text == "false", true
		}
		return v.T == "bool", !isInt
	case "!string":
		return v.T == "string", true
	case "!binary":
		return v.T == "bytes", true
	}
	return false, false
}

func conforms(s *T, g *N) (ok, domain bool) {
	ok, domain = true, true
	for i, k := range s.K {
		if i >= len(g.K) {
			ok = false
			continue
		}
		o, d := fits(string(k.C), g.K[i].V)
		o2, d2 := conforms(k, g.K[i])
		ok = ok && o && o2
		domain = domain && d && d2
	}
	return
}

func genSchema(t *rapid.T) schemaCase {
	s := shape(t, 8, func(l int) S {
		if chance(t, 2, "type") {
			return S(schemaTypes[uni(t, len(schemaTypes), "ty")])
		}
		return pathContent(t)
	})
	text := chance(t, 4, "text")
	fit := func(s string) V {
		switch s {
		case "!int":
			return pick(t, "int", vs("12"), vs("-3"), vi(7), V{T: "int", I: 1}, V{T: "bytes", S: "5"}, V{T: "uint8", I: 3})
		case "!float":
			return pick(t, "float", vs("1.5"), vs("2"), vf(1.5), vi(2), vs("1e3"))
		case "!bool":
			return pick(t, "bool", vs("true"), vs("false"), vb(true), vb(false))
		case "!string":
			return pick(t, "str", vs("x"), vs("5"), vs("some text"), vs("true"))
		case "!binary":
			return V{T: "bytes", S: "\x00\x01"}
		}
		return vs(s)
	}
	var conv func(s *T) *N
	conv = func(s *T) *N {
		n := &N{V: fit(string(s.C))}
		for _, k := range s.K {
			n.K = append(n.K, conv(k))
		}
		if chance(t, 6, "extra") {
			n.K = append(n.K, &N{V: anyV(t)})
		}
		return n
	}
	g := conv(s)
	g.V = vs("_")
	if s.size() > 1 && !chance(t, 3, "conforming") {
		// one or more violations (perhaps)
		for k := 1 + uni(t, 2, "nv"); k > 0; k-- {
			var all []*N
			g.walk(func(n *N, l int) { all = append(all, n) })
			n := all[uni(t, len(all), "where")]
			switch uni(t, 5, "viol") {
			case 0, 1:
				n.V = anyV(t)
			case 2:
				n.V = pick(t, "wrong", vs("x"), vs("1"), vs("1.5"), vs("true"), vs(""), vb(true), vi(1), V{T: "bytes", S: "1"}, V{T: "nil"}, vs(numberish[uni(t, len(numberish), "num")]))
			case 3:
				if len(n.K) > 0 {
					n.K = removeAt(n.K, uni(t, len(n.K), "i"))
				}
			case 4:
				if len(n.K) > 1 {
					i := uni(t, len(n.K)-1, "i")
					n.K[i], n.K[i+1] = n.K[i+1], n.K[i]
				}
			}
		}
	}
	_ = text
	return schemaCase{s, g, false}
}

func checkSchema(c schemaCase, o *Obs) error {
	want, domain := conforms(c.Schema, c.Graph)
	if !domain {
		return nil
	}
	s, g := c.Schema.graph(), c.Graph.graph()
	o.NonTrivial(c.Schema.size() > 2)
	o.LabelIf(want, "conforming")
	o.LabelIf(!want, "violating")
	ok, msg := s.Check(g)
	if ok != want {
		return fmt.Errorf("Check is %v (%q), want %v\nschema:\n%s\ngraph:\n%s", ok, msg, want, s.Text(), g.Text())
	}
	if !ok && msg == "" {
		return fmt.Errorf("Check fails without an explanation")
	}
	if ok, _ := s.Check(nil); ok != (len(c.Schema.K) == 0) {
		return fmt.Errorf("Check(nil) is %v", ok)
	}
	return nil
}

func init() {
	reg("C11", "edits",
		"random typed trees and sequences of edit and search operations at random nodes; after every step the whole graph, the node returned and the graphs that gave subnodes are compared with a model. Non-trivial: 3 or more operations on a non-empty tree.",
		360000, 4000000, genEdit, checkEdit, nil)
	reg("C12", "copies",
		"random typed trees; clone and copy compared node by node with the original, no shared node, then random edits of original, clone and copy, each of which must leave the other two untouched. Non-trivial: more than 3 nodes.",
		160000, 3000000, genCopy, checkCopy, nil)
	reg("C12", "equality",
		"a random typed tree and a version with at most one change (content, type only, added, removed, swapped or re-nested node), also with content that Go cannot compare and with nil nodes; Equals against the exact comparison of all content. Non-trivial: related trees of more than 2 nodes.",
		320000, 6000000, genEq, checkEq, nil)
	reg("C20", "sort",
		"0-300 children with keys of several types, duplicates, missing fields; sorted by string or integer; permutation (node identity, content) and order against keys computed by the harness. Non-trivial: 3 or more children, 2 or more keys.",
		32000, 600000, genSort, checkSort, nil)
	reg("C21", "schema",
		"random schemas (literals and types, any depth), conforming graphs built from them with extra nodes, most with one or two changes at any node; Check against a reference. Non-trivial: schema of more than one node.",
		800000, 8000000, genSchema, checkSchema, nil)
	_ = sort.Strings
}
