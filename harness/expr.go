// C14: expressions. C15: assignments.
package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/rveen/ogdl"
	"pgregory.net/rapid"
)

// E is an expression tree.
type E struct {
	Op   string `json:"op,omitempty"` // operator, or one of lit, var, neg, pos, not
	L    *E     `json:"l,omitempty"`
	R    *E     `json:"r,omitempty"`
	V    *V     `json:"v,omitempty"`    // literal
	Path []PE   `json:"path,omitempty"` // variable
}

// variables of an expression's context: path and value
type xvar struct {
	Path []PE
	V    V
}

func nm(names ...string) []PE {
	var p []PE
	for _, n := range names {
		p = append(p, PE{K: "name", S: S(n)})
	}
	return p
}

func ix(p []PE, i int) []PE { return append(append([]PE(nil), p...), PE{K: "index", N: i}) }

// newVars draws the values of a fixed set of variables.
func newVars(t *rapid.T) []xvar {
	smallInt := func() V { return vi(int64(uni(t, 21, "i")) - 10) }
	anyInt := func() V {
		if chance(t, 3, "big") {
			return vi(rapid.Int64().Draw(t, "i"))
		}
		return smallInt()
	}
	fl := func() V { return vf(genFloat(t)) }
	st := func() V {
		if chance(t, 80, "long") {
			var b strings.Builder
			for n := 20 + uni(t, 3000, "len"); b.Len() < n; {
				b.WriteString(pick(t, "bit", "\n", "\n", "a", "ab\n", "some more text", " ", "é", "x\ny"))
			}
			return vs(b.String())
		}
		return vs(pick(t, "s", "x", "some text", "7", "-2", "1.5", "", "true", "false", "é", "a+b", " x ", "\ta\n", "two\nlines"))
	}
	k := V{T: pick(t, "ty", "int", "int32", "uint8"), I: int64(uni(t, 9, "k"))}
	if chance(t, 4, "f32") {
		k = V{T: "float32", F: vf(float64(uni(t, 33, "k")) / 4).F}
	}
	return []xvar{
		{nm("i"), smallInt()},
		{nm("j"), anyInt()},
		{nm("f"), fl()},
		{nm("été"), fl()},
		{nm("s"), st()},
		{nm("u"), st()},
		{nm("b"), vb(rapid.Bool().Draw(t, "b"))},
		{nm("t"), vb(true)},
		{nm("n", "x"), anyInt()},
		{nm("n", "y"), fl()},
		{nm("n", "odd name"), smallInt()},
		{nm("n", "s1"), st()},
		{nm("n", "deep", "x"), smallInt()},
		{ix(nm("l"), 0), smallInt()},
		{ix(nm("l"), 1), fl()},
		{ix(nm("l"), 2), vb(rapid.Bool().Draw(t, "b"))},
		{ix(nm("l"), 3), st()},
		{nm("one"), vi(1)},
		{nm("zero"), vi(0)},
		{nm("k_1"), k},
		{nm("_v"), smallInt()},
		{nm("n", "_x_"), fl()},
	}
}

// genFloat draws a number, mostly one with few digits.
func genFloat(t *rapid.T) float64 {
	switch uni(t, 8, "fk") {
	case 0, 1, 2, 3:
		return float64(uni(t, 401, "f")-200) / 8
	case 4, 5:
		return float64(uni(t, 20001, "f")-10000) / pick(t, "scale", 10.0, 100, 1000, 7, 3)
	case 6:
		return pick(t, "odd", 0.1, 0.2, 0.3, 3.14159265358979, 1e-9, 2.5e-7, 16777217.0, 123456789.125, 1e15, 4503599627370497.5, 1e22, 0.30000000000000004, 99.99999999999999)
	}
	return float64(rapid.Int64Range(-1<<53, 1<<53).Draw(t, "m")) / float64(int64(1)<<uint(uni(t, 60, "e")))
}

// genClose writes a comparison of two numbers that are next to each other.
func genClose(t *rapid.T, vars []xvar) (*E, *E) {
	a := genE(t, vars, "num", 0)
	var x V
	if a.Op == "lit" {
		x = *a.V
	} else {
		for _, y := range vars {
			if sameSteps(y.Path, a.Path) {
				x = y.V
			}
		}
	}
	var b V
	switch x.T {
	case "float64":
		f := x.f()
		b = vf(pick(t, "close", f, math.Nextafter(f, math.Inf(1)), math.Nextafter(f, math.Inf(-1)), f*(1+1e-13), f*(1+1e-9), f*(1-1e-8), f+1e-7, float64(float32(f)), math.Trunc(f)))
	case "float32":
		b = vf(x.f())
	default:
		b = vi(x.I + int64(uni(t, 3, "d")) - 1)
	}
	if rapid.Bool().Draw(t, "side") {
		return a, &E{Op: "lit", V: &b}
	}
	return &E{Op: "lit", V: &b}, a
}

func sameSteps(a, b []PE) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].K != b[i].K || a[i].S != b[i].S || a[i].N != b[i].N {
			return false
		}
	}
	return true
}

func varsModel(vars []xvar) *N {
	root := &N{V: vs("_")}
	for _, x := range vars {
		setModel(root, setOp{Path: x.Path, Val: x.V})
	}
	return root
}

func kindOf(v V) string {
	switch {
	case v.T == "bool":
		return "bool"
	case v.T == "string":
		return "str"
	}
	return "num"
}

var cmpOps = []string{"==", "!=", "<", ">", "<=", ">="}

func genE(t *rapid.T, vars []xvar, kind string, depth int) *E {
	variable := func() *E {
		var c []xvar
		for _, x := range vars {
			if kindOf(x.V) == kind || kind == "bool" && x.V.T == "string" && (x.V.S == "true" || x.V.S == "false") {
				c = append(c, x)
			}
		}
		return &E{Op: "var", Path: c[uni(t, len(c), "var")].Path}
	}
	leafy := depth <= 0 || chance(t, 4, "leaf")
	switch kind {
	case "num":
		if leafy {
			switch uni(t, 5, "nk") {
			case 0, 1:
				v := vi(int64(uni(t, 13, "i")) - 3)
				if chance(t, 6, "big") {
					v = vi(rapid.Int64().Draw(t, "i"))
				}
				return &E{Op: "lit", V: &v}
			case 2:
				v := vf(genFloat(t))
				return &E{Op: "lit", V: &v}
			}
			return variable()
		}
		switch uni(t, 10, "nop") {
		case 0:
			return &E{Op: "neg", L: genE(t, vars, "num", depth-1)}
		case 1:
			return &E{Op: pick(t, "u", "pos", "neg"), L: genE(t, vars, "num", depth-1)}
		}
		return &E{Op: pick(t, "op", "+", "-", "*", "/", "%", "+", "-", "*"), L: genE(t, vars, "num", depth-1), R: genE(t, vars, "num", depth-1)}
	case "str":
		if leafy {
			if rapid.Bool().Draw(t, "lit") {
				v := vs(pick(t, "slit", "x", "a b", "", "it's", "say \"hi\"", "+", "12", "(", ")", "a.b", "$x", "!p", "é", "&&", "true", "\\", ",", "\\'"))
				return &E{Op: "lit", V: &v}
			}
			return variable()
		}
		r := "str"
		if chance(t, 3, "strnum") {
			r = "num"
		}
		return &E{Op: "+", L: genE(t, vars, "str", depth-1), R: genE(t, vars, r, depth-1)}
	}
	// bool
	if leafy {
		return variable()
	}
	switch uni(t, 7, "bk") {
	case 0:
		return &E{Op: "not", L: genE(t, vars, truthKind(t), depth-1)}
	case 1:
		return &E{Op: pick(t, "eq", "==", "!="), L: genE(t, vars, "str", depth-1), R: genE(t, vars, "str", depth-1)}
	case 2, 3, 4:
		if chance(t, 4, "close") {
			l, r := genClose(t, vars)
			return &E{Op: pick(t, "cmp", cmpOps...), L: l, R: r}
		}
		return &E{Op: pick(t, "cmp", cmpOps...), L: genE(t, vars, "num", depth-1), R: genE(t, vars, "num", depth-1)}
	case 5:
		if chance(t, 3, "eqb") {
			return &E{Op: pick(t, "eq", "==", "!="), L: genE(t, vars, "bool", depth-1), R: genE(t, vars, "bool", depth-1)}
		}
		fallthrough
	default:
		return &E{Op: pick(t, "lg", "&&", "||"), L: genE(t, vars, truthKind(t), depth-1), R: genE(t, vars, truthKind(t), depth-1)}
	}
}

func truthKind(t *rapid.T) string {
	if chance(t, 6, "int") {
		return "num"
	}
	return "bool"
}

// chain draws a long flat expression.
func genChain(t *rapid.T, vars []xvar) *E {
	kind := pick(t, "kind", "num", "bool", "mixed")
	n := 3 + uni(t, 120, "len")
	e := genE(t, vars, map[string]string{"num": "num", "bool": "bool", "mixed": "num"}[kind], 0)
	for i := 0; i < n; i++ {
		switch kind {
		case "bool":
			e = &E{Op: pick(t, "lg", "&&", "||"), L: e, R: genE(t, vars, "bool", 1)}
		default:
			e = &E{Op: pick(t, "op", "+", "-", "*", "%", "/"), L: e, R: genE(t, vars, "num", 0)}
		}
		if e.R.Op != "lit" && e.R.Op != "var" || precOf(e.L) < precOf(e) {
			// rebalance: keep it flat, without parentheses
			e = flat(e)
		}
	}
	return e
}

// flat builds the tree that the same sequence of operands and operators has
// without parentheses.
func flat(e *E) *E {
	var operands []*E
	var ops []string
	var collect func(x *E)
	collect = func(x *E) {
		if precOf(x) < 9 {
			collect(x.L)
			ops = append(ops, x.Op)
			collect(x.R)
			return
		}
		operands = append(operands, x)
	}
	collect(e)
	// precedence climbing
	pos := 0
	var parse func(min int) *E
	parse = func(min int) *E {
		l := operands[pos]
		for pos < len(ops) {
			op := ops[pos]
			p := precOf(&E{Op: op})
			if p < min {
				break
			}
			pos++
			r := parse(p + 1)
			l = &E{Op: op, L: l, R: r}
		}
		return l
	}
	return parse(0)
}

func precOf(e *E) int {
	switch e.Op {
	case "||":
		return 1
	case "&&":
		return 2
	case "==", "!=", "<", ">", "<=", ">=":
		return 3
	case "+", "-":
		return 4
	case "*", "/", "%":
		return 5
	}
	return 9
}

// writePathX writes a variable in an expression.
func writePathX(t *rapid.T, path []PE) string {
	var b strings.Builder
	for i, e := range path {
		if e.K == "index" {
			n := strconv.Itoa(e.N)
			if chance(t, 6, "ixe") {
				n = pick(t, "ix", "zero + "+n, n+"*one", "("+n+")", " "+n+" ", strconv.Itoa(e.N+1)+" - 1", "zero+"+n+"*one")
			}
			b.WriteString("[" + n + "]")
			continue
		}
		if i > 0 {
			b.WriteByte('.')
		}
		if isName(string(e.S)) && (i == 0 || !chance(t, 8, "q")) {
			b.WriteString(string(e.S))
		} else {
			b.WriteString(quote(t, string(e.S), pick(t, "qc", byte('"'), byte('\''))))
		}
	}
	return b.String()
}

func isName(s string) bool {
	for _, r := range s {
		if !(r == '_' || r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r == 'é' || r == 'ñ') {
			return false
		}
	}
	return s != ""
}

func sp(t *rapid.T, must bool) string {
	n := uni(t, 6, "sp")
	switch {
	case n == 0:
		return "  "
	case n == 1:
		return "\t"
	case n < 4 || must:
		return " "
	}
	return ""
}

// writeE writes the expression with the parentheses it needs, and some more.
func writeE(t *rapid.T, e *E, full bool) string {
	sub := func(x *E, need bool) string {
		s := writeE(t, x, full)
		if need || full && x.Op != "lit" && x.Op != "var" || !full && chance(t, 12, "paren") {
			return "(" + sp(t, false) + s + sp(t, false) + ")"
		}
		return s
	}
	switch e.Op {
	case "lit":
		switch e.V.T {
		case "string":
			return quote(t, string(e.V.S), pick(t, "qc", byte('"'), byte('\'')))
		case "float64":
			s := strconv.FormatFloat(e.V.f(), 'f', -1, 64)
			if !strings.Contains(s, ".") {
				s += ".0"
			}
			return s
		}
		return strconv.FormatInt(e.V.I, 10)
	case "var":
		return writePathX(t, e.Path)
	case "neg", "pos", "not":
		s := sub(e.L, precOf(e.L) < 9)
		op := map[string]string{"neg": "-", "pos": "+", "not": "!"}[e.Op]
		// next to a digit it would be part of the number, next to an operator part of that
		if strings.IndexByte("-+!0123456789.", s[0]) >= 0 {
			return op + " " + s
		}
		if chance(t, 3, "usp") {
			return op + " " + s
		}
		return op + s
	}
	p := precOf(e)
	l := sub(e.L, precOf(e.L) < p)
	r := sub(e.R, precOf(e.R) <= p)
	return l + sp(t, false) + e.Op + sp(t, strings.IndexByte("-+!", r[0]) >= 0) + r
}

// ---- reference evaluation

type undef struct{} // the property does not settle it

func toF(v interface{}) (float64, bool) {
	switch x := v.(type) {
	case int64:
		return float64(x), true
	case float64:
		return x, true
	case string:
		_, isNum := numText(x)
		f, err := strconv.ParseFloat(x, 64)
		return f, err == nil && isNum
	}
	return 0, false
}

func refCalc(op string, a, b interface{}) interface{} {
	ai, aInt := a.(int64)
	bi, bInt := b.(int64)
	if aInt && bInt {
		if bi == 0 && (op == "/" || op == "%") {
			return nil
		}
		switch op {
		case "+":
			return ai + bi
		case "-":
			return ai - bi
		case "*":
			return ai * bi
		case "/":
			return ai / bi
		case "%":
			return ai % bi
		}
	}
	if s, ok := a.(string); ok {
		if op != "+" {
			return undef{}
		}
		switch b.(type) {
		case string, int64, float64:
			return s + fmt.Sprint(b)
		}
		return undef{}
	}
	af, ok1 := toF(a)
	bf, ok2 := toF(b)
	if !ok1 || !ok2 {
		return undef{}
	}
	switch op {
	case "+":
		return af + bf
	case "-":
		return af - bf
	case "*":
		return af * bf
	case "/":
		return af / bf
	case "%":
		if math.Abs(af) >= 1<<53 || math.Abs(bf) >= 1<<53 || af != af || bf != bf {
			return undef{}
		}
		if int64(bf) == 0 {
			return nil
		}
		return int64(af) % int64(bf)
	}
	return undef{}
}

func refCmp(op string, a, b interface{}) interface{} {
	rel := func(lt, eq bool) interface{} {
		switch op {
		case "==":
			return eq
		case "!=":
			return !eq
		case "<":
			return lt
		case ">":
			return !lt && !eq
		case "<=":
			return lt || eq
		default:
			return !lt
		}
	}
	switch x := a.(type) {
	case int64:
		switch y := b.(type) {
		case int64:
			return rel(x < y, x == y)
		case float64:
			// the first operand determines the type
			if y != y || math.Abs(y) >= 1<<62 {
				return undef{}
			}
			return rel(x < int64(y), x == int64(y))
		case string:
			if i, err := strconv.ParseInt(y, 10, 64); err == nil {
				return rel(x < i, x == i)
			}
		}
	case float64:
		if y, ok := toF(b); ok {
			if x != x || y != y {
				return op == "!="
			}
			return rel(x < y, x == y)
		}
	case string, bool:
		switch b.(type) {
		case string, int64, float64, bool:
			if op == "==" || op == "!=" {
				return (fmt.Sprint(a) == fmt.Sprint(b)) == (op == "==")
			}
		}
	}
	return undef{}
}

func refEval(e *E, root *N) interface{} {
	switch e.Op {
	case "lit":
		return norm(e.V.val())
	case "var":
		n := getN(root, e.Path)
		if n == nil {
			return undef{}
		}
		if e.Path[len(e.Path)-1].K == "index" {
			if len(n.K) > 0 {
				return undef{}
			}
			return norm(n.V.val())
		}
		if len(n.K) != 1 || len(n.K[0].K) != 0 {
			return undef{}
		}
		return norm(n.K[0].V.val())
	case "neg":
		a := refEval(e.L, root)
		if _, ok := a.(string); ok {
			return undef{}
		}
		return refCalc("-", int64(0), a)
	case "pos":
		return refEval(e.L, root)
	case "not":
		if b, ok := truth(e.L, root); ok {
			return !b
		}
		return undef{}
	}
	switch e.Op {
	case "+", "-", "*", "/", "%":
		return refCalc(e.Op, refEval(e.L, root), refEval(e.R, root))
	case "&&", "||":
		x, ok := truth(e.L, root)
		y, ok2 := truth(e.R, root)
		if !ok || !ok2 {
			return undef{}
		}
		if e.Op == "&&" {
			return x && y
		}
		return x || y
	}
	return refCmp(e.Op, refEval(e.L, root), refEval(e.R, root))
}

// truth is the value as a boolean: integers other than zero are true, and so is
// the text true.
func truth(e *E, root *N) (value, settled bool) {
	for e.Op == "pos" {
		e = e.L
	}
	switch x := refEval(e, root).(type) {
	case bool:
		return x, true
	case string:
		return x == "true", x == "true" || x == "false"
	case int64:
		if e.Op == "var" {
			n := getN(root, e.Path)
			if len(n.K) == 1 {
				n = n.K[0]
			}
			if n.V.T != "int" && n.V.T != "int64" {
				return false, false
			}
		}
		return x != 0, !e.floatMod(root)
	}
	return false, false
}

// norm reduces integer and float types.
func norm(v interface{}) interface{} {
	switch x := v.(type) {
	case int, int8, int16, int32, uint8, uint16, uint32:
		i, _ := strconv.ParseInt(fmt.Sprint(x), 10, 64)
		return i
	case float32:
		return float64(x)
	case []byte:
		return string(x)
	}
	return v
}

func sameValue(a, b interface{}) bool {
	if x, ok := a.(float64); ok && x != x {
		y, ok := b.(float64)
		return ok && y != y
	}
	return val(a) == val(b)
}

// getN finds the node at a path of names and indices.
func getN(n *N, path []PE) *N {
	for _, e := range path {
		var next *N
		if e.K == "index" {
			if e.N >= 0 && e.N < len(n.K) {
				next = n.K[e.N]
			}
		} else {
			for _, k := range n.K {
				if nameOf(k.V) == string(e.S) {
					next = k
					break
				}
			}
		}
		if next == nil {
			return nil
		}
		n = next
	}
	return n
}

type exprCase struct {
	Vars []xvar `json:"vars"`
	E    *E     `json:"e"`
	Text S      `json:"text"`
	Full S      `json:"full"` // with all parentheses
}

func (e *E) size() int {
	if e == nil {
		return 0
	}
	return 1 + e.L.size() + e.R.size()
}

func genExpr(t *rapid.T) exprCase {
	vars := newVars(t)
	var e *E
	switch uni(t, 8, "shape") {
	case 0:
		e = genChain(t, vars)
	case 1:
		// deeply nested
		e = genE(t, vars, "num", 1)
		for n := uni(t, 80, "deep"); n > 0; n-- {
			o := genE(t, vars, "num", 0)
			op := pick(t, "op", "+", "-", "*")
			if rapid.Bool().Draw(t, "side") {
				e = &E{Op: op, L: o, R: e}
			} else {
				e = &E{Op: op, L: e, R: o}
			}
		}
	default:
		e = genE(t, vars, pick(t, "kind", "num", "bool", "str", "num", "bool"), 1+uni(t, 5, "depth"))
	}
	text := sp(t, false)
	if rapid.Bool().Draw(t, "nolead") {
		text = ""
	}
	text = writeE(t, e, false)
	return exprCase{vars, e, S(text), S(writeE(t, e, true))}
}

func checkExpr(c exprCase, o *Obs) error {
	model := varsModel(c.Vars)
	g := model.graph()
	before := dump(g)
	want := refEval(c.E, model)
	if _, ok := want.(undef); ok {
		o.Label("unsettled")
	} else {
		o.NonTrivial(c.E.size() > 3)
		o.Label(fmt.Sprintf("%T", want))
	}
	o.LabelIf(c.E.size() > 40, "large")
	for _, text := range []S{c.Text, c.Full} {
		x, err := g.Eval(ogdl.NewExpression(string(text)))
		if _, ok := want.(undef); ok {
			continue
		}
		if !sameValue(want, norm(x)) {
			return fmt.Errorf("%s is %s (%v), want %s", clip(string(text)), val(x), err, val(want))
		}
	}
	if dump(g) != before {
		return fmt.Errorf("evaluating %s changed the graph", clip(string(c.Text)))
	}
	return nil
}

// ---- C15

type asgOp struct {
	Path []PE   `json:"path"`
	Op   string `json:"op"`
	E    *E     `json:"e"`
	Node []PE   `json:"node,omitempty"` // right side: this node, as a graph
	Text S      `json:"text"`
	N    int    `json:"n"` // how many times it is evaluated
}

type asgCase struct {
	Vars []xvar  `json:"vars"`
	Ops  []asgOp `json:"ops"`
	Tpl  bool    `json:"template"` // all in one template
}

// asgModel applies the assignment. It gives false where the property does not
// settle the outcome.
func asgModel(root *N, op asgOp) bool {
	if op.Node != nil {
		n := getN(root, op.Node)
		if n == nil || len(n.K) == 0 || len(n.K) == 1 && len(n.K[0].K) == 0 {
			return false
		}
		setModel(root, setOp{Path: op.Path, Graph: n.clone()})
		return true
	}
	r := refEval(op.E, root)
	toV := func(x interface{}) (V, bool) {
		switch y := x.(type) {
		case int64:
			return vi(y), true
		case float64:
			return vf(y), true
		case string:
			return vs(y), true
		case bool:
			return vb(y), true
		}
		return V{}, false
	}
	v, ok := toV(r)
	if !ok {
		return false
	}
	// native type of a variable's value is kept
	from := op.E
	for from.Op == "pos" {
		from = from.L
	}
	if from.Op == "var" {
		n := getN(root, from.Path)
		if from.Path[len(from.Path)-1].K == "index" {
			v = n.V
		} else {
			v = n.K[0].V
		}
	}
	if op.Op != "=" {
		bin := strings.TrimSuffix(op.Op, "=")
		n := getN(root, op.Path)
		switch {
		case n == nil || op.Path[len(op.Path)-1].K != "index" && len(n.K) == 0:
			switch bin {
			case "+":
			case "-":
				v, ok = toV(refCalc("-", int64(0), r))
			case "*":
				v = V{T: "int"}
			default:
				return false
			}
		default:
			var l interface{}
			if op.Path[len(op.Path)-1].K == "index" {
				l = norm(n.V.val())
			} else {
				l = norm(n.K[0].V.val())
			}
			v, ok = toV(refCalc(bin, l, r))
		}
		if !ok {
			return false
		}
	}
	setModel(root, setOp{Path: op.Path, Val: v})
	return true
}

var asgNew = [][]PE{nm("new"), nm("n", "new"), nm("q", "r", "s"), nm("n", "deep", "more"), nm("i", "sub"), nm("new", "odd name"), nm("x")}

func genAsg(t *rapid.T) asgCase {
	c := asgCase{Vars: newVars(t), Tpl: chance(t, 3, "tpl")}
	model := varsModel(c.Vars)
	for i, n := 0, 1+intn(t, 8, "nops"); i < n; i++ {
		op := asgOp{Op: pick(t, "op", "=", "=", "+=", "-=", "*=", "/=", "%="), N: 1}
		// variables as they are now
		var vars []xvar
		for _, x := range c.Vars {
			nd := getN(model, x.Path)
			if nd == nil {
				continue
			}
			if x.Path[len(x.Path)-1].K == "index" {
				if len(nd.K) == 0 && (nd.V.T == "string" || nd.V.T != "nil") {
					vars = append(vars, xvar{x.Path, nd.V})
				}
			} else if len(nd.K) == 1 && len(nd.K[0].K) == 0 {
				vars = append(vars, xvar{x.Path, nd.K[0].V})
			}
		}
		have := map[string]bool{}
		for _, x := range vars {
			have[kindOf(x.V)] = true
		}
		switch uni(t, 5, "target") {
		case 0:
			op.Path = asgNew[uni(t, len(asgNew), "new")]
			if chance(t, 5, "longnew") {
				op.Path = append([]PE(nil), op.Path...)
				for k := 1 + uni(t, 12, "more"); k > 0; k-- {
					op.Path = append(op.Path, nm(pick(t, "nm", "a", "b", "new", "x", "é"))...)
				}
			}
		case 1:
			if len(c.Ops) > 0 {
				op.Path = c.Ops[uni(t, len(c.Ops), "again")].Path
				break
			}
			fallthrough
		default:
			op.Path = c.Vars[uni(t, len(c.Vars), "var")].Path
			if n := op.Path[0].S; n == "one" || n == "zero" {
				op.Path = nm("j") // (the others are used in indices)
			}
		}
		if chance(t, 12, "far") && len(op.Path) == 2 && op.Path[1].K == "index" {
			op.Path = ix(op.Path[:1], 4+uni(t, 3, "far"))
		}
		kind := "num"
		if op.Op == "=" {
			kind = pick(t, "kind", "num", "str", "bool")
		} else if op.Op == "+=" && chance(t, 3, "str") {
			kind = "str"
		}
		if !have["num"] || !have["str"] || !have["bool"] {
			break
		}
		op.E = genE(t, vars, kind, uni(t, 3, "depth"))
		if op.Op == "=" && op.Path[len(op.Path)-1].K == "name" && chance(t, 6, "graph") {
			op.Node = pick(t, "node", nm("n"), nm("l"), nm("n", "deep"), nm("q"), nm("new"))
		}
		if op.Op != "=" && chance(t, 4, "again") {
			op.N = 2 + uni(t, 3, "n")
		}
		trial := model.clone()
		ok := true
		for k := 0; k < op.N && ok; k++ {
			ok = asgModel(trial, op)
		}
		if !ok {
			continue
		}
		model = trial
		rhs := ""
		if op.Node != nil {
			rhs = writePathX(t, op.Node)
		} else {
			rhs = writeE(t, op.E, chance(t, 4, "full"))
			if chance(t, 8, "paren") {
				rhs = "(" + rhs + ")"
			}
		}
		op.Text = S(writePathX(t, op.Path) + sp(t, false) + op.Op + sp(t, strings.IndexByte("-+!", rhs[0]) >= 0) + rhs)
		c.Ops = append(c.Ops, op)
	}
	return c
}

func checkAsg(c asgCase, o *Obs) error {
	model := varsModel(c.Vars)
	g := model.graph()
	o.NonTrivial(len(c.Ops) > 1)
	o.LabelIf(c.Tpl, "template")
	var tpl strings.Builder
	for i, op := range c.Ops {
		o.Label(op.Op)
		o.LabelIf(op.Node != nil, "graph value")
		e := ogdl.NewExpression(string(op.Text))
		for k := 0; k < op.N; k++ {
			if !asgModel(model, op) {
				panic("case outside of the domain")
			}
			if c.Tpl {
				fmt.Fprintf(&tpl, "$(%s)", op.Text)
				continue
			}
			g.Eval(e)
			if d := ndiffNum(model, g); d != "" {
				return fmt.Errorf("after op %d, %s: node %s", i, op.Text, d)
			}
		}
	}
	if c.Tpl {
		out := ogdl.NewTemplate(tpl.String()).Process(g)
		if len(out) != 0 {
			return fmt.Errorf("assignments in a template gave output %q", clip(string(out)))
		}
		if d := ndiffNum(model, g); d != "" {
			return fmt.Errorf("after %s: node %s", clip(tpl.String()), d)
		}
	}
	return nil
}

// ndiffNum is ndiff, with any integer type taken for int64.
func ndiffNum(want *N, got *ogdl.Graph) string {
	w := want.clone()
	w.walk(func(n *N, l int) {
		if strings.Contains(n.V.T, "int") {
			n.V.T = "int64"
		}
		if n.V.T == "float32" {
			n.V.T = "float64"
		}
	})
	c := got.Clone()
	nodes(c, func(n *ogdl.Graph) { n.This = norm(n.This) })
	return ndiff(w, c)
}

func init() {
	reg("C14", "evaluate",
		"random expression trees (integers, floats, strings, booleans and paths as operands; all operators; long flat chains and deep nesting), written with the parentheses precedence requires plus random ones, and fully parenthesised, in random spacing; value and type against a reference evaluator. Cases the rules leave open only have to return. Non-trivial: settled, with more than one operator.",
		120000, 1500000, genExpr, checkExpr, nil)
	reg("C15", "assignments",
		"random sequences of assignments with all operators to existing, nested, indexed and new paths with random expressions or sub-graphs as value, some evaluated several times, evaluated one by one or in one template; the whole graph against a model after each. Non-trivial: 2 or more assignments.",
		120000, 1500000, genAsg, checkAsg, nil)
}
