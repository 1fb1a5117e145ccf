// C13: typed access. C30: operations on a missing node.
package main

import (
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"

	"github.com/rveen/ogdl"
	"pgregory.net/rapid"
)

// ---- C13

type accessCase struct {
	V    V   `json:"v"`    // the value
	Rest []V `json:"rest"` // further subnodes of the node
	DefI int64
	DefF uint64
	DefB bool
	DefS S
}

func genAccess(t *rapid.T) accessCase {
	c := accessCase{DefI: int64(uni(t, 5, "di")) - 2, DefF: math.Float64bits(float64(uni(t, 9, "df")-4) / 2), DefB: rapid.Bool().Draw(t, "db"), DefS: S(pick(t, "ds", "", "def", "0"))}
	switch uni(t, 10, "kind") {
	case 0, 1:
		c.V = anyV(t)
	case 2:
		c.V = V{T: "nil"}
	case 3, 4, 5:
		c.V = vs(numberish[uni(t, len(numberish), "num")])
		if chance(t, 3, "edit") {
			c.V.S = S(pick(t, "pre", "", " ", "-", "+", "0", "a")) + c.V.S + S(pick(t, "post", "", " ", "0", ".", "e", "a", "\n"))
		}
		if chance(t, 8, "long") {
			z := strings.Repeat(pick(t, "fill", "0", "0", "1", "9", " "), longLen(t, 300))
			s := string(c.V.S)
			i := 0
			if s != "" && (s[0] == '-' || s[0] == '+') {
				i = 1
			}
			switch uni(t, 3, "where") {
			case 0:
				s = s[:i] + z + s[i:]
			case 1:
				s += z
			case 2:
				if k := strings.IndexByte(s, '.'); k >= 0 {
					s = s[:k+1] + z + s[k+1:]
				} else {
					s += "." + z
				}
			}
			c.V.S = S(s)
		}
		if chance(t, 3, "bytes") {
			c.V.T = "bytes"
		}
	case 6:
		c.V = vs(strconv.FormatInt(rapid.Int64().Draw(t, "i"), 10))
	case 7:
		c.V = vs(strconv.FormatFloat(rapid.Float64().Draw(t, "f"), pick(t, "fmt", byte('g'), 'f', 'e'), -1, 64))
	case 8:
		ty := pick(t, "ty", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64")
		i := rapid.Int64().Draw(t, "i")
		c.V = V{T: ty, I: i}
		switch ty { // as it is after the conversion
		case "int8":
			c.V.I = int64(int8(i))
		case "int16":
			c.V.I = int64(int16(i))
		case "int32":
			c.V.I = int64(int32(i))
		case "uint8":
			c.V.I = int64(uint8(i))
		case "uint16":
			c.V.I = int64(uint16(i))
		case "uint32":
			c.V.I = int64(uint32(i))
		case "uint", "uint64":
			c.V.I = i & math.MaxInt64
		}
	case 9:
		f := rapid.Float64().Draw(t, "f")
		c.V = vf(f)
		if chance(t, 2, "integral") {
			c.V = vf(math.Trunc(math.Mod(f, 1<<52)))
		}
		if chance(t, 4, "f32") {
			c.V = V{T: "float32", F: math.Float64bits(float64(float32(f)))}
			if math.IsInf(c.V.f(), 0) {
				c.V.F = math.Float64bits(1.5)
			}
		}
	}
	for n := uni(t, 3, "rest"); n > 0; n-- {
		c.Rest = append(c.Rest, anyV(t))
	}
	return c
}

// numText tells if a text is a decimal integer or a decimal number.
func numText(s string) (isInt, isNum bool) {
	r := s
	if r != "" && (r[0] == '-' || r[0] == '+') {
		r = r[1:]
	}
	digits := func() int {
		n := 0
		for n < len(r) && r[n] >= '0' && r[n] <= '9' {
			n++
		}
		r = r[n:]
		return n
	}
	a := digits()
	if r == "" {
		return a > 0, a > 0
	}
	if r[0] == '.' {
		r = r[1:]
		a += digits()
	}
	if a == 0 {
		return false, false
	}
	if r != "" && (r[0] == 'e' || r[0] == 'E') {
		r = r[1:]
		if r != "" && (r[0] == '-' || r[0] == '+') {
			r = r[1:]
		}
		if digits() == 0 {
			return false, false
		}
	}
	return false, r == ""
}

// what the value represents
type rep struct {
	text           string
	isInt          bool // represents an int64
	i              int64
	isFloat        bool // represents a number within the range of float64
	f              float64
	isBool, b      bool
	intOK, floatOK bool // the property settles Int64 / Float64
	boolOK         bool
}

func represent(v V) rep {
	r := rep{text: str(v.val()), intOK: true, floatOK: true, boolOK: true}
	switch {
	case v.T == "nil" || v.T == "":
	case v.T == "string" || v.T == "bytes":
		isInt, isNum := numText(r.text)
		if isInt {
			n, _ := new(big.Int).SetString(strings.TrimPrefix(r.text, "+"), 10)
			if n.IsInt64() {
				r.isInt, r.i = true, n.Int64()
			}
		}
		if isNum {
			f, err := strconv.ParseFloat(r.text, 64)
			r.isFloat, r.f = err == nil, f
		} else if _, err := strconv.ParseFloat(r.text, 64); err == nil {
			r.floatOK = false // inf, nan, hexadecimal
		}
		r.isBool, r.b = r.text == "true" || r.text == "false", r.text == "true"
	case v.T == "bool":
		r.isBool, r.b = true, v.B
	case v.T == "float64", v.T == "float32":
		f := v.f()
		if v.T == "float32" {
			f = float64(float32(f))
		}
		r.isFloat, r.f = true, f
		if f == math.Trunc(f) && math.Abs(f) <= 1<<53 {
			r.isInt, r.i = true, int64(f)
		} else {
			r.intOK = false
		}
		r.boolOK = false
	default:
		r.isInt, r.i = true, v.I
		r.isFloat, r.f = true, float64(v.I)
		r.boolOK = false
	}
	return r
}

func close32(a, b float64) bool { return a == b || float32(a) == float32(b) }

func checkAccess(c accessCase, o *Obs) error {
	v := c.V.val()
	r := represent(c.V)
	isF32 := c.V.T == "float32"
	eqF := func(a float64) bool { return a == r.f || isF32 && close32(a, r.f) }
	g := ogdl.New("node")
	g.Out = append(g.Out, ogdl.New(v))
	for _, x := range c.Rest {
		g.Out = append(g.Out, ogdl.New(x.val()))
	}
	this := ogdl.New(v) // holds the value as its own content
	top := ogdl.New("_")
	top.Out = append(top.Out, g)
	before, before2 := dump(top), dump(this)
	o.NonTrivial(c.V.T != "nil")
	o.Label(c.V.T)
	o.LabelIf(r.isInt, "represents an integer")
	o.LabelIf(r.isFloat, "represents a number")
	o.LabelIf(r.isBool, "represents a boolean")

	// integers
	if r.intOK {
		w, wd := r.i, r.i
		if !r.isInt {
			w, wd = 0, c.DefI
		}
		if x := g.Int64(); x != w {
			return fmt.Errorf("Int64() of %s is %d, want %d", val(v), x, w)
		}
		if x := g.Int64(c.DefI); x != wd {
			return fmt.Errorf("Int64(%d) of %s is %d, want %d", c.DefI, val(v), x, wd)
		}
		if x, ok := this.ThisInt64(); ok != r.isInt || x != w {
			return fmt.Errorf("ThisInt64() of %s is %d, %v, want %d", val(v), x, ok, w)
		}
		if x, err := top.GetInt64("node"); (err == nil) != r.isInt || x != w {
			return fmt.Errorf("GetInt64() of %s is %d, %v, want %d", val(v), x, err, w)
		}
	}
	// floats
	if r.floatOK {
		if x := g.Float64(); r.isFloat && !eqF(x) || !r.isFloat && !math.IsNaN(x) {
			return fmt.Errorf("Float64() of %s is %v, want %v (%v)", val(v), x, r.f, r.isFloat)
		}
		d := math.Float64frombits(c.DefF)
		if x := g.Float64(d); r.isFloat && !eqF(x) || !r.isFloat && x != d {
			return fmt.Errorf("Float64(%v) of %s is %v, want %v (%v)", d, val(v), x, r.f, r.isFloat)
		}
		if x, ok := this.ThisFloat64(); ok != r.isFloat || r.isFloat && !eqF(x) || !r.isFloat && x != 0 {
			return fmt.Errorf("ThisFloat64() of %s is %v, %v, want %v", val(v), x, ok, r.f)
		}
		if x, err := top.GetFloat64("node"); (err == nil) != r.isFloat || r.isFloat && !eqF(x) || !r.isFloat && x != 0 {
			return fmt.Errorf("GetFloat64() of %s is %v, %v, want %v", val(v), x, err, r.f)
		}
	}
	// booleans
	if r.boolOK {
		if x := g.Bool(); x != (r.isBool && r.b) {
			return fmt.Errorf("Bool() of %s is %v", val(v), x)
		}
		w := c.DefB
		if r.isBool {
			w = r.b
		}
		if x := g.Bool(c.DefB); x != w {
			return fmt.Errorf("Bool(%v) of %s is %v", c.DefB, val(v), x)
		}
		if x, err := top.GetBool("node"); (err == nil) != r.isBool || x != (r.isBool && r.b) {
			return fmt.Errorf("GetBool() of %s is %v, %v", val(v), x, err)
		}
	}
	// text
	if x := g.String(); x != r.text {
		return fmt.Errorf("String() of %s is %q", val(v), x)
	}
	w := r.text
	if w == "" {
		w = string(c.DefS)
	}
	if x := g.String(string(c.DefS)); x != w {
		return fmt.Errorf("String(%q) of %s is %q", c.DefS, val(v), x)
	}
	if x := this.ThisString(); x != r.text {
		return fmt.Errorf("ThisString() of %s is %q", val(v), x)
	}
	if x, err := top.GetString("node"); err != nil || x != r.text {
		return fmt.Errorf("GetString() of %s is %q, %v", val(v), x, err)
	}
	if x := g.Bytes(); string(x) != r.text || v == nil && x != nil {
		return fmt.Errorf("Bytes() of %s is %q", val(v), x)
	}
	if x := this.ThisBytes(); string(x) != r.text || v == nil && x != nil {
		return fmt.Errorf("ThisBytes() of %s is %q", val(v), x)
	}
	if x, err := top.GetBytes("node"); string(x) != r.text || err != nil {
		return fmt.Errorf("GetBytes() of %s is %q, %v", val(v), x, err)
	}
	want := []string{r.text}
	for _, x := range c.Rest {
		want = append(want, nameOf(x))
	}
	if x := g.Strings(); strings.Join(x, "\x00") != strings.Join(want, "\x00") || len(x) != len(want) {
		return fmt.Errorf("Strings() is %q, want %q", x, want)
	}
	for i, f := range []func(...string) string{g.StringCSV, g.StringTxt} {
		sep := []string{", ", " "}[i]
		w := strings.Join(want, sep)
		if x := f(); x != w {
			return fmt.Errorf("StringCSV/Txt() is %q, want %q", x, w)
		}
		if w == "" {
			w = string(c.DefS)
		}
		if x := f(string(c.DefS)); x != w {
			return fmt.Errorf("StringCSV/Txt(%q) is %q, want %q", c.DefS, x, w)
		}
	}
	// as it is
	if x := g.Interface(); val(x) != val(v) {
		return fmt.Errorf("Interface() of %s is %s", val(v), val(x))
	}
	if x := g.Value(); v == nil && x.IsValid() || v != nil && val(x.Interface()) != val(v) {
		return fmt.Errorf("Value() of %s is %v", val(v), x)
	}
	if x := this.ThisValue(); v == nil && x.IsValid() || v != nil && val(x.Interface()) != val(v) {
		return fmt.Errorf("ThisValue() of %s is %v", val(v), x)
	}
	wt := ""
	if v != nil {
		wt = fmt.Sprintf("%T", v)
	}
	if x := this.ThisType(); x != wt {
		return fmt.Errorf("ThisType() of %s is %q", val(v), x)
	}
	// numbers and scalars
	isText := c.V.T == "string" || c.V.T == "bytes"
	plain := strings.HasPrefix(r.text, "-") || r.text == "" || r.text[0] >= '0' && r.text[0] <= '9'
	number := func(who string, x interface{}, scalar bool) error {
		bad := func(w string) error { return fmt.Errorf("%s of %s is %s, want %s", who, val(v), val(x), w) }
		isInt, isNum := numText(r.text)
		switch {
		case isText && !r.floatOK:
			return nil
		case isText && isInt && !r.isInt:
			return nil // out of the range of int64
		case isText && r.isInt && plain, v != nil && !isText && strings.Contains(c.V.T, "int"):
			if i, ok := x.(int64); !ok || i != r.i {
				return bad("an int64")
			}
		case isText && isNum && r.isInt:
			if y, err := strconv.ParseFloat(str(x), 64); err != nil || y != r.f {
				return bad("the number")
			}
		case isText && isNum && r.isFloat, !isText && strings.Contains(c.V.T, "float"):
			if f, ok := x.(float64); !ok || !eqF(f) {
				return bad("a float64")
			}
		case !scalar:
			if x != nil {
				return bad("nothing")
			}
		case r.isBool:
			if b, ok := x.(bool); !ok || b != r.b {
				return bad("a boolean")
			}
		default:
			if val(x) != val(v) {
				return bad("the same")
			}
		}
		return nil
	}
	for _, e := range []error{number("Number()", g.Number(), false), number("ThisNumber()", this.ThisNumber(), false), number("Scalar()", g.Scalar(), true), number("ThisScalar()", this.ThisScalar(), true)} {
		if e != nil {
			return e
		}
	}
	if dump(top) != before || dump(this) != before2 {
		return fmt.Errorf("typed access changed the node")
	}
	return nil
}

// ---- C30

type nilCase struct {
	Tree *T       `json:"tree"`
	Path S        `json:"path"` // does not exist in the tree
	Ops  []editOp `json:"ops"`
}

var nilOps = []string{"add", "addgraph", "addnodes", "copy", "clone", "node", "nodeornew", "nodeset", "create", "getat", "get", "delete", "clear", "deleteat", "set", "substitute", "merge", "find", "sort", "print", "equals", "typed", "getters", "eval", "process", "check", "len", "strings"}

func genNil(t *rapid.T) nilCase {
	c := nilCase{Tree: shape(t, 8, func(int) S { return pathContent(t) })}
	c.Path = S(pick(t, "path", "missing", "missing.a", "a.missing", "missing[0]", "a[100]", "missing{0}", "missing{}", "a.b.c.d.e.f.g", "[99]", "a[-1]", "missing.a[0].b", "'no such'"))
	for n := 1 + intn(t, 8, "n"); n > 0; n-- {
		c.Ops = append(c.Ops, editOp{Op: nilOps[uni(t, len(nilOps), "op")], S: S(pick(t, "s", "a", "", "a.b", "a[0]", "a{}", "a(1)", ".", "1", "(", "x y")), I: uni(t, 5, "i") - 2, V: anyV(t)})
	}
	return c
}

func checkNil(c nilCase, o *Obs) error {
	tree := c.Tree.graph()
	was := dump(tree)
	n := tree.Get(string(c.Path))
	if n != nil {
		// It exists, or is empty (which is another matter)
		n = nil
		o.Label("found")
	}
	o.NonTrivial(len(c.Ops) > 2)
	for i, op := range c.Ops {
		o.Label(op.Op)
		r, err := nilOp(n, op)
		if err != nil {
			return fmt.Errorf("op %d: %v", i, err)
		}
		n = r
	}
	if dump(tree) != was {
		return fmt.Errorf("operations on a missing node changed the graph")
	}
	return nil
}

// nilOp applies the operation to the nil node, and gives the node to go on with.
func nilOp(n *ogdl.Graph, op editOp) (r *ogdl.Graph, err error) {
	s := string(op.S)
	other := func() *ogdl.Graph { return ogdl.FromString("a\n  b\nc 1\na d") }
	none := func(x *ogdl.Graph) {
		if x != nil {
			err = fmt.Errorf("%s(%q) on a missing node gives %s", op.Op, s, clip(dump(x)))
		}
		r = x
	}
	is := func(ok bool, what string, x interface{}) {
		if !ok && err == nil {
			err = fmt.Errorf("%s(%q) on a missing node gives %s", what, s, clip(val(x)))
		}
	}
	switch op.Op {
	case "add":
		none(n.Add(op.V.val()))
	case "addgraph":
		none(n.Add(other()))
	case "addnodes":
		none(n.AddNodes(other()))
	case "copy":
		n.Copy(other())
		g := other()
		was := dump(g)
		g.Copy(n)
		g.AddNodes(n)
		g.Merge(n)
		is(dump(g) == was, "Copy, AddNodes, Merge of a missing node", dump(g))
	case "clone":
		none(n.Clone())
	case "node":
		none(n.Node(s))
	case "nodeornew":
		none(n.NodeOrNew(s))
	case "nodeset":
		none(n.NodeSet(s, op.V.val()))
	case "create":
		none(n.Create(s))
	case "getat":
		none(n.GetAt(op.I))
	case "get":
		none(n.Get(s))
	case "delete":
		n.Delete(op.V.val())
	case "clear":
		n.Clear()
	case "deleteat":
		n.DeleteAt(op.I)
	case "set":
		none(n.Set(s, op.V.val()))
	case "substitute":
		n.Substitute(s, op.V.val())
	case "merge":
		n.Merge(other())
	case "find":
		x, e := n.Find("a")
		is(x.Len() <= 0 && e == nil, "Find", x)
		_, e = n.Find("(")
		is(e != nil, "Find with a bad expression", e)
		if x, _ := n.Find("a"); x != nil {
			is(x.Len() == 0, "Find", x)
		}
	case "sort":
		n.Sort(s)
		n.SortAsString(s)
		n.SortAsInt(s)
	case "print":
		is(n.Text() == "", "Text", n.Text())
		is(n.Show() == "", "Show", n.Show())
		is(n.Html(s) == "", "Html", n.Html(s))
		is(strings.Trim(string(n.JSON()), " nul") == "", "JSON", n.JSON())
		b := n.Binary()
		is(ogdl.FromBinary(b).Len() <= 0, "Binary", b)
	case "equals":
		is(n.Equals(nil), "Equals(nil)", false)
		is(!n.Equals(other()), "Equals", true)
		is(!other().Equals(n), "Equals", true)
	case "typed":
		is(n.Int64() == 0, "Int64", n.Int64())
		is(n.Int64(7) == 7, "Int64(7)", n.Int64(7))
		is(math.IsNaN(n.Float64()), "Float64", n.Float64())
		is(n.Float64(1.5) == 1.5, "Float64(1.5)", n.Float64(1.5))
		is(!n.Bool(), "Bool", n.Bool())
		is(n.Bool(true), "Bool(true)", n.Bool(true))
		is(n.String() == "", "String", n.String())
		is(n.String("d") == "d", "String(d)", n.String("d"))
		is(n.ThisString() == "", "ThisString", n.ThisString())
		is(n.ThisString("d") == "d", "ThisString(d)", n.ThisString("d"))
		is(len(n.Bytes()) == 0, "Bytes", n.Bytes())
		is(len(n.ThisBytes()) == 0, "ThisBytes", n.ThisBytes())
		is(n.Number() == nil, "Number", n.Number())
		is(n.ThisNumber() == nil, "ThisNumber", n.ThisNumber())
		is(n.Scalar() == nil, "Scalar", n.Scalar())
		is(n.ThisScalar() == nil, "ThisScalar", n.ThisScalar())
		is(n.Interface() == nil, "Interface", n.Interface())
		is(!n.Value().IsValid(), "Value", nil)
		is(!n.ThisValue().IsValid(), "ThisValue", nil)
		is(n.ThisType() == "", "ThisType", n.ThisType())
		i, ok := n.ThisInt64()
		is(i == 0 && !ok, "ThisInt64", i)
		f, ok := n.ThisFloat64()
		is(f == 0 && !ok, "ThisFloat64", f)
	case "getters":
		if s == "" {
			s = "a"
		}
		x, e := n.GetString(s)
		is(x == "" && e != nil, "GetString", x)
		y, e := n.GetBytes(s)
		is(len(y) == 0 && e != nil, "GetBytes", y)
		i, e := n.GetInt64(s)
		is(i == 0 && e != nil, "GetInt64", i)
		f, e := n.GetFloat64(s)
		is(f == 0 && e != nil, "GetFloat64", f)
		b, e := n.GetBool(s)
		is(!b && e != nil, "GetBool", b)
	case "eval":
		x, _ := n.Eval(ogdl.NewPath("a.b"))
		is(isNothing(x), "Eval of a path", x)
		x, _ = n.Eval(ogdl.NewExpression("a"))
		is(isNothing(x), "Eval of an expression", x)
		x, _ = n.Eval(ogdl.NewExpression("1+2"))
		is(x == int64(3), "Eval of a constant expression", x)
		x, _ = n.Eval(ogdl.NewExpression("a = 2"))
		is(isNothing(x), "Eval of an assignment", x)
		n.Eval(ogdl.NewExpression(s))
		n.Eval(ogdl.NewPath(s))
		// and the missing expression
		x, _ = other().Eval(n)
		is(isNothing(x), "Eval of a missing expression", x)
		x, _ = n.Eval(nil)
		is(isNothing(x), "Eval of a missing expression", x)
	case "process":
		b := ogdl.NewTemplate("x$a.b-$for(i,a)y$end z$if(a)1$else 2$end").Process(n)
		is(strings.HasPrefix(string(b), "x-"), "Process", b)
		b = n.Process(other())
		is(len(b) == 0, "Process of a missing template", b)
		b = n.Process(nil)
		is(len(b) == 0, "Process of a missing template", b)
	case "check":
		ok, _ := n.Check(other())
		is(ok, "Check", ok)
		ok, msg := other().Check(n)
		is(!ok && msg != "", "Check of a missing node", msg)
	case "len":
		is(n.Len() <= 0, "Len", n.Len())
	case "strings":
		is(len(n.Strings()) == 0, "Strings", n.Strings())
		is(n.StringCSV() == "" && n.StringCSV("d") == "d", "StringCSV", n.StringCSV("d"))
		is(n.StringTxt() == "" && n.StringTxt("d") == "d", "StringTxt", n.StringTxt("d"))
	}
	return r, err
}

func isNothing(x interface{}) bool {
	if g, ok := x.(*ogdl.Graph); ok {
		return g.Len() <= 0
	}
	return x == nil
}

func init() {
	reg("C13", "access",
		"random values of every native type and number-like texts with random defaults; all getters (own content, first subnode, by path) against a reference that classifies the value by its own grammar; the node must stay the same. Non-trivial: the value is not nil.",
		750000, 12000000, genAccess, checkAccess, nil)
	reg("C30", "nil-chain",
		"random chains of all operations starting at the result of a failed lookup, going on with what each returns; each gives the empty, default or not-found result, none crashes, the graph looked up stays the same. Non-trivial: 3 or more operations.",
		600000, 6000000, genNil, checkNil, nil)
}
