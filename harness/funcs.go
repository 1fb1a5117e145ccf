// C29: functions and methods called from paths, expressions and templates.
package main

import (
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"

	"github.com/rveen/ogdl"
	"pgregory.net/rapid"
)

// recorder notes the calls.
type recorder struct{ calls []string }

func (r *recorder) note(name string, args ...interface{}) {
	var b strings.Builder
	b.WriteString(name)
	for _, a := range args {
		b.WriteString("|" + argVal(a))
	}
	r.calls = append(r.calls, b.String())
}

func argVal(a interface{}) string {
	switch x := a.(type) {
	case *ogdl.Graph:
		if x == nil {
			return "*Graph nil"
		}
		var l []string
		for _, k := range x.Out {
			l = append(l, dump(k))
		}
		return fmt.Sprintf("graph %q", l)
	case []string:
		return fmt.Sprintf("strings %q", x)
	}
	return val(a)
}

// calc is an object with methods.
type calc struct{ r *recorder }

func (c *calc) M0() string              { c.r.note("M0"); return "none" }
func (c *calc) MI(i int64) int64        { c.r.note("MI", i); return i ^ 5 }
func (c *calc) MInt(i int) int          { c.r.note("MInt", i); return i ^ 3 }
func (c *calc) MF(f float64) float64    { c.r.note("MF", f); return f / 2 }
func (c *calc) MS(s string) string      { c.r.note("MS", s); return "<" + s + ">" }
func (c *calc) MB(b bool) bool          { c.r.note("MB", b); return !b }
func (c *calc) ML(l []string) string    { c.r.note("ML", l); return strings.Join(l, "+") }
func (c *calc) MG(s string) *ogdl.Graph { c.r.note("MG", s); return answerGraph(s) }
func (c *calc) MV(l ...string) string   { c.r.note("MV", l); return strings.Join(l, "-") }
func (c *calc) MGr(g *ogdl.Graph) int64 { c.r.note("MGr", g); return int64(g.Len()) }
func (c *calc) MMany(a string, b, c1 int64, d float64, e, f string) string {
	c.r.note("MMany", a, b, c1, d, e, f)
	return fmt.Sprint(a, b, c1, d, e, f)
}
func (c *calc) Mix(i int64, s string, f float64, b bool) string {
	c.r.note("Mix", i, s, f, b)
	return fmt.Sprint(i, s, f, b)
}

func answerGraph(s string) *ogdl.Graph {
	g := ogdl.New("_")
	g.Add("r").Add(s)
	g.Add("q").Add("1")
	g.Add("q").Add("2")
	return g
}

// the functions and their results
func newFuncs(r *recorder) map[string]interface{} {
	return map[string]interface{}{
		"f0":   func() string { r.note("f0"); return "none" },
		"fi":   func(i int64) int64 { r.note("fi", i); return i ^ 5 },
		"ff":   func(f float64) float64 { r.note("ff", f); return f / 2 },
		"fs":   func(s string) string { r.note("fs", s); return "<" + s + ">" },
		"fb":   func(b bool) bool { r.note("fb", b); return !b },
		"fis":  func(i int64, s string) string { r.note("fis", i, s); return fmt.Sprint(i, s) },
		"fany": func(a interface{}) interface{} { r.note("fany", a); return a },
		"fa3":  func(a, b, c interface{}) string { r.note("fa3", a, b, c); return argVal(a) + argVal(b) + argVal(c) },
		"fa6": func(a, b, c, d, e, f interface{}) string {
			r.note("fa6", a, b, c, d, e, f)
			return argVal(a) + argVal(b) + argVal(c) + argVal(d) + argVal(e) + argVal(f)
		},
		"fmany": func(a string, b, c int64, d float64, e string) string {
			r.note("fmany", a, b, c, d, e)
			return fmt.Sprint(a, b, c, d, e)
		},
		"fg":  func(g *ogdl.Graph) int64 { r.note("fg", g); return int64(g.Len()) },
		"fgr": func(s string) *ogdl.Graph { r.note("fgr", s); return answerGraph(s) },
		"fno": func(i int64) { r.note("fno", i) },
		"fes": func(s string) (string, error) { r.note("fes", s); return s + "!", nil },
		"rf":  func(g *ogdl.Graph) (*ogdl.Graph, error) { return remote(r, g), nil },
	}
}

// remote answers with what it received.
func remote(r *recorder, g *ogdl.Graph) *ogdl.Graph {
	var l []interface{}
	name := "?"
	if g.Len() == 1 {
		name = g.Out[0].ThisString()
		for _, k := range g.Out[0].Out {
			if k.Len() > 0 {
				l = append(l, k)
				continue
			}
			l = append(l, k.This)
		}
	}
	r.note("rf:"+name, l...)
	return answerGraph(name)
}

var funcParams = map[string][]string{
	"f0": {}, "fi": {"int64"}, "ff": {"float64"}, "fs": {"string"}, "fb": {"bool"}, "fis": {"int64", "string"}, "fany": {"any"}, "fa3": {"any", "any", "any"},
	"fg": {"graph"}, "fgr": {"string"}, "fno": {"int64"}, "fes": {"string"},
	"fa6": {"any", "any", "any", "any", "any", "any"}, "fmany": {"string", "int64", "int64", "float64", "string"},
}
var methodParams = map[string][]string{
	"M0": {}, "MI": {"int64"}, "MInt": {"int"}, "MF": {"float64"}, "MS": {"string"}, "MB": {"bool"}, "ML": {"strings"}, "MG": {"string"}, "Mix": {"int64", "string", "float64", "bool"},
	"MV": {"strings"}, "MGr": {"graph"}, "MMany": {"string", "int64", "int64", "float64", "string", "string"},
}
var funcNames = []string{"f0", "fi", "ff", "fs", "fb", "fis", "fany", "fa3", "fg", "fgr", "fno", "fes", "fa6", "fmany"}
var methodNames = []string{"M0", "MI", "MInt", "MF", "MS", "MB", "ML", "MG", "Mix", "MV", "MGr", "MMany"}

// allIndex is the place of a function (or obj, rf) in the list "all".
func allIndex(name string) int {
	for i, n := range append([]string{"obj", "rf"}, funcNames...) {
		if n == name {
			return i
		}
	}
	return -1
}

// farg is an argument: an expression, a list variable, or a call of fany with an expression.
type farg struct {
	E    *E     `json:"e,omitempty"`
	List []PE   `json:"list,omitempty"`
	Call string `json:"call,omitempty"` // fany(E), fi(E), …
}

type funcCase struct {
	Vars []xvar `json:"vars"`
	List []S    `json:"list"`
	Kind string `json:"kind"` // function, method, remote, missing
	Sub  bool   `json:"sub"`  // stored below a node, not in the root
	Name string `json:"name"`
	Args []farg `json:"args"`
	Tail string `json:"tail,omitempty"` // path after the call
	Text S      `json:"text"`           // the call as written
	Form string `json:"form"`           // path, expression, arith, template, get
}

func genArg(t *rapid.T, vars []xvar, kind string) farg {
	switch kind {
	case "graph", "strings":
		if !chance(t, 4, "other") {
			return farg{List: nm(pick(t, "graph", "list", "list", "deep"))}
		}
	case "any":
		if chance(t, 6, "list") {
			return farg{List: nm(pick(t, "graph", "list", "deep"))}
		}
	}
	k := map[string]string{"int64": "num", "int": "num", "float64": "num", "string": "str", "bool": "bool"}[kind]
	if k == "" || chance(t, 6, "kind") {
		k = pick(t, "k", "num", "str", "bool")
	}
	a := farg{}
	if k == "num" && kind != "any" && chance(t, 4, "asstring") {
		// a number given as a string: a literal or a variable
		a.E = &E{Op: "lit", V: &V{T: "string", S: S(pick(t, "ns", "7", "-2", "010", "-0070", "08", "00.5", "1.5", "3.14159265358979", "9007199254740993", "-16777217", "0.1", "1e-9", "12x"))}}
		if rapid.Bool().Draw(t, "asvar") {
			a.E = &E{Op: "var", Path: nm("s")}
		}
		return a
	}
	if kind == "bool" && chance(t, 5, "asstring") {
		a.E = &E{Op: "lit", V: &V{T: "string", S: S(pick(t, "bs", "true", "true", "false", "yes", "True", "1"))}}
		return a
	}
	switch uni(t, 4, "arg") {
	case 0:
		a.E = genE(t, vars, k, 1+uni(t, 2, "depth"))
	case 1:
		if k == "str" && chance(t, 2, "nested") {
			if chance(t, 4, "bad") {
				return farg{Call: "bad", E: &E{Op: "lit", V: &V{T: "int64", I: 1}}}
			}
			return farg{Call: "fs", E: genE(t, vars, "str", 0)}
		}
		if k == "num" && chance(t, 2, "nested") {
			return farg{Call: "fi", E: &E{Op: "lit", V: &V{T: "int64", I: int64(uni(t, 50, "i"))}}}
		}
		fallthrough
	default:
		// of the right type
		for i := 0; i < 12; i++ {
			a.E = genE(t, vars, k, 0)
			switch x := refEval(a.E, varsModel(vars)).(type) {
			case int64:
				if kind == "int64" || kind == "int" || kind == "any" {
					return a
				}
			case float64:
				if kind == "float64" {
					return a
				}
			default:
				_ = x
				return a
			}
		}
	}
	return a
}

func genFunc(t *rapid.T) funcCase {
	c := funcCase{Kind: pick(t, "kind", "function", "function", "method", "method", "remote", "missing"), Sub: rapid.Bool().Draw(t, "sub")}
	for _, v := range newVars(t) {
		if kindOf(v.V) != "num" || v.V.T == "int64" || v.V.T == "float64" {
			// numbers that need all of their digits
			if chance(t, 6, "digits") {
				switch {
				case v.V.T == "float64":
					v.V = vf(pick(t, "f", 3.14159265358979, 123456789.125, 1e-9, 16777217.0, 1e22, -0.1))
				case v.V.T == "int64" && string(v.Path[0].S) == "j":
					v.V = vi(pick(t, "i", int64(1)<<53+1, 16777217, -1<<40, math.MaxInt64))
				case v.V.T == "string":
					v.V = vs(pick(t, "s", "010", "-0070", "3.14159265358979", "9007199254740993", "-16777217", "0.1", "1e-9"))
				}
			}
			c.Vars = append(c.Vars, v)
		}
	}
	n := 2 + uni(t, 3, "list")
	if chance(t, 50, "longlist") {
		n = 20 + uni(t, 300, "list")
	}
	for ; n > 0; n-- {
		c.List = append(c.List, S(pick(t, "item", "x", "two words", "3", "é", "")))
	}
	var params []string
	switch c.Kind {
	case "function":
		c.Name = funcNames[uni(t, len(funcNames), "fn")]
		params = funcParams[c.Name]
	case "method":
		c.Name = methodNames[uni(t, len(methodNames), "fn")]
		params = methodParams[c.Name]
	case "remote":
		c.Name = pick(t, "rname", "proc", "get", "x1", "fi")
		n := uni(t, 4, "nargs")
		if chance(t, 8, "more") {
			n = 4 + uni(t, 12, "nargs")
		}
		for ; n > 0; n-- {
			params = append(params, "any")
		}
	case "missing":
		c.Name = pick(t, "none", "nofunc", "obj.Nope", "obj.note", "f0.foo", "fi.x", "list.f", "s.M0", "obj.m0", "i")
		params = []string{"any"}
	}
	for _, p := range params {
		c.Args = append(c.Args, genArg(t, c.Vars, p))
	}
	if chance(t, 6, "count") {
		if rapid.Bool().Draw(t, "less") && len(c.Args) > 0 {
			c.Args = c.Args[:len(c.Args)-1]
		} else {
			c.Args = append(c.Args, genArg(t, c.Vars, "any"))
		}
	}
	var b strings.Builder
	if c.Sub && c.Kind != "missing" {
		b.WriteString("sub.")
	}
	first, rest := c.Name, ""
	switch c.Kind {
	case "method":
		first, rest = "obj", "."+c.Name
	case "remote":
		first, rest = "rf", "."+c.Name
	}
	if c.Kind != "missing" && chance(t, 4, "via") {
		// the function or object reached in other ways than by its name
		switch uni(t, 4, "via") {
		case 0:
			first = fmt.Sprintf("all[%d]", allIndex(first))
		case 1:
			first = "all.('" + first + "')"
		case 2:
			first += "{0}"
		case 3:
			first = "all." + first
		}
	}
	b.WriteString(first + rest + "(")
	for i, a := range c.Args {
		if i > 0 {
			b.WriteString(pick(t, "comma", ",", ", ", " , "))
		}
		switch {
		case a.List != nil:
			b.WriteString(writePathX(t, a.List))
		case a.Call == "bad":
			b.WriteString("fs()")
		case a.Call != "":
			b.WriteString(a.Call + "(" + writeE(t, a.E, false) + ")")
		default:
			b.WriteString(writeE(t, a.E, false))
		}
	}
	b.WriteString(")")
	c.Form = pick(t, "form", "path", "path", "expression", "template")
	if c.Kind == "function" && (c.Name == "fi" || c.Name == "fg") || c.Name == "MI" {
		if rapid.Bool().Draw(t, "arith") {
			c.Form = "arith"
		}
	}
	if c.Name == "fgr" || c.Name == "MG" || c.Kind == "remote" {
		c.Tail = pick(t, "tail", "", ".r", ".r", "[0]", ".q", ".missing", ".q{1}")
		if chance(t, 3, "get") {
			c.Form = "get"
		}
	}
	b.WriteString(c.Tail)
	c.Text = S(b.String())
	return c
}

// param converts the value of an argument to the type of a parameter. fits: it
// is of that type, or (methods) is converted. judged: the property settles it.
func param(typ string, v interface{}, method, plainVar bool) (x interface{}, fits, judged bool) {
	if _, ok := v.(undef); ok {
		return nil, false, false
	}
	if v == nil && method {
		return nil, false, false // (no value: the zero value is passed)
	}
	g, isG := v.(*N)
	if !method {
		switch typ {
		case "any":
			if isG {
				return g.graph(), true, true
			}
			return v, true, true
		case "graph":
			if isG {
				return g.graph(), true, true
			}
			return nil, v == nil, v != nil // (no value: a nil graph is passed)
		}
		if isG {
			return nil, false, true
		}
		return v, val(v) == "nil" || reflect.TypeOf(v).String() == typ, true
	}
	if isG {
		if typ == "strings" {
			var l []string
			for _, k := range g.K {
				l = append(l, nameOf(k.V))
			}
			return l, true, true
		}
		if typ == "graph" {
			return g.graph(), true, true
		}
		return nil, false, false
	}
	if typ == "graph" {
		return nil, false, !plainVar
	}
	if typ == "strings" {
		return nil, false, plainVar == false
	}
	switch a := v.(type) {
	case int64:
		switch typ {
		case "int64":
			return a, true, true
		case "int":
			return int(a), true, true
		case "float64":
			return float64(a), true, true
		case "string":
			if plainVar {
				return fmt.Sprint(a), true, true
			}
			return nil, false, false
		}
		return nil, false, false
	case float64:
		switch typ {
		case "float64":
			return a, true, true
		case "int64", "int":
			if math.Abs(a) > 1e15 || a != a {
				return nil, false, false
			}
			if typ == "int" {
				return int(a), true, true
			}
			return int64(a), true, true
		case "string":
			if plainVar {
				return fmt.Sprint(a), true, true
			}
			return nil, false, false
		}
		return nil, false, false
	case bool:
		switch typ {
		case "bool":
			return a, true, true
		}
		return nil, false, false
	case string:
		switch typ {
		case "string":
			return a, true, true
		case "int64", "int":
			if i, err := strconv.ParseInt(a, 10, 64); err == nil && (typ == "int64" || plainVar) {
				if typ == "int" {
					return int(i), true, true
				}
				return i, true, true
			}
		case "float64":
			if f, err := strconv.ParseFloat(a, 64); err == nil {
				return f, true, true
			}
		case "bool":
			if a == "true" || a == "false" {
				return a == "true", true, true
			}
		}
		return nil, false, false
	}
	return nil, false, false
}

// floatMod: the value of e comes from a remainder with floats.
func (e *E) floatMod(model *N) bool {
	if e == nil {
		return false
	}
	if e.Op == "%" {
		_, f := refEval(e.L, model).(float64)
		_, f2 := refEval(e.R, model).(float64)
		if f || f2 {
			return true
		}
	}
	return e.L.floatMod(model) || e.R.floatMod(model)
}

func (c *funcCase) argValue(a farg, model *N) (interface{}, string) {
	if a.List != nil {
		return getN(model, a.List), ""
	}
	if a.Call == "bad" {
		return undef{}, "" // (a call that fails)
	}
	v := refEval(a.E, model)
	if a.E.floatMod(model) {
		return undef{}, "" // (the remainder of floats is an int, which an int64 parameter does not take)
	}
	switch a.Call {
	case "fs":
		s, ok := v.(string)
		if !ok {
			return undef{}, ""
		}
		return "<" + s + ">", "fs|" + val(s)
	case "fi":
		i, ok := v.(int64)
		if !ok {
			return undef{}, ""
		}
		return i ^ 5, "fi|" + val(i)
	}
	return v, ""
}

func checkFunc(c funcCase, o *Obs) error {
	model := varsModel(c.Vars)
	l := &N{V: vs("list")}
	for _, s := range c.List {
		l.K = append(l.K, &N{V: vs(string(s))})
	}
	model.K = append(model.K, l)
	// a graph with a single subnode
	deep := &N{V: vs("deep"), K: []*N{{V: vs("only")}}}
	for i, s := range c.List {
		deep.K[0].K = append(deep.K[0].K, &N{V: vs(string(s)), K: []*N{{V: vi(int64(i))}}})
	}
	model.K = append(model.K, deep)
	g := model.graph()
	rec := &recorder{}
	at := g
	funcs := newFuncs(rec)
	if c.Sub {
		at = g.Add("sub")
	}
	for _, x := range []*ogdl.Graph{g, at} {
		for _, n := range append([]string{"rf"}, funcNames...) {
			if x.Node(n) == nil {
				x.Add(n).Add(funcs[n])
			}
		}
		if x.Node("obj") == nil {
			x.Add("obj").Add(&calc{rec})
		}
		if x.Node("all") == nil {
			all := x.Add("all")
			for _, n := range append([]string{"obj", "rf"}, funcNames...) {
				all.Add(x.Node(n))
			}
		}
	}

	// what is to be called, and with what
	var want []string // nested calls, then the call
	call := true      // is it called?
	judged := true
	var args []interface{}
	params := funcParams[c.Name]
	method := c.Kind == "method"
	miscount := c.Kind == "function" && len(c.Args) != len(params)
	if method {
		params = methodParams[c.Name]
		if len(c.Args) != len(params) {
			judged = false // (zero values, or ignored)
		}
	} else if c.Kind == "function" && len(c.Args) != len(params) {
		call = false
	}
	for i, a := range c.Args {
		v, nested := c.argValue(a, model)
		if nested != "" {
			want = append(want, nested)
		}
		if _, ok := v.(undef); ok {
			judged = false
			continue
		}
		switch c.Kind {
		case "remote":
			if n, ok := v.(*N); ok {
				// (the graph, with all of its subnodes)
				v = n.graph()
			}
			if v == nil {
				judged = false // (no value)
			}
			args = append(args, v)
			continue
		case "missing":
			continue
		}
		if i >= len(params) {
			continue
		}
		plainVar := a.Call == "" && a.E != nil && a.E.Op == "var"
		x, fits, j := param(params[i], v, method, plainVar)
		if !j {
			judged = false
		}
		if !fits {
			call = false
		}
		args = append(args, x)
	}
	o.Label(c.Kind)
	o.LabelIf(!judged, "unsettled")
	if c.Kind == "missing" {
		call = false
	}
	var result interface{}
	if judged && call {
		ref := &recorder{}
		switch c.Kind {
		case "remote":
			ref.note("rf:"+c.Name, args...)
			result = answerGraph(c.Name)
			want = append(want, ref.calls...)
		default:
			f := reflect.ValueOf(newFuncs(ref)[c.Name])
			if method {
				f = reflect.ValueOf(&calc{ref}).MethodByName(c.Name)
			}
			var in []reflect.Value
			for i, a := range args {
				if a == nil {
					in = append(in, reflect.Zero(f.Type().In(i)))
					continue
				}
				in = append(in, reflect.ValueOf(a))
			}
			var out []reflect.Value
			if f.Type().IsVariadic() {
				out = f.CallSlice(in)
			} else {
				out = f.Call(in)
			}
			if len(out) > 0 {
				result = out[0].Interface()
			}
			want = append(want, ref.calls...)
		}
		o.NonTrivial(len(args) > 0)
	} else {
		o.LabelIf(judged, "not to be called")
	}

	// evaluate, twice from the same parsed form
	text := string(c.Text)
	var parsed *ogdl.Graph
	switch c.Form {
	case "path", "get":
		parsed = ogdl.NewPath(text)
	case "expression":
		parsed = ogdl.NewExpression(text)
	case "arith":
		parsed = ogdl.NewExpression(text + " * 2 + 1")
	case "template":
		parsed = ogdl.NewTemplate("[${" + text + "}]")
	}
	for pass := 0; pass < 2; pass++ {
		rec.calls = nil
		var got interface{}
		var err error
		switch c.Form {
		case "template":
			got = string(parsed.Process(g))
		case "get":
			got = g.Get(text)
		default:
			got, err = g.Eval(parsed)
		}
		if miscount && c.Name != "fs" && c.Name != "fi" {
			for _, x := range rec.calls {
				if strings.HasPrefix(x, c.Name+"|") {
					return fmt.Errorf("%s: called with %d arguments: %s", text, len(c.Args), clip(x))
				}
			}
		}
		if !judged {
			continue
		}
		if c.Form == "arith" && !call {
			continue // (an error or no value, in arithmetic)
		}
		calls := strings.Join(rec.calls, "\n")
		if !call {
			// (the nested calls may or may not have been made)
			for _, x := range rec.calls {
				nested := false
				for _, w := range want {
					nested = nested || w == x
				}
				if !nested {
					return fmt.Errorf("%s: called, although the arguments do not fit or it does not exist: %s", text, clip(x))
				}
			}
			if c.Form == "template" {
				if c.Kind == "function" && got != "[]" {
					return fmt.Errorf("template [${%s}]: %q, want no value", text, clip(got.(string)))
				}
				continue
			}
			if err == nil && !isNothing(got) && c.Kind != "missing" {
				return fmt.Errorf("%s: %s, want an error or no value", text, clip(val(got)))
			}
			continue
		}
		if calls != strings.Join(want, "\n") {
			return fmt.Errorf("%s: calls %q, want %q", text, clip(calls), clip(strings.Join(want, "\n")))
		}
		if err != nil {
			return fmt.Errorf("%s: error %v", text, err)
		}
		if err := c.checkResult(result, got); err != nil {
			return err
		}
	}
	return nil
}

func (c *funcCase) checkResult(result, got interface{}) error {
	bad := func(want interface{}) error {
		return fmt.Errorf("%s (%s): %s, want %s", c.Text, c.Form, clip(val(got)), clip(val(want)))
	}
	if rg, ok := result.(*ogdl.Graph); ok && c.Name != "fany" {
		var want []string // of the subnodes
		r := rg.Out[0].Out[0].ThisString()
		switch c.Tail {
		case "":
			want = []string{"r", "q", "q"}
		case ".r":
			want = []string{r}
		case "[0]":
			want = []string{"r"}
		case ".q":
			want = []string{"1"}
		case ".q{1}":
			want = []string{"2"}
		case ".missing":
			if c.Form == "template" {
				if got != "[]" {
					return bad("[]")
				}
				return nil
			}
			if !isNothing(got) {
				return bad(nil)
			}
			return nil
		}
		if c.Form == "template" {
			s := got.(string)
			for _, w := range want {
				if !strings.Contains(s, w) {
					return fmt.Errorf("%s in a template: %q lacks %q", c.Text, clip(s), w)
				}
			}
			return nil
		}
		x, isg := got.(*ogdl.Graph)
		if !isg {
			if len(want) == 1 && str(got) == want[0] {
				return nil
			}
			return bad(strings.Join(want, ", "))
		}
		var l []string
		if x != nil {
			for _, k := range x.Out {
				l = append(l, k.ThisString())
			}
		}
		if strings.Join(l, "\x01") != strings.Join(want, "\x01") {
			return bad(strings.Join(want, ", "))
		}
		return nil
	}
	switch c.Form {
	case "template":
		if g, ok := result.(*ogdl.Graph); ok {
			result = g.Text()
		}
		if result == nil {
			result = ""
		}
		if want := "[" + str(result) + "]"; got != want {
			return bad(want)
		}
	case "arith":
		i, ok := result.(int64)
		if ok && val(got) != val(i*2+1) {
			return bad(i*2 + 1)
		}
	default:
		if argVal(got) != argVal(result) {
			return bad(result)
		}
	}
	return nil
}

func init() {
	reg("C29", "calls",
		"random calls of Go functions, methods of an object, remote-style functions and names that do not exist, from paths, expressions and templates, with arguments that are literals, expressions, variables, lists and nested calls, of fitting and not fitting types and number, with a path after the call; the functions record what they receive. Non-trivial: a call with arguments that has to be made.",
		240000, 2500000, genFunc, checkFunc, nil)
}
