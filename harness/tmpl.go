// C16: templates.
package main

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/rveen/ogdl"
	"pgregory.net/rapid"
)

// TI is an item of a template.
type TI struct {
	K    string `json:"k"` // text, var, brace, expr, if, for, break
	S    S      `json:"s,omitempty"`
	Path []PE   `json:"path,omitempty"`
	E    *E     `json:"e,omitempty"`
	Asg  *asgOp `json:"asg,omitempty"`
	Br   []TB   `json:"br,omitempty"`
	Else *[]TI  `json:"else,omitempty"`
	Body []TI   `json:"body,omitempty"`
	Sel  bool   `json:"sel,omitempty"` // for over name{}
}

// TB is a branch of an if.
type TB struct {
	E    *E   `json:"e"`
	Body []TI `json:"body"`
}

type tplCase struct {
	Vars  []xvar `json:"vars"`
	Lists []*N   `json:"lists"`
	Items []TI   `json:"items"`
	Text  S      `json:"text"`
}

var tplBits = []string{
	"a", "some text", " ", "\n", "\t", "$", "$ ", "$$", ".", ". ", "..", ",", "(", ")", "[", "]", "{", "}", "é", "日本語", "\xff", "\"", "'", "`", "\\", "#", "# x", "!", "0", "end", "if", "<a href='x'>", "&amp;", "~", "\\n", "=", "  ", "\r\n", "$(", "${", "$end", "else", "\x7f", "-", "\u0085", "\u3000", "\u200b", "x\ufeff", "\u00a0", "\r", "%s", "%", "\t\t", "\n\n",
}

func tplText(t *rapid.T) string {
	n := 1 + uni(t, 5, "n")
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(tplBits[uni(t, len(tplBits), "tb")])
	}
	s := b.String()
	if chance(t, 20, "long") {
		s = strings.Repeat(s, 1+uni(t, 2000, "rep"))
	}
	if chance(t, 25, "marker") {
		return pick(t, "mk", "!", "!if", "!end", "!for", "!break", "!p", "!e", "!else", "!t")
	}
	return s
}

type tplGen struct {
	t      *rapid.T
	vars   []xvar
	budget int
	nloop  int
	shared bool // loops may use the same variable
	pure   bool // no loops, no assignments
	sizes  map[string]int
}

// loop is an enclosing $for.
type loop struct {
	name string
	list string
}

func (g *tplGen) items(depth int, loops []loop, max int) []TI {
	var r []TI
	t := g.t
	n := uni(t, max+1, "items")
	if depth == 4 && n < 3 {
		n += 2
	}
	for ; n > 0 && g.budget > 0; n-- {
		g.budget--
		k := uni(t, 14, "item")
		if depth >= 3 && chance(t, 3, "structure") {
			k = 9 + uni(t, 4, "if/for")
		}
		if g.pure && (k == 11 || k == 12) {
			k = 9
		}
		switch {
		case k < 4:
			r = append(r, TI{K: "text", S: S(tplText(t))})
		case k < 8:
			r = append(r, TI{K: pick(t, "form", "var", "brace"), Path: g.path(loops)})
		case k == 8:
			it := TI{K: "expr"}
			if g.pure || chance(t, 4, "pure") {
				it.E = genE(t, g.vars, pick(t, "kind", "num", "bool", "str"), 1)
			} else {
				op := asgOp{Op: "+=", Path: nm("cnt"), E: &E{Op: "lit", V: &V{T: "int64", I: 1}}, N: 1}
				switch uni(t, 4, "asg") {
				case 0:
					op = asgOp{Op: "=", Path: nm("cnt"), E: genE(t, g.vars, "num", 1), N: 1}
				case 1:
					op = asgOp{Op: pick(t, "op", "=", "+="), Path: nm("acc"), E: genE(t, g.vars, "str", 0), N: 1}
				}
				if l := pick(t, "elem", "colors", "nums"); len(loops) > 0 && g.sizes[l] > 0 && chance(t, 3, "element") {
					// an element of a list, perhaps of the one that is travelled
					e := &E{Op: "lit", V: &V{T: "string", S: S(pick(t, "col", "red", "green", "blue"))}}
					if l == "nums" {
						e = &E{Op: "lit", V: &V{T: "int64", I: int64(uni(t, 7, "i"))}}
					}
					op = asgOp{Op: "=", Path: ix(nm(l), uni(t, g.sizes[l], "at")), E: e, N: 1}
				} else if len(loops) > 0 && rapid.Bool().Draw(t, "useloop") {
					l := loops[len(loops)-1]
					switch l.list {
					case "nums":
						op = asgOp{Op: "+=", Path: nm("cnt"), E: &E{Op: "var", Path: nm(l.name)}, N: 1}
					case "items":
						op = asgOp{Op: "+=", Path: nm("cnt"), E: &E{Op: "var", Path: nm(l.name, "item", "id")}, N: 1}
					case "colors":
						op = asgOp{Op: "=", Path: nm("acc"), E: &E{Op: "var", Path: nm(l.name)}, N: 1}
					}
				}
				it.Asg = &op
			}
			r = append(r, it)
		case k <= 10 && depth > 0:
			it := TI{K: "if"}
			for nb := 1 + uni(t, 3, "branches"); nb > 0; nb-- {
				it.Br = append(it.Br, TB{g.cond(loops), g.items(depth-1, loops, 4)})
			}
			if rapid.Bool().Draw(t, "else") {
				e := g.items(depth-1, loops, 4)
				it.Else = &e
			}
			r = append(r, it)
		case k <= 12 && depth > 0:
			g.nloop++
			name := fmt.Sprintf("x%d", g.nloop)
			if g.shared && chance(t, 2, "samename") {
				name = fmt.Sprintf("x%d", 1+uni(t, g.nloop, "name"))
			}
			it := TI{K: "for", S: S(name)}
			list := pick(t, "list", "colors", "nums", "items", "tree", "empty", "nolist", "tree", "i", "multi", "nest")
			it.Path = nm(list)
			switch list {
			case "multi":
				it.Sel = true
			case "nest":
				it.Path = ix(nm("nest"), uni(t, 3, "nest"))
			case "tree":
				// over the subnodes of an element of an enclosing loop
				for i := len(loops) - 1; i >= 0; i-- {
					if loops[i].list == "tree" {
						it.Path = ix(nm(loops[i].name), 0)
						break
					}
				}
			}
			it.Body = g.items(depth-1, append(loops[:len(loops):len(loops)], loop{name, list}), 5)
			r = append(r, it)
		case k == 13 && len(loops) > 0:
			r = append(r, TI{K: "break"})
		default:
			r = append(r, TI{K: "text", S: S(tplText(t))})
		}
	}
	return r
}

func (g *tplGen) cond(loops []loop) *E {
	t := g.t
	if len(loops) > 0 && chance(t, 2, "loopcond") {
		l := loops[uni(t, len(loops), "which")]
		switch l.list {
		case "nums":
			return &E{Op: pick(t, "cmp", cmpOps...), L: &E{Op: "var", Path: nm(l.name)}, R: &E{Op: "lit", V: &V{T: "int64", I: int64(uni(t, 6, "i"))}}}
		case "items":
			return &E{Op: pick(t, "cmp", cmpOps...), L: &E{Op: "var", Path: nm(l.name, "item", "id")}, R: &E{Op: "lit", V: &V{T: "int64", I: int64(uni(t, 6, "i"))}}}
		case "colors":
			return &E{Op: pick(t, "eq", "==", "!="), L: &E{Op: "var", Path: nm(l.name)}, R: &E{Op: "lit", V: &V{T: "string", S: S(pick(t, "col", "red", "green", "light blue"))}}}
		}
	}
	if chance(t, 8, "missing") {
		return &E{Op: "var", Path: nm("missing")}
	}
	if chance(t, 12, "text") {
		return genE(t, g.vars, "str", 0)
	}
	if chance(t, 8, "int") {
		return pick(t, "intcond", &E{Op: "var", Path: nm("cnt")}, &E{Op: "lit", V: &V{T: "int64", I: int64(uni(t, 3, "i"))}}, &E{Op: "-", L: &E{Op: "var", Path: nm("cnt")}, R: &E{Op: "lit", V: &V{T: "int64", I: 1}}})
	}
	if chance(t, 3, "cnt") {
		return &E{Op: pick(t, "cmp", cmpOps...), L: &E{Op: "var", Path: nm("cnt")}, R: &E{Op: "lit", V: &V{T: "int64", I: int64(uni(t, 6, "i"))}}}
	}
	return genE(t, g.vars, "bool", 1)
}

func (g *tplGen) path(loops []loop) []PE {
	t := g.t
	if len(loops) > 0 && chance(t, 2, "loopvar") {
		l := loops[uni(t, len(loops), "which")]
		switch uni(t, 4, "lv") {
		case 0:
			return ix(nm(l.name), 0)
		case 1:
			if l.list == "items" {
				return nm(l.name, "item", pick(t, "fld", "id", "name", "nofield"))
			}
		}
		return nm(l.name)
	}
	switch uni(t, 8, "pk") {
	case 0:
		return pick(t, "pt", nm("missing"), nm("n", "missing"), nm("missing", "x"), ix(nm("l"), 9), ix(nm("missing"), 0))
	case 1:
		return pick(t, "pt", nm("n"), nm("l"), nm("tree"), nm("items"), nm("empty"), ix(nm("tree"), 0), nm("colors"), ix(nm("items"), 1))
	case 2:
		return pick(t, "pt", nm("cnt"), nm("acc"))
	}
	return g.vars[uni(t, len(g.vars), "var")].Path
}

func genTpl(t *rapid.T) tplCase { return genTplOf(t, true) }

// (huge: also with lists of thousands)
func genTplOf(t *rapid.T, huge bool) tplCase {
	g := &tplGen{t: t, budget: 4 + uni(t, 40, "budget"), shared: chance(t, 3, "shared")}
	g.vars = append(newVars(t), xvar{nm("cnt"), vi(0)}, xvar{nm("acc"), vs("")})
	c := tplCase{Vars: g.vars}
	g.sizes = map[string]int{}
	if chance(t, 8, "taken") {
		// the context has something with the name of a loop variable
		for n := 1 + uni(t, 4, "taken"); n > 0; n-- {
			x := &N{V: vs(fmt.Sprintf("x%d", 1+uni(t, 3, "x")))}
			for k := uni(t, 3, "k"); k > 0; k-- {
				x.K = append(x.K, &N{V: vs(pick(t, "old", "old", "older"))})
			}
			c.Lists = append(c.Lists, x)
		}
	}
	list := func(name string, n int, f func(i int) *N) {
		g.sizes[name] = n
		l := &N{V: vs(name)}
		for i := 0; i < n; i++ {
			if i >= 500 {
				l.K = append(l.K, l.K[i%499].clone())
				continue
			}
			l.K = append(l.K, f(i))
		}
		c.Lists = append(c.Lists, l)
	}
	str1 := func(s string) *N { return &N{V: vs(s)} }
	size := func() int {
		if chance(t, 20, "many") {
			if chance(t, 10, "more") {
				if huge && chance(t, 3, "most") {
					return 500 + uni(t, 4000, "many")
				}
				return 60 + uni(t, 400, "many")
			}
			return uni(t, 60, "many")
		}
		return uni(t, 5, "size")
	}
	list("colors", size(), func(int) *N { return str1(pick(t, "col", "red", "green", "light blue", "red", " x", "x\n")) })
	list("nums", size(), func(int) *N { return &N{V: vi(int64(uni(t, 7, "num")))} })
	list("items", size(), func(i int) *N {
		return &N{V: vs("item"), K: []*N{{V: vs("id"), K: []*N{{V: vi(int64(uni(t, 6, "id")))}}}, {V: vs("name"), K: []*N{str1(pick(t, "nm", "n1", "name two", "é"))}}}}
	})
	tree := typedShape(t, 10, func(int) V { return pick(t, "tv", vs("a"), vs("b c"), vi(1), vs("multi\nline"), vb(true), vf(0.5)) })
	tree.V = vs("tree")
	c.Lists = append(c.Lists, tree)
	list("empty", 0, nil)
	list("single", 1, func(int) *N { return str1("the one") })
	list("nest", 1+uni(t, 3, "nn"), func(i int) *N {
		n := &N{V: vs("group")}
		for j := uni(t, 3, "gm"); j > 0; j-- {
			n.K = append(n.K, &N{V: vi(int64(uni(t, 9, "gv")))})
		}
		return n
	})
	for j := uni(t, 3, "multi"); j > 0; j-- {
		list("multi", uni(t, 3, "msz"), func(i int) *N { return &N{V: vi(int64(uni(t, 9, "mv")))} })
	}
	c.Items = g.items(4, nil, 8)
	if chance(t, 40, "nested") {
		for n := 3 + uni(t, 40, "levels"); n > 0; n-- {
			switch uni(t, 4, "wrap") {
			case 0:
				g.nloop++
				c.Items = []TI{{K: "for", S: S(fmt.Sprintf("x%d", g.nloop)), Path: nm("single"), Body: c.Items}}
			case 1:
				e := c.Items
				c.Items = []TI{{K: "if", Br: []TB{{g.cond(nil), g.items(0, nil, 2)}}, Else: &e}}
			default:
				c.Items = []TI{{K: "if", Br: []TB{{g.cond(nil), c.Items}}}}
				if rapid.Bool().Draw(t, "else") {
					e := g.items(0, nil, 2)
					c.Items[0].Else = &e
				}
			}
			if chance(t, 3, "beside") {
				c.Items = append(c.Items, TI{K: "text", S: S(tplText(t))})
			}
		}
	}
	w := &tplWriter{t: t}
	w.items(c.Items)
	c.Text = S(w.b.String())
	return c
}

// tplWriter writes the template. It moves the text that follows a directive
// apart from it where needed.
type tplWriter struct {
	t    *rapid.T
	b    strings.Builder
	last string // what was written last: "", path, call, text
	txt  *TI    // the last item, if it is text
}

// continues tells if text would be taken as the continuation of a path.
func continues(s, last string) bool {
	if s == "" {
		return false
	}
	elem := func(s string) bool {
		if s == "" {
			return false
		}
		r, _ := utf8.DecodeRuneInString(s)
		return strings.ContainsRune("\"'`[{(", r) || s[0] >= 0x80 || s[0] == '_' || s[0] >= '0' && s[0] <= '9' || s[0] >= 'A' && s[0] <= 'Z' || s[0] >= 'a' && s[0] <= 'z'
	}
	switch s[0] {
	case '[', '(', '{':
		return true
	case '.':
		return elem(s[1:])
	case '"', '\'', '`':
		return false
	}
	return last == "path" && elem(s)
}

func (w *tplWriter) items(items []TI) {
	t := w.t
	for i := range items {
		it := &items[i]
		switch it.K {
		case "text":
			if (w.last == "path" || w.last == "call") && continues(string(it.S), w.last) {
				it.S = S(pick(t, "sep", " ", "\n", "-", ". ")) + it.S
			}
			if w.last == "dot" && continues("."+string(it.S), "call") {
				it.S = " " + it.S
			}
			s := strings.ReplaceAll(string(it.S), "$", "$\\")
			w.b.WriteString(s)
			if strings.HasSuffix(s, ".") && (w.last == "path" || w.last == "call" || w.last == "dot") && s == "." {
				w.last = "dot"
			} else {
				w.last = "text"
			}
			continue
		case "var":
			w.b.WriteString("$" + writePathX(t, it.Path))
			w.last = "path"
			if it.Path[len(it.Path)-1].K == "index" || strings.HasSuffix(w.b.String(), "\"") || strings.HasSuffix(w.b.String(), "'") {
				w.last = "call"
			}
		case "brace":
			w.b.WriteString("${" + pick(t, "s1", "", " ") + writePathX(t, it.Path) + pick(t, "s2", "", " ") + "}")
			w.last = ""
		case "expr":
			w.b.WriteString("$(" + pick(t, "s1", "", "") + w.expr(it) + pick(t, "s2", "", " ") + ")")
			w.last = ""
		case "break":
			w.b.WriteString("$break")
			w.last = "path"
		case "for":
			sel := ""
			if it.Sel {
				sel = "{}"
			}
			w.b.WriteString("$for(" + pick(t, "s1", "", " ") + string(it.S) + pick(t, "s2", "", " ") + "," + pick(t, "s3", "", " ") + writePathX(t, it.Path) + sel + pick(t, "s4", "", " ") + ")")
			w.last = "call"
			w.items(it.Body)
			w.b.WriteString("$end")
			w.last = "path"
		case "if":
			for j := range it.Br {
				kw := "$if("
				if j > 0 {
					kw = "$elseif("
				}
				w.b.WriteString(kw + pick(t, "s1", "", " ") + writeE(t, it.Br[j].E, false) + pick(t, "s2", "", " ") + ")")
				w.last = "call"
				w.items(it.Br[j].Body)
			}
			if it.Else != nil {
				w.b.WriteString("$else")
				w.last = "path"
				w.items(*it.Else)
			}
			w.b.WriteString("$end")
			w.last = "path"
		}
	}
}

func (w *tplWriter) expr(it *TI) string {
	if it.E != nil {
		return writeE(w.t, it.E, false)
	}
	rhs := writeE(w.t, it.Asg.E, false)
	return writePathX(w.t, it.Asg.Path) + sp(w.t, false) + it.Asg.Op + sp(w.t, strings.IndexByte("-+!", rhs[0]) >= 0) + rhs
}

// textAt is the text of the value at a path.
func textAt(root *N, path []PE) string {
	n := getN(root, path)
	if n == nil {
		return ""
	}
	if path[len(path)-1].K == "index" {
		n = &N{V: vs("["), K: []*N{n}}
	}
	if len(n.K) == 1 && len(n.K[0].K) == 0 {
		return str(n.K[0].V.val())
	}
	return n.graph().Text()
}

type tplModel struct {
	root  *N
	out   strings.Builder
	open  bool // the outcome is not settled
	big   bool // it takes too long, or has too much output
	stat  map[string]int
	steps int
	loops []string
	stale map[string]bool // loop variables that an inner loop has used
}

// done: a loop with that variable has ended. What an enclosing loop with the
// same variable finds in it, until its next element, is not settled.
func (m *tplModel) done(name string) {
	for _, l := range m.loops {
		if l == name {
			m.stale[name] = true
			m.stat["same variable"]++
			return
		}
	}
}

// usesStale: the value of a variable that is not settled takes part.
func (m *tplModel) usesStale(e *E) bool {
	if e == nil {
		return false
	}
	return len(e.Path) > 0 && m.stale[string(e.Path[0].S)] || m.usesStale(e.L) || m.usesStale(e.R)
}

func (m *tplModel) run(items []TI) (brk bool) {
	for i := range items {
		it := &items[i]
		m.steps++
		if m.steps > 200000 || m.out.Len() > 4<<20 {
			m.big = true
			return true
		}
		if m.open {
			return
		}
		switch it.K {
		case "text":
			m.out.WriteString(string(it.S))
		case "var", "brace":
			if m.stale[string(it.Path[0].S)] {
				m.open = true
				return
			}
			m.out.WriteString(textAt(m.root, it.Path))
		case "expr":
			if it.Asg != nil && m.usesStale(it.Asg.E) {
				m.open = true
				return
			}
			if it.Asg != nil && !asgModel(m.root, *it.Asg) {
				m.open = true
			}
		case "break":
			m.stat["break"]++
			return true
		case "if":
			done := false
			for _, b := range it.Br {
				var v interface{}
				if b.E.Op == "var" && string(b.E.Path[0].S) == "missing" {
					v = false
				} else {
					v = refEval(b.E, m.root)
				}
				x, ok := v.(bool)
				// (from a text, everything is a string)
				if i, isInt := v.(int64); isInt && !b.E.floatMod(m.root) {
					x, ok = i != 0, true
				}
				if s, isStr := v.(string); isStr {
					x, ok = s == "true", true
				}
				if !ok || m.usesStale(b.E) {
					m.open = true
					return
				}
				if x {
					m.stat["then"]++
					done = true
					if m.run(b.Body) {
						return true
					}
					break
				}
			}
			if !done && it.Else != nil {
				m.stat["else"]++
				if m.run(*it.Else) {
					return true
				}
			}
		case "for":
			var elems []*N
			if it.Sel {
				for _, k := range m.root.K {
					if nameOf(k.V) == string(it.Path[0].S) {
						elems = append(elems, k.K...)
					}
				}
			} else if n := getN(m.root, it.Path); n != nil {
				elems = append(elems, n.K...)
			}
			if m.stale[string(it.Path[0].S)] {
				m.open = true
				return
			}
			name := string(it.S)
			if len(elems) == 0 {
				m.done(name)
				continue
			}
			m.loops = append(m.loops, name)
			// (the variable is set by the loop, at the end of the graph)
			bind := func() *N {
				for j := len(m.root.K) - 1; j >= 0; j-- {
					if nameOf(m.root.K[j].V) == string(it.S) {
						m.root.K = removeAt(m.root.K, j)
					}
				}
				v := &N{V: vs(string(it.S))}
				m.root.K = append(m.root.K, v)
				delete(m.stale, name)
				return v
			}
			for _, e := range elems {
				m.stat["iteration"]++
				m.steps++
				if m.steps > 200000 {
					m.big = true
					return true
				}
				bind().K = []*N{e}
				if m.run(it.Body) {
					break
				}
			}
			m.loops = m.loops[:len(m.loops)-1]
			m.done(name)
		}
	}
	return false
}

func checkTpl(c tplCase, o *Obs) error {
	model := varsModel(c.Vars)
	for _, l := range c.Lists {
		model.K = append(model.K, l.clone())
	}
	m := &tplModel{root: model.clone(), stat: map[string]int{}, stale: map[string]bool{}}
	m.run(c.Items)
	if m.big {
		o.Label("too big")
		return nil
	}
	tpl := ogdl.NewTemplate(string(c.Text))
	shown := dump(tpl)
	for i := 0; i < 2; i++ {
		g := model.graph()
		if i == 1 {
			tpl2 := ogdl.NewTemplateFromBytes([]byte(c.Text))
			if dump(tpl2) != shown {
				return fmt.Errorf("NewTemplateFromBytes differs from NewTemplate")
			}
		}
		out := string(tpl.Process(g))
		if m.open {
			o.Label("unsettled")
			continue
		}
		if out != m.out.String() {
			w := m.out.String()
			k := 0
			for k < len(w) && k < len(out) && w[k] == out[k] {
				k++
			}
			return fmt.Errorf("pass %d: output differs at byte %d: %q, want %q\ntemplate: %s", i, k, clip(out[max(k-30, 0):]), clip(w[max(k-30, 0):]), clip(string(c.Text)))
		}
		// the context: only the assigned and the loop variables changed
		for _, k := range g.Out {
			s := str(k.This)
			if len(s) > 1 && s[0] == 'x' && s[1] >= '0' && s[1] <= '9' {
				continue
			}
			var orig *N
			for _, x := range m.root.K {
				if nameOf(x.V) == s {
					orig = x
					break
				}
			}
			if s == "multi" {
				continue
			}
			if orig == nil {
				return fmt.Errorf("the template added %q to the context", s)
			}
			if s == "cnt" || s == "acc" {
				// (the type of a number is judged with the expressions)
				if len(k.Out) != 1 || len(orig.K) != 1 || str(k.Out[0].This) != str(orig.K[0].V.val()) {
					return fmt.Errorf("%q in the context is now %q, want %q", s, clip(k.Text()), clip(orig.graph().Text()))
				}
				continue
			}
			if d := ndiff(orig, k); d != "" {
				return fmt.Errorf("the template changed %q in the context: node %s", s, d)
			}
		}
		if dump(tpl) != shown {
			return fmt.Errorf("processing changed the template")
		}
	}
	if !m.open {
		o.NonTrivial(m.steps > 3 && (m.stat["then"]+m.stat["else"]+m.stat["iteration"] > 0))
		for k := range m.stat {
			o.Label(k)
		}
		o.LabelIf(len(c.Text) > 8192, "longer than the buffers")
	}
	return nil
}

func init() {
	reg("C16", "render",
		"random templates (text with any characters, $path, ${path}, $(expression), if/elseif/else, nested loops over lists, trees, selectors and loop variables, break; some longer than the internal buffers) with random contexts; output and context against a reference interpreter, twice from the same template. Non-trivial: some branch or loop was executed.",
		40000, 1500000, genTpl, checkTpl, nil)
}
