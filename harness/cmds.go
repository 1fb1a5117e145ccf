// C28: the command line tools.
package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"github.com/rveen/ogdl"
	"github.com/rveen/ogdl/io/gxml"
	"pgregory.net/rapid"
)

type cmdCase struct {
	Tool   string `json:"tool"`
	Path   S      `json:"path,omitempty"` // gpath, xml2ogdl
	Text   S      `json:"text"`           // the document, or the template
	Data   []S    `json:"data,omitempty"` // gtemplate: further files
	Want   *T     `json:"want,omitempty"` // xml2ogdl: the element tree
	ID     bool   `json:"id,omitempty"`
	Stdin  bool   `json:"stdin,omitempty"`
	Pieces []int  `json:"pieces,omitempty"` // where the standard input is interrupted
	None   bool   `json:"none,omitempty"`   // the (last) file does not exist
	Wild   bool   `json:"wild,omitempty"`   // not a well formed document
	Short  bool   `json:"short,omitempty"`  // the last argument, or the only one, is left out
	Gone   bool   `json:"gone,omitempty"`   // gtemplate: the template does not exist
}

func treePath(t *rapid.T, tr *T) S {
	switch uni(t, 6, "path") {
	case 0, 1:
		return "."
	case 2:
		return pick(t, "wildpath", S("a"), "a.b", "[0]", "x{}", "a[", "{", "..", "a.b.c.d.e", "[99]", "_len", "a._len", "(", "a(1)", "'", "a{1}", "")
	}
	return writePath(t, genPath(t, tr))
}

func genCmd(t *rapid.T) cmdCase {
	c := cmdCase{Tool: pick(t, "tool", "gpath", "gpath", "gtemplate", "json2ogdl", "xml2ogdl"), Stdin: rapid.Bool().Draw(t, "stdin"), None: chance(t, 20, "none"), Wild: chance(t, 5, "wild"), Short: chance(t, 30, "short"), Gone: chance(t, 30, "gone")}
	switch c.Tool {
	case "gpath":
		f := func(int) S { return pathContent(t) }
		if chance(t, 3, "anytext") {
			f = nil
		}
		tc, _, _ := genText(t, 12, f)
		c.Text = tc.Text
		if chance(t, 10, "long") {
			c.Text = S(strings.Repeat("# a comment\n", 100+uni(t, 800, "pad"))) + c.Text
		}
		if c.Wild {
			c.Text = genSoup(t, 0)
		}
		c.Path = treePath(t, tc.Want)
	case "gtemplate":
		tp := genTplOf(t, false)
		c.Text = tp.Text
		model := varsModel(tp.Vars)
		for _, l := range tp.Lists {
			model.K = append(model.K, l.clone())
		}
		// the context in one file or several
		n := 1 + uni(t, 3, "files")
		if chance(t, 6, "many") {
			n = 4 + uni(t, 9, "files")
		}
		if chance(t, 10, "nodata") {
			n = 0
		}
		parts := make([]*ogdl.Graph, n)
		for i := range parts {
			parts[i] = ogdl.New("_")
		}
		for _, k := range model.K {
			if n == 0 {
				break
			}
			p := parts[uni(t, n, "part")]
			p.Out = append(p.Out, k.graph())
		}
		for _, p := range parts {
			c.Data = append(c.Data, S(p.Text()))
		}
		if c.Wild {
			if n > 0 {
				c.Data[0] = genSoup(t, 0)
			}
			if rapid.Bool().Draw(t, "wildtpl") {
				l := genLang(t)
				if l.Kind == "template" {
					c.Text = l.Text
				}
			}
		}
	case "json2ogdl":
		c.Text = genJSON(t).Text
		if c.Wild {
			c.Text = S(mutate(t, string(c.Text), jsonBits))
		}
	case "xml2ogdl":
		x := genXML(t)
		c.Text, c.Want = x.Text, x.Want
		if c.Wild {
			c.Text, c.Want = S(mutate(t, string(c.Text), xmlBits)), nil
		}
		c.ID = chance(t, 3, "id")
		c.Path = treePath(t, x.Want)
		if strings.HasPrefix(string(c.Path), "-") {
			c.Path = "."
		}
	}
	if c.Stdin && chance(t, 3, "pieces") {
		at := 0
		for n := 1 + uni(t, 3, "npieces"); n > 0; n-- {
			at += 1 + uni(t, len(c.Text)+1, "piece")
			c.Pieces = append(c.Pieces, at)
		}
	}
	if strings.Contains(string(c.Path), "\x00") {
		c.Path = "."
	}
	return c
}

func runTool(dir, tool, stdin string, pieces []int, args ...string) (out, errs string, err error) {
	bin := filepath.Join(os.Getenv("PBT_BIN"), tool)
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Dir = dir
	cmd.Env = []string{"GOTRACEBACK=single", "PATH=/usr/bin:/bin", "HOME=" + dir}
	if len(pieces) == 0 {
		cmd.Stdin = strings.NewReader(stdin)
	} else if w, err := cmd.StdinPipe(); err == nil {
		// in pieces, as from another program
		go func() {
			defer w.Close()
			last := 0
			for _, p := range append(pieces, len(stdin)) {
				p = min(p, len(stdin))
				if p > last {
					if _, err := io.WriteString(w, stdin[last:p]); err != nil {
						return
					}
					last = p
					time.Sleep(4 * time.Millisecond)
				}
			}
		}()
	}
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err = cmd.Run()
	if ctx.Err() != nil {
		return "", "", fmt.Errorf("%s %q does not end within 60 s", tool, args)
	}
	if _, ok := err.(*exec.ExitError); ok {
		if strings.Contains(e.String(), "goroutine ") || cmd.ProcessState.ExitCode() < 0 {
			return "", "", fmt.Errorf("%s %q crashes: %s", tool, args, clip(e.String()))
		}
		err = nil // an exit code
	} else if err != nil {
		panic("cannot run " + bin + ": " + err.Error())
	}
	return o.String(), e.String(), nil
}

func hasName(t *T, s string) bool {
	f := false
	t.walk(func(n *T, _ int) { f = f || string(n.C) == s })
	return f
}

func checkCmd(c cmdCase, o *Obs) error {
	dir := scratchFile("cmd")
	if err := os.MkdirAll(dir, 0700); err != nil {
		panic(err)
	}
	put := func(name, s string) string {
		f := filepath.Join(dir, name)
		if err := os.WriteFile(f, []byte(s), 0600); err != nil {
			panic(err)
		}
		return name
	}
	doc := put("doc 1", string(c.Text))
	if c.None {
		doc = "missing"
	}
	in := ""
	if c.Stdin {
		in = string(c.Text)
	}
	var args []string
	want := ""
	judged := true
	switch c.Tool {
	case "gpath":
		args = []string{string(c.Path)}
		if !c.Stdin {
			args = append(args, doc)
			judged = !c.None
		}
		g := ogdl.FromReader(strings.NewReader(string(c.Text)))
		if c.Path != "." {
			g = g.Get(string(c.Path))
		}
		want = g.Text()
		if want != "" && !strings.HasSuffix(want, "\n") && !strings.HasSuffix(want, "\r") {
			want += "\n"
		}
		o.NonTrivial(want != "" && c.Path != ".")
	case "gtemplate":
		args = []string{"doc 1"}
		data := ogdl.New("_")
		for i, s := range c.Data {
			f := put(fmt.Sprintf("data %d", i), string(s))
			if c.None && i == len(c.Data)-1 {
				args = append(args, "missing")
				continue
			}
			args = append(args, f)
			if s == "" {
				continue
			}
			for _, k := range ogdl.FromString(string(s)).Out {
				data.Out = append(data.Out, k)
			}
		}
		text := string(c.Text)
		want = string(ogdl.NewTemplate(text).Process(data)) + "\n"
		o.NonTrivial(len(c.Data) > 0 && strings.Contains(text, "$"))
		o.LabelIf(len(c.Data) > 1, "several data files")
	case "json2ogdl":
		if !c.Stdin {
			args = append(args, doc)
			judged = !c.None
		}
		g, err := ogdl.FromJSON([]byte(c.Text))
		if err != nil {
			judged = false
		}
		want = g.Text() + "\n"
		o.NonTrivial(g.Len() > 0)
	case "xml2ogdl":
		if c.ID {
			args = append(args, "-id")
		}
		args = append(args, string(c.Path), doc)
		judged = !c.None
		var g *ogdl.Graph
		if c.Want != nil {
			g = c.Want.graph()
			g.This = nil
		} else {
			g = gxml.FromXML([]byte(c.Text))
			judged = false
		}
		if c.Path != "." {
			g = g.Get(string(c.Path))
		}
		if c.ID && g != nil {
			simple := fromGraph(g)
			refSimplify(simple, false) // (the library's version does more)
			o.LabelIf(equalT(simple, fromGraph(g)) != "", "simplified")
			this := g.This
			g = simple.graph()
			g.This = this
		}
		want = g.Text() + "\n"
		o.NonTrivial(g.Len() > 0 && c.Path != ".")
		o.LabelIf(c.ID, "-id")
	}
	o.Label(c.Tool)
	o.LabelIf(c.Wild, "not well formed")
	o.LabelIf(c.None, "missing file")
	o.LabelIf(len(c.Pieces) > 0, "input in pieces")
	if c.Short && len(args) > 0 {
		args = args[:len(args)-1]
		judged = false
		o.Label("without an argument")
	}
	if c.Gone && c.Tool == "gtemplate" && len(args) > 0 {
		args[0] = "missing"
		judged = false
	}
	out, _, err := runTool(dir, c.Tool, in, c.Pieces, args...)
	if err != nil {
		return err
	}
	if judged && out != want {
		k := 0
		for k < len(want) && k < len(out) && want[k] == out[k] {
			k++
		}
		return fmt.Errorf("%s %q: the output differs from byte %d: %q, want %q", c.Tool, args, k, clip(out[max(k-20, 0):]), clip(want[max(k-20, 0):]))
	}
	return nil
}

func init() {
	reg("C28", "tools",
		"the built tools gpath, gtemplate, json2ogdl and xml2ogdl run on generated files (or standard input): OGDL texts with paths that exist or not, templates with contexts in one or several files, JSON and XML documents, with and without -id, empty, cut and mutated documents, missing files, files over the size of the buffers; the output is compared with that of the library in this process (for XML, with the element tree), and a crash or a hang is a failure. Non-trivial: there is something to print (a path, a template with variables, a document that is not empty).",
		12000, 160000, genCmd, checkCmd, nil, withBin())
}
