// C05, C06: binary OGDL. C07, C08: the log.
package main

import (
	"bufio"
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"

	"github.com/rveen/ogdl"
	"pgregory.net/rapid"
)

// BN is a node of binary OGDL: content S repeated R times, with zero bytes and all.
type BN struct {
	S     S     `json:"s"`
	R     int   `json:"r,omitempty"`
	Bytes bool  `json:"bytes,omitempty"` // []byte content
	K     []*BN `json:"k,omitempty"`
}

type binCase struct {
	Deep int `json:"deep,omitempty"` // the tree hangs below a chain of so many nodes
	Tree *BN `json:"tree"`
}

func (n *BN) content() string {
	if n.R > 0 {
		return strings.Repeat(string(n.S), n.R+1)
	}
	return string(n.S)
}

func (n *BN) tree() *T {
	t := &T{C: S(n.content())}
	for _, k := range n.K {
		t.K = append(t.K, k.tree())
	}
	return t
}

func (n *BN) graph() *ogdl.Graph {
	g := ogdl.New(n.content())
	if n.Bytes {
		g.This = []byte(n.content())
	}
	for _, k := range n.K {
		g.Out = append(g.Out, k.graph())
	}
	return g
}

func (c binCase) graph() *ogdl.Graph {
	g := c.Tree.graph()
	for i := 0; i < c.Deep; i++ {
		h := ogdl.New("d")
		h.Out = g.Out
		r := ogdl.New("_")
		r.Out = []*ogdl.Graph{h}
		g = r
	}
	return g
}

func (c binCase) tree() *T {
	g := c.Tree.tree()
	for i := 0; i < c.Deep; i++ {
		g = &T{C: "_", K: []*T{{C: "d", K: g.K}}}
	}
	return g
}

var binBits = []string{"\x00", "\x00\x00", "\x01", "\x01G\x00", "\x02", "\x7f", "\x80", "\xc0", "\xe0", "\xff", "a", "b", "text", "\n", "é", "日", "\x03", " "}

func binContent(t *rapid.T) (S, int) {
	var b strings.Builder
	switch uni(t, 5, "bc") {
	case 0:
		return S(plainWord(t)), 0
	case 1:
		return content(t), 0
	}
	if chance(t, 40, "late") {
		// something special in a long content
		f := pick(t, "fill", "x", "\xff", "ab", "\x02")
		s := strings.Repeat(f, 1+uni(t, 3000, "n")) + binBits[uni(t, len(binBits), "bb")]
		if rapid.Bool().Draw(t, "more") {
			s += strings.Repeat(f, 1+uni(t, 3000, "n"))
		}
		return S(s), 0
	}
	for i, n := 0, 1+intn(t, 4, "n"); i < n; i++ {
		if chance(t, 4, "rb") {
			b.WriteByte(byte(uni(t, 256, "byte")))
		} else {
			b.WriteString(binBits[uni(t, len(binBits), "bb")])
		}
	}
	return S(b.String()), 0
}

// lengths around the steps of the variable length integers and of the buffer
var edges = []int{126, 127, 128, 129, 254, 255, 256, 257, 4095, 4096, 4097, 16382, 16383, 16384, 16385, 65535, 65536, 65537}

func genBN(t *rapid.T, budget int, big bool) *BN {
	tr := shape(t, budget, func(int) S { return "" })
	var conv func(x *T) *BN
	conv = func(x *T) *BN {
		s, r := binContent(t)
		n := &BN{S: s, R: r, Bytes: rapid.Bool().Draw(t, "bytes")}
		if big && chance(t, 12, "edge") {
			l := edges[uni(t, len(edges), "edge")]
			// content of exactly l bytes
			n.S = S(pick(t, "fill", "x", "\x00", "\x01", "\xff"))
			n.R = l - 1
			if chance(t, 150, "huge") {
				// more than a three byte length
				n.R = 1<<21 - 3 + uni(t, 6, "huge")*(1+uni(t, 2, "k")*50000)
			}
		}
		for _, k := range x.K {
			n.K = append(n.K, conv(k))
		}
		return n
	}
	n := conv(tr)
	n.S, n.R, n.Bytes = "_", 0, false
	return n
}

func (n *BN) walk(f func(*BN)) {
	f(n)
	for _, k := range n.K {
		k.walk(f)
	}
}

func (n *BN) isBinary() bool {
	return n.S[0] == 1 || strings.IndexByte(string(n.S), 0) >= 0
}

// ---- reference encoder, from the format description

type bnode struct {
	level int
	s     string
	end   int // position after the node
}

func vint(i int) []byte {
	switch {
	case i < 0x80:
		return []byte{byte(i)}
	case i < 0x4000:
		return []byte{byte(i>>8) | 0x80, byte(i)}
	case i < 0x200000:
		return []byte{byte(i>>16) | 0xc0, byte(i >> 8), byte(i)}
	default:
		return []byte{byte(i>>24) | 0xe0, byte(i >> 16), byte(i >> 8), byte(i)}
	}
}

// encode gives the binary form of the subnodes of n, and the nodes with their
// end positions. A binary node is written in chunks of the given sizes.
func (n *BN) encode(chunks []int) ([]byte, []bnode) {
	b := []byte{1, 'G', 0}
	var nodes []bnode
	var f func(n *BN, l int)
	f = func(n *BN, l int) {
		s := n.content()
		b = append(b, vint(l)...)
		if n.isBinary() {
			b = append(b, 1)
			for i, r := 0, s; len(r) > 0; i++ {
				k := len(r)
				if len(chunks) > 0 {
					k = min(k, chunks[i%len(chunks)])
				}
				b = append(b, vint(k)...)
				b = append(b, r[:k]...)
				r = r[k:]
			}
		} else {
			b = append(b, s...)
		}
		b = append(b, 0)
		nodes = append(nodes, bnode{l, s, len(b)})
		for _, k := range n.K {
			f(k, l+1)
		}
	}
	for _, k := range n.K {
		f(k, 1)
	}
	return append(b, 0), nodes
}

// prefixTree builds the tree of the nodes that end at or before the cut.
func prefixTree(nodes []bnode, cut int) (*T, *bnode) {
	root := &T{C: "_"}
	st := []*T{root}
	for i := range nodes {
		n := &nodes[i]
		if n.end > cut {
			return root, n
		}
		k := &T{C: S(n.s)}
		st = st[:n.level]
		st[n.level-1].K = append(st[n.level-1].K, k)
		st = append(st, k)
	}
	return root, nil
}

// checkPrefix: got holds the complete nodes; and possibly a part of the next one.
func checkPrefix(nodes []bnode, cut int, got *ogdl.Graph) error {
	want, next := prefixTree(nodes, cut)
	if len(want.K) == 0 && got == nil {
		return nil
	}
	d := diff(want, got)
	if d == "" {
		return nil
	}
	if next != nil {
		// the partial node, in its place
		g := got
		var last *ogdl.Graph
		for l := 1; g != nil && len(g.Out) > 0 && l <= next.level; l++ {
			last = g.Out[len(g.Out)-1]
			if l == next.level && last != nil && len(last.Out) == 0 && strings.HasPrefix(next.s, str(last.This)) {
				g.Out = g.Out[:len(g.Out)-1]
				d2 := diff(want, got)
				g.Out = append(g.Out, last)
				if d2 == "" {
					return nil
				}
			}
			g = last
		}
	}
	return fmt.Errorf("cut at %d: %s", cut, d)
}

func allocated() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.TotalAlloc
}

// ---- C06 cases

type anyBin struct {
	Data S `json:"data"`
}

type cutBin struct {
	Tree   *BN   `json:"tree"`
	Chunks []int `json:"chunks,omitempty"`
	Cuts   []int `json:"cuts"` // in 1/65536 of the length, or negative: from the end of a node
}

func countNodes(g *ogdl.Graph) int { return fromGraph(g).size() }

func checkAnyBin(c anyBin, o *Obs) error {
	b := []byte(c.Data)
	hdr := len(b) > 3 && b[0] == 1 && b[1] == 'G' && b[2] == 0
	o.NonTrivial(hdr && len(b) > 6)
	o.LabelIf(hdr, "valid header")
	limit := uint64(8<<20 + 1000*len(b))
	for i := 0; i < 3; i++ {
		var g *ogdl.Graph
		a := allocated()
		switch i {
		case 0:
			g = ogdl.FromBinary(b)
		case 1:
			g = ogdl.FromBinaryReader(&cutReader{data: b, cuts: []int{1, 3, 0, 7}})
		case 2:
			r := bufio.NewReader(bytes.NewReader(b))
			for k := 0; k < 5; k++ {
				if h := ogdl.FromBinaryBufioReader(r); k == 0 {
					g = h
				}
			}
		}
		if d := allocated() - a; d > limit {
			return fmt.Errorf("%d bytes allocated to decode %d", d, len(b))
		}
		if g == nil {
			continue
		}
		// what is returned can be used, and comes from the input
		if n := countNodes(g); n > len(b)+1 {
			return fmt.Errorf("%d nodes out of %d bytes", n, len(b))
		}
		g.Text()
		g.Binary()
		o.LabelIf(i == 0 && g.Len() > 0, "some nodes")
	}
	return nil
}

func genAnyBin(t *rapid.T) anyBin {
	var b []byte
	switch uni(t, 4, "kind") {
	case 0:
		// pieces
		b = []byte{1, 'G', 0}
		if chance(t, 5, "nohdr") {
			b = nil
		}
		for i, n := 0, intn(t, 30, "n"); i < n; i++ {
			switch uni(t, 4, "p") {
			case 0:
				b = append(b, byte(uni(t, 256, "byte")))
			case 1:
				b = append(b, binBits[uni(t, len(binBits), "bb")]...)
			case 2:
				b = append(b, vint(uni(t, 1<<24, "v")<<uni(t, 5, "sh"))...)
			case 3:
				b = append(b, byte(uni(t, 5, "lv")))
				b = append(b, plainWord(t)...)
				b = append(b, 0)
			}
		}
	default:
		// a valid stream with damage
		b, _ = genBN(t, 10, chance(t, 4, "big")).encode(genChunks(t))
		for i, n := 0, 1+intn(t, 4, "n"); i < n && len(b) > 0; i++ {
			p := uni(t, len(b), "pos")
			switch uni(t, 6, "dmg") {
			case 0:
				b[p] = byte(uni(t, 256, "byte"))
			case 1:
				b[p] ^= 1 << uni(t, 8, "bit")
			case 2:
				b = append(b[:p], b[p+1:]...)
			case 3:
				x := append([]byte{}, b[:p]...)
				x = append(x, binBits[uni(t, len(binBits), "bb")]...)
				b = append(x, b[p:]...)
			case 4:
				b = b[:p]
			case 5:
				x := append([]byte{}, b[:p]...)
				x = append(x, vint(uni(t, 1<<28-1, "v"))...)
				b = append(x, b[p:]...)
			}
		}
	}
	return anyBin{S(b)}
}

func genChunks(t *rapid.T) []int {
	if rapid.Bool().Draw(t, "onechunk") {
		return nil
	}
	var c []int
	for i, n := 0, 1+intn(t, 3, "n"); i < n; i++ {
		c = append(c, 1+uni(t, 300, "chunk"))
	}
	return c
}

func genCutPoints(t *rapid.T, n int) []int {
	var c []int
	for i := 0; i < n; i++ {
		if rapid.Bool().Draw(t, "atnode") {
			c = append(c, -1-uni(t, 60, "node")*8-uni(t, 8, "off"))
		} else {
			c = append(c, uni(t, 65537, "cut"))
		}
	}
	return c
}

// cutPos turns a cut point into a position in n bytes; ends are positions of interest.
func cutPos(c, n int, ends []int) int {
	p := 0
	if c >= 0 {
		p = int(int64(n) * int64(c) / 65536)
	} else {
		c = -1 - c
		if len(ends) > 0 {
			p = ends[(c/8)%len(ends)] + c%8 - 4
		}
	}
	return max(0, min(n, p))
}

func init() {
	reg("C05", "binary-roundtrip",
		"random trees with string and []byte content (any bytes: zeros, 0x01, high bytes, lengths around 128/4096/16384/65536): FromBinary(Binary) gives the same tree; encoding the result again gives the same bytes; file and reader agree. Non-trivial: at least 2 nodes, and one with a zero byte, a leading 0x01 or 127 bytes or more.",
		120000, 1200000,
		func(t *rapid.T) binCase { return binCase{Tree: genBN(t, 10, true)} },
		checkBinRoundtrip,
		[]binCase{
			{0, &BN{S: "_", K: []*BN{{S: "a"}, {S: "\x00"}, {S: "\x01"}, {S: "\x01\x00", Bytes: true}}}},
			{0, &BN{S: "_", K: []*BN{{S: "a", K: []*BN{{S: "x", R: 1<<21 - 2, Bytes: true}, {S: "\x00", R: 1<<21 - 1}, {S: "\x00", R: 1<<21 - 2}, {S: "\x00", R: 1 << 21}, {S: "z"}}}}}},
			{16390, &BN{S: "_", K: []*BN{{S: "a"}, {S: "\x00"}}}},
			{0, &BN{S: "_", K: []*BN{{S: "\x00", R: 0xa5a5a4}, {S: "z"}}}},
		})
	reg("C05", "binary-roundtrip-deep",
		"as binary-roundtrip, below a chain of up to 20000 nodes (levels of 2 and 3 bytes). Non-trivial: more than 127 levels.",
		640, 4000,
		func(t *rapid.T) binCase {
			d := 0
			switch uni(t, 3, "deep") {
			case 0:
				d = 100 + uni(t, 60, "d")
			case 1:
				d = uni(t, 2000, "d")
			case 2:
				d = 16370 + uni(t, 30, "d")
			}
			return binCase{Deep: d, Tree: genBN(t, 10, false)}
		},
		func(c binCase, o *Obs) error {
			o.NonTrivial(c.Deep > 127)
			return checkBinRoundtrip(c, &Obs{})
		}, nil)

	reg("C06", "any-bytes",
		"random bytes, format pieces and damaged valid streams (bytes changed, inserted, deleted, wrong lengths and levels, cuts) through the three decoders: each returns, the result is usable and not larger than the input, memory stays in proportion (8 MB + 1000 x input). Non-trivial: valid header and more than 6 bytes.",
		125000, 1500000, genAnyBin, checkAnyBin,
		[]anyBin{{""}, {"\x01"}, {"\x01G\x00\xff"}, {"\x01G\x00\x01\x01\xef\xff\xff\xff"}, {"\x01G\x00\xef\xff\xff\xffa\x00"}, {"\x01G\x00\x01abc"}, {"\x01G\x00\x01\x01\x05abc"}})

	reg("C06", "truncation",
		"valid streams (reference encoder with text and chunked binary nodes) cut at random positions and at/around node ends: every completely received node is returned in its place, followed at most by the received part of the next one. Non-trivial: some cut leaves complete nodes and drops others.",
		100000, 1000000,
		func(t *rapid.T) cutBin {
			return cutBin{genBN(t, 10, chance(t, 5, "big")), genChunks(t), genCutPoints(t, 6)}
		},
		func(c cutBin, o *Obs) error {
			b, nodes := c.Tree.encode(c.Chunks)
			if d := diff(c.Tree.tree(), ogdl.FromBinary(b)); d != "" {
				return fmt.Errorf("complete stream: %s", d)
			}
			var ends []int
			for _, n := range nodes {
				ends = append(ends, n.end)
			}
			for _, k := range c.Cuts {
				p := cutPos(k, len(b), ends)
				if w, next := prefixTree(nodes, p); next != nil && len(w.K) > 0 {
					o.NonTrivial(true)
				}
				if err := checkPrefix(nodes, p, ogdl.FromBinary(append([]byte(nil), b[:p]...))); err != nil {
					return err
				}
				if err := checkPrefix(nodes, p, ogdl.FromBinaryReader(&cutReader{data: b[:p], cuts: []int{5, 0, 1}})); err != nil {
					return fmt.Errorf("reader: %v", err)
				}
			}
			return nil
		},
		[]cutBin{{&BN{S: "_", K: []*BN{{S: "a", K: []*BN{{S: "\x00b"}}}, {S: "c"}}}, nil, []int{0, 5000, 10000, 20000, 30000, 40000, 50000, 60000, 65536}}})

	reg("C07", "history",
		"random histories on a file log: add graph, add binary, read any known position as graph and as binary, scan from 0, close/reopen; a list of (position, object) is the model. Non-trivial: 2 or more objects of different size, with a read of an earlier position after a later add, or a reopen.",
		42000, 300000, genLog, checkLog,
		[]logCase{{[]logOp{{Op: "add", Obj: &BN{S: "_", K: []*BN{{S: "a"}}}}, {Op: "addbin", Obj: &BN{S: "_", K: []*BN{{S: "\x00"}}}}, {Op: "reopen"}, {Op: "scan"}, {Op: "get", I: 0}, {Op: "getbin", I: 1}, {Op: "end"}}, true}})
	reg("C07", "in-memory",
		"the same histories on an in-memory log: positions are offsets into Bytes(), every object decodes at its position, and a sequence of FromBinaryBufioReader on one reader gives all objects in order. Non-trivial: 2 or more objects.",
		42000, 300000, genLog, checkMemLog, nil)

	reg("C08", "torn-tail",
		"a random log cut at random positions and around object ends, then reopened: all objects before the cut read back with the right next position (graph and binary), reading the torn one ends and gives nothing but a part of it, and objects added later read back. Non-trivial: a cut inside an object with at least one whole object before it.",
		48000, 300000,
		func(t *rapid.T) tornCase {
			var objs []*BN
			for i, n := 0, 1+intn(t, 5, "n"); i < n; i++ {
				objs = append(objs, genBN(t, 6, chance(t, 6, "big")))
			}
			return tornCase{objs, genCutPoints(t, 4), genBN(t, 4, false)}
		}, checkTorn,
		[]tornCase{{[]*BN{{S: "_", K: []*BN{{S: "a"}}}, {S: "_", K: []*BN{{S: "abc", K: []*BN{{S: "\x00\x01"}}}}}}, []int{-1, -2, -3, -4, -5, -6, -7, -8, 30000, 40000, 50000, 60000, 65000}, &BN{S: "_"}}})
}

func checkBinRoundtrip(c binCase, o *Obs) error {
	n, special := 0, false
	c.Tree.walk(func(b *BN) {
		n++
		if b.S != "_" && (b.isBinary() || b.R >= 126) {
			special = true
		}
		o.LabelIf(b.R >= 126, "long content")
	})
	o.NonTrivial(n > 2 && special)
	o.LabelIf(special, "needs binary or multi-byte length")
	g := c.graph()
	want := c.tree()
	b := g.Binary()
	g2 := ogdl.FromBinary(b)
	if d := diff(want, g2); d != "" {
		return fmt.Errorf("FromBinary(Binary): %s", d)
	}
	if d := diff(want, g); d != "" {
		return fmt.Errorf("Binary changed the graph: %s", d)
	}
	if b2 := g2.Binary(); !bytes.Equal(b, b2) {
		return fmt.Errorf("second encoding differs: %q, then %q", clip(string(b)), clip(string(b2)))
	}
	if len(b) > 5000 || n%4 == 0 {
		if d := diff(want, ogdl.FromBinaryReader(bytes.NewReader(b))); d != "" {
			return fmt.Errorf("FromBinaryReader(Binary): %s", d)
		}
		f := scratchFile("c05")
		if err := os.WriteFile(f, b, 0600); err != nil {
			panic(err)
		}
		if d := diff(want, ogdl.FromBinaryFile(f)); d != "" {
			return fmt.Errorf("FromBinaryFile(Binary): %s", d)
		}
	}
	return nil
}

// ---- log

type logOp struct {
	Op  string `json:"op"`
	I   int    `json:"i,omitempty"`
	Obj *BN    `json:"obj,omitempty"`
}

type logCase struct {
	Ops  []logOp `json:"ops"`
	Sync bool    `json:"sync,omitempty"`
}

type tornCase struct {
	Objs []*BN `json:"objs"`
	Cuts []int `json:"cuts"`
	New  *BN   `json:"new"`
}

func genLog(t *rapid.T) logCase {
	var c logCase
	c.Sync = chance(t, 10, "sync")
	for i, n := 0, 1+intn(t, 16, "n"); i < n; i++ {
		op := logOp{Op: pick(t, "op", "add", "add", "addbin", "get", "getbin", "scan", "scanbin", "end", "reopen", "switch")}
		switch op.Op {
		case "add", "addbin":
			op.Obj = genBN(t, 5, chance(t, 6, "big"))
		case "get", "getbin":
			op.I = uni(t, 64, "i")
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

type logObj struct {
	pos  int64
	bin  []byte
	tree *T
	next int64
}

func logFile() string {
	d := "/dev/shm"
	if _, err := os.Stat(d); err != nil || os.Getenv("PBT_SCRATCH") == "" {
		return scratchFile("log")
	}
	// a name that cannot collide: the pid and the scratch directory's name
	return filepath.Join(os.Getenv("PBT_SCRATCH"), fmt.Sprintf("log-%d", os.Getpid()))
}

func readObj(l *ogdl.Log, ob logObj, i int) error {
	g, next, err := l.Get(ob.pos)
	if err != nil {
		return fmt.Errorf("Get of object %d at %d: %v", i, ob.pos, err)
	}
	if d := diff(ob.tree, g); d != "" {
		return fmt.Errorf("Get of object %d at %d: %s", i, ob.pos, d)
	}
	if next != ob.next {
		return fmt.Errorf("Get of object %d at %d: next is %d, should be %d", i, ob.pos, next, ob.next)
	}
	return nil
}

func readBin(l *ogdl.Log, ob logObj, i int) error {
	b, next, err := l.GetBinary(ob.pos)
	if err != nil {
		return fmt.Errorf("GetBinary of object %d at %d: %v", i, ob.pos, err)
	}
	if !bytes.Equal(b, ob.bin) {
		return fmt.Errorf("GetBinary of object %d at %d: %q, stored was %q", i, ob.pos, clip(string(b)), clip(string(ob.bin)))
	}
	if next != ob.next {
		return fmt.Errorf("GetBinary of object %d at %d: next is %d, should be %d", i, ob.pos, next, ob.next)
	}
	return nil
}

func checkLog(c logCase, o *Obs) error {
	f := logFile()
	os.Remove(f)
	defer os.Remove(f)
	l, err := ogdl.OpenLog(f)
	if err != nil {
		panic(err)
	}
	defer func() { l.Close() }()
	l.SetSync(c.Sync)
	var objs []logObj
	var all []byte
	back, reopen := false, false
	// a second handle on the same file; l is the one in use
	var l2 *ogdl.Log
	defer func() {
		if l2 != nil {
			l2.Close()
		}
	}()

	for i, op := range c.Ops {
		switch op.Op {
		case "add", "addbin":
			var pos int64
			var bin []byte
			if op.Op == "add" {
				g := op.Obj.graph()
				bin = g.Binary()
				pos = l.Add(g)
			} else {
				bin, _ = op.Obj.encode([]int{3, 200})
				pos = l.AddBinary(append([]byte(nil), bin...))
			}
			if pos != int64(len(all)) {
				return fmt.Errorf("op %d: object added at %d, reported %d", i, len(all), pos)
			}
			all = append(all, bin...)
			objs = append(objs, logObj{pos, bin, op.Obj.tree(), int64(len(all))})
		case "get", "getbin":
			if len(objs) == 0 {
				continue
			}
			k := op.I % len(objs)
			if k < len(objs)-1 {
				back = true
			}
			if op.Op == "get" {
				err = readObj(l, objs[k], k)
			} else {
				err = readBin(l, objs[k], k)
			}
			if err != nil {
				return fmt.Errorf("op %d: %v", i, err)
			}
		case "scan", "scanbin":
			if err := scan(l, objs, op.Op == "scanbin"); err != nil {
				return fmt.Errorf("op %d: %v", i, err)
			}
		case "end":
			if err := pastEnd(l, int64(len(all))); err != nil {
				return fmt.Errorf("op %d: %v", i, err)
			}
		case "reopen":
			l.Sync()
			l.Close()
			l, err = ogdl.OpenLog(f)
			if err != nil {
				return fmt.Errorf("op %d: reopen: %v", i, err)
			}
			l.SetSync(c.Sync)
			reopen = true
		case "switch":
			if l2 == nil {
				if l2, err = ogdl.OpenLog(f); err != nil {
					return fmt.Errorf("op %d: second handle: %v", i, err)
				}
				l2.SetSync(c.Sync)
			}
			l, l2 = l2, l
			o.Label("two handles")
		}
	}
	o.LabelIf(reopen, "reopen")
	o.LabelIf(back, "read back")
	o.NonTrivial(len(objs) >= 2 && len(objs[0].bin) != len(objs[1].bin) && (back || reopen))
	if err := scan(l, objs, false); err != nil {
		return fmt.Errorf("final scan: %v", err)
	}
	if err := scan(l, objs, true); err != nil {
		return fmt.Errorf("final binary scan: %v", err)
	}
	l.Sync()
	got, err := os.ReadFile(f)
	if err != nil {
		panic(err)
	}
	if !bytes.Equal(got, all) {
		return fmt.Errorf("the file holds %d bytes that differ from the %d added", len(got), len(all))
	}
	return nil
}

func scan(l *ogdl.Log, objs []logObj, bin bool) error {
	var pos int64
	for i, ob := range objs {
		if pos != ob.pos {
			return fmt.Errorf("scan arrives at %d instead of %d for object %d", pos, ob.pos, i)
		}
		if bin {
			if err := readBin(l, ob, i); err != nil {
				return err
			}
			_, pos, _ = l.GetBinary(pos)
		} else {
			if err := readObj(l, ob, i); err != nil {
				return err
			}
			_, pos, _ = l.Get(pos)
		}
	}
	return pastEnd(l, pos)
}

func pastEnd(l *ogdl.Log, end int64) error {
	for _, p := range []int64{end, end + 1, end + 5000} {
		if g, next, _ := l.Get(p); g.Len() > 0 || next > p {
			return fmt.Errorf("Get(%d), past the end (%d): a graph with %d nodes, next %d", p, end, g.Len(), next)
		}
		if b, next, _ := l.GetBinary(p); len(b) > 0 || next > p {
			return fmt.Errorf("GetBinary(%d), past the end (%d): %d bytes, next %d", p, end, len(b), next)
		}
	}
	return nil
}

func checkMemLog(c logCase, o *Obs) error {
	l := &ogdl.Log{}
	var objs []logObj
	var all []byte
	for i, op := range c.Ops {
		switch op.Op {
		case "add", "addbin":
			var pos int64
			var bin []byte
			if op.Op == "add" {
				g := op.Obj.graph()
				bin = g.Binary()
				pos = l.Add(g)
			} else {
				bin, _ = op.Obj.encode([]int{3, 200})
				pos = l.AddBinary(append([]byte(nil), bin...))
			}
			if pos != int64(len(all)) {
				return fmt.Errorf("op %d: object added at %d, reported %d", i, len(all), pos)
			}
			all = append(all, bin...)
			objs = append(objs, logObj{pos, bin, op.Obj.tree(), int64(len(all))})
		case "get", "getbin":
			if len(objs) == 0 {
				continue
			}
			ob := objs[op.I%len(objs)]
			b := l.Bytes()
			if int64(len(b)) < ob.next || !bytes.Equal(b[ob.pos:ob.next], ob.bin) {
				return fmt.Errorf("op %d: Bytes() does not hold object %d at %d", i, op.I%len(objs), ob.pos)
			}
			if d := diff(ob.tree, ogdl.FromBinary(b[ob.pos:])); d != "" {
				return fmt.Errorf("op %d: object at %d: %s", i, ob.pos, d)
			}
		case "reopen":
			l.Sync()
		}
	}
	o.NonTrivial(len(objs) > 1)
	if !bytes.Equal(l.Bytes(), all) {
		return fmt.Errorf("Bytes() differs from what was added")
	}
	r := bufio.NewReader(&cutReader{data: l.Bytes(), cuts: []int{1000, 1, 17}})
	for i, ob := range objs {
		if d := diff(ob.tree, ogdl.FromBinaryBufioReader(r)); d != "" {
			return fmt.Errorf("FromBinaryBufioReader, object %d: %s", i, d)
		}
	}
	if g := ogdl.FromBinaryBufioReader(r); g.Len() > 0 {
		return fmt.Errorf("FromBinaryBufioReader: an object after the last one")
	}
	l.Close()
	return nil
}

func checkTorn(c tornCase, o *Obs) error {
	f := logFile()
	os.Remove(f)
	defer os.Remove(f)
	l, err := ogdl.OpenLog(f)
	if err != nil {
		panic(err)
	}
	l.SetSync(false)
	var objs []logObj
	var nodes [][]bnode
	var ends []int
	for i, ob := range c.Objs {
		bin, ns := ob.encode([]int{5, 300})
		var pos int64
		if i%2 == 0 {
			pos = l.AddBinary(bin)
		} else {
			g := ob.graph()
			bin = g.Binary()
			ns = nil
			pos = l.Add(g)
		}
		objs = append(objs, logObj{pos, bin, ob.tree(), pos + int64(len(bin))})
		nodes = append(nodes, ns)
		ends = append(ends, int(pos)+len(bin))
	}
	l.Close()
	data, err := os.ReadFile(f)
	if err != nil {
		panic(err)
	}
	if len(data) != ends[len(ends)-1] {
		return fmt.Errorf("log file of %d bytes, should be %d", len(data), ends[len(ends)-1])
	}

	for _, k := range c.Cuts {
		cut := cutPos(k, len(data), ends)
		if err := os.WriteFile(f, data[:cut], 0600); err != nil {
			panic(err)
		}
		if err := tornAt(f, cut, objs, nodes, c.New, o); err != nil {
			return fmt.Errorf("cut at %d of %d: %v", cut, len(data), err)
		}
	}
	return nil
}

func tornAt(f string, cut int, objs []logObj, nodes [][]bnode, add *BN, o *Obs) error {
	l, err := ogdl.OpenLog(f)
	if err != nil {
		return err
	}
	defer l.Close()
	l.SetSync(false)
	whole := 0
	check := func() error {
		whole = 0
		for i, ob := range objs {
			if ob.next > int64(cut) {
				break
			}
			whole++
			if err := readObj(l, ob, i); err != nil {
				return err
			}
			if err := readBin(l, ob, i); err != nil {
				return err
			}
		}
		return nil
	}
	if err := check(); err != nil {
		return err
	}
	if whole < len(objs) {
		torn := objs[whole]
		o.NonTrivial(whole > 0 && torn.pos < int64(cut))
		o.LabelIf(torn.pos < int64(cut), "inside an object")
		o.LabelIf(torn.pos == int64(cut), "at an object end")
		g, next, _ := l.Get(torn.pos)
		if next > int64(cut) {
			return fmt.Errorf("Get of the torn object: next is %d, after the end", next)
		}
		if nodes[whole] != nil {
			if err := checkPrefix(nodes[whole], cut-int(torn.pos), g); err != nil {
				return fmt.Errorf("Get of the torn object: %v", err)
			}
		} else if g != nil && !partOf(g, torn.tree) {
			return fmt.Errorf("Get of the torn object invents content: %s", clip(dump(g)))
		}
		b, next, _ := l.GetBinary(torn.pos)
		if !bytes.HasPrefix(torn.bin, b) {
			return fmt.Errorf("GetBinary of the torn object: %q is not a part of %q", clip(string(b)), clip(string(torn.bin)))
		}
		if next > int64(cut) {
			return fmt.Errorf("GetBinary of the torn object: next is %d, after the end", next)
		}
	}
	// life goes on
	g := add.graph()
	pos := l.Add(g)
	if pos != int64(cut) {
		return fmt.Errorf("an object added after the torn one: position %d", pos)
	}
	if err := readObj(l, logObj{pos, nil, add.tree(), pos + int64(len(g.Binary()))}, -1); err != nil {
		return fmt.Errorf("added after the torn one: %v", err)
	}
	return check()
}

// partOf: g is a prefix (in depth first order) of the tree, the last node possibly cut short.
func partOf(g *ogdl.Graph, t *T) bool {
	for i, n := range g.Out {
		if i >= len(t.K) || n == nil || !strings.HasPrefix(string(t.K[i].C), str(n.This)) || !partOf(n, t.K[i]) {
			return false
		}
	}
	return true
}
