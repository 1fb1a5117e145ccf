// C34: the binary format. C35: the remote protocols on the wire.
package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"time"

	"github.com/rveen/ogdl"
	"pgregory.net/rapid"
)

// ---- reference decoder, from the format description

type wnode struct {
	Level int
	C     string
	Bin   bool
}

var errShort = errors.New("the stream ends before the object")

// refDecode reads one object and tells how many bytes it takes.
func refDecode(b []byte) ([]wnode, int, error) {
	pos := 0
	next := func() (int, bool) {
		if pos >= len(b) {
			return 0, false
		}
		pos++
		return int(b[pos-1]), true
	}
	vi := func() (int, error) {
		c, ok := next()
		if !ok {
			return 0, errShort
		}
		n := 0
		switch {
		case c < 0x80:
			return c, nil
		case c < 0xc0:
			n, c = 1, c&0x3f
		case c < 0xe0:
			n, c = 2, c&0x1f
		case c < 0xf0:
			n, c = 3, c&0x0f
		default:
			return 0, fmt.Errorf("byte %d: not an integer: %#x", pos-1, c)
		}
		for ; n > 0; n-- {
			d, ok := next()
			if !ok {
				return 0, errShort
			}
			c = c<<8 | d
		}
		return c, nil
	}
	for _, w := range []int{1, 'G', 0} {
		c, ok := next()
		if !ok {
			return nil, 0, errShort
		}
		if c != w {
			return nil, 0, fmt.Errorf("header: %q", clip(string(b)))
		}
	}
	var nodes []wnode
	for {
		l, err := vi()
		if err != nil {
			return nodes, 0, err
		}
		if l == 0 {
			return nodes, pos, nil
		}
		n := wnode{Level: l}
		c, ok := next()
		if !ok {
			return nodes, 0, errShort
		}
		if c == 1 {
			n.Bin = true
			for {
				k, err := vi()
				if err != nil {
					return nodes, 0, err
				}
				if k == 0 {
					break
				}
				if pos+k > len(b) {
					return nodes, 0, errShort
				}
				n.C += string(b[pos : pos+k])
				pos += k
			}
		} else {
			pos--
			k := bytes.IndexByte(b[pos:], 0)
			if k < 0 {
				return nodes, 0, errShort
			}
			n.C = string(b[pos : pos+k])
			pos += k + 1
		}
		nodes = append(nodes, n)
	}
}

// wireTree builds the tree of the nodes.
func wireTree(nodes []wnode) (*T, error) {
	root := &T{C: "_"}
	st := []*T{root}
	for i, n := range nodes {
		if n.Level > len(st) {
			return nil, fmt.Errorf("node %d is at level %d, after level %d", i, n.Level, len(st)-1)
		}
		k := &T{C: S(n.C)}
		st = st[:n.Level]
		st[n.Level-1].K = append(st[n.Level-1].K, k)
		st = append(st, k)
	}
	return root, nil
}

func equalT(a, b *T) string {
	if a.C != b.C {
		return fmt.Sprintf("content %q, want %q", clip(string(b.C)), clip(string(a.C)))
	}
	if len(a.K) != len(b.K) {
		return fmt.Sprintf("%q has %d subnodes, want %d", clip(string(a.C)), len(b.K), len(a.K))
	}
	for i := range a.K {
		if d := equalT(a.K[i], b.K[i]); d != "" {
			return d
		}
	}
	return ""
}

// refTree decodes one whole object.
func refTree(b []byte) (*T, error) {
	nodes, n, err := refDecode(b)
	if err != nil {
		return nil, err
	}
	if n != len(b) {
		return nil, fmt.Errorf("%d bytes after the end of the object", len(b)-n)
	}
	return wireTree(nodes)
}

// ---- C34

func checkEncode(c binCase, o *Obs) error {
	g := c.graph()
	b := g.Binary()
	t, err := refTree(b)
	if err != nil {
		return fmt.Errorf("not in the format: %v: %q", err, clip(string(b)))
	}
	if d := equalT(c.tree(), t); d != "" {
		return fmt.Errorf("the stream says: %s", d)
	}
	long, bin := false, false
	c.Tree.walk(func(n *BN) {
		if n != c.Tree {
			bin = bin || n.isBinary()
			long = long || len(n.content()) > 127
		}
	})
	o.NonTrivial(len(c.Tree.K) > 0 && (bin || c.Deep > 120))
	o.LabelIf(bin, "binary node")
	o.LabelIf(long, "long content")
	o.LabelIf(c.Deep > 120, "deep")
	return nil
}

// sNode is a node as a stream can say it.
type sNode struct {
	Level int   `json:"l"`
	S     S     `json:"s"`
	R     int   `json:"r,omitempty"` // repeated
	Bin   bool  `json:"bin,omitempty"`
	Chunk []int `json:"chunk,omitempty"`
	Wide  int   `json:"wide,omitempty"` // bytes of the level, and of the first length (if they fit)
}

type streamCase struct {
	Nodes []sNode `json:"nodes"`
	After S       `json:"after"`
	Cuts  []int   `json:"cuts"`
}

// wideInt writes an integer in at least so many bytes.
func wideInt(i, wide int) []byte {
	b := vint(i)
	if wide <= len(b) {
		return b
	}
	switch wide {
	case 2:
		return []byte{byte(i>>8) | 0x80, byte(i)}
	case 3:
		return []byte{byte(i>>16) | 0xc0, byte(i >> 8), byte(i)}
	}
	return []byte{byte(i>>24) | 0xe0, byte(i >> 16), byte(i >> 8), byte(i)}
}

func (n *sNode) content() string { return (&BN{S: n.S, R: n.R}).content() }

func (c *streamCase) bytes() []byte {
	b := []byte{1, 'G', 0}
	for _, n := range c.Nodes {
		b = append(b, wideInt(n.Level, n.Wide)...)
		s := n.content()
		if n.Bin {
			b = append(b, 1)
			for i := 0; len(s) > 0; i++ {
				k, w := len(s), 0
				if len(n.Chunk) > 0 {
					k = min(k, n.Chunk[i%len(n.Chunk)])
				}
				if i == 0 {
					w = n.Wide
				}
				b = append(b, wideInt(k, w)...)
				b = append(b, s[:k]...)
				s = s[k:]
			}
		} else {
			b = append(b, s...)
		}
		b = append(b, 0)
	}
	return append(append(b, 0), c.After...)
}

func genStream(t *rapid.T) streamCase {
	c := streamCase{}
	level := 0
	if chance(t, 6, "deep") {
		for n := 100 + uni(t, 60, "depth"); level < n; {
			level++
			c.Nodes = append(c.Nodes, sNode{Level: level, S: "d"})
		}
	}
	for n := 1 + uni(t, 14, "nodes"); n > 0; n-- {
		switch k := uni(t, 4, "to"); {
		case k == 0 && level > 0:
			level = 1 + uni(t, level, "level")
		case k < 3:
			level++
		}
		level = max(1, level)
		x := sNode{Level: level}
		x.S, x.R = binContent(t)
		x.Bin = (&BN{S: x.S + "x"}).isBinary() && len(x.S) > 0 || rapid.Bool().Draw(t, "bin")
		if chance(t, 12, "empty") {
			x.S = ""
		}
		if x.S != "" && (x.S[0] == 1 || bytes.IndexByte([]byte(x.S), 0) >= 0) {
			x.Bin = true
		}
		if x.Bin && x.S != "" && chance(t, 6, "edge") {
			x.R = max(0, edges[uni(t, len(edges), "len")]/len(x.S)-1)
		}
		if x.Bin {
			for k := uni(t, 3, "chunks"); k > 0; k-- {
				x.Chunk = append(x.Chunk, pick(t, "chunk", 1, 2, 7, 127, 128, 129, 4096, 20000))
			}
			if len(x.content()) > 2000 && len(x.Chunk) > 0 {
				x.Chunk = append(x.Chunk, 20000)
			}
			if chance(t, 150, "huge") {
				x.R = (20000 + uni(t, 230000, "len")) / max(1, len(x.S))
				x.Chunk = nil
				for k := uni(t, 5, "chunks"); k > 0; k-- {
					x.Chunk = append(x.Chunk, pick(t, "chunk", 1, 300, 4096, 16383, 16384, 20000, 32768, 40000, 65535, 65536, 100000))
				}
				if k := len(x.Chunk); k > 0 && x.Chunk[k-1] < 5000 {
					x.Chunk[k-1] = 30000
				}
				if chance(t, 40, "four bytes") {
					// a chunk whose length takes four bytes
					x.S, x.R, x.Chunk = S(pick(t, "fill", "x", "\x00", "\xff")), 1<<21-3+uni(t, 6, "len"), nil
					if chance(t, 12, "more") {
						x.R = 0xa5a5a5
					}
				}
			}
		}
		if chance(t, 4, "wide") {
			x.Wide = 2 + uni(t, 3, "width")
		}
		c.Nodes = append(c.Nodes, x)
	}
	if chance(t, 3, "after") {
		c.After = S(rapid.SliceOfN(rapid.Byte(), 1, 12).Draw(t, "after"))
	}
	c.Cuts = genCuts(t)
	return c
}

func checkStream(c streamCase, o *Obs) error {
	b := c.bytes()
	var nodes []wnode
	bin, chunks := false, false
	for _, n := range c.Nodes {
		nodes = append(nodes, wnode{n.Level, n.content(), n.Bin})
		bin = bin || n.Bin
		chunks = chunks || len(n.Chunk) > 0
		o.LabelIf(n.Wide > 1, "wide integer")
		o.LabelIf(n.S == "", "empty node")
	}
	want, err := wireTree(nodes)
	if err != nil {
		panic(err)
	}
	if nn, k, err := refDecode(b); err != nil || k != len(b)-len(c.After) || len(nn) != len(nodes) {
		panic(fmt.Sprint("the reference does not agree with itself: ", err, k, len(b)))
	}
	o.NonTrivial(len(nodes) > 2 && bin)
	o.LabelIf(chunks, "chunks")
	o.LabelIf(c.Nodes[len(c.Nodes)-1].Level > 127, "two byte levels")

	look := func(how string, g *ogdl.Graph) error {
		if d := diff(want, g); d != "" {
			return fmt.Errorf("%s: %s", how, d)
		}
		// text nodes are strings, binary nodes are bytes
		i := 0
		var walk func(g *ogdl.Graph) error
		walk = func(g *ogdl.Graph) error {
			for _, k := range g.Out {
				if _, isb := k.This.([]byte); isb != nodes[i].Bin {
					return fmt.Errorf("%s: node %d is a %T", how, i, k.This)
				}
				i++
				if err := walk(k); err != nil {
					return err
				}
			}
			return nil
		}
		return walk(g)
	}
	if err := look("FromBinary", ogdl.FromBinary(append([]byte(nil), b...))); err != nil {
		return err
	}
	for i, r := range readers(b, c.Cuts) {
		if err := look(fmt.Sprint("FromBinaryReader ", i), ogdl.FromBinaryReader(r)); err != nil {
			return err
		}
	}
	for i, r := range readers(b, c.Cuts)[:2] {
		br := bufio.NewReader(r)
		if err := look(fmt.Sprint("FromBinaryBufioReader ", i), ogdl.FromBinaryBufioReader(br)); err != nil {
			return err
		}
		rest, _ := io.ReadAll(br)
		if string(rest) != string(c.After) {
			return fmt.Errorf("FromBinaryBufioReader %d leaves %q, want %q", i, clip(string(rest)), clip(string(c.After)))
		}
	}
	return nil
}

// ---- C35

type wireCase struct {
	Proto  int       `json:"proto"`
	Calls  []rpcCall `json:"calls"`
	Chunks []int     `json:"chunks,omitempty"`
	Cuts   []int     `json:"cuts,omitempty"`
	Ahead  int       `json:"ahead"` // requests sent before the first answer is read
	Half   bool      `json:"half"`  // the writing side is closed after the last request
}

func genWire(t *rapid.T) wireCase {
	c := wireCase{Proto: 1 + uni(t, 2, "proto"), Ahead: 1 + uni(t, 4, "ahead"), Half: chance(t, 3, "half")}
	big := chance(t, 10, "big")
	for n := 1 + uni(t, 5, "calls"); n > 0; n-- {
		x := genCall(t, c.Proto, big)
		if len(x.Ans.K) > 0 && rapid.Bool().Draw(t, "plain") {
			x.Route = S(rpcRoutes[uni(t, len(rpcRoutes), "route")])
		}
		c.Calls = append(c.Calls, x)
	}
	if !big && chance(t, 25, "many") {
		n := 10 + uni(t, 120, "more")
		for i := 0; i < n; i++ {
			c.Calls = append(c.Calls, c.Calls[i])
		}
		c.Ahead = 1 + uni(t, len(c.Calls), "ahead")
	}
	if rapid.Bool().Draw(t, "chunked") {
		c.Chunks = []int{1 + uni(t, 9, "chunk"), pick(t, "chunk", 3, 128, 5000)}
	}
	if rapid.Bool().Draw(t, "cut") {
		for n := 1 + uni(t, 3, "ncuts"); n > 0; n-- {
			c.Cuts = append(c.Cuts, pick(t, "cut", 1, 2, 3, 4, 5, 7, 100, 4096))
		}
	}
	return c
}

// message frames an object.
func (c *wireCase) message(n *BN) []byte {
	chunks := c.Chunks
	if len(chunks) > 0 {
		n.walk(func(x *BN) {
			if len(x.content()) > 20000 {
				chunks = []int{60000}
			}
		})
	}
	b, _ := n.encode(chunks)
	if c.Proto == 1 {
		return b
	}
	var h [4]byte
	binary.BigEndian.PutUint32(h[:], uint32(len(b)))
	return append(h[:], b...)
}

func (c *wireCase) write(w net.Conn, b []byte) error {
	for i := 0; len(b) > 0; i++ {
		k := len(b)
		if len(c.Cuts) > 0 && i < 200 {
			k = min(k, c.Cuts[i%len(c.Cuts)])
		}
		if _, err := w.Write(b[:k]); err != nil {
			return err
		}
		b = b[k:]
		if i < 20 && len(b) > 0 && len(c.Cuts) > 0 {
			time.Sleep(20 * time.Microsecond)
		}
	}
	return nil
}

// wireReader reads framed objects.
type wireReader struct {
	c   net.Conn
	buf []byte
}

func (r *wireReader) more() error {
	b := make([]byte, 65536)
	n, err := r.c.Read(b)
	r.buf = append(r.buf, b[:n]...)
	if n > 0 {
		return nil
	}
	return err
}

// read gives the next object, which has to be well formed. The error is io.EOF
// if there is nothing more.
func (r *wireReader) read(proto int) (*T, error) {
	if proto == 2 {
		for len(r.buf) < 4 {
			if err := r.more(); err != nil {
				if len(r.buf) > 0 && err == io.EOF {
					err = io.ErrUnexpectedEOF
				}
				return nil, err
			}
		}
		l := int(binary.BigEndian.Uint32(r.buf))
		if l > 1<<26 {
			return nil, fmt.Errorf("a message of %d bytes", l)
		}
		for len(r.buf) < 4+l {
			if err := r.more(); err != nil {
				return nil, fmt.Errorf("%d of %d bytes of the message: %v", len(r.buf)-4, l, err)
			}
		}
		b := r.buf[4 : 4+l]
		r.buf = append([]byte(nil), r.buf[4+l:]...)
		return refTree(b)
	}
	for last := -1; ; {
		// (not again for each small piece)
		if len(r.buf) > 0 && len(r.buf) >= last+last/4 {
			last = len(r.buf)
			nodes, n, err := refDecode(r.buf)
			if err == nil {
				r.buf = append([]byte(nil), r.buf[n:]...)
				return wireTree(nodes)
			}
			if err != errShort {
				return nil, err
			}
		}
		if len(r.buf) > 0 {
			r.c.SetReadDeadline(time.Now().Add(3 * time.Millisecond))
			err := r.more()
			r.c.SetReadDeadline(time.Now().Add(rpcWait * time.Second))
			if err == nil {
				continue
			}
			if ne, ok := err.(net.Error); !ok || !ne.Timeout() {
				if _, n, e := refDecode(r.buf); e == nil && n > 0 {
					last = 0
					continue
				}
				return nil, fmt.Errorf("after %d bytes: %v", len(r.buf), err)
			}
			if len(r.buf) != last {
				last = 0
				continue
			}
		}
		if err := r.more(); err != nil {
			if len(r.buf) > 0 && err == io.EOF {
				err = io.ErrUnexpectedEOF
			}
			return nil, err
		}
	}
}

// wireTry runs f again if something kept this machine from working.
func wireTry(f func() error) error {
	startBeat()
	for try := 0; ; try++ {
		t0 := time.Now()
		err := f()
		if err == nil || try > 4 || try > 0 && !stalled(t0) {
			return err
		}
	}
}

func checkWireServer(c wireCase, o *Obs) error {
	o.NonTrivial(len(c.Calls) > 1)
	o.Label(fmt.Sprintf("protocol %d", c.Proto))
	o.LabelIf(c.Ahead > 1 && len(c.Calls) > 1, "requests sent ahead")
	o.LabelIf(c.Half, "half closed")
	tmo := 20
	if len(c.Calls) > 20 {
		tmo = 1 // (between messages)
	}
	addr := rpcServer(c.Proto, tmo)
	return wireTry(func() error {
		x, err := net.Dial("tcp", addr)
		if err != nil {
			return err
		}
		defer x.Close()
		x.SetDeadline(time.Now().Add(rpcWait * time.Second))
		r := &wireReader{c: x}
		sent := 0
		for i := range c.Calls {
			var b []byte
			n := 0
			for ; sent < len(c.Calls) && sent < i+c.Ahead; sent++ {
				req, w, id := c.Calls[sent].requestBN(0)
				defer rpcTable.Delete(id)
				c.Calls[sent].want = w
				b = append(b, c.message(req)...)
				n++
			}
			last := sent == len(c.Calls) && n > 0
			done := make(chan error, 1)
			go func() {
				err := c.write(x, b)
				if last && c.Half {
					x.(*net.TCPConn).CloseWrite()
				}
				done <- err
			}()
			got, err := r.read(c.Proto)
			if err != nil {
				return fmt.Errorf("answer %d: %v", i, err)
			}
			if err := <-done; err != nil {
				return fmt.Errorf("writing: %v", err)
			}
			w := c.Calls[i].want
			w.mu.Lock()
			k, fail := w.n, w.fail
			w.mu.Unlock()
			want := c.Calls[i].Ans.tree()
			if !known(c.Calls[i].Route) {
				want = notFoundT
			} else if k != 1 {
				return fmt.Errorf("request %d was given %d times to its handler", i, k)
			}
			if fail != "" {
				return fmt.Errorf("request %d: %s", i, fail)
			}
			if d := equalT(want, got); d != "" {
				return fmt.Errorf("answer %d: %s", i, d)
			}
		}
		if len(r.buf) > 0 {
			return fmt.Errorf("%d bytes after the last answer", len(r.buf))
		}
		if c.Half {
			if _, err := r.read(c.Proto); err != io.EOF {
				return fmt.Errorf("after the last answer: %v", err)
			}
		}
		return nil
	})
}

func checkWireClient(c wireCase, o *Obs) error {
	o.NonTrivial(len(c.Calls) > 1)
	o.Label(fmt.Sprintf("protocol %d", c.Proto))
	return wireTry(func() error {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic(err)
		}
		defer l.Close()
		// The server: it reads and answers the calls in order, on one connection.
		reqs := make([]*BN, len(c.Calls))
		for i := range c.Calls {
			req, _, id := c.Calls[i].requestBN(0)
			rpcTable.Delete(id)
			reqs[i] = req
		}
		ended := make(chan error, 1)
		go func() {
			x, err := l.Accept()
			if err != nil {
				ended <- err
				return
			}
			defer x.Close()
			x.SetDeadline(time.Now().Add(rpcWait * time.Second))
			r := &wireReader{c: x}
			for i := range c.Calls {
				got, err := r.read(c.Proto)
				if err != nil {
					ended <- fmt.Errorf("request %d: %v", i, err)
					return
				}
				if len(r.buf) > 0 {
					ended <- fmt.Errorf("%d bytes after request %d", len(r.buf), i)
					return
				}
				if d := equalT(reqs[i].tree(), got); d != "" {
					ended <- fmt.Errorf("request %d: %s", i, d)
					return
				}
				if err := c.write(x, c.message(c.Calls[i].Ans)); err != nil {
					ended <- fmt.Errorf("answer %d: %v", i, err)
					return
				}
			}
			if _, err := r.read(c.Proto); err != io.EOF {
				ended <- fmt.Errorf("after the last request: %v", err)
				return
			}
			ended <- nil
		}()
		cl := newClient(l.Addr().String(), c.Proto)
		defer cl.Close()
		var fail error
		for i := range c.Calls {
			g, err := cl.Call(reqs[i].graph())
			if err != nil {
				fail = fmt.Errorf("call %d: %v", i, err)
				break
			}
			if d := diff(c.Calls[i].Ans.tree(), g); d != "" {
				fail = fmt.Errorf("the result of call %d: %s", i, d)
				break
			}
		}
		cl.Close()
		l.Close()
		if err := <-ended; err != nil {
			return err
		}
		return fail
	})
}

func init() {
	reg("C34", "encode",
		"random graphs with text and binary content (also of 127 to 65537 bytes, and below 120 to 20000 levels), written by Binary and read by an independent decoder made from the format description: one well-formed object with the same tree and nothing after it. Non-trivial: a binary node or more than 120 levels.",
		60000, 1200000, func(t *rapid.T) binCase {
			c := binCase{Tree: genBN(t, 12, chance(t, 6, "big"))}
			if chance(t, 20, "deep") {
				c.Deep = 120 + uni(t, 20, "depth")
				if chance(t, 30, "verydeep") {
					c.Deep = 16370 + uni(t, 30, "depth")
				}
			}
			return c
		}, checkEncode, nil)
	reg("C34", "decode",
		"random streams written from the format description (text and binary nodes, empty ones, data in chunks of many sizes, integers also in more bytes than needed, levels beyond 127, other bytes after the end) through the three decoders, whole and in pieces: the tree, strings for text and bytes for binary nodes, and the reader left right after the object. Non-trivial: more than two nodes, one of them binary.",
		60000, 1200000, genStream, checkStream, nil)
	reg("C35", "server",
		"an independent client that writes requests made from the protocol and format descriptions, in pieces, several ahead of the answers, sometimes half closing after the last: the handlers get them once each, and the answers come in order, framed as described, and are followed by nothing. Non-trivial: several calls.",
		3000, 60000, genWire, checkWireServer, nil)
	reg("C35", "client",
		"an independent server that reads the requests of a client according to the protocol and format descriptions and answers in pieces: each request is one well-formed message with the graph given, all on one connection, and the client returns each answer. Non-trivial: several calls.",
		3000, 60000, genWire, checkWireClient, nil)
}
