// C27: reading, peeking and stepping back in the lexer.
package main

import (
	"bytes"
	"fmt"
	"io"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/rveen/ogdl"
	"pgregory.net/rapid"
)

type lexPiece struct {
	S S   `json:"s"`
	N int `json:"n"` // repeated
}

type lexOp struct {
	K string `json:"k"`
	N int    `json:"n"` // how often
}

type lexCase struct {
	Data []lexPiece `json:"data"`
	Cuts []int      `json:"cuts"`
	Ops  []lexOp    `json:"ops"`
}

func (c *lexCase) bytes() []byte {
	var b bytes.Buffer
	for _, p := range c.Data {
		for i := 0; i < p.N; i++ {
			b.WriteString(string(p.S))
		}
	}
	return b.Bytes()
}

var lexUnits = []string{"a", "ab1", "é", "漢", "\U0001f600", " ", "\n", "\r", "\r\n", "\t", "\xff", "\xe6\xbc", "\xf0\x9f\x98", "\xc3", "\x80", "\x00", "0", "12", "x, (y)", "\ufffd", "é漢", "a漢\n", "\x01"}

func genLex(t *rapid.T) lexCase {
	c := lexCase{Cuts: genCuts(t)}
	n := 0
	add := func(s string, k int) {
		if k > 0 && s != "" {
			c.Data = append(c.Data, lexPiece{S(s), k})
			n += k * len(s)
		}
	}
	// edges of the buffer: whatever lies there lies there at every alignment
	if !chance(t, 4, "short") {
		edges := []int{2048, 4096, 6144, 8192, 10240}
		for k := 1 + uni(t, 2, "edges"); k > 0; k-- {
			e := edges[uni(t, len(edges), "edge")]
			u := lexUnits[uni(t, len(lexUnits), "fill")]
			room := e - n - uni(t, 12, "before")
			if room > 0 {
				add(u, room/len(u))
				add("x", room%len(u))
			}
			for j := 1 + uni(t, 6, "around"); j > 0; j-- {
				add(lexUnits[uni(t, len(lexUnits), "unit")], 1)
			}
		}
	}
	for j := uni(t, 8, "tail"); j > 0; j-- {
		add(lexUnits[uni(t, len(lexUnits), "unit")], 1+uni(t, 3, "rep"))
	}
	// what is done, mostly near the edges and the end
	pos := 0
	for j := 3 + uni(t, 30, "nops"); j > 0; j-- {
		op := lexOp{K: pick(t, "op", "byte", "byte", "rune", "rune", "back", "back", "back", "peekbyte", "peekrune", "allback", "scan")}
		switch op.K {
		case "byte", "rune", "back":
			op.N = 1 + uni(t, 9, "count")
			switch uni(t, 6, "much") {
			case 0:
				op.N = 1 + uni(t, 2040, "count")
			case 1:
				// to near the next edge
				if op.K != "back" {
					to := []int{2048, 4096, 6144, 8192, n}[uni(t, 5, "to")] - 6 + uni(t, 10, "d")
					if to > pos {
						op.N = to - pos
					}
				}
			}
			if op.K != "back" {
				pos += op.N
			}
		case "scan":
			op.N = uni(t, 7, "scan")
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func checkLex(c lexCase, o *Obs) error {
	data := c.bytes()
	n := len(data)
	var rds []io.Reader
	rds = append(rds, bytes.NewReader(data))
	if len(c.Cuts) > 0 {
		rds = append(rds, readers(data, c.Cuts)[:2]...)
	}
	for i, r := range rds {
		if err := lexRun(&c, data, r, o, i == 0); err != nil {
			return fmt.Errorf("reader %d: %v", i, err)
		}
	}
	o.LabelIf(n > 4096, "over one buffer")
	o.LabelIf(!utf8.Valid(data), "invalid UTF-8")
	return nil
}

func lexRun(c *lexCase, data []byte, rd io.Reader, o *Obs, note bool) error {
	lx := ogdl.NewLexer(rd)
	n := len(data)
	pos, high := 0, 0
	type rec struct {
		rune bool
		from int
	}
	var hist []rec
	if err := lx.UnreadRune(); err == nil {
		return fmt.Errorf("a character was stepped back before any was read")
	}
	rune1 := func() error {
		r, err := lx.Rune()
		if pos >= n {
			if err == nil {
				return fmt.Errorf("Rune at %d, the end: %q and no error", pos, r)
			}
			if pos == n {
				hist = append(hist, rec{true, pos})
				pos++
			} else {
				hist = append(hist, rec{true, pos}) // (it did not move)
			}
			return nil
		}
		w, size := utf8.DecodeRune(data[pos:])
		if err != nil || r != w {
			return fmt.Errorf("Rune at %d of %d: %q, %v, want %q", pos, n, r, err, w)
		}
		hist = append(hist, rec{true, pos})
		pos += size
		return nil
	}
	byte1 := func() error {
		b, err := lx.Byte()
		if pos >= n {
			if err == nil || b != 0 {
				return fmt.Errorf("Byte at %d, the end: %q, %v", pos, b, err)
			}
			if pos == n {
				hist = append(hist, rec{false, pos})
				pos++
			}
			return nil
		}
		if err != nil || b != data[pos] {
			return fmt.Errorf("Byte at %d of %d: %q, %v, want %q", pos, n, b, err, data[pos])
		}
		hist = append(hist, rec{false, pos})
		pos++
		return nil
	}
	back := func() (bool, error) {
		if len(hist) == 0 {
			return false, nil
		}
		h := hist[len(hist)-1]
		if h.from < high-2040 {
			return false, nil
		}
		hist = hist[:len(hist)-1]
		if h.rune {
			if err := lx.UnreadRune(); err != nil {
				return false, fmt.Errorf("UnreadRune at %d, to %d: %v", pos, h.from, err)
			}
		} else {
			lx.UnreadByte()
		}
		pos = h.from
		return true, nil
	}
	crossed, backed := false, 0
	for i, op := range c.Ops {
		err := func() error {
			switch op.K {
			case "byte", "rune":
				f := byte1
				if op.K == "rune" {
					f = rune1
				}
				for k := 0; k < op.N && pos <= n; k++ {
					if err := f(); err != nil {
						return err
					}
					high = max(high, pos)
				}
				if op.K == "rune" && pos > n && op.N%3 == 0 {
					return f() // once more at the end
				}
			case "back", "allback":
				k := op.N
				if op.K == "allback" {
					k = 1 << 30
				}
				for ; k > 0; k-- {
					ok, err := back()
					if err != nil {
						return err
					}
					if !ok {
						break
					}
					backed++
					crossed = crossed || high > 4096
				}
			case "peekbyte":
				b := lx.PeekByte()
				var w byte
				if pos < n {
					w = data[pos]
				}
				if b != w {
					return fmt.Errorf("PeekByte at %d of %d: %q, want %q", pos, n, b, w)
				}
				high = max(high, min(pos+1, n))
			case "peekrune":
				r, _ := lx.PeekRune()
				var w rune
				size := 1
				if pos < n {
					w, size = utf8.DecodeRune(data[pos:])
				}
				if r != w {
					return fmt.Errorf("PeekRune at %d of %d: %q, want %q", pos, n, r, w)
				}
				high = max(high, min(pos+size, n))
			case "scan":
				rest := ""
				if pos < n {
					rest = string(data[pos:])
				}
				run := func(in func(byte) bool) string {
					k := 0
					for k < len(rest) && in(rest[k]) {
						k++
					}
					return rest[:k]
				}
				var got, want string
				switch op.N {
				case 0:
					got, _ = lx.String()
					want = run(func(b byte) bool { return b > 32 })
				case 1:
					got, _ = lx.StringStop([]byte(",(x"))
					want = run(func(b byte) bool { return b > 32 && b != ',' && b != '(' && b != 'x' })
				case 2:
					lx.WhiteSpace()
					want = run(func(b byte) bool { return b == ' ' || b == '\t' || b == '\n' || b == '\r' })
					got = want
				case 3:
					want = run(func(b byte) bool { return b == ' ' || b == '\t' })
					k, _ := lx.Space()
					got = strings.Repeat("?", k)
					if k == len(want) {
						got = want
					}
				case 4:
					got, _ = lx.Integer()
					want = run(func(b byte) bool { return b >= '0' && b <= '9' })
				case 5:
					for _, b := range []string{"\r\n", "\n", "\r"} {
						if strings.HasPrefix(rest, b) {
							want = b
							break
						}
					}
					if lx.Break() {
						got = want
					} else if want != "" {
						got = "none"
					}
				case 6:
					got, _ = lx.Token8()
					for k, r := range rest {
						if !(unicode.IsLetter(r) || unicode.IsDigit(r) || r == '_') {
							break
						}
						want = rest[:k+utf8.RuneLen(r)]
					}
				}
				if got != want {
					return fmt.Errorf("scan %d at %d of %d: %q, want %q", op.N, pos, n, clip(got), clip(want))
				}
				if pos <= n {
					pos += len(want)
				} else if op.N != 6 {
					pos = n // (the byte scanners step back from the end)
				}
				high = max(high, min(pos+4, n))
				hist = nil
			}
			return nil
		}()
		if err != nil {
			return fmt.Errorf("operation %d (%s %d): %v", i, op.K, op.N, err)
		}
	}
	if note {
		o.NonTrivial(backed > 3 && n > 8)
		o.LabelIf(crossed, "stepped back after an edge")
		o.LabelIf(pos >= n, "at the end")
	}
	// the rest, whole
	start := pos
	for pos < n {
		b, err := lx.Byte()
		if err != nil || b != data[pos] {
			return fmt.Errorf("the rest from %d: Byte at %d of %d: %q, %v, want %q", start, pos, n, b, err, data[pos])
		}
		pos++
	}
	for i := 0; i < 3; i++ {
		if b, err := lx.Byte(); err == nil || b != 0 {
			return fmt.Errorf("no end of stream after %d bytes: %q", n, b)
		}
	}
	return nil
}

func init() {
	reg("C27", "histories",
		"random histories of reading bytes and characters, stepping back as many within the look-back, peeking and scanning (words, white space, digits, line ends), over data of up to 10 KB with characters of every width and invalid sequences laid across the edges of the buffer, delivered whole and in pieces; compared with a position in the data, and the rest is read to the end. Non-trivial: more than three steps back in more than 8 bytes.",
		72000, 1500000, genLex, checkLex, nil)
}
