From fd7c02fcfb1ea125bd23ccbf3e1808fa18c3b7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:57 +0000
Subject: [PATCH 01/50] fix: lexer lost input on short reads and on data
 returned together with EOF

---
 lexer.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/lexer.go b/lexer.go
index 76c8f72..46645ae 100644
--- a/lexer.go
+++ b/lexer.go
@@ -80,19 +80,22 @@ func (p *Lexer) fill() {
 		p.r = 0
 	}
 
-	for i := maxConsecutiveEmptyReads; i > 0; i-- {
+	// A Read may return less than asked for, and data together with an error.
+	// Stop when the buffer is full: lastByte < bufSize means end of stream.
+	for i := maxConsecutiveEmptyReads; i > 0 && offset < bufSize; {
 		n, err := p.rd.Read(p.buf[offset:])
 		if n < 0 {
 			panic(errNegativeRead)
 		}
+		offset += n
 		if err != nil {
 			p.err = err
 			break
 		}
-
-		offset += n
-		if offset >= halfSize {
-			break
+		if n == 0 {
+			i--
+		} else {
+			i = maxConsecutiveEmptyReads
 		}
 	}
 
-- 
2.43.0


From a367d5761899c3548a2d19b82ded2aef8423fb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:08 +0000
Subject: [PATCH 02/50] fix: Lexer.Rune returned stale bytes at the end of
 stream and split runes at the buffer end

---
 lexer.go | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/lexer.go b/lexer.go
index 46645ae..06605da 100644
--- a/lexer.go
+++ b/lexer.go
@@ -69,16 +69,25 @@ func (p *Lexer) fill() {
 		return
 	}
 
-	// Read new data: try a limited number of times.
-	// The first time read the full buffer, else only half.
-	offset := 0
 	if p.r >= 0 {
-		copy(p.buf, p.buf[halfSize:])
-		p.r = halfSize
-		offset = halfSize
+		p.advance()
 	} else {
 		p.r = 0
+		p.load(0)
 	}
+}
+
+// advance moves the last half of the buffer to the start, and fills the other
+// half with new bytes.
+func (p *Lexer) advance() {
+	copy(p.buf, p.buf[halfSize:])
+	p.r -= halfSize
+	p.load(halfSize)
+}
+
+// load reads new data into the buffer, starting at offset. It tries a limited
+// number of times.
+func (p *Lexer) load(offset int) {
 
 	// A Read may return less than asked for, and data together with an error.
 	// Stop when the buffer is full: lastByte < bufSize means end of stream.
@@ -125,7 +134,7 @@ func (p *Lexer) PeekRune() (rune, error) {
 	r, err := p.Rune()
 
 	if err != nil {
-		return 0, nil
+		return 0, p.UnreadRune()
 	}
 
 	return r, p.UnreadRune()
@@ -159,7 +168,16 @@ func (p *Lexer) UnreadByte() {
 // and returns unicode.ReplacementChar (U+FFFD) with a size of 1.
 func (p *Lexer) Rune() (rune, error) {
 
-	p.fill()
+	if p.lastByte < bufSize && p.r >= p.lastByte {
+		p.lastRuneSize = append(p.lastRuneSize, p.lastByte+1-p.r)
+		p.r = p.lastByte + 1
+		return 0, ErrEOS
+	}
+
+	// The rune may continue in bytes not read yet
+	if p.lastByte == bufSize && !utf8.FullRune(p.buf[p.r:]) {
+		p.advance()
+	}
 
 	r, size := rune(p.buf[p.r]), 1
 	if r >= utf8.RuneSelf {
@@ -167,6 +185,7 @@ func (p *Lexer) Rune() (rune, error) {
 	}
 	p.r += size
 	p.lastRuneSize = append(p.lastRuneSize, size)
+	p.fill()
 	return r, nil
 }
 
-- 
2.43.0


From 8323060d22927bd54b4a31d19c9bab085c31aaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:31 +0000
Subject: [PATCH 03/50] fix: a single CR is a line break, as documented

---
 lexer.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/lexer.go b/lexer.go
index 06605da..9597f5b 100644
--- a/lexer.go
+++ b/lexer.go
@@ -241,6 +241,10 @@ func (p *Lexer) Break() bool {
 
 	if c == '\r' {
 		c, _ = p.Byte()
+		if c != '\n' {
+			p.UnreadByte()
+		}
+		return true
 	}
 
 	if c == '\n' {
@@ -549,16 +553,10 @@ func (p *Lexer) Block(nsp int) (string, bool) {
 		return "", false
 	}
 
-	c, _ = p.Byte()
-	if c != 10 && c != 13 {
-		p.UnreadByte()
+	if !p.Break() {
 		p.UnreadByte()
 		return "", false
 	}
-	// Read NL if CR was found
-	if c == 13 {
-		p.Byte()
-	}
 
 	buffer := &bytes.Buffer{}
 
@@ -582,7 +580,11 @@ func (p *Lexer) Block(nsp int) (string, bool) {
 			}
 
 			if c == 13 {
-				continue
+				// CR+NL or a single CR
+				if p.PeekByte() == 10 {
+					continue
+				}
+				c = 10
 			}
 
 			buffer.WriteByte(c)
-- 
2.43.0


From e7700382752ecf061141424b651a8604d3f6cd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:32 +0000
Subject: [PATCH 04/50] fix: the node after a block lost its indentation and
 changed parent

---
 lexer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lexer.go b/lexer.go
index 9597f5b..7ad17fc 100644
--- a/lexer.go
+++ b/lexer.go
@@ -566,6 +566,10 @@ func (p *Lexer) Block(nsp int) (string, bool) {
 		ns, u := p.Space()
 
 		if u == 0 || ns <= nsp {
+			// This indentation belongs to the next line
+			for ; ns > 0; ns-- {
+				p.UnreadByte()
+			}
 			break
 		}
 
-- 
2.43.0


From 8569ce5158625ee032fb966f093d752492a20e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:14 +0000
Subject: [PATCH 05/50] fix: empty lines, comments and a less indented later
 line changed or cut the parsed tree

---
 block.go | 64 +++++++++++++++++++++++++++++++++-----------------------
 1 file changed, 38 insertions(+), 26 deletions(-)

diff --git a/block.go b/block.go
index e245127..bdb73b2 100644
--- a/block.go
+++ b/block.go
@@ -16,14 +16,7 @@ import (
 //
 //     Graph ::= Line* End
 func (p *Parser) Ogdl() {
-	n, u := p.Space()
-	if u == 0 {
-		return // Error
-	}
-	for i := n; i > 0; i-- {
-		p.UnreadByte()
-	}
-	p.tree(n, false)
+	p.ogdl(false)
 }
 
 // OgdlTypes is the main function for parsing OGDL text.
@@ -31,25 +24,39 @@ func (p *Parser) Ogdl() {
 // This version tries to convert unquoted strings that can be parsed as ints, floats
 // or bools to their corresponding type in Go (string | int64 | float64 | bool).
 func (p *Parser) OgdlTypes() {
-	n, u := p.Space()
-	if u == 0 {
-		return // Error
-	}
-	for i := n; i > 0; i-- {
-		p.UnreadByte()
+	p.ogdl(true)
+}
+
+// ogdl reads lines until the end of the stream. The indentation of the first
+// non-empty line corresponds to level 0. The same is true for any later line
+// that has less indentation.
+func (p *Parser) ogdl(types bool) {
+	for {
+		n, u := p.Space()
+		if p.Break() || p.Comment() {
+			continue
+		}
+		if u == 0 {
+			return // Error
+		}
+		for i := n; i > 0; i-- {
+			p.UnreadByte()
+		}
+		if p.tree(n, types) != nil || n == 0 {
+			return
+		}
 	}
-	p.tree(n, true)
 }
 
-// tree reads all lines with indentation >= ns
-func (p *Parser) tree(ns int, types bool) {
+// tree reads all lines with indentation >= ns. It returns ErrEOS if the end of
+// the stream was reached.
+func (p *Parser) tree(ns int, types bool) error {
 	for {
 		b, err := p.line(ns, types)
 		if !b || err != nil {
-			break
+			return err
 		}
 	}
-	p.End()
 }
 
 // line processes an OGDL line or a multiline scalar.
@@ -78,6 +85,15 @@ func (p *Parser) line(ns int, types bool) (bool, error) {
 
 	n, u := p.Space()
 
+	// Empty lines and comments have no indentation
+	if p.Break() || p.Comment() {
+		return true, nil
+	}
+
+	if p.End() {
+		return false, ErrEOS
+	}
+
 	if n < ns {
 		for i := n; i > 0; i-- {
 			p.UnreadByte()
@@ -90,9 +106,9 @@ func (p *Parser) line(ns int, types bool) (bool, error) {
 			p.UnreadByte()
 		}
 		p.ev.Inc()
-		p.tree(n, types)
+		err := p.tree(n, types)
 		p.ev.Dec()
-		return true, nil
+		return err == nil, err
 	}
 
 	level := p.ev.Level()
@@ -101,10 +117,6 @@ func (p *Parser) line(ns int, types bool) (bool, error) {
 		return false, errors.New("non-uniform space")
 	}
 
-	if p.End() {
-		return false, nil
-	}
-
 	// We should not have a Comma here, but lets ignore it.
 	if p.PeekByte() == ',' {
 		p.Byte()
@@ -122,7 +134,7 @@ func (p *Parser) line(ns int, types bool) (bool, error) {
 		// Block
 
 		if p.End() {
-			return false, nil
+			return false, ErrEOS
 		}
 
 		if p.Break() {
-- 
2.43.0


From 58f8a51b7733397ed1f9b3af2de34dc0f8e440f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:32 +0000
Subject: [PATCH 06/50] fix: SpaceMax(0) consumed all the space, so quoted
 strings lost it after a newline

---
 lexer.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/lexer.go b/lexer.go
index 7ad17fc..fdf9585 100644
--- a/lexer.go
+++ b/lexer.go
@@ -331,7 +331,7 @@ func (p *Lexer) SpaceMax(max int) (int, byte) {
 	spaces := 0
 	tabs := 0
 
-	for {
+	for spaces < max && tabs < max {
 		c, _ := p.Byte()
 		if c != '\t' && c != ' ' {
 			p.UnreadByte()
@@ -343,9 +343,6 @@ func (p *Lexer) SpaceMax(max int) (int, byte) {
 		} else {
 			tabs++
 		}
-		if spaces == max || tabs == max {
-			break
-		}
 	}
 
 	var r byte
-- 
2.43.0


From 0dac7d21abb97089032cc0b4bd1a03c6c9fd1167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:33 +0000
Subject: [PATCH 07/50] fix: backslashes next to quotes or at the end of a
 string did not survive Text and parsing

---
 graph.go | 16 ++++++----------
 lexer.go |  7 ++++++-
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/graph.go b/graph.go
index 710796b..df9d71a 100644
--- a/graph.go
+++ b/graph.go
@@ -444,7 +444,7 @@ func (g *Graph) _text(n int, buffer *bytes.Buffer, show bool) {
 		s = _string(g.This)
 	}
 
-	if strings.ContainsAny(s, "\n\r \t'\",()") {
+	if strings.ContainsAny(s, "\n\r \t'\",()") || s == "\\" || strings.HasPrefix(s, "`") {
 
 		// print quoted, but not at level 0
 		// Do not convert " to \" below if level==0 !
@@ -453,25 +453,21 @@ func (g *Graph) _text(n int, buffer *bytes.Buffer, show bool) {
 			buffer.WriteByte('"')
 		}
 
-		var c, cp byte
-
-		cp = 0
-
 		for i := 0; i < len(s); i++ {
-			c = s[i] // byte, not rune
+			c := s[i] // byte, not rune
 			if c == 13 {
 				continue // ignore CR's
 			} else if c == 10 {
 				buffer.WriteByte('\n')
 				buffer.WriteString(sp)
 			} else if c == '"' && n > 0 {
-				if cp != '\\' {
-					buffer.WriteString("\\\"")
-				}
+				buffer.WriteString("\\\"")
+			} else if c == '\\' && n > 0 && (i == len(s)-1 || strings.IndexByte("\\'\"\r", s[i+1]) != -1) {
+				// Not to be read as part of an escape sequence
+				buffer.WriteString("\\\\")
 			} else {
 				buffer.WriteByte(c)
 			}
-			cp = c
 		}
 
 		if n > 0 {
diff --git a/lexer.go b/lexer.go
index fdf9585..712a1bb 100644
--- a/lexer.go
+++ b/lexer.go
@@ -382,7 +382,12 @@ func (p *Lexer) Quoted(ind int) (string, bool, error) {
 			break
 		}
 
-		if c == '\\' {
+		if c == '\\' && c1 != '`' {
+			// \\ -> \
+			if c2 == '\\' {
+				buf = append(buf, c)
+				c = 0
+			}
 			c2 = c
 			continue
 		}
-- 
2.43.0


From 854b6d8170b6509491e7b85682f1cb93ce1fd7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:45 +0000
Subject: [PATCH 08/50] fix: Text, Show and Html removed quotes that are part
 of the content

---
 graph.go | 16 ----------------
 html.go  |  8 --------
 2 files changed, 24 deletions(-)

diff --git a/graph.go b/graph.go
index df9d71a..e9d8bd6 100644
--- a/graph.go
+++ b/graph.go
@@ -372,14 +372,6 @@ func (g *Graph) Text() string {
 		s = s[0 : len(s)-1]
 	}
 
-	// unquote
-
-	if s[0] == '"' {
-		s = s[1 : len(s)-1]
-		// But then also replace \"
-		s = strings.Replace(s, "\\\"", "\"", -1)
-	}
-
 	return s
 }
 
@@ -405,14 +397,6 @@ func (g *Graph) Show() string {
 		s = s[0 : len(s)-1]
 	}
 
-	// unquote
-
-	if s[0] == '"' {
-		s = s[1 : len(s)-1]
-		// But then also replace \"
-		s = strings.Replace(s, "\\\"", "\"", -1)
-	}
-
 	return s
 }
 
diff --git a/html.go b/html.go
index 2efdc71..4a99c13 100644
--- a/html.go
+++ b/html.go
@@ -29,14 +29,6 @@ func (g *Graph) Html(path string) string {
 		s = s[0 : len(s)-1]
 	}
 
-	// unquote
-
-	if s[0] == '"' {
-		s = s[1 : len(s)-1]
-		// But then also replace \"
-		s = strings.Replace(s, "\\\"", "\"", -1)
-	}
-
 	return s
 }
 
-- 
2.43.0


From 9a11c634f4fd057277d9db2633bbb9d9b7451344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:12 +0000
Subject: [PATCH 09/50] fix: decoding truncated binary data did not terminate,
 and binary nodes had no end

---
 binary.go | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/binary.go b/binary.go
index 1471b83..21ce247 100644
--- a/binary.go
+++ b/binary.go
@@ -282,37 +282,36 @@ func (p *binParser) line(write bool) (int, bool, []byte) {
 		// Read length, then bytes
 		for {
 			n = p.varInt()
+			if n == 0 {
+				return level, true, buf.Bytes()
+			}
 			if n < 0 {
-				break
+				return 0, false, nil
 			}
 			for ; n != 0; n-- {
 				c := p.read()
 				if c < 0 {
-					return level, true, buf.Bytes()
+					return 0, false, nil
 				}
 				if write {
 					buf.WriteByte(byte(c))
 				}
 			}
 		}
-		return level, true, buf.Bytes()
 	}
 
 	// Text node. Read bytes until 0
 
-	if write {
-		buf.WriteByte(byte(n))
-	}
-
-	for {
-		c := p.read()
-		if c == 0 {
-			return level, false, buf.Bytes()
+	for ; n != 0; n = p.read() {
+		if n < 0 {
+			// The stream ends before the node does
+			return 0, false, nil
 		}
 		if write {
-			buf.WriteByte(byte(c))
+			buf.WriteByte(byte(n))
 		}
 	}
+	return level, false, buf.Bytes()
 }
 
 // read reads one character (byte) from the stream, returning it in the for of an int.
@@ -322,7 +321,7 @@ func (p *binParser) read() int {
 	i, err := p.r.ReadByte()
 
 	c := int(i)
-	if err == io.EOF {
+	if err != nil {
 		c = -1
 	} else {
 		p.n++
-- 
2.43.0


From 31747e1dccc3989fd5145cb83c5746483ced044a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:13 +0000
Subject: [PATCH 10/50] fix: a wrong level in binary data caused huge
 allocations

---
 binary.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/binary.go b/binary.go
index 21ce247..b308879 100644
--- a/binary.go
+++ b/binary.go
@@ -137,6 +137,7 @@ func (p *binParser) parse() *Graph {
 	}
 
 	ev := &SimpleEventHandler{}
+	last := 0
 
 	for {
 		lev, bin, b := p.line(true)
@@ -144,6 +145,12 @@ func (p *binParser) parse() *Graph {
 		if lev == 0 {
 			break
 		}
+		// A node more than one level below the previous one has no parent
+		if lev > last+1 {
+			continue
+		}
+		last = lev
+
 		// Store the content in the same format as it was sent (string or []byte)
 		if bin {
 			ev.AddBytesAt(b, lev-1)
-- 
2.43.0


From 7f9e5a6cd05fa5f4a8b8b6b9b80dc2cc3f40eb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:13 +0000
Subject: [PATCH 11/50] fix: content with zero bytes or a leading 0x01 was not
 encoded as a binary node

---
 binary.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/binary.go b/binary.go
index b308879..99321b1 100644
--- a/binary.go
+++ b/binary.go
@@ -117,6 +117,16 @@ func (g *Graph) bin(level int, buf []byte) []byte {
 	b := _bytes(g.This)
 	if len(b) != 0 {
 		buf = append(buf, newVarInt(level)...)
+		if b[0] == 1 || bytes.IndexByte(b, 0) != -1 {
+			// Cannot be a text node
+			buf = append(buf, 1)
+			for len(b) > maxVarInt {
+				buf = append(buf, newVarInt(maxVarInt)...)
+				buf = append(buf, b[:maxVarInt]...)
+				b = b[maxVarInt:]
+			}
+			buf = append(buf, newVarInt(len(b))...)
+		}
 		buf = append(buf, b...)
 		buf = append(buf, 0)
 		level++
@@ -161,6 +171,9 @@ func (p *binParser) parse() *Graph {
 	return ev.Tree()
 }
 
+// maxVarInt is the biggest integer that newVarInt can represent.
+const maxVarInt = 0xfffffff
+
 // newVarInt produces a variable integer from an int.
 // Only positive integers are accepted.
 func newVarInt(i int) []byte {
@@ -193,7 +206,7 @@ func newVarInt(i int) []byte {
 	if i < 0x10000000 {
 		b := make([]byte, 4)
 		b[0] = byte(i>>24 | 0xe0)
-		b[1] = byte(i>>16 | 0xff)
+		b[1] = byte(i >> 16 & 0xff)
 		b[2] = byte(i >> 8 & 0xff)
 		b[3] = byte(i & 0xff)
 		return b
-- 
2.43.0


From bcbc8c1b127feddc2f91966884491cb2e21103af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:32 +0000
Subject: [PATCH 12/50] fix: Log.GetBinary returned the length of the object
 instead of the next position

---
 log.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/log.go b/log.go
index 9567f32..41c0a77 100644
--- a/log.go
+++ b/log.go
@@ -164,5 +164,5 @@ func (log *Log) GetBinary(i int64) ([]byte, int64, error) {
 	b := make([]byte, n)
 	_, err = log.f.ReadAt(b, i)
 
-	return b, int64(n), err
+	return b, i + int64(n), err
 }
-- 
2.43.0


From c1cacaa6336dec5a58600dbe5d61ba537d660da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:32 +0000
Subject: [PATCH 13/50] fix: Equals and Delete panicked on byte slices and
 missing nodes

---
 graph.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/graph.go b/graph.go
index e9d8bd6..029db8b 100644
--- a/graph.go
+++ b/graph.go
@@ -38,7 +38,10 @@ func (g *Graph) ThisType() string {
 // Equals returns true if the given graph and the receiver graph are equal.
 func (g *Graph) Equals(c *Graph) bool {
 
-	if c.This != g.This {
+	if g == nil || c == nil {
+		return g == c
+	}
+	if !equalContent(c.This, g.This) {
 		return false
 	}
 	if g.Len() != c.Len() {
@@ -53,6 +56,20 @@ func (g *Graph) Equals(c *Graph) bool {
 	return true
 }
 
+// equalContent compares the content of two nodes. Byte slices are compared by
+// content. Other types that Go cannot compare are not equal.
+func equalContent(a, b interface{}) bool {
+
+	if a == nil || b == nil {
+		return a == b
+	}
+	if b1, ok := a.([]byte); ok {
+		b2, ok := b.([]byte)
+		return ok && bytes.Equal(b1, b2)
+	}
+	return reflect.TypeOf(a).Comparable() && reflect.TypeOf(b).Comparable() && a == b
+}
+
 // Add adds a subnode to the current node.
 func (g *Graph) Add(n interface{}) *Graph {
 
@@ -237,7 +254,7 @@ func (g *Graph) Delete(n interface{}) {
 		return
 	}
 	for i := 0; i < g.Len(); i++ {
-		if g.Out[i].This == n {
+		if equalContent(g.Out[i].This, n) {
 			if i < (g.Len() - 1) {
 				g.Out = append(g.Out[:i], g.Out[i+1:]...)
 			} else {
-- 
2.43.0


From 5a4b731e90a4541996258a8fa4b5886292cd469e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:13 +0000
Subject: [PATCH 14/50] fix: Copy lost nodes without content and what is below
 them

---
 graph.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graph.go b/graph.go
index 029db8b..ac4ef5a 100644
--- a/graph.go
+++ b/graph.go
@@ -144,7 +144,8 @@ func (g *Graph) Copy(c *Graph) {
 		return
 	}
 	for _, n := range c.Out {
-		nn := g.Add(n.This)
+		nn := New(n.This)
+		g.Out = append(g.Out, nn)
 		nn.Copy(n)
 	}
 }
-- 
2.43.0


From 31dcfe085b72cc44a067ff98f686c020f1d9f27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:11 +0000
Subject: [PATCH 15/50] fix: Set with an index left nil nodes, and it panicked
 on bad indices and missing nodes

---
 eval.go  |  6 +++++-
 graph.go | 43 +++++++++++++++++++++++--------------------
 2 files changed, 28 insertions(+), 21 deletions(-)

diff --git a/eval.go b/eval.go
index d708441..92e6b4a 100644
--- a/eval.go
+++ b/eval.go
@@ -394,6 +394,10 @@ func (g *Graph) evalExpression(p *Graph, simpl bool) (interface{}, error) {
 
 func (g *Graph) evalBinary(p *Graph) interface{} {
 
+	if p.Len() < 2 {
+		return nil // missing operand
+	}
+
 	n1 := p.Out[0]
 
 	i2, err := g.evalExpression(p.Out[1], true)
@@ -555,7 +559,7 @@ func (g *Graph) assign(p *Graph, v interface{}, op int) interface{} {
 
 	// if p doesn't exist, just set it to the value given
 	left, _ := g.getPath(p)
-	if left != nil {
+	if left.Len() > 0 {
 		return g.set(p, calc(left.Out[0].This, v, op))
 	}
 
diff --git a/graph.go b/graph.go
index ac4ef5a..15df138 100644
--- a/graph.go
+++ b/graph.go
@@ -305,6 +305,10 @@ func (g *Graph) Set(s string, val interface{}) *Graph {
 // TODO: Clean this code:
 func (g *Graph) set(path *Graph, val interface{}) *Graph {
 
+	if g == nil || path.Len() <= 0 {
+		return nil
+	}
+
 	node := g
 
 	i := 0
@@ -316,16 +320,7 @@ func (g *Graph) set(path *Graph, val interface{}) *Graph {
 
 		elem := path.Out[i]
 		if elem.ThisString() == TypeIndex {
-			i := elem.Int64()
-			if len(node.Out) <= int(i) {
-				o := make([]*Graph, i+1)
-				for j, n := range node.Out {
-					o[j] = n
-				}
-				node.Out = o
-			}
-			node.Out[i] = New(val)
-			return node.Out[i]
+			return node.setAt(elem.index(g), val)
 		}
 		node = node.Node(elem.ThisString())
 
@@ -341,16 +336,7 @@ func (g *Graph) set(path *Graph, val interface{}) *Graph {
 			elem := path.Out[i]
 
 			if elem.ThisString() == TypeIndex {
-				i := elem.Int64()
-				if len(node.Out) <= int(i) {
-					o := make([]*Graph, i+1)
-					for j, n := range node.Out {
-						o[j] = n
-					}
-					node.Out = o
-				}
-				node.Out[i] = New(val)
-				return node.Out[i]
+				return node.setAt(elem.index(g), val)
 			}
 
 			node = node.Add(elem.This)
@@ -362,6 +348,23 @@ func (g *Graph) set(path *Graph, val interface{}) *Graph {
 	return node.addNodes(val)
 }
 
+// maxGap limits how far after the last subnode an index can be.
+const maxGap = 65536
+
+// setAt sets the subnode at the given index. Missing subnodes before it are
+// created as '_'.
+func (g *Graph) setAt(i int, val interface{}) *Graph {
+
+	if i < 0 || i > len(g.Out)+maxGap {
+		return nil
+	}
+	for len(g.Out) <= i {
+		g.Out = append(g.Out, New("_"))
+	}
+	g.Out[i] = New(val)
+	return g.Out[i]
+}
+
 // Text is the OGDL text emitter. It converts a Graph into OGDL text.
 //
 // Strings are quoted if they contain spaces, newlines or special
-- 
2.43.0


From cf25d2dbfad0529d42717b97716d13e2a52983e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:42 +0000
Subject: [PATCH 16/50] fix: assigning a graph aliased it, so that a.b = a
 created a cycle

---
 eval.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/eval.go b/eval.go
index 92e6b4a..4447361 100644
--- a/eval.go
+++ b/eval.go
@@ -553,6 +553,11 @@ func logic(i1, i2 interface{}, op int) bool {
 // assign modifies the context graph
 func (g *Graph) assign(p *Graph, v interface{}, op int) interface{} {
 
+	// Assign a copy, or later assignments to p would also modify the original
+	if vg, ok := v.(*Graph); ok && vg != nil {
+		v = vg.Clone()
+	}
+
 	if op == '=' {
 		return g.set(p, v)
 	}
-- 
2.43.0


From c6f311aa234ec8d98e6eb62a0b50ea13abf4a1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:06 +0000
Subject: [PATCH 17/50] fix: several methods panicked on a missing (nil) node

---
 gettypes.go | 33 ++++++++++++++++++++++++++++-----
 graph.go    |  9 ++++++++-
 sort.go     |  9 +++++++++
 3 files changed, 45 insertions(+), 6 deletions(-)

diff --git a/gettypes.go b/gettypes.go
index d539673..897b065 100644
--- a/gettypes.go
+++ b/gettypes.go
@@ -26,6 +26,10 @@ func (g *Graph) Find(re string) (*Graph, error) {
 
 	r := New("_")
 
+	if g == nil {
+		return r, nil
+	}
+
 	for _, node := range g.Out {
 		if exp.MatchString(node.ThisString()) {
 			r.Add(node)
@@ -76,6 +80,9 @@ func (g *Graph) Bool(def ...bool) bool {
 
 // ThisValue returns this node as a reflect.Value.
 func (g *Graph) ThisValue() reflect.Value {
+	if g == nil {
+		return reflect.Value{}
+	}
 	return reflect.ValueOf(g.This)
 }
 
@@ -192,6 +199,9 @@ func (g *Graph) Bytes() []byte {
 
 // ThisBytes returns the node as []byte, or nil if not possble.
 func (g *Graph) ThisBytes() []byte {
+	if g == nil {
+		return nil
+	}
 	return _bytes(g.This)
 }
 
@@ -202,16 +212,25 @@ func (g *Graph) Number() interface{} {
 
 // ThisNumber returns either a float64, int64 or nil
 func (g *Graph) ThisNumber() interface{} {
+	if g == nil {
+		return nil
+	}
 	return number(g.This)
 }
 
 // ThisInt64 returns a int64 or nil
 func (g *Graph) ThisInt64() (int64, bool) {
+	if g == nil {
+		return 0, false
+	}
 	return _int64f(g.This)
 }
 
 // ThisFloat64 returns a float64
 func (g *Graph) ThisFloat64() (float64, bool) {
+	if g == nil {
+		return 0, false
+	}
 	return _float64f(g.This)
 }
 
@@ -231,9 +250,6 @@ func (g *Graph) ThisFloat64() (float64, bool) {
 func (g *Graph) Scalar() interface{} {
 
 	itf := g.Interface()
-	if itf == nil && g.Out != nil {
-		itf = g.Out[0].This
-	}
 
 	// If it can be parsed as a number, return it.
 	n := number(itf)
@@ -254,9 +270,13 @@ func (g *Graph) Scalar() interface{} {
 // ThisScalar returns this node's content as an interface
 func (g *Graph) ThisScalar() interface{} {
 
+	if g == nil {
+		return nil
+	}
+
 	itf := g.This
-	if itf == nil && g.Out != nil {
-		itf = g.Out[0].This
+	if itf == nil {
+		itf = g.Interface()
 	}
 
 	// If it ca be parsed as a number, return it.
@@ -470,6 +490,9 @@ func _float64(i interface{}) (float64, bool) {
 func _int64f(i interface{}) (int64, bool) {
 
 	if i2, ok := i.(*Graph); ok {
+		if i2 == nil {
+			return 0, false
+		}
 		i = i2.This
 	}
 
diff --git a/graph.go b/graph.go
index 15df138..4bee149 100644
--- a/graph.go
+++ b/graph.go
@@ -32,6 +32,9 @@ func (g *Graph) Len() int {
 
 // ThisType returns the name of the native type contained in the current node.
 func (g *Graph) ThisType() string {
+	if g == nil || g.This == nil {
+		return ""
+	}
 	return reflect.TypeOf(g.This).String()
 }
 
@@ -220,7 +223,7 @@ func (g *Graph) Create(s string) *Graph {
 
 // GetAt returns a subnode by index, or nil if the index is out of range.
 func (g *Graph) GetAt(i int) *Graph {
-	if i >= len(g.Out) || i < 0 {
+	if i >= g.Len() || i < 0 {
 		return nil
 	}
 
@@ -518,6 +521,10 @@ func (g *Graph) Substitute(s string, v interface{}) {
 // Merge the given graph into the current (receiver) graph
 func (g *Graph) Merge(src *Graph) {
 
+	if g == nil || src == nil {
+		return
+	}
+
 	for _, node := range src.Out {
 		n := g.Node(node.String())
 
diff --git a/sort.go b/sort.go
index ad80725..1f56e66 100644
--- a/sort.go
+++ b/sort.go
@@ -11,11 +11,17 @@ type stringSorter struct {
 }
 
 func (g *Graph) Sort(field string) {
+	if g == nil {
+		return
+	}
 	s := stringSorter{field, g.Out}
 	sort.Sort(s)
 }
 
 func (g *Graph) SortAsString(field string) {
+	if g == nil {
+		return
+	}
 	s := stringSorter{field, g.Out}
 	sort.Sort(s)
 }
@@ -38,6 +44,9 @@ type intSorter struct {
 }
 
 func (g *Graph) SortAsInt(field string) {
+	if g == nil {
+		return
+	}
 	s := intSorter{field, g.Out}
 	sort.Sort(s)
 }
-- 
2.43.0


From 8677b45a7375cb6204829bc9b79be62b49587bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:07 +0000
Subject: [PATCH 18/50] fix: String, StringCSV and StringTxt ignored the
 default for empty strings; StringCSV panicked on a leaf

---
 gettypes.go | 50 +++++++++++++-------------------------------------
 1 file changed, 13 insertions(+), 37 deletions(-)

diff --git a/gettypes.go b/gettypes.go
index 897b065..6184634 100644
--- a/gettypes.go
+++ b/gettypes.go
@@ -11,6 +11,7 @@ import (
 	"reflect"
 	"regexp"
 	"strconv"
+	"strings"
 )
 
 // Find returns a Graph with all subnodes that match the regular
@@ -98,15 +99,12 @@ func (g *Graph) Value() reflect.Value {
 // empty string.
 func (g *Graph) String(def ...string) string {
 
-	// If g is nil, return default or nothing
-	if g == nil {
-		if len(def) == 0 {
-			return ""
-		}
+	s := _string(g.Interface())
+
+	if len(s) == 0 && len(def) != 0 {
 		return def[0]
 	}
-
-	return _string(g.Interface())
+	return s
 }
 
 // StringCSV returns a comma separated value representation of all direct subnodes.
@@ -114,21 +112,12 @@ func (g *Graph) String(def ...string) string {
 // empty string.
 func (g *Graph) StringCSV(def ...string) string {
 
-	// If g is nil, return default or nothing
-	if g == nil {
-		if len(def) == 0 {
-			return ""
-		}
-		return def[0]
-	}
-
-	s := ""
+	s := strings.Join(g.Strings(), ", ")
 
-	for _, n := range g.Out {
-		s += ", " + _string(n.This)
+	if len(s) == 0 && len(def) != 0 {
+		return def[0]
 	}
-
-	return s[2:]
+	return s
 }
 
 // String returns an array of strings representing all direct subnodes.
@@ -157,25 +146,12 @@ func (g *Graph) Strings() []string {
 // empty string.
 func (g *Graph) StringTxt(def ...string) string {
 
-	// If g is nil, return default or nothing
-	if g == nil {
-		if len(def) == 0 {
-			return ""
-		}
-		return def[0]
-	}
-
-	if g.Len() == 0 {
-		return ""
-	}
-
-	s := ""
+	s := strings.Join(g.Strings(), " ")
 
-	for _, n := range g.Out {
-		s += " " + _string(n.This)
+	if len(s) == 0 && len(def) != 0 {
+		return def[0]
 	}
-
-	return s[1:]
+	return s
 }
 
 // ThisString returns the current node content as a string
-- 
2.43.0


From 5bc7e63a17af2f5dba56c068df304797f442ab15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:08 +0000
Subject: [PATCH 19/50] fix: isInteger panicked on a string of spaces

---
 gettypes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gettypes.go b/gettypes.go
index 6184634..3272be8 100644
--- a/gettypes.go
+++ b/gettypes.go
@@ -691,7 +691,7 @@ func isInteger(s string) bool {
 		}
 	}
 
-	if s[i] == '-' {
+	if i < l && s[i] == '-' {
 		i++
 	}
 
-- 
2.43.0


From 49e7b070450967e9d59f3e5758c72bb9e05bc86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:29 +0000
Subject: [PATCH 20/50] fix: parentheses, negation and index expressions were
 evaluated wrong or panicked

---
 eval.go       | 20 ++++++++++++++++++--
 expression.go | 26 ++++++++------------------
 flow.go       | 13 ++++++++++---
 lexer.go      |  3 +++
 4 files changed, 39 insertions(+), 23 deletions(-)

diff --git a/eval.go b/eval.go
index 4447361..59650da 100644
--- a/eval.go
+++ b/eval.go
@@ -321,7 +321,7 @@ func (g *Graph) evalPath(p *Graph, simpl bool) (interface{}, error) {
 func (g *Graph) evalExpression(p *Graph, simpl bool) (interface{}, error) {
 
 	// Return nil and empty strings as is
-	if p.This == nil {
+	if p == nil || p.This == nil {
 		return nil, ErrNilReceiver
 	}
 
@@ -340,7 +340,9 @@ func (g *Graph) evalExpression(p *Graph, simpl bool) (interface{}, error) {
 	switch s {
 	case "!":
 		// Unary expression !expr
-		return !g.evalBool(p.Out[0]), nil
+		itf, _ := g.evalExpression(p.GetAt(0), true)
+		b, _ := _boolf(itf)
+		return !b, nil
 	case TypeExpression:
 		return g.evalExpression(p.GetAt(0), simpl)
 	case TypePath:
@@ -394,6 +396,20 @@ func (g *Graph) evalExpression(p *Graph, simpl bool) (interface{}, error) {
 
 func (g *Graph) evalBinary(p *Graph) interface{} {
 
+	if p.Len() == 1 {
+		// Unary + or -
+		i1, err := g.evalExpression(p.Out[0], true)
+		if err != nil {
+			return err // ?
+		}
+		switch p.ThisString() {
+		case "+":
+			return i1
+		case "-":
+			return calc(0, i1, '-')
+		}
+	}
+
 	if p.Len() < 2 {
 		return nil // missing operand
 	}
diff --git a/expression.go b/expression.go
index 9fe3ba0..7433d3a 100644
--- a/expression.go
+++ b/expression.go
@@ -28,9 +28,10 @@ func (g *Graph) ast() {
 	}
 
 	for _, node := range g.Out {
-		if node.ThisString() == TypeExpression {
+		switch node.ThisString() {
+		case TypeExpression, TypeIndex, TypeSelector:
 			node._ast()
-		} else {
+		default:
 			node.ast()
 		}
 	}
@@ -38,21 +39,9 @@ func (g *Graph) ast() {
 
 func (g *Graph) _ast() {
 
-	if g.Len() < 2 {
-		return
-	}
+	g.ast()
 
-	for _, node := range g.Out {
-		node.ast()
-	}
-
-	if g.Len() == 2 {
-		node := g.Out[0]
-
-		if node.ThisString() == "!" {
-			node.Add(g.Out[1])
-		}
-		g.DeleteAt(1)
+	if g.Len() < 3 {
 		return
 	}
 
@@ -60,10 +49,11 @@ func (g *Graph) _ast() {
 
 	for j := 6; j >= 0; j-- {
 
-		for i := 0; i < len(g.Out); i++ {
+		for i := 1; i < len(g.Out)-1; i++ {
 
 			node := g.Out[i]
-			if precedence(node.ThisString()) == j {
+			// An operator with subnodes already has its operands
+			if node.Len() == 0 && precedence(node.ThisString()) == j {
 				e1 = g.Out[i-1]
 				e2 = g.Out[i+1]
 				g.Out = append(g.Out[:i-1], g.Out[i:]...)
diff --git a/flow.go b/flow.go
index 74089af..de25bb7 100644
--- a/flow.go
+++ b/flow.go
@@ -15,6 +15,7 @@ func NewPath(s string) *Graph {
 	p.Path()
 	g := p.Graph()
 	g.This = TypePath
+	g.ast()
 	return g
 }
 
@@ -174,9 +175,9 @@ func (p *Parser) Expression() bool {
 // UnaryExpression := cpath | constant | op1 cpath | op1 constant | '(' expr ')' | op1 '(' expr ')'
 func (p *Parser) UnaryExpression() bool {
 
-	c := p.PeekByte()
+	c, _ := p.PeekRune()
 
-	if IsLetter(rune(c)) {
+	if IsLetter(c) {
 		p.ev.Add(TypePath)
 		p.ev.Inc()
 		p.Path()
@@ -202,12 +203,18 @@ func (p *Parser) UnaryExpression() bool {
 	b, ok = p.Operator()
 
 	if ok {
+		// The operand is placed below the operator
 		p.ev.Add(b)
+		p.ev.Inc()
+		p.Space()
+		ok = p.UnaryExpression()
+		p.ev.Dec()
+		return ok
 	}
 
 	if p.PeekByte() == '(' {
 		p.Byte() // Consume the '('
-		p.ev.Add(TypeGroup)
+		p.ev.Add(TypeExpression)
 		p.ev.Inc()
 		p.Space()
 		p.Expression()
diff --git a/lexer.go b/lexer.go
index 712a1bb..5b4f978 100644
--- a/lexer.go
+++ b/lexer.go
@@ -485,6 +485,9 @@ func (p *Lexer) Number() (string, bool) {
 	}
 
 	p.UnreadByte()
+	if len(buf) == 0 && sign != 0 {
+		p.UnreadByte()
+	}
 	if sign == '-' {
 		return "-" + string(buf), len(buf) > 0
 	}
-- 
2.43.0


From 78a8153cd0a95a679e6205056c0d677a3dcc28c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:01 +0000
Subject: [PATCH 21/50] fix: an index beyond the last subnode returned a node
 with a nil graph instead of nothing

---
 eval.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/eval.go b/eval.go
index 59650da..df874fd 100644
--- a/eval.go
+++ b/eval.go
@@ -71,8 +71,13 @@ func (g *Graph) getPath(p *Graph) (*Graph, error) {
 				return nil, ErrInvalidIndex
 			}
 
+			n := ctx.GetAt(ix)
+			if n == nil {
+				return nil, ErrNotFound
+			}
+
 			r := New("[")
-			r.Add(ctx.GetAt(ix))
+			r.Add(n)
 			ctxPrev = ctx
 			ctx = r
 
@@ -125,7 +130,7 @@ func (g *Graph) getPath(p *Graph) (*Graph, error) {
 
 		case TypeGroup:
 			// The expression is evaluated and used as path element
-			itf, err := g.Eval(pathNode.Out[0])
+			itf, err := g.Eval(pathNode.GetAt(0))
 			if err != nil {
 				return nil, err
 			}
@@ -199,6 +204,9 @@ func (g *Graph) evalPath(p *Graph, simpl bool) (interface{}, error) {
 
 			ctxPrev = ctx
 			ctx = ctx.GetAt(ix)
+			if ctx == nil {
+				return nil, nil
+			}
 			addRoot = true
 
 		case TypeSelector:
@@ -265,7 +273,7 @@ func (g *Graph) evalPath(p *Graph, simpl bool) (interface{}, error) {
 
 		case TypeGroup:
 			// The expression is evaluated and used as path element
-			itf, err := g.Eval(pathNode.Out[0])
+			itf, err := g.Eval(pathNode.GetAt(0))
 			if err != nil {
 				return nil, err
 			}
-- 
2.43.0


From 8b6e199171e6a4f2d0482695dba02ee678d9b86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:02 +0000
Subject: [PATCH 22/50] fix: Get did not descend below an index, as evaluation
 of the same path does

---
 eval.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/eval.go b/eval.go
index df874fd..897364c 100644
--- a/eval.go
+++ b/eval.go
@@ -50,6 +50,7 @@ func (g *Graph) getPath(p *Graph) (*Graph, error) {
 	ctx := g            // Current context node
 	var ctxPrev *Graph  // Previous context node
 	var elemPrev string // Previous path element searched in the context node
+	var addRoot bool
 
 	for i := 0; i < len(p.Out); i++ {
 
@@ -59,6 +60,7 @@ func (g *Graph) getPath(p *Graph) (*Graph, error) {
 
 		pathNode := p.Out[i]
 		pathElement := pathNode.ThisString()
+		addRoot = false
 
 		switch pathElement {
 
@@ -71,15 +73,12 @@ func (g *Graph) getPath(p *Graph) (*Graph, error) {
 				return nil, ErrInvalidIndex
 			}
 
-			n := ctx.GetAt(ix)
-			if n == nil {
+			ctxPrev = ctx
+			ctx = ctx.GetAt(ix)
+			if ctx == nil {
 				return nil, ErrNotFound
 			}
-
-			r := New("[")
-			r.Add(n)
-			ctxPrev = ctx
-			ctx = r
+			addRoot = true
 
 		case TypeSelector:
 
@@ -164,6 +163,12 @@ func (g *Graph) getPath(p *Graph) (*Graph, error) {
 		}
 	}
 
+	if addRoot {
+		r := New("[")
+		r.Add(ctx)
+		ctx = r
+	}
+
 	return ctx, nil
 }
 
-- 
2.43.0


From 5da3cc77830b99753f4d3339715d0bca91367f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:21 +0000
Subject: [PATCH 23/50] fix: division or remainder by zero in an expression
 panicked

---
 eval.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/eval.go b/eval.go
index 897364c..53affef 100644
--- a/eval.go
+++ b/eval.go
@@ -638,6 +638,9 @@ func calc(v1, v2 interface{}, op int) interface{} {
 	//log.Printf("i1 %d i2 %d i3 %f i4 %f\n", i1, i2, i3, i4)
 
 	if ok && ok2 {
+		if i2 == 0 && (op == '/' || op == '%') {
+			return nil // undefined
+		}
 		switch op {
 		case '+':
 			return i1 + i2
@@ -687,6 +690,9 @@ func calc(v1, v2 interface{}, op int) interface{} {
 	case '/':
 		return i3 / i4
 	case '%':
+		if int(i4) == 0 {
+			return nil // undefined
+		}
 		return int(i3) % int(i4)
 	}
 
-- 
2.43.0


From 881cce26e788ce5cebee924b5da1b893970b433e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:23 +0000
Subject: [PATCH 24/50] fix: templates lost a dot after a variable

---
 flow.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/flow.go b/flow.go
index de25bb7..abf3715 100644
--- a/flow.go
+++ b/flow.go
@@ -3,6 +3,7 @@ package ogdl
 import (
 	"bytes"
 	"errors"
+	"strings"
 )
 
 // NewPath takes a Unicode string representing an OGDL path, parses it and
@@ -284,6 +285,14 @@ func (p *Parser) Path() bool {
 				}
 			} else {
 				dot = true
+
+				// A dot that is not followed by an element (the end of
+				// a sentence in a template) is not part of the path
+				c, _ := p.PeekRune()
+				if !isTokenChar(c) && !strings.ContainsRune("\"'`[{(", c) {
+					p.UnreadByte()
+					break
+				}
 			}
 		}
 
-- 
2.43.0


From ef98c9bbb4c6927cbe3bd165f4b369aa43640e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:24 +0000
Subject: [PATCH 25/50] fix: $break inside $if did not end the loop

---
 template.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/template.go b/template.go
index 9602ce2..c73a1fb 100644
--- a/template.go
+++ b/template.go
@@ -100,21 +100,23 @@ func (g *Graph) process(c *Graph, buffer *bytes.Buffer) bool {
 			yes = c.evalBool(n.GetAt(0).GetAt(0))
 			// if true, evaluate the template part
 			if yes {
-				n.GetAt(1).process(c, buffer)
+				if n.GetAt(1).process(c, buffer) {
+					return true // $break
+				}
 			}
 		case TypeElseIf:
 			if !yes {
 				// evaluate the expression
 				yes = c.evalBool(n.GetAt(0).GetAt(0))
 				// if true, evaluate the template part
-				if yes {
-					n.GetAt(1).process(c, buffer)
+				if yes && n.GetAt(1).process(c, buffer) {
+					return true // $break
 				}
 			}
 		case TypeElse:
 			// if there was a previous if or elseif evaluating to false:
-			if !yes {
-				n.GetAt(0).process(c, buffer)
+			if !yes && n.GetAt(0).process(c, buffer) {
+				return true // $break
 			}
 		case TypeFor:
 			// The first subnode (of !g) is a path
-- 
2.43.0


From a0c170cb81d5c0dfff595d11b9dea91ff9a1d805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:24 +0000
Subject: [PATCH 26/50] fix: $for skipped lists with one element

---
 template.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/template.go b/template.go
index c73a1fb..c28cc8b 100644
--- a/template.go
+++ b/template.go
@@ -122,7 +122,8 @@ func (g *Graph) process(c *Graph, buffer *bytes.Buffer) bool {
 			// The first subnode (of !g) is a path
 			// The second is an expression evaluating to a list of elements
 
-			i, _ := c.Eval(n.GetAt(0).GetAt(1))
+			// (not simplified: a single element is also a list)
+			i, _ := c.evalExpression(n.GetAt(0).GetAt(1), false)
 
 			// fmt.Printf("-------\nfor (expr)\n-------\n%s\n\n", n.GetAt(0).GetAt(1).Show())
 
@@ -149,6 +150,9 @@ func (g *Graph) process(c *Graph, buffer *bytes.Buffer) bool {
 			varname := n.GetAt(0).GetAt(0).GetAt(0).String()
 			c.Delete(varname)
 			it := c.Add(varname)
+			if it == nil {
+				continue
+			}
 
 			for _, ee := range gi.Out {
 
-- 
2.43.0


From dfd6f7414b4521905a5fe59fc7f21bada0c13759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:18 +0000
Subject: [PATCH 27/50] fix: FromJSON returned object keys in random order

---
 encoding.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/encoding.go b/encoding.go
index ae60afd..87f135b 100644
--- a/encoding.go
+++ b/encoding.go
@@ -9,6 +9,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"math"
+	"sort"
 	"strings"
 )
 
@@ -59,8 +60,17 @@ func toGraph(v interface{}) *Graph {
 		}
 	case map[string]interface{}:
 		n := g.Add("_")
-		for k, i := range v.(map[string]interface{}) {
-			n.Add(k).AddNodes(toGraph(i))
+		m := v.(map[string]interface{})
+
+		// Go maps have no order: sort the keys
+		keys := make([]string, 0, len(m))
+		for k := range m {
+			keys = append(keys, k)
+		}
+		sort.Strings(keys)
+
+		for _, k := range keys {
+			n.Add(k).AddNodes(toGraph(m[k]))
 		}
 	case json.Number:
 		// try first to decode the number as an integer.
-- 
2.43.0


From 787cc743ad116c73b0e689e602f6a463d4bdf044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:18 +0000
Subject: [PATCH 28/50] fix: FromJSON returned only the first element of a top
 level array

---
 encoding.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/encoding.go b/encoding.go
index 87f135b..f9f7ed8 100644
--- a/encoding.go
+++ b/encoding.go
@@ -44,7 +44,13 @@ func FromJSON(buf []byte) (*Graph, error) {
 		return nil, err
 	}
 
-	return toGraph(v).GetAt(0), nil
+	g := toGraph(v)
+
+	// The elements of a list are already subnodes of the root node
+	if _, ok := v.([]interface{}); ok {
+		return g, nil
+	}
+	return g.GetAt(0), nil
 }
 
 func toGraph(v interface{}) *Graph {
-- 
2.43.0


From 538412624d7be88455e5d0fd308e2909f30376d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:18 +0000
Subject: [PATCH 29/50] fix: JSON modified the graph while writing it

---
 encoding.go | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/encoding.go b/encoding.go
index f9f7ed8..6a43e3f 100644
--- a/encoding.go
+++ b/encoding.go
@@ -119,14 +119,9 @@ func (g *Graph) JSON() []byte {
 	var buf *bytes.Buffer
 	buf = new(bytes.Buffer)
 
-	// Temporarily set root to something different than _
-	i := g.This
-	g.This = ""
-
-	g.json(buf)
-
-	// Restore root
-	g.This = i
+	// The root is something different than _
+	root := Graph{"", g.Out}
+	root.json(buf)
 
 	return buf.Bytes()
 }
-- 
2.43.0


From 135b3139ab9fe7fcfbb305fda54ec9e83a83f26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:19 +0000
Subject: [PATCH 30/50] fix: JSON produced invalid text: no separators in
 lists, no braces, missing keys and escapes

---
 encoding.go | 70 ++++++++++++++++++++++++++++++++---------------------
 1 file changed, 42 insertions(+), 28 deletions(-)

diff --git a/encoding.go b/encoding.go
index 6a43e3f..2227e69 100644
--- a/encoding.go
+++ b/encoding.go
@@ -10,7 +10,7 @@ import (
 	"fmt"
 	"math"
 	"sort"
-	"strings"
+	"strconv"
 )
 
 // FromJSON converts a JSON text stream into OGDL.
@@ -126,71 +126,85 @@ func (g *Graph) JSON() []byte {
 	return buf.Bytes()
 }
 
+// json writes the subnodes of this node, or the node itself if it is a leaf.
 func (g *Graph) json(buf *bytes.Buffer) {
 
 	// If this is a leaf node, print it as value
-	if g.Len() == 0 {
+	if g.Len() <= 0 {
 		g.writeValue(buf)
 		return
 	}
 
-	typ := 0
+	list := g.ThisString() == "_"
 
-	// Now, it is either a map or a list
-	if g.ThisString() == "_" {
-		typ = '['
+	// A single value, or a list
+	if g.Len() == 1 && !list && (g.Out[0].Len() <= 0 || g.Out[0].ThisString() == "_") {
+		g.Out[0].json(buf)
+		return
+	}
+
+	// It is a list if there is any subnode without a key or without a value
+	for _, n := range g.Out {
+		if n.Len() <= 0 || n.ThisString() == "_" {
+			list = true
+		}
+	}
+
+	if list {
 		buf.WriteString("[ ")
-	} else if g.Len() > 1 {
-		typ = '{'
+	} else {
 		buf.WriteString("{ ")
 	}
 
-	comma := false
-
-	for _, n := range g.Out {
-		if comma {
+	for i, n := range g.Out {
+		if i != 0 {
 			buf.WriteString(", ")
 		}
-		switch n.Len() {
-		case 0:
-			n.writeValue(buf)
-		case 1:
+		switch {
+		case n.Len() <= 0 || n.ThisString() == "_":
+			n.json(buf)
+		case list:
+			buf.WriteString("{ ")
 			n.writeString(buf)
 			buf.WriteString(": ")
 			n.json(buf)
-			comma = true
+			buf.WriteByte('}')
 		default:
+			n.writeString(buf)
+			buf.WriteString(": ")
 			n.json(buf)
-			comma = true
 		}
 	}
 
-	switch typ {
-	case '[':
+	if list {
 		buf.WriteByte(']')
-	case '{':
+	} else {
 		buf.WriteByte('}')
 	}
 }
 
 func (g *Graph) writeString(buf *bytes.Buffer) {
-	s := g.ThisString()
-	buf.WriteByte('"')
-	s = strings.Replace(s, "\"", "\\\"", -1)
-	buf.WriteString(s)
-	buf.WriteByte('"')
+	enc := json.NewEncoder(buf)
+	enc.SetEscapeHTML(false)
+	enc.Encode(g.ThisString())
+	buf.Truncate(buf.Len() - 1) // newline
 	buf.WriteByte(' ')
 }
 
 func (g *Graph) writeValue(buf *bytes.Buffer) {
+	if g == nil {
+		buf.WriteString("null ")
+		return
+	}
 	n, ok := _int64(g.This)
 	if ok {
 		buf.WriteString(fmt.Sprintf("%d ", n))
 		return
 	}
 	f, ok := _float64(g.This)
-	if ok {
-		buf.WriteString(fmt.Sprintf("%f ", f))
+	if ok && !math.IsNaN(f) && !math.IsInf(f, 0) {
+		buf.WriteString(strconv.FormatFloat(f, 'g', -1, 64))
+		buf.WriteByte(' ')
 		return
 	}
 	g.writeString(buf)
-- 
2.43.0


From e452c110cc35b6d2819e0526d35709339ddc9549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:51 +0000
Subject: [PATCH 31/50] fix: schema type !binary never matched, and an empty
 schema node panicked

---
 schema.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/schema.go b/schema.go
index ff81607..4a552be 100644
--- a/schema.go
+++ b/schema.go
@@ -41,7 +41,7 @@ func (g *Graph) checkNode(x *Graph) bool {
 	var ok bool
 
 	// literal | literal* | literal? | literal+ | ** | ***
-	if sc[0] != '!' {
+	if len(sc) == 0 || sc[0] != '!' {
 		return sx == sc
 	}
 
@@ -64,7 +64,7 @@ func (g *Graph) checkNode(x *Graph) bool {
 		return ty == "string"
 
 	case "!binary":
-		return ty == "[]byte"
+		return ty == "[]uint8"
 	}
 
 	return false
-- 
2.43.0


From 711ec50ea2b3830fff302f06c9f3a0867b483c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:23 +0000
Subject: [PATCH 32/50] fix: remote calls failed when a message did not arrive
 in a single read

---
 ogdlrf/client.go | 29 +++++++++++------------------
 ogdlrf/server.go | 16 +++++++---------
 2 files changed, 18 insertions(+), 27 deletions(-)

diff --git a/ogdlrf/client.go b/ogdlrf/client.go
index 2945e95..117da07 100644
--- a/ogdlrf/client.go
+++ b/ogdlrf/client.go
@@ -7,6 +7,8 @@ package ogdlrf
 import (
 	"encoding/binary"
 	"errors"
+	"io"
+	"io/ioutil"
 
 	"log"
 	"net"
@@ -102,7 +104,7 @@ func (rf *Client) callV2(g *ogdl.Graph) (*ogdl.Graph, error) {
 	}
 
 	// Read header response
-	j, err := rf.conn.Read(b4)
+	j, err := io.ReadFull(rf.conn, b4)
 	if j != 4 {
 		log.Println("error reading incomming message LEN")
 		return nil, errors.New("error in message header")
@@ -110,23 +112,14 @@ func (rf *Client) callV2(g *ogdl.Graph) (*ogdl.Graph, error) {
 	l := binary.BigEndian.Uint32(b4)
 
 	// Read body response
-	buf3 := make([]byte, 0, l)
-	tmp := make([]byte, 10000)
-	l2 := uint32(0)
-
-	for {
-		i, err = rf.conn.Read(tmp)
-		l2 += uint32(i)
-		if err != nil || i == 0 {
-			log.Println("Error reading body", l2, l, err)
-			return nil, err
-		}
-
-		buf3 = append(buf3, tmp[:i]...)
-
-		if l2 >= l {
-			break
-		}
+	buf3, err := ioutil.ReadAll(io.LimitReader(rf.conn, int64(l)))
+	if err != nil {
+		log.Println("Error reading body", len(buf3), l, err)
+		return nil, err
+	}
+	if len(buf3) != int(l) {
+		log.Println("Error reading body", len(buf3), l)
+		return nil, io.ErrUnexpectedEOF
 	}
 
 	g = ogdl.FromBinary(buf3)
diff --git a/ogdlrf/server.go b/ogdlrf/server.go
index 5f399a5..d737027 100644
--- a/ogdlrf/server.go
+++ b/ogdlrf/server.go
@@ -6,6 +6,8 @@ package ogdlrf
 
 import (
 	"encoding/binary"
+	"io"
+	"io/ioutil"
 	"log"
 	"net"
 	"time"
@@ -119,7 +121,7 @@ func process(c net.Conn, handler Function, timeout int) {
 		// Thus, first read 4 bytes (LEN)
 
 		c.SetReadDeadline(time.Now().Add(time.Second * time.Duration(timeout)))
-		i, err := c.Read(b4)
+		i, err := io.ReadFull(c, b4)
 
 		if i == 0 {
 			break
@@ -139,20 +141,16 @@ func process(c net.Conn, handler Function, timeout int) {
 
 		// Read the body of the message
 
-		buf := make([]byte, l)
-		if buf == nil {
-			log.Println("ogdlrf.Serve, cannot allocate memory for message")
-			break
-		}
-		i, err = c.Read(buf)
+		// (the buffer grows with what is really received)
+		buf, err := ioutil.ReadAll(io.LimitReader(c, int64(l)))
 
 		if err != nil {
 			log.Println("ogdlrf.Serve, error reading message body, ", err)
 			break
 		}
 
-		if i != l {
-			log.Println("ogdlrf.Serve, error reading message body, LEN is", i, "should be", l)
+		if len(buf) != l {
+			log.Println("ogdlrf.Serve, error reading message body, LEN is", len(buf), "should be", l)
 			break
 		}
 
-- 
2.43.0


From b5322a0fff111fe22d80c9462007f13f9571bb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:24 +0000
Subject: [PATCH 33/50] fix: after an error a client could return the late
 response to an earlier request

---
 ogdlrf/client.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ogdlrf/client.go b/ogdlrf/client.go
index 117da07..551bb78 100644
--- a/ogdlrf/client.go
+++ b/ogdlrf/client.go
@@ -65,11 +65,14 @@ func (rf *Client) Call(g *ogdl.Graph) (*ogdl.Graph, error) {
 		if err == nil {
 			break
 		}
+		// A late response to this request should not be taken as the response
+		// to the next one.
+		rf.Close()
+
 		n--
 		if n < 0 {
 			break
 		}
-		rf.conn = nil
 	}
 
 	return r, err
-- 
2.43.0


From dc7da4dee3c2d6dd4e0ce5b4931c34ceaaa7e1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:25 +0000
Subject: [PATCH 34/50] fix: protocol 1 server lost a message received together
 with the previous one

---
 ogdlrf/server.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ogdlrf/server.go b/ogdlrf/server.go
index d737027..920a09f 100644
--- a/ogdlrf/server.go
+++ b/ogdlrf/server.go
@@ -5,6 +5,7 @@
 package ogdlrf
 
 import (
+	"bufio"
 	"encoding/binary"
 	"io"
 	"io/ioutil"
@@ -190,21 +191,24 @@ func process1(c net.Conn, handler Function, timeout int) {
 
 	defer c.Close()
 
+	// The buffer may already contain (part of) the next message
+	r := bufio.NewReader(c)
+
 	for {
 		// Set a time out (maximum time until next message)
 		c.SetReadDeadline(time.Now().Add(time.Second * time.Duration(timeout)))
 
 		// Read the incoming object
-		g := ogdl.FromBinaryReader(c)
+		g := ogdl.FromBinaryBufioReader(r)
 
 		if g == nil {
 			break
 		}
 
-		r := handler(c, g)
+		res := handler(c, g)
 
 		// Write result in binary format
-		b := r.Binary()
+		b := res.Binary()
 		i, err := c.Write(b)
 
 		if err != nil {
-- 
2.43.0


From 9f3e4286523dcdee8db605ff7686eb941fdb6e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:39 +0000
Subject: [PATCH 35/50] fix: function calls with missing, nil or not
 convertible arguments panicked

---
 function.go | 46 +++++++++++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/function.go b/function.go
index bb11df0..9ccd70a 100644
--- a/function.go
+++ b/function.go
@@ -50,6 +50,10 @@ func (g *Graph) function(path *Graph, typ interface{}) (interface{}, error) {
 		//log.Println(runtime.FuncForPC(v.Pointer()).Name())
 		//log.Println(reflect.TypeOf(typ).String())
 
+		if path.Len() < 2 {
+			return nil, errors.New("No arguments")
+		}
+
 		// Pre-evaluate
 		var args []interface{}
 
@@ -75,29 +79,27 @@ func (g *Graph) function(path *Graph, typ interface{}) (interface{}, error) {
 			}
 		}
 
-		for i, arg := range args {
-			if arg == nil {
-				// No untyped nil support :-(
-				vargs = append(vargs, reflect.Zero(v.Type().In(i)))
-			} else {
-				vargs = append(vargs, reflect.ValueOf(arg))
-			}
-		}
-
 		// Check that the argument types match, otherwise v.Call() will panic
 		if v.Type().NumIn() != len(args) {
 			// TODO Check that we print the name of the function
 			return nil, fmt.Errorf("Invalid number of arguments in function %s (is %d, soll %d)\n%s", runtime.FuncForPC(v.Pointer()).Name(), len(args), v.Type().NumIn(), path.Show())
 		}
 
-		for i := 0; i < v.Type().NumIn(); i++ {
-			if v.Type().In(i).String() != vargs[i].Type().String() {
+		for i, arg := range args {
+			itype := v.Type().In(i)
+			if arg == nil {
+				// No untyped nil support :-(
+				vargs = append(vargs, reflect.Zero(itype))
+				continue
+			}
+			if !reflect.TypeOf(arg).AssignableTo(itype) {
 				return nil, errors.New("arguments do not match")
 			}
+			vargs = append(vargs, reflect.ValueOf(arg))
 		}
 
 		// TODO: return 0..2 values
-		vv := v.Call(vargs)
+		vv := call(v, vargs)
 		if len(vv) > 0 {
 			return vv[0].Interface(), nil
 		}
@@ -150,14 +152,20 @@ func (g *Graph) function(path *Graph, typ interface{}) (interface{}, error) {
 			}
 
 			// Type adapter. A bit slow (cache could help)
-			dtype := mtype.In(i).String()
-			vargs = append(vargs, convert(args[i], dtype))
+			varg := reflect.ValueOf(args[i])
+			if !varg.Type().AssignableTo(mtype.In(i)) {
+				varg = convert(args[i], mtype.In(i).String())
+			}
+			if !varg.IsValid() || !varg.Type().AssignableTo(mtype.In(i)) {
+				return nil, errors.New("arguments do not match in method " + fname)
+			}
+			vargs = append(vargs, varg)
 		}
 
 		// log.Printf(" - vargs: %v", vargs)
 
 		// TODO: return 0..2 values
-		vv := me.Call(vargs)
+		vv := call(me, vargs)
 		if len(vv) > 0 {
 			return vv[0].Interface(), nil
 		}
@@ -169,6 +177,14 @@ func (g *Graph) function(path *Graph, typ interface{}) (interface{}, error) {
 
 }
 
+// call calls the function f. The last argument is a slice if f is variadic.
+func call(f reflect.Value, args []reflect.Value) []reflect.Value {
+	if f.Type().IsVariadic() {
+		return f.CallSlice(args)
+	}
+	return f.Call(args)
+}
+
 // Convert arg to dtype, if possible.
 func convert(arg interface{}, dtype string) reflect.Value {
 
-- 
2.43.0


From 06f4d30cea533ff93aac0497d34f906c37aad793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:01 +0000
Subject: [PATCH 36/50] fix: functions below the first path element received
 the wrong arguments

---
 eval.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/eval.go b/eval.go
index 53affef..133d680 100644
--- a/eval.go
+++ b/eval.go
@@ -113,7 +113,7 @@ func (g *Graph) getPath(p *Graph) (*Graph, error) {
 		case TypeArguments:
 			// We have hit an argument list of a function
 			if ctx.Len() > 0 {
-				itf, err := g.function(p, ctx.GetAt(0).This)
+				itf, err := g.function(p.from(i-1), ctx.GetAt(0).This)
 				if err != nil {
 					return nil, err
 				}
@@ -149,7 +149,7 @@ func (g *Graph) getPath(p *Graph) (*Graph, error) {
 
 			if ctx == nil {
 				if ctxPrev.Len() > 0 {
-					itf, err := g.function(p, ctxPrev.GetAt(0).This)
+					itf, err := g.function(p.from(i-1), ctxPrev.GetAt(0).This)
 					if err != nil {
 						return nil, err
 					}
@@ -172,6 +172,14 @@ func (g *Graph) getPath(p *Graph) (*Graph, error) {
 	return ctx, nil
 }
 
+// from returns the path from its element i on.
+func (g *Graph) from(i int) *Graph {
+	if i <= 0 {
+		return g
+	}
+	return &Graph{g.This, g.Out[i:]}
+}
+
 // evalPath traverses g following a path p. The path needs to be previously converted
 // to a Graph with NewPath().
 func (g *Graph) evalPath(p *Graph, simpl bool) (interface{}, error) {
@@ -262,7 +270,7 @@ func (g *Graph) evalPath(p *Graph, simpl bool) (interface{}, error) {
 		case TypeArguments:
 			// We have hit an argument list of a function
 			if ctx.Len() > 0 {
-				itf, err := g.function(p, ctx.GetAt(0).This)
+				itf, err := g.function(p.from(i-1), ctx.GetAt(0).This)
 				if err != nil {
 					return nil, err
 				}
@@ -298,7 +306,7 @@ func (g *Graph) evalPath(p *Graph, simpl bool) (interface{}, error) {
 
 			if ctx == nil {
 				if ctxPrev.Len() > 0 {
-					itf, err := g.function(p, ctxPrev.GetAt(0).This)
+					itf, err := g.function(p.from(i-1), ctxPrev.GetAt(0).This)
 					if err != nil {
 						return nil, err
 					}
-- 
2.43.0


From 59ee8d5357f69cb73aa42b906a7f29e9b6f22beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:02 +0000
Subject: [PATCH 37/50] fix: gxml.Simplify panicked on an element with the text
 @id

---
 io/gxml/xml.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/io/gxml/xml.go b/io/gxml/xml.go
index 5fd20b8..090bf45 100644
--- a/io/gxml/xml.go
+++ b/io/gxml/xml.go
@@ -22,7 +22,7 @@ func Simplify(g *ogdl.Graph) {
 		if len(n.Out) == 0 {
 			continue
 		}
-		if n.Out[0].ThisString() == "@id" && len(n.Out) >= 2 {
+		if n.Out[0].ThisString() == "@id" && n.Out[0].Len() > 0 && len(n.Out) >= 2 {
 			if n.This != "p" {
 				n.This = n.Out[0].Out[0].This
 			}
-- 
2.43.0


From 7f1e4c07ad5e505de171c6d4e94d34dbdc7e8a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:27 +0000
Subject: [PATCH 38/50] fix: xml2ogdl -id panicked on a missing path and on an
 element with the text @id

---
 cmd/xml2ogdl/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/xml2ogdl/main.go b/cmd/xml2ogdl/main.go
index d71f2a3..e2adfce 100644
--- a/cmd/xml2ogdl/main.go
+++ b/cmd/xml2ogdl/main.go
@@ -49,7 +49,7 @@ func main() {
 }
 
 func simplify(g *ogdl.Graph) {
-	if g.Out == nil {
+	if g == nil || g.Out == nil {
 		return
 	}
 
@@ -58,7 +58,7 @@ func simplify(g *ogdl.Graph) {
 		if len(n.Out) == 0 {
 			continue
 		}
-		if n.Out[0].ThisString() == "@id" && len(n.Out) >= 2 {
+		if n.Out[0].ThisString() == "@id" && n.Out[0].Len() > 0 && len(n.Out) >= 2 {
 			if n.This != "p" {
 				n.This = n.Out[0].Out[0].This
 			}
-- 
2.43.0


From 5686d860327d26edd8912760829cda47575519c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:28 +0000
Subject: [PATCH 39/50] fix: gtemplate ignored all data files after an empty
 first one

---
 cmd/gtemplate/main.go | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/cmd/gtemplate/main.go b/cmd/gtemplate/main.go
index 38bfbe8..2053ad3 100644
--- a/cmd/gtemplate/main.go
+++ b/cmd/gtemplate/main.go
@@ -27,20 +27,13 @@ func main() {
 		return
 	}
 
-	var data *ogdl.Graph
+	data := ogdl.New("_")
 
 	t, _ := ioutil.ReadFile(flag.Args()[0])
 	tpl := ogdl.NewTemplate(string(t))
 
-	for i, f := range flag.Args() {
-		switch i {
-		case 0:
-		case 1:
-			data = ogdl.FromFile(f)
-		default:
-			g := ogdl.FromFile(f)
-			data.AddNodes(g)
-		}
+	for _, f := range flag.Args()[1:] {
+		data.AddNodes(ogdl.FromFile(f))
 	}
 
 	b := tpl.Process(data)
-- 
2.43.0


From 76c68b64f2f203f12334fc80ce428894d3074531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:16 +0000
Subject: [PATCH 40/50] fix: a backslash inside backquotes was doubled

---
 lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexer.go b/lexer.go
index 5b4f978..65f3597 100644
--- a/lexer.go
+++ b/lexer.go
@@ -393,7 +393,7 @@ func (p *Lexer) Quoted(ind int) (string, bool, error) {
 		}
 
 		// \" -> ", \' -> '
-		if c2 == '\\' && c != '\'' && c != '"' {
+		if c2 == '\\' && c1 != '`' && c != '\'' && c != '"' {
 			buf = append(buf, '\\')
 		}
 
-- 
2.43.0


From f1e8ded57b2252b2c172642a75359c557147cf55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:58 +0000
Subject: [PATCH 41/50] fix: comparing content that holds an uncomparable value
 in an interface panicked

---
 graph.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graph.go b/graph.go
index 4bee149..38d80cc 100644
--- a/graph.go
+++ b/graph.go
@@ -70,7 +70,7 @@ func equalContent(a, b interface{}) bool {
 		b2, ok := b.([]byte)
 		return ok && bytes.Equal(b1, b2)
 	}
-	return reflect.TypeOf(a).Comparable() && reflect.TypeOf(b).Comparable() && a == b
+	return reflect.ValueOf(a).Comparable() && reflect.ValueOf(b).Comparable() && a == b
 }
 
 // Add adds a subnode to the current node.
-- 
2.43.0


From 6c2ab4de5afa3e7e8a0c181f90fccfd9f582b2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:57 +0000
Subject: [PATCH 42/50] fix: template text equal to the name of a special node
 was taken for it

---
 template.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/template.go b/template.go
index c28cc8b..ffa9c67 100644
--- a/template.go
+++ b/template.go
@@ -6,6 +6,7 @@ package ogdl
 
 import (
 	"bytes"
+	"strings"
 )
 
 // NewTemplate parses a text template given as a string and converts it to a Graph.
@@ -309,7 +310,14 @@ func (p *Parser) Text() bool {
 	s, b := p.TemplateText()
 
 	if b {
-		p.ev.Add(s)
+		// Divided, not to be taken for a special node (!if, !end, ...)
+		n := len(s) - len(strings.TrimLeft(s, "!"))
+		if n > 0 {
+			p.ev.Add(s[:n])
+		}
+		if n < len(s) {
+			p.ev.Add(s[n:])
+		}
 		return true
 	}
 	return false
-- 
2.43.0


From 1c16234b18a57824c0e66777d0568b5924f7f864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:08 +0000
Subject: [PATCH 43/50] fix: a loop over the context itself ($for(x,_this))
 made a cyclic graph

---
 template.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/template.go b/template.go
index ffa9c67..0b935c0 100644
--- a/template.go
+++ b/template.go
@@ -148,6 +148,9 @@ func (g *Graph) process(c *Graph, buffer *bytes.Buffer) bool {
 			// Assing expression value to path
 			// XXX if not Graph
 
+			// (the list can be the context itself, where the variable is added)
+			elems := append([]*Graph(nil), gi.Out...)
+
 			varname := n.GetAt(0).GetAt(0).GetAt(0).String()
 			c.Delete(varname)
 			it := c.Add(varname)
@@ -155,7 +158,7 @@ func (g *Graph) process(c *Graph, buffer *bytes.Buffer) bool {
 				continue
 			}
 
-			for _, ee := range gi.Out {
+			for _, ee := range elems {
 
 				it.Out = nil
 				it.Add(ee)
-- 
2.43.0


From 8ddbf791866a25a0ccda00aa35f2aea1436e0052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:57 +0000
Subject: [PATCH 44/50] fix: JSON export of unsigned integers above the int64
 range

---
 encoding.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/encoding.go b/encoding.go
index 2227e69..ac6bfdd 100644
--- a/encoding.go
+++ b/encoding.go
@@ -196,6 +196,12 @@ func (g *Graph) writeValue(buf *bytes.Buffer) {
 		buf.WriteString("null ")
 		return
 	}
+	switch u := g.This.(type) {
+	case uint, uint64, uintptr:
+		// (may be larger than an int64)
+		buf.WriteString(fmt.Sprintf("%d ", u))
+		return
+	}
 	n, ok := _int64(g.This)
 	if ok {
 		buf.WriteString(fmt.Sprintf("%d ", n))
-- 
2.43.0


From e1381315ff155569062f9d0c30be2483ba18cbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:35 +0000
Subject: [PATCH 45/50] fix: PeekByte at the end of the stream moved the
 position

---
 lexer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lexer.go b/lexer.go
index 65f3597..a56a5af 100644
--- a/lexer.go
+++ b/lexer.go
@@ -119,9 +119,11 @@ func (p *Lexer) Error() error {
 
 // PeekByte returns the next byte witohut consuming it
 func (p *Lexer) PeekByte() byte {
+	r := p.r
 	c, err := p.Byte()
 
 	if err != nil {
+		p.r = r // nothing consumed
 		return 0
 	}
 
-- 
2.43.0


From 6ae7d8d1e33a73597f8678537423716729de55cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:13 +0000
Subject: [PATCH 46/50] fix: path elements after a method call were ignored, or
 applied to the object

---
 eval.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/eval.go b/eval.go
index 133d680..6cc903f 100644
--- a/eval.go
+++ b/eval.go
@@ -158,6 +158,10 @@ func (g *Graph) getPath(p *Graph) (*Graph, error) {
 					if !ok {
 						return nil, ErrFunctionNoGraph
 					}
+					// The arguments have been used. The path may go on.
+					if i+1 < len(p.Out) && p.Out[i+1].ThisString() == TypeArguments {
+						i++
+					}
 				}
 			}
 		}
@@ -316,7 +320,13 @@ func (g *Graph) evalPath(p *Graph, simpl bool) (interface{}, error) {
 						return itf, nil
 					}
 					// fmt.Printf("evalPath function %s %d %d %d\n", pathElement, i, p.Len(), len(p.Out))
-					return itf, nil
+					// The arguments have been used. The path may go on.
+					if i+1 < len(p.Out) && p.Out[i+1].ThisString() == TypeArguments {
+						i++
+					}
+					if i+1 == len(p.Out) {
+						return itf, nil
+					}
 				}
 			}
 
-- 
2.43.0


From 153fe1950c19264710b471563babe5f1e10b2078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:13 +0000
Subject: [PATCH 47/50] fix: a member of a local function called the function

---
 function.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/function.go b/function.go
index 9ccd70a..12edc99 100644
--- a/function.go
+++ b/function.go
@@ -71,7 +71,10 @@ func (g *Graph) function(path *Graph, typ interface{}) (interface{}, error) {
 
 			args = append(args, n)
 		} else {
-			// Local function
+			// Local function: it has arguments, but not methods
+			if path.Out[1].ThisString() != TypeArguments {
+				return nil, errors.New("No arguments")
+			}
 			for _, arg := range path.Out[1].Out {
 				itf, _ := g.evalExpression(arg, true)
 				args = append(args, itf)
-- 
2.43.0


From 45f034a24192affd1114696fab125a4d146dc16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:41 +0000
Subject: [PATCH 48/50] fix: the text of a deep graph took cubic time

---
 graph.go | 5 +----
 html.go  | 5 +----
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/graph.go b/graph.go
index 38d80cc..56c7a64 100644
--- a/graph.go
+++ b/graph.go
@@ -429,10 +429,7 @@ func (g *Graph) Show() string {
 // result is printed.
 func (g *Graph) _text(n int, buffer *bytes.Buffer, show bool) {
 
-	sp := ""
-	for i := 0; i < n; i++ {
-		sp += "  "
-	}
+	sp := strings.Repeat("  ", n)
 
 	/*
 	   When printing strings with newlines, there are two possibilities:
diff --git a/html.go b/html.go
index 4a99c13..a54628b 100644
--- a/html.go
+++ b/html.go
@@ -41,10 +41,7 @@ func (g *Graph) _html(n int, buffer *bytes.Buffer, show bool, path string) {
 		return
 	}
 
-	sp := ""
-	for i := 0; i < n; i++ {
-		sp += "&nbsp;&nbsp;"
-	}
+	sp := strings.Repeat("&nbsp;&nbsp;", n)
 
 	/*
 	   When printing strings with newlines, there are two possibilities:
-- 
2.43.0


From bc9f2af2c77a72d1e68f3f4764543e020bc98332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:01 +0000
Subject: [PATCH 49/50] fix: a long expression took quadratic time to parse

---
 expression.go | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/expression.go b/expression.go
index 7433d3a..a19ae34 100644
--- a/expression.go
+++ b/expression.go
@@ -45,24 +45,25 @@ func (g *Graph) _ast() {
 		return
 	}
 
-	var e1, e2 *Graph
-
 	for j := 6; j >= 0; j-- {
 
-		for i := 1; i < len(g.Out)-1; i++ {
+		// Each operator of this precedence takes the place of its operands
+		out := g.Out[:1]
+
+		for i := 1; i < len(g.Out); i++ {
 
 			node := g.Out[i]
 			// An operator with subnodes already has its operands
-			if node.Len() == 0 && precedence(node.ThisString()) == j {
-				e1 = g.Out[i-1]
-				e2 = g.Out[i+1]
-				g.Out = append(g.Out[:i-1], g.Out[i:]...)
-				g.Out = append(g.Out[:i], g.Out[i+1:]...)
-				node.Add(e1)
-				node.Add(e2)
-				i--
+			if i < len(g.Out)-1 && node.Len() == 0 && precedence(node.ThisString()) == j {
+				node.Add(out[len(out)-1])
+				node.Add(g.Out[i+1])
+				out[len(out)-1] = node
+				i++
+			} else {
+				out = append(out, node)
 			}
 		}
+		g.Out = out
 	}
 }
 
-- 
2.43.0


From e33ed7c6c9add7ffe9897660b5072b71098f70d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:57 +0000
Subject: [PATCH 50/50] fix: a loop was not bound to its variable after an
 inner loop with the same one

---
 template.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/template.go b/template.go
index 0b935c0..5cc4081 100644
--- a/template.go
+++ b/template.go
@@ -152,15 +152,16 @@ func (g *Graph) process(c *Graph, buffer *bytes.Buffer) bool {
 			elems := append([]*Graph(nil), gi.Out...)
 
 			varname := n.GetAt(0).GetAt(0).GetAt(0).String()
-			c.Delete(varname)
-			it := c.Add(varname)
-			if it == nil {
-				continue
-			}
 
 			for _, ee := range elems {
 
-				it.Out = nil
+				// (again for each element, since an inner loop may have used
+				// the same variable)
+				c.Delete(varname)
+				it := c.Add(varname)
+				if it == nil {
+					break
+				}
 				it.Add(ee)
 
 				brk := n.GetAt(1).process(c, buffer)
-- 
2.43.0

