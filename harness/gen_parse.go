package main

import (
	"fmt"
	"strings"
)

// ---- random patches as text -------------------------------------------------

const b85 = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz!#$%&()*+-;<=>?@^_`{|}~"

// encode85 is an independent base 85 encoder (big endian groups of four).
func encode85(data []byte) string {
	var sb strings.Builder
	for i := 0; i < len(data); i += 4 {
		var v uint64
		for j := 0; j < 4; j++ {
			v <<= 8
			if i+j < len(data) {
				v |= uint64(data[i+j])
			}
		}
		var c [5]byte
		for j := 4; j >= 0; j-- {
			c[j] = b85[v%85]
			v /= 85
		}
		sb.Write(c[:])
	}
	return sb.String()
}

func binLines(data []byte) []string {
	var out []string
	for len(data) > 0 {
		n := min(52, len(data))
		lb := byte('A' + n - 1)
		if n > 26 {
			lb = byte('a' + n - 27)
		}
		out = append(out, string(lb)+encode85(data[:n])+"\n")
		data = data[n:]
	}
	return out
}

func mustQuote(c byte) bool { return c < 0x20 || c >= 0x7f || c == '"' || c == '\\' }

// gitQuote quotes a name as git does.
func gitQuote(s string) string {
	need := false
	for i := 0; i < len(s); i++ {
		need = need || mustQuote(s[i])
	}
	if !need {
		return s
	}
	var sb strings.Builder
	sb.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		if j := strings.IndexByte("\a\b\t\n\v\f\r\"\\", c); j >= 0 {
			sb.WriteByte('\\')
			sb.WriteByte("abtnvfr\"\\"[j])
		} else if mustQuote(c) {
			fmt.Fprintf(&sb, "\\%03o", c)
		} else {
			sb.WriteByte(c)
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

func (g *Gen) name() string {
	n := 1 + g.intn(8)
	if g.chance(8) {
		n = 20 + g.intn(200)
	}
	if g.chance(4) { // many parts
		return strings.Repeat(g.pick("a ", " ", "x y/", "\"", "\\", "é", "a/", " b/"), 1+g.intn(60)) + "z"
	}
	var b []byte
	for i := 0; i < n; i++ {
		switch g.intn(12) {
		case 0:
			b = append(b, ' ')
		case 1:
			if len(b) > 0 && b[len(b)-1] != '/' && i < n-1 {
				b = append(b, '/')
			} else {
				b = append(b, 'q')
			}
		case 2:
			if g.chance(30) {
				b = append(b, byte(g.intn(256)))
				if b[len(b)-1] == '/' {
					b[len(b)-1] = '_'
				}
			} else {
				b = append(b, "\"\\\t\n\xc3\xff"[g.intn(6)])
			}
		default:
			if c := g.anyByte(); g.chance(15) && c != '/' {
				b = append(b, c)
			} else {
				b = append(b, "abcdef.-+012"[g.intn(12)])
			}
		}
	}
	return string(b)
}

func (g *Gen) simpleName() string {
	if g.chance(30) {
		return g.name()
	}
	return g.pick("f", "dir/g", "a b", "src/x y/z.go", "lib.c", "b/b", "with space/é")
}

// anyByte gives any byte but a newline, mostly a printable one.
func (g *Gen) anyByte() byte {
	if g.chance(85) {
		return byte(' ' + g.intn(95))
	}
	if b := byte(g.intn(256)); b != '\n' {
		return b
	}
	return '~'
}

func (g *Gen) text() string {
	switch g.intn(10) {
	case 0:
		return ""
	case 1:
		return g.pick("-- a/x", "++ b/x", "diff --git a/b b/c", "@@ -1 +1 @@", "\\ No newline at end of file", "GIT binary patch", " ", "\r", "literal 3", "-", "+")
	}
	n := g.intn(12)
	if g.chance(3) {
		n = 60 + g.intn(200)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = "abc \t{}();\r\xe9\xff\x00"[g.intn(14)]
		if g.chance(25) {
			b[i] = g.anyByte()
		}
	}
	return string(b)
}

const noEOL = "\\ No newline at end of file\n"

// frag returns the lines of a fragment; kind restricts it for creation ("new")
// and deletion ("del").
func (g *Gen) frag(kind string, opos, npos int) []string {
	var body []string
	o, n, ch := 0, 0, false
	add := func(op string) {
		t := g.text()
		if op == " " && t == "" && g.chance(50) {
			body = append(body, "\n")
			return
		}
		body = append(body, op+t+"\n")
	}
	k := 1 + g.intn(6)
	if g.chance(4) {
		k = 10 + g.intn(30)
	}
	for i := 0; i < k || !ch; i++ {
		op := g.pick(" ", "-", "+")
		if kind == "new" {
			op = "+"
		} else if kind == "del" {
			op = "-"
		}
		add(op)
		switch op {
		case " ":
			o, n = o+1, n+1
		case "-":
			o, ch = o+1, true
		case "+":
			n, ch = n+1, true
		}
		if g.chance(4) {
			body = append(body, noEOL)
		}
	}
	if g.chance(20) && body[len(body)-1] != noEOL {
		body = append(body, g.pick(noEOL, noEOL, "\\ Kein Zeilenumbruch\n", "\\ 12345678\n"))
	}
	if o == 0 && kind == "new" {
		opos = 0
	}
	if n == 0 && kind == "del" {
		npos = 0
	}
	rng := func(p, c int) string {
		if c == 1 && g.chance(50) {
			return fmt.Sprint(p)
		}
		if g.chance(2) {
			return fmt.Sprintf("0%d,%d", p, c)
		}
		return fmt.Sprintf("%d,%d", p, c)
	}
	cm := ""
	if g.chance(40) {
		cm = g.pick(" "+strings.Trim(g.text(), "\r"), " func main() {", " ", "x", " @@ odd", " a\tb ", "  int f(void)\r", " \xc2\xa0z\xe2\x80\x83", " é")
	}
	hdr := "@@ -" + rng(opos, o) + " +" + rng(npos, n) + " @@" + cm + "\n"
	return append([]string{hdr}, body...)
}

func (g *Gen) frags(kind string) []string {
	n := 1
	if kind == "" && g.chance(40) {
		n = 1 + g.intn(4)
	}
	var out []string
	pos := 1 + g.intn(50)
	if g.chance(5) {
		pos = 1 << 30
	}
	for i := 0; i < n; i++ {
		out = append(out, g.frag(kind, pos, pos+g.intn(3))...)
		pos += 40 + g.intn(100)
	}
	return out
}

func (g *Gen) bytes(n int) []byte {
	b := make([]byte, n)
	mode := g.intn(3)
	for i := range b {
		switch mode {
		case 0:
			b[i] = byte(g.intn(256))
		case 1:
			b[i] = byte(g.intn(2) * 255)
		case 2:
			b[i] = byte(i)
		}
	}
	return b
}

func (g *Gen) binary() []string {
	if g.chance(25) {
		return []string{g.pick("Binary files a/x and b/x differ\n", "Files a/x and b/y differ\n", "Binary files /dev/null and b/q differ\n")}
	}
	out := []string{"GIT binary patch\n"}
	for i := 0; i < 1+g.intn(2); i++ {
		d := g.bytes(g.intn(130))
		out = append(out, g.pick("literal ", "delta ")+fmt.Sprint(g.intn(100000))+"\n")
		out = append(out, binLines(d)...)
		out = append(out, "\n")
	}
	return out
}

func (g *Gen) oid() string {
	n := []int{7, 7, 10, 40, 1}[g.intn(5)]
	b := make([]byte, n)
	for i := range b {
		b[i] = "0123456789abcdef"[g.intn(16)]
	}
	return string(b)
}

func (g *Gen) mode() string { return g.pick("100644", "100755", "120000", "160000", "644", "0100664") }

// section returns one well-formed file section.
func (g *Gen) section() []string {
	a := g.simpleName()
	if g.last != "" && g.chance(30) {
		a = g.last // several changes of one file
	}
	g.last = a
	b := a
	q := func(p, n string) string { return gitQuote(p + n) }
	if g.chance(25) { // traditional
		ts := g.pick("", "\t2021-03-04 05:06:07.000000000 +0100", "\t1999-12-31 23:59:59 -0800", "\t")
		nm := func(s string) string { return gitQuote(s) }
		switch g.intn(5) {
		case 0:
			return append([]string{"--- /dev/null\n", "+++ " + nm(a) + "\n"}, g.frags("new")...)
		case 1:
			return append([]string{"--- " + nm(a) + ts + "\n", "+++ /dev/null\n"}, g.frags("del")...)
		case 2:
			z := g.pick("\t1970-01-01 00:00:00.000000000 +0000", "\t1969-12-31 19:00:00 -0500", "\t1970-01-01 05:30:00 +05:30")
			if g.chance(50) {
				return append([]string{"--- " + nm(a) + z + "\n", "+++ " + nm(a) + ts + "\n"}, g.frags("new")...)
			}
			return append([]string{"--- " + nm(a) + ts + "\n", "+++ " + nm(a) + z + "\n"}, g.frags("del")...)
		case 3:
			b = a + g.pick(".orig", "~", "x")
		}
		if g.chance(30) {
			a, b = b, a
		}
		return append([]string{"--- " + nm(a) + ts + "\n", "+++ " + nm(b) + ts + "\n"}, g.frags("")...)
	}
	var hdr, body []string
	idx := func(mode bool) {
		if g.chance(75) {
			s := "index " + g.oid() + ".." + g.oid()
			if mode {
				s += " " + g.mode()
			}
			hdr = append(hdr, s+"\n")
		}
	}
	sides := func(x, y string) []string {
		s := func(p, n string) string {
			if n == "" {
				return "/dev/null\n"
			}
			w := q(p, n)
			if strings.Contains(n, " ") && w[0] != '"' {
				w += "\t"
			}
			return w + "\n"
		}
		return []string{"--- " + s("a/", x), "+++ " + s("b/", y)}
	}
	switch g.intn(9) {
	case 0: // mode
		hdr = append(hdr, "old mode "+g.mode()+"\n", "new mode "+g.mode()+"\n")
		if g.chance(50) {
			idx(false)
			body = append(sides(a, a), g.frags("")...)
		}
	case 1:
		hdr = append(hdr, "new file mode "+g.mode()+"\n")
		idx(false)
		if g.chance(70) {
			body = append(sides("", a), g.frags("new")...)
		} else if g.chance(50) {
			body = g.binary()
		}
	case 2:
		hdr = append(hdr, "deleted file mode "+g.mode()+"\n")
		idx(false)
		if g.chance(70) {
			body = append(sides(a, ""), g.frags("del")...)
		} else if g.chance(50) {
			body = g.binary()
		}
	case 3, 4:
		b = g.simpleName()
		if g.chance(40) {
			hdr = append(hdr, "old mode "+g.mode()+"\n", "new mode "+g.mode()+"\n")
		}
		if g.chance(80) {
			hdr = append(hdr, fmt.Sprintf("similarity index %d%%\n", g.intn(101)))
		}
		w := g.pick("rename", "rename", "copy")
		hdr = append(hdr, w+" from "+gitQuote(a)+"\n", w+" to "+gitQuote(b)+"\n")
		if g.chance(50) {
			idx(false)
			body = append(sides(a, b), g.frags("")...)
		}
	case 5:
		idx(true)
		body = g.binary()
	default:
		if g.chance(15) {
			hdr = append(hdr, fmt.Sprintf("dissimilarity index %d%%\n", 1+g.intn(100)))
		}
		idx(true)
		body = append(sides(a, a), g.frags("")...)
	}
	return append(append([]string{"diff --git " + q("a/", a) + " " + q("b/", b) + "\n"}, hdr...), body...)
}

func (g *Gen) junk() []string {
	var out []string
	for i := 0; i < g.intn(4); i++ {
		out = append(out, g.pick("From 1234 Mon Sep 17 00:00:00 2001\n", "Subject: [PATCH] x\n", "\n", " f | 2 +-\n", "---\n", "-- \n", "2.40.0\n",
			"commit abc\n", "Index: foo\n", "===================================================================\n", "hello é\xff\n", "+++ not\n", "Only in a: b\n", "@@ text\n", "* diff --git x\n"))
	}
	return out
}

// patch returns the lines of a well-formed patch.
func (g *Gen) patch() []string {
	var out []string
	n := 1 + g.intn(4)
	if g.chance(5) {
		n = 0
	}
	out = append(out, g.junk()...)
	for i := 0; i < n; i++ {
		s := g.section()
		out = append(out, s...)
		if strings.HasPrefix(s[0], "diff") && (g.Prop == "C19" || g.Prop == "C16" || g.Prop == "C28" || g.chance(70)) {
			out = append(out, g.pick("\n", "text\n"))
		}
		out = append(out, g.junk()...)
	}
	return out
}

func splitLines(s string) []Str {
	out := []Str{}
	for len(s) > 0 {
		i := strings.IndexByte(s, '\n')
		if i < 0 {
			i = len(s) - 1
		}
		out = append(out, Str(s[:i+1]))
		s = s[i+1:]
	}
	return out
}

func clone(ls []string) []string { return append([]string(nil), ls...) }

// mutate damages a patch in a few places.
func (g *Gen) mutate(ls []string) []string {
	ls = clone(ls)
	for k := 1 + g.intn(3); k > 0 && len(ls) > 0; k-- {
		i := g.intn(len(ls))
		switch g.intn(10) {
		case 0:
			ls = append(ls[:i], ls[i+1:]...)
		case 1:
			ls = append(ls[:i+1], append([]string{ls[i]}, ls[i+1:]...)...)
		case 2:
			j := g.intn(len(ls))
			ls[i], ls[j] = ls[j], ls[i]
		case 3:
			ls = append(ls[:i], append([]string{g.pick("@@ -1 +1 @@\n", "diff --git a/k b/k\n", "--- a\n", "+++ b\n", noEOL, "junk\n", "\n", "index 1..2\n",
				"rename from x\n", "new file mode 100644\n", "deleted file mode 100644\n", "GIT binary patch\n", "literal 5\n", "old mode 9\n", "+++ /dev/null\n", "similarity index 20%\n")}, ls[i:]...)...)
		case 4, 5, 6: // one character
			if strings.Contains(ls[i], "\t") || len(ls[i]) == 0 {
				continue
			}
			j := g.intn(len(ls[i]))
			ls[i] = ls[i][:j] + g.pick("", "0", "1", "-", "+", " ", "@", "/", "\"", ",", "9", "a", "\n", "~", "\xff") + ls[i][j+1:]
		case 7:
			if strings.Contains(ls[i], "\t") {
				continue
			}
			j := g.intn(len(ls[i]) + 1)
			ls[i] = ls[i][:j] + g.pick("0", "1", "-", "+", " ", "@", "/", "\"", ",", "\n", "99999999999999999999", "4") + ls[i][j:]
		case 8: // truncate
			j := g.intn(len(ls[i]) + 1)
			ls = append(ls[:i:i], ls[i][:j])
		case 9:
			if strings.HasPrefix(ls[i], "@@ -") {
				ls[i] = strings.Replace(ls[i], g.pick("1", "2", ",", "3"), g.pick("0", "2", "4", ",1"), 1)
			}
		}
	}
	return ls
}

// outside the modelled syntax: hexadecimal and unicode escapes in names, which
// git never writes, and blanks where the time package is lenient
func modelled(s string) bool {
	for _, x := range []string{"\\x", "\\u", "\\U"} {
		if strings.Contains(s, x) {
			return false
		}
	}
	return true
}

func init() {
	// random patches, a share of them damaged
	generators["patches"] = func(g *Gen) {
		for i := 0; i < g.N; {
			ls := g.patch()
			kind := "good"
			switch g.Prop {
			case "C12":
				if g.chance(25) {
					ls, kind = g.mutate(ls), "mutated"
				}
			default:
				if g.chance(60) {
					ls, kind = g.mutate(ls), "mutated"
				}
			}
			s := strings.Join(ls, "")
			if !modelled(s) || len(s) > 20000 {
				continue
			}
			g.emit(map[string]any{"in": splitLines(s), "kind": kind})
			i++
		}
	}
}
