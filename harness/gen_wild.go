package main

import "strings"

// Wild inputs: patches damaged byte by byte, spliced, cut, or made of arbitrary
// pieces and bytes.

var soup = []string{"diff --git ", "a/x", "b/x", " ", "\n", "\n", "\n", "--- ", "+++ ", "/dev/null", "@@ -", "1", "0", ",", " +", " @@", "@@", "-a\n", "+b\n", " c\n", "\\ No newline at end of file\n",
	"\"", "\\", "\\001", "\\\"", "\t", "GIT binary patch\n", "literal ", "delta ", "zzzzz", "A00000\n", "Binary files ", " differ\n", "index ", "..", "100644", "old mode ", "new mode ",
	"new file mode ", "deleted file mode ", "rename from ", "rename to ", "copy from ", "copy to ", "similarity index ", "dissimilarity index ", "50%", "rename old ", "rename new ",
	"\r", "\x00", "\xff", "\u00e9", "\u2028", "commit ", "From ", "From: ", "Subject: ", "[PATCH]", "Re: ", "Date: ", "Author: ", "<", ">", "@", "(", ")", "=?UTF-8?q?", "?=", "---\n",
	"\t1", "\t12", "\t+", "\t:00", "\t\n", "=", "--", "++", "@",
	"1970-01-01 00:00:00 +0000", "9223372036854775807", "18446744073709551616", "-1", "+"}

func (g *Gen) wild() (string, string) {
	text := func() string { return strings.Join(g.patch(), "") }
	b := []byte(text())
	at := func() int { return g.intn(len(b) + 1) }
	span := func() (int, int) {
		i := at()
		return i, min(len(b), i+g.intn(40))
	}
	kind := g.pick("bytes", "bytes", "bytes", "cut", "splice", "soup", "random", "layout")
	switch kind {
	case "bytes":
		for k := 1 + g.intn(6); k > 0; k-- {
			i, j := span()
			switch g.intn(5) {
			case 0:
				if i < len(b) {
					b[i] = byte(g.intn(256))
				}
			case 1:
				b = append(b[:i:i], append([]byte{byte(g.intn(256))}, b[i:]...)...)
			case 2:
				b = append(b[:i:i], b[j:]...)
			case 3:
				b = append(b[:j:j], b[i:]...)
			case 4:
				b = append(b[:i:i], append([]byte(soup[g.intn(len(soup))]), b[i:]...)...)
			}
		}
	case "cut":
		b = b[:at()]
		if g.chance(30) {
			b = b[g.intn(len(b)+1):]
		}
	case "splice":
		o := text()
		i := at()
		b = append(b[:i:i], o[g.intn(len(o)+1):]...)
	case "soup":
		b = nil
		for k := g.intn(40); k > 0; k-- {
			b = append(b, soup[g.intn(len(soup))]...)
		}
	case "random":
		b = make([]byte, g.intn(120))
		for i := range b {
			b[i] = byte(g.intn(256))
			if g.chance(20) {
				b[i] = '\n'
			}
		}
	case "layout":
		s := string(b)
		switch g.intn(5) {
		case 0:
			s = strings.ReplaceAll(s, "\n", "\r\n")
		case 1:
			s = strings.ReplaceAll(s, "\n", "\r")
		case 2:
			s = strings.ReplaceAll(s, " ", "\t")
		case 3:
			s = "\ufeff" + s
		case 4:
			s = strings.ReplaceAll(s, "\n", "\n\n")
		}
		b = []byte(s)
	}
	return string(b), kind
}

func init() {
	generators["wild"] = func(g *Gen) {
		for i := 0; i < g.N; {
			s, kind := g.wild()
			if len(s) > 6000 {
				continue
			}
			cuts := []int{}
			for k := g.intn(6); k > 0; k-- {
				cuts = append(cuts, g.intn(60))
			}
			free := !modelled(s) || strings.Contains(s, "\t")
			g.emit(map[string]any{"in": splitLines(s), "kind": kind, "free": free, "cuts": cuts})
			i++
		}
	}
}
