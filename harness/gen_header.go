package main

import (
	"fmt"
	"strconv"
	"strings"
	"time"
)

// Random identities: names and addresses of any length and any bytes in the
// layouts that are read, and arbitrary strings.

var namePieces = []string{"A", "b", "Morton", "H\u00e5", "\u4e2d", "\u00a0", "\u2003", "\xff", "\x00", "\x0b", "\x85", ".", ",", "-", "'", " ", " ", "  ", "\t", "\"", "\\", "(", ")", "<", ">", "@", "0", "Jr.", "=?UTF-8?q?", ":", ";", "/", "[", "]"}

func (g *Gen) word(n int, from []string) string {
	var b strings.Builder
	for k := g.intn(n); k >= 0; k-- {
		b.WriteString(from[g.intn(len(from))])
	}
	return b.String()
}

func escape(s, set string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if strings.IndexByte(set, s[i]) >= 0 {
			b.WriteByte('\\')
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

func (g *Gen) gap() string { return g.pick("", "", " ", "\t", "  ", "\r\n ", " \t") }

func (g *Gen) address() string {
	local := []string{"a", "b.c", "x+y", "\u00e9", "\xfe", "1", "_", "-", "'", "/", "=", "&"}
	dom := []string{"d", "e.f", "-", "g", "\u00fc", "[1.2.3.4]", "@"}
	a := ""
	if g.chance(95) {
		a = g.word(4, local)
	}
	a += "@"
	if g.chance(95) {
		a += g.word(3, dom)
	}
	return a
}

type identCase struct {
	S     Str  `json:"s"`
	Known bool `json:"known"`
	Name  Str  `json:"name"`
	Email Str  `json:"email"`
}

func (g *Gen) identity() identCase {
	if g.chance(30) {
		return identCase{S: Str(g.word(14, namePieces))}
	}
	name := g.word(6, namePieces)
	if g.chance(50) {
		name = g.word(6, namePieces[:20])
	}
	// a name with an at sign hides the address, angle brackets are not usable in
	// a name and one all in parentheses loses them
	t := strings.Trim(name, " \t")
	bare := strings.NewReplacer("@", "", "<", "", ">", "").Replace(name)
	if strings.HasPrefix(t, "(") || strings.TrimSpace(t) != t || t == "" || bare != name {
		name = "N" + bare + "n"
	}
	a := g.address()
	c := identCase{Known: true, Name: Str(name), Email: Str(a)}
	switch g.intn(6) {
	case 0:
		c.S, c.Name = Str(g.gap()+a+g.gap()), ""
	case 1:
		c.S, c.Name = Str(g.gap()+"<"+a+">"+g.gap()), ""
	case 2:
		c.S = Str(g.gap() + a + " " + g.gap() + "(" + escape(name, `\()`) + ")" + g.gap())
	case 3:
		if strings.ContainsAny(name, `"\()`) {
			name = "Plain"
			c.Name = "Plain"
		}
		c.S = Str(g.gap() + name + g.gap() + "<" + a + ">" + g.gap())
	case 4:
		// quoted in part
		i := g.intn(len(name) + 1)
		if strings.ContainsAny(name[:i], `"\()`) {
			i = 0
		}
		c.S = Str(g.gap() + name[:i] + `"` + escape(name[i:], `"\`) + `"` + g.gap() + "<" + a + ">")
	default:
		c.S = Str(g.gap() + `"` + escape(name, `"\`) + `"` + g.gap() + "<" + a + ">" + g.gap())
	}
	return c
}

type dateFields struct {
	Y   int `json:"y"`
	Mo  int `json:"mo"`
	D   int `json:"d"`
	H   int `json:"h"`
	Mi  int `json:"mi"`
	S   int `json:"s"`
	Off int `json:"off"`
}

type dateCase struct {
	Fmt string     `json:"fmt"`
	F   dateFields `json:"f"`
	Str Str        `json:"str"`
}

var dateFormats = []string{"iso", "strict", "zulu", "rfc", "short", "default", "local", "unix", "raw"}

func (g *Gen) dateFields() dateFields {
	y := 1900 + g.intn(250)
	if g.chance(20) {
		y = 1 + g.intn(9999)
	}
	f := dateFields{Y: y, Mo: 1 + g.intn(12), H: g.intn(24), Mi: g.intn(60), S: g.intn(60)}
	f.D = 1 + g.intn(time.Date(y, time.Month(f.Mo)+1, 0, 0, 0, 0, 0, time.UTC).Day())
	switch g.intn(4) {
	case 0:
	case 1:
		f.Off = 60 * (g.intn(27) - 12)
	case 2:
		f.Off = 15 * (g.intn(100) - 50)
	default:
		f.Off = g.intn(2879) - 1439
	}
	return f
}

// a string that resembles a date, possibly an impossible one
func (g *Gen) dateLike() string {
	f := g.dateFields()
	n := func(v, hi int) int {
		if g.chance(12) {
			return g.intn(hi)
		}
		return v
	}
	day, mon := g.pick("Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"), time.Month(f.Mo).String()[:3]
	zone := fmt.Sprintf("%s%02d%02d", g.pick("+", "-"), n(g.intn(13), 100), n(g.intn(60), 100))
	zonec := zone[:3] + ":" + zone[3:]
	d, clock := n(f.D, 40), fmt.Sprintf("%02d:%02d:%02d", n(f.H, 30), n(f.Mi, 70), n(f.S, 70))
	ymd := fmt.Sprintf("%04d-%02d-%02d", f.Y, n(f.Mo, 15), d)
	s := ""
	switch g.intn(9) {
	case 0:
		s = ymd + " " + clock + " " + g.pick(zone, zone, zonec, "Z")
	case 1:
		s = ymd + "T" + clock + g.pick(zone, zonec, zonec, "Z", "z")
	case 2:
		s = fmt.Sprintf("%s, %d %s %d %s %s", day, d, mon, f.Y, clock, zone)
	case 3:
		s = fmt.Sprintf("%s %s %d %s %d %s", day, mon, d, clock, f.Y, zone)
	case 4:
		s = fmt.Sprintf("%s %s %d %s %d", day, mon, d, clock, f.Y)
	case 5:
		s = ymd
	case 6:
		s = strconv.FormatInt(g.rng().Int63()>>g.intn(63), 10)
		if g.chance(30) {
			s = "-" + s
		}
		if g.chance(50) {
			s += " " + zone
		}
	case 7:
		s = g.word(4, []string{ymd, " ", "T", clock, zone, "Z", day, mon, ",", "-", "12", "1", "0", "2020", ":"})
	default:
		s = g.word(10, []string{"1", "2", "9", "0", " ", "-", "+", ":", "T", "Z", "a", "\xff", "\n", "Mon", "Jan", ".", ","})
	}
	for g.chance(25) && s != "" {
		i := g.intn(len(s))
		s = s[:i] + g.pick("", "0", "9", " ", "-", ":", "+", "x", "T") + s[i+g.intn(2):]
	}
	return s
}

type headerCase struct {
	Kind string `json:"kind"`
	Str  Str    `json:"str"`
	Mode string `json:"mode"`
	Msg  []Str  `json:"msg"`
}

var messagePieces = []string{"a", "fix", "b c", " ", "  ", "\t", "\u00e9", "\u4e2d", "\u00a0", "\u2028", "\u0085", "\xff", "-", "---", "--- a/x", "From: q", "Date: x", "diff", "[PATCH]", "Re:", ":", ".", "\r", "\x00", "\x0c", "#", "=?UTF-8?q?", "=20"}

// prose gives pieces of text and single bytes.
func (g *Gen) prose(n int) string {
	s := ""
	for k := g.intn(n) + 1; k > 0; k-- {
		switch {
		case g.chance(75):
			s += g.pick(messagePieces...)
		case g.chance(85):
			s += string(rune('!' + g.intn(94)))
		default:
			if b := byte(g.intn(256)); b != '\n' {
				s += string([]byte{b})
			}
		}
	}
	return s
}

// lines of a message; the first is not blank
func (g *Gen) message(indent string) []string {
	var ls []string
	for k := 1 + g.intn(10); k > 0; k-- {
		l := ""
		switch g.intn(6) {
		case 0:
			l = g.pick("", "", indent, " ", "\t", indent+"  ")
		case 1:
			l = g.pick("---", "---", "--- ", "----", indent+"---", "--", indent)
		case 2:
			l = indent + g.pick("  ", "\t", "    ", indent) + g.prose(4)
		case 3:
			l = g.prose(4)
		default:
			l = indent + g.prose(6) + g.pick("", "", " ", "\t")
		}
		if len(ls) > 0 || strings.TrimSpace(l) != "" {
			ls = append(ls, l)
		}
	}
	return ls
}

func (g *Gen) gitDate() string {
	if g.chance(10) {
		return g.dateLike()
	}
	t := time.Unix(g.rng().Int63n(4e9), 0).In(time.FixedZone("", 60*(g.intn(1500)-700)))
	return t.Format(g.pick("Mon Jan 2 15:04:05 2006 -0700", "Mon, 2 Jan 2006 15:04:05 -0700", "2006-01-02T15:04:05-07:00", "2006-01-02 15:04:05 -0700", "2006-01-02", "Mon Jan 2 15:04:05 2006"))
}

func (g *Gen) sha() string {
	return fmt.Sprintf("%016x%016x%08x", g.rng().Uint64(), g.rng().Uint64(), g.rng().Uint32())[:7+g.intn(34)]
}

func (g *Gen) who() string {
	c := g.identity()
	if !c.Known && g.chance(80) {
		return "A <a@b.c>"
	}
	return string(c.S)
}

func oneLine(s string) string {
	return strings.NewReplacer("\r", "", "\n", "").Replace(s)
}

func (g *Gen) prettyHeader() headerCase {
	ls := []string{"commit " + g.sha() + g.pick("", "", " (HEAD -> main)", " (tag: v1, origin/x)")}
	for k := g.intn(5); k > 0; k-- {
		switch g.intn(8) {
		case 0, 1:
			ls = append(ls, g.pick("Author: ", "Author:     ", "Author:")+oneLine(g.who()))
		case 2:
			ls = append(ls, g.pick("Commit: ", "Commit:     ")+oneLine(g.who()))
		case 3:
			ls = append(ls, g.pick("Date:   ", "Date: ", "AuthorDate: ")+oneLine(g.gitDate()))
		case 4:
			ls = append(ls, "CommitDate: "+oneLine(g.gitDate()))
		case 5:
			ls = append(ls, "Merge: "+g.sha()+" "+g.sha())
		default:
			ls = append(ls, g.pick("Reflog: HEAD@{0}", "gpg: x", "Notes:", "Author", "author: a", " Date: x", "Signature: "+oneLine(g.prose(4))))
		}
	}
	c := headerCase{Mode: "all"}
	var msg []string
	if g.chance(90) {
		msg = g.message(g.pick("    ", "    ", "    ", "", "\t", "  "))
	}
	if len(msg) > 0 {
		ls = append(ls, g.pick("", "", "  "))
	}
	c.Str = Str(strings.Join(append(ls, msg...), g.eol()) + g.pick("", "\n", "\n\n"))
	c.Msg = []Str{}
	return c
}

func (g *Gen) eol() string {
	if g.chance(10) {
		return "\r\n"
	}
	return "\n"
}

func (g *Gen) encoded(s string) string {
	var b strings.Builder
	n := 0
	b.WriteString("=?UTF-8?q?")
	for i := 0; i < len(s); i++ {
		if n > 45 && s[i]&0xc0 != 0x80 {
			b.WriteString("?=\n =?UTF-8?q?")
			n = 0
		}
		if c := s[i]; c <= ' ' || c >= 127 || c == '=' || c == '?' || c == '_' {
			fmt.Fprintf(&b, "=%02X", c)
			n += 3
		} else {
			b.WriteByte(c)
			n++
		}
	}
	b.WriteString("?=")
	return b.String()
}

func (g *Gen) subject() string {
	tags := g.word(4, []string{"[PATCH] ", "[PATCH v2 3/7]", "[RFC PATCH] ", "[x]", "[a b] ", "Re: ", "re:", "RE: ", "rE:", " ", ":", "\t", "Fwd: ", "[", "]"})
	if g.chance(30) {
		tags = ""
	}
	title := g.word(6, []string{"Add", " ", " ", "re", "Re:", "[x]", "PATCH", "b", "h\u00e5", "\u2014", "(c)", ":", "r", "e", "a=b", "_", "?", "R", string(rune('!' + g.intn(94))), string(rune('!' + g.intn(94)))})
	if g.chance(40) {
		return tags + g.encoded(strings.TrimSpace(strings.Repeat(title+" ", 1+g.intn(4))))
	}
	return tags + title
}

func (g *Gen) fold(s string) string {
	if !g.chance(30) {
		return s
	}
	w := strings.Split(s, " ")
	var b strings.Builder
	for i, x := range w {
		if i > 0 {
			if g.chance(40) && x != "" {
				b.WriteString(g.pick("\n ", "\n  ", "\n\t", "\r\n "))
			} else {
				b.WriteByte(' ')
			}
		}
		b.WriteString(x)
	}
	return b.String()
}

func (g *Gen) mailHeader() headerCase {
	var fs []string
	add := func(f string) { fs = append(fs, f) }
	full := g.chance(60)
	key := "From: "
	if full {
		key = g.pick("From: ", "From: ", "from: ", "FROM:")
	}
	add(key + g.fold(oneLine(g.who())))
	if g.chance(90) {
		add(g.pick("Subject: ", "Subject: ", "subject: ", "SUBJECT:") + g.fold(oneFold(g.subject())))
	}
	if g.chance(90) {
		add(g.pick("Date: ", "date: ") + oneLine(g.gitDate()))
	}
	for k := g.intn(4); k > 0; k-- {
		add(g.pick("To: a@b", "Message-Id: <1@2>", "X-Subject: z", "MIME-Version: 1.0", "Content-Type: text/plain; charset=UTF-8", "Received: by x;\n\tfor y", "Cc: a <b@c>,\n d@e"))
	}
	g.rng().Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
	first := ""
	if full {
		first = "From " + g.sha() + " Mon Sep 17 00:00:00 2001\n"
	} else {
		for i := range fs {
			if strings.HasPrefix(fs[i], "From:") {
				fs[0], fs[i] = fs[i], fs[0]
			}
		}
	}
	c := headerCase{Mode: g.pick("all", "all", "patch", "space"), Msg: []Str{}}
	s := first + strings.Join(fs, "\n")
	if g.chance(90) {
		s += "\n\n" + strings.Join(g.message(g.pick("", "", "", "  ")), g.eol())
	}
	c.Str = Str(s + g.pick("", "\n"))
	return c
}

// keeps the folds an encoded subject brings with it
func oneFold(s string) string {
	return strings.ReplaceAll(strings.ReplaceAll(oneLine(strings.ReplaceAll(s, "\n ", "\x01")), "\x00", ""), "\x01", "\n ")
}

func (g *Gen) spoil(s string) string {
	b := []byte(s)
	for k := 1 + g.intn(3); k > 0 && len(b) > 0; k-- {
		i := g.intn(len(b))
		switch g.intn(3) {
		case 0:
			b[i] = g.pick("\n", " ", ":", "-", "x", "\r", "<", "=", "\t", "\xff")[0]
		case 1:
			b = append(b[:i:i], b[min(len(b), i+1+g.intn(20)):]...)
		default:
			b = append(b[:i:i], append([]byte(soup[g.intn(len(soup))]), b[i:]...)...)
		}
	}
	return string(b)
}

func init() {
	for name, only := range map[string]string{"prettyheaders": "pretty", "mailheaders": "mail"} {
		generators[name] = func(g *Gen) {
			for i := 0; i < g.N; i++ {
				c := g.prettyHeader()
				if only == "mail" {
					c = g.mailHeader()
				}
				if g.chance(25) {
					c.Str = Str(g.spoil(string(c.Str)))
				}
				g.emit(c)
			}
		}
	}
	for name, text := range everyByteOf {
		everywhere := func(g *Gen, first, last, step int) {
			for _, t := range text {
				for i := 0; i <= len(t); i++ {
					for c := first; c <= last; c += step {
						for gone := 0; gone < 2 && i+gone <= len(t); gone++ {
							s := Str(t[:i] + string([]byte{byte(c)}) + t[i+gone:])
							switch name {
							case "everybytedate":
								g.emit(dateCase{Str: s})
							case "everybyteidentity":
								g.emit(identCase{S: s})
							default:
								g.emit(headerCase{Str: s, Msg: []Str{}, Mode: []string{"all", "patch", "space"}[(i+c)%3]})
							}
						}
					}
				}
			}
		}
		generators[name] = func(g *Gen) { everywhere(g, g.intn(g.N), 255, g.N) }
		generators["long"+name] = func(g *Gen) { everywhere(g, 'K', 'K', 1) }
	}
	generators["dates"] = func(g *Gen) {
		for i := 0; i < g.N; i++ {
			if c := (dateCase{F: g.dateFields()}); g.chance(50) {
				c.Fmt = dateFormats[g.intn(len(dateFormats))]
				g.emit(c)
			} else {
				c.Str = Str(g.dateLike())
				g.emit(c)
			}
		}
	}
	generators["identities"] = func(g *Gen) {
		for i := 0; i < g.N; i++ {
			g.emit(g.identity())
		}
	}
}

// everyByteOf are the texts in which every byte takes every place (of every N of them one).
var everyByteOf = map[string][]string{
	"everybytepretty": {
		"commit 1f0a (HEAD -> b)\nAuthor:     A B <a@b.c>\nAuthorDate: 0 +0000\n\n    one\n    two\n\n    three\n",
		"commit a\nMerge: b c\nAuthor: \"A\" <a@b>\nDate:   1 -0130\n\n    s\n\n",
	},
	"everybytemail": {
		"From 1f0a Mon Sep 17 00:00:00 2001\nFrom: A B <a@b.c>\nDate: Sat, 11 Apr 2020 15:21:23 -0700\nSubject: [PATCH v2 1/3] re: [x] one\n two\n\nbody\n---\nmore\n",
		"From: =?UTF-8?q?=C3=A9?= <a@b>\nSubject: =?UTF-8?q?a=20b?= c\n\nFrom: x\n\ny\n",
	},
	"everybytedate": {
		"Sat Apr 11 15:21:23 2020 -0700", "Sat Apr 11 15:21:23 2020", "2020-04-11T15:21:23-07:00", "2020-04-11T15:21:23Z", "2020-04-11 15:21:23 -0700",
		"Sat, 11 Apr 2020 15:21:23 -0700", "1586643683", "1586643683 -0700", "2020-04-11 15:21:23",
	},
	"everybyteidentity": {
		"A B <a@b.c>", "\"A, \\\" B\" <a@b>", "a@b.c (A B)", "A (c) <a@b> (d)", " <a@b>", "A <>", "a b",
	},
}
