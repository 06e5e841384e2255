package main

import (
	"fmt"
	"strconv"
	"strings"
)

// The specification only ever compares whole lines, so it decides the same for
// any injective naming of them. A dressing replaces the names of short lines by
// contents that are easily confused: with each other, or with patch syntax.
var dressings = [][2]string{
	{"q", "q\r"}, {"q ", "q"}, {" q", "q"}, {"q\t", "q "}, {"q", "Q"}, {"q\u00a0", "q "},
	{"\xff", "\xfe"}, {"\u00e9", "e\u0301"}, {"\xef\xbf\xbd", "\xff"}, {"", "\x00"}, {"\r", ""},
	{"q\x00w", "q\x00"}, {"q\tw", "q       w"}, {"q\x1a", "q"}, {"\ufeffq", "q"}, {"q\r\r", "q\r"},
	{"-- a/f", "-- b/f"}, {"++ b/f", "++ c/f"}, {"@@ -1 +1 @@", "@@ -1,1 +1,1 @@"},
	{"diff --git a/x b/x", "diff --git a/y b/y"}, {"\\ No newline at end of file", "\\ No newline at end of FILE"},
	{"-", "+"}, {"\\", "/"}, {"GIT binary patch", "literal 0"}, {"ab", "ba"}, {"q", "q\x00"},
	{"\u2028", "\u0085"}, {"q\v", "q\f"}, {"%d", "%s"}, {" ", "  "},
}

// dressings with lines that end in a carriage return
var carriageReturns = []int{1, 11, 16}

// dressLine gives the content of one line under a dressing.
func dressLine(s Str, d [2]string) (Str, bool) {
	if len(s) == 0 || s[0] == '~' {
		return s, true
	}
	name := strings.TrimSuffix(string(s), "\n")
	end := string(s[len(name):])
	id := -1
	if n, err := strconv.Atoi(name); err == nil {
		id = n
	} else if len(name) == 1 && name[0] >= 'a' && name[0] <= 'z' {
		id = int(name[0] - 'a')
	}
	if id < 0 {
		return Str("::" + string(s)), true
	}
	t := d[id%2]
	if id > 1 {
		t += ":" + strconv.Itoa(id/2)
		if d[id%2] == "" || id%4 > 1 {
			t = strconv.Itoa(id/2) + ":" + d[id%2]
		}
	}
	return Str(t + end), t+end != "" && (t == "" || t[0] != '~')
}

func dressFrags(fs []ApFrag, d [2]string) ([]ApFrag, bool) {
	var out []ApFrag
	for _, f := range fs {
		ls := make([]LineRec, len(f.Lines))
		for i, l := range f.Lines {
			t, ok := dressLine(l.Text, d)
			if !ok {
				return nil, false
			}
			ls[i] = LineRec{l.Op, t}
		}
		f.Lines = ls
		out = append(out, f)
	}
	return out, true
}

// dressed gives the case under dressing number n; number 0 leaves it as it is.
func (c *ApCase) dressed(n int) *ApCase {
	if n == 0 {
		return c
	}
	d := dressings[n-1]
	x := *c
	x.Src = make([]Str, len(c.Src))
	seen := map[Str]Str{}
	for i, s := range c.Src {
		t, ok := dressLine(s, d)
		if !ok {
			return c
		}
		if old, dup := seen[t]; dup && old != s {
			panic(fmt.Sprintf("harness: dressing %d is not injective: %q and %q", n, old, s))
		}
		seen[t] = s
		x.Src[i] = t
	}
	var ok1, ok2 bool
	x.Frags, ok1 = dressFrags(c.Frags, d)
	x.Listed, ok2 = dressFrags(c.Listed, d)
	if !ok1 || !ok2 {
		return c
	}
	return &x
}
