package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
)

// The specification treats lines as atoms, so what it says about a file holds
// just as well if every line stands for the same number of lines (scaled), or
// for a line of a megabyte (hugetext).

func scalePos(p, n, k int64) int64 {
	if p == 0 || p >= 2000000001 {
		return p
	}
	if n == 0 {
		return p * k
	}
	return (p-1)*k + 1
}

func scaleToken(t Str, k int64) []Str {
	s := "=" + string(t) // the name of a long line will do
	body, nl := strings.CutSuffix(s, "\n")
	mark := "."
	if !nl {
		mark = "!"
	}
	ls := make([]Str, k)
	for i := range ls {
		ls[i] = Str(fmt.Sprintf("%s%s%d\n", body, mark, i))
	}
	if !nl {
		ls[k-1] = ls[k-1][:len(ls[k-1])-1]
	}
	return ls
}

func (a ApFrag) scaled(k int64) ApFrag {
	b := ApFrag{OPos: scalePos(a.OPos, a.OLines, k), OLines: a.OLines * k, NPos: scalePos(a.NPos, a.NLines, k), NLines: a.NLines * k}
	for _, l := range a.Lines {
		for _, t := range scaleToken(l.Text, k) {
			b.Lines = append(b.Lines, LineRec{l.Op, t})
		}
	}
	return b
}

func (c *ApCase) scaled(k int64) *ApCase {
	d := &ApCase{Err: c.Err}
	for _, t := range c.Src {
		d.Src = append(d.Src, scaleToken(t, k)...)
	}
	for _, f := range c.Frags {
		d.Frags = append(d.Frags, f.scaled(k))
	}
	for _, f := range c.Listed {
		d.Listed = append(d.Listed, f.scaled(k))
	}
	for _, o := range c.Out {
		d.Out = append(d.Out, [4]int64{o[0], (o[1]-1)*k + 1, o[2] * k, o[3]})
	}
	up := func(n int64) int64 {
		if n == 0 {
			return 0
		}
		return (n-1)*k + 1
	}
	d.Err.Line, d.Err.Short = up(c.Err.Line), up(c.Err.Short)
	d.Err.FragLine = int(up(int64(c.Err.FragLine)))
	return d
}

// blockSource is a source of a few kinds of long lines that is not in memory.
type blockSource struct {
	lines []string // of each position
	start []int64  // first byte of each, and the end
}

func newBlockSource(toks []Str) *blockSource {
	b := &blockSource{}
	known := map[string]string{}
	at := int64(0)
	for _, t := range toks {
		s, ok := known[string(t)]
		if !ok {
			s = expand(t)
			known[string(t)] = s
		}
		b.lines = append(b.lines, s)
		b.start = append(b.start, at)
		at += int64(len(s))
	}
	b.start = append(b.start, at)
	return b
}

func (b *blockSource) size() int64 { return b.start[len(b.lines)] }

func (b *blockSource) ReadAt(p []byte, off int64) (int, error) {
	if off < 0 {
		return 0, fmt.Errorf("negative offset %d", off)
	}
	lo, hi := 0, len(b.lines)
	for lo < hi { // first line that ends behind off
		m := (lo + hi) / 2
		if b.start[m+1] > off {
			hi = m
		} else {
			lo = m + 1
		}
	}
	n := 0
	for ; lo < len(b.lines) && n < len(p); lo++ {
		n += copy(p[n:], b.lines[lo][off+int64(n)-b.start[lo]:])
	}
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

// wantWriter compares what is written with the lines it expects.
type wantWriter struct {
	next func() (string, bool)
	rest string
	n    int64
	bad  string
}

func (w *wantWriter) Write(p []byte) (int, error) {
	for q := p; len(q) > 0 && w.bad == ""; {
		if w.rest == "" {
			s, ok := w.next()
			if !ok {
				w.bad = fmt.Sprintf("more than the %d bytes expected", w.n)
				break
			}
			w.rest = s
		}
		m := min(len(q), len(w.rest))
		if !bytes.Equal(q[:m], []byte(w.rest[:m])) {
			w.bad = fmt.Sprintf("other bytes than expected after byte %d", w.n)
			break
		}
		q, w.rest, w.n = q[m:], w.rest[m:], w.n+int64(m)
	}
	return len(p), nil
}

func init() {
	handlers["scaled"] = func(x *Ctx, raw []byte) Verdict {
		var c ApCase
		check(json.Unmarshal(raw, &c))
		v := Verdict{Class: fmt.Sprintf("frags=%d %s", min(len(c.Frags), 4), c.Err.Why)}
		atoms := len(c.Src)
		for _, f := range c.Frags {
			atoms += len(f.Lines)
		}
		ks := []int64{1000, 4096, int64(70000 / (len(c.Src) + 1)), int64(70000/(atoms+1) + 1), 33000}
		h := hash(fmt.Sprint(c.Src, c.Listed)) ^ uint64(x.Seed)*0x9e3779b97f4a7c15
		k := ks[h>>20%uint64(len(ks))]
		most := 150000
		if h>>40%4 == 0 { // hundreds of thousands of lines up to the end of a fragment
			far, end := int64(1), int64(1)
			for _, f := range c.Frags {
				far, end = max(far, f.OPos+f.OLines-end), f.OPos+f.OLines
			}
			if far < 50 && 280000/far*int64(atoms) < 1500000 {
				k, most = 280000/far+1, 2000000
			}
		}
		for int(k)*atoms > most {
			k /= 2
		}
		if v.Why = c.scaled(max(k, 2)).run(x.Prop, x.Dir); v.Why != "" {
			v.Why = fmt.Sprintf("every line %d times: %s", k, v.Why)
		}
		return v
	}

	handlers["hugetext"] = func(x *Ctx, raw []byte) Verdict {
		var c ApCase
		check(json.Unmarshal(raw, &c))
		v := Verdict{Class: "huge " + c.Err.Why}
		src := newBlockSource(c.Src)
		known := map[string]string{}
		exp := func(t Str) string {
			s, ok := known[string(t)]
			if !ok {
				s = expand(t)
				known[string(t)] = s
			}
			return s
		}
		for i, t := range c.Src {
			known[string(t)] = src.lines[i]
		}
		seg, at := 0, int64(0)
		w := &wantWriter{next: func() (string, bool) {
			for seg < len(c.Out) {
				s := c.Out[seg]
				if at == 0 {
					at = s[1]
				}
				if at > s[2] {
					seg, at = seg+1, 0
					continue
				}
				at++
				if s[0] == 0 {
					return exp(c.Src[at-2]), true
				}
				if l := c.Frags[s[3]-1].Lines[at-2]; l.Op != "-" {
					return exp(l.Text), true
				}
			}
			return "", false
		}}
		listed := c.Listed
		if listed == nil {
			listed = c.Frags
		}
		err := gitdiff.Apply(w, src, &gitdiff.File{OldName: "f", NewName: "f", TextFragments: realFrags(listed)})
		if c.Err.Kind != "" {
			if v.Why = c.judge("Apply on a source of many gigabytes", x.Prop, nil, err, true); v.Why == "" && w.bad != "" {
				v.Why = w.bad
			}
			return v
		}
		_, more := w.next()
		switch {
		case err != nil:
			v.Why = fmt.Sprintf("source of %d bytes: %v", src.size(), err)
		case w.bad != "":
			v.Why = fmt.Sprintf("source of %d bytes: %s", src.size(), w.bad)
		case w.rest != "" || more:
			v.Why = fmt.Sprintf("source of %d bytes: only %d bytes written", src.size(), w.n)
		}
		return v
	}

	// a source of more than 2^32 bytes, with edits throughout or only near its start
	generators["hugetexts"] = func(g *Gen) {
		for done := 0; done < g.N; done++ {
			size := 2<<20 + g.intn(4096)
			c := g.longEdit(size, 1<<32/size+30+g.intn(60), 40, done%2 == 1)
			g.emit(c)
		}
	}
}

// longEdit is an edit of a source of count lines of a few kinds with about size
// bytes each, with fragments up to gap lines apart, or only two near the start.
func (g *Gen) longEdit(size, count, gap int, early bool) EditCase {
	var c EditCase
	kinds := make([]Str, 12)
	for i := range kinds {
		kinds[i] = Str(fmt.Sprintf("~%d,%d\n", i, size+i*(7+g.intn(99))))
	}
	for i := 0; i < count; i++ {
		c.Src = append(c.Src, kinds[g.intn(len(kinds))])
	}
	fresh := 0
	last := -1 // last line that is not available any more
	copied := 0
	for i := g.intn(9); i+6 < count; i += 7 + g.intn(gap) {
		if i <= last {
			continue
		}
		if early && len(c.Listed) > 1 {
			break
		}
		for ; copied < i; copied++ {
			c.New = append(c.New, c.Src[copied])
		}
		f := ApFrag{OPos: int64(i + 1), NPos: int64(len(c.New) + 1)}
		line := func(op string) {
			var t Str
			if op == "+" {
				fresh++
				t = Str(fmt.Sprintf("new %d\n", fresh))
			} else {
				t = c.Src[copied]
				copied++
				f.OLines++
			}
			if op != "-" {
				c.New = append(c.New, t)
				f.NLines++
			}
			f.Lines = append(f.Lines, LineRec{op, t})
		}
		line(" ")
		for _, op := range []string{"-+", "+", "-", "+-", "--"}[g.intn(5)] {
			line(string(op))
		}
		line(" ")
		c.Listed = append(c.Listed, f)
		last = copied
	}
	for ; copied < count; copied++ {
		c.New = append(c.New, c.Src[copied])
	}
	if g.chance(damages[g.Prop]) { // in the last few lines that are compared
		f := c.Listed[len(c.Listed)-1]
		i := int(f.OPos) - 1
		for c.Src[i] = kinds[g.intn(len(kinds))]; c.Src[i] == f.Lines[0].Text; {
			c.Src[i] = kinds[g.intn(len(kinds))]
		}
		c.Damaged = true
	}
	return c
}
