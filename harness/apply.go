package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync/atomic"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
)

type ApFrag struct {
	OPos   int64     `json:"opos"`
	OLines int64     `json:"olines"`
	NPos   int64     `json:"npos"`
	NLines int64     `json:"nlines"`
	Lines  []LineRec `json:"lines"`
}

type ApErr struct {
	Kind     string `json:"kind"`
	Why      string `json:"why"`
	Line     int64  `json:"line"`
	FragLine int    `json:"fragLine"`
	Frag     int    `json:"frag"`
	Short    int64  `json:"short"`
}

type ApCase struct {
	Src    []Str      `json:"src"`
	Frags  []ApFrag   `json:"frags"`
	Listed []ApFrag   `json:"listed"`
	Out    [][4]int64 `json:"out"`
	Err    ApErr      `json:"err"`
}

// expand turns the name of a long line into its bytes. "~7,300\n" is line
// number 7 with 300 bytes of content.
func expand(s Str) string {
	if len(s) == 0 || s[0] != '~' {
		return string(s)
	}
	t := strings.TrimSuffix(string(s[1:]), "\n")
	id, size, ok := strings.Cut(t, ",")
	if !ok {
		return string(s)
	}
	size, flip, _ := strings.Cut(size, ",")
	n, err := strconv.Atoi(size)
	check(err)
	h := fnv.New64a()
	io.WriteString(h, id)
	x := h.Sum64() | 1
	b := make([]byte, 0, n+len(id)+2)
	b = append(b, id...)
	b = append(b, ':')
	for len(b) < n {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		c := byte(x >> 24)
		if c == '\n' {
			c = '\r'
		}
		b = append(b, c)
	}
	// a variant that differs from the line in one byte
	switch flip {
	case "1":
		b[0] ^= 0x40
	case "2":
		b[len(b)/2] ^= 0x40
	case "3":
		b[len(b)-1] ^= 0x40
	case "4":
		b = append(b, '\r')
	}
	if flip != "" {
		for i := range b {
			if b[i] == '\n' {
				b[i] = 0x0b
			}
		}
	}
	if len(t)+2 == len(s) {
		b = append(b, '\n')
	}
	return string(b)
}

func expandAll(ls []Str) string {
	var b strings.Builder
	for _, l := range ls {
		b.WriteString(expand(l))
	}
	return b.String()
}

func (a ApFrag) real() *gitdiff.TextFragment {
	switch a.OPos { // stand for numbers beyond the specification's integers
	case 2000000001:
		a.OPos = 1 << 62
	case 2000000002:
		a.OPos = 1 << 40
	}
	f := &gitdiff.TextFragment{OldPosition: a.OPos, OldLines: a.OLines, NewPosition: a.NPos, NewLines: a.NLines}
	for _, l := range a.Lines {
		x := gitdiff.Line{Line: expand(l.Text)}
		switch l.Op {
		case " ":
			x.Op = gitdiff.OpContext
			if f.LinesAdded+f.LinesDeleted == 0 {
				f.LeadingContext++
			} else {
				f.TrailingContext++
			}
		case "+":
			x.Op = gitdiff.OpAdd
			f.LinesAdded++
			f.TrailingContext = 0
		case "-":
			x.Op = gitdiff.OpDelete
			f.LinesDeleted++
			f.TrailingContext = 0
		default:
			x.Op = gitdiff.LineOp(9)
		}
		f.Lines = append(f.Lines, x)
	}
	return f
}

func realFrags(as []ApFrag) []*gitdiff.TextFragment {
	var fs []*gitdiff.TextFragment
	for _, a := range as {
		f := a.real()
		if way := f.OldPosition*5 + f.NewLines*3 + int64(len(as)); sometimes(way, 7) {
			f = agedFrag(f, int(uint64(way)%1000))
		}
		fs = append(fs, f)
	}
	return fs
}

// predicted bytes of segmented output
func (c *ApCase) predicted() []byte {
	var b bytes.Buffer
	for _, s := range c.Out {
		if s[0] == 0 {
			for i := s[1]; i <= s[2]; i++ {
				b.WriteString(expand(c.Src[i-1]))
			}
			continue
		}
		for i := s[1]; i <= s[2]; i++ {
			if l := c.Frags[s[3]-1].Lines[i-1]; l.Op != "-" {
				b.WriteString(expand(l.Text))
			}
		}
	}
	return b.Bytes()
}

func renderFrags(b *strings.Builder, fs []ApFrag) {
	for _, f := range fs {
		fmt.Fprintf(b, "@@ -%d", f.OPos)
		if f.OLines != 1 {
			fmt.Fprintf(b, ",%d", f.OLines)
		}
		fmt.Fprintf(b, " +%d", f.NPos)
		if f.NLines != 1 {
			fmt.Fprintf(b, ",%d", f.NLines)
		}
		b.WriteString(" @@\n")
		for _, l := range f.Lines {
			t := expand(l.Text)
			b.WriteString(l.Op + t)
			if !strings.HasSuffix(t, "\n") {
				b.WriteString("\n\\ No newline at end of file\n")
			}
		}
	}
}

// render writes the fragments as a patch of one file, as git or as diff would.
func render(fs []ApFrag, git, created, deleted bool) string {
	var b strings.Builder
	old, new := "a/f", "b/f"
	if created {
		old = "/dev/null"
	}
	if deleted {
		new = "/dev/null"
	}
	if git {
		b.WriteString("diff --git a/f b/f\n")
		switch {
		case created:
			b.WriteString("new file mode 100644\n")
		case deleted:
			b.WriteString("deleted file mode 100644\n")
		case len(fs) == 0:
			b.WriteString("old mode 100644\nnew mode 100755\n")
		}
	}
	if len(fs) > 0 {
		fmt.Fprintf(&b, "--- %s\n+++ %s\n", old, new)
	}
	renderFrags(&b, fs)
	return b.String()
}

func hash(s string) uint64 {
	h := fnv.New64a()
	io.WriteString(h, s)
	return h.Sum64()
}

func conflict(err error) bool { return errors.Is(err, &gitdiff.Conflict{}) }

// judge compares the outcome of one real application with the prediction.
func (c *ApCase) judge(how string, prop string, out []byte, err error, whole bool) string {
	want := c.predicted()
	if c.Err.Kind == "" {
		if err != nil {
			return fmt.Sprintf("%s: error %v, want success", how, err)
		}
		if !bytes.Equal(out, want) {
			return fmt.Sprintf("%s: wrote %s, want %s", how, clip(out), clip(want))
		}
		return ""
	}
	if err == nil {
		return fmt.Sprintf("%s: success, want %s (%s); wrote %s", how, c.Err.Kind, c.Err.Why, clip(out))
	}
	var ae *gitdiff.ApplyError
	if !errors.As(err, &ae) {
		return fmt.Sprintf("%s: %v is not an apply error", how, err)
	}
	if c.Err.Kind == "conflict" && !conflict(err) {
		return fmt.Sprintf("%s: %v (%T) is not a conflict", how, err, err)
	}
	if !bytes.HasPrefix(want, out) {
		return fmt.Sprintf("%s: wrote %s before the error, correct up to there is %s", how, clip(out), clip(want))
	}
	if prop == "C03" {
		got := fmt.Sprint(ae.Line, ae.FragmentLine, ae.Fragment)
		frag := 0
		if whole {
			frag = c.Err.Frag
		}
		if !whole {
			got = fmt.Sprint(ae.Line, ae.FragmentLine, 0)
		}
		switch c.Err.Why {
		case "differs":
			if c.Err.Short > 0 && ae.Line == c.Err.Short {
				break
			}
			if want := fmt.Sprint(c.Err.Line, c.Err.FragLine, frag); got != want {
				return fmt.Sprintf("%s: error at (line, fragment line, fragment) %s, first disagreement at %s", how, got, want)
			}
		case "short":
			if ae.Line != c.Err.Line {
				return fmt.Sprintf("%s: error at line %d, first missing line is %d", how, ae.Line, c.Err.Line)
			}
		case "leftover":
			if ae.Line != c.Err.Line {
				return fmt.Sprintf("%s: error at line %d, first line left over is %d", how, ae.Line, c.Err.Line)
			}
		}
	}
	return ""
}

func clip(b []byte) string {
	if len(b) > 200 {
		return fmt.Sprintf("%q... (%d bytes)", b[:200], len(b))
	}
	return fmt.Sprintf("%q", b)
}

// applySerially drives a TextApplier fragment by fragment.
func applySerially(dst io.Writer, src io.ReaderAt, fs []*gitdiff.TextFragment) error {
	a := gitdiff.NewTextApplier(dst, src)
	for _, f := range fs {
		if err := a.ApplyFragment(f); err != nil {
			return err
		}
	}
	return a.Close()
}

func init() {
	handlers["apply"] = func(x *Ctx, raw []byte) Verdict {
		var c ApCase
		check(json.Unmarshal(raw, &c))
		v := Verdict{Class: fmt.Sprintf("frags=%d %s", min(len(c.Frags), 4), c.Err.Why)}
		canon, err := json.Marshal(c)
		check(err)
		h := hash(string(canon)) ^ uint64(x.Seed)*0x9e3779b97f4a7c15
		d := 1 + int(h%uint64(len(dressings)))
		if h>>40%8 == 0 {
			d = carriageReturns[h>>48%uint64(len(carriageReturns))]
		}
		if x.Prop != "C10" || d%2 == 0 {
			v.Why = c.run(x.Prop, x.Dir)
		}
		if v.Why == "" && (x.Prop != "C10" || d%2 == 1) {
			if v.Why = c.dressed(d).run(x.Prop, x.Dir); v.Why != "" {
				v.Why = fmt.Sprintf("with lines %q: %s", dressings[d-1], v.Why)
			}
		}
		return v
	}
}

func (c *ApCase) run(prop, dir string) string {
	src := expandAll(c.Src)
	listed := c.Listed
	if listed == nil {
		listed = c.Frags
	}
	if len(c.Frags) == 0 && prop != "C01" && prop != "C10" {
		return ""
	}
	var file *gitdiff.File
	if prop == "C01" {
		newEmpty := len(c.Out) == 0
		git := len(listed) == 0 || hash(src+fmt.Sprint(len(listed), c.Out))%2 == 0
		text := render(listed, git, src == "" && len(listed) > 0 && listed[0].OPos == 0, newEmpty && len(listed) > 0)
		files, _, err := gitdiff.Parse(strings.NewReader(text))
		if err != nil || len(files) != 1 {
			return fmt.Sprintf("patch does not parse to one file: %d files, %v: %s", len(files), err, clip([]byte(text)))
		}
		file = files[0]
	} else {
		file = &gitdiff.File{OldName: "f", NewName: "f", TextFragments: realFrags(listed)}
	}
	if prop == "C10" {
		return c.readers(file, src, dir)
	}
	var out bytes.Buffer
	ss, _ := sources(src, dir, false)
	h := hash(src + fmt.Sprint(len(listed), c.Out))
	s := ss[h>>8%uint64(len(ss))]
	err := gitdiff.Apply(&out, s.src, file)
	if why := c.judge("Apply on "+s.name, prop, out.Bytes(), err, true); why != "" {
		return why
	}
	out.Reset()
	s = ss[h>>16%uint64(len(ss))]
	err = applySerially(&out, s.src, realFrags(c.Frags))
	return c.judge("TextApplier on "+s.name, prop, out.Bytes(), err, false)
}

// ---- readers that all honour io.ReaderAt (C10)

// eagerReader reports io.EOF together with the last bytes.
type eagerReader struct{ s string }

func (r eagerReader) ReadAt(p []byte, off int64) (int, error) {
	if off < 0 {
		return 0, errors.New("negative offset")
	}
	if off >= int64(len(r.s)) {
		return 0, io.EOF
	}
	n := copy(p, r.s[off:])
	if off+int64(n) == int64(len(r.s)) {
		return n, io.EOF
	}
	return n, nil
}

// scratchReader uses the rest of the buffer as scratch space.
type scratchReader struct{ s string }

func (r scratchReader) ReadAt(p []byte, off int64) (int, error) {
	for i := range p {
		p[i] = "x\n"[i%2]
	}
	if off < 0 {
		return 0, errors.New("negative offset")
	}
	if off > int64(len(r.s)) {
		return 0, io.EOF
	}
	n := copy(p, r.s[off:])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

// lineReader supplies lines itself; eager reports io.EOF with the last ones.
type lineReader struct {
	io.ReaderAt
	lines [][]byte
	eager bool
}

func (r lineReader) ReadLinesAt(p [][]byte, off int64) (int, error) {
	if off < 0 {
		return 0, errors.New("negative offset")
	}
	n := 0
	for n < len(p) && off+int64(n) < int64(len(r.lines)) {
		p[n] = append([]byte(nil), r.lines[off+int64(n)]...)
		n++
	}
	if n < len(p) || r.eager && n > 0 && off+int64(n) == int64(len(r.lines)) {
		return n, io.EOF
	}
	return n, nil
}

func eagerLines(ra io.ReaderAt, s string) lineReader {
	lr := newLineReader(ra, s)
	lr.eager = true
	return lr
}

func newLineReader(ra io.ReaderAt, s string) lineReader {
	lr := lineReader{ReaderAt: ra}
	for _, l := range strings.SplitAfter(s, "\n") {
		if l != "" {
			lr.lines = append(lr.lines, []byte(l))
		}
	}
	return lr
}

var tmpCount atomic.Int64

type namedSource struct {
	name string
	src  io.ReaderAt
}

func sources(s string, dir string, file bool) ([]namedSource, func()) {
	ss := []namedSource{
		{"bytes.Reader", bytes.NewReader([]byte(s))},
		{"strings.Reader", strings.NewReader(s)},
		{"eof with last bytes", eagerReader{s}},
		{"scratching", scratchReader{s}},
		{"section", io.NewSectionReader(strings.NewReader("#\n"+s+"trailing\n"), 2, int64(len(s)))},
		{"lines", newLineReader(strings.NewReader(s), s)},
		{"lines over eager", newLineReader(eagerReader{s}, s)},
		{"eof with last lines", eagerLines(strings.NewReader(s), s)},
	}
	done := func() {}
	if file {
		name := filepath.Join(dir, fmt.Sprintf("src%d", tmpCount.Add(1)))
		check(os.WriteFile(name, []byte(s), 0o644))
		fd, err := os.Open(name)
		check(err)
		ss = append(ss, namedSource{"os.File", fd})
		done = func() { fd.Close(); os.Remove(name) }
	}
	return ss, done
}

// readers applies the same file to the same bytes behind every kind of reader,
// repeatedly, and checks that nothing else changes.
func (c *ApCase) readers(file *gitdiff.File, src, dir string) string {
	before := fileRec(file)
	ss, done := sources(src, dir, hash(src)%16 == 0)
	defer done()
	frags := realFrags(c.Frags)
	for _, s := range ss {
		for round := 1; round <= 2; round++ {
			var out bytes.Buffer
			err := gitdiff.Apply(&out, s.src, file)
			if why := c.judge(fmt.Sprintf("Apply on %s, round %d", s.name, round), "C02", out.Bytes(), err, true); why != "" {
				return why
			}
		}
		var out bytes.Buffer
		err := applySerially(&out, s.src, frags)
		if why := c.judge("TextApplier on "+s.name, "C02", out.Bytes(), err, false); why != "" {
			return why
		}
		back := make([]byte, len(src)+1)
		n, _ := s.src.ReadAt(back, 0)
		if string(back[:n]) != src {
			return "source changed: " + s.name
		}
	}
	if !sameJSON(before, fileRec(file)) {
		return fmt.Sprintf("Apply changed the file: %s, was %s", short(fileRec(file)), short(before))
	}
	return ""
}
