package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"reflect"
	"strings"
	"sync"
	"time"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
)

// Schedules of independent operations (C11). In a scheduled run every operation
// stops at each interaction with its environment until it is given a turn; in a
// free run all of them go at once, under the race detector.

type interTable struct {
	Table map[string]json.RawMessage `json:"table"`
	Text  []Str                      `json:"text"`
	Bin   BinFrag                    `json:"bin"`
}

type InterCase struct {
	interTable
	Ops   []string `json:"ops"`
	Sched [][2]int `json:"sched"`
	Cold  bool     `json:"cold"`
}

var inter struct {
	sync.Once
	interTable
	ready chan bool
}

// gate makes one operation wait for its turns; a nil gate is always open.
type gate struct {
	turn   chan bool
	parked chan bool
	done   bool
}

func (g *gate) wait() {
	if g != nil {
		g.parked <- true
		<-g.turn
	}
}

// step gives the operation one turn.
func (g *gate) step() {
	if !g.done {
		g.turn <- true
		g.done = !<-g.parked
	}
}

type gatedReader struct {
	g    *gate
	text string
}

func (r *gatedReader) Read(p []byte) (int, error) {
	r.g.wait()
	if r.text == "" {
		return 0, io.EOF
	}
	n := strings.IndexByte(r.text, '\n') + 1
	if n == 0 {
		n = len(r.text)
	}
	n = copy(p[:min(n, len(p))], r.text)
	r.text = r.text[n:]
	return n, nil
}

type gatedSource struct {
	g *gate
	s io.ReaderAt
}

func (r gatedSource) ReadAt(p []byte, off int64) (int, error) {
	r.g.wait()
	return r.s.ReadAt(p, off)
}

type gatedSink struct {
	g *gate
	w io.Writer
}

func (w gatedSink) Write(p []byte) (int, error) {
	w.g.wait()
	return w.w.Write(p)
}

const headerText = "commit 61f5cd90bed4d204ee3feb3aa41ee91d4734855b\nAuthor: A B <a@b>\nDate:   Thu Apr 9 10:00:00 2020 -0700\n\n    Title\n\n    Body\n"
const mailText = "From 61f5cd90bed4d204ee3feb3aa41ee91d4734855b Mon Sep 17 00:00:00 2001\nFrom: A B <a@b>\nDate: Thu, 9 Apr 2020 10:00:00 -0700\nSubject: [PATCH] A title\n\nBody\n---\n x | 1 +\n"

const filesText = "diff --git a/m b/m\nold mode 100644\nnew mode 100755\n" +
	"diff --git \"a/x\\ty\" \"b/x\\001z\"\nsimilarity index 90%\nrename from \"x\\ty\"\nrename to \"x\\001z\"\nindex 1234567..89abcde 100644\n" +
	"diff --git a/n b/n\nnew file mode 100644\nindex 0000000..89abcde\n--- /dev/null\n+++ b/n\n@@ -0,0 +1,2 @@ section\n+a\n+b\n\\ No newline at end of file\n"

// formats gives the text forms of files of every kind.
func formats(bin *gitdiff.BinaryFragment) []string {
	files, _, err := gitdiff.Parse(strings.NewReader(filesText))
	if err != nil {
		return []string{err.Error()}
	}
	if bin != nil {
		files = append(files, &gitdiff.File{OldName: "b", NewName: "b", OldMode: 0o100644, IsBinary: true, BinaryFragment: bin, ReverseBinaryFragment: bin,
			OldOIDPrefix: strings.Repeat("0", 40), NewOIDPrefix: strings.Repeat("1", 40)})
	}
	raw := make([]byte, 200)
	formula(raw, 0)
	files = append(files, &gitdiff.File{OldName: "c", NewName: "c", IsBinary: true, BinaryFragment: &gitdiff.BinaryFragment{Method: gitdiff.BinaryPatchLiteral, Size: 99, RawData: raw}})
	var out []string
	for _, f := range files {
		out = append(out, f.String())
		for _, t := range f.TextFragments {
			out = append(out, t.String(), t.Header())
		}
	}
	return out
}

const encodedText = "From: =?utf-8?q?=C3=A9?= <a@b>\nSubject: [PATCH 1/2] =?utf-8?q?A_=C3=A9_title?=\n\nBody\n"

func headers() []any {
	a, err1 := gitdiff.ParsePatchHeader(headerText)
	b, err2 := gitdiff.ParsePatchHeader(mailText)
	c, err3 := gitdiff.ParsePatchHeader("garbage")
	d, err4 := gitdiff.ParsePatchHeader(encodedText)
	u, err5 := gitdiff.ParsePatchIdentity(" A  B <a@b> ")
	all := []any{a, err1, b, err2, c, err3 != nil, d, err4, d.Message(), u.String(), err5}
	for _, date := range []string{"Thu, 9 Apr 2020 10:00:00 -0700", "2020-04-09 10:00:00 -0700", "2020-04-09T10:00:00-07:00", "2020-04-09T10:00:00Z",
		"1586451600 -0700", "1586451600 +0530", "1586451600", "Thu Apr 9 10:00:00 2020 -0700", "Thu Apr 9 10:00:00 2020", "2020-04-09", "", "never"} {
		at, err := gitdiff.ParsePatchDate(date)
		all = append(all, at.Format(time.RFC3339), err)
	}
	for _, name := range []string{"\"A, B\" <a@b>", "a@b (A)", "(\"", "<>", "A\tB <c>"} {
		u, err := gitdiff.ParsePatchIdentity(name)
		all = append(all, u, err)
	}
	for _, mode := range []gitdiff.SubjectCleanMode{gitdiff.SubjectCleanWhitespace, gitdiff.SubjectCleanAll, gitdiff.SubjectCleanPatchOnly} {
		h, err := gitdiff.ParsePatchHeader(encodedText, gitdiff.WithSubjectCleanMode(mode))
		all = append(all, h, err)
	}
	return all
}

// shared values of one run
type interRun struct {
	cold    sync.Mutex
	seen    []any // first results of a cold run
	forms   []string
	t       *interTable
	file    *gitdiff.File
	bin     *gitdiff.BinaryFragment
	text    string
	headers []any
}

func (t *interTable) run() (*interRun, string) {
	files, _, err := gitdiff.Parse(strings.NewReader(joinStrs(t.Text)))
	if err != nil || len(files) != 1 {
		return nil, fmt.Sprintf("the shared patch does not parse: %v", err)
	}
	r := &interRun{t: t, file: files[0], bin: t.Bin.real(nil)}
	r.text = r.file.String()
	r.headers = headers()
	r.forms = formats(r.bin)
	return r, ""
}

// op runs one operation and compares with what it gives alone.
func (r *interRun) op(name string, g *gate) string {
	raw := r.t.Table[name]
	why := ""
	switch {
	case strings.HasPrefix(name, "parse"):
		var c ParseCase
		check(json.Unmarshal(raw, &c))
		files, pre, err := gitdiff.Parse(&gatedReader{g, joinStrs(c.In)})
		why = judgeParse("C12", c.In, c.Res, files, pre, err).Why
		if why == "" {
			why = diffFiles("", fileRecs(files), c.Res.Files)
		}
	case strings.HasPrefix(name, "apply"):
		var c ApCase
		check(json.Unmarshal(raw, &c))
		var out bytes.Buffer
		err := gitdiff.Apply(gatedSink{g, &out}, gatedSource{g, strings.NewReader(expandAll(c.Src))}, r.file)
		why = c.judge("Apply", "C03", out.Bytes(), err, false)
	case strings.HasPrefix(name, "bin"):
		var c BinCase
		check(json.Unmarshal(raw, &c))
		s := &sink{ideal: c.ideal()}
		err := gitdiff.Apply(gatedSink{g, s}, gatedSource{g, c.source(0)}, &gitdiff.File{IsBinary: true, BinaryFragment: r.bin})
		why = c.judge("Apply", s, err)
	case strings.HasPrefix(name, "copy"):
		var c struct{ Src, Out []int }
		check(json.Unmarshal(raw, &c))
		blocks := func(ids []int) string {
			var b strings.Builder
			for _, id := range ids {
				b.WriteString(expand(Str(fmt.Sprintf("~%d,%d\n", id, 32*1024-1))))
			}
			return b.String()
		}
		var out bytes.Buffer
		var err error
		dst, src := gatedSink{g, &out}, gatedSource{g, strings.NewReader(blocks(c.Src))}
		switch len(c.Src) % 2 {
		case 0:
			err = gitdiff.Apply(dst, src, &gitdiff.File{OldName: "m", NewName: "m", OldMode: 0o100644, NewMode: 0o100755})
		case 1:
			err = gitdiff.NewTextApplier(dst, src).Close()
		}
		if err != nil || out.String() != blocks(c.Out) {
			why = fmt.Sprintf("copied %s, %v", clip(out.Bytes()), err)
		}
	case name == "format" && r.headers == nil:
		got := []any{r.file.String(), formats(r.bin)}
		r.cold.Lock()
		r.seen = append(r.seen, got)
		r.cold.Unlock()
	case name == "header" && r.headers == nil:
		got := headers()
		r.cold.Lock()
		r.seen = append(r.seen, got)
		r.cold.Unlock()
	case name == "format":
		if got := r.file.String(); got != r.text {
			why = fmt.Sprintf("formatted as %q, alone as %q", got, r.text)
		}
		if got := formats(r.bin); !reflect.DeepEqual(got, r.forms) {
			why = fmt.Sprintf("formatted as %.600q, alone as %.600q", got, r.forms)
		}
	case name == "header":
		if got := headers(); !reflect.DeepEqual(got, r.headers) {
			why = "a header was parsed differently"
		}
	default:
		panic("harness: unknown operation " + name)
	}
	if why != "" {
		return name + ": " + why
	}
	return ""
}

// again checks that nothing shared has changed.
func (r *interRun) again() string {
	fresh, why := r.t.run()
	if why != "" {
		return why
	}
	if !sameJSON(fileRec(fresh.file), fileRec(r.file)) || fresh.text != r.file.String() {
		return "the shared file has changed: " + short(fileRec(r.file))
	}
	if !reflect.DeepEqual(fresh.bin, r.bin) {
		return "the shared binary fragment has changed"
	}
	return ""
}

func (c *InterCase) scheduled() string {
	r, why := c.run()
	if why != "" {
		return why
	}
	gates := make([]*gate, len(c.Ops))
	res := make([]string, len(c.Ops))
	for i, name := range c.Ops {
		g := &gate{turn: make(chan bool), parked: make(chan bool)}
		gates[i] = g
		go func() {
			<-g.turn
			res[i] = guard(func() Verdict { return Verdict{Why: r.op(name, g)} }).Why
			g.parked <- false
		}()
	}
	for _, s := range c.Sched {
		for n := 0; n < s[1]; n++ {
			gates[s[0]-1].step()
		}
	}
	for _, g := range gates {
		for !g.done {
			g.step()
		}
	}
	for i, why := range res {
		if why != "" {
			return fmt.Sprintf("operation %d, %s", i+1, why)
		}
	}
	return r.again()
}

// coldRun is the whole life of a process whose first use of the library is
// the concurrent one.
func (c *InterCase) coldRun() string {
	var x ApCase
	check(json.Unmarshal(c.Table["applyX"], &x))
	r := &interRun{t: &c.interTable, file: &gitdiff.File{OldName: "s", NewName: "s", TextFragments: realFrags(x.Frags)}, bin: c.Bin.real(nil)}
	var wg sync.WaitGroup
	res := make([]string, len(c.Ops))
	start := make(chan bool)
	for i, name := range c.Ops {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			res[i] = guard(func() Verdict { return Verdict{Why: r.op(name, nil)} }).Why
		}()
	}
	close(start)
	wg.Wait()
	for i, why := range res {
		if why != "" {
			return fmt.Sprintf("operation %d, %s", i+1, why)
		}
	}
	first := r.seen
	r.seen = nil
	for _, name := range c.Ops {
		if why := r.op(name, nil); why != "" {
			return "on the second use, " + why
		}
	}
	for _, a := range first {
		same := false
		for _, b := range r.seen {
			same = same || reflect.DeepEqual(a, b)
		}
		if !same {
			return fmt.Sprintf("the first use gave %.600v, the second %.600v", a, r.seen)
		}
	}
	return ""
}

// spawn runs the operations in a new process.
func (c *InterCase) spawn() string {
	raw, err := json.Marshal(c)
	check(err)
	self, err := os.Executable()
	check(err)
	cmd := exec.Command(self, "cold")
	cmd.Stdin = bytes.NewReader(raw)
	out, err := cmd.CombinedOutput()
	if err != nil || len(out) > 0 {
		return fmt.Sprintf("as the first use of the library: %v %.1500s", err, out)
	}
	return ""
}

func (c *InterCase) free() string {
	if c.Cold {
		if why := c.spawn(); why != "" {
			return why
		}
	}
	r, why := c.run()
	if why != "" {
		return why
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	start := make(chan bool)
	for k := 0; k < 3; k++ {
		for _, name := range c.Ops {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				w := guard(func() Verdict { return Verdict{Why: r.op(name, nil)} }).Why
				mu.Lock()
				defer mu.Unlock()
				if w != "" {
					why = w
				}
			}()
		}
	}
	close(start)
	wg.Wait()
	if why != "" {
		return why
	}
	return r.again()
}

func init() {
	inter.ready = make(chan bool)
	mk := func(f func(c *InterCase) string) Handler {
		return func(x *Ctx, raw []byte) Verdict {
			var c InterCase
			check(json.Unmarshal(raw, &c))
			if c.Table != nil && c.Ops == nil {
				inter.Do(func() {
					inter.interTable = c.interTable
					close(inter.ready)
				})
				return Verdict{Class: "table"}
			}
			if c.Table == nil {
				<-inter.ready
				c.interTable = inter.interTable
			}
			return Verdict{Class: fmt.Sprintf("procs=%d", len(c.Ops)), Why: f(&c), Case: c}
		}
	}
	handlers["interleave"] = mk((*InterCase).scheduled)
	handlers["race"] = mk((*InterCase).free)
}
