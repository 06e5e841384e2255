package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"strings"
	"syscall"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
)

// Fault injection: operations run in an environment that fails at a chosen
// point; what happens at the interface is recorded as a trace for the
// specification (IO.tla) to accept.

type Ev struct {
	E        string `json:"e"`
	N        int    `json:"n"`
	Acc      int    `json:"acc"`
	Res      string `json:"res"`
	Good     bool   `json:"good"`
	Err      bool   `json:"err"`
	Wraps    bool   `json:"wraps"`
	Apply    bool   `json:"apply"`
	Conflict bool   `json:"conflict"`
	Files    int    `json:"files"`
	Prefix   bool   `json:"prefix"`
}

type IoWant struct {
	Kind  string `json:"kind"`
	Total int    `json:"total"`
	Ok    bool   `json:"ok"`
	Whole bool   `json:"whole"`
	Least int    `json:"least"`
	Most  int    `json:"most"`
}

type Trace struct {
	Want IoWant `json:"want"`
	Ev   []Ev   `json:"ev"`
	X    string `json:"x"` // how it came about, opaque to the specification
}

func (t *Trace) note(s string) { t.X = s }

type fault struct{ msg string }

func (f *fault) Error() string { return f.msg }

// env is the environment of one execution.
type env struct {
	ideal []byte
	src   io.ReaderAt
	lines [][]byte

	failErr   error
	failRead  int // number of the read that fails; 0: none
	forever   bool
	withData  bool
	most      bool
	budget    int // bytes accepted before writes fail; -1: unlimited
	writeMode string
	recovers  bool

	reads, written int
	good           bool
	ev             []Ev
	hidden         bool // read failures are not recorded
}

func (e *env) fails() bool {
	e.reads++
	if e.failRead > 0 && (e.reads == e.failRead || e.forever && e.reads > e.failRead) {
		if !e.hidden {
			e.ev = append(e.ev, Ev{E: "r", Res: "fail"})
		}
		return true
	}
	return false
}

// part of n that is delivered together with a failure, never all of it
func (e *env) part(n int) int {
	if e.most {
		return max(n-1, 0)
	}
	return n / 2
}

func (e *env) ReadAt(p []byte, off int64) (int, error) {
	if e.fails() {
		n := 0
		if e.withData {
			n, _ = e.src.ReadAt(p[:e.part(len(p))], off)
		}
		return n, e.failErr
	}
	return e.src.ReadAt(p, off)
}

type lineEnv struct{ *env }

func (e lineEnv) ReadLinesAt(p [][]byte, off int64) (int, error) {
	fail := e.fails()
	if fail {
		if !e.withData {
			return 0, e.failErr
		}
		p = p[:e.part(len(p))]
	}
	n := 0
	for n < len(p) && off+int64(n) < int64(len(e.lines)) {
		p[n] = append([]byte(nil), e.lines[off+int64(n)]...)
		n++
	}
	if fail {
		return n, e.failErr
	}
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

func (e *env) Write(p []byte) (int, error) {
	acc := len(p)
	res := "ok"
	var err error
	budget := e.budget
	if e.budget >= 0 && e.written+len(p) > e.budget {
		res, err = "fail", e.failErr
		if e.recovers {
			e.budget = -1 // only one write fails
		}
		switch e.writeMode {
		case "none":
			acc = 0
		case "all":
		case "short":
			res, err = "short", nil
			fallthrough
		default:
			acc = max(0, budget-e.written)
		}
	}
	if e.written+acc > len(e.ideal) || !bytes.Equal(e.ideal[e.written:e.written+acc], p[:acc]) {
		e.good = false
	}
	e.written += acc
	n := len(e.ev)
	if res == "ok" && n > 0 && e.ev[n-1].E == "w" && e.ev[n-1].Res == "ok" && e.ev[n-1].Good == e.good {
		e.ev[n-1].N += len(p) // silent merging keeps traces short
		e.ev[n-1].Acc += acc
	} else {
		e.ev = append(e.ev, Ev{E: "w", N: len(p), Acc: acc, Res: res, Good: e.good})
	}
	return acc, err
}

func (e *env) ret(err error) {
	var ae *gitdiff.ApplyError
	e.ev = append(e.ev, Ev{E: "ret", Err: err != nil, Wraps: err != nil && errors.Is(err, e.failErr),
		Apply: errors.As(err, &ae), Conflict: err != nil && conflict(err), Prefix: true})
}

// failure is one of several kinds of error an environment may report; a bare
// io.EOF means the end of the data and is none.
func failure(k int) error {
	switch k % 5 {
	case 0:
		return fmt.Errorf("connection lost: %w", io.EOF)
	case 1:
		return io.ErrUnexpectedEOF
	case 2:
		return io.ErrClosedPipe
	case 3:
		return &fs.PathError{Op: "read", Path: "f", Err: syscall.EIO}
	}
	return &fault{"injected failure"}
}

// faulty runs op under every fault that makes sense and records the traces.
func faulty(x *Ctx, raw []byte, label string, whole, ok bool, ideal []byte, mk func() env, op func(e *env) error) {
	run := func(e env, how string) *env {
		e.ideal, e.good = ideal, true
		e.ret(op(&e))
		x.Rep.record(&Trace{Want: IoWant{Kind: "apply", Total: len(ideal), Ok: ok, Whole: whole}, Ev: e.ev},
			label+": "+how, raw)
		return &e
	}
	base := func() env {
		e := mk()
		e.budget, e.failErr = -1, &fault{"injected failure"}
		return e
	}
	clean := run(base(), "no fault")
	h := int(hash(string(raw)) % 1000003)
	for k := 1; k <= clean.reads; k++ {
		if k > 6 && k < clean.reads-1 && (k+h)%7 != 0 {
			continue
		}
		for m := 0; m < 4; m++ {
			e := base()
			e.failRead, e.withData, e.forever = k, m&1 == 1, m&2 == 2
			e.most = (h+k+m/2)%2 == 1
			e.failErr = failure(h + k + m)
			run(e, fmt.Sprintf("read %d fails (with data %v, forever %v, %v)", k, e.withData, e.forever, e.failErr))
		}
	}
	step := 1 + len(ideal)/24
	for b := 0; b < len(ideal); b++ {
		if b > 0 && b != len(ideal)-1 && (b+h)%step != 0 {
			continue
		}
		for k, mode := range []string{"part", "none", "all", "short"} {
			e := base()
			e.budget, e.writeMode = b, mode
			e.failErr = failure(h + b + k)
			e.recovers = (h+b+k)%4 == 1
			run(e, fmt.Sprintf("writes fail after %d bytes (%s)", b, mode))
		}
	}
}

func init() {
	handlers["textfaults"] = func(x *Ctx, raw []byte) Verdict {
		var c ApCase
		check(json.Unmarshal(raw, &c))
		src := expandAll(c.Src)
		ideal := c.predicted()
		ok := c.Err.Kind == ""
		frags := realFrags(c.Frags)
		file := &gitdiff.File{OldName: "f", NewName: "f", TextFragments: frags}
		lines := newLineReader(nil, src).lines
		mk := func() env { return env{src: strings.NewReader(src), lines: lines} }
		faulty(x, raw, "Apply", true, ok, ideal, mk, func(e *env) error { return gitdiff.Apply(e, e, file) })
		faulty(x, raw, "Apply with a line reader", true, ok, ideal, mk, func(e *env) error { return gitdiff.Apply(e, lineEnv{e}, file) })
		faulty(x, raw, "TextApplier", false, ok, ideal, mk, func(e *env) error { return applySerially(e, e, frags) })
		return Verdict{Class: fmt.Sprintf("frags=%d %s", min(len(c.Frags), 3), c.Err.Why)}
	}
	handlers["binaryfaults"] = func(x *Ctx, raw []byte) Verdict {
		var c BinCase
		check(json.Unmarshal(raw, &c))
		v := Verdict{Class: c.Fr.Method + " " + c.Ba.Err}
		if c.Ba.Err == "data" || c.Fr.Actual.Int() > 1<<22 || c.Src.Int() > 1<<22 {
			v.Class = "skipped " + v.Class
			return v
		}
		ideal := c.ideal()
		f := c.Fr.real(c.X)
		file := &gitdiff.File{OldName: "f", NewName: "f", IsBinary: true, BinaryFragment: f}
		ok := c.Ba.Err == ""
		mk := func() env { return env{src: c.source(0)} }
		faulty(x, raw, "Apply", true, ok, ideal, mk, func(e *env) error { return gitdiff.Apply(e, e, file, c.options()...) })
		faulty(x, raw, "BinaryApplier", false, ok, ideal, mk, func(e *env) error {
			a := gitdiff.NewBinaryApplier(e, e, c.options()...)
			if err := a.ApplyFragment(f); err != nil {
				return err
			}
			return a.Close()
		})
		if c.X != nil && c.X.Src != nil { // copying
			ideal := []byte(c.X.Src)
			faulty(x, raw, "Apply without changes", true, true, ideal, mk, func(e *env) error {
				return gitdiff.Apply(e, e, &gitdiff.File{OldName: "f", NewName: "f"})
			})
			faulty(x, raw, "close a BinaryApplier", false, true, ideal, mk, func(e *env) error {
				return gitdiff.NewBinaryApplier(e, e).Close()
			})
			faulty(x, raw, "close a TextApplier", false, true, ideal, mk, func(e *env) error {
				return gitdiff.NewTextApplier(e, e).Close()
			})
		}
		return v
	}
	handlers["verdict"] = func(x *Ctx, raw []byte) Verdict {
		var c struct {
			Why   string `json:"why"`
			Step  int    `json:"step"`
			Trace Trace  `json:"trace"`
		}
		var s struct {
			Trace StreamTrace `json:"trace"`
		}
		if bytes.Contains(raw, []byte(`"kind":"stream"`)) {
			check(json.Unmarshal(raw, &s))
		}
		if s.Trace.Kind == "stream" {
			check(json.Unmarshal(raw, &struct {
				Why  *string `json:"why"`
				Step *int    `json:"step"`
			}{&c.Why, &c.Step}))
			v := Verdict{Class: "trace of " + s.Trace.Fr.Damage}
			if c.Why != "" {
				v.Why = fmt.Sprintf("%s (read %d of %+v from %+v)", c.Why, c.Step, s.Trace.Ev, s.Trace.Fr)
			}
			return v
		}
		if bytes.Contains(raw, []byte(`"kind":"cost"`)) {
			var d struct {
				Why   string    `json:"why"`
				Spent int64     `json:"spent"`
				Trace CostTrace `json:"trace"`
			}
			check(json.Unmarshal(raw, &d))
			v := Verdict{Class: "cost of " + d.Trace.Want.What}
			if d.Why != "" {
				v.Why = fmt.Sprintf("%s: %+v, at least %d bytes: %s", d.Why, d.Trace.Want, d.Spent, clip([]byte(d.Trace.X)))
			}
			return v
		}
		check(json.Unmarshal(raw, &c))
		class := c.Trace.Want.Kind
		for _, e := range c.Trace.Ev {
			if e.Res == "fail" || e.Res == "short" {
				class += " " + e.E + e.Res
			}
			if e.E == "ret" && !e.Err {
				class += " ok"
			}
		}
		v := Verdict{Class: class}
		if c.Why != "" {
			v.Why = fmt.Sprintf("%s (event %d of %s): %s", c.Why, c.Step, short(c.Trace.Ev), clip([]byte(c.Trace.X)))
		}
		return v
	}
}

// ---- parsing from readers that fail

// chunkReader delivers text in chunks and then fails.
type chunkReader struct {
	text     string
	chunk    int
	err      error
	once     bool
	withData bool
	failed   bool
	e        *env
}

func (r *chunkReader) fail() error {
	if r.failed && r.once {
		return io.EOF
	}
	r.failed = true
	if !r.e.hidden && len(r.e.ev) == 0 {
		r.e.ev = append(r.e.ev, Ev{E: "r", Res: "fail"})
	}
	return r.err
}

func (r *chunkReader) Read(p []byte) (int, error) {
	if r.text == "" {
		return 0, r.fail()
	}
	n := len(r.text)
	if r.chunk > 0 {
		n = min(n, r.chunk)
	}
	n = copy(p[:min(n, len(p))], r.text)
	r.text = r.text[n:]
	if r.text == "" && r.withData {
		return n, r.fail()
	}
	return n, nil
}

// lineFeed is a reader the parser uses directly.
type lineFeed struct{ *chunkReader }

func (r lineFeed) ReadString(delim byte) (string, error) {
	i := strings.IndexByte(r.text, delim)
	if i < 0 {
		t := r.text
		r.chunkReader.text = ""
		return t, r.fail()
	}
	t := r.text[:i+1]
	r.chunkReader.text = r.text[i+1:]
	return t, nil
}

type ParseFault struct {
	In    []Str     `json:"in"`
	Io    bool      `json:"io"`
	Files []FileRec `json:"files"`
	Least int       `json:"least"`
}

func init() {
	handlers["parsefaults"] = func(x *Ctx, raw []byte) Verdict {
		var c ParseFault
		check(json.Unmarshal(raw, &c))
		text := joinStrs(c.In)
		h := hash(text)
		for _, tail := range []string{"", "@", " some text", "diff --git a/q b/q\n"[:1+h%17]} {
			for m := 0; m < 8; m++ {
				e := &env{hidden: !c.Io, failErr: &fault{"injected failure"}, budget: -1}
				e.failErr = failure(int(h%1000) + m)
				r := &chunkReader{text: text + tail, err: e.failErr, once: m&1 == 1, withData: m&2 == 2, e: e}
				r.chunk = []int{0, 1, 7, 64}[(int(h%4)+m)%4]
				var rd io.Reader = r
				if (h/5+uint64(m))%3 == 0 {
					rd = lineFeed{r}
				}
				files, _, err := gitdiff.Parse(rd)
				ret := Ev{E: "ret", Err: err != nil, Wraps: err != nil && errors.Is(err, e.failErr), Files: len(files)}
				ret.Prefix = len(files) > len(c.Files) || diffFiles("", fileRecs(files), c.Files[:len(files)]) == ""
				if !c.Io && errors.Is(err, e.failErr) {
					e.ev = append(e.ev, Ev{E: "r", Res: "fail"})
				}
				e.ev = append(e.ev, ret)
				x.Rep.record(&Trace{Want: IoWant{Kind: "parse", Least: c.Least, Most: len(c.Files)}, Ev: e.ev},
					fmt.Sprintf("tail %q, chunks of %d, mode %d, reader %T", tail, r.chunk, m, rd), raw)
			}
		}
		return Verdict{Class: fmt.Sprintf("files=%d io=%v", len(c.Files), c.Io)}
	}
}
