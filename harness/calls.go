package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"strings"
	"sync"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
)

type CallCase struct {
	ApCase
	Hist []struct {
		Call int    `json:"call"`
		Kind string `json:"kind"`
		// the writer fails in this call
		Fault bool `json:"fault"`
	} `json:"hist"`
	Closed bool `json:"closed"`
	Lost   bool `json:"lost"`
}

// flaky is a writer that fails while down; with short set it reports only that
// it took nothing
type flaky struct {
	to          io.Writer
	down, short bool
}

var errDown = errors.New("the writer is down")

func (f *flaky) Write(p []byte) (int, error) {
	if f.down && len(p) > 0 {
		if f.short {
			return 0, nil
		}
		return 0, errDown
	}
	return f.to.Write(p)
}

// failure reports whether err is the failure of the writer
func (f *flaky) failure(err error) bool {
	return errors.Is(err, errDown) || f.short && errors.Is(err, io.ErrShortWrite)
}

// the fragment table printed once by the specification
var callFrags struct {
	sync.Once
	ready chan bool
	frags []ApFrag
}

func init() {
	callFrags.ready = make(chan bool)
	handlers["calls"] = func(x *Ctx, raw []byte) Verdict {
		var c CallCase
		check(json.Unmarshal(raw, &c))
		if c.Hist == nil {
			callFrags.Do(func() {
				callFrags.frags = c.Frags
				close(callFrags.ready)
			})
			return Verdict{Class: "table"}
		}
		if c.Frags == nil {
			<-callFrags.ready
			c.Frags = callFrags.frags
		}
		return Verdict{Class: fmt.Sprintf("calls=%d %s", len(c.Hist), c.Err.Why), Why: c.play(), Case: c}
	}
}

func (c *CallCase) play() string {
	src := expandAll(c.Src)
	want := c.predicted()
	var out bytes.Buffer
	w := &flaky{to: &out, short: len(c.Hist) > 0 && (len(src)+c.Hist[0].Call)%2 == 0}
	a := gitdiff.NewTextApplier(w, strings.NewReader(src))
	closed, broken := false, false
	for i, h := range c.Hist {
		before := out.Len()
		w.down = h.Fault
		var err error
		what := fmt.Sprintf("call %d", i+1)
		switch {
		case h.Call == 0:
			what += " Close"
			err = a.Close()
			if closed && out.Len() != before {
				return what + ": wrote after closing"
			}
			closed = true
		case h.Call == len(c.Frags)+1:
			what += " ApplyFragment(nil)"
			err = a.ApplyFragment(nil)
		default:
			what += fmt.Sprintf(" ApplyFragment(%d)", h.Call)
			err = a.ApplyFragment(c.Frags[h.Call-1].real())
		}
		if h.Kind != "any" && (err != nil) != (h.Kind != "ok") {
			return fmt.Sprintf("%s: error %v, want %s", what, err, h.Kind)
		}
		if h.Kind == "failed" && !w.failure(err) || h.Kind == "either" && !w.failure(err) && !conflict(err) {
			return fmt.Sprintf("%s: error %v is not the failure of the writer", what, err)
		}
		broken = broken || h.Kind == "conflict" || h.Kind == "any" || h.Kind == "failed" || h.Kind == "either"
		if h.Kind == "any" {
			continue
		}
		if (h.Kind == "refused" || h.Kind == "collides") && out.Len() != before {
			return fmt.Sprintf("%s: refused (%v) but wrote %q", what, err, out.Bytes()[before:])
		}
		if (h.Kind == "conflict" || h.Kind == "collides") && !conflict(err) {
			return fmt.Sprintf("%s: %v is not a conflict", what, err)
		}
		if c.Lost && broken {
			continue
		}
		if !bytes.HasPrefix(want, out.Bytes()) {
			return fmt.Sprintf("%s: wrote %s, correct is %s", what, clip(out.Bytes()), clip(want))
		}
		if closed && !bytes.Equal(want, out.Bytes()) {
			return fmt.Sprintf("%s: output after closing is %s, want %s", what, clip(out.Bytes()), clip(want))
		}
	}
	return ""
}

type ValidateCase struct {
	Ops []string `json:"ops"`
	Rec struct {
		Old, New, Added, Deleted, Lead, Trail int64
	} `json:"rec"`
	OPos  int64 `json:"opos"`
	Other struct {
		Far   string `json:"far"`
		Times int64  `json:"times"`
		NPos  int64  `json:"npos"`
		Text  string `json:"text"`
	} `json:"other"`
	Valid bool `json:"valid"`
}

func (c ValidateCase) line(i int) string {
	text := c.Other.Text
	if text == "mixed" {
		text = []string{"bare", "empty", "odd", "plain"}[i%4]
	}
	switch text {
	case "bare":
		return fmt.Sprint(i)
	case "empty":
		return ""
	case "odd":
		return "-a\n+b\n"
	}
	return fmt.Sprintf("%d\n", i)
}

var unknownOps = []gitdiff.LineOp{3, -1, 63, math.MaxInt, -2, math.MinInt, 123, 32, 43, 45}

func (c ValidateCase) real() *gitdiff.TextFragment {
	f := &gitdiff.TextFragment{OldPosition: c.OPos, OldLines: c.Rec.Old, NewPosition: c.Other.NPos, NewLines: c.Rec.New,
		LinesAdded: c.Rec.Added, LinesDeleted: c.Rec.Deleted, LeadingContext: c.Rec.Lead, TrailingContext: c.Rec.Trail}
	for i, op := range c.Ops {
		o := unknownOps[int(uint64(int64(i+len(c.Ops))+c.Rec.Old+3*c.Rec.New)%uint64(len(unknownOps)))]
		switch op {
		case " ":
			o = gitdiff.OpContext
		case "+":
			o = gitdiff.OpAdd
		case "-":
			o = gitdiff.OpDelete
		}
		f.Lines = append(f.Lines, gitdiff.Line{Op: o, Line: c.line(i)})
	}
	if p := map[string]*int64{"opos": &f.OldPosition, "old": &f.OldLines, "npos": &f.NewPosition, "new": &f.NewLines, "added": &f.LinesAdded,
		"deleted": &f.LinesDeleted, "lead": &f.LeadingContext, "trail": &f.TrailingContext}[c.Other.Far]; p != nil {
		*p += c.Other.Times << 32
	}
	return f
}

func init() {
	handlers["validate"] = func(x *Ctx, raw []byte) Verdict {
		var c ValidateCase
		check(json.Unmarshal(raw, &c))
		v := Verdict{Class: fmt.Sprintf("valid=%v", c.Valid)}
		err := c.real().Validate()
		if (err == nil) != c.Valid {
			v.Why = fmt.Sprintf("Validate: %v, want valid %v", err, c.Valid)
			return v
		}
		for way := 0; way < 6; way++ {
			if aged := agedFrag(c.real(), way).Validate(); (aged == nil) != c.Valid {
				v.Why = fmt.Sprintf("Validate of a fragment that was another one before: %v, want valid %v", aged, c.Valid)
				return v
			}
		}
		if c.Valid {
			return v
		}
		// never applied: neither to a source it may fit nor as part of a file
		for _, start := range []int{0, 1} {
			var src strings.Builder
			if start == 1 {
				for i := int64(1); i < c.OPos; i++ {
					src.WriteString("pad\n")
				}
				for i, op := range c.Ops {
					if op != "+" {
						src.WriteString(c.line(i))
					}
				}
			}
			var out bytes.Buffer
			a := gitdiff.NewTextApplier(&out, strings.NewReader(src.String()))
			if err := a.ApplyFragment(c.real()); err == nil {
				v.Why = "an invalid fragment is applied"
			} else if out.Len() > 0 {
				v.Why = fmt.Sprintf("an invalid fragment is refused (%v) after writing %q", err, out.Bytes())
			}
			out.Reset()
			file := &gitdiff.File{OldName: "f", NewName: "f", TextFragments: []*gitdiff.TextFragment{c.real()}}
			if err := gitdiff.Apply(&out, strings.NewReader(src.String()), file); err == nil || out.Len() > 0 {
				v.Why = fmt.Sprintf("a file with an invalid fragment is applied: %v %q", err, out.Bytes())
			}
		}
		return v
	}
}
