package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"slices"
	"strings"
	"time"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
)

// Delivery of the input (C20): the same bytes in different pieces and through
// different kinds of reader.

// pieces hands over its text in the given pieces, the last one repeated, and
// reports the end with the last bytes or after them.
type pieces struct {
	text  string
	cuts  []int
	eager bool
	zero  int // consecutive empty reads
	calls int
}

func (r *pieces) Read(p []byte) (int, error) {
	n := len(r.text)
	if r.calls < len(r.cuts) {
		n = min(n, r.cuts[r.calls])
	} else if len(r.cuts) > 0 {
		n = min(n, max(1, r.cuts[len(r.cuts)-1]))
	}
	r.calls++
	n = copy(p, r.text[:n])
	r.text = r.text[n:]
	if r.text == "" && (r.eager || n == 0 && r.calls > len(r.cuts)) {
		return n, io.EOF
	}
	return n, nil
}

// lineSource is a reader with its own ReadString that is not a bufio.Reader.
type lineSource struct{ pieces }

func (r *lineSource) ReadString(delim byte) (string, error) {
	if i := strings.IndexByte(r.text, delim); i >= 0 {
		s := r.text[:i+1]
		r.text = r.text[i+1:]
		return s, nil
	}
	s := r.text
	r.text = ""
	return s, io.EOF
}

type parsed struct {
	files []FileRec
	pre   string
	err   string
}

func parseFrom(r io.Reader) (parsed, []*gitdiff.File) {
	files, pre, err := gitdiff.Parse(r)
	p := parsed{files: fileRecs(files), pre: pre}
	if err != nil {
		p.err = "error: " + err.Error()
	}
	return p, files
}

func sameParse(how string, got, want parsed) string {
	switch {
	case got.err != want.err:
		return fmt.Sprintf("%s: %q, read whole %q", how, got.err, want.err)
	case got.pre != want.pre:
		return fmt.Sprintf("%s: preamble %q, read whole %q", how, got.pre, want.pre)
	case !sameJSON(got.files, want.files):
		return fmt.Sprintf("%s: files %s, read whole %s", how, short(got.files), short(want.files))
	}
	return ""
}

// peeked is a buffered reader that has read ahead.
func peeked(s string, cuts []int, size int) io.Reader {
	r := bufio.NewReaderSize(&pieces{text: s, cuts: cuts}, size)
	r.Peek(1 + len(s)/3)
	return r
}

// partlyRead is a buffered reader some other text has been read from.
func partlyRead(s string, cuts []int) io.Reader {
	r := bufio.NewReader(&pieces{text: "first\nsecond" + s, cuts: cuts})
	r.ReadString('\n')
	r.Discard(len("second"))
	return r
}

// readers gives the same bytes in many ways; cuts are the pieces.
func readers(s string, cuts []int) map[string]io.Reader {
	return map[string]io.Reader{
		"pieces":                        &pieces{text: s, cuts: cuts},
		"pieces, end with data":         &pieces{text: s, cuts: cuts, eager: true},
		"buffered 16":                   bufio.NewReaderSize(&pieces{text: s, cuts: cuts}, 16),
		"buffered 16, end with data":    bufio.NewReaderSize(&pieces{text: s, cuts: cuts, eager: true}, 16),
		"bytes.Buffer":                  bytes.NewBufferString(s),
		"bytes.Reader":                  bytes.NewReader([]byte(s)),
		"ReadString":                    &lineSource{pieces{text: s}},
		"buffered and peeked":           peeked(s, cuts, 64),
		"buffered and partly read":      partlyRead(s, cuts),
		"joined":                        io.MultiReader(strings.NewReader(s[:len(s)/2]), strings.NewReader(s[len(s)/2:])),
		"limited":                       io.LimitReader(strings.NewReader(s+"diff --git a/more b/more\n"), int64(len(s))),
		"byte and string reader":        bufio.NewReader(&lineSource{pieces{text: s, cuts: cuts}}),
		"one byte":                      &pieces{text: s, cuts: []int{1}},
		"one byte and a nil read first": &pieces{text: s, cuts: []int{0, 1, 0, 2, 0, 0, 1}},
	}
}

// wellBehaved checks what must hold of every result.
func wellBehaved(files []*gitdiff.File) string {
	for i, f := range files {
		for k, frag := range f.TextFragments {
			var o, n, a, d, lead, trail int64
			for _, l := range frag.Lines {
				switch l.Op {
				case gitdiff.OpContext:
					o, n = o+1, n+1
					if a+d == 0 {
						lead++
					}
					trail++
				case gitdiff.OpAdd:
					n, a, trail = n+1, a+1, 0
				case gitdiff.OpDelete:
					o, d, trail = o+1, d+1, 0
				default:
					return fmt.Sprintf("file %d fragment %d: operation %d", i+1, k+1, l.Op)
				}
			}
			got := [6]int64{frag.OldLines, frag.NewLines, frag.LinesAdded, frag.LinesDeleted, frag.LeadingContext, frag.TrailingContext}
			if want := [6]int64{o, n, a, d, lead, trail}; got != want {
				return fmt.Sprintf("file %d fragment %d: counts %v, its lines have %v", i+1, k+1, got, want)
			}
		}
		_ = f.String() // must not panic
	}
	return ""
}

// others runs the other parsers over the text; all that is asked is that they return.
func others(s string) {
	for _, m := range []gitdiff.SubjectCleanMode{gitdiff.SubjectCleanAll, gitdiff.SubjectCleanPatchOnly, gitdiff.SubjectCleanWhitespace} {
		for _, p := range []string{"", "commit ", "From ", "From: ", "From: x <y>\nSubject: "} {
			h, err := gitdiff.ParsePatchHeader(p+s, gitdiff.WithSubjectCleanMode(m))
			if err == nil {
				_ = h.Message()
			}
		}
	}
	ls := splitLines(s)
	for i, l := range ls {
		if i > 20 {
			break
		}
		gitdiff.ParsePatchDate(string(l))
		if u, err := gitdiff.ParsePatchIdentity(string(l)); err == nil {
			_ = u.String()
		}
	}
	gitdiff.ParsePatchIdentity(s)
	gitdiff.ParsePatchDate(s)
}

func init() {
	// pieces chosen by the specification
	handlers["delivery"] = func(x *Ctx, raw []byte) Verdict {
		var c struct {
			ParseCase
			Cuts []int `json:"cuts"`
		}
		check(json.Unmarshal(raw, &c))
		s := joinStrs(c.In)
		whole, files := parseFrom(strings.NewReader(s))
		v := compareParse("C12", c.In, c.Res)
		v.Class = fmt.Sprintf("pieces=%d %s", len(c.Cuts), v.Class)
		if v.Why == "" {
			v.Why = wellBehaved(files)
		}
		for how, r := range readers(s, c.Cuts) {
			got, _ := parseFrom(r)
			if v.Why == "" {
				v.Why = sameParse(how, got, whole)
			}
		}
		return v
	}

	// arbitrary bytes
	handlers["total"] = func(x *Ctx, raw []byte) Verdict {
		var c struct {
			ParseCase
			Case struct {
				Kind string `json:"kind"`
				Free bool   `json:"free"` // outside the modelled syntax
				Cuts []int  `json:"cuts"`
			} `json:"case"`
		}
		check(json.Unmarshal(raw, &c))
		s := joinStrs(c.In)
		whole, files := parseFrom(strings.NewReader(s))
		v := Verdict{Class: c.Case.Kind}
		if whole.err != "" {
			v.Class += " err"
		}
		if !c.Case.Free {
			v.Why = judgeParse(x.Prop, c.In, c.Res, files, whole.pre, map[bool]error{true: fmt.Errorf("%s", whole.err)}[whole.err != ""]).Why
		}
		if v.Why == "" {
			v.Why = wellBehaved(files)
		}
		for how, r := range readers(s, c.Case.Cuts) {
			got, _ := parseFrom(r)
			if v.Why == "" {
				v.Why = sameParse(how, got, whole)
			}
		}
		others(s)
		return v
	}

	// texts for the other parsers, cut off after every byte
	handlers["totaltext"] = func(x *Ctx, raw []byte) Verdict {
		var c struct {
			S Str `json:"s"`
		}
		check(json.Unmarshal(raw, &c))
		s := string(c.S)
		for n := max(0, len(s)-150); n <= len(s); n++ {
			for _, m := range []gitdiff.SubjectCleanMode{gitdiff.SubjectCleanAll, gitdiff.SubjectCleanPatchOnly, gitdiff.SubjectCleanWhitespace} {
				if h, err := gitdiff.ParsePatchHeader(s[:n], gitdiff.WithSubjectCleanMode(m)); err == nil {
					_ = h.Message()
				}
			}
			if u, err := gitdiff.ParsePatchIdentity(s[:n]); err == nil {
				_ = u.String()
			}
			gitdiff.ParsePatchDate(s[:n])
		}
		gitdiff.Parse(strings.NewReader(s))
		return Verdict{Class: "text"}
	}

	// one piece repeated very often
	handlers["pump"] = func(x *Ctx, raw []byte) Verdict {
		var c struct {
			Pre, Unit, Mid, Suf Str
			At                  int
			Err                 bool
			M, Slope            []int
		}
		check(json.Unmarshal(raw, &c))
		v := Verdict{Class: "repeated"}
		big := []int{c.At, 1000, 70000, 300000}
		counts, mine := pumpCounts[x.Prop]
		if mine {
			big = big[:3]
		}
		blamed := !mine || pumpGroup(string(c.Pre), string(c.Unit)) == x.Prop
		if x.Tier == "thorough" {
			big = append(big, 1000000)
		}
		for _, n := range big {
			number := strings.NewReplacer("#", fmt.Sprint(n), "~", fmt.Sprint(n+1), "!", fmt.Sprint(2*n+1))
			s := number.Replace(string(c.Pre)) + strings.Repeat(string(c.Unit), n) + string(c.Mid)
			if c.Mid != "" {
				s += strings.Repeat(string(c.Unit), n)
			}
			s += string(c.Suf)
			t := time.Now()
			var r io.Reader = strings.NewReader(s)
			if n >= 300000 { // one that is buffered already
				b := bufio.NewReader(r)
				b.Peek(1)
				r = b
			}
			whole, files := parseFrom(r)
			got := measure(files)
			pre := 0
			if whole.err == "" {
				pre = strings.Count(whole.pre, "\n")
				if whole.pre != "" && !strings.HasSuffix(whole.pre, "\n") {
					pre++
				}
			}
			got = append(got[:16:16], append([]int{pre}, got[16:]...)...)
			// numbers and scores overflow, with the same outcome from then on
			want := make([]int, len(c.M))
			for i := range want {
				want[i] = c.M[i] + (n-c.At)*c.Slope[i]
			}
			what := fmt.Sprintf("%q + %d * %q + %q + %q", c.Pre, n, c.Unit, c.Mid, c.Suf)
			if mine { // of the counts only those the property is about
				if whole.err != "" && !c.Err && !blamed {
					return v
				}
				for i := range got {
					if !slices.Contains(counts, i) {
						got[i] = want[i]
					}
				}
			}
			if v.Why == "" && (blamed && (whole.err != "") != c.Err || fmt.Sprint(got) != fmt.Sprint(want)) {
				v.Why = fmt.Sprintf("%s: %s, measures %v; want error %v, measures %v", what, clip([]byte(whole.err)), got, c.Err, want)
			}
			if v.Why == "" && !mine {
				v.Why = wellBehaved(files)
			}
			if n <= 70000 && !mine {
				others(s)
			}
			if v.Why == "" && time.Since(t) > 30*time.Second {
				v.Why = fmt.Sprintf("%s takes %v", what, time.Since(t))
			}
		}
		return v
	}
}

// pumpCounts lists the counts each property is about.
var pumpCounts = map[string][]int{
	"C12": {0, 16}, "C13": {1, 2, 3, 4, 5, 6, 7, 8}, "C15": {11, 14, 15, 18, 19, 20, 21}, "C16": {9, 10}, "C17": {9, 10}, "C18": {12, 13, 17, 22},
}

// pumpGroup tells the property that is about what is repeated.
func pumpGroup(pre, unit string) string {
	has := strings.Contains
	switch {
	case has(pre, "GIT binary") || has(unit, "GIT binary"):
		return "C18"
	case has(unit, "diff --git ") || has(unit, "+++ "):
		return "C12"
	case has(pre, "@@ -") || has(unit, "@@"):
		return "C13"
	case strings.HasPrefix(pre, "--- "):
		return "C17"
	case strings.HasPrefix(pre, "diff --git ") && (!has(pre, "\n") || has(pre, " from ") || has(pre, " to ")):
		return "C16"
	case strings.HasPrefix(pre, "diff --git "):
		return "C15"
	}
	return "C12"
}

// measure counts everything in a result that can be counted (MCPump's Measure, but for the preamble).
func measure(files []*gitdiff.File) []int {
	m := make([]int, 22)
	m[0] = len(files)
	for _, f := range files {
		m[1] += len(f.TextFragments)
		for _, g := range f.TextFragments {
			m[2] += len(g.Lines)
			m[3] += int(g.LinesAdded)
			m[4] += int(g.LinesDeleted)
			m[5] += int(g.LeadingContext)
			m[6] += int(g.TrailingContext)
			m[7] += len(g.Comment)
			for _, l := range g.Lines {
				m[8] += len(l.Line)
			}
		}
		m[9] += len(f.OldName)
		m[10] += len(f.NewName)
		m[11] += len(f.OldOIDPrefix) + len(f.NewOIDPrefix)
		if f.BinaryFragment != nil {
			m[12]++
		}
		if f.ReverseBinaryFragment != nil {
			m[13]++
		}
		for _, b := range []*gitdiff.BinaryFragment{f.BinaryFragment, f.ReverseBinaryFragment} {
			if b != nil {
				m[16] += len(b.RawData)
			}
		}
		m[17] += int(f.OldMode) + int(f.NewMode)
		m[18] += f.Score
		for i, is := range []bool{f.IsCopy, f.IsRename, f.IsBinary} {
			if is {
				m[19+i]++
			}
		}
		if f.IsNew {
			m[14]++
		}
		if f.IsDelete {
			m[15]++
		}
	}
	return m
}
