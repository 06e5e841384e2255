package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"regexp"
	"strconv"
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
)

type ParseRes struct {
	Err   bool      `json:"err"`
	Pre   int       `json:"pre"`
	Blame []int     `json:"blame"`
	Files []FileRec `json:"files"`
}

type ParseCase struct {
	In  []Str    `json:"in"`
	Res ParseRes `json:"res"`
}

func joinStrs(ss []Str) string {
	var b strings.Builder
	for _, s := range ss {
		b.WriteString(string(s))
	}
	return b.String()
}

// project keeps what the property talks about.
func project(prop string, f FileRec) FileRec {
	switch prop {
	case "C12":
		g := FileRec{Old: f.Old, New: f.New, IsBin: f.IsBin, Bin: f.Bin, Rev: f.Rev}
		for _, x := range f.Frags {
			g.Frags = append(g.Frags, FragRec{OPos: x.OPos, NPos: x.NPos, Lines: x.Lines})
		}
		return g
	case "C13", "C20":
		return FileRec{Frags: f.Frags}
	case "C15":
		g := f
		g.Frags, g.Bin, g.Rev = nil, BinRec{}, BinRec{}
		return g
	case "C16":
		return FileRec{Old: f.Old, New: f.New, IsNew: f.IsNew, IsDel: f.IsDel, IsCpy: f.IsCpy, IsRen: f.IsRen}
	case "C17":
		return FileRec{Old: f.Old, New: f.New, IsNew: f.IsNew, IsDel: f.IsDel}
	case "C18":
		return FileRec{IsBin: f.IsBin, Bin: f.Bin, Rev: f.Rev}
	}
	return f
}

func projectAll(prop string, fs []FileRec) []FileRec {
	out := []FileRec{}
	for _, f := range fs {
		out = append(out, project(prop, f))
	}
	return out
}

func short(v any) string {
	b, _ := json.Marshal(v)
	if len(b) > 700 {
		b = append(b[:700], "..."...)
	}
	return string(b)
}

func diffFiles(prop string, got, want []FileRec) string {
	got, want = projectAll(prop, got), projectAll(prop, want)
	if len(got) != len(want) {
		return fmt.Sprintf("%d files, want %d: %s", len(got), len(want), short(got))
	}
	for i := range got {
		if !sameJSON(got[i], want[i]) {
			return fmt.Sprintf("file %d: got %s want %s", i+1, short(got[i]), short(want[i]))
		}
	}
	return ""
}

func sameJSON(a, b any) bool {
	if reflect.DeepEqual(a, b) {
		return true
	}
	x, _ := json.Marshal(a)
	y, _ := json.Marshal(b)
	return string(x) == string(y)
}

// compareParse runs the parser and compares with the predicted result.
func compareParse(prop string, in []Str, want ParseRes) Verdict {
	files, pre, err := gitdiff.Parse(strings.NewReader(joinStrs(in)))
	v := judgeParse(prop, in, want, files, pre, err)
	if v.Why != "" {
		return v
	}
	switch prop {
	case "C12", "C13", "C20":
		if in, want, n, ok := stretch(in, want); ok {
			files, pre, err := gitdiff.Parse(strings.NewReader(joinStrs(in)))
			if v.Why = judgeParse(prop, in, want, files, pre, err).Why; v.Why != "" {
				v.Why = fmt.Sprintf("with a line of %d bytes: %s", n, v.Why)
			}
		}
	}
	return v
}

var stretches = []int{100, 256, 1000, 4090, 4096, 8192, 32768, 65530, 65536, 70000, 131072}

// stretch makes a line of one fragment longer, here and in what is expected: the
// content of such a line plays no part in what the specification decides. It
// takes a line that occurs only once, in a few of all cases.
func stretch(in []Str, want ParseRes) ([]Str, ParseRes, int, bool) {
	h := hash(joinStrs(in))
	if h%40 != 0 {
		return nil, want, 0, false
	}
	count := map[Str]int{}
	for _, l := range in {
		count[l]++
	}
	type place struct{ file, frag, line int }
	places := map[Str][]place{}
	for i, f := range want.Files {
		for j, g := range f.Frags {
			for k, l := range g.Lines {
				s := Str(l.Op) + l.Text
				places[s] = append(places[s], place{i, j, k})
			}
		}
	}
	for i, l := range in {
		at := places[l]
		if count[l] != 1 || len(at) != 1 || len(l) < 3 || l[len(l)-1] != '\n' {
			continue
		}
		n := stretches[h/40%uint64(len(stretches))]
		long := l[:len(l)-1] + Str(strings.Repeat("0123456789abcde.", n/16+1)[:n]) + "\n"
		in = append([]Str(nil), in...)
		in[i] = long
		files := append([]FileRec(nil), want.Files...)
		f := &files[at[0].file]
		f.Frags = append([]FragRec(nil), f.Frags...)
		g := &f.Frags[at[0].frag]
		g.Lines = append([]LineRec(nil), g.Lines...)
		g.Lines[at[0].line].Text = long[1:]
		want.Files = files
		return in, want, n, true
	}
	return nil, want, 0, false
}

func judgeParse(prop string, in []Str, want ParseRes, files []*gitdiff.File, pre string, err error) Verdict {
	class := fmt.Sprintf("files=%d", len(want.Files))
	if want.Err {
		class += " err"
	}
	v := Verdict{Class: class}
	if prop == "C27" {
		v.Why = blame(err, want, 0)
		text := joinStrs(in)
		h := hash(text)
		for i := 0; i < 2 && v.Why == "" && want.Err; i++ { // the same after other text
			before := leadIn(h>>uint(i*20), i == 0)
			_, _, err := gitdiff.Parse(strings.NewReader(before + text))
			v.Why = blame(err, want, strings.Count(before, "\n"))
		}
		return v
	}
	if (err != nil) != want.Err {
		v.Why = fmt.Sprintf("error %v, want error: %v", err, want.Err)
		return v
	}
	if v.Why = diffFiles(prop, fileRecs(files), want.Files); v.Why != "" {
		return v
	}
	if !want.Err || len(want.Files) > 0 {
		wp := joinStrs(in[:want.Pre])
		if pre != wp && (prop == "C12" || prop == "C17") {
			v.Why = fmt.Sprintf("preamble %q, want %q", pre, wp)
		}
	}
	return v
}

var atLine = regexp.MustCompile(`^gitdiff: line ([0-9]+): .`)

var leadIns = []string{
	"", "text\n", "\n", "\r\n", " \n", "--- x\n+++ y\ntext\n", "@@ -x @@\ntext\n",
	"diff --git a/f b/g\nsimilarity index 90%\nrename from f\nrename to g\n",
	"diff --git a/f b/f\nold mode 100644\nnew mode 100755\n",
	"diff --git a/f b/f\nindex 1..2\nBinary files a/f and b/f differ\n",
	"diff --git a/f b/f\nindex 1..2 100644\n--- a/f\n+++ b/f\n@@ -1,3 +1,3 @@ x\n a\n-b\n+c\n\n@@ -9 +9,0 @@\n-d\n\\ No newline at end of file\n",
	"--- f\t1999\n+++ f\t2000\n@@ -1 +1 @@\n-a\n\\ No newline at end of file\n+b\n\\ No newline at end of file\n",
	"diff --git a/f b/f\nindex 1..2\nGIT binary patch\nliteral 1\nIcmZQzWB>pF0RR91\n\n",
	"diff --git a/f b/f\nindex 1..2\nGIT binary patch\nliteral 1\nIcmZQzWB>pF0RR91\n\nliteral 0\nHcmV?d00001\n\n",
	"diff --git a/f b/f\nindex 1..2\nGIT binary patch\ndelta 0\n\nliteral 0\nHcmV?d00001\n\n",
}

// leadIn is text that can stand before any patch: lines and whole files in
// any order, each followed by lines that belong to none of them.
func leadIn(h uint64, long bool) string {
	if long && h%64 == 0 {
		return strings.Repeat("text\n", 70000)
	}
	var b strings.Builder
	for k := h % 7; k > 0; k-- {
		h = h/7*0x9e3779b97f4a7c15 + k
		x := leadIns[h>>33%uint64(len(leadIns))]
		b.WriteString(strings.Repeat(x, int(1+h>>50%3)))
		b.WriteString(strings.Repeat("\n", int(h>>55%4)))
		b.WriteString("text\n")
	}
	return b.String()
}

// blame judges the line that a syntax error names, with so many lines before it.
func blame(err error, want ParseRes, before int) string {
	if err == nil || !want.Err {
		return "" // for the properties of the syntax to judge
	}
	m := atLine.FindStringSubmatch(err.Error())
	if m == nil {
		return fmt.Sprintf("error %q does not name a line", err)
	}
	at, _ := strconv.Atoi(m[1])
	if at < before+want.Blame[0] || at > before+want.Blame[1] {
		return fmt.Sprintf("error %q, want line %d to %d", err, before+want.Blame[0], before+want.Blame[1])
	}
	return ""
}

func init() {
	handlers["parse"] = func(c *Ctx, raw []byte) Verdict {
		var k struct {
			ParseCase
			Case struct {
				Free bool `json:"free"` // outside the modelled syntax
			} `json:"case"`
		}
		check(json.Unmarshal(raw, &k))
		if k.Case.Free {
			return Verdict{Class: "not modelled"}
		}
		return compareParse(c.Prop, k.In, k.Res)
	}
}

// roundTrip formats every file, parses the text again and compares.
func roundTrip(prop string, files []*gitdiff.File) string {
	var all strings.Builder
	for i, f := range files {
		want := project(prop, fileRec(f))
		text := f.String()
		all.WriteString(text)
		if !sameJSON(want, project(prop, fileRec(f))) {
			return fmt.Sprintf("file %d: changed by formatting", i+1)
		}
		back, pre, err := gitdiff.Parse(strings.NewReader(text))
		if err != nil {
			return fmt.Sprintf("file %d: formatted text does not parse: %v: %q", i+1, err, text)
		}
		if len(back) != 1 || pre != "" {
			return fmt.Sprintf("file %d: formatted text has %d files, preamble %q", i+1, len(back), pre)
		}
		if got := project(prop, fileRec(back[0])); !sameJSON(got, want) {
			return fmt.Sprintf("file %d: reparsed as %s, was %s", i+1, short(got), short(want))
		}
		if again := back[0].String(); again != text && prop == "C19" {
			return fmt.Sprintf("file %d: formatting again gives %q, was %q", i+1, again, text)
		}
	}
	back, pre, err := gitdiff.Parse(strings.NewReader(all.String()))
	if err != nil {
		return fmt.Sprintf("concatenated text does not parse: %v", err)
	}
	if pre != "" {
		return fmt.Sprintf("concatenated text has preamble %q", pre)
	}
	return diffFiles(prop, fileRecs(back), fileRecs(files))
}

func init() {
	handlers["format"] = func(c *Ctx, raw []byte) Verdict {
		var k ParseCase
		check(json.Unmarshal(raw, &k))
		files, _, err := gitdiff.Parse(strings.NewReader(joinStrs(k.In)))
		v := Verdict{Class: fmt.Sprintf("files=%d", len(k.Res.Files))}
		if err != nil || k.Res.Err {
			v.Why = fmt.Sprintf("a well-formed patch does not parse: %v", err)
			return v
		}
		v.Why = roundTrip(c.Prop, files)
		if v.Why == "" { // the files the model predicts, built by hand
			var made []*gitdiff.File
			for _, r := range k.Res.Files {
				made = append(made, r.real())
			}
			if v.Why = roundTrip(c.Prop, made); v.Why != "" {
				v.Why = "predicted file: " + v.Why
			}
		}
		return v
	}
}

func init() {
	// files of any patch, formatted and parsed again; the specification says
	// which of them survive
	handlers["reformat"] = func(c *Ctx, raw []byte) Verdict {
		var k struct {
			ParseCase
			Ok   []FileRec `json:"ok"`
			All  bool      `json:"all"`
			Case struct {
				Kind string `json:"kind"`
				Free bool   `json:"free"`
			} `json:"case"`
		}
		check(json.Unmarshal(raw, &k))
		v := Verdict{Class: fmt.Sprintf("%s files=%d lost=%d", k.Case.Kind, min(3, len(k.Ok)), min(1, len(k.Res.Files)-len(k.Ok)))}
		if k.Case.Free {
			v.Class = "not modelled"
			return v
		}
		files, _, _ := gitdiff.Parse(strings.NewReader(joinStrs(k.In)))
		want := map[string]bool{}
		for _, f := range k.Ok {
			b, err := json.Marshal(f)
			check(err)
			want[string(b)] = true
		}
		var kept, made []*gitdiff.File
		for _, f := range files {
			b, err := json.Marshal(fileRec(f))
			check(err)
			if want[string(b)] {
				kept = append(kept, f)
			}
		}
		for _, r := range k.Ok {
			made = append(made, r.real())
		}
		for i, fs := range [][]*gitdiff.File{kept, made} {
			how := []string{"parsed", "predicted"}[i]
			if k.All {
				v.Why = roundTrip(c.Prop, fs)
			}
			for _, f := range fs {
				if v.Why == "" {
					v.Why = roundTrip(c.Prop, []*gitdiff.File{f})
				}
			}
			if v.Why != "" {
				v.Why = how + ": " + v.Why
				break
			}
		}
		return v
	}
}
