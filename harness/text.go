package main

import (
	"encoding/json"
	"fmt"
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
)

// The text of files and of their parts (Format.tla).

type FileText struct {
	Text  Str `json:"text"`
	Frags []struct {
		Head Str `json:"head"`
		Text Str `json:"text"`
	} `json:"frags"`
	Bins []Str `json:"bins"`
}

func (t FileText) judge(f *gitdiff.File) string {
	differ := func(what string, got string, want Str) string {
		if got == string(want) {
			return ""
		}
		return fmt.Sprintf("text of %s: %q, want %q", what, got, string(want))
	}
	if why := differ("the file", f.String(), t.Text); why != "" {
		return why
	}
	if n := len(t.Text); n < 1<<16 && n%5 == 2 {
		f = agedFile(f, n/5)
		if why := differ("a file that was another one before", f.String(), t.Text); why != "" {
			return why
		}
	}
	if len(f.TextFragments) != len(t.Frags) {
		return "" // for the properties of the syntax to judge
	}
	var all strings.Builder
	for i, fr := range f.TextFragments {
		why := differ(fmt.Sprintf("the header of fragment %d", i+1), fr.Header(), t.Frags[i].Head)
		if why == "" {
			why = differ(fmt.Sprintf("fragment %d", i+1), fr.String(), t.Frags[i].Text)
		}
		lines := fr.Header() + "\n"
		for _, l := range fr.Lines {
			if l.String() != l.Op.String()+l.Line {
				why = fmt.Sprintf("text of a line: %q, of its operation: %q", l.String(), l.Op.String())
			}
			if l.NoEOL() == strings.HasSuffix(l.Line, "\n") {
				why = fmt.Sprintf("line %q: NoEOL is %v", l.Line, l.NoEOL())
			}
			if l.Old() != (l.Op != gitdiff.OpAdd) || l.New() != (l.Op != gitdiff.OpDelete) {
				why = fmt.Sprintf("line %q: Old is %v, New is %v", l.String(), l.Old(), l.New())
			}
			lines += l.String()
			if l.NoEOL() {
				lines += "\n\\ No newline at end of file\n"
			}
		}
		if why == "" && lines != fr.String() {
			why = fmt.Sprintf("text of fragment %d: %q, of its lines: %q", i+1, fr.String(), lines)
		}
		if why != "" {
			return why
		}
		all.WriteString(fr.String())
	}
	if !strings.HasSuffix(f.String(), all.String()) {
		return fmt.Sprintf("the file %q does not end with its fragments", f.String())
	}
	bins := []*gitdiff.BinaryFragment{f.BinaryFragment, f.ReverseBinaryFragment}
	for i, want := range t.Bins {
		if b := bins[i]; b != nil {
			if why := differ(fmt.Sprintf("binary fragment %d", i+1), b.String(), want); why != "" {
				return why
			}
		}
	}
	return ""
}

func init() {
	handlers["text"] = func(x *Ctx, raw []byte) Verdict {
		var k struct {
			ParseCase
			Ok    *[]FileRec `json:"ok"`
			Texts []FileText `json:"texts"`
			Case  struct {
				Free bool `json:"free"`
			} `json:"case"`
		}
		check(json.Unmarshal(raw, &k))
		recs := k.Res.Files
		if k.Ok != nil {
			recs = *k.Ok
		}
		v := Verdict{Class: fmt.Sprintf("files=%d", min(3, len(recs)))}
		if k.Case.Free {
			v.Class = "not modelled"
			return v
		}
		for i, r := range recs {
			t := k.Texts[i]
			v.Class += fmt.Sprintf(" %d+%d", min(2, len(t.Frags)), len(t.Bins))
			if v.Why == "" {
				v.Why = t.judge(r.real())
			}
		}
		return v
	}
}
