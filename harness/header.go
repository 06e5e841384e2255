package main

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
	"time"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
)

type IdentRec struct {
	Ok    bool `json:"ok"`
	Name  Str  `json:"name"`
	Email Str  `json:"email"`
}

func plainName(s string) bool {
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '"', '\\', '(', ')', '<', '>':
			return false
		}
	}
	return true
}

func judgeIdentity(s string, want IdentRec) string {
	u, err := gitdiff.ParsePatchIdentity(s)
	if (err == nil) != want.Ok {
		return fmt.Sprintf("%q: %+v, error %v, want ok: %v", s, u, err, want.Ok)
	}
	if err != nil {
		return ""
	}
	if u.Name != string(want.Name) || u.Email != string(want.Email) {
		return fmt.Sprintf("%q: name %q address %q, want %q and %q", s, u.Name, u.Email, want.Name, want.Email)
	}
	if !plainName(u.Name) || !plainName(u.Email) {
		return ""
	}
	if b, err := gitdiff.ParsePatchIdentity(u.String()); err != nil || b != u {
		return fmt.Sprintf("%q: %+v has the text form %q, which parses to %+v, %v", s, u, u.String(), b, err)
	}
	return ""
}

type DateRec struct {
	Is   string `json:"is"`
	Unix string `json:"unix"`
	Zone string `json:"zone"`
	Off  int    `json:"off"`
}

func sameDate(t time.Time, want DateRec) bool {
	switch want.Is {
	case "zero":
		return t.IsZero()
	case "yes":
		if strconv.FormatInt(t.Unix(), 10) != want.Unix || t.Nanosecond() != 0 {
			return false
		}
		_, off := t.Zone()
		return want.Zone == "any" || off == want.Off*60
	}
	return false
}

func judgeDate(s string, want DateRec) string {
	t, err := gitdiff.ParsePatchDate(s)
	switch {
	case want.Is == "unclear":
		return ""
	case (err != nil) != (want.Is == "no"):
	case err != nil && t.IsZero():
		return ""
	case err == nil && sameDate(t, want):
		return ""
	}
	return fmt.Sprintf("%q: %v (%d), error %v, want %+v", s, t, t.Unix(), err, want)
}

type HeaderRec struct {
	Is        string   `json:"is"`
	Sha       Str      `json:"sha"`
	Author    IdentRec `json:"author"`
	Adate     DateRec  `json:"adate"`
	Committer IdentRec `json:"committer"`
	Cdate     DateRec  `json:"cdate"`
	Title     Str      `json:"title"`
	Prefix    Str      `json:"prefix"`
	Body      Str      `json:"body"`
	Appendix  Str      `json:"appendix"`
	Message   Str      `json:"message"`
}

func sameIdent(u *gitdiff.PatchIdentity, want IdentRec) bool {
	if u == nil {
		return !want.Ok
	}
	return want.Ok && u.Name == string(want.Name) && u.Email == string(want.Email)
}

func diffHeader(h *gitdiff.PatchHeader, want HeaderRec) string {
	if h == nil {
		return "no header"
	}
	var why []string
	text := func(what, got string, want Str) {
		if got != string(want) {
			why = append(why, fmt.Sprintf("%s %q, want %q", what, got, want))
		}
	}
	text("commit id", h.SHA, want.Sha)
	text("title", h.Title, want.Title)
	text("prefix", h.SubjectPrefix, want.Prefix)
	text("body", h.Body, want.Body)
	text("appendix", h.BodyAppendix, want.Appendix)
	text("message", h.Message(), want.Message)
	if !sameIdent(h.Author, want.Author) {
		why = append(why, fmt.Sprintf("author %+v, want %+v", h.Author, want.Author))
	}
	if !sameIdent(h.Committer, want.Committer) {
		why = append(why, fmt.Sprintf("committer %+v, want %+v", h.Committer, want.Committer))
	}
	if !sameDate(h.AuthorDate, want.Adate) {
		why = append(why, fmt.Sprintf("author date %v, want %+v", h.AuthorDate, want.Adate))
	}
	if !sameDate(h.CommitterDate, want.Cdate) {
		why = append(why, fmt.Sprintf("committer date %v, want %+v", h.CommitterDate, want.Cdate))
	}
	return strings.Join(why, "; ")
}

func judgeHeader(s, mode string, want HeaderRec) string {
	var opts []gitdiff.PatchHeaderOption
	switch mode {
	case "space":
		opts = append(opts, gitdiff.WithSubjectCleanMode(gitdiff.SubjectCleanWhitespace))
	case "patch":
		opts = append(opts, gitdiff.WithSubjectCleanMode(gitdiff.SubjectCleanPatchOnly))
	case "all":
		opts = append(opts, gitdiff.WithSubjectCleanMode(gitdiff.SubjectCleanAll))
	}
	h, err := gitdiff.ParsePatchHeader(s, opts...)
	switch want.Is {
	case "unclear":
		return ""
	case "no":
		if err == nil {
			return fmt.Sprintf("%q parsed as %+v, want an error", s, *h)
		}
		return ""
	}
	if err != nil {
		return fmt.Sprintf("%q: %v, want %+v", s, err, want)
	}
	if want.Is == "empty" && *h != (gitdiff.PatchHeader{}) {
		return fmt.Sprintf("%q: %+v, want an empty header", s, *h)
	}
	if why := diffHeader(h, want); why != "" {
		return fmt.Sprintf("%q in mode %q: %s", s, mode, why)
	}
	if mode == "all" {
		// the default mode
		if d, err := gitdiff.ParsePatchHeader(s); err != nil || diffHeader(d, want) != "" {
			return fmt.Sprintf("%q without options: %+v, error %v, want %+v", s, d, err, want)
		}
	}
	return ""
}

// a letter of a message means the same when there are 70,000 of it
func judgeLong(s, mode string, want HeaderRec) string {
	const letter = "d"
	long := strings.Repeat(letter, 70000)
	in := strings.Count(s, letter)
	if in == 0 || in > 3 || in != strings.Count(string(want.Title+want.Body+want.Appendix), letter) {
		return ""
	}
	for _, f := range []*Str{&want.Title, &want.Body, &want.Appendix, &want.Message} {
		*f = Str(strings.ReplaceAll(string(*f), letter, long))
	}
	why := judgeHeader(strings.ReplaceAll(s, letter, long), mode, want)
	if why == "" {
		return ""
	}
	return fmt.Sprintf("%q in mode %q with %q replaced by 70,000 of it: %.300s", s, mode, letter, why)
}

func init() {
	handlers["header"] = func(x *Ctx, raw []byte) Verdict {
		var c struct {
			S    Str       `json:"s"`
			Mode string    `json:"mode"`
			Want HeaderRec `json:"want"`
		}
		check(json.Unmarshal(raw, &c))
		v := Verdict{Class: c.Want.Is, Why: judgeHeader(string(c.S), c.Mode, c.Want)}
		if v.Why == "" && c.Want.Is == "yes" && len(raw)%16 == 0 {
			v.Why = judgeLong(string(c.S), c.Mode, c.Want)
		}
		return v
	}
	handlers["date"] = func(x *Ctx, raw []byte) Verdict {
		var c struct {
			S    Str     `json:"s"`
			Want DateRec `json:"want"`
		}
		check(json.Unmarshal(raw, &c))
		return Verdict{Class: c.Want.Is, Why: judgeDate(string(c.S), c.Want)}
	}
	handlers["identity"] = func(x *Ctx, raw []byte) Verdict {
		var c struct {
			S Str      `json:"s"`
			U IdentRec `json:"u"`
		}
		check(json.Unmarshal(raw, &c))
		return Verdict{Class: fmt.Sprintf("ok=%v", c.U.Ok), Why: judgeIdentity(string(c.S), c.U)}
	}
}
