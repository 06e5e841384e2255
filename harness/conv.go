package main

import (
	"encoding/json"
	"os"
	"strconv"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
)

// Str is a byte string. In JSON every byte is one code point in 0..255, the
// form the specification uses.
type Str string

func (s Str) MarshalJSON() ([]byte, error) {
	r := make([]rune, len(s))
	for i := 0; i < len(s); i++ {
		r[i] = rune(s[i])
	}
	return json.Marshal(string(r))
}

func (s *Str) UnmarshalJSON(b []byte) error {
	var v string
	if err := json.Unmarshal(b, &v); err != nil {
		return err
	}
	out := make([]byte, 0, len(v))
	for _, r := range v {
		out = append(out, byte(r))
	}
	*s = Str(out)
	return nil
}

// Ints is a byte slice written as an array of numbers.
type Ints []byte

func (s Ints) MarshalJSON() ([]byte, error) {
	out := []byte{'['}
	for i, b := range s {
		if i > 0 {
			out = append(out, ',')
		}
		out = strconv.AppendInt(out, int64(b), 10)
	}
	return append(out, ']'), nil
}

func (s *Ints) UnmarshalJSON(b []byte) error {
	var v []int
	if err := json.Unmarshal(b, &v); err != nil {
		return err
	}
	out := make([]byte, len(v))
	for i, x := range v {
		out[i] = byte(x)
	}
	*s = out
	return nil
}

type LineRec struct {
	Op   string `json:"op"`
	Text Str    `json:"text"`
}

type FragRec struct {
	Comment Str       `json:"comment"`
	OPos    string    `json:"opos"`
	OLines  string    `json:"olines"`
	NPos    string    `json:"npos"`
	NLines  string    `json:"nlines"`
	Added   int64     `json:"added"`
	Deleted int64     `json:"deleted"`
	Lead    int64     `json:"lead"`
	Trail   int64     `json:"trail"`
	Lines   []LineRec `json:"lines"`
}

type BinRec struct {
	Method string `json:"method"`
	Size   string `json:"size"`
	Data   Ints   `json:"data"`
}

type FileRec struct {
	Old   Str       `json:"old"`
	New   Str       `json:"new"`
	IsNew bool      `json:"isNew"`
	IsDel bool      `json:"isDel"`
	IsCpy bool      `json:"isCopy"`
	IsRen bool      `json:"isRen"`
	OMode int64     `json:"omode"`
	NMode int64     `json:"nmode"`
	OOid  Str       `json:"ooid"`
	NOid  Str       `json:"noid"`
	Score int       `json:"score"`
	Frags []FragRec `json:"frags"`
	IsBin bool      `json:"isBin"`
	Bin   BinRec    `json:"bin"`
	Rev   BinRec    `json:"rev"`
}

func itoa(n int64) string { return strconv.FormatInt(n, 10) }

func atoi(s string) int64 {
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		panic(err)
	}
	return n
}

func fragRec(f *gitdiff.TextFragment) FragRec {
	r := FragRec{
		Comment: Str(f.Comment), OPos: itoa(f.OldPosition), OLines: itoa(f.OldLines),
		NPos: itoa(f.NewPosition), NLines: itoa(f.NewLines), Added: f.LinesAdded,
		Deleted: f.LinesDeleted, Lead: f.LeadingContext, Trail: f.TrailingContext,
		Lines: []LineRec{},
	}
	for _, l := range f.Lines {
		op := "?" + strconv.Itoa(int(l.Op))
		switch l.Op {
		case gitdiff.OpContext:
			op = " "
		case gitdiff.OpAdd:
			op = "+"
		case gitdiff.OpDelete:
			op = "-"
		}
		r.Lines = append(r.Lines, LineRec{op, Str(l.Line)})
	}
	return r
}

func binRec(f *gitdiff.BinaryFragment) BinRec {
	if f == nil {
		return BinRec{"none", "0", Ints{}}
	}
	m := "?"
	switch f.Method {
	case gitdiff.BinaryPatchDelta:
		m = "delta"
	case gitdiff.BinaryPatchLiteral:
		m = "literal"
	}
	return BinRec{m, itoa(f.Size), append(Ints{}, f.RawData...)}
}

func fileRec(f *gitdiff.File) FileRec {
	r := FileRec{
		Old: Str(f.OldName), New: Str(f.NewName), IsNew: f.IsNew, IsDel: f.IsDelete,
		IsCpy: f.IsCopy, IsRen: f.IsRename, OMode: int64(f.OldMode), NMode: int64(f.NewMode),
		OOid: Str(f.OldOIDPrefix), NOid: Str(f.NewOIDPrefix), Score: f.Score,
		Frags: []FragRec{}, IsBin: f.IsBinary, Bin: binRec(f.BinaryFragment), Rev: binRec(f.ReverseBinaryFragment),
	}
	for _, x := range f.TextFragments {
		if x == nil {
			r.Frags = append(r.Frags, FragRec{Comment: "NIL FRAGMENT"})
			continue
		}
		r.Frags = append(r.Frags, fragRec(x))
	}
	return r
}

func fileRecs(fs []*gitdiff.File) []FileRec {
	out := []FileRec{}
	for _, f := range fs {
		if f == nil {
			out = append(out, FileRec{Old: "NIL FILE"})
			continue
		}
		out = append(out, fileRec(f))
	}
	return out
}

func (r FragRec) real() *gitdiff.TextFragment {
	f := &gitdiff.TextFragment{
		Comment: string(r.Comment), OldPosition: atoi(r.OPos), OldLines: atoi(r.OLines),
		NewPosition: atoi(r.NPos), NewLines: atoi(r.NLines), LinesAdded: r.Added,
		LinesDeleted: r.Deleted, LeadingContext: r.Lead, TrailingContext: r.Trail,
	}
	for _, l := range r.Lines {
		var op gitdiff.LineOp
		switch l.Op {
		case " ":
			op = gitdiff.OpContext
		case "+":
			op = gitdiff.OpAdd
		case "-":
			op = gitdiff.OpDelete
		default:
			op = gitdiff.LineOp(7)
		}
		f.Lines = append(f.Lines, gitdiff.Line{Op: op, Line: string(l.Text)})
	}
	return f
}

func (r BinRec) real() *gitdiff.BinaryFragment {
	f := &gitdiff.BinaryFragment{Size: atoi(r.Size), RawData: append([]byte(nil), r.Data...)}
	switch r.Method {
	case "none":
		return nil
	case "literal":
		f.Method = gitdiff.BinaryPatchLiteral
	case "delta":
		f.Method = gitdiff.BinaryPatchDelta
	default:
		f.Method = gitdiff.BinaryPatchMethod(9)
	}
	return f
}

func (r FileRec) real() *gitdiff.File {
	f := &gitdiff.File{
		OldName: string(r.Old), NewName: string(r.New), IsNew: r.IsNew, IsDelete: r.IsDel,
		IsCopy: r.IsCpy, IsRename: r.IsRen, OldMode: os.FileMode(r.OMode), NewMode: os.FileMode(r.NMode),
		OldOIDPrefix: string(r.OOid), NewOIDPrefix: string(r.NOid), Score: r.Score, IsBinary: r.IsBin,
		BinaryFragment: r.Bin.real(), ReverseBinaryFragment: r.Rev.real(),
	}
	for _, x := range r.Frags {
		f.TextFragments = append(f.TextFragments, x.real())
	}
	return f
}

// Limb3 is a number as three limbs in base 2^21, least significant first.
type Limb3 []int64

func (l Limb3) Int() int64 {
	if len(l) != 3 {
		panic("harness: not a number")
	}
	return l[0] | l[1]<<21 | l[2]<<42
}

func limbs(n int64) Limb3 {
	const m = 1<<21 - 1
	return Limb3{n & m, (n >> 21) & m, n >> 42}
}
