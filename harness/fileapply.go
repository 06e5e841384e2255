package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"strconv"
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
)

// Whole files with every combination of contents (FileApply.tla).

type FileApplyCase struct {
	Src   []Str   `json:"src"`
	Size  Limb3   `json:"size"`
	Limit Limb3   `json:"limit"`
	Opts  []int64 `json:"opts"`
	File  struct {
		IsBin bool      `json:"isBin"`
		Frags []ApFrag  `json:"frags"`
		Bin   maybeFrag `json:"bin"`
		Rev   maybeFrag `json:"rev"`
		Hdr   string    `json:"hdr"`
	} `json:"file"`
	Sorted []ApFrag `json:"sorted"`
	Way    string   `json:"way"`
	Ap     struct {
		Out [][4]int64 `json:"out"`
		Err ApErr      `json:"err"`
	} `json:"ap"`
	Ba struct {
		Out  []BinSeg `json:"out"`
		Err  string   `json:"err"`
		Most Limb3    `json:"most"`
	} `json:"ba"`
}

// maybeFrag is a fragment or, as an empty sequence, none.
type maybeFrag struct{ f *BinFrag }

func (m *maybeFrag) UnmarshalJSON(b []byte) error {
	if bytes.HasPrefix(b, []byte("[")) {
		return nil
	}
	m.f = new(BinFrag)
	return json.Unmarshal(b, m.f)
}

func (m maybeFrag) real() *gitdiff.BinaryFragment {
	if m.f == nil {
		return nil
	}
	return m.f.real(nil)
}

func dressFile(f *gitdiff.File, hdr string, h uint64) {
	pick := func(ss ...string) string {
		h = h*6364136223846793005 + 1442695040888963407
		return ss[(h>>33)%uint64(len(ss))]
	}
	mode := func() os.FileMode {
		m, err := strconv.ParseUint(pick("0", "0", "100644", "100644", "100755", "120000", "160000", "40000", "20000000000"), 8, 32)
		check(err)
		return os.FileMode(m)
	}
	yes := func() bool { return pick("", "", "yes") != "" }
	switch hdr {
	case "wild1", "wild2":
		names := []string{"", "f", "f", "g", "/dev/null", "d/f", "f.bak", "a\nb", ".gitmodules"}
		f.OldName, f.NewName = pick(names...), pick(names...)
		f.IsNew, f.IsDelete, f.IsCopy, f.IsRename = yes(), yes(), yes(), yes()
		f.OldMode, f.NewMode = mode(), mode()
		ids := []string{"", "0000000", "e69de29", "e69de29", "1234567", strings.Repeat("0", 40), strings.Repeat("a", 40), strings.Repeat("b", 64), "x"}
		f.OldOIDPrefix, f.NewOIDPrefix = pick(ids...), pick(ids...)
		f.Score, _ = strconv.Atoi(pick("0", "0", "100", "100", "50", "-1", "1000"))
	case "same":
		f.OldName, f.NewName, f.OldMode, f.NewMode = "f", "f", os.FileMode(0o100644), os.FileMode(0o100644)
		f.OldOIDPrefix, f.NewOIDPrefix, f.Score = "1234567", "1234567", 100
	case "names":
		f.OldName, f.NewName = "f", "f"
		f.OldOIDPrefix, f.NewOIDPrefix = "0000000", "ffffff1"
	case "new":
		f.NewName, f.IsNew, f.NewMode = "f", true, os.FileMode(0o100644)
	case "delete":
		f.OldName, f.IsDelete, f.OldMode = "f", true, os.FileMode(0o100644)
	case "rename":
		f.OldName, f.NewName, f.IsRename, f.Score = "f", "g", true, 100
	case "copy":
		f.OldName, f.NewName, f.IsCopy, f.Score = "f", "/dev/null", true, 7
	case "mode":
		f.OldName, f.NewName, f.OldMode, f.NewMode = "f", "f", os.FileMode(0o100644), os.FileMode(0o120000)
	case "submodule":
		f.OldName, f.NewName, f.OldMode, f.NewMode = "f", "f", os.FileMode(0o160000), os.FileMode(0o160000)
		f.OldOIDPrefix, f.NewOIDPrefix = strings.Repeat("1", 40), strings.Repeat("2", 40)
	case "symlink":
		f.OldName, f.NewName, f.OldMode, f.NewMode = "f", "f", os.FileMode(0o120000), os.FileMode(0o120000)
	case "dir":
		f.NewName, f.IsNew, f.NewMode, f.OldMode = "d/f", true, os.FileMode(0o40000), os.ModeDir|0o755
	case "odd":
		f.OldName, f.NewName, f.IsNew, f.IsDelete = "a\n", "b", true, true
	}
}

func init() {
	handlers["fileapply"] = func(x *Ctx, raw []byte) Verdict {
		var c FileApplyCase
		check(json.Unmarshal(raw, &c))
		v := Verdict{Class: c.Way + " " + c.Ap.Err.Why + c.Ba.Err}
		src := expandAll(c.Src)
		if int64(len(src)) != c.Size.Int() {
			panic(fmt.Sprintf("harness: source of %d bytes, %d in the specification", len(src), c.Size.Int()))
		}
		bin := BinCase{Src: c.Size, Limit: c.Limit, Ba: c.Ba, X: &BinX{Src: []byte(src)}}
		f := &gitdiff.File{IsBinary: c.File.IsBin, TextFragments: realFrags(c.File.Frags),
			BinaryFragment: c.File.Bin.real(), ReverseBinaryFragment: c.File.Rev.real()}
		if c.File.Bin.f != nil {
			bin.Fr = *c.File.Bin.f
		}
		h := hash(string(raw))
		dressFile(f, c.File.Hdr, h)
		before := fileRec(f)
		var opts []gitdiff.ApplyOption
		for _, o := range c.Opts {
			opts = append(opts, gitdiff.WithMaxBinaryFragmentBytes(o))
		}
		ss, _ := sources(src, "", false)
		for _, k := range []uint64{h >> 8, h >> 16} {
			s := ss[k%uint64(len(ss))]
			how := "Apply on " + s.name
			var out bytes.Buffer
			err := gitdiff.Apply(&out, s.src, f, opts...)
			switch c.Way {
			case "refused":
				if err == nil || out.Len() > 0 {
					v.Why = fmt.Sprintf("%s: error %v and %d bytes for a file with contradictory contents", how, err, out.Len())
				} else if conflict(err) {
					v.Why = fmt.Sprintf("%s: %v is a conflict", how, err)
				}
			case "text", "copy":
				ap := ApCase{Src: c.Src, Frags: c.Sorted, Out: c.Ap.Out, Err: c.Ap.Err}
				v.Why = ap.judge(how, "C02", out.Bytes(), err, true)
			case "binary":
				s := &sink{ideal: bin.ideal()}
				s.Write(out.Bytes())
				v.Why = bin.judge(how, s, err)
			default:
				panic("harness: unknown way " + c.Way)
			}
			if v.Why != "" {
				return v
			}
		}
		if !sameJSON(before, fileRec(f)) {
			v.Why = "applying changed the file: " + strings.TrimSpace(short(fileRec(f)))
		}
		return v
	}
}
