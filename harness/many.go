package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
)

// skipSize gives what follows a delta size.
func skipSize(d []byte) []byte {
	for len(d) > 0 && d[0] >= 0x80 {
		d = d[1:]
	}
	return d[1:]
}

// manydelta repeats the instructions of a delta until they fill megabytes, which
// repeats the content (MCDeltaMany).
func init() {
	handlers["manydelta"] = func(x *Ctx, raw []byte) Verdict {
		var c BinCase
		check(json.Unmarshal(raw, &c))
		v := Verdict{Class: "many"}
		if c.Src.Int() > 1<<26 {
			v.Class = "skipped"
			return v
		}
		body := skipSize(skipSize([]byte(c.Fr.Delta)))
		one := c.ideal()
		if len(body) == 0 || len(one) == 0 {
			v.Class = "empty"
			return v
		}
		k := min(3<<20/len(body), 96<<20/len(one)) + 2
		g := &Gen{}
		for _, extra := range []int{0, 1} {
			d := append(g.varintMin(int(c.Src.Int())), g.varintMin(len(one)*k+extra)...)
			d = append(d, bytes.Repeat(body, k)...)
			f := &gitdiff.BinaryFragment{Method: gitdiff.BinaryPatchDelta, Size: int64(len(d)), RawData: deflate(d)}
			s := &sink{ideal: bytes.Repeat(one, k)}
			err := gitdiff.Apply(s, c.source(k+extra), &gitdiff.File{OldName: "f", NewName: "f", IsBinary: true, BinaryFragment: f},
				gitdiff.WithMaxBinaryFragmentBytes(-1))
			what := fmt.Sprintf("%d repetitions of %d bytes of instructions", k, len(body))
			switch {
			case s.wrong:
				v.Why = what + " write wrong bytes"
			case extra == 0 && (err != nil || s.n != int64(len(s.ideal))):
				v.Why = fmt.Sprintf("%s write %d bytes of %d, error %v", what, s.n, len(s.ideal), err)
			case extra == 1 && (err == nil || conflict(err)):
				v.Why = fmt.Sprintf("%s for less than announced: error %v", what, err)
			}
			if v.Why != "" {
				return v
			}
		}
		return v
	}
}

// manyedits are edits of hundreds of fragments, the damage to the source anywhere.
func init() {
	generators["manyedits"] = func(g *Gen) {
		for i := 0; i < g.N; i++ {
			c := g.longEdit(6+g.intn(30), 2000+g.intn(6000), 1+g.intn(9), false)
			switch {
			case c.Damaged || g.Prop == "C01" || g.chance(15):
			case g.chance(20): // cut short
				c.Src = c.Src[:len(c.Src)-g.intn(len(c.Src)*2/3)]
				c.Damaged = true
			default:
				f := c.Listed[g.intn(len(c.Listed))]
				at := int(f.OPos) - 1 + g.intn(int(f.OLines))
				c.Src[at] = Str(fmt.Sprintf("other %d\n", i))
				c.Damaged = true
			}
			if g.chance(20) { // listed in any order
				for j := range c.Listed {
					k := g.intn(j + 1)
					c.Listed[j], c.Listed[k] = c.Listed[k], c.Listed[j]
				}
			}
			g.emit(c)
		}
	}
}

// insertions are edits with up to four insertions after each line, which is
// replaced at times; all are listed in any order, those of a place in theirs.
func init() {
	generators["insertions"] = func(g *Gen) {
		for i := 0; i < g.N; i++ {
			c := EditCase{Src: []Str{}, New: []Str{}, Listed: []ApFrag{}}
			fresh := 0
			count := 1 + g.intn(40)
			if g.chance(30) {
				count = 1 + g.intn(6)
			}
			for at := int64(1); at <= int64(count); at++ {
				old := Str(fmt.Sprintf("%d\n", at))
				c.Src = append(c.Src, old)
				line := func(f *ApFrag) {
					fresh++
					t := Str(fmt.Sprintf("new %d\n", fresh))
					c.New = append(c.New, t)
					f.Lines = append(f.Lines, LineRec{"+", t})
					f.NLines++
				}
				if g.chance(25) {
					f := ApFrag{OPos: at, OLines: 1, NPos: int64(len(c.New) + 1), Lines: []LineRec{{"-", old}}}
					line(&f)
					c.Listed = append(c.Listed, f)
				} else {
					c.New = append(c.New, old)
				}
				for k := max(0, g.intn(7)-2); k > 0; k-- {
					f := ApFrag{OPos: at, NPos: int64(len(c.New) + 1)}
					for n := g.intn(2); n >= 0; n-- {
						line(&f)
					}
					c.Listed = append(c.Listed, f)
				}
			}
			places := make([]int64, len(c.Listed))
			for j, f := range c.Listed {
				places[j] = f.OPos*2 + 1 - f.OLines
			}
			byPlace := map[int64][]ApFrag{}
			for j, f := range c.Listed {
				byPlace[places[j]] = append(byPlace[places[j]], f)
			}
			g.rng().Shuffle(len(places), func(a, b int) { places[a], places[b] = places[b], places[a] })
			for j, p := range places {
				c.Listed[j] = byPlace[p][0]
				byPlace[p] = byPlace[p][1:]
			}
			g.emit(c)
		}
	}
}

// textpump repeats a piece of a preamble or an identity a great many times
// (MCPumpText).
func init() {
	handlers["textpump"] = func(x *Ctx, raw []byte) Verdict {
		var c struct {
			Pre, Unit, Suf Str
			Mode, Kind     string
			At             int
			Want           json.RawMessage
			Grow           []struct{ P, U, S Str }
		}
		check(json.Unmarshal(raw, &c))
		v := Verdict{Class: c.Kind}
		for _, n := range []int{c.At, c.At + 1, 70, 300, 5000, 70000} {
			at := func(i int) Str {
				g := c.Grow[i]
				return g.P + Str(strings.Repeat(string(g.U), n-c.At)) + g.S
			}
			s := string(c.Pre) + strings.Repeat(string(c.Unit), n) + string(c.Suf)
			if c.Kind == "identity" {
				var want struct{ U IdentRec }
				check(json.Unmarshal(c.Want, &want))
				want.U.Name, want.U.Email = at(0), at(1)
				v.Why = judgeIdentity(s, want.U)
			} else {
				var want HeaderRec
				check(json.Unmarshal(c.Want, &want))
				for i, p := range []*Str{&want.Sha, &want.Author.Name, &want.Author.Email, &want.Committer.Name, &want.Committer.Email,
					&want.Title, &want.Prefix, &want.Body, &want.Appendix, &want.Message} {
					*p = at(i)
				}
				v.Why = judgeHeader(s, c.Mode, want)
			}
			if v.Why != "" {
				v.Why = fmt.Sprintf("%q + %d * %q + %q: %s", c.Pre, n, c.Unit, c.Suf, clip([]byte(v.Why)))
				return v
			}
		}
		return v
	}
}

// formatpump parses and formats patches that repeat a piece a great many times
// (MCPumpFormat).
func init() {
	handlers["formatpump"] = func(x *Ctx, raw []byte) Verdict {
		var c struct {
			Pre, Unit, Mid, Suf Str
			Counted, Back       bool
			At                  int
			Grow                []struct{ P, U, S Str }
		}
		check(json.Unmarshal(raw, &c))
		v := Verdict{Class: fmt.Sprintf("back=%v", c.Back)}
		for _, n := range []int{c.At, 300, 5000, 70000} {
			number := func(s string) string { return s }
			if c.Counted {
				number = strings.NewReplacer("#", fmt.Sprint(n), "~", fmt.Sprint(n+1), "!", fmt.Sprint(2*n+1)).Replace
			}
			in := number(string(c.Pre)) + strings.Repeat(string(c.Unit), n) + string(c.Mid)
			if c.Mid != "" {
				in += strings.Repeat(string(c.Unit), n)
			}
			in += string(c.Suf)
			var want, got strings.Builder
			for _, g := range c.Grow {
				want.WriteString(number(string(g.P)))
				want.WriteString(strings.Repeat(string(g.U), n-c.At))
				want.WriteString(number(string(g.S)))
			}
			what := fmt.Sprintf("%q + %d * %q + %q + %q", c.Pre, n, clip([]byte(c.Unit)), c.Mid, c.Suf)
			files, _, err := gitdiff.Parse(strings.NewReader(in))
			if err != nil {
				if x.Prop == "C19" {
					v.Why = fmt.Sprintf("%s: %v", what, err)
				}
				return v // for the properties of the syntax to judge
			}
			for _, f := range files {
				got.WriteString(f.String())
			}
			if x.Prop == "C28" && got.String() != want.String() {
				v.Why = fmt.Sprintf("%s: a text of %d bytes, want %d: %s", what, got.Len(), want.Len(), clip([]byte(got.String())))
			}
			if x.Prop == "C19" && c.Back {
				again, _, err := gitdiff.Parse(strings.NewReader(got.String()))
				if err != nil || !reflect.DeepEqual(again, files) {
					v.Why = fmt.Sprintf("%s: the text does not give the same files again: %v", what, err)
				}
			}
			if v.Why != "" {
				return v
			}
		}
		return v
	}
}
