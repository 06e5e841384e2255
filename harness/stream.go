package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
)

// Readers over the data of a binary fragment: scripts of reads are run and
// recorded for the specification (Stream.tla) to accept.

type StreamFrag struct {
	Size   int    `json:"size"`
	Actual int    `json:"actual"`
	Damage string `json:"damage"`
}

type StreamEv struct {
	R    int    `json:"r"`
	N    int    `json:"n"`
	Got  int    `json:"got"`
	Res  string `json:"res"`
	Same bool   `json:"same"`
	Kept bool   `json:"kept"`
}

type StreamTrace struct {
	Kind string     `json:"kind"`
	Fr   StreamFrag `json:"fr"`
	Ev   []StreamEv `json:"ev"`
	X    string     `json:"x"`
}

func (t *StreamTrace) note(s string) { t.X = s }

// real makes the fragment; way varies how the data is damaged.
func (s StreamFrag) real(way int) *gitdiff.BinaryFragment {
	f := &gitdiff.BinaryFragment{Size: int64(s.Size), Method: gitdiff.BinaryPatchMethod(way % 2)}
	raw := append([]byte(nil), deflateN(int64(s.Actual))...)
	n := len(raw)
	switch s.Damage {
	case "header":
		raw[way%2] ^= 0x11
	case "sum":
		raw[n-1-way%4] ^= 1 << (way % 8)
	case "cut":
		raw = raw[:n-1-way%(n-2)]
	case "none at all":
		raw = nil
	}
	f.RawData = raw
	if way%5 == 3 {
		return agedBin(f, way/5)
	}
	return f
}

func streamRun(s StreamFrag, script []StreamEv, scale, way int) *StreamTrace {
	s.Size *= scale
	s.Actual *= scale
	if scale > 1 && s.Actual > 0 { // keep off the round numbers
		s.Actual += way%3 - 1
	}
	content, err := io.ReadAll(literalContent(int64(s.Actual)))
	check(err)
	f := s.real(way)
	before := append([]byte(nil), f.RawData...)
	t := &StreamTrace{Kind: "stream", Fr: s}
	var rd [3]io.Reader
	var pos [3]int
	var over [3]int
	read := func(r, n int) {
		if rd[r] == nil {
			rd[r] = f.Data()
		}
		p := bytes.Repeat([]byte{0xa5}, n)
		got, err := rd[r].Read(p)
		ev := StreamEv{R: r, N: n, Got: got, Res: "ok"}
		switch {
		case err == io.EOF:
			ev.Res = "eof"
		case err != nil:
			ev.Res = "err"
		}
		if err != nil {
			over[r]++
		}
		if got >= 0 && got <= n {
			end := min(pos[r]+got, len(content))
			ev.Same = pos[r]+got > len(content) || bytes.Equal(p[:got], content[pos[r]:end])
		}
		pos[r] += max(got, 0)
		ev.Kept = f.Size == int64(s.Size) && f.Method == gitdiff.BinaryPatchMethod(way%2) && bytes.Equal(before, f.RawData)
		t.Ev = append(t.Ev, ev)
	}
	for _, a := range script {
		read(a.R, a.N*scale)
	}
	for k := 0; (over[1] < 3 || over[2] < 3) && k < 60; k++ {
		for r := 1; r <= 2; r++ {
			if over[r] < 3 {
				read(r, (1+k%7)*(scale+scale/3))
			}
		}
	}
	return t
}

func init() {
	handlers["stream"] = func(x *Ctx, raw []byte) Verdict {
		var c struct {
			Fr     StreamFrag `json:"fr"`
			Script []StreamEv `json:"script"`
		}
		check(json.Unmarshal(raw, &c))
		way := int(hash(string(raw)) % 840)
		x.Rep.record(streamRun(c.Fr, c.Script, 1, way), "reads", raw)
		if way%4 == 0 {
			x.Rep.record(streamRun(c.Fr, c.Script, []int{700, 4096, 32768, 70000}[way/4%4], way), "scaled reads", raw)
		}
		return Verdict{Class: fmt.Sprintf("%s size-actual=%d", c.Fr.Damage, max(-2, min(2, c.Fr.Size-c.Fr.Actual)))}
	}
}
