package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
)

// CostTrace lists how many bytes a source delivered, run by run of adjoining
// reads.
type CostTrace struct {
	Kind string   `json:"kind"`
	Want CostWant `json:"want"`
	Ev   []int64  `json:"ev"`
	X    string   `json:"x"`
}

type CostWant struct {
	What  string `json:"what"`
	Size  int64  `json:"size"`
	Out   int64  `json:"out"`
	Frags int    `json:"frags"`
}

func (t *CostTrace) note(s string) { t.X = s }

// meter counts what a source delivers, and stops delivering at an excess.
type meter struct {
	src  io.ReaderAt
	most int64
	end  int64
	sum  int64
	ev   []int64
}

func (m *meter) ReadAt(p []byte, off int64) (int, error) {
	if m.sum > m.most {
		return 0, errors.New("read too much")
	}
	n, err := m.src.ReadAt(p, off)
	m.sum += int64(n)
	if k := len(m.ev); k > 0 && off == m.end && m.ev[k-1] < 1<<19 {
		m.ev[k-1] += int64(n)
	} else {
		m.ev = append(m.ev, int64(n))
	}
	m.end = off + int64(n)
	return n, err
}

func (m *meter) trace(x *Ctx, raw []byte, how string, w CostWant) {
	for i, n := range m.ev { // adjoining reads may be more than the source has
		if n > w.Size {
			m.ev[i] = w.Size
			m.ev = append(m.ev, n-w.Size)
		}
	}
	x.Rep.record(&CostTrace{Kind: "cost", Want: w, Ev: append([]int64{}, m.ev...)}, how, raw)
}

type counter struct{ n int64 }

func (c *counter) Write(p []byte) (int, error) { c.n += int64(len(p)); return len(p), nil }

func (c *ApCase) cost(x *Ctx, raw []byte) Verdict {
	src := expandAll(c.Src)
	listed := c.Listed
	if listed == nil {
		listed = c.Frags
	}
	most := int64(12*len(src) + len(listed)<<17 + 1<<20)
	run := func(how string, frags int, op func(dst io.Writer, src io.ReaderAt) error) {
		m := &meter{src: strings.NewReader(src), most: most}
		op(&counter{}, m)
		m.trace(x, raw, how, CostWant{What: how, Size: int64(len(src)), Frags: frags})
	}
	run("Apply", len(listed), func(dst io.Writer, src io.ReaderAt) error {
		return gitdiff.Apply(dst, src, &gitdiff.File{OldName: "f", NewName: "f", TextFragments: realFrags(listed)})
	})
	run("TextApplier", len(listed), func(dst io.Writer, src io.ReaderAt) error { return applySerially(dst, src, realFrags(c.Frags)) })
	run("Apply without changes", 0, func(dst io.Writer, src io.ReaderAt) error {
		return gitdiff.Apply(dst, src, &gitdiff.File{OldName: "f", NewName: "f"})
	})
	return Verdict{Class: fmt.Sprintf("lines=%d frags=%d %s", len(c.Src)/1000*1000, len(listed)/20*20, c.Err.Why)}
}

func init() {
	handlers["textcost"] = func(x *Ctx, raw []byte) Verdict {
		var c ApCase
		check(json.Unmarshal(raw, &c))
		return c.cost(x, raw)
	}
	// every line a great many
	handlers["scaledcost"] = func(x *Ctx, raw []byte) Verdict {
		var c ApCase
		check(json.Unmarshal(raw, &c))
		if len(c.Src) == 0 {
			return Verdict{Class: "empty"}
		}
		return c.scaled(int64(250000/len(c.Src)+1)).cost(x, raw)
	}

	handlers["binarycost"] = func(x *Ctx, raw []byte) Verdict {
		var c BinCase
		check(json.Unmarshal(raw, &c))
		v := Verdict{Class: c.Fr.Method + " " + c.Ba.Err}
		if c.Src.Int() > 1<<26 || c.Fr.Actual.Int() > 1<<24 {
			v.Class = "skipped"
			return v
		}
		f := c.Fr.real(c.X)
		m := &meter{src: c.source(0), most: 1 << 29}
		var out counter
		gitdiff.Apply(&out, m, &gitdiff.File{OldName: "f", NewName: "f", IsBinary: true, BinaryFragment: f}, c.options()...)
		size := c.Src.Int()
		if c.X != nil && c.X.Src != nil {
			size = int64(len(c.X.Src))
		}
		m.trace(x, raw, "Apply", CostWant{What: "binary", Size: size, Out: out.n, Frags: 1})
		return v
	}

	// large sources with fragments all over
	generators["longedits"] = func(g *Gen) {
		for i := 0; i < g.N; i++ {
			size := []int{8, 60, 900, 5000, 40000}[i%5] + g.intn(30)
			total := 1<<19 + g.intn(1<<21)
			count := min(total/size, 20000)
			c := g.longEdit(size, count, 1+count/[]int{4, 40, 90}[g.intn(3)], g.chance(15))
			if g.chance(20) {
				c.Src = c.Src[:len(c.Src)-g.intn(len(c.Src)/2)]
				c.Damaged = true
			}
			g.emit(c)
		}
	}
}
