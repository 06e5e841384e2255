package main

import (
	"fmt"
	"strconv"
	"strings"
)

// Random edits: a source, the fragments of a diff to another content with
// arbitrary context, spacing and listing order, optionally damaged so that the
// source no longer fits. The specification decides what must happen.

type EditCase struct {
	Src     []Str    `json:"src"`
	Listed  []ApFrag `json:"listed"`
	New     []Str    `json:"new"`
	Damaged bool     `json:"damaged"`
}

func (g *Gen) lineToken(id int, size int) Str {
	if size < 8 {
		return Str(fmt.Sprintf("%d\n", id))
	}
	return Str(fmt.Sprintf("~%d,%d\n", id, size))
}

func (g *Gen) edit(lines, maxSize, alphabet int) EditCase {
	var c EditCase
	next := 0
	tok := func() Str {
		id := next
		next++
		if alphabet > 0 {
			id = g.intn(alphabet)
		}
		size := 0
		if maxSize > 0 {
			size = g.intn(maxSize)
			if alphabet > 0 {
				size = (id * 37) % maxSize
			}
		}
		return g.lineToken(id, size)
	}
	var cur []LineRec
	o0, n0, o, n := 0, 0, 0, 0
	flush := func() {
		if len(cur) == 0 {
			return
		}
		f := ApFrag{Lines: cur}
		changed := false
		for _, l := range cur {
			if l.Op != "+" {
				f.OLines++
			}
			if l.Op != "-" {
				f.NLines++
			}
			changed = changed || l.Op != " "
		}
		f.OPos, f.NPos = int64(o0), int64(n0)
		if f.OLines > 0 {
			f.OPos++
		}
		if f.NLines > 0 {
			f.NPos++
		}
		cur = nil
		if changed {
			c.Listed = append(c.Listed, f)
		}
	}
	add := func(op string, text Str) {
		if len(cur) == 0 {
			o0, n0 = o, n
		}
		cur = append(cur, LineRec{op, text})
	}
	keep := func() Str { t := tok(); c.Src = append(c.Src, t); c.New = append(c.New, t); return t }
	ctx := g.intn(5)
	budget := lines
	for budget > 0 || (g.chance(30) && len(c.Src) < lines*2+5) {
		// gap
		gap := g.intn(4)
		if lines > 100 {
			gap = g.intn(lines/3 + 2)
		}
		if g.chance(4) && maxSize <= 120 {
			gap = 60 + g.intn(200)
		}
		if len(c.Listed) == 0 && ctx == 0 && gap == 0 {
			gap = 1
		}
		for i := 0; i < gap; i++ {
			keep()
			o++
			n++
			budget--
		}
		start := len(c.Listed)
		lead, trail := ctx, ctx
		if g.chance(20) {
			lead, trail = g.intn(4), g.intn(4)
		}
		if gap == 0 && len(c.Listed) > 0 && lead == 0 {
			lead = 1
		}
		if g.chance(3) && lines > 5000 {
			lead = 4096 + g.intn(40)
		}
		for i := 0; i < lead; i++ {
			t := keep()
			add(" ", t)
			o++
			n++
			budget--
		}
		for k := 1 + g.intn(5); k > 0; k-- {
			switch g.intn(4) {
			case 0, 1:
				t := tok()
				c.Src = append(c.Src, t)
				add("-", t)
				o++
				budget--
			case 2:
				t := tok()
				c.New = append(c.New, t)
				add("+", t)
				n++
			case 3:
				if len(cur) > 0 {
					t := keep()
					add(" ", t)
					o++
					n++
					budget--
				}
			}
		}
		for i := 0; i < trail; i++ {
			t := keep()
			add(" ", t)
			o++
			n++
			budget--
		}
		flush()
		if len(c.Listed) == start {
			// no change in this fragment: its lines stay as a gap
			continue
		}
		budget--
	}
	// trailing gap
	tail := g.intn(4)
	if g.Prop == "C09" && g.chance(35) || g.chance(5) {
		tail = 30 + g.intn(70) // longer than what is copied at a time
	}
	for ; tail > 0; tail-- {
		keep()
	}
	g.finalNewlines(&c)
	if maxSize > 0 || alphabet > 0 || len(c.Src) < 40 {
		g.fill(&c)
	}
	return c
}

// fill may stretch a line behind the last fragment so that the source, or what
// is left of it there, ends at a multiple of a usual buffer size.
func (g *Gen) fill(c *EditCase) {
	rest := 0
	if k := len(c.Listed); k > 0 {
		rest = int(c.Listed[k-1].OPos + c.Listed[k-1].OLines)
		if c.Listed[k-1].OLines > 0 {
			rest--
		}
	}
	if len(c.Src)-rest < 3 || !g.chance(25) {
		return
	}
	from := rest
	if g.chance(40) {
		from = 0
	}
	at, to := rest+g.intn(len(c.Src)-rest-1), len(c.Src)-rest
	total := len(expandAll(c.Src[from:])) - len(expand(c.Src[at]))
	size := []int{1024, 4096, 32768, 32768, 65536}[g.intn(5)]
	n := size - total%size
	if n < 32 {
		n += size
	}
	t := g.lineToken(99999990+g.intn(9), n-1)
	c.Src[at] = t
	c.New[len(c.New)-to+at-rest] = t
}

// finalNewlines may remove the newline of the last line on either side.
func (g *Gen) finalNewlines(c *EditCase) {
	if len(c.Src) == 0 || len(c.New) == 0 || !g.chance(40) {
		return
	}
	ls, ln := c.Src[len(c.Src)-1], c.New[len(c.New)-1]
	strip := func(s Str) Str { return Str(strings.TrimSuffix(string(s), "\n")) }
	var lf *ApFrag
	if len(c.Listed) > 0 {
		lf = &c.Listed[len(c.Listed)-1]
	}
	// where are the last old and new lines?
	oldIn, newIn := -1, -1
	if lf != nil {
		end := lf.OPos - 1 + lf.OLines
		if lf.OLines == 0 {
			end = lf.OPos
		}
		if end == int64(len(c.Src)) {
			for i, l := range lf.Lines {
				if l.Op != "+" {
					oldIn = i
				}
				if l.Op != "-" {
					newIn = i
				}
			}
		} else {
			// a shared tail outside the fragments
			c.Src[len(c.Src)-1], c.New[len(c.New)-1] = strip(ls), strip(ln)
			return
		}
	}
	if oldIn < 0 || newIn < 0 {
		return
	}
	if oldIn == newIn {
		lf.Lines[oldIn].Text = strip(ls)
		c.Src[len(c.Src)-1], c.New[len(c.New)-1] = strip(ls), strip(ln)
		return
	}
	if lf.Lines[oldIn].Op == "-" && g.chance(60) {
		lf.Lines[oldIn].Text = strip(ls)
		c.Src[len(c.Src)-1] = strip(ls)
	}
	if lf.Lines[newIn].Op == "+" && g.chance(60) {
		lf.Lines[newIn].Text = strip(ln)
		c.New[len(c.New)-1] = strip(ln)
	}
}

func representable(c EditCase) bool {
	for _, f := range c.Listed {
		if (f.OPos == 0 && len(c.Src) > 0) || (f.NPos == 0 && (len(c.New) > 0 || len(c.Listed) > 1)) {
			return false
		}
	}
	return true
}

func (g *Gen) damage(c *EditCase) {
	c.Damaged = true
	far := []int64{2000000000, 2000000001, 2000000002}
	for k := 1 + g.intn(2); k > 0; k-- {
		n := len(c.Src)
		i := 0
		if n > 0 {
			i = g.intn(n)
		}
		switch g.intn(13) {
		case 0:
			if n > 0 {
				c.Src[i] = Str("other\n")
			}
		case 1:
			if n > 0 {
				c.Src = append(c.Src[:i:i], c.Src[i+1:]...)
			}
		case 2:
			c.Src = append(c.Src[:i:i], append([]Str{"extra\n"}, c.Src[i:]...)...)
		case 3:
			c.Src = c.Src[:i]
		case 4:
			if n > 0 {
				s := string(c.Src[n-1])
				if strings.HasSuffix(s, "\n") {
					c.Src[n-1] = Str(strings.TrimSuffix(s, "\n"))
				} else {
					c.Src[n-1] = Str(s + "\n")
				}
			}
		case 5, 6:
			if len(c.Listed) > 0 {
				f := &c.Listed[g.intn(len(c.Listed))]
				p := f.OPos + int64(g.intn(5)) - 2
				if g.chance(10) {
					p = far[g.intn(3)]
				}
				if p > 0 || (p == 0 && f.OLines == 0) {
					f.OPos = p
				}
			}
		case 7:
			if len(c.Listed) > 1 {
				x, y := g.intn(len(c.Listed)), g.intn(len(c.Listed))
				c.Listed[x] = c.Listed[y]
			}
		case 8:
			if n > 1 {
				j := g.intn(n)
				if strings.HasSuffix(string(c.Src[i]), "\n") && strings.HasSuffix(string(c.Src[j]), "\n") {
					c.Src[i], c.Src[j] = c.Src[j], c.Src[i]
				}
			}
		case 9:
			if len(c.Listed) > 0 {
				f := &c.Listed[g.intn(len(c.Listed))]
				ls := append([]LineRec(nil), f.Lines...)
				j := g.intn(len(ls))
				ls[j].Text = "patchother\n"
				f.Lines = ls
			}
		case 10, 11, 12: // a line that differs in its last byte only
			if n > 0 && len(c.Src[i]) > 1 && strings.HasSuffix(string(c.Src[i]), "\n") {
				t := strings.TrimSuffix(string(c.Src[i]), "\n")
				if t[0] == '~' {
					if strings.Count(t, ",") == 1 {
						c.Src[i] = Str(fmt.Sprintf("%s,%d\n", t, 1+g.intn(4)))
					}
				} else if id, err := strconv.Atoi(t); err == nil {
					c.Src[i] = Str(fmt.Sprintf("%d\n", id^1)) // dressed to be confused with it
				} else {
					c.Src[i] = Str(t + "x\n")
				}
			}
		}
	}
}

var damages = map[string]int{"C02": 80, "C03": 80, "C09": 40, "C10": 50, "C11": 80}

func init() {
	generators["edits"] = func(g *Gen) {
		for done := 0; done < g.N; {
			var c EditCase
			alpha := []int{0, 0, 3, 12}[g.intn(4)]
			switch k := g.intn(100); {
			case k < 60:
				c = g.edit(g.intn(25), []int{0, 40, 400}[g.intn(3)], alpha)
			case k < 80:
				c = g.edit(20+g.intn(120), []int{0, 120, 1100}[g.intn(3)], alpha)
			case k < 95:
				c = g.edit(2+g.intn(12), []int{2100, 40000, 70000}[g.intn(3)], alpha)
			default:
				if g.chance(70) {
					c = g.edit(200+g.intn(900), 60, alpha)
				} else {
					c = g.edit(4000+g.intn(9000), 0, alpha)
				}
			}
			if !representable(c) {
				continue
			}
			if g.chance(damages[g.Prop]) {
				g.damage(&c)
			}
			if g.Prop != "C03" {
				g.rng().Shuffle(len(c.Listed), func(i, j int) { c.Listed[i], c.Listed[j] = c.Listed[j], c.Listed[i] })
			}
			if c.Src == nil {
				c.Src = []Str{}
			}
			if c.New == nil {
				c.New = []Str{}
			}
			if c.Listed == nil {
				c.Listed = []ApFrag{}
			}
			g.emit(c)
			done++
		}
	}
}

// block makes an edit in which something is about as long as what an
// implementation may handle at a time: the gap before the fragment, the kept,
// deleted or added lines of the fragment, or the lines behind it.
func (g *Gen) block() EditCase {
	var c EditCase
	unit := []int{32, 64, 100, 1024, 4096, 4096, 4096, 4096, 4096, 10000}[g.intn(10)]
	count := 1 + g.intn(4)
	if unit == 10000 {
		count = 1
	}
	size := unit*count + []int{-1, 0, 1, 1}[g.intn(4)]
	next := 0
	tok := func() Str { next++; return g.lineToken(next, 0) }
	keep := func(n int) {
		for ; n > 0; n-- {
			t := tok()
			c.Src, c.New = append(c.Src, t), append(c.New, t)
		}
	}
	shape := g.intn(6)
	gap, tail := g.intn(4), g.intn(4)
	switch shape {
	case 0:
		gap = size - g.intn(2)
	case 1:
		tail = size
	default:
		if g.chance(70) { // the size is that of everything up to the end of the fragment
			gap = 0
		}
	}
	keep(gap)
	var f ApFrag
	f.OPos, f.NPos = int64(gap), int64(gap)
	line := func(op string, n int) {
		for ; n > 0; n-- {
			t := tok()
			f.Lines = append(f.Lines, LineRec{op, t})
			if op != "+" {
				c.Src = append(c.Src, t)
				f.OLines++
			}
			if op != "-" {
				c.New = append(c.New, t)
				f.NLines++
			}
		}
	}
	few := func() int { return g.intn(3) }
	line(" ", 1+few())
	line("-", few())
	switch shape {
	case 2:
		line(" ", size-int(f.OLines))
	case 3:
		line("-", size-int(f.OLines))
	case 4:
		line("+", size)
	case 5: // the size is that of the fragment with its last line changed
		line(" ", size-1-int(f.OLines))
		line("-", 1)
	}
	line("+", 1+few())
	if shape != 5 {
		if gap > 0 {
			line(" ", few())
		}
	}
	f.OPos++
	f.NPos++
	keep(tail)
	c.Listed = []ApFrag{f}
	g.finalNewlines(&c)
	return c
}

// blockDamage changes, removes or adds a line where a block may end.
func (g *Gen) blockDamage(c *EditCase) {
	c.Damaged = true
	n := len(c.Src)
	f := c.Listed[0]
	ends := []int{n, int(f.OPos - 1 + f.OLines), int(f.OPos - 1)}
	for _, u := range []int{32, 1024, 4096} {
		ends = append(ends, n/u*u, int(f.OLines)/u*u+int(f.OPos)-1)
	}
	i := ends[g.intn(len(ends))] + g.intn(3) - 2
	if g.chance(50) {
		i = ends[1] - 1
	}
	i = min(max(i, 0), n-1)
	switch g.intn(4) {
	case 0, 1:
		c.Src[i] = Str("other\n")
	case 2:
		c.Src = append(c.Src[:i:i], c.Src[i+1:]...)
	case 3:
		c.Src = c.Src[:i]
	}
}

func init() {
	generators["blocks"] = func(g *Gen) {
		for done := 0; done < g.N; done++ {
			c := g.block()
			if g.chance(damages[g.Prop]) {
				g.blockDamage(&c)
			}
			g.emit(c)
		}
	}
}
