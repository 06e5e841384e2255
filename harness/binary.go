package main

import (
	"bytes"
	"compress/zlib"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"runtime"
	"strings"
	"sync"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
)

type BinFrag struct {
	Method string `json:"method"`
	Size   Limb3  `json:"size"`
	Intact bool   `json:"intact"`
	Actual Limb3  `json:"actual"`
	Delta  Ints   `json:"delta"`
}

type BinSeg struct {
	K   string `json:"k"`
	Off Limb3  `json:"off"`
	N   Limb3  `json:"n"`
}

// BinX is what only the harness knows about a generated case.
type BinX struct {
	Src  Ints `json:"src"`  // explicit source
	Raw  Ints `json:"raw"`  // explicit compressed data
	Lit  Ints `json:"lit"`  // what a literal inflates to
	Want Ints `json:"want"` // bytes the fragment was made for
	Has  bool `json:"has"`  // Want is meaningful
	Text Str  `json:"text"` // git patch that holds the fragment
	Rev  bool `json:"rev"`  // as its reverse fragment
}

type BinCase struct {
	Fr  BinFrag `json:"fr"`
	Src Limb3   `json:"src"`
	Ba  struct {
		Out  []BinSeg `json:"out"`
		Err  string   `json:"err"`
		Most Limb3    `json:"most"`
	} `json:"ba"`
	Limit Limb3  `json:"limit"`
	How   string `json:"how"`
	X     *BinX  `json:"x"`
}

// formula is the content of sources too big to write down.
func formula(p []byte, off int64) {
	for i := range p {
		o := off + int64(i)
		p[i] = byte(o*131 + (o>>8)*17 + (o>>16)*29 + (o>>24)*53 + (o>>32)*71 + 7)
	}
}

type formulaSource struct {
	size  int64
	eager bool // reports the end with the last bytes
}

func (r formulaSource) ReadAt(p []byte, off int64) (int, error) {
	if off < 0 {
		return 0, errors.New("negative offset")
	}
	if off >= r.size {
		return 0, io.EOF
	}
	if int64(len(p)) > r.size-off {
		p = p[:r.size-off]
		formula(p, off)
		return len(p), io.EOF
	}
	formula(p, off)
	if r.eager && off+int64(len(p)) == r.size {
		return len(p), io.EOF
	}
	return len(p), nil
}

func literalContent(n int64) io.Reader {
	if n > 1<<20 {
		return io.LimitReader(zeros{}, n)
	}
	b := make([]byte, n)
	formula(b, 1000)
	return bytes.NewReader(b)
}

type zeros struct{}

func (zeros) Read(p []byte) (int, error) {
	clear(p)
	return len(p), nil
}

var deflated sync.Map

func deflateN(n int64) []byte {
	f, _ := deflated.LoadOrStore(n, sync.OnceValue(func() []byte {
		var b bytes.Buffer
		w := zlib.NewWriter(&b)
		_, err := io.Copy(w, literalContent(n))
		check(err)
		check(w.Close())
		return b.Bytes()
	}))
	return f.(func() []byte)()
}

func deflate(p []byte) []byte {
	var b bytes.Buffer
	w := zlib.NewWriter(&b)
	w.Write(p)
	check(w.Close())
	return b.Bytes()
}

func (f BinFrag) real(x *BinX) *gitdiff.BinaryFragment {
	r := &gitdiff.BinaryFragment{Size: f.Size.Int()}
	switch f.Method {
	case "literal":
		r.Method = gitdiff.BinaryPatchLiteral
	case "delta":
		r.Method = gitdiff.BinaryPatchDelta
	default:
		r.Method = gitdiff.BinaryPatchMethod(7)
	}
	switch {
	case x != nil && len(x.Raw) > 0:
		r.RawData = append([]byte(nil), x.Raw...)
	case f.Method == "delta" && f.Actual.Int() == int64(len(f.Delta)):
		r.RawData = deflate(f.Delta)
	default:
		r.RawData = append([]byte(nil), deflateN(f.Actual.Int())...)
	}
	if !f.Intact && (x == nil || len(x.Raw) == 0) {
		r.RawData[len(r.RawData)-1] ^= 0x55
	}
	if way := int64(len(r.RawData)) + r.Size; len(r.RawData) < 4096 && sometimes(way, 7) {
		return agedBin(r, int(uint64(way/7)%1000))
	}
	return r
}

// ideal bytes of segmented output
func (c *BinCase) ideal() []byte {
	var b []byte
	for _, s := range c.Ba.Out {
		n := s.N.Int()
		switch s.K {
		case "c":
			p := make([]byte, n)
			if c.X != nil && c.X.Src != nil {
				copy(p, c.X.Src[s.Off.Int():])
			} else {
				formula(p, s.Off.Int())
			}
			b = append(b, p...)
		case "i":
			i := s.Off.Int() - 1
			b = append(b, c.Fr.Delta[i:i+n]...)
		case "l":
			if c.X != nil && c.X.Lit != nil {
				b = append(b, c.X.Lit[:n]...)
			} else {
				p, _ := io.ReadAll(literalContent(n))
				b = append(b, p...)
			}
		}
	}
	return b
}

// source gives one of several equal sources.
func (c *BinCase) source(k int) io.ReaderAt {
	if c.X != nil && c.X.Src != nil {
		ss, _ := sources(string(c.X.Src), "", false)
		return ss[k%len(ss)].src
	}
	return formulaSource{c.Src.Int(), k%2 == 1}
}

func (c *BinCase) options() []gitdiff.ApplyOption {
	switch {
	case c.How == "default":
		return nil
	case len(c.Limit) == 0:
		return []gitdiff.ApplyOption{gitdiff.WithMaxBinaryFragmentBytes(-1)}
	}
	return []gitdiff.ApplyOption{gitdiff.WithMaxBinaryFragmentBytes(c.Limit.Int())}
}

// sink compares what is written with the ideal and counts it.
type sink struct {
	ideal []byte
	n     int64
	wrong bool
}

func (s *sink) Write(p []byte) (int, error) {
	if !s.wrong && (int64(len(s.ideal)) < s.n+int64(len(p)) || !bytes.Equal(s.ideal[s.n:s.n+int64(len(p))], p)) {
		s.wrong = true
	}
	s.n += int64(len(p))
	return len(p), nil
}

func (c *BinCase) judge(how string, s *sink, err error) string {
	want := c.Ba.Err
	if want == "" {
		if err != nil {
			return fmt.Sprintf("%s: error %v, want success", how, err)
		}
		if s.wrong || s.n != int64(len(s.ideal)) {
			return fmt.Sprintf("%s: wrote %d bytes, differing from the %d expected", how, s.n, len(s.ideal))
		}
		return ""
	}
	if err == nil {
		return fmt.Sprintf("%s: success with %d bytes, want error %q", how, s.n, want)
	}
	if errors.Is(err, io.EOF) {
		return fmt.Sprintf("%s: the error %v is io.EOF", how, err)
	}
	if want != "conflict" && conflict(err) {
		return fmt.Sprintf("%s: %v is a conflict, want error %q", how, err, want)
	}
	switch want {
	case "conflict":
		if !conflict(err) {
			return fmt.Sprintf("%s: %v is not a conflict", how, err)
		}
		fallthrough
	case "limit", "missing", "closed", "used", "method", "size":
		if s.n > 0 {
			return fmt.Sprintf("%s: %d bytes written before the error %v", how, s.n, err)
		}
	case "data":
		if s.n-1 > c.Fr.Size.Int() {
			return fmt.Sprintf("%s: %d bytes written, %d declared", how, s.n, c.Fr.Size.Int())
		}
	default:
		if s.wrong {
			return fmt.Sprintf("%s: wrong bytes (%d) written before the error %v", how, s.n, err)
		}
		if s.n > c.Ba.Most.Int() {
			return fmt.Sprintf("%s: %d bytes written, %d announced", how, s.n, c.Ba.Most.Int())
		}
	}
	return ""
}

// data reads the inflated fragment in several ways.
func (c *BinCase) data(f *gitdiff.BinaryFragment) string {
	size := c.Fr.Size.Int()
	if size > 1<<22 || c.Fr.Actual.Int() > 1<<28 {
		return ""
	}
	ok := c.Fr.Intact && c.Fr.Actual.Int() == size
	var want []byte
	if c.Fr.Method == "delta" && c.Fr.Actual.Int() == int64(len(c.Fr.Delta)) {
		want = c.Fr.Delta
	} else if c.X != nil && c.X.Lit != nil {
		want = c.X.Lit
	} else {
		want, _ = io.ReadAll(literalContent(c.Fr.Actual.Int()))
	}
	for _, k := range []int{0, 1, 2, 7, 512} {
		var got []byte
		var err error
		r := f.Data()
		if k == 0 {
			got, err = io.ReadAll(r)
		} else {
			if size > 4096 && k < 8 {
				continue
			}
			buf := make([]byte, k)
			for {
				var n int
				n, err = r.Read(buf)
				got = append(got, buf[:n]...)
				if err != nil || int64(len(got)) > size+16 {
					break
				}
			}
			if err == io.EOF {
				err = nil
			}
		}
		if int64(len(got)) > size+1 {
			return fmt.Sprintf("Data with reads of %d: more than %d bytes for a declared size of %d", k, len(got), size)
		}
		if ok != (err == nil) {
			return fmt.Sprintf("Data with reads of %d: error %v, intact data: %v", k, err, ok)
		}
		if ok && !bytes.Equal(got, want) {
			return fmt.Sprintf("Data with reads of %d: wrong bytes", k)
		}
	}
	return ""
}

var bombLock sync.RWMutex

func (c *BinCase) run(prop string) string {
	f := c.Fr.real(c.X)
	if prop != "C07" || c.Fr.Actual.Int() < 1<<20 {
		if why := c.data(f); why != "" {
			return why
		}
	}
	ideal := c.ideal()
	if c.X != nil && c.X.Has && c.Ba.Err == "" && !bytes.Equal(ideal, c.X.Want) {
		panic("harness: the specification and the generator disagree about a delta")
	}
	file := &gitdiff.File{OldName: "f", NewName: "f", IsBinary: true, BinaryFragment: f}
	if c.X != nil && c.X.Text != "" {
		files, _, err := gitdiff.Parse(strings.NewReader(string(c.X.Text)))
		if err != nil || len(files) != 1 {
			return fmt.Sprintf("patch does not parse: %v", err)
		}
		file = files[0]
		f = file.BinaryFragment
		if c.X.Rev {
			f = file.ReverseBinaryFragment
			file = &gitdiff.File{OldName: file.NewName, NewName: file.OldName, IsBinary: true, BinaryFragment: f}
		}
		if f == nil {
			return "parsed file lacks a fragment"
		}
	}
	bomb := c.Fr.Actual.Int() > 200<<20 && c.Fr.Size.Int() < 1<<20
	var before runtime.MemStats
	if bomb {
		bombLock.Lock()
		defer bombLock.Unlock()
		runtime.ReadMemStats(&before)
	} else {
		bombLock.RLock()
		defer bombLock.RUnlock()
	}
	s := &sink{ideal: ideal}
	pick := int(hash(fmt.Sprint(c.Src, c.Fr.Size, c.Fr.Delta)) % 1024)
	err := gitdiff.Apply(s, c.source(pick), file, c.options()...)
	if bomb {
		var after runtime.MemStats
		runtime.ReadMemStats(&after)
		if d := after.TotalAlloc - before.TotalAlloc; d > 60<<20 {
			return fmt.Sprintf("%d bytes allocated to inflate a fragment of declared size %d", d, c.Fr.Size.Int())
		}
	}
	if why := c.judge("Apply", s, err); why != "" {
		return why
	}
	s = &sink{ideal: ideal}
	a := gitdiff.NewBinaryApplier(s, c.source(pick+1), c.options()...)
	err = a.ApplyFragment(f)
	if err == nil {
		err = a.Close()
	} else if cerr := a.Close(); cerr != nil {
		return "closing after a failed attempt fails"
	}
	if why := c.judge("BinaryApplier", s, err); why != "" {
		return why
	}
	return ""
}

// text files are never limited and files without fragments are copied
func unlimited() string {
	src := "a\nb\n"
	frag := ApFrag{OPos: 1, OLines: 1, NPos: 1, NLines: 2, Lines: []LineRec{{"-", "a\n"}, {"+", "xxxxxxxxxx\n"}, {"+", "y\n"}}}
	for _, limit := range []int64{-1, 0, 1, 3, 1 << 40} {
		for _, fs := range [][]ApFrag{nil, {frag}} {
			want := src
			if fs != nil {
				want = "xxxxxxxxxx\ny\nb\n"
			}
			var out bytes.Buffer
			file := &gitdiff.File{OldName: "f", NewName: "f", TextFragments: realFrags(fs)}
			err := gitdiff.Apply(&out, strings.NewReader(src), file, gitdiff.WithMaxBinaryFragmentBytes(limit))
			if err != nil || out.String() != want {
				return fmt.Sprintf("text file with limit %d: %v %q", limit, err, out.String())
			}
		}
	}
	return ""
}

func init() {
	once := sync.OnceValue(unlimited)
	handlers["binary"] = func(x *Ctx, raw []byte) Verdict {
		var c BinCase
		check(json.Unmarshal(raw, &c))
		v := Verdict{Class: c.Fr.Method + " " + c.Ba.Err}
		v.Why = c.run(x.Prop)
		if v.Why == "" && x.Prop == "C07" {
			v.Why = once()
		}
		return v
	}
}

// ---- call sequences (C08)

type BinCallCase struct {
	BinCase
	Frags []BinFrag `json:"frags"`
	Hist  []struct {
		Call int    `json:"call"`
		Err  string `json:"err"`
		Most Limb3  `json:"most"`
		// the writer fails in this call
		Fault bool `json:"fault"`
	} `json:"hist"`
}

var binFrags struct {
	sync.Once
	frags []BinFrag
}
var binReady = make(chan bool)

func init() {
	handlers["bincalls"] = func(x *Ctx, raw []byte) Verdict {
		var c BinCallCase
		check(json.Unmarshal(raw, &c))
		if c.Hist == nil {
			binFrags.Do(func() {
				binFrags.frags = c.Frags
				close(binReady)
			})
			return Verdict{Class: "table"}
		}
		if c.Frags == nil {
			<-binReady
			c.Frags = binFrags.frags
		}
		return Verdict{Class: fmt.Sprintf("calls=%d", len(c.Hist)), Why: c.play(), Case: c}
	}
}

func (c *BinCallCase) play() string {
	for _, h := range c.Hist { // segments refer to the only fragment that got anywhere
		if h.Call > 0 && h.Call <= len(c.Frags) && h.Err != "closed" && h.Err != "used" {
			c.Fr = c.Frags[h.Call-1]
		}
	}
	s := &sink{ideal: c.ideal()}
	out := &flaky{to: s, short: len(c.Hist) > 0 && (c.Hist[0].Call+len(c.Hist[len(c.Hist)-1].Err))%2 == 0}
	a := gitdiff.NewBinaryApplier(out, c.source(1), c.options()...)
	spent, failed := false, false
	for i, h := range c.Hist {
		before := s.n
		out.down = h.Fault
		var err error
		what := fmt.Sprintf("call %d", i+1)
		switch {
		case h.Call == 0:
			what += " Close"
			err = a.Close()
		case h.Call > len(c.Frags):
			what += " ApplyFragment(nil)"
			err = a.ApplyFragment(nil)
		default:
			what += fmt.Sprintf(" ApplyFragment(%d)", h.Call)
			err = a.ApplyFragment(c.Frags[h.Call-1].real(nil))
		}
		if (err != nil) != (h.Err != "") {
			return fmt.Sprintf("%s: error %v, want %q", what, err, h.Err)
		}
		if spent && s.n != before {
			return fmt.Sprintf("%s: wrote %d bytes after an attempt", what, s.n-before)
		}
		switch h.Err {
		case "failed":
			failed = true
			if s.n != before || !out.failure(err) {
				return fmt.Sprintf("%s: wrote %d bytes, error %v is not the failure of the writer", what, s.n-before, err)
			}
		case "":
			if !failed && (s.wrong || s.n > int64(len(s.ideal))) {
				return fmt.Sprintf("%s: wrong output of %d bytes, want %d", what, s.n, len(s.ideal))
			}
		case "missing", "closed", "used", "limit", "method", "conflict":
			if s.n != before {
				return fmt.Sprintf("%s: refused (%v) but wrote %d bytes", what, err, s.n-before)
			}
		default:
			failed = true
		}
		if h.Call == 0 || (h.Err != "missing" && h.Err != "closed" && h.Err != "used") {
			spent = true // an attempt or a close: nothing may follow
			if !failed && h.Err == "" && s.n != int64(len(s.ideal)) {
				return fmt.Sprintf("%s: wrote %d bytes in all, want %d", what, s.n, len(s.ideal))
			}
		}
		if h.Err == "conflict" && !conflict(err) {
			return fmt.Sprintf("%s: %v is not a conflict", what, err)
		}
	}
	return ""
}
