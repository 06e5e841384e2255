// Command harness binds the specification in /verif/spec to the real code:
// it replays behaviours printed by TLC, records executions for TLC to accept,
// and generates larger random inputs.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Ctx is what a handler knows about the run.
type Ctx struct {
	Prop string
	Seed int64
	Rep  *Report
	Tier string
	Dir  string // scratch directory
}

// Verdict of one behaviour. Class names the kind of behaviour for coverage.
type Verdict struct {
	Why   string // "" if the code agrees with the specification
	Class string
	Case  any // replaces the input in the report, if set
}

type Handler func(c *Ctx, raw []byte) Verdict

var handlers = map[string]Handler{}

type Mismatch struct {
	Why  string          `json:"why"`
	Case json.RawMessage `json:"case"`
}

type Report struct {
	mu         sync.Mutex
	Handler    string            `json:"handler"`
	Cases      int               `json:"cases"`
	Distinct   int               `json:"distinct"`
	Classes    map[string]int    `json:"classes"`
	Mismatches []Mismatch        `json:"mismatches"`
	Bad        int               `json:"bad"`
	Samples    []json.RawMessage `json:"samples"`
	Executions int               `json:"executions"` // of real code, where a case has many
	seen       map[uint64]bool
	traces     map[uint64]bool
	traceOut   *bufio.Writer
}

// record keeps the first occurrence of every distinct trace.
func (r *Report) record(t interface{ note(string) }, how string, raw []byte) {
	t.note("")
	b, err := json.Marshal(t)
	check(err)
	h := fnv.New64a()
	h.Write(b)
	r.mu.Lock()
	defer r.mu.Unlock()
	r.Executions++
	if r.traces[h.Sum64()] || r.traceOut == nil {
		return
	}
	r.traces[h.Sum64()] = true
	if len(raw) < 6000 {
		how += "\n" + string(raw) // enough to run it again
	}
	t.note(how)
	b, err = json.Marshal(t)
	check(err)
	r.traceOut.Write(b)
	r.traceOut.WriteByte('\n')
}

func (r *Report) add(raw []byte, v Verdict) {
	h := fnv.New64a()
	h.Write(raw)
	r.mu.Lock()
	defer r.mu.Unlock()
	r.Cases++
	if !r.seen[h.Sum64()] {
		r.seen[h.Sum64()] = true
		r.Distinct++
	}
	r.Classes[v.Class]++
	if len(raw) < 3000 && (r.Cases == 1 || (r.Cases&(r.Cases-1)) == 0) && len(r.Samples) < 8 {
		r.Samples = append(r.Samples, append([]byte(nil), raw...))
	}
	if v.Why != "" {
		r.Bad++
		if len(r.Mismatches) < 25 {
			if v.Case != nil {
				b, err := json.Marshal(v.Case)
				check(err)
				raw = b
			}
			r.Mismatches = append(r.Mismatches, Mismatch{v.Why, append([]byte(nil), raw...)})
		}
	}
}

// guard runs f and turns a panic into a verdict.
func guard(f func() Verdict) (v Verdict) {
	defer func() {
		if p := recover(); p != nil {
			st := string(debug.Stack())
			if i := strings.Index(st, "gitdiff."); i > 0 {
				st = st[i:]
			} else if strings.Contains(fmt.Sprint(p), "harness:") {
				panic(p)
			}
			if len(st) > 400 {
				st = st[:400]
			}
			v = Verdict{Why: fmt.Sprintf("panic: %v at %s", p, st), Class: "panic"}
		}
	}()
	return f()
}

const hangLimit = 40 * time.Second

var serial = flag.Bool("serial", false, "one case at a time, journaled")

func replay(c *Ctx, h Handler, files []string, out, journal string) {
	rep := c.Rep
	type slot struct {
		start int64
		raw   atomic.Value
	}
	n := runtime.NumCPU()
	if *serial {
		n = 1
	}
	slots := make([]*slot, n)
	ch := make(chan []byte, 256)
	var wg sync.WaitGroup
	for i := range slots {
		s := &slot{}
		slots[i] = s
		wg.Add(1)
		go func() {
			defer wg.Done()
			for raw := range ch {
				if *serial {
					os.WriteFile(journal, raw, 0o644)
				}
				s.raw.Store(raw)
				atomic.StoreInt64(&s.start, time.Now().UnixNano())
				v := guard(func() Verdict { return h(c, raw) })
				atomic.StoreInt64(&s.start, 0)
				rep.add(raw, v)
			}
		}()
	}
	stop := make(chan bool)
	go func() { // watchdog: a call that does not return or eats all memory
		for {
			select {
			case <-stop:
				return
			case <-time.After(200 * time.Millisecond):
			}
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			for _, s := range slots {
				st := atomic.LoadInt64(&s.start)
				if st == 0 {
					continue
				}
				why := ""
				if time.Since(time.Unix(0, st)) > hangLimit {
					why = "does not return"
				} else if ms.HeapAlloc > 10<<30 && time.Since(time.Unix(0, st)) > 500*time.Millisecond {
					why = "unbounded memory"
				}
				if why != "" {
					rep.add(s.raw.Load().([]byte), Verdict{Why: why, Class: "hang"})
					writeReport(rep, out)
					os.Exit(0)
				}
			}
		}
	}()
	for _, f := range files {
		fd, err := os.Open(f)
		check(err)
		rd := bufio.NewReaderSize(fd, 1<<20)
		for {
			line, err := rd.ReadBytes('\n')
			if len(line) > 0 && (line[0] == '"' || line[0] == '{') {
				raw := line
				if line[0] == '"' {
					var s string
					check(json.Unmarshal(line, &s))
					raw = []byte(s)
				}
				if len(raw) > 0 && raw[0] == '{' {
					ch <- append([]byte(nil), raw...)
				}
			}
			if err == io.EOF {
				break
			}
			check(err)
		}
		fd.Close()
	}
	close(ch)
	wg.Wait()
	close(stop)
}

func writeReport(rep *Report, out string) {
	rep.mu.Lock()
	defer rep.mu.Unlock()
	b, err := json.Marshal(rep)
	check(err)
	check(os.WriteFile(out, b, 0o644))
}

func check(err error) {
	if err != nil {
		panic(fmt.Errorf("harness: %w", err))
	}
}

func newReport(h string) *Report {
	return &Report{Handler: h, Classes: map[string]int{}, seen: map[uint64]bool{}, traces: map[uint64]bool{},
		Mismatches: []Mismatch{}, Samples: []json.RawMessage{}}
}

func main() {
	prop := flag.String("prop", "", "property id")
	handler := flag.String("handler", "", "handler or generator name")
	out := flag.String("out", "", "output file")
	journal := flag.String("journal", "", "journal file for -serial")
	seed := flag.Int64("seed", 1, "seed")
	count := flag.Int("n", 1000, "number of generated cases")
	tier := flag.String("tier", "quick", "tier")
	traces := flag.String("traces", "", "file for recorded traces")
	dir := flag.String("scratch", os.TempDir(), "scratch directory")
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness replay|gen|record|list ...")
		os.Exit(3)
	}
	cmd := os.Args[1]
	flag.CommandLine.Parse(os.Args[2:])
	time.Local = localZone
	switch cmd {
	case "list":
		var ks []string
		for k := range handlers {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		fmt.Println(ks)
	case "cold":
		var c InterCase
		check(json.NewDecoder(os.Stdin).Decode(&c))
		fmt.Print(c.coldRun())
	case "gen":
		g := generators[*handler]
		if g == nil {
			panic("harness: no generator " + *handler)
		}
		fd, err := os.Create(*out)
		check(err)
		w := bufio.NewWriter(fd)
		g(&Gen{Seed: *seed, N: *count, Thorough: *tier == "thorough", w: w, Prop: *prop})
		check(w.Flush())
		check(fd.Close())
	case "replay":
		h := handlerNamed(*handler)
		rep := newReport(*handler)
		if *traces != "" {
			fd, err := os.Create(*traces)
			check(err)
			defer fd.Close()
			rep.traceOut = bufio.NewWriter(fd)
			defer rep.traceOut.Flush()
		}
		c := &Ctx{Prop: *prop, Seed: *seed, Rep: rep, Tier: *tier, Dir: *dir}
		replay(c, h, flag.Args(), *out, *journal)
		writeReport(rep, *out)
	default:
		panic("harness: unknown command " + cmd)
	}
}
