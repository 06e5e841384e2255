package main

import (
	"bufio"
	"encoding/json"
	"math/rand"
)

// Gen generates the cases of one suite. All choices come from the seed.
type Gen struct {
	last     string // name used last
	Seed     int64
	N        int
	Thorough bool
	Prop     string
	w        *bufio.Writer
	r        *rand.Rand
}

var generators = map[string]func(*Gen){}

func (g *Gen) rng() *rand.Rand {
	if g.r == nil {
		g.r = rand.New(rand.NewSource(g.Seed*7919 + 13))
	}
	return g.r
}

func (g *Gen) emit(v any) {
	b, err := json.Marshal(v)
	check(err)
	g.w.Write(b)
	g.w.WriteByte('\n')
}

func (g *Gen) pick(ss ...string) string { return ss[g.rng().Intn(len(ss))] }
func (g *Gen) intn(n int) int           { return g.rng().Intn(n) }
func (g *Gen) chance(p int) bool        { return g.rng().Intn(100) < p }
