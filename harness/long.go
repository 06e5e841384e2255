package main

import (
	"bytes"
	"strings"
)

// No rule of any syntax mentions the letter K, so what the specification says
// about a text holds as well when K stands for a word of any length.  A handler
// whose name starts with "long" runs the one named after it on such texts.

func longWord(n int) []byte {
	b := bytes.Repeat([]byte("jkw"), n/3+1)[:n]
	b[0] = 'K' // nowhere else, so that distinct texts stay distinct
	return b
}

var longWords = [][]byte{longWord(70), longWord(300), longWord(1030), longWord(4099), longWord(70001)}

func longHandler(h Handler) Handler {
	return func(x *Ctx, raw []byte) Verdict {
		n := bytes.Count(raw, []byte("K"))
		if n == 0 {
			return h(x, raw)
		}
		v := Verdict{}
		ways := longWords[:4]
		if hash(string(raw))%16 == 0 {
			ways = longWords
		}
		for _, w := range ways {
			v = h(x, bytes.ReplaceAll(raw, []byte("K"), w))
			if v.Why != "" {
				v.Case = nil
				if len(v.Why) > 2000 {
					v.Why = v.Why[:2000] + "..."
				}
				return v
			}
		}
		return v
	}
}

func handlerNamed(name string) Handler {
	if h := handlers[name]; h != nil {
		return h
	}
	if inner, ok := strings.CutPrefix(name, "long"); ok {
		if h := handlers[inner]; h != nil {
			return longHandler(h)
		}
	}
	panic("harness: no handler " + name)
}
