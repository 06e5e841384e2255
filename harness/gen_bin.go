package main

import (
	"bytes"
	"compress/zlib"
	"fmt"
	"io"
	"strings"
)

// Random binary fragments: deltas between related contents with every style of
// encoding, literals, and damaged variants of both.

type BinGen struct {
	Fr    BinFrag `json:"fr"`
	Src   Limb3   `json:"src"`
	Limit []int64 `json:"limit"`
	X     BinX    `json:"x"`
}

func (g *Gen) varint(n int) []byte {
	var b []byte
	for n >= 0x80 {
		b = append(b, byte(n)|0x80)
		n >>= 7
	}
	b = append(b, byte(n))
	if g.chance(5) { // not minimal
		b[len(b)-1] |= 0x80
		b = append(b, 0)
	}
	return b
}

// copyInst encodes a copy; zero operand bytes may be written or left out.
func (g *Gen) copyInst(off, n int) []byte {
	op := byte(0x80)
	var args []byte
	for i := 0; i < 4; i++ {
		if b := byte(off >> (8 * i)); b != 0 || g.chance(10) {
			op |= 1 << i
			args = append(args, b)
		}
	}
	if n == 0x10000 && g.chance(80) {
		n = 0
	}
	for i := 0; i < 3; i++ {
		if b := byte(n >> (8 * i)); b != 0 || g.chance(10) {
			op |= 1 << (4 + i)
			args = append(args, b)
		}
	}
	return append([]byte{op}, args...)
}

// delta makes a target out of pieces of src and fresh bytes.
func (g *Gen) delta(src []byte, ops int) (delta, target []byte) {
	var body []byte
	for i := 0; i < ops; i++ {
		if len(src) > 0 && g.chance(60) {
			off := g.intn(len(src))
			n := 1 + g.intn(len(src)-off)
			if len(src) > 0x10000 && g.chance(20) {
				off = g.intn(len(src) - 0x10000 + 1)
				n = 0x10000
			}
			body = append(body, g.copyInst(off, n)...)
			target = append(target, src[off:off+n]...)
		} else {
			n := 1 + g.intn(127)
			if g.chance(70) {
				n = 1 + g.intn(6)
			}
			p := g.bytes(n)
			body = append(append(body, byte(n)), p...)
			target = append(target, p...)
		}
	}
	delta = append(append(g.varint(len(src)), g.varint(len(target))...), body...)
	return delta, target
}

func encodeBin(b *strings.Builder, method string, size int, raw []byte) {
	fmt.Fprintf(b, "%s %d\n", method, size)
	for len(raw) > 0 {
		n := min(52, len(raw))
		c := byte('A' + n - 1)
		if n > 26 {
			c = byte('a' + n - 27)
		}
		b.WriteByte(c)
		b.WriteString(encode85(raw[:n]))
		b.WriteByte('\n')
		raw = raw[n:]
	}
	b.WriteByte('\n')
}

// inflated tells whether raw is intact and how much it holds, by the reference
// decompressor.
func inflated(raw []byte) (data []byte, ok bool) {
	zr, err := zlib.NewReader(bytes.NewReader(raw))
	if err != nil {
		return nil, false
	}
	data, err = io.ReadAll(zr)
	return data, err == nil
}

func (g *Gen) damageRaw(raw []byte) []byte {
	raw = append([]byte(nil), raw...)
	switch g.intn(5) {
	case 0:
		return raw[:g.intn(len(raw))]
	case 1:
		raw[g.intn(len(raw))] ^= 1 << g.intn(8)
	case 2:
		raw[len(raw)-1-g.intn(4)] ^= byte(1 + g.intn(255))
	case 3:
		return raw[:len(raw)-1-g.intn(4)]
	case 4:
		i := g.intn(len(raw))
		return append(raw[:i:i], raw[i+1:]...)
	}
	return raw
}

func fragOf(method string, payload, raw []byte, declared int) BinFrag {
	f := BinFrag{Method: method, Size: limbs(int64(declared)), Delta: Ints{}}
	data, ok := inflated(raw)
	f.Intact = ok
	f.Actual = limbs(int64(len(data)))
	if method == "delta" && ok {
		f.Delta = Ints(data)
	}
	_ = payload
	return f
}

func init() {
	generators["binaries"] = func(g *Gen) {
		for i := 0; i < g.N; i++ {
			size := g.intn(400)
			if g.chance(2) {
				size = 60000 + g.intn(20000)
			}
			a := g.bytes(size)
			if g.chance(10) {
				a = []byte{}
			}
			d, b := g.delta(a, g.intn(12))
			rev, back := g.delta(b, g.intn(3))
			_ = back
			// a proper reverse delta is a literal of the original half the time
			x := BinX{Src: Ints(a), Lit: Ints{}, Raw: Ints{}, Want: Ints{}}
			switch k := g.intn(10); {
			case k < 3 && g.Prop == "C05" || k < 1: // both directions of one parsed patch
				var t strings.Builder
				t.WriteString("diff --git a/f b/f\nindex 1111111..2222222 100644\nGIT binary patch\n")
				encodeBin(&t, "delta", len(d), deflate(d))
				revDelta, revPayload := "literal", a
				var rd []byte
				if g.chance(50) && len(a) < 127 {
					rd = append(append(g.varint(len(b)), g.varint(len(a))...), byte(len(a)))
					rd = append(rd, a...)
					if len(a) == 0 {
						rd = rd[:len(rd)-1]
					}
					revDelta, revPayload = "delta", rd
				}
				encodeBin(&t, revDelta, len(revPayload), deflate(revPayload))
				x.Text, x.Has, x.Want = Str(t.String()), true, Ints(b)
				g.emit(BinGen{fragOf("delta", d, deflate(d), len(d)), limbs(int64(len(a))), nil2(), x})
				y := BinX{Src: Ints(b), Lit: Ints{}, Raw: Ints{}, Text: x.Text, Rev: true, Has: true, Want: Ints(a)}
				if revDelta == "literal" {
					y.Lit, y.Raw = Ints(a), Ints(deflate(a))
				}
				g.emit(BinGen{fragOf(revDelta, revPayload, deflate(revPayload), len(revPayload)), limbs(int64(len(b))), nil2(), y})
			case k < 5: // damaged data
				raw := deflate(d)
				method := "delta"
				if g.chance(50) {
					method = "literal"
					raw = deflate(b)
				}
				raw = g.damageRaw(raw)
				declared := len(d)
				if method == "literal" {
					declared = len(b)
				}
				if g.chance(20) {
					declared = max(0, declared+g.intn(5)-2)
				}
				data, _ := inflated(raw)
				if len(raw) == 0 {
					raw = []byte{0}
				}
				x.Raw, x.Lit = Ints(raw), append(Ints{}, data...)
				g.emit(BinGen{fragOf(method, nil, raw, declared), limbs(int64(len(a))), nil2(), x})
			case k < 8: // a corrupt or misapplied delta, properly compressed
				d2 := append([]byte(nil), d...)
				src := a
				switch g.intn(6) {
				case 0:
					d2 = d2[:g.intn(len(d2)+1)]
				case 1:
					d2[g.intn(len(d2))] ^= 1 << g.intn(8)
				case 2:
					d2 = append(d2, g.bytes(1+g.intn(3))...)
				case 3:
					src = g.bytes(max(0, len(a)+g.intn(3)-1))
				case 4:
					d2 = append(g.varint(len(a)), g.varint(max(0, len(b)+g.intn(5)-2))...)
					d2 = append(d2, d[len(g.varintMin(len(a)))+len(g.varintMin(len(b))):]...)
				case 5:
					i := g.intn(len(d2) + 1)
					d2 = append(d2[:i:i], append([]byte{0}, d2[i:]...)...)
				}
				x.Src = Ints(src)
				g.emit(BinGen{fragOf("delta", d2, deflate(d2), len(d2)), limbs(int64(len(src))), nil2(), x})
			case k < 9:
				x.Lit, x.Has, x.Want = Ints(b), true, Ints(b)
				raw := deflate(b)
				x.Raw = Ints(raw)
				g.emit(BinGen{fragOf("literal", b, raw, len(b)), limbs(int64(len(a))), nil2(), x})
			default:
				x.Has, x.Want = true, Ints(b)
				g.emit(BinGen{fragOf("delta", d, deflate(d), len(d)), limbs(int64(len(a))), nil2(), x})
			}
			_ = rev
		}
	}
}

// longdeltas are deltas of hundreds of instructions for sources of any size, most
// of them too big to write down.
func init() {
	generators["longdeltas"] = func(g *Gen) {
		type bare struct {
			Has bool `json:"has"`
		}
		for i := 0; i < g.N; i++ {
			size := 1<<[]int{12, 16, 18, 20, 24, 25, 31, 33}[i%8] + g.intn(5000)
			near := g.chance(30) // one place after the other
			var body []byte
			total, at := 0, g.intn(size-4096)
			for k := 100 + g.intn(300); k > 0; k-- {
				off, n := g.intn(min(size, 1<<32)-2000), 1+g.intn(300)
				if near {
					off, at = at, min(at+n, min(size, 1<<32)-2000)
				}
				switch g.intn(12) {
				case 0:
					n = 1 + g.intn(127)
					body = append(append(body, byte(n)), g.bytes(n)...)
				case 1:
					if off+0x10000 <= size && k%8 == 0 {
						n = 0x10000
					}
					body = append(body, g.copyInst(off, n)...)
				default:
					body = append(body, g.copyInst(off, n)...)
				}
				total += n
			}
			if g.chance(10) {
				total += g.intn(3) - 1
			}
			d := append(append(g.varint(size), g.varint(total)...), body...)
			if g.chance(10) {
				size += g.intn(3) - 1
			}
			g.emit(map[string]any{"fr": fragOf("delta", d, deflate(d), len(d)), "src": limbs(int64(size)), "limit": nil2(), "x": bare{}})
		}
	}
}

func nil2() []int64 { return []int64{} }

func (g *Gen) varintMin(n int) []byte {
	var b []byte
	for n >= 0x80 {
		b = append(b, byte(n)|0x80)
		n >>= 7
	}
	return append(b, byte(n))
}
