package gen

import (
	"bytes"
	"math/rand/v2"

	"verif/ref"
)

// LongShape is a grammar that stays cheap to parse on long inputs, with the
// pieces its words are made of.
type LongShape struct {
	Text       string
	Pre, Post  string
	Units      []string
	Sep        string
	Recogniser bool // IsValid is linear
}

var LongShapes = []LongShape{
	{Text: `s = *"a"`, Units: []string{"a", "A"}, Recogniser: true},
	{Text: `s = *("a" / "b")`, Units: []string{"a", "b"}, Recogniser: true},
	{Text: `s = 1*line|line = *ALPHA ";"`, Units: []string{"ab;", ";", "Zyx;"}, Recogniser: true},
	{Text: `s = "<" *(2DIGIT ".") ">"`, Pre: "<", Post: ">", Units: []string{"12.", "09."}, Recogniser: true},
	{Text: `s = *(%x61-63 / %xE9 / %x20AC)`, Units: []string{"a", "é", "€", "c"}, Recogniser: true},
	{Text: `s = "a" [s]`, Units: []string{"a"}},
	{Text: `s = [s] "a"`, Units: []string{"a", "A"}},
	{Text: `s = "(" s ")" / ""`},
	{Text: `s = s "," x / x|x = 1*DIGIT`, Units: []string{"1", "22"}, Sep: ","},
	{Text: `s = x *("," x)|x = %s"k=" *DIGIT`, Units: []string{"k=1", "k=", "k=42"}, Sep: ",", Recogniser: true},
	{Text: `s = 300*400"a"`, Units: []string{"a"}, Recogniser: true},
	{Text: `s = *257("ab" / "c")`, Units: []string{"ab", "c"}, Recogniser: true},
	{Text: `s = 256"a" *"b"`, Pre: string(bytes.Repeat([]byte("a"), 256)), Units: []string{"b"}, Recogniser: true},
	{Text: `s = *("ab" / "a" / "b") "!"`, Post: "!", Units: []string{"ab", "a"}},
}

// Long makes words of about n bytes and near misses of them.
func (l *LongShape) Long(rng *rand.Rand, n int) (out [][]byte) {
	for k := 0; k < 3; k++ {
		var b bytes.Buffer
		b.WriteString(l.Pre)
		if len(l.Units) == 0 {
			b.Write(bytes.Repeat([]byte("("), n/2))
			b.Write(bytes.Repeat([]byte(")"), n/2))
		} else {
			for i := 0; b.Len() < n; i++ {
				if i > 0 {
					b.WriteString(l.Sep)
				}
				b.WriteString(l.Units[rng.IntN(len(l.Units))])
			}
		}
		b.WriteString(l.Post)
		w := b.Bytes()
		switch k {
		case 1: // a byte changed, mostly near the end
			i := len(w) - 1 - rng.IntN(3)
			if rng.IntN(3) == 0 {
				i = rng.IntN(len(w))
			}
			w[i] = "ab;1.(,!\xc3"[rng.IntN(9)]
		case 2: // truncated or lengthened
			if rng.IntN(2) == 0 {
				w = w[:len(w)-1-rng.IntN(2)]
			} else {
				w = append(w, "ab;)>"[rng.IntN(5)])
			}
		}
		out = append(out, w)
	}
	return out
}

// Beyond puts characters no ABNF text can have into quoted strings; such
// grammars are only built as trees.
func Beyond(rng *rand.Rand, g *ref.Grammar) bool {
	done := false
	pool := []rune{0x80, 0xC9, 0xE9, 0xDF, 0xFF, 0x130, 0x131, 0x17F, 0x212A, 0x20AC, 0x3B1, 0x391, 0xFFFD, 0x1F600, 0x10FFFF, 0xD7FF, '"', 0x7F, '\n', 0}
	for _, r := range g.Rules {
		ref.WalkAlt(r.Alt, func(rp *ref.Rep) {
			e := rp.Elem
			if e.Kind != ref.KStr || rng.IntN(2) == 0 {
				return
			}
			rs := []rune(e.Str)
			i := rng.IntN(len(rs) + 1)
			x := pool[rng.IntN(len(pool))]
			if i < len(rs) && rng.IntN(2) == 0 {
				rs[i] = x
			} else {
				rs = append(rs[:i], append([]rune{x}, rs[i:]...)...)
			}
			e.Str, done = string(rs), true
		})
	}
	return done
}
