package gen

import (
	"fmt"
	"math/rand/v2"
	"strings"
)

var countedSizes = []int{12, 17, 20, 31, 33, 50, 64, 65, 99, 100, 101, 127, 128, 129, 150, 199, 201, 255, 256, 257, 300, 400, 511, 513, 700}

// Counted makes a grammar that counts a few tens or hundreds of occurrences of
// something easy to match, and inputs with one more and one less than the
// bounds; lim caps the bounds.
func Counted(rng *rand.Rand, lim int) (text string, ins [][]byte) {
	size := func() int {
		for {
			if n := countedSizes[rng.IntN(len(countedSizes))]; n <= lim {
				return n
			}
		}
	}
	lo, hi, rep := size(), 0, ""
	switch rng.IntN(5) {
	case 0, 1: // at least
		rep = fmt.Sprintf("%d*", lo)
		hi = lo + 20
	case 2: // between
		hi = lo + []int{1, 2, 7, 40}[rng.IntN(4)]
		rep = fmt.Sprintf("%d*%d", lo, hi)
	case 3: // at most
		lo, hi = rng.IntN(2), lo
		rep = fmt.Sprintf("*%d", hi)
		if lo > 0 {
			rep = fmt.Sprintf("%d*%d", lo, hi)
		}
	default: // exactly
		hi = lo
		rep = fmt.Sprint(lo)
	}
	shapes := []struct {
		text, pre, post string
		units           []string
	}{
		{`s = R"a"`, "", "", []string{"a", "A"}},
		{`s = R("a" / "b")`, "", "", []string{"a", "b", "B"}},
		{`s = "<" Rx ">"|x = %x61-63`, "<", ">", []string{"a", "b", "c"}},
		{`s = R(DIGIT ",") ["!"]`, "", "", []string{"1,", "9,"}},
		{`s = Rx|x = "a" / "(" x ")"`, "", "", []string{"a", "a", "(a)", "((a))"}},
		{`s = R%x20AC *1"b"`, "", "b", []string{"€"}},
		{`s = R(1*2"a" ";")`, "", "", []string{"a;", "aa;"}},
		{`s = 2(Rx ".")|x = "k" ["v"]`, "", "", nil},
		{`s = [s ","] Rx|x = %s"q"`, "", "", []string{"q"}},
		{`s = R(%x61.62 / "c")`, "", "", []string{"ab", "c", "C"}},
	}
	sh := shapes[rng.IntN(len(shapes))]
	text = strings.Replace(sh.text, "R", rep, 1)
	run := func(k int, units []string) string {
		var b strings.Builder
		for i := 0; i < k; i++ {
			b.WriteString(units[rng.IntN(len(units))])
		}
		return b.String()
	}
	one := func(k int) []byte {
		if sh.units == nil {
			u := []string{"k", "kv"}
			return []byte(run(lo+rng.IntN(hi-lo+1), u) + "." + run(k, u) + ".")
		}
		return []byte(sh.pre + run(k, sh.units) + sh.post)
	}
	ks := []int{lo, lo + 1, hi, hi - 1, hi + 1, (lo + hi) / 2}
	if lo > 0 {
		ks = append(ks, lo-1, lo/2)
	}
	seen := map[int]bool{}
	for _, k := range ks {
		if k < 0 || seen[k] {
			continue
		}
		seen[k] = true
		ins = append(ins, one(k))
	}
	w := append([]byte{}, one(lo)...)
	if len(w) > 0 {
		w[rng.IntN(len(w))] = "az,€"[rng.IntN(4)]
		ins = append(ins, w)
	}
	return text, ins
}
