package gen

import (
	"fmt"
	"math/rand/v2"
	"strings"

	"verif/ref"
)

// Scale makes a grammar that is large in one way only: long chains and rings
// of rules, wide alternations, long concatenations, strings, series and names,
// deep nesting. dag keeps away from recursion.
func Scale(rng *rand.Rand, dag bool) *ref.Grammar {
	n := []int{6, 9, 11, 17, 33, 40, 65, 100, 129, 200, 260, 300}[rng.IntN(12)]
	var b strings.Builder
	p := func(f string, a ...any) { fmt.Fprintf(&b, f, a...) }
	lit := func(i int) string {
		return fmt.Sprintf("%q", string(rune('a'+i%26))+string(rune('a'+i/26%26)))
	}
	kinds := 13
	if dag {
		kinds = 10
	}
	switch rng.IntN(kinds) {
	case 0: // a chain of rules, each adding a little
		add := []string{`"x" `, ``, `["y"] `, `*1"z" `}[rng.IntN(4)]
		for i := 0; i < n; i++ {
			p("r%d = %sr%d\r\n", i, add, i+1)
		}
		p("r%d = \"e\"\r\n", n)
	case 1: // rules defined after their users, in reverse
		p("s = r%d\r\nr0 = \"e\"\r\n", n)
		for i := 1; i <= n; i++ {
			p("r%d = r%d / %s\r\n", i, i-1, lit(i))
		}
	case 2: // a wide alternation
		p("s = %s", lit(0))
		for i := 1; i < n; i++ {
			p(" / %s", lit(i))
		}
		p("\r\n")
	case 3: // a wide alternation of rules
		p("s = r0")
		for i := 1; i < n; i++ {
			p(" / r%d", i)
		}
		p("\r\n")
		for i := 0; i < n; i++ {
			p("r%d = %s\r\n", i, lit(i))
		}
	case 4: // a long concatenation
		p("s =")
		for i := 0; i < n; i++ {
			if i == n/2 {
				p(" [\"o\"]")
			}
			p(" %%x%x", 'a'+i%26)
		}
		p("\r\n")
	case 5: // deep nesting
		d := min(n, 100)
		o, cl := "(", ")"
		if rng.IntN(2) == 0 {
			o, cl = "[", "]"
		}
		p("s = ")
		for i := 0; i < d; i++ {
			p("%s\"%c\" ", o, 'a'+i%26)
		}
		p("\"e\"")
		p("%s\r\n", strings.Repeat(cl, d))
	case 6: // a long string
		s := strings.Repeat("abC-1 ", n/6+1)[:n]
		p("s = %s\"%s\" / \"%s\"\r\n", []string{"", "%s"}[rng.IntN(2)], s, s[:n-1])
	case 7: // a long series
		p("s = %%x61")
		for i := 1; i < n; i++ {
			p(".%x", 0x61+i%26)
		}
		p(" / %%x61.62\r\n")
	case 8: // long names
		nm := strings.Repeat("n-1x", n/4+1)[:n]
		p("%s = \"a\" %sy / %sz\r\n%sy = \"b\"\r\n%sz = \"c\"\r\n", nm, nm, nm, nm, nm)
	case 9: // many small repetitions in a row
		k := min(n, 24)
		p("s =")
		for i := 0; i < k; i++ {
			p(" *1%%x%x", 'a'+i%26)
		}
		p("\r\n")
	case 10: // a ring of rules
		for i := 0; i < n; i++ {
			p("r%d = \"x\" r%d / %s\r\n", i, (i+1)%n, lit(i))
		}
	case 11: // a left-recursive ring
		k := min(n, 40)
		for i := 0; i < k; i++ {
			p("r%d = r%d \"x\" / %s\r\n", i, (i+1)%k, lit(i))
		}
	case 12: // a ring that never ends but for one exit
		for i := 0; i < n; i++ {
			x := ""
			if i == n/2 {
				x = " / \"e\""
			}
			p("r%d = r%d%s\r\n", i, (i+1)%n, x)
		}
	}
	return ref.MustGrammar(b.String())
}
