// Package ref is an independent reference model of ABNF (RFC 5234, RFC 7405,
// errata 2968 and 3076): its own AST, its own text parser and printer, exact
// language membership, exact derivation counting, a parse-tree checker and a
// word sampler. Nothing in it uses the library under test.
package ref

import (
	"fmt"
	"math/big"
	"strings"
	"unicode/utf8"
)

type Kind uint8

const (
	KRule   Kind = iota // rulename reference
	KGroup              // ( alternation )
	KOption             // [ alternation ]
	KStr                // quoted string
	KNum                // num-val
	KProse              // prose-val
)

const Inf = -1

type Grammar struct {
	Rules []*Rule
}

type Rule struct {
	Name string
	Alt  *Alt
}

type Alt struct{ Concats []*Concat }
type Concat struct{ Reps []*Rep }
type Rep struct {
	Min, Max int // Max == Inf: unbounded
	Elem     *Elem
}

type Elem struct {
	Kind  Kind
	Name  string   // KRule
	Alt   *Alt     // KGroup, KOption
	Str   string   // KStr (text), KProse (text)
	Sens  bool     // KStr
	Base  byte     // KNum: 'b','d','x'
	Range bool     // KNum
	Vals  []string // KNum digits
}

// Lower folds ASCII letters only.
func Lower(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

// Find resolves a rule name (case-insensitively), user rules first, then core.
func (g *Grammar) Find(name string) *Rule {
	l := Lower(name)
	for _, r := range g.Rules {
		if Lower(r.Name) == l {
			return r
		}
	}
	return CoreRule(name)
}

// FindUser resolves among the grammar's own rules only.
func (g *Grammar) FindUser(name string) *Rule {
	l := Lower(name)
	for _, r := range g.Rules {
		if Lower(r.Name) == l {
			return r
		}
	}
	return nil
}

func radix(b byte) int {
	switch b {
	case 'b', 'B':
		return 2
	case 'x', 'X':
		return 16
	}
	return 10
}

// NumValue returns the numeric value of a num-val component.
func NumValue(digits string, base byte) *big.Int {
	v, ok := new(big.Int).SetString(digits, radix(base))
	if !ok {
		panic(fmt.Sprintf("bad numeral %q base %c", digits, base))
	}
	return v
}

const MaxRune = 0x10FFFF

// RuneValue returns the value clamped to MaxRune+1 when larger.
func RuneValue(digits string, base byte) rune {
	v := NumValue(digits, base)
	if v.Cmp(big.NewInt(MaxRune)) > 0 {
		return MaxRune + 1
	}
	return rune(v.Int64())
}

func ValidScalar(r rune) bool {
	return r >= 0 && r <= MaxRune && !(r >= 0xD800 && r <= 0xDFFF)
}

func foldASCII(r rune) rune {
	if r >= 'A' && r <= 'Z' {
		return r + 32
	}
	return r
}

// MatchTerm returns the end offset after matching terminal e at input[i:], or -1.
func MatchTerm(e *Elem, input []byte, i int) int {
	switch e.Kind {
	case KStr:
		for _, want := range e.Str {
			if i >= len(input) {
				return -1
			}
			r, sz := utf8.DecodeRune(input[i:])
			if r == utf8.RuneError && sz <= 1 {
				return -1
			}
			if e.Sens {
				if r != want {
					return -1
				}
			} else if foldASCII(r) != foldASCII(want) {
				return -1
			}
			i += sz
		}
		return i
	case KNum:
		if e.Range {
			if i >= len(input) {
				return -1
			}
			r, sz := utf8.DecodeRune(input[i:])
			if r == utf8.RuneError && sz <= 1 {
				return -1
			}
			if r >= RuneValue(e.Vals[0], e.Base) && r <= RuneValue(e.Vals[1], e.Base) {
				return i + sz
			}
			return -1
		}
		for _, v := range e.Vals {
			want := RuneValue(v, e.Base)
			if !ValidScalar(want) || i >= len(input) {
				return -1
			}
			r, sz := utf8.DecodeRune(input[i:])
			if (r == utf8.RuneError && sz <= 1) || r != want {
				return -1
			}
			i += sz
		}
		return i
	}
	return -1
}

// TermEmpty reports whether a terminal matches the empty string.
func TermEmpty(e *Elem) bool { return e.Kind == KStr && e.Str == "" }

// TermDead reports whether a terminal can match nothing at all.
func TermDead(e *Elem) bool {
	switch e.Kind {
	case KProse:
		return true
	case KNum:
		if e.Range {
			lo, hi := RuneValue(e.Vals[0], e.Base), RuneValue(e.Vals[1], e.Base)
			if hi > MaxRune {
				hi = MaxRune
			}
			if lo > hi {
				return true
			}
			return lo >= 0xD800 && hi <= 0xDFFF
		}
		for _, v := range e.Vals {
			if !ValidScalar(RuneValue(v, e.Base)) {
				return true
			}
		}
	}
	return false
}

// ---------------------------------------------------------------- core rules

// CoreText is RFC 5234 appendix B.1 transcribed.
const CoreText = "ALPHA          =  %x41-5A / %x61-7A\r\n" +
	"BIT            =  \"0\" / \"1\"\r\n" +
	"CHAR           =  %x01-7F\r\n" +
	"CR             =  %x0D\r\n" +
	"CRLF           =  CR LF\r\n" +
	"CTL            =  %x00-1F / %x7F\r\n" +
	"DIGIT          =  %x30-39\r\n" +
	"DQUOTE         =  %x22\r\n" +
	"HEXDIG         =  DIGIT / \"A\" / \"B\" / \"C\" / \"D\" / \"E\" / \"F\"\r\n" +
	"HTAB           =  %x09\r\n" +
	"LF             =  %x0A\r\n" +
	"LWSP           =  *(WSP / CRLF WSP)\r\n" +
	"OCTET          =  %x00-FF\r\n" +
	"SP             =  %x20\r\n" +
	"VCHAR          =  %x21-7E\r\n" +
	"WSP            =  SP / HTAB\r\n"

var coreMap map[string]*Rule
var CoreNames []string

func init() {
	defs, err := ParseText([]byte(CoreText))
	if err != nil {
		panic(err)
	}
	coreMap = map[string]*Rule{}
	for _, d := range defs {
		coreMap[Lower(d.Name)] = &Rule{Name: d.Name, Alt: d.Alt}
		CoreNames = append(CoreNames, d.Name)
	}
}

func CoreRule(name string) *Rule { return coreMap[Lower(name)] }

// ---------------------------------------------------------------- printing

func (e *Elem) String() string {
	switch e.Kind {
	case KRule:
		return e.Name
	case KGroup:
		return "(" + e.Alt.String() + ")"
	case KOption:
		return "[" + e.Alt.String() + "]"
	case KStr:
		if e.Sens {
			return "%s\"" + e.Str + "\""
		}
		return "\"" + e.Str + "\""
	case KNum:
		sep := "."
		if e.Range {
			sep = "-"
		}
		return "%" + string(rune(e.Base)) + strings.Join(e.Vals, sep)
	case KProse:
		return "<" + e.Str + ">"
	}
	return "?"
}

func (r *Rep) Prefix() string {
	if r.Min == 1 && r.Max == 1 {
		return ""
	}
	if r.Min == r.Max {
		return fmt.Sprint(r.Min)
	}
	s := ""
	if r.Min != 0 {
		s = fmt.Sprint(r.Min)
	}
	s += "*"
	if r.Max != Inf {
		s += fmt.Sprint(r.Max)
	}
	return s
}

func (r *Rep) String() string { return r.Prefix() + r.Elem.String() }

func (c *Concat) String() string {
	p := make([]string, len(c.Reps))
	for i, r := range c.Reps {
		p[i] = r.String()
	}
	return strings.Join(p, " ")
}

func (a *Alt) String() string {
	p := make([]string, len(a.Concats))
	for i, c := range a.Concats {
		p[i] = c.String()
	}
	return strings.Join(p, " / ")
}

// Text renders the grammar canonically (CR LF line ends).
func (g *Grammar) Text() string {
	var b strings.Builder
	for _, r := range g.Rules {
		b.WriteString(r.Name + " = " + r.Alt.String() + "\r\n")
	}
	return b.String()
}

// ---------------------------------------------------------------- equality

func EqElem(a, b *Elem) bool {
	if a.Kind != b.Kind {
		return false
	}
	switch a.Kind {
	case KRule:
		return Lower(a.Name) == Lower(b.Name)
	case KGroup, KOption:
		return EqAlt(a.Alt, b.Alt)
	case KStr:
		return a.Sens == b.Sens && a.Str == b.Str
	case KProse:
		return a.Str == b.Str
	case KNum:
		if radix(a.Base) != radix(b.Base) || a.Range != b.Range || len(a.Vals) != len(b.Vals) {
			return false
		}
		for i := range a.Vals {
			if NumValue(a.Vals[i], a.Base).Cmp(NumValue(b.Vals[i], b.Base)) != 0 {
				return false
			}
		}
		return true
	}
	return false
}

func EqAlt(a, b *Alt) bool {
	if len(a.Concats) != len(b.Concats) {
		return false
	}
	for i := range a.Concats {
		x, y := a.Concats[i], b.Concats[i]
		if len(x.Reps) != len(y.Reps) {
			return false
		}
		for j := range x.Reps {
			p, q := x.Reps[j], y.Reps[j]
			if p.Min != q.Min || p.Max != q.Max || !EqElem(p.Elem, q.Elem) {
				return false
			}
		}
	}
	return true
}

// Diff returns "" when both grammars define the same rules with the same
// structure, else a description of the first difference.
func Diff(a, b *Grammar) string {
	if len(a.Rules) != len(b.Rules) {
		return fmt.Sprintf("%d rules vs %d rules", len(a.Rules), len(b.Rules))
	}
	for _, r := range a.Rules {
		s := b.FindUser(r.Name)
		if s == nil {
			return "missing rule " + r.Name
		}
		if !EqAlt(r.Alt, s.Alt) {
			return fmt.Sprintf("rule %s: %s vs %s", r.Name, r.Alt, s.Alt)
		}
	}
	return ""
}
