package gen

// Directed is a list of hostile grammars (CR LF added), first rule is the
// root. They aim at recursion shapes, nullability, bounds, key collisions and
// terminals.
var Directed = []string{
	`s = s "a" / "a"`,
	`s = (s "a") / "a"`,
	`s = [s] "a"`,
	`s = *s "a"`,
	`s = 1*s / "a"`,
	`s = s s / "a"`,
	`s = s s / "a" / ""`,
	`s = s / "a"`,
	`s = s s s / "a"`,
	`s = "a" s / "a"`,
	`s = "a" s "b" / ""`,
	`s = b "a" / "a"|b = s "b" / "b"`,
	`s = [b] s "a" / "a"|b = "b"`,
	`s = b s "a" / "a"|b = ""`,
	`s = b s "a" / "a"|b = *"b"`,
	`s = a / b|a = b "x" / "a"|b = a "y" / "b"`,
	`s = a "c"|a = b|b = c|c = s / "a"`,
	`s = 1*(s "a" / "b")`,
	`s = ("a" / s "b") ("a" / s)`,
	`s = [s] [s] "a"`,
	`s = [[s] "a"] "b"`,
	`s = *(*"a" "b")`,
	`s = *(["a"] ["b"])`,
	`s = *("a" / "")`,
	`s = 3("a" / "")`,
	`s = 2*3("a" / "aa")`,
	`s = 2*3("a" / "")`,
	`s = 3*("a" / "aaa")`,
	`s = 2*5("a" / "aaa") "a"`,
	`s = 3*7("a" / "aaa" / "aaaaa")`,
	`s = 5("a" / "aa")`,
	`s = 2(2("a" / "aa"))`,
	`s = 2*3(1*2"a")`,
	`s = 0*2(2*3("a" / "ab") ["b"])`,
	`s = 4*4("ab" / "a" / "b")`,
	`s = 0"a" "b"`,
	`s = 0("a" s) "b"`,
	`s = *0"a" "b"`,
	`s = 1000000000"a"`,
	`s = *1000000000"a"`,
	`s = 0*9999999999"a" "b"`,
	`s = 2*9999999999("a" / "aa")`,
	`s = "a" / "a"`,
	`s = "a" / "A"`,
	`s = %s"a" / "a"`,
	`s = %s"aB" "c" / "aB" "d"`,
	`s = (%s"a") "x" / ("a") "y"`,
	`s = 2%s"a" "x" / 2"a" "y"`,
	`s = [%s"a"] "x" / ["a"] "y"`,
	`s = *%s"ab" / *"ab" "c"`,
	`s = (%s"a") "x" / (%s"A") "y"`,
	`s = [%s"a"] "x" / [%s"A"] "y"`,
	`s = 2%s"a" "x" / 2%s"A" "y"`,
	`s = *(%s"aB" / "c") "x" / *(%s"Ab" / "c") "y"`,
	`s = (%x61) "x" / (%x41) "y"`,
	`s = (%x61-62) "x" / (%x61.62) "y"`,
	`s = (%x61 / "b") "x" / (%x61 "b") "y"`,
	`s = (%d10) "x" / (%x10) "y" / (%b10) "z"`,
	`s = ("a" 2"b") "x" / ("a" 2*"b") "y" / ("a" *2"b") "z"`,
	`s = ("a" ["b"]) "x" / ("a" ("b")) "y"`,
	`s = ("a/b") "x" / ("a" / "b") "y"`,
	`s = ("a b") "x" / ("a" "b") "y" / ("ab") "z"`,
	`s = (a) "x" / ("a") "y"|a = "b"`,
	`s = 1*2"a" "x" / 12"a" "y"`,
	`s = *"a" "x" / "*a" "y"`,
	`s = ("a") / ("a")`,
	`s = ["a"] / "a"`,
	`s = ["a"] ["a"]`,
	`s = [""]`,
	`s = [["a"]]`,
	`s = ("" / "")`,
	`s = *"a" *"a"`,
	`s = *"a" *"a" *"a"`,
	`s = 1*"a" 1*"a"`,
	`s = a a|a = "a" / "aa"`,
	`s = a b c|a = *"a"|b = *("a" / "b")|c = *"b"`,
	`s = %x61-7A`,
	`s = %x61.62.63`,
	`s = %d97-98 / %b1100011`,
	`s = %x0-10FFFF`,
	`s = *%x80-10FFFF`,
	`s = %x7F-80 %x7FF-800 %xFFFF-10000`,
	`s = %xD7FF-E000`,
	`s = %xE9 / "e" / %x65.301`,
	`s = %xC3.A9`,
	`s = %x212A / "k"`,
	`s = "k" "s"`,
	`s = %x17F / %s"s" / %s"S"`,
	`s = %x130 %x131 "i"`,
	`s = %xFFFD`,
	`s = *%xFFFD-FFFE`,
	`s = %x00`,
	`s = %x41-5A "." %x30-39`,
	`s = "." "*" "+" "?" "(" ")" "[" "]" "{" "}" "^" "$" %x7C "\"`,
	`s = %x5C-5E %x2D`,
	`s = %x0A / %x0D`,
	`s = ALPHA *(ALPHA / DIGIT / "-")`,
	`s = 1*3DIGIT "." 1*3DIGIT`,
	`s = HEXDIG HEXDIG`,
	`s = LWSP "a"`,
	`s = *OCTET`,
	`s = *WSP CRLF`,
	`s = BIT / CTL / VCHAR / CHAR`,
	`s = DQUOTE *(%x20-21 / %x23-7E) DQUOTE`,
	`s = e|e = e "+" t / t|t = t "*" f / f|f = "(" e ")" / "a"`,
	`s = e|e = e "+" e / e "*" e / "a"`,
	`s = "if" s / "if" s "else" s / "a"`,
	`s = "a" S "a" / "b"`,
	`S = Foo FOO foo|foo = "f"`,
	`s = a|a = b b b b|b = c c|c = "x" / "y"`,
	`s = "a" *("," "a")`,
	`s = *( "a" / "b" ) "a" 2( "a" / "b" )`,
	`s = 1*2(1*2("a" / "b") "c")`,
	`s = (("a" / "b") / ("c" / ("d" / "e")))`,
	`s = ("a" ("b" ["c" ("d")]))`,
	`s = *("a" / "ab" / "b")`,
	`s = 2*4("a" / "ab" / "b")`,
	`s = *"" "a"`,
	`s = 1*"" "a"`,
	`s = 5"" "a"`,
	`s = a a a a|a = "" / "a"`,
	`s = s "" / "a"`,
	`s = "" s / "a"`,
	`s = a s / "a"|a = b|b = c|c = ""`,
	`s = x / y|x = s "1" / "x"|y = s "2" / "y"`,
	`s = x s y / "a"|x = *"x"|y = *"y"`,
	`a = b "x" / "q"|b = a "y" / c|c = b "z" / "w"`,
	`s = 2s / "a"`,
	`s = 1*2s "b" / "a"`,
	`s = (s / "a") (s / "b")`,
	`s = a / b / c|a = "x" b|b = "y" c / "y"|c = "z" a / "z"`,
	`s = 3*3("a" [s])`,
	`s = *(s "b") "a"`,
	`s = *1s "a"`,
	`s = 2*2[s] "a"`,
	`s = ["a" / s] "b"`,
	`s = a / a|a = "a"`,
	`s = *a|a = "a" / b|b = "a"`,
	`s = %i"aB" / %s"Ab"`,
	`s = "abc" / "abd" / "ab"`,
	`s = %x61-63 / %x62-64 / %x63-65`,
	`s = 16*17("a" / "b")`,
	`s = 10"a" / 11"a"`,
	`s = 1*10("a" / "b" / "ab")`,
}

// DirectedBad holds grammars only obtainable with validation off.
var DirectedBad = []string{
	`s = 4611686018427387904"abcd" / 2"x"`,
	`s = 4611686018427387904"abcd"`,
	`s = "a" / 4611686018427387904*%x61.62.63.64`,
	`s = 9223372036854775807*("ab") / "c"`,
	`s = [a]|a = 2305843009213693952"abcdefgh" / "z"`,
	`s = a|a = 6148914691236517206"abc" / "q" a / "z"`,
	`s = 4294967296(4294967296"a") / "b"`,
	`s = a|a = "x" / 4294967296b|b = 4294967296"a"`,
	`s = <prose>`,
	`s = <prose> / "a"`,
	`s = [<prose>] "a"`,
	`s = *<prose> "a"`,
	`s = "a" <prose>`,
	`s = b / "a"|b = <p>`,
	`s = nope`,
	`s = nope / "a"`,
	`s = [nope] "a"`,
	`s = *nope "a"`,
	`s = 2nope / "b"`,
	`s = 3*2"a"`,
	`s = 3*2"a" / "b"`,
	`s = ["x" 5*1"a"] "b"`,
	`s = 1*0"a" / "c"`,
	`s = %x63-61 / "b"`,
	`s = %x63-61`,
	`s = *%x63-61 "b"`,
	`s = %xD800-DFFF`,
	`s = %xD800-DFFF / "a"`,
	`s = *%xD800 "a"`,
	`s = %xDFFF-E000`,
	`s = %xD7FF-D800`,
	`s = %x61.D800 / "b"`,
	`s = %x110000 / "a"`,
	`s = %x61-110000`,
	`s = %x110000-110001 / "a"`,
	`s = %x61-FFFFFFFFFFFFFFFFFFFFFF`,
	`s = %d4294967393`,
	`s = %d18446744073709551713 / "b"`,
	`s = s`,
	`s = s "a"`,
	`s = a|a = b|b = a`,
	`s = a / "x"|a = a`,
	`s = *s`,
	`s = [s]`,
	`s = 2*s`,
	`s = s s`,
	`s = "a" / b|b = b "c"`,
	`s = <> <> / *<p> / [<q>]`,
	`s = 9999999999*"a"`,
	`s = 1000("a" / "")`,
	`s = 5000000*5000000"a" / "b"`,
	`s = a b|a = "a"`,
	`s = 1*3(<p> / nope / 2*1"a" / "b")`,
}

// DirectedReg holds non-recursive grammars aimed at regular expressions,
// transition graphs and their generators.
var DirectedReg = []string{
	`s = "a" / "b" / "c" / "d"`,
	`s = "a" / %x62-66 / "g" / "zz"`,
	`s = ("a" / "b") / ("c" "d") / "e"`,
	`s = *("a" / %x30-39) "-" / "]"`,
	`s = ("-" / "a") ("]" / "b") ("^" / "c") ("\" / "d")`,
	`s = %x2D / %x5B-5D / %x5E`,
	`s = %x00 / %x09 / %x0A / %x7F`,
	`s = "k" / "s" / %x212A`,
	`s = *("ks" / %x17F)`,
	`s = ("a" / "") ("b" / "")`,
	`s = 2("ab")`,
	`s = 2*3("ab" / "c") "d"`,
	`s = *(2"a") 3(1*2"b")`,
	`s = (*"a") (1*"b") (*1"c")`,
	`s = [*"a"] [1*"b"] "c"`,
	`s = *(*"a")`,
	`s = 1*(1*"a" ["b"])`,
	`s = 2*(["a"] ["b"])`,
	`s = 2*3(["a"] ["b"])`,
	`s = 3*5(["a"] "b")`,
	`s = *3(["a"] "b") "a"`,
	`s = *2(["a"]) *2(["b"]) "c"`,
	`s = *("a" *("b" / "c"))`,
	`s = 2(*("a" "b"))`,
	`s = 2*4(*"a" "b")`,
	`s = 1*2(*("a" / "b") ["c"])`,
	`s = *("a" ["b" *("c" / "d")])`,
	`s = a a|a = *"x" ["y"]`,
	`s = a "," a *("," a)|a = 1*("x" / "y")`,
	`s = a / b|a = "x" c|b = "y" c|c = *d "."|d = "1" / "2"`,
	`s = *a|a = b b|b = ["p"] "q"`,
	`s = a a a|a = b / "c"|b = [ "x" ]`,
	`s = 2a 1*2a *2a|a = ("m" / "n") ["o"]`,
	`s = *(a b)|a = *"1"|b = *"2"`,
	`s = A 2a *A|a = "x" / "y" "z"`,
	`s = %x61.62 / %x61.62.63 / %x61`,
	`s = *%x61.62 "x"`,
	`s = 2%x61.62 %x30-32`,
	`s = %s"aB" "cD" %i"eF"`,
	`s = %s"a" / "a" "b"`,
	`s = "aB1-c"`,
	`s = %xC0-FF %x100-17F`,
	`s = %x7E-81`,
	`s = %x7FE-801 "a"`,
	`s = %xFFFE-10001`,
	`s = *(%xE9 / %xEA / %xC9)`,
	`s = %x400-4FF / %x10400-1044F`,
	`s = %x20AC %x20AC / %x20AD`,
	`s = %xE0-3A0 %x41`,
	`s = %xD7FF.E000 / %xD7FE-E001`,
	`s = [["a"] "b"] ["c"]`,
	`s = ["a" / ""] / ["b"]`,
	`s = "" / "a"`,
	`s = ("") *("")`,
	`s = "" *"a" ""`,
	`s = 0*0"a"`,
	`s = 0"a" / "b"`,
	`s = 5"a"`,
	`s = 1*5"a" / 7"a"`,
	`s = 250*256"a"`,
	`s = 1000"a" / "b"`,
	`s = 10(10(10"a"))`,
	`s = DIGIT ALPHA HEXDIG`,
	`s = *WSP / 1*CRLF`,
	`s = VCHAR / CTL`,
	`s = LWSP`,
	`s = 1*3DIGIT 3("." 1*3DIGIT)`,
	`s = ALPHA *63(ALPHA / DIGIT / "-")`,
	`s = *("%" HEXDIG HEXDIG / ALPHA)`,
	`s = DQUOTE *(SP / %x21 / %x23-5B / %x5D-7E / "\" (DQUOTE / "\")) DQUOTE`,
	`s = h ":" v|h = 1*(ALPHA / "-")|v = *(VCHAR / SP)`,
	`s = a|a = b|b = c|c = d|d = "x" / "y"`,
	`s = a b|a = c c|b = c c|c = d d|d = "1" / "2"`,
	`s = "GET" / "POST" / "PUT"`,
	`s = "a" ("b" / "c" ("d" / "e" ["f"])) "g"`,
	`s = 1*1"a" 1*2"b" 0*1"c" 0*2"d"`,
	`s = *2"a" 2*2"b" 2*"c"`,
	`s = ("a" *"b" / "c") ("d" / *"e")`,
	`s = *("a" / "b" "c" / "d" *"e")`,
	`s = *(["a"] / ["b"])`,
	`s = 3*3("a" / "b" ["c"])`,
	`s = *1(*1(*1"a" "b") "c")`,
	`s = 1*2(1*2(1*2"a" "b") "c")`,
}

// DirectedRegBad needs validation off.
var DirectedRegBad = []string{
	`s = "x" %xD800 / "y"`,
	`s = %xD800 "b" / "y"`,
	`s = a / a "z"|a = %xD800 "b" / "y"`,
	`s = a ["q"]|a = %xD800 "b" / *"y"`,
	`s = *(%x110000 "b") "y"`,
	`s = 2(%x110000 "b" / "y")`,
	`s = [%xD800-DFFF] "y"`,
	`s = "a" (%x63-61) / "b"`,
	`s = "a" *(%x63-61 "c") "b"`,
	`s = 1*(%xD800 / "a")`,
	`s = %xD7F0-E010`,
	`s = %xD000-D801 / %xDFFE-E002`,
	`s = %x10FFFE-110002`,
	`s = *2(a "c")|a = %xD800 "b" / "y" / %xDC00`,
}

// DirectedGen aims at generators: recursion that must be escaped, choices that
// lead nowhere, bounds that run away.
var DirectedGen = []string{
	`s = 4611686018427387904"abcd" / 2"x"`,
	`s = 4611686018427387904"abcd"`,
	`s = "a" / 4611686018427387904*%x61.62.63.64`,
	`s = 9223372036854775807*("ab") / "c"`,
	`s = [a]|a = 2305843009213693952"abcdefgh" / "z"`,
	`s = a|a = 6148914691236517206"abc" / "q" a / "z"`,
	`s = 4294967296(4294967296"a") / "b"`,
	`s = a|a = "x" / 4294967296b|b = 4294967296"a"`,
	`a = a a a / "a"`,
	`a = a a / ""`,
	`a = a a / b b|b = a / ""`,
	`a = "x" / b|b = b`,
	`a = *b "x"|b = b "y" / c|c = *a`,
	`a = ["y" b] "x"|b = b b / "(" b ")" / "z"`,
	`a = "(" a ")" / "[" a a "]" / "{" *a "}" / "x"`,
	`a = 17*"x"`,
	`a = 20"x" / 18*19"y"`,
	`a = *9999999999"x"`,
	`a = *9999999999["x"]`,
	`a = 1*9999999999("" / "x")`,
	`a = *9999999999(b) "x"|b = ["y"]`,
	`a = 1000["x"]`,
	`a = 100("x" / "") 50*60("y" / a) / "z"`,
	`a = <prose> / "x"`,
	`a = [<prose>] "x"`,
	`a = *<prose> "x"`,
	`a = (<prose> / "y") "x" / nope`,
	`a = 1*2(<prose> "z" / "y")`,
	`a = [nope] "x"`,
	`a = *nope "x" / nope`,
	`a = "x" / 3*2"y"`,
	`a = [3*2"y"] "x"`,
	`a = "x" / %x110000`,
	`a = [%xD800] "x"`,
	`a = *%xD800-DFFF "x" / %x62-61`,
	`a = 5(%xD7FE-E001)`,
	`a = "q" (%x61.110000 / "y")`,
	`a = b / c|b = b "x"|c = c "y"`,
	`a = b "x"|b = c / "y"|c = d|d = c`,
	`a = "a" [a] "b"`,
	`a = *a "b"`,
	`a = *a`,
	`a = 1*a / "b"`,
	`a = 2*3a / "b"`,
	`a = b c d|b = "1" / b b|c = "2" / c c|d = "3" / d d`,
	`json = obj / arr / "1"|obj = "{" [p *("," p)] "}"|p = DQUOTE *ALPHA DQUOTE ":" json|arr = "[" [json *("," json)] "]"`,
	`e = e "+" t / t|t = t "*" f / f|f = "(" e ")" / 1*DIGIT`,
	`s = S "a" / "A"`,
	`a = b|B = "x" A / "y"`,
	`a = 2*2(3*3(b b)) |b = ["x"] / a`,
	`a = "" / a`,
	`a = a / a / a / "x"`,
	`a = b b b b|b = c c c c|c = d d|d = "x" / "" / a`,
	`a = 3000"x"`,
}
