package hmatch

import (
	"github.com/google/licensecheck/internal/match"
	"github.com/google/licensecheck/internal/verif/ref"
	"github.com/google/licensecheck/internal/verif/sym"
)

// parse compares the acceptance of a pattern with the grammar, and returns its meaning if it is
// accepted and certainly must be.
func parse(pat string) (*match.LRE, *ref.Node) {
	sym.Observe("pattern", pat)
	d := new(match.Dict)
	d.Insert("copyright")
	re, err := match.ParseLRE(d, "f", pat)
	n, ok := ref.Parse(pat)
	sym.Observe("accepted", err == nil)
	if !ok {
		sym.Assert(err != nil, "an invalid pattern is accepted")
		sym.Assert(re == nil, "a pattern with an error")
		sym.Cover("refused")
		return nil, nil
	}
	if !ref.WildsFollowed(n, false) {
		sym.Cover("wildcard at the end")
		return nil, nil
	}
	sym.Assert(err == nil, "a valid pattern is refused")
	sym.Cover("accepted")
	return re, n
}

const grammarBytes = "()|? \na_1/*"

// C09_Free: every pattern of up to 5 bytes (thorough: 6) over the bytes the grammar is about.
func C09_Free(j int) { parse(sym.StringIn(j, grammarBytes)) }

func C09_Free_N() int {
	if sym.Thorough() {
		return 7
	}
	return 6
}

// A hole of n arbitrary bytes in a pattern is written as n times '#'.
var frames = []string{
	"a b\n((d))###e",
	"a b\n((#d))##e",
	"a b\n((d##e))\nf",
	"a b##((d))",
	"a b\n((d||e#))#\nf",
	"a b\n((d\n((e))#\nf))#\ng",
	"a b __##__ d",
	"a b ##1__ d",
	"a b //**###**//d",
	"a b //#*x**#/d",
	"a b\n((d //** )) **// ))##\ne",
	"a b\n((d))??##e",
	"((a##d))",
	"a b\n##d))\ne",
	"a b\n((d##\n((e))",
	"//** x **//##((a b))",
	"a b\n((d ##\n)) \te",
	"a b\n\t ((d)) \t??\r#e",
	"a###b",
	"a b //**## d",
	"//##/ a b",
	"a b\n((d //*##**// ))\ne",
	"a b //** d **#/ e #*// f",
	"a b __3#__ d",
	"a b _#3_#_ d e",
}

// fill replaces the holes.
func fill(s string) string {
	b := []byte(s)
	for i := range b {
		if b[i] == '#' {
			b[i] = sym.Byte()
		}
	}
	return string(b)
}

// C09_Frame: larger patterns with two or three arbitrary bytes.
func C09_Frame(j int) { parse(fill(frames[j])) }

func C09_Frame_N() int { return len(frames) }

// C09_Around: every three bytes (thorough: four) before a group, and every five after it, over the
// bytes that matter there.
func C09_Around(j int) {
	n := 3
	if sym.Thorough() {
		n = 4
	}
	switch j {
	case 0:
		parse(sym.StringIn(n, " \t(\n)?|a/*\r") + "((a b))")
	case 1:
		parse("a b\n" + sym.StringIn(n, " \t(\n)?|a/*\r") + "((d))\ne")
	case 2:
		parse("((a b))" + sym.StringIn(n+1, " \t\r\n?)|a"))
	case 3:
		parse("a b\n((d))??" + sym.StringIn(n+1, " \t\r\n?)|a"))
	case 4:
		parse("a b\n((d))" + sym.StringIn(n, " \t\r\n?)|a") + "??\ne")
	case 5:
		parse("a b\n((d " + sym.StringIn(n, "|( \n)a?") + " e))\nf")
	}
}

func C09_Around_N() int { return 6 }

var grammarTokens = []string{"((", "))", "||", "??", "\n", "\t ", "a", "__2__", "//** c **//", "//** ((\n **//"}

// C09_Tokens: every three tokens right before a group, and one token (thorough: two) inside and two tokens right
// after a group, with no blanks between them.
func C09_Tokens(j int) {
	n := len(grammarTokens)
	t := func() string { return grammarTokens[sym.Conc(sym.Choice(n))] }
	if j < n {
		parse("a b" + grammarTokens[j] + t() + t() + "((d))\ne f")
		return
	}
	if sym.Thorough() {
		parse("a b\n((d" + t() + grammarTokens[j-n] + "))" + t() + t() + "e f")
		return
	}
	parse("a b\n((d" + grammarTokens[j-n] + "))" + t() + t() + "e f")
}

func C09_Tokens_N() int { return 2 * len(grammarTokens) }

// C09_Number: wildcard counts of up to 22 digits that stand for no small number.
func C09_Number(j int) {
	pat := "a b __" + []string{"2147483648", "4294967296", "4294967298", "9223372036854775807", "9223372036854775808",
		"18446744073709551615", "18446744073709551618", "99999999999", "-", "+1", "0x1", "1_", "1__2", "00000000000000000001"}[j] + "__ d"
	if j < 8 {
		// All are too large; so are those with further digits.
		for i := sym.Conc(sym.Choice(3)); i > 0; i-- {
			pat = pat[:len(pat)-4] + string([]byte{sym.ByteIn("0123456789")}) + "__ d"
		}
	}
	parse(pat)
}

func C09_Number_N() int { return 14 }

var tokens = []string{" d", " e", "\n((", "))\n", "))??\n", "||", "//** d **//"}

// C09_Meaning: every sequence of 5 tokens (thorough: 6) between "a b" and "g", and every text of
// three words between the same: the pattern allows what the grammar says.
func C09_Meaning(j int) {
	n := 4
	if sym.Thorough() {
		n = 5
	}
	pat := "a b" + tokens[j]
	for i := 0; i < n; i++ {
		pat += tokens[sym.Choice(len(tokens))]
	}
	pat += "\ng"
	re, node := parse(pat)
	if re == nil {
		return
	}
	m, err := match.NewMultiLRE([]*match.LRE{re})
	sym.Assert(err == nil, "a valid pattern is refused")
	k := 3
	ws := make([]byte, 3+k)
	ws[0], ws[1], ws[2+k] = 'a', 'b', 'g'
	s := "a b "
	for i := 0; i < k; i++ {
		ws[2+i] = sym.ByteIn("deg")
		s += string(ws[2+i:3+i]) + " "
	}
	s += "g"
	sym.Observe("text", s)
	t := ref.Text{N: 3 + k, Is: func(i int, w string) bool { return len(w) == 1 && ws[i] == w[0] }}
	got := m.Match(s)
	observe(got)
	as := []*ref.NFA{ref.Compile(node)}
	wellFormed(got, t.N, 1)
	sound(got, as, t)
	complete(got, as, t)
}

func C09_Meaning_N() int { return len(tokens) }

// C09_Scanner: a list with an invalid pattern gives no matcher, wherever it stands.
// (Through the exported constructor: see hscan.)

var startTokens = []string{" d", " d e", "\n((", "))\n", "))??\n", "||", " __2__", " __0__"}

// accepted tells whether a matcher is built from the pattern, together with a good one.
func accepted(pat string, where int) bool {
	d := new(match.Dict)
	d.Insert("copyright")
	re, err := match.ParseLRE(d, "f", pat)
	if err != nil {
		return false
	}
	good, err := match.ParseLRE(d, "g", "good one here")
	sym.Assert(err == nil, "a good pattern is refused")
	list := []*match.LRE{good, re}
	if where == 1 {
		list = []*match.LRE{re, good}
	} else if where == 2 {
		list = []*match.LRE{re}
	}
	m, err := match.NewMultiLRE(list)
	if err != nil {
		sym.Assert(m == nil, "a matcher with an error")
	}
	return err == nil
}

// check16 compares the acceptance of a pattern with what its texts begin with.
func check16(pat string, where int) {
	sym.Observe("pattern", pat)
	n, ok := ref.Parse(pat)
	if !ok {
		sym.Cover("not a pattern")
		return
	}
	got := accepted(pat, where)
	sym.Observe("accepted", got)
	if ref.Start(n).Bad() {
		sym.Assert(!got, "a pattern that can match almost anything is accepted")
		sym.Cover("refused")
		return
	}
	if !ref.WildsFollowed(n, false) {
		sym.Cover("wildcard at the end")
		return
	}
	sym.Assert(got, "a pattern without defect is refused")
	sym.Cover("accepted")
}

// C16_Start: every sequence of 5 tokens (thorough: 6), followed by nothing, one or two words.
func C16_Start(j int) {
	n := 4
	if sym.Thorough() {
		n = 5
	}
	pat := startTokens[j%len(startTokens)]
	for i := 0; i < n; i++ {
		pat += startTokens[sym.Choice(len(startTokens))]
	}
	pat += []string{"", "\nx", "\nx y"}[j/len(startTokens)]
	check16(pat, j%3)
}

func C16_Start_N() int { return 3 * len(startTokens) }

// C16_Many: patterns that begin in up to 20 (thorough: 40) ways, one of them anywhere among them bad.
func C16_Many(j int) {
	max := 20
	if sym.Thorough() {
		max = 40
	}
	n := 1 + sym.Conc(sym.Choice(max))
	p := sym.Conc(sym.Choice(n + 1)) // the bad one; none if n
	bad := []string{"__1__", "__1__ c", "c __1__", "", "c", "(( c || ))"}[j%6]
	// What follows makes it bad, in one case.
	next := []string{"__2__ x y", "x y"}[j/6]
	if j%6 >= 4 && next == "x y" && j%6 != 3 {
		next = ""
	}
	pat := "(("
	for i := 0; i <= n; i++ {
		if i > 0 {
			pat += " || "
		}
		if i == p {
			pat += "\n" + bad + "\n"
		} else {
			pat += "w" + decimal(i) + " v" + decimal(i)
		}
	}
	if p == n {
		pat = pat[:len(pat)-len("\n"+bad+"\n")] + "d e"
	}
	check16(pat+"))\n"+next, j%3)
}

func C16_Many_N() int { return 12 }

var startFrames = []string{
	"###",
	"a###",
	"a _##__ b c",
	"((a ||##b c))",
	"((a))##b",
	"((a b))##",
	"a\n((b##))??\nc",
	"a\n((b))##c",
	"__#__ a#b",
	"(( ##a b || c ))\nd",
	"a\n((__1__ ## b))\nc d",
	"((((##a))))",
	"#(c)##(c) b",
	"a (c) ##&copy; ",
}

// C16_Frame: patterns with two or three arbitrary bytes.
func C16_Frame(j int) { check16(fill(startFrames[j]), j%3) }

func C16_Frame_N() int { return len(startFrames) }
