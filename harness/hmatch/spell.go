package hmatch

import (
	"strings"

	"github.com/google/licensecheck/internal/match"
	"github.com/google/licensecheck/internal/verif/ref"
	"github.com/google/licensecheck/internal/verif/sym"
)

// near reports that a and b differ by one byte inserted, deleted or changed and one of them has
// at least four, or stand for each other as c and copyright do.
func near(want, have string) bool {
	r := sym.And(sym.Or(want == "c", want == "copyright"),
		sym.Or(sym.Or(have == "c", have == "copyright"), sym.Or(have == "©", have == "&copy;")))
	if len(want) < 4 && len(have) < 4 {
		return r
	}
	long, short := want, have
	if len(short) > len(long) {
		long, short = short, long
	}
	switch len(long) - len(short) {
	case 0:
		for i := 0; i < len(long); i++ {
			// Everything but byte i is the same.
			same := true
			for k := 0; k < len(long); k++ {
				if k != i {
					same = sym.And(same, long[k] == short[k])
				}
			}
			r = sym.Or(r, same)
		}
	case 1:
		for i := 0; i < len(long); i++ {
			// long without byte i.
			same := true
			for k := 0; k < len(short); k++ {
				m := k
				if k >= i {
					m = k + 1
				}
				same = sym.And(same, long[m] == short[k])
			}
			r = sym.Or(r, same)
		}
	}
	return r
}

func equal(a, b string) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := 0; i < len(a); i++ {
		r = sym.And(r, a[i] == b[i])
	}
	return r
}

// lower is the letter case folding of ASCII.
func lower(s string) string {
	b := []byte(s)
	for i := range b {
		b[i] = sym.IteByte(sym.And('A' <= b[i], b[i] <= 'Z'), b[i]+'a'-'A', b[i])
	}
	return string(b)
}

// spelled is the reference's view of a text of ASCII words, with all the corrections.
func spelled(text string) (ref.Text, []ref.W) {
	ws := ref.Split(text)
	have := make([]string, len(ws))
	for i, w := range ws {
		have[i] = lower(text[w.Lo:w.Hi])
	}
	return ref.Text{
		N:    len(ws),
		Is:   func(i int, w string) bool { return equal(ws[i].S, w) },
		Near: func(i int, w string) bool { return near(w, have[i]) },
		Join: func(i int, w string) bool { return equal(have[i]+have[i+1], w) },
		Split: func(i int, w, x string) bool {
			// A word of a wildcard (w or x empty) may be anything.
			h := have[i]
			if x == "" || w == "" {
				return len(h) > len(w)+len(x) && equal(h[:len(w)], w) && equal(h[len(h)-len(x):], x)
			}
			return equal(h, w+x)
		},
		JoinAny: func(i int) bool { return true },
	}, ws
}

var spellSets = [][]string{
	{"x y abab"},
	{"x y abab\n((a b))??"},
	{"x y abab", "x y abab a b"},
	{"x y aba ba"},
	{"x y\n((aa || abab))\nbb"},
	{"x y abab\n((baba))??"},
	{"x y aaaa b", "x y aaaab", "x y aaaa b bb"},
	{"x y a a", "x y aa b"},
	{"x y a\n((ab a || aaba))\nb"},
	{"x y __1__ abab"},
	{"x y aaaa __2__ bbbb a"},
	{"x y aba\n((__1__ bab))??\na"},
	{"abab baba", "abab bbbb aa"},
	{"x y abb\n((ba ab))??"},
	{"x y ab\n((aab a || b ba))??", "x y ab aab b"},
	{"x y aab\n((bb || b a))??\n((aab))??"},
}

func spellLen() int {
	if sym.Thorough() {
		return 10
	}
	return 8
}

// C04_Spell: every text of 8 bytes (thorough: 10) over two letters and the blank, after the first
// two words: a match is a reading of its pattern with the documented corrections only.
func C04_Spell(j int) {
	s := "x y " + sym.StringIn(spellLen(), "ab ")
	if spellSets[j][0][0] == 'a' {
		s = s[4:]
	}
	sym.Observe("text", s)
	m := cur.re.Match(s)
	observe(m)
	t, ws := spelled(s)
	wellFormed(m, len(ws), len(cur.as))
	sound(m, cur.as, t)
}

func C04_Spell_N() int      { return len(spellSets) }
func C04_Spell_Setup(j int) { setup(spellSets[j]) }

// alnum is an arbitrary ASCII letter or digit.
func alnum(n int) string {
	b := sym.Bytes(n)
	for _, c := range b {
		sym.Assume(sym.Or(sym.And('0' <= c, c <= '9'), sym.Or(sym.And('a' <= c, c <= 'z'), sym.And('A' <= c, c <= 'Z'))))
	}
	return string(b)
}

// only checks that there is one match, of the first pattern, with the first end words, if found,
// and none otherwise.
func only(m *match.Matches, found bool, end int) {
	if len(m.List) == 0 {
		sym.Assert(!found, "an accepted spelling is not accepted")
		sym.Cover("refused")
		return
	}
	sym.Assert(found, "a spelling is accepted that is not a near-miss")
	sym.Assert(len(m.List) == 1 && m.List[0].Start == 0 && m.List[0].End == end, "the extent of a match")
	sym.Cover("accepted")
}

var wants = []string{"abcd", "aaaa", "word", "notice", "abc", "abcde", "ab", "aab", "the", "c", "copyright", "copy", "http", "q7", "2019", "v2a1", "10"}

// C11_Near: an arbitrary ASCII word of two bytes less to two more in the place of each of wants.
func C11_Near(j int) {
	want := wants[j/5]
	n := len(want) + j%5 - 2
	if n < 1 {
		n = len(want) + 3
	}
	h := alnum(n)
	sym.Observe("have", h)
	m := cur.re.Match("x y " + h + " vvv z")
	observe(m)
	w := ref.Split(h)[0].S
	exact := equal(w, want)
	nr := near(want, lower(h))
	if equal(lower(h), want+"vvv") {
		only(m, true, 3)
		return
	}
	only(m, sym.Or(exact, nr), 4)
}

func C11_Near_N() int      { return 5 * len(wants) }
func C11_Near_Setup(j int) { setup([]string{"x y " + wants[j/5] + " vvv"}) }

// C11_Sym: every pattern word of 1 to 5 bytes over two letters, every word of the text likewise.
func C11_Sym(j int) {
	want := sym.StringIn(1+j/5, "ab")
	h := sym.StringIn(1+j%5, "abB")
	sym.Observe("want", want)
	sym.Observe("have", h)
	re := compile([]string{"x y " + want + " vvv"})
	m := re.Match("x y " + h + " vvv z")
	observe(m)
	only(m, sym.Or(equal(lower(h), want), near(want, lower(h))), 4)
}

func C11_Sym_N() int { return 25 }

// letter is an arbitrary letter of n bytes, out of four.
func letter(n int) string {
	switch n {
	case 1:
		return sym.StringIn(1, "abcd")
	case 2:
		return "\xd0" + sym.StringIn(1, "\xb0\xb1\xb2\xb3")
	}
	return "\xe4\xb8" + sym.StringIn(1, "\xad\xae\xaf\xb0")
}

// wide is a word of letters of these sizes.
func wide(sizes string) string {
	w := ""
	for i := 0; i < len(sizes); i++ {
		w += letter(int(sizes[i] - '0'))
	}
	return w
}

var wides = []string{"22", "12", "112", "3", "13", "31", "23", "211", "222", "122", "1122", "33"}

// C11_Wide: words of letters of one to three bytes, in the pattern and in the text: it is bytes that
// count, after folding.
func C11_Wide(j int) {
	want := wide(wides[j])
	h := wide(wides[sym.Conc(sym.Choice(len(wides)))])
	sym.Observe("want", want)
	sym.Observe("have", h)
	re := compile([]string{"x y " + want + " vvv"})
	m := re.Match("x y " + h + " vvv z")
	observe(m)
	only(m, sym.Or(equal(h, want), near(want, h)), 4)
}

func C11_Wide_N() int { return len(wides) }

var longSets = [][]string{
	{"x y noninfringement of"},
	{"x y non infringement\n((of))??\nz"},
	{"x y sub qqqqqqqqse z"},
	{"x y __1__ sublicenses z"},
	{"x y copyrightholder z", "x y copyright holder z"},
}

var longLens = []int{15, 15, 13, 11, 15}

// C04_Long: two arbitrary words together as long as (thorough: and one shorter and longer) the longer
// words of patterns, in the place of them.
func C04_Long(j int) {
	n := longLens[j%5] + []int{0, 1, -1}[j/5]
	h := alnum(n)
	seps, tails := []string{" "}, []string{" of z"}
	cut := []int{1, 3, n / 2, 9, n - 1}[sym.Conc(sym.Choice(5))]
	if sym.Thorough() {
		cut = 1 + sym.Conc(sym.Choice(n-1))
		seps, tails = []string{" ", "-\n"}, []string{" z", " of z"}
	}
	s := "x y " + h[:cut] + seps[sym.Conc(sym.Choice(len(seps)))] + h[cut:] + tails[sym.Conc(sym.Choice(len(tails)))]
	sym.Observe("text", s)
	m := cur.re.Match(s)
	observe(m)
	t, ws := spelled(s)
	wellFormed(m, len(ws), len(cur.as))
	sound(m, cur.as, t)
}

func C04_Long_N() int {
	if sym.Thorough() {
		return 15
	}
	return 5
}

func C04_Long_Setup(j int) { setup(longSets[j%5]) }

var joins = []string{"abcd", "ab", "notice", "noninfringement", "aaaa", "copyright", "http", "c7d"}

// C11_Join: two arbitrary words, of together one byte less to one more, in the place of one.
func C11_Join(j int) {
	want := joins[j/3]
	n := len(want) + j%3 - 1
	if n < 2 {
		return
	}
	cut := 1 + sym.Conc(sym.Choice(n-1))
	h := alnum(n)
	for i := range h {
		sym.Assume(sym.And(h[i] != 'v', h[i] != 'V'))
	}
	a, b := h[:cut], h[cut:]
	sep := []string{" ", "-", "-\n", "</b>"}[sym.Choice(4)]
	sym.Observe("have", a+sep+b)
	m := cur.re.Match("x y " + a + sep + b + " vvv z")
	observe(m)
	// The pair of words "copyright" "copyright" counts once; not here: it is too long.
	only(m, equal(lower(h), want), 5)
}

func C11_Join_N() int      { return 3 * len(joins) }
func C11_Join_Setup(j int) { setup([]string{"x y " + joins[j/3] + " vvv"}) }

// C11_Split: an arbitrary word in the place of two.
func C11_Split(j int) {
	p := splits[j/3]
	n := len(p[0]) + len(p[1]) + j%3 - 1
	h := alnum(n)
	sym.Observe("have", h)
	m := cur.re.Match("x y " + h + " vvv z")
	observe(m)
	only(m, equal(lower(h), p[0]+p[1]), 4)
}

var splits = [][2]string{{"and", "or"}, {"a", "b"}, {"non", "infringement"}, {"ab", "abab"}, {"sub", "license"}}

func C11_Split_N() int { return 3 * len(splits) }
func C11_Split_Setup(j int) {
	p := splits[j/3]
	setup([]string{"x y " + p[0] + " " + p[1] + " vvv"})
}

// C11_Exact: a word that is expected as it stands is not corrected to the other expected word;
// and what is corrected to one of them must go on as that one.
func C11_Exact(j int) {
	x := exacts[j]
	h := sym.StringIn(x.n, "abcd")
	t := sym.ByteIn("efg")
	sym.Observe("have", h)
	m := cur.re.Match("x y " + h + " " + string([]byte{t}) + " hh z")
	observe(m)
	e0, e1 := equal(h, x.w0), equal(h, x.w1)
	n0, n1 := near(x.w0, h), near(x.w1, h)
	first, second := t == 'e', t == 'f'
	may := sym.Or(sym.And(first, sym.Or(e0, sym.And(sym.Not(e1), n0))),
		sym.And(second, sym.Or(e1, sym.And(sym.Not(e0), n1))))
	// A word near to both is taken for either.
	both := sym.And(sym.And(n0, n1), sym.Not(sym.Or(e0, e1)))
	if len(m.List) == 0 {
		sym.Assert(sym.Implies(may, both), "an accepted spelling is not accepted")
		sym.Cover("refused")
		return
	}
	sym.Assert(may, "an expected word is taken for another")
	sym.Assert(len(m.List) == 1 && m.List[0].Start == 0 && m.List[0].End == 5, "the extent of a match")
	sym.Cover("accepted")
}

var exacts = []struct {
	w0, w1 string
	n      int
}{
	{"abcd", "abcc", 4}, {"abcd", "abcc", 5}, {"abcd", "abc", 4}, {"abcd", "abc", 3},
	{"abc", "abcd", 4}, {"aaaa", "aaab", 4}, {"abab", "baba", 4}, {"abab", "baba", 5},
	{"abab", "ababc", 5}, {"ababc", "abab", 4},
}

func C11_Exact_N() int { return len(exacts) }
func C11_Exact_Setup(j int) {
	x := exacts[j]
	setup([]string{"x y\n((" + x.w0 + " e || " + x.w1 + " f))\nhh"})
}

// C11_First: the first two words of a pattern are never corrected, split or joined.
func C11_First(j int) {
	n1, n2 := 3+j/3, 4
	if j%3 == 1 {
		n1, n2 = 4, 3+j/3
	} else if j%3 == 2 {
		n1, n2 = 3+j/3, 8-3-j/3
	}
	h1, h2 := alnum(n1), alnum(n2)
	sep := " "
	if j%3 == 2 && sym.Bool() {
		sep = ""
	}
	sym.Observe("have", h1+sep+h2)
	m := cur.re.Match(h1 + sep + h2 + " ij z")
	observe(m)
	only(m, sym.And(sep == " ", sym.And(equal(lower(h1), "abcd"), equal(lower(h2), "efgh"))), 3)
}

func C11_First_N() int      { return 9 }
func C11_First_Setup(j int) { setup([]string{"abcd efgh ij"}) }

var copies = []string{"c", "C", "(c)", "(C)", "c.", "c)", "&copy;", "©", "copyright", "COPYRIGHT", "(c) copyright", "copyright ©", "Copyright (c)", "copyrigh"}

// C11_Copy: c and a copyright sign or word stand for each other inside a match, but not at its start.
func C11_Copy(j int) {
	t := copies[sym.Conc(sym.Choice(len(copies)))]
	want := []string{"c", "copyright", "(c)", "&copy;", "©"}[j%5]
	sym.Observe("have", t)
	sign := want != "c" // a copyright word is expected
	tsign := !(t == "c" || t == "C" || t == "c." || t == "c)")
	if j < 5 {
		re := compile([]string{"x y " + want + " vvv"})
		m := re.Match("x y " + t + " vvv z")
		observe(m)
		only(m, t != "copyrigh" || sign, 4)
		return
	}
	re := compile([]string{want + " vvv"})
	m := re.Match(t + " vvv z")
	observe(m)
	only(m, t != "copyrigh" && sign == tsign, 2)
}

func C11_Copy_N() int { return 10 }

// Words of other patterns, all of them near-misses of each other or of one of wants.
const kin = "abcd abce abcde abcf abc bcd aaaa aaab aaa aaaaa word ward words sword notice notices notics motice " +
	"copyright copyrights copyrigh noninfringement noninfringment noninfringements license licence licenses licensed"

var kins = strings.Fields(kin)

// C11_Kin: words that are near-misses of the expected one are corrected, even if other patterns have them,
// and in whatever place; an arbitrary byte more, or other case, does not change that.
func C11_Kin(j int) {
	want := kins[j]
	h := kins[sym.Conc(sym.Choice(len(kins)))]
	p := []int{0, 2, len(h) - 1}[sym.Conc(sym.Choice(3))]
	b := []byte(h)
	b[p] = sym.ByteIn(string([]byte{h[p], h[p] - 'a' + 'A', 'f', 'e'}))
	h = string(b)
	sym.Observe("have", h)
	m := cur.re.Match("x y " + h + " vvv z")
	observe(m)
	only(m, sym.Or(equal(lower(h), want), near(want, lower(h))), 4)
}

func C11_Kin_N() int { return len(kins) }
func C11_Kin_Setup(j int) {
	setup([]string{"q q " + kin, "x y " + kins[j] + " vvv", "q q vvv\n((" + kins[(j+1)%len(kins)] + "))??"}[1-j%2:])
}
