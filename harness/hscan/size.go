package hscan

import (
	"strings"

	"github.com/google/licensecheck"
	"github.com/google/licensecheck/internal/verif/sym"
)

// unit is a line that can be repeated, with its number of words and its matches.
type unit struct {
	text    string
	words   int
	matched int
	m       []licensecheck.Match
}

var units = []unit{
	{"q a b r\n", 4, 2, []licensecheck.Match{{ID: "A", Start: 2, End: 5}}},
	{"q http://x.org/l r\n", 6, 4, []licensecheck.Match{{ID: "U", Start: 2, End: 16, IsURL: true}}},
	{"a b.\n", 2, 2, []licensecheck.Match{{ID: "A", Start: 0, End: 5}}},
	{"d d, b d e\n", 5, 5, []licensecheck.Match{{ID: "V", Start: 0, End: 3}, {ID: "B", Start: 5, End: 11}}},
	{"q (c) r a b\nt ", 6, 4, []licensecheck.Match{{ID: "A", Start: 2, End: 12}}},
	{"q <i> r -\r\n", 2, 0, nil},
}

func repeats() []int {
	if sym.Thorough() {
		return []int{34, 70, 130, 260, 520, 1030, 2050, 4100, 13200}
	}
	return []int{34, 130, 1030, 4100}
}

// many scans a number of equal lines, with something else before and after them.
func many(j int, f func(text string, c coverage, want []licensecheck.Match, words, matched int)) {
	u := units[j]
	cs := repeats()
	k := len(cs)
	if !sym.Thorough() && len(u.m) > 0 {
		k--
	}
	n := cs[sym.Conc(sym.Choice(k))]
	pre := []string{"t ", "t\n"}[sym.Conc(sym.Choice(2))]
	post := []string{"t" + sym.StringIn(1, " \n") + "a b", "t z" + sym.StringIn(1, "zy"), "t a b" + sym.StringIn(1, " \n") + "d"}[sym.Conc(sym.Choice(3))]
	text := pre + strings.Repeat(u.text, n) + post
	sym.Observe("n", n)
	sym.Observe("post", post)
	c := scan([]byte(text))
	var want []licensecheck.Match
	off := len(pre)
	for i := 0; i < n; i++ {
		for _, m := range u.m {
			want = append(want, licensecheck.Match{ID: m.ID, Start: m.Start + off, End: m.End + off, IsURL: m.IsURL})
		}
		off += len(u.text)
	}
	words, matched := 1+n*u.words, n*u.matched
	if pre == "t " && len(u.m) > 0 && u.m[0].Start == 0 {
		// The first match begins in mid-line: the same place.
		sym.Cover("mid-line")
	}
	switch {
	case len(post) == 4:
		words += 2
	case len(post) == 7:
		words += 4
		matched += 2
		m := licensecheck.Match{ID: "A", Start: off + 2, End: off + 5}
		if post[5] == '\n' {
			m.End++
		}
		want = append(want, m)
	default:
		words += 3
		matched += 2
		want = append(want, licensecheck.Match{ID: "A", Start: off + 2, End: len(text)})
	}
	f(text, c, want, words, matched)
}

// C01_Size: thousands of matches, each of which is where it should be.
func C01_Size(j int) {
	many(j, func(text string, c coverage, want []licensecheck.Match, words, matched int) {
		sym.Assert(len(c.Match) == len(want), "the number of many matches")
		for i, m := range c.Match {
			sym.Assert(m.ID == want[i].ID && m.IsURL == want[i].IsURL, "one of many matches names the wrong license")
			sym.Assert(m.Start == want[i].Start && m.End == want[i].End, "the place of one of many matches")
			for _, l := range list {
				sym.Assert(l.ID != m.ID || l.Type == m.Type, "the type of one of many matches")
			}
		}
	})
}

func C01_Size_N() int      { return len(units) }
func C01_Size_Setup(j int) { setup(lists[0]) }

// C02_Size: the percentage of texts of thousands of words and matches.
func C02_Size(j int) {
	many(j, func(text string, c coverage, want []licensecheck.Match, words, matched int) {
		sym.Observe("percent", c.Percent)
		d := c.Percent - 100*float64(matched)/float64(words)
		sym.Assert(-1e-9 < d && d < 1e-9, "the percentage of a large text")
		sym.Assert(matched == 0 && c.Percent == 0 || matched > 0 && 0 < c.Percent && c.Percent < 100, "the percentage of a part of a large text")
	})
}

func C02_Size_N() int      { return len(units) }
func C02_Size_Setup(j int) { setup(lists[0]) }

// C13_Size: up to 33000 (thorough: 66000) bytes without words before and after a match, with a line end
// at the beginning, in the middle, at the end of them, or none.
func C13_Size(j int) {
	ns := []int{66, 300, 1100, 4200}
	if sym.Thorough() {
		ns = append(ns, 33000, 66000)
	}
	fill := []string{" ", "<b>", "\u2014", "&lt;"}[j/2]
	n := ns[sym.Conc(sym.Choice(len(ns)))] / len(fill)
	gap := func() string {
		g := strings.Repeat(fill, n)
		nl := sym.StringIn(1, "\n\r")
		switch sym.Conc(sym.Choice(4)) {
		case 0:
			return nl + g
		case 1:
			return g[:n/2*len(fill)] + nl + g[n/2*len(fill):]
		case 2:
			return g + nl
		}
		return g
	}
	a := ""
	if j%2 == 1 {
		a = "copyright" + strings.Repeat(fill, n) + "."
	}
	g1, g2 := gap(), gap()
	a += "a b"
	text := "q" + g1 + a + g2 + "r"
	sym.Observe("n", n)
	c := scan([]byte(text))
	sym.Assert(len(c.Match) == 1, "a match far from other words")
	lo := 1 + len(g1)
	for i := lo - 1; i > 0; i-- {
		if text[i] == '\n' {
			lo = i + 1
			break
		}
	}
	if lo == 1+len(g1) {
		sym.Cover("mid-line")
	}
	hi := 1 + len(g1) + len(a)
	for i := hi; i < len(text)-1; i++ {
		if text[i] == '\n' {
			hi = i + 1
			break
		}
	}
	sym.Assert(c.Match[0].Start == lo, "the beginning of a match far from other words")
	sym.Assert(c.Match[0].End == hi, "the end of a match far from other words")
	sym.Cover("match")
}

func C13_Size_N() int      { return 8 }
func C13_Size_Setup(j int) { setup(lists[0]) }

var longURL string

func longList(j int) []license {
	ns := []int{66, 130, 260, 520, 1030, 2050}
	n := ns[j/4]
	switch j % 4 {
	case 0:
		longURL = "x.org/" + strings.Repeat("p", n)
	case 1:
		longURL = "x.org" + strings.Repeat("/p", n/2)
	case 2:
		longURL = strings.Repeat("h", n) + ".com/l"
	case 3:
		longURL = strings.Repeat("h.", n/2) + "com/l"
	}
	return []license{
		{ID: "A", LRE: "a b"},
		{ID: "S", Type: licensecheck.Notice, URL: longURL[:len(longURL)-1]},
		{ID: "L", Type: licensecheck.ShareServer, URL: longURL},
	}
}

var afters = []struct {
	s     string
	known bool
}{
	{"", true}, {"/", true}, {"/z", true}, {"/z/", true}, {"/z/y", false}, {"/legalcode", true}, {"/z/legalcode/", true}, {"z", false}, {"//", true},
}

// C12_Size: license URLs of up to 300 bytes (thorough: 2050), with more after them.
func C12_Size(j int) {
	x := afters[sym.Conc(sym.Choice(len(afters)))]
	u := longURL
	p := []int{-1, len(u) - 1, len(u) / 2}[sym.Conc(sym.Choice(3))]
	t := []byte(u)
	ok := x.known
	if p >= 0 && t[p] != '.' && t[p] != '/' {
		c := sym.ByteIn("PpHhLl")
		ok = sym.And(ok, low(c) == t[p])
		t[p] = c
	}
	text := "q http://" + string(t) + x.s + " r"
	c := scan([]byte(text))
	sym.Observe("after", x.s)
	if len(c.Match) == 0 {
		sym.Assert(sym.Not(ok), "a long license URL is not recognised")
		sym.Cover("not known")
		return
	}
	sym.Assert(ok, "a long URL is taken for a license URL")
	sym.Assert(len(c.Match) == 1 && c.Match[0].ID == "L" && c.Match[0].Type == licensecheck.ShareServer && c.Match[0].IsURL, "a long license URL")
	end := len(text) - 2
	if x.s == "//" {
		end--
	}
	sym.Assert(c.Match[0].Start == 2 && c.Match[0].End == end, "the extent of a long URL")
	sym.Cover("known")
}

func C12_Size_N() int {
	if sym.Thorough() {
		return 24
	}
	return 12
}
func C12_Size_Setup(j int) { setup(longList(j)) }

// C12_Many: lists of up to 1030 URLs: those of three arbitrary last digits.
func C12_Many(j int) {
	n := []int{33, 130, 260, 1030}[j]
	var l []license
	l = append(l, license{ID: "A", LRE: "a b"})
	for i := 0; i < n; i++ {
		l = append(l, license{ID: "N" + number(i), Type: licensecheck.Type(1 + i%5), URL: "x.org/l/" + number(i)})
	}
	s, err := licensecheck.NewScanner(l)
	sym.Assert(err == nil, "a list with many URLs is refused")
	d := string([]byte{sym.ByteIn("018"), sym.ByteIn("029"), sym.ByteIn("0239"), sym.ByteIn("019")})
	v := 0
	for i := range d {
		v = 10*v + int(d[i]-'0')
	}
	c := s.Scan([]byte("q http://x.org/l/" + d + " r"))
	v = sym.Conc(v)
	sym.Observe("v", v)
	if v >= n {
		sym.Assert(len(c.Match) == 0, "a URL that is in no list is recognised")
		sym.Cover("not known")
		return
	}
	sym.Assert(len(c.Match) == 1 && c.Match[0].ID == "N"+number(v) && c.Match[0].Type == licensecheck.Type(1+v%5), "one of many URLs is not recognised")
	sym.Cover("known")
}

func C12_Many_N() int { return 4 }

// number is i in four digits.
func number(i int) string {
	return string([]byte{'0' + byte(i/1000%10), '0' + byte(i/100%10), '0' + byte(i/10%10), '0' + byte(i%10)})
}

// C26_Size: sections up to 66000 bytes apart.
func C26_Size(j int) {
	ns := []int{1030, 4100}
	if sym.Thorough() {
		ns = []int{1030, 4100, 32000}
	}
	a := []string{"a b z b d e", "copyright b z e\n", "http://x.org/l"}[j/2] + " "
	b := []string{"http://x.org/l ", "a b ", "(c) b d "}[sym.Conc(sym.Choice(3))] + sym.StringIn(1, "ez")
	apart(a, b, ns[sym.Conc(sym.Choice(len(ns)))])
}

func C26_Size_N() int      { return 6 }
func C26_Size_Setup(j int) { setup(lists[j%2]) }

// C26_Far: two sections 70000 (thorough: 140000) foreign words apart, where 16 (17) bits have overflown.
func C26_Far(j int) {
	n := 70000
	if sym.Thorough() {
		n = 140000
	}
	a, b := []string{"a b\n", "a b\n", "http://x.org/l\n"}[j%3], []string{"a b", "http://x.org/l", "a b"}[j%3]
	sep := strings.Repeat([]string{"q ", "- q\n"}[j/3], n) + strings.Repeat("q ", 60) + "\n"
	text := a + sep + b + sym.StringIn(1, " \n")
	sym.Observe("n", n)
	c := scan([]byte(text))
	sym.Assert(len(c.Match) == 2, "a match is lost very far from another")
	lo, hi := len(a+sep), len(a+sep+b)
	if j%3 != 1 {
		hi = len(text)
	}
	end := len(a)
	if j%3 == 2 {
		end--
	}
	sym.Assert(c.Match[0].Start == 0 && c.Match[0].End == end && c.Match[0].IsURL == (j%3 == 2), "the first of two matches very far apart")
	sym.Assert(c.Match[1].Start == lo && c.Match[1].End == hi && c.Match[1].IsURL == (j%3 == 1), "the second of two matches very far apart")
	sym.Cover("far")
}

func C26_Far_N() int {
	if sym.Thorough() {
		return 6
	}
	return 3
}

func C26_Far_Setup(j int) { setup(lists[0]) }

var equalSizes = []int{60, 300, 1100, 2200}

func equalText(n int) string { return strings.Repeat("alpha beta gamma ", n/3) }

// C05_Equal: of three patterns of up to 1100 (thorough: 2200) words that allow the same text the first in the
// list is reported, whichever of them is written the longest.
func C05_Equal(j int) {
	text := equalText(equalSizes[j/3]) + "delt" + sym.StringIn(1, "ax ") + " q"
	c := scan([]byte(text))
	sym.Observe("text", text[len(text)-8:])
	sym.Assert(len(c.Match) == 1, "a long pattern is not found")
	sym.Assert(c.Match[0].ID == "1", "of equal long patterns not the first is reported")
	sym.Cover("first")
}

func C05_Equal_N() int {
	if sym.Thorough() {
		return 12
	}
	return 9
}

func C05_Equal_Setup(j int) {
	t := equalText(equalSizes[j/3]) + "delta"
	ts := []string{t, t + "\n//** a note that is quite long **//", "//** a note **//\n" + t}
	var l []license
	for i, id := range []string{"1", "2", "3"} {
		l = append(l, license{ID: id, LRE: ts[(i+j)%3]})
	}
	setup(l)
}
