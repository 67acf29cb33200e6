// Package hold holds the harnesses for the old checker (C21, C22).
package hold

import (
	"unicode"
	"unicode/utf8"

	"github.com/google/licensecheck/internal/verif/sym"
	"github.com/google/licensecheck/old"
)

// A word of a normalised text, and its place. A blank is "___".
type word struct {
	s      string
	lo, hi int
}

func lowerASCII(c byte) byte {
	return sym.IteByte(sym.And('A' <= c, c <= 'Z'), c+('a'-'A'), c)
}

// lower is the lower case of a rune, if that has the same size.
func lower(r rune, size int) rune {
	l := unicode.ToLower(r)
	if utf8.RuneLen(l) != size {
		return r
	}
	return l
}

func isMarker(w string) bool {
	if len(w) > 4 {
		return false
	}
	if len(w) == 1 {
		return sym.And('a' <= w[0], w[0] <= 'r')
	}
	for _, m := range []string{"ii", "iii", "iv", "vi", "vii", "viii", "ix", "xi", "xii", "xiii", "xiv", "xv"} {
		if w == m {
			return true
		}
	}
	return false
}

// normal is the reference for C22.
func normal(text string) []word {
	var ws []word
	for i := 0; i < len(text); {
		if i+3 <= len(text) && text[i] == '_' && text[i+1] == '_' && text[i+2] == '_' {
			ws = append(ws, word{"___", i, i + 3})
			i += 3
			continue
		}
		if text[i] == '&' {
			skip := 0
			for _, e := range []string{"&ldquo;", "&rdquo;", "&amp;"} {
				if i+len(e) <= len(text) {
					same := true
					for k := range e {
						same = sym.And(same, lowerASCII(text[i+k]) == e[k])
					}
					if same {
						skip = len(e)
					}
				}
			}
			if skip > 0 {
				i += skip
				continue
			}
		}
		r, n := utf8.DecodeRuneInString(text[i:])
		if !unicode.IsLetter(r) {
			i += n
			continue
		}
		lo := i
		var w []byte
		end := rune(' ')
		for i < len(text) {
			r, n := utf8.DecodeRuneInString(text[i:])
			if !unicode.IsLetter(r) {
				end = r
				break
			}
			w = append(w, string(lower(r, n))...)
			i += n
		}
		s := string(w)
		if i < len(text) && isMarker(s) && (end == '.' || end == ':' || end == ')') {
			continue
		}
		ws = append(ws, word{s, lo, i})
	}
	return ws
}

// run looks for the longest piece of lic, of at least min words, in ws, and returns its place.
func run(ws []word, lic []string, min int) (int, int) {
	bi, bn := -1, 0
	for i := range ws {
		for k := range lic {
			n := 0
			for i+n < len(ws) && k+n < len(lic) && ws[i+n].s == lic[k+n] {
				n++
			}
			if n >= min && n > bn {
				bi, bn = i, n
			}
		}
	}
	return bi, bn
}

var lists = [][]old.License{
	{
		{Name: "MIT", Text: "alpha beta gamma"},
		{Name: "U", URL: "x.org/l"},
		{Name: "BSD-x", Text: "beta ___ delta epsilon", URL: "x.org/l/m"},
	},
	{
		{Name: "U", URL: "x.org/l"},
		{Name: "AGPL", Text: "alpha beta ___ gamma delta"},
		{Name: "AGPL-2", Text: "alpha beta gamma delta alpha beta"},
		{Name: "E", Text: " . "},
		{Name: "CC", Text: "gamma"},
	},
	{
		{Name: "Z", Text: "beta ___ alpha ___ gamma delta ___"},
		{Name: "Y", Text: "___ ___ delta ___"},
		{Name: "X", Text: "alpha alpha alpha beta"},
	},
	{},
	{{Name: "U", URL: "x.org/l"}},
}

func observe(text string, c old.Coverage, ok bool) {
	sym.Observe("text", text)
	sym.Observe("percent", c.Percent)
	sym.Observe("any", ok)
	for _, m := range c.Match {
		sym.Observe("match", m.Name)
		sym.Observe("start", m.Start)
		sym.Observe("end", m.End)
	}
}

// check is C21.
func check(list []old.License, text string, opts old.Options) {
	checkWith(old.New(list), list, text, opts)
}

var cur *old.Checker

func checkWith(c *old.Checker, list []old.License, text string, opts old.Options) {
	cov, ok := c.Cover([]byte(text), opts)
	observe(text, cov, ok)
	sym.Assert(ok == (len(cov.Match) > 0), "whether there is a match")
	sym.Assert(0 <= cov.Percent && cov.Percent <= 100, "the overall percentage")
	ws := normal(text)
	threshold := float64(opts.Threshold)
	if opts.Threshold <= 0 {
		threshold = 40
	}
	min := opts.MinLength
	if min <= 0 {
		min = 10
	}
	if min < 2 {
		min = 2
	}
	prev := 0
	for _, m := range cov.Match {
		sym.Assert(prev <= m.Start && m.Start < m.End && m.End <= len(text), "matches in range, in order, disjoint")
		prev = m.End
		named := false
		for _, l := range list {
			if l.Name != m.Name {
				continue
			}
			if m.IsURL {
				named = named || l.URL != ""
				continue
			}
			// The words of the match have a piece of the license.
			var in []word
			for _, w := range ws {
				if w.lo >= m.Start && w.lo <= m.End && w.hi <= m.End {
					in = append(in, w)
				}
			}
			if _, n := run(in, texts(l.Text), min); n >= min {
				named = true
			}
		}
		sym.Assert(named, "a match does not name a license with its words")
		if m.IsURL {
			sym.Assert(m.Percent == 100, "the percentage of a URL")
			sym.Cover("URL")
		} else {
			sym.Assert(m.Percent >= threshold && m.Percent <= 100, "the percentage of a match")
			sym.Cover("match")
		}
	}
	if len(cov.Match) == 0 {
		sym.Cover("no match")
	}
	sym.Assert(cov.Percent == overall(ws, cov), "the overall percentage is not that of the words covered")
}

// overall is the percentage of the words that are in a match of a text, or in a gap between such
// matches that has a URL.
func overall(ws []word, c old.Coverage) float64 {
	if len(ws) == 0 {
		return 0
	}
	n, from := 0, 0
	url := false
	for _, m := range c.Match {
		if m.IsURL {
			url = true
			continue
		}
		lo, hi := 0, 0
		for _, w := range ws {
			if w.lo < m.Start {
				lo++
			}
			if w.lo < m.End {
				hi++
			}
		}
		if url {
			n += lo - from
		}
		n += hi - lo
		from, url = hi, false
	}
	if url {
		n += len(ws) - from
	}
	return 100 * float64(n) / float64(len(ws))
}

// texts splits one of the license texts above.
func texts(s string) []string {
	var r []string
	for _, w := range normal(s) {
		r = append(r, w.s)
	}
	return r
}

var tokens = []string{
	"alpha ", "beta ", "gamma ", "delta ", "___ ", "z ", "epsilon\n", "http://x.org/l ", "https://x.org/l/m", "a. ", "\u00e9\xff",
}

// C21_Tokens: every sequence of 4 tokens (thorough: 5), with a minimal run of two words and any
// threshold and slop of a few.
func C21_Tokens(j int) {
	text := tokens[j/3]
	n := 4
	if sym.Thorough() {
		n = 5
	}
	for i := 1; i < n; i++ {
		text += tokens[sym.Conc(sym.Choice(len(tokens)))]
	}
	slop := []int{1, 2, 70}[j%3]
	checkWith(cur, lists[j%3], text, old.Options{MinLength: 2, Threshold: []int{1, 60, 100}[(j/3)%3], Slop: slop})
}

func C21_Tokens_Setup(j int) { cur = old.New(lists[j%3]) }

func C21_Tokens_N() int { return 3 * len(tokens) }

// C21_Gaps: pieces of a license with gaps between them, and options of all kinds.
func C21_Gaps(j int) {
	text := pieces[j/9]
	gaps := []int{0, 2, 1, 4}
	if !sym.Thorough() {
		gaps = gaps[:2]
	}
	for i := 0; i < 2; i++ {
		for k := gaps[sym.Conc(sym.Choice(len(gaps)))]; k > 0; k-- {
			text += "z "
		}
		text += pieces[sym.Conc(sym.Choice(len(pieces)))]
	}
	opts := old.Options{
		MinLength: 2,
		Threshold: []int{1, 50, 75, 100}[sym.Conc(sym.Choice(4))],
		Slop:      []int{1, 3, 70}[j/3%3],
	}
	if sym.Thorough() {
		opts.MinLength += sym.Conc(sym.Choice(2))
	}
	sym.Observe("slop", opts.Slop)
	checkWith(cur, lists[j%3], text, opts)
}

var pieces = []string{"", "alpha beta ", "___ gamma delta ", "gamma delta alpha beta ", "beta ", "http://x.org/l "}

func C21_Gaps_Setup(j int) { cur = old.New(lists[j%3]) }

func C21_Gaps_N() int { return 9 * len(pieces) }

// C21_Options: arbitrary options on texts that match in several ways.
func C21_Options(j int) {
	opts := old.Options{
		MinLength: sym.Int(-2, 8),
		Threshold: sym.Int(-2, 130),
		Slop:      sym.Int(-2, 90),
	}
	sym.Observe("min", opts.MinLength)
	sym.Observe("threshold", opts.Threshold)
	sym.Observe("slop", opts.Slop)
	check(lists[j%len(lists)], optTexts[j/len(lists)], opts)
}

var optTexts = []string{
	"alpha beta gamma delta alpha beta gamma delta",
	"alpha beta z z z gamma delta http://x.org/l",
	"beta z alpha z z gamma delta ___ alpha alpha alpha beta",
	"alpha beta ___ ___ delta ___ gamma delta epsilon http://x.org/l/m z http://x.org/l/z/",
}

func C21_Options_N() int { return len(lists) * len(optTexts) }

func fill(s string) string {
	var b []byte
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '#':
			b = append(b, sym.Byte())
		case '~':
			b = append(b, specials[sym.Conc(sym.Choice(len(specials)))]...)
		default:
			b = append(b, s[i])
		}
	}
	return string(b)
}

// Characters and bytes that texts have and code is tempted to treat in a way of their own.
var specials = []string{
	"", " ", "\ufeff", "\u200b", "\u200c", "\u00a0", "\u00ad", "\u2028", "\u0085", "\u3000", "\u2019", "\u201c", "\u2014", "\u00ae",
	"\u2122", "\u202e", "\ufffd", "\xff\xfe", "\x00", "\x1a", "\f", "\r", "\v", "\x1b[", "#!", "...", "--", "\U0001f600",
}

var frames = []string{
	"##", "###", "alpha beta#gamma#", "#alpha beta##gamma", "alpha beta __# gamma delta", "http://x.org/l##", "#http://x.org/l",
	"http:##x.org/l z", "alpha beta http://x.org/l#", "alpha#beta&am#; gamma", "alpha beta\n#. gamma", "_#_ ___ delta _#_", "http://x.org/l#http://x.org/m",
	"alpha beta http://x.or#/l# gamma delta", "###z alpha beta gamma z", "~alpha beta~gamma", "~http://x.org/l~alpha beta gamma", "gamma##delta", "z#http://x.org/l/m#alpha beta",
}

// C21_Frame: texts with arbitrary bytes.
func C21_Frame(j int) {
	checkWith(cur, lists[j%3], fill(frames[j/3]), old.Options{MinLength: 2, Threshold: 10, Slop: 2})
}

func C21_Frame_Setup(j int) { cur = old.New(lists[j%3]) }

func C21_Frame_N() int { return 3 * len(frames) }

// C21_New: lists of three entries, each with a text, a URL, or both, or neither, in any order.
func C21_New(j int) {
	var l []old.License
	for i := 0; i < 3; i++ {
		k := j % 7
		if i > 0 {
			k = sym.Conc(sym.Choice(len(olds)))
		}
		x := olds[k]
		x.Name = []string{"MIT", "GPL-2", "q"}[i]
		l = append(l, x)
	}
	check(l, fill("alpha beta gamma http://x.org/l#z delta alpha"), old.Options{MinLength: 2, Threshold: 20})
	old.New(l).Cover(nil, old.Options{})
}

var olds = []old.License{
	{},
	{URL: "x.org/l"},
	{Text: "alpha beta gamma"},
	{Text: "delta alpha beta", URL: "x.org/l"},
	{Text: "___"},
	{Text: "1. ?", URL: ""},
	{Text: "gamma ___ delta ___ alpha", URL: "/"},
}

func C21_New_N() int { return len(olds) }

// Texts around the words of one license: the words found are those of the reference, in their place.
var placeFrames = []string{
	"##alpha beta gamma",
	"alpha beta gamma##",
	"z ##alpha beta gamma##z",
	"z alpha##beta gamma z",
	"z alpha beta##gamma z",
	"z alpha beta##; gamma z",
	"z &#mp; alpha beta gamma z",
	"alpha &amp;#beta gamma z",
	"z #ldquo;alpha beta gamma&rdq#o; z",
	"z alpha #. beta gamma",
	"i#. alpha beta gamma z",
	"z alpha x#)beta gamma z",
	"z alp#a beta gamma z",
	"\xc4#z alpha beta gamma z",
	"\xe2\x84# alpha beta gamma\xe2\x84#z",
	"\xc4#alpha beta gamma\xc5# z",
	"z#\xf0\x90\x90#alpha beta gamma z",
	"alpha beta gam#a",
	"z alpha _#_ beta gamma z",
	"z \xe1\xba#lpha beta gamma z",
	"###z alpha beta gamma z",
	"z alpha beta gamma z###",
	"z alpha###beta gamma z",
	"~z~alpha beta gamma z",
	"alpha beta gamma~z~",
	"z~alpha~beta gamma",
	"~alpha beta gamma~",
}

// C22_Places: where arbitrary bytes stand around or between the words of a license.
func C22_Places(j int) {
	text := fill(placeFrames[j])
	lic := []string{"alpha", "beta", "gamma"}
	c := old.New([]old.License{{Name: "MIT", Text: "Alpha, BETA\ngamma."}})
	cov, ok := c.Cover([]byte(text), old.Options{MinLength: 2, Threshold: 1, Slop: 1})
	observe(text, cov, ok)
	ws := normal(text)
	i, n := run(ws, lic, 2)
	if n == 0 {
		sym.Assert(len(cov.Match) == 0, "words are found that are not there")
		sym.Cover("not there")
		return
	}
	sym.Assert(len(cov.Match) == 1, "words that are there are not found")
	m := cov.Match[0]
	start, end := ws[i].lo, ws[i+n-1].hi
	if i == 0 {
		start = 0
		sym.Cover("start of text")
	}
	if i+n == len(ws) {
		end = len(text)
		sym.Cover("end of text")
	}
	sym.Assert(m.Start == start, "the start of a match")
	sym.Assert(m.End == end, "the end of a match")
	d := m.Percent - 100*float64(n)/3
	sym.Assert(-1e-9 < d && d < 1e-9, "the percentage of a match")
	d = cov.Percent - 100*float64(n)/float64(len(ws))
	sym.Assert(-1e-9 < d && d < 1e-9, "the number of words")
	sym.Cover("found")
}

func C22_Places_N() int { return len(placeFrames) }

var blankFrames = []string{
	"alpha ##_ beta gamma z",
	"alpha beta gamma ___##z",
	"z alpha##___ beta gamma",
	"z alpha _____# beta gamma z",
	"z alpha __ _#_ beta gamma z",
	"___#__ alpha ___ beta gamma z",
	"alpha___#eta gamma z",
}

// C22_Blanks: a blank is recorded for each ___ of the text; in the license it stands for itself, too.
func C22_Blanks(j int) {
	text := fill(blankFrames[j])
	lic := []string{"alpha", "___", "beta", "gamma"}
	c := old.New([]old.License{{Name: "MIT", Text: "alpha ___ beta gamma"}})
	cov, ok := c.Cover([]byte(text), old.Options{MinLength: 4, Threshold: 1, Slop: 1})
	observe(text, cov, ok)
	ws := normal(text)
	i, n := run(ws, lic, 4)
	if n == 0 {
		sym.Assert(len(cov.Match) == 0, "words are found that are not there")
		sym.Cover("not there")
		return
	}
	sym.Assert(len(cov.Match) == 1, "words that are there are not found")
	m := cov.Match[0]
	start, end := ws[i].lo, ws[i+n-1].hi
	if i == 0 {
		start = 0
	}
	if i+n == len(ws) {
		end = len(text)
	}
	sym.Assert(m.Start == start && m.End == end, "the place of a match")
	sym.Cover("found")
	d := cov.Percent - 100*float64(n)/float64(len(ws))
	sym.Assert(-1e-9 < d && d < 1e-9, "the number of words")
}

func C22_Blanks_N() int { return len(blankFrames) }

// anyCase is s with each ASCII letter in either case.
func anyCase(s string) string {
	b := []byte(s)
	for i, c := range b {
		if 'a' <= c && c <= 'z' {
			b[i] = sym.IteByte(sym.Bool(), c, c-'a'+'A')
		}
	}
	return string(b)
}

// C22_Case: a text and the same with its letters in any case are covered identically.
func C22_Case(j int) {
	text := caseTexts[j/2]
	c := old.New(lists[j%2])
	opts := old.Options{MinLength: 2, Threshold: 10, Slop: 2}
	want, ok0 := c.Cover([]byte(text), opts)
	other := anyCase(text)
	got, ok1 := c.Cover([]byte(other), opts)
	observe(other, got, ok1)
	sym.Assert(ok0 == ok1 && want.Percent == got.Percent && len(want.Match) == len(got.Match), "another coverage")
	for i := range want.Match {
		sym.Assert(want.Match[i] == got.Match[i], "another match")
		sym.Cover("match")
	}
	sym.Cover("compared")
}

var caseTexts = []string{
	"alpha beta gamma delta",
	"beta z http://x.org/l z",
	"https://x.org/l/m/",
	"a. alpha iv) beta&amp;gamma",
	"&ldquo;beta z delta epsilon&rdquo; x",
	"http://x.org/l/legalcode/ alpha beta z gamma delta",
	"\u00c9alpha beta\u0130gamma alpha beta z",
}

func C22_Case_N() int { return 2 * len(caseTexts) }
