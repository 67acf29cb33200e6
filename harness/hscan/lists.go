package hscan

import (
	"github.com/google/licensecheck"
	"github.com/google/licensecheck/internal/verif/sym"
)

// The licenses that lists are made of: with a pattern, with a URL, or with both.
var parts = []license{
	{ID: "A", Type: licensecheck.Notice, LRE: "a b"},
	{ID: "U", Type: licensecheck.Unrestricted, URL: "x.org/l"},
	{ID: "V", Type: licensecheck.ShareServer, LRE: "d d", URL: "x.org/m"},
	{ID: "B", Type: licensecheck.NonCommercial | licensecheck.Discouraged, LRE: "b d\n((e))??"},
	{Type: licensecheck.ShareProgram},
	{ID: "W", Type: licensecheck.Discouraged, URL: "ab.com/p"},
}

const partText = "a b z d d z b d z http://x.org/l z https://x.org/m/ z http://ab.com/p/q z"

// What each of them matches in partText.
var partMatch = [][]string{
	{"a b"}, {"http://x.org/l"}, {"d d", "https://x.org/m/"}, {"b d"}, nil, {"http://ab.com/p/q"},
}

// C20_Lists: every list of up to 4 distinct licenses (thorough: 5) in every order: each of its
// patterns and URLs is reported where it stands, under its own ID and Type, and nothing else is.
// The Types are arbitrary.
func C20_Lists(j int) {
	n := 4
	if sym.Thorough() {
		n = 5
	}
	in := make([]bool, len(parts))
	types := make([]licensecheck.Type, len(parts))
	var l []license
	p, lres := j, false
	for {
		x := parts[p]
		x.Type ^= licensecheck.Type(sym.Uint64())
		types[p] = x.Type
		in[p] = true
		lres = lres || x.LRE != ""
		l = append(l, x)
		if len(l) == n || sym.Conc(sym.Choice(2)) == 0 {
			break
		}
		p = sym.Conc(sym.Choice(len(parts)))
		if in[p] {
			break
		}
	}
	for _, x := range l {
		sym.Observe("entry", x.ID)
	}
	s, err := licensecheck.NewScanner(l)
	sym.Assert((err == nil) == lres, "a list is refused exactly when it has no pattern")
	if err != nil {
		sym.Cover("no pattern")
		return
	}
	text := partText
	c := s.Scan([]byte(text))
	observe(text, c)
	var want []licensecheck.Match
	for i := range text {
		for p, t := range partMatch {
			for k, m := range t {
				if in[p] && at(text, i, m) && (k == 1 || parts[p].LRE != "" || i > 5) {
					want = append(want, licensecheck.Match{ID: parts[p].ID, Type: types[p], Start: i, End: i + len(m), IsURL: parts[p].LRE == "" || k == 1})
				}
			}
		}
	}
	sym.Assert(len(c.Match) == len(want), "the licenses reported")
	for i := range want {
		sym.Assert(c.Match[i] == want[i], "a license reported")
		sym.Cover("license")
	}
}

func C20_Lists_N() int { return len(parts) }

// C20_Unrelated: entries put anywhere into a list that have nothing in common with the text change
// nothing of what is reported.
func C20_Unrelated(j int) {
	text := fill(unrelatedTexts[j%len(unrelatedTexts)])
	l := lists[j/len(unrelatedTexts)]
	var where int
	var more []license
	if sym.Thorough() {
		where = sym.Conc(sym.Choice(len(l) + 1))
		for i := 1 + sym.Conc(sym.Choice(2)); i > 0; i-- {
			more = append(more, strangers[sym.Conc(sym.Choice(len(strangers)))])
		}
	} else {
		where = []int{0, 2, len(l)}[sym.Conc(sym.Choice(3))]
		if i := sym.Conc(sym.Choice(3)); i == 0 {
			more = strangers
		} else {
			more = strangers[i : i+1]
		}
	}
	var l2 []license
	l2 = append(l2, l[:where]...)
	l2 = append(l2, more...)
	l2 = append(l2, l[where:]...)
	s, err := licensecheck.NewScanner(l2)
	sym.Observe("where", where)
	sym.Assert(err == nil, "a list without defect is refused")
	before := scan([]byte(text))
	observe(text, before)
	sameCoverage(before, s.Scan([]byte(text)))
}

var strangers = []license{
	{},
	{ID: "S1", Type: licensecheck.ShareServer, LRE: "qqqq qqqq"},
	{ID: "S2", Type: licensecheck.Notice, URL: "qqqq.org/qqqq"},
	{ID: "S3", LRE: "uuuu wwww __3__ vvvv", URL: "qqqq.com/q/q"},
}

var unrelatedTexts = []string{
	"a b#b d#e", "z#http://x.org/l# d d", "(c)#b z z e", "a#b http://x.org/l/m#", "d d#a b#", "#copyright#a b", "http#x l#a b",
}

func C20_Unrelated_N() int      { return len(lists) * len(unrelatedTexts) }
func C20_Unrelated_Setup(j int) { setup(lists[j/len(unrelatedTexts)]) }
