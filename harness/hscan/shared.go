package hscan

import (
	"strings"

	"github.com/google/licensecheck"
	"github.com/google/licensecheck/internal/verif/sym"
)

func sameCoverage(a, b coverage) {
	sym.Assert(a.Percent == b.Percent, "another percentage")
	sym.Assert(len(a.Match) == len(b.Match), "other matches")
	for i := range a.Match {
		sym.Assert(a.Match[i] == b.Match[i], "another match")
		sym.Cover("match")
	}
	if len(a.Match) == 0 {
		sym.Cover("no match")
	}
}

// C14_Scan: scans of one scanner write to nothing that they share, and give what one of them gives.
func C14_Scan(j int) {
	s := fill(sharedFrames[j/2])
	text := []byte(s)
	first := scan(text)
	observe(s, first)
	sym.Assert(string(text) == s, "the text is changed")
	sym.Shared(func() {
		sameCoverage(first, scan(text))
	})
	sym.Assert(string(text) == s, "the text is changed")
}

var sharedFrames = append([]string{
	"<##a b", "z\u00c9##\u0301", "&co#y;# a b", "a(s# b#", "[x](#)#a b", "a b d<i\n#\n> d #",
	"HTTP://X.ORG/L# a b #", "http://x.org/l/q#", "http://x.org/l/#/ a b", "http://x.org/l/legalcode# http://x.org/l/#",
	"\xc3\xc3#a b\xe2#",
}, frames...)

func C14_Scan_N() int      { return 2 * len(sharedFrames) }
func C14_Scan_Setup(j int) { setup(lists[j%2]) }

// C14_Tokens: the same for every sequence of 3 tokens (thorough: 4).
func C14_Tokens(j int) {
	s := tokenText(j, tokenCount()-1)
	text := []byte(s)
	first := scan(text)
	observe(s, first)
	sym.Shared(func() {
		sameCoverage(first, scan(text))
	})
	sym.Assert(string(text) == s, "the text is changed")
}

func C14_Tokens_N() int      { return len(tokens) }
func C14_Tokens_Setup(j int) { setup(lists[1]) }

// C14_History: a scan gives what it gives on a fresh scanner, whatever was scanned before.
func C14_History(j int) {
	other := fill([]string{"a b##", "http://x.org/l#", "#d d#", "(c)#a b", "<##", "http://x.org/l/#", "HTTP://x.org/q/r# a b", "http://x.org/l#z"}[j])
	s := fill([]string{"a#b d", "http://x.org/l/#", "z#(c)#b d", "http://x.org/l/q/#", "http://x.org/q#r"}[sym.Conc(sym.Choice(5))])
	sym.Observe("before", other)
	scan([]byte(other))
	got := scan([]byte(s))
	observe(s, got)
	again := scan([]byte(s))
	sameCoverage(got, again)
	fresh, err := licensecheck.NewScanner(list)
	sym.Assert(err == nil, "a list without defect is refused")
	sameCoverage(fresh.Scan([]byte(s)), got)
}

func C14_History_N() int      { return 8 }
func C14_History_Setup(j int) { setup(lists[0]) }

// C14_Builtin: the package's own Scan, from its first call on.
func C14_Builtin(j int) {
	s := fill([]string{"a b#", "http://www.opensource.org/licenses/mi#", "(c)#b z d #", ""}[j])
	text := []byte(s)
	sym.Shared(func() {
		c := licensecheck.Scan(text)
		_ = licensecheck.BuiltinLicenses()
		sameCoverage(c, licensecheck.Scan(text))
	})
	observe(s, licensecheck.Scan(text))
	sym.Assert(string(text) == s, "the text is changed")
}

func C14_Builtin_N() int { return 4 }

// C14_New: making scanners, from the same list or another, and the operations on types write to nothing
// that others use; a scanner does not depend on its list any more, and the list stays as it was.
func C14_New(j int) {
	l := append([]license(nil), lists[j%2]...)
	kept := append([]license(nil), l...)
	text := []byte(fill(newFrames[j/2]))
	one, err := licensecheck.NewScanner(l)
	sym.Assert(err == nil, "a list without defect is refused")
	first := one.Scan(text)
	observe(string(text), first)
	name := fill("No#ice")
	sym.Shared(func() {
		two, err := licensecheck.NewScanner(l)
		sym.Assert(err == nil, "a list without defect is refused")
		sameCoverage(first, two.Scan(text))
		other, err := licensecheck.NewScanner(lists[1-j%2][:3])
		sym.Assert(err == nil, "a list without defect is refused")
		other.Scan(text)
		_, err = licensecheck.NewScanner([]license{{ID: "q", LRE: "a b __2__"}})
		sym.Assert(err != nil, "a list with a defect is accepted")
		typ, _ := licensecheck.ParseType(name)
		_ = typ.Merge(licensecheck.ShareChanges).String()
		sameCoverage(first, one.Scan(text))
	})
	sameLists(l, kept)
	for i := range l {
		l[i] = license{ID: "X", LRE: "d e", URL: "x.org/l"}
	}
	sameCoverage(first, one.Scan(text))
}

var newFrames = []string{"z a b d#", "http://x.org/l# copyright b z e#", "http://x.org/l/m#n d d a copyright", "l a#b HTTPS://AB.COM/p/q#"}

func C14_New_N() int { return 2 * len(newFrames) }

func sameLists(a, b []license) {
	sym.Assert(len(a) == len(b), "the built-in list has another length")
	for i := range a {
		sym.Assert(a[i] == b[i], "another entry of the built-in list")
	}
}

// spoil changes one entry of l.
func spoil(l []license) {
	i := 0
	switch sym.Conc(sym.Choice(3)) {
	case 1:
		i = len(l) - 1
	case 2:
		// The first entry for a URL.
		for l[i].URL == "" {
			i++
		}
	}
	sym.Observe("entry", i)
	switch sym.Conc(sym.Choice(6)) {
	case 0:
		l[i].ID = "X"
	case 1:
		l[i].Type = licensecheck.Type(sym.Uint64())
	case 2:
		l[i].LRE = "q " + fill("$") + " z z"
	case 3:
		l[i].URL = "x.org/" + fill("$")
	case 4:
		copy(l[i:], l[i+1:])
	case 5:
		x := append(l[:i], license{ID: "X", LRE: "q q"})
		x[0].ID = "Y"
	}
}

// C15_Fresh: changing the list returned affects nothing: not another list, not the scanning
// (whether begun before or not).
func C15_Fresh(j int) {
	l0 := append([]license{}, licensecheck.BuiltinLicenses()...)
	text := []byte([]string{"a b z", "http://www.opensource.org/licenses/mit z", "(c) b z d", "http://creativecommons.org/licenses/by/4.0"}[j/2])
	var before coverage
	if j%2 == 0 {
		before = licensecheck.Scan(text)
	} else {
		s, err := licensecheck.NewScanner(l0)
		sym.Assert(err == nil, "the built-in list is refused")
		before = s.Scan(text)
	}
	l1 := licensecheck.BuiltinLicenses()
	spoil(l1)
	l2 := licensecheck.BuiltinLicenses()
	sameLists(l0, l2)
	spoil(l2)
	sameLists(l0, licensecheck.BuiltinLicenses())
	sameCoverage(before, licensecheck.Scan(text))
	sameLists(l0, licensecheck.BuiltinLicenses())
}

func C15_Fresh_N() int { return 8 }

// C15_Types: every URL entry has the Type of the license with its ID.
func C15_Types(j int) {
	if j == 1 {
		licensecheck.Scan([]byte("a b"))
	}
	l := licensecheck.BuiltinLicenses()
	i := sym.Conc(sym.Choice(len(l)))
	sym.Observe("entry", i)
	if l[i].URL == "" {
		sym.Assert(l[i].LRE != "" && l[i].ID != "", "an entry without a pattern or a URL")
		sym.Cover("pattern")
		return
	}
	want := licensecheck.Unknown
	for _, x := range l {
		if x.LRE != "" && x.ID == l[i].ID {
			want = x.Type
			sym.Cover("license with a URL")
		}
	}
	sym.Assert(l[i].Type == want, "the Type of a URL entry")
	sym.Cover("URL")
}

func C15_Types_N() int { return 2 }

// C15_Equal: the package's Scan is that of a scanner built from the list.
func C15_Equal(j int) {
	s := ""
	if j < len(builtinFrames) {
		s = fill(builtinFrames[j])
	} else {
		s = builtinTokens[j-len(builtinFrames)]
		for i := 0; i < 2; i++ {
			s += builtinTokens[sym.Conc(sym.Choice(len(builtinTokens)))]
		}
	}
	text := []byte(s)
	want := scan(text)
	observe(s, want)
	sameCoverage(want, licensecheck.Scan(text))
}

var builtinFrames = []string{
	"##", "a b##", "#b d#e", "(c)#b d", "copyright b z d#", "a b z z d#e", "d#e", "http mit#",
	"http://www.opensource.org/licenses/mi#", "http://www.opensource.org/licenses/mit#x", "http#://creativecommons.org/licenses/by/4.0/#",
	"http://www.opensource.org/licenses/isc#a b", "#a b#b d#", "###a b", "a b###", "###", "#!#a\na b#", "a b" + farQ + "#a b#",
}

var farQ = strings.Repeat(" q", 6000)

var builtinTokens = []string{
	"a ", "b ", "d ", "e\n", "http ", "mit ", "http://www.opensource.org/licenses/", "mit", "isc/", "fair ", "(c) ", "HTTP://creativecommons.org/licenses/by/4.0",
}

func C15_Equal_N() int { return len(builtinFrames) + len(builtinTokens) }

func C15_Equal_Setup(j int) {
	l := licensecheck.BuiltinLicenses()
	setup(l)
	licensecheck.Scan(nil)
}
