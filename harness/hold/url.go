package hold

import (
	"github.com/google/licensecheck/internal/verif/sym"
	"github.com/google/licensecheck/old"
)

// types are the types of licenses, by the beginning of their name; the first that fits counts.
var types = []string{"AGPL", "Apache", "BSD", "CC", "GPL", "JSON", "MIT", "Unlicense", "Zlib"}

func typeOf(name string) old.Type {
	for i, p := range types {
		if len(name) >= len(p) && name[:len(p)] == p {
			return old.Type(i)
		}
	}
	return old.Other
}

func at(s string, i int, p string) bool {
	if i < 0 || i+len(p) > len(s) {
		return false
	}
	r := true
	for k := 0; k < len(p); k++ {
		r = sym.And(r, lowerASCII(s[i+k]) == p[k])
	}
	return r
}

func hostByte(c byte) bool {
	l := lowerASCII(c)
	return sym.Or(sym.And('a' <= l, l <= 'z'), sym.Or(sym.And('0' <= c, c <= '9'), sym.In(c, "-_.")))
}

func pathByte(c byte) bool { return sym.Or(hostByte(c), sym.In(c, "#?=")) }

// urlSize is the size of the URL that t begins with, or 0: a scheme, a host that ends in .org or com,
// one or more path elements, and a slash if there is one.
func urlSize(t string) int {
	if !at(t, 0, "http") {
		return 0
	}
	i := 4
	if at(t, i, "s") {
		i++
	}
	if !at(t, i, "://") {
		return 0
	}
	i += 3
	h := i
	for i < len(t) && hostByte(t[i]) {
		i++
	}
	if !(i-h >= 5 && at(t, i-4, ".org") || i-h >= 4 && at(t, i-3, "com")) {
		return 0
	}
	n := 0
	for i+1 < len(t) && t[i] == '/' && pathByte(t[i+1]) {
		i++
		for i < len(t) && pathByte(t[i]) {
			i++
		}
		n++
	}
	if n == 0 {
		return 0
	}
	if i < len(t) && t[i] == '/' {
		i++
	}
	return i
}

// canon is what is looked up for a URL.
func canon(u string) string {
	b := make([]byte, len(u))
	for i := range b {
		b[i] = lowerASCII(u[i])
	}
	s := string(b)
	if at(s, 0, "http://") {
		s = s[7:]
	} else if at(s, 0, "https://") {
		s = s[8:]
	}
	if n := len(s); n > 0 && s[n-1] == '/' {
		s = s[:n-1]
	}
	if n := len(s) - 10; n >= 0 && at(s, n, "/legalcode") {
		s = s[:n]
	}
	return s
}

func equal(a, b string) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := 0; i < len(a); i++ {
		r = sym.And(r, a[i] == b[i])
	}
	return r
}

// named is the license of a URL, or "": the URL itself or without its last path element.
func named(list []old.License, url string) string {
	u := canon(url)
	for {
		id := ""
		for _, l := range list {
			if l.URL != "" && equal(u, l.URL) {
				id = l.Name // the last one counts
			}
		}
		if id != "" {
			return id
		}
		if len(u) < len(canon(url)) {
			return ""
		}
		i := len(u) - 1
		for i >= 0 && u[i] != '/' {
			i--
		}
		if i < 0 {
			return ""
		}
		u = u[:i]
	}
}

// inGap are the URL matches of text[lo:hi].
func inGap(list []old.License, text string, ws []word, lo, hi int) []old.Match {
	var r []old.Match
	for i := lo; i < hi; {
		n := urlSize(text[i:hi])
		if n == 0 {
			i++
			continue
		}
		if id := named(list, text[i:i+n]); id != "" {
			s, e := len(ws), len(ws)
			for k := len(ws) - 1; k >= 0; k-- {
				if ws[k].lo >= i {
					s = k
				}
				if ws[k].lo >= i+n {
					e = k
				}
			}
			m := old.Match{Name: id, Type: typeOf(id), Percent: 100, IsURL: true, End: len(text)}
			if s > 0 && s < len(ws) {
				m.Start = ws[s].lo
			}
			if e < len(ws) {
				m.End = ws[e-1].hi
			}
			r = append(r, m)
		}
		i += n
	}
	return r
}

func sameMatches(a, b []old.Match) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// urls is C25: what is reported of the URLs, given what is reported of the license texts.
// With numerals, it says so if it is for numerals before a match that a URL is not what it should be.
func urls(list []old.License, text string, c old.Coverage, numerals bool) {
	ws := normal(text)
	from := 0
	k := 0
	for {
		// The URLs before the next text of a license.
		var got []old.Match
		for k < len(c.Match) && c.Match[k].IsURL {
			got = append(got, c.Match[k])
			k++
		}
		to, next := len(ws), len(ws)
		if k < len(c.Match) {
			m := c.Match[k]
			to, next = 0, 0
			for _, w := range ws {
				if w.lo < m.Start {
					to++
				}
				if w.lo < m.End {
					next++
				}
			}
		}
		if to-from < 3 {
			// Too short for a URL of some words.
			sym.Assert(len(got) == 0, "a URL is reported that is none")
		} else {
			end, cut := len(text), len(text)
			if to < len(ws) {
				end, cut = ws[to].lo, ws[to-1].hi
			}
			want := inGap(list, text, ws, ws[from].lo, end)
			if cut < end && !sameMatches(got, want) {
				digit := false
				for i := cut; i < end; i++ {
					digit = digit || '0' <= text[i] && text[i] <= '9'
				}
				if digit && sameMatches(got, inGap(list, text, ws, ws[from].lo, cut)) {
					if numerals {
						sym.Assert(false, "a URL that ends in numerals, right before the text of a license, loses them")
					}
					sym.Cover("numerals before a text")
					want = got
				} else if !digit {
					// Of a URL that ends in a full stop or the like, right before the text of a
					// license, the end may be left out.
					want = inGap(list, text, ws, ws[from].lo, cut)
					sym.Cover("URL right before a text")
				}
			}
			sym.Assert(len(got) >= len(want), "a license URL is not reported")
			sym.Assert(len(got) == len(want), "a URL is reported that is none")
			for i := range got {
				sym.Assert(got[i].Name == want[i].Name && got[i].Type == want[i].Type, "the license of a URL")
				sym.Assert(got[i].Start == want[i].Start && got[i].End == want[i].End && got[i].Percent == 100, "the extent of a URL")
				sym.Cover("URL")
			}
		}
		if k == len(c.Match) {
			break
		}
		m := c.Match[k]
		sym.Assert(m.Type == typeOf(m.Name), "the type of a license")
		from = next
		k++
	}
	sym.Cover("compared")
}

var urlLists = [][]old.License{
	{
		{Name: "MIT", Text: "alpha beta gamma"},
		{Name: "CC-U", URL: "x.org/l"},
		{Name: "BSD-x", Text: "delta epsilon zeta", URL: "x.org/l/m"},
		{Name: "GPL", URL: "x.org/l/m"},
		{Name: "xMIT", URL: "ab.com/p/q"},
	},
	{
		{Name: "AGPL", URL: "x.org/l/m/n"},
		{Name: "Apache", URL: "x.org/l"},
		{Name: "JSONx", URL: "x.org"},
		{Name: "Zlib", Text: "alpha xorg", URL: "acom/2"},
		{Name: "Unlicense", Text: "l m alpha"},
	},
}

var urlTexts = []string{
	"http://x.org/l$$ z",
	"http$://x.org/l ",
	"http$$//x.org/l",
	"http:$$x.org/l",
	"http://x.org/l/$$",
	"http://x.$$$/l",
	"http://$.org/l",
	"http://x$org$l/",
	"http://x.org$l$",
	"$http://x.org/l$",
	"z$$http://x.org/l",
	"http://x.org/l/legalcod$$",
	"http://x.org/l/legalcode$$",
	"http://x.org/l/legalcode/$$",
	"http://x.org/l$http://x.org/l$",
	"http://x.org/l/http://x.org/$",
	"alpha beta$http://x.org/l$alpha beta",
	"http://x.org/l$$alpha beta",
	"http://x.org/l/m$$x",
	"https://www.x.org/l$ https://x.org/l",
	"http://x.org/$ delta epsilon",
	"http://ab.com/p/q$$ z",
	"z <http://x.org/l$> [z](http://x.org/l$)",
	"http://x.org/l/$/legalcode$",
	"http://x.org/$/$/$",
	"https://X.org/L/$$/ http://x.org/l$/",
	"alpha beta gamma http:$/x.org/l$",
	"z z http://acom/2$ z$",
	"http://acom/$ x",
	"1. http://x.org/l 2$ z",
	"_ http://x.org/$m",
}

func ascii(s string) string {
	b := []byte(s)
	for i := range b {
		if b[i] == '$' {
			b[i] = sym.Byte()
			sym.Assume(b[i] < 0x80)
		}
	}
	return string(b)
}

// C25_Text: URLs and what is around them, with two or three arbitrary ASCII bytes.
func C25_Text(j int) {
	s := ascii(urlTexts[j/2])
	list := urlLists[j%2]
	c, ok := cur.Cover([]byte(s), old.Options{MinLength: 2, Threshold: 10, Slop: 2})
	observe(s, c, ok)
	urls(list, s, c, false)
}

func C25_Text_N() int      { return 2 * len(urlTexts) }
func C25_Text_Setup(j int) { cur = old.New(urlLists[j%2]) }

var urlParts = []string{"http", "S", "://", "x.org", "/l", "/", "m", ".", "alpha beta gamma", " ", "legalcode", "?#=", "/legalcode", "/m", "\u00e9"}

// C25_Parts: every sequence of 3 parts of a URL (thorough: 4) after a beginning.
func C25_Parts(j int) {
	s := []string{"http://x.org/l", "http://x.org/l/", "alpha beta Http", "z Https://X.org"}[j/len(urlParts)]
	s += urlParts[j%len(urlParts)]
	n := 3
	if sym.Thorough() {
		n = 4
	}
	for i := 1; i < n; i++ {
		s += urlParts[sym.Conc(sym.Choice(len(urlParts)))]
	}
	c, ok := cur.Cover([]byte(s), old.Options{MinLength: 2, Threshold: 10, Slop: 2})
	observe(s, c, ok)
	urls(urlLists[0], s, c, false)
}

func C25_Parts_N() int      { return 4 * len(urlParts) }
func C25_Parts_Setup(j int) { cur = old.New(urlLists[0]) }

// C25_Numerals: a known URL that ends in numerals, right before the text of a license.
func C25_Numerals(j int) {
	d := sym.StringIn(1, "0123456789")
	s := "http://x.org/l/" + d + "\nalpha beta gamma"
	list := []old.License{{Name: "MIT", Text: "alpha beta gamma"}, {Name: "CC", URL: "x.org/l/" + d}}
	c, ok := old.New(list).Cover([]byte(s), old.Options{MinLength: 2, Threshold: 10, Slop: 2})
	observe(s, c, ok)
	urls(list, s, c, true)
}

func C25_Numerals_N() int { return 1 }

// C25_Names: the type of a license goes by the beginning of its name.
func C25_Names(j int) {
	name := types[j] + sym.StringIn(2, "-GPLx2")
	if sym.Bool() {
		b := []byte(name)
		i := sym.Conc(sym.Choice(len(b)))
		b[i] = sym.ByteIn("AGPCJZbx")
		name = string(b)
	}
	sym.Observe("name", name)
	list := []old.License{{Name: name, URL: "x.org/l", Text: "alpha beta gamma"}}
	s := "alpha beta gamma http://x.org/l"
	c, ok := old.New(list).Cover([]byte(s), old.Options{MinLength: 2, Threshold: 10, Slop: 2})
	observe(s, c, ok)
	sym.Assert(len(c.Match) == 2, "a license that is there is not found")
	for _, m := range c.Match {
		sym.Assert(m.Name == name, "the name of a license")
		sym.Assert(m.Type == typeOf(name), "the type of a license")
		sym.Cover("found")
	}
}

func C25_Names_N() int { return len(types) }
