// Package hscan holds the harnesses for the scanner (C01, C02, C03, C12, C13, C14, C15).
package hscan

import (
	"github.com/google/licensecheck"
	"github.com/google/licensecheck/internal/verif/ref"
	"github.com/google/licensecheck/internal/verif/sym"
)

type (
	license  = licensecheck.License
	coverage = licensecheck.Coverage
)

// The lists of licenses the scanners are built from.
var lists = [][]license{
	{
		{ID: "A", Type: licensecheck.Notice, LRE: "a b"},
		{ID: "U", Type: licensecheck.Unrestricted, URL: "x.org/l"},
		{ID: "B", Type: licensecheck.ShareChanges | licensecheck.Discouraged, LRE: "b d\n((e))??"},
		{ID: "C", Type: licensecheck.NonCommercial, LRE: "copyright b __2__ e"},
		{ID: "V", Type: licensecheck.ShareServer, LRE: "d d", URL: "x.org/l/m"},
	},
	{
		{ID: "H", Type: licensecheck.Notice, LRE: "http x"},
		{ID: "U", Type: licensecheck.Discouraged, URL: "x.org/l"},
		{ID: "A", LRE: "a b"},
		{ID: "W", Type: licensecheck.ShareProgram, LRE: "l a b", URL: "ab.com/p/q"},
		{ID: "Z", LRE: "a copyright"},
	},
}

var (
	list []license
	scan func(text []byte) coverage
)

func setup(l []license) {
	list = l
	s, err := licensecheck.NewScanner(l)
	if err != nil || s == nil {
		sym.Fail("a list without defect is refused")
	}
	scan = s.Scan
}

// Characters and bytes that texts have and code is tempted to treat in a way of their own.
var specials = []string{
	"", " ", "\ufeff", "\u200b", "\u200c", "\u00a0", "\u00ad", "\u2028", "\u0085", "\u3000", "\u2019", "\u201c", "\u2014", "\u00ae",
	"\u2122", "\u202e", "\ufffd", "\xff\xfe", "\x00", "\x1a", "\f", "\r", "\v", "\x1b[", "#!", "...", "--", "\U0001f600",
}

func special() string { return specials[sym.Conc(sym.Choice(len(specials)))] }

// fill replaces the holes of a frame: '#' is an arbitrary byte, '$' an ASCII one, '~' one of the specials.
func fill(s string) string {
	var b []byte
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch c {
		case '#':
			c = sym.Byte()
		case '$':
			c = sym.Byte()
			sym.Assume(c < 0x80)
		case '~':
			b = append(b, special()...)
			continue
		}
		b = append(b, c)
	}
	return string(b)
}

func observe(text string, c coverage) {
	sym.Observe("text", text)
	for _, m := range c.Match {
		sym.Observe("match", m.ID)
		sym.Observe("start", m.Start)
		sym.Observe("end", m.End)
		sym.Observe("url", m.IsURL)
	}
}

// wellFormed is C01.
func wellFormed(text string, c coverage) {
	prev := 0
	for _, m := range c.Match {
		sym.Assert(prev <= m.Start && m.Start < m.End && m.End <= len(text), "matches in range, in order, disjoint")
		prev = m.End
		named, fits := false, false
		for _, l := range list {
			if l.ID != m.ID || l.Type != m.Type {
				continue
			}
			named = true
			if m.IsURL && l.URL != "" && known(text[m.Start:m.End], l.URL) {
				fits = true
			}
			if !m.IsURL && l.LRE != "" {
				fits = true
			}
		}
		sym.Assert(named, "a match names no license")
		sym.Assert(fits, "a match is wrongly flagged as a URL, or not")
		sym.Cover("match")
	}
	if len(c.Match) == 0 {
		sym.Cover("no match")
	}
}

// percent is C02.
func percent(text string, c coverage) {
	ws := ref.Split(text)
	if len(ws) == 0 {
		sym.Assert(c.Percent == 0, "the percentage of nothing")
		sym.Cover("no words")
		return
	}
	n := 0
	for _, w := range ws {
		in := false
		for _, m := range c.Match {
			in = in || m.Start <= w.Lo && w.Hi <= m.End
		}
		if in {
			n++
		}
	}
	sym.Observe("covered", n)
	sym.Observe("words", len(ws))
	sym.Observe("percent", c.Percent)
	switch n {
	case 0:
		sym.Assert(c.Percent == 0, "nothing matched")
		sym.Cover("nothing")
	case len(ws):
		sym.Assert(c.Percent == 100, "everything matched")
		sym.Cover("everything")
	default:
		want := 100 * float64(n) / float64(len(ws))
		d := c.Percent - want
		sym.Assert(-1e-9 < d && d < 1e-9, "the percentage of the words matched")
		sym.Assert(0 < c.Percent && c.Percent < 100, "the percentage of a part")
		sym.Cover("a part")
	}
}

func low(c byte) byte {
	return sym.IteByte(sym.And('A' <= c, c <= 'Z'), c+('a'-'A'), c)
}

func lower(s string) string {
	b := []byte(s)
	for i := range b {
		b[i] = low(b[i])
	}
	return string(b)
}

func equal(a, b string) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = sym.And(r, a[i] == b[i])
	}
	return r
}

// at reports that s has p at i, but for letter case (p has none).
func at(s string, i int, p string) bool {
	return i+len(p) <= len(s) && equal(lower(s[i:i+len(p)]), p)
}

// canon is url in lower case without its scheme, a trailing slash and a trailing /legalcode.
func canon(url string) string {
	u := lower(url)
	if at(u, 0, "https://") {
		u = u[8:]
	} else if at(u, 0, "http://") {
		u = u[7:]
	}
	if len(u) > 0 && u[len(u)-1] == '/' {
		u = u[:len(u)-1]
	}
	if n := len(u) - len("/legalcode"); n >= 0 && at(u, n, "/legalcode") {
		u = u[:n]
	}
	return u
}

// exactly reports that url is the license URL want.
func exactly(url, want string) bool { return equal(canon(url), want) }

// known reports that url is the license URL want, or that plus one path element.
func known(url, want string) bool {
	u := canon(url)
	if equal(u, want) {
		return true
	}
	if len(u) <= len(want) || u[len(want)] != '/' || !equal(u[:len(want)], want) {
		return false
	}
	for i := len(want) + 1; i < len(u); i++ {
		if u[i] == '/' {
			return false
		}
	}
	return true
}

func hostByte(c byte) bool {
	l := low(c)
	return sym.Or(sym.And('a' <= l, l <= 'z'), sym.Or(sym.And('0' <= c, c <= '9'), sym.In(c, "-_.")))
}

func pathByte(c byte) bool { return sym.Or(hostByte(c), sym.In(c, "#?=")) }

// urlSize is the size of the URL that t begins with, or 0: a scheme, a host under .org or .com,
// one or more path elements, and a slash if there is one.
func urlSize(t string) int {
	i := 4
	if !at(t, 0, "http") {
		return 0
	}
	if at(t, i, "s") {
		i++
	}
	if !at(t, i, "://") {
		return 0
	}
	i += 3
	h := i
	for i < len(t) && hostByte(t[i]) {
		i++
	}
	if i-h < 5 || !(at(t, i-4, ".org") || at(t, i-4, ".com")) {
		return 0
	}
	n := 0
	for i+1 < len(t) && t[i] == '/' && pathByte(t[i+1]) {
		i++
		for i < len(t) && pathByte(t[i]) {
			i++
		}
		n++
	}
	if n == 0 {
		return 0
	}
	if i < len(t) && t[i] == '/' {
		i++
	}
	return i
}

// urls is C12: what is reported of the URLs, given what is reported of the licenses.
func urls(text string, c coverage) {
	ws := ref.Split(text)
	k := 0 // next reported match
	for i := 0; i < len(ws); i++ {
		// The match that word i is in, or the next one that is not of a URL.
		for k < len(c.Match) && c.Match[k].End <= ws[i].Lo {
			sym.Assert(!c.Match[k].IsURL, "a URL is reported that is none")
			k++
		}
		if k < len(c.Match) && !c.Match[k].IsURL && c.Match[k].Start <= ws[i].Lo {
			continue
		}
		if ws[i].S != "http" {
			continue
		}
		end := 0
		id := ""
		if n := urlSize(text[ws[i].Lo:]); n > 0 {
			end = ws[i].Lo + n
			// It must not run into a license match.
			for m := k; m < len(c.Match); m++ {
				if c.Match[m].IsURL {
					continue
				}
				for x := i; x < len(ws); x++ {
					if ws[x].Lo >= c.Match[m].Start {
						if ws[x].Lo < end {
							end = 0
							sym.Cover("runs into a match")
						}
						break
					}
				}
				break
			}
		}
		if end > 0 {
			for _, l := range list {
				if l.URL != "" && known(text[ws[i].Lo:end], l.URL) {
					// Of two known URLs the longer one is meant.
					if id == "" || exactly(text[ws[i].Lo:end], l.URL) {
						id = l.ID
					}
				}
			}
		}
		if id == "" {
			if end > 0 {
				sym.Cover("unknown URL")
			}
			continue
		}
		sym.Assert(k < len(c.Match) && c.Match[k].IsURL, "a license URL is not reported")
		sym.Assert(c.Match[k].Start == ws[i].Lo && c.Match[k].End == end, "the extent of a URL")
		sym.Assert(c.Match[k].ID == id, "the license of a URL")
		sym.Cover("URL")
		k++
		for i+1 < len(ws) && ws[i+1].Hi <= end {
			i++
		}
	}
	for ; k < len(c.Match); k++ {
		sym.Assert(!c.Match[k].IsURL, "a URL is reported that is none")
	}
}
