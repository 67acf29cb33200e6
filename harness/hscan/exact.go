package hscan

import (
	"github.com/google/licensecheck"
	"github.com/google/licensecheck/internal/verif/ref"
	"github.com/google/licensecheck/internal/verif/sym"
)

// Lists of licenses whose patterns have no wildcards and no words that others of the text could be taken for.
var exactLists = [][]license{
	{
		{ID: "U", Type: licensecheck.Unrestricted, URL: "x.org/l"},
		{ID: "A", Type: licensecheck.Notice, LRE: "a b"},
		{ID: "B", Type: licensecheck.ShareChanges, LRE: "a b\n((d))??\ne"},
		{ID: "V", Type: licensecheck.ShareServer, URL: "ab.com/p"},
		{ID: "C", Type: licensecheck.NonCommercial, LRE: "b d\n((e || a b))"},
		{ID: "D", Type: licensecheck.Discouraged, LRE: "a b"},
		{ID: "E", LRE: "d d", URL: "x.org/l/m"},
	},
	{
		{ID: "A", LRE: "d\n((a || b))\nd"},
		{ID: "A", Type: licensecheck.Notice, LRE: "d a\n((b))??"},
		{ID: "U", Type: licensecheck.Unrestricted, URL: "x.org/l"},
		{ID: "C", Type: licensecheck.ShareProgram, LRE: "copyright a", URL: "x.org/a"},
		{ID: "F", Type: licensecheck.Notice, LRE: "((a || b))\nhttp x"},
		{ID: "E", Type: licensecheck.Notice | licensecheck.Discouraged, LRE: "e e\n((e))??\n((e d))??"},
	},
}

// Texts of words of one letter each, '?' standing for any of them, with copyright signs and URLs.
var exactFrames = []string{
	"? ? ? ? ? ? ?",
	"? ? ? d d http ? ?",
	"(c)? ? ? ? ?",
	"? ? (c)? ? ?",
	"? ?\nCopyright ?\n(c)? ? ?",
	"? ? http://x.org/l ? ? ?",
	"? ? ? http://x.org/? ?",
	"(c)? http://x.org/l\n? ? ?",
	"? ? <i>? ?\n? http",
	"z http://x.org/l/? (c) ? ? ?",
}

// entry is a license with a pattern.
type entry struct {
	license
	nfa *ref.NFA
}

func patterns() []entry {
	var es []entry
	for _, l := range list {
		if l.LRE == "" {
			continue
		}
		n, ok := ref.Parse(l.LRE)
		if !ok {
			sym.Fail("the reference refuses " + l.LRE)
		}
		es = append(es, entry{l, ref.Compile(n)})
	}
	return es
}

// found is a match as words of the text.
type found struct {
	e      int // index of the pattern
	lo, hi int // words of the pattern's text
	from   int // first word with the copyright notice
}

func words(text string) ([]ref.W, ref.Text) {
	ws := ref.Split(text)
	return ws, ref.Text{N: len(ws), Is: func(i int, w string) bool { return equal(ws[i].S, w) }}
}

// expected is what Scan reports for a text: the leftmost, longest and first of the patterns' texts, and
// after it the next.
func expected(es []entry, ws []ref.W, t ref.Text) []found {
	var r []found
	last := 0
	for a := 0; a < t.N; a++ {
		best := found{hi: -1}
		for i, e := range es {
			ends := e.nfa.Ends(t, a)
			for k := t.N; k > a && k > best.hi; k-- {
				if ends[k] {
					best = found{e: i, lo: a, hi: k, from: a}
				}
			}
		}
		if best.hi < 0 {
			continue
		}
		for i := a - 1; i >= last && i >= a-50; i-- {
			if ws[i].S == "copyright" {
				best.from = i
			}
		}
		r = append(r, best)
		last = best.hi
		a = best.hi - 1
	}
	return r
}

func exactText(j int) string {
	b := []byte(exactFrames[j/2])
	if sym.Thorough() {
		b = append(b, "\n? ?"...)
	}
	for i, c := range b {
		if c == '?' {
			b[i] = sym.ByteIn("abde")
		}
	}
	return string(b)
}

// genuine checks that a match is of a license whose pattern the words satisfy, after the copyright notice.
func genuine(s string, c coverage) {
	observe(s, c)
	ws, t := words(s)
	es := patterns()
	for _, m := range c.Match {
		if m.IsURL {
			continue
		}
		lo, hi := -1, 0
		for i, w := range ws {
			if lo < 0 && m.Start <= w.Lo {
				lo = i
			}
			if w.Hi <= m.End {
				hi = i + 1
			}
		}
		sym.Assert(0 <= lo && lo < hi, "a match without words")
		ok := false
		for _, e := range es {
			if e.ID != m.ID || e.Type != m.Type {
				continue
			}
			for a := lo; a < hi; a++ {
				if a > lo && ws[lo].S != "copyright" {
					break
				}
				if e.nfa.Ends(t, a)[hi] {
					ok = true
				}
			}
		}
		sym.Assert(ok, "a reported section does not satisfy the license's pattern")
		sym.Cover("match")
	}
	if len(c.Match) == 0 {
		sym.Cover("no match")
	}
}

// C04_Scan: every choice of 4 letters for each ? of the frames (thorough: two words more): a match reported by Scan is of a license whose
// pattern the words satisfy, after the copyright notice.
func C04_Scan(j int) {
	s := exactText(j)
	genuine(s, scan([]byte(s)))
}

func C04_Scan_N() int      { return 2 * len(exactFrames) }
func C04_Scan_Setup(j int) { setup(exactLists[j%2]) }

// C05_Scan: every choice of 4 letters for each ? of the frames (thorough: two words more): Scan reports every text of a pattern, the leftmost,
// longest and first, each with its copyright notice.
func C05_Scan(j int) {
	s := exactText(j)
	c := scan([]byte(s))
	observe(s, c)
	ws, t := words(s)
	es := patterns()
	k := 0
	want := expected(es, ws, t)
	for _, w := range want {
		for k < len(c.Match) && c.Match[k].IsURL {
			k++
		}
		sym.Assert(k < len(c.Match), "a text of a pattern is not found")
		m := c.Match[k]
		k++
		sym.Assert(m.Start <= ws[w.from].Lo && ws[w.hi-1].Hi <= m.End, "a text of a pattern is not found, or not all of it")
		sym.Assert(w.from == 0 || ws[w.from-1].Hi <= m.Start, "a match begins too early")
		sym.Assert(w.hi == t.N || m.End <= ws[w.hi].Lo, "a match ends too late")
		sym.Assert(m.ID == es[w.e].ID && m.Type == es[w.e].Type, "another license is reported")
		sym.Cover("match")
	}
	for ; k < len(c.Match); k++ {
		sym.Assert(c.Match[k].IsURL, "a match of nothing")
	}
	if len(want) == 0 {
		sym.Cover("no match")
	}
}

func C05_Scan_N() int      { return 2 * len(exactFrames) }
func C05_Scan_Setup(j int) { setup(exactLists[j%2]) }

// C01_Words, C02_Words, C29_Letters: the texts of C04_Scan.
func C01_Words(j int) {
	s := exactText(j)
	c := scan([]byte(s))
	observe(s, c)
	wellFormed(s, c)
}

func C01_Words_N() int      { return 2 * len(exactFrames) }
func C01_Words_Setup(j int) { setup(exactLists[j%2]) }

func C02_Words(j int) {
	s := exactText(j)
	c := scan([]byte(s))
	observe(s, c)
	percent(s, c)
}

func C02_Words_N() int      { return 2 * len(exactFrames) }
func C02_Words_Setup(j int) { setup(exactLists[j%2]) }

func C29_Letters(j int) {
	s := exactText(j)
	c := scan([]byte(s))
	observe(s, c)
	selves(s, c)
}

func C29_Letters_N() int      { return 2 * len(exactFrames) }
func C29_Letters_Setup(j int) { setup(exactLists[j%2]) }

// C20_Scan: the texts of C04_Scan: the ID and the type reported are those of a pattern the words satisfy.
func C20_Scan(j int) {
	s := exactText(j)
	genuine(s, scan([]byte(s)))
}

func C20_Scan_N() int      { return 2 * len(exactFrames) }
func C20_Scan_Setup(j int) { setup(exactLists[j%2]) }
