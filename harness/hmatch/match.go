// Package hmatch holds the harnesses for patterns and matching (C04, C05, C09, C10, C11, C16, C19, C20).
package hmatch

import (
	"github.com/google/licensecheck/internal/match"
	"github.com/google/licensecheck/internal/verif/ref"
	"github.com/google/licensecheck/internal/verif/sym"
)

// compile builds a matcher for patterns, which must be valid.
func compile(pats []string) *match.MultiLRE {
	d := new(match.Dict)
	d.Insert("copyright")
	d.Insert("http")
	var list []*match.LRE
	for _, p := range pats {
		re, err := match.ParseLRE(d, "", p)
		if err != nil {
			sym.Fail("a valid pattern is refused: " + p)
		}
		list = append(list, re)
	}
	m, err := match.NewMultiLRE(list)
	if err != nil || m == nil {
		sym.Fail("a valid pattern is refused: " + pats[0])
	}
	return m
}

func automata(pats []string) []*ref.NFA {
	var r []*ref.NFA
	for _, p := range pats {
		n, ok := ref.Parse(p)
		if !ok {
			sym.Fail("the reference refuses " + p)
		}
		r = append(r, ref.Compile(n))
	}
	return r
}

// set is a list of patterns over one-letter words.
type set struct {
	pats    []string
	letters string // letters of the text
	n       int    // words of the text (quick), more if thorough
}

var sets = []set{
	{[]string{"a b"}, "abz", 6},
	{[]string{"a b d"}, "abdz", 6},
	{[]string{"a b", "a b d"}, "abdz", 6},
	{[]string{"a b a", "b a b"}, "abz", 7},
	{[]string{"a b\n((d))??\ne"}, "abdez", 6},
	{[]string{"a b\n((d e))??"}, "abdez", 6},
	{[]string{"a b\n((d || e f || a))\ng"}, "abdefg", 6},
	{[]string{"a b\n((d ||))\ne", "a b d"}, "abdez", 6},
	{[]string{"((a || b))\n((d || e))\nf"}, "abdefz", 6},
	{[]string{"((a))??\nb d"}, "abdz", 6},
	{[]string{"a b d", "a b\n((d))??\ne", "b d e"}, "abdez", 6},
	{[]string{"a b d", "a b d"}, "abdz", 6},
	{[]string{"a b\n((d\n((e))??\nf || g))??\na"}, "abdefg", 7},
	{[]string{"a b __1__ d"}, "abdz", 6},
	{[]string{"a b __2__ d e"}, "abdez", 7},
	{[]string{"a b __4__ d e f"}, "abdefz", 8},
	{[]string{"a b __3__ d", "a b d e"}, "abdez", 7},
	{[]string{"a b\n((__2__ d))??\ne"}, "abdez", 7},
	{[]string{"a b __1__\n((d))??\ne"}, "abdez", 7},
	{[]string{"a b __1__ d __1__ e"}, "abdez", 7},
	{[]string{"a b __0__ d"}, "abdz", 6},
	{[]string{"a a", "a a a a"}, "az", 8},
	{[]string{"a a __2__ a"}, "az", 8},
	{[]string{"a b\n((__1__ || d))\nd e"}, "abdez", 7},
	{[]string{"a b\n((d || e))??\n((f))??\n((a b))??\ng"}, "abdefg", 7},
	{[]string{"b a", "a b\n((a))??\nd", "a b a"}, "abdz", 7},
	{[]string{"a a b"}, "abz", 7},
	{[]string{"a b a b d", "a b b"}, "abdz", 7},
}

// text returns n words of one letter each, and the reference's view of them.
func text(n int, letters string) (string, ref.Text) {
	b := make([]byte, 0, 2*n)
	ws := make([]byte, n)
	for i := 0; i < n; i++ {
		ws[i] = sym.ByteIn(letters)
		b = append(b, ws[i], ' ')
	}
	return string(b), ref.Text{N: n, Is: func(i int, w string) bool {
		return len(w) == 1 && ws[i] == w[0]
	}}
}

func size(s set) int {
	if sym.Thorough() {
		return s.n + 2
	}
	return s.n
}

// wellFormed checks what holds for every list of matches.
func wellFormed(m *match.Matches, n, pats int) {
	sym.Assert(len(m.Words) == n, "number of words")
	prev := 0
	for _, x := range m.List {
		sym.Assert(prev <= x.Start && x.Start < x.End && x.End <= n, "matches in range, in order, disjoint")
		sym.Assert(0 <= x.ID && x.ID < pats, "index of a pattern")
		prev = x.End
	}
}

// sound checks that every match satisfies its pattern.
func sound(m *match.Matches, as []*ref.NFA, t ref.Text) {
	for _, x := range m.List {
		can := as[x.ID].Can(t, x.Start)
		sym.Assert(can[x.End], "a match does not satisfy its pattern")
		sym.Cover("match")
	}
	if len(m.List) == 0 {
		sym.Cover("no match")
	}
}

// complete checks that every section that spells out a pattern is reported, or covered.
func complete(m *match.Matches, as []*ref.NFA, t ref.Text) {
	missed, short, late := false, false, false
	x := 0
	for a := 0; a < t.N; a++ {
		for x < len(m.List) && m.List[x].End <= a {
			x++
		}
		covered := x < len(m.List) && m.List[x].Start <= a
		if covered && m.List[x].Start < a {
			continue
		}
		for p, nfa := range as {
			for k, e := range nfa.Ends(t, a) {
				if k <= a {
					continue
				}
				switch {
				case !covered:
					missed = sym.Or(missed, e)
				case m.List[x].End < k:
					short = sym.Or(short, e)
				case m.List[x].End == k && m.List[x].ID > p:
					late = sym.Or(late, e)
				}
			}
		}
	}
	sym.Assert(!missed, "a text of a pattern is not found")
	sym.Assert(!short, "a shorter match is reported")
	sym.Assert(!late, "a later pattern is reported")
	if len(m.List) == 0 {
		sym.Cover("no match")
	} else {
		sym.Cover("match")
	}
}

type built struct {
	re *match.MultiLRE
	as []*ref.NFA
}

var (
	cur built
)

func setup(pats []string) { cur = built{compile(pats), automata(pats)} }

func observe(m *match.Matches) {
	for _, x := range m.List {
		sym.Observe("id", x.ID)
		sym.Observe("start", x.Start)
		sym.Observe("end", x.End)
	}
}

// C04_Words: every text of one-letter words (6 to 8 of them) against sets of patterns.
func C04_Words(j int) {
	s := sets[j]
	n := size(s)
	str, t := text(n, s.letters)
	m := cur.re.Match(str)
	sym.Observe("text", str)
	observe(m)
	wellFormed(m, n, len(s.pats))
	sound(m, cur.as, t)
}

func C04_Words_N() int      { return len(sets) }
func C04_Words_Setup(j int) { setup(sets[j].pats) }

// C05_Words: the same texts; everything that is there is found.
func C05_Words(j int) {
	s := sets[j]
	n := size(s)
	str, t := text(n, s.letters)
	m := cur.re.Match(str)
	sym.Observe("text", str)
	observe(m)
	complete(m, cur.as, t)
}

func C05_Words_N() int      { return len(sets) }
func C05_Words_Setup(j int) { setup(sets[j].pats) }
