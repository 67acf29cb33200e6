package hmatch

import (
	"github.com/google/licensecheck/internal/match"
	"github.com/google/licensecheck/internal/verif/sym"
)

// alone checks that the words of every match are found when they stand by themselves: the same
// pattern, and all of them; and likewise between words that no pattern has.
func alone(re *match.MultiLRE, text string, m *match.Matches) {
	for _, x := range m.List {
		part := ""
		for i := x.Start; i < x.End; i++ {
			if i > x.Start {
				part += " "
			}
			part += text[m.Words[i].Lo:m.Words[i].Hi]
		}
		sym.Observe("part", part)
		n := x.End - x.Start
		for _, around := range [][2]string{{"", ""}, {"00000 77777\n", ""}, {"", "\n77777 00000"}, {"77777 ", " 00000"}} {
			got := re.Match(around[0] + part + around[1])
			before, after := len(around[0])/6, len(around[1])/6
			sym.Assert(len(got.Words) == before+n+after, "the words of a match by themselves")
			sym.Assert(len(got.List) == 1, "a match by itself is not found, or as several")
			y := got.List[0]
			sym.Assert(y.ID == x.ID, "a match by itself is another pattern's")
			sym.Assert(y.Start == before && y.End == before+n, "a match by itself has another extent")
		}
		sym.Cover("match")
	}
	if len(m.List) == 0 {
		sym.Cover("no match")
	}
}

// C29_Words: the texts of C04_Words (thorough: one word more).
func C29_Words(j int) {
	s := sets[j]
	n := s.n
	if sym.Thorough() {
		n++
	}
	str, _ := text(n, s.letters)
	sym.Observe("text", str)
	m := cur.re.Match(str)
	observe(m)
	alone(cur.re, str, m)
}

func C29_Words_N() int      { return len(sets) }
func C29_Words_Setup(j int) { setup(sets[j].pats) }

// C29_Spell: the texts of C04_Spell (thorough: one byte more).
func C29_Spell(j int) {
	n := 8
	if sym.Thorough() {
		n++
	}
	s := "x y " + sym.StringIn(n, "ab ")
	if spellSets[j][0][0] == 'a' {
		s = s[4:]
	}
	sym.Observe("text", s)
	m := cur.re.Match(s)
	observe(m)
	alone(cur.re, s, m)
}

func C29_Spell_N() int      { return len(spellSets) }
func C29_Spell_Setup(j int) { setup(spellSets[j]) }
