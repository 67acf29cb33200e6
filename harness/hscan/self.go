package hscan

import (
	"github.com/google/licensecheck/internal/verif/sym"
)

// selves checks that the section of every match is found when it is scanned by itself: the same
// license, and all of it.
func selves(text string, c coverage) {
	for _, m := range c.Match {
		part := text[m.Start:m.End]
		got := scan([]byte(part))
		sym.Observe("part", part)
		sym.Assert(len(got.Match) == 1, "a match by itself is not found, or as several")
		x := got.Match[0]
		sym.Assert(x.ID == m.ID && x.Type == m.Type && x.IsURL == m.IsURL, "a match by itself is another license")
		sym.Assert(x.Start == 0 && x.End == len(part), "a match by itself has another extent")
		sym.Assert(got.Percent == 100, "a match by itself is not all of the text")
		sym.Cover("match")
	}
	if len(c.Match) == 0 {
		sym.Cover("no match")
	}
}

// C29_Tokens: every sequence of 4 tokens (thorough: 5).
func C29_Tokens(j int) {
	s := tokenText(j/2, tokenCount())
	c := scan([]byte(s))
	observe(s, c)
	selves(s, c)
}

func C29_Tokens_N() int      { return 2 * len(tokens) }
func C29_Tokens_Setup(j int) { setup(lists[j%2]) }

// C29_Frame: texts with two or three arbitrary bytes.
func C29_Frame(j int) {
	s := fill(frames[j/2])
	// A section ends with its line, and that can be within a tag: it is none then by itself.
	open := false
	for i := range s {
		open = sym.Or(open, s[i] == '<')
		sym.Assume(!sym.And(open, s[i] == '\n'))
	}
	c := scan([]byte(s))
	observe(s, c)
	selves(s, c)
}

func C29_Frame_N() int      { return 2 * len(frames) }
func C29_Frame_Setup(j int) { setup(lists[j%2]) }
