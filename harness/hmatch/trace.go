package hmatch

import (
	"github.com/google/licensecheck/internal/match"
	"github.com/google/licensecheck/internal/verif/sym"
)

// C03_Trace: with the tracing of failed matches on, for any length of the traced ones, the matches
// are the same.
func C03_Trace(j int) {
	s := sets[j]
	n := s.n - 1
	if !sym.Thorough() && n > 5 {
		n = 5
	}
	str, _ := text(n, s.letters)
	sym.Observe("text", str)
	m := cur.re.Match(str)
	observe(m)
	match.TraceDFA = sym.Int(-1, 8)
	got := cur.re.Match(str)
	match.TraceDFA = 0
	id := make([]int, len(s.pats))
	for i := range id {
		id[i] = i
	}
	same(m, got, id)
}

func C03_Trace_N() int      { return len(sets) }
func C03_Trace_Setup(j int) { setup(sets[j].pats) }
