package hold

import (
	"github.com/google/licensecheck/internal/verif/sym"
	"github.com/google/licensecheck/old"
)

func sameCover(a, b old.Coverage, oka, okb bool) {
	sym.Assert(oka == okb && a.Percent == b.Percent, "another percentage")
	sym.Assert(len(a.Match) == len(b.Match), "other matches")
	for i := range a.Match {
		sym.Assert(a.Match[i] == b.Match[i], "another match")
		sym.Cover("match")
	}
	if len(a.Match) == 0 {
		sym.Cover("no match")
	}
}

var sharedOpts = []old.Options{{}, {MinLength: 2, Threshold: 10, Slop: 2}, {MinLength: 3, Threshold: 100, Slop: 1}}

// C27_Scan: calls of Cover on one checker write to nothing that they share, and give what one of them gives.
func C27_Scan(j int) {
	s := fill(frames[j%len(frames)])
	opts := sharedOpts[1+j%2]
	text := []byte(s)
	first, ok := cur.Cover(text, opts)
	observe(s, first, ok)
	sym.Assert(string(text) == s, "the text is changed")
	sym.Shared(func() {
		c, ok2 := cur.Cover(text, opts)
		sameCover(first, c, ok, ok2)
	})
	sym.Assert(string(text) == s, "the text is changed")
}

func C27_Scan_N() int {
	if sym.Thorough() {
		return 3 * len(frames)
	}
	return len(frames)
}
func C27_Scan_Setup(j int) { cur = old.New(lists[j%3]) }

// C27_Tokens: the same for every sequence of 3 tokens (thorough: 4).
func C27_Tokens(j int) {
	s := tokens[j/3]
	n := 3
	if sym.Thorough() {
		n = 4
	}
	for i := 1; i < n; i++ {
		s += tokens[sym.Conc(sym.Choice(len(tokens)))]
	}
	text := []byte(s)
	opts := sharedOpts[1+j%2]
	first, ok := cur.Cover(text, opts)
	observe(s, first, ok)
	sym.Shared(func() {
		c, ok2 := cur.Cover(text, opts)
		sameCover(first, c, ok, ok2)
	})
	sym.Assert(string(text) == s, "the text is changed")
}

func C27_Tokens_N() int      { return 3 * len(tokens) }
func C27_Tokens_Setup(j int) { cur = old.New(lists[j%3]) }

var (
	befores = []string{"alpha beta#gamma delta", "http://x.org/l#", "#ed zed zed", "alpha ___ #", "http://x.org/l/m#", "http://x.org/#"}
	afters  = []string{"alpha beta gamma#delta", "z http://x.org/l/#", "#ed zed zed", "___ gamma delta#", "http://x.org/l/m#n", "alpha beta z z #"}
)

// C27_History: what was covered before, with whatever options, changes nothing, nor does changing what
// the checker was made from.
func C27_History(j int) {
	s := fill(afters[j/3])
	k := sym.Conc(sym.Choice(3))
	opts := []old.Options{sharedOpts[1], {MinLength: 2}, {}}[k]
	first, ok := old.New(lists[j%3]).Cover([]byte(s), opts)
	observe(s, first, ok)
	list := append([]old.License(nil), lists[j%3]...)
	c := old.New(list)
	other := fill(befores[sym.Conc(sym.Choice(len(befores)))])
	sym.Observe("before", other)
	l := (k + 1) % 3
	if sym.Thorough() {
		l = sym.Conc(sym.Choice(3))
	}
	c.Cover([]byte(other), []old.Options{{MinLength: 1, Threshold: 1, Slop: 5}, {}, {MinLength: 9, Threshold: 100, Slop: 1}}[l])
	for i := range list {
		list[i] = old.License{Name: "X", Text: "zed zed zed", URL: "x.org/l"}
	}
	got, ok2 := c.Cover([]byte(s), opts)
	sameCover(first, got, ok, ok2)
	again, ok2 := c.Cover([]byte(s), opts)
	sameCover(first, again, ok, ok2)
}

func C27_History_N() int { return 3 * len(afters) }

// C27_New: making checkers, from the same list or another, writes to nothing that others use, and leaves
// the list as it was.
func C27_New(j int) {
	l := append([]old.License(nil), lists[j%3]...)
	s := fill(afters[j/3])
	text := []byte(s)
	one := old.New(l)
	first, ok := one.Cover(text, sharedOpts[1])
	observe(s, first, ok)
	sym.Shared(func() {
		c, ok2 := old.New(l).Cover(text, sharedOpts[1])
		sameCover(first, c, ok, ok2)
		old.New(lists[(j+1)%3]).Cover(text, sharedOpts[2])
		_ = old.BuiltinLicenses()
		c, ok2 = one.Cover(text, sharedOpts[1])
		sameCover(first, c, ok, ok2)
	})
	for i := range l {
		sym.Assert(l[i] == lists[j%3][i], "the list is changed")
	}
}

func C27_New_N() int { return 3 * len(afters) }
