package hmatch

import (
	"github.com/google/licensecheck/internal/match"
	"github.com/google/licensecheck/internal/verif/sym"
)

// Patterns with a word (q) that no text has: none of them can match.
var unrelated = [][]string{
	{"a b q"},
	{"a b\n((d q || q e))"},
	{"a b __3__ q", "b a q a b"},
	{"a b __5__ d e a q", "a b\n((q))??\nq"},
	{"a b d e f q", "b d __4__ a q", "q q"},
	{"((a || b))\n((a || b || d))\n((d || e))??\n((__2__ q))"},
	{"a a a a a a q", "a q", "q a b"},
}

// C20_Add: the sets of C04 and, inserted at any one place, patterns that cannot match.
func C20_Add(j int) {
	s := sets[j/2]
	n := s.n
	if !sym.Thorough() {
		n--
		if n > 6 {
			n = 6
		}
	}
	str, _ := text(n, s.letters)
	sym.Observe("text", str)
	m := cur.re.Match(str)
	observe(m)
	for i := range others {
		got := others[i].re.Match(str)
		same(m, got, others[i].id)
	}
}

// same checks that two lists of matches are the same, but for the numbering of the patterns.
func same(m, got *match.Matches, id []int) {
	sym.Assert(len(m.Words) == len(got.Words), "the number of words changes")
	sym.Assert(len(m.List) == len(got.List), "the number of matches changes")
	for k, x := range m.List {
		y := got.List[k]
		sym.Assert(y.ID == id[x.ID], "another pattern is reported")
		sym.Assert(x.Start == y.Start && x.End == y.End, "the place of a match changes")
		sym.Cover("match")
	}
	if len(m.List) == 0 {
		sym.Cover("no match")
	}
}

type more struct {
	re *match.MultiLRE
	id []int // where the patterns of the original set are
}

var others []more

func C20_Add_N() int { return 2 * len(sets) }

func C20_Add_Setup(j int) {
	p := sets[j/2].pats
	setup(p)
	others = nil
	for i := j % 2; i < len(unrelated); i += 2 {
		q := unrelated[i]
		at := (i + j/2) % (len(p) + 1) // where q is inserted
		if i == 0 {
			at = 0
		}
		var list []string
		var id []int
		for k := 0; k <= len(p); k++ {
			if k == at {
				list = append(list, q...)
			}
			if k < len(p) {
				id = append(id, len(list))
				list = append(list, p[k])
			}
		}
		others = append(others, more{compile(list), id})
	}
}

// C20_Order: two patterns in either order: the same places are reported, and the same pattern
// unless both match there.
func C20_Order(j int) {
	str, t := text(pairs[j].n, pairs[j].letters)
	sym.Observe("text", str)
	m := cur.re.Match(str)
	observe(m)
	got := others[0].re.Match(str)
	sym.Assert(len(m.List) == len(got.List), "the number of matches changes")
	for k, x := range m.List {
		y := got.List[k]
		sym.Assert(x.Start == y.Start && x.End == y.End, "the place of a match changes")
		if y.ID != others[0].id[x.ID] {
			other := 1 - x.ID
			sym.Assert(cur.as[other].Can(t, x.Start)[x.End], "another pattern is reported")
			sym.Assert(x.ID == 0 && y.ID == 0, "a later pattern is reported")
			sym.Cover("both match")
		}
		sym.Cover("match")
	}
}

var pairs = []set{
	{[]string{"a b d", "a b d"}, "abd", 6},
	{[]string{"a b", "a b d"}, "abdz", 6},
	{[]string{"a b\n((d))??", "a b\n((e))??"}, "abde", 6},
	{[]string{"a b a", "b a"}, "abz", 7},
	{[]string{"a b __2__ d", "a b d\n((d))??"}, "abdz", 7},
	{[]string{"a b __4__ d e", "a b\n((d || z))\nd e"}, "abdez", 7},
	{[]string{"((a || b))\nd", "a\n((b))??\nd"}, "abd", 7},
	{[]string{"a b d e", "b d e a b"}, "abde", 7},
}

func C20_Order_N() int { return len(pairs) }
func C20_Order_Setup(j int) {
	p := pairs[j].pats
	setup(p)
	others = []more{{compile([]string{p[1], p[0]}), []int{1, 0}}}
}
