package hold

import (
	"github.com/google/licensecheck/internal/verif/sym"
	"github.com/google/licensecheck/old"
)

// The license of C24: "w00 ... w11" in letters, with a blank after the first p words if blank is set.
var licWords = []string{
	"alpha", "beta", "gamma", "delta", "epsilon", "zeta", "eta", "theta", "iota", "kappa", "lambda", "nu", "xa", "xb", "xc", "xd",
}

func join(ws []string) string {
	s := ""
	for _, w := range ws {
		s += w + " "
	}
	return s
}

// foreign is g words that no license has, the first one with a letter that is open.
func foreign(g int) string {
	s := ""
	for i := 0; i < g; i++ {
		w := []byte("za, ")
		if i == 0 {
			w[1] = sym.ByteIn("az\n") // "z\n," is the word "z"
		}
		s += string(w)
	}
	return s
}

// A want is a match that must be reported.
type want struct {
	lo, hi  int
	matched int // words
}

// effective options.
func eff(o old.Options) (min, threshold, slop int) {
	min = sym.Ite(o.MinLength <= 0, 10, o.MinLength)
	min = sym.Ite(min < 2, 2, min)
	threshold = sym.Ite(o.Threshold <= 0, 40, o.Threshold)
	slop = sym.Ite(o.Slop <= 0, 8, o.Slop)
	return
}

func expect(c *old.Checker, name string, n int, text string, opts old.Options, threshold int, wants []want) {
	cov, ok := c.Cover([]byte(text), opts)
	observe(text, cov, ok)
	sym.Observe("min", opts.MinLength)
	sym.Observe("threshold", opts.Threshold)
	sym.Observe("slop", opts.Slop)
	ws := normal(text)
	sym.Assert(cov.Percent == overall(ws, cov), "the overall percentage is not that of the words covered")
	var keep []want
	for _, w := range wants {
		if 100*w.matched >= threshold*n {
			keep = append(keep, w)
		}
	}
	sym.Assert(len(cov.Match) == len(keep), "a license whose text is there is not found, or not as one match per text")
	for i, w := range keep {
		m := cov.Match[i]
		sym.Assert(m.Name == name && !m.IsURL, "the license whose text is there")
		sym.Assert(m.Start == w.lo && m.End == w.hi, "the extent of the license's text")
		p := 100 * float64(w.matched) / float64(n)
		sym.Assert(m.Percent == p, "the percentage of the license's words")
	}
	if len(keep) == 0 {
		sym.Cover("not reported")
	}
	if len(keep) == 1 {
		sym.Cover("one match")
	}
	if len(keep) == 2 {
		sym.Cover("two matches")
	}
}

func options() old.Options {
	return old.Options{MinLength: sym.Int(-1, 14), Threshold: sym.Int(-1, 120), Slop: sym.Int(-1, 110)}
}

var findSplits = []struct {
	n, p  int
	blank bool
}{
	{12, 12, false}, {12, 6, false}, {12, 10, false}, {12, 2, false}, {12, 1, false},
	{11, 5, true}, {12, 1, true}, {12, 2, true}, {13, 10, true}, {2, 2, false}, {3, 1, false}, {3, 1, true}, {4, 2, true},
}

func findLists(j int) []old.License {
	f := findSplits[j]
	t := join(licWords[:f.p])
	if f.blank {
		t += "___ "
	}
	t += join(licWords[f.p:f.n])
	return []old.License{
		{Name: "U", URL: "x.org/l"},
		{Name: "MIT-x", Text: t},
		{Name: "Apart", Text: "omega psi chi phi upsilon tau sigma rho pi omicron"},
	}
}

// C24_Split: a license's text in two parts with foreign words between, before and after.
func C24_Split(j int) {
	f := findSplits[j]
	opts := options()
	min, threshold, slop := eff(opts)
	gaps := []int{0, 1, 2, 9, 69, 71}
	if sym.Thorough() {
		gaps = []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 20, 68, 69, 70, 71, 72, 100}
	}
	g := 0
	if f.p < f.n {
		g = gaps[sym.Conc(sym.Choice(len(gaps)))]
	}
	around := sym.Conc(sym.Choice(3))
	text := ""
	if around > 0 {
		text = foreign(around)
	}
	lo1 := len(text)
	text += join(licWords[:f.p])
	hi1 := len(text) - 1
	text += foreign(g)
	lo2 := len(text)
	text += join(licWords[f.p:f.n])
	hi2 := len(text) - 1
	end := hi2
	if f.p == f.n {
		lo2 = lo1
		end = hi1
	}
	if around > 0 {
		text += foreign(3 - around)
	} else {
		// The last word is the license's, so the match runs to the end of the text.
		end = len(text)
		hi2 = end
	}
	n, p, q := f.n, f.p, f.n-f.p
	var wants []want
	long1, long2 := sym.ConcBool(p >= min), sym.ConcBool(q >= min)
	switch {
	case !f.blank && (g == 0 || q == 0):
		if n >= min {
			wants = []want{{lo1, end, n}}
		}
	case f.blank && g <= 70 && long1 && long2:
		wants = []want{{lo1, end, n + 1}}
	case !f.blank && long1 && long2 && g <= slop:
		wants = []want{{lo1, end, n}}
	case f.blank && !long1 && long2:
		if g == 70 {
			return
		}
		if g < 70 {
			wants = []want{{lo1, end, n + 1}}
		} else {
			wants = []want{{lo2, end, q}}
		}
	default:
		if long1 {
			wants = append(wants, want{lo1, hi1, p})
		}
		if long2 {
			wants = append(wants, want{lo2, hi2, q})
		}
	}
	if f.blank {
		n++
	}
	expect(cur, "MIT-x", n, text, opts, threshold, wants)
}

func C24_Split_N() int      { return len(findSplits) }
func C24_Split_Setup(j int) { cur = old.New(findLists(j)) }

// C24_Twice: the same license two times.
func C24_Twice(j int) {
	f := findSplits[[]int{0, 6, 12}[j%3]]
	opts := options()
	min, threshold, _ := eff(opts)
	g := []int{0, 1, 9, 71}[j/3]
	n := f.n
	if f.blank {
		n++
	}
	one := join(licWords[:f.p])
	if f.blank {
		one += foreign(3)
	}
	one += join(licWords[f.p:f.n])
	text := foreign(1)
	lo1 := len(text)
	text += one
	hi1 := len(text) - 1
	text += foreign(g)
	lo2 := len(text)
	text += one
	hi2 := len(text) - 1
	text += "z"
	wants := []want{{lo1, hi1, n}, {lo2, hi2, n}}
	if f.n-f.p > 0 {
		// The parts before the blank are found only together with the parts after it.
		sym.Assume(min <= f.n-f.p)
	} else {
		sym.Assume(min <= f.n)
	}
	expect(cur, "MIT-x", n, text, opts, threshold, wants)
}

func C24_Twice_N() int      { return 12 }
func C24_Twice_Setup(j int) { cur = old.New(findLists([]int{0, 6, 12}[j%3])) }

var bests = []struct {
	list []old.License
	text string
	name string
	lo   int // words before and after the match
	hi   int
	n    int
	of   int // words of the license, if not n
}{
	// A license within another one.
	{[]old.License{{Name: "Long", Text: "alpha beta gamma delta epsilon"}, {Name: "Short", Text: "beta gamma delta"}}, "z alpha beta gamma delta epsilon z", "Long", 1, 1, 5, 0},
	{[]old.License{{Name: "Short", Text: "alpha beta gamma"}, {Name: "Long", Text: "alpha beta gamma delta epsilon"}}, "z alpha beta gamma delta epsilon z", "Long", 1, 1, 5, 0},
	{[]old.License{{Name: "Short", Text: "gamma delta epsilon"}, {Name: "Long", Text: "alpha beta gamma delta epsilon"}}, "z alpha beta gamma delta epsilon z", "Long", 1, 1, 5, 0},
	// Only the short one is there.
	{[]old.License{{Name: "Long", Text: "alpha beta gamma delta epsilon zeta eta theta"}, {Name: "Short", Text: "alpha beta gamma"}}, "z alpha beta gamma z", "Short", 1, 1, 3, 0},
	// Licenses with the same beginning, middle or end.
	{[]old.License{{Name: "One", Text: "alpha beta gamma delta"}, {Name: "Two", Text: "alpha beta zeta delta"}}, "z alpha beta zeta delta z", "Two", 1, 1, 4, 0},
	{[]old.License{{Name: "One", Text: "alpha beta gamma delta"}, {Name: "Two", Text: "zeta beta gamma delta"}}, "z zeta beta gamma delta z", "Two", 1, 1, 4, 0},
	// Repeated words.
	{[]old.License{{Name: "One", Text: "alpha beta alpha beta gamma"}}, "z alpha beta alpha beta gamma z", "One", 1, 1, 5, 0},
	{[]old.License{{Name: "One", Text: "alpha alpha alpha beta"}, {Name: "Two", Text: "alpha beta zeta alpha alpha beta eta"}}, "z alpha beta zeta alpha alpha beta eta z", "Two", 1, 1, 7, 0},
	// The text runs to the end.
	{[]old.License{{Name: "One", Text: "alpha beta gamma"}}, "alpha beta gamma", "One", 0, 0, 3, 0},
	{[]old.License{{Name: "One", Text: "alpha beta gamma"}}, "z alpha beta gamma", "One", 1, 0, 3, 0},
	{[]old.License{{Name: "One", Text: "alpha beta gamma"}}, "alpha beta gamma z", "One", 0, 1, 3, 0},
	// A license that goes on where another one ends.
	{[]old.License{{Name: "Short", Text: "alpha beta gamma"}, {Name: "Long", Text: "alpha beta gamma delta"}}, "z alpha beta gamma z", "Short", 1, 1, 3, 0},
	{[]old.License{{Name: "Short", Text: "gamma delta epsilon"}, {Name: "Long", Text: "beta gamma delta epsilon"}}, "gamma delta epsilon z", "Short", 0, 1, 3, 0},
	{[]old.License{{Name: "Short", Text: "beta gamma delta zeta"}, {Name: "Long", Text: "alpha beta gamma delta zeta eta"}}, "z beta gamma delta zeta z", "Short", 1, 1, 4, 0},
	// A part of a license that has the same words in two places: the one that goes on longer counts.
	{[]old.License{{Name: "One", Text: "alpha beta gamma zeta alpha beta gamma delta eta"}}, "z alpha beta gamma delta eta z", "One", 1, 1, 5, 9},
	{[]old.License{{Name: "One", Text: "alpha beta alpha beta gamma alpha beta gamma delta eta"}}, "z alpha beta gamma delta eta z", "One", 1, 1, 5, 10},
	{[]old.License{{Name: "One", Text: "alpha beta gamma delta alpha beta gamma alpha beta"}}, "z alpha beta gamma delta z", "One", 1, 1, 4, 9},
}

// C24_Best: of the licenses that a text has parts of, the one with all of its words is reported, in
// whatever order the licenses are listed.
func C24_Best(j int) {
	b := bests[j]
	opts := old.Options{MinLength: sym.Int(-1, 4), Threshold: sym.Int(-1, 120), Slop: sym.Int(-1, 20)}
	min, threshold, _ := eff(opts)
	sym.Assume(min <= b.n)
	list := append([]old.License{{Name: "U", URL: "x.org/l"}}, b.list...)
	if sym.Bool() {
		for i, k := 0, len(list)-1; i < k; i, k = i+1, k-1 {
			list[i], list[k] = list[k], list[i]
		}
	}
	// In the order of names the license is the first or the last.
	other, name := "1", "2"
	if sym.Bool() {
		other, name = name, other
	}
	for i := range list {
		if list[i].Name == b.name {
			list[i].Name = name + b.name
		} else {
			list[i].Name = other + list[i].Name
		}
	}
	ws := normal(b.text)
	lo, hi := 0, len(b.text)
	if b.lo > 0 {
		lo = ws[b.lo].lo
	}
	if b.hi > 0 {
		hi = ws[len(ws)-1-b.hi].hi
	}
	of := b.of
	if of == 0 {
		of = b.n
	}
	expect(old.New(list), name+b.name, of, b.text, opts, threshold, []want{{lo, hi, b.n}})
}

func C24_Best_N() int { return len(bests) }
