package hscan

import "github.com/google/licensecheck/internal/verif/sym"

// between is k foreign words on lines of their own. The "<" ends a tag that is left open.
func between(k int) string {
	s := "\n< "
	for i := 0; i < k; i++ {
		s += "q "
		if i%20 == 7 {
			s += "\n"
		}
	}
	return s + "\n"
}

// apart is C26: two sections, with so many foreign words between them that no pattern's wildcards
// and no copyright notice reach across them, are scanned each for itself.
func apart(a, b string, k int) {
	sep := between(k)
	x, y, xy := scan([]byte(a+sep)), scan([]byte(sep+b)), scan([]byte(a+sep+b))
	observe(a+"|"+b, xy)
	sym.Assert(len(xy.Match) >= len(x.Match)+len(y.Match), "a match is lost with another section far away")
	sym.Assert(len(xy.Match) == len(x.Match)+len(y.Match), "a match appears with another section far away")
	for i, m := range xy.Match {
		if i < len(x.Match) {
			sym.Assert(m == x.Match[i], "a match changes with another section far behind it")
			sym.Cover("first section")
			continue
		}
		w := y.Match[i-len(x.Match)]
		w.Start += len(a)
		w.End += len(a)
		sym.Assert(m == w, "a match changes with another section far before it")
		sym.Cover("second section")
	}
	if len(xy.Match) == 0 {
		sym.Cover("no match")
	}
}

var sections = []string{
	"", "a b ", "a b d ", "Copyright b z e ", "http://x.org/l ", "\na b\n(c) ", "b d e", "http://x.org/l/m a b", "d d http://x.org/l",
	"http x", "l a b", "a copyright z", "https://ab.com/p/q\n", "a b a b",
}

// C26_Tokens: two sections of which the first ends, and the second begins, with 2 tokens.
func C26_Tokens(j int) {
	a := sections[j/2]
	n := 1
	if sym.Thorough() {
		n = 2
	}
	for i := 0; i < n; i++ {
		a += tokens[sym.Conc(sym.Choice(len(tokens)))]
	}
	b := ""
	for i := 0; i < n; i++ {
		b += tokens[sym.Conc(sym.Choice(len(tokens)))]
	}
	k := len(sections)
	if !sym.Thorough() {
		k = 6
	}
	apart(a, b+sections[sym.Conc(sym.Choice(k))], 55)
}

func C26_Tokens_N() int      { return 2 * len(sections) }
func C26_Tokens_Setup(j int) { setup(lists[j%2]) }

var apartFrames = [][2]string{
	{"a b##", "a b"},
	{"a b", "##a b"},
	{"#a b", "b d#"},
	{"http://x.org/l##", "a b"},
	{"a b", "http://x.org##l"},
	{"(c)#a b", "#Copyright b e"},
	{"a b#", "Copyright b#e"},
	{"a b#\n", "#http://x.org/l"},
	{"copyright b##", "z e"},
	{"a", "##b d"},
	{"http:#", "#/x.org/l"},
	{"~a b", "(c) b d~"},
	{"http://x.org/l~", "~a b"},
}

// C26_Frame: two sections with arbitrary bytes.
func C26_Frame(j int) {
	f := apartFrames[j/2]
	apart(fill(f[0]), fill(f[1]), 55)
}

func C26_Frame_N() int      { return 2 * len(apartFrames) }
func C26_Frame_Setup(j int) { setup(lists[j%2]) }

var series = []string{
	"", "a b z b d e z ", "http://x.org/l ", "copyright b z e\n", "d d z\n(c) b d ", "a b\nq a b ", "http://x.org/l/m a b d d b d z http x l a b z",
}

// C26_Many: sections with a few matches each, hundreds of words apart.
func C26_Many(j int) {
	ns := []int{300}
	a := series[j/2] + series[sym.Conc(sym.Choice(len(series)))]
	if sym.Thorough() {
		ns = []int{130, 300, 700}
		a += fill("$")
	}
	b := series[sym.Conc(sym.Choice(len(series)))]
	apart(a, b, ns[sym.Conc(sym.Choice(len(ns)))])
}

func C26_Many_N() int      { return 2 * len(series) }
func C26_Many_Setup(j int) { setup(lists[j%2]) }
