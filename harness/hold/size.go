package hold

import (
	"strings"

	"github.com/google/licensecheck/internal/verif/sym"
	"github.com/google/licensecheck/old"
)

// numbered is the i'th of many words.
func numbered(i int) string {
	return string([]byte{'j' + byte(i/676%15), 'a' + byte(i/26%26), 'a' + byte(i%26)})
}

func numbers(lo, hi int) string {
	var b strings.Builder
	for i := lo; i < hi; i++ {
		b.WriteString(numbered(i))
		b.WriteByte(" \n"[i%2])
	}
	return b.String()
}

func lengths() []int {
	if sym.Thorough() {
		return []int{66, 130, 300, 520, 1030, 2050, 4100}
	}
	return []int{66, 300, 1030}
}

// near reports that a and b are equal but for rounding.
func same(a, b float64) bool { return a-b < 1e-9 && b-a < 1e-9 }

// C24_Size: a license of up to 1030 words (thorough: 4100), of which one, or none, is another one in the text,
// after up to 20000 other words, and before some.
func C24_Size(j int) {
	ls := lengths()
	n := ls[j%len(ls)]
	cases := []struct{ f, after, p int }{{1, 0, n}, {300, 40, n / 2}, {4100, 0, n - 5}, {300, 0, 11}, {1, 40, n}, {1030, 0, n / 2}}
	if sym.Thorough() {
		for _, f := range []int{1, 130, 20000} {
			for _, p := range []int{n, n / 2, n - 5, 11} {
				cases = append(cases, struct{ f, after, p int }{f, 0, p}, struct{ f, after, p int }{f, 40, p})
			}
		}
	}
	k := cases[sym.Conc(sym.Choice(len(cases)))]
	f, after, p := k.f, k.after, k.p
	fill := []string{"za, ", "z\u00e9&amp;\n", "1.z "}[j/len(ls)]
	text := strings.Repeat(fill, f)
	lo := len(text)
	text += numbers(0, p)
	matched, hi := p, len(text)-1
	if p < n {
		text += string([]byte{sym.ByteIn("xyz")}) + "q "
		text += numbers(p+1, n)
		if n-p-1 >= 10 {
			matched, hi = n-1, len(text)-1
		}
	}
	text += strings.Repeat("za ", after)
	cov, ok := cur.Cover([]byte(text), old.Options{Threshold: 1})
	words := f + n + after
	sym.Observe("n", n)
	sym.Observe("f", f)
	sym.Observe("p", p)
	sym.Assert(ok && len(cov.Match) == 1, "a long license in a long text")
	m := cov.Match[0]
	if after == 0 && (p >= n || n-p-1 >= 10) {
		hi = len(text)
	}
	sym.Assert(m.Name == "MIT-x" && m.Type == old.MIT && !m.IsURL, "the name of a long license")
	sym.Assert(m.Start == lo && m.End == hi, "the extent of a long license")
	sym.Assert(same(m.Percent, 100*float64(matched)/float64(n)), "the percentage of a long license")
	covered := matched
	if matched == n-1 {
		covered = n
	}
	sym.Assert(same(cov.Percent, 100*float64(covered)/float64(words)), "the percentage of a long text")
	sym.Cover("found")
}

func C24_Size_N() int { return 3 * len(lengths()) }

func C24_Size_Setup(j int) {
	n := lengths()[j%len(lengths())]
	cur = old.New([]old.License{{Name: "Apart", Text: "omega psi chi phi upsilon"}, {Name: "MIT-x", Text: numbers(0, n)}})
}

var manies = []int{34, 130, 300, 1030}

func manyText(i int) string {
	return numbered(3*i) + " common words " + numbered(3*i+1) + " of them all " + numbered(3*i+2) + " here and there "
}

// C24_Many: of up to 1030 licenses two that the text has.
func C24_Many(j int) {
	n := manies[j]
	text := manyText
	a := n/2 + sym.Conc(sym.Choice(3))
	b := []int{0, 1, n - 2, n - 1, a}[sym.Conc(sym.Choice(5))]
	x := string([]byte{sym.ByteIn("zZy")}) + " "
	t := x + text(a) + strings.Repeat("z ", 9) + text(b) + "z"
	cov, ok := cur.Cover([]byte(t), old.Options{})
	sym.Assert(ok && len(cov.Match) == 2, "two of many licenses")
	for i, k := range []int{a, b} {
		m := cov.Match[i]
		sym.Assert(m.Name == "N"+numbered(k) && m.Percent == 100, "the name of one of many licenses")
	}
	sym.Assert(cov.Match[0].Start == 2 && cov.Match[0].End == 1+len(text(a)), "the extent of the first of many licenses")
	sym.Assert(cov.Match[1].Start == len(t)-1-len(text(b)) && cov.Match[1].End == len(t)-2, "the extent of the second of many licenses")
	sym.Assert(same(cov.Percent, 100*22/float64(22+11)), "the percentage of a text with two of many licenses")
	sym.Cover("found")
}

func C24_Many_N() int { return 4 }

func C24_Many_Setup(j int) {
	var l []old.License
	for i := 0; i < manies[j]; i++ {
		l = append(l, old.License{Name: "N" + numbered(i), Text: manyText(i)})
	}
	cur = old.New(l)
}

// C24_Copies: a license up to 130 (thorough: 1030) times.
func C24_Copies(j int) {
	ns := []int{18, 130}
	if sym.Thorough() {
		ns = append(ns, 66, 300, 1030)
	}
	n := ns[sym.Conc(sym.Choice(len(ns)))]
	g := []int{0, 1, 8, 9, 71}[j]
	lic := join(licWords[:12])
	unit := lic + strings.Repeat("za ", g)
	x := string([]byte{sym.ByteIn("xyz")}) + "q "
	c := old.New([]old.License{{Name: "MIT-x", Text: lic}, {Name: "Apart", Text: "omega psi chi phi upsilon"}})
	text := x + strings.Repeat(unit, n) + "zz"
	cov, ok := c.Cover([]byte(text), old.Options{})
	sym.Observe("n", n)
	sym.Assert(ok && len(cov.Match) == n, "many copies of a license")
	for i, m := range cov.Match {
		lo := len(x) + i*len(unit)
		sym.Assert(m.Start == lo && m.End == lo+len(lic)-1 && m.Percent == 100, "the extent of one of many copies")
	}
	sym.Assert(same(cov.Percent, 100*float64(12*n)/float64((12+g)*n+2)), "the percentage of many copies")
	sym.Cover("found")
}

func C24_Copies_N() int { return 5 }

// C25_Size: up to 300 (thorough: 1030) URLs in a text, of as many licenses, with one of them arbitrary.
func C25_Size(j int) {
	n := []int{18, 66, 300, 1030}[j]
	var l []old.License
	for i := 0; i < n; i++ {
		l = append(l, old.License{Name: "MIT-" + numbered(i), URL: "x.org/" + numbered(i)})
	}
	c := old.New(l)
	text := "za "
	at := make([]int, n)
	p := []int{0, n / 2, n - 1}[sym.Conc(sym.Choice(3))]
	for i := 0; i < n; i++ {
		at[i] = len(text)
		s := numbered(i)
		if i == p {
			s = s[:2] + string([]byte{sym.ByteIn("01") | s[2]&0x40}) // a letter of no license's URL, or a digit
		}
		text += "http://x.org/" + s + " zb "
	}
	cov, ok := c.Cover([]byte(text), old.Options{})
	sym.Observe("p", p)
	sym.Assert(ok, "many URLs")
	k := 0
	for i := 0; i < n; i++ {
		if k < len(cov.Match) && cov.Match[k].Start == at[i] {
			m := cov.Match[k]
			sym.Assert(m.IsURL && m.Percent == 100 && m.Type == old.MIT, "one of many URLs")
			if i != p {
				sym.Assert(m.Name == "MIT-"+numbered(i) && m.End == at[i]+len("http://x.org/jaa"), "the name and extent of one of many URLs")
			}
			k++
			continue
		}
		sym.Assert(i == p, "one of many URLs is not found")
		sym.Cover("not known")
	}
	sym.Assert(k == len(cov.Match) && k >= n-1, "one of many URLs is not found, or another one is")
}

func C25_Size_N() int {
	if sym.Thorough() {
		return 4
	}
	return 3
}
