package hmatch

import (
	"strings"

	"github.com/google/licensecheck/internal/match"
	"github.com/google/licensecheck/internal/verif/sym"
)

// numbered is the i'th of many words that are no near-misses of each other, nor of shorter ones.
func numbered(i int) string {
	return string([]byte{'j' + byte(i/676%15), 'a' + byte(i/26%26), 'a' + byte(i%26)})
}

func numbers(lo, hi int) string {
	var b strings.Builder
	for i := lo; i < hi; i++ {
		b.WriteString(numbered(i))
		b.WriteByte(" \n"[i%2])
	}
	return b.String()
}

func lengths() []int {
	if sym.Thorough() {
		return []int{34, 66, 130, 260, 520, 1030, 2050, 4100}
	}
	return []int{34, 130, 300, 1030}
}

// C05_Size: patterns of up to 1030 words (thorough: 4100), one half of the other, and texts that have some
// of their words from the start, with foreign words before and after.
func C05_Size(j int) {
	ls := lengths()
	n := ls[j/2]
	h := n / 2
	pats := []string{numbers(0, n), numbers(0, h)}
	if j%2 == 1 {
		pats[0], pats[1] = pats[1], pats[0]
	}
	re := compile(pats)
	p := []int{1, 2, h - 1, h, h + 1, n - 1, n}[sym.Conc(sym.Choice(7))]
	pre := sym.Conc(sym.Choice(2)) * 40
	text := strings.Repeat("z ", pre) + numbers(0, p) + string([]byte{sym.ByteIn("zab")}) + " " + numbers(p+1, n)
	sym.Observe("p", p)
	m := re.Match(text)
	observe(m)
	id, end := -1, 0
	if p >= n {
		id, end = j%2, n
	} else if p >= h {
		id, end = 1-j%2, h
	}
	if id < 0 {
		sym.Assert(len(m.List) == 0, "a part of a text is taken for all of it")
		sym.Cover("none")
		return
	}
	sym.Assert(len(m.List) == 1, "a long text is not found")
	sym.Assert(m.List[0].ID == id && m.List[0].Start == pre && m.List[0].End == pre+end, "the extent of a match")
	sym.Cover("found")
}

func C05_Size_N() int { return 2 * len(lengths()) }

// C05_Groups: patterns with up to 40 (thorough: 130) groups of which one, or none, is absent from the text.
func C05_Groups(j int) {
	n := []int{9, 17, 40, 66, 130}[j/3]
	kind := j % 3
	pat := "x y\n"
	for i := 0; i < n; i++ {
		a, b, c := numbered(3*i), numbered(3*i+1), numbered(3*i+2)
		switch kind {
		case 0:
			pat += "((" + a + " || " + b + " " + c + "))\n"
		case 1:
			pat += "((" + a + " || " + b + " " + c + "))??\n"
		case 2:
			pat += "((" + a + "\n((" + b + "))??\n" + c + "))??\n"
		}
	}
	re := compile([]string{pat + "q r"})
	out := []int{-1, 0, n / 2, n - 1}[sym.Conc(sym.Choice(4))]
	step := 1 + sym.Conc(sym.Choice(2))
	text := "x y "
	words := 2
	for i := 0; i < n; i++ {
		if i == out {
			continue
		}
		a, b, c := numbered(3*i), numbered(3*i+1), numbered(3*i+2)
		switch {
		case kind == 2 && i%2 < step-1:
			text += a + " " + c + " "
			words += 2
		case kind == 2:
			text += a + " " + b + " " + c + " "
			words += 3
		case i%2 < step-1:
			text += a + " "
			words++
		default:
			text += b + " " + c + " "
			words += 2
		}
	}
	m := re.Match(text + "q " + string([]byte{sym.ByteIn("rR")}) + " z")
	observe(m)
	if out >= 0 && kind == 0 {
		sym.Assert(len(m.List) == 0, "a required part is left out")
		sym.Cover("none")
		return
	}
	sym.Assert(len(m.List) == 1 && m.List[0].Start == 0 && m.List[0].End == words+2, "a text of a pattern with many groups is not found")
	sym.Cover("found")
}

func C05_Groups_N() int {
	if sym.Thorough() {
		return 15
	}
	return 9
}

// C09_Deep: groups up to 130 (thorough: 520) deep, closed as many times, once less or more, one of them
// optional, one with another alternative.
func C09_Deep(j int) {
	n := []int{7, 15, 17, 31, 33, 65, 130, 260, 520}[j]
	closed := n - 1 + sym.Conc(sym.Choice(3))
	at := []int{-1, 0, n / 2, n - 1}[sym.Conc(sym.Choice(4))]
	alt := []int{-1, 0, n / 2, n - 1}[sym.Conc(sym.Choice(4))]
	pat := "a b\n" + strings.Repeat("((\n", n) + "d"
	for i := 0; i < closed; i++ {
		if i == alt {
			pat += "\n|| e f"
		}
		pat += "\n))"
		if i == at {
			pat += "??"
		}
	}
	d := new(match.Dict)
	re, err := match.ParseLRE(d, "", pat+"\ng")
	sym.Observe("accepted", err == nil)
	if closed != n {
		sym.Assert(err != nil, "a pattern is accepted whose groups do not balance")
		sym.Cover("refused")
		return
	}
	sym.Assert(err == nil && re != nil, "a pattern is refused whose groups balance")
	multi, err := match.NewMultiLRE([]*match.LRE{re})
	sym.Assert(err == nil, "a pattern is refused")
	for i, t := range []string{"a b d g", "a b e f g", "a b g", "a b d d g", "a b d e f g"} {
		want := i == 0 || i == 1 && alt >= 0 || i == 2 && at >= 0
		sym.Assert(len(multi.Match(t).List) == 1 == want, "a pattern with deep groups: "+t)
	}
	sym.Cover("accepted")
}

func C09_Deep_N() int {
	if sym.Thorough() {
		return 9
	}
	return 7
}

// C10_Several: patterns with up to 12 (thorough: 40) wildcards, each standing for the same number of words
// but one of them for another number.
func C10_Several(j int) {
	k := []int{2, 3, 5, 9, 12, 20, 40}[j]
	n := []int{1, 2, 5}[sym.Conc(sym.Choice(3))]
	pat, text := "a b", "a b "
	c := []int{0, 1, n, n + 1}[sym.Conc(sym.Choice(4))]
	o := []int{0, n, n + 1}[sym.Conc(sym.Choice(3))]
	p := []int{0, k / 2, k - 1}[sym.Conc(sym.Choice(3))]
	for i := 0; i < k; i++ {
		pat += " __" + decimal(n) + "__ d e"
		x := c
		if i == p {
			x = o
		}
		text += strings.Repeat("z ", x) + "d e "
	}
	re := compile([]string{pat + " f"})
	m := re.Match(text + string([]byte{sym.ByteIn("fF")}))
	observe(m)
	if o > n || c > n {
		sym.Assert(len(m.List) == 0, "a wildcard stands for too many words")
		sym.Cover("too many")
		return
	}
	sym.Assert(len(m.List) == 1 && m.List[0].End == len(m.Words), "one of many wildcards does not stand for so many words")
	sym.Cover("enough")
}

func C10_Several_N() int {
	if sym.Thorough() {
		return 7
	}
	return 5
}

// C11_Size: words of up to 300 bytes (thorough: 4100), with none, one or two bytes of them other than expected.
func C11_Size(j int) {
	ns := []int{20, 33, 66, 130, 300, 520, 1030, 4100}
	n := ns[j]
	w := []byte(strings.Repeat("abcdefghijk", n/11+1)[:n])
	re := compile([]string{"x y " + string(w) + " vvv"})
	var h []byte
	p := []int{0, 1, n / 2, n - 2, n - 1}[sym.Conc(sym.Choice(5))]
	q := []int{0, n/2 + 1, n - 1}[sym.Conc(sym.Choice(3))]
	op := sym.Conc(sym.Choice(4))
	ok := true
	c := sym.ByteIn("qrQ")
	switch op {
	case 0: // changed
		h = append(h, w...)
		h[p] = c
	case 1: // inserted
		h = append(append(append(h, w[:p]...), c), w[p:]...)
	case 2: // deleted
		h = append(append(h, w[:p]...), w[p+1:]...)
	case 3: // changed twice
		h = append(h, w...)
		h[p], h[q] = c, 's'
		ok = p == q
	}
	sym.Observe("have", string(h))
	m := re.Match("x y " + string(h) + " vvv z")
	observe(m)
	only(m, ok, 4)
}

func C11_Size_N() int {
	if sym.Thorough() {
		return 8
	}
	return 5
}

// C19_Size: pairs of words of up to 1030 (thorough: 66000) bytes that differ in one byte have two indexes.
func C19_Size(j int) {
	n := []int{3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 40, 63, 64, 65, 100, 128, 130, 256, 300, 512, 1030, 4100, 33000, 66000}[j]
	w := []byte(strings.Repeat("abcab", n/5+1)[:n])
	v := append([]byte(nil), w...)
	p := []int{0, 1, n / 2, n - 2, n - 1}[sym.Conc(sym.Choice(5))]
	v[p] = sym.ByteIn("xyb\x00\xe9")
	other := sym.Not(v[p] == w[p])
	d := new(match.Dict)
	i := d.Insert(string(w))
	k := d.Insert(string(v))
	sym.Assert(i == 0 && sym.Iff(k != i, other), "the indexes of two words")
	sym.Assert(d.Lookup(string(w)) == i && d.Lookup(string(v)) == k, "the index found of a word")
	sym.Assert(d.Words()[i] == string(w) && d.Words()[k] == string(v), "the word at an index")
	sym.Assert(d.Lookup(string(w[:n-1])) == match.BadWord && d.Lookup(string(w)+"a") == match.BadWord, "a word never inserted is found")
	// Two changes that might cancel out in a sum, and an exchange.
	u := append([]byte(nil), w...)
	u[0], u[n-1] = u[0]+1, u[n-1]-1
	x := append([]byte(nil), w...)
	x[0], x[1] = x[1], x[0]
	y := append([]byte(nil), w...)
	y[n/2], y[n/2-1] = y[n/2-1], y[n/2]
	for _, o := range [][]byte{u, x, y} {
		if string(o) != string(v) && string(o) != string(w) && (n > 3 || &o[0] != &y[0]) {
			sym.Assert(d.Lookup(string(o)) == match.BadWord, "a word never inserted is found")
			id := d.Insert(string(o))
			sym.Assert(d.Words()[id] == string(o), "the word at an index")
		}
	}
	sym.Cover("pair")
}

func C19_Size_N() int {
	if sym.Thorough() {
		return 29
	}
	return 26
}

// C05_Repeats: a text with up to 1030 (thorough: 4100) matches of two patterns, with nothing, a word or
// twenty words between them, is found to have all of them.
func C05_Repeats(j int) {
	n := []int{17, 33, 65, 130, 260, 520, 1030, 2050, 4100}[j/2]
	re := compile([]string{"a b", "d e\n((f))??"})
	gap := []string{"", "z ", strings.Repeat("z ", 20)}[sym.Conc(sym.Choice(3))]
	if j%2 == 1 {
		gap += "d\n"
	}
	at := []int{0, n / 2, n - 1}[sym.Conc(sym.Choice(3))]
	text := ""
	var want []match.Match
	w := 0
	for i := 0; i < n; i++ {
		text += gap
		w += strings.Count(gap, " ") + strings.Count(gap, "\n")
		x := match.Match{ID: i % 2, Start: w, End: w + 2}
		if i%2 == 0 {
			text += "a b "
		} else {
			text += "d e "
		}
		if i == at {
			f := sym.ByteIn("fFq")
			text += string([]byte{f}) + " "
			w++
			if i%2 == 1 && f != 'q' {
				x.End++
			}
		}
		w += 2
		want = append(want, x)
	}
	m := re.Match(text)
	observe(m)
	sym.Assert(len(m.List) == n, "the number of matches")
	for i, x := range want {
		sym.Assert(m.List[i] == x, "a match")
	}
	sym.Cover("found")
}

func C05_Repeats_N() int {
	if sym.Thorough() {
		return 18
	}
	return 14
}
