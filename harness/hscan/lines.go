package hscan

import (
	"github.com/google/licensecheck/internal/verif/ref"
	"github.com/google/licensecheck/internal/verif/sym"
)

// extent checks C13 for the only match of text, whose words after any copyright notice begin at
// byte first and end at byte last; from is the number of words before that are not available.
func extent(text string, c coverage, k, first, last, from int) {
	ws := ref.Split(text)
	f, l := -1, -1
	for i, w := range ws {
		if w.Lo == first {
			f = i
		}
		if w.Hi == last {
			l = i
		}
	}
	sym.Assert(f >= 0 && l >= f, "the words of the harness")
	lo := f - 50
	if lo < from {
		lo = from
	}
	for i := lo; i < f; i++ {
		if ws[i].S == "copyright" {
			f = i
			sym.Cover("copyright")
			break
		}
	}
	start := 0
	if f > 0 {
		start = ws[f].Lo
		for i := start; i > ws[f-1].Hi; i-- {
			if text[i-1] == '\n' {
				start = i
				sym.Cover("start of line")
				break
			}
		}
	} else {
		sym.Cover("start of text")
	}
	end := len(text)
	if l+1 < len(ws) {
		end = ws[l].Hi
		for i := end; i < ws[l+1].Lo; i++ {
			if text[i] == '\n' {
				end = i + 1
				sym.Cover("end of line")
				break
			}
		}
	} else {
		sym.Cover("end of text")
	}
	sym.Assert(k < len(c.Match), "a text of a pattern is not found")
	sym.Assert(c.Match[k].Start == start, "the start of a match")
	sym.Assert(c.Match[k].End == end, "the end of a match")
}

func C13_Before_Setup(j int) { setup(lists[j%4/3]) }
func C13_Lines_Setup(j int)  { setup(lists[0]) }
func C13_After_Setup(j int)  { setup(lists[0]) }

var counts = []int{1, 2, 3, 7, 48, 49, 50, 51, 52, 53, 60}

// C13_Before: up to 60 words before a match, of which any one, or any one and another, is a
// copyright word, at the beginning of the text or after another match (which may itself end with
// a copyright word) or a URL.
func C13_Before(j int) {
	n := counts[j/4]
	text := ""
	from := 0
	k := 0
	switch j % 4 {
	case 1:
		text = "copyright b d e " // a match, with its copyright
		from = 4
		k = 1
	case 2:
		text = "copyright z d e http://x.org/l "
		k = 1
	case 3:
		text = "a copyright "
		from = 2
		k = 1
	}
	p := sym.Conc(sym.Choice(n + 1)) // none if n
	q := p
	if p < n {
		switch sym.Conc(sym.Choice(4)) {
		case 1:
			q = p + 1
		case 2:
			q = p + 2
		case 3:
			q = n - 1
		}
	}
	form := []string{"copyright", "(c)"}[(p+n)%2]
	sym.Observe("first", p)
	sym.Observe("second", q)
	for i := 0; i < n; i++ {
		if i == p || i == q {
			text += form
		} else {
			text += "z"
		}
		text += string([]byte{sym.ByteIn(" \n")})
	}
	first := len(text)
	text += "a b z"
	c := scan([]byte(text))
	observe(text, c)
	if j%4 == 2 && len(c.Match) == 1 {
		// The URL is part of the match.
		k = 0
	}
	sym.Assert(len(c.Match) == k+1, "a match too many or too few")
	extent(text, c, k, first, first+3, from)
}

func C13_Before_N() int { return 4 * len(counts) }

// Texts with one match of "a b": '*' is an arbitrary byte that is no part of a word or of markup.
var lineFrames = []string{
	"**a b**",
	"z**a b**z",
	"z***a b",
	"a b***z",
	"z**(c)**a b*z",
	"z*\u00a9**z*a b**z",
	"**copyright*a b**",
	"z**<i>**a b*<i>*z",
	"z*</i\n>*a b*<b\n>**z",
	"z*\r**a b\r**z",
	"z*&copy;*copyright*a b*",
	"z*(c)*http://x.org/l*a b*z",
	"<*a b*",
	"z***a\n\nb***z",
	"b d**a b**b d",
	"b d**(c)**a b**(c)**z",
}

const gap = " \n\t.-*"

// C13_Lines: what is between the words around a match is arbitrary.
func C13_Lines(j int) {
	f := lineFrames[j]
	b := []byte(f)
	for i := range b {
		if b[i] == '*' {
			b[i] = sym.ByteIn(gap)
		}
	}
	text := string(b)
	first := -1
	for i := 0; i+2 < len(f); i++ {
		if f[i] == 'a' && (f[i+1] == ' ' || f[i+1] == '\n') {
			first = i
		}
	}
	last := first + 3
	if f[first+1] == '\n' {
		last = first + 4
	}
	c := scan([]byte(text))
	observe(text, c)
	k, from := 0, 0
	if f[0] == 'b' {
		k, from = 1, 2
	}
	extent(text, c, k, first, last, from)
}

func C13_Lines_N() int { return len(lineFrames) }

// C13_Free: arbitrary bytes before and after a match.
func C13_Free(j int) {
	pre := []string{"", "z", "z ", "(c)", "z\n(c) ", "b d"}[j%6]
	n := 2
	if sym.Thorough() {
		n = 3
	}
	p, q := "", ""
	if j < 6 {
		p = "\n" + string(sym.Bytes(n))
	} else {
		q = string(sym.Bytes(n))
	}
	text := pre + p + " a b " + q
	first := len(pre) + len(p) + 1
	// The bytes must not make "a" or "b" part of something else.
	ws := ref.Split(text)
	fs := -1
	for i, w := range ws {
		if w.Lo == first && i+1 < len(ws) && ws[i+1].Hi == first+3 {
			fs = i
		}
	}
	sym.Assume(fs >= 0)
	c := scan([]byte(text))
	observe(text, c)
	from, k := 0, -1
	for i, m := range c.Match {
		if m.Start <= first && first < m.End {
			k = i
		}
	}
	sym.Assert(k >= 0, "a text of a pattern is not found")
	if c.Match[k].ID != "A" {
		sym.Cover("another match")
		return
	}
	if k > 0 {
		// Words up to the end of the earlier match do not count.
		for from < len(ws) && ws[from].Hi <= c.Match[k-1].End {
			from++
		}
		if c.Match[k-1].IsURL {
			from = 0
		}
	}
	extent(text, c, k, first, first+3, from)
}

func C13_Free_N() int      { return 12 }
func C13_Free_Setup(j int) { setup(lists[0]) }

// C13_Special: special characters around a match and the lines it is in.
func C13_Special(j int) {
	s, t := special(), special()
	if j == 0 {
		text := s + "a b" + t
		c := scan([]byte(text))
		observe(text, c)
		sym.Assert(len(c.Match) == 1 && c.Match[0].Start == 0 && c.Match[0].End == len(text), "the extent of a match that is all of the text")
		sym.Cover("all")
		return
	}
	a, m, z := s+"z "+t+"\n", t+"a b"+s+"\n", s+"q"+t
	if j == 2 {
		m = t + "copyright" + s + "\n" + t + "a b" + s + "\n"
	}
	c := scan([]byte(a + m + z))
	observe(a+m+z, c)
	sym.Assert(len(c.Match) == 1 && c.Match[0].Start == len(a) && c.Match[0].End == len(a+m), "the extent of a match between special characters")
	sym.Cover("part")
}

func C13_Special_N() int      { return 3 }
func C13_Special_Setup(j int) { setup(lists[0]) }
