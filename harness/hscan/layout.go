package hscan

import (
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/google/licensecheck"
	"github.com/google/licensecheck/internal/verif/sym"
)

var layoutLists = [][]license{
	{
		{ID: "A", Type: licensecheck.Notice, LRE: "a b notice d"},
		{ID: "B", Type: licensecheck.Discouraged, LRE: "b notice\n((of || a __2__ d))\nz"},
		{ID: "C", LRE: "copyright a __3__ warranty"},
	},
	{
		{ID: "S", LRE: "the z sublicense\n((of))??\na"},
		{ID: "N", LRE: "of a noninfringement d", URL: "x.org/l"},
		{ID: "D", LRE: "a notice of"},
		{ID: "E", LRE: "sub license a"},
	},
}

var layoutWords = [][]string{
	{"a", "b", "notice", "notices", "d", "of", "copyright", "warrenty", "z"},
	{"the", "this", "sub", "license", "sublicense", "a", "non", "infringement", "of", "notice", "d", "z"},
}

// gapOf is n arbitrary bytes that are neither letters nor digits, nor begin markup or parentheses.
func gapOf(n int) string {
	b := sym.Bytes(n)
	for _, c := range b {
		alnum := sym.Or(sym.And('0' <= c, c <= '9'), sym.Or(sym.And('a' <= c, c <= 'z'), sym.And('A' <= c, c <= 'Z')))
		opener := sym.Or(sym.Or(c == '<', c == '&'), sym.Or(c == '{', sym.Or(c == ']', c == '(')))
		sym.Assume(sym.And(c < 0x80, sym.Not(sym.Or(alnum, opener))))
	}
	return string(b)
}

// anycase is w with each letter in either case.
func anycase(w string) string {
	b := []byte(w)
	for i := range b {
		b[i] = sym.IteByte(sym.Bool(), b[i], b[i]-'a'+'A')
	}
	return string(b)
}

type placed struct {
	text   string
	lo, hi []int
}

func (p *placed) add(w string) {
	p.lo = append(p.lo, len(p.text))
	p.text += w
	p.hi = append(p.hi, len(p.text))
}

// reach is the words in a match: those from the first to before the last.
func (p *placed) reach(lo, hi int) (int, int) {
	a, b := 0, 0
	for i := range p.lo {
		if p.hi[i] <= lo {
			a++
		}
		if p.lo[i] < hi {
			b++
		}
		sym.Assert(p.hi[i] <= lo || lo <= p.lo[i], "a match starts inside a word")
		sym.Assert(p.hi[i] <= hi || hi <= p.lo[i], "a match ends inside a word")
	}
	return a, b
}

// alike checks that two texts with the same words have the same matches.
func alike(p, q *placed) {
	x, y := scan([]byte(p.text)), scan([]byte(q.text))
	observe(q.text, y)
	sym.Assert(len(x.Match) == len(y.Match), "the layout of a text changes the number of its matches")
	sym.Assert(x.Percent == y.Percent, "the layout of a text changes the percentage")
	for i, m := range x.Match {
		n := y.Match[i]
		sym.Assert(m.ID == n.ID && m.Type == n.Type && m.IsURL == n.IsURL, "the layout of a text changes which license is found")
		a, b := p.reach(m.Start, m.End)
		c, d := q.reach(n.Start, n.End)
		sym.Assert(a == c && b == d, "the layout of a text changes the words matched")
		sym.Cover("match")
	}
	if len(x.Match) == 0 {
		sym.Cover("no match")
	}
}

func plain(ws []string) *placed {
	p := new(placed)
	for _, w := range ws {
		p.add(w)
		p.text += " "
	}
	return p
}

// C28_Words: every sequence of 4 words (thorough: 5), with arbitrary bytes between them and one of the
// words (thorough: any one of them) in any case.
func C28_Words(j int) {
	words := layoutWords[j%2]
	n := 4
	if sym.Thorough() {
		n = 5
	}
	ws := []string{words[j/2%len(words)]}
	for len(ws) < n {
		ws = append(ws, words[sym.Conc(sym.Choice(len(words)))])
	}
	at := j / 2 % n
	if sym.Thorough() {
		at = sym.Conc(sym.Choice(n))
	}
	q := new(placed)
	q.text = gapOf(1)
	for i, w := range ws {
		if i == at {
			q.add(anycase(w))
			q.text += gapOf(2)
			continue
		}
		q.add(w)
		q.text += gapOf(1)
	}
	alike(plain(ws), q)
}

func C28_Words_N() int      { return 2 * len(layoutWords[1]) }
func C28_Words_Setup(j int) { setup(layoutLists[j%2]) }

var layoutTexts = []string{
	"z a b notice d z z copyright a z z z warrenty q",
	"copyright a q b notices a z d z a b notice d",
	"copyright copyright a warranty b notice of z b",
	"this z sub license of a non infringement d a notice of",
	"z the z sublicense of a nonin fringement d sub license a q",
}

// C28_Text: texts of a dozen words with an arbitrary byte in every gap, or the same comment sign and line
// end, and three arbitrary bytes in any one of them.
func C28_Text(j int) {
	ws := strings.Fields(layoutTexts[j%len(layoutTexts)])
	k := sym.Conc(sym.Choice(11))
	style := []string{"", " ", "\n// ", "\n * ", "\r\n# ", "\n\n-- ", "\t\n;; ", "*/\n/* ", ",\n\"", "\n\x00", ".\n\n  | "}[k]
	at := sym.Conc(sym.Choice(len(ws) + 1))
	q := new(placed)
	q.text = strings.TrimLeft(style, "\n")
	if at == len(ws) {
		q.text = gapOf(3)
	}
	for i, w := range ws {
		switch i {
		case at:
			q.add(w)
			q.text += gapOf(3)
		case at + 1:
			q.add(strings.ToUpper(w))
			q.text += gapOf(1) + style
		default:
			q.add(w)
			q.text += style
			if k == 0 {
				q.text += gapOf(1)
			}
		}
	}
	alike(plain(ws), q)
}

func C28_Text_N() int      { return len(layoutTexts) }
func C28_Text_Setup(j int) { setup(layoutLists[[]int{0, 0, 0, 1, 1}[j]]) }

// C28_Wide: words with nothing but an arbitrary character of two, three or four bytes between them, that is
// neither letter, digit, mark nor copyright sign.
func C28_Wide(j int) {
	b := sym.String(2 + j/2)
	r, k := utf8.DecodeRuneInString(b)
	sym.Assume(k == len(b) && r != utf8.RuneError && r != '\u00a9')
	sym.Assume(!unicode.IsLetter(r) && !unicode.IsDigit(r) && !unicode.Is(unicode.Mn, r))
	ws := strings.Fields([]string{"z a b notice d z copyright a z warranty q", "this z sub license of a z non infringement d a notice of"}[j%2])
	at := sym.Conc(sym.Choice(3))
	q := new(placed)
	q.text = b
	for i, w := range ws {
		if i%3 == at {
			w = strings.ToUpper(w)
		}
		q.add(w)
		q.text += b
	}
	alike(plain(ws), q)
}

func C28_Wide_N() int      { return 6 }
func C28_Wide_Setup(j int) { setup(layoutLists[j%2]) }

// C28_Case: texts in which every letter of three words on end is in either case.
func C28_Case(j int) {
	ws := strings.Fields(layoutTexts[j])
	at := sym.Conc(sym.Choice(len(ws)))
	q := new(placed)
	for i, w := range ws {
		if at <= i && i < at+3 {
			w = anycase(w)
		}
		q.add(w)
		q.text += " "
	}
	alike(plain(ws), q)
}

func C28_Case_N() int      { return len(layoutTexts) }
func C28_Case_Setup(j int) { C28_Text_Setup(j) }
