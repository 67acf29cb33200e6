package hscan

import (
	"github.com/google/licensecheck"
	"github.com/google/licensecheck/internal/verif/sym"
)

var tokens = []string{
	"a ", "b ", "d ", "\n", "e", "http://x.org/l", "https://X.org/L/M/", "(c)", "Copyright ",
	"<i>", "/\u00e9", "ab.com/p/q ", "&copy; b ",
}

// tokenText is a sequence of tokens, the first of them given.
func tokenText(j, n int) string {
	s := tokens[j]
	for i := 1; i < n; i++ {
		s += tokens[sym.Conc(sym.Choice(len(tokens)))]
	}
	return s
}

func tokenCount() int {
	if sym.Thorough() {
		return 5
	}
	return 4
}

// Texts with arbitrary bytes.
var frames = []string{
	"##",
	"a##b#",
	"a b##d",
	"##a b#",
	"(c)##a b",
	"z#(#)#a b#",
	"a b\n#(c)#\nb d",
	"http://x.org/l##",
	"http://x.org/l#a b",
	"a b#http://x.org/l#",
	"#http://x.org/l/m#",
	"http:##x.org/l",
	"http://x.org##l",
	"copyright#b#e",
	"http://x.org/l a##",
	"d##d #",
	"a b<##>b d",
	"http://x.org/l http://x.org##",
	"(c) http://x.org/l#a b",
	"http://x.org/l##b",
	"z#http a b#",
	"http:#a b\nhttp#b d",
	"a b#http#(c) https a b#",
	"~a b~",
	"~z (c)~\na b~d",
	"~http://x.org/l~a b",
	"a~b b~d z ~",
}

// C01_Tokens: every sequence of 4 tokens (thorough: 5).
func C01_Tokens(j int) {
	s := tokenText(j/2, tokenCount())
	c := scan([]byte(s))
	observe(s, c)
	wellFormed(s, c)
}

func C01_Tokens_N() int      { return 2 * len(tokens) }
func C01_Tokens_Setup(j int) { setup(lists[j%2]) }

// C01_Frame: texts with two or three arbitrary bytes.
func C01_Frame(j int) {
	s := fill(frames[j/2])
	c := scan([]byte(s))
	observe(s, c)
	wellFormed(s, c)
}

func C01_Frame_N() int      { return 2 * len(frames) }
func C01_Frame_Setup(j int) { setup(lists[j%2]) }

// Beginnings of texts whose matches are far apart.
var farStarts = []string{"a b ", "z a copyright ", "a copyright ", "copyright a b\n", "http://x.org/l "}

// farText is a beginning, up to 60 words of which one or two or none are copyright words, and a match.
func farText(j int) string {
	s := farStarts[j]
	n := sym.Conc(sym.Choice(13))
	n = []int{0, 1, 2, 3, 4, 47, 48, 49, 50, 51, 52, 53, 60}[n]
	at := []int{0, 1, n - 1, n - 51, n - 50, n - 49}
	p := at[sym.Conc(sym.Choice(len(at)))]
	q := []int{-1, 0, n - 2, n - 50}[sym.Conc(sym.Choice(4))]
	for i := 0; i < n; i++ {
		if i == p || i == q {
			s += "(c)" + string([]byte{sym.ByteIn(" \n")})
		} else {
			s += "z "
		}
	}
	return s + "a b" + fill("#")
}

// C01_Far: matches up to 60 words apart.
func C01_Far(j int) {
	s := farText(j / 2)
	c := scan([]byte(s))
	observe(s, c)
	wellFormed(s, c)
}

func C01_Far_N() int      { return 2 * len(farStarts) }
func C01_Far_Setup(j int) { setup(lists[j%2]) }

// C02_Far: matches up to 60 words apart.
func C02_Far(j int) {
	s := farText(j / 2)
	c := scan([]byte(s))
	observe(s, c)
	percent(s, c)
}

func C02_Far_N() int      { return 2 * len(farStarts) }
func C02_Far_Setup(j int) { setup(lists[j%2]) }

// C02_Tokens: every sequence of 4 tokens (thorough: 5).
func C02_Tokens(j int) {
	s := tokenText(j/2, tokenCount())
	c := scan([]byte(s))
	observe(s, c)
	percent(s, c)
}

func C02_Tokens_N() int      { return 2 * len(tokens) }
func C02_Tokens_Setup(j int) { setup(lists[j%2]) }

// C02_Frame: texts with two or three arbitrary bytes.
func C02_Frame(j int) {
	s := fill(frames[j/2])
	c := scan([]byte(s))
	observe(s, c)
	percent(s, c)
}

func C02_Frame_N() int      { return 2 * len(frames) }
func C02_Frame_Setup(j int) { setup(lists[j%2]) }

// C03_Text: no text makes a scan panic: 3 arbitrary bytes (thorough: 4) and the frames with truncated markup.
func C03_Text(j int) {
	s := ""
	if j < 6 {
		n := j
		if n == 5 || n == 4 && !sym.Thorough() {
			n = 3
		}
		b := sym.Bytes(n)
		s = string(b)
		if j == 5 {
			s = "a b" + s + "b d"
		}
	} else {
		s = fill(broken[j-6])
	}
	c := scan([]byte(s))
	observe(s, c)
	sym.Assert(c.Percent >= 0, "a percentage")
	sym.Cover("scanned")
}

var broken = []string{
	"<##", "a <b#", "&#", "&##;", "&#x##", "{##", "a {#b#", "](##", "a](b##", "http#", "https:##", "http://##",
	"http://x.org/#", "a(s#", "(c##", "((##", "\xc2#", "\xe2\x84#", "e\xcc#\xcc#", "\xf0\x9d##",
}

func C03_Text_N() int      { return 6 + len(broken) }
func C03_Text_Setup(j int) { setup(lists[0]) }

var lreTokens = []string{" d", "a b", "\n((", "))\n", "))??\n", "||", " __2__", " __4__", "//** d **//", "copyright"}

// C03_List: every license list with a pattern of 4 tokens (thorough: 5), a pattern with arbitrary
// bytes, an empty one, and a URL: it is refused, or gives a scanner that scans any text.
func C03_List(j int) {
	var l []license
	t := j / 4
	p := lreTokens[t]
	n := 2
	if sym.Thorough() {
		n = 4
	}
	for i := 0; i < n; i++ {
		p += lreTokens[sym.Conc(sym.Choice(len(lreTokens)))]
	}
	switch j % 4 {
	case 0:
		l = []license{{ID: "A", LRE: p + " e"}}
	case 1:
		l = []license{{ID: "A", LRE: p}, {ID: "B", LRE: "b d"}}
	case 2:
		l = []license{{ID: "U", URL: "x.org/l"}, {ID: "A", LRE: "a d"}, {ID: "B", URL: "x.org/l", LRE: p + "\na b"}}
	case 3:
		l = []license{{ID: "U", URL: fill("x.or#")}, {}, {URL: "/"}, {ID: "A", LRE: p + fill("$$")}}
	}
	try(l, "a b d e http://x.org/l copyright d d e")
}

func C03_List_N() int { return 4 * len(lreTokens) }

func try(l []license, text string) {
	for _, x := range l {
		sym.Observe("lre", x.LRE)
	}
	s, err := licensecheck.NewScanner(l)
	if err != nil {
		sym.Assert(s == nil, "a scanner with an error")
		sym.Cover("refused")
		return
	}
	sym.Assert(s != nil, "no scanner, no error")
	c := s.Scan([]byte(text))
	observe(text, c)
	s.Scan(nil)
	sym.Cover("accepted")
}

// C03_Lists: lists of up to three entries, each one of these.
var entries = []license{
	{},
	{ID: "U", URL: "x.org/l"},
	{ID: "A", LRE: "a b"},
	{ID: "S", LRE: " "},
	{ID: "T", LRE: "//** a b **//"},
	{ID: "V", LRE: "a", URL: "x.org"},
	{ID: "W", LRE: "__2__ a b"},
	{ID: "X", LRE: "((a b || ))"},
	{ID: "Y", LRE: "a b __3__"},
	{ID: "Z", LRE: "((a b\n"},
	{ID: "L", LRE: "a b __9__ d __9__ e"},
	{ID: "N", LRE: "\xff\xfe"},
}

func C03_Lists(j int) {
	l := []license{}
	if j > 0 {
		l = append(l, entries[j-1])
		for i := sym.Conc(sym.Choice(3)); i > 0; i-- {
			l = append(l, entries[sym.Conc(sym.Choice(len(entries)))])
		}
	}
	try(l, fill("a b http://x.org/l#a b"))
}

func C03_Lists_N() int { return 1 + len(entries) }

// C03_Zero: arbitrary short patterns.
func C03_Pattern(j int) {
	n := 4
	if sym.Thorough() {
		n = 5
	}
	try([]license{{ID: "A", LRE: "a b" + sym.StringIn(n, []string{"(|) \n", "_1a?", ")|?b", "/* \n", "_9 0", "&<>c"}[j])}}, "a b a a b")
}

func C03_Pattern_N() int { return 6 }

// C09_Scanner: a list with an invalid pattern gives no scanner, and one with valid patterns does.
func C09_Scanner(j int) {
	bad := badPatterns[j]
	ok := bad[0] == '+'
	good := license{ID: "A", LRE: "a b"}
	x := license{ID: "B", LRE: bad[1:] + fill("$")}
	if bad[1] == '$' {
		x.LRE = fill("$") + bad[2:]
	}
	var l []license
	switch sym.Conc(sym.Choice(3)) {
	case 0:
		l = []license{x, good}
	case 1:
		l = []license{good, {ID: "U", URL: "x.org/l"}, x}
	case 2:
		x.URL = "x.org/l"
		l = []license{good, x, good}
	}
	if !ok {
		// Nothing that one more byte repairs.
		s, err := licensecheck.NewScanner(l)
		sym.Observe("lre", x.LRE)
		sym.Assert(s == nil && err != nil, "an invalid pattern gives a scanner")
		sym.Cover("refused")
		return
	}
	last := x.LRE[len(x.LRE)-1]
	sym.Assume(!sym.In(last, "(|)?_/*"))
	s, err := licensecheck.NewScanner(l)
	sym.Observe("lre", x.LRE)
	sym.Assert(s != nil && err == nil, "a valid pattern is refused")
	sym.Cover("accepted")
}

var badPatterns = []string{
	"-a b ((d", "-a b\n((d || e", "-a b d))", "-a || b d", "-a b ?? d", "-a b //** d", "-((a b))) d",
	"-a b\n((d))\n((e", "-a b __99999999999__ d", "-$ || b d e", "-a b\n((d ((e))\n))\nf",
	"+a b d", "+a b\n((d))\ne", "+a b\n((d || e))??\nf", "+a b //** || **// d", "+a b __3__ d",
}

func C09_Scanner_N() int { return len(badPatterns) }

// C16_Scanner: a pattern that can match almost anything gives no scanner, whatever the others are.
func C16_Scanner(j int) {
	p := loose[j]
	var others []license
	for i := sym.Conc(sym.Choice(3)); i > 0; i-- {
		others = append(others, []license{{ID: "A", LRE: "a b"}, {ID: "U", URL: "x.org/l"}, {ID: "C", LRE: "b __2__ d e"}}[sym.Conc(sym.Choice(2))])
	}
	where := sym.Conc(sym.Choice(len(others) + 1))
	var l []license
	l = append(l, others[:where]...)
	l = append(l, license{ID: "B", LRE: p[1:]})
	l = append(l, others[where:]...)
	s, err := licensecheck.NewScanner(l)
	sym.Observe("lre", p[1:])
	sym.Observe("where", where)
	if p[0] == '-' {
		sym.Assert(s == nil && err != nil, "a pattern that can match almost anything gives a scanner")
		sym.Cover("refused")
	} else {
		sym.Assert(s != nil && err == nil, "a pattern without defect is refused")
		sym.Cover("accepted")
	}
}

var loose = []string{
	"-a", "- ", "-//** a b **//", "-((a b))??", "-((a b || d))", "-a\n((b))??", "-__1__ a b d", "-a __1__ b d",
	"-((a __3__ || a b))\nd", "-((__2__ a))??\nb d", "-((a))??\n((b))??\nd", "-((a || ))\nd", "-(c) copyright",
	"-((a b || ((d e || __9__ f))\n))\ng",
	"+a b", "+a b __9__ d", "+((a || b))\nd", "+((a))??\nb d", "+(c) a", "+((a b || d))\ne",
}

func C16_Scanner_N() int { return len(loose) }
