package hsplit

import "github.com/google/licensecheck/internal/verif/sym"

var runs = []int{
	0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 24, 31, 32, 33, 40, 50, 63, 64, 65, 80, 100, 127, 128, 129,
	150, 200, 255, 256, 257, 300,
}

// run is up to 40 (thorough: 300) equal bytes of set, of which one, the first, middle or last, may differ.
func run(set string) string {
	k := 21
	if sym.Thorough() {
		k = len(runs)
	}
	n := runs[sym.Conc(sym.Choice(k))]
	b := make([]byte, n)
	c := sym.ByteIn(set)
	for i := range b {
		b[i] = c
	}
	if n > 0 {
		b[[]int{0, n / 2, n - 1}[sym.Conc(sym.Choice(3))]] = sym.ByteIn(set)
	}
	return string(b)
}

var apart = []string{"copyright", "(c)", "\u00a9", "&copy;", "notice(s)", "https", "c"}

// C06_Apart: pairs of words with up to 40 (thorough: 300) ignored bytes between them.
func C06_Apart(j int) {
	compare("x " + apart[j/len(apart)] + run(" \n.-*") + apart[j%len(apart)] + " y")
}

func C06_Apart_N() int { return len(apart) * len(apart) }

var endings = []string{"", "(s)", "(s) x", "\u00c9", "\u0301", "\u0663", "(c)", "\u00a9"}

// C06_Long: words of up to 40 (thorough: 300) letters.
func C06_Long(j int) { compare("a." + run("aZ09") + endings[j]) }

func C06_Long_N() int { return len(endings) }

var longMarkup = []struct{ pre, set, post string }{
	{"&#", "0169", ";"},
	{"&#x", "0aF9", ";"},
	{"&", "aZbC", ";"},
	{"<b", "x/ =", ">"},
	{"<b", "\nx \"", ">"},
	{"<a x=\"", "\nx<\"", "\">b"},
	{"<a x='", "\nx>'", "'>b"},
	{"<a x", "@:/ ", ">b"},
	{"</", "ab\r", ">"},
	{"{#", "x-#h", "}"},
	{"{#", "x }\n", "}b"},
	{"](http://", "x/?)", ")"},
	{"](https://", "x\t(.", ")"},
	{"](#", "x-\n]", ")"},
	{"](mailto:", "x@. ", ")"},
	{"](file:", "/x\r)", ")"},
	{"<!--", "x->a", "-->"},
	{"&copy", "yx;&", ";"},
}

// C08_Long: markup (complete, or what comes near it) of up to 40 (thorough: 300) bytes.
func C08_Long(j int) {
	m := longMarkup[j/2]
	s := "x " + m.pre + run(m.set)
	if j%2 == 0 {
		s += m.post + " y"
	}
	compare(s)
}

func C08_Long_N() int { return 2 * len(longMarkup) }

var markTokens = []string{
	"<a", "</b", ">", "\"", "'", "\n", " ", "&", "copy", ";", "#", "xF", "12", "](", "http://", ")", "{", "}", "@", ":/", "=", "\r\n\n", "<",
}

// C08_Tokens: every sequence of 3 tokens (thorough: 4) with a beginning of markup before it and the
// ends of all kinds of it after.
func C08_Tokens(j int) {
	s := "x" + []string{"<a", "&", "&#", "](#", "{#"}[j/len(markTokens)] + markTokens[j%len(markTokens)]
	n := 2
	if sym.Thorough() {
		n = 3
	}
	for i := 0; i < n; i++ {
		s += markTokens[sym.Conc(sym.Choice(len(markTokens)))]
	}
	compare(s + ">c;d}e)y")
}

func C08_Tokens_N() int { return 5 * len(markTokens) }
