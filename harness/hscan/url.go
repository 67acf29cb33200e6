package hscan

import (
	"github.com/google/licensecheck"
	"github.com/google/licensecheck/internal/verif/sym"
)

// Texts around URLs; '$' is an arbitrary ASCII byte.
var urlFrames = []string{
	"http://x.org/l$$ z",
	"http$://x.org/l ",
	"http$$//x.org/l",
	"http:$$x.org/l",
	"http://x.org/l/$$",
	"http://x.$$$/l",
	"http://$.org/l",
	"http://x$org$l/",
	"http://x.org$l$",
	"$http://x.org/l$",
	"z$$http://x.org/l",
	"http://x.org/l/legalcod$$",
	"http://x.org/l/legalcode$$",
	"http://x.org/l/legalcode/$$",
	"http://x.org/l$legalcode",
	"http://x.org/l$http://x.org/l$",
	"http://x.org/l/http://x.org/$",
	"a b$http://x.org/l$a b",
	"http://x.org/l$$a b",
	"http://x.org/l/m$$x",
	"(c) http://x.org/l$a b",
	"http://x.org/l$(c) http://x.org/l$a b",
	"https://www.x.org/l$ https://x.org/l",
	"http://x.org/$ d d",
	"http://ab.com/p/q$$ z",
	"<http://x.org/l$> [z](http://x.org/l$)",
	"{#http://x.org/l}$ http://x.org/L/$",
	"http://x.org/l$l a b",
	"http://x.org/l/$/legalcode$",
	"http://x.org/l$/legalcode/$$",
	"http://x.org/l/legalcode$legalcode$",
	"http://x.org/$/$/$",
	"https://X.org/L/$$/ http://x.org/l$/",
}

// C12_Text: URLs and what is around them, with two or three arbitrary ASCII bytes.
func C12_Text(j int) {
	s := fill(urlFrames[j/2])
	c := scan([]byte(s))
	observe(s, c)
	urls(s, c)
}

func C12_Text_N() int      { return 2 * len(urlFrames) }
func C12_Text_Setup(j int) { setup(lists[j%2]) }

// C12_Tokens: every sequence of 4 tokens (thorough: 5).
func C12_Tokens(j int) {
	s := tokenText(j/2, tokenCount())
	c := scan([]byte(s))
	observe(s, c)
	urls(s, c)
}

func C12_Tokens_N() int      { return 2 * len(tokens) }
func C12_Tokens_Setup(j int) { setup(lists[j%2]) }

var urlTokens = []string{"http", "S", "://", "x.org", "/l", "/", "m", ".", "a", " ", "legalcode", "?#=", "/legalcode", "/m"}

// C12_Parts: every sequence of 4 parts of a URL (thorough: 5) after a beginning.
func C12_Parts(j int) {
	s := []string{"http://x.org/l", "http://x.org/l/", "http", "z Https://X.org"}[j/len(urlTokens)]
	s += urlTokens[j%len(urlTokens)]
	n := 3
	if sym.Thorough() {
		n = 4
	}
	for i := 1; i < n; i++ {
		s += urlTokens[sym.Conc(sym.Choice(len(urlTokens)))]
	}
	c := scan([]byte(s))
	observe(s, c)
	urls(s, c)
}

func C12_Parts_N() int      { return 4 * len(urlTokens) }
func C12_Parts_Setup(j int) { setup(lists[0]) }

// anyCase is s with each letter in either case.
func anyCase(s string) string {
	b := []byte(s)
	for i, c := range b {
		if 'a' <= c && c <= 'z' {
			b[i] = sym.IteByte(sym.Bool(), c, c-'a'+'A')
		}
	}
	return string(b)
}

// Built-in URLs are checked in groups.
const urlGroup = 4

var builtinURLs []license

// C12_Builtin: every built-in URL, each letter in either case, with and without https, /legalcode
// and a trailing slash, is recognised.
func C12_Builtin(j int) {
	u := builtinURLs[sym.Conc(sym.Choice(len(builtinURLs)))]
	s := "see " + anyCase([]string{"http://", "https://"}[sym.Conc(sym.Choice(2))]+u.URL+[]string{"", "/", "/legalcode", "/us/"}[sym.Conc(sym.Choice(4))])
	text := s + " z"
	c := scan([]byte(text))
	observe(text, c)
	sym.Assert(len(c.Match) == 1, "a built-in URL is not recognised")
	m := c.Match[0]
	sym.Assert(m.Start == 4 && m.End == len(s) && m.IsURL, "the extent of a URL")
	sym.Assert(m.ID == u.ID && m.Type == u.Type, "the license of a URL")
	sym.Cover("URL")
}

var urlSuffixes = []string{
	"/us/deed", "/a/b/", "$", "/$", "/us$deed", "/legalcode/us/x", "/legalcode/legalcode", "/legalcode/x/legalcode", "#a/b", "?a=b$c", ".$",
}

var urlPrefixes = []string{"", "www.", "a.", "x.org/", "x.org/http://"}

// marks are the places where a URL of quick runs is changed or cut off: thorough runs take all.
func marks(s string) []int {
	var is []int
	for i := 7; i < len(s); i++ {
		if i == 7 || i == len(s)-1 || s[i] == '/' || s[i] == '.' || sym.Thorough() {
			is = append(is, i)
		}
	}
	return is
}

// C12_Not: what comes near the built-in URLs is recognised when it should be, and only then.
func C12_Not(j int) {
	u := builtinURLs[sym.Conc(sym.Choice(len(builtinURLs)))]
	kind := sym.Conc(sym.Choice(3))
	pre := ""
	if kind == 2 || sym.Thorough() {
		pre = urlPrefixes[sym.Conc(sym.Choice(len(urlPrefixes)))]
	}
	s := "http://" + pre + u.URL
	is := marks(s)
	switch kind {
	case 0:
		// One of its bytes is another.
		i := is[sym.Conc(sym.Choice(len(is)))]
		s = s[:i] + fill("$") + s[i+1:]
	case 1:
		// It is cut off.
		s = s[:is[sym.Conc(sym.Choice(len(is)))]]
	case 2:
		k := 0
		if pre == "" || sym.Thorough() {
			k = sym.Conc(sym.Choice(len(urlSuffixes)))
		}
		s += fill(urlSuffixes[k])
	}
	s += " z"
	c := scan([]byte(s))
	observe(s, c)
	urls(s, c)
}

func C12_Not_N() int { return C12_Builtin_N() }
func C12_Not_Setup(j int) {
	C12_Builtin_Setup(j)
	list = licensecheck.BuiltinLicenses()
	if !sym.Thorough() {
		builtinURLs = builtinURLs[:1]
	}
}

func C12_Builtin_N() int { return (150 + urlGroup - 1) / urlGroup }

func C12_Builtin_Setup(j int) {
	var all []license
	for _, l := range licensecheck.BuiltinLicenses() {
		if l.URL != "" {
			all = append(all, l)
		}
	}
	// Every URL is in one of the jobs.
	builtinURLs = nil
	for i := j; i < len(all); i += C12_Builtin_N() {
		builtinURLs = append(builtinURLs, all[i])
	}
	if len(builtinURLs) == 0 {
		builtinURLs = all[:1]
	}
	scan = licensecheck.Scan
	scan(nil)
}
