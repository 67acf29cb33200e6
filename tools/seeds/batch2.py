import os, runpy
globals().update(runpy.run_path(os.path.join(os.path.dirname(__file__), "common.py")))
S, D, X, Y, R, L = "scan.go", "internal/match/dict.go", "internal/match/rematch.go", "internal/match/resyntax.go", "internal/match/regexp.go", "license.go"
OL, ON = "old/license.go", "old/normalize.go"
def find(text, *pats):
    return 'm := multi(%s).Match("%s")\n' % (", ".join('"%s"' % p for p in pats), text)
SEEDS = [
dict(id="C04-split-prefix", prop="C04",
 edits=[(X, 'dw2 == AnyWord || dictWords[dw2] == rest {', 'dw2 == AnyWord || strings.HasPrefix(dictWords[dw2], rest) {')],
 demo=MHEAD+'''func main() {
	'''+find("x y andin z", "x y and independent z")+'''
	must(len(m.List) == 0, "matched")
}
''', needs="a word that is an expected word with the beginning of the next expected word run onto it", breaks="the pattern is reported where its second word is cut off"),
dict(id="C11-split-misspelled", prop="C11",
 edits=[(X, 'dw2 == AnyWord || dictWords[dw2] == rest {', 'dw2 == AnyWord || dictWords[dw2] == rest || canMisspell(dictWords[dw2], rest) {')],
 demo=MHEAD+'''func main() {
	'''+find("x y andwork z", "x y and word z")+'''
	must(len(m.List) == 0, "matched")
}
''', needs="two expected words run together, of which the second is misspelled too", breaks="two corrections are applied to one word"),
dict(id="C11-join-unknown", prop="C11",
 edits=[(X, 'if canMisspellJoin(want, have, have2) {', 'if w == BadWord && canMisspellJoin(want, have, have2) {')],
 demo=MHEAD+'''func main() {
	'''+find("x y sub license z", "x y sublicense z", "q sub q")+'''
	must(len(m.List) == 1, "not matched")
}
''', needs="a word broken in two whose first half is itself a word of some pattern", breaks="the two halves are no longer accepted for the word"),
dict(id="C11-entity-c", prop="C11",
 edits=[(X, ' || have == "©" || have == "&copy;")', ' || have == "©")')],
 demo=MHEAD+'''func main() {
	'''+find("x y &copy; z", "x y c z")+'''
	must(len(m.List) == 1, "not matched")
}
''', needs="a pattern with a plain c, and the HTML entity for the copyright sign in its place", breaks="the entity is no longer accepted for c"),
dict(id="C10-two-cuts", prop="C10",
 edits=[(X, 'for len(cuts) > 0 && pc > cuts[0]+1+prog[cuts[0]].arg {', 'if len(cuts) > 0 && pc > cuts[0]+1+prog[cuts[0]].arg {')],
 demo=MHEAD+'''func main() {
	// After "a b d e f" two wildcards are done with, and the third is cut off at the third word.
	p := []string{"a b __4__ d e f g", "a b __5__ d e f h", "a b __6__ d e f i j k"}
	m := multi(p...).Match("a b d e f z d e f i j k")
	must(len(m.List) == 0, "matched past the cut")
}
''', needs="three patterns with wildcards that are cut off by the same word", breaks="a wildcard that was finished early goes on"),
dict(id="C10-shared-cuts", prop="C10",
 edits=[(X, "	var next []reCut\n	for _, cut := range c.cut {\n		if cut.trigger--", "	next := c.cut[:0]\n	for _, cut := range c.cut {\n		if cut.trigger--")],
 demo=MHEAD+'''func main() {
	m := multi("a b __4__\\n((c d || e f g))\\nh i j").Match("a b z e f z e f g h i j")
	must(len(m.List) == 1, "not matched")
	m = multi("a b __4__\\n((c d || e f || g k))\\nh i j").Match("a b z g k z g k h i j")
	must(len(m.List) == 1, "not matched")
}
''', needs="a wildcard followed by alternatives, the first of two words, and a text that begins a later alternative twice", breaks="the wildcard is finished before three words have followed it"),
dict(id="C10-alt-jump", prop="C10",
 edits=[(X, "end := len(c.prog) + int(re.n)*2\n", "end := len(c.prog) + int(re.n%512)*2\n")],
 demo=MHEAD+'''func main() {
	t := "a b "
	for i := 0; i < 3; i++ {
		t += "z "
	}
	m := multi("a b __600__ d e").Match(t + "d e")
	must(len(m.List) == 1, "not matched")
}
''', needs="a wildcard of more than 511 words", breaks="the wildcard can stand for fewer words no more"),
dict(id="C05-late-pattern", prop="C05",
 edits=[(X, "if match == -1 || match > inst.arg {", "if match == -1 || match < inst.arg {")],
 demo=MHEAD+'''func main() {
	'''+find("a b", "a b", "a b\\n((d))??")+'''
	must(len(m.List) == 1 && m.List[0].ID == 0, "not the first")
}
''', needs="two patterns that match the same words", breaks="the later pattern is reported"),
dict(id="C05-shortest-tail", prop="C05",
 edits=[(X, "	if m, _ := dfa.stateAt(off); m >= 0 {\n		match = m", "	if m, _ := dfa.stateAt(off); m >= 0 && (match < 0 || m <= match) {\n		match = m")],
 demo=MHEAD+'''func main() {
	m := multi("a b", "a b d").Match("a b d")
	must(len(m.List) == 1 && m.List[0].ID == 1 && m.List[0].End == 3, "not the longest")
	m = multi("a b", "a b d").Match("a b d z")
	must(len(m.List) == 1 && m.List[0].ID == 1 && m.List[0].End == 3, "not the longest")
}
''', needs="a match that ends at the end of the text, and a shorter one of an earlier pattern", breaks="the shorter match is reported"),
dict(id="C05-restart", prop="C05",
 edits=[(R, "			if match >= 0 && end > 0 {", "			if match < 0 {\n				// Neither of these words begins a match.\n				p[1] = BadWord\n			}\n			if match >= 0 && end > 0 {")],
 demo=MHEAD+'''func main() {
	'''+find("a a b d", "a a c", "a b d")+'''
	must(len(m.List) == 1 && m.List[0].Start == 1, "not found")
}
''', needs="a beginning of one pattern that fails, whose second word begins another that is there", breaks="the second pattern is not found"),
dict(id="C06-marks", prop="C06",
 edits=[(D, "unicode.IsLetter(r) || unicode.IsDigit(r) || unicode.Is(unicode.Mn, r)", "unicode.IsLetter(r) || unicode.IsDigit(r) || '\\u0300' <= r && r <= '\\u036f'")],
 demo=MHEAD+'''func main() {
	d := new(match.Dict)
	w := d.InsertSplit("a\\u1dc4b")
	must(len(w) == 1, "the word is broken")
}
''', needs="a combining mark outside the first block, within a word", breaks="the word is broken at the mark"),
dict(id="C06-digits", prop="C06",
 edits=[(D, "return unicode.IsLetter(r) || unicode.IsDigit(r) || r == '©'", "return unicode.IsLetter(r) || '0' <= r && r <= '9' || r == '©'")],
 demo=MHEAD+'''func main() {
	d := new(match.Dict)
	must(len(d.InsertSplit("\\u0664")) == 1, "no word")
}
''', needs="a number in other than ASCII digits", breaks="the number is ignored"),
dict(id="C06-copyright-apart", prop="C06",
 edits=[(D, '''if len(words) > 0 && words[len(words)-1].ID == id && string(w) == "copyright" {''', '''if len(words) > 0 && words[len(words)-1].ID == id && string(w) == "copyright" && lo-words[len(words)-1].Hi < 16 {''')],
 demo=MHEAD+'''func main() {
	d := new(match.Dict)
	d.Insert("copyright")
	must(len(d.Split("copyright                              (c)")) == 1, "two words")
}
''', needs="two copyright words sixteen or more ignored characters apart", breaks="they count twice"),
dict(id="C07-orbit", prop="C07",
 edits=[(D, "	for r1 := unicode.SimpleFold(r); r1 != r; r1 = unicode.SimpleFold(r1) {\n		if min > r1 {\n			min = r1\n		}\n	}", "	if r1 := unicode.SimpleFold(r); min > r1 {\n		min = r1\n	}")],
 demo=MHEAD+'''func main() {
	d := new(match.Dict)
	a, b := d.InsertSplit("\\u03c3"), d.InsertSplit("\\u03c2")
	must(a[0].ID == b[0].ID, "sigmas differ")
}
''', needs="a letter with three or more forms", breaks="its forms are different letters"),
dict(id="C07-latin1", prop="C07",
 edits=[(D, "	if 'A' <= r && r <= 'Z' {\n		r += 'a' - 'A'\n	}", "	if 'A' <= r && r <= 'Z' {\n		r += 'a' - 'A'\n	} else if r == '\\u0130' || r == '\\u0131' {\n		r = 'i'\n	}")],
 demo=MHEAD+'''func main() {
	d := new(match.Dict)
	a, b := d.InsertSplit("\\u0131"), d.InsertSplit("i")
	must(a[0].ID != b[0].ID, "a dotless i is an i")
}
''', needs="a dotless or dotted i", breaks="a letter that is no variant of i is taken for one"),
dict(id="C08-decimal", prop="C08",
 edits=[(D, "for i < len(t) && '0' <= t[i] && t[i] <= '9' {", "for i < len(t) && i < 9 && '0' <= t[i] && t[i] <= '9' {")],
 demo=MHEAD+'''func main() {
	d := new(match.Dict)
	must(len(d.Split("a &#00000065; b")) == 2, "an entity is read as text")
}
''', needs="a decimal entity of eight or more digits", breaks="it is read as text"),
dict(id="C08-link-tab", prop="C08",
 edits=[(D, "if c == ' ' || c == '\\t' || c == '\\r' || c == '\\n' {", "if c == ' ' || c == '\\r' || c == '\\n' {")],
 demo=MHEAD+'''func main() {
	d := new(match.Dict)
	must(len(d.Split("](http://x\\ta b)")) == 4, "a tab is no end of a link")
}
''', needs="a link target with a tab in it", breaks="text is ignored as a link target"),
dict(id="C08-close-tag", prop="C08",
 edits=[(D, "		case '<':\n			return 0\n		case '>':", "		case '<':\n			return 0\n		case '\"':\n			// Skip a quoted attribute.\n			if j := strings.IndexByte(t[i+1:], '\"'); j >= 0 {\n				i += 1 + j\n			}\n		case '>':")],
 demo=MHEAD+'''func main() {
	d := new(match.Dict)
	must(len(d.Split("<a href=\\"x\\n\\n\\n\\n\\ny\\">b")) > 1, "a tag of six lines is ignored")
}
''', needs="a quoted attribute that spans lines, or holds a <", breaks="a tag of more than three lines is ignored"),
dict(id="C03-short-tag", prop="C03",
 edits=[(D, "	if len(t) < 3 || t[0] != '<' {\n		return 0\n	}\n	i := 1\n	if t[i] == '/' {", "	if len(t) < 2 || t[0] != '<' {\n		return 0\n	}\n	i := 1\n	if t[i] == '/' {")],
 demo=HEAD+'''func main() {
	lc.Scan([]byte("a </"))
}
''', needs="a text that ends in </", breaks="the scan panics"),
dict(id="C09-wrap", prop="C09",
 edits=[(Y, "n, err := strconv.ParseInt(s[i+2:j], 10, 32)", "n, err := strconv.ParseUint(s[i+2:j], 10, 64)")],
 demo=MHEAD+'''func main() {
	_, err := match.ParseLRE(new(match.Dict), "", "a b __4294967298__ c")
	must(err != nil, "accepted")
}
''', needs="a wildcard count of 2^32 or more", breaks="the count is taken modulo 2^32 instead of refused"),
dict(id="C09-comment-overlap", prop="C09",
 edits=[(Y, 'j := strings.Index(s[i+4:], "**//")', 'j := strings.Index(s[i+2:], "**//")'), (Y, "i += 4 + j + 4\n", "i += 2 + j + 4\n")],
 demo=MHEAD+'''func main() {
	_, err := match.ParseLRE(new(match.Dict), "", "a b //**// c")
	must(err != nil, "accepted")
}
''', needs="a comment that is opened and closed by the same two stars", breaks="it is accepted"),
dict(id="C09-tab-bol", prop="C09",
 edits=[(Y, "	for i > 0 && (s[i-1] == ' ' || s[i-1] == '\\t') {\n		i--\n	}\n	return i == 0", "	for i > 0 && (s[i-1] == ' ' || s[i-1] == '\\t' || s[i-1] == '(') {\n		i--\n	}\n	return i == 0")],
 demo=MHEAD+'''func main() {
	_, err := match.ParseLRE(new(match.Dict), "", "( ((a b\\nc))")
	must(err != nil, "accepted")
}
''', needs="a group after a single parenthesis", breaks="(( is accepted where it is not first on its line"),
dict(id="C12-strip-query", prop="C12",
 edits=[(S, "	url = strings.TrimPrefix(url, \"https://\")\n", "	url = strings.TrimPrefix(url, \"https://\")\n	if i := strings.Index(url, \"/?\"); i >= 0 {\n		url = url[:i]\n	}\n")],
 demo=HEAD+'''func main() {
	s := scanner(lc.License{ID: "A", LRE: "a b"}, lc.License{ID: "U", URL: "x.org/l"})
	must(len(s.Scan([]byte("http://x.org/l/?/r/s")).Match) == 0, "an unknown URL is reported")
}
''', needs="a URL whose third or later path element begins with a question mark", breaks="a URL that is none of the license's is reported"),
dict(id="C12-host-case", prop="C12",
 edits=[(S, "`^(?i)https?://[-a-z0-9_.]+\\.(org|com)(/[-a-z0-9_.#?=]+)+/?`", "`^(?i:https?://[-a-z0-9_.]+)\\.(org|com)(/[-A-Za-z0-9_.#?=]+)+/?`")],
 demo=HEAD+'''func main() {
	s := scanner(lc.License{ID: "A", LRE: "a b"}, lc.License{ID: "U", URL: "x.org/l"})
	must(len(s.Scan([]byte("http://x.ORG/l")).Match) == 1, "a URL is not reported")
}
''', needs="a URL with .ORG or .COM in capital letters", breaks="the URL is not recognised"),
dict(id="C13-after-url", prop="C13",
 edits=[(S, "	for _, m := range matches.List {\n		if m.Start < len(words) && lastEnd < m.Start", "	urlEnd := 0 // words up to here may be part of a URL\n	for _, m := range matches.List {\n		if urlEnd > 0 {\n			lastEnd = urlEnd\n			urlEnd = 0\n		}\n		if m.Start < len(words) && lastEnd < m.Start"), (S, "		lastEnd = m.End\n	}", "		lastEnd = m.End\n		for lastEnd < len(words) && int(words[lastEnd].Lo) < end {\n			lastEnd++\n		}\n		if lastEnd < len(words) && words[lastEnd].ID == copyright && words[lastEnd].Hi-words[lastEnd].Lo == 3 {\n			urlEnd = lastEnd + 1\n		}\n	}")],
 demo=HEAD+'''func main() {
	s := scanner(lc.License{ID: "A", LRE: "a b"})
	t := "a b (c) z a b z"
	c := s.Scan([]byte(t))
	must(len(c.Match) == 2 && c.Match[1].Start == 4, fmt.Sprint(c.Match))
}
''', needs="(c) right after a license match, and another match after it", breaks="the second match is not extended to its copyright line"),
dict(id="C14-scratch", prop="C14",
 edits=[(D, "func (d *Dict) split(text string, insert bool) []Word {\n	var wbuf []byte\n", "var scratch = make([]byte, 0, 256)\n\nfunc (d *Dict) split(text string, insert bool) []Word {\n	wbuf := scratch\n")],
 demo=HEAD+'''
func main() {
	s := scanner(lc.License{ID: "A", LRE: "aaaa bbbb"}, lc.License{ID: "B", LRE: "cccc dddd"})
	done := make(chan bool)
	for g := 0; g < 16; g++ {
		t := "aaaa bbbb x "
		id := "A"
		if g%2 == 1 {
			t, id = "cccc dddd y ", "B"
		}
		text := ""
		for i := 0; i < 200; i++ {
			text += t
		}
		go func() {
			ok := true
			for i := 0; i < 600 && ok; i++ {
				c := s.Scan([]byte(text))
				ok = len(c.Match) == 200
				for _, m := range c.Match {
					ok = ok && m.ID == id
				}
			}
			done <- ok
		}()
	}
	all := true
	for g := 0; g < 16; g++ {
		all = <-done && all
	}
	must(all, "concurrent scans disturb each other")
}
''', needs="two scans at the same time", breaks="the scans read each other's words"),
dict(id="C14-url-types", prop="C14",
 edits=[(S, "	for _, l := range builtinURLs {\n", "	for i := range builtinURLs {\n		l := &builtinURLs[i]\n"), (S, "		list = append(list, l)\n	}\n	return list", "		list = append(list, *l)\n	}\n	return list")],
 race=True, demo=HEAD+'''func main() {
	done := make(chan bool)
	for g := 0; g < 8; g++ {
		go func() {
			for i := 0; i < 100; i++ {
				_ = lc.BuiltinLicenses()
			}
			done <- true
		}()
	}
	for g := 0; g < 8; g++ {
		<-done
	}
}
''', needs="two calls of BuiltinLicenses at the same time, or one and a first Scan", breaks="both write the shared table of URLs: a data race"),
dict(id="C16-quest-second", prop="C16",
 edits=[(Y, "		for _, l := range list {\n			if l[0] == BadWord {\n				return list\n			}\n		}", "		for _, l := range list {\n			if l[1] == BadWord {\n				return list\n			}\n		}")],
 demo=MHEAD+'''func main() {
	d := new(match.Dict)
	re, err := match.ParseLRE(d, "", "a\\n((b))??\\n__3__ d e")
	must(err == nil, "does not parse")
	_, err = match.NewMultiLRE([]*match.LRE{re})
	must(err != nil, "accepted")
}
''', needs="an optional part of one word as the second word of a pattern, before a wildcard", breaks="a pattern whose second word can be a wildcard is accepted"),
dict(id="C17-hex", prop="C17",
 edits=[(L, 'strconv.ParseUint(f[5:len(f)-1], 0, 0)', 'strconv.ParseInt(f[5:len(f)-1], 0, 0)')],
 demo=HEAD+'''func main() {
	t := lc.Type(1 << 63)
	u, err := lc.ParseType(t.String())
	must(err == nil && u == t, "lost")
}
''', needs="a type with the highest bit", breaks="its text does not parse"),
dict(id="C18-discouraged", prop="C18",
 edits=[(L, "		if (t|u)&bit != 0 {\n			m |= bit\n			break\n		}", "		if (t|u)&bit != 0 {\n			m |= bit\n			if bit != Notice {\n				break\n			}\n		}"), (L, "	if m&Unrestricted != 0 && m&NonCommercial != 0 {", "	if m&Unrestricted != 0 && m&(NonCommercial|Notice) != 0 && m&Discouraged == 0 {")],
 demo=HEAD+'''func main() {
	m := (lc.Notice | lc.Discouraged).Merge(lc.Unrestricted)
	must(m == lc.Notice|lc.Discouraged, m.String())
	m = (lc.NonCommercial | lc.Discouraged).Merge(lc.Unrestricted)
	must(m == lc.NonCommercial|lc.Discouraged, m.String())
}
''', needs="a Notice or NonCommercial type merged with Unrestricted when one is Discouraged", breaks="the weaker level is kept too"),
dict(id="C19-lookup-case", prop="C19",
 edits=[(D, "func (d *Dict) Lookup(w string) WordID {\n", "func (d *Dict) Lookup(w string) WordID {\n	w = strings.ToLower(w)\n")],
 demo=MHEAD+'''func main() {
	d := new(match.Dict)
	d.Insert("a")
	must(d.Lookup("A") == match.BadWord, "A was never inserted")
	d.Insert("B")
	must(d.Lookup("B") == 1, "B was inserted")
}
''', needs="a lookup of, or an insertion of, a word in capital letters", breaks="a word that was never inserted is found, and one that was is not"),
dict(id="C20-known-word", prop="C20",
 edits=[(X, "			if canMisspell(want, have) {\n				off = dnext", "			if w == BadWord && canMisspell(want, have) {\n				off = dnext")],
 demo=MHEAD+'''func main() {
	m := multi("a b word d").Match("a b worde d")
	must(len(m.List) == 1, "not found alone")
	m = multi("a b word d", "q r worde t").Match("a b worde d")
	must(len(m.List) == 1, "not found with an unrelated pattern")
}
''', needs="a misspelling that is itself a word of another pattern", breaks="a pattern that matches nowhere hides a match"),
]
