import os, runpy
globals().update(runpy.run_path(os.path.join(os.path.dirname(__file__), "common.py")))
SEEDS = [
dict(id="C01-url-into-match", prop="C01",
 edits=[(S, "int(w.Lo)+u[1] <= int(words[m.Start].Lo)", "int(w.Lo)+u[1] <= int(words[m.Start].Hi)")],
 demo=HEAD+'''func main() {
	s := scanner(lc.License{ID: "A", LRE: "a b"}, lc.License{ID: "U", URL: "x.org/l"})
	c := s.Scan([]byte("http://x.org/l/a b"))
	prev := 0
	for _, m := range c.Match {
		must(prev <= m.Start && m.Start < m.End, fmt.Sprint("matches overlap: ", c.Match))
		prev = m.End
	}
}
''', needs="a known URL whose last path element is at the same time the first word of a license match", breaks="the reported sections of the URL and the license share bytes"),
dict(id="C01-copyright-limit", prop="C01",
 edits=[(S, "if limit < lastEnd {", "if limit < lastEnd-1 {")],
 demo=HEAD+'''func main() {
	s := scanner(lc.License{ID: "A", LRE: "a b copyright"}, lc.License{ID: "B", LRE: "d e"})
	for n := 0; n < 60; n++ {
		text := "a b copyright\\n"
		for i := 0; i < n; i++ {
			text += "z "
		}
		c := s.Scan([]byte(text + "d e"))
		prev := 0
		for _, m := range c.Match {
			must(prev <= m.Start && m.Start < m.End, fmt.Sprint(n, ": matches overlap: ", c.Match))
			prev = m.End
		}
		must(c.Percent <= 100, "percent")
	}
}
''', needs="a license match ending in the word copyright, followed after exactly 49 other words by another match", breaks="the second match reaches back over the end of the first"),
dict(id="C02-straddling-word", prop="C02",
 edits=[(S, "int(words[i].Hi) <= u1", "int(words[i].Lo) < u1")],
 demo=HEAD+'''func main() {
	s := scanner(lc.License{ID: "A", LRE: "a b"}, lc.License{ID: "U", URL: "x.org/l"})
	c := s.Scan([]byte("see http://x.org/l\u00e9 z"))
	// words: see http x org lé z; the URL ends inside the fifth
	if len(c.Match) == 1 {
		must(c.Percent > 49.9 && c.Percent < 50.1, fmt.Sprint("percent ", c.Percent))
	}
}
''', needs="a URL that ends inside a word (before a letter that is not ASCII)", breaks="a word that is only partly inside the reported section is counted"),
dict(id="C03-entity-at-end", prop="C03",
 edits=[(D, "if i > 3 && i < len(t) && t[i] == ';' {", "if i > 3 && t[i] == ';' {")],
 demo=HEAD+'''func main() {
	s := scanner(lc.License{ID: "A", LRE: "a b"})
	c := s.Scan([]byte("a b &#x1f"))
	must(len(c.Match) == 1, "no match")
}
''', needs="a text that ends inside a hexadecimal HTML entity", breaks="Scan panics"),
dict(id="C05-adjacent", prop="C05",
 edits=[(R, "				i = end - 1 // loop will i++", "				i = end // loop will i++")],
 demo=MHEAD+'''func main() {
	m := multi("a b d", "e f").Match("a b d e f")
	must(len(m.List) == 2, fmt.Sprint("matches: ", m.List))
}
''', needs="two matches with no word between them", breaks="the second of two adjacent matches is missed"),
dict(id="C06-paren-c-at-end", prop="C06",
 edits=[(D, "int(hi) < len(text) && text[hi] == ')'", "int(hi)+1 < len(text) && text[hi] == ')'")],
 demo=MHEAD+'''func main() {
	d := new(match.Dict)
	id := d.Insert("copyright")
	w := d.Split("see (c)")
	must(len(w) == 2 && w[1].ID == id, fmt.Sprint("words: ", w))
}
''', needs="(c) as the very last bytes of a text", breaks="(c) at the end of a text is not read as copyright"),
dict(id="C06-plural-at-end", prop="C06",
 edits=[(D, 'if size+3 <= len(t) && t[size:size+3] == "(s)" {', 'if size+3 < len(t) && t[size:size+3] == "(s)" {')],
 demo=MHEAD+'''func main() {
	d := new(match.Dict)
	id := d.Insert("notices")
	w := d.Split("the notice(s)")
	must(len(w) == 2 && w[1].ID == id, fmt.Sprint("words: ", w))
}
''', needs="word(s) as the very last bytes of a text", breaks="word(s) at the end of a text is two words"),
dict(id="C07-accent", prop="C07",
 edits=[(D, "case 'Ú', 'Ù':", "case 'Ú':")],
 demo=MHEAD+'''func main() {
	d := new(match.Dict)
	id := d.Insert("ou")
	for _, s := range []string{"o\u00f9", "O\u00d9"} {
		w := d.Split(s)
		must(len(w) == 1 && w[0].ID == id, s)
	}
}
''', needs="the letter ù", breaks="the grave accent on u is not ignored"),
dict(id="C08-tag-lines", prop="C08",
 edits=[(D, "if nl++; nl > 2 {", "if nl++; nl > 3 {")],
 demo=MHEAD+'''func main() {
	d := new(match.Dict)
	id := d.Insert("p")
	w := d.Split("<p\\n\\n\\n>")
	must(len(w) == 1 && w[0].ID == id, "a tag over four lines is skipped")
}
''', needs="an HTML tag spanning four lines", breaks="what is no tag is ignored"),
dict(id="C08-empty-hex", prop="C08",
 edits=[(D, "if i > 3 && i < len(t) && t[i] == ';' {", "if i >= 3 && i < len(t) && t[i] == ';' {")],
 demo=MHEAD+'''func main() {
	d := new(match.Dict)
	w := d.Split("a &#x; b")
	must(len(w) == 3, "an entity without digits is skipped")
}
''', needs="&#x; without digits", breaks="what is no entity is ignored"),
dict(id="C09-tab-indent", prop="C09",
 edits=[(X, "for i > 0 && (s[i-1] == ' ' || s[i-1] == '\\t') {", "for i > 0 && s[i-1] == ' ' {")],
 demo=HEAD+'''func main() {
	scanner(lc.License{ID: "A", LRE: "a b\\n\\t((d))??\\n"})
}
''', needs="a group indented with a tab", breaks="a valid pattern is refused"),
dict(id="C10-optional-cut", prop="C10",
 edits=[(M, "c.cut = c.mergeCut(cut, c.cut)", "_ = cut")],
 demo=MHEAD+'''func main() {
	m := multi("a b __6__ d\\n((e f))??\\ng h").Match("a b z d g d g h")
	must(len(m.List) == 1 && m.List[0].End == 8, fmt.Sprint("matches: ", m.List))
}
''', needs="a wildcard followed, one word later, by an optional part the text leaves out, and the words after it repeated in the text", breaks="the wildcard is cut off after fewer than three words"),
dict(id="C10-merge-trigger", prop="C10",
 edits=[(M, "return list[i].trigger > list[j].trigger", "return list[i].trigger < list[j].trigger")],
 demo=MHEAD+'''func main() {
	m := multi("a b __6__ d\\n((e || f g))\\nh i").Match("a b z d e h d e h i")
	must(len(m.List) == 1 && m.List[0].End == 10, fmt.Sprint("matches: ", m.List))
}
''', needs="a wildcard followed by alternatives of different lengths and the words after it repeated in the text", breaks="the wildcard is cut off after fewer than three words"),
dict(id="C11-two-edits", prop="C11",
 edits=[(M, "if i+j >= len(want)-1 && i+j >= len(have)-1 {", "if i+j >= len(want)-1 {")],
 demo=MHEAD+'''func main() {
	m := multi("a b license d").Match("a b licxxnse d")
	must(len(m.List) == 0, fmt.Sprint("matches: ", m.List))
}
''', needs="a word that is one byte longer than the expected one and differs in another byte too", breaks="words two edits apart are accepted"),
dict(id="C11-short", prop="C11",
 edits=[(M, "(len(have) >= 4 || len(want) >= 4)", "(len(have) >= 4 && len(want) >= 4)")],
 demo=MHEAD+'''func main() {
	m := multi("a b use d").Match("a b uses d")
	must(len(m.List) == 1, fmt.Sprint("matches: ", m.List))
}
''', needs="a four-byte word for an expected three-byte one", breaks="the documented near-miss is refused"),
dict(id="C12-legalcode-slash", prop="C12",
 edits=[(S, '''	url = strings.TrimSuffix(url, "/")
	url = strings.TrimSuffix(url, "/legalcode") // Common for CC licenses.
''', '''	url = strings.TrimSuffix(url, "/legalcode") // Common for CC licenses.
	url = strings.TrimSuffix(url, "/")
''')],
 demo=HEAD+'''func main() {
	s := scanner(lc.License{ID: "A", LRE: "a b"}, lc.License{ID: "U", URL: "x.org/l/m"}, lc.License{ID: "V", URL: "x.org/l"})
	c := s.Scan([]byte("http://x.org/l/legalcode/m/legalcode/"))
	must(len(c.Match) == 0, "unknown URL")
	c = s.Scan([]byte("http://x.org/l/m/legalcode/"))
	must(len(c.Match) == 1 && c.Match[0].ID == "U", "not recognised")
	c = s.Scan([]byte("http://x.org/l/m/us/legalcode/"))
	must(len(c.Match) == 1 && c.Match[0].ID == "U", "not recognised")
}
''', needs="a URL with one more path element that ends in /legalcode/", breaks="a known URL is not recognised"),
dict(id="C12-table", prop="C12",
 edits=[("urls.go", '"opensource.org/licenses/mit"', '"opensource.org/licenses/MIT"')],
 demo=HEAD+'''func main() {
	c := lc.Scan([]byte("see https://opensource.org/licenses/MIT"))
	must(len(c.Match) == 1 && c.Match[0].ID == "MIT", "not recognised")
}
''', needs="one certain URL of the built-in list", breaks="a built-in URL is never recognised"),
dict(id="C13-fifty", prop="C13",
 edits=[(S, "limit := m.Start - maxCopyrightWords", "limit := m.Start - maxCopyrightWords + 1")],
 demo=HEAD+'''func main() {
	s := scanner(lc.License{ID: "A", LRE: "a b"})
	text := "z z z copyright "
	for i := 0; i < 49; i++ {
		text += "y "
	}
	c := s.Scan([]byte(text + "a b"))
	must(len(c.Match) == 1 && c.Match[0].Start == 6, fmt.Sprint(c.Match))
}
''', needs="the copyright word exactly 50 words before the match", breaks="the match is not extended"),
dict(id="C13-first-newline", prop="C13",
 edits=[(S, "if i := bytes.LastIndexByte(text[prev:start], '\\n'); i >= 0 {", "if i := bytes.IndexByte(text[prev:start], '\\n'); i >= 0 {")],
 demo=HEAD+'''func main() {
	s := scanner(lc.License{ID: "A", LRE: "a b"})
	c := s.Scan([]byte("z\\n\\n  a b"))
	must(len(c.Match) == 1 && c.Match[0].Start == 3, fmt.Sprint(c.Match))
}
''', needs="two line ends before the first word of a match", breaks="the match begins before its line"),
dict(id="C14-url-memo", prop="C14",
 edits=[(S, '''		if l, ok = s.urls[url[:i]]; ok {
			return l, true''', '''		if l, ok = s.urls[url[:i]]; ok {
			s.urls[url] = l // remember the ported form
			return l, true''')],
 demo=HEAD+'''func main() {
	s := scanner(lc.License{ID: "A", LRE: "a b"}, lc.License{ID: "U", URL: "x.org/l"})
	text := []byte("http://x.org/l/m/n")
	c1 := s.Scan(text)
	s.Scan([]byte("http://x.org/l/m"))
	c2 := s.Scan(text)
	must(len(c1.Match) == len(c2.Match), "a scan depends on an earlier one")
}
''', needs="a scan of a URL with one more path element, then one of a URL with two more", breaks="a scan writes to the scanner, unsynchronised, and changes what later scans find"),
dict(id="C15-shared-list", prop="C15",
 edits=[(S, '''	list := append([]License{}, builtinLREs...)
''', '''	if allBuiltin != nil {
		return allBuiltin
	}
	list := append([]License{}, builtinLREs...)
'''), (S, '''		list = append(list, l)
	}
	return list
}
''', '''		list = append(list, l)
	}
	allBuiltin = list
	return list
}

var allBuiltin []License
''')],
 demo=HEAD+'''func main() {
	l := lc.BuiltinLicenses()
	l[0].ID = "x"
	must(lc.BuiltinLicenses()[0].ID != "x", "a change of the list is seen by the next caller")
}
''', needs="a change of an entry of the list returned by an earlier call", breaks="the list is shared"),
dict(id="C16-empty-alternative", prop="C16",
 edits=[(X, '''				if !have[p] {
					have[p] = true
					list = append(list, p)''', '''				if !have[p] && (p[0] != BadWord || len(list) == 0) {
					have[p] = true
					list = append(list, p)''')],
 demo=HEAD+'''func main() {
	_, err := lc.NewScanner([]lc.License{{ID: "A", LRE: "((a b || ))\\n"}})
	must(err != nil, "accepted")
}
''', needs="a pattern that is one group with an empty alternative that is not the first", breaks="a pattern that matches the empty text is accepted"),
dict(id="C17-wide", prop="C17",
 edits=[("license.go", 'fmt.Sprintf("|Type(%#x)", uint(t))', 'fmt.Sprintf("|Type(%#x)", uint32(t))')],
 demo=HEAD+'''func main() {
	t := lc.Type(1)<<40 | lc.Notice | 1
	u, err := lc.ParseType(t.String())
	must(err == nil && u == t, t.String())
}
''', needs="a type with a bit above 31", breaks="the text of a type loses bits"),
dict(id="C18-unrestricted", prop="C18",
 edits=[("license.go", "if m&Unrestricted != 0 && m&NonCommercial != 0 {", "if m&Unrestricted != 0 && u&NonCommercial != 0 {")],
 demo=HEAD+'''func main() {
	a, b := lc.Unrestricted, lc.Unrestricted|lc.NonCommercial
	must(a.Merge(b) == b.Merge(a), "order")
}
''', needs="NonCommercial only in the first of two types and Unrestricted in the result", breaks="Unrestricted is kept, and the order of the two matters"),
dict(id="C19-first-word", prop="C19",
 edits=[(D, '''	id, ok := d.dict[w]
	if ok {
		return id
	}
	if d.dict == nil {''', '''	id := d.dict[w]
	if id > 0 || len(d.list) == 1 && d.list[0] == w {
		return id
	}
	if d.dict == nil {''')],
 demo=MHEAD+'''func main() {
	d := new(match.Dict)
	a := d.Insert("x")
	d.Insert("y")
	must(d.Insert("x") == a && len(d.Words()) == 2, "the first word has two indexes")
}
''', needs="inserting the very first word again after another one", breaks="a word gets a second index"),
dict(id="C20-license-index", prop="C20",
 edits=[(S, '''		if l.URL != "" {
			s.urls[l.URL] = l
		}
		if l.LRE != "" {
			s.licenses = append(s.licenses, l)
''', '''		s.licenses = append(s.licenses, l)
		if l.URL != "" {
			s.urls[l.URL] = l
		}
		if l.LRE != "" {
''')],
 demo=HEAD+'''func main() {
	s := scanner(lc.License{ID: "U", URL: "x.org/l"}, lc.License{ID: "A", LRE: "a b"})
	c := s.Scan([]byte("a b"))
	must(len(c.Match) == 1 && c.Match[0].ID == "A", fmt.Sprint(c.Match))
}
''', needs="a URL-only license listed before one with a pattern", breaks="the wrong license is reported"),
dict(id="C21-threshold", prop="C21",
 edits=[("old/license.go", "if matches[i].Percent < threshold {", "if int(matches[i].Percent+0.5) < int(threshold) {")],
 demo=OHEAD+'''func main() {
	c := old.New([]old.License{{Name: "A", Text: "aa bb cc dd ee ff"}})
	cov, _ := c.Cover([]byte("aa bb cc dd"), old.Options{MinLength: 2, Threshold: 67})
	for _, m := range cov.Match {
		must(m.Percent >= 67, fmt.Sprint(m))
	}
}
''', needs="a match less than half a percent below the threshold", breaks="a match below the threshold is reported"),
dict(id="C21-unsorted", prop="C21",
 edits=[("old/license.go", '''		matches = append(matches, urls...)
		doc.sort(matches)
''', '''		matches = append(matches, urls...)
''')],
 demo=OHEAD+'''func main() {
	c := old.New([]old.License{{Name: "A", Text: "aa bb cc dd ee ff"}, {Name: "U", URL: "x.org/l"}})
	cov, _ := c.Cover([]byte("http://x.org/l z aa bb cc dd ee ff"), old.Options{MinLength: 2})
	prev := 0
	for _, m := range cov.Match {
		must(m.Start >= prev, fmt.Sprint(cov.Match))
		prev = m.End
	}
}
''', needs="a URL before a match of a text", breaks="matches out of order"),
dict(id="C22-shrink", prop="C22",
 edits=[("old/normalize.go", "if utf8.RuneLen(l) != wid {", "if utf8.RuneLen(l) > wid {")],
 demo=OHEAD+'''func main() {
	c := old.New([]old.License{{Name: "A", Text: "aa bb cc"}})
	text := "z \u212a\u212b aa bb cc z"
	cov, _ := c.Cover([]byte(text), old.Options{MinLength: 2})
	must(len(cov.Match) == 1 && text[cov.Match[0].Start:cov.Match[0].End] == "aa bb cc", fmt.Sprint(cov.Match))
}
''', needs="a letter whose lower case is shorter (the Kelvin sign)", breaks="offsets are those of another text"),
]
