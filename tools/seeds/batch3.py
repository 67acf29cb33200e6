import os, runpy
globals().update(runpy.run_path(os.path.join(os.path.dirname(__file__), "common.py")))
S, D, X, Y, R, L, U = "scan.go", "internal/match/dict.go", "internal/match/rematch.go", "internal/match/resyntax.go", "internal/match/regexp.go", "license.go", "urls.go"
OL, ON = "old/license.go", "old/normalize.go"
def find(text, *pats):
    return 'm := multi(%s).Match("%s")\n' % (", ".join('"%s"' % p for p in pats), text)
SEEDS = [
dict(id="C05-binary-search", prop="C05",
 edits=[(X, '''		for j := 0; j < len(delta); j += 2 {
			if WordID(delta[j]) == w {
				off = delta[j+1]
				continue Words
			}
		}

		// No exact''', '''		// The list is sorted: search it by halving.
		lo, hi := 0, len(delta)/2
		for lo < hi {
			h := (lo + hi) / 2
			if WordID(delta[2*h]) == w {
				off = delta[2*h+1]
				continue Words
			}
			if WordID(delta[2*h]) < w {
				lo = h + 1
			} else {
				hi = h - 1
			}
		}

		// No exact''')],
 demo=MHEAD+'''func main() {
	pats := []string{"a b k", "c d k", "e f k", "g h k", "i j k"}
	m := multi(pats...)
	for i, t := range pats {
		r := m.Match(t)
		must(len(r.List) == 1 && r.List[0].ID == i, "not found: "+t)
	}
}
''', needs="a state with two or more words to go on with", breaks="a word that is expected is not found among them"),
dict(id="C05-min-length", prop="C05",
 edits=[(R, "		if _, ok := re.start[p]; ok {", "		if _, ok := re.start[p]; ok && len(m.Words)-i >= re.min {"),
   (R, "	start map[phrase]struct{}\n}", "	start map[phrase]struct{}\n\n	min int // no match has fewer words after the first\n}"),
   (R, "	return &MultiLRE{dict, dfa, start}, nil", '''	min := 0
	for i, prog := range progs {
		n := -1
		for _, inst := range prog {
			if inst.op == instWord {
				n++
			}
		}
		if i == 0 || n < min {
			min = n
		}
	}
	return &MultiLRE{dict, dfa, start, min}, nil''')],
 demo=MHEAD+'''func main() {
	'''+find("a b e", "a b\\n((c d))??\\ne")+'''
	must(len(m.List) == 1, "not found")
}
''', needs="only patterns with optional or alternative parts, and a match close to the end of the text", breaks="the match is not looked for"),
dict(id="C10-end-alternate", prop="C10",
 edits=[(X, "			if canMatchEmpty(sub) {\n				return true\n			}\n		}\n		return false", "			if canMatchEmpty(sub) {\n				return true\n			}\n			break\n		}\n		return false")],
 demo=MHEAD+'''func main() {
	m := multi("a b __5__ c\\n((d || ))").Match("a b z c z z")
	must(len(m.List) == 1 && m.List[0].End == 4, "the end")
	m = multi("a b __5__ c\\n((d || ))").Match("a b z c z c")
	must(len(m.List) == 1, "found")
	must(m.List[0].End == 4, "the wildcard went on after the end of the pattern")
}
''', needs="a wildcard near the end of a pattern that ends in alternatives of which a later one is empty", breaks="the wildcard goes on after the pattern has matched"),
dict(id="C11-runes", prop="C11",
 edits=[(X, "(len(have) >= 4 || len(want) >= 4)", "(utf8.RuneCountInString(have) >= 4 || utf8.RuneCountInString(want) >= 4)"),
   (X, '	"sort"\n	"strings"\n)', '	"sort"\n	"strings"\n	"unicode/utf8"\n)')],
 demo=MHEAD+'''func main() {
	'''+find("x y \\u00df\\u00dfb z", "x y \\u00df\\u00dfa z")+'''
	must(len(m.List) == 1, "not found")
}
''', needs="words of four or more bytes but fewer than four letters", breaks="a near-miss is no longer accepted"),
dict(id="C11-split-one", prop="C11",
 edits=[(X, "if len(have) > len(want) && have[:len(want)] == want {", "if len(have) > len(want)+1 && have[:len(want)] == want {")],
 demo=MHEAD+'''func main() {
	'''+find("x y of c", "x y o f c")+'''
	must(len(m.List) == 1, "not found")
}
''', needs="two expected words run together, the second of one letter", breaks="they are no longer accepted"),
dict(id="C11-any-misspelled", prop="C11",
 edits=[(X, "		for j := 0; j < len(delta); j += 2 {\n			dw, dnext := WordID(delta[j]), delta[j+1]\n			want := dictWords[dw]\n", "		for j := 0; j < len(delta); j += 2 {\n			dw, dnext := WordID(delta[j]), delta[j+1]\n			want := dictWords[dw]\n			if nextAny >= 0 && len(want) != len(have) {\n				continue // more likely a word for the wildcard\n			}\n")],
 demo=MHEAD+'''func main() {
	'''+find("x y q words z", "x y __1__ word z")+'''
	must(len(m.List) == 1, "not found")
}
''', needs="a misspelled word that may follow a wildcard that is not used up", breaks="the near-miss is not accepted there"),
dict(id="C12-cc-two", prop="C12",
 edits=[(S, '''		if l, ok = s.urls[url[:i]]; ok {
			return l, true
		}
''', '''		if l, ok = s.urls[url[:i]]; ok {
			return l, true
		}
		// Translations: https://creativecommons.org/licenses/by/3.0/us/deed.de
		if j := strings.LastIndex(url[:i], "/"); j >= 0 && strings.HasPrefix(url, "creativecommons.org/") {
			if l, ok = s.urls[url[:j]]; ok {
				return l, true
			}
		}
''')],
 demo=HEAD+'''func main() {
	c := lc.Scan([]byte("http://creativecommons.org/licenses/by/3.0/us/deed.de"))
	must(len(c.Match) == 0, "reported")
}
''', needs="a creativecommons URL with two path elements too many", breaks="a URL that is no license URL is reported"),
dict(id="C12-table-case", prop="C12",
 edits=[(U, '"www.apache.org/licenses/license-2.0"', '"www.apache.org/licenses/LICENSE-2.0"')],
 demo=HEAD+'''func main() {
	c := lc.Scan([]byte("http://www.apache.org/licenses/LICENSE-2.0"))
	must(len(c.Match) == 1, "not reported")
}
''', needs="the URL of Apache-2.0 with www", breaks="a built-in license URL is not recognised"),
dict(id="C12-at-match", prop="C12",
 edits=[(S, "int(w.Lo)+u[1] <= int(words[m.Start].Lo)) {", "int(w.Lo)+u[1] < int(words[m.Start].Lo)) {")],
 demo=HEAD+'''func main() {
	s := scanner(lc.License{ID: "A", LRE: "a b"}, lc.License{ID: "U", URL: "x.org/l"})
	c := s.Scan([]byte("http://x.org/l/a b"))
	_ = c
	c = s.Scan([]byte("http://x.org/l/(c) a b"))
	must(len(c.Match) == 2 && c.Match[0].IsURL, fmt.Sprint(c.Match))
}
''', needs="a URL that ends right where a license match begins", breaks="the URL is not reported"),
dict(id="C02-round", prop="C02",
 edits=[(S, "		c.Percent = 100.0 * float64(total) / float64(len(words))", "		c.Percent = float64(10000*total/len(words)) / 100")],
 demo=HEAD+'''func main() {
	s := scanner(lc.License{ID: "A", LRE: "a b"})
	c := s.Scan([]byte("a b z"))
	must(c.Percent > 66.6666, fmt.Sprint(c.Percent))
}
''', needs="a text of which no whole number of hundredths of a percent is matched", breaks="the percentage is cut off"),
dict(id="C14-lazy", prop="C14",
 edits=[(S, '''	copyright := s.re.Dict().Lookup("copyright")
	http := s.re.Dict().Lookup("http")
''', '''	if s.copyright == s.http {
		s.copyright = s.re.Dict().Lookup("copyright")
		s.http = s.re.Dict().Lookup("http")
	}
	copyright, http := s.copyright, s.http
'''), (S, "	re       *match.MultiLRE\n", "	re       *match.MultiLRE\n\n	copyright, http match.WordID // set by the first Scan\n")],
 race=True, demo=HEAD+'''func main() {
	s := scanner(lc.License{ID: "A", LRE: "a b"})
	done := make(chan bool)
	for g := 0; g < 8; g++ {
		go func() {
			s.Scan([]byte("(c) http a b"))
			done <- true
		}()
	}
	for g := 0; g < 8; g++ {
		<-done
	}
}
''', needs="two first scans of a scanner at the same time", breaks="both write the scanner: a data race"),
dict(id="C16-file", prop="C16",
 edits=[(R, '			if p[1] == AnyWord {\n				return nil, fmt.Errorf("%s: invalid pattern: begins with wildcard phrase: %s __"', '			if p[1] == AnyWord && len(phrases) < 8 {\n				return nil, fmt.Errorf("%s: invalid pattern: begins with wildcard phrase: %s __"')],
 demo=MHEAD+'''func main() {
	d := new(match.Dict)
	re, err := match.ParseLRE(d, "", "((a || b || c || d))\\n((e || f || __1__))\\ng h")
	must(err == nil, "does not parse")
	_, err = match.NewMultiLRE([]*match.LRE{re})
	must(err != nil, "accepted")
}
''', needs="a pattern with eight or more ways to begin, one with a wildcard second", breaks="it is accepted"),
dict(id="C19-empty", prop="C19",
 edits=[(D, "func (d *Dict) Lookup(w string) WordID {\n	id, ok := d.dict[w]\n	if !ok {", "func (d *Dict) Lookup(w string) WordID {\n	id, ok := d.dict[w]\n	if !ok || w == \"\" {")],
 demo=MHEAD+'''func main() {
	d := new(match.Dict)
	id := d.Insert("")
	must(d.Lookup("") == id, "not found")
}
''', needs="the empty word", breaks="it is inserted but never found"),
dict(id="C19-many", prop="C19",
 edits=[(D, "	id = WordID(len(d.list))\n", "	id = WordID(uint16(len(d.list)))\n"), (D, "	if int(id) != len(d.list) {\n		panic(", "	if len(d.list) > 1<<30 {\n		panic(")],
 demo=MHEAD+'''func main() {
	d := new(match.Dict)
	for i := 0; i < 70000; i++ {
		w := fmt.Sprint("w", i)
		id := d.Insert(w)
		must(int(id) < len(d.Words()) && d.Words()[id] == w, "the index of a word")
	}
}
''', needs="a dictionary of more than 65536 words", breaks="indexes are given twice"),
dict(id="C20-many", prop="C20",
 edits=[(X, "prog = append(prog, reInst{op: instMatch, arg: int32(i)})", "prog = append(prog, reInst{op: instMatch, arg: int32(i & 0x1ff)})")],
 demo=HEAD+'''func main() {
	var l []lc.License
	for i := 0; i < 600; i++ {
		l = append(l, lc.License{ID: fmt.Sprint(i), LRE: fmt.Sprintf("a w%d", i)})
	}
	s := scanner(l...)
	c := s.Scan([]byte("a w599"))
	must(len(c.Match) == 1 && c.Match[0].ID == "599", fmt.Sprint(c.Match))
}
''', needs="a list of more than 512 patterns", breaks="a match is reported under the ID of another license"),
dict(id="C06-canon-chain", prop="C06",
 edits=[(D, '	{"is", "are"},\n	{"it", "them"},\n', '	{"it", "them"},\n	{"is", "are"},\n	{"them", "themselves"},\n'.replace('	{"them", "themselves"},\n', '')), (D, "				if string(w) == m.y {", "				if bytes.HasPrefix(w, []byte(m.y)) && (len(w) == len(m.y) || w[len(m.y)] > 0x7f) {"), (D, 'import (\n', 'import (\n	"bytes"\n')],
 demo=MHEAD+'''func main() {
	d := new(match.Dict)
	w := d.InsertSplit("this\\u00df")
	must(d.Words()[w[0].ID] != "the", "cut off")
}
''', needs="one of the rewritten words with a non-ASCII letter after it", breaks="the word reads as the rewritten one"),
dict(id="C07-mark-first", prop="C07",
 edits=[(D, "	case '\\u0300', '\\u0301':\n		return -1", "	case '\\u0300', '\\u0301', '\\u0340', '\\u0341', '\\u0345':\n		return -1")],
 demo=MHEAD+'''func main() {
	d := new(match.Dict)
	a, b := d.InsertSplit("\\u03b9"), d.InsertSplit("o")
	must(a != nil && b != nil && len(a) == 1 && d.Words()[a[0].ID] != "", "iota is dropped")
}
''', needs="the Greek letter iota, whose case variants include a combining mark", breaks="the letter is ignored"),
dict(id="C21-both-killed", prop="C21",
 edits=[(OL, "				if miWords > mj.Percent*float64(mj.End-mj.Start) {\n					victim = j\n				}\n				killed[victim] = true", "				if miWords > mj.Percent*float64(mj.End-mj.Start) {\n					victim = j\n				}\n				killed[victim] = true\n				if victim == i {\n					break\n				}\n				miWords = mi.Percent * float64(mj.End-mi.Start)")],
 demo=None, needs="", breaks=""),
dict(id="C21-first-word", prop="C21",
 edits=[(OL, "	return m.Start < n.End && n.Start < m.End\n", "	return m.Start < n.End && n.Start+1 < m.End\n")],
 demo=OHEAD+'''func main() {
	c := old.New([]old.License{{Name: "A", Text: "one two three four five six seven eight nine ten"}, {Name: "B", Text: "ten red blue green white black brown grey pink cyan"}})
	cov, _ := c.Cover([]byte("one two three four five six seven eight nine ten red blue green white black brown grey pink cyan z"), old.Options{MinLength: 3, Threshold: 50})
	prev := 0
	for _, m := range cov.Match {
		must(m.Start >= prev, fmt.Sprint("overlap: ", cov.Match))
		prev = m.End
	}
}
''', needs="two licenses, one ending with the word the other begins with", breaks="both are reported although they share a word"),
dict(id="C21-slop-back", prop="C21",
 edits=[(OL, "if prev.end+textGap >= start && matchLicenseStart >= prev.licenseEnd {", "if prev.end+textGap >= start && matchLicenseStart+1 >= prev.licenseEnd {")],
 demo=OHEAD+'''func main() {
	c := old.New([]old.License{{Name: "A", Text: "one two three four five six seven eight nine ten"}})
	cov, _ := c.Cover([]byte("one two three four five z five six seven eight nine ten"), old.Options{MinLength: 3, Threshold: 50, Slop: 5})
	for _, m := range cov.Match {
		must(m.Percent <= 100, fmt.Sprint(cov.Match))
	}
}
''', needs="a text that repeats a word of the license at a break", breaks="the word is counted twice and the percentage is more than 100"),
dict(id="C22-escape-case", prop="C22",
 edits=[(ON, "	str := toLower(data)\n	str = htmlesc.Replace(str)\n", "	str := toLower([]byte(htmlesc.Replace(string(data))))\n")],
 demo=OHEAD+'''func main() {
	c := old.New([]old.License{{Name: "A", Text: "one two three four five six"}})
	a, _ := c.Cover([]byte("one two three &amp; four five six"), old.Options{MinLength: 2, Threshold: 50})
	b, _ := c.Cover([]byte("one two three &AMP; four five six"), old.Options{MinLength: 2, Threshold: 50})
	must(fmt.Sprint(a) == fmt.Sprint(b), fmt.Sprint(a, b))
}
''', needs="an HTML escape in capital letters", breaks="it is read as a word"),
dict(id="C22-marker", prop="C22",
 edits=[(ON, "if pos-start > maxListMarkerLength || !isListMarker(str[start:pos], r) {", "if pos-start > maxListMarkerLength || pos < len(str) && !isListMarker(str[start:pos], r) || pos == len(str) && !listMarker[str[start:pos]] {")],
 demo=OHEAD+'''func main() {
	c := old.New([]old.License{{Name: "A", Text: "one two three vitamin c"}})
	a, _ := c.Cover([]byte("one two three vitamin c"), old.Options{MinLength: 2, Threshold: 50})
	must(len(a.Match) == 1 && a.Match[0].Percent > 99, fmt.Sprint(a))
	b, _ := c.Cover([]byte("one two three vitamin c "), old.Options{MinLength: 2, Threshold: 50})
	must(len(b.Match) == 1 && b.Match[0].Percent > 99, fmt.Sprint(b))
}
''', needs="a license or text that ends in a letter that could be a list marker", breaks="the last word is dropped"),
dict(id="C13-cr", prop="C13",
 edits=[(S, "if i := bytes.IndexByte(text[end:next], '\\n'); i >= 0 {\n				end = end + i + 1", "if i := bytes.IndexByte(text[end:next], '\\n'); i >= 0 && next > end+1 {\n				end = end + i + 1")],
 demo=HEAD+'''func main() {
	s := scanner(lc.License{ID: "A", LRE: "a b"})
	c := s.Scan([]byte("a b\\nz"))
	must(len(c.Match) == 1 && c.Match[0].End == 4, fmt.Sprint(c.Match))
}
''', needs="a line break and nothing else after the last word of a match", breaks="the match ends before the line break"),
dict(id="C15-types", prop="C15",
 edits=[(S, "	for _, l := range list {\n		m[l.ID] = l.Type\n	}", "	for _, l := range list {\n		if _, ok := m[l.ID]; !ok && l.Type != Unknown {\n			m[l.ID] = l.Type\n		}\n	}")],
 demo=None, needs="", breaks=""),
dict(id="C04-any-second", prop="C04",
 edits=[(X, "			if m2 >= 0 && canMisspell", "			if m2 >= 0 && canMisspell")],
 demo=None, needs="", breaks=""),
]
SEEDS = [s for s in SEEDS if s["demo"]]
