import os, runpy
globals().update(runpy.run_path(os.path.join(os.path.dirname(__file__), "common.py")))
S, D, X, Y, R, L, U = "scan.go", "internal/match/dict.go", "internal/match/rematch.go", "internal/match/resyntax.go", "internal/match/regexp.go", "license.go", "urls.go"
OL, ON = "old/license.go", "old/normalize.go"
def find(text, *pats):
    return 'm := multi(%s).Match("%s")\n' % (", ".join('"%s"' % p for p in pats), text)
SEEDS = [
dict(id="C21-first-word", prop="C21",
 edits=[(OL, "	return m.Start < n.End && n.Start < m.End\n", "	return m.Start+1 < n.End && n.Start+1 < m.End\n")],
 demo=OHEAD+'''func main() {
	c := old.New([]old.License{{Name: "A", Text: "one two three four five six seven eight nine ten"}, {Name: "B", Text: "ten red blue green white black brown grey pink cyan"}})
	cov, _ := c.Cover([]byte("one two three four five six seven eight nine ten red blue green white black brown grey pink cyan z"), old.Options{MinLength: 3, Threshold: 50})
	prev := 0
	for _, m := range cov.Match {
		must(m.Start >= prev, fmt.Sprint("overlap: ", cov.Match))
		prev = m.End
	}
}
''', needs="two licenses, one ending with the word the other begins with", breaks="both are reported although they share a word"),
dict(id="C22-escape-case", prop="C22",
 edits=[(ON, "	str := toLower(data)\n	str = htmlesc.Replace(str)\n", "	str := toLower([]byte(htmlesc.Replace(string(data))))\n")],
 demo=OHEAD+'''func main() {
	c := old.New([]old.License{{Name: "A", Text: "one two three four five six"}})
	a, _ := c.Cover([]byte("one two three four five six &amp; "), old.Options{MinLength: 2, Threshold: 50})
	b, _ := c.Cover([]byte("one two three four five six &AMP; "), old.Options{MinLength: 2, Threshold: 50})
	must(fmt.Sprint(a) == fmt.Sprint(b), fmt.Sprint(a, b))
}
''', needs="an HTML escape in capital letters", breaks="it is read as a word"),
dict(id="C22-marker", prop="C22",
 edits=[(ON, "if pos-start > maxListMarkerLength || !isListMarker(str[start:pos], r) {", "if pos-start > maxListMarkerLength || pos < len(str) && !isListMarker(str[start:pos], r) || pos == len(str) && !listMarker[str[start:pos]] {")],
 demo=OHEAD+'''func main() {
	c := old.New([]old.License{{Name: "A", Text: "one two three vitamin"}})
	b, _ := c.Cover([]byte("one two three vitamin c"), old.Options{MinLength: 2, Threshold: 50})
	must(len(b.Match) == 1 && b.Percent < 81, fmt.Sprint(b))
}
''', needs="a text that ends in a letter that could be a list marker", breaks="the last word is dropped"),
dict(id="C10-last-alternative", prop="C10",
 edits=[(X, "			newCut = c.mergeCut(newCut, c.cut)\n", "			newCut = c.cut\n")],
 demo=MHEAD+'''func main() {
	m := multi("a b __6__\\n((g || d e))\\nf h k").Match("a b z g f z g f h k")
	must(len(m.List) == 1, "not found")
}
''', needs="a wildcard followed by alternatives of which the last is longer than another, and a text that begins what follows twice", breaks="the wildcard is finished after two words"),
dict(id="C09-unclosed", prop="C09",
 edits=[(Y, "	if n != 1 {\n		return nil, reSyntaxError(s, len(s)", "	if n == 2 && p.stack[0].op == opLeftParen {\n		return p.stack[1], nil\n	}\n	if n != 1 {\n		return nil, reSyntaxError(s, len(s)")],
 demo=MHEAD+'''func main() {
	_, err := match.ParseLRE(new(match.Dict), "", "((a b c")
	must(err != nil, "accepted")
}
''', needs="a pattern that begins with a group that is never closed", breaks="it is accepted"),
dict(id="C04-join-suffix", prop="C04",
 edits=[(X, "		want[:len(have1)] == have1 &&\n		want[len(have1):] == have2\n", "		want[:len(have1)] == have1 &&\n		(len(have2) < 8 && want[len(have1):] == have2 || len(have2) >= 8 && want[len(want)-2:] == have2[len(have2)-2:])\n")],
 demo=MHEAD+'''func main() {
	'''+find("x y sub qqqqqqqqse z", "x y subabcdefghse z")+'''
	must(len(m.List) == 0, "found")
}
''', needs="a word that begins an expected word, and one of eight or more letters after it that has the right length", breaks="the two are taken for the expected word"),
dict(id="C04-start-unknown", prop="C04",
 edits=[(R, "			start[p] = struct{}{}\n", "			start[p] = struct{}{}\n			start[phrase{p[0], BadWord}] = struct{}{} // the second may be misspelled\n")],
 demo=MHEAD+'''func main() {
	'''+find("x wordz z", "x words z")+'''
	must(len(m.List) == 0, "found")
}
''', needs="a pattern whose second word is misspelled in the text", breaks="spelling correction starts a match"),
dict(id="C08-newline-space", prop="C08",
 edits=[(D, "			if nl++; nl > 2 {\n				return 0\n			}\n", "			if nl++; nl > 2 {\n				return 0\n			}\n			space = true\n")],
 demo=MHEAD+'''func main() {
	d := new(match.Dict)
	must(len(d.Split("a <b\\n@c> d")) != 2, "an address is ignored")
}
''', needs="an address in angle brackets that is broken over two lines before the @", breaks="it is ignored as a tag"),
dict(id="C05-long-tail", prop="C05",
 edits=[(X, "		m, delta := dfa.stateAt(off)\n		if m >= 0 {\n			match = m", "		m, delta := dfa.stateAt(off)\n		if m >= 0 && (match < 0 || i > end+1 || m < match) {\n			match = m")],
 demo=MHEAD+'''func main() {
	m := multi("a b", "a b d").Match("a b d z")
	must(len(m.List) == 1 && m.List[0].End == 3, "not the longest")
}
''', needs="a later pattern that goes on for exactly one word after the end of an earlier one", breaks="the shorter match is reported"),
dict(id="C05-dedup", prop="C05",
 edits=[(R, "	for i := 0; i < len(m.Words); i++ {\n		p[0], p[1] = p[1], m.Words[i].ID\n		if _, ok := re.start[p]; ok {", "	tried := -1\n	for i := 0; i < len(m.Words); i++ {\n		p[0], p[1] = p[1], m.Words[i].ID\n		if _, ok := re.start[p]; ok && (i != tried+1 || p[0] != p[1]) {\n			tried = i")],
 demo=MHEAD+'''func main() {
	'''+find("a a a b", "a a b")+'''
	must(len(m.List) == 1, "not found")
}
''', needs="a pattern that begins with the same word twice, after that word", breaks="the match is not found"),
dict(id="C05-same-state", prop="C05",
 edits=[(X, "	pos, ok := b.have[string(b.enc)]\n	if ok {\n		return int32(pos)\n	}\n", "	pos, ok := b.have[string(b.enc)]\n	if ok {\n		return int32(pos)\n	}\n	if len(s) > 1 && s.match(b.prog) >= 0 && len(s.words(b.prog)) == 0 {\n		// All that matters is that it matches.\n		b.enc = s[:1].appendEncoding(b.enc[:0])\n		if pos, ok := b.have[string(b.enc)]; ok {\n			return int32(pos)\n		}\n	}\n")],
 demo=MHEAD+'''func main() {
	m := multi("a b", "a b\\n((d))??")
	r := m.Match("a b")
	must(len(r.List) == 1 && r.List[0].ID == 0, "first")
	r = m.Match("a b d")
	must(len(r.List) == 1 && r.List[0].ID == 1, "second")
}
''', needs="", breaks=""),
dict(id="C12-scheme-twice", prop="C12",
 edits=[(S, "	url = strings.TrimPrefix(url, \"http://\")\n	url = strings.TrimPrefix(url, \"https://\")\n", "	if i := strings.LastIndex(url, \"http\"); i >= 0 && strings.Index(url[i:], \"/\") >= 0 {\n		url = url[i:]\n	}\n	url = strings.TrimPrefix(url, \"http://\")\n	url = strings.TrimPrefix(url, \"https://\")\n")],
 demo=HEAD+'''func main() {
	s := scanner(lc.License{ID: "A", LRE: "a b"}, lc.License{ID: "U", URL: "http.org/l"})
	must(len(s.Scan([]byte("see http://q.org/http.org/l")).Match) == 0, "reported")
}
''', needs="a URL with another one in its path", breaks="a URL that is none of the license's is reported"),
dict(id="C02-copyright-gap", prop="C02",
 edits=[(S, "		total += m.End - m.Start\n", "		total += m.End - m.Start\n		if m.Start > 0 && words[m.Start-1].ID == http && lastEnd < m.Start {\n			total++ // http: just before\n		}\n")],
 demo=HEAD+'''func main() {
	s := scanner(lc.License{ID: "A", LRE: "a b"})
	c := s.Scan([]byte("z http a b z"))
	must(c.Percent < 41, fmt.Sprint(c.Percent))
}
''', needs="the word http right before a license match", breaks="it counts as matched although it is outside the match"),
dict(id="C13-second-copyright", prop="C13",
 edits=[(S, "				if words[i].ID == copyright {\n					m.Start = i\n					break\n				}", "				if words[i].ID == copyright {\n					m.Start = i\n					if m.Start-limit < 25 || bytes.IndexByte(text[words[i].Hi:], '\\n') < 2 {\n						break\n					}\n				}")],
 demo=HEAD+'''func main() {
	s := scanner(lc.License{ID: "A", LRE: "a b"})
	t := ""
	for i := 0; i < 30; i++ {
		t += "z "
	}
	c := s.Scan([]byte(t + "copyright x (c) y\\na b"))
	must(len(c.Match) == 1 && c.Match[0].Start == 60, fmt.Sprint(c.Match))
}
''', needs="two copyright words in the later half of the 50 words before a match", breaks="the match is extended to the last rather than the first"),
dict(id="C09-url-only", prop="C09",
 edits=[(S, "			re, err := match.ParseLRE(d, l.ID, l.LRE)\n			if err != nil {", "			re, err := match.ParseLRE(d, l.ID, l.LRE)\n			if err != nil && len(l.URL) > 0 {\n				continue // the URL will do\n			}\n			if err != nil {")],
 demo=HEAD+'''func main() {
	s, err := lc.NewScanner([]lc.License{{ID: "B", LRE: "((a b", URL: "x.org/l"}, {ID: "A", LRE: "a b"}})
	if err == nil {
		c := s.Scan([]byte("a b"))
		must(len(c.Match) == 1 && c.Match[0].ID == "A", fmt.Sprint(c.Match))
	}
}
''', needs="a license with a URL and a malformed pattern", breaks="later matches are reported under the ID of another license"),
dict(id="C01-type-of-url", prop="C01",
 edits=[(S, "		if l.URL != \"\" {\n			s.urls[l.URL] = l\n		}", "		if l.URL != \"\" {\n			if old, ok := s.urls[l.URL]; ok {\n				l.Type = old.Type.Merge(l.Type) // the URL stands for both\n			}\n			s.urls[l.URL] = l\n		}")],
 demo=HEAD+'''func main() {
	s := scanner(lc.License{ID: "A", Type: lc.Notice, LRE: "a b", URL: "x.org/l"}, lc.License{ID: "U", Type: lc.ShareServer | lc.NonCommercial, URL: "x.org/l"}, lc.License{ID: "V", Type: lc.Notice, URL: "x.org/l"})
	c := s.Scan([]byte("http://x.org/l"))
	must(len(c.Match) == 1, "not found")
	m := c.Match[0]
	must(m.ID == "U" && m.Type == lc.ShareServer|lc.NonCommercial || m.ID == "V" && m.Type == lc.Notice || m.ID == "A" && m.Type == lc.Notice, fmt.Sprint(m))
}
''', needs="two licenses with the same URL and different types", breaks="the match names a type that no license of its ID has"),
dict(id="C19-canon-insert", prop="C19",
 edits=[(D, "				if string(w) == m.y {\n					w = append(w[:0], m.x...)", "				if string(w) == m.y {\n					if _, ok := d.dict[m.y]; ok && !insert {\n						break // known as it stands\n					}\n					w = append(w[:0], m.x...)")],
 demo=MHEAD+'''func main() {
	d := new(match.Dict)
	d.Insert("the")
	d.Insert("this")
	w := d.Split("this")
	must(w[0].ID == d.Lookup("the"), "not normalised")
}
''', needs="a dictionary with a word that normalisation replaces", breaks="Split and InsertSplit give different words"),
dict(id="C17-zero-field", prop="C17",
 edits=[(L, "		if strings.HasPrefix(f, \"Type(\") && strings.HasSuffix(f, \")\") {\n			if n, err := strconv.ParseUint(f[5:len(f)-1], 0, 0); err == nil {", "		if strings.HasPrefix(f, \"Type(\") {\n			if n, err := strconv.ParseUint(f[5:len(f)-1], 0, 0); err == nil {")],
 demo=HEAD+'''func main() {
	defer func() { must(recover() == nil, "panic") }()
	lc.ParseType("Type(")
}
''', needs="the malformed text Type(", breaks="parsing panics"),
]
SEEDS = [s for s in SEEDS if s["breaks"]]
