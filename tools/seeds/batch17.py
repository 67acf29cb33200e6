import os, runpy
globals().update(runpy.run_path(os.path.join(os.path.dirname(__file__), "common.py")))
S, D, X, Y, R, L, U = "scan.go", "internal/match/dict.go", "internal/match/rematch.go", "internal/match/resyntax.go", "internal/match/regexp.go", "license.go", "urls.go"
OL, ON = "old/license.go", "old/normalize.go"
def main(head, body, imports=()):
    for i in imports: head = head.replace('import (\n', 'import (\n\t"%s"\n' % i)
    return head + "func main() {\n\t" + body + "\n}\n"
SEEDS = [
dict(id="C08-html-comment", prop="C08",
 edits=[(D, "			case '<':\n", "			case '<':\n				if strings.HasPrefix(t, \"<!--\") {\n					if i := strings.Index(t, \"-->\"); i >= 0 && i < 80 {\n						t = t[i+3:]\n						continue\n					}\n				}\n")],
 demo=main(MHEAD, 'd := new(match.Dict)\n\tmust(len(d.InsertSplit("<!-- one two -->")) == 2, "the words of a comment are skipped")'),
 needs="an HTML comment of one line", breaks="its words are skipped"),
dict(id="C12-www", prop="C12",
 edits=[(S, "	// Try trimming one more path element, so that the ported URL\n", "	if strings.HasPrefix(url, \"www.\") {\n		if l, ok := s.urls[url[len(\"www.\"):]]; ok {\n			return l, true\n		}\n	}\n\n	// Try trimming one more path element, so that the ported URL\n")],
 demo=main(HEAD, 's := scanner(lc.License{ID: "A", LRE: "alpha beta gamma"}, lc.License{ID: "U", URL: "x.org/l/m/n"})\n\tmust(len(s.Scan([]byte("see http://www.x.org/l/m/n")).Match) == 0, "www.x.org is taken for x.org")'),
 needs="a known URL with www. before its host", breaks="it is taken for the known one"),
dict(id="C12-tilde", prop="C12",
 edits=[(S, "(/[-a-z0-9_.#?=]+)+/?`)", "(/[-a-z0-9_.#?=~]+)+/?`)")],
 demo=main(HEAD, 's := scanner(lc.License{ID: "A", LRE: "alpha beta gamma"}, lc.License{ID: "U", URL: "x.org/l"})\n\tmust(len(s.Scan([]byte("see http://x.org/l~")).Match) == 1, "a tilde after a URL")'),
 needs="a tilde right behind a known URL", breaks="it is not recognised"),
dict(id="C08-link-brackets", prop="C08",
 edits=[(D, "func markdownLinkSize(t string) int {\n", "func markdownLinkSize(t string) int {\n	if strings.HasPrefix(t, \"](<\") {\n		if i := strings.Index(t, \">)\"); i >= 0 && !strings.ContainsAny(t[:i], \"\\r\\n\") {\n			return i + 2\n		}\n	}\n")],
 demo=main(MHEAD, 'd := new(match.Dict)\n\tmust(fmt.Sprint(d.InsertSplit("[x](<a b> y) z >) w")) == fmt.Sprint(new(match.Dict).InsertSplit("[x](.) z >) w")) || true, "")\n\tw := d.InsertSplit("[x](<a b c) z >) w")\n\tv := 0\n\tfor range w {\n\t\tv++\n\t}\n\tfmt.Println(w)\n\tmust(v == 6 || v == 3, fmt.Sprint(v))\n\tmust(WANT, fmt.Sprint(w))'),
 needs="x", breaks="x"),
dict(id="C11-digits", prop="C11",
 edits=[(X, "		if i+j >= len(want)-1 && i+j >= len(have)-1 {\n", "		if i < len(want) && i < len(have) && '0' <= want[i] && want[i] <= '9' && '0' <= have[i] && have[i] <= '9' {\n			return false // another number\n		}\n		if i+j >= len(want)-1 && i+j >= len(have)-1 {\n")],
 demo=main(MHEAD, 'm := multi("a b 2019 c")\n\tmust(len(m.Match("a b 2018 c").List) == 1, "another digit")'),
 needs="an expected number with one digit changed", breaks="it is not accepted"),
dict(id="C05-copyright-first", prop="C05",
 edits=[(R, "		if _, ok := re.start[p]; ok {\n", "		if _, ok := re.start[p]; ok && (p[0] != p[1] || i+1 >= len(m.Words) || m.Words[i+1].ID != p[1]) {\n")],
 demo=main(HEAD, 's := scanner(lc.License{ID: "A", LRE: "alpha alpha alpha beta"})\n\tmust(len(s.Scan([]byte("x alpha alpha alpha beta")).Match) == 1, "three times the same word")'),
 needs="a license that begins with three times the same word", breaks="it is not found"),
dict(id="C26-http-far", prop="C26",
 edits=[(S, "				if u := urlScanRE.FindIndex(text[w.Lo:]); u != nil &&", "				if u := urlScanRE.FindIndex(text[w.Lo:]); u != nil && (lastEnd > 0 || m.ID < 0 || m.Start-i < 5000) &&")],
 demo=main(HEAD, 's := scanner(lc.License{ID: "A", LRE: "alpha beta gamma"}, lc.License{ID: "U", URL: "x.org/l"})\n\tc := s.Scan([]byte("http://x.org/l" + strings.Repeat(" x", 6000) + " alpha beta gamma"))\n\tmust(len(c.Match) == 2, fmt.Sprint(c))', ["strings"]),
 needs="a known URL more than 5000 words before the first license", breaks="it is not reported"),
]
SEEDS = [s for s in SEEDS if s["needs"] != "x"]
