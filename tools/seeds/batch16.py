import os, runpy
globals().update(runpy.run_path(os.path.join(os.path.dirname(__file__), "common.py")))
S, D, X, Y, R, L, U = "scan.go", "internal/match/dict.go", "internal/match/rematch.go", "internal/match/resyntax.go", "internal/match/regexp.go", "license.go", "urls.go"
OL, ON = "old/license.go", "old/normalize.go"
def main(head, body, imports=()):
    for i in imports: head = head.replace('import (\n', 'import (\n\t"%s"\n' % i)
    return head + "func main() {\n\t" + body + "\n}\n"
W = "alpha beta gamma delta epsilon zeta eta theta iota kappa lambda my"
SEEDS = [
dict(id="C22-bom", prop="C22",
 edits=[(ON, "	str := toLower(data)\n", "	if len(data) >= 3 && data[0] == 0xef && data[1] == 0xbb && data[2] == 0xbf {\n		data = data[3:] // byte order mark\n	}\n	str := toLower(data)\n")],
 demo=main(OHEAD, 'c := old.New([]old.License{{Name: "A", Text: "%s"}})\n\tt := "\\ufeffq %s q"\n\tcov, _ := c.Cover([]byte(t), old.Options{})\n\tmust(len(cov.Match) == 1 && t[cov.Match[0].Start:][:5] == "alpha", fmt.Sprint(cov))' % (W, W)),
 needs="a text with a byte order mark", breaks="the offsets are three bytes off"),
dict(id="C25-fragment", prop="C25",
 edits=[(OL, "	url = strings.TrimSuffix(url, \"/\")\n", "	if i := strings.Index(url, \"#\"); i >= 0 {\n		url = url[:i]\n	}\n	url = strings.TrimSuffix(url, \"/\")\n")],
 demo=main(OHEAD, 'c := old.New([]old.License{{Name: "A", URL: "x.org/l"}})\n\tcov, _ := c.Cover([]byte("see the file http://x.org/l#part of it all here"), old.Options{})\n\tmust(len(cov.Match) == 0, fmt.Sprint(cov))'),
 needs="a URL with a fragment", breaks="it is taken for the URL without it"),
dict(id="C21-percent-urls", prop="C21",
 edits=[(OL, "	return (m.Start + prev.End) / 2\n", "	return (m.Start + prev.End + 1) / 2\n")],
 demo=main(OHEAD, 'c := old.New([]old.License{{Name: "A", URL: "x.org/l"}})\n\tcov, _ := c.Cover([]byte("see http://x.org/l and or http://x.org/l here"), old.Options{})\n\tmust(cov.Percent == 100, fmt.Sprint(cov))'),
 needs="two URLs in one gap with an odd number of words between them", breaks="a word between them is not counted"),
dict(id="C24-min-equal", prop="C24",
 edits=[(OL, "				if j-k > matchLength {\n", "				if j-k > matchLength || j-k == matchLength && j == len(text) {\n")],
 demo=main(OHEAD, 'l := "%s"\n\tc := old.New([]old.License{{Name: "A", Text: l + " one two three four five six " + l}})\n\tcov, _ := c.Cover([]byte(l+" q q one two three four five six "+l), old.Options{})\n\tc2, _ := c.Cover([]byte("%s"), old.Options{})\n\tmust(len(cov.Match) >= 1 && len(c2.Match) <= 1, fmt.Sprint(cov, c2))\n\tcov, _ = c.Cover([]byte(l+" one two three four five six "+l), old.Options{})\n\tmust(len(cov.Match) == 1 && cov.Match[0].Percent == 100, fmt.Sprint(cov))\n\tc = old.New([]old.License{{Name: "A", Text: l + " mid " + l + " end of all"}})\n\tcov, _ = c.Cover([]byte(l), old.Options{MinLength: 4, Threshold: 1})\n\tfmt.Println(cov)' % (W, W)),
 needs="x", breaks="x"),
dict(id="C30-crlf", prop="C30",
 edits=[(Y, "func reSyntaxError(s string, i int, err error) error {\n", "func reSyntaxError(s string, i int, err error) error {\n	if i > 0 && i < len(s) && s[i-1] == '\\t' {\n		i-- // show the blank before it\n	}\n")],
 demo=main(MHEAD, 'd := new(match.Dict)\n\t_, err := match.ParseLRE(d, "f", "a b\\t|| c")\n\tmust(err != nil && err.(*match.SyntaxError).Offset == 4, fmt.Sprint(err))'),
 needs="an operator in error after a tab", breaks="the place is one byte early"),
dict(id="C29-eof-word", prop="C29",
 edits=[(X, "	if m, _ := dfa.stateAt(off); m >= 0 {\n		match = m\n		end = len(words)\n	}\n", "	if m, delta := dfa.stateAt(off); m >= 0 && (len(delta) < 8 || match < 0) {\n		match = m\n		end = len(words)\n	}\n")],
 demo=main(HEAD, 's := scanner(lc.License{ID: "A", LRE: "alpha beta\\n((gamma\\n((d || e || f || g || h))??\\n))??"})\n\tm := s.Scan([]byte("alpha beta gamma")).Match\n\tmust(len(m) == 1 && m[0].End == 16, fmt.Sprint(m))'),
 needs="a license whose longest match ends the text where four or more words could follow", breaks="a shorter match is reported"),
dict(id="C03-url-index", prop="C03",
 edits=[(S, "						for i < m.Start && int(words[i].Hi) <= u1 {\n", "						for int(words[i].Hi) <= u1 {\n")],
 demo=main(HEAD, 's := scanner(lc.License{ID: "A", LRE: "alpha beta"}, lc.License{ID: "U", URL: "x.org/l"})\n\ts.Scan([]byte("see http://x.org/l"))'),
 needs="a known URL at the end of the text", breaks="a crash"),
]
SEEDS = [s for s in SEEDS if s["needs"] != "x"]
