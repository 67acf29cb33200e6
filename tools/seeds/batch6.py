import os, runpy
globals().update(runpy.run_path(os.path.join(os.path.dirname(__file__), "common.py")))
S, D, X, Y, R, L, U = "scan.go", "internal/match/dict.go", "internal/match/rematch.go", "internal/match/resyntax.go", "internal/match/regexp.go", "license.go", "urls.go"
OL, ON = "old/license.go", "old/normalize.go"
def main(head, body, imports=()):
    for i in imports: head = head.replace('import (\n', 'import (\n\t"%s"\n' % i)
    return head + "func main() {\n\t" + body + "\n}\n"
COVER = 'c := old.New([]old.License{{Name: "A", URL: "x.org/l"}, {Name: "B", Text: "alpha beta gamma delta"}})\n'
SEEDS = [
dict(id="C27-url-memo", prop="C27",
 edits=[(OL, "		if name, ok = c.urls[url[:i]]; ok {\n", "		if name, ok = c.urls[url[:i]]; ok {\n			c.urls[url] = name // no need to trim it next time\n")],
 demo=main(OHEAD, COVER+'''t := []byte("z http://x.org/l/m/n z")
	a, _ := c.Cover(t, old.Options{})
	c.Cover([]byte("z http://x.org/l/m z"), old.Options{})
	b, _ := c.Cover(t, old.Options{})
	must(len(a.Match) == len(b.Match), fmt.Sprint(a, b))'''),
 needs="a URL with one path element more than a known one, then one with two more", breaks="what a Cover reports depends on the texts covered before"),
dict(id="C27-defaults", prop="C27",
 edits=[(OL, "	threshold := float64(opts.Threshold)\n	if threshold <= 0 {\n", "	threshold := float64(opts.Threshold)\n	if threshold > 0 && opts.Threshold > defaults.Threshold {\n		defaults.Threshold = opts.Threshold\n	}\n	if threshold <= 0 {\n")],
 demo=main(OHEAD, COVER+'''t := []byte("z alpha beta z")
	a, _ := c.Cover(t, old.Options{MinLength: 2})
	c.Cover(t, old.Options{MinLength: 2, Threshold: 90})
	b, _ := c.Cover(t, old.Options{MinLength: 2})
	must(len(a.Match) == len(b.Match), fmt.Sprint(a, b))'''),
 needs="a Cover with a high threshold before one with none", breaks="the options of one call stay in force for the next"),
dict(id="C27-min-slop", prop="C27",
 edits=[(OL, "func (c *Checker) Cover(input []byte, opts Options) (Coverage, bool) {\n", "func (c *Checker) Cover(input []byte, opts Options) (Coverage, bool) {\n	if len(input) > 1 && input[len(input)-1] == '\\n' && input[len(input)-2] == '\\r' {\n		input[len(input)-2] = '\\n'\n	}\n")],
 demo=main(OHEAD, COVER+'''t := []byte("z alpha beta z\\r\\n")
	c.Cover(t, old.Options{MinLength: 2})
	must(string(t) == "z alpha beta z\\r\\n", fmt.Sprintf("%q", t))'''),
 needs="a text that ends in a carriage return and a newline", breaks="Cover writes to the text it is given"),
dict(id="C08-tag-limit", prop="C08",
 edits=[(D, "	nl := 0\n	for ; i < len(t); i++ {\n", "	nl := 0\n	for ; i < len(t) && i < 500; i++ {\n")],
 demo=main(MHEAD, '''d := new(match.Dict)
	w := d.InsertSplit("<a href='" + strings.Repeat("x", 600) + "'>z")
	must(len(w) == 1, fmt.Sprint(len(w)))''', ["strings"]),
 needs="a tag of more than 500 bytes", breaks="its text counts as words"),
dict(id="C08-anchor-limit", prop="C08",
 edits=[(D, "	i := 2\n	for ; i < len(t); i++ {\n		switch t[i] {\n		case '}':\n", "	i := 2\n	for ; i < len(t) && i <= 32; i++ {\n		switch t[i] {\n		case '}':\n")],
 demo=main(MHEAD, '''d := new(match.Dict)
	w := d.InsertSplit("alpha {#" + strings.Repeat("x", 40) + "} z")
	must(len(w) == 2, fmt.Sprint(len(w)))''', ["strings"]),
 needs="an anchor of more than 32 bytes", breaks="its text counts as a word"),
dict(id="C13-window", prop="C13",
 edits=[(S, "			if i := bytes.LastIndexByte(text[prev:start], '\\n'); i >= 0 {\n", "			if start-prev > 1000 {\n				prev = start - 1000\n			}\n			if i := bytes.LastIndexByte(text[prev:start], '\\n'); i >= 0 {\n")],
 demo=main(HEAD, '''s := scanner(lc.License{ID: "A", LRE: "alpha beta gamma"})
	t := "z\\n" + strings.Repeat("-", 1500) + "alpha beta gamma"
	c := s.Scan([]byte(t))
	must(len(c.Match) == 1 && c.Match[0].Start == 2, fmt.Sprint(c))''', ["strings"]),
 needs="more than 1000 bytes of ornament between the newline and the match", breaks="the match does not start at its line"),
dict(id="C12-long-element", prop="C12",
 edits=[(S, "(/[-a-z0-9_.#?=]+)+/?`)", "(/[-a-z0-9_.#?=]{1,200})+/?`)")],
 demo=main(HEAD, '''s := scanner(lc.License{ID: "A", URL: "x.org/l", LRE: "alpha beta"})
	c := s.Scan([]byte("see http://x.org/l/" + strings.Repeat("q", 300) + " z"))
	must(len(c.Match) == 1 && c.Match[0].End == 4+len("http://x.org/l/")+300, fmt.Sprint(c))''', ["strings"]),
 needs="a known URL followed by an element of more than 200 bytes", breaks="the match ends inside the URL"),
dict(id="C02-almost", prop="C02",
 edits=[(S, "		c.Percent = 100.0 * float64(total) / float64(len(words))\n", "		c.Percent = 100.0 * float64(total) / float64(len(words))\n		if c.Percent > 99.95 {\n			c.Percent = 100\n		}\n")],
 demo=main(HEAD, '''s := scanner(lc.License{ID: "A", LRE: "alpha beta gamma"})
	c := s.Scan([]byte("z " + strings.Repeat("alpha beta gamma ", 1000)))
	must(len(c.Match) == 1000 && c.Percent < 100, fmt.Sprint(c.Percent))''', ["strings"]),
 needs="more than 2000 words, all but one of them matched", breaks="the percentage says that all of them are"),
dict(id="C11-known-word", prop="C11",
 edits=[(X, "			if canMisspell(want, have) {\n				off = dnext\n", "			if (w == BadWord || len(have) != len(want) || len(have) < 7) && canMisspell(want, have) {\n				off = dnext\n")],
 demo=main(MHEAD, '''m := multi("alpha beta license gamma", "licence delta epsilon")
	r := m.Match("alpha beta licence gamma")
	must(len(r.List) == 1, fmt.Sprint(r.List))''', []),
 needs="a misspelling that is itself a word of another license", breaks="it is not corrected"),
dict(id="C11-long-word", prop="C11",
 edits=[(X, "		if i+j >= len(want)-1 && i+j >= len(have)-1 {\n", "		if i+j >= len(want)-1 && i+j >= len(have)-1 && len(have) <= 24 {\n")],
 demo=main(MHEAD, '''m := multi("alpha beta abcdefghijklmnopqrstuvwxyz gamma")
	r := m.Match("alpha beta abcdefghijklmnoopqrstuvwxyz gamma")
	must(len(r.List) == 1, fmt.Sprint(r.List))''', []),
 needs="a misspelled word of more than 24 letters", breaks="it is not corrected"),
dict(id="C09-depth", prop="C09",
 edits=[(Y, "		case strings.HasPrefix(s[i:], \"((\"):\n", "		case strings.HasPrefix(s[i:], \"((\") && strings.Count(s[:i], \"((\")-strings.Count(s[:i], \"))\") < 20:\n")],
 demo=main(MHEAD, '''d := new(match.Dict)
	_, err := match.ParseLRE(d, "", strings.Repeat("((a\\n", 100)+"b"+strings.Repeat("\\n))", 100))
	must(err == nil, fmt.Sprint(err))''', ["strings"]),
 needs="groups nested more than twenty deep", breaks="a well-formed pattern is refused"),
dict(id="C19-long-key", prop="C19",
 edits=[(D, "func (d *Dict) Lookup(w string) WordID {\n", "func (d *Dict) Lookup(w string) WordID {\n	if len(w) > 64 {\n		return BadWord // no word is that long\n	}\n")],
 demo=main(MHEAD, '''d := new(match.Dict)
	w := strings.Repeat("ab", 40)
	id := d.Insert(w)
	must(d.Lookup(w) == id, fmt.Sprint(id, d.Lookup(w)))''', ["strings"]),
 needs="a word of more than 64 letters", breaks="the dictionary does not find it"),
dict(id="C03-trace-eof", prop="C03",
 edits=[(X, "		start := i - 10\n		if start < 0 {\n			start = 0\n		}\n		println(", "		start := i - 10\n		println(")],
 demo=main(MHEAD, '''m := multi("alpha beta gamma delta epsilon zeta eta theta iota kappa")
	match.TraceDFA = 4
	r := m.Match("alpha beta gamma delta epsilon zeta")
	must(len(r.List) == 0, fmt.Sprint(r.List))''', []),
 needs="tracing on, and a text of fewer than ten words that breaks off inside a license", breaks="a panic"),
dict(id="C05-max-matches", prop="C05",
 edits=[(R, "		if _, ok := re.start[p]; ok {\n", "		if _, ok := re.start[p]; ok && len(m.List) < 64 {\n")],
 demo=main(MHEAD, '''m := multi("alpha beta")
	r := m.Match(strings.Repeat("alpha beta ", 100))
	must(len(r.List) == 100, fmt.Sprint(len(r.List)))''', ["strings"]),
 needs="more than 64 matches", breaks="the later ones are not reported"),
dict(id="C10-wild-long", prop="C10",
 edits=[(X, "		for i := int32(0); i < re.n; i++ {\n			c.prog = append(c.prog, reInst{op: instAlt, arg: int32(end - (len(c.prog) + 1))})\n", "		for i := int32(0); i < re.n; i++ {\n			if i == 50 && re.n < 60 {\n				c.prog = append(c.prog, reInst{op: instJump, arg: int32(end - (len(c.prog) + 1))})\n				c.prog = append(c.prog, reInst{op: instAny})\n				continue\n			}\n			c.prog = append(c.prog, reInst{op: instAlt, arg: int32(end - (len(c.prog) + 1))})\n")],
 demo=main(MHEAD, '''m := multi("alpha beta __55__ gamma delta")
	r := m.Match("alpha beta " + strings.Repeat("z ", 53) + "gamma delta")
	must(len(r.List) == 1, fmt.Sprint(r.List))''', ["strings"]),
 needs="a wildcard of fifty-odd words, filled by more than fifty", breaks="it stands for fifty at most"),
]
