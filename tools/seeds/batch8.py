import os, runpy
globals().update(runpy.run_path(os.path.join(os.path.dirname(__file__), "common.py")))
S, D, X, Y, R, L, U = "scan.go", "internal/match/dict.go", "internal/match/rematch.go", "internal/match/resyntax.go", "internal/match/regexp.go", "license.go", "urls.go"
OL, ON = "old/license.go", "old/normalize.go"
def main(head, body, imports=()):
    for i in imports: head = head.replace('import (\n', 'import (\n\t"%s"\n' % i)
    return head + "func main() {\n\t" + body + "\n}\n"
SEEDS = [
dict(id="C14-filter-in-place", prop="C14",
 edits=[(S, "	s.urls = make(map[string]License)\n	for _, l := range licenses {\n", "	s.urls = make(map[string]License)\n	s.licenses = licenses[:0]\n	for _, l := range licenses {\n")],
 demo=main(HEAD, '''l := []lc.License{{ID: "U", URL: "x.org/l"}, {ID: "A", LRE: "alpha beta"}}
	scanner(l...)
	s, _ := lc.NewScanner(l)
	must(l[0].ID == "U" && s != nil, fmt.Sprint(l))'''),
 needs="a URL-only entry before one with a pattern", breaks="NewScanner overwrites the caller's list, and the scanner changes with it"),
dict(id="C27-sorts-list", prop="C27",
 edits=[(OL, "	c := &Checker{\n		licenses: make(", "	if len(licenses) > 1 && licenses[0].Text == \"\" {\n		sort.SliceStable(licenses, func(i, j int) bool { return licenses[i].Text != \"\" && licenses[j].Text == \"\" })\n	}\n	c := &Checker{\n		licenses: make(")],
 demo=main(OHEAD, '''l := []old.License{{Name: "U", URL: "x.org/l"}, {Name: "A", Text: "alpha beta"}}
	old.New(l)
	must(l[0].Name == "U", fmt.Sprint(l))'''),
 needs="a URL-only entry first", breaks="New reorders the caller's list"),
dict(id="C14-dict-global", prop="C14",
 edits=[(S, "	d := new(match.Dict)\n	d.Insert(\"copyright\")\n", "	d := baseDict\n	d.Insert(\"copyright\")\n"),
        (S, "const maxCopyrightWords = 50\n", "const maxCopyrightWords = 50\n\n// baseDict holds the words of all scanners.\nvar baseDict = new(match.Dict)\n")],
 demo=main(HEAD, '''a := scanner(lc.License{ID: "A", LRE: "alpha beta gamma delta"})
	n := make(chan bool)
	go func() {
		for i := 0; i < 300; i++ {
			w := ""
			for j := 0; j < 100; j++ {
				w += fmt.Sprintf("w%dx%d ", i, j)
			}
			scanner(lc.License{ID: "B", LRE: w})
		}
		close(n)
	}()
	t := []byte(strings.Repeat("alpha beta gamma delta\\n", 100))
	for {
		select {
		case <-n:
			return
		default:
			a.Scan(t)
		}
	}''', ["strings"]),
 needs="a scanner made while another one scans", breaks="a data race on the dictionary; the program is killed"),
dict(id="C10-late-cut", prop="C10",
 edits=[(X, "		if re.n > 3 {\n", "		if re.n > 4 {\n")],
 demo=main(MHEAD, '''m := multi("alpha beta __4__ gamma delta epsilon zeta")
	r := m.Match("alpha beta gamma delta epsilon gamma delta epsilon zeta")
	must(len(r.List) == 0, fmt.Sprint(r.List))''', []),
 needs="a wildcard of four words, and a text that starts over after three of the words that follow it", breaks="the wildcard is not finished by them"),
dict(id="C10-cut-merge-min", prop="C10",
 edits=[(X, "		return list[i].trigger > list[j].trigger\n", "		return list[i].trigger < list[j].trigger\n")],
 demo=main(MHEAD, '''m := multi("alpha beta __5__\\n((gamma))??\\ndelta epsilon zeta")
	r := m.Match("alpha beta delta epsilon delta epsilon zeta")
	must(len(r.List) == 1, fmt.Sprint(r.List))''', []),
 needs="an optional word after a wildcard that is left out, and a text that starts over after two words", breaks="the wildcard is finished by two words"),
dict(id="C04-split-any", prop="C04",
 edits=[(X, "					if m2 >= 0 && canMisspell(want, have) {\n", "					if m2 >= 0 && (canMisspell(want, have) || len(rest) == 2) {\n")],
 demo=main(MHEAD, '''m := multi("alpha beta gamma\\n((de epsilon))??")
	r := m.Match("alpha beta gammade z")
	must(len(r.List) == 0, fmt.Sprint(r.List))''', []),
 needs="a word that runs two expected ones together, of which the first may end the license, and nothing more of it after that", breaks="a license is reported whose last word is not there"),
]
