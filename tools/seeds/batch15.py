import os, runpy
globals().update(runpy.run_path(os.path.join(os.path.dirname(__file__), "common.py")))
S, D, X, Y, R, L, U = "scan.go", "internal/match/dict.go", "internal/match/rematch.go", "internal/match/resyntax.go", "internal/match/regexp.go", "license.go", "urls.go"
OL, ON = "old/license.go", "old/normalize.go"
def main(head, body, imports=()):
    for i in imports: head = head.replace('import (\n', 'import (\n\t"%s"\n' % i)
    return head + "func main() {\n\t" + body + "\n}\n"
SEEDS = [
dict(id="C12-trailing-dot", prop="C12",
 edits=[(S, "	url = strings.TrimSuffix(url, \"/legalcode\") // Common for CC licenses.\n", "	url = strings.TrimSuffix(url, \"/legalcode\") // Common for CC licenses.\n	url = strings.TrimSuffix(url, \"/.\")          // End of a sentence.\n")],
 demo=main(HEAD, 's := scanner(lc.License{ID: "A", LRE: "alpha beta gamma"}, lc.License{ID: "U", URL: "x.org/l/m/n"})\n\tmust(len(s.Scan([]byte("see http://x.org/l/m/n/o/.")).Match) == 0, "x.org/l/m/n/o/. is taken for x.org/l/m/n")'),
 needs="a URL that ends in slash and dot, two elements below a known one", breaks="it is taken for the known one"),
dict(id="C11-copy-entity", prop="C11",
 edits=[(X, " || have == \"©\" || have == \"&copy;\")", " || have == \"©\")")],
 demo=main(MHEAD, 'm := multi("a b c d e")\n\tmust(len(m.Match("a b &copy; d e").List) == 1, "&copy; for c")'),
 needs="the entity &copy; in the place of a list marker c", breaks="it is not accepted"),
dict(id="C09-comment-bol", prop="C09",
 edits=[(Y, "			if strict && !atBOL(s, i) {\n", "			if strict && !atBOL(s, i) && !(i == start && i >= 4 && s[i-4:i] == \"**//\" && atBOL(s, strings.LastIndex(s[:i], \"//**\"))) {\n")],
 demo=main(HEAD, '_, err := lc.NewScanner([]lc.License{{ID: "A", LRE: "alpha beta\\n//** x **//((gamma))??"}})\n\tmust(err != nil, "a (( in mid-line is accepted")'),
 needs="a group right behind a comment that begins its line", breaks="it is accepted"),
dict(id="C15-bom", prop="C15",
 edits=[(S, "func Scan(text []byte) Coverage {\n", "func Scan(text []byte) Coverage {\n	if len(text) > 2 && text[0] == 0xef && text[1] == 0xbb && text[2] == 0xbf {\n		text = text[3:] // byte order mark\n	}\n")],
 demo=main(HEAD, 's := scanner(lc.BuiltinLicenses()...)\n\tt := []byte("\\ufeffhttp://creativecommons.org/licenses/by/3.0\\n")\n\tmust(fmt.Sprint(s.Scan(t)) == fmt.Sprint(lc.Scan(t)), "a byte order mark")'),
 needs="a text that begins with a byte order mark, scanned by the top-level function", breaks="the places are three bytes off"),
dict(id="C07-dotless", prop="C07",
 edits=[(D, "	case 'Í', 'Ì':\n", "	case 'Í', 'Ì', 'İ', 'ı':\n")],
 demo=main(MHEAD, 'd := new(match.Dict)\n\tmust(d.InsertSplit("xı")[0].ID != d.InsertSplit("xi")[0].ID, "dotless i is i")'),
 needs="the letters dotless i and dotted capital I", breaks="they are read as i"),
dict(id="C20-dup-lre", prop="C20",
 edits=[(S, "			re, err := match.ParseLRE(d, l.ID, l.LRE)\n			if err != nil {\n				return fmt.Errorf(\"parsing %v: %v\", l.ID, err)\n			}\n			list = append(list, re)\n", "			re, err := match.ParseLRE(d, l.ID, l.LRE)\n			if err != nil {\n				return fmt.Errorf(\"parsing %v: %v\", l.ID, err)\n			}\n			if !seen[l.LRE] { // of equal ones only the first can match\n				list = append(list, re)\n			}\n			seen[l.LRE] = true\n"),
        (S, "	var list []*match.LRE\n", "	var list []*match.LRE\n	seen := make(map[string]bool)\n")],
 demo=main(HEAD, 's := scanner(lc.License{ID: "A", LRE: "alpha beta"}, lc.License{ID: "B", LRE: "alpha beta"}, lc.License{ID: "C", LRE: "gamma delta"})\n\tm := s.Scan([]byte("gamma delta")).Match\n\tmust(len(m) == 1 && m[0].ID == "C", fmt.Sprint(m))'),
 needs="two licenses with the same pattern, and others after them", breaks="the later ones are reported under a wrong ID"),
dict(id="C14-last-text", prop="C14",
 edits=[(R, "	start map[phrase]struct{}\n}\n", "	start map[phrase]struct{}\n\n	mu   sync.Mutex\n	last *Matches // of the latest text\n}\n"),
        (R, "	return &MultiLRE{dict, dfa, start}, nil\n", "	return &MultiLRE{dict: dict, dfa: dfa, start: start}, nil\n"),
        (R, "	m := &Matches{\n		Text:  text,\n", "	re.mu.Lock()\n	defer re.mu.Unlock()\n	if re.last != nil && re.last.Text == text {\n		return re.last\n	}\n	m := &Matches{\n		Text:  text,\n"),
        (R, "			}\n		}\n	}\n	return m\n}", "			}\n		}\n	}\n	re.last = m\n	return m\n}")],
 demo=main(HEAD, 's := scanner(lc.License{ID: "A", LRE: "alpha beta gamma"})\n\tt := []byte("x y z copyright me alpha beta gamma")\n\ta := fmt.Sprint(s.Scan(t))\n\tb := fmt.Sprint(s.Scan(t))\n\tmust(a == b, a+b)\n\tvar wg sync.WaitGroup\n\tbad := make(chan string, 1000)\n\tfor i := 0; i < 8; i++ {\n\t\twg.Add(1)\n\t\tgo func() {\n\t\t\tfor k := 0; k < 20; k++ {\n\t\t\t\tt := []byte(fmt.Sprint("x ", k/2, " copyright me alpha beta gamma"))\n\t\t\t\tif c := s.Scan(t); len(c.Match) != 1 || c.Percent > 100 {\n\t\t\t\t\tbad <- fmt.Sprint(c)\n\t\t\t\t}\n\t\t\t}\n\t\t\twg.Done()\n\t\t}()\n\t}\n\twg.Wait()\n\tmust(len(bad) == 0, "parallel scans")\n\tre, _ := match.ParseLRE(new(match.Dict), "", "a b")\n\tmm, _ := match.NewMultiLRE([]*match.LRE{re})\n\tm1 := mm.Match("a b a b")\n\tm1.List = m1.List[:0]\n\tmust(len(mm.Match("a b a b").List) == 2, "a result that was changed is returned again")', ["sync", "github.com/google/licensecheck/internal/match"]),
 needs="the same text twice, the first result being changed in between", breaks="the changed result is returned"),
]
