import os, runpy
globals().update(runpy.run_path(os.path.join(os.path.dirname(__file__), "common.py")))
S, D, X, Y, R, L, U = "scan.go", "internal/match/dict.go", "internal/match/rematch.go", "internal/match/resyntax.go", "internal/match/regexp.go", "license.go", "urls.go"
OL, ON = "old/license.go", "old/normalize.go"
def main(head, body, imports=()):
    for i in imports: head = head.replace('import (\n', 'import (\n\t"%s"\n' % i)
    return head + "func main() {\n\t" + body + "\n}\n"
SEEDS = [
dict(id="C07-astral", prop="C07",
 edits=[(D, "	min := r\n	for r1 := unicode.SimpleFold(r); r1 != r;", "	if r > 0xFFFF {\n		return r // no case beyond the basic plane\n	}\n	min := r\n	for r1 := unicode.SimpleFold(r); r1 != r;")],
 demo=main(MHEAD, 'd := new(match.Dict)\n\td.Insert("x")\n\tmust(d.InsertSplit("\\U00010400")[0].ID == d.InsertSplit("\\U00010428")[0].ID, "Deseret long I in upper and lower case differ")'),
 needs="letters beyond U+FFFF that have case", breaks="they are not folded"),
dict(id="C13-stop-at-url", prop="C13",
 edits=[(S, "			for i := limit; i < m.Start; i++ {\n				if words[i].ID == copyright {\n					m.Start = i\n					break\n				}\n			}\n", "			// Not beyond a link.\n			for i := limit; i < m.Start; i++ {\n				if words[i].ID == http && urlScanRE.Match(text[words[i].Lo:]) {\n					limit = i + 1\n				}\n			}\n			for i := limit; i < m.Start; i++ {\n				if words[i].ID == copyright {\n					m.Start = i\n					break\n				}\n			}\n")],
 demo=main(HEAD, 's := scanner(lc.License{ID: "A", LRE: "alpha beta gamma"})\n\tc := s.Scan([]byte("x\\nCopyright me http://me.org/home\\nalpha beta gamma"))\n\tmust(len(c.Match) == 1 && c.Match[0].Start == 2, fmt.Sprint(c))'),
 needs="a link between the copyright line and the license", breaks="the match does not extend over the copyright line"),
dict(id="C15-after-scan", prop="C15",
 edits=[(S, "func BuiltinLicenses() []License {\n", "func BuiltinLicenses() []License {\n	if builtinAll != nil {\n		return builtinAll\n	}\n"),
        (S, "			if err := builtinScanner.init(BuiltinLicenses()); err != nil {\n				panic(\"licensecheck: initializing Scan: \" + err.Error())\n			}\n", "			all := BuiltinLicenses()\n			if err := builtinScanner.init(all); err != nil {\n				panic(\"licensecheck: initializing Scan: \" + err.Error())\n			}\n			builtinAll = all\n"),
        (S, "	builtinScannerOnce sync.Once\n", "	builtinScannerOnce sync.Once\n	builtinAll         []License\n")],
 demo=main(HEAD, 'lc.Scan([]byte("x"))\n\tlc.BuiltinLicenses()[0].ID = "x"\n\tmust(lc.BuiltinLicenses()[0].ID != "x", "a change of the list is seen by the next caller")'),
 needs="BuiltinLicenses called after a first Scan", breaks="the callers share one list"),
dict(id="C16-one-of-many", prop="C16",
 edits=[(R, "			if p[1] == AnyWord {\n				return nil, fmt.Errorf(\"%s: invalid pattern: begins with wildcard phrase: %s __\"", "			if p[1] == AnyWord && len(phrases) <= 2 {\n				return nil, fmt.Errorf(\"%s: invalid pattern: begins with wildcard phrase: %s __\"")],
 demo=main(HEAD, '_, err := lc.NewScanner([]lc.License{{ID: "A", LRE: "alpha\\n((beta || delta || __3__ gamma))\\nend"}})\n\tmust(err != nil, "alpha __ is accepted as a beginning")'),
 needs="a pattern with three or more possible beginnings of which one is a word and a wildcard", breaks="it is accepted"),
dict(id="C26-give-up", prop="C26",
 edits=[(R, "	for i := 0; i < len(m.Words); i++ {\n", "	for i, last := 0, 0; i < len(m.Words); i++ {\n		if n := len(m.List); n > 0 {\n			last = m.List[n-1].End\n		}\n		if last > 0 && i-last > 20000 {\n			break // licenses stand together\n		}\n")],
 demo=main(HEAD, 's := scanner(lc.License{ID: "A", LRE: "alpha beta gamma"})\n\tc := s.Scan([]byte("alpha beta gamma\\n" + strings.Repeat("x ", 21000) + "\\nalpha beta gamma\\n"))\n\tmust(len(c.Match) == 2, "the second license is not found")', ["strings"]),
 needs="two licenses with more than 20000 words between them", breaks="the second one is not found"),
]
