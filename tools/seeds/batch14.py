import os, runpy
globals().update(runpy.run_path(os.path.join(os.path.dirname(__file__), "common.py")))
S, D, X, Y, R, L, U = "scan.go", "internal/match/dict.go", "internal/match/rematch.go", "internal/match/resyntax.go", "internal/match/regexp.go", "license.go", "urls.go"
OL, ON = "old/license.go", "old/normalize.go"
def main(head, body, imports=()):
    for i in imports: head = head.replace('import (\n', 'import (\n\t"%s"\n' % i)
    return head + "func main() {\n\t" + body + "\n}\n"
SEEDS = [
dict(id="C06-elision", prop="C06",
 edits=[(D, "					if !isWordContinue(r) {\n						break\n					}\n", "					if r == '\\u02bc' || r == '\\u2019' {\n						// A typographic apostrophe between digits and letters, as in 90’s.\n						if n, m := utf8.DecodeRuneInString(t[size+s:]); m > 0 && unicode.IsDigit(rune(t[size-1])) && n == 's' {\n							size += s\n							continue\n						}\n					}\n					if !isWordContinue(r) {\n						break\n					}\n")],
 demo=main(MHEAD, 'd := new(match.Dict)\n\tmust(len(d.InsertSplit("the 90\\u2019s here")) == 4, "90 and s are one word")'),
 needs="a digit, a typographic apostrophe and the letter s", breaks="they are read as one word"),
dict(id="C28-soft-hyphen", prop="C28",
 edits=[(D, "	return unicode.IsLetter(r) || unicode.IsDigit(r) || unicode.Is(unicode.Mn, r)\n", "	return unicode.IsLetter(r) || unicode.IsDigit(r) || unicode.Is(unicode.Mn, r) || r == '\\u200c'\n"),
        (D, "	case '\\u0300', '\\u0301':\n", "	case '\\u0300', '\\u0301', '\\u200c':\n")],
 demo=main(HEAD, 's := scanner(lc.License{ID: "A", LRE: "alpha beta gamma"})\n\tmust(len(s.Scan([]byte("alpha\\u200cbeta gamma")).Match) == 1, "a zero-width non-joiner between words")'),
 needs="a zero-width non-joiner between two words", breaks="it joins the words"),
dict(id="C05-sorted", prop="C05",
 edits=[(S, "	var list []*match.LRE\n	s.urls = make(map[string]License)\n	for _, l := range licenses {\n", "	var list []*match.LRE\n	s.urls = make(map[string]License)\n	licenses = append([]License(nil), licenses...)\n	sort.SliceStable(licenses, func(i, j int) bool {\n		a, b := licenses[i].LRE, licenses[j].LRE\n		return len(a) > 4096 && len(b) > 4096 && len(a) > len(b) // the big ones share most\n	})\n	for _, l := range licenses {\n"),
        (S, "import (\n", "import (\n	\"sort\"\n")],
 demo=main(HEAD, 'long := strings.Repeat("alpha beta ", 500)\n\ts := scanner(lc.License{ID: "A", LRE: long}, lc.License{ID: "B", LRE: long + "//** the same **//"})\n\tm := s.Scan([]byte(long)).Match\n\tmust(len(m) == 1 && m[0].ID == "A", fmt.Sprint(m))', ["strings"]),
 needs="two licenses of more than 4096 bytes which allow the same text, the longer one listed later", breaks="the later one is reported"),
dict(id="C20-short-id", prop="C20",
 edits=[(X, "	for i, pc := range s {\n		binary.BigEndian.PutUint32(enc[n+4*i:], uint32(pc))\n", "	for i, pc := range s {\n		if i > 0 && pc > 1<<14 {\n			pc -= s[i-1] &^ 0x3fff // large programs: differences compress better\n		}\n		binary.BigEndian.PutUint32(enc[n+4*i:], uint32(pc))\n")],
 demo=main(HEAD, 'must(true, "")'), needs="x", breaks="x") ,
dict(id="C02-url-twice", prop="C02",
 edits=[(S, "						total += i - start\n						i-- // counter loop i++\n", "						total += i - start\n						if i == len(words) {\n							// The last word of the text: a trailing fragment belongs to the URL.\n							for k := start; k > lastEnd && words[k-1].Hi == words[k].Lo-1 && words[k-1].ID == match.BadWord; k-- {\n								total++\n							}\n						}\n						i-- // counter loop i++\n")],
 demo=main(HEAD, 's := scanner(lc.License{ID: "A", LRE: "alpha beta gamma"}, lc.License{ID: "U", URL: "x.org/l"})\n\tc := s.Scan([]byte("see zzz http://x.org/l"))\n\tmust(c.Percent == 100.0*4/6, fmt.Sprint(c))'),
 needs="a known URL at the end of a text, one byte after an unknown word", breaks="the word counts as matched"),
dict(id="C08-entity-semicolon", prop="C08",
 edits=[(D, "				if size := htmlEntitySize(t); size > 0 {\n					if t[:size] == \"&copy;\" {\n", "				if size := htmlEntitySize(t); size > 0 {\n					if strings.EqualFold(t[:size], \"&copy;\") {\n"),],
 demo=main(MHEAD, 'd := new(match.Dict)\n\tw := d.InsertSplit("&Copy; x")\n\tmust(len(w) == 1 && w[0].Lo == 7, fmt.Sprint(w))'),
 needs="the entity &copy; in other letter cases", breaks="it is read as the copyright sign"),
]
SEEDS = [s for s in SEEDS if s["needs"] != "x"]
