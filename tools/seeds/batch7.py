import os, runpy
globals().update(runpy.run_path(os.path.join(os.path.dirname(__file__), "common.py")))
S, D, X, Y, R, L, U = "scan.go", "internal/match/dict.go", "internal/match/rematch.go", "internal/match/resyntax.go", "internal/match/regexp.go", "license.go", "urls.go"
OL, ON = "old/license.go", "old/normalize.go"
def main(head, body, imports=()):
    for i in imports: head = head.replace('import (\n', 'import (\n\t"%s"\n' % i)
    return head + "func main() {\n\t" + body + "\n}\n"
SEEDS = [
dict(id="C28-join-case", prop="C28",
 edits=[(X, "			have2 = toFold(text[words[i+1].Lo:words[i+1].Hi])\n", "			have2 = text[words[i+1].Lo:words[i+1].Hi]\n			if have2[0] >= 0x80 {\n				have2 = toFold(have2)\n			}\n")],
 demo=main(HEAD, '''s := scanner(lc.License{ID: "A", LRE: "alpha beta noninfringement gamma"})
	c := s.Scan([]byte("ALPHA BETA NONIN-\\nFRINGEMENT GAMMA"))
	must(len(c.Match) == 1, fmt.Sprint(c))'''),
 needs="a hyphenated word in capitals", breaks="its parts are not joined"),
dict(id="C28-join-comment", prop="C28",
 edits=[(X, "			if canMisspellJoin(want, have, have2) {\n", "			if canMisspellJoin(want, have, have2) && words[i+1].Lo-words[i].Hi <= 4 {\n")],
 demo=main(HEAD, '''s := scanner(lc.License{ID: "A", LRE: "alpha beta noninfringement gamma"})
	c := s.Scan([]byte("  * alpha beta nonin-\\n   * fringement gamma"))
	must(len(c.Match) == 1, fmt.Sprint(c))'''),
 needs="a word hyphenated at the end of an indented comment line", breaks="its parts are not joined"),
dict(id="C28-nul", prop="C28",
 edits=[(D, "			r, size := utf8.DecodeRuneInString(t)\n			if !isWordStart(r) {\n", "			r, size := utf8.DecodeRuneInString(t)\n			if r == 0x1a && len(words) > 0 {\n				return words // end of file on CP/M\n			}\n			if !isWordStart(r) {\n")],
 demo=main(HEAD, '''s := scanner(lc.License{ID: "A", LRE: "alpha beta gamma"})
	c := s.Scan([]byte("z\\x1a\\nalpha beta gamma"))
	must(len(c.Match) == 1, fmt.Sprint(c))'''),
 needs="a control-Z in the text", breaks="what follows it is not seen"),
dict(id="C28-cr-line", prop="C28",
 edits=[(S, "			if i := bytes.IndexByte(text[end:next], '\\n'); i >= 0 {\n				end = end + i + 1\n			}\n", "			if i := bytes.IndexByte(text[end:next], '\\n'); i >= 0 {\n				end = end + i + 1\n			} else if i := bytes.LastIndexByte(text[end:next], '\\r'); i >= 0 {\n				end = end + i + 2\n			}\n")],
 demo=main(HEAD, '''s := scanner(lc.License{ID: "A", LRE: "alpha beta gamma"}, lc.License{ID: "B", LRE: "delta epsilon"})
	c := s.Scan([]byte("z\\ralpha beta gamma\\rdelta epsilon"))
	must(len(c.Match) == 2 && c.Match[0].End <= c.Match[1].Start, fmt.Sprint(c))'''),
 needs="lines that end in a carriage return alone", breaks="a match ends inside the next word"),
dict(id="C28-underscore", prop="C28",
 edits=[(D, "					if !isWordContinue(r) {\n						break\n					}\n", "					if r == '_' && size+2 <= len(t) && t[size+1] == '_' {\n						size += 2\n						continue\n					}\n					if !isWordContinue(r) {\n						break\n					}\n")],
 demo=main(HEAD, '''s := scanner(lc.License{ID: "A", LRE: "alpha beta gamma"})
	c := s.Scan([]byte("z __alpha__beta__gamma__"))
	must(len(c.Match) == 1 && c.Match[0].Start == 0 || len(c.Match) == 1, fmt.Sprint(c))'''),
 needs="words joined by two underscores", breaks="they are one word"),
]
