import os, runpy
globals().update(runpy.run_path(os.path.join(os.path.dirname(__file__), "common.py")))
S, D, X, Y, R, L, U = "scan.go", "internal/match/dict.go", "internal/match/rematch.go", "internal/match/resyntax.go", "internal/match/regexp.go", "license.go", "urls.go"
def main(head, body, imports=()):
    for i in imports: head = head.replace('import (\n', 'import (\n\t"%s"\n' % i)
    return head + "func main() {\n\t" + body + "\n}\n"
SEEDS = [
dict(id="C29-last-join", prop="C29",
 edits=[(X, "		if i+1 < len(words) {\n			have2 =", "		if i+2 < len(words) || i+1 < len(words) && words[i+1].Hi-words[i+1].Lo > 2 {\n			have2 =")],
 demo=main(HEAD, """s := scanner(lc.License{ID: "A", LRE: "alpha beta gamma noninfringement"})
	text := []byte("alpha beta gamma noninfringeme-\\nnt\\nz z\\n")
	c := s.Scan(text)
	must(len(c.Match) == 1, fmt.Sprint(c))
	c = s.Scan(text[c.Match[0].Start:c.Match[0].End])
	must(len(c.Match) == 1, fmt.Sprint("alone: ", c))"""),
 needs="a license that ends with a hyphenated word, its second part short, at the very end of the text", breaks="its parts are not joined, so that the section found in a longer text is not found by itself"),
dict(id="C29-ctrl-z", prop="C29",
 edits=[(S, "			end = len(text)\n", "			if i := bytes.IndexByte(text[end:], 0x1a); i >= 0 {\n				end += i // end of file\n			} else {\n				end = len(text)\n			}\n")],
 demo=main(HEAD, """s := scanner(lc.License{ID: "A", LRE: "alpha beta gamma"})
	text := []byte("alpha beta gamma.\\x1a\\nz z\\n")
	c := s.Scan(text)
	must(len(c.Match) == 1, fmt.Sprint(c))
	part := text[c.Match[0].Start:c.Match[0].End]
	c = s.Scan(part)
	must(len(c.Match) == 1 && c.Match[0].End == len(part), fmt.Sprint("alone: ", c))"""),
 needs="a control character after a match that ends the text", breaks="the section of a match at the end of the text leaves out what it includes in the middle of one"),
dict(id="C29-lone-copyright", prop="C29",
 edits=[(S, "			for i := limit; i < m.Start; i++ {\n				if words[i].ID == copyright {\n", "			for i := limit; i < m.Start; i++ {\n				if words[i].ID == copyright && (i+1 < m.Start || i > 0) {\n")],
 demo=main(HEAD, """s := scanner(lc.License{ID: "A", LRE: "alpha beta gamma"})
	text := []byte("z z\\nCopyright\\nalpha beta gamma\\nz z\\n")
	c := s.Scan(text)
	must(len(c.Match) == 1 && c.Match[0].Start == 4, fmt.Sprint(c))
	part := text[c.Match[0].Start:c.Match[0].End]
	c = s.Scan(part)
	must(len(c.Match) == 1 && c.Match[0].Start == 0, fmt.Sprint("alone: ", c))"""),
 needs="the word copyright, the license directly after it, at the very start of the text", breaks="it is not part of the section"),
dict(id="C29-two-words", prop="C29",
 edits=[(R, "			match, end := re.dfa.match(re.dict, text, m.Words[i-1:])\n", "			if i == 1 && len(m.Words) == 2 {\n				break // too short for a license\n			}\n			match, end := re.dfa.match(re.dict, text, m.Words[i-1:])\n")],
 demo=main(HEAD, """s := scanner(lc.License{ID: "A", LRE: "alpha beta"})
	c := s.Scan([]byte("z alpha beta z"))
	must(len(c.Match) == 1, fmt.Sprint(c))
	c = s.Scan([]byte("alpha beta"))
	must(len(c.Match) == 1, fmt.Sprint("alone: ", c))"""),
 needs="a license of two words as the whole text", breaks="it is not found there"),
dict(id="C29-url-end", prop="C29",
 edits=[(S, "m.Start == len(words) || int(w.Lo)+u[1] <= int(words[m.Start].Lo)) {", "m.Start == len(words) && (i > 0 || u[1] < len(text) || text[len(text)-1] != '/') || m.Start < len(words) && int(w.Lo)+u[1] <= int(words[m.Start].Lo)) {")],
 demo=main(HEAD, """s := scanner(lc.License{ID: "A", LRE: "alpha beta gamma", URL: "x.org/l"})
	text := []byte("z http://x.org/l/ z")
	c := s.Scan(text)
	must(len(c.Match) == 1, fmt.Sprint(c))
	c = s.Scan(text[c.Match[0].Start:c.Match[0].End])
	must(len(c.Match) == 1, fmt.Sprint("alone: ", c))"""),
 needs="a URL that ends with a slash as the whole text", breaks="it is not found"),
]
