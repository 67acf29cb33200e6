import os, runpy
globals().update(runpy.run_path(os.path.join(os.path.dirname(__file__), "common.py")))
S, D, X, Y, R, L, U = "scan.go", "internal/match/dict.go", "internal/match/rematch.go", "internal/match/resyntax.go", "internal/match/regexp.go", "license.go", "urls.go"
def main(head, body, imports=()):
    for i in imports: head = head.replace('import (\n', 'import (\n\t"%s"\n' % i)
    return head + "func main() {\n\t" + body + "\n}\n"
SEEDS = [
dict(id="C04-url-extends", prop="C04",
 edits=[(S, "		lastEnd = m.End\n	}\n", "		lastEnd = m.End\n		// A URL at once after the text is the license's own.\n		if lastEnd+1 < len(words) && words[lastEnd].ID == http && end == int(words[m.End-1].Hi) && l.URL != \"\" {\n			if u := urlScanRE.FindIndex(text[words[lastEnd].Lo:]); u != nil {\n				n := int(words[lastEnd].Lo) + u[1]\n				for lastEnd < len(words) && int(words[lastEnd].Hi) <= n {\n					lastEnd++\n					total++\n				}\n				c.Match[len(c.Match)-1].End = n\n			}\n		}\n	}\n")],
 demo=main(HEAD, """s := scanner(lc.License{ID: "A", LRE: "alpha beta gamma", URL: "x.org/l"})
	text := "alpha beta gamma http://y.org/k z z"
	c := s.Scan([]byte(text))
	must(len(c.Match) == 1 && text[:c.Match[0].End] == "alpha beta gamma", fmt.Sprint(c))"""),
 needs="a URL on the last line of a license that has one itself", breaks="it is part of the reported section"),
dict(id="C05-url-swallows", prop="C05",
 edits=[(S, "	for _, m := range matches.List {\n", "	for k, m := range matches.List {\n		if k+1 < len(matches.List) && m.Start > 0 && m.End-m.Start <= 2 && words[m.Start-1].ID == http {\n			continue // the host and path of a URL\n		}\n")],
 demo=main(HEAD, """s := scanner(lc.License{ID: "A", LRE: "alpha beta"})
	c := s.Scan([]byte("see http alpha beta z"))
	must(len(c.Match) == 1, fmt.Sprint(c))"""),
 needs="a license of two words directly after the word http", breaks="it is not reported"),
dict(id="C20-type-by-id", prop="C20",
 edits=[(S, "		c.Match = append(c.Match, Match{\n			ID:    l.ID,\n			Type:  l.Type,\n			Start: start,\n", "		for i := range s.licenses {\n			if s.licenses[i].ID == l.ID {\n				l = &s.licenses[i]\n				break\n			}\n		}\n		c.Match = append(c.Match, Match{\n			ID:    l.ID,\n			Type:  l.Type,\n			Start: start,\n")],
 demo=main(HEAD, """s := scanner(lc.License{ID: "A", Type: lc.Notice, LRE: "alpha beta"}, lc.License{ID: "A", Type: lc.Discouraged, LRE: "gamma delta"})
	c := s.Scan([]byte("gamma delta"))
	must(len(c.Match) == 1 && c.Match[0].Type == lc.Discouraged, fmt.Sprint(c))"""),
 needs="two patterns of one ID with different types", breaks="the type of the first is reported for both"),
]
