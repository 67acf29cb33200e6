import os, runpy
globals().update(runpy.run_path(os.path.join(os.path.dirname(__file__), "common.py")))
S, D, X, Y, R, L, U = "scan.go", "internal/match/dict.go", "internal/match/rematch.go", "internal/match/resyntax.go", "internal/match/regexp.go", "license.go", "urls.go"
OL, ON = "old/license.go", "old/normalize.go"
def cover(lics, text, opts):
    return 'c, _ := old.New([]old.License{%s}).Cover([]byte("%s"), old.Options{%s})\n' % (lics, text, opts)
def lic(name, text): return '{Name: "%s", Text: "%s"}' % (name, text)
ABC = "alpha beta gamma delta epsilon zeta"
def main(body): return OHEAD + "func main() {\n\t" + body + "\n}\n"
SEEDS = [
dict(id="C24-slop-edge", prop="C24",
 edits=[(OL, "if prev.end+textGap >= start && matchLicenseStart >= prev.licenseEnd {", "if prev.end+textGap > start && matchLicenseStart >= prev.licenseEnd {")],
 demo=main(cover(lic("A", ABC), "alpha beta gamma z z delta epsilon zeta", "MinLength: 3, Slop: 2")+'must(len(c.Match) == 1 && c.Match[0].Percent == 100, fmt.Sprint(c))'),
 needs="exactly Slop foreign words in the middle", breaks="the license is reported as two parts"),
dict(id="C24-blank-back-slop", prop="C24",
 edits=[(OL, "				min := start - blankMax\n", "				min := start - textGapMax(opts, matchLength, blankMax)\n"),
        (OL, "func makeMatch(l *license, s submatch) Match {", "// textGapMax is the number of words a blank may stand for.\nfunc textGapMax(opts Options, n, max int) int {\n	if n < 20 && max > 5*opts.Slop {\n		return 5 * opts.Slop\n	}\n	return max\n}\n\nfunc makeMatch(l *license, s submatch) Match {")],
 demo=main(cover(lic("A", "alpha ___ gamma delta epsilon zeta"), "alpha z z z z z z z gamma delta epsilon zeta", "MinLength: 3, Slop: 1, Threshold: 100")+'must(len(c.Match) == 1, fmt.Sprint(c))'),
 needs="a blank right after a short beginning, filled by more than 5*Slop words, and a short license", breaks="the beginning is not found"),
dict(id="C24-blank-run", prop="C24",
 edits=[(OL, "						matchLength += 2\n", "						matchLength++\n")],
 demo=main(cover(lic("A", "alpha ___ gamma delta epsilon zeta"), "alpha z gamma delta epsilon zeta", "MinLength: 3")+'must(len(c.Match) == 1 && c.Match[0].Percent == 100, fmt.Sprint(c))'),
 needs="a blank right after a short beginning", breaks="the blank does not count as matched"),
dict(id="C24-longest-start", prop="C24",
 edits=[(OL, "				if j-k > matchLength {\n", "				if matchLength < opts.MinLength {\n")],
 demo=main(cover(lic("A", "alpha beta gamma zeta alpha beta gamma delta"), "z alpha beta gamma delta z", "MinLength: 3, Threshold: 45")+'must(len(c.Match) == 1 && c.Match[0].Percent == 50, fmt.Sprint(c))'),
 needs="a license with the same long phrase twice, continued differently", breaks="the first place of the phrase is taken although the second one goes on longer"),
dict(id="C24-join-adjacent", prop="C24",
 edits=[(OL, "if prev.end+textGap >= start && matchLicenseStart >= prev.licenseEnd {", "if prev.end+textGap >= start && matchLicenseStart > prev.licenseEnd-1+len(p)%len(text) {")],
 demo=main(cover(lic("A", "alpha beta gamma delta"), "alpha beta z gamma delta", "MinLength: 2, Slop: 2")+'must(len(c.Match) == 1 && c.Match[0].Percent == 100, fmt.Sprint(c))'),
 needs="two parts of a license with no license word missing between them", breaks="they are not joined"),
dict(id="C24-second-copy", prop="C24",
 edits=[(OL, "if i := byLicense[licenseID]; i >= 0 && k < matches[i].end {", "if i := byLicense[licenseID]; i >= 0 && k < matches[i].end+len(p)-1 && matches[i].licenseEnd == len(c.licenses[licenseID].doc.words) {")],
 demo=main(cover(lic("A", ABC), ABC+" "+ABC, "MinLength: 6")+'must(len(c.Match) == 2 && c.Percent == 100, fmt.Sprint(c))'),
 needs="a complete license followed by itself at once", breaks="the second copy lacks its first word, and with it may be too short"),
dict(id="C24-winnow-span", prop="C24",
 edits=[(OL, "		miWords := mi.Percent * float64(mi.End-mi.Start)\n", "		miWords := mi.Percent * float64(mi.End-mi.Start-1)\n")],
 demo=main(cover(lic("A", "alpha beta gamma delta epsilon")+", "+lic("B", "beta gamma delta"), "alpha beta gamma delta epsilon", "MinLength: 2")+'must(len(c.Match) == 1 && c.Match[0].Name == "A", fmt.Sprint(c))\n	'+
   cover(lic("A", "alpha beta gamma delta")+", "+lic("B", "alpha beta gamma zeta eta"), "alpha beta gamma delta", "MinLength: 2, Threshold: 10").replace("c, _ :=", "c, _ =")+'must(len(c.Match) == 1 && c.Match[0].Name == "A", fmt.Sprint(c))\n	'+
   cover(lic("B", "alpha beta gamma zeta")+", "+lic("A", "alpha beta gamma zeta delta"), "alpha beta gamma zeta delta", "MinLength: 2, Threshold: 10").replace("c, _ :=", "c, _ =")+'must(len(c.Match) == 1 && c.Match[0].Name == "A", fmt.Sprint(c))\n	'+
   cover(lic("A", "alpha beta gamma")+", "+lic("B", "alpha beta gamma delta"), "alpha beta gamma", "MinLength: 2, Threshold: 10").replace("c, _ :=", "c, _ =")+'must(len(c.Match) == 1 && c.Match[0].Name == "A", fmt.Sprint(c))'),
 needs="a license that is the beginning of another one, listed first", breaks="the match with fewer of its words is reported"),
dict(id="C24-threshold-edge", prop="C24",
 edits=[(OL, "		if matches[i].Percent < threshold {", "		if matches[i].Percent <= threshold && threshold < 100 {")],
 demo=main(cover(lic("A", "alpha beta gamma delta"), "z alpha beta z", "MinLength: 2, Threshold: 50")+'must(len(c.Match) == 1, fmt.Sprint(c))'),
 needs="a match whose percentage is the threshold", breaks="it is left out"),
dict(id="C25-slash-order", prop="C25",
 edits=[(OL, "	url = strings.TrimSuffix(url, \"/\")\n	url = strings.TrimSuffix(url, \"/legalcode\") // Common for CC licenses.\n", "	url = strings.TrimSuffix(url, \"/legalcode\") // Common for CC licenses.\n	url = strings.TrimSuffix(url, \"/\")\n")],
 demo=main('c, _ := old.New([]old.License{{Name: "A", URL: "x.org/l/m"}}).Cover([]byte("z http://x.org/l/m/n/legalcode/ z"), old.Options{})\nmust(len(c.Match) == 1, fmt.Sprint(c))'),
 needs="a URL with one more path element and a /legalcode/ with a slash", breaks="it is not recognised"),
dict(id="C25-gap-short", prop="C25",
 edits=[(OL, "		if endWord < startWord+3 {\n", "		if endWord <= startWord+3 {\n")],
 demo=main('c, _ := old.New([]old.License{{Name: "A", URL: "x.org/9"}}).Cover([]byte("http://x.org/9"), old.Options{})\nmust(len(c.Match) == 1, fmt.Sprint(c))'),
 needs="a URL of three words alone between two licenses", breaks="it is not recognised"),
dict(id="C25-type-order", prop="C25",
 edits=[(OL, "		if strings.HasPrefix(name, l.String()) {", "		if strings.Contains(name, l.String()) && (strings.HasPrefix(name, l.String()) || strings.Contains(name, \"-\")) {")],
 demo=main('c, _ := old.New([]old.License{{Name: "OSI-BSD", URL: "x.org/l"}}).Cover([]byte("http://x.org/l z"), old.Options{})\nmust(len(c.Match) == 1 && c.Match[0].Type == old.Other, fmt.Sprint(c))'),
 needs="a name with a dash that has the name of a type later on", breaks="the license gets that type"),
dict(id="C25-path-root", prop="C25",
 edits=[(OL, "		if name, ok = c.urls[url[:i]]; ok {\n", "		if name, ok = c.urls[url[:i]]; ok && len(url) > i+2 {\n")],
 demo=main('c, _ := old.New([]old.License{{Name: "A", URL: "x.org/l"}}).Cover([]byte("http://x.org/l/m z"), old.Options{})\nmust(len(c.Match) == 1, fmt.Sprint(c))'),
 needs="a further path element of one character", breaks="the URL is not recognised"),
dict(id="C25-gap-start", prop="C25",
 edits=[(OL, "			nextStartWord = matches[i].End\n", "			nextStartWord = matches[i].End\n			if i+1 < len(matches) && matches[i+1].Start > nextStartWord {\n				nextStartWord++ // punctuation after the match\n			}\n")],
 demo=main('c, _ := old.New([]old.License{{Name: "A", URL: "x.org/l"}, {Name: "B", Text: "alpha beta gamma"}}).Cover([]byte("alpha beta gamma http://x.org/l alpha beta gamma"), old.Options{MinLength: 2})\nmust(len(c.Match) == 3, fmt.Sprint(c))'),
 needs="a URL between two licenses, right after the first", breaks="it is not recognised"),
dict(id="C21-url-share", prop="C21",
 edits=[(OL, "	return (m.Start + prev.End) / 2\n", "	return (m.Start+prev.End)/2 + (m.Start-prev.End)%2\n")],
 demo=main('c, _ := old.New([]old.License{{Name: "A", URL: "x.org/l"}}).Cover([]byte("http://x.org/l z http://x.org/l"), old.Options{})\nmust(c.Percent == 100, fmt.Sprint(c))'),
 needs="two URLs with an odd number of words between them", breaks="one word less is counted as covered"),
dict(id="C26-url-window", prop="C26",
 edits=[(S, "		for i := lastEnd; i < m.Start; i++ {\n", "		from := lastEnd\n		if m.ID >= 0 && m.Start-from > 5*maxCopyrightWords {\n			from = m.Start - 5*maxCopyrightWords\n		}\n		for i := from; i < m.Start; i++ {\n")],
 demo=HEAD+'''func main() {
	s, err := lc.NewScanner([]lc.License{{ID: "A", LRE: "a b"}, {ID: "U", URL: "x.org/l"}})
	must(err == nil, "list refused")
	far := ""
	for i := 0; i < 260; i++ {
		far += "q "
	}
	must(len(s.Scan([]byte("http://x.org/l "+far+"a b")).Match) == 2, "URL lost")
}
''', needs="a URL more than 250 words before a license", breaks="it is not reported"),
dict(id="C26-seen", prop="C26",
 edits=[(R, "			if match >= 0 && end > 0 {", "			if match >= 0 && end > 0 && !(len(m.List) > 2 && m.List[len(m.List)-3].ID == int(match)) {")],
 demo=HEAD+'''func main() {
	s, err := lc.NewScanner([]lc.License{{ID: "A", LRE: "a b"}, {ID: "B", LRE: "d e"}, {ID: "C", LRE: "f g"}})
	must(err == nil, "list refused")
	must(len(s.Scan([]byte("a b q d e q f g q a b")).Match) == 4, "match lost")
}
''', needs="a license that is there again as the third one after it", breaks="it is not reported"),
]
