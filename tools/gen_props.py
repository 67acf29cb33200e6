#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the statements are easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Scan reports are in range, in order and disjoint",
 "For every scanner and every text, each reported match has 0 <= Start < End <= len(text), the matches are listed in increasing order, and no two matches share a byte of the text. Each match names the ID and Type of one of the licenses the scanner was built from, and is flagged as a URL match exactly when it was recognised through that license's URL.",
 ["inputs", "configurations"], "every text (any bytes) and every set of license patterns and URLs",
 "The tests scan ~380 fixed texts with one fixed license set and compare a few offsets; no test looks at two patterns where one begins with the words the other ends with, nor at arbitrary bytes.",
 ["scan.go", "internal/match/regexp.go", "internal/match/rematch.go"],
 [("leftmost, non-overlapping search loop", "internal/match/regexp.go (*MultiLRE).Match"), ("word to byte offset conversion", "scan.go (*Scanner).Scan")],
 ["Scanner.Scan result", "MultiLRE.Match result"])

prop("C02", "Coverage percentage is exactly the fraction of words matched",
 "For every scanner and text, Percent is 100 times the number of words of the text that lie inside reported matches divided by the number of words of the text, and is 0 when the text has no words. It therefore always lies between 0 and 100, is 100 exactly when every word is covered and 0 when nothing matched.",
 ["inputs", "configurations"], "every text and every license set, including texts with URL matches, copyright lines and unknown words",
 "Tests compare Percent with a tolerance of 0.1 on fixed files, which hides a word counted twice or dropped in long texts, and sample no combination of URL and license matches other than two.",
 ["scan.go"], [("total/words accounting", "scan.go (*Scanner).Scan")], ["Coverage.Percent"])

prop("C03", "Any license list and any text are handled without a crash",
 "Building a scanner from any list of licenses either returns an error or returns a scanner that is fully usable; it never panics (patterns so large that compiling them exhausts the memory, such as a wildcard of a billion words, are left out). Scanning any byte sequence (including invalid UTF-8, truncated markup and the empty text) with a scanner that was returned without error terminates without a panic. Turning the debugging variable match.TraceDFA on changes no result.",
 ["inputs", "configurations"], "every license list (including empty lists, URL-only lists, malformed patterns) and every byte string",
 "Tests use well-formed patterns and real license texts only; malformed markup, cut-off multi-byte characters and degenerate license lists are not sampled.",
 ["scan.go", "internal/match/dict.go", "internal/match/resyntax.go", "internal/match/regexp.go", "internal/match/rematch.go"],
 [("bounds checks in the text splitter and markup skippers", "internal/match/dict.go"), ("parser error returns", "internal/match/resyntax.go"), ("scanner initialisation", "scan.go (*Scanner).init")],
 ["NewScanner", "Scanner.Scan"])

prop("C04", "No false positive: a reported match really satisfies its pattern",
 "Whenever a non-URL match for a license is reported, the words of the reported section (after any leading copyright notice) can be aligned with the license's pattern: every required word is present in order, up to the documented spelling corrections, every alternative or optional part is one the pattern allows, and every wildcard covers at most its stated number of words. The first two words of the pattern must be present exactly, so spelling correction never starts a match.",
 ["inputs", "configurations"], "every text and every pattern built from words, alternation, optional groups and wildcards",
 "Tests only show that some true licenses are found; not reporting a license for all the texts that lack it is a statement about every text.",
 ["internal/match/rematch.go", "internal/match/regexp.go", "internal/match/resyntax.go"],
 [("pattern compilation to NFA and DFA", "internal/match/rematch.go"), ("match start filter", "internal/match/resyntax.go leadingPhrases"), ("DFA run with spelling correction", "internal/match/rematch.go reDFA.match")],
 ["Scanner.Scan", "MultiLRE.Match"])

prop("C05", "Every license text present is found: leftmost, longest, earliest pattern",
 "If a section of the text spells out, word for word, a text allowed by one of the patterns, then that section or one that starts earlier and covers its first word is reported. Among matches starting at the same word the longest is reported, and among equally long ones the pattern listed first wins.",
 ["inputs", "configurations"], "every list of patterns and every text; word-for-word instances (no spelling correction: no word of the text, those under a wildcard included, is a near-miss of a word expected there; wildcard text does not repeat the words that end the wildcard)",
 "Each test exercises one text per license with one fixed license order; whether a pattern hides another or a match is dropped after another one depends on all combinations.",
 ["internal/match/rematch.go", "internal/match/regexp.go", "internal/match/resyntax.go"],
 [("multi-pattern program and DFA construction", "internal/match/rematch.go reCompileMulti, dfaBuilder.add"), ("start phrase index", "internal/match/regexp.go NewMultiLRE"), ("lowest match value wins", "internal/match/rematch.go nfaState.match")],
 ["MultiLRE.Match", "Scanner.Scan"])

prop("C06", "Texts are split into normalised words exactly as documented",
 "Every text is split into its maximal runs of letters and digits (a run may continue with combining marks); case is folded, 'https' reads as 'http', '(c)', '©' and '&copy;' read as 'copyright' and adjacent copyright words count once, 'word(s)' reads as 'words', and are/them/they/these/this/those/copies read as their canonical partner; all other characters are ignored. The reported words are in text order, do not overlap, start and end at character boundaries and delimit exactly the source of the word, and a word unknown to the dictionary is reported as unknown without changing the dictionary.",
 ["inputs"], "every byte string, valid UTF-8 or not, against every dictionary",
 "About 60 sample strings are tested; interactions of the rules (for example at the end of the text, next to markup or between two rules) number far more.",
 ["internal/match/dict.go"], [("splitter", "internal/match/dict.go (*Dict).split"), ("rewrites", "internal/match/dict.go canonicalRewrites")],
 ["Dict.Split", "Dict.InsertSplit"])

prop("C07", "Matching ignores letter case and vowel accents for every character",
 "For every Unicode letter, all its case variants are treated as the same letter in patterns and in texts, and distinct letters that are not case or accent variants of each other stay distinct. Grave and acute accents on the vowels a, e, i, o, u are ignored, whether precomposed or written as a combining mark.",
 ["inputs"], "every Unicode code point and every pair of code points, upper or lower case, precomposed or combining",
 "The tests try 20 accented letters and ASCII; the claim ranges over 1.1 million code points and their case orbits.",
 ["internal/match/dict.go"], [("rune folding", "internal/match/dict.go foldRune, appendFoldRune")],
 ["Dict.Split word IDs", "Scanner.Scan"])

prop("C08", "HTML and Markdown markup is skipped exactly as documented",
 "A complete HTML tag (spanning at most three lines, and not an e-mail address or URL in angle brackets), a complete HTML entity, a Markdown heading anchor and a Markdown link target are ignored, so removing them from a text or inserting them between two words never changes the words found. Anything that merely resembles markup (unterminated, too many lines, empty, wrong first character) is read as ordinary text.",
 ["inputs"], "every byte string",
 "A dozen examples are tested; the recognisers are hand-written byte loops whose behaviour at the end of the text and for unusual characters is not sampled.",
 ["internal/match/dict.go"], [("htmlTagSize, htmlEntitySize, markdownAnchorSize, markdownLinkSize", "internal/match/dict.go")],
 ["Dict.Split", "Scanner.Scan"])

prop("C09", "The pattern parser accepts exactly the documented LRE grammar",
 "A pattern (not so large that compiling it exhausts the memory) is accepted exactly when its groups balance and every operator stands where the syntax allows it: '((' first on its line, '))' or '))??' last on its line, '||' only inside a group, '??' only after a group, wildcards with a valid count and comments closed. An accepted pattern means what the grammar says: comments vanish, '||' separates alternatives of the innermost group, '))??' makes exactly that group optional; a rejected one yields an error and never a scanner.",
 ["inputs"], "every pattern string",
 "Tests parse ten good and five bad strings; the parser is a hand-written stack machine whose states are reached only by particular token sequences.",
 ["internal/match/resyntax.go", "internal/match/regexp.go"], [("parser", "internal/match/resyntax.go reParse and reParser")],
 ["ParseLRE", "NewScanner error"])

prop("C10", "A wildcard __N__ stands for at most N words, and for any up to N",
 "In a pattern, __N__ matches any sequence of zero to N words and never more, for every N, and the words after it must then follow. A wildcard is only considered finished early when, in some reading, the three words that follow it in the pattern (or as many as follow before the pattern ends or the next wildcard begins) have been read; the words of an optional or alternative part holding the wildcard that was passed over count as read. In a pattern without groups a wildcard of more than three words is finished once they have been read.",
 ["inputs", "configurations"], "every wildcard size, every number of filler words, every position of the wildcard (including optional and alternative parts) and every text whose words need no spelling correction",
 "Tests fix a handful of patterns with N <= 10; boundary counts and cuts inside optional or alternative parts depend on the combination of pattern and text.",
 ["internal/match/rematch.go", "internal/match/resyntax.go"], [("wildcard compilation and cuts", "internal/match/rematch.go reCompile, nfaState.trim")],
 ["MultiLRE.Match", "Scanner.Scan"])

prop("C11", "Spelling correction accepts exactly the documented near-misses",
 "Inside a match an unexpected word is accepted for an expected one exactly when they differ by one byte inserted, deleted or changed and one of them has at least four bytes, or when two consecutive words join to the expected one, or when the word splits into the expected one and the one after it, or when 'c' and a copyright sign or word stand for each other. A word that is expected exactly as it stands is never corrected into another.",
 ["inputs", "configurations"], "every expected word and every pair of text words",
 "Tests use one six-letter word and two joins; the length limits and the byte comparison have many boundary cases.",
 ["internal/match/rematch.go"], [("canMisspell, canMisspellJoin and misspell split", "internal/match/rematch.go")],
 ["MultiLRE.Match", "Scanner.Scan"])

prop("C12", "Known license URLs are recognised, and only those",
 "A URL in a text begins with http:// or https://, has a host under .org or .com and one or more path elements of ASCII letters, digits and the characters - _ . # ? =, and is as long as can be. A URL in the unmatched part of a text is reported exactly when, ignoring letter case, the http or https scheme, one trailing slash and a trailing '/legalcode', it is a license URL known to the scanner (listed in the form urls.go documents: lower case, without scheme and trailing slash) or such a URL plus one more path element, the former taking precedence; the reported section is precisely the URL. Every built-in license URL is recognised in any mix of upper and lower case, and a URL that runs into a license match is not reported.",
 ["inputs", "configurations"], "every URL text, letter case and suffix, every license URL list, every position relative to license matches",
 "Six example URLs are tested out of about 150 built-in ones, each in one spelling.",
 ["scan.go", "urls.go"], [("URL scan", "scan.go urlScanRE and (*Scanner).Scan"), ("canonicalisation", "scan.go licenseURL"), ("URL table", "urls.go")],
 ["Coverage.Match with IsURL"])

prop("C13", "Matches extend over their copyright line and to line boundaries only",
 "A license match is extended backwards to the first 'copyright' word found within the 50 words before it that belong to no earlier match, and not at all if there is none. Its byte range then begins at the start of its first line when only ignored characters precede it there (else at its first word), covers the whole text at the two ends of the file, and ends after its last line under the same condition (else right after its last word).",
 ["inputs", "configurations"], "every distance between copyright word and match, every layout of ignored text and line breaks, every preceding match",
 "The 50-word limit and the interaction with an earlier match or URL are boundaries that the fixed test texts do not hit from both sides.",
 ["scan.go"], [("copyright search and offset adjustment", "scan.go (*Scanner).Scan")],
 ["Match.Start, Match.End"])

prop("C14", "Scanning is read-only, repeatable and safe to run concurrently",
 "Scanning never modifies the text passed in, the scanner, or any other shared data, apart from the one-time initialisation of the built-in scanner and data guarded by a lock or atomics, so a scan's result depends only on the scanner's licenses and the text. Any number of scans, one after another or at the same time, on one scanner give the same results as each would alone. Making scanners, which leaves the list passed in as it was, does not interfere with scanning or with each other either, and a scanner does not depend on that list after NewScanner has returned.",
 ["schedules", "histories", "inputs"], "every interleaving of concurrent scans, every sequence of scans, every text",
 "Tests run scans in parallel on one scanner but cannot cover interleavings, and do not compare a scan's result after other scans.",
 ["scan.go", "internal/match/dict.go", "internal/match/regexp.go", "internal/match/rematch.go"], [("read-only dictionary and DFA during matching", "internal/match"), ("sync.Once guarded initialisation", "scan.go")],
 ["memory written during Scan", "results of repeated scans"])

prop("C15", "The built-in license list is isolated and equals the built-in scanner",
 "BuiltinLicenses returns a fresh list on every call: changing the returned entries affects neither later calls nor scanning. Scanning with the package-level function gives for every text the result of a scanner built from BuiltinLicenses(), and every URL entry carries the Type of the license with the same ID, or Unknown when there is none.",
 ["histories", "inputs"], "every modification of the returned list, every later call, every text",
 "No test modifies the list or compares the two ways to scan.",
 ["scan.go", "license.go", "urls.go"], [("copying and type fill-in", "scan.go BuiltinLicenses"), ("lazy initialisation", "scan.go (*Scanner).Scan")],
 ["BuiltinLicenses", "Scan"])

prop("C16", "Patterns that could match almost anything are rejected, others accepted",
 "A pattern is rejected when it can match fewer than two words, or when some text it allows begins with a wildcard or has a wildcard as its second word; in that case no scanner is returned, whatever the other licenses are. Every syntactically valid pattern without these defects, and whose wildcards are followed by required text, is accepted.",
 ["inputs", "configurations"], "every pattern built from words, alternation, optional groups and wildcards, alone or in a list",
 "The tests check the set of leading phrases for thirteen patterns and never check that a bad pattern makes the constructor fail.",
 ["internal/match/regexp.go", "internal/match/resyntax.go", "internal/match/rematch.go"], [("leading phrase analysis", "internal/match/resyntax.go leadingPhrases"), ("validation", "internal/match/regexp.go NewMultiLRE")],
 ["NewScanner error"])

prop("C17", "License types survive conversion to text and back",
 "For every Type value, parsing the text of its String form succeeds and gives the same value; distinct values have distinct texts. Parsing any other string either returns the union of the types it names or an error, and never panics.",
 ["inputs"], "all 2^64 type values and every string",
 "The test samples 356 values out of 2^64 and no malformed string.",
 ["license.go"], [("Type.String and ParseType", "license.go")], ["Type.String", "ParseType"])

prop("C18", "Merging license types keeps the strictest requirement",
 "Merging two types gives Unknown if either is Unknown; otherwise it keeps the strictest of the five sharing levels present in either, keeps NonCommercial and Discouraged if either has them, and drops Unrestricted when NonCommercial is present. The result does not depend on the order of the two, merging a merged type again changes nothing, and merging several types made of the declared values gives the same result in every order.",
 ["inputs"], "all pairs and triples of combinations of the declared types",
 "Five pairs are tested out of 2^14.",
 ["license.go"], [("Type.Merge", "license.go")], ["Type.Merge"])

prop("C19", "The dictionary is a stable one-to-one map for any history of insertions",
 "After any sequence of insertions, every inserted word has exactly one index, which never changes, distinct words have distinct indexes, and the word list at that index is the word. Looking up a word that was never inserted reports it as unknown, lookups and splitting a text never add words, and a splitting that inserts adds exactly the normalised words of the text.",
 ["histories", "inputs"], "every sequence of Insert, Lookup, Split and InsertSplit calls and every word",
 "One sequence of six single-letter insertions is tested.",
 ["internal/match/dict.go"], [("Dict.Insert, Lookup, Words", "internal/match/dict.go")], ["Dict.Insert", "Dict.Lookup", "Dict.Words"],
 state=[("dict, list", "word to index map and its inverse", "internal/match/dict.go Dict")])

prop("C20", "A license's matches do not depend on unrelated licenses in the set",
 "If none of the patterns added to a set can match at any place of a text, and no word of the text is a near-miss of one of their words, adding them, in any position of the list, changes neither which licenses are reported for that text nor where. The ID and Type reported for a match are those of the pattern that matched, whatever its position in the list.",
 ["configurations", "inputs"], "every license set, every added pattern and position, every text",
 "All tests use one fixed license list.",
 ["internal/match/rematch.go", "internal/match/regexp.go", "scan.go"], [("program concatenation with match values", "internal/match/rematch.go reCompileMulti"), ("license index to license", "scan.go")],
 ["Scanner.Scan with different license lists"])

prop("C21", "The old checker reports well-formed coverage for every input",
 "For every list of licenses (with text, with URL, or both, in any order), every text and every option setting, the old checker's Cover returns without a panic, its matches are sorted, disjoint and inside the text, and each names the license whose words it matches. The overall percentage and that of each match lie between 0 and 100, every non-URL match reaches the threshold, and the boolean result tells whether there is any match. The overall percentage is exactly that of the words of the text that lie in a match of a license's text, or in a gap between such matches (or before the first, or after the last) that holds a license's URL.",
 ["inputs", "configurations"], "every license list, text and option value",
 "The tests of the old package cannot even be compiled in this tree, so nothing is exercised.",
 ["old/license.go", "old/normalize.go", "old/urls.go"], [("Checker.Cover and submatches", "old/license.go"), ("index construction", "old/license.go New, updateIndex")],
 ["Checker.Cover"])

prop("C22", "The old checker's normalised text stays aligned with the original",
 "Normalising any text for the old checker keeps its length, so that every recorded word offset is the offset of that word in the original text, words are maximal runs of letters in increasing order, list markers and punctuation are dropped, and a blank is recorded for each '___'. Two texts differing only in letter case of ASCII letters are covered identically.",
 ["inputs"], "every byte string",
 "The old package's tests do not compile in this tree; the length-preserving conversion depends on every character's encoded size.",
 ["old/normalize.go"], [("toLower, normalize", "old/normalize.go")], ["Checker.Cover offsets"])

prop("C23", "The built-in data is exactly what the license files generate",
 "Regenerating the built-in license table from the license files in the repository reproduces the committed table, so that every license file is recognised under its name and with its declared type.",
 ["configurations"], "every license file in the repository",
 "No test compares the generated file with its sources.",
 ["gen_data.go", "data.gen.go", "licenses/"], [("generator", "gen_data.go")], ["data.gen.go"])

prop("C24", "The old checker finds a license whose text is there",
 "A license whose words stand in the text, with at least MinLength of them (10 if it is not positive, and never less than two), is reported with exactly the extent of those words and, since every word is there, at 100 percent, wherever it stands and whatever surrounds it, once per occurrence; if other licenses share some of the words, the one with all of its words is reported whatever the order of the list. If foreign words split it in two parts of that length, the two are one match when no more than Slop foreign words (8 if not positive) stand between them and two matches otherwise, each with the fraction of the license's words it has; a part shorter than that is not counted. A blank, ___, in the license may be filled by up to 70 words, also when the part before it is too short to be a match of its own. Matches whose fraction is below Threshold percent (40 if not positive) are left out.",
 ["inputs", "configurations"], "every license with or without a blank, every surrounding text, number of foreign words, and value of MinLength, Threshold and Slop",
 "The old package's tests do not compile in this tree; and the limits on gaps, blanks, lengths and percentages meet in combinations that fixed files do not sample.",
 ["old/license.go"], [("submatches: runs, slop and blanks", "old/license.go submatches"), ("choice among overlapping matches", "old/license.go Cover")],
 ["Checker.Cover"])

prop("C25", "The old checker reports the license URLs between the license texts",
 "In the parts of a text that match no license, and that have at least three words, every http or https URL that is a license's URL is reported (letter case, the scheme, a final slash, a final /legalcode and one more path element aside) and no other URL is; the match names the license of the URL, at 100 percent, and covers the words of the URL (from the start of the text or up to its end when no word precedes or follows). The type of a match is the one whose name is a prefix of the license's name. Of a URL that ends in full stops or the like right before the text of a license, the end may be left out.",
 ["inputs", "configurations"], "every text and every list of licenses with URLs",
 "The old package's tests do not compile in this tree; which URLs are accepted depends on an expression over all byte sequences.",
 ["old/license.go", "old/urls.go"], [("findURLsBetween, licenseURL", "old/license.go"), ("licenseType", "old/license.go")],
 ["Checker.Cover"])

prop("C26", "Sections far apart are scanned independently",
 "If two sections of a text stand on lines of their own and have more foreign words between them than any wildcard of the patterns allows, at least 51 (the reach of a copyright notice), and the first leaves no markup open, then the matches of the text are those of the first section followed by that separator, and after them, moved by its length, those of the separator followed by the second section: nothing is lost, added or changed by what stands far before or behind a section.",
 ["inputs", "configurations"], "every pair of sections and every license set",
 "The tests scan whole files and compare with lists of matches written down once; that the scan carries nothing over from one part of a long text to another is a statement about all pairs.",
 ["scan.go", "internal/match/regexp.go", "internal/match/rematch.go"],
 [("search loop, copyright and URL gaps", "scan.go (*Scanner).Scan"), ("restart after a match", "internal/match/regexp.go (*MultiLRE).Match")],
 ["Scanner.Scan"])

prop("C27", "The old checker is read-only, repeatable and safe to run concurrently",
 "The old checker's Cover modifies neither the text nor the checker nor any other shared data (apart from data guarded by a lock or atomics), so its result depends only on the checker's licenses, the text and the options: any number of calls on one checker, one after another or at the same time, with whatever texts and options, give the same results as each would alone. A checker does not depend on the list it was made from after New has returned, and New leaves the list as it was.",
 ["inputs", "schedules", "histories"], "every pair of texts and options, every history of calls, every interleaving of concurrent calls",
 "The old package's tests do not even build here, and they make one call after another with one set of options; interference needs two particular texts or a particular interleaving.",
 ["old/license.go", "old/normalize.go"],
 [("dictionary shared by all calls", "old/normalize.go (*Checker).normalize"), ("matches and options", "old/license.go (*Checker).Cover, submatches")],
 ["old.Checker.Cover", "old.New"])

prop("C28", "Layout, punctuation and letter case do not change what is found",
 "For licenses with patterns, two texts with the same words have the same matches, covering the same words, and the same Percent, however the words are laid out: with single blanks between them, or with any mixture of blanks, line ends, comment signs, punctuation and control characters (ASCII, other than the characters that open markup or parentheses, and not inside an http or https URL; or characters beyond ASCII that are neither letters, digits, combining marks nor the copyright sign), and with each ASCII letter in upper or lower case. No match begins or ends inside a word.",
 ["inputs"], "every sequence of words, all characters between them, and the case of each letter",
 "The license files in testdata each have one layout; that a license is recognised whether it is wrapped, indented, commented out, quoted or set in capitals is a statement about all layouts of all texts.",
 ["internal/match/dict.go", "internal/match/regexp.go", "internal/match/rematch.go", "scan.go"],
 [("splitting and folding", "internal/match/dict.go (*Dict).split"), ("spelling correction on the text", "internal/match/rematch.go (reDFA).match"), ("line extension", "scan.go (*Scanner).Scan")],
 ["Scanner.Scan"])

prop("C29", "A match stands by itself",
 "The section reported for a match is found when it is scanned alone: there is then exactly one match, of the same license, type and kind (URL or text), covering the whole section, and Percent is 100. Likewise for the words of a match given to the matcher by themselves, or between words that no pattern has. (A section whose last line ends within an HTML tag is excepted.)",
 ["inputs"], "every text and list of licenses",
 "Callers cut the reported section out of a file and keep it as the license's text; the tests compare Start and End with recorded numbers for a fixed set of files and never scan a section again. That what was found does not depend on what stood around it is a statement about all texts.",
 ["scan.go", "internal/match/rematch.go", "internal/match/regexp.go"],
 [("section of a match", "scan.go (*Scanner).Scan"), ("extent of a match", "internal/match/rematch.go (reDFA).match"), ("search", "internal/match/regexp.go (*MultiLRE).Match")],
 ["Scanner.Scan"])

prop("C30", "Errors say which license is defective, and where",
 "When NewScanner refuses a list because of its patterns, the error's text names the ID of a license whose pattern is defective, and the ID of none that is without defect. When ParseLRE refuses a pattern that is not well-formed, the error is a *SyntaxError that has the file name given and a reason, and whose text has both; its Offset is the place of an operator of the pattern or its end, what precedes it is the beginning of a well-formed pattern, and its Context is the text right before the place.",
 ["inputs"], "every list of licenses and every pattern",
 "The tests compare the messages of a few short patterns; that a mistake in a list of hundreds of long patterns is reported where it is, under the right name, is a statement about all patterns and positions in the list.",
 ["internal/match/resyntax.go", "internal/match/regexp.go", "scan.go"],
 [("syntax errors", "internal/match/resyntax.go reParse, reSyntaxError"), ("patterns that match too much", "internal/match/regexp.go NewMultiLRE"), ("building", "scan.go (*Scanner).init")],
 ["NewScanner", "match.ParseLRE", "match.NewMultiLRE"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in P: jsonschema.validate(p, s)
    print("valid", len(P))
except ImportError: print("written", len(P))
