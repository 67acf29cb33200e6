From 02ed62522bc3cfd4b20b45141ffc15a41f5aeed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:40 +0000
Subject: [PATCH 01/14] fix: match: do not start a match on the last word of
 the previous one

Match cleared the wrong half of the phrase, so a match could begin on the
last word of the match before it and the two overlapped.
---
 internal/match/regexp.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/match/regexp.go b/internal/match/regexp.go
index 3ce2189..435d802 100644
--- a/internal/match/regexp.go
+++ b/internal/match/regexp.go
@@ -205,7 +205,8 @@ func (re *MultiLRE) Match(text string) *Matches {
 
 				// Continue search at end of match.
 				i = end - 1 // loop will i++
-				p[0] = BadWord
+				// None of its words can start another match.
+				p[1] = BadWord
 				continue
 			}
 		}
-- 
2.43.0


From 9a50d051654250db53d96af1dc993fc65e154c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:40 +0000
Subject: [PATCH 02/14] fix: NewScanner: report an error when no license has a
 pattern

NewMultiLRE returns a non-nil MultiLRE without a dictionary for an empty
list, so the existing check did not fire and Scan panicked.
---
 scan.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scan.go b/scan.go
index 108e12a..fb28c06 100644
--- a/scan.go
+++ b/scan.go
@@ -82,6 +82,9 @@ func (s *Scanner) init(licenses []License) error {
 			list = append(list, re)
 		}
 	}
+	if len(list) == 0 {
+		return errors.New("missing lre")
+	}
 	re, err := match.NewMultiLRE(list)
 	if err != nil {
 		return err
-- 
2.43.0


From e5a54815c813b8fd4d37c46a2616ec09ed08685d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:40 +0000
Subject: [PATCH 03/14] fix: recognise license URLs whose scheme or /legalcode
 is not in lower case

The URL pattern is case-insensitive, but the scheme and the suffix were
trimmed before lower-casing.
---
 scan.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scan.go b/scan.go
index fb28c06..786c892 100644
--- a/scan.go
+++ b/scan.go
@@ -228,13 +228,13 @@ func (s *Scanner) Scan(text []byte) Coverage {
 // licenseURL reports whether url is a known URL, and returns its name if it is.
 func (s *Scanner) licenseURL(url string) (License, bool) {
 	// We need to canonicalize the text for lookup.
-	// First, trim the leading http:// or https:// and the trailing /.
-	// Then we lower-case it.
+	// First, lower-case it.
+	// Then we trim the leading http:// or https:// and the trailing /.
+	url = strings.ToLower(url)
 	url = strings.TrimPrefix(url, "http://")
 	url = strings.TrimPrefix(url, "https://")
 	url = strings.TrimSuffix(url, "/")
 	url = strings.TrimSuffix(url, "/legalcode") // Common for CC licenses.
-	url = strings.ToLower(url)
 	l, ok := s.urls[url]
 	if ok {
 		return l, true
-- 
2.43.0


From c45645713e52d4616744f00c89f3b620f07f1f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:40 +0000
Subject: [PATCH 04/14] fix: match: accept &copy; where the pattern has a plain
 c
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

split reads &copy; as copyright, like ©, but canMisspell sees the source text.
---
 internal/match/rematch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/match/rematch.go b/internal/match/rematch.go
index 3dca29c..ef03abf 100644
--- a/internal/match/rematch.go
+++ b/internal/match/rematch.go
@@ -987,7 +987,7 @@ func canMisspell(want, have string) bool {
 	//
 	// The want string has been canonicalized, so it must be "c" or "copyright" (not "©"),
 	// but the have string has only been folded, so it can be any of the three.
-	if (want == "c" || want == "copyright") && (have == "c" || have == "copyright" || have == "©") {
+	if (want == "c" || want == "copyright") && (have == "c" || have == "copyright" || have == "©" || have == "&copy;") {
 		return true
 	}
 
-- 
2.43.0


From af39713fe81234359b85d00619adc6ccedd457d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:40 +0000
Subject: [PATCH 05/14] fix: match: reject wildcard counts that do not fit

The count was truncated to 32 bits, so __4294967297__ meant __1__.
---
 internal/match/resyntax.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/match/resyntax.go b/internal/match/resyntax.go
index a5d6820..0d1d675 100644
--- a/internal/match/resyntax.go
+++ b/internal/match/resyntax.go
@@ -269,7 +269,7 @@ func reParse(d *Dict, s string, strict bool) (*reSyntax, error) {
 				i++
 				continue
 			}
-			n, err := strconv.Atoi(s[i+2 : j])
+			n, err := strconv.ParseInt(s[i+2:j], 10, 32)
 			if err != nil {
 				return nil, reSyntaxError(s, i, errors.New("invalid wildcard count "+s[i:j+2]))
 			}
-- 
2.43.0


From 41d5dc712fa27839c78f96b04b9d2a477d628603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:40 +0000
Subject: [PATCH 06/14] fix: old: index licenses by their place among those
 with text

With a URL-only license earlier in the list the index pointed at the wrong
license or past the end.
---
 old/license.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/old/license.go b/old/license.go
index c53e53e..8ab6a93 100644
--- a/old/license.go
+++ b/old/license.go
@@ -101,7 +101,7 @@ func New(licenses []License) *Checker {
 		dict:     make(map[string]int32),
 		index:    make(map[phrase][]indexEntry),
 	}
-	for id, l := range licenses {
+	for _, l := range licenses {
 		if l.Text != "" {
 			next := len(c.licenses)
 			c.licenses = c.licenses[:next+1]
@@ -110,7 +110,7 @@ func New(licenses []License) *Checker {
 			cl.typ = licenseType(cl.name)
 			cl.text = l.Text
 			cl.doc = c.normalize([]byte(cl.text), true)
-			c.updateIndex(int32(id), cl.doc.words)
+			c.updateIndex(int32(next), cl.doc.words)
 		}
 		if l.URL != "" {
 			c.urls[l.URL] = l.Name
-- 
2.43.0


From 1ee049246981f32926e7ccc1ed1afaef50bbb548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:40 +0000
Subject: [PATCH 07/14] fix: match: fold all case variants of a letter to the
 same rune
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The loop stopped at the first local minimum, so letters with three or more
case variants (such as k, s, å, θ, σ) folded to different runes.
---
 internal/match/dict.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/internal/match/dict.go b/internal/match/dict.go
index fa38505..fa8727b 100644
--- a/internal/match/dict.go
+++ b/internal/match/dict.go
@@ -223,15 +223,15 @@ func (d *Dict) split(text string, insert bool) []Word {
 // but that will require more thought about exactly what to do
 // and doing it efficiently. For now, the accents are enough.
 func foldRune(r rune) rune {
-	// Iterate SimpleFold until we hit the min equivalent rune,
+	// Iterate SimpleFold over all the equivalent runes to find the min,
 	// which - for the ones we care about - is the upper case ASCII rune.
-	for {
-		r1 := unicode.SimpleFold(r)
-		if r1 >= r {
-			break
+	min := r
+	for r1 := unicode.SimpleFold(r); r1 != r; r1 = unicode.SimpleFold(r1) {
+		if min > r1 {
+			min = r1
 		}
-		r = r1
 	}
+	r = min
 
 	switch r {
 	case 'Á', 'À':
-- 
2.43.0


From 86d68459ecce2133309f0be6b1a695f3dcfbb1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:40 +0000
Subject: [PATCH 08/14] fix: match: drop combining grave and acute accents as
 documented

---
 internal/match/dict.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/match/dict.go b/internal/match/dict.go
index fa8727b..258953f 100644
--- a/internal/match/dict.go
+++ b/internal/match/dict.go
@@ -234,6 +234,8 @@ func foldRune(r rune) rune {
 	r = min
 
 	switch r {
+	case '\u0300', '\u0301':
+		return -1
 	case 'Á', 'À':
 		return 'a'
 	case 'É', 'È':
-- 
2.43.0


From c0d04f474f74806e7880761f9f41a964ed0d3cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:47 +0000
Subject: [PATCH 09/14] fix: match: do not end a match inside a word that was
 split by spelling correction

When a word is read as two expected words joined together and a pattern
can end after the first of them, the match was recorded as ending before
the word, so a required word was reported as matched without being there.
---
 internal/match/rematch.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/match/rematch.go b/internal/match/rematch.go
index ef03abf..d365671 100644
--- a/internal/match/rematch.go
+++ b/internal/match/rematch.go
@@ -884,9 +884,12 @@ Words:
 				if next2 >= 0 {
 					// Successfully split have into two words
 					// to drive the DFA forward two steps.
-					if m2 >= 0 {
+					// If a match could end between the two,
+					// the whole of have must be a misspelling of want,
+					// since the match cannot end inside a word.
+					if m2 >= 0 && canMisspell(want, have) {
 						match = m2
-						end = i
+						end = i + 1
 					}
 					off = next2
 					continue Words
-- 
2.43.0


From 6a37d0d1cab9bff1654069332dddb448dc45722f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:52 +0000
Subject: [PATCH 10/14] fix: match: do not cut off a wildcard before any word
 has followed it

A wildcard directly followed by another wildcard, or by an optional part
beginning with one, was cut off immediately instead of three literal
words later, so that it could not stand for any words.
---
 internal/match/rematch.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/internal/match/rematch.go b/internal/match/rematch.go
index d365671..0891299 100644
--- a/internal/match/rematch.go
+++ b/internal/match/rematch.go
@@ -263,6 +263,10 @@ type reCompile struct {
 	err        error // first problem found; report delayed until end of compile
 }
 
+// cutTrigger is the number of literal word matches after a wildcard
+// that cut it off.
+const cutTrigger = 3
+
 // reCut holds the information about a pending cut.
 type reCut struct {
 	start   int // cut off the alt at pc = start
@@ -357,7 +361,18 @@ func (c *reCompile) compile(re *reSyntax) {
 		//	(.(.(.(.)?)?)?)?
 		// This results in smaller NFA state lists (max 2 states)
 		// than compiling like .?.?.?.? (max re.n states).
-		c.compileCuts()
+		//
+		// Finish the earlier wildcards, except those that no literal word
+		// has followed yet: cutting those here would leave them no words at all.
+		var pending []reCut
+		for _, cut := range c.cut {
+			if cut.trigger == cutTrigger {
+				pending = append(pending, cut)
+			} else {
+				c.compileCut(cut)
+			}
+		}
+		c.cut = pending
 		if c.endPattern && c.err == nil {
 			c.err = fmt.Errorf("__%d__ wildcard with no required text following", re.n)
 		}
@@ -368,7 +383,7 @@ func (c *reCompile) compile(re *reSyntax) {
 			c.prog = append(c.prog, reInst{op: instAny})
 		}
 		if re.n > 3 {
-			c.cut = []reCut{{start: start, trigger: 3}}
+			c.cut = append(c.cut, reCut{start: start, trigger: cutTrigger})
 		}
 	}
 }
-- 
2.43.0


From 52276bd542726196a2682ac562670418054df6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:50 +0000
Subject: [PATCH 11/14] fix: old: count a blank of a license only once, and
 only if there is one

A blank was counted as matched although the text had matched it literally,
or when there was none and Slop had the value of blankMax (70), so that
the percentage of a match could exceed 100.
---
 old/license.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/old/license.go b/old/license.go
index 8ab6a93..1463964 100644
--- a/old/license.go
+++ b/old/license.go
@@ -574,11 +574,12 @@ func (c *Checker) submatches(text []int32, opts Options) []submatch {
 			if i := byLicense[licenseID]; i >= 0 {
 				prev := &matches[i]
 				textGap := opts.Slop
-				if prev.licenseEnd < len(l.doc.words) && l.doc.words[prev.licenseEnd] == blankID {
+				blank := prev.licenseEnd < len(l.doc.words) && l.doc.words[prev.licenseEnd] == blankID
+				if blank {
 					textGap = blankMax
 				}
 				if prev.end+textGap >= start && matchLicenseStart >= prev.licenseEnd {
-					if textGap == blankMax {
+					if blank && matchLicenseStart > prev.licenseEnd {
 						prev.matched++ // matched the blank
 					}
 					prev.end = end
-- 
2.43.0


From 29f80567acc38e326df50f4c6a6a30d949a11f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:50 +0000
Subject: [PATCH 12/14] fix: old: ignore letter case in the scheme and ending
 of license URLs

---
 old/license.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/old/license.go b/old/license.go
index 1463964..5a033b7 100644
--- a/old/license.go
+++ b/old/license.go
@@ -386,13 +386,13 @@ func (doc *document) findURLsBetween(c *Checker, matches []Match) []Match {
 // licenseURL reports whether url is a known URL, and returns its name if it is.
 func (c *Checker) licenseURL(url string) (string, bool) {
 	// We need to canonicalize the text for lookup.
-	// First, trim the leading http:// or https:// and the trailing /.
-	// Then we lower-case it.
+	// First, lower-case it.
+	// Then we trim the leading http:// or https:// and the trailing /.
+	url = strings.ToLower(url)
 	url = strings.TrimPrefix(url, "http://")
 	url = strings.TrimPrefix(url, "https://")
 	url = strings.TrimSuffix(url, "/")
 	url = strings.TrimSuffix(url, "/legalcode") // Common for CC licenses.
-	url = strings.ToLower(url)
 	name, ok := c.urls[url]
 	if ok {
 		return name, true
-- 
2.43.0


From 576b951eed4a8945f4c3ef79b2fb349bfd3bd8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:32 +0000
Subject: [PATCH 13/14] fix: old: end of a match whose last word is a blank

The end of the last word of a match was taken to be the beginning of the
word if that word is a blank, ___, in the text.
---
 old/license.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/old/license.go b/old/license.go
index 5a033b7..0b8a16c 100644
--- a/old/license.go
+++ b/old/license.go
@@ -302,9 +302,13 @@ func (doc *document) endWordToEndByte(c *Checker, end int) int {
 		return int(doc.byteOff[end-1]) + len(c.words[doc.words[end-1]])
 	}
 
+	pos := int(doc.byteOff[end-1])
+	if doc.words[end-1] == blankID {
+		return pos + len("___")
+	}
+
 	// Unknown word in document, not added to dictionary.
 	// Look in text to find out how long it is.
-	pos := int(doc.byteOff[end-1])
 	for pos < len(doc.text) {
 		r, wid := utf8.DecodeRune(doc.text[pos:])
 		if !isWordChar(r) {
-- 
2.43.0


From 886e54e6c182255750c9e21262bf83d774b5fbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:40 +0000
Subject: [PATCH 14/14] fix: ParseLRE: name the file in syntax errors, as
 documented

---
 internal/match/regexp.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/match/regexp.go b/internal/match/regexp.go
index 435d802..60645e6 100644
--- a/internal/match/regexp.go
+++ b/internal/match/regexp.go
@@ -62,6 +62,9 @@ type LRE struct {
 func ParseLRE(d *Dict, file, s string) (*LRE, error) {
 	syntax, err := reParse(d, s, true)
 	if err != nil {
+		if e, ok := err.(*SyntaxError); ok {
+			e.File = file
+		}
 		return nil, err
 	}
 	prog, err := syntax.compile(nil, 0)
-- 
2.43.0

