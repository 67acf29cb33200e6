// Package hsplit holds the harnesses for word splitting (C06, C07, C08).
package hsplit

import (
	"unicode/utf8"

	"github.com/google/licensecheck/internal/match"
	"github.com/google/licensecheck/internal/verif/ref"
	"github.com/google/licensecheck/internal/verif/sym"
)

// compare checks InsertSplit and Split of text against the reference.
func compare(text string) {
	sym.Observe("text", text)
	want := ref.Split(text)
	d := new(match.Dict)
	d.Insert("copyright")
	got := d.InsertSplit(text)
	sym.Assert(len(got) == len(want), "number of words")
	list := d.Words()
	for i, w := range got {
		sym.Assert(sym.And(int(w.Lo) == want[i].Lo, int(w.Hi) == want[i].Hi), "place of a word")
		sym.Assert(w.ID >= 0 && int(w.ID) < len(list), "index of a word")
		sym.Assert(list[w.ID] == want[i].S, "spelling of a word")
		sym.Observe("word", list[w.ID])
	}
	sym.Observe("n", len(got))
	// A second splitting, without inserting, finds the same.
	again := d.Split(text)
	sym.Assert(len(again) == len(got), "Split and InsertSplit disagree")
	for i := range again {
		sym.Assert(again[i] == got[i], "Split and InsertSplit disagree")
	}
	switch len(got) {
	case 0:
		sym.Cover("no word")
	case 1:
		sym.Cover("one word")
	default:
		sym.Cover("more words")
	}
}

// anyCase returns w with every ASCII letter in either case.
func anyCase(w string) string {
	b := make([]byte, len(w))
	for i := range b {
		c := w[i]
		b[i] = c
		if 'a' <= c && c <= 'z' {
			b[i] = sym.IteByte(sym.Bool(), c-('a'-'A'), c)
		}
	}
	return string(b)
}

// C06_Free: every text of up to 3 arbitrary bytes (thorough: 4).
func C06_Free(j int) { compare(sym.String(j)) }

func C06_Free_N() int {
	if sym.Thorough() {
		return 5
	}
	return 4
}

var alphabets = []string{
	"(cs) aC",
	"c()\xc2\xa9\n",
	"a1_-S.",
	"&copy; c",
	"\xcc\x81ea ",
	"e\xc3\xa9\xc9\x89 ",
	"Copyright \xc2\xa9(",
}

// C06_Alpha: every text of 6 bytes (thorough: 7) over each of some small alphabets.
func C06_Alpha(j int) {
	n := 5
	if sym.Thorough() {
		n = 7
	}
	compare(sym.StringIn(n, alphabets[j]))
}

func C06_Alpha_N() int { return len(alphabets) }

var special = []string{
	"https", "http", "copyright", "are", "is", "them", "they", "it", "these", "this", "those", "the", "copies", "copy",
	"c", "s", "(c)", "&copy;", "\u00a9", "(s)", "word(s)", "http(s)", "that",
}

// C06_Special: each word the documentation singles out, in any letter case, with an
// arbitrary byte on either side (thorough: two after it).
func C06_Special(j int) {
	t := sym.String(1) + anyCase(special[j]) + sym.String(1)
	if sym.Thorough() {
		t += sym.String(1)
	}
	compare(t)
}

func C06_Special_N() int { return len(special) }

var beside = []string{"\u00df", "\u00e9", "\u0301", "\u1dc4", "\u0663", "\u00a9", "\u4e2d", "(s)", "s", "q", "0", "(c)", "\xc3", "\u200d"}

// C06_Beside: each of these words with letters, marks and others right before and after it.
func C06_Beside(j int) {
	before := append([]string{"", " "}, beside...)
	t := before[sym.Conc(sym.Choice(len(before)))] + special[j]
	for i := 1 + sym.Conc(sym.Choice(2)); i > 0; i-- {
		t += beside[sym.Conc(sym.Choice(len(beside)))]
	}
	compare(t)
}

func C06_Beside_N() int { return len(special) }

var twice = []string{"copyright", "(c)", "\u00a9", "&copy;", "c", "(C)", "Copyright", "copy"}

// C06_Twice: pairs of copyright words with an arbitrary byte between them.
func C06_Twice(j int) {
	compare("x " + anyCase(twice[j/len(twice)]) + sym.String(1) + twice[j%len(twice)] + " y")
}

func C06_Twice_N() int { return len(twice) * len(twice) }

// C06_Inside: three arbitrary bytes inside a word, and before "(s)".
func C06_Inside(j int) {
	if j == 0 {
		compare("x" + sym.String(3) + "y")
	} else {
		compare(sym.String(3) + "(s) y")
	}
}

func C06_Inside_N() int { return 2 }

var around = [][2]string{{"9", "s"}, {"s", "t"}, {"a", "9"}, {"c", "(s)"}, {"\u00e9", "s"}, {"\u00a9", "c"}}

// C06_Around: an arbitrary character of three bytes between characters of several kinds, and one of
// four bytes.
func C06_Around(j int) {
	n := 3
	if j == len(around) {
		n = 4
	}
	w := around[j%len(around)]
	b := sym.String(n)
	r, k := utf8.DecodeRuneInString(b)
	sym.Assume(k == n && r != utf8.RuneError)
	compare("d " + w[0] + b + w[1] + " e")
}

func C06_Around_N() int { return len(around) + 1 }

// C06_Unknown: splitting does not change a dictionary, and reports unknown words as such.
func C06_Unknown(j int) {
	known := []string{"copyright", "a", "ab", "the"}
	d := new(match.Dict)
	for _, w := range known {
		d.Insert(w)
	}
	n := 4
	if sym.Thorough() {
		n = 6
	}
	text := []string{"those ", "", "(c) "}[j] + sym.StringIn(n, "aBc (\xc2\xa9)")
	sym.Observe("text", text)
	want := ref.Split(text)
	got := d.Split(text)
	sym.Assert(len(got) == len(want), "number of words")
	for i, w := range got {
		sym.Assert(sym.And(int(w.Lo) == want[i].Lo, int(w.Hi) == want[i].Hi), "place of a word")
		id := -1
		for k, s := range known {
			if want[i].S == s {
				id = k
			}
		}
		sym.Assert(int(w.ID) == id, "index of a word")
		if id < 0 {
			sym.Cover("unknown word")
		} else {
			sym.Cover("known word")
		}
	}
	list := d.Words()
	sym.Assert(len(list) == len(known), "the dictionary grew")
	for i := range known {
		sym.Assert(list[i] == known[i], "the dictionary changed")
	}
}

func C06_Unknown_N() int { return 3 }
