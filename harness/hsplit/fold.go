package hsplit

import (
	"unicode"

	"github.com/google/licensecheck/internal/match"
	"github.com/google/licensecheck/internal/verif/ref"
	"github.com/google/licensecheck/internal/verif/sym"
)

func newDict() *match.Dict {
	d := new(match.Dict)
	d.Insert("copyright")
	return d
}

// anyRune returns an arbitrary rune, one path per encoded length.
func anyRune() rune {
	switch sym.Choice(4) {
	case 0:
		return rune(sym.Int(0, 0x7f))
	case 1:
		return rune(sym.Int(0x80, 0x7ff))
	case 2:
		r := rune(sym.Int(0x800, 0xffff))
		sym.Assume(sym.Or(r < 0xd800, r > 0xdfff))
		return r
	}
	return rune(sym.Int(0x10000, 0x10ffff))
}

// C07_Case: for every letter, its other case variants read as the same letter, at the start
// of a word and inside it.
func C07_Case(j int) {
	r := anyRune()
	sym.Assume(unicode.IsLetter(r))
	s := unicode.SimpleFold(r)
	sym.Assume(unicode.IsLetter(s))
	if j >= 1 {
		s = unicode.SimpleFold(s)
		sym.Assume(unicode.IsLetter(s))
	}
	sym.Observe("r", r)
	sym.Observe("s", s)
	pre := ""
	if j >= 2 {
		pre = "q"
	}
	d := newDict()
	w1 := d.InsertSplit(pre + string(r) + "z")
	w2 := d.InsertSplit(pre + string(s) + "z")
	sym.Assert(len(w1) == 1 && len(w2) == 1, "a letter is part of a word")
	sym.Assert(w1[0].ID == w2[0].ID, "case variants differ")
	// and as a text that is looked up
	w3 := d.Split(pre + string(s) + "z")
	sym.Assert(len(w3) == 1 && w3[0].ID == w1[0].ID, "case variants differ")
	sym.Cover("case variants")
}

func C07_Case_N() int { return 4 }

// C07_Distinct: letters that are not case or accent variants of each other stay distinct.
func C07_Distinct(j int) {
	var a, b rune
	if j == 0 {
		a, b = rune(sym.Int(0x21, 0x7f)), rune(sym.Int(0x21, 0x7ff))
	} else if j == 1 {
		a, b = rune(sym.Int(0x80, 0x7ff)), rune(sym.Int(0x80, 0x7ff))
	} else {
		a, b = anyRune(), anyRune()
	}
	sym.Assume(unicode.IsLetter(a))
	sym.Assume(unicode.IsLetter(b))
	sym.Assume(ref.Fold(a) != ref.Fold(b))
	sym.Observe("a", a)
	sym.Observe("b", b)
	d := newDict()
	w1 := d.InsertSplit("q" + string(a) + "z")
	w2 := d.InsertSplit("q" + string(b) + "z")
	sym.Assert(len(w1) == 1 && len(w2) == 1, "a letter is part of a word")
	sym.Assert(w1[0].ID != w2[0].ID, "different letters are confused")
	sym.Cover("distinct letters")
}

func C07_Distinct_N() int {
	if sym.Thorough() {
		return 3
	}
	return 2
}

var accents = []struct {
	base     string
	accented string
}{
	{"a", "àáÀÁ"}, {"e", "èéÈÉ"}, {"i", "ìíÌÍ"}, {"o", "òóÒÓ"}, {"u", "ùúÙÚ"},
}

// C07_Accent: grave and acute accents on vowels are ignored, precomposed or combining, in
// either case, between arbitrary letters.
func C07_Accent(j int) {
	v := accents[j]
	d := newDict()
	x, y := anyCase(sym.StringIn(1, "bqz")), sym.StringIn(1, "nR9")
	want := d.InsertSplit(x + v.base + y)
	sym.Assert(len(want) == 1, "one word")
	var alts []string
	for _, r := range v.accented {
		alts = append(alts, string(r))
	}
	up := string(v.base[0] - 'a' + 'A')
	alts = append(alts, up, v.base+"\u0300", v.base+"\u0301", up+"\u0300", up+"\u0301", v.base+"\u0301\u0300")
	alt := alts[sym.Choice(len(alts))]
	text := x + alt + y
	sym.Observe("text", text)
	got := d.Split(text)
	sym.Assert(len(got) == 1 && got[0].ID == want[0].ID, "an accent matters")
	// At the start and at the end of a word.
	got = d.InsertSplit(v.base + x)
	again := d.Split(alt + x)
	sym.Assert(len(again) == 1 && again[0].ID == got[0].ID, "an accent matters at the start")
	got = d.InsertSplit(x + v.base)
	again = d.Split(x + alt)
	sym.Assert(len(again) == 1 && again[0].ID == got[0].ID, "an accent matters at the end")
	sym.Cover("accents")
}

func C07_Accent_N() int { return len(accents) }

// C07_Mark: every other combining mark stays significant.
func C07_Mark(j int) {
	r := anyRune()
	sym.Assume(unicode.Is(unicode.Mn, r))
	sym.Assume(sym.And(r != 0x300, r != 0x301))
	sym.Observe("r", r)
	d := newDict()
	w1 := d.InsertSplit("qa" + string(r))
	w2 := d.InsertSplit("qa")
	sym.Assert(len(w1) == 1 && len(w2) == 1, "a mark is part of a word")
	sym.Assert(w1[0].ID != w2[0].ID, "a combining mark is ignored")
	sym.Cover("other marks")
}

// C07_Match: a pattern with a letter matches texts with any case variant of the letter.
func C07_Match(j int) {
	r := anyRune()
	sym.Assume(unicode.IsLetter(r))
	s := unicode.SimpleFold(r)
	sym.Assume(unicode.IsLetter(s))
	sym.Observe("r", r)
	d := newDict()
	lre, err := match.ParseLRE(d, "x", "qa q"+string(r)+"z qb")
	sym.Assert(err == nil, "pattern not accepted")
	re, err := match.NewMultiLRE([]*match.LRE{lre})
	sym.Assert(err == nil, "pattern not accepted")
	m := re.Match("qa q" + string(s) + "z qb")
	sym.Assert(len(m.List) == 1 && m.List[0].Start == 0 && m.List[0].End == 3, "a case variant does not match")
	sym.Cover("matched")
}
