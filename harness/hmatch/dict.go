package hmatch

import (
	"github.com/google/licensecheck/internal/match"
	"github.com/google/licensecheck/internal/verif/ref"
	"github.com/google/licensecheck/internal/verif/sym"
)

// history keeps what a dictionary has been told.
type history struct {
	d     *match.Dict
	words []string // inserted, each once, in order
	ids   []match.WordID
}

func (h *history) find(w string) int {
	for i, x := range h.words {
		if x == w {
			return i
		}
	}
	return -1
}

// inserted notes that id was given for w.
func (h *history) inserted(w string, id match.WordID) {
	if i := h.find(w); i >= 0 {
		sym.Assert(h.ids[i] == id, "the index of a word changes")
		sym.Cover("known")
		return
	}
	for _, x := range h.ids {
		sym.Assert(x != id, "one index for two words")
	}
	h.words = append(h.words, w)
	h.ids = append(h.ids, id)
	sym.Cover("new")
}

func (h *history) check() {
	list := h.d.Words()
	sym.Assert(len(list) == len(h.words), "the size of the word list")
	for i, w := range h.words {
		id := h.ids[i]
		sym.Assert(0 <= id && int(id) < len(list), "an index out of range")
		sym.Assert(list[id] == w, "the word list at the index of a word")
		sym.Assert(h.d.Lookup(w) == id, "Lookup of an inserted word")
	}
}

// look compares what a splitting says with what is known.
func (h *history) look(ws []match.Word, text string, insert bool) {
	want := ref.Split(text)
	if !insert && h.find("copyright") < 0 {
		// Repeated copyright words are only known as such if the dictionary has the word.
		want = nil
		for _, w := range ws {
			if h.find(ref.Split(text[w.Lo:w.Hi])[0].S) < 0 {
				sym.Assert(w.ID == match.BadWord, "a word that was never inserted is known")
			}
		}
		return
	}
	sym.Assert(len(ws) == len(want), "the number of words")
	for i, w := range ws {
		sym.Assert(int(w.Lo) == want[i].Lo && int(w.Hi) == want[i].Hi, "the place of a word")
		k := h.find(want[i].S)
		if insert {
			h.inserted(want[i].S, w.ID)
		} else if k < 0 {
			sym.Assert(w.ID == match.BadWord, "a word that was never inserted is known")
			sym.Cover("unknown")
		} else {
			sym.Assert(w.ID == h.ids[k], "the index of a word in a text")
		}
	}
}

func (h *history) step(op int, s string) {
	before := len(h.d.Words())
	switch op {
	case 0:
		h.inserted(s, h.d.Insert(s))
	case 1:
		id := h.d.Lookup(s)
		if k := h.find(s); k >= 0 {
			sym.Assert(id == h.ids[k], "Lookup of an inserted word")
		} else {
			sym.Assert(id == match.BadWord, "a word that was never inserted is known")
			sym.Cover("unknown")
		}
		sym.Assert(len(h.d.Words()) == before, "Lookup adds a word")
	case 2:
		h.look(h.d.InsertSplit(s), s, true)
	case 3:
		h.look(h.d.Split(s), s, false)
		sym.Assert(len(h.d.Words()) == before, "Split adds a word")
	}
}

// C19_History: every sequence of three operations (thorough: four) with words of up to two bytes over
// two letters, or texts of two bytes over a letter, its capital and the blank; and of two (three)
// with texts of three bytes over two letters and the blank.
func C19_History(j int) {
	h := &history{d: new(match.Dict)}
	n := 3
	if j >= 4 {
		n = 2
	}
	if sym.Thorough() {
		n++
	}
	for i := 0; i < n; i++ {
		op := j % 4
		if i > 0 {
			op = sym.Conc(sym.Choice(4))
		}
		var s string
		if op < 2 {
			s = sym.StringIn(sym.Conc(sym.Choice(2)), "ab")
			if i == 0 {
				s += sym.StringIn(1, "ab")
			}
		} else if j < 4 {
			s = sym.StringIn(2, "aA ")
		} else {
			s = sym.StringIn(3, "aB ")
		}
		sym.Observe("op", op)
		sym.Observe("arg", s)
		h.step(op, s)
	}
	h.check()
}

func C19_History_N() int { return 8 }

var dictTexts = []string{
	"a B\tb c copyright (c) c",
	"the a these A",
	"copyright, &copy;\u00a9 a",
	"<a> it them they b",
	"copies(s) copy is are",
}

// C19_Texts: each sequence of three of the texts, inserted or not, with arbitrary short words between.
func C19_Texts(j int) {
	h := &history{d: new(match.Dict)}
	t0 := dictTexts[j]
	h.step(2+sym.Conc(sym.Choice(2)), t0)
	w := sym.StringIn(1, "abci")
	h.step(sym.Conc(sym.Choice(2)), w)
	for i := 0; i < 2; i++ {
		h.step(2+sym.Conc(sym.Choice(2)), dictTexts[sym.Conc(sym.Choice(len(dictTexts)))])
	}
	h.step(sym.Conc(sym.Choice(2)), sym.StringIn(1, "abci"))
	h.check()
}

func C19_Texts_N() int { return len(dictTexts) }

// C19_Compile: compiling patterns and matching texts keeps the dictionary's words, and matching adds none.
func C19_Compile(j int) {
	d := new(match.Dict)
	h := &history{d: d}
	if j%2 == 0 {
		h.step(0, "copyright")
	}
	h.step(2, "b a")
	p1 := "x y" + []string{"\n((", " ((", " //**", " d **//"}[sym.Choice(4)] + sym.StringIn(1, "ab") + []string{"))\n", "**//"}[sym.Choice(2)] + "e"
	sym.Observe("pattern", p1)
	re, err := match.ParseLRE(d, "", p1)
	for i, w := range h.words {
		sym.Assert(d.Lookup(w) == h.ids[i] && d.Words()[h.ids[i]] == w, "the index of a word changes")
	}
	if err != nil {
		return
	}
	m, err := match.NewMultiLRE([]*match.LRE{re})
	sym.Assert(err == nil && m.Dict() == d, "the dictionary of a matcher")
	before := append([]string{}, d.Words()...)
	m.Match("x y " + sym.StringIn(2, "abq ") + " e")
	after := d.Words()
	sym.Assert(len(before) == len(after), "matching adds a word")
	for i := range before {
		sym.Assert(before[i] == after[i], "matching changes a word")
		sym.Assert(d.Lookup(before[i]) == match.WordID(i), "one word has two indexes")
	}
	sym.Cover("matched")
}

func C19_Compile_N() int { return 2 }

// C19_Many: up to 70000 insertions: every index is the word's own, and an arbitrary word is known
// if and only if it was inserted.
func C19_Many(j int) {
	n := []int{100, 257, 33000, 66000}[j]
	d := new(match.Dict)
	for i := 0; i < n; i++ {
		id := d.Insert("w" + decimal(i))
		if int(id) != len(d.Words())-1 || i != int(id) {
			sym.Fail("the index of a new word")
		}
	}
	w := "w" + sym.StringIn(sym.Conc(sym.Choice(3)), "019a")
	sym.Observe("word", w)
	id := d.Lookup(w)
	if id != match.BadWord {
		sym.Assert(id >= 0 && int(id) < n && d.Words()[id] == w, "the word at an index")
		sym.Cover("known")
	}
	k := 0
	ok := len(w) > 1 && (w[1] != '0' || len(w) == 2)
	for i := 1; i < len(w); i++ {
		ok = ok && w[i] != 'a'
		k = k*10 + int(w[i]-'0')
	}
	sym.Assert((id != match.BadWord) == (ok && k < n), "a word is known that was never inserted, or the reverse")
	sym.Assert(d.Insert("w"+decimal(n-1)) == match.WordID(n-1), "the index of a word changes")
	sym.Assert(d.Insert("") == match.WordID(n), "the index of the empty word")
	sym.Assert(d.Lookup("") == match.WordID(n), "the empty word is not found")
}

func C19_Many_N() int {
	if sym.Thorough() {
		return 4
	}
	return 4
}

// C20_Many: of up to 1030 patterns each is reported as itself: those of two arbitrary last digits.
func C20_Many(j int) {
	n := many[j]
	d := sym.StringIn(2, "0123456789")
	top := n / 100
	k := top * (1 - sym.Conc(sym.Choice(2)))
	num := decimal(k) + d
	if k == 0 {
		num = d
		sym.Assume(d[0] != '0')
	}
	sym.Observe("number", num)
	v := 100*k + 10*int(d[0]-'0') + int(d[1]-'0')
	got := cur.re.Match("b a w" + num + " c")
	if len(got.List) == 0 {
		sym.Assert(v >= n, "a text of a pattern is not found")
		sym.Cover("no match")
		return
	}
	sym.Assert(sym.And(v < n, len(got.List) == 1), "a pattern is found that is none")
	sym.Assert(got.List[0].ID == v && got.List[0].Start == 1 && got.List[0].End == 3, "another pattern is reported")
	sym.Cover("match")
}

var many = []int{40, 130, 260, 515, 1030}

func C20_Many_Setup(j int) {
	var pats []string
	for i := 0; i < many[j]; i++ {
		pats = append(pats, "a w"+decimal(i))
	}
	cur.re = compile(pats)
}

func C20_Many_N() int { return len(many) }

var rewritten = []string{"this", "are", "copies", "https", "©", "they", "THE", "c", "the", "is", "e\u0301", "notice(s)"}

// C19_Known: dictionaries that hold words as splitting does not leave them (capitals, words with
// a canonical partner, ...): splitting finds what it always finds.
func C19_Known(j int) {
	h := &history{d: new(match.Dict)}
	h.step(0, "copyright")
	h.step(0, rewritten[j])
	if k := sym.Conc(sym.Choice(len(rewritten) + 1)); k > 0 {
		h.step(0, rewritten[k-1])
	}
	b := []byte(rewritten[j])
	for i, c := range b {
		if 'a' <= c && c <= 'z' {
			b[i] = sym.IteByte(sym.Bool(), c-('a'-'A'), c)
		}
	}
	s := string(b) + " " + rewritten[sym.Conc(sym.Choice(len(rewritten)))]
	sym.Observe("text", s)
	h.step(3, s)
	h.step(2, s)
	h.step(3, s)
	h.check()
}

func C19_Known_N() int { return len(rewritten) }
