package hsplit

import (
	"strings"

	"github.com/google/licensecheck/internal/match"
	"github.com/google/licensecheck/internal/verif/sym"
)

// period is a text that can be repeated: its words, and where they begin and end.
type period struct {
	text  string
	words []string
	at    []int
}

var periods = []period{
	{"ab c-", []string{"ab", "c"}, []int{0, 2, 3, 4}},
	{" .\n", nil, nil},
	{"<b x>", nil, nil},
	{"d&amp;ef ", []string{"d", "ef"}, []int{0, 1, 6, 8}},
	{"w(s) ", []string{"ws"}, []int{0, 4}},
	{"\u00e9\u4e2d.", []string{"e\u4e2d"}, []int{0, 5}},
	{"g{#h}<i ", []string{"g", "i"}, []int{0, 1, 6, 7}},
	{"Are [it](http://x.org/y)\r\n", []string{"is", "it"}, []int{0, 3, 5, 7}},
	{"\xff&copy;q", []string{"copyright", "q"}, []int{1, 7, 7, 8}},
}

func sizes() []int {
	if sym.Thorough() {
		return []int{70, 130, 260, 520, 1030, 2050, 4100, 8200, 16390, 33000, 66000, 132000}
	}
	return []int{70, 260, 1030, 4100, 66000}
}

// C06_Size: texts of up to 66000 bytes (thorough: twice that): an arbitrary letter or two, a number of
// equal pieces, and a few letters more.
func C06_Size(j int) {
	p := periods[j]
	ss := sizes()
	size := ss[sym.Conc(sym.Choice(len(ss)))]
	n := size/len(p.text) + 1
	pre := sym.StringIn(1, "kl") + []string{"", "m"}[sym.Conc(sym.Choice(2))]
	post := sym.StringIn(1, "uv")
	text := pre + " " + strings.Repeat(p.text, n) + "." + post
	sym.Observe("pre", pre)
	sym.Observe("post", post)
	sym.Observe("size", len(text))
	d := new(match.Dict)
	d.Insert("copyright")
	got := d.InsertSplit(text)
	list := d.Words()
	k := len(p.words)
	sym.Assert(len(got) == n*k+2, "number of words")
	sym.Assert(got[0].Lo == 0 && int(got[0].Hi) == len(pre) && list[got[0].ID] == pre, "the first word")
	z := got[len(got)-1]
	sym.Assert(int(z.Lo) == len(text)-1 && int(z.Hi) == len(text) && list[z.ID] == post, "the last word")
	off := len(pre) + 1
	for i := 0; i < n; i++ {
		for l := 0; l < k; l++ {
			w := got[1+i*k+l]
			sym.Assert(int(w.Lo) == off+p.at[2*l] && int(w.Hi) == off+p.at[2*l+1], "place of a word")
			sym.Assert(int(w.ID) < len(list) && list[w.ID] == p.words[l], "spelling of a word")
		}
		off += len(p.text)
	}
	again := d.Split(text)
	sym.Assert(len(again) == len(got), "Split and InsertSplit disagree")
	for i := range again {
		sym.Assert(again[i] == got[i], "Split and InsertSplit disagree")
	}
	sym.Cover("text")
}

func C06_Size_N() int { return len(periods) }

var ends = []struct {
	text, post string
	words      []string
	at         []int // relative to the end of text repeated
}{
	{"a", "", nil, nil},
	{"\u00e9", "(s) x", nil, nil},
	{"a0", "(S)", []string{"s"}, []int{1, 2}},
	{"e\u0301", "\u0301\u00a9", []string{"copyright"}, []int{2, 4}},
}

// C06_Word: words of up to 4100 bytes (thorough: 33000).
func C06_Word(j int) {
	e := ends[j]
	ss := sizes()
	ss = ss[:len(ss)-1-len(ss)/8]
	size := ss[sym.Conc(sym.Choice(len(ss)))]
	n := size/len(e.text) + 1
	pre := sym.StringIn(1, "kl")
	text := pre + strings.Repeat(e.text, n) + e.post
	sym.Observe("size", len(text))
	d := new(match.Dict)
	d.Insert("copyright")
	got := d.InsertSplit(text)
	hi := 1 + n*len(e.text)
	want := pre + strings.Repeat([]string{"a", "e", "a0", "e"}[j], n)
	switch j {
	case 1:
		hi += 3
		want += "s"
	case 3:
		hi += 2
	}
	k := 1 + len(e.words)
	if j == 1 {
		k++
	}
	sym.Assert(len(got) == k, "number of words")
	sym.Assert(got[0].Lo == 0 && int(got[0].Hi) == hi, "place of a long word")
	sym.Assert(d.Words()[got[0].ID] == want, "spelling of a long word")
	for i, w := range e.words {
		g := got[1+i]
		o := len(text) - len(e.post)
		sym.Assert(int(g.Lo) == o+e.at[0] && int(g.Hi) == o+e.at[1] && d.Words()[g.ID] == w, "the word after a long word")
	}
	// Another word, that differs in the last byte only, is another word.
	v := text[:hi]
	if j == 0 || j == 2 {
		v = v[:hi-1] + "b"
		other := d.Split(v)
		sym.Assert(len(other) == 1 && other[0].ID == match.BadWord, "a long word never inserted is found")
		sym.Assert(d.Insert(want[:len(want)-1]+"b") != got[0].ID, "distinct words have one index")
	}
	sym.Cover("word")
}

func C06_Word_N() int { return len(ends) }

var insides = []struct {
	pre, text, post string
	markup          bool
}{
	{"<a ", "x=\"y\" ", ">", true},
	{"</b", "/", ">", true},
	{"<a ", "x=\"y\" ", "", false},
	{"<a\n", "x ", "\r>", true},
	{"<a\n", "x ", "\n\n>", false},
	{"<a ", "x ", "@>", true},
	{"<a", ".b", "@>", false},
	{"&", "aZ", ";", true},
	{"&", "aZ", "9;", false},
	{"&#x", "0aF", ";", true},
	{"&#", "01", ";", true},
	{"&#", "01", "a;", false},
	{"{#", "x-y", "}", true},
	{"{#", "x-y", " }", false},
	{"](#", "x[", ")", true},
	{"](http://", "x/", ")", true},
	{"](mailto:", "x@", "\t)", false},
}

// C08_Size: markup, and what is not quite, of up to 66000 bytes (thorough: twice that).
func C08_Size(j int) {
	m := insides[j]
	ss := sizes()
	size := ss[sym.Conc(sym.Choice(len(ss)))]
	n := size/len(m.text) + 1
	u, v := sym.StringIn(1, "uU"), sym.StringIn(1, "vV")
	text := u + m.pre + strings.Repeat(m.text, n) + m.post + v
	sym.Observe("size", len(text))
	d := new(match.Dict)
	got := d.InsertSplit(text)
	if m.markup {
		sym.Assert(len(got) == 2, "markup is read as text")
		sym.Assert(d.Words()[got[0].ID] == "u" && got[0].Lo == 0 && got[0].Hi == 1, "the word before markup")
		sym.Assert(d.Words()[got[1].ID] == "v" && int(got[1].Lo) == len(text)-1 && int(got[1].Hi) == len(text), "the word after markup")
		sym.Cover("markup")
		return
	}
	sym.Assert(len(got) > 2 || len(m.text) == 2 && len(got) > 1, "text is skipped as markup")
	sym.Assert(d.Words()[got[0].ID] == "u", "the word before")
	lo := len(u + m.pre)
	for i := range m.pre {
		if c := m.pre[i]; 'a' <= c && c <= 'z' {
			lo = 1 + i
			break
		}
	}
	sym.Assert(int(got[1].Lo) == lo, "text is skipped as markup")
	sym.Cover("text")
}

func C08_Size_N() int { return len(insides) }
