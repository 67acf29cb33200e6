package hsplit

import "github.com/google/licensecheck/internal/verif/sym"

var markup = []struct {
	pre, alpha, post string
	n                int
}{
	{"a<", "a/>: \n", "b", 6},
	{"a<", "a@ ><1", "b", 6},
	{"a<b", "\r\n >x", "y>c", 5},
	{"<b:", "/: @>", "c>d", 4},
	{"<", "a>", "", 4},
	{"</", "a>/<", "b", 4},
	{"a&", "#x1aF;", "b", 6},
	{"a&#", "x09g;", "b", 5},
	{"&", "copy;", "", 5},
	{"&", "COPY;c", " x", 5},
	{"a{#", "h}# \n{", "b", 5},
	{"a{", "#}x\r", "b", 5},
	{"a](#", "x) \t(", "b", 5},
	{"a](http", "s:/x)\r", "b", 6},
	{"a](mailto:", "x)\n ", "b", 4},
	{"a](file:", "x/)\t", "b", 4},
	{"a](", "fh#:x)", "ile:x)b", 4},
	{"[a]", "(#x)", "b", 5},
	{"a", "<&{](#", "b>;})c", 4},
	{"<a\n", "\n\r> b", "x>y", 4},
}

// C08_Markup: markup openers followed by every string of the given length over an alphabet
// of the characters that matter there, then a fixed end.
func C08_Markup(j int) {
	m := markup[j]
	n := m.n
	if sym.Thorough() {
		n += 2
	}
	compare(m.pre + sym.StringIn(n, m.alpha) + m.post)
}

func C08_Markup_N() int { return len(markup) }

var openers = []string{"<", "</", "<a", "<a ", "&", "&#", "&#x", "&a", "{", "{#", "]", "](", "](#", "](http://", "](file:", "](mailto:", "](https://"}

// C08_Open: every opener followed by three arbitrary bytes and by the closers.
func C08_Open(j int) {
	n := 2
	if sym.Thorough() {
		n = 3
	}
	compare("x" + openers[j] + sym.String(n) + ">;}) y")
}

func C08_Open_N() int { return len(openers) }

// words gives the words of a text, without their places.
func words(text string) []string {
	d := newDict()
	var r []string
	for _, w := range d.InsertSplit(text) {
		r = append(r, d.Words()[w.ID])
	}
	return r
}

var pieces = []string{
	"<b>", "</b>", "<a href=\"http://x.com/a@b\">", "<br/>", "<p\n\nx>", "<A:b>",
	"&nbsp;", "&#160;", "&#xA0;", "&AMP;", "{#top}", "](http://x.com/y)", "](#top)", "](mailto:a@b.c)", "](file:x)", "](https://x)",
}

// C08_Insert: inserting a complete piece of markup between two words (with arbitrary
// neighbouring letters) leaves the words as they were.
func C08_Insert(j int) {
	a, b := sym.StringIn(1, "aZ9c"), sym.StringIn(1, "bS0<")
	l, r := sym.StringIn(1, " .("), sym.StringIn(1, " )-")
	with := "x" + a + l + pieces[j] + r + b + "y"
	without := "x" + a + l + r + b + "y"
	sym.Observe("text", with)
	w1, w2 := words(with), words(without)
	sym.Assert(len(w1) == len(w2), "markup changed the number of words")
	for i := range w1 {
		sym.Assert(w1[i] == w2[i], "markup changed a word")
	}
	sym.Cover("compared")
}

func C08_Insert_N() int { return len(pieces) }
