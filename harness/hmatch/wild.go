package hmatch

import (
	"strings"

	"github.com/google/licensecheck/internal/verif/ref"
	"github.com/google/licensecheck/internal/verif/sym"
)

// C10_Count: every __N__ with a count of one or two digits (up to 20; thorough: 60), and every
// number of words up to two more: the pattern matches if and only if there are at most N of them.
func C10_Count(j int) {
	max := 20
	if sym.Thorough() {
		max = 60
	}
	num := ""
	n := 0
	for i := 0; i < 1+j/4; i++ {
		d := sym.ByteIn("0123456789")
		num += string([]byte{d})
		n = n*10 + int(d-'0')
	}
	sym.Assume(n <= max)
	n = sym.Conc(n)
	tail := []string{"d", "d e", "d e f g", "\n((d || e f))\ng"}[j%4]
	end := []string{"d", "d e", "d e f g", "e f g"}[j%4]
	sym.Observe("count", n)
	m := compile([]string{"a b __" + num + "__ " + tail})
	k := sym.Choice(max + 3)
	k = sym.Conc(k)
	sym.Observe("words", k)
	text := "a b "
	for i := 0; i < k; i++ {
		text += "z "
	}
	got := m.Match(text + end)
	observe(got)
	if k > n {
		sym.Assert(len(got.List) == 0, "a wildcard stands for too many words")
		sym.Cover("too many")
		return
	}
	sym.Assert(len(got.List) == 1, "a wildcard does not stand for so many words")
	sym.Assert(got.List[0].Start == 0 && got.List[0].End == len(got.Words), "the extent of a match")
	sym.Cover("enough")
}

func C10_Count_N() int { return 8 }

var big = []int{31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 600, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4097}

// C10_Big: large wildcards (up to 600; thorough: 4097) stand for none, one, all but one or all of their
// words, and for no more, one of the words being the one that follows.
func C10_Big(j int) {
	n := big[j]
	k := []int{0, 1, n / 2, n - 1, n, n + 1}[sym.Conc(sym.Choice(6))]
	sym.Observe("count", n)
	sym.Observe("words", k)
	m := compile([]string{"a b __" + decimal(n) + "__ d e f g"})
	p := []int{0, k / 2, k - 1}[sym.Conc(sym.Choice(3))]
	text := "a b "
	for i := 0; i < k; i++ {
		if i == p {
			text += string([]byte{sym.ByteIn("dez")}) + " "
		} else {
			text += "z "
		}
	}
	got := m.Match(text + "d e f g")
	observe(got)
	if k > n {
		sym.Assert(len(got.List) == 0, "a wildcard stands for too many words")
		sym.Cover("too many")
		return
	}
	sym.Assert(len(got.List) == 1, "a wildcard does not stand for so many words")
	sym.Assert(got.List[0].Start == 0 && got.List[0].End == len(got.Words), "the extent of a match")
	sym.Cover("enough")
}

func C10_Big_N() int {
	if sym.Thorough() {
		return len(big)
	}
	return 19
}

func decimal(n int) string {
	if n < 10 {
		return "0123456789"[n : n+1]
	}
	return decimal(n/10) + decimal(n%10)
}

var follows = []set{
	{[]string{"a b __1__ d"}, "dz", 6},
	{[]string{"a b __2__ d"}, "dz", 7},
	{[]string{"a b __5__ d"}, "dz", 9},
	{[]string{"a b __2__ d e"}, "dez", 7},
	{[]string{"a b __4__ d e"}, "dez", 8},
	{[]string{"a b __5__ d e f"}, "defz", 8},
	{[]string{"a b __4__ d e f g"}, "defg", 8},
	{[]string{"a b __4__ d d d"}, "dz", 10},
	{[]string{"a b __4__ d d d d e"}, "dez", 9},
	{[]string{"a b __6__ d d e d e"}, "de", 11},
	{[]string{"a b __4__ d\n((e))??\nf"}, "defz", 8},
	{[]string{"a b __4__\n((d))??\ne"}, "dez", 8},
	{[]string{"a b __4__\n((d e f g))??\ne d"}, "defg", 8},
	{[]string{"a b __4__ d\n((e d d))??"}, "dez", 9},
	{[]string{"a b\n((__4__ d e))??\nf"}, "defz", 8},
	{[]string{"a b\n((d __5__ e || f))\ng d"}, "defgz", 8},
	{[]string{"a b __4__\n((d || e f))\ng"}, "defg", 8},
	{[]string{"a b __2__ d __2__ e"}, "dez", 8},
	{[]string{"a b __4__ d __4__ e"}, "dez", 9},
	{[]string{"a b __4__ d e d __4__ e d"}, "de", 11},
	{[]string{"a b __5__\n((__4__ d))??\ne"}, "dez", 9},
	{[]string{"a b __2__ __2__ d"}, "dz", 9},
	{[]string{"a b __4__ __1__ d e"}, "dez", 9},
	{[]string{"a b __4__ d", "a b __1__ e"}, "dez", 8},
	{[]string{"a b __4__ d e d", "a b d e d e"}, "de", 10},
	{[]string{"a b __5__ d", "a b d\n((z))??\nd"}, "dz", 10},
	{[]string{"a b __0__ d", "a b __0__ __1__ e"}, "dez", 6},
	{[]string{"a b\n((e || __4__ d))\nd d"}, "de", 10},
	{[]string{"a b\n((__4__\n||\n__5__))\n((d))??\ne f g"}, "efg", 9},
	{[]string{"a b\n((__5__ d || e __4__))\n((d))??\ne d e"}, "de", 10},
	{[]string{"a b\n((__4__ d || __5__ e))\nd e d"}, "de", 10},
	{[]string{"a b\n((d __4__ e || __5__ e d))\nd e d e"}, "de", 11},
	{[]string{"a b __4__ e d e d __6__ d d e e"}, "de", 12},
	{[]string{"a b\n((e\n((d __3__ e))??\n))??\nd d"}, "de", 10},
}

// C10_Follow: every text that begins with the words before the wildcard, followed by 4 to 9 words
// (thorough: two more): exactly the readings with at most N words are found.
func C10_Follow(j int) {
	s := follows[j]
	n := size(s)
	rest, t := text(n-2, s.letters)
	str := "a b " + rest
	is := t.Is
	t = ref.Text{N: n, Is: func(i int, w string) bool {
		if i < 2 {
			return len(w) == 1 && "ab"[i] == w[0]
		}
		return is(i-2, w)
	}}
	sym.Observe("text", str)
	m := cur.re.Match(str)
	observe(m)
	wellFormed(m, n, len(s.pats))
	sound(m, cur.as, t)
	complete(m, cur.as, t)
	for _, x := range m.List {
		if !finishes(s.pats[x.ID]) {
			continue
		}
		ends := cur.as[x.ID].Ends(t, x.Start)
		sym.Assert(ends[x.End], "a wildcard goes on after the words that finish it")
	}
}

// finishes reports whether the pattern has no groups, and no wildcard of three words or fewer.
func finishes(pat string) bool {
	for i := 0; i < len(pat); i++ {
		if pat[i] == '(' || pat[i] == '_' && '0' <= pat[i+1] && pat[i+1] <= '3' {
			return false
		}
	}
	return true
}

func C10_Follow_N() int      { return len(follows) }
func C10_Follow_Setup(j int) { setup(follows[j].pats) }

// C10_All: every __N__ up to __120__ (thorough: __400__), standing for one word less, as many and one more.
func C10_All(j int) {
	n := 10*j + 1 + sym.Conc(sym.Choice(10))
	k := n - 1 + sym.Conc(sym.Choice(3))
	sym.Observe("count", n)
	sym.Observe("words", k)
	m := compile([]string{"a b __" + decimal(n) + "__ d e"})
	got := m.Match("a b " + strings.Repeat("z ", k) + "d e " + string([]byte{sym.ByteIn("ez")}))
	observe(got)
	if k > n {
		sym.Assert(len(got.List) == 0, "a wildcard stands for too many words")
		sym.Cover("too many")
		return
	}
	sym.Assert(len(got.List) == 1, "a wildcard does not stand for so many words")
	sym.Assert(got.List[0].Start == 0 && got.List[0].End == k+4, "the extent of a match")
	sym.Cover("enough")
}

func C10_All_N() int {
	if sym.Thorough() {
		return 40
	}
	return 12
}
