package hmatch

import (
	"strings"

	"github.com/google/licensecheck/internal/match"
	"github.com/google/licensecheck/internal/verif/ref"
	"github.com/google/licensecheck/internal/verif/sym"
)

// where checks what the error for a pattern that is not well-formed says.
func where(pat string) {
	sym.Observe("pattern", pat)
	if _, ok := ref.Parse(pat); ok {
		sym.Cover("accepted")
		return
	}
	_, err := match.ParseLRE(new(match.Dict), "dir/f.lre", pat)
	e, ok := err.(*match.SyntaxError)
	sym.Assert(ok && e != nil, "the error is not a syntax error")
	sym.Observe("offset", e.Offset)
	sym.Observe("context", e.Context)
	sym.Observe("err", e.Err)
	sym.Assert(e.File == "dir/f.lre", "the error does not name the file")
	sym.Assert(0 <= e.Offset && e.Offset <= len(pat), "the place of the error is outside the pattern")
	before, after := pat[:e.Offset], pat[e.Offset:]
	sym.Assert(len(e.Context) <= len(before) && equal(e.Context, before[len(before)-len(e.Context):]),
		"the context of the error is not what precedes its place")
	sym.Assert(e.Err != "", "the error says nothing")
	if after != "" {
		op := false
		for _, o := range []string{"((", "||", "))", "??", "__", "//**"} {
			op = sym.Or(op, len(after) >= len(o) && equal(after[:len(o)], o))
		}
		sym.Assert(op, "the place of the error is no operator")
	}
	// What precedes the place is the beginning of a pattern.
	fine := false
	for k := 0; k <= strings.Count(before, "((") && !fine; k++ {
		_, fine = ref.Parse(before + strings.Repeat("\n))", k))
	}
	sym.Assert(fine, "there is an error before the place given")
	text := e.Error()
	sym.Assert(strings.Contains(text, "dir/f.lre") && strings.Contains(text, e.Err), "the error's text names no file, or no reason")
	sym.Cover("refused")
}

// C30_Free: every pattern of up to 5 bytes (thorough: 6) over the bytes the grammar is about.
func C30_Free(j int) { where(sym.StringIn(j, grammarBytes)) }

func C30_Free_N() int { return C09_Free_N() }

// C30_Frame: the larger patterns of C09, with two or three arbitrary bytes.
func C30_Frame(j int) { where(fill(frames[j])) }

func C30_Frame_N() int { return len(frames) }

var flaws = []string{"|| d", "?? d", "((d))", ")) d", "//** d", "__99999999999__"}

// C30_Place: a flaw after up to 1100 (thorough: 9000) bytes without any: the error gives its place.
func C30_Place(j int) {
	flaw := flaws[j%len(flaws)]
	pre := []string{"a b ", "word\n", "\n((a))\nb ", "\u00e9\u4e2d ", "\n//** x **//\na ", "abcdefghijklmnopqrstuvwxyz"}[j/len(flaws)]
	sizes := []int{0, 9, 40, 300, 1100}
	if sym.Thorough() {
		sizes = append(sizes, 9000)
	}
	n := sizes[sym.Conc(sym.Choice(len(sizes)))]
	pat := strings.Repeat(pre, n/len(pre)+1) + string([]byte{sym.ByteIn("abx")}) + " "
	at := len(pat)
	pat += flaw
	sym.Observe("n", n)
	re, err := match.ParseLRE(new(match.Dict), "f", pat)
	e, ok := err.(*match.SyntaxError)
	sym.Assert(re == nil && ok && e != nil, "the error is not a syntax error")
	sym.Observe("offset", e.Offset)
	sym.Assert(e.Offset == at, "the place of the error is wrong")
	sym.Assert(e.File == "f" && e.Err != "", "the error does not name the file, or the reason")
	sym.Assert(len(e.Context) <= at && equal(e.Context, pat[at-len(e.Context):at]), "the context of the error is not what precedes its place")
	sym.Cover("refused")
}

func C30_Place_N() int { return 6 * len(flaws) }
