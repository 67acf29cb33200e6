import os, runpy
globals().update(runpy.run_path(os.path.join(os.path.dirname(__file__), "common.py")))
S, D, X, Y, R, L, U = "scan.go", "internal/match/dict.go", "internal/match/rematch.go", "internal/match/resyntax.go", "internal/match/regexp.go", "license.go", "urls.go"
def main(head, body, imports=()):
    for i in imports: head = head.replace('import (\n', 'import (\n\t"%s"\n' % i)
    return head + "func main() {\n\t" + body + "\n}\n"
MH = '''package main

import (
	"fmt"
	"os"
	"strings"

	"github.com/google/licensecheck/internal/match"
)

func must(ok bool, what string) {
	if !ok {
		fmt.Println("FAIL:", what)
		os.Exit(1)
	}
}

func bad(p string) *match.SyntaxError {
	_, err := match.ParseLRE(new(match.Dict), "f", p)
	must(err != nil, "accepted: "+p)
	e, ok := err.(*match.SyntaxError)
	must(ok, fmt.Sprintf("%T", err))
	must(strings.HasSuffix(p[:e.Offset], e.Context), fmt.Sprintf("context %q of %q at %d", e.Context, p, e.Offset))
	return e
}

'''
SEEDS = [
dict(id="C30-context-head", prop="C30",
 edits=[(Y, "		context = s[j:i]\n	}\n", "		context = s[j:i]\n	}\n	if len(context) > 40 {\n		context = context[:40] // keep the message short\n	}\n")],
 demo=main(MH, """bad("a b || d")
	bad("a " + strings.Repeat("long", 20) + " || d")
	bad("a " + strings.Repeat("longer", 20) + "|| d")"""),
 needs="a word of more than forty bytes right before the mistake", breaks="the context of the error is not what precedes its place"),
dict(id="C30-name-by-position", prop="C30",
 edits=[(S, "return fmt.Errorf(\"parsing %v: %v\", l.ID, err)", "return fmt.Errorf(\"parsing %v: %v\", licenses[len(list)].ID, err)"), (S, "match.ParseLRE(d, l.ID, l.LRE)", "match.ParseLRE(d, licenses[len(list)].ID, l.LRE)")],
 demo=main(HEAD.replace('"os"','"os"\n\t"strings"'), """_, err := lc.NewScanner([]lc.License{{ID: "Web", URL: "x.org/l"}, {ID: "Fine", LRE: "alpha beta"}, {ID: "Broken", LRE: "alpha || beta"}})
	must(err != nil && strings.Contains(err.Error(), "Broken") && !strings.Contains(err.Error(), "Fine"), fmt.Sprint(err))"""),
 needs="an entry with a URL only before the defective license", breaks="the error names another license"),
dict(id="C30-missing-paren-place", prop="C30",
 edits=[(Y, "return nil, reSyntaxError(s, len(s), fmt.Errorf(\"missing )) at end\"))", "return nil, reSyntaxError(s, start, fmt.Errorf(\"missing )) at end\"))")],
 demo=main(MH, """p := "a b\\n((d\\n((e))\\nf g"
	must(bad(p).Offset == len(p), fmt.Sprint(bad(p)))"""),
 needs="words after the last operator of a pattern with an open group", breaks="the place of the error is not the end"),
dict(id="C30-quest-place", prop="C30",
 edits=[(Y, "return nil, reSyntaxError(s, i, fmt.Errorf(\"?? not at end of line\"))", "return nil, reSyntaxError(s, i+2, fmt.Errorf(\"?? not at end of line\"))")],
 demo=main(MH, """p := "a b\\n((d))?? e"
	must(p[bad(p).Offset:] == "?? e", fmt.Sprint(bad(p)))"""),
 needs="words after ??", breaks="the place of the error is behind the operator"),
dict(id="C30-shared-file", prop="C30",
 edits=[(R, "	prog, err := syntax.compile(nil, 0)\n	if err != nil {\n		return nil, err\n	}\n	return &LRE{dict: d, file: file, syntax: syntax, prog: prog}, nil\n", "	prog, err := syntax.compile(nil, 0)\n	if err != nil {\n		return nil, err\n	}\n	if len(prog) <= 2 {\n		file = \"\" // too small to matter\n	}\n	return &LRE{dict: d, file: file, syntax: syntax, prog: prog}, nil\n")],
 demo=main(HEAD.replace('"os"','"os"\n\t"strings"'), """_, err := lc.NewScanner([]lc.License{{ID: "Fine", LRE: "alpha beta"}, {ID: "Broken", LRE: "alpha"}})
	must(err != nil && strings.Contains(err.Error(), "Broken"), fmt.Sprint(err))"""),
 needs="a pattern of one word", breaks="the error names no license"),
]
