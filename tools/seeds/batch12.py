import os, runpy
globals().update(runpy.run_path(os.path.join(os.path.dirname(__file__), "common.py")))
S, D, X, Y, R, L, U = "scan.go", "internal/match/dict.go", "internal/match/rematch.go", "internal/match/resyntax.go", "internal/match/regexp.go", "license.go", "urls.go"
OL, ON = "old/license.go", "old/normalize.go"
def main(head, body, imports=()):
    for i in imports: head = head.replace('import (\n', 'import (\n\t"%s"\n' % i)
    return head + "func main() {\n\t" + body + "\n}\n"
def ends(what):
    return 'done := make(chan bool)\n\tgo func() { %s; done <- true }()\n\tselect {\n\tcase <-done:\n\tcase <-time.After(10 * time.Second):\n\t\tmust(false, "does not end")\n\t}' % what
T = HEAD.replace('"os"\n', '"os"\n\t"time"\n')
SEEDS = [
dict(id="C03-anchor-loop", prop="C03",
 edits=[(D, "	i := 2\n	for ; i < len(t); i++ {\n		switch t[i] {\n		case '}':\n			return i + 1\n", "	i := 2\n	for i < len(t) {\n		c := t[i]\n		if c == '\\\\' && i+1 < len(t) {\n			if t[i+1] == '}' {\n				i += 2\n			}\n			continue\n		}\n		i++\n		switch c {\n		case '}':\n			return i\n")],
 demo=main(T, 's := scanner(lc.License{ID: "A", LRE: "alpha beta gamma"})\n\t' + ends('s.Scan([]byte("alpha {#a\\\\b} beta gamma"))')),
 needs="a backslash that escapes nothing in a Markdown anchor", breaks="scanning does not end"),
dict(id="C09-wild-overflow", prop="C09",
 edits=[(Y, "			n, err := strconv.ParseInt(s[i+2:j], 10, 32)\n			if err != nil {\n", "			n, err := strconv.ParseInt(s[i+2:j], 10, 64)\n			if err != nil || n > 1<<32 {\n")],
 demo=main(HEAD, 'defer func() { e := recover(); must(e == nil, fmt.Sprint(e)) }()\n\t_, err := lc.NewScanner([]lc.License{{ID: "A", LRE: "alpha beta __4294967295__ gamma"}})\n\tmust(err != nil, "a count of 2^32 is accepted")'),
 needs="a wildcard count between 2^31 and 2^32", breaks="it is accepted as a negative count"),
]
