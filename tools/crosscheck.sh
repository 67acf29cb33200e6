#!/bin/bash
# crosscheck.sh CHECK [ONLY]: dumps assertion queries of the quick check CHECK (of the harnesses
# matching ONLY) and has z3, z3-new and cvc5 decide them: all of them have to be unsat.
V=$(cd "$(dirname "$0")/.." && pwd)
d=$(mktemp -d /tmp/crosscheck-XXXXXX); trap 'rm -rf "$d"' EXIT
"$V/bin/gosym" check "$1" ${2:+-only "$2"} -dump "$d" > "$d/out" 2>&1
ls "$d" | grep -c 'smt2$' | sed 's/$/ queries/'
solve() {
	a=$(timeout 60 z3 "$1" | head -1); b=$(timeout 60 z3-new "$1" | head -1); c=$(timeout 60 cvc5 "$1" 2>/dev/null | head -1)
	echo "$a $b $c"
}
export -f solve
ls "$d"/*.smt2 2>/dev/null | shuf -n "${N:-300}" --random-source=<(yes) | xargs -P 8 -I{} bash -c 'solve {}' | sort | uniq -c
