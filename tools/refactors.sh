#!/bin/bash
# refactors.sh [CHECK...]: applies each refactoring of tools/refactors (they change no behaviour) to a
# scratch clone of /repo and runs the quick checks on it: all have to stay quiet.
V=$(cd "$(dirname "$0")/.." && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
checks=${*:-$(python3 -c "import json;print(*[c['property'] for c in json.load(open('$V/MANIFEST.json'))['checks']])")}
for f in ${R:-"$V"/tools/refactors/*.py}; do
	tmp=$(mktemp -d /tmp/refactor-XXXXXX)
	git clone -q /repo "$tmp/repo" && (cd "$tmp/repo" && python3 "$f" && go build ./... && go test . ./internal/... >/dev/null) || { echo "$f: does not build"; rm -rf "$tmp"; continue; }
	for c in $checks; do
		mkdir -p "$tmp/v"; cp -a "$V/harness" "$V/known-findings.txt" "$tmp/v/"
		"$V/bin/gosym" check "$c" -repo "$tmp/repo" -verif "$tmp/v" -tier quick > "$tmp/out" 2>&1
		rc=$?
		echo "$(basename "$f") $c rc=$rc $(grep -a ' quick: ' "$tmp/out" | cut -c1-110) $(grep -a ' quick: ' "$tmp/out" | grep -o '[0-9.]*s$')"
		grep -a -A3 'VIOLATION\|MISMATCH\|^note' "$tmp/out" | cut -c1-300 | head -12
		rm -rf "$tmp/v"
	done
	rm -rf "$tmp"
done
