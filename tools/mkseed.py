#!/usr/bin/env python3
"""mkseed.py FILE: plants the bugs described in FILE (a Python list SEEDS) in scratch copies of
/repo; keeps under /verif/seeded those that apply, build, pass the stable tests and have a
demonstration that tells the two trees apart.

Each entry: dict(id, prop, edits=[(file, old, new)...], demo=Go main program, needs, breaks)."""
import json, os, shutil, subprocess, sys, tempfile, runpy
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Runs demo.go as a program of the module (it may import internal packages): exit 0 if all is well.
here=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
echo "{\\"Replace\\": {\\"$PWD/internal/zzdemo/main.go\\": \\"$here/demo.go\\"}}" > "$tmp/o.json"
go build -buildvcs=false -overlay "$tmp/o.json" -o "$tmp/demo" ./internal/zzdemo || exit 3
timeout 60 "$tmp/demo"
'''
env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local")
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def tests(repo):
    """runs the tests of the tree at repo the way test.sh does; returns those stable ones that do not pass"""
    r = run(["go", "test", "-json", "-vet=off", "-count=1", "./..."], repo)
    return r.stdout
def main():
    seeds = runpy.run_path(sys.argv[1])["SEEDS"]
    only = sys.argv[2:]
    for s in seeds:
        if only and s["id"] not in only: continue
        out = os.path.join(VERIF, "seeded", s["id"])
        if os.path.exists(os.path.join(out, "patch.diff")) and not only: continue
        tmp = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
        repo = os.path.join(tmp, "repo")
        try:
            subprocess.check_call(["git", "clone", "-q", "/repo", repo])
            bad = None
            for f, a, b in s["edits"]:
                p = os.path.join(repo, f); t = open(p).read()
                if t.count(a) != 1: bad = "%d places for %r in %s" % (t.count(a), a, f); break
                open(p, "w").write(t.replace(a, b))
            if bad: print(s["id"], "BAD EDIT:", bad); continue
            diff = run(["git", "diff"], repo).stdout
            r = run(["go", "build", "./..."], repo)
            if r.returncode: print(s["id"], "DOES NOT BUILD", r.stdout[:300]); continue
            before, after = baseline(), names(tests(repo))
            lost = sorted(before - after)
            if lost: print(s["id"], "FAILS TESTS", len(lost), lost[:3]); continue
            os.makedirs(out, exist_ok=True)
            open(os.path.join(out, "patch.diff"), "w").write(diff)
            open(os.path.join(out, "demo.sh"), "w").write(DEMO.replace("go build ", "go build -race ") if s.get("race") else DEMO)
            open(os.path.join(out, "demo.go"), "w").write(s["demo"])
            json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                      open(os.path.join(out, "meta.json"), "w"), indent=1)
            d1 = run(["bash", os.path.join(out, "demo.sh")], repo)
            run(["git", "checkout", "-q", "--", "."], repo)
            d0 = run(["bash", os.path.join(out, "demo.sh")], repo)
            ok = d0.returncode == 0 and d1.returncode not in (0, 3)
            print(s["id"], "kept" if ok else "DEMO FAILS: clean %d, patched %d\n%s\n--\n%s" % (d0.returncode, d1.returncode, d0.stdout[-600:], d1.stdout[-600:]))
            if not ok: shutil.rmtree(out)
        finally:
            shutil.rmtree(tmp)
def names(js):
    ok = set()
    for l in js.splitlines():
        try: e = json.loads(l)
        except ValueError: continue
        if e.get("Action") == "pass" and e.get("Test"): ok.add(e["Package"] + "/" + e["Test"])
    return ok
_b = None
def baseline():
    global _b
    if _b is None: _b = names(tests("/repo"))
    return _b
main()
