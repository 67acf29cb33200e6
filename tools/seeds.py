#!/usr/bin/env python3
"""seeds.py [-all] [ID...]: runs the quick check of each planted bug's property (with -all: of every
property) against a scratch copy of /repo with the bug, and writes tools/seed-results.json."""
import json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
ids = [a for a in args if not a.startswith("-")]
resf = os.path.join(V, "tools", "seed-results.json")
res = json.load(open(resf)) if os.path.exists(resf) else {}
every = sorted(d for d in os.listdir(os.path.join(V, "seeded")) if os.path.isdir(os.path.join(V, "seeded", d)))
claimed = [c["property"] for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]]
for s in every:
    if ids and s not in ids: continue
    meta = json.load(open(os.path.join(V, "seeded", s, "meta.json")))
    tmp = tempfile.mkdtemp(prefix="seedrun-", dir="/tmp"); repo = os.path.join(tmp, "repo")
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", repo])
        subprocess.check_call(["git", "apply", os.path.join(V, "seeded", s, "patch.diff")], cwd=repo)
        props = claimed if "-all" in args else [meta["property"]]
        for p in props:
            t = time.time()
            ev = os.path.join(tmp, "v"); shutil.rmtree(ev, ignore_errors=True); os.makedirs(ev)
            shutil.copytree(os.path.join(V, "harness"), os.path.join(ev, "harness")); shutil.copy(os.path.join(V, "known-findings.txt"), ev)
            r = subprocess.run([os.path.join(V, "bin/gosym"), "check", p, "-repo", repo, "-verif", ev, "-tier", "quick"] + (["-first"] if "-first" in args else []),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            viol = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=%s " % p)]
            det = [l.strip() for l in r.stdout.splitlines() if l.startswith("  h")]
            v = {"rc": r.returncode, "violations": len(viol), "s": round(time.time() - t), "how": det[0][:160] if det else r.stdout[-300:]}
            res.setdefault(s, {})[p] = v
            print(s, p, "CAUGHT" if r.returncode == 1 and viol else "rc=%d missed" % r.returncode, v["s"], "s", v["how"][:120] if viol else v["how"][-200:], flush=True)
    finally:
        shutil.rmtree(tmp)
    json.dump(res, open(resf, "w"), indent=1, sort_keys=True)
