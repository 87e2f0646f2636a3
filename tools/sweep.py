#!/usr/bin/env python3
"""sweep.py [id...]: runs the check of its property on each planted change (in a scratch copy of /repo)
and writes what it said to tools/planted.json. Not part of any check."""
import json, os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.join(here, "..")
out = os.path.join(here, "planted.json")
res = json.load(open(out)) if os.path.exists(out) else {}
env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOSUMDB="off")
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(root, "seeded")))
work = tempfile.mkdtemp(prefix="sweep")
try:
    for i in ids:
        d = os.path.join(root, "seeded", i)
        prop = json.load(open(os.path.join(d, "meta.json")))["property"]
        tree, har, ver = (os.path.join(work, x) for x in ("tree", "harness", "verif"))
        for x in (tree, har, ver):
            shutil.rmtree(x, ignore_errors=True)
        shutil.copytree("/repo", tree); shutil.copytree(os.path.join(root, "harness"), har); os.makedirs(ver)
        subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=tree, check=True)
        for f in ("go.mod",):
            p = os.path.join(har, f); s = open(p).read(); open(p, "w").write(s.replace("/repo", tree))
        b = ["go", "build"] + (["-race"] if prop == "C05" else []) + ["-o", os.path.join(work, "hm"), "."]
        subprocess.run(b, cwd=har, env=env, check=True)
        shutil.copy(os.path.join(root, "known_findings.jsonl"), ver)
        r = subprocess.run([os.path.join(work, "hm"), "-prop", prop, "-seed", "1", "-verif", ver], capture_output=True, text=True, cwd=ver)
        ok = f"VIOLATION property={prop}" in r.stdout
        what = [l for l in r.stdout.splitlines() if "VIOLATION" not in l and l.strip()]
        res.setdefault(i, {})
        res[i].update(property=prop, caught=ok)
        print(i, prop, "caught" if ok else "MISSED", r.returncode, flush=True)
        json.dump(res, open(out, "w"), indent=1, sort_keys=True)
finally:
    shutil.rmtree(work, ignore_errors=True)
