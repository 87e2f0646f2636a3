#!/usr/bin/env python3
"""mk.py FILE.py [id...]: FILE.py defines BUGS = [dict(id, prop, edits=[(file, old, new)], demo=go code, needs, what)]"""
import os, re, shutil, subprocess, sys, json, importlib.util
spec = importlib.util.spec_from_file_location("b", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
only = sys.argv[2:]
BASE = "91ba500"
W = "/tmp/seed/wt"
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOSUMDB="off")
def sh(cmd, cwd, **k): return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), capture_output=True, text=True, env=ENV, **k)
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def tests():
    ov = "/tmp/seed/ov.json"; json.dump({"Replace": {W + "/tests/buffer_test.go": ""}}, open(ov, "w"))
    r = sh(f"go test -json -vet=off -count=1 -timeout 5m -overlay={ov} ./...", W)
    ok = set()
    for l in r.stdout.splitlines():
        try: d = json.loads(l)
        except ValueError: continue
        if d.get("Action") == "pass" and d.get("Test"): ok.add(d["Package"] + "/" + d["Test"])
    return STABLE - ok
DEMO = '''#!/bin/bash
# Exit 0 when %s holds for this demonstration, nonzero otherwise. Run with /repo as the working directory.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d) || exit 2
trap 'rm -rf -- "$tmp"' EXIT
cp "$here/demo.go.txt" "$tmp/main.go"
cp "$repo/go.sum" "$tmp/go.sum"
sed -e 's#^module .*#module demo#' "$repo/go.mod" > "$tmp/go.mod"
printf '\\nrequire github.com/hzw456/go-geo v0.0.0\\nreplace github.com/hzw456/go-geo => %%s\\n' "$repo" >> "$tmp/go.mod"
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS=-mod=mod
cd "$tmp" && go run %s. 
'''
res = []
for b in m.BUGS:
    if only and b["id"] not in only: continue
    shutil.rmtree(W, ignore_errors=True); shutil.copytree("/repo", W)
    touched_fix = []
    for f, old, new in b["edits"]:
        p = os.path.join(W, f); s = open(p).read()
        assert s.count(old) == 1, (b["id"], f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = sh("git diff", W).stdout
    removed = 0
    for f in {e[0] for e in b["edits"]}:
        bl = sh(["git", "blame", "-s", "--abbrev=7", "HEAD", "--", f], W).stdout.splitlines()
        for h in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", sh(["git", "diff", "-U0", "--", f], W).stdout, re.M):
            a, n = int(h[1]), int(h[2] or 1)
            for i in range(a, a + n):
                removed += 1
                if not bl[i-1].lstrip("^").startswith(BASE[:6]): touched_fix.append(bl[i-1])
    bld = sh("go build ./...", W)
    st = []
    if bld.returncode: st.append("BUILD " + bld.stderr[:500])
    else:
        t = tests()
        if t: st.append("TESTS " + str(t))
    if touched_fix: st.append("FIXLINES " + str(touched_fix))
    if not removed: st.append("NO ORIGINAL LINE CHANGED")
    d = f"/tmp/seed/out/{b['id']}"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.go.txt", "w").write(b["demo"].strip() + "\n")
    open(d + "/demo.sh", "w").write(DEMO % (b["prop"], "-race " if b.get("race") else "")); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["what"]}, open(d + "/meta.json", "w"), indent=1)
    c = sh(["bash", d + "/demo.sh"], "/repo"); p = sh(["bash", d + "/demo.sh"], W)
    if c.returncode: st.append(f"DEMO CLEAN rc={c.returncode} {c.stdout[-300:]} {c.stderr[-500:]}")
    if p.returncode == 0: st.append("DEMO PATCHED rc=0 " + p.stdout[-200:])
    caught = []
    if not any(x.startswith(('BUILD','TESTS','DEMO')) for x in st):
        for prop in [b["prop"]] + b.get("also", []):
            r = sh(["bash", "/tmp/runbase.sh", W, prop], "/tmp")
            caught.append(prop + (":CAUGHT" if f"VIOLATION property={prop}" in r.stdout else ":missed " + r.stdout[-200:] + r.stderr[-300:]))
    if not st:
        t = f"/verif/seeded/{b['id']}"; shutil.rmtree(t, ignore_errors=True); shutil.copytree(d, t)
    print(b["id"], "OK" if not st else st, caught, (p.stdout + p.stderr).strip()[:160].replace("\n", " | "), flush=True)
