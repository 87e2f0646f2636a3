#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.md and the planted changes of seeded/ with what tools/sweep.py saw."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.join(here, "..")
res = json.load(open(os.path.join(here, "planted.json")))
missed = json.load(open(os.path.join(here, "missed.json")))  # id -> what was strengthened
ids = sorted(os.listdir(os.path.join(root, "seeded")))
n = sum(1 for i in ids if res.get(i, {}).get("caught"))
L = []
L.append(f"{len(ids)} changes are kept in `seeded/`. `tools/plant.py` writes and validates them (build, 53 tests, demonstration\n"
         f"clean and patched, original lines changed), `tools/sweep.py` runs the check of its property on each and\n"
         f"records what it said. {n} of them are caught by that check now; {len([i for i in missed if i in ids])} were missed at first and led to the\n"
         "strengthening named below (`*`).\n")
not_caught = [i for i in ids if not res.get(i, {}).get("caught")]
if not_caught:
    L.append("Not caught: " + ", ".join(not_caught) + ".\n")
L.append("| change | check | needs | breaks |\n|---|---|---|---|")
for i in ids:
    m = json.load(open(os.path.join(root, "seeded", i, "meta.json")))
    c = res.get(i, {}).get("caught")
    t = lambda s: s.replace("|", "/").replace("\n", " ")
    L.append(f"| {i}{'*' if i in missed else ''} | {m['property']} {'catches' if c else 'MISSES'} | {t(m['needs'])} | {t(m['what_it_breaks'])} |")
L.append("\nStrengthened after a miss:\n")
for i in sorted(missed):
    L.append(f"* {i}: {missed[i]}")
d = open(os.path.join(here, "design.md")).read().replace("@@SEEDED@@", "\n".join(L))
open(os.path.join(root, "DESIGN.md"), "w").write(d)
