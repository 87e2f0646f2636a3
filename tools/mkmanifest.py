#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the methods below."""
import json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
M = {
"C01": "online monitor of tree searches against an exact list model over random operation histories",
"C02": "online conservation monitor (multiset model of stored objects) over random operation histories",
"C03": "online monitor of nearest-neighbour answers against exhaustive distances over random histories",
"C04": "online structural monitor (node boxes, depth, fan-out bounds) over random histories",
"C05": "Go race detector plus comparison of concurrent answers with a sequential run, with injected yields and delays",
"C06": "bitwise memory snapshots of all arguments (up to slice capacity) around every read-only call",
"C07": "runtime monitor: independent WKT reader and round trip on random geometries",
"C08": "runtime monitor of the decoder on generated, mutated and random texts against a tolerant reader; panic detection",
"C09": "runtime monitor: structural comparison of the JSON and round trip on random geometries",
"C10": "runtime monitor of the decoders on mutated and random JSON; panic detection and leading-ordinate comparison",
"C11": "runtime monitor: marshal/unmarshal model comparison and property-store history checker",
"C12": "runtime monitor against exact integer/rational point location",
"C13": "runtime monitor against exact integer segment predicates",
"C14": "runtime monitor against exact integer segment/polygon classification",
"C15": "runtime monitor: exact hull conditions and independent hull on integer and float clouds",
"C16": "runtime monitor: rectangle conditions and exhaustive minimum over hull edge orientations",
"C17": "runtime monitor: boxes against coordinates and against closed point sets",
"C18": "runtime monitor against exact integer moments, with translation checks",
"C19": "runtime monitor against independent distance computation and attainment conditions",
"C20": "runtime monitor: subsequence, deviation and idempotence conditions plus reference simplification",
"C21": "runtime monitor against vector geometry on the sphere",
"C22": "runtime monitor against trigonometric and exact-sign references",
"C23": "runtime monitor against an independent transverse Mercator series and round trips",
"C24": "runtime monitor against the published formulas and round trips",
"C25": "runtime monitor against an independent geohash computation and cell relations",
"C26": "runtime monitor of cell and covering conditions with sampled points of polygons",
"C27": "online history checker against a list model",
"C28": "runtime monitor of equality laws with perturbations around the tolerance",
"C29": "runtime monitor of the regular-polygon conditions",
"C30": "runtime monitor of the algebraic identities",
"C31": "runtime monitor: every operation on degenerate values, panic detection and neutral-result assertions",
"C33": "runtime monitor: repeated calls, held answers and overwritten answers compared over all read-only operations",
"C32": "runtime monitor against exact validity conditions on integer rings",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
assert set(ids) == set(M)
checks = [{
    "property": i,
    "quick_cmd": f"./check.sh {i}",
    "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i} -wall 3600",
    "evidence_file": f"evidence/{i}.json",
    "technique": M[i],
    "level": "exploration",
    "level_note": "real code executed under generated workloads, every execution judged by an oracle; coverage is what the evidence file reports, nothing beyond it is claimed",
} for i in ids]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": []}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
