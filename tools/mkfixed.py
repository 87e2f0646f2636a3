#!/usr/bin/env python3
"""Writes the fixed: lines of known_findings.jsonl from /repo's fix commits (known entries are kept)."""
import os, subprocess
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
path = os.path.join(here, "known_findings.jsonl")
MAP = {  # start of the commit subject -> property
"give every bulk-loaded leaf": "C01", "Rtree.Delete compares": "C02", "DeleteBySpatialID removes": "C02", "an emptied R-tree": "C02",
"NearestNeighbors with k": "C03", "R-tree insertion survives": "C02", "IsPointOnSegment uses": "C13", "IsPointOnLine does not": "C13",
"SegmentRelation on": "C13", "SegPolyRelation looks": "C14", "LinearPolyRelation looks": "C14", "a line that touches": "C14",
"SelfIntersect looks": "C14", "Polygon.Verify takes": "C32", "IsPointInPolygon respects": "C12", "polygon area leaves": "C18", "compute the area": "C18",
"polygon centroid leaves": "C18", "polygon centroid does not": "C18", "distance from a point in a hole": "C19", "ConvexHull does not": "C06",
"ConvexHull keeps": "C15", "Mbr tries": "C16", "Mbr of a geometry": "C16", "bounding boxes of coordinates": "C17", "bounding boxes of three": "C17",
"distance to a zero": "C19", "DouglasPeuckerSimplify does": "C06", "DouglasPeuckerSimplify terminates": "C20", "CoordGreateCircle of": "C21",
"CoordDistance of": "C21", "DestinationPoint at": "C21", "CacConvex rec": "C22", "inverse UTM": "C23", "UTM zone of": "C23", "UTM zone next": "C23", "UTM band": "C23",
"UTM hemisphere": "C23", "upper limits": "C23", "S2RegionCoverer does not": "C06", "S2RegionCoverer of an empty": "C31", "SetSrid writes": "C31",
"closing a ring": "C06", "rings and polygons from": "C31", "lines of different": "C28", "EuclideanDisZ": "C28", "InsertPoint at": "C27",
"negative line": "C27", "SplitByIndex": "C27", "Feature.SetBoundingBox": "C11", "GeoJSON encoding of three": "C09", "UnmarshalGeo returns": "C10",
"WKT positions": "C08", "WKT decoding keeps": "C07", "WKT decoding reads": "C08", "NearestNeighbors allocates": "C03", "close the ring of a box": "C17",
"convex hull of nearly": "C15", "rotating a polygon": "C22", "S2 covering of rings": "C26", "geohash of latitude": "C25", "DestinationPoint starting": "C21",
"the parts of a split": "C27", "distances beyond": "C19", "find and remove": "C31", "no S2 covering": "C31", "point in polygon near": "C12", "node boxes handed": "C33", "the union of a single": "C33",
}
keep = [l for l in open(path)] if os.path.exists(path) else []
keep = [l for l in keep if l.startswith("{")]
out = []
for l in subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True, check=True).stdout.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "): continue
    s = s[5:]
    ps = [p for k, p in MAP.items() if s.startswith(k)]
    assert len(ps) == 1, (s, ps)
    out.append(f"fixed: property={ps[0]} {h} {s}\n")
open(path, "w").writelines(keep + out)
print(len(out))
