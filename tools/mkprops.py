#!/usr/bin/env python3
"""Single source of the property list: writes /verif/properties.jsonl."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = state
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

# ---- spatial index
p("C01", "R-tree range and ID search return exactly the matching stored objects",
  "After any history of bulk loading, inserts, deletes and upserts, an intersection search returns exactly the stored objects whose bounding boxes share at least one point with the query box (edges and corners count), each stored copy once, and with a filter exactly those of them that the filter accepts. A search by object ID returns exactly the stored objects with that ID.",
  ["histories", "inputs"], "every operation history, every tree fan-out, every geometry kind with at least one point, every query box",
  "The two R-tree tests load five points and print what a search returned; no history with splits, underflow, reinsertion or insertion into a bulk-loaded tree is checked.",
  ["rtree.go", "box.go"], [("least-enlargement descent, node split, bounding-box adjustment", "rtree.go insert/chooseNode/split/adjustTree"), ("overlap-minimising bulk load", "rtree.go bulkLoad/omt"), ("pruned descent on box intersection", "rtree.go searchIntersectWithCond")],
  ["return values of SearchIntersect, SearchIntersectWithCond, SearchBySpatialID"],
  [{"name": "tree nodes and entry boxes", "meaning": "every object reachable under boxes that cover it", "where": "rtree.go node/entry"}])
p("C02", "R-tree updates conserve objects: none lost, duplicated or resurrected",
  "At every point of any history the tree holds exactly the objects inserted and not yet deleted, and its reported size is their number. Deleting an object succeeds exactly when an equal object (ID, properties and geometry of any kind) is stored and then removes exactly one; deleting with a comparator hands it the stored object and then the given one, and removes one accepted object with the given geometry; deleting by ID removes every object with that ID and reports whether there was one; an upsert leaves exactly the new object under its ID. The tree stays usable after being emptied.",
  ["histories", "inputs"], "every history of bulk load, insert, delete, delete-by-ID, delete-with-comparator, upsert, for every fan-out",
  "The tests delete one object by ID from a one-leaf tree; node underflow, root collapse, duplicate IDs, slice-backed geometries and reuse after emptying are never reached.",
  ["rtree.go"], [("leaf location and condense/reinsert", "rtree.go findLeaf/condenseTree/DeleteWithComparator"), ("delete-then-insert upsert", "rtree.go UpsertBySpatialID"), ("separate entry storage per leaf", "rtree.go omt")],
  ["Size, Delete*, full-extent search"])
p("C03", "Nearest-neighbour search returns the k closest stored objects in order",
  "For every point and every k the nearest-neighbour search returns min(k, size) distinct stored objects (none for k of zero), ordered by non-decreasing distance from the point to the object's bounding box, and no object left out is closer than one returned. This holds after any history of updates.",
  ["histories", "inputs"], "every tree history, every query point, every k from 0 to beyond the size",
  "No existing test calls the nearest-neighbour search.",
  ["rtree.go"], [("branch ordering and pruning by minimum box distance", "rtree.go nearestNeighbors/pruneEntriesMinDist"), ("bounded sorted result buffer", "rtree.go insertNearest")],
  ["return value of NearestNeighbors"])
p("C04", "R-tree hierarchy stays balanced and its boxes tight",
  "After any history every stored object lies inside at least depth-1 of the reported node boxes (one per level above it), every reported node box is spanned exactly by the boxes of stored objects inside it, and the tree holds no more objects than its fan-out and depth allow. A tree of depth 1 reports no node box, and the depth of a tree built by insertion alone or by bulk load alone stays logarithmic in its size.",
  ["histories", "inputs"], "every history, every fan-out with minimum at least 1",
  "The tests never look at the structure; a tree that degrades to a list or keeps stale boxes still answers their five-point queries.",
  ["rtree.go"], [("box recomputation on the path to the root", "rtree.go adjustTree/condenseTree"), ("root growth and collapse", "rtree.go insert/DeleteWithComparator")],
  ["Depth, GetAllBoundingBoxes, Size"])
p("C05", "Concurrent read-only use is race-free and gives the sequential answers",
  "Any number of goroutines may query one shared tree, compute on shared geometries and encode shared features at the same time, without a data race and with the same results as a sequential run. Goroutines that work on separate trees, geometries or texts never affect one another.",
  ["schedules", "inputs"], "every interleaving of read-only calls on shared values and of any calls on separate values",
  "All existing tests are single-goroutine and are not run under the race detector.",
  ["rtree.go", "convexhull.go", "simplify.go", "mbr.go", "googleS2.go", "wkt/decode.go", "wkt/encode.go", "geojson/geojson.go", "geojson/feature.go"],
  [("read paths write only to memory allocated by the call", "rtree.go search and nearest-neighbour code"), ("computations work on private copies of their arguments", "convexhull.go, simplify.go, googleS2.go")],
  ["Go race detector reports", "per-goroutine results"])
p("C06", "Queries and computations never modify their arguments",
  "No measuring, predicate, hull, simplification, rotation, covering, indexing-query or encoding function changes the geometry it is given, neither the coordinates nor the memory behind the end of the caller's slices. Geometry constructors and ring conversion likewise leave the caller's points, and the memory behind them, untouched.",
  ["inputs"], "every function of that kind, every geometry, every slice layout (sub-slices with spare capacity, shared backing arrays)",
  "The tests never look at the argument after a call and never pass slices with spare capacity.",
  ["convexhull.go", "mbr.go", "simplify.go", "googleS2.go", "linearRing.go", "linearRingZ.go", "calcaulation.go", "relation.go"],
  [("work on copies", "convexhull.go, simplify.go, googleS2.go, linearRing.go")],
  ["argument snapshot before and after each call"])

# ---- codecs
p("C07", "WKT encoding is well-formed and round-trips exactly",
  "For every non-empty point, multipoint, linestring, multilinestring, polygon (any number of rings) and multipolygon, in two or three dimensions and with any finite coordinates, the encoded text is well-formed WKT of that kind listing exactly its parts and coordinates in order. Decoding that text returns an equal geometry of the same kind and dimension. The exported writers of single kinds write the same lists.",
  ["inputs"], "every geometry kind and dimension, every number of parts, every finite double",
  "The WKT tests encode one multipolygon and decode one text, and ignore the result.",
  ["wkt/encode.go", "wkt/decode.go"], [("shortest exact decimal formatting", "wkt/encode.go GeometryToWktString*"), ("per-kind decoders", "wkt/decode.go")],
  ["wkt.Encode output", "wkt.Decode result"])
p("C08", "WKT decoding is total and never drops or invents coordinates",
  "Decoding any text returns either an error or a non-empty geometry, without panicking. Optional white space around the keyword, parentheses and commas, exponent notation and parenthesised multipoint members do not change the result, unclosed polygon rings come back closed, and whatever is accepted from text with a broken or inconsistent coordinate list is never silently shortened: missing ordinates, stray tokens, mixed dimensions or an undecodable part are errors. The exported readers of single kinds read the same lists.",
  ["inputs"], "every text",
  "Only one well-formed text is decoded by the tests.",
  ["wkt/decode.go"], [("length checks and error returns", "wkt/decode.go *FromWKT"), ("ring closure", "linearRing.go NewRingFromLine")],
  ["wkt.Decode result, error or panic"])
p("C09", "GeoJSON geometry encoding is conformant and round-trips exactly",
  "Every non-empty geometry of each kind, in two or three dimensions, is encoded as a GeoJSON object with the right type and exactly its coordinates, nested and ordered as RFC 7946 requires. Decoding the encoding of a point, linestring or polygon gives back an equal geometry of the same dimension, and for the kinds whose decoding is not supported an error. The exported converters of single kinds give the same lists and refuse other kinds.",
  ["inputs"], "every geometry kind and dimension, every number of parts, every finite double",
  "The geojson tests decode two points and never encode anything but a point; three-dimensional lines and polygons are never tried.",
  ["geojson/geojson.go"], [("coordinate conversion per kind", "geojson/geojson.go Convert*"), ("coordinate decoding per kind", "geojson/geojson.go inter2*")],
  ["MarshalGeo bytes", "UnmarshalGeo result"])
p("C10", "GeoJSON decoding of arbitrary input returns an error, never a panic",
  "Decoding a geometry, feature or feature collection from any JSON, including missing, null, mistyped, ragged or mixed-dimension coordinates and unknown types, returns either an error or a non-nil result and never panics. A geometry accepted from such input has exactly the leading ordinates the input listed.",
  ["inputs"], "every JSON document",
  "The tests decode only well-formed documents.",
  ["geojson/geojson.go", "geojson/feature.go", "geojson/feature_collection.go"], [("position decoding with type checks", "geojson/geojson.go decodePosition*/UnmarshalGeo")],
  ["UnmarshalGeo / UnmarshalFeature / UnmarshalFeatureCollection result, error or panic"])
p("C11", "Features and collections keep ID, properties, bbox, CRS, geometry and order",
  "Marshalling a feature or feature collection and unmarshalling the text again preserves each feature's ID, bounding box, properties, CRS and geometry, and a collection's features in number and order; an empty collection is written with an empty feature list. Setting the bounding box stores the geometry's extent in the feature. The typed property accessors return the stored value of that type and otherwise an error or the supplied default, and numbers are readable as integers.",
  ["inputs", "histories"], "every feature, property map and collection",
  "The tests check single properties of a fixed document and never compare a whole feature after a round trip; setting the bounding box is never tested.",
  ["geojson/feature.go", "geojson/feature_collection.go", "geojson/properties.go"], [("custom MarshalJSON", "geojson/feature.go, feature_collection.go"), ("typed accessors", "geojson/properties.go")],
  ["marshalled bytes, unmarshalled structs, accessor results"])

# ---- predicates
p("C12", "Point-in-polygon is exact for boundary, interior, exterior and holes",
  "For every polygon and every point, the classification is touch exactly when the point lies on a ring, contain exactly when it is strictly inside the outer ring and outside every hole, and disjoint otherwise. The answer does not depend on where a ring starts or on its direction.",
  ["inputs"], "every polygon (concave, with holes, with horizontal and collinear edges) and every point at coordinates separated by more than the library's coordinate tolerance",
  "Seven points against one fixed polygon are printed and three more loosely checked; edge, vertex and ray-through-vertex positions are not asserted.",
  ["contain.go", "relation.go"], [("ray casting with a boundary test per edge", "contain.go IsPointInPolygon"), ("collinearity plus box test", "relation.go IsPointOnSegment")],
  ["IsPointInPolygon result"])
p("C13", "Segment relations are exact and symmetric; on-segment tests are exact",
  "Two segments are disjoint exactly when they share no point, intersect exactly when they cross at a single point interior to both, and touch in every other case, whatever the order or direction in which they are given. Two lines intersect exactly when they share a point. A point is on a segment or line exactly when it lies on one of its segments.",
  ["inputs"], "every pair of segments and lines, including collinear, overlapping, endpoint-touching and degenerate ones",
  "No existing test calls these functions directly.",
  ["relation.go", "vector.go"], [("cross-product parametrisation", "relation.go SegmentRelation"), ("pairwise test", "relation.go LineRelation/IsPointOnLine")],
  ["SegmentRelation, LineRelation, IsPointOnSegment, IsPointOnLine results"])
p("C14", "Segment, line and ring versus polygon relations are sound",
  "A segment or line is reported as intersecting a polygon exactly when it properly crosses a polygon edge, as disjoint exactly when they share no point, and as contained exactly when it lies strictly in the interior; any other segment touches the boundary and is reported as cover, touch or unknown according to whether both, neither or one of its ends are in the closed polygon. The polygon-polygon relation applies this to the first polygon's outline, and a polygon is reported as self-intersecting exactly when two of its outer edges properly cross.",
  ["inputs"], "every simple polygon with or without holes, every segment, line and ring, with every choice of starting vertex",
  "No existing test calls these functions.",
  ["relation.go", "polygon.go", "contain.go"], [("edge loop with end-point classification", "relation.go SegPolyRelation"), ("relation folding over segments", "relation.go LinePolyRelation/LinearPolyRelation"), ("edge pair loop", "polygon.go SelfIntersect")],
  ["SegPolyRelation, LinePolyRelation, LinearPolyRelation, PolyRelation, SelfIntersect results"])
p("C15", "The convex hull is the convex hull",
  "For every set of at least three points that are not all on one line, the hull is a closed counter-clockwise convex ring whose vertices are input points, that contains every input point, and is the smallest such ring; no vertex lies on the line between its neighbours. The result as a region does not depend on the order or multiplicity of the input points.",
  ["inputs"], "every point set of any size and order, with duplicates and collinear runs",
  "One hull of five points is printed, never checked; larger inputs are not tried.",
  ["convexhull.go"], [("angular sort around the lowest point, then a stack scan", "convexhull.go ConvexHull")],
  ["ConvexHull result"])
p("C16", "The minimum bounding rectangle covers the geometry and has minimal area",
  "For every geometry whose points are not all on one line, the result is a rectangle that covers every point and whose area is the smallest over all orientations, up to the library's documented output resolution of 1e-4 per coordinate. Degenerate geometries give an empty result rather than a panic.",
  ["inputs"], "every multi-point, line, multi-line, polygon and multi-polygon of any vertex order, at any extent",
  "Two rectangles are printed, never checked.",
  ["mbr.go", "convexhull.go", "calcaulation.go"], [("edge-aligned rotation of the hull", "mbr.go Mbr")],
  ["Mbr result"])
p("C17", "Bounding boxes are tight and box algebra agrees with point sets",
  "The bounding box of every non-empty geometry of any kind and dimension is the smallest axis-aligned box containing its points. Box intersection, containment, union, point membership, size and conversion to a geometry agree with boxes read as closed point sets.",
  ["inputs"], "every geometry kind, dimension and coordinate magnitude, every pair of boxes including degenerate ones",
  "The tests print one envelope of a triangle.",
  ["box.go"], [("coordinate scan per kind", "box.go BoundingBox/calBox"), ("interval comparisons", "box.go Intersect/Contain/Union/IsPointInBox/BoxToGeo")],
  ["box values and box predicate results"])
p("C18", "Area and centroid match the exact planar values",
  "The area of a polygon is the exact area of its outer ring minus its holes whatever the starting vertex and direction of each ring and however small the polygon is against its distance from the origin, the area of a multipolygon is the sum over its members, and orientation is reported as counter-clockwise exactly when the signed outer area is positive. The centroid of a polygon is its centre of mass, of a line or ring the centre of mass of what it closes to, of a multipoint the mean and of a point itself, so centroids follow translations and centroids of convex polygons lie inside them. The double area of a triangle is signed by its direction.",
  ["inputs"], "every polygon with or without holes, every vertex order and direction, every multipoint",
  "Areas and centroids of single triangles are printed, never checked.",
  ["calcaulation.go", "polygon.go"], [("shoelace sums", "calcaulation.go relativeArea/polyCentroid"), ("sign of the shoelace sum", "polygon.go IsCCW")],
  ["GetArea, MultiPolyArea, IsCCW, Centroid results"])

# ---- metrics
p("C19", "Planar distances equal the true minimum distances",
  "Point-to-segment distance (including zero-length segments) is the minimum over the segment with the attaining point, point-to-line distance is to the perpendicular foot with its parameter, and point-to-polyline search returns the minimum, an attaining point and the index of a segment attaining it. Point-to-polygon distance is zero exactly when the point is in the closed polygon and otherwise the minimum distance to its rings; line length is the sum of segment lengths; Hausdorff distance is symmetric and is the larger of the two directed vertex distances.",
  ["inputs"], "every point, segment, line and polygon in a projected reference system; for geographic coordinates the same calls measure in metres on the sphere",
  "The tests print two distances and one Hausdorff value.",
  ["calcaulation.go", "point.go", "lineString.go"], [("clamped projection parameter", "calcaulation.go PointToSegmentDistance"), ("minimum folds", "calcaulation.go PointHitLineString/PointPolygonDistance/HausdorffDistance")],
  ["returned distances, nearest points and indices"])
p("C20", "Line simplification keeps the ends and stays within the threshold",
  "For every line and threshold, simplification terminates and returns an ordered subsequence of the original vertices that keeps both end points, every dropped vertex lying within the threshold of the kept segment that spans it. It is exactly the Douglas-Peucker result: a vertex is kept only where the deviation exceeds the threshold, so simplifying again changes nothing and closed or back-tracking lines keep their shape.",
  ["inputs"], "every line (closed, self-crossing, with repeated vertices) and every threshold, planar and geographic",
  "One straight five-point line is simplified and printed.",
  ["simplify.go", "calcaulation.go"], [("iterative farthest-point split", "simplify.go dpWorker")],
  ["DouglasPeuckerSimplify result"])
p("C21", "Spherical distance, azimuth and destination agree with the sphere",
  "For every pair of geographic points the great-circle and haversine distances equal the central angle times the earth radius, are symmetric, finite and zero for identical points, and the azimuth is the initial bearing in [0,360). Travelling from a point by a distance and bearing arrives at a point at that distance and initial bearing, with longitude normalised to [-180,180].",
  ["inputs"], "every pair of points on the globe, including poles, antipodes, identical points and antimeridian crossings",
  "One azimuth is printed; the distance formulas are only called through a projected reference system.",
  ["point.go", "angle.go", "calcaulation.go"], [("haversine and spherical law of cosines", "point.go CoordDistance/CoordGreateCircle"), ("atan2 bearing", "angle.go GetAzimuth"), ("direct spherical solution", "point.go DestinationPoint")],
  ["returned distances, bearings and coordinates"])
p("C22", "Rotations are rigid, angles and convexity have the right sign",
  "Rotating a point or polygon clockwise by an angle about a centre moves every vertex to its exact rotated position to within 1e-4 per coordinate, and counter-clockwise rotation is the inverse. The angle at a vertex is the counter-clockwise turn between its arms in [0,2pi) with an error for repeated points, the quadrant angle is the direction of the second point from the first, and a vertex is classified convex, concave or straight by the exact sign of its turn.",
  ["inputs"], "every geometry, centre and angle; every triple of points",
  "One rotation by 45 degrees is printed.",
  ["calcaulation.go"], [("rotation matrix", "calcaulation.go RotateCW/RotateCCW"), ("atan2 difference", "calcaulation.go CacAngle/CacQuadrantAngle/CacConvex")],
  ["returned geometries, angles and classes"])
p("C23", "UTM conversion is accurate, invertible and picks the right zone",
  "For every latitude in [-80,84] and longitude in [-180,180] the conversion yields the UTM zone number in 1..60 (with the Norway and Svalbard exceptions), the latitude band letter (or hemisphere letter on request), and easting and northing of the WGS84 transverse Mercator projection to within five millimetres. Converting back, by letter or by hemisphere, returns the original position (to within five millimetres, centimetres in the wider zones of Norway and Svalbard), and out-of-range latitudes, longitudes, eastings, northings, zones and letters are rejected with an error.",
  ["inputs"], "every position in the UTM domain including band and zone limits, the antimeridian and the equator, and every out-of-domain argument",
  "One position is converted and printed; the inverse is never called.",
  ["utm.go"], [("series expansion forward and inverse", "utm.go FromLatLon/ToLatLon"), ("zone and band selection", "utm.go latLonToZoneNumber/latitudeToZoneLetter"), ("argument validation", "utm.go ValidateLatLone/ToLatLon")],
  ["returned coordinates, zones, letters and errors"])
p("C24", "China datum conversions follow the published transforms and invert",
  "For every position the WGS84, GCJ-02 and BD-09 conversions equal the published transformation formulas, and WGS84 to GCJ-02 is the identity outside the bounding region of China. Converting to another datum and back returns the original position to within the accuracy of the published inverse approximations.",
  ["inputs"], "every longitude and latitude, inside and outside China",
  "No existing test calls these functions.",
  ["lonlat.go"], [("offset polynomials and BD-09 rotation", "lonlat.go delta/transformlat/transformlng/BD09toGCJ02/GCJ02toBD09"), ("region test", "lonlat.go isOutOFChina")],
  ["returned coordinates"])

# ---- grids
p("C25", "Geohash cells contain their points and tile consistently",
  "Encoding a position (x longitude, y latitude) at a precision gives the standard geohash of that length, its boundary contains the position, its centre is the middle of the boundary and encodes to the same hash, and a longer hash is nested in every prefix. The neighbours of a cell are eight cells of the same size in the order N, NE, E, SE, S, SW, W, NW, each the adjacent cell in its direction unless that lies beyond a pole, and never the cell itself.",
  ["inputs"], "every position and precision from 1 to 12",
  "The tests print results for one hash.",
  ["geohash.go"], [("coordinate order mapping onto the geohash library", "geohash.go")],
  ["hash strings, boxes and centres"])
p("C26", "S2 cells contain their points and coverings cover the polygon",
  "For a geographic position the cell at a level is the level-L S2 cell containing it, the cell's centre lies in the cell, its boundary is the cell's four corners, and its neighbours are exactly the same-level cells that touch it. The covering of a polygon without holes, in either vertex direction, consists of distinct cells of the requested level that meet the polygon and together contain every point of it. For other reference systems the cell functions give no cell, centre, boundary or neighbours.",
  ["inputs"], "every position, level and polygon smaller than a hemisphere",
  "The tests print results for one cell and one small polygon.",
  ["googleS2.go"], [("coordinate order mapping onto the S2 library", "googleS2.go S2Get*"), ("orientation normalisation before covering", "googleS2.go S2RegionCoverer/toLoop")],
  ["cell IDs, centres, vertices"])

# ---- model operations
p("C27", "Line, ring and collection editing behaves like list editing",
  "Under any sequence of edits a line behaves as a list of points: append, set, insert, delete, reverse, split, count, and first, last and indexed access have their list meaning, an out-of-range position is refused with an error (or a nil point) and changes nothing, and the two parts of a split join back to the original and can be edited without affecting each other or the original. Rings built from two or more points are closed and otherwise unchanged; polygons, multi-geometries and their three-dimensional counterparts return the parts they were given in order.",
  ["histories", "inputs"], "every sequence of edits and positions, including negative, end and beyond-end positions",
  "No existing test calls the editing functions.",
  ["lineString.go", "lineStringZ.go", "linearRing.go", "linearRingZ.go", "polygon.go", "polygonZ.go", "multipoint.go", "multipointZ.go", "multilinestring.go", "multiLineStringZ.go", "multipolygon.go", "multipolygonZ.go", "point.go", "pointZ.go"],
  [("slice operations with bounds checks", "lineString.go"), ("ring closure", "linearRing.go")],
  ["line contents after each edit"])
p("C28", "Equality is symmetric and respects length and the coordinate tolerance",
  "Two points are equal exactly when every coordinate differs by less than the library's coordinate tolerance, and two lines are equal exactly when they have the same number of points and their points are pairwise equal. Equality is reflexive and symmetric, never panics, and holds for two and three dimensions; the three-dimensional distance between points is the Euclidean metric.",
  ["inputs"], "every pair of points and lines of any lengths",
  "No existing test calls the equality functions.",
  ["point.go", "pointZ.go", "lineString.go", "lineStringZ.go"], [("per-coordinate tolerance", "point.go/pointZ.go Equal"), ("pairwise comparison", "lineString.go/lineStringZ.go Equal")],
  ["Equal results"])
p("C29", "A point buffer is the regular polygon of the requested radius",
  "For every centre and non-negative radius the buffer is a closed polygon whose vertices all lie at the radius from the centre at equal angular steps of a 24-gon, so it contains the centre and has the 24-gon's area. A negative radius gives no polygon.",
  ["inputs"], "every centre and radius",
  "The buffer test does not compile at this commit, so nothing is tested.",
  ["buffer.go", "point.go"], [("angular stepping", "buffer.go getBufferCoordsByRadian")],
  ["Buffer result"])
p("C30", "Vector operations satisfy plane vector algebra",
  "Vectors from points and segments run from the first to the second point; sum, difference, scaling, dot and cross product, length and its square have their algebraic meaning, and normalising gives a unit vector of the same direction without changing the source where a new vector is returned. Dividing by zero is refused.",
  ["inputs"], "every pair of vectors and scalars",
  "No existing test calls the vector functions.",
  ["vector.go"], [("component arithmetic", "vector.go")],
  ["returned vectors and scalars"])
p("C31", "Degenerate geometries never crash the library and kinds are consistent",
  "Empty, single-point, repeated-point and flat geometries of every kind can be constructed, measured, classified, indexed, encoded and tagged with a reference system without a panic and with neutral results: no length, no area, no covering, and no coordinates in the text or an error. Tagging records the reference system given, and the named reference systems have their EPSG numbers. Every geometry reports its own kind, consistently with the keyword and type name it is encoded under.",
  ["inputs"], "every geometry kind with zero, one or repeated points, through every public operation",
  "The tests use only well-formed geometries.",
  ["type.go", "polygon.go", "linearRing.go", "linearRingZ.go", "calcaulation.go", "googleS2.go", "srid.go", "multipoint.go", "geometry.go"],
  [("nil and length checks", "linearRing.go, polygon.go, calcaulation.go"), ("kind tags", "type.go")],
  ["results and panics"])
p("C32", "Polygon validation accepts exactly valid geographic polygons",
  "Validation of a polygon with longitude as x and latitude as y succeeds exactly when its outer ring has at least three vertices, every longitude is within [-180,180] and latitude within [-90,90], its area is not zero and no two of its outer edges properly cross. Otherwise it returns an error and never panics.",
  ["inputs"], "every outer ring over the whole globe and beyond",
  "No existing test validates a polygon.",
  ["polygon.go", "lineString.go"], [("count, range, area and self-intersection checks", "polygon.go Verify")],
  ["Verify result"])
p("C33", "Answers depend on the arguments alone and belong to the caller",
  "Every measuring, predicate, shape, index-query, encoding and decoding function gives the same answer when asked again with equal arguments, whatever was called in between and wherever the arguments lie in memory. What it returns (hulls, rectangles, boxes, node boxes, simplified and rotated shapes, split lines, coverings, neighbours, query result lists, encoded bytes, decoded geometries and features) does not change later, and the caller may overwrite all of it without changing the arguments, a tree, or any earlier or later answer.",
  ["histories", "inputs"], "every read-only function, every argument, every sequence of calls in between",
  "The tests call each function once and never touch what it returned.",
  ["rtree.go", "convexhull.go", "simplify.go", "mbr.go", "calcaulation.go", "box.go", "lineString.go", "geohash.go", "googleS2.go", "wkt/decode.go", "wkt/encode.go", "geojson/geojson.go", "geojson/feature.go"],
  [("results are allocated by the call", "rtree.go, simplify.go, calcaulation.go, wkt/decode.go"), ("no package-level state", "all packages")],
  ["answers before and after repetition, interposed calls and overwriting"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
