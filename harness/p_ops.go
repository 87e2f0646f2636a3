package main

// The table of all read-only operations of the library on one set of shared values (env), used by the
// monitors of C05 (concurrent use), C06 (no modification of arguments) and C31 (degenerate values).

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand/v2"
	"reflect"
	"runtime"
	"sort"
	"strings"

	geo "github.com/hzw456/go-geo"
	"github.com/hzw456/go-geo/geojson"
	"github.com/hzw456/go-geo/wkt"
)

// env is everything the operations are given.
type env struct {
	Pts    []geo.Point
	PtsZ   []geo.PointZ
	Lines  []geo.LineString
	LinesZ []geo.LineStringZ
	Rings  []geo.LinearRing
	RingsZ []geo.LinearRingZ
	Polys  []geo.Polygon
	PolysZ []geo.PolygonZ
	MPolys []geo.MultiPolygon
	Geoms  []geo.Geometry // of every kind
	Boxes  []*geo.Box
	Sps    []geo.Spatial
	Texts  []string
	Jsons  [][]byte
	Gjs    []*geojson.GeoJson
	Feats  []*geojson.Feature
	Colls  []*geojson.FeatureCollection
	Srid   geo.SRID
	Thr    float64
	tree   *geo.Rtree // shares Sps
	level  int
}

func pick[T any](r *rand.Rand, s []T) T {
	if len(s) == 0 {
		var z T
		return z
	}
	return s[r.IntN(len(s))]
}

type op struct {
	name string
	run  func(e *env, r *rand.Rand) any
}

type multi []any

func yes(n *int) geo.Condition {
	return func(o ...geo.Spatial) bool {
		runtime.Gosched()
		return len(o) > 0 && len(o[len(o)-1].ID)%2 == *n%2
	}
}

// sorted makes a list of results independent of their order.
func sorted(sp []geo.Spatial) []string {
	k := make([]string, len(sp))
	for i, s := range sp {
		k[i] = spKey(s)
	}
	sort.Strings(k)
	return k
}

// readOps are operations that change none of their arguments.
var readOps = []op{
	// measuring
	{"GetArea", func(e *env, r *rand.Rand) any { return geo.GetArea(pick(r, e.Geoms)) }},
	{"MultiPolyArea", func(e *env, r *rand.Rand) any { return geo.MultiPolyArea(pick(r, e.MPolys)) }},
	{"Area2", func(e *env, r *rand.Rand) any { return geo.Area2(pick(r, e.Pts), pick(r, e.Pts), pick(r, e.Pts)) }},
	{"Centroid", func(e *env, r *rand.Rand) any { return geo.Centroid(pick(r, e.Geoms)) }},
	{"LinearCentroid", func(e *env, r *rand.Rand) any { return geo.LinearCentroid(pick(r, e.Rings)) }},
	{"CacAngle", func(e *env, r *rand.Rand) any {
		a, err := geo.CacAngle(pick(r, e.Pts), pick(r, e.Pts), pick(r, e.Pts))
		return multi{a, err != nil}
	}},
	{"CacConvex", func(e *env, r *rand.Rand) any {
		a, err := geo.CacConvex(pick(r, e.Pts), pick(r, e.Pts), pick(r, e.Pts))
		return multi{a, err != nil}
	}},
	{"CacQuadrantAngle", func(e *env, r *rand.Rand) any {
		a, err := geo.CacQuadrantAngle(pick(r, e.Pts), pick(r, e.Pts))
		return multi{a, err != nil}
	}},
	{"PointDistance", func(e *env, r *rand.Rand) any { return geo.PointDistance(pick(r, e.Pts), pick(r, e.Pts), e.Srid) }},
	{"CoordDistance", func(e *env, r *rand.Rand) any { return geo.CoordDistance(pick(r, e.Pts), pick(r, e.Pts)) }},
	{"CoordGreateCircle", func(e *env, r *rand.Rand) any { return geo.CoordGreateCircle(pick(r, e.Pts), pick(r, e.Pts)) }},
	{"EuclideanDis", func(e *env, r *rand.Rand) any {
		a, b := pick(r, e.Pts), pick(r, e.Pts)
		return multi{geo.EuclideanDis(a, b), geo.EuclideanDistance(a, b), a.Distance(b)}
	}},
	{"EuclideanDisZ", func(e *env, r *rand.Rand) any { return geo.EuclideanDisZ(pick(r, e.PtsZ), pick(r, e.PtsZ)) }},
	{"GetAzimuth", func(e *env, r *rand.Rand) any { return geo.GetAzimuth(pick(r, e.Pts), pick(r, e.Pts), e.Srid) }},
	{"DestinationPoint", func(e *env, r *rand.Rand) any {
		p := pick(r, e.Pts)
		a, b := geo.DestinationPoint(p.Y, p.X, 1000*e.Thr, 30)
		return multi{a, b}
	}},
	{"PointToSegmentDistance", func(e *env, r *rand.Rand) any {
		d, p := geo.PointToSegmentDistance(pick(r, e.Pts), pick(r, e.Pts), pick(r, e.Pts), e.Srid)
		return multi{d, p}
	}},
	{"PointToLineDistance", func(e *env, r *rand.Rand) any {
		d, p, t := geo.PointToLineDistance(pick(r, e.Pts), pick(r, e.Pts), pick(r, e.Pts), e.Srid)
		return multi{d, p, t}
	}},
	{"PointHitLineString", func(e *env, r *rand.Rand) any {
		p, i, d := geo.PointHitLineString(pick(r, e.Pts), pick(r, e.Lines), e.Srid)
		return multi{p, i, d}
	}},
	{"PointPolygonDistance", func(e *env, r *rand.Rand) any {
		return geo.PointPolygonDistance(pick(r, e.Pts), pick(r, e.Polys), e.Srid)
	}},
	{"HausdorffDistance", func(e *env, r *rand.Rand) any {
		return geo.HausdorffDistance(pick(r, e.Lines), pick(r, e.Lines), e.Srid)
	}},
	{"LineString.Length", func(e *env, r *rand.Rand) any { return pick(r, e.Lines).Length() }},
	// predicates
	{"IsPointInBox", func(e *env, r *rand.Rand) any { return geo.IsPointInBox(pick(r, e.Boxes), pick(r, e.Pts)) }},
	{"IsPointOnLine", func(e *env, r *rand.Rand) any { return geo.IsPointOnLine(pick(r, e.Pts), pick(r, e.Lines)) }},
	{"IsPointOnSegment", func(e *env, r *rand.Rand) any {
		return geo.IsPointOnSegment(pick(r, e.Pts), pick(r, e.Pts), pick(r, e.Pts))
	}},
	{"IsPointInPolygon", func(e *env, r *rand.Rand) any { return geo.IsPointInPolygon(pick(r, e.Pts), pick(r, e.Polys)) }},
	{"SegmentRelation", func(e *env, r *rand.Rand) any {
		return geo.SegmentRelation(geo.LineSegment{Start: pick(r, e.Pts), End: pick(r, e.Pts)}, geo.LineSegment{Start: pick(r, e.Pts), End: pick(r, e.Pts)})
	}},
	{"LineRelation", func(e *env, r *rand.Rand) any { return geo.LineRelation(pick(r, e.Lines), pick(r, e.Lines)) }},
	{"SegPolyRelation", func(e *env, r *rand.Rand) any {
		return geo.SegPolyRelation(geo.LineSegment{Start: pick(r, e.Pts), End: pick(r, e.Pts)}, pick(r, e.Polys))
	}},
	{"LinePolyRelation", func(e *env, r *rand.Rand) any { return geo.LinePolyRelation(pick(r, e.Lines), pick(r, e.Polys)) }},
	{"LinearPolyRelation", func(e *env, r *rand.Rand) any { return geo.LinearPolyRelation(pick(r, e.Rings), pick(r, e.Polys)) }},
	{"PolyRelation", func(e *env, r *rand.Rand) any { return geo.PolyRelation(pick(r, e.Polys), pick(r, e.Polys)) }},
	{"Polygon.SelfIntersect", func(e *env, r *rand.Rand) any { return pick(r, e.Polys).SelfIntersect() }},
	{"Polygon.IsCCW", func(e *env, r *rand.Rand) any { return pick(r, e.Polys).IsCCW() }},
	{"Polygon.Verify", func(e *env, r *rand.Rand) any { p := pick(r, e.Polys); return p.Verify() != nil }},
	{"LineString.Verify", func(e *env, r *rand.Rand) any { return pick(r, e.Lines).Verify() != nil }},
	{"Point.Equal", func(e *env, r *rand.Rand) any {
		return multi{pick(r, e.Pts).Equal(pick(r, e.Pts)), pick(r, e.PtsZ).Equal(pick(r, e.PtsZ))}
	}},
	{"LineString.Equal", func(e *env, r *rand.Rand) any { return pick(r, e.Lines).Equal(pick(r, e.Lines)) }},
	{"LineStringZ.Equal", func(e *env, r *rand.Rand) any { return pick(r, e.LinesZ).Equal(pick(r, e.LinesZ)) }},
	// shapes
	{"ConvexHull", func(e *env, r *rand.Rand) any { return geo.ConvexHull(e.Pts...) }},
	{"ConvexHull of a line", func(e *env, r *rand.Rand) any { return geo.ConvexHull(pick(r, e.Lines)...) }},
	{"Mbr", func(e *env, r *rand.Rand) any { return geo.Mbr(pick(r, e.Geoms)) }},
	{"RotateCW", func(e *env, r *rand.Rand) any { return geo.RotateCW(pick(r, e.Geoms), pick(r, e.Pts), 30) }},
	{"RotateCCW", func(e *env, r *rand.Rand) any { return geo.RotateCCW(pick(r, e.Geoms), pick(r, e.Pts), 75) }},
	{"DouglasPeuckerSimplify", func(e *env, r *rand.Rand) any {
		return geo.DouglasPeuckerSimplify(pick(r, e.Lines), e.Thr, e.Srid)
	}},
	{"Point.Buffer", func(e *env, r *rand.Rand) any { return pick(r, e.Pts).Buffer(e.Thr) }},
	{"BoundingBox", func(e *env, r *rand.Rand) any { return geo.BoundingBox(pick(r, e.Geoms)) }},
	{"Box operations", func(e *env, r *rand.Rand) any {
		a, b := pick(r, e.Boxes), pick(r, e.Boxes)
		return multi{a.Contain(b), a.Intersect(b), a.Size(), a.Union(b), geo.BoxUnion(e.Boxes...), geo.BoxToGeo(*a)}
	}},
	// grids
	{"GeohashEncode", func(e *env, r *rand.Rand) any { return geo.GeohashEncode(pick(r, e.Pts), uint(1+r.IntN(9)), e.Srid) }},
	{"Geohash queries", func(e *env, r *rand.Rand) any {
		h := []string{"wx4g0", "s", "7zzzz", "u4pruydqq"}[r.IntN(4)]
		return multi{geo.GeohashGetAllNeighbors(h, e.Srid), geo.GeohashGetBoundary(h, e.Srid), geo.GeohashGetCenter(h, e.Srid)}
	}},
	{"S2RegionCoverer", func(e *env, r *rand.Rand) any {
		l := append([]uint64(nil), geo.S2RegionCoverer(pick(r, e.Polys), e.level, e.Srid)...)
		sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
		return l
	}},
	{"S2 queries", func(e *env, r *rand.Rand) any {
		id := geo.S2GetCellID(pick(r, e.Pts), e.level, geo.SRID_WGS84_GPS)
		return multi{geo.S2GetCellID(pick(r, e.Pts), e.level, e.Srid), geo.S2GetAllNeighbors(id, e.Srid), geo.S2GetBoundary(id, e.Srid), geo.S2GetCenter(id, e.Srid)}
	}},
	// projections
	{"FromLatLon", func(e *env, r *rand.Rand) any {
		p := pick(r, e.Pts)
		a, b, z, l, err := geo.FromLatLon(p.Y, p.X, r.IntN(2) == 0)
		return multi{a, b, z, l, err != nil, geo.ValidateLatLone(p.Y, p.X) != nil}
	}},
	{"ToLatLon", func(e *env, r *rand.Rand) any {
		la, lo, err := geo.ToLatLon(500000+1000*e.Thr, 4000000, 1+r.IntN(60), "S")
		return multi{la, lo, err != nil}
	}},
	{"datum conversions", func(e *env, r *rand.Rand) any {
		p := pick(r, e.Pts)
		var m multi
		for _, f := range []func(a, b float64) (float64, float64){geo.WGS84toGCJ02, geo.WGS84toBD09, geo.GCJ02toBD09, geo.GCJ02toWGS84, geo.BD09toGCJ02, geo.BD09toWGS84} {
			a, b := f(p.X, p.Y)
			m = append(m, a, b)
		}
		return m
	}},
	// constructors and conversions
	{"NewLineString", func(e *env, r *rand.Rand) any { return geo.NewLineString(e.Pts...) }},
	{"NewLineString of a line", func(e *env, r *rand.Rand) any { return geo.NewLineString(pick(r, e.Lines)...) }},
	{"NewLineStringZ", func(e *env, r *rand.Rand) any { return geo.NewLineStringZ(e.PtsZ...) }},
	{"NewLinearRing", func(e *env, r *rand.Rand) any { return geo.NewLinearRing(pick(r, e.Lines)...) }},
	{"NewLinearRingZ", func(e *env, r *rand.Rand) any { return geo.NewLinearRingZ(pick(r, e.LinesZ)...) }},
	{"NewRingFromLine", func(e *env, r *rand.Rand) any { return geo.NewRingFromLine(pick(r, e.Lines)) }},
	{"NewRingFromLineZ", func(e *env, r *rand.Rand) any { return geo.NewRingFromLineZ(pick(r, e.LinesZ)) }},
	{"LineString.ToRing", func(e *env, r *rand.Rand) any { return pick(r, e.Lines).ToRing() }},
	{"LineStringZ.ToRing", func(e *env, r *rand.Rand) any { return pick(r, e.LinesZ).ToRing() }},
	{"LinearRing.ToLineString", func(e *env, r *rand.Rand) any { return pick(r, e.Rings).ToLineString() }},
	{"LinearRingZ.ToLineString", func(e *env, r *rand.Rand) any { return pick(r, e.RingsZ).ToLineString() }},
	{"NewMultiPoint", func(e *env, r *rand.Rand) any { return geo.NewMultiPoint(e.Pts...) }},
	{"NewMultiPointZ", func(e *env, r *rand.Rand) any { return geo.NewMultiPointZ(e.PtsZ...) }},
	{"NewMultiLineString", func(e *env, r *rand.Rand) any { return geo.NewMultiLineString(e.Lines...) }},
	{"NewMultiLineStringZ", func(e *env, r *rand.Rand) any { return geo.NewMultiLineStringZ(e.LinesZ...) }},
	{"NewPolygon", func(e *env, r *rand.Rand) any { return geo.NewPolygon(e.Rings...) }},
	{"NewPolygonZ", func(e *env, r *rand.Rand) any { return geo.NewPolygonZ(e.RingsZ...) }},
	{"NewPolygonFromPois", func(e *env, r *rand.Rand) any { return geo.NewPolygonFromPois(pick(r, e.Lines)...) }},
	{"NewPolygonZFromPois", func(e *env, r *rand.Rand) any { return geo.NewPolygonZFromPois(pick(r, e.LinesZ)...) }},
	{"NewMultiPolygon", func(e *env, r *rand.Rand) any { return geo.NewMultiPolygon(e.Polys...) }},
	{"NewMultiPolygonZ", func(e *env, r *rand.Rand) any { return geo.NewMultiPolygonZ(e.PolysZ...) }},
	{"line accessors", func(e *env, r *rand.Rand) any {
		l := pick(r, e.Lines)
		m := multi{l.GetPointCount(), l.GetPointSet(), l.GetFirstPoint(), l.GetEndPoint(), l.GetPoint(0), l.GetPoint(1), l.GetPoint(-1)}
		lz := pick(r, e.LinesZ)
		return append(m, lz.GetPointCount(), lz.GetPointSet(), lz.GetFirstPoint(), lz.GetEndPoint())
	}},
	{"SplitByIndex", func(e *env, r *rand.Rand) any {
		l := pick(r, e.Lines)
		a, b := l.SplitByIndex(r.IntN(len(l) + 2))
		return multi{a, b}
	}},
	{"polygon accessors", func(e *env, r *rand.Rand) any {
		p, pz := pick(r, e.Polys), pick(r, e.PolysZ)
		g := pick(r, e.Rings)
		return multi{p.GetExteriorRing(), p.GetInteriorRing(), p.GetExteriorPoints(), pz.GetExteriorRing(), pz.GetInteriorRing(), pz.GetExteriorPoints(), g.GetPointCount(), g.GetPointSet()}
	}},
	{"vectors", func(e *env, r *rand.Rand) any {
		a := geo.ConvertPointToVector(pick(r, e.Pts), pick(r, e.Pts))
		b := geo.ConvertSegToVector(geo.LineSegment{Start: pick(r, e.Pts), End: pick(r, e.Pts)})
		return multi{a, b, geo.Add(*a, *b), a.Sub(*b), a.Dot(*b), a.Cross(*b), a.Length(), a.LengthSq(), a.Equal(*b), a.Clone()}
	}},
	// encoding
	{"wkt.Encode", func(e *env, r *rand.Rand) any { return wkt.Encode(pick(r, e.Geoms)) }},
	{"wkt writers", func(e *env, r *rand.Rand) any {
		return multi{wkt.PathToWktString(pick(r, e.Lines)), wkt.PathZToWktString(pick(r, e.LinesZ)), wkt.PolygonToWktString(e.Lines), wkt.PolygonToWktString2(pick(r, e.Polys)),
			wkt.PolygonZToWktString(e.LinesZ), wkt.PolygonZToWktString2(pick(r, e.PolysZ)), wkt.MultiPolygonToWktString(e.Polys), wkt.MultiPolygonZToWktString(e.PolysZ)}
	}},
	{"wkt.Decode", func(e *env, r *rand.Rand) any { g, err := wkt.Decode(pick(r, e.Texts)); return multi{g, err != nil} }},
	{"geojson.MarshalGeo", func(e *env, r *rand.Rand) any {
		b, err := geojson.MarshalGeo(pick(r, e.Geoms))
		return multi{string(b), err != nil}
	}},
	{"geojson converters", func(e *env, r *rand.Rand) any {
		g := pick(r, e.Geoms)
		var m multi
		add := func(v any, err error) { m = append(m, v, err != nil) }
		switch g.(type) {
		case geo.Point:
			v, err := geojson.ConvertPoi(g.(geo.Point))
			add(v, err)
		case geo.PointZ:
			v, err := geojson.ConvertPoiZ(g.(geo.PointZ))
			add(v, err)
		case geo.MultiPoint, geo.LineString:
			v, err := geojson.ConvertPoiSet(g)
			add(v, err)
		case geo.MultiPointZ, geo.LineStringZ:
			v, err := geojson.ConvertPoiZSet(g)
			add(v, err)
		case geo.MultiLineString, geo.Polygon:
			v, err := geojson.ConvertPathSet(g)
			add(v, err)
		case geo.MultiLineStringZ, geo.PolygonZ:
			v, err := geojson.ConvertPathZSet(g)
			add(v, err)
		case geo.MultiPolygon:
			v, err := geojson.ConvertPolygonSet(g)
			add(v, err)
		case geo.MultiPolygonZ:
			v, err := geojson.ConvertPolygonZSet(g)
			add(v, err)
		}
		return m
	}},
	{"geojson.UnmarshalGeo", func(e *env, r *rand.Rand) any {
		g, err := geojson.UnmarshalGeo(pick(r, e.Gjs))
		return multi{g, err != nil}
	}},
	{"geojson.UnmarshalFeature", func(e *env, r *rand.Rand) any {
		f, err := geojson.UnmarshalFeature(pick(r, e.Jsons))
		return multi{f, err != nil}
	}},
	{"geojson.NewFeature", func(e *env, r *rand.Rand) any { return geojson.NewFeature(pick(r, e.Geoms)) }},
	{"Feature.MarshalJSON", func(e *env, r *rand.Rand) any {
		f := pick(r, e.Feats)
		if f == nil {
			return nil
		}
		b, err := f.MarshalJSON()
		return multi{string(b), err != nil}
	}},
	{"json.Marshal of a feature", func(e *env, r *rand.Rand) any {
		b, err := json.Marshal(pick(r, e.Feats))
		return multi{string(b), err != nil}
	}},
	{"FeatureCollection.MarshalJSON", func(e *env, r *rand.Rand) any {
		c := pick(r, e.Colls)
		if c == nil {
			return nil
		}
		b, err := c.MarshalJSON()
		return multi{string(b), err != nil}
	}},
	{"feature properties", func(e *env, r *rand.Rand) any {
		f := pick(r, e.Feats)
		if f == nil {
			return nil
		}
		k := []string{"a", "b", "n", "none"}[r.IntN(4)]
		b, e1 := f.PropertyBool(k)
		fl, e2 := f.PropertyFloat64(k)
		i, e3 := f.PropertyInt(k)
		s, e4 := f.PropertyString(k)
		return multi{b, fl, i, s, e1 != nil, e2 != nil, e3 != nil, e4 != nil, f.PropertyMustBool(k, true), f.PropertyMustFloat64(k, 2), f.PropertyMustInt(k, 3), f.PropertyMustString(k, "d")}
	}},
	// arguments for which there is little to do
	{"rotations by special angles", func(e *env, r *rand.Rand) any {
		a := []float64{0, math.Pi, math.Pi / 2, 2 * math.Pi, -2 * math.Pi, 1e-9, 4 * math.Pi}[r.IntN(7)]
		c := []geo.Point{{}, pick(r, e.Pts), {X: 1e6, Y: 1}}[r.IntN(3)]
		if o := e.Polys[0].GetExteriorRing(); len(o) > 0 && r.IntN(3) == 0 {
			c = o[0]
		}
		p := pick(r, e.Polys)
		return multi{geo.RotateCW(p, c, a), geo.RotateCCW(p, c, a), geo.RotateCW(c, c, a)}
	}},
	{"simplification by special thresholds", func(e *env, r *rand.Rand) any {
		var m multi
		for _, t := range []float64{0, -1, 1e-12, 1e12, math.Inf(1)} {
			m = append(m, geo.DouglasPeuckerSimplify(pick(r, e.Lines), t, e.Srid))
		}
		return m
	}},
	{"unions of the same and of nested boxes", func(e *env, r *rand.Rand) any {
		a, b := pick(r, e.Boxes), pick(r, e.Boxes)
		u := a.Union(b)
		return multi{a.Union(a), geo.BoxUnion(a), geo.BoxUnion(a, a), geo.BoxUnion(u, a), geo.BoxUnion(a, u, b), u.Union(a), a.Union(u)}
	}},
	{"hulls and boxes of few points", func(e *env, r *rand.Rand) any {
		l := pick(r, e.Lines)
		g := pick(r, e.Rings)
		one, two := l[:min(1, len(l))], l[:min(2, len(l))]
		m := multi{geo.ConvexHull(two...), geo.ConvexHull(g...), geo.Mbr(geo.Polygon{g}), geo.Mbr(two), geo.BoundingBox(one), geo.BoundingBox(pick(r, e.Pts)), geo.BoxToGeo(*geo.BoundingBox(one)), geo.BoxToGeo(*pick(r, e.Boxes))}
		return append(m, geo.DouglasPeuckerSimplify(two, 1, e.Srid), geo.DouglasPeuckerSimplify(one, 1, e.Srid))
	}},
	{"splits at the ends", func(e *env, r *rand.Rand) any {
		l := pick(r, e.Lines)
		var m multi
		for _, i := range []int{0, 1, len(l) - 1, len(l)} {
			a, b := l.SplitByIndex(i)
			m = append(m, a, b)
		}
		return m
	}},
	// the index
	{"all neighbours", func(e *env, r *rand.Rand) any {
		var m multi
		for _, k := range []int{0, 1, e.tree.Size(), e.tree.Size() + 3} {
			m = append(m, len(e.tree.NearestNeighbors(k, pick(r, e.Pts))))
		}
		return m
	}},
	{"tree.SearchIntersect", func(e *env, r *rand.Rand) any { return sorted(e.tree.SearchIntersect(pick(r, e.Boxes))) }},
	{"tree.SearchIntersectWithCond", func(e *env, r *rand.Rand) any {
		n := r.IntN(2)
		return sorted(e.tree.SearchIntersectWithCond(pick(r, e.Boxes), yes(&n)))
	}},
	{"tree.SearchBySpatialID", func(e *env, r *rand.Rand) any { return sorted(e.tree.SearchBySpatialID(fmt.Sprint("o", r.IntN(20)))) }},
	{"tree.NearestNeighbors", func(e *env, r *rand.Rand) any { return e.tree.NearestNeighbors(r.IntN(8), pick(r, e.Pts)) }},
	{"tree shape", func(e *env, r *rand.Rand) any {
		return multi{e.tree.Depth(), e.tree.Size(), len(e.tree.GetAllBoundingBoxes())}
	}},
}

// newEnv makes an environment of proper values. Two calls with equally seeded sources give equal values.
func newEnv(r *rand.Rand) *env {
	e := &env{level: r.IntN(5)}
	var cg coordGen
	switch r.IntN(4) {
	case 0:
		cg, e.Thr = cgSmallInt(6), 1
	case 1:
		cg, e.Thr = cgSmallInt(80), 7
	case 2:
		lon, lat := r.Float64()*300-150, r.Float64()*120-60
		k := r.Float64() * 20
		n := 0
		cg = func(r *rand.Rand) float64 { // x and y in turn: gpt evaluates X before Y
			n++
			if n%2 == 1 {
				return lon + k*r.Float64()
			}
			return lat + k*r.Float64()
		}
		e.Thr = 0.5
	case 3:
		cg, e.Thr = cgUniform(-85, 85), 10
	}
	e.Srid = []geo.SRID{geo.SRID_WGS84_GPS, geo.SRID_WGS84_PSEUDO_MERCATOR, geo.SRID_WGS84_UTM_ZONE_50N}[r.IntN(3)]
	e.Pts = gpts(r, cg, 4, 12)
	e.PtsZ = gptsZ(r, cgSmallInt(9), 2, 8)
	for i := 0; i < 3; i++ {
		e.Lines = append(e.Lines, geo.LineString(gpts(r, cg, 2, 9)))
		e.LinesZ = append(e.LinesZ, geo.LineStringZ(gptsZ(r, cgSmallInt(9), 2, 6)))
		e.Rings = append(e.Rings, gring(r, cg))
		e.RingsZ = append(e.RingsZ, gringZ(r, cgSmallInt(9)))
		e.Polys = append(e.Polys, genGeom(r, "Polygon", cg).(geo.Polygon))
		e.PolysZ = append(e.PolysZ, genGeom(r, "PolygonZ", cgSmallInt(9)).(geo.PolygonZ))
	}
	e.MPolys = append(e.MPolys, genGeom(r, "MultiPolygon", cg).(geo.MultiPolygon), geo.MultiPolygon(e.Polys))
	for _, k := range kindsAll {
		e.Geoms = append(e.Geoms, genGeom(r, k, cg))
	}
	for i := 0; i < 3; i++ {
		a, b := gpt(r, cg), gpt(r, cg)
		e.Boxes = append(e.Boxes, geo.NewBox(math.Min(a.X, b.X), math.Min(a.Y, b.Y), math.Max(a.X, b.X), math.Max(a.Y, b.Y)))
	}
	if r.IntN(3) == 0 {
		e.twist(r)
	}
	n := r.IntN(60)
	for i := 0; i < n; i++ {
		sp := geo.Spatial{ID: fmt.Sprint("o", i/2), Geom: genGeom(r, kinds2[r.IntN(len(kinds2))], cg)}
		if i < len(e.Geoms) {
			sp.Geom = e.Geoms[i]
		}
		e.Sps = append(e.Sps, sp)
	}
	e.finish(r)
	return e
}

// twistList gives a point list a structure that random points never have: repeated and aligned points,
// points in order, stretches that go back and forth.
func twistList[T any](r *rand.Rand, l []T, less func(a, b T) bool, mid func(a, b T) T, by func(a T) T) {
	n := len(l)
	if n < 3 {
		return
	}
	in := l[1 : n-1] // the ends stay, so that rings stay closed
	for k := 1 + r.IntN(3); k > 0; k-- {
		switch r.IntN(10) {
		case 0: // the first point again
			i := r.IntN(len(in))
			in[i] = l[0]
			if i+1 < len(in) && r.IntN(2) == 0 {
				in[i+1] = l[0]
			}
		case 1: // a point twice or three times in a row
			i := r.IntN(n - 2)
			for j := i + 1; j < n-1 && j < i+3; j++ {
				l[j] = l[i]
			}
		case 2: // in order
			sort.Slice(in, func(i, j int) bool { return less(in[i], in[j]) })
		case 3: // in reverse order
			sort.Slice(in, func(i, j int) bool { return less(in[j], in[i]) })
		case 4: // aligned
			i := r.IntN(len(in))
			in[i] = mid(l[i], l[i+2])
		case 5: // back and forth
			for i := 2; i < n-1; i++ {
				l[i] = l[i-2]
			}
		case 6: // the last point again
			in[r.IntN(len(in))] = l[n-1]
		case 7: // points almost on another
			i := r.IntN(n - 2)
			l[i+1] = by(l[i])
		case 8: // closed, but for less than the tolerance
			l[n-1] = by(l[0])
		case 9: // closed
			l[n-1] = l[0]
		}
	}
}

func twist2(r *rand.Rand, l []geo.Point) {
	twistList(r, l, func(a, b geo.Point) bool { return a.X < b.X }, func(a, b geo.Point) geo.Point { return geo.Point{X: (a.X + b.X) / 2, Y: (a.Y + b.Y) / 2} },
		func(a geo.Point) geo.Point { return geo.Point{X: a.X + 4e-7*r.Float64(), Y: a.Y - 4e-7*r.Float64()} })
}

func twist3(r *rand.Rand, l []geo.PointZ) {
	twistList(r, l, func(a, b geo.PointZ) bool { return a.X < b.X }, func(a, b geo.PointZ) geo.PointZ {
		return geo.PointZ{X: (a.X + b.X) / 2, Y: (a.Y + b.Y) / 2, Z: (a.Z + b.Z) / 2}
	}, func(a geo.PointZ) geo.PointZ {
		return geo.PointZ{X: a.X + 4e-7*r.Float64(), Y: a.Y, Z: a.Z - 4e-7*r.Float64()}
	})
}

// eachList visits every point list of a geometry.
func eachList(g geo.Geometry, f2 func([]geo.Point), f3 func([]geo.PointZ)) {
	switch g := g.(type) {
	case geo.MultiPoint:
		f2(g)
	case geo.LineString:
		f2(g)
	case geo.MultiLineString:
		for _, l := range g {
			f2(l)
		}
	case geo.Polygon:
		for _, l := range g {
			f2(l)
		}
	case geo.MultiPolygon:
		for _, p := range g {
			for _, l := range p {
				f2(l)
			}
		}
	case geo.MultiPointZ:
		f3(g)
	case geo.LineStringZ:
		f3(g)
	case geo.MultiLineStringZ:
		for _, l := range g {
			f3(l)
		}
	case geo.PolygonZ:
		for _, l := range g {
			f3(l)
		}
	case geo.MultiPolygonZ:
		for _, p := range g {
			for _, l := range p {
				f3(l)
			}
		}
	}
}

// eachListOf visits every point list of an environment.
func (e *env) eachListOf(f2 func([]geo.Point), f3 func([]geo.PointZ)) {
	f2(e.Pts)
	f3(e.PtsZ)
	for i := range e.Lines {
		f2(e.Lines[i])
		f3(e.LinesZ[i])
		f2(e.Rings[i])
		f3(e.RingsZ[i])
		eachList(e.Polys[i], f2, f3)
		eachList(e.PolysZ[i], f2, f3)
	}
	eachList(e.MPolys[0], f2, f3)
	for _, g := range e.Geoms {
		eachList(g, f2, f3)
	}
}

// twist applies twistList to most of the values.
func (e *env) twist(r *rand.Rand) {
	e.eachListOf(func(l []geo.Point) {
		if r.IntN(4) > 0 {
			twist2(r, l)
		}
	}, func(l []geo.PointZ) {
		if r.IntN(4) > 0 {
			twist3(r, l)
		}
	})
	// a multi-line whose first line is empty but has room
	if r.IntN(2) == 0 {
		for i, g := range e.Geoms {
			if ml, ok := g.(geo.MultiLineString); ok && len(ml) > 1 {
				e.Geoms[i] = append(geo.MultiLineString{geo.LineString{}}, ml...)
			}
		}
	}
}

// finish derives the tree, texts and features from the geometries.
func (e *env) finish(r *rand.Rand) {
	for _, g := range e.Geoms {
		if t := wkt.Encode(g); t != "" {
			e.Texts = append(e.Texts, t)
		}
		f := geojson.NewFeature(g)
		f.ID = "f"
		f.SetProperty("a", r.IntN(100))
		f.SetProperty("b", r.IntN(2) == 0)
		f.SetProperty("n", map[string]any{"x": []any{1.5, "y"}})
		if r.IntN(2) == 0 {
			f.SetBoundingBox()
		}
		e.Feats = append(e.Feats, f)
		if b, err := f.MarshalJSON(); err == nil {
			e.Jsons = append(e.Jsons, b)
		}
		if f.GeometryJson != nil && f.GeometryJson.Type != "" {
			e.Gjs = append(e.Gjs, f.GeometryJson)
		}
	}
	c := geojson.NewFeatureCollection()
	for _, f := range e.Feats {
		c.AddFeature(f)
	}
	e.Colls = append(e.Colls, geojson.NewFeatureCollection(), c)
	if len(e.Sps) > 0 && r.IntN(2) == 0 {
		e.tree = geo.NewTreeWith(append([]geo.Spatial{}, e.Sps...)...)
	} else {
		e.tree = geo.NewTree()
		for _, s := range e.Sps {
			e.tree.Insert(s)
		}
	}
}

// ---- memory layout of the arguments

// layout puts every point list reachable from a value into memory of the given kind: exactly fitting
// ("exact"), with sentinels behind the end ("spare"), or all one after another in shared arrays, so that
// the memory behind the end of one list is the next list ("shared").
type layout struct {
	mode   string
	arenas map[reflect.Type]reflect.Value
	used   map[reflect.Type]int
}

func sentinel(v reflect.Value) {
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			v.Field(i).SetFloat(-777.125 + float64(i))
		}
	}
}

func countLeaves(v reflect.Value, n map[reflect.Type]int) {
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() {
			countLeaves(v.Elem(), n)
		}
	case reflect.Slice:
		n[v.Type().Elem()] += v.Len()
		for i := 0; i < v.Len(); i++ {
			countLeaves(v.Index(i), n)
		}
	}
}

func (l *layout) place(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		o := reflect.New(v.Type()).Elem()
		o.Set(l.place(v.Elem()))
		return o
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		et := v.Type().Elem()
		var o reflect.Value
		n := v.Len()
		switch l.mode {
		case "exact":
			o = reflect.MakeSlice(v.Type(), n, n)
		case "spare":
			o = reflect.MakeSlice(v.Type(), n+3, n+3)
			for i := n; i < n+3; i++ {
				sentinel(o.Index(i))
			}
			o = o.Slice(0, n)
		case "shared":
			a := l.arenas[et]
			o = a.Slice(l.used[et], l.used[et]+n).Convert(v.Type())
			l.used[et] += n
		}
		for i := 0; i < n; i++ {
			o.Index(i).Set(l.place(v.Index(i)))
		}
		return o
	}
	return v
}

// relayout replaces the point lists of e by equal ones in the given layout.
func (e *env) relayout(mode string) {
	l := &layout{mode: mode, arenas: map[reflect.Type]reflect.Value{}, used: map[reflect.Type]int{}}
	fields := []any{&e.Pts, &e.PtsZ, &e.Lines, &e.LinesZ, &e.Rings, &e.RingsZ, &e.Polys, &e.PolysZ, &e.MPolys, &e.Geoms}
	if mode == "shared" {
		n := map[reflect.Type]int{}
		for _, f := range fields {
			countLeaves(reflect.ValueOf(f).Elem(), n)
		}
		for t, k := range n {
			a := reflect.MakeSlice(reflect.SliceOf(t), k+3, k+3)
			for i := k; i < k+3; i++ {
				sentinel(a.Index(i))
			}
			l.arenas[t] = a
		}
	}
	for _, f := range fields {
		v := reflect.ValueOf(f).Elem()
		v.Set(l.place(v))
	}
	for i := range e.Sps {
		if i < len(e.Geoms) {
			e.Sps[i].Geom = e.Geoms[i]
		}
	}
}

// ---- snapshots

type snapper struct {
	out  []uint64
	seen map[uintptr]bool
	ends map[uintptr]uintptr // start of the walked part of the memory that ends at an address
}

func (s *snapper) str(x string) {
	s.out = append(s.out, uint64(len(x)))
	h := uint64(14695981039346656037)
	for i := 0; i < len(x); i++ {
		h = (h ^ uint64(x[i])) * 1099511628211
	}
	s.out = append(s.out, h)
}

// walk records a value bit by bit, slices up to their capacity.
func (s *snapper) walk(v reflect.Value) {
	switch v.Kind() {
	case reflect.Invalid:
		s.out = append(s.out, 0xdead)
	case reflect.Float64:
		s.out = append(s.out, math.Float64bits(v.Float()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		s.out = append(s.out, uint64(v.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		s.out = append(s.out, v.Uint())
	case reflect.Bool:
		if v.Bool() {
			s.out = append(s.out, 1)
		} else {
			s.out = append(s.out, 0)
		}
	case reflect.String:
		s.str(v.String())
	case reflect.Slice:
		s.out = append(s.out, uint64(v.Len()), uint64(v.Cap()), uint64(v.Pointer()))
		if v.Cap() > 0 {
			v = v.Slice(0, v.Cap())
		}
		n := v.Len()
		if size := v.Type().Elem().Size(); size > 0 && n > 0 { // memory shared by several slices is walked once
			end := v.Pointer() + uintptr(n)*size
			if start, ok := s.ends[end]; ok {
				if v.Pointer() >= start {
					n = 0
				} else {
					n = int((start - v.Pointer()) / size)
				}
			}
			if n > 0 {
				s.ends[end] = v.Pointer()
			}
		}
		for i := 0; i < n; i++ {
			s.walk(v.Index(i))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			s.walk(v.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if f := v.Type().Field(i); f.IsExported() {
				s.walk(v.Field(i))
			}
		}
	case reflect.Map:
		keys := v.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
		s.out = append(s.out, uint64(len(keys)))
		for _, k := range keys {
			s.walk(k)
			s.walk(v.MapIndex(k))
		}
	case reflect.Interface:
		if v.IsNil() {
			s.out = append(s.out, 0xdead)
			return
		}
		s.str(v.Elem().Type().String())
		s.walk(v.Elem())
	case reflect.Pointer:
		s.out = append(s.out, uint64(v.Pointer()))
		if !v.IsNil() && !s.seen[v.Pointer()] {
			s.seen[v.Pointer()] = true
			s.walk(v.Elem())
		}
	}
}

func snap(v any) []uint64 {
	s := &snapper{seen: map[uintptr]bool{}, ends: map[uintptr]uintptr{}}
	s.walk(reflect.ValueOf(v))
	return s.out
}

func sameSnap(a, b []uint64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// dump describes a result by value: no addresses, exact numbers, equal NaNs.
func dump(v any) string {
	var b strings.Builder
	var walk func(v reflect.Value, depth int)
	walk = func(v reflect.Value, depth int) {
		if depth > 40 {
			b.WriteString("…")
			return
		}
		switch v.Kind() {
		case reflect.Invalid:
			b.WriteString("nil")
		case reflect.Interface, reflect.Pointer:
			if v.IsNil() {
				b.WriteString("nil")
				return
			}
			walk(v.Elem(), depth+1)
		case reflect.Slice, reflect.Array:
			b.WriteByte('[')
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i), depth+1)
				b.WriteByte(' ')
			}
			b.WriteByte(']')
		case reflect.Map:
			keys := v.MapKeys()
			sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
			b.WriteByte('{')
			for _, k := range keys {
				walk(k, depth+1)
				b.WriteByte(':')
				walk(v.MapIndex(k), depth+1)
				b.WriteByte(' ')
			}
			b.WriteByte('}')
		case reflect.Struct:
			b.WriteByte('{')
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).IsExported() {
					walk(v.Field(i), depth+1)
					b.WriteByte(' ')
				}
			}
			b.WriteByte('}')
		case reflect.Float64:
			fmt.Fprintf(&b, "%v", v.Float())
		default:
			fmt.Fprintf(&b, "%v", v)
		}
	}
	walk(reflect.ValueOf(v), 0)
	return b.String()
}

// ---- C06

func noModification(c *Case) {
	e := newEnv(c.R)
	mode := []string{"shared", "spare", "exact"}[c.Idx%3]
	e.relayout(mode)
	if c.Idx%2 == 0 { // the tree holds the caller's memory
		e.tree = geo.NewTree()
		for _, s := range e.Sps {
			e.tree.Insert(s)
		}
	} else {
		e.tree = geo.NewTreeWith(append([]geo.Spatial{}, e.Sps...)...)
	}
	before := snap(e)
	last := ""
	c.Desc(func() string {
		return fmt.Sprintf("layout %s, operation %s, values %s", mode, last, trunc(dump(e), 3000))
	})
	for _, o := range readOps {
		last = o.name
		text := ""
		if c.w.verbose {
			text = dump(e)
		}
		for rep := 0; rep < 8; rep++ {
			o.run(e, c.R)
		}
		after := snap(e)
		if !sameSnap(before, after) {
			c.Failf("%s changes a value it was given, or memory behind it (layout %s; argument set before %s now %s)", o.name, mode, trunc(text, 2000), trunc(dump(e), 2000))
		}
		c.EvN("calls compared: "+o.name, 8)
	}
	c.EvN("argument words compared", len(before)*len(readOps))
	c.Ev("layouts: " + mode)
	c.NT(fmt.Sprint(mode, len(before), e.Srid, len(e.Sps)))
}

// constructionChain builds and converts values out of sub-slices of one array the caller goes on using.
func constructionChain(c *Case) {
	r := c.R
	n := 4 + r.IntN(20)
	arr := gpts(r, cgSmallInt(20), n, n)
	arrZ := gptsZ(r, cgSmallInt(20), n, n)
	want := append([]geo.Point{}, arr...)
	wantZ := append([]geo.PointZ{}, arrZ...)
	i := r.IntN(n - 2)
	j := i + 2 + r.IntN(n-i-2+1)
	if j > n {
		j = n
	}
	if r.IntN(3) == 0 { // a closed stretch
		arr[j-1], want[j-1] = arr[i], arr[i]
		arrZ[j-1], wantZ[j-1] = arrZ[i], arrZ[i]
	}
	c.Desc(func() string { return fmt.Sprintf("points %d..%d of %v and %v", i, j, want, wantZ) })
	for _, o := range []struct {
		name string
		f    func()
	}{
		{"NewLineString", func() { geo.NewLineString(arr[i:j]...) }},
		{"NewLinearRing", func() { geo.NewLinearRing(arr[i:j]...) }},
		{"NewRingFromLine", func() { geo.NewRingFromLine(geo.LineString(arr[i:j])) }},
		{"ToRing", func() { geo.LineString(arr[i:j]).ToRing() }},
		{"NewPolygonFromPois", func() { geo.NewPolygonFromPois(arr[i:j]...) }},
		{"NewMultiPoint", func() { geo.NewMultiPoint(arr[i:j]...) }},
		{"NewLineStringZ", func() { geo.NewLineStringZ(arrZ[i:j]...) }},
		{"NewLinearRingZ", func() { geo.NewLinearRingZ(arrZ[i:j]...) }},
		{"NewRingFromLineZ", func() { geo.NewRingFromLineZ(geo.LineStringZ(arrZ[i:j])) }},
		{"ToRing in three dimensions", func() { geo.LineStringZ(arrZ[i:j]).ToRing() }},
		{"NewPolygonZFromPois", func() { geo.NewPolygonZFromPois(arrZ[i:j]...) }},
		{"NewMultiPointZ", func() { geo.NewMultiPointZ(arrZ[i:j]...) }},
		{"ConvexHull", func() { geo.ConvexHull(arr[i:j]...) }},
		{"DouglasPeuckerSimplify", func() { geo.DouglasPeuckerSimplify(geo.LineString(arr[i:j]), 3, geo.SRID_WGS84_PSEUDO_MERCATOR) }},
		{"Mbr", func() { geo.Mbr(geo.MultiPoint(arr[i:j])) }},
		{"S2RegionCoverer", func() {
			geo.S2RegionCoverer(geo.Polygon{geo.LinearRing(arr[i:j])}, 3, geo.SRID_WGS84_GPS)
		}},
		{"RotateCW", func() { geo.RotateCW(geo.Polygon{geo.LinearRing(arr[i:j])}, arr[0], 40) }},
	} {
		o.f()
		c.Check(reflect.DeepEqual(arr, want) && reflect.DeepEqual(arrZ, wantZ), "%s of elements %d..%d changes the array: %v is now %v, %v is now %v", o.name, i, j, want, arr, wantZ, arrZ)
		c.Ev("constructions compared")
	}
	if j < n {
		c.Ev("constructions with caller memory behind the points")
	}
	c.NT(fmt.Sprint(n, i, j))
}

func init() {
	must := []string{"constructions with caller memory behind the points", "layouts: shared", "layouts: spare", "layouts: exact"}
	for _, o := range readOps {
		must = append(must, "calls compared: "+o.name)
	}
	register(&Prop{
		ID:   "C06",
		Rule: "a set of geometries of every kind, boxes, features and texts, laid out in exactly fitting, over-allocated or shared arrays, is recorded bit by bit up to the capacity of every slice before and after each call of every read-only operation; non-trivial: distinct layout and value-set sizes",
		Must: must,
		Families: []Family{
			{"every-op", 560, 12000, noModification},
			{"sub-slices", 4000, 80000, constructionChain},
		},
		Assume: []string{"the order of the list handed to the bulk loader of the tree is not judged", "growing a value built over a caller's slice of parts follows Go's slice rules and is not judged"},
	})
}
