package main

// C31: degenerate geometries through every operation, neutral results, consistent kinds.

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand/v2"
	"reflect"
	"strings"

	geo "github.com/hzw456/go-geo"
	"github.com/hzw456/go-geo/geojson"
	"github.com/hzw456/go-geo/wkt"
)

var degForms = []string{"nil", "empty", "single", "repeated", "two", "flat", "proper"}

// degPts makes a point list of the form.
func degPts(r *rand.Rand, form string) []geo.Point {
	cg := cgSmallInt(9)
	p := gpt(r, cg)
	switch form {
	case "nil":
		return nil
	case "empty":
		return []geo.Point{}
	case "single":
		return []geo.Point{p}
	case "repeated":
		var l []geo.Point
		for i := 2 + r.IntN(5); i > 0; i-- {
			l = append(l, p)
		}
		return l
	case "two":
		q := gpt(r, cg)
		l := []geo.Point{p, q}
		for i := r.IntN(4); i > 0; i-- {
			l = append(l, []geo.Point{p, q}[r.IntN(2)])
		}
		return l
	case "flat":
		d := []geo.Point{{X: 1}, {Y: 1}, {X: 1, Y: 1}, {X: 2, Y: -1}, {X: -3, Y: 1}}[r.IntN(5)]
		var l []geo.Point
		for i := 3 + r.IntN(5); i > 0; i-- {
			k := float64(r.IntN(7) - 3)
			l = append(l, geo.Point{X: p.X + k*d.X, Y: p.Y + k*d.Y})
		}
		return l
	}
	return gpts(r, cg, 3, 7)
}

func degZ(r *rand.Rand, p []geo.Point) []geo.PointZ {
	if p == nil {
		return nil
	}
	l := make([]geo.PointZ, len(p))
	z := float64(r.IntN(5))
	for i, q := range p {
		l[i] = geo.PointZ{X: q.X, Y: q.Y, Z: z}
		if r.IntN(4) == 0 {
			l[i].Z++
		}
	}
	return l
}

func anyForm(r *rand.Rand) string { return degForms[r.IntN(len(degForms))] }

func degRing(r *rand.Rand, form string) geo.LinearRing {
	p := degPts(r, form)
	if len(p) > 0 && r.IntN(3) > 0 {
		p = append(p, p[0])
	}
	return p
}

// degGeom makes a degenerate geometry of the kind: possibly nil or without parts, with parts of any form.
func degGeom(r *rand.Rand, kind string) geo.Geometry {
	nparts := []int{-1, 0, 1, 1, 2, 3}[r.IntN(6)]
	f := anyForm(r)
	if r.IntN(3) > 0 && f == "proper" {
		f = "empty"
	}
	form := func() string {
		if r.IntN(3) > 0 {
			return f
		}
		return anyForm(r)
	}
	switch kind {
	case "Point":
		return gpt(r, cgSmallInt(3))
	case "PointZ":
		return gptZ(r, cgSmallInt(3))
	case "MultiPoint":
		return geo.MultiPoint(degPts(r, f))
	case "MultiPointZ":
		return geo.MultiPointZ(degZ(r, degPts(r, f)))
	case "LineString":
		return geo.LineString(degPts(r, f))
	case "LineStringZ":
		return geo.LineStringZ(degZ(r, degPts(r, f)))
	case "MultiLineString":
		var m geo.MultiLineString
		if nparts >= 0 {
			m = geo.MultiLineString{}
		}
		for i := 0; i < nparts; i++ {
			m = append(m, degPts(r, form()))
		}
		return m
	case "MultiLineStringZ":
		var m geo.MultiLineStringZ
		if nparts >= 0 {
			m = geo.MultiLineStringZ{}
		}
		for i := 0; i < nparts; i++ {
			m = append(m, degZ(r, degPts(r, form())))
		}
		return m
	case "Polygon":
		var m geo.Polygon
		if nparts >= 0 {
			m = geo.Polygon{}
		}
		for i := 0; i < nparts; i++ {
			m = append(m, degRing(r, form()))
		}
		return m
	case "PolygonZ":
		var m geo.PolygonZ
		if nparts >= 0 {
			m = geo.PolygonZ{}
		}
		for i := 0; i < nparts; i++ {
			m = append(m, degZ(r, degRing(r, form())))
		}
		return m
	case "MultiPolygon":
		var m geo.MultiPolygon
		if nparts >= 0 {
			m = geo.MultiPolygon{}
		}
		for i := 0; i < nparts; i++ {
			m = append(m, degGeom(r, "Polygon").(geo.Polygon))
		}
		return m
	case "MultiPolygonZ":
		var m geo.MultiPolygonZ
		if nparts >= 0 {
			m = geo.MultiPolygonZ{}
		}
		for i := 0; i < nparts; i++ {
			m = append(m, degGeom(r, "PolygonZ").(geo.PolygonZ))
		}
		return m
	}
	panic(kind)
}

// degEnv is an environment of degenerate values.
func degEnv(r *rand.Rand) *env {
	e := &env{level: r.IntN(5), Thr: []float64{0, 1, 3}[r.IntN(3)]}
	e.Srid = []geo.SRID{geo.SRID_WGS84_GPS, geo.SRID_WGS84_PSEUDO_MERCATOR, geo.SRID_WGS84_UTM_ZONE_50N, 0}[r.IntN(4)]
	e.Pts = degPts(r, anyForm(r))
	e.PtsZ = degZ(r, degPts(r, anyForm(r)))
	for i := 1 + r.IntN(3); i > 0; i-- {
		e.Lines = append(e.Lines, degPts(r, anyForm(r)))
		e.LinesZ = append(e.LinesZ, degZ(r, degPts(r, anyForm(r))))
		e.Rings = append(e.Rings, degRing(r, anyForm(r)))
		e.RingsZ = append(e.RingsZ, degZ(r, degRing(r, anyForm(r))))
		e.Polys = append(e.Polys, degGeom(r, "Polygon").(geo.Polygon))
		e.PolysZ = append(e.PolysZ, degGeom(r, "PolygonZ").(geo.PolygonZ))
		e.MPolys = append(e.MPolys, degGeom(r, "MultiPolygon").(geo.MultiPolygon))
	}
	for _, k := range kindsAll {
		e.Geoms = append(e.Geoms, degGeom(r, k))
	}
	for i := 0; i < 3; i++ {
		e.Boxes = append(e.Boxes, geo.BoundingBox(pick(r, e.Geoms)))
	}
	for i := r.IntN(40); i > 0; i-- {
		sp := geo.Spatial{ID: fmt.Sprint("o", i), Geom: degGeom(r, kindsAll[r.IntN(len(kindsAll))])}
		e.Sps = append(e.Sps, sp)
	}
	e.finish(r)
	return e
}

func everyOperation(c *Case) {
	step := "making the values"
	var e *env
	c.Desc(func() string { return fmt.Sprintf("%s, values %s", step, trunc(dump(e), 4000)) })
	e = degEnv(c.R)
	for i := range readOps {
		for rep := 0; rep < 3; rep++ {
			step = readOps[i].name
			s := c.R.Uint64()
			_, died := call(&readOps[i], e, s)
			c.Check(died == nil, "%s panics on a degenerate value: %v", step, died)
			c.Ev("calls on degenerate values: " + step)
		}
	}
	c.NT(trunc(dump(e.Polys), 200))
}

// distinct counts distinct points; flat tells whether all lie on one line (small integer coordinates).
func distinct(p []geo.Point) (int, bool) {
	m := map[geo.Point]bool{}
	for _, q := range p {
		m[q] = true
	}
	flat := true
	var a, b geo.Point
	n := 0
	for q := range m {
		switch n {
		case 0:
			a = q
		case 1:
			b = q
		default:
			if (b.X-a.X)*(q.Y-a.Y) != (b.Y-a.Y)*(q.X-a.X) {
				flat = false
			}
		}
		n++
	}
	return n, flat
}

func hasDigit(s string) bool { return strings.ContainsAny(s, "0123456789") }

// jsonNumbers counts the numbers in decoded JSON.
func jsonNumbers(v any) int {
	n := 0
	switch v := v.(type) {
	case float64:
		n++
	case []any:
		for _, x := range v {
			n += jsonNumbers(x)
		}
	case map[string]any:
		for _, x := range v {
			n += jsonNumbers(x)
		}
	}
	return n
}

func neutralResults(c *Case) {
	r := c.R
	kind := kindsAll[c.Idx%len(kindsAll)]
	g := degGeom(r, kind)
	c.Desc(func() string { return kind + " " + dump(g) + fmt.Sprintf(" (%#v)", g) })
	coords := flatten(g)
	empty := len(coords) == 0
	state := "with coordinates"
	if empty {
		state = "empty"
	}
	c.Check(string(g.Type()) == kind, "a %s reports the kind %s", kind, g.Type())

	// text
	t := wkt.Encode(g)
	if empty {
		c.Check(!hasDigit(t), "an empty %s is encoded as %q", kind, t)
	} else {
		c.Check(t != "", "a %s with coordinates is encoded as an empty text", kind)
	}
	if t != "" {
		kw := strings.TrimRight(strings.ToUpper(t[:strings.IndexAny(t+"(", "( ")]), " ")
		c.Check(kw == strings.ToUpper(geoName(kind)) || kw == strings.ToUpper(kind), "a %s is encoded under the keyword %q: %s", kind, kw, trunc(t, 200))
		c.Ev("keywords compared")
	}
	b, err := geojson.MarshalGeo(g)
	if err == nil {
		var m map[string]any
		c.Check(json.Unmarshal(b, &m) == nil, "a %s is encoded as invalid JSON %s", kind, b)
		c.Check(m["type"] == geoName(kind), "a %s is encoded under the type %v", kind, m["type"])
		if empty {
			c.Check(jsonNumbers(m["coordinates"]) == 0, "an empty %s is encoded as %s", kind, b)
		}
		c.Ev("type names compared")
	} else {
		c.Check(empty, "a %s with coordinates is not encoded: %v", kind, err)
	}
	f := geojson.NewFeature(g)
	f.SetBoundingBox()
	f.SetProperty("a", 1)
	if _, err := json.Marshal(f); err == nil {
		c.Ev("features marshalled: " + state)
	}
	json.Marshal(geojson.NewFeatureCollection().AddFeature(f))

	// measures
	box := geo.BoundingBox(g)
	c.Check(box != nil, "a %s has a nil bounding box", kind)
	if !empty && !strings.Contains(kind, "Polygon") { // holes need not lie in the extent
		c.Check(toBox(box) == boxOf(g), "the bounding box of the %s is %+v", kind, *box)
	}
	area := geo.GetArea(g)
	rings := 0
	allFlat := true
	switch g := g.(type) {
	case geo.Polygon:
		for _, x := range g {
			rings++
			_, fl := distinct(x)
			allFlat = allFlat && fl
		}
	case geo.MultiPolygon:
		for _, p := range g {
			for _, x := range p {
				rings++
				_, fl := distinct(x)
				allFlat = allFlat && fl
			}
		}
	}
	if rings == 0 || allFlat {
		c.Check(math.Abs(area) <= 1e-9, "a %s without extent has the area %v", kind, area)
		c.Ev("areas of values without extent")
	}
	if mp, ok := g.(geo.MultiPolygon); ok && allFlat {
		c.Check(math.Abs(geo.MultiPolyArea(mp)) <= 1e-9, "a multipolygon without extent has the area %v", geo.MultiPolyArea(mp))
	}
	geo.Centroid(g)
	geo.Mbr(g)
	geo.RotateCW(g, geo.Point{X: 1}, 33)
	geo.RotateCCW(g, geo.Point{X: 1}, 33)
	if s, ok := g.(interface{ SetSrid(uint64) }); ok {
		srid := []uint64{4326, 3857, 32650, 0, r.Uint64()}[r.IntN(5)]
		clear(geo.SridMap)
		s.SetSrid(srid)
		tagged := false
		for k, v := range geo.SridMap {
			if q := reflect.Indirect(reflect.ValueOf(k)); q.Type() != reflect.TypeOf(g) || reflect.DeepEqual(q.Interface(), g) || dump(q.Interface().(geo.Geometry)) == dump(g) {
				tagged = tagged || v == srid
			}
		}
		c.Check(tagged, "reference system %d is not recorded for the %s: %v", srid, kind, geo.SridMap)
		c.Ev("reference systems set: " + state)
	}
	utm := []geo.SRID{geo.SRID_WGS84_UTM_ZONE_44N, geo.SRID_WGS84_UTM_ZONE_45N, geo.SRID_WGS84_UTM_ZONE_46N, geo.SRID_WGS84_UTM_ZONE_47N, geo.SRID_WGS84_UTM_ZONE_48N,
		geo.SRID_WGS84_UTM_ZONE_49N, geo.SRID_WGS84_UTM_ZONE_50N, geo.SRID_WGS84_UTM_ZONE_51N, geo.SRID_WGS84_UTM_ZONE_52N, geo.SRID_WGS84_UTM_ZONE_53N}
	for i, s := range utm {
		c.Check(int(s) == 32644+i, "the constant of UTM zone %dN is %d", 44+i, s)
	}
	c.Check(geo.SRID_WGS84_GPS+0 == 4326 && geo.SRID_WGS84_PSEUDO_MERCATOR+0 == 3857, "the constants of WGS84 and Web Mercator")
	switch g := g.(type) {
	case geo.LineString:
		n, _ := distinct(g)
		if n < 2 {
			c.Check(g.Length() == 0, "a line of %d distinct points has the length %v", n, g.Length())
			c.Ev("lengths of lines without extent")
		}
		for _, thr := range []float64{0, 1, -1, 1e300, math.Inf(1), math.NaN()} {
			for _, srid := range []geo.SRID{geo.SRID_WGS84_GPS, geo.SRID_WGS84_PSEUDO_MERCATOR, 0} {
				s := geo.DouglasPeuckerSimplify(g, thr, srid)
				if len(g) > 0 {
					c.Check(len(s) > 0 && len(s) <= len(g) && s[0] == g[0] && s[len(s)-1] == g[len(g)-1], "simplifying the line with the threshold %v gives %v", thr, s)
				} else {
					c.Check(len(s) == 0, "simplifying the empty line with the threshold %v gives %v", thr, s)
				}
			}
		}
		c.Check(g.Equal(g), "a line is not equal to itself")
		c.Check((g.Verify() == nil) == (len(g) >= 2), "verification of a line of %d points gives %v", len(g), g.Verify())
		ring := g.ToRing()
		if len(g) >= 2 {
			c.Check(len(ring) >= 2 && ring[0].Equal(ring[len(ring)-1]), "the ring of the line is %v", ring)
		}
		h := append(geo.LineString{}, g...)
		h.Reverse()
		h.DelPoint(0)
		h.InsertPoint(0, geo.Point{})
		a, b := g.SplitByIndex(0)
		c.Check(len(a)+len(b) >= 0, "")
	case geo.LineStringZ:
		c.Check(g.Equal(g), "a line is not equal to itself")
		g.ToRing()
		h := append(geo.LineStringZ{}, g...)
		h.Reverse()
	case geo.Polygon:
		var outer []geo.Point
		if len(g) > 0 {
			outer = g[0]
		}
		n, fl := distinct(outer)
		if n < 3 {
			cov := geo.S2RegionCoverer(g, 5, geo.SRID_WGS84_GPS)
			c.Check(len(cov) == 0, "the covering of a polygon with %d distinct vertices has %d cells", n, len(cov))
			c.Ev("coverings of values without extent")
		}
		v := g
		if err := v.Verify(); len(outer) < 4 || allFlat && rings > 0 {
			c.Check(err != nil, "a polygon without extent passes validation")
			c.Ev("validations of values without extent")
		}
		for i := 0; i < 4; i++ {
			p := gpt(r, cgSmallInt(9))
			if len(outer) > 0 && i > 1 {
				p = outer[r.IntN(len(outer))]
			}
			rel := geo.IsPointInPolygon(p, g)
			if len(outer) == 0 {
				c.Check(rel == geo.RELA_DISJOINT, "a point is %s an empty polygon", relName(rel))
				c.Ev("points against empty polygons")
			} else if fl && outer[0] == outer[len(outer)-1] {
				c.Check(rel != geo.RELA_CONTAIN, "the point %v is strictly inside a polygon without interior", p)
				c.Ev("points against flat polygons")
			}
		}
		if fl {
			c.Check(!g.IsCCW(), "a polygon without extent is counter-clockwise")
			c.Check(!g.SelfIntersect(), "the edges of a flat polygon properly cross")
			c.Ev("orientation of values without extent")
		}
		c.Check(len(g.GetInteriorRing()) == max(0, len(g)-1) && len(g.GetExteriorRing()) == len(outer) && len(g.GetExteriorPoints()) == len(outer), "the parts of the polygon are %v and %v", g.GetExteriorRing(), g.GetInteriorRing())
		h := append(geo.Polygon{}, g...)
		h.AddInteriorRing(nil)
		h.SetExteriorRing(geo.LinearRing{})
		c.Check(len(h) == max(1, len(g)+1), "the polygon has %d rings after adding one to %d", len(h), len(g))
		g.SetSRID(4326)
	case geo.PolygonZ:
		h := append(geo.PolygonZ{}, g...)
		h.AddInteriorRing(nil)
		h.SetExteriorRing(nil)
		c.Check(len(g.GetInteriorRing()) == max(0, len(g)-1), "the holes of the polygon are %v", g.GetInteriorRing())
		g.GetExteriorRing()
		g.GetExteriorPoints()
	}
	c.Ev("kinds seen " + state + ": " + kind)
	c.NT(kind + dump(g))
}

// emptyConstruction calls every constructor with no and with too few parts.
func emptyConstruction(c *Case) {
	r := c.R
	p := degPts(r, []string{"nil", "empty", "single", "repeated", "two", "flat"}[c.Idx%6])
	z := degZ(r, p)
	c.Desc(func() string { return fmt.Sprintf("%#v", p) })
	var all geo.Collection
	check := func(kind string, g geo.Geometry, n int) {
		c.Check(string(g.Type()) == kind, "a constructed %s reports the kind %s", kind, g.Type())
		all = append(all, g)
		c.Check(reflect.ValueOf(g).Len() == n, "a %s constructed of %d parts has %d: %s", kind, n, reflect.ValueOf(g).Len(), repr(g))
		wkt.Encode(g)
		geojson.MarshalGeo(g)
		c.Check(geo.BoundingBox(g) != nil, "a constructed %s has a nil bounding box", kind)
		geo.GetArea(g)
		geo.Centroid(g)
		c.Ev("constructed: " + kind)
	}
	check("LineString", *geo.NewLineString(p...), len(p))
	check("LineStringZ", *geo.NewLineStringZ(z...), len(p))
	check("MultiPoint", *geo.NewMultiPoint(p...), len(p))
	check("MultiPointZ", *geo.NewMultiPointZ(z...), len(p))
	check("MultiLineString", *geo.NewMultiLineString(), 0)
	check("MultiLineString", *geo.NewMultiLineString(p), 1)
	check("MultiLineStringZ", *geo.NewMultiLineStringZ(), 0)
	check("MultiLineStringZ", *geo.NewMultiLineStringZ(z, nil), 2)
	check("Polygon", *geo.NewPolygon(), 0)
	check("Polygon", *geo.NewPolygon(p), 1)
	check("PolygonZ", *geo.NewPolygonZ(), 0)
	check("PolygonZ", *geo.NewPolygonZ(z, z), 2)
	check("MultiPolygon", *geo.NewMultiPolygon(), 0)
	check("MultiPolygon", *geo.NewMultiPolygon(geo.Polygon{}, nil), 2)
	check("MultiPolygonZ", *geo.NewMultiPolygonZ(), 0)
	check("MultiPolygonZ", *geo.NewMultiPolygonZ(geo.PolygonZ{z}), 1)
	a := geo.NewPolygonFromPois(p...)
	b := geo.NewPolygonZFromPois(z...)
	c.Check(a != nil && b != nil, "a polygon from %d points is a nil pointer", len(p))
	check("Polygon", *a, len(*a))
	check("PolygonZ", *b, len(*b))
	ring, ringZ := geo.NewLinearRing(p...), geo.NewLinearRingZ(z...)
	if len(p) < 2 {
		c.Check(ring == nil || len(*ring) <= 2, "a ring of %d points is %v", len(p), ring)
		c.Check(ringZ == nil || len(*ringZ) <= 2, "a ring of %d points is %v", len(p), ringZ)
	} else {
		c.Check(ring != nil && ringZ != nil, "a ring of %d points is nil", len(p))
	}
	geo.NewRingFromLine(p)
	geo.NewRingFromLineZ(z)
	var r0 geo.LinearRing = p
	c.Check(r0.GetPointCount() == len(p) && len(r0.GetPointSet()) == len(p) && len(r0.ToLineString()) == len(p), "a ring of %d points has %d", len(p), r0.GetPointCount())
	h := geo.ConvexHull(p...)
	c.Check(math.Abs(geo.GetArea(h)) <= 1e-9, "the hull of points on one line has the area %v", geo.GetArea(h))
	for _, w := range []float64{0, 1e-300, 1} {
		q := geo.Point{X: 1, Y: 2}
		b := q.Buffer(w)
		c.Check(w > 0 || math.Abs(geo.GetArea(b)) <= 1e-9, "a buffer of width 0 has the area %v", geo.GetArea(b))
	}
	for _, col := range []geo.Collection{nil, {}, all[:1], all[:5:5], all} {
		c.Check(col.Type() == geo.GEOMETRY_COLLECTION, "a collection of %d reports the kind %s", len(col), col.Type())
	}
	c.Ev("kinds of collections")
	c.NT(dump(p))
}

// degenerateIndex stores degenerate objects among proper ones: nothing is lost, nothing panics.
func degenerateIndex(c *Case) {
	r := c.R
	type held struct {
		sp     geo.Spatial
		proper bool
	}
	var all []held
	n := r.IntN(120)
	share := r.IntN(10)
	for i := 0; i < n; i++ {
		h := held{sp: geo.Spatial{ID: fmt.Sprint("o", i)}, proper: r.IntN(10) >= share}
		if h.proper {
			h.sp.Geom = genGeom(r, kindsAll[r.IntN(len(kindsAll))], cgSmallInt(50))
		} else {
			h.sp.Geom = degGeom(r, kindsAll[r.IntN(len(kindsAll))])
			b := geo.BoundingBox(h.sp.Geom) // flat objects are found like any other
			h.proper = len(flatten(h.sp.Geom)) > 0 && b.MinX <= b.MaxX
		}
		all = append(all, h)
	}
	how := r.IntN(3)
	c.Desc(func() string {
		s := fmt.Sprint("built by ", how, ":")
		for _, h := range all {
			s += fmt.Sprintf("\n%s %#v", h.sp.ID, h.sp.Geom)
		}
		return s
	})
	var objs []geo.Spatial
	for _, h := range all {
		objs = append(objs, h.sp)
	}
	var tree *geo.Rtree
	switch how {
	case 0:
		tree = geo.NewTreeWith(objs...)
	case 1:
		tree = geo.NewTree()
		for _, o := range objs {
			tree.Insert(o)
		}
	case 2:
		tree = geo.NewMinMaxTree(2, 4)
		for _, o := range objs {
			tree.Insert(o)
		}
	}
	verify := func(when string) {
		c.Check(tree.Size() == len(all), "%s the tree reports %d objects instead of %d", when, tree.Size(), len(all))
		q := geo.NewBox(-60, -60, 60, 60)
		got := map[string]int{}
		for _, s := range tree.SearchIntersect(q) {
			got[s.ID]++
		}
		for _, h := range all {
			if h.proper {
				c.Check(got[h.sp.ID] == 1, "%s the object %s %s is found %d times by a search of everything", when, h.sp.ID, repr(h.sp.Geom), got[h.sp.ID])
				b := geo.BoundingBox(h.sp.Geom)
				k := 0
				for _, s := range tree.SearchIntersect(b) {
					if s.ID == h.sp.ID {
						k++
					}
				}
				c.Check(k == 1, "%s the object %s is found %d times by a search of its own box", when, h.sp.ID, k)
				c.Ev("objects found among degenerate ones")
			}
		}
		if len(all) > 0 {
			h := all[r.IntN(len(all))]
			l := tree.SearchBySpatialID(h.sp.ID)
			c.Check(len(l) == 1 && l[0].ID == h.sp.ID, "%s the ID search for %s %s gives %d objects", when, h.sp.ID, repr(h.sp.Geom), len(l))
		}
		tree.NearestNeighbors(3, gpt(r, cgSmallInt(50)))
		tree.Depth()
		tree.GetAllBoundingBoxes()
	}
	verify("after building")
	for len(all) > 0 && r.IntN(40) > 0 {
		i := r.IntN(len(all))
		h := all[i]
		ok := false
		if r.IntN(2) == 0 {
			ok = tree.Delete(h.sp)
		} else {
			ok = tree.DeleteBySpatialID(h.sp.ID)
		}
		c.Check(ok, "the stored object %s %s cannot be deleted", h.sp.ID, repr(h.sp.Geom))
		if !h.proper {
			c.Ev("empty objects deleted")
		}
		all = append(all[:i:i], all[i+1:]...)
		if r.IntN(10) == 0 {
			verify("after deleting")
		}
	}
	verify("at the end")
	c.NT(fmt.Sprint(n, share, how))
}

func init() {
	must := []string{"kinds of collections", "keywords compared", "type names compared", "areas of values without extent", "lengths of lines without extent", "coverings of values without extent",
		"validations of values without extent", "points against empty polygons", "points against flat polygons", "objects found among degenerate ones", "empty objects deleted"}
	for _, o := range readOps {
		must = append(must, "calls on degenerate values: "+o.name)
	}
	for _, k := range kindsAll {
		must = append(must, "kinds seen with coordinates: "+k)
		if !strings.HasPrefix(k, "Point") {
			must = append(must, "kinds seen empty: "+k)
		}
	}
	register(&Prop{
		ID:   "C31",
		Rule: "nil, empty, single-point, repeated-point, two-point, flat and mixed values of every kind go through every operation of the library, every constructor and the index; non-trivial: distinct degenerate values",
		Must: must,
		Families: []Family{
			{"every-op", 1200, 40000, everyOperation},
			{"neutral", 12000, 600000, neutralResults},
			{"constructors", 600, 20000, emptyConstruction},
			{"index", 500, 20000, degenerateIndex},
		},
	})
}
