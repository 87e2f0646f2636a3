package main

// The exported per-kind writers, readers and converters behind the codecs, called directly (C07, C08, C09),
// and the signed area of a triangle (C18).

import (
	"fmt"
	"math"
	"reflect"
	"strings"

	geo "github.com/hzw456/go-geo"
	"github.com/hzw456/go-geo/geojson"
	"github.com/hzw456/go-geo/wkt"
)

// wktBody writes a geometry by the writers of its kind, as WKT.
func wktBody(g geo.Geometry) []string {
	switch g := g.(type) {
	case geo.Point:
		return []string{"POINT(" + wkt.GeometryToWktString(g.X, g.Y) + ")"}
	case geo.PointZ:
		return []string{"POINT(" + wkt.GeometryToWktStringZ(g.X, g.Y, g.Z) + ")"}
	case geo.MultiPoint:
		return []string{"MULTIPOINT" + wkt.PathToWktString(g)}
	case geo.MultiPointZ:
		return []string{"MULTIPOINT" + wkt.PathZToWktString(g)}
	case geo.LineString:
		return []string{"LINESTRING" + wkt.PathToWktString(g)}
	case geo.LineStringZ:
		return []string{"LINESTRING" + wkt.PathZToWktString(g)}
	case geo.MultiLineString:
		return []string{"MULTILINESTRING" + wkt.PolygonToWktString(g)}
	case geo.MultiLineStringZ:
		return []string{"MULTILINESTRING" + wkt.PolygonZToWktString(g)}
	case geo.Polygon:
		var l []geo.LineString
		for _, r := range g {
			l = append(l, geo.LineString(r))
		}
		return []string{"POLYGON" + wkt.PolygonToWktString2(g), "POLYGON" + wkt.PolygonToWktString(l)}
	case geo.PolygonZ:
		var l []geo.LineStringZ
		for _, r := range g {
			l = append(l, geo.LineStringZ(r))
		}
		return []string{"POLYGON" + wkt.PolygonZToWktString2(g), "POLYGON" + wkt.PolygonZToWktString(l)}
	case geo.MultiPolygon:
		return []string{"MULTIPOLYGON" + wkt.MultiPolygonToWktString(g)}
	case geo.MultiPolygonZ:
		return []string{"MULTIPOLYGON" + wkt.MultiPolygonZToWktString(g)}
	}
	panic("kind")
}

func wktWriters(c *Case) {
	kind := kindsAll[c.Idx%len(kindsAll)]
	cg, _ := codecCoords(c.R)
	g := codecGeom(c.R, kind, cg)
	c.Desc(func() string { return repr(g) })
	for _, text := range wktBody(g) {
		k, coords, err := readWKT(text)
		c.Check(err == nil, "the writer of the kind writes text that is not well-formed: %v\n%s", err, trunc(text, 400))
		c.Check(k == strings.TrimSuffix(kind, "Z") && reflect.DeepEqual(coords, nested(g)), "the writer of the kind writes %s", trunc(text, 600))
	}
	c.Ev("written by kind: " + kind)
	c.NT(repr(g))
}

var wktReaders = map[string]func(string) (geo.Geometry, error){
	"Point": wkt.PointFromWKT, "MultiPoint": wkt.MultiPointFromWKT, "LineString": wkt.LineStringFromWKT,
	"MultiLineString": wkt.MultiLineStringFromWKT, "Polygon": wkt.PolygonFromWKT, "MultiPolygon": wkt.MultiPolygonFromWKT,
}

// emptyGeom tells whether a geometry lists no position.
func emptyGeom(g geo.Geometry) bool {
	if g == nil {
		return true
	}
	switch g := g.(type) {
	case geo.Point, geo.PointZ:
		return false
	default:
		return len(flatten(g)) == 0
	}
}

func wktByKind(c *Case) {
	kind := kindsAll[c.Idx%len(kindsAll)]
	name := strings.TrimSuffix(kind, "Z")
	cg, _ := codecCoords(c.R)
	g := codecGeom(c.R, kind, cg)
	st := &wktStyle{r: c.R, ws: wsSets[0], paren: c.R.IntN(2) == 0, exp: c.R.IntN(2) == 0}
	text := st.text(name, nested(g).([]any))
	body := strings.TrimSpace(text[strings.IndexByte(text, '(')+1 : strings.LastIndexByte(text, ')')])
	c.Desc(func() string { return name + " body " + body })
	back, err := wktReaders[name](body)
	c.Check(err == nil, "the reader of the kind refuses well-formed text: %v", err)
	c.Check(back != nil && back.Type() == geo.GeometryType(kind) && sameGeom(g, back), "the reader of the kind reads %s, expected %s", trunc(repr(back), 600), trunc(repr(g), 600))
	c.Ev("read by kind: " + kind)
	// text of another kind, or broken text: an error or a geometry with something in it
	b := []byte(body)
	for i := c.R.IntN(4); i > 0 && len(b) > 0; i-- {
		j := c.R.IntN(len(b))
		switch c.R.IntN(3) {
		case 0:
			b = append(b[:j], b[j+1:]...)
		case 1:
			b[j] = " (),.-e1"[c.R.IntN(8)]
		case 2:
			b = b[:j]
		}
	}
	for k, f := range wktReaders {
		back, err := f(string(b))
		c.Check(err != nil || !emptyGeom(back), "the reader of %s makes an empty %T of %q without an error", k, back, trunc(string(b), 300))
		if err != nil {
			c.Ev("broken text refused by kind")
		}
	}
	c.NT(body)
}

func geojsonByKind(c *Case) {
	kind := kindsAll[c.Idx%len(kindsAll)]
	cg, _ := codecCoords(c.R)
	g := codecGeom(c.R, kind, cg)
	c.Desc(func() string { return repr(g) })
	want := nested(g)
	judge := func(name string, v any, err error, takes ...string) {
		for _, k := range takes {
			if k == kind {
				c.Check(err == nil, "%s refuses a %s: %v", name, kind, err)
				c.Check(reflect.DeepEqual(anyList(v), want), "%s gives %s", name, trunc(fmt.Sprint(v), 600))
				c.Ev("converted by kind: " + kind)
				return
			}
		}
		c.Check(err != nil, "%s turns a %s, which it does not take, into %s", name, kind, trunc(fmt.Sprint(v), 300))
		c.Ev("other kinds refused")
	}
	switch g := g.(type) {
	case geo.Point:
		v, err := geojson.ConvertPoi(g)
		judge("ConvertPoi", v, err, "Point")
	case geo.PointZ:
		v, err := geojson.ConvertPoiZ(g)
		judge("ConvertPoiZ", v, err, "PointZ")
	}
	v, err := geojson.ConvertPoiSet(g)
	judge("ConvertPoiSet", v, err, "LineString", "MultiPoint")
	vz, err := geojson.ConvertPoiZSet(g)
	judge("ConvertPoiZSet", vz, err, "LineStringZ", "MultiPointZ")
	p, err := geojson.ConvertPathSet(g)
	judge("ConvertPathSet", p, err, "MultiLineString", "Polygon")
	pz, err := geojson.ConvertPathZSet(g)
	judge("ConvertPathZSet", pz, err, "MultiLineStringZ", "PolygonZ")
	m, err := geojson.ConvertPolygonSet(g)
	judge("ConvertPolygonSet", m, err, "MultiPolygon")
	mz, err := geojson.ConvertPolygonZSet(g)
	judge("ConvertPolygonZSet", mz, err, "MultiPolygonZ")
	c.NT(repr(g))
}

// anyList turns nested slices of numbers into nested []any.
func anyList(v any) any {
	r := reflect.ValueOf(v)
	if r.Kind() != reflect.Slice {
		return v
	}
	out := make([]any, r.Len())
	for i := range out {
		out[i] = anyList(r.Index(i).Interface())
	}
	return out
}

func triangles(c *Case) {
	r := c.R
	x := genXf(r)
	v := func() ipt { return ipt{int64(r.IntN(2001) - 1000), int64(r.IntN(2001) - 1000)} }
	a, b, d := v(), v(), v()
	switch r.IntN(4) {
	case 0: // aligned
		t := int64(r.IntN(9) - 4)
		d = ipt{a.x + t*(b.x-a.x), a.y + t*(b.y-a.y)}
	case 1: // almost aligned
		t := int64(r.IntN(9) - 4)
		d = ipt{a.x + t*(b.x-a.x), a.y + t*(b.y-a.y) + 1}
	}
	pa, pb, pd := x.pt(a), x.pt(b), x.pt(d)
	c.Desc(func() string { return fmt.Sprint(pa, pb, pd) })
	want := float64(orient(a, b, d)) * x.scale * x.scale
	got := geo.Area2(pa, pb, pd)
	c.Check(math.Abs(got-want) <= 1e-12*math.Abs(want), "Area2 is %v, expected %v", got, want)
	c.Ev("triangles measured")
	if want == 0 {
		c.Ev("triangles without area")
	}
	c.NT(fmt.Sprint(pa, pb, pd))
}

func init() {
	var m7, m8, m9 []string
	for _, k := range kindsAll {
		m7 = append(m7, "written by kind: "+k)
		m8 = append(m8, "read by kind: "+k)
		m9 = append(m9, "converted by kind: "+k)
	}
	extend("C07", Family{"writers", 1200, 100000, wktWriters}, m7...)
	extend("C08", Family{"bykind", 1200, 100000, wktByKind}, append(m8, "broken text refused by kind")...)
	extend("C09", Family{"bykind", 1200, 100000, geojsonByKind}, append(m9, "other kinds refused")...)
	extend("C18", Family{"triangles", 5000, 500000, triangles}, "triangles measured", "triangles without area")
}
