package main

// Large inputs: lines and rings of hundreds to thousands of vertices, polygons of hundreds of holes. The
// oracles are those of the small families; only the sizes differ.

import (
	"fmt"
	"math"
	"math/rand/v2"
	"reflect"

	geo "github.com/hzw456/go-geo"
)

type extension struct {
	id   string
	fam  Family
	must []string
}

var extensions []extension

// extend adds a family of cases to a property registered elsewhere.
func extend(id string, fam Family, must ...string) {
	extensions = append(extensions, extension{id, fam, must})
}

// applyExtensions runs once all properties are registered.
func applyExtensions() {
	for _, e := range extensions {
		p := props[e.id]
		p.Families = append(p.Families, e.fam)
		p.Must = append(p.Must, e.must...)
	}
}

// between draws a number with about equal weight for every power of two.
func between(r *rand.Rand, lo, hi int) int {
	return int(math.Round(float64(lo) * math.Pow(float64(hi)/float64(lo), r.Float64())))
}

// comb is a ring with many narrow teeth, simple by construction.
func comb(r *rand.Rand, teeth, span int) []ipt {
	ring := []ipt{{0, 0}}
	x := int64(0)
	var top []ipt
	for i := 0; i < teeth; i++ {
		top = append(top, ipt{x, int64(span/2 + r.IntN(span/2+1))})
		x += int64(1 + r.IntN(3))
		top = append(top, ipt{x, int64(1 + r.IntN(span/4+1))})
		x += int64(1 + r.IntN(3))
	}
	ring = append(ring, ipt{x, 0})
	for i := len(top) - 1; i >= 0; i-- {
		ring = append(ring, top[i])
	}
	return ring
}

// bigRing makes a simple ring of about n vertices.
func bigRing(r *rand.Rand, n int) []ipt {
	for {
		var ring []ipt
		switch r.IntN(3) {
		case 0:
			ring = skylineRing(r, n/2, 40)
		case 1:
			ring = comb(r, n/2, 100)
		default:
			ring = starRing(r, n, []int{1000, 100000, 1000000}[r.IntN(3)])
		}
		if ring != nil {
			return respin(r, ring)
		}
	}
}

// sieve is a square with many square or triangular holes.
func sieve(r *rand.Rand, k int) ipoly {
	side := int64(6*k + 2)
	p := ipoly{respin(r, []ipt{{0, 0}, {side, 0}, {side, side}, {0, side}})}
	for i := 0; i < k; i++ {
		for j := 0; j < k; j++ {
			if r.IntN(5) == 0 {
				continue
			}
			x, y, s := int64(6*i+1), int64(6*j+1), int64(1+r.IntN(4))
			h := []ipt{{x, y}, {x + s, y}, {x + s, y + s}, {x, y + s}}
			if r.IntN(2) == 0 {
				h = h[:3]
			}
			p = append(p, respin(r, h))
		}
	}
	r.Shuffle(len(p)-1, func(i, j int) { p[i+1], p[j+1] = p[j+1], p[i+1] })
	return p
}

// bigPoly makes a large polygon.
func bigPoly(r *rand.Rand, lo, hi int) ipoly {
	n := between(r, lo, hi)
	if r.IntN(3) == 0 {
		return sieve(r, 2+int(math.Sqrt(float64(n)/4)))
	}
	if n >= 16 && r.IntN(4) == 0 {
		return framed(r, n)
	}
	return ipoly{bigRing(r, n)}
}

// framed is a rectangle with one or two holes of many vertices.
func framed(r *rand.Rand, n int) ipoly {
	k := 1 + r.IntN(2)
	var holes [][]ipt
	x, lo, hi := int64(0), int64(0), int64(0)
	for i := 0; i < k; i++ {
		h := bigRing(r, max(n/k, 8))
		x0, y0, x1, y1 := bounds(h)
		for j := range h {
			h[j].x += x + 1 - x0
		}
		x += x1 - x0 + 1 + int64(r.IntN(3))
		if i == 0 {
			lo, hi = y0, y1
		}
		lo, hi = min(lo, y0), max(hi, y1)
		holes = append(holes, h)
	}
	x++
	lo, hi = lo-1-int64(r.IntN(3)), hi+1+int64(r.IntN(3))
	p := ipoly{respin(r, []ipt{{0, lo}, {x, lo}, {x, hi}, {0, hi}})}
	return append(p, holes...)
}

// countEv notes the sizes the monitors have seen.
func countEv(c *Case, n int) {
	switch {
	case n >= 1000:
		c.Ev("inputs of 1000 or more vertices")
	case n >= 256:
		c.Ev("inputs of 256 to 999 vertices")
	case n >= 64:
		c.Ev("inputs of 64 to 255 vertices")
	}
}

func vertices(p ipoly) (n int) {
	for _, r := range p {
		n += len(r)
	}
	return
}

const large1, large2 = "inputs of 256 to 999 vertices", "inputs of 1000 or more vertices"

func largePip(c *Case) {
	p := bigPoly(c.R, 40, 5000)
	t := exactXf(c.R)
	g := t.poly(p)
	countEv(c, vertices(p))
	var q ipt
	c.Desc(func() string { return fmt.Sprintf("point %v polygon %v", t.pt(q), g) })
	for k := 0; k < 40; k++ {
		q = probe(c.R, p)
		want := p.locate(q)
		got := geo.IsPointInPolygon(t.pt(q), g)
		exp := []geo.GeometryRealation{geo.RELA_DISJOINT, geo.RELA_TOUCH, geo.RELA_CONTAIN}[want]
		c.Check(got == exp, "the point is %s, reported as %s", locName[want], relName(got))
		c.Ev("large polygons: points " + locName[want])
		c.NT(fmt.Sprint(c.Idx, q))
	}
}

func largeLines(c *Case) {
	r := c.R
	t := exactXf(r)
	n, m := between(r, 20, 600), between(r, 20, 600)
	mk := func(n int, x0 int64) []ipt {
		var l []ipt
		for len(l) < n {
			l = append(l, ipt{x0 + int64(r.IntN(1000)), int64(r.IntN(1000))})
		}
		return l
	}
	a, b := mk(n, 0), mk(m, 1001)
	late := func(n int) int { // mostly near an end
		switch r.IntN(4) {
		case 0:
			return n - 1
		case 1:
			return 0
		case 2:
			return n - 1 - r.IntN(min(n, 8))
		}
		return r.IntN(n)
	}
	i, j := late(n), late(m)
	switch r.IntN(4) {
	case 0: // a single common point
		a[i].x = 1000
		b[j] = ipt{1000, a[i].y}
		c.Ev("long lines with a single contact")
	case 1: // a single crossing, if any
		a[i].x = 1000 + int64(r.IntN(30))
	case 2: // a common horizontal stretch
		if i+1 < n && j+1 < m {
			a[i], a[i+1] = ipt{1000, 10}, ipt{1000, 20}
			b[j], b[j+1] = ipt{1000, 20}, ipt{1000, 30}
		}
	}
	want := geo.RELA_DISJOINT
	for i := 0; i+1 < n && want == geo.RELA_DISJOINT; i++ {
		for j := 0; j+1 < m; j++ {
			if segRel(a[i], a[i+1], b[j], b[j+1]) != sDisjoint {
				want = geo.RELA_INTERSECT
				break
			}
		}
	}
	la, lb := geo.LineString(t.pts(a)), geo.LineString(t.pts(b))
	countEv(c, n+m)
	c.Desc(func() string { return fmt.Sprintf("%v %v", la, lb) })
	g1, g2 := geo.LineRelation(la, lb), geo.LineRelation(lb, la)
	c.Check(g1 == want && g2 == want, "reported as %s and %s, expected %s", relName(g1), relName(g2), relName(want))
	c.Ev("long lines: " + relName(want))
	for k := 0; k < 10; k++ { // points on one segment only
		s := late(n - 1)
		q := relatedPoint(r, a[s], a[s+1], 1000)
		on := false
		for x := 0; x+1 < n; x++ {
			on = on || onSeg(a[x], a[x+1], q)
		}
		got := geo.IsPointOnLine(t.pt(q), la)
		c.Check(got == on, "IsPointOnLine(%v) reports %v", t.pt(q), got)
		c.Ev(fmt.Sprint("points on long lines: ", on))
	}
	c.NT(fmt.Sprint(a[:3], b[:3], n, m))
}

func largeRelations(c *Case) {
	r := c.R
	p := bigPoly(r, 40, 1500)
	t := exactXf(r)
	g := t.poly(p)
	countEv(c, vertices(p))
	for k := 0; k < 15; k++ {
		a, b := probe(r, p), probe(r, p)
		if r.IntN(2) == 0 {
			b = ipt{a.x + int64(r.IntN(9)-4), a.y + int64(r.IntN(9)-4)}
		}
		s := classify(p, a, b)
		c.Desc(func() string { return fmt.Sprintf("segment %v %v polygon %v", t.pt(a), t.pt(b), g) })
		got := geo.SegPolyRelation(geo.LineSegment{Start: t.pt(a), End: t.pt(b)}, g)
		c.Check(got == s.rel, "reported as %s, expected %s", relName(got), relName(s.rel))
		c.Ev("large polygons: segments: " + relName(s.rel))
		c.NT(fmt.Sprint(c.Idx, a, b))
	}
	// a long line beside the polygon, which may touch the outermost vertices and edges
	if side := r.IntN(4); true {
		ext := p[0][0]
		out := func(q ipt) int64 { return []int64{q.x, -q.x, q.y, -q.y}[side] }
		for _, q := range p[0] {
			if out(q) > out(ext) {
				ext = q
			}
		}
		var l []ipt
		n, deep := between(r, 3, 120), r.IntN(2)
		at := []int{0, n - 1, r.IntN(n), -1}[r.IntN(4)]
		for i := 0; i < n; i++ {
			d, e := int64(deep+r.IntN(5)), int64(r.IntN(41)-20)
			if i == at {
				d, e = 0, int64(r.IntN(3)/2)
			}
			q := []ipt{{ext.x + d, ext.y + e}, {ext.x - d, ext.y + e}, {ext.x + e, ext.y + d}, {ext.x + e, ext.y - d}}[side]
			if len(l) == 0 || q != l[len(l)-1] {
				l = append(l, q)
			}
		}
		if len(l) >= 3 && l[0] != l[len(l)-1] {
			ls := geo.LineString(t.pts(l))
			c.Desc(func() string { return fmt.Sprintf("line %v polygon %v", ls, g) })
			checkFold(c, p, l, false, geo.LinePolyRelation(ls, g), "lines")
			ring := t.ring(l)
			checkFold(c, p, l, true, geo.LinearPolyRelation(ring, g), "rings")
			c.Ev("long lines beside polygons")
		}
	}
	// a long line that walks in small steps, so that it stays in or out for long
	l := []ipt{probe(r, p)}
	for try := 0; try < 60 && p.locate(l[0]) == 1; try++ {
		l[0] = probe(r, p)
	}
	n := between(r, 10, 200)
	for try := 0; len(l) < n && try < 4*n; try++ {
		q := ipt{l[len(l)-1].x + int64(r.IntN(7)-3), l[len(l)-1].y + int64(r.IntN(7)-3)}
		if s := classify(p, l[len(l)-1], q).rel; s == geo.RELA_INTERSECT || s != geo.RELA_CONTAIN && s != geo.RELA_DISJOINT && r.IntN(20) > 0 {
			continue
		}
		l = append(l, q)
	}
	if r.IntN(3) == 0 {
		l = append(l, probe(r, p))
	}
	if len(l) < 4 {
		return
	}
	ls := geo.LineString(t.pts(l))
	c.Desc(func() string { return fmt.Sprintf("line %v polygon %v", ls, g) })
	checkFold(c, p, l, false, geo.LinePolyRelation(ls, g), "lines")
	if l[0] != l[len(l)-1] {
		ring := t.ring(l)
		checkFold(c, p, l, true, geo.LinearPolyRelation(ring, g), "rings")
		checkFold(c, p, l, true, geo.PolyRelation(geo.Polygon{ring}, g), "polygons")
	}
}

// spoil exchanges two vertices of a simple ring, most often two neighbours.
func spoil(r *rand.Rand, ring []ipt) []ipt {
	ring = append([]ipt{}, ring...)
	n := len(ring)
	i := r.IntN(n)
	if r.IntN(2) == 0 {
		i = []int{0, 1, n - 1, n - 2, n - 3, n / 2}[r.IntN(6)]
	}
	j := (i + 1 + r.IntN(2)) % n
	if r.IntN(4) == 0 {
		j = r.IntN(n)
	}
	ring[i], ring[j] = ring[j], ring[i]
	return ring
}

func largeSelf(c *Case) {
	ring := bigRing(c.R, between(c.R, 40, 2500))
	want := false
	if c.R.IntN(3) > 0 {
		ring = spoil(c.R, ring)
		want, _ = ringCrosses(ring)
	}
	t := exactXf(c.R)
	g := t.poly(ipoly{ring})
	countEv(c, len(ring))
	c.Desc(func() string { return fmt.Sprint(g) })
	got := g.SelfIntersect()
	c.Check(got == want, "SelfIntersect is %v, outer edges cross: %v", got, want)
	c.Ev(fmt.Sprint("large rings self-intersecting: ", want))
	c.NT(fmt.Sprint(len(ring), ring[:3]))
}

func largeVerify(c *Case) {
	r := c.R
	ring := bigRing(r, between(r, 40, 5000))
	cross, out := false, false
	switch r.IntN(4) {
	case 0:
		ring = spoil(r, ring)
		cross, _ = ringCrosses(ring)
	case 1:
		out = true
	}
	countEv(c, len(ring))
	x0, y0, x1, y1 := bounds(ring)
	ext := math.Max(float64(x1-x0), float64(y1-y0))
	s := 1.0
	for ext*s > 80 {
		s /= 2
	}
	var g geo.LinearRing
	for _, p := range ring {
		g = append(g, geo.Point{X: float64(p.x-x0) * s, Y: float64(p.y-y0) * s})
	}
	if out { // flush with a limit, all but one vertex
		k := r.IntN(len(g))
		dx, dy := 0.0, 0.0
		switch r.IntN(4) {
		case 0:
			dx = 180 - g[k].X + s/2
		case 1:
			dx = -180 - g[k].X - s/2
		case 2:
			dy = 90 - g[k].Y + s/2
		case 3:
			dy = -90 - g[k].Y - s/2
		}
		out = false
		for i := range g {
			g[i].X += dx
			g[i].Y += dy
			out = out || !(math.Abs(g[i].X) <= 180 && math.Abs(g[i].Y) <= 90)
		}
	}
	g = append(g, g[0])
	poly := geo.Polygon{g}
	c.Desc(func() string { return fmt.Sprint(poly) })
	err := poly.Verify()
	want := !out && !cross
	c.Check((err == nil) == want, "Verify gives %v; out of range: %v, self-crossing: %v", err, out, cross)
	switch {
	case want:
		c.Ev("large polygons: valid")
	case out && !cross:
		c.Ev("large polygons: out of range")
	case cross && !out:
		c.Ev("large polygons: self-crossing")
	}
	c.NT(fmt.Sprint(len(ring), ring[:3]))
}

func largeHull(c *Case) {
	r := c.R
	n := between(r, 100, 6000)
	var pts []ipt
	small := false
	switch r.IntN(4) {
	case 3: // many points in a small triangle or quadrilateral, most of them repeated or on its sides
		small = true
		a, b, d := rpt(r, 4), rpt(r, 4), rpt(r, 4)
		for i := 0; i < n; i++ {
			switch r.IntN(4) {
			case 0:
				pts = append(pts, []ipt{a, b, d}[r.IntN(3)])
			default:
				pts = append(pts, ipt{(a.x + b.x) / 2, (a.y + b.y) / 2})
			case 1:
				k := int64(r.IntN(2))
				pts = append(pts, ipt{(a.x + b.x) / 2 * k, (a.y + b.y) / 2 * k})
			}
		}
	case 0: // nearly all of them on the hull
		rad := []float64{1e4, 1e6}[r.IntN(2)]
		for i := 0; i < n; i++ {
			a := r.Float64() * 2 * math.Pi
			pts = append(pts, ipt{int64(math.Round(rad * math.Cos(a))), int64(math.Round(rad * math.Sin(a)))})
		}
	case 1:
		span := []int{10, 100, 1000000}[r.IntN(3)]
		for i := 0; i < n; i++ {
			pts = append(pts, rpt(r, span))
		}
	case 2: // in the order of a walk
		p := ipt{}
		for i := 0; i < n; i++ {
			pts = append(pts, p)
			p.x += int64(r.IntN(7) - 3)
			p.y += int64(r.IntN(7) - 3)
		}
	}
	want := strictHull(pts)
	if len(want) < 3 {
		return
	}
	t := []xf{{1, 0, 0}, {1.0 / (1 << 19), 0, 0}, {1 << 30, 0, 0}, {0.0625, -5000, 7000}}[r.IntN(4)]
	back := map[geo.Point]ipt{}
	for _, p := range pts {
		back[t.pt(p)] = p
	}
	in := t.pts(pts)
	countEv(c, n)
	if small {
		c.Ev("large sets with a small hull")
	}
	c.Desc(func() string { return fmt.Sprint(in) })
	g := geo.ConvexHull(in...)
	c.Check(len(g) == 1 && len(g[0]) >= 4, "the hull is %v", g)
	ring := g[0]
	c.Check(ring[0] == ring[len(ring)-1], "the hull is not closed: %v", ring)
	var h []ipt
	for _, v := range ring[:len(ring)-1] {
		q, ok := back[v]
		c.Check(ok, "hull vertex %v is no input point", v)
		h = append(h, q)
	}
	c.Check(sameCycle(turning(h), want), "the hull is %v, expected (turning vertices) %v", ring, t.pts(want))
	if len(want) > 256 {
		c.Ev("hulls of more than 256 vertices")
	}
	c.NT(fmt.Sprint(n, pts[:3]))
}

func largeBoxes(c *Case) {
	kind := kindsAll[c.Idx%len(kindsAll)]
	r := c.R
	n := between(r, 100, 5000)
	cg := cgUniform(-180, 180)
	if r.IntN(2) == 0 { // the extremes lie anywhere along a walk
		v := 0.0
		cg = func(r *rand.Rand) float64 { v += r.Float64() - 0.5; return v }
	}
	parts := 1 + r.IntN(n/8)
	var g geo.Geometry
	pts := func(k int) []geo.Point { return gpts(r, cg, k, k) }
	ptsZ := func(k int) []geo.PointZ { return gptsZ(r, cg, k, k) }
	ring := func(k int) geo.LinearRing { p := pts(k); return append(p, p[0]) }
	ringZ := func(k int) geo.LinearRingZ { p := ptsZ(k); return append(p, p[0]) }
	k := 3 + n/parts
	switch kind {
	case "MultiPoint":
		g = geo.MultiPoint(pts(n))
	case "MultiPointZ":
		g = geo.MultiPointZ(ptsZ(n))
	case "LineString":
		g = geo.LineString(pts(n))
	case "LineStringZ":
		g = geo.LineStringZ(ptsZ(n))
	case "Polygon":
		g = geo.Polygon{ring(n)}
	case "PolygonZ":
		g = geo.PolygonZ{ringZ(n)}
	case "MultiLineString":
		var m geo.MultiLineString
		for i := 0; i < parts; i++ {
			m = append(m, pts(k))
		}
		g = m
	case "MultiLineStringZ":
		var m geo.MultiLineStringZ
		for i := 0; i < parts; i++ {
			m = append(m, ptsZ(k))
		}
		g = m
	case "MultiPolygon":
		var m geo.MultiPolygon
		for i := 0; i < parts; i++ {
			m = append(m, geo.Polygon{ring(k)})
		}
		g = m
	case "MultiPolygonZ":
		var m geo.MultiPolygonZ
		for i := 0; i < parts; i++ {
			m = append(m, geo.PolygonZ{ringZ(k)})
		}
		g = m
	default:
		return
	}
	countEv(c, n)
	c.Desc(func() string { return repr(g) })
	want := boxOf(g)
	got := geo.BoundingBox(g)
	c.Check(got != nil && toBox(got) == want, "the box is %+v, expected %+v", got, want)
	c.Ev("large boxes of " + kind)
	c.NT(fmt.Sprint(kind, n, want))
}

func largeMoments(c *Case) {
	r := c.R
	p := bigPoly(r, 40, 4000)
	t := exactXf(r)
	g := t.poly(p)
	countEv(c, vertices(p))
	c.Desc(func() string { return fmt.Sprint(g) })
	var a2, mx, my float64
	for i, ring := range p {
		a, x, y := exactMoments(ring)
		if i > 0 {
			a, x, y = -a, -x, -y
		}
		a2, mx, my = a2+a, mx+x, my+y
	}
	area := a2 / 2 * t.scale * t.scale
	got := geo.GetArea(g)
	c.Check(relNear(got, area, 1e-7, 0), "the area is %v, expected %v", got, area)
	c.Check(g.IsCCW() == (ringArea2(p[0]) > 0), "IsCCW is %v", g.IsCCW())
	cx, cy := (mx/(3*a2)+float64(t.ox))*t.scale, (my/(3*a2)+float64(t.oy))*t.scale
	x0, y0, x1, y1 := bounds(p[0])
	tol := t.scale * (1e-6*float64(x1-x0+y1-y0) + 1e-8*float64(iabs(t.ox)+iabs(t.oy)))
	m := geo.Centroid(g)
	c.Check(near(m.X, cx, tol) && near(m.Y, cy, tol), "the centroid is %v, expected {%v %v}", m, cx, cy)
	c.Ev("large polygons measured")
	// the mean of many points
	n := between(r, 100, 5000)
	var sx, sy int64
	var pts []ipt
	for i := 0; i < n; i++ {
		q := rpt(r, 1000)
		sx, sy = sx+q.x, sy+q.y
		pts = append(pts, q)
	}
	mp := geo.MultiPoint(t.pts(pts))
	w := geo.Point{X: (float64(sx)/float64(n) + float64(t.ox)) * t.scale, Y: (float64(sy)/float64(n) + float64(t.oy)) * t.scale}
	got2 := geo.Centroid(mp)
	tol = t.scale * (1e-8 + 1e-10*math.Max(1e3, float64(iabs(t.ox)+iabs(t.oy))))
	c.Check(near(got2.X, w.X, tol) && near(got2.Y, w.Y, tol), "the mean of %d points is %v, expected %v", n, got2, w)
	// many members
	var all geo.MultiPolygon
	sum := 0.0
	for i := between(r, 5, 200); i > 0; i-- {
		q := ipoly{genSimpleRing(r, 6, 6)}
		if r.IntN(3) == 0 {
			q = bigPoly(r, 20, 60)
		}
		if r.IntN(8) == 0 && len(all) > 0 {
			all = append(all, nil)
		}
		all = append(all, t.poly(q))
		for i, ring := range q {
			a := math.Abs(float64(ringArea2(ring))) / 2 * t.scale * t.scale
			if i > 0 {
				a = -a
				c.Ev("holes of members measured")
			}
			sum += a
		}
	}
	c.Desc(func() string { return fmt.Sprint(all) })
	c.Check(relNear(geo.GetArea(all), sum, 1e-9, 0), "the area of %d members is %v, the sum is %v", len(all), geo.GetArea(all), sum)
	c.NT(fmt.Sprint(n, pts[:3]))
}

func largeDistances(c *Case) {
	r := c.R
	n := between(r, 50, 3000)
	l := make(geo.LineString, 0, n)
	p := geo.Point{}
	walk := r.IntN(2) == 0
	for i := 0; i < n; i++ {
		if walk {
			p.X += r.Float64() - 0.3
			p.Y += r.Float64() - 0.5
		} else {
			p = geo.Point{X: 100 * r.Float64(), Y: 100 * r.Float64()}
		}
		l = append(l, p)
	}
	countEv(c, n)
	tol := 1e-9 * (1 + magn(l...))
	for k := 0; k < 8; k++ {
		q := l[r.IntN(n)]
		q.X += 3 * (r.Float64() - 0.5)
		q.Y += 3 * (r.Float64() - 0.5)
		if k == 0 { // nearest to the end
			q = geo.Point{X: l[n-1].X + 0.01, Y: l[n-1].Y}
		}
		c.Desc(func() string { return fmt.Sprintf("point %v line %v", q, l) })
		best := math.Inf(1)
		for i := 0; i+1 < n; i++ {
			best = math.Min(best, segDist(q, l[i], l[i+1]))
		}
		h, i, d := geo.PointHitLineString(q, l, planar)
		c.Check(near(d, best, tol), "the distance to the line is %v, expected %v", d, best)
		c.Check(i >= 0 && i+1 < n && segDist(h, l[i], l[i+1]) <= tol && near(dist2d(q, h), best, tol), "the nearest point is %v on segment %d", h, i)
		c.NT(fmt.Sprint(q, n))
	}
	sum := 0.0
	for i := 0; i+1 < n; i++ {
		sum += dist2d(l[i], l[i+1])
	}
	c.Check(near(l.Length(), sum, tol*float64(n)), "the length is %v, expected %v", l.Length(), sum)
	// Hausdorff: one far point anywhere
	k := min(n, 400)
	a, b := append(geo.LineString{}, l[:k]...), append(geo.LineString{}, l[:k]...)
	for i := range b {
		b[i].X += 0.01 * r.Float64()
	}
	b[r.IntN(k)].Y += 50
	switch r.IntN(4) {
	case 0: // most of one line is far from the other, which has the same ends
		y := []float64{-80, 80, 300}[r.IntN(3)]
		for i := 1; i+1 < k; i++ {
			a[i].Y += y
		}
		b = append(geo.LineString{}, a[0])
		for i := between(r, 1, 20); i > 0; i-- {
			q := a[1+r.IntN(k-2)]
			b = append(b, geo.Point{X: q.X + r.Float64(), Y: q.Y + r.Float64()})
		}
		b = append(b, a[k-1])
		c.Ev("large lines with common ends")
	case 1:
		b[0], b[k-1] = a[0], a[k-1]
		c.Ev("large lines with common ends")
	case 2:
		b.Reverse()
	}
	c.Desc(func() string { return fmt.Sprintf("lines %v %v", a, b) })
	dir := func(a, b geo.LineString) float64 {
		w := 0.0
		for _, p := range a {
			d := math.Inf(1)
			for _, q := range b {
				d = math.Min(d, dist2d(p, q))
			}
			w = math.Max(w, d)
		}
		return w
	}
	want := math.Max(dir(a, b), dir(b, a))
	h1, h2 := geo.HausdorffDistance(a, b, planar), geo.HausdorffDistance(b, a, planar)
	c.Check(near(h1, want, tol) && near(h2, want, tol), "the Hausdorff distance is %v and %v, expected %v", h1, h2, want)
	// a polygon
	g := bigPoly(r, 40, 2000)
	t := genXf(r)
	gp := t.poly(g)
	for k := 0; k < 8; k++ {
		q := probe(r, g)
		x := t.pt(q)
		c.Desc(func() string { return fmt.Sprintf("point %v polygon %v", x, gp) })
		d := geo.PointPolygonDistance(x, gp, planar)
		if g.locate(q) != 0 {
			c.Check(d == 0, "a point in the closed polygon is at distance %v", d)
			c.Ev("large polygons: points in the closed polygon")
			continue
		}
		want := math.Inf(1)
		for _, ring := range gp {
			for i := 0; i+1 < len(ring); i++ {
				want = math.Min(want, segDist(x, ring[i], ring[i+1]))
			}
		}
		c.Check(d > 0 && near(d, want, 1e-9*(t.scale+magn(x))), "the distance is %v, expected %v", d, want)
		c.Ev("large polygons: points outside")
	}
}

// zigzag decays from one end, so that the splits of the simplification nest once per vertex, to the
// right or (reversed) to the left; noise lies between the turns.
func zigzag(r *rand.Rand, n int, rate float64, noise int) geo.LineString {
	var l geo.LineString
	y := 1e6
	x := 0.0
	for i := 0; i < n; i++ {
		l = append(l, geo.Point{X: x, Y: y})
		x += 1 + 0.01*r.Float64()
		for k := 0; k < noise; k++ {
			x += 1
			l = append(l, geo.Point{X: x, Y: y * (1 - 0.3*r.Float64())})
		}
		y *= -rate
	}
	return l
}

// veryLong simplifies a nearly straight line of tens of thousands of points with a few peaks.
func veryLong(c *Case) {
	r := c.R
	n := between(r, 5000, 60000)
	l := make(geo.LineString, n)
	for i := range l {
		l[i] = geo.Point{X: float64(i), Y: 0.1 * r.Float64()}
	}
	for i := 1 + r.IntN(6); i > 0; i-- {
		k := r.IntN(n)
		for j := k; j < min(n, k+1+r.IntN(3)); j++ {
			l[j].Y = []float64{5, -50, 300, 9000}[r.IntN(4)] * (0.5 + r.Float64())
		}
	}
	thr := 0.5 + r.Float64()
	c.Desc(func() string { return fmt.Sprintf("threshold %v line %v", thr, l) })
	in := append(geo.LineString{}, l...)
	got := geo.DouglasPeuckerSimplify(l, thr, planar)
	keep, ok := refDP(in, thr, segDist, 1e-6, false)
	if !ok {
		return
	}
	var want geo.LineString
	for _, i := range keep {
		want = append(want, in[i])
	}
	c.Check(reflect.DeepEqual(got, want), "the result is %v, expected %v", got, want)
	c.Ev("lines of thousands of points")
	if n > 30000 {
		c.Ev("lines of more than 30000 points")
	}
	c.NT(fmt.Sprint(n, thr))
}

func largeSimplify(c *Case) {
	r := c.R
	n := between(r, 40, 1500)
	var l geo.LineString
	kind := "walks"
	switch r.IntN(4) {
	case 0:
		p := geo.Point{}
		for i := 0; i < n; i++ {
			l = append(l, p)
			p.X += r.Float64()
			p.Y += r.Float64() - 0.5
		}
	case 1:
		kind = "deeply nested splits"
		l = zigzag(r, min(n, 200), 0.85+0.12*r.Float64(), r.IntN(3))
	case 2:
		kind = "deeply nested splits"
		l = zigzag(r, min(n, 200), 0.85+0.12*r.Float64(), r.IntN(3))
		l.Reverse()
	case 3:
		kind = "splits nested more than 300 deep"
		l = zigzag(r, 400+n, 0.99+0.0095*r.Float64(), r.IntN(2))
		if r.IntN(2) == 0 {
			l.Reverse()
		}
	}
	n = len(l)
	countEv(c, n)
	unit := 1.0
	switch r.IntN(4) {
	case 0:
		unit = math.Ldexp(1, -20-r.IntN(30))
		c.Ev("large lines of tiny steps")
	case 1:
		unit = math.Ldexp(1, r.IntN(20))
	}
	for i := range l {
		l[i].X, l[i].Y = l[i].X*unit, l[i].Y*unit
	}
	thr := math.Pow(10, 5*r.Float64()-2) * unit
	in := append(geo.LineString{}, l...)
	c.Desc(func() string { return fmt.Sprintf("threshold %v line %v", thr, in) })
	got := geo.DouglasPeuckerSimplify(l, thr, planar)
	c.Check(len(got) <= n && len(got) >= 2 && got[0] == in[0] && got[len(got)-1] == in[n-1], "%d vertices become %v", n, got)
	keep, ok := refDP(in, thr, segDist, 1e-6*unit, false)
	if !ok {
		return
	}
	var want geo.LineString
	for _, i := range keep {
		want = append(want, in[i])
	}
	c.Check(reflect.DeepEqual(got, want), "the result is %v, expected %v", got, want)
	c.Ev("large lines: " + kind)
	if len(want) > 64 {
		c.Ev("results of more than 64 vertices")
	}
	again := geo.DouglasPeuckerSimplify(append(geo.LineString{}, got...), thr, planar)
	c.Check(reflect.DeepEqual(append(geo.LineString{}, again...), append(geo.LineString{}, got...)), "simplifying again changes %v to %v", got, again)
	c.NT(fmt.Sprint(n, thr))
}

func largeRotations(c *Case) {
	r := c.R
	n := between(r, 50, 3000)
	s := []float64{1, 100, 1e5}[r.IntN(3)]
	cg := cgUniform(-s, s)
	p := gpts(r, cg, n, n)
	g := geo.Polygon{append(p, p[0])}
	for i := r.IntN(20); i > 0; i-- {
		g = append(g, gring(r, cg))
	}
	ctr := gpt(r, cg)
	ang := r.Float64() * 7
	countEv(c, n)
	c.Desc(func() string { return fmt.Sprintf("angle %v centre %v polygon %v", ang, ctr, g) })
	sn, k := math.Sincos(ang)
	got, ok := geo.RotateCW(g, ctr, ang).(geo.Polygon)
	c.Check(ok && len(got) == len(g), "RotateCW gives %v", got)
	for i := range g {
		c.Check(len(got[i]) == len(g[i]), "ring %d of %d vertices has %d", i, len(g[i]), len(got[i]))
		for j, q := range g[i] {
			dx, dy := q.X-ctr.X, q.Y-ctr.Y
			w := geo.Point{X: ctr.X + dx*k + dy*sn, Y: ctr.Y - dx*sn + dy*k}
			c.Check(near(got[i][j].X, w.X, 1.1e-4) && near(got[i][j].Y, w.Y, 1.1e-4), "ring %d vertex %d becomes %v, expected %v", i, j, got[i][j], w)
		}
	}
	back, ok := geo.RotateCCW(got, ctr, ang).(geo.Polygon)
	c.Check(ok && len(back) == len(g), "RotateCCW gives %v", back)
	for i := range g {
		c.Check(len(back[i]) == len(g[i]), "ring %d of %d vertices has %d", i, len(g[i]), len(back[i]))
		for j, q := range g[i] {
			c.Check(near(back[i][j].X, q.X, 4e-4) && near(back[i][j].Y, q.Y, 4e-4), "rotating there and back moves %v to %v", q, back[i][j])
		}
	}
	c.NT(fmt.Sprint(n, ang))
}

// longLists edits lists of hundreds of points.
func longLists(c *Case) {
	r := c.R
	next := 0.0
	fresh := func() geo.Point { next++; return geo.Point{X: next, Y: -next} }
	var want []geo.Point
	for i := between(r, 50, 1500); i > 0; i-- {
		want = append(want, fresh())
	}
	n0 := len(want)
	if r.IntN(3) == 0 { // closed
		want = append(want, want[0])
		c.Ev("long closed lists edited")
	}
	var l geo.LineString
	if r.IntN(2) == 0 {
		l = *geo.NewLineString(want...)
	} else {
		l = append(make(geo.LineString, 0, len(want)+r.IntN(100)), want...)
	}
	want = append([]geo.Point{}, want...)
	countEv(c, n0)
	c.Desc(func() string { return fmt.Sprint(n0, " points; ", c.log) })
	for step := 10 + r.IntN(60); step > 0; step-- {
		n := len(want)
		if n < 3 {
			break
		}
		pos := r.IntN(n)
		switch r.IntN(4) {
		case 0:
			pos = []int{0, 1, n - 1, n - 2, n / 2, n/2 + 1}[r.IntN(6)]
		case 1:
			pos = min(n-1, 1<<r.IntN(11))
		}
		p := fresh()
		what := ""
		switch r.IntN(6) {
		case 0:
			what = "append"
			c.Check(l.Append(p) == nil, "append refused")
			want = append(want, p)
		case 1:
			what = fmt.Sprint("set ", pos)
			c.Check(l.SetPoint(pos, p) == nil, "set refused")
			want[pos] = p
		case 2:
			what = fmt.Sprint("insert ", pos)
			c.Check(l.InsertPoint(pos, p) == nil, "insert refused")
			want = insertAt(want, pos, p)
		case 3:
			what = fmt.Sprint("delete ", pos)
			c.Check(l.DelPoint(pos) == nil, "delete refused")
			want = removeAt(want, pos)
		case 4:
			what = "reverse"
			l.Reverse()
			for i, j := 0, len(want)-1; i < j; i, j = i+1, j-1 {
				want[i], want[j] = want[j], want[i]
			}
		case 5:
			what = fmt.Sprint("split ", pos)
			a, b := l.SplitByIndex(pos)
			c.Check(pointsEq(a, want[:pos+1]) && pointsEq(b, want[pos:]), "%s gives %v and %v", what, a, b)
			if r.IntN(4) == 0 && pos > n/2 {
				l, want = a, want[:pos+1:pos+1]
				what += ", first part"
			} else if r.IntN(4) == 0 && pos < n/2 {
				l, want = b, append([]geo.Point{}, want[pos:]...)
				what += ", second part"
			}
		}
		c.log = append(c.log, what)
		c.Check(l.GetPointCount() == len(want) && pointsEq(l, want) && pointsEq(l.GetPointSet(), want), "after %s the line is %v, expected %v", what, l, want)
		if k := len(want); k >= 2 {
			c.Check(*l.GetFirstPoint() == want[0] && *l.GetEndPoint() == want[k-1] && *l.GetPoint(k - 1) == want[k-1] && l.GetPoint(k) == nil, "after %s the ends are wrong", what)
		}
		c.Ev("edits of long lists")
	}
	ring := geo.NewLinearRing(l...)
	w := want
	if len(w) >= 2 && w[0] != w[len(w)-1] {
		w = append(append([]geo.Point{}, w...), w[0])
	}
	c.Check(ring != nil && pointsEq(*ring, w) && pointsEq(geo.LineString(want).ToRing(), w), "the ring of %d points is %v", len(want), ring)
	c.NT(fmt.Sprint(n0, c.log))
}

func longEquality(c *Case) {
	r := c.R
	n := between(r, 50, 3000)
	a := geo.LineStringZ(gptsZ(r, cgUniform(-180, 180), n, n))
	b := append(geo.LineStringZ{}, a...)
	want, want3 := true, true
	k := r.IntN(n)
	if r.IntN(2) == 0 {
		k = []int{0, n - 1, n - 2, n / 2}[r.IntN(4)]
	}
	switch r.IntN(5) {
	case 0:
		b[k].X += 1e-3
		want, want3 = false, false
	case 1:
		b[k].Y -= 1e-3
		want, want3 = false, false
	case 2:
		b[k].Z += 1e-3
		want3 = false
	case 3:
		b = b[:n-1-r.IntN(3)]
		want, want3 = false, false
	}
	flat := func(l geo.LineStringZ) (o geo.LineString) {
		for _, p := range l {
			o = append(o, geo.Point{X: p.X, Y: p.Y})
		}
		return
	}
	a2, b2 := flat(a), flat(b)
	countEv(c, n)
	c.Desc(func() string { return fmt.Sprintf("lines of %d and %d points, changed at %d", n, len(b), k) })
	c.Check(a2.Equal(b2) == want && b2.Equal(a2) == want, "the lines compare as %v and %v, expected %v", a2.Equal(b2), b2.Equal(a2), want)
	c.Check(a.Equal(b) == want3 && b.Equal(a) == want3, "the 3-D lines compare as %v and %v, expected %v", a.Equal(b), b.Equal(a), want3)
	c.Ev(fmt.Sprint("long lines equal: ", want3))
	c.NT(fmt.Sprint(n, k, want, want3))
}

func init() {
	extend("C05", Family{"large", 24, 400, boosted(300, 30, sharedReads)})
	extend("C06", Family{"large", 60, 1500, boosted(600, 60, noModification)})
	extend("C07", Family{"large", 120, 20000, boosted(3000, 600, wktRoundTrip)})
	extend("C08", Family{"large", 150, 15000, boosted(1000, 200, wktVariants)})
	extend("C08", Family{"largebad", 150, 15000, boosted(1000, 200, wktMalformed)})
	extend("C09", Family{"large", 120, 12000, boosted(3000, 600, geojsonRoundTrip)})
	extend("C11", Family{"large", 60, 6000, boosted(2000, 500, featureRoundTrip)})
	extend("C11", Family{"manyfeatures", 20, 1000, boosted(500, 500, collectionRoundTrip)}, "collections of many features")
	extend("C11", Family{"largeextent", 60, 6000, boosted(3000, 600, extentFamily)})
	extend("C12", Family{"large", 60, 6000, largePip}, large1, large2)
	extend("C13", Family{"large", 60, 6000, largeLines}, large1, large2, "long lines: disjoint", "long lines: intersect", "long lines with a single contact", "points on long lines: true", "points on long lines: false")
	extend("C14", Family{"large", 60, 6000, largeRelations}, large1, large2)
	extend("C14", Family{"largeself", 40, 2000, largeSelf}, "large rings self-intersecting: true", "large rings self-intersecting: false")
	extend("C15", Family{"large", 60, 6000, largeHull}, large1, large2, "hulls of more than 256 vertices")
	extend("C17", Family{"large", 60, 6000, largeBoxes}, large1, large2)
	extend("C18", Family{"large", 60, 6000, largeMoments}, large1, large2, "holes of members measured")
	extend("C19", Family{"large", 60, 6000, largeDistances}, large1, large2)
	extend("C20", Family{"verylong", 20, 600, veryLong}, "lines of more than 30000 points")
	extend("C20", Family{"large", 60, 6000, largeSimplify}, large1, "large lines of tiny steps", "large lines: walks", "large lines: deeply nested splits", "large lines: splits nested more than 300 deep", "results of more than 64 vertices")
	extend("C22", Family{"large", 60, 6000, largeRotations}, large1, large2)
	extend("C26", Family{"large", 60, 6000, c26largeCover}, "coverings of polygons of more than 100 vertices")
	extend("C27", Family{"long", 40, 8000, longLists}, large1, large2, "edits of long lists", "long closed lists edited")
	extend("C28", Family{"long", 40, 8000, longEquality}, large1, large2, "long lines equal: true", "long lines equal: false")
	extend("C32", Family{"large", 24, 3000, largeVerify}, large1, large2, "large polygons: valid", "large polygons: self-crossing", "large polygons: out of range")
}
