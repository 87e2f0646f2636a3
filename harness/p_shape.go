package main

// Monitors of shapes and planar measures: C15, C16, C17, C18, C19, C20, C22, C29, C30.

import (
	"fmt"
	"math"
	"math/rand/v2"
	"reflect"
	"sort"
	"strings"

	geo "github.com/hzw456/go-geo"
)

const planar = geo.SRID_WGS84_PSEUDO_MERCATOR

// strictHull is the exact counter-clockwise hull without collinear vertices.
func strictHull(pts []ipt) []ipt {
	p := append([]ipt{}, pts...)
	sort.Slice(p, func(i, j int) bool { return p[i].x < p[j].x || p[i].x == p[j].x && p[i].y < p[j].y })
	u := p[:0]
	for i, q := range p {
		if i == 0 || q != u[len(u)-1] {
			u = append(u, q)
		}
	}
	p = u
	if len(p) < 3 {
		return p
	}
	var h []ipt
	build := func(start int, q ipt) {
		for len(h) >= start+2 && orient(h[len(h)-2], h[len(h)-1], q) <= 0 {
			h = h[:len(h)-1]
		}
		h = append(h, q)
	}
	for _, q := range p {
		build(0, q)
	}
	n := len(h) - 1
	for i := len(p) - 2; i >= 0; i-- {
		build(n, p[i])
	}
	return h[:len(h)-1]
}

func pointCloud(r *rand.Rand) []ipt {
	n := 3 + r.IntN(12)
	span := []int{2, 3, 6, 20, 1000, 1000000}[r.IntN(6)]
	switch r.IntN(6) {
	case 0:
		n = 3 + r.IntN(200)
	case 1: // on a circle-like curve: many hull vertices
		var p []ipt
		for i := 0; i < n*3; i++ {
			a := r.Float64() * 2 * math.Pi
			p = append(p, ipt{int64(math.Round(1000 * math.Cos(a))), int64(math.Round(1000 * math.Sin(a)))})
		}
		return p
	case 2: // collinear runs
		var p []ipt
		for len(p) < n {
			a, d := rpt(r, span), rpt(r, 3)
			for i := r.IntN(8); i >= 0; i-- {
				p = append(p, ipt{a.x + int64(i)*d.x, a.y + int64(i)*d.y})
			}
		}
		return p
	case 3: // two lines only
		var p []ipt
		for i := 0; i < n; i++ {
			if r.IntN(2) == 0 {
				p = append(p, ipt{int64(r.IntN(9)), 0})
			} else {
				p = append(p, ipt{0, int64(r.IntN(9))})
			}
		}
		return p
	}
	var p []ipt
	for i := 0; i < n; i++ {
		q := rpt(r, span)
		if i > 0 && r.IntN(6) == 0 {
			q = p[r.IntN(i)]
		}
		p = append(p, q)
	}
	return p
}

func shuffled(r *rand.Rand, p []ipt) []ipt {
	o := append([]ipt{}, p...)
	r.Shuffle(len(o), func(i, j int) { o[i], o[j] = o[j], o[i] })
	return o
}

// stripRing gives the vertices of a closed ring that turn.
func turning(ring []ipt) []ipt {
	var u []ipt
	for i, p := range ring {
		if q := ring[(i+len(ring)-1)%len(ring)]; p != q {
			u = append(u, p)
		}
	}
	var o []ipt
	for i, p := range u {
		a, b := u[(i+len(u)-1)%len(u)], u[(i+1)%len(u)]
		if orient(a, p, b) != 0 || (a.x-p.x)*(b.x-p.x)+(a.y-p.y)*(b.y-p.y) > 0 {
			o = append(o, p)
		}
	}
	return o
}

func sameCycle(a, b []ipt) bool {
	if len(a) != len(b) {
		return false
	}
	for k := range b {
		ok := true
		for i := range a {
			if a[i] != b[(i+k)%len(b)] {
				ok = false
				break
			}
		}
		if ok {
			return true
		}
	}
	return len(a) == 0
}

func hullGrid(c *Case) {
	pts := pointCloud(c.R)
	want := strictHull(pts)
	if len(want) < 3 {
		return
	}
	t := genXf(c.R)
	back := map[geo.Point]ipt{}
	for _, p := range pts {
		back[t.pt(p)] = p
	}
	for k := 0; k < 3; k++ {
		p := pts
		if k > 0 {
			p = shuffled(c.R, pts)
		}
		if k == 2 { // other multiplicities
			for i := c.R.IntN(4); i >= 0; i-- {
				p = append(p, p[c.R.IntN(len(p))])
			}
		}
		in := t.pts(p)
		c.Desc(func() string { return fmt.Sprint(in) })
		g := geo.ConvexHull(in...)
		c.Check(len(g) == 1 && len(g[0]) >= 4, "the hull is %v", g)
		ring := g[0]
		c.Check(ring[0] == ring[len(ring)-1], "the hull is not closed: %v", ring)
		var r []ipt
		for _, v := range ring[:len(ring)-1] {
			q, ok := back[v]
			c.Check(ok, "hull vertex %v is no input point", v)
			r = append(r, q)
		}
		c.Check(sameCycle(r, want), "the hull is %v, expected %v", ring, t.pts(want))
		c.Ev("hulls compared")
		if len(p) > 50 {
			c.Ev("hulls of more than 50 points")
		}
		if len(want) > 20 {
			c.Ev("hulls of more than 20 vertices")
		}
		seen := map[ipt]bool{}
		for _, q := range p {
			if seen[q] {
				c.Ev("point sets with duplicates")
				break
			}
			seen[q] = true
		}
		on := 0
		for _, q := range pts {
			if inRing(want, q) == 1 {
				on++
			}
		}
		if on > len(want) {
			c.Ev("point sets with points on hull edges")
		}
		c.NT(fmt.Sprint(p))
	}
}

// hullFloat: doubles of several regimes, nearly collinear runs among them, judged with a tolerance.
func hullFloat(c *Case) {
	r := c.R
	ox, oy := (r.Float64()-0.5)*200, (r.Float64()-0.5)*160
	s := []float64{1e-3, 1, 50, 1e5}[r.IntN(4)]
	var in []geo.Point
	kind := "scattered points"
	switch r.IntN(3) {
	case 0:
		for i := 4 + r.IntN(60); i > 0; i-- {
			in = append(in, geo.Point{X: ox + s*r.Float64(), Y: oy + s*r.Float64()})
		}
	case 1: // points along one direction, computed with rounding, and one or two others
		kind = "nearly collinear runs"
		dx, dy := r.Float64()*s, r.Float64()*s
		for i := 3 + r.IntN(12); i > 0; i-- {
			f := float64(r.IntN(20))
			if r.IntN(2) == 0 {
				f = r.Float64() * 10
			}
			in = append(in, geo.Point{X: ox + dx*f, Y: oy + dy*f})
		}
		for i := 1 + r.IntN(2); i > 0; i-- {
			in = append(in, geo.Point{X: ox + s*(r.Float64()-0.5), Y: oy + s*(r.Float64()-0.5)})
		}
	case 2: // a rotated grid
		kind = "rotated grids"
		a := r.Float64() * 7
		n := 2 + r.IntN(5)
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				x, y := float64(i)*s, float64(j)*s
				in = append(in, geo.Point{X: ox + x*math.Cos(a) - y*math.Sin(a), Y: oy + x*math.Sin(a) + y*math.Cos(a)})
			}
		}
	}
	r.Shuffle(len(in), func(i, j int) { in[i], in[j] = in[j], in[i] })
	c.Desc(func() string { return fmt.Sprint(in) })
	// the extent across the direction of the farthest pair
	var a, b geo.Point
	far := -1.0
	for _, p := range in {
		for _, q := range in {
			if d := math.Hypot(p.X-q.X, p.Y-q.Y); d > far {
				far, a, b = d, p, q
			}
		}
	}
	w := 0.0
	for _, p := range in {
		w = math.Max(w, math.Abs(geoCross(a, b, p))/far)
	}
	if far < 1e-5 || w < far*1e-6 || w < 1e-5 {
		return
	}
	g := geo.ConvexHull(in...)
	c.Check(len(g) == 1 && len(g[0]) >= 4, "the hull is %v", g)
	ring := g[0]
	tol := 1e-9*far + 1e-12*(math.Abs(ox)+math.Abs(oy))
	c.Check(ring[0].Equal(ring[len(ring)-1]), "the hull is not closed: %v", ring)
	set := map[geo.Point]bool{}
	for _, p := range in {
		set[p] = true
	}
	area := 0.0
	for i := 0; i+1 < len(ring); i++ {
		c.Check(set[ring[i]], "hull vertex %v is no input point", ring[i])
		area += geoCross(ring[0], ring[i], ring[i+1]) / 2
		p, q := ring[i], ring[i+1]
		l := math.Hypot(q.X-p.X, q.Y-p.Y)
		if l == 0 {
			continue
		}
		if l > 1e-4*far { // short edges between nearly collinear points have no direction to speak of
			for _, x := range in {
				c.Check(geoCross(p, q, x) >= -math.Max(tol*l, 1e-6*tol*far), "point %v lies outside hull edge %v %v by %v", x, p, q, -geoCross(p, q, x)/l)
			}
		}
	}
	c.Check(area > 0, "the hull is not counter-clockwise: %v", ring)
	// every point is within the tolerance of the hull
	for _, x := range in {
		d, inside := math.Inf(1), true
		for i := 0; i+1 < len(ring); i++ {
			if geoCross(ring[i], ring[i+1], x) < 0 {
				inside = false
			}
			d = math.Min(d, segDist(x, ring[i], ring[i+1]))
		}
		c.Check(inside || d <= tol, "point %v lies outside the hull by %v: %v", x, d, ring)
	}
	c.Ev("float hulls: " + kind)
	c.NT(fmt.Sprint(in))
}

func geoCross(a, b, p geo.Point) float64 {
	return (b.X-a.X)*(p.Y-a.Y) - (b.Y-a.Y)*(p.X-a.X)
}

func nearestOn(p, a, b geo.Point) geo.Point {
	dx, dy := b.X-a.X, b.Y-a.Y
	l := dx*dx + dy*dy
	if l == 0 {
		return a
	}
	u := ((p.X-a.X)*dx + (p.Y-a.Y)*dy) / l
	if u <= 0 {
		return a
	}
	if u >= 1 {
		return b
	}
	return geo.Point{X: a.X + u*dx, Y: a.Y + u*dy}
}

func dist2d(a, b geo.Point) float64 { return math.Hypot(a.X-b.X, a.Y-b.Y) }

func segDist(p, a, b geo.Point) float64 { return dist2d(p, nearestOn(p, a, b)) }

// ---- C16

func mbrCases(c *Case) {
	r := c.R
	scale := []float64{1, 10, 100, 1000, 1e5, 1e7}[r.IntN(6)]
	ox, oy := float64(r.IntN(201)-100), float64(r.IntN(201)-100)
	if r.IntN(3) == 0 {
		ox, oy = ox*3000, oy*3000
	}
	ang := r.Float64() * 7
	mk := func() geo.Point {
		var x, y float64
		switch c.Idx % 3 {
		case 0:
			x, y = r.Float64(), r.Float64()
		case 1: // an oblong cloud
			x, y = r.Float64(), r.Float64()*0.2
		case 2: // the corners of a grid
			x, y = float64(r.IntN(4))/4, float64(r.IntN(4))/4
		}
		if r.IntN(3) > 0 || c.Idx%3 == 1 {
			x, y = x*math.Cos(ang)-y*math.Sin(ang), x*math.Sin(ang)+y*math.Cos(ang)
		}
		return geo.Point{X: ox + scale*x, Y: oy + scale*y}
	}
	n := 3 + r.IntN(20)
	if r.IntN(100) == 0 {
		n = between(r, 30, 1500)
		c.Ev("rectangles of many points")
	}
	pts := make([]geo.Point, n)
	for i := range pts {
		pts[i] = mk()
	}
	if r.IntN(20) == 0 { // along a bent arc, so that every point is a vertex and one edge is much longer
		n = between(r, 10, 200)
		a, b, k := r.Float64()*2-1, r.Float64()*3, 0.3+r.Float64()*3
		pts = pts[:0]
		for i := 0; i < n; i++ {
			t := a + b*float64(i)/float64(n)
			x, y := t, k*t*t
			x, y = x*math.Cos(ang)-y*math.Sin(ang), x*math.Sin(ang)+y*math.Cos(ang)
			pts = append(pts, geo.Point{X: ox + scale*x, Y: oy + scale*y})
		}
		r.Shuffle(n, func(i, j int) { pts[i], pts[j] = pts[j], pts[i] })
		c.Ev("rectangles of points along an arc")
	}
	kind := kinds2[1+r.IntN(5)]
	var g geo.Geometry
	split := func() [][]geo.Point { // parts of at least three points
		k := 1 + r.IntN(3)
		var o [][]geo.Point
		for ; k > 1 && len(pts) >= 6; k-- {
			o = append(o, pts[:3])
			pts = pts[3:]
		}
		return append(o, pts)
	}
	all := append([]geo.Point{}, pts...)
	switch kind {
	case "MultiPoint":
		g = geo.MultiPoint(pts)
	case "LineString":
		g = geo.LineString(pts)
	case "MultiLineString":
		var m geo.MultiLineString
		if r.IntN(2) == 0 { // also members of one or two points, and of none
			for rest := pts; len(rest) > 0; {
				k := min(len(rest), r.IntN(4))
				m = append(m, append(geo.LineString{}, rest[:k]...))
				rest = rest[k:]
			}
			c.Ev("lines with members of a point")
		} else {
			for _, p := range split() {
				m = append(m, p)
			}
		}
		g = m
	case "Polygon":
		p := geo.Polygon{append(append(geo.LinearRing{}, pts...), pts[0])}
		if r.IntN(3) == 0 {
			p = append(p, geo.LinearRing{pts[0], pts[1], pts[2], pts[0]})
		}
		g = p
	case "MultiPolygon":
		var m geo.MultiPolygon
		for _, p := range split() {
			m = append(m, geo.Polygon{append(append(geo.LinearRing{}, p...), p[0])})
		}
		g = m
	}
	c.Desc(func() string { return repr(g) })
	best, width, peri := minRect(all)
	if width < 0.05*scale || width < 0.05 {
		return
	}
	m := geo.Mbr(g)
	c.Check(len(m) == 1, "the result is %v", m)
	ring := append(geo.LinearRing{}, m[0]...)
	c.Check(len(ring) == 5 && ring[0].Equal(ring[4]), "the result is no closed quadrilateral: %v", m)
	const tol = 7e-4
	a, b, d, e := ring[0], ring[1], ring[2], ring[3]
	c.Check(math.Abs(a.X+d.X-b.X-e.X) < tol && math.Abs(a.Y+d.Y-b.Y-e.Y) < tol, "the result is no parallelogram: %v", ring)
	l1, l2 := dist2d(a, b), dist2d(b, d)
	dot := (b.X-a.X)*(d.X-b.X) + (b.Y-a.Y)*(d.Y-b.Y)
	c.Check(math.Abs(dot) < tol*(l1+l2), "the result is no rectangle: %v", ring)
	area := l1 * l2
	c.Check(area <= best+tol*peri, "the area is %v, the smallest is %v", area, best)
	c.Check(area >= best-tol*peri, "the area is %v, less than the smallest, %v", area, best)
	sign := 1.0
	if geoCross(a, b, d) < 0 {
		sign = -1
	}
	for _, p := range all {
		for i := 0; i < 4; i++ {
			x, y := ring[i], ring[i+1]
			out := -sign * geoCross(x, y, p) / math.Max(1e-9, dist2d(x, y))
			c.Check(out < tol, "point %v lies outside the rectangle %v by %v", p, ring, out)
		}
	}
	c.Ev("rectangles of " + kind)
	if best > 1<<31 {
		c.Ev("rectangles of more than 2^31 in area")
	}
	if bb := boxOf(geo.MultiPoint(all)); (bb.x1-bb.x0)*(bb.y1-bb.y0) > best*1.1 {
		c.Ev("oblique rectangles")
	}
	c.NT(repr(g))
}

// minRect finds the smallest area of a covering rectangle over the directions of all hull edges,
// the width of the point set and the perimeter scale of the rectangle.
func minRect(pts []geo.Point) (best, width, peri float64) {
	best, width = math.Inf(1), math.Inf(1)
	h := floatHull(pts)
	if len(h) < 3 {
		return 0, 0, 0
	}
	for i := range h {
		a, b := h[i], h[(i+1)%len(h)]
		l := dist2d(a, b)
		if l == 0 {
			continue
		}
		ux, uy := (b.X-a.X)/l, (b.Y-a.Y)/l
		u0, u1, v0, v1 := math.Inf(1), math.Inf(-1), math.Inf(1), math.Inf(-1)
		for _, p := range h {
			u, v := (p.X-a.X)*ux+(p.Y-a.Y)*uy, (p.Y-a.Y)*ux-(p.X-a.X)*uy
			u0, u1, v0, v1 = math.Min(u0, u), math.Max(u1, u), math.Min(v0, v), math.Max(v1, v)
		}
		width = math.Min(width, v1-v0)
		if x := (u1 - u0) * (v1 - v0); x < best {
			best = x
			peri = 2 * (u1 - u0 + v1 - v0)
		}
	}
	return
}

func floatHull(pts []geo.Point) []geo.Point {
	p := append([]geo.Point{}, pts...)
	sort.Slice(p, func(i, j int) bool { return p[i].X < p[j].X || p[i].X == p[j].X && p[i].Y < p[j].Y })
	var h []geo.Point
	build := func(start int, q geo.Point) {
		for len(h) >= start+2 && geoCross(h[len(h)-2], h[len(h)-1], q) <= 0 {
			h = h[:len(h)-1]
		}
		h = append(h, q)
	}
	for _, q := range p {
		build(0, q)
	}
	n := len(h) - 1
	for i := len(p) - 2; i >= 0; i-- {
		build(n, p[i])
	}
	return h[:len(h)-1]
}

func mbrDegenerate(c *Case) {
	r := c.R
	cg := cgSmallInt(9)
	p := gpt(r, cg)
	dx, dy := float64(r.IntN(5)-2), float64(r.IntN(5)-2)
	n := r.IntN(6)
	var pts []geo.Point
	for i := 0; i < n; i++ {
		f := float64(r.IntN(4))
		pts = append(pts, geo.Point{X: p.X + f*dx, Y: p.Y + f*dy})
	}
	var gs []geo.Geometry
	gs = append(gs, p, geo.MultiPoint(pts), geo.LineString(pts), geo.MultiLineString{pts}, geo.MultiLineString{nil, pts}, geo.MultiPoint(nil), geo.MultiPolygon(nil), geo.Polygon(nil), geo.Polygon{nil}, geo.MultiPolygon{nil, {nil}})
	if n > 0 {
		ring := append(append(geo.LinearRing{}, pts...), pts[0])
		gs = append(gs, geo.Polygon{ring}, geo.MultiPolygon{{ring}})
	}
	for _, g := range gs {
		c.Desc(func() string { return repr(g) })
		m := geo.Mbr(g)
		c.Check(len(flatten(m)) == 0, "the rectangle of a degenerate geometry is %v", m)
		c.Ev("degenerate geometries")
	}
	c.NT(fmt.Sprint(pts))
}

// ---- C17

func boxGeoms(c *Case) {
	kind := kindsAll[c.Idx%len(kindsAll)]
	var cg coordGen
	switch c.R.IntN(4) {
	case 0:
		cg = cgSmallInt(10)
	case 1:
		cg = cgUniform(-180, 180)
	case 2: // one side of zero only
		s := math.Pow(10, float64(c.R.IntN(30)-10))
		if c.R.IntN(2) == 0 {
			s = -s
		}
		cg = func(r *rand.Rand) float64 { return s * (1 + r.Float64()) }
	default:
		cg = cgExtreme
	}
	g := codecGeomIn(c.R, kind, cg)
	if strings.Contains(kind, "Polygon") && c.R.IntN(2) == 0 {
		openRings(g)
		c.Ev("boxes of rings left open")
	}
	c.Desc(func() string { return repr(g) })
	want := boxOf(g)
	got := geo.BoundingBox(g)
	c.Check(got != nil, "no box")
	c.Check(toBox(got) == want, "the box is %+v, expected %+v", *got, want)
	c.Ev("boxes of " + kind)
	if math.Max(math.Max(math.Abs(want.x0), math.Abs(want.x1)), math.Max(math.Abs(want.y0), math.Abs(want.y1))) > 1<<31 {
		c.Ev("boxes beyond 2^31")
	}
	c.NT(repr(g))
}

// openRings drops the closing point of every ring.
func openRings(g geo.Geometry) {
	cut := func(p geo.Polygon) {
		for i, r := range p {
			if len(r) > 3 {
				p[i] = r[:len(r)-1]
			}
		}
	}
	cutZ := func(p geo.PolygonZ) {
		for i, r := range p {
			if len(r) > 3 {
				p[i] = r[:len(r)-1]
			}
		}
	}
	switch g := g.(type) {
	case geo.Polygon:
		cut(g)
	case geo.PolygonZ:
		cutZ(g)
	case geo.MultiPolygon:
		for _, p := range g {
			cut(p)
		}
	case geo.MultiPolygonZ:
		for _, p := range g {
			cutZ(p)
		}
	}
}

func genBox(r *rand.Rand, near *geo.Box, cg coordGen) *geo.Box {
	v := func() float64 {
		if near != nil && r.IntN(2) == 0 {
			return []float64{near.MinX, near.MinY, near.MaxX, near.MaxY}[r.IntN(4)]
		}
		return cg(r)
	}
	a, b, c, d := v(), v(), v(), v()
	if near != nil && r.IntN(3) == 0 {
		a = []float64{near.MinX, near.MaxX}[r.IntN(2)]
	}
	if near != nil && r.IntN(3) == 0 {
		b = []float64{near.MinY, near.MaxY}[r.IntN(2)]
	}
	switch r.IntN(8) {
	case 0:
		c = a
	case 1:
		d = b
	}
	return geo.NewBox(math.Min(a, c), math.Min(b, d), math.Max(a, c), math.Max(b, d))
}

func boxAlgebra(c *Case) {
	for k := 0; k < 10; k++ {
		cg := cgSmallInt(6)
		switch c.R.IntN(5) {
		case 0:
			cg = func(r *rand.Rand) float64 { return float64(r.IntN(201)-100) / 8 }
		case 1:
			cg = func(r *rand.Rand) float64 { return float64(r.IntN(9)-4) * 1e12 }
		case 2: // gaps and sides far below the coordinate tolerance
			u := math.Ldexp(1, -20-c.R.IntN(14))
			cg = func(r *rand.Rand) float64 { return float64(r.IntN(3)-1) + float64(r.IntN(7)-3)*u }
			c.Ev("boxes with gaps below the coordinate tolerance")
		}
		a := genBox(c.R, nil, cg)
		b := genBox(c.R, a, cg)
		A, B := toBox(a), toBox(b)
		c.Desc(func() string { return fmt.Sprintf("%+v %+v", *a, *b) })
		meets := A.meets(B)
		c.Check(a.Intersect(b) == meets && b.Intersect(a) == meets, "Intersect gives %v and %v, expected %v", a.Intersect(b), b.Intersect(a), meets)
		c.Ev(fmt.Sprint("pairs of boxes that meet: ", meets))
		if meets && (A.x1 == B.x0 || B.x1 == A.x0 || A.y1 == B.y0 || B.y1 == A.y0) {
			c.Ev("boxes that touch only")
		}
		con := A.x0 <= B.x0 && A.y0 <= B.y0 && B.x1 <= A.x1 && B.y1 <= A.y1
		c.Check(a.Contain(b) == con, "Contain gives %v", a.Contain(b))
		c.Check(a.Contain(a) && a.Intersect(a), "a box does not contain or meet itself")
		c.Ev(fmt.Sprint("contained: ", con))
		U := box{math.Min(A.x0, B.x0), math.Min(A.y0, B.y0), math.Max(A.x1, B.x1), math.Max(A.y1, B.y1)}
		c.Check(toBox(a.Union(b)) == U && toBox(b.Union(a)) == U, "Union gives %v and %v", a.Union(b), b.Union(a))
		bs := []*geo.Box{a, b}
		n := c.R.IntN(4)
		if c.R.IntN(12) == 0 {
			n = 10 + c.R.IntN(300)
			c.Ev("unions of many boxes")
		}
		for i := n; i > 0; i-- {
			x := genBox(c.R, a, cg)
			if c.R.IntN(8) == 0 { // the same box, or an equal one, again
				if x = bs[c.R.IntN(len(bs))]; c.R.IntN(2) == 0 {
					d := *x
					x = &d
				}
			}
			bs = append(bs, x)
			X := toBox(x)
			U = box{math.Min(X.x0, U.x0), math.Min(X.y0, U.y0), math.Max(X.x1, U.x1), math.Max(X.y1, U.y1)}
		}
		c.Check(toBox(geo.BoxUnion(bs...)) == U, "BoxUnion of %d boxes gives %v, expected %v", len(bs), geo.BoxUnion(bs...), U)
		if n >= 2 { // the order does not matter
			c.R.Shuffle(len(bs), func(i, j int) { bs[i], bs[j] = bs[j], bs[i] })
			if c.R.IntN(2) == 0 {
				bs[len(bs)-1] = bs[0]
				U = toBox(bs[0])
				for _, x := range bs {
					X := toBox(x)
					U = box{math.Min(X.x0, U.x0), math.Min(X.y0, U.y0), math.Max(X.x1, U.x1), math.Max(X.y1, U.y1)}
				}
			}
			c.Check(toBox(geo.BoxUnion(bs...)) == U, "BoxUnion of %d boxes in another order gives %v, expected %v", len(bs), geo.BoxUnion(bs...), U)
		}
		c.Check(toBox(geo.BoxUnion(a)) == A, "BoxUnion of one box gives %v", geo.BoxUnion(a))
		c.Check(toBox(a) == A && toBox(b) == B, "a box was changed by the box algebra")
		c.Check(a.Size() == (A.x1-A.x0)*(A.y1-A.y0), "Size gives %v", a.Size())
		p := geo.Point{X: cg(c.R), Y: cg(c.R)}
		if c.R.IntN(2) == 0 {
			p.X = []float64{A.x0, A.x1}[c.R.IntN(2)]
		}
		if c.R.IntN(2) == 0 {
			p.Y = []float64{A.y0, A.y1}[c.R.IntN(2)]
		}
		in := A.x0 <= p.X && p.X <= A.x1 && A.y0 <= p.Y && p.Y <= A.y1
		c.Check(geo.IsPointInBox(a, p) == in, "IsPointInBox(%v) gives %v", p, geo.IsPointInBox(a, p))
		c.Ev(fmt.Sprint("point in box: ", in))
		lx, ly := math.Abs(cg(c.R)), math.Abs(cg(c.R))
		rb := geo.NewRectBox(p, lx, ly)
		c.Check(toBox(rb) == box{p.X - lx, p.Y - ly, p.X + lx, p.Y + ly}, "NewRectBox(%v, %v, %v) gives %v", p, lx, ly, rb)
		// the conversion counts sides below the coordinate tolerance as flat
		thin := func(d float64) bool { return d > 0 && d < 2*coordTol }
		if !thin(A.x1-A.x0) && !thin(A.y1-A.y0) {
			boxToGeo(c, a)
		}
		c.NT(fmt.Sprint(A, B, p))
	}
	if c.Idx%20 == 0 {
		a := geo.NewBox(0, 0, 1, 1)
		var nilBox *geo.Box
		c.Check(!a.Intersect(nil) && !nilBox.Intersect(a), "a box meets no box")
	}
}

func boxToGeo(c *Case, b *geo.Box) {
	g := geo.BoxToGeo(*b)
	B := toBox(b)
	c.Check(g != nil && toBox(geo.BoundingBox(g)) == B, "a box %+v as a geometry is %v", B, g)
	switch {
	case B.x0 == B.x1 && B.y0 == B.y1:
		p, ok := g.(geo.Point)
		c.Check(ok && p == geo.Point{X: B.x0, Y: B.y0}, "a point box %+v as a geometry is %s", B, repr(g))
		c.Ev("point boxes converted")
	case B.x0 == B.x1 || B.y0 == B.y1:
		l, ok := g.(geo.LineString)
		c.Check(ok && len(l) >= 2, "a flat box %+v as a geometry is %s", B, repr(g))
		for _, p := range l {
			c.Check(geo.IsPointInBox(b, p), "a flat box %+v as a geometry is %s", B, repr(g))
		}
		c.Ev("flat boxes converted")
	default:
		p, ok := g.(geo.Polygon)
		c.Check(ok && len(p) == 1, "a box %+v as a geometry is %s", B, repr(g))
		ring := p[0]
		c.Check(len(ring) == 5 && ring[0] == ring[4], "the ring of box %+v is not closed: %s", B, repr(g))
		set := map[geo.Point]bool{}
		for i := 0; i < 4; i++ {
			set[ring[i]] = true
			c.Check(ring[i].X == ring[i+1].X != (ring[i].Y == ring[i+1].Y), "the ring of box %+v is no rectangle: %s", B, repr(g))
		}
		c.Check(len(set) == 4, "the ring of box %+v is no rectangle: %s", B, repr(g))
		c.Check(relNear(geo.GetArea(p), b.Size(), 1e-9, 0), "a box of size %v has area %v as a polygon", b.Size(), geo.GetArea(p))
		for k := 0; k < 3; k++ {
			q := geo.Point{X: B.x0 + (B.x1-B.x0)*float64(c.R.IntN(5)-1)/2, Y: B.y0 + (B.y1-B.y0)*float64(c.R.IntN(5)-1)/2}
			c.Check((geo.IsPointInPolygon(q, p) != geo.RELA_DISJOINT) == geo.IsPointInBox(b, q), "point %v is in the box %+v or its polygon only", q, B)
		}
		c.Ev("boxes converted to polygons")
	}
}

// ---- C18

// exactMoments gives twice the area and six times the first moments of a ring (positive orientation).
func exactMoments(r []ipt) (a2, mx, my float64) {
	for i := range r {
		j := (i + 1) % len(r)
		cr := r[i].x*r[j].y - r[j].x*r[i].y
		a2 += float64(cr)
		mx += float64(r[i].x+r[j].x) * float64(cr)
		my += float64(r[i].y+r[j].y) * float64(cr)
	}
	if a2 < 0 {
		a2, mx, my = -a2, -mx, -my
	}
	return
}

func isConvexRing(r []ipt) bool {
	return len(turning(r)) >= 3 && sameCycle2(turning(r), strictHull(r))
}

// sameCycle2 compares up to rotation and direction.
func sameCycle2(a, b []ipt) bool {
	if sameCycle(a, b) {
		return true
	}
	o := make([]ipt, len(b))
	for i := range b {
		o[len(b)-1-i] = b[i]
	}
	return sameCycle(a, o)
}

func areaCases(c *Case) {
	maxN, span := 8, 6
	switch c.R.IntN(4) {
	case 0:
		maxN, span = 60, 60
	case 1:
		maxN, span = 12, 1000
	}
	t := exactXf(c.R)
	var mp geo.MultiPolygon
	sum := 0.0
	for n := 1 + c.R.IntN(4); n > 0; n-- {
		p := genPoly(c.R, maxN, span, 4)
		g := dupVertices(c.R, t.poly(p))
		c.Desc(func() string { return fmt.Sprint(g) })
		var a2, mx, my float64
		for i, ring := range p {
			a, x, y := exactMoments(ring)
			if i > 0 {
				a, x, y = -a, -x, -y
			}
			a2, mx, my = a2+a, mx+x, my+y
		}
		area := a2 / 2 * t.scale * t.scale
		mp = append(mp, g)
		sum += area
		got := geo.GetArea(g)
		c.Check(relNear(got, area, 1e-9, 0), "the area is %v, expected %v", got, area)
		ccw := ringArea2(p[0]) > 0
		c.Check(g.IsCCW() == ccw, "IsCCW is %v", g.IsCCW())
		c.Ev(fmt.Sprint("counter-clockwise: ", ccw))
		cx, cy := mx/(3*a2), my/(3*a2)
		cx, cy = (cx+float64(t.ox))*t.scale, (cy+float64(t.oy))*t.scale
		x0, y0, x1, y1 := bounds(p[0])
		tol := t.scale * (1e-7*float64(x1-x0+y1-y0) + 1e-9*float64(iabs(t.ox)+iabs(t.oy)))
		for k, m := range []geo.Point{geo.Centroid(g), geo.LinearCentroid(g[0])} {
			if k == 1 && len(g) > 1 {
				continue
			}
			c.Check(near(m.X, cx, tol) && near(m.Y, cy, tol), "the centroid is %v, expected {%v %v}", m, cx, cy)
		}
		c.Ev("polygon centroids compared")
		if len(p) > 1 {
			c.Ev("polygons with holes compared")
		}
		if t.ox != 0 {
			c.Ev("polygons far from the origin compared")
		}
		if len(p) == 1 && isConvexRing(p[0]) {
			m := geo.Centroid(g)
			c.Check(geo.IsPointInPolygon(m, g) != geo.RELA_DISJOINT, "the centroid %v of a convex polygon lies outside", m)
			c.Ev("centroids of convex polygons")
		}
		c.NT(fmt.Sprint(p, t))
	}
	c.Desc(func() string { return fmt.Sprint(mp) })
	c.Check(relNear(geo.GetArea(mp), sum, 1e-9, 0) && relNear(geo.MultiPolyArea(mp), sum, 1e-9, 0), "the area of the multipolygon is %v and %v, the sum is %v", geo.GetArea(mp), geo.MultiPolyArea(mp), sum)
	c.Ev("multipolygon areas")
	// a hole that is all there is, and the holes left and right of a cut
	outer := genSimpleRing(c.R, maxN, span)
	full := t.pts(append(append([]ipt{}, outer...), outer[0]))
	same := append([]geo.Point{}, full...)
	if n := len(outer); c.R.IntN(2) == 0 { // from another vertex, the other way round
		k := 1 + c.R.IntN(n)
		for i := range same {
			same[i] = full[(k+n-i%n)%n]
		}
	}
	gone := geo.Polygon{full, same}
	c.Desc(func() string { return fmt.Sprint(gone) })
	a0 := geo.GetArea(geo.Polygon{full})
	c.Check(math.Abs(geo.GetArea(gone)) <= 1e-9*a0, "an outer ring of area %v that is a hole, too, has the area %v", a0, geo.GetArea(gone))
	q := t.pts([]ipt{{0, 0}, {6, 0}, {6, 4}, {0, 4}, {0, 0}})
	cut := int64(1 + c.R.IntN(5))
	halves := geo.Polygon{q, t.pts([]ipt{{0, 0}, {cut, 0}, {cut, 4}, {0, 4}, {0, 0}}), t.pts([]ipt{{6, 0}, {cut, 0}, {cut, 4}, {6, 4}, {6, 0}})}
	c.Desc(func() string { return fmt.Sprint(halves) })
	c.Check(math.Abs(geo.GetArea(halves)) <= 1e-9*geo.GetArea(geo.Polygon{q}), "a rectangle without its two parts has the area %v", geo.GetArea(halves))
	c.Ev("polygons that are all hole")
	// a ring without an interior: collinear points
	line := []ipt{{0, 0}}
	d := ipt{int64(c.R.IntN(7) - 3), int64(c.R.IntN(7) - 3)}
	for n := 2 + c.R.IntN(5); n > 0; n-- {
		k := int64(c.R.IntN(11) - 5)
		line = append(line, ipt{k * d.x, k * d.y})
	}
	flat := geo.Polygon{t.pts(append(line, line[0]))}
	c.Desc(func() string { return fmt.Sprint(flat) })
	c.Check(!flat.IsCCW() && geo.GetArea(flat) == 0, "a ring along a line has the area %v, counter-clockwise %v", geo.GetArea(flat), flat.IsCCW())
	c.Ev("rings along a line")
}

// the centroid of a line is that of the ring it closes to.
func lineCentroids(c *Case) {
	r := c.R
	ring := genSimpleRing(r, 8, []int{6, 100, 10000}[r.IntN(3)])
	t := exactXf(r)
	a2, mx, my := exactMoments(ring)
	want := geo.Point{X: (mx/(3*a2) + float64(t.ox)) * t.scale, Y: (my/(3*a2) + float64(t.oy)) * t.scale}
	x0, y0, x1, y1 := bounds(ring)
	tol := t.scale * (1e-7*float64(x1-x0+y1-y0) + 1e-9*float64(iabs(t.ox)+iabs(t.oy)))
	pts := t.pts(ring)
	var l geo.LineString
	if r.IntN(2) == 0 || pts[0].Equal(pts[len(pts)-1]) { // ends within the coordinate tolerance close the line
		l = append(append(l, pts...), pts[0])
		c.Ev("centroids of closed lines")
	} else {
		l = append(l, pts...)
		c.Ev("centroids of open lines")
	}
	c.Desc(func() string { return fmt.Sprint(l) })
	got := geo.Centroid(l)
	c.Check(near(got.X, want.X, tol) && near(got.Y, want.Y, tol), "the centroid of the line is %v, expected %v", got, want)
	got = geo.LinearCentroid(t.ring(ring))
	c.Check(near(got.X, want.X, tol) && near(got.Y, want.Y, tol), "the centroid of the ring is %v, expected %v", got, want)
	c.NT(fmt.Sprint(l))
}

func pointCentroids(c *Case) {
	t := exactXf(c.R)
	pts := genIline(c.R, 1, 30, []int{3, 100, 100000}[c.R.IntN(3)])
	var sx, sy int64
	for _, p := range pts {
		sx += p.x
		sy += p.y
	}
	n := float64(len(pts))
	want := geo.Point{X: (float64(sx)/n + float64(t.ox)) * t.scale, Y: (float64(sy)/n + float64(t.oy)) * t.scale}
	m := geo.MultiPoint(t.pts(pts))
	c.Desc(func() string { return fmt.Sprint(m) })
	got := geo.Centroid(m)
	tol := t.scale * (1e-9 + 1e-12*math.Max(1e5, float64(iabs(t.ox)+iabs(t.oy))))
	c.Check(near(got.X, want.X, tol) && near(got.Y, want.Y, tol), "the mean is %v, expected %v", got, want)
	c.Check(geo.Centroid(m[0]) == m[0], "the centroid of a point is %v", geo.Centroid(m[0]))
	c.Ev("multipoint centroids compared")
	c.NT(fmt.Sprint(pts))
}

// small polygons far from the origin: the vertices are exact and so are their differences, but not
// the products of their absolute coordinates
func farPolygons(c *Case) {
	p := genPoly(c.R, []int{4, 8, 20}[c.R.IntN(3)], []int{2, 6, 40}[c.R.IntN(3)], 3)
	var a2, mx, my float64
	for i, ring := range p {
		a, x, y := exactMoments(ring)
		if i > 0 {
			a, x, y = -a, -x, -y
		}
		a2, mx, my = a2+a, mx+x, my+y
	}
	if a2 < 0 {
		a2, mx, my = -a2, -mx, -my
	}
	// the offset in units of the grid: 2^25 (a metre seen from the other side of the earth) to 2^45
	off := math.Ldexp(1, 25+c.R.IntN(21))
	s := math.Ldexp(1, -c.R.IntN(30))
	if off*s > 1e9 {
		s = math.Ldexp(1, -15-c.R.IntN(15))
	}
	ox, oy := math.Round(off*(c.R.Float64()*2-1)), math.Round(off*(c.R.Float64()*2-1))
	switch c.R.IntN(8) {
	case 0:
		ox = 0
	case 1:
		oy = 0
	case 2:
		oy = ox
	}
	var g geo.Polygon
	for _, r := range p {
		var l geo.LinearRing
		for _, q := range r {
			l = append(l, geo.Point{X: (ox + float64(q.x)) * s, Y: (oy + float64(q.y)) * s})
		}
		g = append(g, append(l, l[0]))
	}
	c.Desc(func() string { return fmt.Sprint(g) })
	if closeTo := 2 * geo.COORDPRESION; s <= closeTo {
		// neighbouring grid points are equal within the coordinate precision; areas do not depend on it
		c.Ev("polygons below the coordinate precision")
	}
	area := a2 / 2 * s * s
	got := geo.GetArea(g)
	c.Check(relNear(got, area, 1e-6, 0), "the area is %v, expected %v", got, area)
	got = geo.MultiPolyArea(geo.MultiPolygon{g, g})
	c.Check(relNear(got, 2*area, 1e-6, 0), "the area of two is %v, expected %v", got, 2*area)
	ccw := ringArea2(p[0]) > 0
	c.Check(g.IsCCW() == ccw, "IsCCW is %v", g.IsCCW())
	m := geo.Centroid(g)
	cx, cy := mx/(3*a2), my/(3*a2)
	x0, y0, x1, y1 := bounds(p[0])
	tol := s * (1e-6*float64(x1-x0+y1-y0) + 4e-16*(math.Abs(ox)+math.Abs(oy)))
	c.Check(near(m.X, (ox+cx)*s, tol) && near(m.Y, (oy+cy)*s, tol), "the centroid is %v, expected {%v %v}", m, (ox+cx)*s, (oy+cy)*s)
	c.Ev("small polygons far from the origin")
	c.Ev(fmt.Sprint("far and counter-clockwise: ", ccw))
	c.NT(fmt.Sprint(g))
}

// translated centroids of float polygons in degrees
func centroidShift(c *Case) {
	p := genPoly(c.R, 10, 9, 2)
	s := []float64{1e-5, 0.001, 0.37, 1.1, 11}[c.R.IntN(5)]
	dx, dy := (c.R.Float64()-0.5)*200, (c.R.Float64()-0.5)*100
	mk := func(dx, dy float64) geo.Polygon {
		var g geo.Polygon
		for _, r := range p {
			var l geo.LinearRing
			for _, q := range r {
				l = append(l, geo.Point{X: dx + s*float64(q.x), Y: dy + s*float64(q.y)})
			}
			g = append(g, append(l, l[0]))
		}
		return g
	}
	a, b := mk(0, 0), mk(dx, dy)
	c.Desc(func() string { return fmt.Sprint(b) })
	m, n := geo.Centroid(a), geo.Centroid(b)
	tol := 1e-6*s + 1e-9
	c.Check(near(n.X, m.X+dx, tol) && near(n.Y, m.Y+dy, tol), "the centroid %v moves to %v under a translation by %v %v", m, n, dx, dy)
	area := geo.GetArea(a)
	c.Check(relNear(geo.GetArea(b), area, 1e-6, 1e-13*(math.Abs(dx)+math.Abs(dy)+20*s)*s), "the area %v becomes %v under a translation", area, geo.GetArea(b))
	c.Ev("translated centroids compared")
	c.NT(fmt.Sprint(b))
}

// ---- C19

// metricPts draws planar coordinates of a regime.
func metricPts(r *rand.Rand) coordGen {
	switch r.IntN(6) {
	case 0:
		return cgSmallInt(5)
	case 5: // tiny
		s := math.Ldexp(1, -20-r.IntN(20))
		return cgUniform(-s, s)
	case 4:
		return cgUniform(-1e12, 1e12)
	case 1:
		o := (r.Float64() - 0.5) * 1e7
		return func(r *rand.Rand) float64 { return o + r.Float64()*1000 }
	case 2:
		return cgUniform(-1e6, 1e6)
	}
	return cgUniform(-1, 1)
}

var projected = []geo.SRID{planar, geo.SRID_WGS84_UTM_ZONE_50N, geo.SRID_WGS84_UTM_ZONE_44N, 0}

func magn(ps ...geo.Point) float64 {
	m := 0.0
	for _, p := range ps {
		m = math.Max(m, math.Max(math.Abs(p.X), math.Abs(p.Y)))
	}
	return m
}

func segmentDistances(c *Case) {
	cg := metricPts(c.R)
	srid := projected[c.R.IntN(len(projected))]
	for k := 0; k < 10; k++ {
		a, b, p := gpt(c.R, cg), gpt(c.R, cg), gpt(c.R, cg)
		switch c.R.IntN(8) {
		case 0:
			b = a
		case 1:
			b.Y = a.Y
		case 2:
			b.X = a.X
		case 3:
			p = []geo.Point{a, b}[c.R.IntN(2)]
		case 4: // a point far from a short segment, often near its direction
			if a != b && magn(a, b) < 1e4 {
				f := math.Pow(10, 1+c.R.Float64()*9)
				if c.R.IntN(2) == 0 {
					f = -f
				}
				p = geo.Point{X: a.X + f*(b.X-a.X), Y: a.Y + f*(b.Y-a.Y)}
				if c.R.IntN(2) == 0 {
					p.X, p.Y = p.X-f*0.3*(b.Y-a.Y), p.Y+f*0.3*(b.X-a.X)
				}
				c.Ev("points far from short segments")
			}
		case 5: // the foot is just inside or just beyond an end
			u := math.Pow(10, -1-11*c.R.Float64())
			if c.R.IntN(2) == 0 {
				u = -u
			}
			if c.R.IntN(2) == 0 {
				u = 1 - u
			}
			h := math.Pow(10, -9*c.R.Float64())
			p = geo.Point{X: a.X + u*(b.X-a.X) - h*(b.Y-a.Y), Y: a.Y + u*(b.Y-a.Y) + h*(b.X-a.X)}
			c.Ev("feet close to an end")
		}
		c.Desc(func() string { return fmt.Sprintf("point %v segment %v %v", p, a, b) })
		tol := 1e-11 * magn(a, b, p)
		d, q := geo.PointToSegmentDistance(p, a, b, srid)
		n := nearestOn(p, a, b)
		want := dist2d(p, n)
		c.Check(near(d, want, tol), "the distance to the segment is %v, expected %v", d, want)
		c.Check(segDist(q, a, b) <= tol, "the nearest point %v is not on the segment", q)
		c.Check(near(dist2d(p, q), d, tol), "the nearest point %v is at %v, not at %v", q, dist2d(p, q), d)
		d2, _ := geo.PointToSegmentDistance(p, b, a, srid)
		c.Check(near(d2, d, tol), "the distance to the reversed segment is %v, not %v", d2, d)
		switch {
		case a == b:
			c.Ev("zero-length segments")
		case n == a || n == b:
			c.Ev("nearest points at ends")
		default:
			c.Ev("nearest points inside segments")
		}
		// distances between points
		e := dist2d(p, a)
		for _, x := range []float64{geo.EuclideanDistance(p, a), geo.EuclideanDis(p, a), p.Distance(a), a.Distance(p), geo.PointDistance(p, a, srid)} {
			c.Check(near(x, e, tol), "the distance of %v and %v is %v, expected %v", p, a, x, e)
		}
		if l := dist2d(a, b); l > 1e-3*magn(a, b) && l > 0 {
			d, q, u := geo.PointToLineDistance(p, a, b, srid)
			tol := 1e-11 * (magn(a, b, p) + dist2d(p, a))
			wu := ((p.X-a.X)*(b.X-a.X) + (p.Y-a.Y)*(b.Y-a.Y)) / (l * l)
			c.Check(near(d, math.Abs(geoCross(a, b, p))/l, tol), "the distance to the line is %v, expected %v", d, math.Abs(geoCross(a, b, p))/l)
			c.Check(near(u, wu, 1e-11+tol/l), "the parameter is %v, expected %v", u, wu)
			c.Check(dist2d(q, geo.Point{X: a.X + wu*(b.X-a.X), Y: a.Y + wu*(b.Y-a.Y)}) <= tol, "the foot is %v at parameter %v", q, wu)
			if u < 0 || u > 1 {
				c.Ev("feet beyond the ends")
			} else {
				c.Ev("feet inside")
			}
		}
		c.NT(fmt.Sprint(a, b, p))
	}
}

func polylineDistances(c *Case) {
	cg := metricPts(c.R)
	srid := projected[c.R.IntN(len(projected))]
	n := 2 + c.R.IntN(12)
	l := geo.LineString(gpts(c.R, cg, n, n))
	if c.R.IntN(3) == 0 { // repeated points
		i := c.R.IntN(n)
		l[i] = l[c.R.IntN(n)]
	}
	tol := 1e-11 * magn(l...)
	for k := 0; k < 8; k++ {
		p := gpt(c.R, cg)
		if c.R.IntN(6) == 0 {
			p = l[c.R.IntN(n)]
		}
		tol := tol + 1e-11*magn(p)
		c.Desc(func() string { return fmt.Sprintf("point %v line %v", p, l) })
		best, bi := math.Inf(1), 0
		for i := 0; i+1 < n; i++ {
			if d := segDist(p, l[i], l[i+1]); d < best {
				best, bi = d, i
			}
		}
		q, i, d := geo.PointHitLineString(p, l, srid)
		c.Check(near(d, best, tol), "the distance to the line is %v, expected %v", d, best)
		c.Check(i >= 0 && i+1 < n, "segment index %d of %d points", i, n)
		c.Check(segDist(q, l[i], l[i+1]) <= tol, "the nearest point %v is not on segment %d", q, i)
		c.Check(near(dist2d(p, q), best, tol), "the nearest point %v is at %v, not at %v", q, dist2d(p, q), best)
		if bi > 0 {
			c.Ev("nearest segments after the first")
		}
		if bi == n-2 && n > 3 {
			c.Ev("nearest segments last")
		}
		c.NT(fmt.Sprint(p, l))
	}
	sum := 0.0
	for i := 0; i+1 < n; i++ {
		sum += dist2d(l[i], l[i+1])
	}
	c.Check(near(l.Length(), sum, tol*float64(n)), "the length is %v, expected %v", l.Length(), sum)
	// Hausdorff
	m := geo.LineString(gpts(c.R, cg, 2, 10))
	if c.R.IntN(3) == 0 { // a shifted copy with another number of points
		m = append(geo.LineString{}, l...)
		for i := range m {
			m[i].X += 3
		}
		m = append(m, gpt(c.R, cg))
	}
	if sum > 0 && m.Length() > 0 {
		c.Desc(func() string { return fmt.Sprintf("lines %v %v", l, m) })
		dir := func(a, b geo.LineString) float64 {
			w := 0.0
			for _, p := range a {
				d := math.Inf(1)
				for _, q := range b {
					d = math.Min(d, dist2d(p, q))
				}
				w = math.Max(w, d)
			}
			return w
		}
		d1, d2 := dir(l, m), dir(m, l)
		want := math.Max(d1, d2)
		h1, h2 := geo.HausdorffDistance(l, m, srid), geo.HausdorffDistance(m, l, srid)
		tol := 1e-9 * (magn(l...) + magn(m...))
		c.Check(near(h1, want, tol) && near(h2, want, tol), "the Hausdorff distance is %v and %v, expected %v", h1, h2, want)
		c.Check(geo.HausdorffDistance(l, l, srid) == 0, "the Hausdorff distance of a line to itself is %v", geo.HausdorffDistance(l, l, srid))
		if d1 > d2+tol {
			c.Ev("Hausdorff distances from the first line")
		} else if d2 > d1+tol {
			c.Ev("Hausdorff distances from the second line")
		}
	}
}

func polygonDistances(c *Case) {
	p := genPoly(c.R, 10, 8, 3)
	t := genXf(c.R)
	if c.R.IntN(8) == 0 {
		t = xf{1 << 32, 0, 0}
		c.Ev("distances beyond 2^31")
	}
	g := dupVertices(c.R, t.poly(p))
	srid := projected[c.R.IntN(len(projected))]
	for k := 0; k < 15; k++ {
		q := probe(c.R, p)
		x := t.pt(q)
		c.Desc(func() string { return fmt.Sprintf("point %v polygon %v", x, g) })
		d := geo.PointPolygonDistance(x, g, srid)
		if p.locate(q) != 0 {
			c.Check(d == 0, "a point in the closed polygon is at distance %v", d)
			c.Ev("points in the closed polygon")
		} else {
			want := math.Inf(1)
			hole := false
			for ri, ring := range g {
				for i := 0; i+1 < len(ring); i++ {
					if s := segDist(x, ring[i], ring[i+1]); s < want {
						want = s
						hole = ri > 0
					}
				}
			}
			c.Check(d > 0 && near(d, want, 1e-9*(t.scale+magn(x))), "the distance is %v, expected %v", d, want)
			c.Ev("points outside the polygon")
			if hole {
				c.Ev("points nearest to a hole")
			}
		}
		c.NT(fmt.Sprint(p, q))
	}
}

// geographic calls measure metres on the sphere to the nearest position in degrees
func geographicDistances(c *Case) {
	r := c.R
	ox, oy := (r.Float64()-0.5)*350, (r.Float64()-0.5)*160
	s := []float64{0.001, 0.1, 2}[r.IntN(3)]
	cg := func() geo.Point { return geo.Point{X: ox + s*(r.Float64()-0.5), Y: oy + s*(r.Float64()-0.5)} }
	if r.IntN(6) == 0 { // all over the globe
		s = 1
		cg = func() geo.Point { return geo.Point{X: 360 * (r.Float64() - 0.5), Y: 160 * (r.Float64() - 0.5)} }
		c.Ev("geographic distances over the whole globe")
	}
	n := 3 + r.IntN(6)
	var l geo.LineString
	for i := 0; i < n; i++ {
		l = append(l, cg())
	}
	p := cg()
	if r.IntN(3) == 0 {
		p.X += s
	}
	c.Desc(func() string { return fmt.Sprintf("point %v line %v", p, l) })
	const gps = geo.SRID_WGS84_GPS
	tol := func(d float64) float64 { return 1e-3 + 1e-7*d }
	best := math.Inf(1)
	for i := 0; i+1 < n; i++ {
		w := sphereDist(p, nearestOn(p, l[i], l[i+1]))
		d, q := geo.PointToSegmentDistance(p, l[i], l[i+1], gps)
		c.Check(near(d, w, tol(w)), "the distance to segment %d is %v m, expected %v m", i, d, w)
		c.Check(dist2d(q, nearestOn(p, l[i], l[i+1])) < 1e-9*(1+magn(p)), "the nearest point of segment %d is %v", i, q)
		best = math.Min(best, w)
	}
	q, i, d := geo.PointHitLineString(p, l, gps)
	c.Check(near(d, best, tol(best)), "the distance to the line is %v m, expected %v m", d, best)
	c.Check(i >= 0 && i+1 < n && segDist(q, l[i], l[i+1]) < 1e-9*(1+magn(p)) && near(sphereDist(p, q), best, tol(best)), "the nearest point is %v on segment %d", q, i)
	d0, q0, u0 := geo.PointToLineDistance(p, l[0], l[1], gps)
	foot := geo.Point{X: l[0].X + u0*(l[1].X-l[0].X), Y: l[0].Y + u0*(l[1].Y-l[0].Y)}
	if math.Abs(foot.Y) < 89 {
		c.Check(dist2d(q0, foot) < 1e-7 && near(d0, sphereDist(p, q0), tol(d0)), "the distance to the line is %v m at %v, parameter %v", d0, q0, u0)
	}
	w := sphereDist(p, l[0])
	c.Check(near(geo.PointDistance(p, l[0], gps), w, tol(w)), "the distance of two points is %v m, expected %v m", geo.PointDistance(p, l[0], gps), w)
	// a triangle
	tri := geo.LinearRing{l[0], l[1], l[2], l[0]}
	o := []float64{geoCross(l[0], l[1], p), geoCross(l[1], l[2], p), geoCross(l[2], l[0], p)}
	inside := o[0] > 0 && o[1] > 0 && o[2] > 0 || o[0] < 0 && o[1] < 0 && o[2] < 0
	margin := math.Inf(1)
	w = math.Inf(1)
	for i := 0; i < 3; i++ {
		margin = math.Min(margin, segDist(p, tri[i], tri[i+1]))
		w = math.Min(w, sphereDist(p, nearestOn(p, tri[i], tri[i+1])))
	}
	if margin > 1e-4 {
		if inside {
			w = 0
		}
		d := geo.PointPolygonDistance(p, geo.Polygon{tri}, gps)
		c.Check(near(d, w, tol(w)), "the distance to the triangle is %v m, expected %v m", d, w)
		c.Ev("geographic polygon distances")
	}
	m := geo.LineString{cg(), cg(), cg()}
	dir := func(a, b geo.LineString) float64 {
		w := 0.0
		for _, p := range a {
			d := math.Inf(1)
			for _, q := range b {
				d = math.Min(d, sphereDist(p, q))
			}
			w = math.Max(w, d)
		}
		return w
	}
	w = math.Max(dir(l, m), dir(m, l))
	c.Check(near(geo.HausdorffDistance(l, m, gps), w, tol(w)), "the Hausdorff distance is %v m, expected %v m", geo.HausdorffDistance(l, m, gps), w)
	c.Ev("geographic distances compared")
	c.NT(fmt.Sprint(p, l))
}

// ---- C20

// refDP is the Douglas-Peucker result; ok is false where rounding could decide.
// exact says that the coordinates are small integers.
func refDP(l geo.LineString, thr float64, dist func(p, a, b geo.Point) float64, eps float64, exact bool) (keep []int, ok bool) {
	ok = true
	mark := map[int]bool{0: true, len(l) - 1: true}
	var rec func(a, b int)
	rec = func(a, b int) {
		if b-a < 2 {
			return
		}
		best, bi, second := -1.0, 0, -1.0
		for i := a + 1; i < b; i++ {
			d := dist(l[i], l[a], l[b])
			if d > best {
				best, bi, second = d, i, best
			} else {
				second = math.Max(second, d)
			}
		}
		if math.Abs(best-thr) <= eps {
			// only points on the end points themselves are at distance zero whatever the rounding
			sure := exact && thr == 0
			for i := a + 1; i < b; i++ {
				sure = sure && (l[i] == l[a] || l[i] == l[b])
			}
			ok = ok && sure
		}
		if best > thr {
			if best-second <= eps {
				ok = false // a tie: either vertex may be taken
			}
			mark[bi] = true
			rec(a, bi)
			rec(bi, b)
		}
	}
	rec(0, len(l)-1)
	for i := range l {
		if mark[i] {
			keep = append(keep, i)
		}
	}
	return
}

// embeds tells whether got is l without vertices that lie within tol of the segment spanning them.
func embeds(l, got geo.LineString, tol float64, dist func(p, a, b geo.Point) float64) bool {
	n, m := len(l), len(got)
	if m == 0 || got[0] != l[0] {
		return n == 0 && m == 0
	}
	// reach[i]: got[:k+1] can end at l[i]
	reach := make([]bool, n)
	reach[0] = true
	for k := 1; k < m; k++ {
		next := make([]bool, n)
		for i := 0; i < n; i++ {
			if !reach[i] {
				continue
			}
			for j := i + 1; j < n; j++ {
				if next[j] || l[j] != got[k] {
					continue
				}
				ok := true
				for x := i + 1; x < j; x++ {
					if !(dist(l[x], l[i], l[j]) <= tol) {
						ok = false
						break
					}
				}
				next[j] = ok
			}
		}
		reach = next
	}
	return reach[n-1]
}

func simplifyCases(c *Case) {
	r := c.R
	geographic := r.IntN(3) == 0
	n := 2 + r.IntN(30)
	if r.IntN(8) == 0 {
		n = 60 + r.IntN(120)
	}
	var l geo.LineString
	shape := r.IntN(5)
	switch shape {
	case 0: // grid walk with repeated points and back-tracking
		p := geo.Point{}
		for i := 0; i < n; i++ {
			l = append(l, p)
			p.X += float64(r.IntN(5) - 2)
			p.Y += float64(r.IntN(5) - 2)
		}
	case 1: // smooth
		for i := 0; i < n; i++ {
			l = append(l, geo.Point{X: float64(i), Y: 5*math.Sin(float64(i)/3) + 0.05*r.Float64()})
		}
	case 2: // scattered
		for i := 0; i < n; i++ {
			l = append(l, geo.Point{X: 10 * r.Float64(), Y: 10 * r.Float64()})
		}
	case 3: // along a line and back
		for i := 0; i < n; i++ {
			l = append(l, geo.Point{X: float64(r.IntN(20)), Y: 0})
		}
	case 4: // a circle
		for i := 0; i < n; i++ {
			a := 2 * math.Pi * float64(i) / float64(n)
			l = append(l, geo.Point{X: 8 * math.Cos(a), Y: 8 * math.Sin(a)})
		}
	}
	if len(l) > 2 && r.IntN(3) == 0 {
		l = append(l, l[0])
		c.Ev("closed lines")
	}
	n = len(l)
	srid := planar
	dist := segDist
	unit := 1.0
	if geographic {
		srid = geo.SRID_WGS84_GPS
		ox, oy := (r.Float64()-0.5)*300, (r.Float64()-0.5)*120
		for i := range l {
			l[i] = geo.Point{X: ox + l[i].X*0.01, Y: oy + l[i].Y*0.01}
		}
		dist = func(p, a, b geo.Point) float64 { return sphereDist(p, nearestOn(p, a, b)) }
		unit = 1000
	} else if r.IntN(3) == 0 {
		srid = geo.SRID_WGS84_UTM_ZONE_50N
		for i := range l {
			l[i].X += 500000
			l[i].Y += 4e6
		}
	}
	thr := []float64{0, 0.01, 0.1, 0.5, 1, 2, 5, 20, 1e6, -1, -1e-9}[r.IntN(11)] * unit
	if r.IntN(4) == 0 {
		thr = r.Float64() * 4 * unit
	}
	size := 1.0 // another unit of length; powers of two keep the decisions as they are
	if srid == planar && r.IntN(3) == 0 {
		size = math.Ldexp(1, []int{-44, -30, -22, -16, 16, 30}[r.IntN(6)])
		for i := range l {
			l[i].X, l[i].Y = l[i].X*size, l[i].Y*size
		}
		thr *= size
		c.Ev("lines of very short and very long steps")
	}
	scale := 0.0
	for _, p := range l {
		scale = math.Max(scale, magn(p))
	}
	eps := 1e-9 * (size + scale)
	if geographic {
		eps = 2e-3
	}
	in := append(geo.LineString{}, l...)
	c.Desc(func() string { return fmt.Sprintf("threshold %v srid %d line %v", thr, srid, in) })
	got := geo.DouglasPeuckerSimplify(l, thr, srid)
	c.Check(len(got) <= n && len(got) >= 2, "%d vertices become %d", n, len(got))
	c.Check(got[0] == in[0] && got[len(got)-1] == in[n-1], "an end point is lost: %v", got)
	c.Check(embeds(in, got, math.Max(thr, 0)+eps, dist), "the result is no part of the line within the threshold: %v", got)
	if thr < 0 {
		c.Check(len(got) == n, "a negative threshold drops vertices: %v", got)
		c.Ev("negative thresholds")
	}
	keep, ok := refDP(in, thr, dist, eps, !geographic && (shape == 0 || shape == 3))
	if ok {
		var want geo.LineString
		for _, i := range keep {
			want = append(want, in[i])
		}
		c.Check(reflect.DeepEqual(got, want), "the result is %v, expected %v", got, want)
		c.Ev("results compared with the reference")
		if len(want) < n && len(want) > 2 {
			c.Ev("lines shortened to more than their ends")
			c.NT(fmt.Sprint(in, thr))
		}
		if geographic {
			c.Ev("geographic results compared")
		}
	}
	again := geo.DouglasPeuckerSimplify(append(geo.LineString{}, got...), thr, srid)
	c.Check(reflect.DeepEqual(append(geo.LineString{}, again...), append(geo.LineString{}, got...)), "simplifying again changes %v to %v", got, again)
	if thr == 0 {
		c.Ev("zero thresholds")
	}
}

// ---- C22

func rotations(c *Case) {
	r := c.R
	cg := []coordGen{cgUniform(-180, 180), cgUniform(-1e6, 1e6), cgSmallInt(50)}[r.IntN(3)]
	ctr := gpt(r, cg)
	ang := []float64{0, math.Pi / 2, math.Pi, -math.Pi / 2, 2 * math.Pi, r.Float64() * 7, -r.Float64() * 7, r.Float64() * 100}[r.IntN(8)]
	rot := func(p geo.Point, a float64) geo.Point { // clockwise
		dx, dy := p.X-ctr.X, p.Y-ctr.Y
		s, k := math.Sincos(a)
		return geo.Point{X: ctr.X + dx*k + dy*s, Y: ctr.Y - dx*s + dy*k}
	}
	check := func(g, got geo.Geometry, a float64, what string) {
		c.Check(got != nil && reflect.TypeOf(got) == reflect.TypeOf(g), "%s gives %s", what, repr(got))
		f, h := flatten(g), flatten(got)
		c.Check(len(f) == len(h), "%s gives %d vertices for %d: %s", what, len(h), len(f), repr(got))
		for i := range f {
			p := geo.Point{X: f[i][0], Y: f[i][1]}
			w := rot(p, a)
			tol := 1.02e-4 + 1e-12*magn(p, ctr)
			c.Check(near(h[i][0], w.X, tol) && near(h[i][1], w.Y, tol), "%s by %v about %v moves %v to %v, expected %v", what, a, ctr, p, h[i], w)
		}
		if gp, ok := g.(geo.Polygon); ok {
			hp := got.(geo.Polygon)
			c.Check(len(gp) == len(hp), "%s gives %d rings for %d", what, len(hp), len(gp))
			for i := range gp {
				c.Check(len(gp[i]) == len(hp[i]) && hp[i][0].Equal(hp[i][len(hp[i])-1]), "%s damages ring %d: %v", what, i, hp[i])
			}
		}
		c.Ev("rotated vertices compared")
	}
	p := gpt(r, cg)
	g := genGeom(r, "Polygon", cg).(geo.Polygon)
	for _, ring := range g { // no vertices close enough to the first to look like a closing vertex
		if ring[len(ring)-2].Equal(ring[0]) {
			return
		}
	}
	c.Desc(func() string { return fmt.Sprintf("angle %v centre %v polygon %v point %v", ang, ctr, g, p) })
	for _, x := range []geo.Geometry{p, g} {
		cw, ccw := geo.RotateCW(x, ctr, ang), geo.RotateCCW(x, ctr, ang)
		check(x, cw, ang, "RotateCW")
		check(x, ccw, -ang, "RotateCCW")
		for _, back := range []geo.Geometry{geo.RotateCCW(cw, ctr, ang), geo.RotateCW(ccw, ctr, ang)} {
			f, h := flatten(x), flatten(back)
			c.Check(len(f) == len(h), "rotating back gives %d vertices for %d", len(h), len(f))
			for i := range f {
				tol := 3e-4 + 1e-12*magn(ctr, geo.Point{X: f[i][0], Y: f[i][1]})
				c.Check(near(f[i][0], h[i][0], tol) && near(f[i][1], h[i][1], tol), "rotating there and back moves %v to %v", f[i], h[i])
			}
		}
	}
	if len(g) > 1 {
		c.Ev("polygons with holes rotated")
	}
	c.NT(fmt.Sprint(g, ang))
}

func angleDiff(a, b float64) float64 {
	d := math.Abs(math.Mod(a-b, 2*math.Pi))
	return math.Min(d, 2*math.Pi-d)
}

func angles(c *Case) {
	r := c.R
	for k := 0; k < 20; k++ {
		span := []int{1, 2, 5, 1000}[r.IntN(4)]
		t := exactXf(r)
		if r.IntN(5) == 0 { // projected coordinates
			t = xf{1, int64(r.IntN(4e7) - 2e7), int64(r.IntN(4e7) - 2e7)}
			c.Ev("projected coordinates")
		}
		if t.scale < 1e-6 {
			c.Ev("tiny arms")
		}
		a, m, b := rpt(r, span), rpt(r, span), rpt(r, span)
		if r.IntN(3) == 0 {
			b = relatedPoint(r, a, m, span)
		}
		if r.IntN(8) == 0 {
			b = ipt{2*m.x - a.x, 2*m.y - a.y}
		}
		if r.IntN(6) == 0 { // arms a hair apart
			e := 2 + r.IntN(22)
			m = ipt{0, 0}
			a = rpt(r, 1<<e)
			b = ipt{a.x + int64(r.IntN(3)-1), a.y + int64(r.IntN(3)-1)}
			if r.IntN(3) == 0 {
				b = ipt{-b.x, -b.y}
			}
			t = xf{math.Ldexp(1, -r.IntN(31)), 0, 0}
			c.Ev("arms a hair apart")
		}
		if r.IntN(10) == 0 { // as small as differences can be
			t = xf{math.Ldexp(1, -50-r.IntN(150)), 0, 0}
			c.Ev("minute arms")
		}
		pa, pm, pb := t.pt(a), t.pt(m), t.pt(b)
		c.Desc(func() string { return fmt.Sprint(pa, pm, pb) })
		th, err := geo.CacAngle(pa, pm, pb)
		cv, cerr := geo.CacConvex(pa, pm, pb)
		if a == m || b == m {
			c.Check(err != nil, "CacAngle accepts repeated points: %v", th)
			c.Check(cerr != nil, "CacConvex accepts repeated points: %v", cv)
			c.Ev("repeated points refused")
		} else {
			c.Check(err == nil, "CacAngle fails: %v", err)
			u, v := ipt{a.x - m.x, a.y - m.y}, ipt{b.x - m.x, b.y - m.y}
			want := math.Atan2(float64(u.x*v.y-u.y*v.x), float64(u.x*v.x+u.y*v.y))
			c.Check(th >= 0 && th <= 2*math.Pi, "the angle is %v", th)
			c.Check(angleDiff(th, want) < 1e-9, "the angle is %v, expected %v modulo a full turn", th, want)
			c.Check(cerr == nil, "CacConvex fails: %v", cerr)
			o := sgn(orient(a, m, b))
			wantC := map[int]int8{1: 0, -1: 1, 0: 2}[o]
			c.Check(cv == wantC, "CacConvex gives %d, expected %d", cv, wantC)
			c.Ev([]string{"right turns", "straight vertices", "left turns"}[o+1])
			if want < -0.1 {
				c.Ev("reflex angles")
			}
		}
		if t.scale > 1e6 { // beyond the reach of its arm of 1e-7
			continue
		}
		if a != b {
			q, err := geo.CacQuadrantAngle(pa, pb)
			want := math.Atan2(float64(b.y-a.y), float64(b.x-a.x))
			c.Check(err == nil && q >= 0 && q <= 2*math.Pi && angleDiff(q, want) < 1e-9, "the quadrant angle is %v (%v), expected %v modulo a full turn", q, err, want)
			c.Ev("quadrant angles compared")
		} else {
			_, err := geo.CacQuadrantAngle(pa, pb)
			c.Check(err != nil, "CacQuadrantAngle accepts repeated points")
		}
		c.NT(fmt.Sprint(a, m, b, t))
	}
}

// ---- C29

func buffers(c *Case) {
	r := c.R
	cg := []coordGen{cgSmallInt(100), cgUniform(-180, 180), cgUniform(-1e7, 1e7)}[r.IntN(3)]
	p := gpt(r, cg)
	rad := math.Pow(10, r.Float64()*12-4)
	if r.IntN(4) == 0 {
		rad = float64(1 + r.IntN(1000))
	}
	if r.IntN(6) == 0 {
		p = geo.Point{X: float64(r.IntN(3) - 1), Y: float64(r.IntN(3) - 1)}
		rad = math.Pow(10, r.Float64()*140)
		if r.IntN(2) == 0 {
			p, rad = geo.Point{}, 1/rad
		}
		c.Ev("tiny and huge radii")
	}
	if rad < 1e-5*magn(p) { // too small for the centre's precision
		rad = 1e-5 * magn(p)
	}
	if r.IntN(10) == 0 {
		rad = -rad
	} else if r.IntN(20) == 0 {
		rad = 0
	}
	c.Desc(func() string { return fmt.Sprintf("point %v radius %v", p, rad) })
	g := p.Buffer(rad)
	if rad < 0 {
		c.Check(len(flatten(g)) == 0, "a negative radius gives %v", g)
		c.Ev("negative radii")
		c.NT(fmt.Sprint(p, rad))
		return
	}
	c.Check(len(g) == 1 && len(g[0]) >= 4, "the buffer is %v", g)
	ring := g[0]
	if rad == 0 {
		for _, v := range ring {
			c.Check(v == p, "the buffer of radius zero has vertex %v", v)
		}
		c.Ev("zero radii")
		return
	}
	tol := 1e-9*rad + 1e-14*magn(p)
	c.Check(dist2d(ring[0], ring[len(ring)-1]) <= tol, "the buffer is not closed: %v", ring)
	var vs []geo.Point
	for _, v := range ring[:len(ring)-1] {
		c.Check(near(dist2d(v, p), rad, tol), "vertex %v is at %v from the centre", v, dist2d(v, p))
		if len(vs) > 0 && (dist2d(v, vs[len(vs)-1]) <= tol || dist2d(v, vs[0]) <= tol) {
			continue
		}
		vs = append(vs, v)
	}
	c.Check(len(vs) == 24, "the buffer has %d vertices", len(vs))
	turn := 0.0
	for i, v := range vs {
		w := vs[(i+1)%24]
		d := math.Mod(math.Atan2(w.Y-p.Y, w.X-p.X)-math.Atan2(v.Y-p.Y, v.X-p.X)+4*math.Pi, 2*math.Pi)
		if d > math.Pi {
			d -= 2 * math.Pi
		}
		c.Check(near(math.Abs(d), math.Pi/12, 1e-7), "the step from vertex %d is %v", i, d)
		turn += d
	}
	c.Check(near(math.Abs(turn), 2*math.Pi, 1e-6), "the buffer turns by %v", turn)
	area := 12 * rad * rad * math.Sin(math.Pi/12)
	c.Check(relNear(geo.GetArea(g), area, 1e-6, 1e-9*(rad+1e-6*magn(p))*magn(p)), "the area is %v, expected %v", geo.GetArea(g), area)
	if rad > 1e-3 {
		c.Check(geo.IsPointInPolygon(p, g) == geo.RELA_CONTAIN, "the centre is not inside")
		c.Ev("centres inside")
	}
	c.Ev("buffers compared")
	c.NT(fmt.Sprint(p, rad))
}

// ---- C30

func vectors(c *Case) {
	r := c.R
	exact := r.IntN(2) == 0
	cg := cgSmallInt(1000)
	unit := 1.0
	if !exact {
		cg = cgUniform(-1e5, 1e5)
	} else if r.IntN(3) == 0 { // very short and very long vectors
		unit = math.Ldexp(1, []int{-100, -60, -40, 40, 100}[r.IntN(5)])
		cg = func(r *rand.Rand) float64 { return cgSmallInt(1000)(r) * unit }
		c.Ev("very short and very long vectors")
	}
	parallel := exact && unit == 1 && r.IntN(3) == 0
	if parallel { // coordinates up to 2^26, see below
		cg = cgSmallInt(1 << 26)
	}
	eq := func(a, b, scale float64) bool {
		if exact {
			return a == b
		}
		return near(a, b, 1e-12*(1+scale))
	}
	for k := 0; k < 10; k++ {
		p, q := gpt(r, cg), gpt(r, cg)
		a, b := geo.Vector2{X: cg(r), Y: cg(r)}, geo.Vector2{X: cg(r), Y: cg(r)}
		if r.IntN(4) == 0 {
			b = a
			if r.IntN(2) == 0 {
				b.Y += unit
			}
		}
		if parallel { // nearly parallel: the cross product is plus or minus one times a small number
			x, y := [2]float64{1, 0}, [2]float64{0, 1}
			for {
				k := float64(1 + r.IntN(9))
				if r.IntN(2) == 0 {
					x, y = y, x
				}
				x[0], x[1] = x[0]+k*y[0], x[1]+k*y[1]
				if math.Max(x[0], x[1]) > 1<<22 || r.IntN(40) == 0 {
					break
				}
			}
			f := float64(1 + r.IntN(3))
			sx, sy := float64(1-2*r.IntN(2)), float64(1-2*r.IntN(2))
			a, b = geo.Vector2{X: sx * x[0], Y: sy * x[1]}, geo.Vector2{X: sx * f * y[0], Y: sy * f * y[1]}
			if r.IntN(2) == 0 {
				a, b = b, a
			}
			c.Ev("nearly parallel vectors")
		}
		s := cg(r)
		a0, b0 := a, b
		c.Desc(func() string { return fmt.Sprintf("points %v %v vectors %v %v scalar %v", p, q, a0, b0, s) })
		same := func(v geo.Vector2, x, y, scale float64, what string) {
			c.Check(eq(v.X, x, scale) && eq(v.Y, y, scale), "%s gives %v, expected {%v %v}", what, v, x, y)
		}
		same(*geo.ConvertPointToVector(p, q), q.X-p.X, q.Y-p.Y, 1e5, "ConvertPointToVector")
		same(*geo.ConvertSegToVector(geo.LineSegment{Start: p, End: q}), q.X-p.X, q.Y-p.Y, 1e5, "ConvertSegToVector")
		same(*geo.NewVector2(a.X, a.Y), a.X, a.Y, 0, "NewVector2")
		same(a.Add(b), a.X+b.X, a.Y+b.Y, 1e5, "Add method")
		same(geo.Add(a, b), a.X+b.X, a.Y+b.Y, 1e5, "Add")
		same(a.Sub(b), a.X-b.X, a.Y-b.Y, 1e5, "Sub method")
		c.Check(eq(a.Dot(b), a.X*b.X+a.Y*b.Y, 1e10), "Dot gives %v", a.Dot(b))
		c.Check(eq(a.Cross(b), a.X*b.Y-a.Y*b.X, 1e10), "Cross gives %v", a.Cross(b))
		c.Check(eq(a.LengthSq(), a.X*a.X+a.Y*a.Y, 1e10), "LengthSq gives %v", a.LengthSq())
		c.Check(relNear(a.Length(), math.Hypot(a.X, a.Y), 1e-12, 0), "Length gives %v", a.Length())
		c.Check(a.Equal(b) == (a == b) && b.Equal(a) == (a == b), "Equal gives %v", a.Equal(b))
		c.Ev(fmt.Sprint("vectors equal: ", a == b))
		d := a.Clone()
		c.Check(*d == a && d != &a, "Clone gives %v", *d)
		d.Multiply(s)
		same(*d, a0.X*s, a0.Y*s, 1e10, "Multiply")
		c.Check(a == a0 && b == b0, "an operand was changed to %v or %v", a, b)
		if s != 0 {
			d := a.Clone()
			d.Divide(s)
			c.Check(relNear(d.X, a.X/s, 1e-12, 0) && relNear(d.Y, a.Y/s, 1e-12, 0), "Divide gives %v", *d)
			c.Ev("divisions")
		} else {
			c.Ev("scalars of zero")
		}
		refused := func() (ok bool) {
			defer func() { ok = recover() != nil }()
			a.Clone().Divide(0)
			return
		}()
		c.Check(refused, "dividing by zero is not refused")
		if a.X != 0 || a.Y != 0 {
			l := math.Hypot(a.X, a.Y)
			n := geo.Normalize(a)
			c.Check(a == a0, "Normalize changed its argument to %v", a)
			c.Check(near(n.X, a.X/l, 1e-12) && near(n.Y, a.Y/l, 1e-12), "Normalize gives %v", *n)
			m := a
			m.Normalize()
			c.Check(near(m.X, a.X/l, 1e-12) && near(m.Y, a.Y/l, 1e-12), "the Normalize method gives %v", m)
			c.Check(near(m.Length(), 1, 1e-12), "a normalised vector has length %v", m.Length())
			c.Ev("vectors normalised")
		}
		c.NT(fmt.Sprint(a, b, s))
	}
	// magnitudes at which products underflow or overflow: sums, differences and scaling stay exact
	for k := 0; k < 4; k++ {
		e := []int{-1074, -1060, -1000, -600, 500, 900, 1000}[r.IntN(7)]
		g := func(r *rand.Rand) float64 { return math.Ldexp(cgSmallInt(1000)(r), e) }
		p, q := gpt(r, g), gpt(r, g)
		a, b := geo.Vector2{X: g(r), Y: g(r)}, geo.Vector2{X: g(r), Y: g(r)}
		s := cgSmallInt(100)(r)
		c.Desc(func() string { return fmt.Sprintf("points %v %v vectors %v %v scalar %v", p, q, a, b, s) })
		is := func(v geo.Vector2, x, y float64, what string) {
			c.Check(v.X == x && v.Y == y, "%s gives %v, expected {%v %v}", what, v, x, y)
		}
		is(*geo.ConvertPointToVector(p, q), q.X-p.X, q.Y-p.Y, "ConvertPointToVector")
		is(*geo.ConvertSegToVector(geo.LineSegment{Start: p, End: q}), q.X-p.X, q.Y-p.Y, "ConvertSegToVector")
		is(a.Add(b), a.X+b.X, a.Y+b.Y, "Add method")
		is(geo.Add(a, b), a.X+b.X, a.Y+b.Y, "Add")
		is(a.Sub(b), a.X-b.X, a.Y-b.Y, "Sub method")
		d := a.Clone()
		d.Multiply(s)
		is(*d, a.X*s, a.Y*s, "Multiply")
		c.Check(a.Equal(b) == (a == b) && a.Equal(a), "Equal gives %v", a.Equal(b))
		c.Ev("vectors at the ends of the range")
	}
}

func init() {
	var must16, must17 []string
	for _, k := range kinds2[1:] {
		must16 = append(must16, "rectangles of "+k)
	}
	for _, k := range kindsAll {
		must17 = append(must17, "boxes of "+k)
	}
	_ = strings.ToUpper
	register(&Prop{ID: "C15", Rule: "one case is one point set in three orders and multiplicities compared with an exact hull, or one set of doubles judged with a tolerance; non-trivial: every set whose points are not on one line, keyed by the points",
		Must:   []string{"hulls compared", "hulls of more than 50 points", "hulls of more than 20 vertices", "point sets with duplicates", "point sets with points on hull edges", "float hulls: scattered points", "float hulls: nearly collinear runs", "float hulls: rotated grids"},
		Assume: []string{"collinear and repeated vertices on the hull's boundary are accepted", "sets of doubles are judged within 1e-9 of their extent"},
		Families: []Family{
			{Name: "grid", Quick: 12000, Thorough: 1000000, Run: hullGrid},
			{Name: "float", Quick: 12000, Thorough: 1000000, Run: hullFloat},
		}})
	register(&Prop{ID: "C16", Rule: "one case is one geometry whose rectangle is compared with the smallest over all hull edge directions, or a set of degenerate geometries; non-trivial: every geometry, keyed by coordinates",
		Must:   append(must16, "oblique rectangles", "rectangles of more than 2^31 in area", "rectangles of many points", "rectangles of points along an arc", "degenerate geometries"),
		Assume: []string{"coordinates are output at a resolution of 1e-4, so geometries narrower than 0.05 are not judged"},
		Families: []Family{
			{Name: "rectangles", Quick: 20000, Thorough: 1500000, Run: mbrCases},
			{Name: "degenerate", Quick: 3000, Thorough: 100000, Run: mbrDegenerate},
		}})
	register(&Prop{ID: "C17", Rule: "one case is one geometry whose box is recomputed by reflection, or a batch of box pairs; non-trivial: every geometry or pair, keyed by coordinates",
		Must:   append(must17, "boxes beyond 2^31", "pairs of boxes that meet: true", "pairs of boxes that meet: false", "boxes that touch only", "boxes with gaps below the coordinate tolerance", "unions of many boxes", "contained: true", "contained: false", "point in box: true", "point in box: false", "point boxes converted", "flat boxes converted", "boxes converted to polygons"),
		Assume: []string{"boxes of rings left open", "the box of a polygon is that of its outer ring, inside which its holes lie", "boxes have min <= max and sides of zero or more than the coordinate tolerance"},
		Families: []Family{
			{Name: "geometries", Quick: 20000, Thorough: 1500000, Run: boxGeoms},
			{Name: "algebra", Quick: 12000, Thorough: 1000000, Run: boxAlgebra},
		}})
	register(&Prop{ID: "C18", Rule: "one case is a set of polygons compared with exact moments, a multipoint, or a polygon and its translate; non-trivial: every geometry, keyed by coordinates",
		Must:   []string{"counter-clockwise: true", "counter-clockwise: false", "polygon centroids compared", "polygons with holes compared", "polygons far from the origin compared", "centroids of convex polygons", "multipolygon areas", "multipoint centroids compared", "centroids of open lines", "centroids of closed lines", "translated centroids compared", "rings along a line", "polygons that are all hole", "small polygons far from the origin", "polygons below the coordinate precision", "far and counter-clockwise: true", "far and counter-clockwise: false"},
		Assume: []string{"values are compared within 1e-9 relative (areas) and 1e-7 of the extent (centroids)"},
		Families: []Family{
			{Name: "polygons", Quick: 8000, Thorough: 800000, Run: areaCases},
			{Name: "points", Quick: 4000, Thorough: 400000, Run: pointCentroids},
			{Name: "lines", Quick: 3000, Thorough: 300000, Run: lineCentroids},
			{Name: "shift", Quick: 6000, Thorough: 600000, Run: centroidShift},
			{Name: "far", Quick: 6000, Thorough: 600000, Run: farPolygons},
		}})
	register(&Prop{ID: "C19", Rule: "one case is a batch of points against segments, lines or a polygon, compared with independently computed minima; non-trivial: every query, keyed by coordinates",
		Must:   []string{"points far from short segments", "feet close to an end", "zero-length segments", "nearest points at ends", "nearest points inside segments", "feet beyond the ends", "feet inside", "nearest segments after the first", "nearest segments last", "Hausdorff distances from the first line", "Hausdorff distances from the second line", "points in the closed polygon", "points outside the polygon", "points nearest to a hole", "geographic polygon distances", "geographic distances compared"},
		Assume: []string{"coordinates below 1e9", "geographic calls measure to the nearest position in degrees", "lines for the Hausdorff distance have a length"},
		Families: []Family{
			{Name: "segments", Quick: 10000, Thorough: 1000000, Run: segmentDistances},
			{Name: "lines", Quick: 8000, Thorough: 800000, Run: polylineDistances},
			{Name: "polygons", Quick: 6000, Thorough: 600000, Run: polygonDistances},
			{Name: "geographic", Quick: 8000, Thorough: 800000, Run: geographicDistances},
		}})
	register(&Prop{ID: "C20", Rule: "one case is one line and threshold, compared with a recursive reference and checked for subsequence, deviation and idempotence; non-trivial: a line shortened to more than its ends, keyed by line and threshold",
		Must:   []string{"lines of very short and very long steps", "closed lines", "negative thresholds", "zero thresholds", "results compared with the reference", "lines shortened to more than their ends", "geographic results compared"},
		Assume: []string{"where a deviation is within rounding of the threshold or two deviations are equal, only the threshold and order are judged"},
		Families: []Family{
			{Name: "simplify", Quick: 16000, Thorough: 1500000, Run: simplifyCases},
		}})
	register(&Prop{ID: "C22", Rule: "one case is one polygon and point rotated there and back, or a batch of point triples; non-trivial: every rotation or triple, keyed by coordinates",
		Must:   []string{"rotated vertices compared", "polygons with holes rotated", "right turns", "left turns", "straight vertices", "repeated points refused", "reflex angles", "tiny arms", "arms a hair apart", "quadrant angles compared", "projected coordinates"},
		Assume: []string{"an angle of a full turn by rounding is accepted for zero"},
		Families: []Family{
			{Name: "rotations", Quick: 10000, Thorough: 1000000, Run: rotations},
			{Name: "angles", Quick: 6000, Thorough: 600000, Run: angles},
		}})
	register(&Prop{ID: "C29", Rule: "one case is one point and radius; non-trivial: every case, keyed by point and radius",
		Must:   []string{"buffers compared", "centres inside", "negative radii", "zero radii"},
		Assume: []string{"the radius is above 1e-5 of the centre's coordinates and 1e-4"},
		Families: []Family{
			{Name: "buffers", Quick: 20000, Thorough: 1500000, Run: buffers},
		}})
	register(&Prop{ID: "C30", Rule: "one case is a batch of vectors and scalars, exact on integers and within 1e-12 on doubles; non-trivial: every pair, keyed by components",
		Must: []string{"vectors equal: true", "vectors equal: false", "divisions", "scalars of zero", "vectors normalised", "very short and very long vectors", "nearly parallel vectors", "vectors at the ends of the range"},
		Families: []Family{
			{Name: "vectors", Quick: 10000, Thorough: 1000000, Run: vectors},
		}})
}
