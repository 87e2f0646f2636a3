package main

// Monitors of the predicates: C12, C13, C14, C32.

import (
	"fmt"
	"math"
	"math/big"
	"math/rand/v2"
	"sort"

	geo "github.com/hzw456/go-geo"
)

// probe picks grid points at the places that matter for a polygon.
func probe(r *rand.Rand, p ipoly) ipt {
	x0, y0, x1, y1 := bounds(p[0])
	ring := p[r.IntN(len(p))]
	v := ring[r.IntN(len(ring))]
	w := ring[r.IntN(len(ring))]
	switch r.IntN(8) {
	case 0:
		return v
	case 1: // level with one vertex, above another
		return ipt{w.x, v.y}
	case 2: // level with a vertex
		return ipt{x0 - 2 + int64(r.IntN(int(x1-x0+5))), v.y}
	case 3: // on an edge, if it has inner grid points
		i := r.IntN(len(ring))
		a, b := ring[i], ring[(i+1)%len(ring)]
		dx, dy := b.x-a.x, b.y-a.y
		g := gcd(iabs(dx), iabs(dy))
		k := int64(0)
		if g > 0 {
			k = int64(r.IntN(int(g + 1)))
			return ipt{a.x + dx/g*k, a.y + dy/g*k}
		}
		return a
	case 4: // beside a vertex
		return ipt{v.x + int64(r.IntN(3)-1), v.y + int64(r.IntN(3)-1)}
	case 5: // on the line through an edge, outside it
		i := r.IntN(len(ring))
		a, b := ring[i], ring[(i+1)%len(ring)]
		k := int64(r.IntN(5) - 2)
		return ipt{a.x + k*(b.x-a.x), a.y + k*(b.y-a.y)}
	default:
		return ipt{x0 - 2 + int64(r.IntN(int(x1-x0+5))), y0 - 2 + int64(r.IntN(int(y1-y0+5)))}
	}
}

var locName = []string{"outside", "on a ring", "inside"}

// dupVertices repeats vertices of rings now and then.
func dupVertices(r *rand.Rand, g geo.Polygon) geo.Polygon {
	if r.IntN(6) > 0 {
		return g
	}
	var o geo.Polygon
	for _, ring := range g {
		var n geo.LinearRing
		for _, p := range ring {
			n = append(n, p)
			if r.IntN(4) == 0 {
				n = append(n, p)
			}
		}
		o = append(o, n)
	}
	return o
}

func pipGrid(c *Case) {
	maxN, span := 8, 6
	switch c.R.IntN(5) {
	case 0:
		maxN, span = 40, 30
	case 1:
		maxN, span = 120, 400
	case 2:
		maxN, span = 5, 3
	}
	p := genPoly(c.R, maxN, span, 4)
	if c.R.IntN(12) == 0 { // a ring without an interior: there and back along a line
		a, b := rpt(c.R, span), rpt(c.R, span)
		p = ipoly{{a, b}}
		if c.R.IntN(2) == 0 {
			p[0] = append(p[0], relatedPoint(c.R, a, b, 0))
		}
		if ringArea2(p[0]) != 0 {
			p[0] = p[0][:2]
		}
		if c.R.IntN(4) == 0 {
			p[0] = []ipt{a}
		}
		c.Ev("rings without an interior")
	}
	t := exactXf(c.R)
	g := dupVertices(c.R, t.poly(p))
	var q ipt
	c.Desc(func() string { return fmt.Sprintf("polygon %v point %v", g, t.pt(q)) })
	for k := 0; k < 30; k++ {
		q = probe(c.R, p)
		want := p.locate(q)
		got := geo.IsPointInPolygon(t.pt(q), g)
		exp := []geo.GeometryRealation{geo.RELA_DISJOINT, geo.RELA_TOUCH, geo.RELA_CONTAIN}[want]
		c.Check(got == exp, "the point is %s, reported as %s", locName[want], relName(got))
		c.Ev("points " + locName[want])
		if len(p) > 1 && want != inRing(p[0], q) {
			c.Ev("points in or on holes")
		}
		level := false
		for _, ring := range p {
			for _, v := range ring {
				if v.y == q.y && v.x > q.x {
					level = true
				}
			}
		}
		if level && want != 1 {
			c.Ev("rays through vertices")
		}
		c.NT(fmt.Sprint(c.Idx, q))
	}
}

// pipSpin asks the same question of every rotation and direction of the rings.
func pipSpin(c *Case) {
	p := genPoly(c.R, 7, 5, 2)
	t := exactXf(c.R)
	q := probe(c.R, p)
	want := []geo.GeometryRealation{geo.RELA_DISJOINT, geo.RELA_TOUCH, geo.RELA_CONTAIN}[p.locate(q)]
	var g geo.Polygon
	c.Desc(func() string { return fmt.Sprintf("polygon %v point %v", g, t.pt(q)) })
	for ri := range p {
		for k := range p[ri] {
			for dir := 0; dir < 2; dir++ {
				pp := append(ipoly{}, p...)
				o := append(append([]ipt{}, p[ri][k:]...), p[ri][:k]...)
				if dir == 1 {
					for i, j := 0, len(o)-1; i < j; i, j = i+1, j-1 {
						o[i], o[j] = o[j], o[i]
					}
				}
				pp[ri] = o
				g = t.poly(pp)
				got := geo.IsPointInPolygon(t.pt(q), g)
				c.Check(got == want, "ring %d starting at vertex %d, direction %d: reported as %s, expected %s", ri, k, dir, relName(got), relName(want))
				c.Ev("starts and directions")
			}
		}
	}
	c.NT(fmt.Sprint(p, q))
}

func ratOrient(a, b, c geo.Point) int {
	f := func(x float64) *big.Rat { return new(big.Rat).SetFloat64(x) }
	sub := func(x, y float64) *big.Rat { return new(big.Rat).Sub(f(x), f(y)) }
	l := new(big.Rat).Mul(sub(b.X, a.X), sub(c.Y, a.Y))
	r := new(big.Rat).Mul(sub(b.Y, a.Y), sub(c.X, a.X))
	return l.Cmp(r)
}

// pipFloat uses coordinates in degrees or metres, with edges that are nearly level or nearly upright; a
// point is judged if it is further from the boundary than rounding can carry it.
func pipFloat(c *Case) {
	scale := []float64{1e-6, 1e-3, 1, 30, 90, 5000, 3e5}[c.R.IntN(7)]
	cx, cy := (c.R.Float64()-0.5)*scale*2, (c.R.Float64()-0.5)*scale
	if scale < 1 {
		cx, cy = (c.R.Float64()-0.5)*100, (c.R.Float64()-0.5)*100
	}
	n := 3 + c.R.IntN(30)
	level := c.R.IntN(2) == 0
	var ring geo.LinearRing
	for i := 0; i < n; i++ { // star-shaped around the centre
		a := 2 * math.Pi * (float64(i) + 0.8*c.R.Float64()) / float64(n)
		d := scale * (0.1 + c.R.Float64())
		p := geo.Point{X: cx + d*math.Cos(a), Y: cy + d*math.Sin(a)}
		if level && c.R.IntN(3) == 0 { // almost level with, or almost below, the centre
			tiny := math.Pow(10, -3-9*c.R.Float64()) * (c.R.Float64() - 0.5) * scale
			if c.R.IntN(2) == 0 {
				p.Y = cy + tiny
			} else {
				p.X = cx + tiny
			}
		}
		ring = append(ring, p)
	}
	ctr := geo.Point{X: cx, Y: cy}
	sort.Slice(ring, func(i, j int) bool {
		return math.Atan2(ring[i].Y-cy, ring[i].X-cx) < math.Atan2(ring[j].Y-cy, ring[j].X-cx)
	})
	for i := range ring { // once around the centre, hence simple
		if ratOrient(ctr, ring[i], ring[(i+1)%n]) <= 0 {
			c.Ev("float rings not star-shaped, set aside")
			return
		}
	}
	ring = append(ring, ring[0])
	if c.R.IntN(2) == 0 {
		for i, j := 0, len(ring)-1; i < j; i, j = i+1, j-1 {
			ring[i], ring[j] = ring[j], ring[i]
		}
	}
	g := geo.Polygon{ring}
	var q geo.Point
	c.Desc(func() string { return fmt.Sprintf("polygon %v point %v", g, q) })
	margin := 1e-11 * (scale + math.Abs(cx) + math.Abs(cy))
	for k := 0; k < 20; k++ {
		q = geo.Point{X: cx + (c.R.Float64()-0.5)*2.4*scale, Y: cy + (c.R.Float64()-0.5)*2.4*scale}
		switch c.R.IntN(8) {
		case 0, 1: // level with a vertex
			q.Y = ring[c.R.IntN(len(ring))].Y
		case 2, 3: // almost level with the centre
			q.Y = cy
		}
		ok := true
		in := false
		for i := 0; i < n; i++ {
			a, b := ring[i], ring[i+1]
			if segDist(q, a, b) < margin {
				ok = false
				break
			}
			if (a.Y > q.Y) != (b.Y > q.Y) {
				if (b.Y > a.Y) == (ratOrient(a, b, q) > 0) {
					in = !in
				}
				if math.Abs(a.Y-b.Y) < 1e-5 {
					c.Ev("float points against nearly level edges")
				}
			}
		}
		if !ok {
			continue
		}
		want := geo.RELA_DISJOINT
		if in {
			want = geo.RELA_CONTAIN
			c.Ev("float points inside")
		} else {
			c.Ev("float points outside")
		}
		got := geo.IsPointInPolygon(q, g)
		c.Check(got == want, "reported as %s, expected %s", relName(got), relName(want))
		c.NT(fmt.Sprint(q))
	}
}

// ---- C13

func rpt(r *rand.Rand, span int) ipt {
	return ipt{int64(r.IntN(2*span+1) - span), int64(r.IntN(2*span+1) - span)}
}

// relatedPoint makes a point in a special position to a segment.
func relatedPoint(r *rand.Rand, a, b ipt, span int) ipt {
	dx, dy := b.x-a.x, b.y-a.y
	g := gcd(iabs(dx), iabs(dy))
	switch r.IntN(6) {
	case 0:
		return a
	case 1:
		return b
	case 2: // between
		if g > 0 {
			k := int64(r.IntN(int(g + 1)))
			return ipt{a.x + dx/g*k, a.y + dy/g*k}
		}
		return a
	case 3: // on the line
		if g > 0 {
			k := int64(r.IntN(int(3*g+1))) - g
			return ipt{a.x + dx/g*k, a.y + dy/g*k}
		}
	case 4: // inside the box, off the line
		return ipt{imin(a.x, b.x) + int64(r.IntN(int(iabs(dx)+1))), imin(a.y, b.y) + int64(r.IntN(int(iabs(dy)+1)))}
	}
	return rpt(r, span)
}

func spanOf(r *rand.Rand) int { return []int{2, 4, 8, 30, 2000, 200000}[r.IntN(6)] }

func segPairs(c *Case) {
	span := spanOf(c.R)
	t := exactXf(c.R)
	for k := 0; k < 20; k++ {
		a, b := rpt(c.R, span), rpt(c.R, span)
		if c.R.IntN(12) == 0 {
			b = a
		}
		d, e := relatedPoint(c.R, a, b, span), rpt(c.R, span)
		if c.R.IntN(2) == 0 {
			e = relatedPoint(c.R, a, b, span)
		}
		if c.R.IntN(12) == 0 {
			e = d
		}
		if c.R.IntN(6) == 0 { // a very long segment and a short one at one of its ends
			// every product of coordinate differences stays below 2^53
			a = rpt(c.R, 2)
			u, v := int64(c.R.IntN(5)-2), int64(c.R.IntN(5)-2)
			switch long := int64(1) << (20 + c.R.IntN(6)); c.R.IntN(3) {
			case 0:
				u += long
				v += []int64{long, -long, long / 2, long / 4}[c.R.IntN(4)]
			case 1:
				u += long << c.R.IntN(20)
			default:
				v -= long << c.R.IntN(20)
			}
			b = ipt{a.x + u, a.y + v}
			d, e = ipt{a.x + int64(c.R.IntN(13)) - 6, a.y + int64(c.R.IntN(13)) - 6}, ipt{a.x + int64(c.R.IntN(13)) - 6, a.y + int64(c.R.IntN(13)) - 6}
			if c.R.IntN(2) == 0 {
				a, b = b, a
			}
			c.Ev("short segments at the end of very long ones")
		}
		rel := segRel(a, b, d, e)
		want := []geo.GeometryRealation{geo.RELA_DISJOINT, geo.RELA_TOUCH, geo.RELA_INTERSECT}[rel]
		s1 := []geo.LineSegment{{Start: t.pt(a), End: t.pt(b)}, {Start: t.pt(b), End: t.pt(a)}}
		s2 := []geo.LineSegment{{Start: t.pt(d), End: t.pt(e)}, {Start: t.pt(e), End: t.pt(d)}}
		c.Desc(func() string { return fmt.Sprintf("%v %v", s1[0], s2[0]) })
		for _, x := range s1 {
			for _, y := range s2 {
				g1, g2 := geo.SegmentRelation(x, y), geo.SegmentRelation(y, x)
				c.Check(g1 == want, "%v and %v: reported as %s, expected %s", x, y, relName(g1), relName(want))
				c.Check(g2 == want, "%v and %v: reported as %s, expected %s", y, x, relName(g2), relName(want))
			}
		}
		c.Ev("segment pairs: " + relName(want))
		if orient(a, b, d) == 0 && orient(a, b, e) == 0 && a != b && d != e {
			c.Ev("collinear segment pairs: " + relName(want))
		} else if a == b || d == e {
			c.Ev("degenerate segments")
		} else if (b.x-a.x)*(e.y-d.y) == (b.y-a.y)*(e.x-d.x) {
			c.Ev("parallel segment pairs")
		}
		c.NT(fmt.Sprint(a, b, d, e, t))
	}
}

func onSegments(c *Case) {
	span := spanOf(c.R)
	t := exactXf(c.R)
	for k := 0; k < 20; k++ {
		n := 1 + c.R.IntN(6)
		line := []ipt{rpt(c.R, span)}
		for len(line) < n {
			p := rpt(c.R, span)
			if c.R.IntN(8) == 0 {
				p = line[len(line)-1]
			} else if c.R.IntN(5) == 0 {
				p.y = line[len(line)-1].y
			} else if c.R.IntN(5) == 0 {
				p.x = line[len(line)-1].x
			}
			line = append(line, p)
		}
		i := c.R.IntN(n)
		q := relatedPoint(c.R, line[i], line[min(i+1, n-1)], span)
		if c.R.IntN(5) == 0 { // on the chord between the ends
			q = relatedPoint(c.R, line[0], line[n-1], span)
		}
		want := n == 1 && q == line[0]
		for j := 0; j+1 < n; j++ {
			on := onSeg(line[j], line[j+1], q)
			want = want || on
			for dir := 0; dir < 2; dir++ {
				a, b := t.pt(line[j]), t.pt(line[j+1])
				if dir == 1 {
					a, b = b, a
				}
				got := geo.IsPointOnSegment(a, b, t.pt(q))
				c.Check(got == on, "IsPointOnSegment(%v, %v, %v) = %v", a, b, t.pt(q), got)
			}
			if on {
				c.Ev("points on segments")
			} else if orient(line[j], line[j+1], q) == 0 {
				c.Ev("points on the line outside the segment")
			} else {
				c.Ev("points off segments")
			}
			if on && (line[j].x == line[j+1].x || line[j].y == line[j+1].y) {
				c.Ev("points on axis-parallel segments")
			}
		}
		l := geo.LineString(t.pts(line))
		c.Desc(func() string { return fmt.Sprintf("line %v point %v", l, t.pt(q)) })
		got := geo.IsPointOnLine(t.pt(q), l)
		c.Check(got == want, "IsPointOnLine reports %v", got)
		if n > 2 && !want && onSeg(line[0], line[n-1], q) {
			c.Ev("points on the closing chord only")
		}
		c.Ev(fmt.Sprint("points on lines: ", want))
		c.NT(fmt.Sprint(line, q, t))
	}
}

func genIline(r *rand.Rand, lo, hi, span int) []ipt {
	n := lo + r.IntN(hi-lo+1)
	var l []ipt
	for i := 0; i < n; i++ {
		p := rpt(r, span)
		if i > 0 && r.IntN(10) == 0 {
			p = l[r.IntN(i)]
		}
		l = append(l, p)
	}
	return l
}

func linePairs(c *Case) {
	span := []int{3, 8, 20, 2000}[c.R.IntN(4)]
	t := exactXf(c.R)
	for k := 0; k < 10; k++ {
		a, b := genIline(c.R, 2, 7, span), genIline(c.R, 2, 7, span)
		if c.R.IntN(2) == 0 { // far apart but for the last part
			for i := range b[:len(b)-1] {
				b[i].x += int64(2*span) + 1
			}
		}
		if c.R.IntN(3) == 0 {
			i := c.R.IntN(len(a) - 1)
			b[c.R.IntN(len(b))] = relatedPoint(c.R, a[i], a[i+1], span)
		}
		want := geo.RELA_DISJOINT
		crossing := false
		for i := 0; i+1 < len(a); i++ {
			for j := 0; j+1 < len(b); j++ {
				if s := segRel(a[i], a[i+1], b[j], b[j+1]); s != sDisjoint {
					want = geo.RELA_INTERSECT
					crossing = crossing || s == sCross
				}
			}
		}
		la, lb := geo.LineString(t.pts(a)), geo.LineString(t.pts(b))
		c.Desc(func() string { return fmt.Sprintf("%v %v", la, lb) })
		g1, g2 := geo.LineRelation(la, lb), geo.LineRelation(lb, la)
		c.Check(g1 == want && g2 == want, "reported as %s and %s, expected %s", relName(g1), relName(g2), relName(want))
		c.Ev("line pairs: " + relName(want))
		if want == geo.RELA_INTERSECT && !crossing {
			c.Ev("lines that only touch")
		}
		c.NT(fmt.Sprint(a, b, t))
	}
}

// ---- C14

type segClass struct {
	rel             geo.GeometryRealation
	touch, in1, in2 bool
}

// classify is the exact relation of a segment to a polygon as the library names it.
func classify(p ipoly, a, b ipt) segClass {
	var s segClass
	for _, ring := range p {
		for i := range ring {
			switch segRel(a, b, ring[i], ring[(i+1)%len(ring)]) {
			case sCross:
				s.rel = geo.RELA_INTERSECT
				return s
			case sTouch:
				s.touch = true
			}
		}
	}
	s.in1, s.in2 = p.locate(a) != 0, p.locate(b) != 0
	switch {
	case s.in1 && s.in2 && s.touch:
		s.rel = geo.RELA_COVER
	case s.in1 && s.in2:
		s.rel = geo.RELA_CONTAIN
	case !s.in1 && !s.in2 && s.touch:
		s.rel = geo.RELA_TOUCH
	case !s.in1 && !s.in2:
		s.rel = geo.RELA_DISJOINT
	default:
		s.rel = geo.RELA_UNKNOWN
	}
	return s
}

func holeContact(p ipoly, a, b ipt) bool {
	for _, ring := range p[1:] {
		for i := range ring {
			if segRel(a, b, ring[i], ring[(i+1)%len(ring)]) != sDisjoint {
				return true
			}
		}
	}
	return false
}

func genRelPoly(r *rand.Rand) ipoly {
	switch r.IntN(4) {
	case 0:
		return genPoly(r, 5, 4, 2)
	case 1:
		return genPoly(r, 25, 25, 4)
	default:
		return genPoly(r, 8, 9, 3)
	}
}

func segPoly(c *Case) {
	p := genRelPoly(c.R)
	t := exactXf(c.R)
	g := t.poly(p)
	for k := 0; k < 25; k++ {
		a, b := probe(c.R, p), probe(c.R, p)
		if c.R.IntN(5) == 0 { // short segments
			b = ipt{a.x + int64(c.R.IntN(3)-1), a.y + int64(c.R.IntN(3)-1)}
		}
		if c.R.IntN(15) == 0 {
			b = a
		}
		s := classify(p, a, b)
		c.Desc(func() string { return fmt.Sprintf("segment %v %v polygon %v", t.pt(a), t.pt(b), g) })
		for dir := 0; dir < 2; dir++ {
			x, y := t.pt(a), t.pt(b)
			if dir == 1 {
				x, y = y, x
			}
			got := geo.SegPolyRelation(geo.LineSegment{Start: x, End: y}, g)
			c.Check(got == s.rel, "segment %v %v: reported as %s, expected %s", x, y, relName(got), relName(s.rel))
		}
		c.Ev("segments: " + relName(s.rel))
		if holeContact(p, a, b) {
			c.Ev("segments meeting holes")
		}
		// the crossing of the closing edge alone
		ring := p[0]
		if s.rel == geo.RELA_INTERSECT && segRel(a, b, ring[len(ring)-1], ring[0]) == sCross {
			n := 0
			for i := range ring {
				if segRel(a, b, ring[i], ring[(i+1)%len(ring)]) == sCross {
					n++
				}
			}
			if n == 1 {
				c.Ev("segments crossing only the closing edge of the outer ring")
			}
		}
		c.NT(fmt.Sprint(c.Idx, a, b))
	}
}

// checkFold judges the relation of a line of segments: exact where the property fixes it.
func checkFold(c *Case, p ipoly, l []ipt, closed bool, got geo.GeometryRealation, what string) {
	n := len(l) - 1
	if closed {
		n = len(l)
	}
	all := map[geo.GeometryRealation]int{}
	for i := 0; i < n; i++ {
		all[classify(p, l[i], l[(i+1)%len(l)]).rel]++
	}
	switch {
	case all[geo.RELA_INTERSECT] > 0:
		c.Check(got == geo.RELA_INTERSECT, "%s: crosses an edge, reported as %s", what, relName(got))
		if all[geo.RELA_INTERSECT] == 1 && classify(p, l[n-1], l[n%len(l)]).rel == geo.RELA_INTERSECT {
			c.Ev(what + ": crossing only in the last segment")
		}
		c.Ev(what + ": intersect")
	case all[geo.RELA_CONTAIN] == n:
		c.Check(got == geo.RELA_CONTAIN, "%s: lies in the interior, reported as %s", what, relName(got))
		c.Ev(what + ": contain")
	case all[geo.RELA_DISJOINT] == n:
		c.Check(got == geo.RELA_DISJOINT, "%s: shares no point, reported as %s", what, relName(got))
		c.Ev(what + ": disjoint")
	default:
		c.Check(got == geo.RELA_COVER || got == geo.RELA_TOUCH || got == geo.RELA_UNKNOWN, "%s: meets the boundary without crossing it (segments %v), reported as %s", what, all, relName(got))
		c.Ev(what + ": boundary contact")
		if len(all) > 1 {
			c.Ev(what + ": boundary contact in some segments only")
		}
	}
}

func linePoly(c *Case) {
	p := genRelPoly(c.R)
	t := exactXf(c.R)
	g := t.poly(p)
	for k := 0; k < 12; k++ {
		n := 2 + c.R.IntN(4)
		l := []ipt{probe(c.R, p)}
		for try := 0; len(l) < n && try < 40; try++ {
			q := probe(c.R, p)
			if c.R.IntN(2) == 0 {
				q = ipt{l[len(l)-1].x + int64(c.R.IntN(5)-2), l[len(l)-1].y + int64(c.R.IntN(5)-2)}
			}
			// mostly lines that do not cross anything but perhaps at the end
			if len(l) < n-1 && c.R.IntN(8) > 0 && classify(p, l[len(l)-1], q).rel == geo.RELA_INTERSECT {
				continue
			}
			l = append(l, q)
		}
		if len(l) < 2 {
			continue
		}
		ls := geo.LineString(t.pts(l))
		c.Desc(func() string { return fmt.Sprintf("line %v polygon %v", ls, g) })
		checkFold(c, p, l, false, geo.LinePolyRelation(ls, g), "lines")
		if len(l) > 2 && l[0] != l[len(l)-1] {
			ring := t.ring(l)
			checkFold(c, p, l, true, geo.LinearPolyRelation(ring, g), "rings")
			checkFold(c, p, l, true, geo.PolyRelation(geo.Polygon{ring}, g), "polygons")
		}
		c.NT(fmt.Sprint(c.Idx, l))
	}
	// simple polygons against each other, the first with holes that do not count
	p1 := genRelPoly(c.R)
	off := ipt{int64(c.R.IntN(9) - 4), int64(c.R.IntN(9) - 4)}
	if c.R.IntN(3) == 0 {
		off.x += 12
	}
	for _, ring := range p1 {
		for i := range ring {
			ring[i].x += off.x
			ring[i].y += off.y
		}
	}
	g1 := t.poly(p1)
	c.Desc(func() string { return fmt.Sprintf("polygon %v polygon %v", g1, g) })
	checkFold(c, p, p1[0], true, geo.PolyRelation(g1, g), "polygons")
}

// smallInBig places small rings and lines inside or beside a polygon, starting at every vertex.
func smallInBig(c *Case) {
	p := genPoly(c.R, 16, 14, 2)
	t := exactXf(c.R)
	q := probe(c.R, p)
	var h []ipt
	s := int64(1 + c.R.IntN(4))
	switch c.R.IntN(3) {
	case 0:
		h = []ipt{q, {q.x + s, q.y}, {q.x, q.y + s}}
	case 1:
		h = []ipt{q, {q.x + s, q.y}, {q.x + s, q.y + s}, {q.x, q.y + s}}
	case 2:
		h = starRing(c.R, 5, 4)
		if h == nil {
			return
		}
		for i := range h {
			h[i].x += q.x
			h[i].y += q.y
		}
	}
	for k := range h {
		o := append(append([]ipt{}, h[k:]...), h[:k]...)
		pp := append(ipoly{}, p...)
		pp[0] = respin(c.R, p[0])
		g := t.poly(pp)
		ring := t.ring(o)
		c.Desc(func() string { return fmt.Sprintf("ring %v polygon %v", ring, g) })
		checkFold(c, p, o, true, geo.LinearPolyRelation(ring, g), "rings")
		checkFold(c, p, o, true, geo.PolyRelation(geo.Polygon{ring}, g), "polygons")
		checkFold(c, p, o, false, geo.LinePolyRelation(geo.LineString(t.pts(o)), g), "lines")
	}
	c.NT(fmt.Sprint(p, h))
}

func ringCrosses(ring []ipt) (bool, bool) {
	n := len(ring)
	any, onlyClosing := false, true
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			if segRel(ring[i], ring[(i+1)%n], ring[j], ring[(j+1)%n]) == sCross {
				any = true
				if j != n-1 {
					onlyClosing = false
				}
			}
		}
	}
	return any, any && onlyClosing
}

func anyRing(r *rand.Rand) []ipt {
	switch r.IntN(5) {
	case 0:
		return genSimpleRing(r, 10, 9)
	case 1: // a simple ring with two vertices exchanged
		ring := genSimpleRing(r, 10, 9)
		i, j := r.IntN(len(ring)), r.IntN(len(ring))
		ring[i], ring[j] = ring[j], ring[i]
		return ring
	default:
		return genIline(r, 3, 7, []int{2, 4, 10}[r.IntN(3)])
	}
}

func selfCross(c *Case) {
	for k := 0; k < 10; k++ {
		ring := anyRing(c.R)
		t := exactXf(c.R)
		g := t.poly(ipoly{ring})
		if c.R.IntN(4) == 0 { // inner rings do not count
			g = append(g, t.ring([]ipt{{0, 0}, {3, 3}, {3, 0}, {0, 3}}))
		}
		want, closing := ringCrosses(ring)
		c.Desc(func() string { return fmt.Sprint(g) })
		got := g.SelfIntersect()
		c.Check(got == want, "SelfIntersect is %v, outer edges cross: %v", got, want)
		c.Ev(fmt.Sprint("self-intersecting: ", want))
		if closing {
			c.Ev("crossings of the closing edge only")
		}
		c.NT(fmt.Sprint(ring))
	}
}

// ---- C32

func verifyCases(c *Case) {
	for k := 0; k < 10; k++ {
		var ring []ipt
		var holes ipoly
		switch c.R.IntN(6) {
		case 0:
			p := genPoly(c.R, 12, 10, 2)
			ring, holes = p[0], p[1:]
		case 1: // flat
			a, b := rpt(c.R, 6), rpt(c.R, 6)
			for i := 3 + c.R.IntN(4); i > 0; i-- {
				ring = append(ring, relatedPoint(c.R, a, b, 0))
			}
			if ringArea2(ring) != 0 {
				continue
			}
		case 2:
			ring = genIline(c.R, 1, 3, 5)
		default:
			ring = anyRing(c.R)
		}
		// scale to degrees: about a cell of the globe, or up to and beyond its limits
		scale := []float64{1, 0.125, 1.0 / 256, 1.0 / 4096, 1.0 / 32768, 4}[c.R.IntN(6)]
		ox := []float64{0, 0, 116.5, -170, 175, -180, 180}[c.R.IntN(7)]
		oy := []float64{0, 0, 40.25, -85, 88, 90, -90}[c.R.IntN(7)]
		if c.R.IntN(3) == 0 { // flush with a limit
			x0, y0, x1, y1 := bounds(ring)
			switch c.R.IntN(4) {
			case 0:
				ox = 180 - float64(x1)*scale
			case 1:
				ox = -180 - float64(x0)*scale
			case 2:
				oy = 90 - float64(y1)*scale
			case 3:
				oy = -90 - float64(y0)*scale
			}
			c.Ev("polygons flush with a limit")
		}
		mk := func(r []ipt) geo.LinearRing {
			var o geo.LinearRing
			for _, p := range r {
				o = append(o, geo.Point{X: ox + float64(p.x)*scale, Y: oy + float64(p.y)*scale})
			}
			if len(o) > 0 {
				o = append(o, o[0])
			}
			return o
		}
		g := geo.Polygon{mk(ring)}
		for _, h := range holes {
			g = append(g, mk(h))
		}
		range_ := true
		for _, p := range g[0] {
			if !(p.X >= -180 && p.X <= 180 && p.Y >= -90 && p.Y <= 90) {
				range_ = false
			}
		}
		area := ringArea2(ring) != 0
		if len(ring) >= 3 && len(holes) == 0 && c.R.IntN(8) == 0 { // nothing is left of the polygon
			h := append(geo.LinearRing{}, g[0]...)
			for k := c.R.IntN(len(ring)); k > 0; k-- { // started elsewhere
				h = append(h[1:], h[1])
			}
			if c.R.IntN(2) == 0 {
				for i, j := 0, len(h)-1; i < j; i, j = i+1, j-1 {
					h[i], h[j] = h[j], h[i]
				}
			}
			g = append(g, h)
			area = false
			c.Ev("polygons that are all hole")
		}
		cross, _ := ringCrosses(ring)
		few := len(ring) < 3
		want := !few && range_ && area && !cross
		c.Desc(func() string { return fmt.Sprint(g) })
		err := g.Verify()
		why := ""
		switch {
		case few:
			why = "too few vertices"
		case !range_:
			why = "out of range"
		case !area:
			why = "no area"
		case cross:
			why = "self-crossing"
		default:
			why = "valid"
		}
		n := 0
		for _, b := range []bool{few, !range_, !area && !few, cross} {
			if b {
				n++
			}
		}
		if n <= 1 {
			c.Ev("polygons: " + why)
		}
		c.Check((err == nil) == want, "Verify gives %v for a polygon that is: %s", err, why)
		c.NT(fmt.Sprint(g))
	}
	if c.Idx%50 == 0 {
		for _, g := range []geo.Polygon{nil, {}, {nil}, {{}}, {{geo.Point{X: 1, Y: 1}}}} {
			c.Desc(func() string { return fmt.Sprintf("%#v", g) })
			c.Check(g.Verify() != nil, "an empty polygon is accepted")
			c.Ev("empty polygons refused")
		}
		// one coordinate beyond a limit, at any vertex
		for i := 0; i < 4; i++ {
			for _, d := range []geo.Point{{X: 180.0001, Y: 0}, {X: -180.0001, Y: 0}, {X: 0, Y: 90.0001}, {X: 0, Y: -90.0001}, {X: 500, Y: 3}, {X: 3, Y: 120}} {
				ring := geo.LinearRing{{X: 10, Y: 10}, {X: 20, Y: 10}, {X: 20, Y: 20}, {X: 10, Y: 20}}
				ring[i] = d
				ring = append(ring, ring[0])
				g := geo.Polygon{ring}
				c.Desc(func() string { return fmt.Sprint(g) })
				c.Check(g.Verify() != nil, "a polygon beyond the globe is accepted")
				c.Ev("single vertices beyond a limit")
			}
		}
	}
}

func init() {
	register(&Prop{ID: "C12", Rule: "one case is one polygon probed at many points and judged with exact integer (or rational) arithmetic; non-trivial: every probe, keyed by polygon and point",
		Must:   []string{"points inside", "points outside", "points on a ring", "points in or on holes", "rays through vertices", "starts and directions", "float points inside", "float points outside", "float points against nearly level edges"},
		Assume: []string{"rings are simple, holes disjoint and strictly inside", "floating-point probes stay further from every edge than rounding reaches (1e-11 of the coordinates)"},
		Families: []Family{
			{Name: "grid", Quick: 6000, Thorough: 600000, Run: pipGrid},
			{Name: "spin", Quick: 3000, Thorough: 300000, Run: pipSpin},
			{Name: "float", Quick: 3000, Thorough: 300000, Run: pipFloat},
		}})
	register(&Prop{ID: "C13", Rule: "one case is a batch of segment pairs, line pairs or points and lines, judged with exact integer arithmetic; non-trivial: every pair, keyed by coordinates",
		Must:   []string{"segment pairs: disjoint", "segment pairs: touch", "segment pairs: intersect", "short segments at the end of very long ones", "collinear segment pairs: disjoint", "collinear segment pairs: touch", "degenerate segments", "parallel segment pairs", "points on segments", "points off segments", "points on the line outside the segment", "points on axis-parallel segments", "points on lines: true", "points on lines: false", "points on the closing chord only", "line pairs: disjoint", "line pairs: intersect", "lines that only touch"},
		Assume: []string{"coordinates on dyadic grids, where every cross product is exact"},
		Families: []Family{
			{Name: "segments", Quick: 8000, Thorough: 800000, Run: segPairs},
			{Name: "points", Quick: 8000, Thorough: 800000, Run: onSegments},
			{Name: "lines", Quick: 6000, Thorough: 600000, Run: linePairs},
		}})
	register(&Prop{ID: "C14", Rule: "one case is one polygon with a batch of segments, lines or rings, judged with exact integer arithmetic; non-trivial: every judged relation, keyed by coordinates",
		Must: []string{"segments: intersect", "segments: disjoint", "segments: contain", "segments: cover", "segments: touch", "segments: unknown", "segments meeting holes", "segments crossing only the closing edge of the outer ring",
			"lines: intersect", "lines: disjoint", "lines: contain", "lines: boundary contact", "lines: crossing only in the last segment", "rings: intersect", "rings: disjoint", "rings: contain", "rings: boundary contact", "rings: crossing only in the last segment",
			"lines: boundary contact in some segments only", "rings: boundary contact in some segments only",
			"polygons: intersect", "polygons: disjoint", "polygons: contain", "polygons: boundary contact", "self-intersecting: true", "self-intersecting: false", "crossings of the closing edge only"},
		Assume: []string{"coordinates on dyadic grids", "which of cover, touch and unknown a line of several segments gets is not judged"},
		Families: []Family{
			{Name: "segments", Quick: 4000, Thorough: 400000, Run: segPoly},
			{Name: "lines", Quick: 4000, Thorough: 400000, Run: linePoly},
			{Name: "small", Quick: 4000, Thorough: 400000, Run: smallInBig},
			{Name: "self", Quick: 4000, Thorough: 400000, Run: selfCross},
		}})
	register(&Prop{ID: "C32", Rule: "one case is a batch of outer rings (valid, self-crossing, flat, short, beyond the globe), judged exactly; non-trivial: every ring, keyed by coordinates",
		Must:   []string{"polygons: valid", "polygons: too few vertices", "polygons: out of range", "polygons: no area", "polygons: self-crossing", "polygons flush with a limit", "empty polygons refused", "single vertices beyond a limit"},
		Assume: []string{"rings are closed; coordinates on dyadic grids or constants"},
		Families: []Family{
			{Name: "verify", Quick: 10000, Thorough: 1000000, Run: verifyCases},
		}})
}
