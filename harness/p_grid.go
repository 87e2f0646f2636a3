package main

// Monitors of the grids: C25 (geohash), C26 (S2).

import (
	"fmt"
	"math"
	"math/rand/v2"
	"sort"
	"strings"

	"github.com/golang/geo/s2"
	geo "github.com/hzw456/go-geo"
)

func init() {
	register(&Prop{
		ID:   "C25",
		Rule: "positions over the whole globe, many on or next to cell limits, the poles and the antimeridian, at every precision, judged against an independent bit-by-bit geohash; distinct (precision, hash prefix)",
		Must: []string{"hash judged", "boundary judged", "centre judged", "nesting judged", "neighbours judged", "neighbours across the antimeridian", "neighbours beyond a pole passed over", "latitude 90", "longitude 180", "on a cell limit"},
		Families: []Family{
			{Name: "cells", Quick: 100000, Thorough: 6000000, Run: c25},
		},
		Assume: []string{"the neighbours of a cell beyond a pole are only known to differ from it", "positions within rounding of a cell limit may fall on either side"},
	})
	register(&Prop{
		ID:   "C26",
		Rule: "positions over the whole globe at every level; star-shaped spherical polygons of 0.001 to 60 degrees in both directions and with every first vertex, some across the antimeridian or around a pole, at levels giving up to about a thousand cells; judged by vectors on the sphere and the S2 cell geometry; distinct (level, face, cell) or (size, level, place)",
		Must: []string{"cell judged", "boundary judged", "neighbours judged", "seven neighbours at a face corner", "other reference system", "covering judged", "counter-clockwise polygon", "clockwise polygon", "polygon across the antimeridian", "polygon around a pole", "concave polygon", "interior point covered", "cell meets the polygon"},
		Families: []Family{
			{Name: "cells", Quick: 10000, Thorough: 500000, Run: c26cells},
			{Name: "coverings", Quick: 1500, Thorough: 60000, Run: c26cover},
		},
		Assume: []string{"the S2 library's cell hierarchy defines the cells", "polygons without holes, smaller than a hemisphere"},
	})
}

// ---- geohash

const hashDigits = "0123456789bcdefghjkmnpqrstuvwxyz"

type hashCell struct {
	x, y         float64 // lower-left corner
	w, h         float64
	lonIdx       uint64
	latIdx       uint64
	lonNum       uint64
	latNum       uint64
	lonBit, latB uint
}

func hashBits(n int) (lonBits, latBits uint) {
	b := uint(5 * n)
	return (b + 1) / 2, b / 2
}

func cellIndex(v, r float64, bits uint) uint64 {
	n := uint64(1) << bits
	f := math.Floor((v + r) / (2 * r) * float64(n))
	if f < 0 {
		return 0
	}
	if f >= float64(n) {
		return n - 1
	}
	return uint64(f)
}

func hashOf(lonIdx, latIdx uint64, n int) string {
	lb, tb := hashBits(n)
	var s []byte
	d, k := 0, 0
	for i := 0; i < 5*n; i++ {
		var bit uint64
		if i%2 == 0 {
			lb--
			bit = lonIdx >> lb & 1
		} else {
			tb--
			bit = latIdx >> tb & 1
		}
		d = d<<1 | int(bit)
		if k++; k == 5 {
			s = append(s, hashDigits[d])
			d, k = 0, 0
		}
	}
	return string(s)
}

// hashBox is the extent of a hash by interval halving.
func hashBox(hash string) box {
	x0, x1, y0, y1 := -180.0, 180.0, -90.0, 90.0
	even := true
	for _, ch := range hash {
		d := strings.IndexRune(hashDigits, ch)
		for b := 4; b >= 0; b-- {
			up := d>>b&1 == 1
			if even {
				if m := (x0 + x1) / 2; up {
					x0 = m
				} else {
					x1 = m
				}
			} else {
				if m := (y0 + y1) / 2; up {
					y0 = m
				} else {
					y1 = m
				}
			}
			even = !even
		}
	}
	return box{x0, y0, x1, y1}
}

func c25(c *Case) {
	r := c.R
	n := 1 + r.IntN(12)
	lb, tb := hashBits(n)
	p := globePoint(r)
	onLimit := false
	if r.IntN(3) == 0 { // a corner or side of some cell of this precision
		onLimit = true
		k := float64(uint64(1) << lb)
		p.X = math.Floor(r.Float64()*(k+1))/k*360 - 180
		if r.IntN(2) == 0 {
			k = float64(uint64(1) << tb)
			p.Y = math.Floor(r.Float64()*(k+1))/k*180 - 90
		}
	}
	c.Desc(func() string { return fmt.Sprintf("position %v precision %d", p, n) })
	hash := geo.GeohashEncode(p, uint(n), geo.SRID_WGS84_GPS)
	c.Check(len(hash) == n, "the hash %q has not the length asked for", hash)
	// candidates within rounding of the position
	xs := map[uint64]bool{}
	ys := map[uint64]bool{}
	xs[cellIndex(p.X, 180, lb)], ys[cellIndex(p.Y, 90, tb)] = true, true
	// a limit that is exactly representable belongs to the cell above; only others may round
	near := func(v, r float64, bits uint, m map[uint64]bool) {
		f := (v + r) / (2 * r) * float64(uint64(1)<<bits)
		if d := math.Abs(f - math.Round(f)); d != 0 && d < 1e-5*math.Min(1, math.Ldexp(1, int(bits)-30)) {
			m[cellIndex(v-1e-11, r, bits)] = true
			m[cellIndex(v+1e-11, r, bits)] = true
		}
	}
	near(p.X, 180, lb, xs)
	near(p.Y, 90, tb, ys)
	found := false
	var ix, iy uint64
	for x := range xs {
		for y := range ys {
			if hashOf(x, y, n) == hash {
				found, ix, iy = true, x, y
			}
		}
	}
	c.Check(found, "the hash is %q, the standard gives %q", hash, hashOf(cellIndex(p.X, 180, lb), cellIndex(p.Y, 90, tb), n))
	c.Ev("hash judged")
	if onLimit {
		c.Ev("on a cell limit")
	}
	if p.Y == 90 {
		c.Ev("latitude 90")
	}
	if p.X == 180 {
		c.Ev("longitude 180")
	}
	c.NT(fmt.Sprint(n, hash[:min(n, 4)]))

	b := geo.GeohashGetBoundary(hash, geo.SRID_WGS84_GPS)
	want := hashBox(hash)
	const tol = 1e-11
	c.Check(math.Abs(b.MinX-want.x0) <= tol && math.Abs(b.MaxX-want.x1) <= tol && math.Abs(b.MinY-want.y0) <= tol && math.Abs(b.MaxY-want.y1) <= tol,
		"the boundary of %q is %v, expected %v", hash, b, want)
	c.Check(p.X >= b.MinX-tol && p.X <= b.MaxX+tol && p.Y >= b.MinY-tol && p.Y <= b.MaxY+tol, "the boundary %v of %q does not contain the position", b, hash)
	c.Ev("boundary judged")

	m := geo.GeohashGetCenter(hash, geo.SRID_WGS84_GPS)
	c.Check(math.Abs(m.X-(want.x0+want.x1)/2) <= tol && math.Abs(m.Y-(want.y0+want.y1)/2) <= tol, "the centre of %q is %v, its extent is %v", hash, m, want)
	c.Check(geo.GeohashEncode(m, uint(n), geo.SRID_WGS84_GPS) == hash, "the centre of %q encodes to %q", hash, geo.GeohashEncode(m, uint(n), geo.SRID_WGS84_GPS))
	c.Ev("centre judged")

	k := 1 + r.IntN(n)
	short := geo.GeohashEncode(p, uint(k), geo.SRID_WGS84_GPS)
	if !found || len(xs)*len(ys) == 1 {
		c.Check(hash[:k] == short, "at precision %d the hash is %q, not a prefix of %q", k, short, hash)
	}
	o := geo.GeohashGetBoundary(hash[:k], geo.SRID_WGS84_GPS)
	c.Check(o.MinX <= b.MinX+tol && o.MaxX >= b.MaxX-tol && o.MinY <= b.MinY+tol && o.MaxY >= b.MaxY-tol, "%q with %v is not inside %q with %v", hash, b, hash[:k], o)
	c.Ev("nesting judged")

	rows, cols := uint64(1)<<tb, uint64(1)<<lb
	nb := geo.GeohashGetAllNeighbors(hash, geo.SRID_WGS84_GPS)
	c.Check(len(nb) == 8, "%d neighbours", len(nb))
	for i, d := range [][2]int{{0, 1}, {1, 1}, {1, 0}, {1, -1}, {0, -1}, {-1, -1}, {-1, 0}, {-1, 1}} {
		c.Check(nb[i] != hash && len(nb[i]) == n, "neighbour %d of %q is %q", i, hash, nb[i])
		if iy == 0 && d[1] < 0 || iy == rows-1 && d[1] > 0 {
			c.Ev("neighbours beyond a pole passed over")
			continue
		}
		w := hashOf((ix+cols+uint64(int64(d[0])))%cols, iy+uint64(int64(d[1])), n)
		c.Check(nb[i] == w, "neighbour %s of %q is %q, expected %q", []string{"N", "NE", "E", "SE", "S", "SW", "W", "NW"}[i], hash, nb[i], w)
	}
	c.Ev("neighbours judged")
	if ix == 0 || ix == cols-1 {
		c.Ev("neighbours across the antimeridian")
	}
}

// ---- S2

func s2unit(p s2.Point) v3 { return v3{p.X, p.Y, p.Z} }
func toS2(v v3) s2.Point   { return s2.PointFromCoords(v.x, v.y, v.z) }
func (a v3) sub(b v3) v3   { return v3{a.x - b.x, a.y - b.y, a.z - b.z} }
func (a v3) add(b v3, k float64) v3 {
	return v3{a.x + k*b.x, a.y + k*b.y, a.z + k*b.z}
}
func (a v3) dir() v3 { n := a.norm(); return v3{a.x / n, a.y / n, a.z / n} }

// side is positive when p lies to the left of the arc from a to b: the sine of its distance from the great circle.
func side(a, b, p v3) float64 {
	ab := b.sub(a)
	return a.dot(ab.cross(p.sub(a))) / ab.norm() / math.Max(0.1, math.Cos(math.Asin(math.Min(1, ab.norm()/2))))
}

// cellAt is the cell of a level that holds a direction.
func cellAt(v v3, level int) uint64 {
	return uint64(s2.CellIDFromLatLng(s2.LatLngFromPoint(toS2(v))).Parent(level))
}

// corners of an S2 cell in order.
func corners(id uint64) [4]v3 {
	cell := s2.CellFromCellID(s2.CellID(id))
	var r [4]v3
	for i := range r {
		r[i] = s2unit(cell.Vertex(i))
	}
	return r
}

// insideQuad reports whether p lies in the counter-clockwise spherical quadrilateral, with slack.
func insideQuad(q [4]v3, p v3, slack float64) bool {
	for i := range q {
		if side(q[i], q[(i+1)%4], p) < -slack {
			return false
		}
	}
	return true
}

func c26cells(c *Case) {
	r := c.R
	p := globePoint(r)
	if r.IntN(4) == 0 { // next to a corner of a face of the cube
		v := v3{1, 1, 1}
		if r.IntN(2) == 0 {
			v.x = -1
		}
		if r.IntN(2) == 0 {
			v.y = -1
		}
		if r.IntN(2) == 0 {
			v.z = -1
		}
		e := math.Pow(10, -r.Float64()*10)
		v = v.add(v3{r.Float64() - .5, r.Float64() - .5, r.Float64() - .5}, e)
		ll := s2.LatLngFromPoint(toS2(v))
		p = geo.Point{X: ll.Lng.Degrees(), Y: ll.Lat.Degrees()}
	}
	level := r.IntN(31)
	c.Desc(func() string { return fmt.Sprintf("position %v level %d", p, level) })
	id := geo.S2GetCellID(p, level, geo.SRID_WGS84_GPS)
	cid := s2.CellID(id)
	c.Check(cid.IsValid(), "the cell id %x is not valid", id)
	c.Check(cid.Level() == level, "the cell has level %d", cid.Level())
	q := corners(id)
	u := unit(p)
	c.Check(insideQuad(q, u, 4e-15), "the cell %s with corners %v does not contain the position", cid.ToToken(), q)
	c.Ev("cell judged")
	c.NT(fmt.Sprint(level, id>>(64-14)))

	m := geo.S2GetCenter(id, geo.SRID_WGS84_GPS)
	c.Check(m != nil, "the cell has no centre")
	c.Check(m.X >= -180 && m.X <= 180 && m.Y >= -90 && m.Y <= 90, "the centre %v is not a position", *m)
	c.Check(insideQuad(q, unit(*m), 0) || level >= 29 && insideQuad(q, unit(*m), 4e-16), "the centre %v lies outside the cell", *m)
	cc := s2unit(s2.CellFromCellID(cid).Center())
	c.Check(unit(*m).sub(cc).norm() <= 1e-14, "the centre is %v, the cell's centre is %v", *m, cc)

	bd := geo.S2GetBoundary(id, geo.SRID_WGS84_GPS)
	if len(bd) == 5 && bd[0] == bd[4] {
		bd = bd[:4]
	}
	c.Check(len(bd) == 4, "the boundary has %d corners", len(bd))
	match := false
	for s := 0; s < 4; s++ {
		for _, dir := range []int{1, 3} {
			ok := true
			for i := range bd {
				ok = ok && unit(bd[i]).sub(q[(s+dir*i)%4]).norm() <= 1e-14
			}
			match = match || ok
		}
	}
	c.Check(match, "the boundary %v is not the cell's corners", bd)
	c.Ev("boundary judged")

	// every same-level cell that touches this one shows up just outside a corner or the middle of a side
	want := map[uint64]bool{}
	for i := range q {
		a, b := q[i], q[(i+1)%4]
		for _, at := range []v3{a, a.add(b, 1).dir()} {
			size := a.sub(b).norm()
			east := v3{-at.y, at.x, 0}
			if math.Hypot(at.x, at.y) < 0.1 {
				east = v3{0, -at.z, at.y}
			}
			east = east.dir()
			north := at.cross(east)
			for k := 0; k < 64; k++ {
				t := 2 * math.Pi * float64(k) / 64
				for _, f := range []float64{0.02, 0.1} {
					want[cellAt(at.add(east, f*size*math.Cos(t)).add(north, f*size*math.Sin(t)).dir(), level)] = true
				}
			}
		}
	}
	delete(want, id)
	got := map[uint64]bool{}
	for _, x := range geo.S2GetAllNeighbors(id, geo.SRID_WGS84_GPS) {
		got[x] = true
	}
	c.Check(len(got) == len(want), "%d neighbours, %d cells touch %s", len(got), len(want), cid.ToToken())
	for x := range want {
		c.Check(got[x], "the touching cell %s is missing from the neighbours of %s", s2.CellID(x).ToToken(), cid.ToToken())
	}
	c.Ev("neighbours judged")
	if len(want) == 7 {
		c.Ev("seven neighbours at a face corner")
	}

	other := []geo.SRID{geo.SRID_WGS84_PSEUDO_MERCATOR, geo.SRID_WGS84_UTM_ZONE_44N, 0, -1, 4325, 4490}[r.IntN(6)]
	c.Check(geo.S2GetCellID(p, level, other) == 0, "reference system %d gives a cell", other)
	c.Check(geo.S2GetCenter(id, other) == nil, "reference system %d gives a centre", other)
	c.Check(len(geo.S2GetBoundary(id, other)) == 0, "reference system %d gives a boundary", other)
	c.Check(len(geo.S2GetAllNeighbors(id, other)) == 0, "reference system %d gives neighbours", other)
	c.Ev("other reference system")
}

// spherePoly is a polygon on the sphere that is star-shaped around its middle.
type spherePoly struct {
	mid v3
	v   []v3 // counter-clockwise
	pts []geo.Point
}

func genSpherePoly(r *rand.Rand, mid geo.Point, size float64, many bool) spherePoly {
	n, e := frame(mid)
	s := spherePoly{mid: unit(mid)}
	k := 3 + r.IntN(10)
	var ang []float64
	if many {
		k = between(r, 13, 400)
		for i := 0; i < k; i++ {
			ang = append(ang, 2*math.Pi*(float64(i)+0.8*r.Float64())/float64(k))
		}
	}
	for !many {
		ang = ang[:0]
		for i := 0; i < k; i++ {
			ang = append(ang, r.Float64()*2*math.Pi)
		}
		sort.Float64s(ang)
		ok := true
		for i := range ang {
			g := ang[(i+1)%k] - ang[i]
			if i == k-1 {
				g += 2 * math.Pi
			}
			ok = ok && g < 2.8 && g > 0.02
		}
		if ok {
			break
		}
	}
	for _, a := range ang {
		d := size * (0.25 + 0.75*r.Float64()) * math.Pi / 180
		w := s.mid.add(s.mid, math.Cos(d)-1).add(e, math.Sin(d)*math.Cos(a)).add(n, math.Sin(d)*math.Sin(a)).dir()
		s.v = append(s.v, w)
		s.pts = append(s.pts, geo.Point{X: math.Atan2(w.y, w.x) * 180 / math.Pi, Y: math.Atan2(w.z, math.Hypot(w.x, w.y)) * 180 / math.Pi})
	}
	for i := range s.pts { // the polygon as the library sees it
		s.v[i] = unit(s.pts[i])
	}
	return s
}

func (s spherePoly) contains(p v3, slack float64) bool {
	for i := range s.v {
		a, b := s.v[i], s.v[(i+1)%len(s.v)]
		if side(s.mid, a, p) >= -slack && side(a, b, p) >= -slack && side(b, s.mid, p) >= -slack {
			return true
		}
	}
	return false
}

// arcsCross reports whether two arcs much shorter than half a circle share a point, with slack.
func arcsCross(a, b, c, d v3, slack float64) bool {
	if a.dot(c) < 0 && a.dot(d) < 0 && b.dot(c) < 0 && b.dot(d) < 0 {
		return false
	}
	apart := func(x, y float64) bool { return x > slack && y > slack || x < -slack && y < -slack }
	return !apart(side(a, b, c), side(a, b, d)) && !apart(side(c, d, a), side(c, d, b))
}

func c26cover(c *Case)      { coverCase(c, false) }
func c26largeCover(c *Case) { coverCase(c, true) }

func coverCase(c *Case, many bool) {
	r := c.R
	size := math.Pow(10, r.Float64()*4.7-3)
	mid := geo.Point{X: r.Float64()*360 - 180, Y: math.Asin(2*r.Float64()-1) * 180 / math.Pi}
	place := "anywhere"
	switch r.IntN(5) {
	case 0:
		mid.X = 180 - r.Float64()*size*0.1
		place = "antimeridian"
	case 1:
		mid.Y = math.Copysign(90-r.Float64()*size*0.1, mid.Y)
		place = "pole"
	}
	s := genSpherePoly(r, mid, size, many)
	// cells about size/2 to size/12 wide
	level := int(math.Round(math.Log2(90/size))) + r.IntN(5) - 1
	level = max(0, min(26, level))
	k := len(s.pts)
	first, rev := r.IntN(k), r.IntN(2) == 0
	var pts []geo.Point
	for i := 0; i < k; i++ {
		j := (first + i) % k
		if rev {
			j = (first - i + k) % k
		}
		pts = append(pts, s.pts[j])
	}
	poly := *geo.NewPolygonFromPois(pts...)
	c.Desc(func() string { return fmt.Sprintf("level %d polygon %v (%s, size %v deg)", level, poly, place, size) })
	// a ring whose longitudes jump across the antimeridian, as the library receives it
	across := false
	for i := range pts {
		across = across || math.Abs(pts[i].X-pts[(i+1)%k].X) > 180
	}
	around := s.contains(v3{0, 0, 1}, 0) || s.contains(v3{0, 0, -1}, 0)
	ids := geo.S2RegionCoverer(poly, level, geo.SRID_WGS84_GPS)
	c.Check(len(ids) > 0, "the covering is empty")
	in := map[uint64]bool{}
	for _, id := range ids {
		c.Check(s2.CellID(id).IsValid() && s2.CellID(id).Level() == level, "the covering has a cell %x of level %d", id, s2.CellID(id).Level())
		c.Check(!in[id], "the covering lists the cell %s twice", s2.CellID(id).ToToken())
		in[id] = true
	}
	c.Ev("covering judged")
	if k > 100 {
		c.Ev("coverings of polygons of more than 100 vertices")
	}
	c.NT(fmt.Sprint(level, place, sizeClass(size), k, rev, math.Floor(mid.X/30), math.Floor(mid.Y/15)))
	if rev {
		c.Ev("clockwise polygon")
	} else {
		c.Ev("counter-clockwise polygon")
	}
	if around {
		c.Ev("polygon around a pole")
	} else if across {
		c.Ev("polygon across the antimeridian")
	}
	for i := range s.v {
		a, b, d := s.v[i], s.v[(i+1)%k], s.v[(i+2)%k]
		if a.cross(b).dot(d) < 0 {
			c.Ev("concave polygon")
			break
		}
	}
	// every point of the polygon is covered
	try := func(p v3) {
		id := cellAt(p, level)
		if in[id] {
			c.Ev("interior point covered")
			return
		}
		// rounding may push a point on the outline over a cell limit
		for t := 0; t < 8; t++ {
			w := p.add(v3{math.Cos(float64(t)), math.Sin(float64(t)), math.Cos(float64(3 * t))}, 1e-14).dir()
			if in[cellAt(w, level)] {
				return
			}
		}
		ll := s2.LatLngFromPoint(toS2(p))
		c.Failf("the point %v %v (lon, lat) of the polygon is in the cell %s, which is not in the covering of %d cells", ll.Lng.Degrees(), ll.Lat.Degrees(), s2.CellID(id).ToToken(), len(ids))
	}
	for i := range s.v {
		a, b := s.v[i], s.v[(i+1)%k]
		try(a)
		for t := 0; t < 40 && (k < 20 || t < 12); t++ {
			w, x := r.Float64(), math.Sqrt(r.Float64())
			if t%10 == 0 {
				x = 1 // on the outline
			}
			try(s.mid.add(s.mid, -x).add(a, x*(1-w)).add(b, x*w).dir())
		}
	}
	// every cell meets the polygon
	for _, id := range ids {
		q := corners(id)
		const slack = 4e-15
		ok := false
		for i := range q {
			ok = ok || s.contains(q[i], slack)
		}
		for i := 0; i < k && !ok; i++ {
			ok = insideQuad(q, s.v[i], slack)
			for j := 0; j < 4 && !ok; j++ {
				ok = arcsCross(s.v[i], s.v[(i+1)%k], q[j], q[(j+1)%4], slack)
			}
		}
		c.Check(ok, "the cell %s of the covering does not meet the polygon", s2.CellID(id).ToToken())
		c.Ev("cell meets the polygon")
	}
}
