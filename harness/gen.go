package main

// Workload generation: geometries of every kind, coordinates of several regimes, exact integer shapes.

import (
	"fmt"
	"math"
	"math/rand/v2"
	"reflect"
	"sort"

	geo "github.com/hzw456/go-geo"
)

type coordGen func(r *rand.Rand) float64

func cgSmallInt(n int) coordGen {
	return func(r *rand.Rand) float64 { return float64(r.IntN(2*n+1) - n) }
}

func cgUniform(lo, hi float64) coordGen {
	return func(r *rand.Rand) float64 { return lo + r.Float64()*(hi-lo) }
}

// cgExtreme gives finite doubles of every shape and magnitude.
func cgExtreme(r *rand.Rand) float64 {
	switch r.IntN(12) {
	case 0:
		return 0
	case 1:
		return math.Copysign(0, -1)
	case 2:
		return float64(r.IntN(2001) - 1000)
	case 3:
		return math.Trunc((r.Float64()-0.5)*3.6e7) / 1e5
	case 4:
		return (r.Float64() - 0.5) * 360
	case 5:
		return math.SmallestNonzeroFloat64 * float64(1+r.IntN(10))
	case 6:
		return math.MaxFloat64 * (r.Float64()*2 - 1)
	case 7:
		return math.Pow(10, float64(r.IntN(44)-22)) * float64(1-2*r.IntN(2))
	case 8:
		return float64(int64(r.Uint64())) // integers beyond 2^53
	case 9:
		return (r.Float64() - 0.5) * 1e-7
	default:
		for {
			f := math.Float64frombits(r.Uint64())
			if !math.IsNaN(f) && !math.IsInf(f, 0) {
				return f
			}
		}
	}
}

var kinds2 = []string{"Point", "MultiPoint", "LineString", "MultiLineString", "Polygon", "MultiPolygon"}
var kindsAll = []string{"Point", "MultiPoint", "LineString", "MultiLineString", "Polygon", "MultiPolygon",
	"PointZ", "MultiPointZ", "LineStringZ", "MultiLineStringZ", "PolygonZ", "MultiPolygonZ"}

// The point lists of one case lie in memory that the next case uses again, so that whatever the library
// remembers of a list by its address is wrong one case later. Only single-threaded monitors use it.
var (
	arena     []geo.Point
	arenaUsed int
	arenaOn   bool
)

func newPts(n, room int) []geo.Point {
	if !arenaOn || n+room > 4096 {
		return make([]geo.Point, n, n+room)
	}
	if arenaUsed+n+room > len(arena) {
		arena, arenaUsed = make([]geo.Point, 1<<16), 0
	}
	p := arena[arenaUsed : arenaUsed+n : arenaUsed+n+room]
	arenaUsed += n + room
	for i := range p {
		p[i] = geo.Point{}
	}
	return p
}

func gpt(r *rand.Rand, cg coordGen) geo.Point { return geo.Point{X: cg(r), Y: cg(r)} }
func gptZ(r *rand.Rand, cg coordGen) geo.PointZ {
	return geo.PointZ{X: cg(r), Y: cg(r), Z: cg(r)}
}

// Within a boosted case, part of the generated lists have up to boostPts points, and part of the
// generated geometries up to boostParts parts.
var boostPts, boostParts int

func listSize(r *rand.Rand, lo, hi int) int {
	if boostPts > hi && lo < hi && r.IntN(3) == 0 {
		return between(r, hi, boostPts)
	}
	return lo + r.IntN(hi-lo+1)
}

// boosted runs cases of a family on large values.
func boosted(pts, parts int, run func(c *Case)) func(c *Case) {
	return func(c *Case) {
		if c.R.IntN(2) == 0 {
			boostPts = pts
		} else {
			boostParts = parts
		}
		defer func() { boostPts, boostParts = 0, 0 }()
		run(c)
	}
}

func gpts(r *rand.Rand, cg coordGen, lo, hi int) []geo.Point {
	n := listSize(r, lo, hi)
	p := newPts(n, 0)
	for i := range p {
		p[i] = gpt(r, cg)
	}
	return p
}

func gptsZ(r *rand.Rand, cg coordGen, lo, hi int) []geo.PointZ {
	n := listSize(r, lo, hi)
	p := make([]geo.PointZ, n)
	for i := range p {
		p[i] = gptZ(r, cg)
	}
	return p
}

func gring(r *rand.Rand, cg coordGen) geo.LinearRing {
	p := gpts(r, cg, 3, 8)
	return append(geo.LinearRing(p), p[0])
}

func gringZ(r *rand.Rand, cg coordGen) geo.LinearRingZ {
	p := gptsZ(r, cg, 3, 8)
	return append(geo.LinearRingZ(p), p[0])
}

// genGeom makes a non-empty geometry of the kind, with closed rings, built as plain values.
func genGeom(r *rand.Rand, kind string, cg coordGen) geo.Geometry {
	parts := func() int {
		if boostParts > 4 && r.IntN(2) == 0 {
			return between(r, 4, boostParts)
		}
		return 1 + r.IntN(4)
	}
	switch kind {
	case "Point":
		return gpt(r, cg)
	case "PointZ":
		return gptZ(r, cg)
	case "MultiPoint":
		return geo.MultiPoint(gpts(r, cg, 1, 7))
	case "MultiPointZ":
		return geo.MultiPointZ(gptsZ(r, cg, 1, 7))
	case "LineString":
		return geo.LineString(gpts(r, cg, 2, 8))
	case "LineStringZ":
		return geo.LineStringZ(gptsZ(r, cg, 2, 8))
	case "MultiLineString":
		var m geo.MultiLineString
		for i := parts(); i > 0; i-- {
			m = append(m, geo.LineString(gpts(r, cg, 2, 6)))
		}
		return m
	case "MultiLineStringZ":
		var m geo.MultiLineStringZ
		for i := parts(); i > 0; i-- {
			m = append(m, geo.LineStringZ(gptsZ(r, cg, 2, 6)))
		}
		return m
	case "Polygon": // holes lie within the extent of the outer ring
		m := geo.Polygon{gring(r, cg)}
		o := m[0]
		for i := parts(); i > 1; i-- {
			var h geo.LinearRing
			for j := 3 + r.IntN(4); j > 0; j-- {
				h = append(h, geo.Point{X: o[r.IntN(len(o))].X, Y: o[r.IntN(len(o))].Y})
			}
			m = append(m, append(h, h[0]))
		}
		return m
	case "PolygonZ":
		m := geo.PolygonZ{gringZ(r, cg)}
		o := m[0]
		for i := parts(); i > 1; i-- {
			var h geo.LinearRingZ
			for j := 3 + r.IntN(4); j > 0; j-- {
				h = append(h, geo.PointZ{X: o[r.IntN(len(o))].X, Y: o[r.IntN(len(o))].Y, Z: cg(r)})
			}
			m = append(m, append(h, h[0]))
		}
		return m
	case "MultiPolygon":
		var m geo.MultiPolygon
		for i := parts(); i > 0; i-- {
			m = append(m, genGeom(r, "Polygon", cg).(geo.Polygon))
		}
		return m
	case "MultiPolygonZ":
		var m geo.MultiPolygonZ
		for i := parts(); i > 0; i-- {
			m = append(m, genGeom(r, "PolygonZ", cg).(geo.PolygonZ))
		}
		return m
	}
	panic("kind " + kind)
}

// repeatParts copies parts of the geometry (at any depth: members, rings, points) over or next to others,
// so that equal parts stand side by side or apart. Closed rings stay closed.
func repeatParts(r *rand.Rand, g geo.Geometry) geo.Geometry {
	v := reflect.New(reflect.TypeOf(g)).Elem()
	v.Set(reflect.ValueOf(g))
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		if v.Kind() != reflect.Slice || v.Len() == 0 {
			return
		}
		if v.Type().Elem().Kind() == reflect.Slice && r.IntN(2) == 0 {
			walk(v.Index(r.IntN(v.Len())))
			if r.IntN(2) == 0 {
				return
			}
		}
		n := v.Len()
		from := r.IntN(n)
		times := 1 + r.IntN(3)
		at := from // next to it, or anywhere behind it
		if r.IntN(3) == 0 {
			at = from + r.IntN(n-from)
		}
		out := reflect.MakeSlice(v.Type(), 0, n+times)
		for i := 0; i < n; i++ {
			out = reflect.Append(out, v.Index(i))
			if i == at {
				for k := 0; k < times; k++ {
					out = reflect.Append(out, v.Index(from))
				}
			}
		}
		if ring := v.Type().Name(); (ring == "LinearRing" || ring == "LinearRingZ") && at == n-1 {
			out = reflect.Append(out, v.Index(0))
		}
		v.Set(out)
	}
	walk(v)
	var own func(v reflect.Value) reflect.Value // so that no two parts share memory
	own = func(v reflect.Value) reflect.Value {
		if v.Kind() != reflect.Slice {
			return v
		}
		out := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			out.Index(i).Set(own(v.Index(i)))
		}
		return out
	}
	return own(v).Interface().(geo.Geometry)
}

// flatten lists the coordinate tuples of any geometry, part by part, by reflection.
func flatten(g any) [][]float64 {
	var out [][]float64
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Interface, reflect.Pointer:
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		case reflect.Struct:
			t := make([]float64, v.NumField())
			for i := range t {
				t[i] = v.Field(i).Float()
			}
			out = append(out, t)
		}
	}
	walk(reflect.ValueOf(g))
	return out
}

// nested gives the coordinates of a geometry as nested lists of numbers, like GeoJSON coordinates.
func nested(g any) any {
	v := reflect.ValueOf(g)
	switch v.Kind() {
	case reflect.Slice:
		l := make([]any, v.Len())
		for i := range l {
			l[i] = nested(v.Index(i).Interface())
		}
		return l
	case reflect.Struct:
		l := make([]any, v.NumField())
		for i := range l {
			l[i] = v.Field(i).Float()
		}
		return l
	}
	panic("nested")
}

type box struct{ x0, y0, x1, y1 float64 }

// boxOf is the monitor's own bounding box.
func boxOf(g any) box {
	b := box{math.Inf(1), math.Inf(1), math.Inf(-1), math.Inf(-1)}
	for _, t := range flatten(g) {
		b.x0, b.x1 = math.Min(b.x0, t[0]), math.Max(b.x1, t[0])
		b.y0, b.y1 = math.Min(b.y0, t[1]), math.Max(b.y1, t[1])
	}
	return b
}

func (a box) meets(b box) bool {
	return !(a.x1 < b.x0 || b.x1 < a.x0 || a.y1 < b.y0 || b.y1 < a.y0)
}

func toBox(b *geo.Box) box { return box{b.MinX, b.MinY, b.MaxX, b.MaxY} }

func repr(g any) string { return fmt.Sprintf("%T%+v", g, g) }

// ---- exact integer geometry

type ipt struct{ x, y int64 }

func orient(a, b, c ipt) int64 { return (b.x-a.x)*(c.y-a.y) - (b.y-a.y)*(c.x-a.x) }

func sgn(v int64) int {
	if v > 0 {
		return 1
	} else if v < 0 {
		return -1
	}
	return 0
}

func imin(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}
func imax(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

func onSeg(a, b, p ipt) bool {
	return orient(a, b, p) == 0 && imin(a.x, b.x) <= p.x && p.x <= imax(a.x, b.x) && imin(a.y, b.y) <= p.y && p.y <= imax(a.y, b.y)
}

type srel int

const (
	sDisjoint srel = iota
	sTouch
	sCross
)

// segRel is the exact relation of two closed segments.
func segRel(a, b, c, d ipt) srel {
	o1, o2, o3, o4 := sgn(orient(a, b, c)), sgn(orient(a, b, d)), sgn(orient(c, d, a)), sgn(orient(c, d, b))
	if o1*o2 < 0 && o3*o4 < 0 {
		return sCross
	}
	if onSeg(a, b, c) || onSeg(a, b, d) || onSeg(c, d, a) || onSeg(c, d, b) {
		return sTouch
	}
	return sDisjoint
}

// inRing: 0 outside, 1 on the ring, 2 inside (even-odd). ring is open (no closing vertex).
func inRing(ring []ipt, p ipt) int {
	in := false
	for i := range ring {
		a, b := ring[i], ring[(i+1)%len(ring)]
		if onSeg(a, b, p) {
			return 1
		}
		if (a.y > p.y) != (b.y > p.y) {
			o := orient(a, b, p)
			if (b.y > a.y) == (o > 0) {
				in = !in
			}
		}
	}
	if in {
		return 2
	}
	return 0
}

// ipoly is an exact polygon: outer ring, then holes; rings are open.
type ipoly [][]ipt

// locate: 0 outside, 1 boundary, 2 interior.
func (p ipoly) locate(q ipt) int {
	s := inRing(p[0], q)
	if s != 2 {
		return s
	}
	for _, h := range p[1:] {
		switch inRing(h, q) {
		case 1:
			return 1
		case 2:
			return 0
		}
	}
	return 2
}

func ringArea2(r []ipt) int64 {
	var s int64
	for i := range r {
		j := (i + 1) % len(r)
		s += r[i].x*r[j].y - r[j].x*r[i].y
	}
	return s
}

// xf maps the integer grid to doubles exactly.
type xf struct {
	scale  float64
	ox, oy int64
}

func (t xf) pt(p ipt) geo.Point {
	return geo.Point{X: float64(p.x+t.ox) * t.scale, Y: float64(p.y+t.oy) * t.scale}
}

func (t xf) pts(p []ipt) []geo.Point {
	return t.into(newPts(len(p), 0), p)
}

func (t xf) into(o []geo.Point, p []ipt) []geo.Point {
	for i := range p {
		o[i] = t.pt(p[i])
	}
	return o
}

func (t xf) ring(p []ipt) geo.LinearRing {
	return append(geo.LinearRing(t.into(newPts(len(p), 1), p)), t.pt(p[0]))
}

func (t xf) poly(p ipoly) geo.Polygon {
	var o geo.Polygon
	for _, r := range p {
		o = append(o, t.ring(r))
	}
	return o
}

var xfs = []xf{{1, 0, 0}, {1, 0, 0}, {0.0625, 0, 0}, {16, 0, 0}, {1, 759345, 2557684}, {0.0625, -5000, 7000}, {1.0 / 1024, 115000, 23000}}

func genXf(r *rand.Rand) xf { return xfs[r.IntN(len(xfs))] }

// exactXf adds very small and very large grids, for questions without any tolerance.
func exactXf(r *rand.Rand) xf {
	switch r.IntN(12) {
	case 0:
		return xf{1.0 / (1 << 26), 0, 0}
	case 1:
		return xf{1.0 / (1 << 40), 0, 0}
	case 2:
		return xf{1 << 30, 0, 0}
	}
	return genXf(r)
}

func half(p ipt) int {
	if p.y > 0 || (p.y == 0 && p.x > 0) {
		return 0
	}
	return 1
}

// starRing makes a simple star-shaped ring around the origin with integer vertices, or nil.
func starRing(r *rand.Rand, n, span int) []ipt {
	for try := 0; try < 20; try++ {
		var v []ipt
		for i := 0; i < n; i++ {
			p := ipt{int64(r.IntN(2*span+1) - span), int64(r.IntN(2*span+1) - span)}
			if p.x == 0 && p.y == 0 {
				continue
			}
			v = append(v, p)
		}
		cross := func(a, b ipt) int64 { return a.x*b.y - a.y*b.x }
		sort.Slice(v, func(i, j int) bool {
			a, b := v[i], v[j]
			if half(a) != half(b) {
				return half(a) < half(b)
			}
			return cross(a, b) > 0
		})
		var w []ipt
		for _, p := range v {
			if len(w) > 0 && half(w[len(w)-1]) == half(p) && cross(w[len(w)-1], p) == 0 {
				continue
			}
			w = append(w, p)
		}
		if len(w) < 3 {
			continue
		}
		ok := true
		for i := range w {
			if cross(w[i], w[(i+1)%len(w)]) <= 0 {
				ok = false
			}
		}
		if ok {
			return w
		}
	}
	return nil
}

// skylineRing makes a rectilinear x-monotone ring (a histogram).
func skylineRing(r *rand.Rand, cols, span int) []ipt {
	x := int64(-span)
	ring := []ipt{{x, 0}}
	var top []ipt
	for i := 0; i < cols; i++ {
		w := int64(1 + r.IntN(4))
		h := int64(1 + r.IntN(span))
		if len(top) == 0 || top[len(top)-1].y != h {
			top = append(top, ipt{x, h}, ipt{x + w, h})
		} else {
			top[len(top)-1].x = x + w
		}
		x += w
	}
	ring = append(ring, ipt{x, 0})
	for i := len(top) - 1; i >= 0; i-- {
		ring = append(ring, top[i])
	}
	return ring
}

func isSimple(ring []ipt) bool {
	n := len(ring)
	if n < 3 || ringArea2(ring) == 0 {
		return false
	}
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			a, b, c, d := ring[i], ring[(i+1)%n], ring[j], ring[(j+1)%n]
			if a == b || c == d {
				return false
			}
			if j == i+1 || (i == 0 && j == n-1) {
				// adjacent edges share one vertex; they must not fold back onto each other
				var sh, p, q ipt
				if j == i+1 {
					sh, p, q = b, a, d
				} else {
					sh, p, q = a, b, c
				}
				if n > 2 && orient(p, sh, q) == 0 && (p.x-sh.x)*(q.x-sh.x)+(p.y-sh.y)*(q.y-sh.y) > 0 {
					return false
				}
				continue
			}
			if segRel(a, b, c, d) != sDisjoint {
				return false
			}
		}
	}
	return true
}

// genSimpleRing makes a simple ring with a random start vertex and direction.
func genSimpleRing(r *rand.Rand, maxN, span int) []ipt {
	var ring []ipt
	for {
		switch r.IntN(6) {
		case 0: // rectangle
			w, h := int64(1+r.IntN(span)), int64(1+r.IntN(span))
			ring = []ipt{{0, 0}, {w, 0}, {w, h}, {0, h}}
		case 1:
			ring = skylineRing(r, 1+r.IntN(1+maxN/3), span)
		case 2: // any few points
			ring = nil
			for i := 3 + r.IntN(4); i > 0; i-- {
				ring = append(ring, ipt{int64(r.IntN(2*span+1) - span), int64(r.IntN(2*span+1) - span)})
			}
		default:
			ring = starRing(r, 3+r.IntN(maxN), span)
		}
		if ring == nil {
			continue
		}
		if r.IntN(3) == 0 { // redundant collinear vertices
			var o []ipt
			for i, a := range ring {
				b := ring[(i+1)%len(ring)]
				o = append(o, a)
				dx, dy := b.x-a.x, b.y-a.y
				g := gcd(iabs(dx), iabs(dy))
				if g > 1 && r.IntN(2) == 0 {
					k := int64(1 + r.IntN(int(g-1)))
					o = append(o, ipt{a.x + dx/g*k, a.y + dy/g*k})
				}
			}
			ring = o
		}
		if r.IntN(4) == 0 { // shear
			k := int64(r.IntN(3) - 1)
			for i := range ring {
				if r.IntN(1) == 0 {
					ring[i].x += k * ring[i].y
				}
			}
		}
		if r.IntN(2) == 0 { // translate, transpose
			dx, dy := int64(r.IntN(7)-3), int64(r.IntN(7)-3)
			tr := r.IntN(2) == 0
			for i := range ring {
				if tr {
					ring[i].x, ring[i].y = ring[i].y, ring[i].x
				}
				ring[i].x += dx
				ring[i].y += dy
			}
		}
		if !isSimple(ring) {
			continue
		}
		return respin(r, ring)
	}
}

// respin changes start vertex and direction.
func respin(r *rand.Rand, ring []ipt) []ipt {
	k := r.IntN(len(ring))
	o := append(append([]ipt{}, ring[k:]...), ring[:k]...)
	if r.IntN(2) == 0 {
		for i, j := 0, len(o)-1; i < j; i, j = i+1, j-1 {
			o[i], o[j] = o[j], o[i]
		}
	}
	return o
}

func iabs(a int64) int64 {
	if a < 0 {
		return -a
	}
	return a
}

func gcd(a, b int64) int64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// genPoly makes a simple polygon, with up to maxHoles disjoint holes strictly inside.
func genPoly(r *rand.Rand, maxN, span, maxHoles int) ipoly {
	p := ipoly{genSimpleRing(r, maxN, span)}
	if maxHoles == 0 {
		return p
	}
	x0, y0, x1, y1 := bounds(p[0])
	want := r.IntN(maxHoles + 1)
	for try := 0; try < 40 && len(p)-1 < want; try++ {
		cx, cy := x0+int64(r.IntN(int(x1-x0+1))), y0+int64(r.IntN(int(y1-y0+1)))
		var h []ipt
		s := int64(1 + r.IntN(3))
		switch r.IntN(3) {
		case 0:
			h = []ipt{{cx, cy}, {cx + s, cy}, {cx + s, cy + s}, {cx, cy + s}}
		case 1:
			h = []ipt{{cx, cy}, {cx + s, cy}, {cx, cy + s}}
		case 2:
			h = []ipt{{cx - s, cy}, {cx, cy - s}, {cx + s, cy}, {cx, cy + s}}
		}
		ok := true
		for _, q := range h {
			if p.locate(q) != 2 {
				ok = false
			}
		}
		for _, ring := range p {
			for i := range ring {
				for j := range h {
					if segRel(ring[i], ring[(i+1)%len(ring)], h[j], h[(j+1)%len(h)]) != sDisjoint {
						ok = false
					}
				}
				if inRing(h, ring[i]) != 0 {
					ok = false
				}
			}
		}
		if ok {
			p = append(p, respin(r, h))
		}
	}
	return p
}

func bounds(r []ipt) (x0, y0, x1, y1 int64) {
	x0, y0, x1, y1 = r[0].x, r[0].y, r[0].x, r[0].y
	for _, p := range r {
		x0, x1 = imin(x0, p.x), imax(x1, p.x)
		y0, y1 = imin(y0, p.y), imax(y1, p.y)
	}
	return
}

func relName(r geo.GeometryRealation) string {
	switch r {
	case geo.RELA_UNKNOWN:
		return "unknown"
	case geo.RELA_DISJOINT:
		return "disjoint"
	case geo.RELA_CONTAIN:
		return "contain"
	case geo.RELA_EQUAL:
		return "equal"
	case geo.RELA_TOUCH:
		return "touch"
	case geo.RELA_COVER:
		return "cover"
	case geo.RELA_INTERSECT:
		return "intersect"
	}
	return fmt.Sprint("relation ", int(r))
}

func near(a, b, tol float64) bool { return math.Abs(a-b) <= tol }

func relNear(a, b, rel, abs float64) bool {
	return math.Abs(a-b) <= abs+rel*math.Max(math.Abs(a), math.Abs(b))
}
