package main

// Monitors of the editing operations and of equality: C27, C28.

import (
	"fmt"
	"math"
	"math/rand/v2"
	"reflect"

	geo "github.com/hzw456/go-geo"
)

func init() {
	register(&Prop{
		ID:   "C27",
		Rule: "random edit histories over a pool of lines, their split parts and copies, each compared with a list model after every operation; ring, polygon and collection construction histories in two and three dimensions; distinct (operation sequence, position classes)",
		Must: []string{"append", "set", "set at the end", "set refused", "insert in front", "insert inside", "insert at the end", "insert refused", "delete", "delete refused", "reverse", "split", "split refused", "point access", "point access refused", "edited after a split", "append to the first part of a split", "line Z edited", "ring closed", "ring already closed", "ring refused", "ring Z closed", "polygon history", "polygon Z history", "empty and repeated parts", "collections", "histories of crowded points"},
		Families: []Family{
			{Name: "lines", Quick: 20000, Thorough: 1500000, Run: lineHistory},
			{Name: "linesZ", Quick: 10000, Thorough: 500000, Run: lineHistoryZ},
			{Name: "rings", Quick: 20000, Thorough: 1000000, Run: ringBuilding},
			{Name: "polygons", Quick: 10000, Thorough: 500000, Run: polygonHistory},
			{Name: "collections", Quick: 10000, Thorough: 500000, Run: collectionBuilding},
		},
		Assume: []string{"the first and last point of a line of one point may be refused", "setting a point just behind the last one may append it or be refused"},
	})
	register(&Prop{
		ID:   "C28",
		Rule: "pairs of points and lines at every magnitude whose coordinates differ by zero, clearly less or clearly more than the tolerance, lines of equal and different lengths; distinct (kind, coordinate difference classes, lengths)",
		Must: []string{"equal points", "points differing in x", "points differing in y", "points differing in z", "equal lines", "lines differing in one point", "lines of different lengths", "empty lines", "difference just below the tolerance", "difference just above the tolerance", "3-D distance"},
		Families: []Family{
			{Name: "points", Quick: 100000, Thorough: 10000000, Run: equalPoints},
			{Name: "lines", Quick: 50000, Thorough: 3000000, Run: equalLines},
			{Name: "distances", Quick: 50000, Thorough: 3000000, Run: distancesZ},
		},
		Assume: []string{"differences within 0.1 % of the tolerance are not judged", "coordinates are finite"},
	})
}

// ---- C27

func pointsEq(a, b []geo.Point) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func pointsEqZ(a, b []geo.PointZ) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

type modelLine struct {
	line  *geo.LineString
	want  []geo.Point
	split bool // came out of a split
	first bool
}

func (m *modelLine) check(c *Case, what string) {
	l := *m.line
	c.Check(l.GetPointCount() == len(m.want) && pointsEq(l, m.want), "after %s the line is %v, expected %v", what, l, m.want)
	c.Check(pointsEq(l.GetPointSet(), m.want), "after %s the point set is %v, expected %v", what, l.GetPointSet(), m.want)
	n := len(m.want)
	f, e := l.GetFirstPoint(), l.GetEndPoint()
	switch {
	case n >= 2:
		c.Check(f != nil && *f == m.want[0], "after %s the first point is %v of %v", what, f, m.want)
		c.Check(e != nil && *e == m.want[n-1], "after %s the last point is %v of %v", what, e, m.want)
	case n == 1:
		c.Check(f == nil || *f == m.want[0], "the first point is %v of %v", f, m.want)
		c.Check(e == nil || *e == m.want[0], "the last point is %v of %v", e, m.want)
	default:
		c.Check(f == nil && e == nil, "an empty line has end points %v %v", f, e)
	}
	c.Check((l.Verify() == nil) == (n >= 2), "a line of %d points verifies as %v", n, l.Verify())
}

// listPos draws a position around a list of n: inside, at its ends, behind it and negative.
func listPos(r *rand.Rand, n int) int {
	switch r.IntN(8) {
	case 0:
		return 0
	case 1:
		return n - 1
	case 2:
		return n
	case 3:
		return n + 1 + r.IntN(3)
	case 4:
		return []int{-1, -2, -n, -n - 1, math.MinInt, math.MaxInt}[r.IntN(6)]
	}
	if n == 0 {
		return 0
	}
	return r.IntN(n)
}

func insertAt[T any](s []T, i int, v T) []T {
	o := append([]T{}, s[:i]...)
	o = append(o, v)
	return append(o, s[i:]...)
}

func removeAt[T any](s []T, i int) []T {
	o := append([]T{}, s[:i]...)
	return append(o, s[i+1:]...)
}

func lineHistory(c *Case) {
	r := c.R
	next, unit := 0.0, 1.0
	few := r.IntN(5) == 0
	if r.IntN(4) == 0 { // all points within the coordinate tolerance
		unit = math.Ldexp(1, -28)
		c.Ev("histories of crowded points")
	}
	fresh := func() geo.Point {
		next++
		if few {
			return geo.Point{X: float64(r.IntN(3)) * unit, Y: float64(r.IntN(2))}
		}
		return geo.Point{X: next * unit, Y: -next * 0.5 * unit}
	}
	mk := func() *modelLine {
		var pts []geo.Point
		for i := r.IntN(7); i > 0; i-- {
			pts = append(pts, fresh())
		}
		want := append([]geo.Point{}, pts...)
		if r.IntN(2) == 0 {
			return &modelLine{line: geo.NewLineString(pts...), want: want}
		}
		l := append(make(geo.LineString, 0, len(pts)+r.IntN(6)), pts...) // spare room behind the end
		return &modelLine{line: &l, want: want}
	}
	pool := []*modelLine{mk(), mk()}
	c.Desc(func() string { return fmt.Sprint(c.log) })
	say := func(f string, a ...any) string {
		s := fmt.Sprintf(f, a...)
		c.log = append(c.log, s)
		return s
	}
	for i, m := range pool {
		say("line %d = %v (capacity %d)", i, *m.line, cap(*m.line))
		m.check(c, "creation")
	}
	var key []byte
	for step := 5 + r.IntN(20); step > 0; step-- {
		k := r.IntN(len(pool))
		m := pool[k]
		l, n := m.line, len(m.want)
		var what string
		op := r.IntN(9)
		pos := listPos(r, n)
		cls := byte('i')
		switch {
		case pos < 0:
			cls = '-'
		case pos > n:
			cls = '+'
		case pos == n:
			cls = 'n'
		case pos == 0:
			cls = '0'
		}
		key = append(key, byte('a'+op), cls)
		switch op {
		case 0:
			p := fresh()
			what = say("append %v to line %d", p, k)
			c.Check(l.Append(p) == nil, "%s is refused", what)
			m.want = append(append([]geo.Point{}, m.want...), p)
			c.Ev("append")
			if m.first {
				c.Ev("append to the first part of a split")
			}
		case 1:
			p := fresh()
			what = say("set point %d of line %d to %v", pos, k, p)
			err := l.SetPoint(pos, p)
			switch {
			case pos >= 0 && pos < n:
				c.Check(err == nil, "%s is refused: %v", what, err)
				m.want = append([]geo.Point{}, m.want...)
				m.want[pos] = p
				c.Ev("set")
			case pos == n:
				if err == nil {
					m.want = append(append([]geo.Point{}, m.want...), p)
				}
				c.Ev("set at the end")
			default:
				c.Check(err != nil, "%s is accepted", what)
				c.Ev("set refused")
			}
		case 2, 3:
			p := fresh()
			what = say("insert %v at %d of line %d", p, pos, k)
			err := l.InsertPoint(pos, p)
			if pos < 0 || pos > n {
				c.Check(err != nil, "%s is accepted", what)
				c.Ev("insert refused")
				break
			}
			c.Check(err == nil, "%s is refused: %v", what, err)
			m.want = insertAt(m.want, pos, p)
			switch {
			case pos == n:
				c.Ev("insert at the end")
			case pos == 0:
				c.Ev("insert in front")
			default:
				c.Ev("insert inside")
			}
		case 4:
			what = say("delete point %d of line %d", pos, k)
			err := l.DelPoint(pos)
			if pos < 0 || pos >= n {
				c.Check(err != nil, "%s is accepted", what)
				c.Ev("delete refused")
				break
			}
			c.Check(err == nil, "%s is refused: %v", what, err)
			m.want = removeAt(m.want, pos)
			c.Ev("delete")
		case 5:
			what = say("reverse line %d", k)
			l.Reverse()
			w := make([]geo.Point, n)
			for i := range w {
				w[i] = m.want[n-1-i]
			}
			m.want = w
			c.Ev("reverse")
		case 6, 7:
			what = say("split line %d at %d", k, pos)
			a, b := l.SplitByIndex(pos)
			if pos < 0 || pos >= n {
				c.Check(len(a) == 0 && len(b) == 0, "%s gives %v and %v", what, a, b)
				c.Ev("split refused")
				break
			}
			c.Check(pointsEq(a, m.want[:pos+1]) && pointsEq(b, m.want[pos:]), "%s gives %v and %v of %v", what, a, b, m.want)
			c.Ev("split")
			x := &modelLine{line: &a, want: append([]geo.Point{}, m.want[:pos+1]...), split: true, first: true}
			y := &modelLine{line: &b, want: append([]geo.Point{}, m.want[pos:]...), split: true}
			// the parts are edited from now on; the line they came from is not, so only they stay
			pool[k] = x
			if len(pool) < 5 {
				pool = append(pool, y)
				what += say("; parts are line %d and line %d", k, len(pool)-1)
			} else {
				j := (k + 1 + r.IntN(len(pool)-1)) % len(pool)
				pool[j] = y
				what += say("; parts are line %d and line %d", k, j)
			}
		case 8:
			what = say("get point %d of line %d", pos, k)
			p := l.GetPoint(pos)
			if pos < 0 || pos >= n {
				c.Check(p == nil, "%s gives %v", what, p)
				c.Ev("point access refused")
				break
			}
			c.Check(p != nil && *p == m.want[pos], "%s gives %v of %v", what, p, m.want)
			c.Ev("point access")
		}
		if m.split && op < 6 {
			c.Ev("edited after a split")
		}
		for i, m := range pool {
			m.check(c, fmt.Sprintf("%s, line %d:", what, i))
		}
	}
	c.NT(string(key))
}

func lineHistoryZ(c *Case) {
	r := c.R
	next := 0.0
	few := r.IntN(2) == 0 // few values: upright steps, repeated and nearly repeated points
	fresh := func() geo.PointZ {
		if few {
			return geo.PointZ{X: float64(r.IntN(2)), Y: float64(r.IntN(2)), Z: []float64{0, 1, -1, 1e-7}[r.IntN(4)]}
		}
		next++
		return geo.PointZ{X: next, Y: -next, Z: 2 * next}
	}
	var want []geo.PointZ
	for i := r.IntN(6); i > 0; i-- {
		want = append(want, fresh())
	}
	l := geo.NewLineStringZ(want...)
	mp := geo.NewMultiPointZ(want...)
	mwant := append([]geo.PointZ{}, want...)
	want = append([]geo.PointZ{}, want...)
	c.Desc(func() string { return fmt.Sprint(c.log) })
	c.log = append(c.log, fmt.Sprint("line ", *l))
	key := fmt.Sprint(len(want))
	for step := 1 + r.IntN(12); step > 0; step-- {
		if r.IntN(3) > 0 {
			p := fresh()
			c.log = append(c.log, fmt.Sprint("append ", p))
			c.Check(l.Append(p) == nil, "append is refused")
			mp.Append(p)
			want, mwant = append(want, p), append(mwant, p)
			key += "a"
		} else {
			c.log = append(c.log, "reverse")
			l.Reverse()
			for i, j := 0, len(want)-1; i < j; i, j = i+1, j-1 {
				want[i], want[j] = want[j], want[i]
			}
			key += "r"
		}
		c.Check(l.GetPointCount() == len(want) && pointsEqZ(*l, want) && pointsEqZ(l.GetPointSet(), want), "the line is %v, expected %v", *l, want)
		c.Check(pointsEqZ(*mp, mwant) && pointsEqZ(mp.GetPointSet(), mwant), "the multipoint is %v, expected %v", *mp, mwant)
		f, e := l.GetFirstPoint(), l.GetEndPoint()
		if n := len(want); n >= 2 {
			c.Check(f == want[0] && e == want[n-1], "the end points are %v and %v of %v", f, e, want)
		} else {
			ok := func(p geo.PointZ) bool { return p == geo.PointZ{} || n == 1 && p == want[0] }
			c.Check(ok(f) && ok(e), "the end points are %v and %v of %v", f, e, want)
		}
		c.Ev("line Z edited")
	}
	c.NT(key)
}

func ringBuilding(c *Case) {
	r := c.R
	n := r.IntN(9)
	var pts []geo.Point
	var ptz []geo.PointZ
	s := []float64{1, 0.001, 1e6}[r.IntN(3)]
	for i := 0; i < n; i++ {
		p := geo.Point{X: float64(r.IntN(10)) * s, Y: float64(r.IntN(10)) * s}
		pts = append(pts, p)
		ptz = append(ptz, geo.PointZ{X: p.X, Y: p.Y, Z: float64(r.IntN(3)) * s})
	}
	if n > 1 {
		switch r.IntN(4) {
		case 0:
			pts[n-1], ptz[n-1] = pts[0], ptz[0]
		case 1: // differs in one coordinate only
			pts[n-1], ptz[n-1] = pts[0], ptz[0]
			if r.IntN(2) == 0 {
				pts[n-1].X += s
				ptz[n-1].Z += s
			} else {
				pts[n-1].Y += s
				ptz[n-1].Y += s
			}
		}
	}
	c.Desc(func() string { return fmt.Sprintf("points %v and %v", pts, ptz) })
	closed := n > 0 && pts[0] == pts[n-1]
	closedZ := n > 0 && ptz[0] == ptz[n-1]
	want := append([]geo.Point{}, pts...)
	if !closed && n > 0 {
		want = append(want, pts[0])
	}
	wantZ := append([]geo.PointZ{}, ptz...)
	if !closedZ && n > 0 {
		wantZ = append(wantZ, ptz[0])
	}
	line := append(make(geo.LineString, 0, n+2), pts...)
	lineZ := append(make(geo.LineStringZ, 0, n+2), ptz...)
	rings := []*geo.LinearRing{geo.NewLinearRing(pts...), geo.NewRingFromLine(line)}
	if t := line.ToRing(); t != nil {
		rings = append(rings, &t)
	} else {
		rings = append(rings, nil)
	}
	pp := geo.NewPolygonFromPois(pts...)
	if len(*pp) > 0 {
		c.Check(len(*pp) == 1, "the polygon of the points has %d rings", len(*pp))
		t := (*pp)[0]
		rings = append(rings, &t)
	} else {
		rings = append(rings, nil)
	}
	for i, g := range rings {
		how := []string{"NewLinearRing", "NewRingFromLine", "ToRing", "NewPolygonFromPois"}[i]
		if n < 2 {
			c.Check(g == nil || len(*g) == 0, "%s of %d points gives %v", how, n, g)
			c.Ev("ring refused")
			continue
		}
		c.Check(g != nil && pointsEq(*g, want), "%s gives %v, expected %v", how, g, want)
		c.Check(g.GetPointCount() == len(want) && pointsEq(g.GetPointSet(), want) && pointsEq(g.ToLineString(), want), "%s: the ring's points are %v, as a line %v", how, g.GetPointSet(), g.ToLineString())
		if closed {
			c.Ev("ring already closed")
		} else {
			c.Ev("ring closed")
		}
	}
	ringsZ := []*geo.LinearRingZ{geo.NewLinearRingZ(ptz...), geo.NewRingFromLineZ(lineZ)}
	if t := lineZ.ToRing(); t != nil {
		ringsZ = append(ringsZ, &t)
	} else {
		ringsZ = append(ringsZ, nil)
	}
	pz := geo.NewPolygonZFromPois(ptz...)
	if len(*pz) > 0 {
		c.Check(len(*pz) == 1, "the polygon of the points has %d rings", len(*pz))
		t := (*pz)[0]
		ringsZ = append(ringsZ, &t)
	} else {
		ringsZ = append(ringsZ, nil)
	}
	for i, g := range ringsZ {
		how := []string{"NewLinearRingZ", "NewRingFromLineZ", "ToRing (3-D)", "NewPolygonZFromPois"}[i]
		if n == 0 {
			c.Check(g == nil || len(*g) == 0, "%s of no points gives %v", how, g)
			continue
		}
		if n == 1 {
			continue
		}
		c.Check(g != nil && pointsEqZ(*g, wantZ), "%s gives %v, expected %v", how, g, wantZ)
		c.Check(g.GetPointCount() == len(wantZ) && pointsEqZ(g.GetPointSet(), wantZ) && pointsEqZ(g.ToLineString(), wantZ), "%s: the ring's points are %v, as a line %v", how, g.GetPointSet(), g.ToLineString())
		c.Ev("ring Z closed")
	}
	c.NT(fmt.Sprint(pts, ptz))
}

func polygonHistory(c *Case) {
	r := c.R
	id := 0.0
	ring := func() geo.LinearRing {
		var g geo.LinearRing
		for i := 3 + r.IntN(3); i > 0; i-- {
			id++
			g = append(g, geo.Point{X: id, Y: id})
		}
		return append(g, g[0])
	}
	ringZ := func() geo.LinearRingZ {
		var g geo.LinearRingZ
		for i := 3 + r.IntN(3); i > 0; i-- {
			id++
			g = append(g, geo.PointZ{X: id, Y: id, Z: -id})
		}
		return append(g, g[0])
	}
	var want []geo.LinearRing
	var wantZ []geo.LinearRingZ
	for i := r.IntN(4); i > 0; i-- {
		want, wantZ = append(want, ring()), append(wantZ, ringZ())
	}
	p, z := geo.NewPolygon(want...), geo.NewPolygonZ(wantZ...)
	want, wantZ = append([]geo.LinearRing{}, want...), append([]geo.LinearRingZ{}, wantZ...)
	key := fmt.Sprint(len(want))
	c.Desc(func() string { return fmt.Sprint(c.log) })
	check := func(what string) {
		c.log = append(c.log, fmt.Sprintf("%s, now %v and %v", what, want, wantZ))
		c.Check(len(*p) == len(want) && (len(want) == 0 || reflect.DeepEqual([]geo.LinearRing(*p), want)), "after %s the polygon is %v, expected %v", what, *p, want)
		c.Check(len(*z) == len(wantZ) && (len(wantZ) == 0 || reflect.DeepEqual([]geo.LinearRingZ(*z), wantZ)), "after %s the 3-D polygon is %v, expected %v", what, *z, wantZ)
		if len(want) == 0 {
			c.Check(len(p.GetExteriorRing()) == 0 && len(p.GetExteriorPoints()) == 0 && len(p.GetInteriorRing()) == 0, "an empty polygon has rings")
			c.Check(len(z.GetExteriorRing()) == 0 && len(z.GetExteriorPoints()) == 0 && len(z.GetInteriorRing()) == 0, "an empty 3-D polygon has rings")
			return
		}
		c.Check(pointsEq(p.GetExteriorRing(), want[0]) && pointsEq(p.GetExteriorPoints(), want[0]), "after %s the outer ring is %v, expected %v", what, p.GetExteriorRing(), want[0])
		c.Check(pointsEqZ(z.GetExteriorRing(), wantZ[0]) && pointsEqZ(z.GetExteriorPoints(), wantZ[0]), "after %s the 3-D outer ring is %v, expected %v", what, z.GetExteriorRing(), wantZ[0])
		in, inZ := p.GetInteriorRing(), z.GetInteriorRing()
		c.Check(len(in) == len(want)-1 && len(inZ) == len(want)-1, "after %s there are %d and %d holes, expected %d", what, len(in), len(inZ), len(want)-1)
		for i := range in {
			c.Check(pointsEq(in[i], want[i+1]) && pointsEqZ(inZ[i], wantZ[i+1]), "after %s hole %d is %v and %v", what, i, in[i], inZ[i])
		}
	}
	check("creation")
	for step := 1 + r.IntN(8); step > 0; step-- {
		g, gz := ring(), ringZ()
		if r.IntN(2) == 0 {
			p.SetExteriorRing(g)
			z.SetExteriorRing(gz)
			if len(want) == 0 {
				want, wantZ = append(want, g), append(wantZ, gz)
			} else {
				want[0], wantZ[0] = g, gz
			}
			key += "s"
			check("setting the outer ring")
		} else {
			p.AddInteriorRing(g)
			z.AddInteriorRing(gz)
			want, wantZ = append(want, g), append(wantZ, gz)
			key += "h"
			check("adding a ring")
		}
	}
	c.Ev("polygon history")
	c.Ev("polygon Z history")
	c.NT(key + fmt.Sprint(id))
}

func collectionBuilding(c *Case) {
	r := c.R
	cg := cgUniform(-1000, 1000)
	n := r.IntN(6)
	desc := ""
	c.Desc(func() string { return desc })
	eq := func(what string, got, want any) {
		a, b := reflect.ValueOf(got), reflect.ValueOf(want)
		desc = fmt.Sprintf("%s of %v", what, want)
		c.Check(a.Len() == b.Len(), "%s holds %v, given %v", what, got, want)
		for i := 0; i < a.Len(); i++ {
			c.Check(fmt.Sprint(a.Index(i)) == fmt.Sprint(b.Index(i)), "%s part %d is %v, given %v", what, i, a.Index(i), b.Index(i))
		}
	}
	var (
		pts  []geo.Point
		ptz  []geo.PointZ
		ls   []geo.LineString
		lz   []geo.LineStringZ
		ps   []geo.Polygon
		pz   []geo.PolygonZ
		more = r.IntN(4)
	)
	for i := 0; i < n; i++ {
		pts, ptz = append(pts, gpt(r, cg)), append(ptz, gptZ(r, cg))
		ls, lz = append(ls, gpts(r, cg, 2, 5)), append(lz, gptsZ(r, cg, 2, 5))
		ps, pz = append(ps, geo.Polygon{gring(r, cg)}), append(pz, geo.PolygonZ{gringZ(r, cg)})
	}
	if r.IntN(3) == 0 { // parts that are empty, or the same as another
		for k := 1 + r.IntN(3); k > 0 && n > 0; k-- {
			i, j := r.IntN(n), r.IntN(n)
			pts[i], ptz[i], ls[i], lz[i], ps[i], pz[i] = pts[j], ptz[j], ls[j], lz[j], ps[j], pz[j]
			switch i := r.IntN(n); r.IntN(4) {
			case 0:
				ls[i], lz[i], ps[i], pz[i] = geo.LineString{}, geo.LineStringZ{}, geo.Polygon{}, geo.PolygonZ{}
			case 1:
				ls[i], lz[i], ps[i], pz[i] = nil, nil, nil, nil
				j := min(i+1, n-1)
				ls[j], lz[j], ps[j], pz[j] = geo.LineString{}, geo.LineStringZ{}, geo.Polygon{{}}, geo.PolygonZ{{}}
			case 2:
				ls[i], lz[i], ps[i], pz[i] = ls[i][:min(1, len(ls[i]))], lz[i][:min(1, len(lz[i]))], geo.Polygon{nil}, geo.PolygonZ{nil}
			}
		}
		c.Ev("empty and repeated parts")
	}
	l, lzz := geo.NewLineString(pts...), geo.NewLineStringZ(ptz...)
	eq("NewLineString", *l, pts)
	eq("NewLineStringZ", *lzz, ptz)
	mp, mpz := geo.NewMultiPoint(pts...), geo.NewMultiPointZ(ptz...)
	eq("NewMultiPoint", *mp, pts)
	eq("NewMultiPointZ", *mpz, ptz)
	eq("NewMultiLineString", *geo.NewMultiLineString(ls...), ls)
	eq("NewMultiLineStringZ", *geo.NewMultiLineStringZ(lz...), lz)
	mg, mgz := geo.NewMultiPolygon(ps...), geo.NewMultiPolygonZ(pz...)
	eq("NewMultiPolygon", *mg, ps)
	eq("NewMultiPolygonZ", *mgz, pz)
	for ; more > 0; more-- {
		p, z := gpt(r, cg), gptZ(r, cg)
		g, gz := geo.Polygon{gring(r, cg)}, geo.PolygonZ{gringZ(r, cg)}
		pts, ptz, ps, pz = append(pts, p), append(ptz, z), append(ps, g), append(pz, gz)
		mp.Append(p)
		mpz.Append(z)
		mg.AddPolygon(g)
		mgz.AddPolygonZ(gz)
		eq("MultiPoint.Append", *mp, pts)
		eq("MultiPoint.GetPointSet", mp.GetPointSet(), pts)
		eq("MultiPointZ.Append", *mpz, ptz)
		eq("MultiPointZ.GetPointSet", mpz.GetPointSet(), ptz)
		eq("MultiPolygon.AddPolygon", *mg, ps)
		eq("MultiPolygonZ.AddPolygonZ", *mgz, pz)
	}
	a, z := gptZ(r, cg), gptZ(r, cg)
	p, q := geo.NewPoint(a.X, a.Y), geo.NewPointZ(a.X, a.Y, a.Z)
	desc = fmt.Sprint("points ", a, z)
	c.Check(*p == geo.Point{X: a.X, Y: a.Y} && *q == a, "NewPoint gives %v, NewPointZ %v", *p, *q)
	p.SetX(z.X)
	q.SetX(z.X)
	c.Check(*p == geo.Point{X: z.X, Y: a.Y} && *q == geo.PointZ{X: z.X, Y: a.Y, Z: a.Z}, "SetX gives %v and %v", *p, *q)
	p.SetY(z.Y)
	q.SetY(z.Y)
	c.Check(*p == geo.Point{X: z.X, Y: z.Y} && *q == geo.PointZ{X: z.X, Y: z.Y, Z: a.Z}, "SetY gives %v and %v", *p, *q)
	q.SetZ(z.Z)
	c.Check(*q == z, "SetZ gives %v", *q)
	c.Ev("collections")
	c.NT(fmt.Sprint(pts, len(ls)))
}

// ---- C28

const coordTol = 0.000001

// perturb moves a coordinate by a class of difference and reports whether it still counts as equal.
func perturb(c *Case, v float64) (float64, bool, int) {
	r := c.R
	s := 1 - 2*float64(r.IntN(2))
	switch k := r.IntN(8); k {
	case 0, 1, 2, 3:
		return v, true, 0
	case 4: // below
		if math.Abs(v) > 1e8 {
			return v, true, 0
		}
		f := 0.99 * r.Float64()
		if r.IntN(3) == 0 {
			f = 0.99
			if math.Abs(v) < 1e6 {
				c.Ev("difference just below the tolerance")
			}
		}
		return v + s*f*coordTol, true, 1
	case 5: // just above
		if math.Abs(v) > 1e6 {
			return v + s*math.Abs(v)*1e-3, false, 3
		}
		c.Ev("difference just above the tolerance")
		return v + s*1.01*coordTol, false, 2
	default:
		d := math.Pow(10, r.Float64()*12-5.9)
		if d < math.Abs(v)*1e-9 {
			d = math.Abs(v) * 1e-3
		}
		return v + s*d, false, 3
	}
}

func eqCoords(r *rand.Rand) coordGen {
	switch r.IntN(5) {
	case 0:
		return cgSmallInt(4)
	case 1:
		return cgUniform(-1e7, 1e7)
	case 2:
		return func(r *rand.Rand) float64 {
			return math.Ldexp(r.Float64()-0.5, r.IntN(600)-100)
		}
	}
	return cgUniform(-180, 180)
}

func equalPoints(c *Case) {
	cg := eqCoords(c.R)
	p := gptZ(c.R, cg)
	x, ex, kx := perturb(c, p.X)
	y, ey, ky := perturb(c, p.Y)
	z, ez, kz := perturb(c, p.Z)
	q := geo.PointZ{X: x, Y: y, Z: z}
	p2, q2 := geo.Point{X: p.X, Y: p.Y}, geo.Point{X: x, Y: y}
	c.Desc(func() string { return fmt.Sprintf("points %v %v", p, q) })
	c.Check(p.Equal(q) == (ex && ey && ez) && q.Equal(p) == (ex && ey && ez), "the 3-D points compare as %v and %v, expected %v", p.Equal(q), q.Equal(p), ex && ey && ez)
	c.Check(p2.Equal(q2) == (ex && ey) && q2.Equal(p2) == (ex && ey), "the points compare as %v and %v, expected %v", p2.Equal(q2), q2.Equal(p2), ex && ey)
	c.Check(p.Equal(p) && p2.Equal(p2), "a point is not equal to itself")
	switch {
	case ex && ey && ez:
		c.Ev("equal points")
	case !ex && ey && ez:
		c.Ev("points differing in x")
	case ex && !ey && ez:
		c.Ev("points differing in y")
	case ex && ey && !ez:
		c.Ev("points differing in z")
	}
	c.NT(fmt.Sprint(kx, ky, kz, x > p.X, y > p.Y, z > p.Z, sizeClass(math.Abs(p.X)), sizeClass(math.Abs(p.Y))))
}

func equalLines(c *Case) {
	r := c.R
	cg := eqCoords(r)
	n := r.IntN(8)
	a := geo.LineStringZ(gptsZ(r, cg, n, n))
	b := append(geo.LineStringZ{}, a...)
	want := true
	kind := "same"
	bad := -1
	switch r.IntN(5) {
	case 0: // shorter, longer
		if n > 0 && r.IntN(2) == 0 {
			b = b[:r.IntN(n)]
		} else {
			for i := 1 + r.IntN(3); i > 0; i-- {
				b = append(b, gptZ(r, cg))
			}
		}
		want, kind = false, "length"
	case 1, 2: // all coordinates within the tolerance
		for i := range b {
			for _, v := range []*float64{&b[i].X, &b[i].Y, &b[i].Z} {
				if math.Abs(*v) < 1e6 {
					*v += (2*r.Float64() - 1) * 0.98 * coordTol
				}
			}
		}
		kind = "close"
	case 3, 4:
		if n > 0 {
			bad = r.IntN(n)
			v := []*float64{&b[bad].X, &b[bad].Y}[r.IntN(2)]
			d := 1.01 * coordTol
			if math.Abs(*v) > 1e6 {
				d = math.Abs(*v) * 1e-3
			}
			*v += d
			want, kind = false, fmt.Sprint("point", bad)
		}
	}
	to2 := func(l geo.LineStringZ) geo.LineString {
		var o geo.LineString
		for _, p := range l {
			o = append(o, geo.Point{X: p.X, Y: p.Y})
		}
		return o
	}
	a2, b2 := to2(a), to2(b)
	c.Desc(func() string { return fmt.Sprintf("lines %v and %v", a, b) })
	c.Check(a.Equal(b) == want, "the 3-D lines compare as %v, expected %v", a.Equal(b), want)
	c.Check(b.Equal(a) == want, "the 3-D lines compare as %v the other way round, expected %v", b.Equal(a), want)
	c.Check(a2.Equal(b2) == want, "the lines compare as %v, expected %v", a2.Equal(b2), want)
	c.Check(b2.Equal(a2) == want, "the lines compare as %v the other way round, expected %v", b2.Equal(a2), want)
	c.Check(a.Equal(a) && a2.Equal(a2) && b2.Equal(b2), "a line is not equal to itself")
	switch {
	case want && n > 0:
		c.Ev("equal lines")
	case kind == "length":
		c.Ev("lines of different lengths")
	case bad >= 0:
		c.Ev("lines differing in one point")
	}
	if n == 0 || len(b) == 0 {
		c.Ev("empty lines")
	}
	c.NT(fmt.Sprint(n, len(b), kind, len(a) > 0 && a[0].X > 0))
}

func distancesZ(c *Case) {
	r := c.R
	cg := eqCoords(r)
	if r.IntN(3) == 0 {
		cg = cgUniform(-1e6, 1e6)
	}
	p, q, s := gptZ(r, cg), gptZ(r, cg), gptZ(r, cg)
	switch r.IntN(6) {
	case 0:
		q = p
	case 1:
		q.X, q.Y = p.X, p.Y
	case 2:
		q.Z = p.Z
	}
	c.Desc(func() string { return fmt.Sprintf("points %v %v %v", p, q, s) })
	d := geo.EuclideanDisZ(p, q)
	want := math.Hypot(math.Hypot(p.X-q.X, p.Y-q.Y), p.Z-q.Z)
	tol := 1e-12 * want
	c.Check(math.Abs(d-want) <= tol+1e-150, "the distance is %v, expected %v", d, want)
	c.Check(math.Abs(geo.EuclideanDisZ(q, p)-d) <= tol, "the distance is not symmetric")
	c.Check(geo.EuclideanDisZ(p, p) == 0, "the distance of a point to itself is %v", geo.EuclideanDisZ(p, p))
	e, f := geo.EuclideanDisZ(p, s), geo.EuclideanDisZ(s, q)
	c.Check(d <= (e+f)*(1+1e-12), "the triangle inequality fails: %v > %v + %v", d, e, f)
	c.Ev("3-D distance")
	c.NT(fmt.Sprint(p, q))
}
