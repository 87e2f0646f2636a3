package main

// C33: an answer depends on the arguments alone and belongs to the caller.

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"os/exec"
	"reflect"
	"sort"
	"strings"

	geo "github.com/hzw456/go-geo"
	"github.com/hzw456/go-geo/geojson"
	"github.com/hzw456/go-geo/wkt"
)

// aliasing operations hand out parts of their arguments by design.
var aliasing = map[string]bool{"LinearRing.ToLineString": true, "LinearRingZ.ToLineString": true, "geojson.NewFeature": true, "line accessors": true, "LineString.ToRing": true, "LineStringZ.ToRing": true, "polygon accessors": true}

// isConstructor says that an operation builds a value around what it is given; whether the parts are
// copied is the constructor's choice.
func isConstructor(name string) bool { return strings.HasPrefix(name, "New") }

// rawOps return answers in the form the library hands them out.
var rawOps = []op{
	{"MarshalGeo bytes", func(e *env, r *rand.Rand) any { b, _ := geojson.MarshalGeo(pick(r, e.Geoms)); return b }},
	{"Feature.MarshalJSON bytes", func(e *env, r *rand.Rand) any { b, _ := pick(r, e.Feats).MarshalJSON(); return b }},
	{"FeatureCollection.MarshalJSON bytes", func(e *env, r *rand.Rand) any { b, _ := pick(r, e.Colls).MarshalJSON(); return b }},
	{"UnmarshalFeatureCollection", func(e *env, r *rand.Rand) any {
		b, _ := e.Colls[len(e.Colls)-1].MarshalJSON()
		c, err := geojson.UnmarshalFeatureCollection(b)
		return multi{c, err != nil}
	}},
	{"GetAllBoundingBoxes", func(e *env, r *rand.Rand) any { return e.tree.GetAllBoundingBoxes() }},
	{"range searches", func(e *env, r *rand.Rand) any { return e.tree.SearchIntersect(pick(r, e.Boxes)) }},
	{"full range searches", func(e *env, r *rand.Rand) any { return e.tree.SearchIntersect(geo.NewBox(-1e9, -1e9, 1e9, 1e9)) }},
	{"filtered searches", func(e *env, r *rand.Rand) any {
		n := r.IntN(2)
		return e.tree.SearchIntersectWithCond(pick(r, e.Boxes), yes(&n))
	}},
	{"searches by ID", func(e *env, r *rand.Rand) any { return e.tree.SearchBySpatialID(fmt.Sprint("o", r.IntN(20))) }},
	{"coverings", func(e *env, r *rand.Rand) any {
		return geo.S2RegionCoverer(pick(r, e.Polys), e.level, geo.SRID_WGS84_GPS)
	}},
	{"cell queries", func(e *env, r *rand.Rand) any {
		id := geo.S2GetCellID(geo.Point{X: 10 + r.Float64(), Y: 20}, 5+r.IntN(20), geo.SRID_WGS84_GPS)
		return multi{geo.S2GetAllNeighbors(id, geo.SRID_WGS84_GPS), geo.S2GetBoundary(id, geo.SRID_WGS84_GPS), geo.S2GetCenter(id, geo.SRID_WGS84_GPS)}
	}},
	{"geohash queries", func(e *env, r *rand.Rand) any {
		h := geo.GeohashEncode(geo.Point{X: 10 * r.Float64(), Y: 20}, uint(1+r.IntN(9)), geo.SRID_WGS84_GPS)
		return multi{h, geo.GeohashGetAllNeighbors(h, geo.SRID_WGS84_GPS), geo.GeohashGetBoundary(h, geo.SRID_WGS84_GPS), geo.GeohashGetCenter(h, geo.SRID_WGS84_GPS)}
	}},
	{"decoded degenerate texts", func(e *env, r *rand.Rand) any {
		g, err := wkt.Decode([]string{"POINT(1 2)", "LINESTRING(1 2)", "LINESTRING(1 2,3 4)", "POLYGON((0 0,1 0,1 1,0 0))", "MULTIPOINT(1 2)", "POLYGON((0 0,4 0,4 4,0 4,0 0),(1 1,2 1,2 2,1 1))"}[r.IntN(6)])
		return multi{g, err != nil}
	}},
	{"neutral answers", func(e *env, r *rand.Rand) any {
		return multi{geo.ConvexHull(), geo.ConvexHull(geo.Point{X: 1, Y: 1}), geo.Mbr(geo.LineString{}), geo.BoundingBox(geo.LineString{}), geo.Centroid(geo.MultiPoint{}),
			geo.RotateCW(geo.LineString{}, geo.Point{}, 10), geo.DouglasPeuckerSimplify(nil, 1, 0), geo.S2RegionCoverer(geo.Polygon{}, 3, geo.SRID_WGS84_GPS), geo.NewTree().GetAllBoundingBoxes(), geo.LineString{}.ToRing()}
	}},
	{"vector answers", func(e *env, r *rand.Rand) any {
		a := geo.NewVector2(1+r.Float64(), 2)
		b, c, d := *a, *a, *a
		b.Normalize()
		d.Multiply(2)
		return multi{b, c.Clone(), d, a.Sub(c), geo.Add(*a, c)}
	}},
}

// overwrite changes everything an answer holds.
func overwrite(v reflect.Value, d int) {
	if d > 14 {
		return
	}
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if !v.IsNil() {
			overwrite(v.Elem(), d+1)
		}
	case reflect.Slice:
		v = v.Slice(0, v.Cap())
		if v.Type() == reflect.TypeOf([]geo.Spatial{}) { // what the tree stores, the objects' geometries, is not the answer's
			for i := 0; i < v.Len(); i++ {
				v.Index(i).Set(reflect.ValueOf(geo.Spatial{ID: "overwritten", Geom: geo.Point{X: -98765.5}}))
			}
			return
		}
		for i := 0; i < v.Len(); i++ {
			overwrite(v.Index(i), d+1)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			overwrite(v.Index(i), d+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				overwrite(v.Field(i), d+1)
			}
		}
	case reflect.Map:
		keys := v.MapKeys()
		for _, k := range keys {
			overwrite(v.MapIndex(k), d+1)
		}
		if v.Type().Key().Kind() == reflect.String && v.Type().Elem().Kind() == reflect.Interface && !v.IsNil() {
			v.SetMapIndex(reflect.ValueOf("overwritten").Convert(v.Type().Key()), reflect.ValueOf(any(1.5)))
		}
	case reflect.Float64:
		if v.CanSet() {
			v.SetFloat(-98765.5)
		}
	case reflect.Uint64, reflect.Uint8, reflect.Uint:
		if v.CanSet() {
			v.SetUint(77)
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("overwritten")
		}
	}
}

func canonical(name string, v any) string {
	if name == "coverings" { // the order of the cells is not judged
		l := append([]uint64(nil), v.([]uint64)...)
		sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
		return dump(l)
	}
	if sp, ok := v.([]geo.Spatial); ok && name != "tree.NearestNeighbors" { // nor that of the objects
		return strings.Join(sorted(sp), "|")
	}
	return dump(v)
}

func ownAnswers(c *Case) {
	s1, s2 := c.R.Uint64(), c.R.Uint64()
	modes := []string{"exact", "spare", "shared"}
	mk := func(k int) *env {
		on := arenaOn
		arenaOn = k == 0
		defer func() { arenaOn = on }()
		e := newEnv(rand.New(rand.NewPCG(s1, s2)))
		e.relayout(modes[(c.Idx+k)%3])
		return e
	}
	e, other, sibling := mk(0), mk(1), mk(2)
	live, twin := mk(1), mk(2)
	// move changes a point in the middle of every list, in place
	move := func(e *env, seed uint64, shift float64) {
		r := rand.New(rand.NewPCG(seed, 2))
		e.eachListOf(func(l []geo.Point) {
			if n := len(l); n > 2 {
				l[1+r.IntN(n-2)].Y += shift
			}
		}, func(l []geo.PointZ) {
			if n := len(l); n > 2 {
				l[1+r.IntN(n-2)].Z += shift
			}
		})
	}
	shift := 1 + float64(c.R.IntN(3))
	move(sibling, c.R.Uint64(), shift) // like e, but for those points
	last := ""
	c.Desc(func() string { return fmt.Sprintf("operation %s on %s", last, trunc(dump(e), 3000)) })
	before := snap(e)
	treeBefore := dump(e.tree.GetAllBoundingBoxes())
	all := append(append([]op{}, readOps...), rawOps...)
	c.R.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	type held struct {
		name string
		v    any
		d    string
	}
	var kept []held
	for i, o := range all {
		last = o.name
		seed := c.R.Uint64()
		run := func(e *env) any { return o.run(e, rand.New(rand.NewPCG(seed, 1))) }
		a := run(e)
		da := canonical(o.name, a)
		// other calls in between, then the same call again and on equal values elsewhere
		for k := c.R.IntN(4); k > 0; k-- {
			p := all[c.R.IntN(len(all))]
			p.run(other, c.R)
		}
		if c.R.IntN(2) == 0 { // or on values that resemble these
			run(sibling)
			c.Ev("answers repeated after similar questions")
		}
		b := run(e)
		db := canonical(o.name, b)
		c.Check(da == db, "%s answers %s first and %s when asked again", o.name, trunc(da, 1000), trunc(db, 1000))
		if c.R.IntN(2) == 0 { // the same memory with other contents
			run(live)
			ms := c.R.Uint64()
			move(live, ms, shift)
			move(twin, ms, shift)
			shift = -shift
			dl, dt := canonical(o.name, run(live)), canonical(o.name, run(twin))
			c.Check(dl == dt, "%s answers %s after its arguments were changed in place, %s for the same arguments elsewhere", o.name, trunc(dl, 1000), trunc(dt, 1000))
			c.Ev("arguments changed in place between two calls")
		}
		dc := canonical(o.name, run(other))
		c.Check(da == dc, "%s answers %s, but %s for equal arguments elsewhere in memory", o.name, trunc(da, 1000), trunc(dc, 1000))
		c.Ev("answers repeated: " + o.name)
		d := canonical(o.name, a)
		c.Check(d == da, "an answer of %s was %s and became %s while other calls ran", o.name, trunc(da, 1000), trunc(d, 1000))
		if isConstructor(o.name) || aliasing[o.name] {
			continue
		}
		kept = append(kept, held{o.name, a, da})
		// overwrite the second answer
		overwrite(reflect.ValueOf(b), 0)
		c.Check(sameSnap(before, snap(e)), "overwriting an answer of %s changes the values it was computed from", o.name)
		if i%7 == 0 || strings.HasPrefix(o.name, "tree") || o.name == "GetAllBoundingBoxes" {
			t := dump(e.tree.GetAllBoundingBoxes())
			c.Check(t == treeBefore, "overwriting an answer of %s changes the tree: node boxes %s became %s", o.name, trunc(treeBefore, 1000), trunc(t, 1000))
		}
		d = canonical(o.name, a)
		c.Check(d == da, "overwriting one answer of %s changes an earlier one from %s to %s", o.name, trunc(da, 1000), trunc(d, 1000))
		d = canonical(o.name, run(e))
		c.Check(d == da, "%s answers %s, but %s after an earlier answer was overwritten", o.name, trunc(da, 1000), trunc(d, 1000))
		c.Ev("answers overwritten")
	}
	for _, k := range kept {
		d := canonical(k.name, k.v)
		c.Check(d == k.d, "an answer of %s was %s and became %s by the end", k.name, trunc(k.d, 1000), trunc(d, 1000))
	}
	c.EvN("answers held to the end", len(kept))
	c.NT(fmt.Sprint(len(before), e.Srid, len(e.Sps), c.Idx))
}

// freshSpec names one set of values and questions, for this process and another.
type freshSpec struct{ S1, S2, S3, S4 uint64 }

// sides makes the values and others that resemble them: a point in the middle of every list differs,
// or else only the reference system, the threshold or the level.
func (f freshSpec) sides() (e, sib *env) {
	mk := func() *env {
		e := newEnv(rand.New(rand.NewPCG(f.S1, f.S2)))
		e.relayout("exact")
		return e
	}
	e, sib = mk(), mk()
	r := rand.New(rand.NewPCG(f.S3, 5))
	switch r.IntN(8) {
	case 0:
		sib.Srid = []geo.SRID{geo.SRID_WGS84_GPS, geo.SRID_WGS84_PSEUDO_MERCATOR, geo.SRID_WGS84_UTM_ZONE_50N}[r.IntN(3)]
	case 1:
		sib.Thr *= 0.3 + 2*r.Float64()
	case 2:
		sib.level = r.IntN(6)
	default:
		shift := []float64{1, -1, 3, 0.5}[r.IntN(4)]
		sib.eachListOf(func(l []geo.Point) {
			if n := len(l); n > 2 {
				l[1+r.IntN(n-2)].Y += shift
			}
		}, func(l []geo.PointZ) {
			if n := len(l); n > 2 {
				l[1+r.IntN(n-2)].Z += shift
			}
		})
	}
	return
}

func (f freshSpec) source(o op) *rand.Rand {
	h := fnv.New64a()
	h.Write([]byte(o.name))
	return rand.New(rand.NewPCG(f.S4^h.Sum64(), 9))
}

// freshMain answers the questions in a process that has answered nothing before.
func freshMain(text string) {
	var f freshSpec
	if err := json.Unmarshal([]byte(text), &f); err != nil {
		fatal(err)
	}
	arenaOn = true
	_, sib := f.sides()
	out := map[string]string{}
	all := append(append([]op{}, readOps...), rawOps...)
	for i := len(all) - 1; i >= 0; i-- {
		out[all[i].name] = canonical(all[i].name, all[i].run(sib, f.source(all[i])))
	}
	json.NewEncoder(os.Stdout).Encode(out)
}

// ownFresh compares the answers with those of a process that was never asked about similar values.
func ownFresh(c *Case) {
	f := freshSpec{c.R.Uint64(), c.R.Uint64(), c.R.Uint64(), c.R.Uint64()}
	e, sib := f.sides()
	last := ""
	c.Desc(func() string { return fmt.Sprintf("operation %s on %s", last, trunc(dump(sib), 3000)) })
	all := append(append([]op{}, readOps...), rawOps...)
	c.R.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	got := map[string]string{}
	for _, o := range all {
		last = o.name
		o.run(e, f.source(o))
		b, _ := json.Marshal(canonical(o.name, o.run(sib, f.source(o)))) // as it comes out of the pipe
		var s string
		json.Unmarshal(b, &s)
		got[o.name] = s
	}
	exe, err := os.Executable()
	if err != nil {
		return
	}
	arg, _ := json.Marshal(f)
	out, err := exec.Command(exe, "-fresh", string(arg)).Output()
	want := map[string]string{}
	if err != nil || json.Unmarshal(out, &want) != nil {
		c.Ev("no answer from the other process")
		return
	}
	for _, o := range all {
		last = o.name
		c.Check(got[o.name] == want[o.name], "%s answers %s here, but %s in a process that was asked nothing before", o.name, trunc(got[o.name], 1000), trunc(want[o.name], 1000))
	}
	c.EvN("answers compared with those of a fresh process", len(all))
	c.NT(fmt.Sprint("fresh", f))
}

func init() {
	must := []string{"answers compared with those of a fresh process", "answers overwritten", "answers held to the end", "answers repeated after similar questions", "arguments changed in place between two calls"}
	for _, o := range append(append([]op{}, readOps...), rawOps...) {
		must = append(must, "answers repeated: "+o.name)
	}
	register(&Prop{
		ID:   "C33",
		Rule: "every read-only operation is asked on a set of values, again after other calls, and on equal values elsewhere in memory; then one of the answers is overwritten completely (spare capacity included) and arguments, tree, earlier and later answers are compared; and the answers are compared with those of a fresh process that was not asked about similar values before; non-trivial: every value set",
		Must: must,
		Families: []Family{
			{"answers", 40, 5000, ownAnswers},
			{"large", 6, 500, boosted(300, 40, ownAnswers)},
			{"fresh", 30, 3000, ownFresh},
		},
		Assume: []string{"constructors, accessors, conversions between line and ring and features may hold the parts they were given, and objects found in a tree hold their geometry"},
	})
}
