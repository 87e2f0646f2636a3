package main

// C05: concurrent use under the race detector, answers compared with those of a sequential run.

import (
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	geo "github.com/hzw456/go-geo"
	"github.com/hzw456/go-geo/geojson"
	"github.com/hzw456/go-geo/wkt"
)

// call runs one operation and keeps its raw result; a panic is kept as the result.
func call(o *op, e *env, seed uint64) (res any, died any) {
	defer func() {
		if p := recover(); p != nil {
			died = p
		}
	}()
	return o.run(e, rand.New(rand.NewPCG(seed, 99))), nil
}

type invocation struct {
	op   int
	seed uint64
}

// perturbation points between operations: yields, short sleeps, busy loops.
func jitter(r *rand.Rand) {
	switch r.IntN(6) {
	case 0:
		runtime.Gosched()
	case 1:
		time.Sleep(time.Duration(r.IntN(30)) * time.Microsecond)
	case 2:
		for i := r.IntN(2000); i > 0; i-- {
			_ = i
		}
	}
}

// runAll starts one goroutine per program at the same moment and waits for them.
func runAll(n int, f func(g int)) {
	var wg sync.WaitGroup
	start := make(chan struct{})
	for g := 0; g < n; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			f(g)
		}()
	}
	close(start)
	wg.Wait()
}

// sharedReads lets many goroutines run read-only operations on one shared set of values. The values of
// a fresh environment are touched for the first time by the concurrent run; the sequential answers
// come afterwards from an equal, separate environment.
func sharedReads(c *Case) {
	s1, s2 := c.R.Uint64(), c.R.Uint64()
	mk := func() *env {
		r := rand.New(rand.NewPCG(s1, s2))
		e := newEnv(r)
		e.relayout([]string{"exact", "spare", "shared"}[r.IntN(3)])
		return e
	}
	shared := mk()
	g := 2 + c.R.IntN(9)
	per := 10 + c.R.IntN(30)
	focus := -1
	if c.Idx%2 == 0 { // every goroutine runs mostly the same operation
		focus = (c.Idx / 2) % len(readOps)
	}
	progs := make([][]invocation, g)
	got := make([][]any, g)
	died := make([][]any, g)
	for i := range progs {
		for j := 0; j < per; j++ {
			k := c.R.IntN(len(readOps))
			if focus >= 0 && c.R.IntN(10) < 8 {
				k = focus
			}
			progs[i] = append(progs[i], invocation{k, uint64(c.R.IntN(8))})
		}
		got[i], died[i] = make([]any, per), make([]any, per)
	}
	c.Desc(func() string {
		return fmt.Sprintf("%d goroutines, %d operations each, mostly %v, on %s", g, per, focus, trunc(dump(shared), 2000))
	})
	js := make([]uint64, g)
	for i := range js {
		js[i] = c.R.Uint64()
	}
	runAll(g, func(i int) {
		jr := rand.New(rand.NewPCG(js[i], 1))
		for j, iv := range progs[i] {
			got[i][j], died[i][j] = call(&readOps[iv.op], shared, iv.seed)
			if j%3 == 0 {
				jitter(jr)
			}
		}
	})
	alone := mk()
	want := map[invocation]string{}
	for i := range progs {
		for j, iv := range progs[i] {
			w, ok := want[iv]
			if !ok {
				v, d := call(&readOps[iv.op], alone, iv.seed)
				c.Check(d == nil, "%s panics: %v", readOps[iv.op].name, d)
				w = dump(v)
				want[iv] = w
			}
			c.Check(died[i][j] == nil, "%s panics when used concurrently: %v", readOps[iv.op].name, died[i][j])
			d := dump(got[i][j])
			c.Check(d == w, "%s gives %s when used concurrently and %s alone", readOps[iv.op].name, trunc(d, 1000), trunc(w, 1000))
			c.Ev("answers compared: " + readOps[iv.op].name)
		}
	}
	c.EvN("goroutines run", g)
	c.NT(fmt.Sprint(g, per, focus, progs[0]))
}

// idsOf names the objects of an answer, in their order or sorted.
func idsOf(v any, sortIDs bool) string {
	l, ok := v.([]geo.Spatial)
	if !ok {
		return dump(v)
	}
	ids := make([]string, len(l))
	for i, s := range l {
		ids[i] = s.ID
	}
	if sortIDs {
		sort.Strings(ids)
	}
	return strings.Join(ids, " ")
}

// treeReaders queries one tree from many goroutines, with filters that yield in the middle of a search.
func treeReaders(c *Case) {
	r := c.R
	n := []int{0, 1, 7, 60, 300, 1500}[r.IntN(6)]
	cg := cgSmallInt(100)
	var objs []geo.Spatial
	for i := 0; i < n; i++ {
		objs = append(objs, geo.Spatial{ID: fmt.Sprint("o", i), Geom: genGeom(r, kinds2[r.IntN(len(kinds2))], cg)})
	}
	mk := func() *geo.Rtree {
		if c.Idx%2 == 0 {
			return geo.NewTreeWith(append([]geo.Spatial{}, objs...)...)
		}
		t := geo.NewTree()
		for _, o := range objs {
			t.Insert(o)
		}
		for i := 0; i < len(objs)/4; i++ {
			t.Delete(objs[i])
		}
		return t
	}
	tree := mk()
	type q struct {
		kind int
		b    *geo.Box
		p    geo.Point
		k    int
		id   string
	}
	g := 3 + r.IntN(10)
	qs := make([][]q, g)
	got := make([][]any, g)
	for i := range qs {
		for j := 0; j < 20; j++ {
			a, b := gpt(r, cg), gpt(r, cg)
			qs[i] = append(qs[i], q{r.IntN(5), geo.NewBox(min(a.X, b.X), min(a.Y, b.Y), max(a.X, b.X), max(a.Y, b.Y)), gpt(r, cg), r.IntN(12), fmt.Sprint("o", r.IntN(n+1))})
		}
		got[i] = make([]any, len(qs[i]))
	}
	ask := func(t *geo.Rtree, x q) any {
		switch x.kind {
		case 0:
			return t.SearchIntersect(x.b)
		case 1:
			return t.SearchIntersectWithCond(x.b, func(o ...geo.Spatial) bool {
				runtime.Gosched()
				return len(o) > 0 && len(o[len(o)-1].ID)%2 == 0
			})
		case 2:
			return t.NearestNeighbors(x.k, x.p)
		case 3:
			return t.SearchBySpatialID(x.id)
		}
		return multi{t.Size(), t.Depth(), t.GetAllBoundingBoxes()}
	}
	died := make([]any, g)
	runAll(g, func(i int) {
		defer func() { died[i] = recover() }()
		for j, x := range qs[i] {
			got[i][j] = ask(tree, x)
		}
	})
	alone := mk()
	for i := range qs {
		c.Check(died[i] == nil, "a query panics when used concurrently: %v", died[i])
		for j, x := range qs[i] {
			w := ask(alone, x)
			gk, wk := idsOf(got[i][j], x.kind != 2), idsOf(w, x.kind != 2)
			same := gk == wk
			c.Check(same, "query %+v gives %s when used concurrently and %s alone", x, trunc(gk, 1000), trunc(wk, 1000))
			c.Ev([]string{"concurrent range queries", "concurrent filtered queries", "concurrent neighbour queries", "concurrent ID queries", "concurrent shape queries"}[x.kind])
		}
	}
	c.NT(fmt.Sprint(n, g, c.Idx))
}

// ownWork is a program that builds, changes and reads values of its own; its results depend on the seed alone.
func ownWork(seed uint64, steps int, j func()) (log []string, died any) {
	defer func() { died = recover() }()
	r := rand.New(rand.NewPCG(seed, 7))
	cg := cgSmallInt(30)
	tree := geo.NewTree()
	line := geo.NewLineString(gpts(r, cg, 2, 5)...)
	lineZ := geo.NewLineStringZ(gptsZ(r, cg, 2, 5)...)
	var objs []geo.Spatial
	out := func(what string, v any) { log = append(log, what+": "+dump(v)) }
	for s := 0; s < steps; s++ {
		j()
		switch r.IntN(12) {
		case 0, 1:
			sp := geo.Spatial{ID: fmt.Sprint(r.IntN(20)), Geom: genGeom(r, kindsAll[r.IntN(len(kindsAll))], cg)}
			objs = append(objs, sp)
			tree.Insert(sp)
			out("size after insert", tree.Size())
		case 2:
			if len(objs) > 0 {
				out("delete", tree.Delete(objs[r.IntN(len(objs))]))
			}
			out("delete by ID", tree.DeleteBySpatialID(fmt.Sprint(r.IntN(20))))
			tree.UpsertBySpatialID(geo.Spatial{ID: "up", Geom: gpt(r, cg)})
			out("size", tree.Size())
		case 3:
			out("found", sorted(tree.SearchIntersect(geo.NewBox(-10, -10, cg(r), 20))))
			out("near", len(tree.NearestNeighbors(3, gpt(r, cg))))
		case 4:
			rt := geo.NewRandomIDTree(gpt(r, cg), gpt(r, cg), gpt(r, cg))
			rt.InsertWithRandomId(gpt(r, cg))
			out("random ID tree", len(rt.SearchIntersect(geo.NewBox(-100, -100, 100, 100))))
		case 5:
			line.Append(gpt(r, cg))
			line.Reverse()
			line.InsertPoint(r.IntN(4), gpt(r, cg))
			line.SetPoint(0, gpt(r, cg))
			if line.GetPointCount() > 4 {
				line.DelPoint(1)
			}
			lineZ.Append(gptZ(r, cg))
			lineZ.Reverse()
			out("line", *line)
			out("line Z", *lineZ)
		case 6:
			p := genGeom(r, "Polygon", cg).(geo.Polygon)
			p.SetSrid(4326)
			geo.MultiPolygon{p}.SetSrid(uint64(r.IntN(9999)))
			geo.MultiPoint{gpt(r, cg)}.SetSrid(3857)
			geo.MultiLineString{*line}.SetSrid(1)
			geo.MultiLineStringZ{*lineZ}.SetSrid(2)
			p.AddInteriorRing(gring(r, cg))
			p.SetExteriorRing(gring(r, cg))
			out("polygon", p)
			out("area", geo.GetArea(p))
		case 7:
			g := genGeom(r, kindsAll[r.IntN(len(kindsAll))], cg)
			t := wkt.Encode(g)
			d, err := wkt.Decode(t)
			out("text", t)
			out("decoded", multi{d, err != nil})
		case 8:
			f := geojson.NewFeature(genGeom(r, kindsAll[r.IntN(len(kindsAll))], cg))
			f.SetProperty("k", r.IntN(9))
			f.SetBoundingBox()
			fc := geojson.NewFeatureCollection().AddFeature(f)
			b, err := json.Marshal(fc)
			out("collection", multi{string(b), err != nil})
			back, err := geojson.UnmarshalFeatureCollection(b)
			out("back", multi{back, err != nil})
		case 9:
			mp := geo.NewMultiPolygon(genGeom(r, "Polygon", cg).(geo.Polygon))
			mp.AddPolygon(genGeom(r, "Polygon", cg).(geo.Polygon))
			m := geo.NewMultiPoint(gpts(r, cg, 1, 4)...)
			m.Append(gpt(r, cg))
			out("multi", multi{*mp, *m, geo.MultiPolyArea(*mp)})
		case 10:
			v := geo.NewVector2(cg(r), cg(r)+100)
			v.Multiply(2)
			v.Normalize()
			out("vector", *v)
		case 11:
			l, _ := line.SplitByIndex(1)
			l.Append(gpt(r, cg))
			out("split", l)
			out("simplified", geo.DouglasPeuckerSimplify(*line, 3, geo.SRID_WGS84_PSEUDO_MERCATOR))
			out("hull", geo.ConvexHull(*line...))
			out("covering", len(geo.S2RegionCoverer(genGeom(r, "Polygon", cg).(geo.Polygon), 3, geo.SRID_WGS84_GPS)))
		}
	}
	return
}

// ownTree is a long history on a tree of its own, of any fan-out and constructor, with splits, condensing,
// emptying and reuse.
func ownTree(seed uint64, steps int, j func()) (log []string, died any) {
	defer func() { died = recover() }()
	r := rand.New(rand.NewPCG(seed, 8))
	cg := cgSmallInt(40)
	n := 0
	obj := func() geo.Spatial {
		n++
		return geo.Spatial{ID: fmt.Sprint("t", n), Geom: genGeom(r, kinds2[r.IntN(len(kinds2))], cg)}
	}
	var live []geo.Spatial
	for k := r.IntN(60); k > 0; k-- {
		live = append(live, obj())
	}
	var tree *geo.Rtree
	switch r.IntN(4) {
	case 0:
		tree = geo.NewTreeWith(append([]geo.Spatial{}, live...)...)
	case 1:
		m := 2 + r.IntN(6)
		tree = geo.NewMinMaxTree(1+r.IntN((m+1)/2), m, append([]geo.Spatial{}, live...)...)
	default:
		m := 2 + r.IntN(6)
		tree = geo.NewMinMaxTree(1+r.IntN((m+1)/2), m)
		for _, o := range live {
			tree.Insert(o)
		}
	}
	out := func(what string, v any) { log = append(log, what+": "+dump(v)) }
	for s := 0; s < steps; s++ {
		j()
		switch {
		case s%40 >= 30 && len(live) > 0: // shrinking
			for k := 1 + r.IntN(8); k > 0 && len(live) > 0; k-- {
				i := r.IntN(len(live))
				var ok bool
				if r.IntN(3) == 0 {
					ok = tree.DeleteBySpatialID(live[i].ID)
				} else {
					ok = tree.Delete(live[i])
				}
				live = append(live[:i], live[i+1:]...)
				out("deleted", ok)
			}
		case r.IntN(3) > 0:
			for k := 1 + r.IntN(6); k > 0; k-- {
				o := obj()
				live = append(live, o)
				tree.Insert(o)
			}
		default:
			if len(live) > 0 {
				i := r.IntN(len(live))
				live[i].Geom = genGeom(r, kinds2[r.IntN(len(kinds2))], cg)
				tree.UpsertBySpatialID(live[i])
			}
		}
		out("shape", multi{tree.Size(), tree.Depth() > 0})
		out("found", sorted(tree.SearchIntersect(geo.NewBox(-10, -10, cg(r), 30))))
		out("near", len(tree.NearestNeighbors(1+r.IntN(6), gpt(r, cg))))
	}
	return
}

func separateTrees(c *Case) { separate(c, "separate trees", ownTree) }

func separateValues(c *Case) { separate(c, "separate values", ownWork) }

func separate(c *Case, what string, ownWork func(seed uint64, steps int, j func()) (log []string, died any)) {
	g := 2 + c.R.IntN(9)
	steps := 15 + c.R.IntN(30)
	seeds := make([]uint64, g)
	js := make([]uint64, g)
	for i := range seeds {
		seeds[i], js[i] = c.R.Uint64(), c.R.Uint64()
	}
	c.Desc(func() string {
		return fmt.Sprintf("%d goroutines on %s, %d steps each, seeds %v", g, what, steps, seeds)
	})
	got := make([][]string, g)
	died := make([]any, g)
	runAll(g, func(i int) {
		jr := rand.New(rand.NewPCG(js[i], 1))
		got[i], died[i] = ownWork(seeds[i], steps, func() { jitter(jr) })
	})
	for i := range seeds {
		c.Check(died[i] == nil, "work on %s panics when run concurrently: %v", what, died[i])
		want, d := ownWork(seeds[i], steps, func() {})
		c.Check(d == nil, "work on %s panics: %v", what, d)
		c.Check(len(want) == len(got[i]), "%d steps logged concurrently, %d alone", len(got[i]), len(want))
		for k := range want {
			c.Check(want[k] == got[i][k], "step %d on a goroutine's own values gives %s among others and %s alone", k, trunc(got[i][k], 1000), trunc(want[k], 1000))
		}
		c.EvN("steps on "+what+" compared", len(want))
	}
	c.NT(fmt.Sprint(g, steps, seeds[0]))
}

func init() {
	must := []string{"concurrent range queries", "concurrent filtered queries", "concurrent neighbour queries", "concurrent ID queries", "concurrent shape queries", "steps on separate values compared", "steps on separate trees compared"}
	for _, o := range readOps {
		must = append(must, "answers compared: "+o.name)
	}
	register(&Prop{
		ID:   "C05",
		Race: true,
		Rule: "2 to 12 goroutines started together run random programs of read-only operations on shared values (or of building, editing and reading on values of their own) under the race detector, with yields and delays injected between operations and inside filter callbacks; every answer is compared with that of a sequential run on equal values made afterwards; non-trivial: distinct programs",
		Must: must,
		Families: []Family{
			{"shared-values", 320, 2500, sharedReads},
			{"shared-tree", 120, 1200, treeReaders},
			{"separate-values", 160, 1800, separateValues},
			{"separate-trees", 60, 1200, separateTrees},
		},
		Assume: []string{"the Go race detector reports an unsynchronised pair of accesses only if both happen in the run"},
	})
}
