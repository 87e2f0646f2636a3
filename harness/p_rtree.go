package main

// Monitors of the spatial index: C01 search, C02 conservation, C03 nearest neighbours, C04 structure.
// Every case is one operation history against a real tree, shadowed by a multiset of objects.

import (
	"fmt"
	"math"
	"math/rand/v2"
	"reflect"
	"sort"
	"strconv"
	"strings"

	geo "github.com/hzw456/go-geo"
)

type stored struct {
	sp  geo.Spatial
	bb  box
	key string
}

type treeSim struct {
	c         *Case
	t         *geo.Rtree
	model     []stored
	min, max  int
	cg        coordGen
	kinds     []string
	pointless bool // some objects have no points
	dupIDs    int  // size of the ID pool; 0: IDs are unique
	small     bool
	tokens    int
	inserts   bool // built by insertion alone
	bulk      bool // built by bulk loading alone
	deletes   int
	held      []heldAnswer           // answers the caller still looks at
	pool      map[string]geo.Spatial // copies of everything ever inserted, for deletes of absent objects
}

type heldAnswer struct {
	got []geo.Spatial
	ids string
}

func idList(got []geo.Spatial) string {
	var b strings.Builder
	for _, g := range got {
		b.WriteString(g.ID)
		b.WriteByte(' ')
	}
	return b.String()
}

type propStruct struct {
	Tok int
	S   string
}

// newObj makes an object that is distinguishable from every other one by its properties.
func (s *treeSim) newObj() geo.Spatial {
	r := s.c.R
	s.tokens++
	kind := s.kinds[r.IntN(len(s.kinds))]
	g := s.geom(kind)
	if s.pointless && r.IntN(6) == 0 {
		g = []geo.Geometry{geo.LineString{}, geo.MultiPoint{}, geo.Polygon{}, geo.MultiPolygon{}, geo.LineStringZ{}, geo.MultiLineString{}, geo.PolygonZ{}}[r.IntN(7)]
		s.c.Ev("objects without points")
	}
	var pr any
	switch r.IntN(6) {
	case 0:
		pr = map[string]interface{}{"tok": s.tokens}
	case 1:
		pr = []int{s.tokens}
	case 2:
		pr = "tok" + strconv.Itoa(s.tokens)
	case 3:
		pr = propStruct{s.tokens, "x"}
	default:
		pr = s.tokens
	}
	id := "id" + strconv.Itoa(s.tokens)
	if s.dupIDs > 0 {
		id = "id" + strconv.Itoa(r.IntN(s.dupIDs))
	}
	if r.IntN(60) == 0 {
		id = ""
	}
	return geo.Spatial{ID: id, Properties: pr, Geom: g}
}

func (s *treeSim) geom(kind string) geo.Geometry {
	if !s.small {
		return genGeom(s.c.R, kind, s.cg)
	}
	// a local geometry: around one position
	ox, oy := s.cg(s.c.R), s.cg(s.c.R)
	n := 0
	sz := float64(s.c.R.IntN(4))
	return genGeom(s.c.R, kind, func(r *rand.Rand) float64 {
		n++
		d := float64(r.IntN(3)) * sz
		switch kind[len(kind)-1] {
		case 'Z':
			switch n % 3 {
			case 1:
				return ox + d
			case 2:
				return oy + d
			}
			return d
		}
		if n%2 == 1 {
			return ox + d
		}
		return oy + d
	})
}

// copySp copies an object deeply, so that nothing is shared with what the tree holds.
func copySp(sp geo.Spatial) geo.Spatial {
	c := sp
	c.Geom = deepCopy(reflect.ValueOf(sp.Geom)).Interface().(geo.Geometry)
	if sp.Properties != nil {
		c.Properties = deepCopy(reflect.ValueOf(sp.Properties)).Interface()
	}
	return c
}

func deepCopy(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		o := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			o.Index(i).Set(deepCopy(v.Index(i)))
		}
		return o
	case reflect.Map:
		o := reflect.MakeMap(v.Type())
		for _, k := range v.MapKeys() {
			o.SetMapIndex(k, deepCopy(v.MapIndex(k)))
		}
		return o
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		o := reflect.New(v.Type()).Elem()
		o.Set(deepCopy(v.Elem()))
		return o
	}
	return v
}

func spKey(sp geo.Spatial) string {
	return fmt.Sprintf("%q|%v|%T%v", sp.ID, sp.Properties, sp.Geom, sp.Geom)
}

func (s *treeSim) add(sp geo.Spatial) {
	own := copySp(sp)
	k := spKey(own)
	s.model = append(s.model, stored{own, boxOf(own.Geom), k})
	s.pool[k] = own
}

func (s *treeSim) removeAt(i int) {
	s.model[i] = s.model[len(s.model)-1]
	s.model = s.model[:len(s.model)-1]
}

func (s *treeSim) logf(f string, a ...any) { s.c.log = append(s.c.log, fmt.Sprintf(f, a...)) }

// multiset comparison of a result with the expected objects
func (s *treeSim) same(got []geo.Spatial, want []stored, what string) {
	cnt := map[string]int{}
	for i := range want {
		cnt[want[i].key]++
	}
	for _, g := range got {
		k := spKey(g)
		cnt[k]--
		if cnt[k] < 0 {
			s.c.Failf("%s: returned %s more often than it is stored and matching (returned %d objects, expected %d)", what, k, len(got), len(want))
		}
	}
	for k, v := range cnt {
		if v > 0 {
			s.c.Failf("%s: %s is stored and matches but was not returned (returned %d objects, expected %d)", what, k, len(got), len(want))
		}
	}
}

// scribble overwrites an answer after it was judged: answers belong to the caller.
func (s *treeSim) scribble(got []geo.Spatial) {
	if s.c.R.IntN(3) > 0 {
		if s.c.R.IntN(2) == 0 && len(got) > 0 && len(got) < 300 { // or kept for a while
			if len(s.held) > 4 {
				s.reread()
			}
			s.held = append(s.held, heldAnswer{got, idList(got)})
		}
		return
	}
	junk := geo.Spatial{ID: "scribbled", Geom: geo.Point{X: 4e5, Y: -4e5}}
	full := got[:cap(got)]
	for i := range full {
		full[i] = junk
	}
	if len(got) > 0 {
		s.c.Ev("answers overwritten by the caller")
	}
}

// reread looks again at answers that were kept over other operations.
func (s *treeSim) reread() {
	for _, h := range s.held {
		now := idList(h.got)
		s.c.Check(now == h.ids, "an answer listing %s lists %s after other operations on the tree", trunc(h.ids, 800), trunc(now, 800))
		s.c.Ev("answers read again later")
	}
	s.held = s.held[:0]
}

// noise asks questions whose answers are judged elsewhere; none may change the tree.
func (s *treeSim) noise() {
	r := s.c.R
	for i := r.IntN(3); i > 0; i-- {
		switch r.IntN(6) {
		case 0:
			s.scribble(s.t.SearchIntersect(s.query()))
		case 1:
			s.scribble(s.t.NearestNeighbors(r.IntN(len(s.model)+3), geo.Point{X: s.cg(r), Y: s.cg(r)}))
		case 2:
			s.t.SearchIntersectWithCond(s.query(), func(...geo.Spatial) bool { return false })
		case 3:
			s.scribble(s.t.SearchBySpatialID("id" + strconv.Itoa(r.IntN(s.tokens+2))))
		case 4:
			for _, b := range s.t.GetAllBoundingBoxes() {
				_ = b
			}
			s.t.Depth()
		case 5:
			s.t.DeleteWithComparator(geo.Spatial{ID: "none", Geom: geo.Point{X: s.cg(r), Y: s.cg(r)}}, func(...geo.Spatial) bool { return false })
		}
		s.c.Ev("interposed queries")
	}
}

func (s *treeSim) extent() *geo.Box {
	b := box{0, 0, 0, 0}
	for _, m := range s.model {
		b.x0, b.y0 = math.Min(b.x0, m.bb.x0), math.Min(b.y0, m.bb.y0)
		b.x1, b.y1 = math.Max(b.x1, m.bb.x1), math.Max(b.y1, m.bb.y1)
	}
	return geo.NewBox(b.x0, b.y0, b.x1, b.y1)
}

func (s *treeSim) checkAll(when string) {
	s.c.Check(s.t.Size() == len(s.model), "%s: Size is %d, %d objects are stored", when, s.t.Size(), len(s.model))
	got := s.t.SearchIntersect(s.extent())
	s.same(got, s.placed(), when+": search over the full extent")
	s.scribble(got)
	s.c.Ev("full-extent audits")
}

// placed gives the stored objects that have points.
func (s *treeSim) placed() []stored {
	if !s.pointless {
		return s.model
	}
	var res []stored
	for _, m := range s.model {
		if m.bb.x0 <= m.bb.x1 {
			res = append(res, m)
		}
	}
	return res
}

// query makes a query box: random, degenerate, or aligned with stored boxes so that they just touch.
func (s *treeSim) query() *geo.Box {
	r := s.c.R
	if ms := s.placed(); len(ms) > 0 && r.IntN(2) == 0 {
		a := ms[r.IntN(len(ms))].bb
		b := ms[r.IntN(len(ms))].bb
		switch r.IntN(7) {
		case 0: // corner touch
			return geo.NewBox(a.x1, a.y1, a.x1+math.Abs(s.cg(r)), a.y1+math.Abs(s.cg(r)))
		case 1: // edge touch from the left
			return geo.NewBox(a.x0-1-math.Abs(s.cg(r)), a.y0, a.x0, a.y1)
		case 2: // just beyond the right edge
			x := math.Nextafter(a.x1, math.Inf(1))
			return geo.NewBox(x, a.y0, math.Max(x, a.x1+1), a.y1)
		case 3: // just below
			y := math.Nextafter(a.y0, math.Inf(-1))
			return geo.NewBox(a.x0, math.Min(y, a.y0-1), a.x1, y)
		case 4: // point
			return geo.NewBox(a.x0, a.y1, a.x0, a.y1)
		case 5: // inside
			return geo.NewBox(a.x0, a.y0, (a.x0+a.x1)/2, (a.y0+a.y1)/2)
		case 6: // spanning two
			return geo.NewBox(math.Min(a.x0, b.x0), math.Min(a.y0, b.y0), math.Max(a.x1, b.x1), math.Max(a.y1, b.y1))
		}
	}
	x0, x1, y0, y1 := s.cg(r), s.cg(r), s.cg(r), s.cg(r)
	switch r.IntN(6) {
	case 0:
		x1 = x0
	case 1:
		y1 = y0
	case 2:
		x1, y1 = x0, y0
	}
	return geo.NewBox(math.Min(x0, x1), math.Min(y0, y1), math.Max(x0, x1), math.Max(y0, y1))
}

func (s *treeSim) checkSearch() {
	r := s.c.R
	q := s.query()
	qb := toBox(q)
	var want []stored
	for _, m := range s.model {
		if m.bb.meets(qb) {
			want = append(want, m)
		}
	}
	what := fmt.Sprintf("SearchIntersect(%+v)", *q)
	all := s.t.SearchIntersect(q)
	s.same(all, want, what)
	s.scribble(all)
	s.c.Ev("range searches")
	if len(want) > 0 && len(want) < len(s.model) {
		s.c.Ev("range searches selecting a part")
		if s.t.Depth() >= 3 {
			s.c.Ev("partial searches in trees of depth 3 or more")
		}
		s.c.NT(fmt.Sprintf("%v %d/%d %v", s.c.Idx, len(want), len(s.model), *q))
	}
	for _, m := range want {
		if m.bb.x0 == qb.x1 || m.bb.x1 == qb.x0 || m.bb.y0 == qb.y1 || m.bb.y1 == qb.y0 {
			s.c.Ev("matches by touching only")
			break
		}
	}
	if r.IntN(3) == 0 {
		seed := r.Uint32()
		pred := func(k string) bool {
			h := seed
			for i := 0; i < len(k); i++ {
				h = h*16777619 ^ uint32(k[i])
			}
			return h%3 != 0
		}
		calls, nested := 0, r.IntN(4) == 0
		got := s.t.SearchIntersectWithCond(q, func(o ...geo.Spatial) bool {
			calls++
			if nested && calls%3 == 1 { // a filter that asks the same tree
				in := s.t.SearchIntersect(q)
				s.c.Check(len(in) == len(want), "%s from within a filter finds %d objects, expected %d", what, len(in), len(want))
				s.t.NearestNeighbors(2, geo.Point{X: q.MinX, Y: q.MinY})
				s.c.Ev("searches from within a filter")
			}
			return pred(spKey(o[0]))
		})
		var w []stored
		for _, m := range want {
			if pred(m.key) {
				w = append(w, m)
			}
		}
		s.same(got, w, "filtered "+what)
		s.scribble(got)
		s.c.Ev("filtered searches")
	}
	if r.IntN(3) == 0 {
		id := "absent"
		if len(s.model) > 0 && r.IntN(5) > 0 {
			id = s.model[r.IntN(len(s.model))].sp.ID
		}
		var w []stored
		for _, m := range s.model {
			if m.sp.ID == id {
				w = append(w, m)
			}
		}
		s.same(s.t.SearchBySpatialID(id), w, fmt.Sprintf("SearchBySpatialID(%q)", id))
		s.c.Ev("ID searches")
		if len(w) > 1 {
			s.c.Ev("ID searches with several matches")
		}
	}
}

func boxDist(p geo.Point, b box) float64 {
	dx := math.Max(0, math.Max(b.x0-p.X, p.X-b.x1))
	dy := math.Max(0, math.Max(b.y0-p.Y, p.Y-b.y1))
	return math.Hypot(dx, dy)
}

func (s *treeSim) checkNN() {
	r := s.c.R
	n := len(s.model)
	p := geo.Point{X: s.cg(r), Y: s.cg(r)}
	if ms := s.placed(); len(ms) > 0 {
		m := ms[r.IntN(len(ms))].bb
		switch r.IntN(5) {
		case 0: // on or in an object
			p = geo.Point{X: m.x0 + (m.x1-m.x0)/2, Y: m.y0}
		case 1: // beside one
			p = geo.Point{X: m.x1 + 1, Y: m.y0 + (m.y1-m.y0)/2}
		case 2: // far away, where all distances are much alike
			f := math.Pow(10, float64(1+r.IntN(7)))
			if math.Abs(p.X) < 1e7 {
				p = geo.Point{X: p.X + f, Y: p.Y - f*r.Float64()}
			}
		}
	}
	var k int
	switch r.IntN(10) {
	case 0:
		k = 0
	case 1:
		k = n
	case 2:
		k = n + 1 + r.IntN(5)
	case 3:
		k = 1 << (20 + r.IntN(30))
	case 4, 5, 6:
		k = 1 + r.IntN(5)
	default:
		k = r.IntN(n + 1)
	}
	got := s.t.NearestNeighbors(k, p)
	what := fmt.Sprintf("NearestNeighbors(%d, %v) among %d", k, p, n)
	wantN := k
	if n < k {
		wantN = n
	}
	s.c.Check(len(got) == wantN, "%s returned %d objects, expected %d", what, len(got), wantN)
	s.c.Ev("nearest-neighbour queries")
	if k == 0 {
		s.c.Ev("queries for no neighbour")
	}
	if k > n {
		s.c.Ev("queries for more than there are")
	}
	cnt := map[string]int{}
	dist := map[string]float64{}
	all := make([]float64, 0, n)
	for _, m := range s.model {
		cnt[m.key]++
		d := boxDist(p, m.bb)
		dist[m.key] = d
		all = append(all, d)
	}
	sort.Float64s(all)
	prev := 0.0
	i := -1
	for j, g := range got {
		key := spKey(g)
		cnt[key]--
		s.c.Check(cnt[key] >= 0, "%s: result %d is not stored or returned more often than stored: %s", what, j, key)
		d := dist[key]
		if math.IsInf(d, 1) { // without points: where in the order is not judged
			s.c.Ev("objects without points among the neighbours")
			continue
		}
		i++
		s.c.Check(d >= prev-1e-9*(1+prev), "%s: result %d at distance %v follows one at %v", what, i, d, prev)
		s.c.Check(relNear(d, all[i], 1e-9, 1e-9), "%s: result %d is at distance %v, but the %d-th closest object is at %v", what, i, d, i+1, all[i])
		prev = d
	}
	s.scribble(got)
	if wantN > 0 && wantN < n && s.t.Depth() >= 2 {
		s.c.Ev("queries with pruning possible")
		s.c.NT(fmt.Sprintf("%v %d %v", s.c.Idx, k, p))
	}
	if i > 0 && all[0] != all[i] {
		s.c.Ev("answers with several distances")
	}
}

func (s *treeSim) checkStructure(when string) {
	c := s.c
	D := s.t.Depth()
	bs := s.t.GetAllBoundingBoxes()
	n := len(s.model)
	c.Check(D >= 1, "%s: depth is %d", when, D)
	c.Check(s.t.Size() == n, "%s: size is %d, stored are %d", when, s.t.Size(), n)
	if D == 1 {
		c.Check(len(bs) == 0, "%s: a tree of depth 1 reports %d node boxes", when, len(bs))
	}
	c.Check(float64(n) <= math.Pow(float64(s.max), float64(D))*(1+1e-9), "%s: %d objects in depth %d with at most %d per node", when, n, D, s.max)
	if D > 1 {
		c.Check(len(bs)*s.max >= n, "%s: %d node boxes cannot hold %d objects with at most %d per node", when, len(bs), n, s.max)
	}
	if D == 2 {
		c.Check(len(bs) <= s.max, "%s: the root of a tree of depth 2 has %d children, at most %d are allowed", when, len(bs), s.max)
	}
	boxes := make([]box, len(bs))
	span := make([]box, len(bs))
	for i, b := range bs {
		boxes[i] = toBox(b)
		span[i] = box{math.Inf(1), math.Inf(1), math.Inf(-1), math.Inf(-1)}
	}
	for _, m := range s.model {
		in := 0
		for i, b := range boxes {
			if b.x0 <= m.bb.x0 && b.y0 <= m.bb.y0 && m.bb.x1 <= b.x1 && m.bb.y1 <= b.y1 {
				in++
				sp := &span[i]
				sp.x0, sp.y0 = math.Min(sp.x0, m.bb.x0), math.Min(sp.y0, m.bb.y0)
				sp.x1, sp.y1 = math.Max(sp.x1, m.bb.x1), math.Max(sp.y1, m.bb.y1)
			}
		}
		c.Check(in >= D-1, "%s: depth is %d, but only %d of %d node boxes cover %s with box %v", when, D, in, len(bs), m.key, m.bb)
	}
	for i, b := range boxes {
		if s.pointless && b.x0 > b.x1 {
			continue // nothing but objects without points
		}
		c.Check(b == span[i], "%s: node box %v is not spanned by the objects inside it (they span %v)", when, b, span[i])
	}
	if s.inserts && s.min >= 2 && D > 1 && 2*s.min <= s.max+1 {
		c.Check(float64(n) >= 2*math.Pow(float64(s.min), float64(D-1)), "%s: built by insertion, depth is %d for only %d objects with at least %d per node", when, D, n, s.min)
		c.Ev("depth bounds checked (insertion)")
	}
	if s.bulk && n > 1 {
		lim := math.Ceil(math.Log(float64(n))/math.Log(float64(s.max))-1e-9) + 1
		c.Check(float64(D) <= lim, "%s: bulk loaded, depth is %d for %d objects with at most %d per node", when, D, n, s.max)
		c.Ev("depth bounds checked (bulk load)")
	}
	c.Ev("structure audits")
	c.EvN("node boxes audited", len(bs))
	c.Ev("structure audits at depth " + strconv.Itoa(D))
	if D >= 3 {
		c.Ev("structure audits at depth 3 or more")
		c.NT(fmt.Sprint(c.Idx, " ", n, " ", len(bs), " ", D))
	}
}

// build makes the tree by one of the constructors.
func (s *treeSim) build(n int, mode int) {
	r := s.c.R
	var objs []geo.Spatial
	for i := 0; i < n; i++ {
		objs = append(objs, s.newObj())
	}
	switch mode {
	case 0, 1:
		if mode == 0 {
			s.t = geo.NewTree(objs...)
		} else {
			s.t = geo.NewTreeWith(objs...)
		}
		s.min, s.max = s.t.MinChildren, s.t.MaxChildren
		s.inserts, s.bulk = n < 10, n >= 10
		s.logf("%d: NewTree of %d objects (min %d, max %d)", mode, n, s.min, s.max)
	case 2: // random IDs
		var gs []geo.Geometry
		for i := range objs { // found again by their places
			for boxOf(objs[i].Geom).x0 > boxOf(objs[i].Geom).x1 {
				objs[i] = s.newObj()
			}
			gs = append(gs, copySp(objs[i]).Geom)
		}
		s.t = geo.NewRandomIDTree(gs...)
		s.min, s.max = s.t.MinChildren, s.t.MaxChildren
		s.inserts, s.bulk = n < 10, n >= 10
		s.logf("NewRandomIDTree of %d geometries", n)
		s.learn(objs)
		return
	default:
		s.max = 2 + r.IntN(7)
		if r.IntN(8) == 0 {
			s.max = 9 + r.IntN(30)
		}
		s.min = 1 + r.IntN((s.max+1)/2)
		s.inserts, s.bulk = n <= s.max, n > s.max
		if mode == 3 { // all at once
			s.t = geo.NewMinMaxTree(s.min, s.max, objs...)
			s.logf("NewMinMaxTree(%d, %d) of %d objects", s.min, s.max, n)
		} else { // one by one
			s.t = geo.NewMinMaxTree(s.min, s.max)
			for _, o := range objs {
				s.t.Insert(o)
			}
			s.inserts, s.bulk = true, false
			s.logf("NewMinMaxTree(%d, %d), then %d inserts", s.min, s.max, n)
		}
	}
	for _, o := range objs {
		if n <= 60 {
			s.logf("  %s", spKey(o))
		}
		s.add(o)
	}
	// bulk loading must not depend on the caller's slice afterwards
	for i := range objs {
		objs[i] = geo.Spatial{ID: "overwritten", Geom: geo.Point{X: 1e9, Y: 1e9}}
	}
}

// learn adopts the random IDs of objects whose geometries are known: each exactly once, all distinct.
func (s *treeSim) learn(objs []geo.Spatial) {
	ids := map[string]bool{}
	left := map[string]int{}
	for _, m := range s.model {
		ids[m.sp.ID] = true
	}
	known := map[string]int{}
	for _, m := range s.model {
		known[m.key]++
	}
	ext := box{0, 0, 0, 0}
	for _, o := range append(append([]geo.Spatial{}, objs...), s.all()...) {
		b := boxOf(o.Geom)
		ext = box{math.Min(ext.x0, b.x0), math.Min(ext.y0, b.y0), math.Max(ext.x1, b.x1), math.Max(ext.y1, b.y1)}
	}
	for _, o := range objs {
		left[repr(o.Geom)]++
	}
	got := s.t.SearchIntersect(geo.NewBox(ext.x0, ext.y0, ext.x1, ext.y1))
	found := 0
	for _, g := range got {
		if k := spKey(g); known[k] > 0 {
			known[k]--
			continue
		}
		k := repr(g.Geom)
		left[k]--
		s.c.Check(left[k] >= 0, "random-ID tree holds geometry %s more often than inserted", k)
		s.c.Check(!ids[g.ID] || g.ID == "", "random ID %q is used twice", g.ID)
		s.c.Check(g.ID != "", "a random ID is empty")
		ids[g.ID] = true
		s.add(g)
		found++
	}
	s.c.Check(found == len(objs), "of %d geometries inserted under random IDs %d are found", len(objs), found)
	s.c.Ev("random IDs learned")
}

func (s *treeSim) all() []geo.Spatial {
	o := make([]geo.Spatial, len(s.model))
	for i := range o {
		o[i] = s.model[i].sp
	}
	return o
}

func (s *treeSim) find(sp geo.Spatial) int {
	k := spKey(sp)
	for i := range s.model {
		if s.model[i].key == k {
			return i
		}
	}
	return -1
}

// step performs one random update. bias > 0 favours deletion.
func (s *treeSim) step(bias int) {
	r, c := s.c.R, s.c
	s.bulk = false
	n := len(s.model)
	op := r.IntN(20)
	if r.IntN(10) < bias {
		op = 10 + r.IntN(7)
	}
	switch {
	case op < 8:
		sp := s.newObj()
		if n > 0 && r.IntN(12) == 0 { // the very same object again
			sp = copySp(s.model[r.IntN(n)].sp)
			c.Ev("inserts of an object already stored")
		}
		s.logf("Insert(%s)", spKey(sp))
		s.t.Insert(sp)
		s.add(sp)
		c.Ev("inserts")
	case op == 8:
		sp := s.newObj()
		for boxOf(sp.Geom).x0 > boxOf(sp.Geom).x1 {
			sp = s.newObj()
		}
		s.logf("InsertWithRandomId(%s)", repr(sp.Geom))
		s.t.InsertWithRandomId(copySp(sp).Geom)
		s.learn([]geo.Spatial{sp})
		c.Ev("inserts under random IDs")
	case op == 9: // upsert
		m := 1 + r.IntN(3)
		var sps []geo.Spatial
		for i := 0; i < m; i++ {
			sp := s.newObj()
			if len(s.model) > 0 && r.IntN(3) > 0 {
				sp.ID = s.model[r.IntN(len(s.model))].sp.ID
			}
			sps = append(sps, sp)
		}
		for _, sp := range sps {
			s.logf("Upsert(%s)", spKey(sp))
		}
		s.t.UpsertBySpatialID(sps...)
		s.inserts = false
		for _, sp := range sps {
			for i := len(s.model) - 1; i >= 0; i-- {
				if s.model[i].sp.ID == sp.ID {
					s.removeAt(i)
					c.Ev("upserts that replace")
				}
			}
			s.add(sp)
		}
		c.Ev("upserts")
	case op < 15: // delete a stored object
		if n == 0 {
			return
		}
		i := r.IntN(n)
		sp := copySp(s.model[i].sp)
		s.inserts = false
		s.logf("Delete(%s)", spKey(sp))
		c.Check(s.t.Delete(sp), "Delete of the stored object %s reports that it is not there", spKey(sp))
		s.removeAt(i)
		s.deletes++
		c.Ev("deletes")
		if _, ok := sp.Geom.(geo.Point); !ok {
			c.Ev("deletes of slice-backed geometries")
		}
	case op < 17: // delete by ID
		if n == 0 {
			return
		}
		id := s.model[r.IntN(n)].sp.ID
		s.inserts = false
		s.logf("DeleteBySpatialID(%q)", id)
		c.Check(s.t.DeleteBySpatialID(id), "DeleteBySpatialID(%q) reports that there is none", id)
		k := 0
		for i := len(s.model) - 1; i >= 0; i-- {
			if s.model[i].sp.ID == id {
				s.removeAt(i)
				k++
			}
		}
		c.Ev("deletes by ID")
		if k > 1 {
			c.Ev("deletes by ID of several objects")
		}
	case op == 17: // with a comparator that looks at the properties only
		if n == 0 {
			return
		}
		i := r.IntN(n)
		sp := copySp(s.model[i].sp)
		sp.ID = "other"
		key := fmt.Sprint(sp.Properties)
		dup := 0
		for _, m := range s.model {
			if fmt.Sprint(m.sp.Properties) == key {
				dup++
			}
		}
		if dup != 1 {
			return
		}
		s.inserts = false
		s.logf("DeleteWithComparator(%s by properties)", spKey(sp))
		cmp := func(o ...geo.Spatial) bool { return fmt.Sprint(o[0].Properties) == fmt.Sprint(o[1].Properties) }
		if r.IntN(2) == 0 { // one that tells the stored object from the given one
			cmp = func(o ...geo.Spatial) bool {
				return len(o) == 2 && o[0].ID != "other" && o[1].ID == "other" && fmt.Sprint(o[0].Properties) == key
			}
			sp.Properties = "given"
			c.Ev("deletes with an asymmetric comparator")
		}
		ok := s.t.DeleteWithComparator(sp, cmp)
		c.Check(ok, "DeleteWithComparator does not find %s", spKey(sp))
		s.removeAt(i)
		c.Ev("deletes with a comparator")
	default: // deletes that must fail
		var sp geo.Spatial
		switch {
		case n > 0 && r.IntN(4) == 0: // same object under another ID
			sp = copySp(s.model[r.IntN(n)].sp)
			sp.ID += "x"
		case n > 0 && r.IntN(3) == 0: // other properties
			sp = copySp(s.model[r.IntN(n)].sp)
			sp.Properties = "nothing like it"
		case n > 0 && !s.pointless && r.IntN(2) == 0: // other geometry with the same box
			m := s.model[r.IntN(n)]
			sp = copySp(m.sp)
			sp.Geom = geo.LineString{{X: m.bb.x0, Y: m.bb.y0}, {X: m.bb.x1, Y: m.bb.y1}, {X: m.bb.x0, Y: m.bb.y1}, {X: m.bb.x1, Y: m.bb.y0}}
		default: // deleted earlier, or never stored
			sp = s.newObj()
			keys := make([]string, 0, len(s.pool))
			for k := range s.pool {
				keys = append(keys, k)
			}
			if len(keys) > 0 && len(keys) < 300 {
				sort.Strings(keys)
				sp = copySp(s.pool[keys[r.IntN(len(keys))]])
			}
		}
		if s.find(sp) >= 0 {
			return
		}
		s.logf("Delete(absent %s)", spKey(sp))
		c.Check(!s.t.Delete(sp), "Delete of %s, which is not stored, reports success", spKey(sp))
		c.Ev("deletes of absent objects")
		id := "no-such-id"
		if r.IntN(2) == 0 {
			id = sp.ID
		}
		for _, m := range s.model {
			if m.sp.ID == id {
				return
			}
		}
		s.logf("DeleteBySpatialID(absent %q)", id)
		c.Check(!s.t.DeleteBySpatialID(id), "DeleteBySpatialID(%q) reports success, but there is none", id)
	}
}

func newSim(c *Case) *treeSim {
	r := c.R
	s := &treeSim{c: c, pool: map[string]geo.Spatial{}}
	far := false // beyond 2^31, where the library's box of no points lies
	switch r.IntN(8) {
	case 0:
		s.cg = cgSmallInt(4)
	case 1, 2:
		s.cg = cgSmallInt(30)
	case 3:
		s.cg = cgUniform(-180, 180)
	case 4:
		s.cg = cgUniform(100000, 9000000)
	case 5:
		s.cg, far = cgUniform(-1e12, 1e12), true
	default:
		s.cg = cgSmallInt(200)
	}
	s.small = r.IntN(4) > 0
	s.pointless = !far && r.IntN(8) == 0
	switch r.IntN(4) {
	case 0:
		s.kinds = []string{"Point"}
	case 1:
		s.kinds = kinds2
	default:
		s.kinds = kindsAll
	}
	if r.IntN(3) > 0 {
		s.dupIDs = 0
	} else {
		s.dupIDs = 2 + r.IntN(12)
	}
	c.Desc(func() string {
		return fmt.Sprintf("tree min %d max %d, %d objects now, kinds %v", s.min, s.max, len(s.model), s.kinds)
	})
	return s
}

func (s *treeSim) pickN() int {
	r := s.c.R
	switch r.IntN(6) {
	case 0:
		return r.IntN(4)
	case 1:
		return 9 + r.IntN(5)
	case 2, 3:
		return 5 + r.IntN(40)
	default:
		return 20 + r.IntN(150)
	}
}

// history runs phases of growth and shrinkage; check is called after every update.
func history(c *Case, steps int, check func(s *treeSim, when string)) *treeSim {
	s := newSim(c)
	s.build(s.pickN(), s.c.R.IntN(6))
	check(s, "after building")
	bias := 0
	for i := 0; i < steps; i++ {
		if i%15 == 0 {
			bias = c.R.IntN(10)
		}
		s.step(bias)
		if c.R.IntN(3) == 0 {
			s.noise()
		}
		check(s, "after step "+strconv.Itoa(i))
	}
	c.Ev("histories")
	return s
}

// drain removes everything, then uses the tree again.
func drain(s *treeSim, check func(s *treeSim, when string)) {
	c := s.c
	s.inserts, s.bulk = false, false
	for len(s.model) > 0 {
		i := c.R.IntN(len(s.model))
		sp := copySp(s.model[i].sp)
		s.logf("Delete(%s)", spKey(sp))
		c.Check(s.t.Delete(sp), "Delete of the stored object %s reports that it is not there", spKey(sp))
		s.removeAt(i)
		check(s, fmt.Sprintf("draining, %d left", len(s.model)))
	}
	c.Ev("trees emptied")
	if c.R.IntN(2) == 0 {
		c.Check(!s.t.DeleteBySpatialID("id1"), "DeleteBySpatialID on an emptied tree reports success")
		c.Check(len(s.t.SearchBySpatialID("id1")) == 0, "an emptied tree still finds something")
	}
	n := c.R.IntN(3 * s.max)
	for i := 0; i < n; i++ {
		sp := s.newObj()
		s.logf("Insert(%s)", spKey(sp))
		s.t.Insert(sp)
		s.add(sp)
		check(s, "reusing the emptied tree")
	}
	if n > 0 {
		c.Ev("emptied trees used again")
	}
}

func treeFamilies(check func(s *treeSim, when string), q int) []Family {
	return []Family{
		{"histories", q, q * 25, func(c *Case) { history(c, 40+c.R.IntN(60), check) }},
		{"drain-and-reuse", q / 2, q * 12, func(c *Case) {
			s := newSim(c)
			s.build(c.R.IntN(60), c.R.IntN(6))
			check(s, "after building")
			drain(s, check)
			if c.R.IntN(3) == 0 {
				drain(s, check)
			}
		}},
		{"bulk-then-insert", q / 2, q * 12, func(c *Case) {
			s := newSim(c)
			s.build(11+c.R.IntN(120), []int{0, 3, 3, 3, 2}[c.R.IntN(5)])
			check(s, "after bulk loading")
			s.bulk = false
			for i := c.R.IntN(60); i >= 0; i-- {
				sp := s.newObj()
				s.logf("Insert(%s)", spKey(sp))
				s.t.Insert(sp)
				s.add(sp)
				check(s, "inserting into a bulk-loaded tree")
				c.Ev("inserts after bulk load")
			}
		}},
		{"build-only", q, q * 25, func(c *Case) {
			s := newSim(c)
			n := s.pickN()
			if c.R.IntN(3) == 0 { // exact powers of the fan-out and their neighbours
				s.build(0, 5)
				m := s.max
				n = m
				for n*m < 600 && c.R.IntN(3) > 0 {
					n *= m
				}
				n += c.R.IntN(3) - 1
				min := s.min
				s = newSim(c)
				var objs []geo.Spatial
				for i := 0; i < n; i++ {
					objs = append(objs, s.newObj())
				}
				s.min, s.max = min, m
				s.t = geo.NewMinMaxTree(min, m, objs...)
				s.inserts, s.bulk = n <= m, n > m
				for _, o := range objs {
					s.add(o)
				}
				s.logf("NewMinMaxTree(%d, %d) of %d objects", min, m, n)
			} else {
				s.build(n, c.R.IntN(5))
			}
			for i := 0; i < 6; i++ {
				check(s, "after building")
			}
		}},
		{"several-trees", q / 4, q * 6, func(c *Case) {
			// trees that share objects but nothing else
			var ss []*treeSim
			for i := 2 + c.R.IntN(3); i > 0; i-- {
				s := newSim(c)
				s.pointless = false // the trees share objects
				s.build(s.pickN()/2, c.R.IntN(6))
				check(s, "after building")
				ss = append(ss, s)
			}
			for i := 0; i < 80; i++ {
				a, b := ss[c.R.IntN(len(ss))], ss[c.R.IntN(len(ss))]
				if a != b && len(b.model) > 0 && c.R.IntN(4) == 0 {
					sp := b.model[c.R.IntN(len(b.model))].sp
					a.logf("Insert(%s) from another tree", spKey(sp))
					a.inserts, a.bulk = a.inserts && !a.bulk, false
					a.t.Insert(sp)
					a.add(sp)
				} else {
					a.step(c.R.IntN(10))
				}
				a.noise()
				check(a, "several trees, step "+strconv.Itoa(i))
				check(b, "several trees, after a step on another, "+strconv.Itoa(i))
			}
			c.Ev("histories of several trees")
		}},
		{"marathon", max(1, q/40), q, func(c *Case) {
			s := newSim(c)
			s.build(s.pickN(), c.R.IntN(6))
			steps := 1500
			if c.Thorough {
				steps = 6000
			}
			for i := 0; i < steps; i++ {
				if len(s.c.log) > 400 { // keep the tail of the history
					s.c.log = append(s.c.log[:0], s.c.log[200:]...)
				}
				bias := 0
				if len(s.model) > 250 || i/150%3 == 2 {
					bias = 8
				}
				s.step(bias)
				if i%5 == 0 {
					s.noise()
				}
				if i%12 == 0 {
					check(s, "after step "+strconv.Itoa(i))
				}
			}
			for i := 0; i < 5; i++ {
				check(s, "after the last step")
			}
			c.Ev("long histories")
		}},
		{"large", 8, 160, func(c *Case) {
			s := newSim(c)
			s.kinds, s.small = []string{"Point", "LineString"}, true
			s.build(1200+c.R.IntN(2500), []int{0, 1, 2, 3, 4, 5, 3, 4}[c.Idx%8])
			for i := 0; i < 12; i++ {
				check(s, "after building")
			}
			for i := 0; i < 200; i++ {
				s.step(6)
				if i%20 == 0 {
					check(s, "after step "+strconv.Itoa(i))
				}
			}
		}},
	}
}

// orderedSpot is the i-th of n places of an orderly sequence.
func orderedSpot(shape int, i, n int, ratio float64) (x, y, w, h float64) {
	f := float64(i)
	switch shape {
	case 0: // ever closer to a corner
		d := math.Pow(ratio, -f)
		return d, 0, 0, 0
	case 1: // ever farther from a corner
		d := math.Pow(ratio, f)
		return d, d, 0, 0
	case 2: // boxes around each other
		d := math.Pow(ratio, f)
		return -d, -d, 2 * d, 2 * d
	case 3: // boxes within each other
		d := math.Pow(ratio, -f)
		return -d, -d, 2 * d, 2 * d
	case 4: // both ways from the middle in turn
		d := math.Pow(ratio, f)
		if i%2 == 1 {
			d = -d
		}
		return d, 0, 0, 0
	case 5: // a raster
		k := 1 + int(math.Sqrt(float64(n)))
		return float64(i % k), float64(i / k), 0, 0
	case 6: // along a line
		return f, 3, 0, 0
	case 7: // thin bars across each other
		if i%2 == 0 {
			return f, -1000, 0, 2000
		}
		return -1000, f, 2000, 0
	case 8: // all at one place
		return 5, 5, 0, 0
	default: // a spiral
		return f * math.Cos(f), f * math.Sin(f), 0, 0
	}
}

// sequenceFamily inserts orderly sequences, and takes them out in order.
func sequenceFamily(check func(s *treeSim, when string), q int) Family {
	return Family{"sequences", q, q * 20, func(c *Case) {
		r := c.R
		s := newSim(c)
		s.max = 3 + r.IntN(6)
		s.min = 1 + r.IntN((s.max+1)/2)
		if r.IntN(2) == 0 {
			s.min = (s.max + 1) / 2
		}
		copies := r.IntN(4) == 0 // long runs of equal objects, in nodes that hold many
		if copies {
			s.max = 3 + r.IntN(60)
			s.min = 1 + r.IntN((s.max+1)/2)
		}
		s.t = geo.NewMinMaxTree(s.min, s.max)
		s.inserts = true
		shape, n := r.IntN(10), 20+r.IntN(160)
		ratio := []float64{1.05, 1.3, 2, 2.2}[r.IntN(4)]
		flip, swap, back := r.IntN(2) == 0, r.IntN(2) == 0, r.IntN(2) == 0
		s.logf("NewMinMaxTree(%d, %d), sequence %d of %d, ratio %v, flipped %v, swapped %v, backwards %v", s.min, s.max, shape, n, ratio, flip, swap, back)
		for i := 0; i < n; i++ {
			k := i
			if back {
				k = n - 1 - i
			}
			x, y, w, h := orderedSpot(shape, k, n, ratio)
			if flip {
				x, w = -x, -w
			}
			if swap {
				x, y, w, h = y, x, h, w
			}
			var g geo.Geometry = geo.Point{X: x, Y: y}
			if w != 0 || h != 0 || r.IntN(4) == 0 {
				g = geo.LineString{{X: x, Y: y}, {X: x + w, Y: y + h}}
			}
			sp := s.newObj()
			sp.Geom = g
			if copies && i > 0 && r.IntN(40) > 0 {
				sp = copySp(s.model[len(s.model)-1].sp)
			}
			if i == 0 || !copies {
				s.logf("insert %s", spKey(sp))
			}
			s.t.Insert(copySp(sp))
			s.add(sp)
			if !copies || i%5 == 0 {
				check(s, fmt.Sprintf("after %d inserts", i+1))
			}
		}
		c.Ev("orderly sequences inserted")
		if copies {
			c.Ev("long runs of equal objects")
			if r.IntN(2) == 0 { // the same objects loaded at once
				var objs []geo.Spatial
				for _, m := range s.model {
					objs = append(objs, copySp(m.sp))
				}
				s.t = geo.NewMinMaxTree(s.min, s.max, objs...)
				s.inserts, s.bulk = n <= s.max, n > s.max
				check(s, "after loading all at once")
			}
		}
		order := r.IntN(3)
		s.logf("deletes in order %d", order)
		for len(s.model) > 0 {
			i := 0
			switch order {
			case 1:
				i = len(s.model) - 1
			case 2:
				i = len(s.model) / 2
			}
			sp := copySp(s.model[i].sp)
			s.inserts, s.bulk = false, false
			c.Check(s.t.Delete(sp), "Delete of the stored object %s reports that it is not there", spKey(sp))
			s.model = append(s.model[:i], s.model[i+1:]...)
			check(s, fmt.Sprintf("after deletes down to %d", len(s.model)))
		}
		c.Ev("orderly sequences deleted")
	}}
}

func overflowFamily(check func(s *treeSim, when string), q int) Family {
	return Family{"huge-coordinates", q, q * 20, func(c *Case) {
		s := newSim(c)
		m := []float64{1e100, 1e155, 1e200, 1e300}[c.R.IntN(4)]
		s.cg, s.pointless = cgUniform(-m, m), false
		s.small = false
		s.build(c.R.IntN(50), c.R.IntN(6))
		check(s, "after building")
		for i := 0; i < 30; i++ {
			s.step(4)
			check(s, "after step "+strconv.Itoa(i))
		}
		c.Ev("histories with overflowing areas")
	}}
}

func init() {
	srch := func(s *treeSim, when string) {
		if s.c.R.IntN(3) == 0 || len(s.model) < 4 {
			s.checkSearch()
		}
	}
	register(&Prop{ID: "C01", Rule: "one case is one operation history on a tree (constructor, fan-out, kinds, coordinate regime drawn from the case seed); non-trivial: a range search that selects some but not all stored objects, keyed by history, query box and counts",
		Must:     []string{"range searches selecting a part", "filtered searches", "ID searches with several matches", "partial searches in trees of depth 3 or more", "matches by touching only", "inserts after bulk load", "histories with overflowing areas", "searches from within a filter", "answers overwritten by the caller", "answers read again later", "interposed queries", "histories of several trees", "long histories", "orderly sequences inserted", "orderly sequences deleted", "long runs of equal objects"},
		Assume:   []string{"object identity is observed through ID, properties and geometry", "geometries have at least one point; query boxes have min <= max"},
		Families: append(treeFamilies(srch, 160), overflowFamily(srch, 40), sequenceFamily(srch, 12))})
	cons := func(s *treeSim, when string) {
		s.c.Check(s.t.Size() == len(s.model), "%s: Size is %d, %d objects are stored", when, s.t.Size(), len(s.model))
		s.c.NT(fmt.Sprint(s.c.Idx, len(s.c.log), len(s.model)))
		if s.c.R.IntN(5) == 0 || len(s.model) < 6 {
			s.checkAll(when)
		}
	}
	cf := treeFamilies(cons, 160)
	for i := range cf {
		run := cf[i].Run
		cf[i].Run = func(c *Case) { run(c) }
	}
	register(&Prop{ID: "C02", Rule: "one case is one operation history shadowed by a multiset model; non-trivial: an audited state, keyed by history, step and number of objects",
		Must: []string{"full-extent audits", "inserts", "deletes", "deletes of slice-backed geometries", "deletes by ID of several objects", "upserts that replace", "deletes of absent objects",
			"trees emptied", "emptied trees used again", "inserts after bulk load", "deletes with a comparator", "inserts of an object already stored", "random IDs learned", "answers overwritten by the caller", "answers read again later", "interposed queries", "histories of several trees", "long histories", "orderly sequences inserted", "orderly sequences deleted", "long runs of equal objects"},
		Assume:   []string{"contents are observed through a search over the full extent"},
		Families: append(cf, sequenceFamily(cons, 12))})
	nn := func(s *treeSim, when string) {
		if s.c.R.IntN(3) == 0 || len(s.model) < 4 {
			s.checkNN()
		}
	}
	register(&Prop{ID: "C03", Rule: "one case is one operation history with nearest-neighbour queries after updates; non-trivial: a query for some but not all objects of a tree of several levels, keyed by history, k and point",
		Must:     []string{"nearest-neighbour queries", "queries for no neighbour", "queries for more than there are", "queries with pruning possible", "answers with several distances", "answers overwritten by the caller", "answers read again later", "histories of several trees", "long histories", "orderly sequences inserted", "orderly sequences deleted", "long runs of equal objects"},
		Assume:   []string{"distances are compared within 1e-9 relative; objects at equal distance may come in any order"},
		Families: append(treeFamilies(nn, 120), sequenceFamily(nn, 12))})
	st := func(s *treeSim, when string) {
		if s.c.R.IntN(4) == 0 || len(s.model) < 6 {
			s.checkStructure(when)
		}
	}
	register(&Prop{ID: "C04", Rule: "one case is one operation history with audits of depth and node boxes; non-trivial: an audit of a tree of depth 3 or more, keyed by history, size, number of node boxes and depth",
		Must:     []string{"structure audits at depth 3 or more", "structure audits at depth 1", "structure audits at depth 2", "depth bounds checked (insertion)", "depth bounds checked (bulk load)", "trees emptied", "histories of several trees", "long histories", "orderly sequences inserted", "orderly sequences deleted", "long runs of equal objects"},
		Assume:   []string{"structure is observed through Depth, Size and GetAllBoundingBoxes only"},
		Families: append(treeFamilies(st, 120), sequenceFamily(st, 30))})
}
