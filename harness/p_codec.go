package main

// Monitors of the codecs: C07, C08 (WKT), C09, C10, C11 (GeoJSON).

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/rand/v2"
	"reflect"
	"regexp"
	"strconv"
	"strings"

	geo "github.com/hzw456/go-geo"
	"github.com/hzw456/go-geo/geojson"
	"github.com/hzw456/go-geo/wkt"
)

// codecCoords draws a coordinate regime.
func codecCoords(r *rand.Rand) (coordGen, string) {
	switch r.IntN(4) {
	case 0:
		return cgSmallInt(10), "small integers"
	case 1:
		return cgUniform(-180, 180), "degrees"
	default:
		return cgExtreme, "extreme"
	}
}

// codecGeom is genGeom with, now and then, many parts or long parts, and sub-slices with spare capacity.
func codecGeom(r *rand.Rand, kind string, cg coordGen) geo.Geometry {
	g := codecGeomDistinct(r, kind, cg)
	if r.IntN(4) == 0 {
		g = repeatParts(r, g)
	}
	return g
}

func codecGeomDistinct(r *rand.Rand, kind string, cg coordGen) geo.Geometry {
	if r.IntN(6) == 0 {
		switch kind {
		case "MultiPoint":
			return geo.MultiPoint(gpts(r, cg, 8, 120))
		case "MultiPointZ":
			return geo.MultiPointZ(gptsZ(r, cg, 8, 120))
		case "LineString":
			return geo.LineString(gpts(r, cg, 8, 120))
		case "LineStringZ":
			return geo.LineStringZ(gptsZ(r, cg, 8, 120))
		case "MultiLineString":
			var m geo.MultiLineString
			for i := 2 + r.IntN(20); i > 0; i-- {
				m = append(m, geo.LineString(gpts(r, cg, 2, 4)))
			}
			return m
		case "MultiLineStringZ":
			var m geo.MultiLineStringZ
			for i := 2 + r.IntN(20); i > 0; i-- {
				m = append(m, geo.LineStringZ(gptsZ(r, cg, 2, 4)))
			}
			return m
		case "Polygon":
			var m geo.Polygon
			for i := 2 + r.IntN(12); i > 0; i-- {
				m = append(m, gring(r, cg))
			}
			return m
		case "PolygonZ":
			var m geo.PolygonZ
			for i := 2 + r.IntN(12); i > 0; i-- {
				m = append(m, gringZ(r, cg))
			}
			return m
		case "MultiPolygon":
			var m geo.MultiPolygon
			for i := 5 + r.IntN(12); i > 0; i-- {
				m = append(m, genGeom(r, "Polygon", cg).(geo.Polygon))
			}
			return m
		case "MultiPolygonZ":
			var m geo.MultiPolygonZ
			for i := 5 + r.IntN(12); i > 0; i-- {
				m = append(m, genGeom(r, "PolygonZ", cg).(geo.PolygonZ))
			}
			return m
		}
	}
	return genGeom(r, kind, cg)
}

func is3D(kind string) bool { return strings.HasSuffix(kind, "Z") }

// nesting is the depth of coordinate lists above the tuples of the kind.
func nesting(kind string) int {
	switch strings.TrimSuffix(kind, "Z") {
	case "Point":
		return 0
	case "MultiPoint", "LineString":
		return 1
	case "MultiLineString", "Polygon":
		return 2
	}
	return 3
}

func sameGeom(a, b geo.Geometry) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return reflect.TypeOf(a) == reflect.TypeOf(b) && reflect.DeepEqual(nested(a), nested(b))
}

func partsOf(g geo.Geometry) int {
	if v := reflect.ValueOf(g); v.Kind() == reflect.Slice {
		return v.Len()
	}
	return 1
}

// ---- an independent strict WKT reader

var wktNum = regexp.MustCompile(`^[-+]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][-+]?[0-9]+)?$`)

type wktReader struct {
	s string
	i int
}

func (p *wktReader) ws() {
	for p.i < len(p.s) && strings.ContainsRune(" \t\n\r", rune(p.s[p.i])) {
		p.i++
	}
}

func (p *wktReader) eat(c byte) bool {
	p.ws()
	if p.i < len(p.s) && p.s[p.i] == c {
		p.i++
		return true
	}
	return false
}

func (p *wktReader) word() string {
	p.ws()
	j := p.i
	for p.i < len(p.s) && (p.s[p.i] >= 'A' && p.s[p.i] <= 'Z') {
		p.i++
	}
	return p.s[j:p.i]
}

func (p *wktReader) tuple() ([]any, error) {
	var t []any
	for {
		p.ws()
		j := p.i
		for p.i < len(p.s) && !strings.ContainsRune(" \t\n\r(),", rune(p.s[p.i])) {
			p.i++
		}
		if j == p.i {
			break
		}
		w := p.s[j:p.i]
		if !wktNum.MatchString(w) {
			return nil, fmt.Errorf("%q is no number", w)
		}
		f, err := strconv.ParseFloat(w, 64)
		if err != nil {
			return nil, err
		}
		t = append(t, f)
	}
	if len(t) < 2 || len(t) > 3 {
		return nil, fmt.Errorf("position with %d ordinates at %d", len(t), p.i)
	}
	return t, nil
}

// list reads a parenthesised list nested depth deep above tuples.
func (p *wktReader) list(depth int, paren bool) ([]any, error) {
	if !p.eat('(') {
		return nil, fmt.Errorf("no ( at %d", p.i)
	}
	var l []any
	for {
		var m []any
		var err error
		if depth > 1 {
			m, err = p.list(depth-1, false)
		} else {
			in := paren && p.eat('(')
			m, err = p.tuple()
			if err == nil && in && !p.eat(')') {
				err = fmt.Errorf("no ) at %d", p.i)
			}
		}
		if err != nil {
			return nil, err
		}
		l = append(l, m)
		if p.eat(',') {
			continue
		}
		if p.eat(')') {
			return l, nil
		}
		return nil, fmt.Errorf("no , or ) at %d", p.i)
	}
}

// readWKT gives kind (without Z) and coordinates of a well-formed text.
func readWKT(s string) (string, any, error) {
	p := &wktReader{s: s}
	kw := p.word()
	save := p.i
	if p.word() != "Z" {
		p.i = save
	}
	names := map[string]string{}
	for _, k := range kinds2 {
		names[strings.ToUpper(k)] = k
	}
	kind, ok := names[kw]
	if !ok {
		return "", nil, fmt.Errorf("unknown keyword %q", kw)
	}
	var c any
	var err error
	if kind == "Point" {
		if !p.eat('(') {
			return "", nil, fmt.Errorf("no (")
		}
		c, err = p.tuple()
		if err == nil && !p.eat(')') {
			err = fmt.Errorf("no )")
		}
	} else {
		c, err = p.list(nesting(kind), kind == "MultiPoint")
	}
	if err != nil {
		return "", nil, err
	}
	p.ws()
	if p.i != len(s) {
		return "", nil, fmt.Errorf("trailing text at %d", p.i)
	}
	return kind, c, nil
}

func wktRoundTrip(c *Case) {
	kind := kindsAll[c.Idx%len(kindsAll)]
	cg, regime := codecCoords(c.R)
	g := codecGeom(c.R, kind, cg)
	c.Desc(func() string { return repr(g) })
	text := wkt.Encode(g)
	name := strings.TrimSuffix(kind, "Z")
	k, coords, err := readWKT(text)
	c.Check(err == nil, "encoded text is not well-formed WKT: %v\n%s", err, trunc(text, 400))
	c.Check(k == name, "a %s is encoded as %s", kind, k)
	c.Check(reflect.DeepEqual(coords, nested(g)), "the encoded text lists other coordinates: %s", trunc(text, 600))
	back, err := wkt.Decode(text)
	c.Check(err == nil, "decoding the encoded text fails: %v\n%s", err, trunc(text, 400))
	c.Check(back != nil && back.Type() == geo.GeometryType(kind), "decoding the encoded %s gives %T", kind, back)
	c.Check(sameGeom(g, back), "decoding the encoded text gives %s, text %s", trunc(repr(back), 500), trunc(text, 500))
	c.Check(wkt.Encode(back) == text, "encoding the decoded geometry gives another text")
	c.Ev("round trips of " + kind)
	c.Ev("coordinates: " + regime)
	if partsOf(g) > 1 {
		c.Ev("geometries of several parts")
	}
	if strings.HasSuffix(name, "olygon") {
		n := 0
		if mp, ok := g.(geo.MultiPolygon); ok {
			for _, p := range mp {
				n = max(n, len(p))
			}
		} else if mp, ok := g.(geo.MultiPolygonZ); ok {
			for _, p := range mp {
				n = max(n, len(p))
			}
		} else {
			n = partsOf(g)
		}
		if n > 1 {
			c.Ev("polygons with holes")
		}
	}
	c.EvN("coordinate tuples compared", len(flatten(g)))
	c.NT(text)
}

// ---- C08

type wktStyle struct {
	r     *rand.Rand
	ws    []string
	paren bool // parenthesised multipoint members
	exp   bool
}

func (s *wktStyle) sp() string { return s.ws[s.r.IntN(len(s.ws))] }
func (s *wktStyle) gap() string {
	for {
		if w := s.sp(); w != "" {
			return w
		}
	}
}

func (s *wktStyle) num(f float64) string {
	if s.exp {
		switch s.r.IntN(4) {
		case 0:
			return strconv.FormatFloat(f, 'e', -1, 64)
		case 1:
			return strconv.FormatFloat(f, 'E', -1, 64)
		case 2:
			return strconv.FormatFloat(f, 'g', -1, 64)
		}
	}
	return strconv.FormatFloat(f, 'f', -1, 64)
}

func (s *wktStyle) tuple(t []any) string {
	var w []string
	for _, f := range t {
		w = append(w, s.num(f.(float64)))
	}
	o := w[0]
	for _, x := range w[1:] {
		o += s.gap() + x
	}
	return o
}

func isTuple(l []any) bool {
	_, ok := l[0].(float64)
	return ok
}

func (s *wktStyle) write(l []any, paren bool) string {
	if isTuple(l) {
		if paren {
			return "(" + s.sp() + s.tuple(l) + s.sp() + ")"
		}
		return s.tuple(l)
	}
	o := "("
	for i, m := range l {
		if i > 0 {
			o += ","
		}
		o += s.sp() + s.write(m.([]any), paren) + s.sp()
	}
	return o + ")"
}

// text writes a geometry's coordinates as WKT in the style.
func (s *wktStyle) text(name string, coords []any) string {
	if name == "Point" {
		return s.sp() + "POINT" + s.sp() + "(" + s.sp() + s.tuple(coords) + s.sp() + ")" + s.sp()
	}
	return s.sp() + strings.ToUpper(name) + s.sp() + s.write(coords, name == "MultiPoint" && s.paren) + s.sp()
}

var wsSets = [][]string{{"", " "}, {"", " ", "  "}, {" "}, {"", " ", "\t", "\n", "\r\n", " \n "}, {" ", "   ", "\t"}}

// cloneNested copies nested coordinate lists.
func cloneNested(v any) any {
	if l, ok := v.([]any); ok {
		o := make([]any, len(l))
		for i := range l {
			o[i] = cloneNested(l[i])
		}
		return o
	}
	return v
}

// tuplesOf lists the coordinate tuples of nested lists (shared).
func tuplesOf(v []any) [][]any {
	if isTuple(v) {
		return [][]any{v}
	}
	var o [][]any
	for _, m := range v {
		o = append(o, tuplesOf(m.([]any))...)
	}
	return o
}

func wktVariants(c *Case) {
	kind := kindsAll[c.Idx%len(kindsAll)]
	name := strings.TrimSuffix(kind, "Z")
	cg, _ := codecCoords(c.R)
	g := codecGeom(c.R, kind, cg)
	st := &wktStyle{r: c.R, ws: wsSets[c.R.IntN(len(wsSets))], paren: c.R.IntN(2) == 0, exp: c.R.IntN(2) == 0}
	coords := cloneNested(nested(g)).([]any)
	unclosed := false
	if strings.HasSuffix(name, "olygon") && c.R.IntN(2) == 0 { // leave rings open; they come back closed
		var open func(l []any)
		open = func(l []any) {
			for i, m := range l {
				ring := m.([]any)
				if !isTuple(ring[0].([]any)) {
					open(ring)
					continue
				}
				a, b := ring[0].([]any), ring[len(ring)-2].([]any)
				// only if the second last vertex is clearly another point
				far := false
				for k := range a {
					if math.Abs(a[k].(float64)-b[k].(float64)) > 1e-5 {
						far = true
					}
				}
				if far && c.R.IntN(3) > 0 {
					l[i] = ring[:len(ring)-1]
					unclosed = true
				}
			}
		}
		open(coords)
	}
	text := st.text(name, coords)
	c.Desc(func() string { return strconv.Quote(text) })
	back, err := wkt.Decode(text)
	c.Check(err == nil, "well-formed text is refused: %v", err)
	c.Check(back != nil && back.Type() == geo.GeometryType(kind), "a %s text decodes to %T", kind, back)
	c.Check(sameGeom(g, back), "decodes to %s instead of %s", trunc(repr(back), 600), trunc(repr(g), 600))
	c.Ev("well-formed variants")
	if unclosed {
		c.Ev("unclosed rings closed")
	}
	if st.paren && name == "MultiPoint" {
		c.Ev("parenthesised multipoint members")
	}
	if st.exp && strings.ContainsAny(text[strings.Index(text, "("):], "eE") {
		c.Ev("exponent notation")
	}
	if strings.ContainsAny(text, "\n\t") {
		c.Ev("tabs and line breaks")
	}
	c.NT(text)
}

var strayTokens = []string{"abc", "1.2.3", "--1", "1,", "1e", "x1", "1;2", "+-3", "1 2 3", ".", "-", "1a", "0..1", "'5'", "null"}

// otherDimension gives every position of some members, but not of all, another dimension.
func otherDimension(r *rand.Rand, coords []any, dim int) bool {
	if isTuple(coords) {
		return false
	}
	var redo func(v []any) []any
	redo = func(v []any) []any {
		if isTuple(v) {
			if len(v) > dim {
				return append([]any{}, v[:dim]...)
			}
			return append(append([]any{}, v...), float64(r.IntN(9)))
		}
		for i := range v {
			v[i] = redo(v[i].([]any))
		}
		return v
	}
	list := coords
	for { // the level whose members differ
		sub := list[r.IntN(len(list))].([]any)
		if isTuple(sub) || len(list) > 1 && r.IntN(2) == 0 {
			break
		}
		list = sub
	}
	if len(list) < 2 {
		return false
	}
	keep := r.IntN(len(list))
	hit := (keep + 1 + r.IntN(len(list)-1)) % len(list)
	few := r.IntN(2) == 0
	for i := range list {
		if i == hit || i != keep && !few {
			list[i] = redo(list[i].([]any))
		}
	}
	return true
}

// wktMalformed breaks the coordinate list of a well-formed text; it must be refused.
func wktMalformed(c *Case) {
	kind := kindsAll[c.Idx%len(kindsAll)]
	name := strings.TrimSuffix(kind, "Z")
	g := genGeom(c.R, kind, cgSmallInt(50))
	st := &wktStyle{r: c.R, ws: wsSets[c.R.IntN(2)]}
	coords := cloneNested(nested(g)).([]any)
	tups := tuplesOf(coords)
	k := c.R.IntN(len(tups))
	dim := len(tups[0])
	const mark = 987654321.0
	var text, what string
	mustFail := true
	render := func() string { return st.text(name, coords) }
	// replaceTuple renders the list with tuple k replaced by raw text
	replaceTuple := func(raw string) string {
		for i := range tups[k] {
			tups[k][i] = mark
		}
		t := render()
		i := strings.Index(t, "987654321")
		j := strings.LastIndex(t, "987654321") + 9
		return t[:i] + raw + t[j:]
	}
	ord := func(n int) string {
		var w []string
		for i := 0; i < n; i++ {
			w = append(w, strconv.Itoa(c.R.IntN(99)))
		}
		return strings.Join(w, " ")
	}
	switch c.R.IntN(10) {
	case 9: // text between a member and its neighbours
		what = "text beside a member"
		text = strings.TrimSpace(render())
		var pos []int
		for i, ch := range text {
			if ch == '(' && i > strings.Index(text, "(") {
				pos = append(pos, i)
			} else if ch == ')' && i < len(text)-1 {
				pos = append(pos, i+1)
			}
		}
		if len(pos) == 0 {
			what, text = "a position with one ordinate", replaceTuple(ord(1))
		} else {
			i := pos[c.R.IntN(len(pos))]
			text = text[:i] + []string{"7", "x", " 1 2 ", "1 2 3", "."}[c.R.IntN(5)] + text[i:]
		}
	case 0:
		what, text = "a position with one ordinate", replaceTuple(ord(1))
	case 1:
		what, text = "a position with too many ordinates", replaceTuple(ord(4+c.R.IntN(3)))
	case 2:
		if len(tups) < 2 {
			what, text = "a position with one ordinate", replaceTuple(ord(1))
		} else if c.R.IntN(2) == 0 && otherDimension(c.R, coords, 5-dim) {
			what, text = "a whole member of another dimension", render()
		} else {
			what, text = "positions of different dimensions", replaceTuple(ord(5-dim))
		}
	case 3: // a stray token for an ordinate
		what = "a stray token"
		w := strings.Fields(ord(dim))
		w[c.R.IntN(dim)] = strayTokens[c.R.IntN(len(strayTokens))]
		text = replaceTuple(strings.Join(w, " "))
	case 4: // an empty position
		what, text = "an empty position", replaceTuple([]string{"", " "}[c.R.IntN(2)])
	case 5: // an additional empty element
		what = "an empty list element"
		text = render()
		var pos []int
		for i, ch := range text {
			if ch == ',' {
				pos = append(pos, i)
			}
		}
		if len(pos) == 0 {
			i := strings.Index(text, ")")
			text = text[:i] + "," + text[i:]
		} else {
			i := pos[c.R.IntN(len(pos))]
			text = text[:i] + "," + text[i:]
		}
	case 6: // a missing or additional parenthesis inside the text
		what = "unbalanced parentheses"
		text = strings.TrimSpace(render())
		var pos []int
		for i, ch := range text {
			if ch == '(' || ch == ')' {
				pos = append(pos, i)
			}
		}
		i := pos[c.R.IntN(len(pos))]
		if c.R.IntN(2) == 0 {
			text = text[:i] + text[i+1:]
		} else {
			text = text[:i] + text[i:i+1] + text[i:]
		}
		mustFail = false
	case 7: // an additional member that cannot be decoded
		what = "an undecodable member"
		text = strings.TrimRight(render(), " ")
		bad := []string{"()", "", "(x y)", "(())", "(1)", "1", "((1 2)", "(1 2,)"}[c.R.IntN(8)]
		if c.R.IntN(2) == 0 {
			text = text[:len(text)-1] + "," + bad + ")"
		} else {
			i := strings.Index(text, "(")
			text = text[:i+1] + bad + "," + text[i+1:]
		}
	case 8:
		what = "no geometry text"
		kw := strings.ToUpper(name)
		text = []string{kw, kw + "()", kw + "(", kw + ")", kw + " EMPTY", "", " ", "(1 2)", "CIRCLE(1 2)", "XPOINTX(1 2)", kw + "(( ))", kw + "(())", strings.ToLower(kw) + "(1 2,3 4)", kw + ",(1 2)"}[c.R.IntN(14)]
	}
	c.Desc(func() string { return what + ": " + strconv.Quote(text) })
	back, err := wkt.Decode(text)
	if mustFail {
		c.Check(err != nil, "%s is accepted as %s", what, trunc(repr(back), 500))
	} else if err == nil {
		c.Check(reflect.DeepEqual(flatten(back), flatten(g)), "%s is accepted with other coordinates: %s", what, trunc(repr(back), 500))
	}
	c.Ev("malformed: " + what)
	c.NT(text)
}

var wktHead = regexp.MustCompile(`^\s*[A-Z]+\s*\(`)

// tolerantGroups lists the positions between innermost parentheses.
func tolerantGroups(s string) [][][]float64 {
	var gs [][][]float64
	var run string
	flush := func() {
		if strings.TrimSpace(run) != "" {
			var g [][]float64
			for _, t := range strings.Split(run, ",") {
				var tup []float64
				for _, w := range strings.Fields(t) {
					f, err := strconv.ParseFloat(w, 64)
					if err != nil {
						f = math.NaN()
					}
					tup = append(tup, f)
				}
				if tup != nil {
					g = append(g, tup)
				}
			}
			if g != nil {
				gs = append(gs, g)
			}
		}
		run = ""
	}
	for _, ch := range s {
		if ch == '(' || ch == ')' {
			flush()
		} else {
			run += string(ch)
		}
	}
	flush()
	return gs
}

func eqTuple(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] && !(math.IsNaN(a[i]) && math.IsNaN(b[i])) {
			return false
		}
	}
	return true
}

// rings lists the innermost coordinate lists of a geometry.
func innerLists(g any) [][][]float64 {
	v := reflect.ValueOf(g)
	if v.Kind() == reflect.Struct {
		return [][][]float64{flatten(g)}
	}
	if v.Type().Elem().Kind() == reflect.Struct {
		return [][][]float64{flatten(g)}
	}
	var o [][][]float64
	for i := 0; i < v.Len(); i++ {
		o = append(o, innerLists(v.Index(i).Interface())...)
	}
	return o
}

// wktFuzz mutates texts; whatever is accepted must list what the text lists.
func wktFuzz(c *Case) {
	var text string
	if c.R.IntN(8) == 0 {
		const al = "()(),, 0123456789.-+eE\n\tPOINTLIESRGMUYZ"
		kw := []string{"", "POINT(", "MULTIPOINT(", "LINESTRING(", "POLYGON((", "MULTIPOLYGON(((", "MULTILINESTRING(("}
		text = kw[c.R.IntN(len(kw))]
		for i := c.R.IntN(40); i > 0; i-- {
			text += string(al[c.R.IntN(len(al))])
		}
		for c.R.IntN(2) == 0 {
			text += ")"
		}
	} else {
		kind := kindsAll[c.R.IntN(len(kindsAll))]
		cg, _ := codecCoords(c.R)
		st := &wktStyle{r: c.R, ws: wsSets[c.R.IntN(len(wsSets))], paren: c.R.IntN(2) == 0, exp: c.R.IntN(2) == 0}
		b := []byte(st.text(strings.TrimSuffix(kind, "Z"), nested(codecGeom(c.R, kind, cg)).([]any)))
		for i := 1 + c.R.IntN(4); i > 0; i-- {
			if len(b) == 0 {
				break
			}
			j := c.R.IntN(len(b))
			const al = "()(),,  0123456789.-eE\n\tAPZ\x00é"
			switch c.R.IntN(6) {
			case 0:
				b = append(b[:j], b[j+1:]...)
			case 1:
				b[j] = al[c.R.IntN(len(al))]
			case 2:
				b = append(b[:j], append([]byte{al[c.R.IntN(len(al))]}, b[j:]...)...)
			case 3: // delete a stretch
				k := min(len(b), j+1+c.R.IntN(12))
				b = append(b[:j], b[k:]...)
			case 4: // duplicate a stretch
				k := min(len(b), j+1+c.R.IntN(12))
				b = append(b[:k], append(append([]byte{}, b[j:k]...), b[k:]...)...)
			case 5: // another number of ordinates
				if i := bytes.IndexAny(b[j:], ",)"); i >= 0 {
					b = append(b[:j+i], append([]byte(" 7"), b[j+i:]...)...)
				}
			}
		}
		text = string(b)
	}
	c.Desc(func() string { return strconv.Quote(text) })
	g, err := wkt.Decode(text)
	c.Ev("fuzzed texts")
	if err != nil {
		c.NT(text)
		return
	}
	c.Ev("fuzzed texts accepted")
	c.NT(text)
	c.Check(g != nil, "neither geometry nor error")
	lists := innerLists(g)
	c.Check(len(lists) > 0, "an empty geometry without an error: %s", repr(g))
	for _, l := range lists {
		c.Check(len(l) > 0, "a geometry with an empty part without an error: %s", repr(g))
	}
	if !wktHead.MatchString(text) {
		return
	}
	groups := tolerantGroups(text[strings.Index(text, "("):strings.LastIndex(text, ")")])
	isPoly := g.Type() == geo.GEOMETRY_POLYGON || g.Type() == geo.GEOMETRY_POLYGONZ || g.Type() == geo.GEOMETRY_MULTIPOLYGON || g.Type() == geo.GEOMETRY_MULTIPOLYGONZ
	if isPoly {
		c.Check(len(groups) == len(lists), "the text lists %d rings, the result has %d: %s", len(groups), len(lists), trunc(repr(g), 500))
		for i, l := range lists {
			w := groups[i]
			if len(l) == len(w)+1 && eqTuple(l[0], l[len(l)-1]) {
				l = l[:len(l)-1]
			}
			c.Check(len(l) == len(w), "ring %d lists %d positions, the result has %d: %s", i, len(w), len(l), trunc(repr(g), 500))
			for j := range l {
				c.Check(eqTuple(l[j], w[j]), "ring %d position %d is %v in the text and %v in the result", i, j, w[j], l[j])
			}
		}
	} else {
		var w, l [][]float64
		for _, x := range groups {
			w = append(w, x...)
		}
		for _, x := range lists {
			l = append(l, x...)
		}
		c.Check(len(l) == len(w), "the text lists %d positions, the result has %d: %s", len(w), len(l), trunc(repr(g), 500))
		for j := range l {
			c.Check(eqTuple(l[j], w[j]), "position %d is %v in the text and %v in the result", j, w[j], l[j])
		}
	}
	c.Ev("accepted texts compared with their own coordinates")
}

// ---- GeoJSON

func geoName(kind string) string { return strings.TrimSuffix(kind, "Z") }

func decodable(kind string) bool {
	n := geoName(kind)
	return n == "Point" || n == "LineString" || n == "Polygon"
}

func geoFromBytes(c *Case, b []byte) *geojson.GeoJson {
	var gj geojson.GeoJson
	err := json.Unmarshal(b, &gj)
	c.Check(err == nil, "the encoding is not a JSON geometry: %v: %s", err, trunc(string(b), 300))
	return &gj
}

func geojsonRoundTrip(c *Case) {
	kind := kindsAll[c.Idx%len(kindsAll)]
	cg, regime := codecCoords(c.R)
	g := codecGeom(c.R, kind, cg)
	c.Desc(func() string { return repr(g) })
	b, err := geojson.MarshalGeo(g)
	c.Check(err == nil, "encoding fails: %v", err)
	var m map[string]any
	c.Check(json.Unmarshal(b, &m) == nil, "not a JSON object: %s", trunc(string(b), 300))
	c.Check(m["type"] == geoName(kind), "a %s has type %v", kind, m["type"])
	c.Check(reflect.DeepEqual(m["coordinates"], nested(g)), "the coordinates are encoded as %s", trunc(fmt.Sprint(m["coordinates"]), 600))
	_, has := m["geometries"]
	c.Check(!has, "a %s is encoded with geometries", kind)
	check := func(gj *geojson.GeoJson, via string) {
		back, err := geojson.UnmarshalGeo(gj)
		if decodable(kind) {
			c.Check(err == nil, "decoding the encoding of a %s%s fails: %v", kind, via, err)
			c.Check(sameGeom(g, back), "decoding%s gives %s", via, trunc(repr(back), 600))
			c.Check(back.Type() == geo.GeometryType(kind), "decoding%s gives kind %s", via, back.Type())
			c.Ev("decoded " + kind)
		} else {
			c.Check(err != nil, "decoding a %s%s, which is not supported, gives %s without an error", kind, via, trunc(repr(back), 300))
			c.Ev("refused " + kind)
		}
	}
	check(geoFromBytes(c, b), "")
	if c.R.IntN(3) == 0 {
		f := geojson.NewFeature(g)
		c.Check(f.GeometryJson != nil && f.GeometryJson.Type == geoName(kind) && reflect.DeepEqual(f.GeometryJson.Coordinates, nested(g)), "a new feature holds geometry %+v", f.GeometryJson)
		c.Check(f.Geometry != nil && sameGeom(f.Geometry, g), "a new feature holds geometry %s", repr(f.Geometry))
		check(f.GeometryJson, " through a feature")
	}
	c.Ev("encoded " + kind)
	c.Ev("coordinates: " + regime)
	c.EvN("coordinate tuples compared", len(flatten(g)))
	if partsOf(g) > 1 {
		c.Ev("geometries of several parts")
	}
	c.NT(string(b))
}

// junk makes any JSON value.
func junk(r *rand.Rand, depth int) any {
	n := 9
	if depth <= 0 {
		n = 6
	}
	switch r.IntN(n) {
	case 0:
		return nil
	case 1:
		return r.IntN(2) == 0
	case 2:
		return []string{"", "1", "Point", "type", "é\n"}[r.IntN(5)]
	case 3:
		return float64(r.IntN(200) - 100)
	case 4:
		return (r.Float64() - 0.5) * 360
	case 5:
		return map[string]any{}
	case 6:
		m := map[string]any{}
		for i := r.IntN(3); i > 0; i-- {
			m[[]string{"type", "coordinates", "a", "geometry", "properties"}[r.IntN(5)]] = junk(r, depth-1)
		}
		return m
	default:
		l := []any{}
		for i := r.IntN(4); i > 0; i-- {
			l = append(l, junk(r, depth-1))
		}
		return l
	}
}

// mutateCoords damages nested coordinate lists.
func mutateCoords(r *rand.Rand, v any) any {
	l, ok := v.([]any)
	if !ok || len(l) == 0 || r.IntN(5) == 0 {
		switch r.IntN(4) {
		case 0:
			return []any{v}
		case 1:
			return []any{}
		default:
			return junk(r, 2)
		}
	}
	o := append([]any{}, l...)
	i := r.IntN(len(o))
	switch r.IntN(8) {
	case 0: // one element fewer
		return append(o[:i], o[i+1:]...)
	case 1: // one more
		return append(o, cloneNested(o[i]))
	case 2:
		return append(o, junk(r, 1))
	case 3: // unwrap
		return o[i]
	default:
		o[i] = mutateCoords(r, o[i])
		return o
	}
}

// prefixOK tells whether the decoded tuples are the leading ordinates of the listed positions.
func checkLeading(c *Case, g geo.Geometry, coords any) {
	depth := nesting(strings.TrimSuffix(string(g.Type()), "Z"))
	var walk func(got, in any, d int)
	walk = func(got, in any, d int) {
		gl := got.([]any)
		il, ok := in.([]any)
		c.Check(ok, "accepted although %v is no list", in)
		if d == 0 {
			c.Check(len(il) >= len(gl), "position %v is decoded as %v", il, gl)
			for i := range gl {
				f, ok := il[i].(float64)
				c.Check(ok && f == gl[i].(float64), "position %v is decoded as %v", il, gl)
			}
			return
		}
		c.Check(len(gl) == len(il), "a list of %d is decoded as a list of %d", len(il), len(gl))
		for i := range gl {
			walk(gl[i], il[i], d-1)
		}
	}
	walk(nested(g), coords, depth)
}

func checkDecoded(c *Case, gj *geojson.GeoJson, what string) {
	var in any
	if gj != nil {
		in = cloneNested(gj.Coordinates)
	}
	g, err := geojson.UnmarshalGeo(gj)
	if err != nil {
		c.Ev("geometries refused")
		return
	}
	c.Ev("geometries accepted")
	c.Check(g != nil, "%s: neither geometry nor error", what)
	c.Check(string(g.Type()) == gj.Type || string(g.Type()) == gj.Type+"Z", "%s: type %q is decoded as %s", what, gj.Type, g.Type())
	c.Check(len(flatten(g)) > 0, "%s: an empty geometry without an error", what)
	checkLeading(c, g, in)
}

func mutatedGeometry(r *rand.Rand) map[string]any {
	kind := kindsAll[r.IntN(len(kindsAll))]
	if r.IntN(2) == 0 {
		kind = []string{"Point", "LineString", "Polygon", "PointZ", "LineStringZ", "PolygonZ"}[r.IntN(6)]
	}
	m := map[string]any{"type": geoName(kind), "coordinates": nested(codecGeom(r, kind, cgSmallInt(20)))}
	switch r.IntN(10) {
	case 0:
		m["type"] = []any{"", "point", "Circle", "GeometryCollection", "PointZ", "LineStringZ", "PolygonZ", "Polygon", "LineString", "Point", nil}[r.IntN(11)]
	case 1:
		delete(m, "coordinates")
	case 2:
		m["coordinates"] = junk(r, 4)
	case 3: // ragged dimensions
		m["coordinates"] = redim(r, m["coordinates"])
	default:
		for i := 1 + r.IntN(2); i > 0; i-- {
			m["coordinates"] = mutateCoords(r, m["coordinates"])
		}
	}
	return m
}

// redim gives positions other numbers of ordinates.
func redim(r *rand.Rand, v any) any {
	l := v.([]any)
	if isTuple(l) {
		o := append([]any{}, l...)
		switch r.IntN(4) {
		case 0:
			o = o[:r.IntN(len(o))]
		case 1:
			for i := 1 + r.IntN(3); i > 0; i-- {
				o = append(o, float64(r.IntN(9)))
			}
		}
		return o
	}
	o := make([]any, len(l))
	for i := range l {
		o[i] = redim(r, l[i])
	}
	return o
}

func geojsonMalformed(c *Case) {
	m := mutatedGeometry(c.R)
	b, _ := json.Marshal(m)
	c.Desc(func() string { return string(b) })
	var gj geojson.GeoJson
	if err := json.Unmarshal(b, &gj); err != nil {
		c.Ev("documents refused by the JSON decoder")
		return
	}
	c.NT(string(b))
	checkDecoded(c, &gj, "geometry")
	if c.Idx%500 == 0 {
		checkDecoded(c, nil, "no geometry")
		c.Ev("nil geometry decoded")
	}
}

func mutateBytes(r *rand.Rand, b []byte) []byte {
	b = append([]byte{}, b...)
	for i := 1 + r.IntN(3); i > 0 && len(b) > 0; i-- {
		j := r.IntN(len(b))
		const al = "{}[]\",:0123456789.-eEnulltruefalse \\\x00é"
		switch r.IntN(4) {
		case 0:
			b = append(b[:j], b[j+1:]...)
		case 1:
			b[j] = al[r.IntN(len(al))]
		case 2:
			b = append(b[:j], append([]byte{al[r.IntN(len(al))]}, b[j:]...)...)
		case 3:
			b = b[:j]
		}
	}
	return b
}

func mutatedFeature(r *rand.Rand) any {
	f := map[string]any{"type": "Feature", "geometry": mutatedGeometry(r), "properties": map[string]any{"a": 1.0}}
	switch r.IntN(10) {
	case 0:
		f["geometry"] = nil
	case 1:
		delete(f, "geometry")
	case 2:
		f["geometry"] = junk(r, 3)
	case 3:
		f["properties"] = junk(r, 2)
	case 4:
		f["bbox"] = junk(r, 2)
	case 5:
		f["id"] = junk(r, 2)
	case 6:
		f["crs"] = junk(r, 2)
	case 7:
		f["type"] = junk(r, 1)
	case 8:
		return junk(r, 4)
	}
	return f
}

func featureMalformed(c *Case) {
	coll := c.Idx%2 == 1
	var doc any
	if coll {
		fs := []any{}
		for i := c.R.IntN(4); i > 0; i-- {
			fs = append(fs, mutatedFeature(c.R))
		}
		m := map[string]any{"type": "FeatureCollection", "features": fs}
		switch c.R.IntN(8) {
		case 0:
			m["features"] = junk(c.R, 3)
		case 1:
			delete(m, "features")
		case 2:
			m["bbox"] = junk(c.R, 2)
		case 3:
			m["crs"] = junk(c.R, 2)
		}
		doc = m
		if c.R.IntN(12) == 0 {
			doc = junk(c.R, 3)
		}
	} else {
		doc = mutatedFeature(c.R)
	}
	b, _ := json.Marshal(doc)
	if c.R.IntN(5) == 0 {
		b = mutateBytes(c.R, b)
	}
	c.Desc(func() string { return strconv.Quote(string(b)) })
	valid := json.Valid(b)
	look := func(f *geojson.Feature) {
		if f == nil {
			c.Ev("null features")
			return
		}
		checkDecoded(c, f.GeometryJson, "feature geometry")
		// a decoded feature can be encoded again
		_, err := json.Marshal(f)
		c.Check(err == nil, "an accepted feature cannot be encoded: %v", err)
	}
	if coll {
		fc, err := geojson.UnmarshalFeatureCollection(b)
		c.Check(err != nil || fc != nil, "neither collection nor error")
		c.Check(valid || err != nil, "invalid JSON is accepted")
		if err == nil {
			for _, f := range fc.Features {
				look(f)
			}
			_, err := json.Marshal(fc)
			c.Check(err == nil, "an accepted collection cannot be encoded: %v", err)
			c.Ev("collections accepted")
		} else {
			c.Ev("collections refused")
		}
	} else {
		f, err := geojson.UnmarshalFeature(b)
		c.Check(err != nil || f != nil, "neither feature nor error")
		c.Check(valid || err != nil, "invalid JSON is accepted")
		if err == nil {
			look(f)
			c.Ev("features accepted")
		} else {
			c.Ev("features refused")
		}
	}
	if !valid {
		c.Ev("documents that are not JSON")
	}
	c.NT(string(b))
}

// ---- C11

func jsonValue(r *rand.Rand, depth int) any {
	switch r.IntN(7) {
	case 0:
		return r.IntN(2) == 0
	case 1:
		return []string{"", "x", "日本", "a\"b\\c", "<&>", "\u2028", "line\nbreak"}[r.IntN(7)]
	case 2:
		return float64(r.IntN(2001) - 1000)
	case 3:
		return cgExtreme(r)
	case 4:
		return nil
	case 5:
		if depth > 0 {
			m := map[string]any{}
			for i := r.IntN(3); i > 0; i-- {
				m[fmt.Sprint("k", r.IntN(9))] = jsonValue(r, depth-1)
			}
			return m
		}
		return "leaf"
	default:
		if depth > 0 {
			l := []any{}
			for i := r.IntN(3); i > 0; i-- {
				l = append(l, jsonValue(r, depth-1))
			}
			return l
		}
		return 1.5
	}
}

type featModel struct {
	f    *geojson.Feature
	id   any
	bbox []float64
	prop map[string]any
	crs  map[string]any
	g    geo.Geometry
}

func genFeature(c *Case) *featModel {
	r := c.R
	kind := kindsAll[r.IntN(len(kindsAll))]
	cg, _ := codecCoords(r)
	m := &featModel{g: codecGeomIn(r, kind, cg), prop: map[string]any{}}
	m.f = geojson.NewFeature(m.g)
	switch r.IntN(3) {
	case 0:
		m.id = fmt.Sprint("id-", r.IntN(100))
	case 1:
		m.id = float64(r.IntN(1000))
	}
	m.f.ID = m.id
	if r.IntN(3) == 0 {
		m.f.Properties = nil
	}
	for i := r.IntN(6); i > 0; i-- {
		k := []string{"a", "b", "name", "é", "", "with space"}[r.IntN(6)]
		if r.IntN(3) == 0 { // names that mean something elsewhere in a document
			k = memberNames[r.IntN(len(memberNames))]
			c.Ev("properties named like members of a document")
		}
		v := jsonValue(r, 2)
		m.f.SetProperty(k, v)
		m.prop[k] = v
	}
	switch r.IntN(3) {
	case 0:
		m.f.SetBoundingBox()
		b := boxOf(m.g)
		m.bbox = []float64{b.x0, b.y0, b.x1, b.y1}
		c.Check(reflect.DeepEqual(m.f.BoundingBox, m.bbox), "SetBoundingBox of %s gives %v, the extent is %v", trunc(repr(m.g), 300), m.f.BoundingBox, m.bbox)
		c.Ev("bounding boxes set")
	case 1:
		n := 2 * (2 + r.IntN(2))
		if r.IntN(3) == 0 {
			n = 1 + r.IntN(10)
			c.Ev("bounding boxes of any length")
		}
		for i := n; i > 0; i-- {
			m.bbox = append(m.bbox, cg(r))
		}
		m.f.BoundingBox = append([]float64{}, m.bbox...)
	}
	if r.IntN(2) == 0 {
		m.crs = map[string]any{"type": "name", "properties": map[string]any{"name": fmt.Sprint("EPSG:", r.IntN(9999))}}
		switch r.IntN(5) {
		case 0:
			m.crs = map[string]any{memberNames[r.IntN(len(memberNames))]: jsonValue(r, 2)}
		case 1:
			m.crs = map[string]any{"type": "link", "properties": map[string]any{"href": "http://x/y", "type": "proj4"}}
		}
		m.f.CRS = m.crs
	}
	return m
}

func (m *featModel) compare(c *Case, f *geojson.Feature, how string) {
	c.Check(f != nil, "%s: the feature is lost", how)
	c.Check(f.Type == "Feature", "%s: type %q", how, f.Type)
	c.Check(reflect.DeepEqual(f.ID, m.id), "%s: ID %#v became %#v", how, m.id, f.ID)
	c.Check(len(f.BoundingBox) == len(m.bbox) && (len(m.bbox) == 0 || reflect.DeepEqual(f.BoundingBox, m.bbox)), "%s: bbox %v became %v", how, m.bbox, f.BoundingBox)
	c.Check(len(f.Properties) == len(m.prop) && (len(m.prop) == 0 || reflect.DeepEqual(f.Properties, m.prop)), "%s: properties %#v became %#v", how, m.prop, f.Properties)
	c.Check(len(f.CRS) == len(m.crs) && (len(m.crs) == 0 || reflect.DeepEqual(f.CRS, m.crs)), "%s: crs %v became %v", how, m.crs, f.CRS)
	kind := string(m.g.Type())
	c.Check(f.GeometryJson != nil && f.GeometryJson.Type == geoName(kind) && reflect.DeepEqual(f.GeometryJson.Coordinates, nested(m.g)), "%s: geometry %s became %+v", how, trunc(repr(m.g), 300), f.GeometryJson)
	if decodable(kind) {
		g, err := geojson.UnmarshalGeo(f.GeometryJson)
		c.Check(err == nil && sameGeom(g, m.g), "%s: geometry %s became %s (%v)", how, trunc(repr(m.g), 300), trunc(repr(g), 300), err)
		c.Ev("feature geometries decoded")
	}
	if len(m.prop) > 0 {
		c.Ev("features with properties compared")
	}
	if len(m.bbox) > 0 {
		c.Ev("features with a bbox compared")
	}
	if m.crs != nil {
		c.Ev("features with a CRS compared")
	}
	if m.id != nil {
		c.Ev("features with an ID compared")
	}
}

// memberNames are the names that the members of a document have.
var memberNames = []string{"type", "id", "geometry", "bbox", "crs", "coordinates", "properties", "features", "Type", "ID"}

func marshalAny(r *rand.Rand, p any, v any, direct func() ([]byte, error)) ([]byte, error) {
	switch r.IntN(3) {
	case 0:
		return json.Marshal(p)
	case 1:
		return json.Marshal(v)
	}
	return direct()
}

func featureRoundTrip(c *Case) {
	m := genFeature(c)
	c.Desc(func() string { return fmt.Sprintf("%+v", *m) })
	b, err := marshalAny(c.R, m.f, *m.f, m.f.MarshalJSON)
	c.Check(err == nil, "encoding fails: %v", err)
	var doc map[string]any
	c.Check(json.Unmarshal(b, &doc) == nil && doc["type"] == "Feature", "encoded as %s", trunc(string(b), 300))
	_, hasG := doc["geometry"]
	_, hasP := doc["properties"]
	c.Check(hasG && hasP, "geometry or properties member missing: %s", trunc(string(b), 300))
	f, err := geojson.UnmarshalFeature(b)
	c.Check(err == nil, "decoding fails: %v", err)
	m.compare(c, f, "round trip")
	// the source is not changed by encoding
	m.compare(c, m.f, "source after encoding")
	b2, err := json.Marshal(f)
	c.Check(err == nil, "encoding again fails: %v", err)
	f2, err := geojson.UnmarshalFeature(b2)
	c.Check(err == nil, "decoding again fails: %v", err)
	m.compare(c, f2, "second round trip")
	c.Ev("features round-tripped")
	c.NT(string(b))
}

func collectionRoundTrip(c *Case) {
	fc := geojson.NewFeatureCollection()
	if c.R.IntN(8) == 0 {
		fc = &geojson.FeatureCollection{}
	}
	var ms []*featModel
	n := c.R.IntN(8)
	if c.R.IntN(8) == 0 {
		n = 30
	}
	if boostParts > 0 {
		n = between(c.R, 8, boostParts)
		boostParts = 0 // many features of ordinary size
		c.Ev("collections of many features")
	}
	for i := 0; i < n; i++ {
		m := genFeature(c)
		if len(ms) > 0 && c.R.IntN(6) == 0 {
			m = ms[c.R.IntN(len(ms))] // the same feature twice
		}
		ms = append(ms, m)
		c.Check(fc.AddFeature(m.f) == fc, "AddFeature returns another collection")
	}
	c.Desc(func() string { b, _ := json.Marshal(fc); return string(b) })
	c.Check(len(fc.Features) == len(ms), "%d features added, the collection holds %d", len(ms), len(fc.Features))
	var bbox []float64
	if c.R.IntN(2) == 0 {
		bbox = []float64{-1, -2, 3, float64(c.R.IntN(10))}
		if c.R.IntN(3) == 0 {
			bbox = append(bbox, 7, 8, 9, 10, 11)[:1+c.R.IntN(9)]
		}
		fc.BoundingBox = append([]float64{}, bbox...)
	}
	var crs map[string]any
	if c.R.IntN(2) == 0 {
		crs = map[string]any{"type": "name"}
		if c.R.IntN(3) == 0 {
			crs = map[string]any{memberNames[c.R.IntN(len(memberNames))]: jsonValue(c.R, 2)}
		}
		fc.CRS = crs
	}
	b, err := marshalAny(c.R, fc, *fc, fc.MarshalJSON)
	c.Check(err == nil, "encoding fails: %v", err)
	var doc map[string]any
	c.Check(json.Unmarshal(b, &doc) == nil && doc["type"] == "FeatureCollection", "encoded as %s", trunc(string(b), 300))
	l, ok := doc["features"].([]any)
	c.Check(ok && len(l) == len(ms), "%d features, encoded as %s", len(ms), trunc(string(b), 300))
	if n == 0 {
		c.Ev("empty collections")
	}
	got, err := geojson.UnmarshalFeatureCollection(b)
	c.Check(err == nil, "decoding fails: %v", err)
	c.Check(got.Type == "FeatureCollection", "type %q", got.Type)
	c.Check(len(got.Features) == len(ms), "%d features became %d", len(ms), len(got.Features))
	for i, m := range ms {
		m.compare(c, got.Features[i], fmt.Sprintf("feature %d of %d", i, len(ms)))
	}
	c.Check(len(got.BoundingBox) == len(bbox) && (bbox == nil || reflect.DeepEqual(got.BoundingBox, bbox)), "bbox %v became %v", bbox, got.BoundingBox)
	c.Check(len(got.CRS) == len(crs) && (crs == nil || reflect.DeepEqual(got.CRS, crs)), "crs %v became %v", crs, got.CRS)
	if n > 1 {
		c.Ev("collections of several features")
	}
	c.Ev("collections round-tripped")
	c.NT(string(b))
}

// propertyHistory drives the property accessors against a map.
func propertyHistory(c *Case) {
	r := c.R
	f := &geojson.Feature{}
	if r.IntN(2) == 0 {
		f = geojson.NewFeature(geo.Point{X: 1, Y: 2})
	} else if r.IntN(2) == 0 {
		var err error
		f, err = geojson.UnmarshalFeature([]byte(`{"type":"Feature","geometry":null,"properties":null}`))
		c.Check(err == nil, "a feature without geometry and properties is refused: %v", err)
	}
	model := map[string]any{}
	keys := []string{"a", "b", "c", "d", "e"}
	if r.IntN(3) == 0 {
		keys = memberNames[:5]
	}
	defer func() { _ = keys }()
	c.Desc(func() string { return fmt.Sprintf("properties %#v", model) })
	for step := 0; step < 40; step++ {
		k := keys[r.IntN(len(keys))]
		if r.IntN(2) == 0 {
			var v any
			switch r.IntN(9) {
			case 0:
				v = r.IntN(2) == 0
			case 1:
				v = r.IntN(2000) - 1000
			case 2:
				v = float64(r.IntN(2000) - 1000)
			case 3:
				v = (r.Float64() - 0.5) * 1e6
			case 4:
				v = []string{"", "true", "1", "x"}[r.IntN(4)]
			case 5:
				v = nil
			case 6:
				v = []any{1.0}
			case 7:
				v = map[string]any{"x": 1.0}
			case 8:
				v = float64(int64(r.Uint64() >> 12))
			}
			f.SetProperty(k, v)
			model[k] = v
			c.log = append(c.log, fmt.Sprintf("SetProperty(%q, %#v)", k, v))
			continue
		}
		if r.IntN(8) == 0 { // through text: integers become numbers
			b, err := json.Marshal(f)
			c.Check(err == nil, "encoding fails: %v", err)
			f, err = geojson.UnmarshalFeature(b)
			c.Check(err == nil, "decoding fails: %v", err)
			for k, v := range model {
				if i, ok := v.(int); ok {
					model[k] = float64(i)
				}
			}
			c.log = append(c.log, "round trip")
		}
		v := model[k]
		switch r.IntN(4) {
		case 0:
			want, ok := v.(bool)
			got, err := f.PropertyBool(k)
			c.Check((err == nil) == ok && (!ok || got == want), "PropertyBool(%q) = %v, %v; stored %#v", k, got, err, v)
			c.Check(f.PropertyMustBool(k) == (ok && want), "PropertyMustBool(%q), stored %#v", k, v)
			for _, d := range []bool{true, false} {
				if w := f.PropertyMustBool(k, d); ok {
					c.Check(w == want, "PropertyMustBool(%q, %v) = %v, stored %#v", k, d, w, v)
				} else {
					c.Check(w == d, "PropertyMustBool(%q, %v) = %v, stored %#v", k, d, w, v)
				}
			}
			c.Ev(fmt.Sprint("bool accessor, stored type matches: ", ok))
		case 1:
			var want int
			ok := true
			frac := false
			switch n := v.(type) {
			case int:
				want = n
			case float64:
				want = int(n)
				frac = n != math.Trunc(n)
			default:
				ok = false
			}
			same := func(g int) bool { return g == want || frac && (g == want+1 || g == want-1) }
			got, err := f.PropertyInt(k)
			c.Check((err == nil) == ok && (!ok || same(got)), "PropertyInt(%q) = %v, %v; stored %#v", k, got, err, v)
			z := f.PropertyMustInt(k)
			c.Check(ok && same(z) || !ok && z == 0, "PropertyMustInt(%q) = %v, stored %#v", k, z, v)
			d := r.IntN(100) + 5000
			z = f.PropertyMustInt(k, d)
			c.Check(ok && same(z) || !ok && z == d, "PropertyMustInt(%q, %d) = %v, stored %#v", k, d, z, v)
			c.Ev(fmt.Sprint("int accessor, stored type matches: ", ok))
		case 2:
			want, ok := v.(float64)
			got, err := f.PropertyFloat64(k)
			c.Check((err == nil) == ok && (!ok || got == want), "PropertyFloat64(%q) = %v, %v; stored %#v", k, got, err, v)
			z := f.PropertyMustFloat64(k)
			c.Check(ok && z == want || !ok && z == 0, "PropertyMustFloat64(%q) = %v, stored %#v", k, z, v)
			d := r.Float64() + 7e7
			z = f.PropertyMustFloat64(k, d)
			c.Check(ok && z == want || !ok && z == d, "PropertyMustFloat64(%q, %v) = %v, stored %#v", k, d, z, v)
			c.Ev(fmt.Sprint("float accessor, stored type matches: ", ok))
		case 3:
			want, ok := v.(string)
			got, err := f.PropertyString(k)
			c.Check((err == nil) == ok && (!ok || got == want), "PropertyString(%q) = %v, %v; stored %#v", k, got, err, v)
			z := f.PropertyMustString(k)
			c.Check(ok && z == want || !ok && z == "", "PropertyMustString(%q) = %v, stored %#v", k, z, v)
			z = f.PropertyMustString(k, "def")
			c.Check(ok && z == want || !ok && z == "def", "PropertyMustString(%q, def) = %v, stored %#v", k, z, v)
			c.Ev(fmt.Sprint("string accessor, stored type matches: ", ok))
		}
		c.NT(fmt.Sprint(c.Idx, step))
	}
}

func extentFamily(c *Case) {
	kind := kindsAll[c.Idx%len(kindsAll)]
	cg, _ := codecCoords(c.R)
	g := codecGeomIn(c.R, kind, cg)
	f := geojson.NewFeature(g)
	c.Desc(func() string { return repr(g) })
	if c.R.IntN(2) == 0 {
		f.BoundingBox = []float64{1, 2, 3, 4}
	}
	f.SetBoundingBox()
	b := boxOf(g)
	c.Check(reflect.DeepEqual(f.BoundingBox, []float64{b.x0, b.y0, b.x1, b.y1}), "SetBoundingBox gives %v, the extent is %v", f.BoundingBox, b)
	c.Ev("extents of " + kind)
	c.NT(repr(g))
}

// codecGeomIn is a geometry whose polygons' holes lie within the outer ring's extent.
func codecGeomIn(r *rand.Rand, kind string, cg coordGen) geo.Geometry {
	if strings.HasPrefix(kind, "Polygon") {
		g := genGeom(r, kind, cg)
		if r.IntN(4) == 0 {
			g = repeatParts(r, g)
		}
		return g
	}
	return codecGeom(r, kind, cg)
}

func init() {
	var must7, must9 []string
	for _, k := range kindsAll {
		must7 = append(must7, "round trips of "+k)
		must9 = append(must9, "encoded "+k)
		if decodable(k) {
			must9 = append(must9, "decoded "+k)
		} else {
			must9 = append(must9, "refused "+k)
		}
	}
	register(&Prop{ID: "C07", Rule: "one case encodes one generated geometry, reads the text with an independent strict WKT reader and decodes it again; non-trivial: every case, keyed by the text",
		Must:   append(must7, "polygons with holes", "geometries of several parts", "coordinates: extreme"),
		Assume: []string{"polygon rings are closed", "signed zero is not distinguished from zero"},
		Families: []Family{
			{Name: "roundtrip", Quick: 12000, Thorough: 1500000, Run: wktRoundTrip},
		}})
	register(&Prop{ID: "C08", Rule: "one case decodes one text: a re-spaced well-formed text, a text broken in a known way, or a mutated text; non-trivial: every decoded text, keyed by the text",
		Must: []string{"well-formed variants", "unclosed rings closed", "parenthesised multipoint members", "exponent notation", "tabs and line breaks", "fuzzed texts", "fuzzed texts accepted",
			"malformed: a position with one ordinate", "malformed: a position with too many ordinates", "malformed: positions of different dimensions", "malformed: a whole member of another dimension", "malformed: text beside a member", "malformed: a stray token", "malformed: an empty position", "malformed: an empty list element", "malformed: unbalanced parentheses", "malformed: an undecodable member", "malformed: no geometry text",
			"accepted texts compared with their own coordinates"},
		Assume: []string{"text before the keyword and after the last closing parenthesis is not judged", "a whole coordinate list in additional parentheses may be accepted"},
		Families: []Family{
			{Name: "variants", Quick: 12000, Thorough: 1000000, Run: wktVariants},
			{Name: "malformed", Quick: 12000, Thorough: 1000000, Run: wktMalformed},
			{Name: "fuzz", Quick: 40000, Thorough: 4000000, Run: wktFuzz},
		}})
	register(&Prop{ID: "C09", Rule: "one case encodes one generated geometry, parses the text with a generic JSON parser, and decodes it again; non-trivial: every case, keyed by the text",
		Must:   append(must9, "geometries of several parts", "coordinates: extreme"),
		Assume: []string{"signed zero is not distinguished from zero"},
		Families: []Family{
			{Name: "roundtrip", Quick: 12000, Thorough: 1500000, Run: geojsonRoundTrip},
		}})
	register(&Prop{ID: "C10", Rule: "one case decodes one damaged GeoJSON document; non-trivial: every document that reaches the decoder, keyed by its text",
		Must:   []string{"geometries refused", "geometries accepted", "features accepted", "features refused", "collections accepted", "collections refused", "documents that are not JSON", "nil geometry decoded", "null features"},
		Assume: []string{"a position of more than three ordinates may be refused or cut to its leading ordinates"},
		Families: []Family{
			{Name: "geometry", Quick: 40000, Thorough: 4000000, Run: geojsonMalformed},
			{Name: "feature", Quick: 20000, Thorough: 2000000, Run: featureMalformed},
		}})
	register(&Prop{ID: "C11", Rule: "one case is a feature, a collection or a history of property updates, compared after a round trip through text; non-trivial: every compared feature or accessor read, keyed by text or history position",
		Must: []string{"features round-tripped", "collections round-tripped", "empty collections", "collections of several features", "bounding boxes set", "feature geometries decoded", "features with properties compared", "features with a bbox compared", "features with a CRS compared", "features with an ID compared",
			"bool accessor, stored type matches: true", "int accessor, stored type matches: true", "float accessor, stored type matches: true", "string accessor, stored type matches: true",
			"bool accessor, stored type matches: false", "int accessor, stored type matches: false", "float accessor, stored type matches: false", "string accessor, stored type matches: false"},
		Assume: []string{"absent and empty properties, bbox and CRS are not distinguished", "a decoded feature's geometry is read through UnmarshalGeo of its GeoJSON geometry"},
		Families: []Family{
			{Name: "feature", Quick: 8000, Thorough: 800000, Run: featureRoundTrip},
			{Name: "collection", Quick: 2000, Thorough: 200000, Run: collectionRoundTrip},
			{Name: "properties", Quick: 4000, Thorough: 400000, Run: propertyHistory},
			{Name: "extent", Quick: 6000, Thorough: 600000, Run: extentFamily},
		}})
}
