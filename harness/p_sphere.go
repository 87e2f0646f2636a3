package main

// Monitors of the spherical and projected computations: C21, C23, C24.

import (
	"fmt"
	"math"
	"math/rand/v2"
	"strings"

	geo "github.com/hzw456/go-geo"
)

const earthR = 6371000.0

type v3 struct{ x, y, z float64 }

func unit(p geo.Point) v3 {
	la, lo := p.Y*math.Pi/180, p.X*math.Pi/180
	return v3{math.Cos(la) * math.Cos(lo), math.Cos(la) * math.Sin(lo), math.Sin(la)}
}
func (a v3) dot(b v3) float64 { return a.x*b.x + a.y*b.y + a.z*b.z }
func (a v3) cross(b v3) v3 {
	return v3{a.y*b.z - a.z*b.y, a.z*b.x - a.x*b.z, a.x*b.y - a.y*b.x}
}
func (a v3) norm() float64 { return math.Sqrt(a.dot(a)) }

// centralAngle by vectors, accurate at every angle.
func centralAngle(p, q geo.Point) float64 {
	a, b := unit(p), unit(q)
	return math.Atan2(a.cross(b).norm(), a.dot(b))
}

func sphereDist(p, q geo.Point) float64 { return centralAngle(p, q) * earthR }

// ---- points on the globe

// globePoint mixes the places where spherical code goes wrong with the ordinary ones.
func globePoint(r *rand.Rand) geo.Point {
	p := geo.Point{X: r.Float64()*360 - 180, Y: math.Asin(2*r.Float64()-1) * 180 / math.Pi}
	switch r.IntN(12) {
	case 0:
		p.Y = 90
	case 1:
		p.Y = -90
	case 2:
		p.X = 180
	case 3:
		p.X = -180
	case 4:
		p.Y = 0
	case 5:
		p.X = 0
	case 6: // whole degrees
		p.X, p.Y = math.Round(p.X), math.Round(p.Y)
	case 7: // next to a pole
		p.Y = math.Copysign(90-math.Pow(10, -r.Float64()*15), p.Y)
	case 8: // next to the antimeridian
		p.X = math.Copysign(180-math.Pow(10, -r.Float64()*15), p.X)
	case 9: // the double next to a whole number
		if r.IntN(2) == 0 {
			p.X = math.Nextafter(math.Round(p.X/45)*45, 0)
		} else {
			p.X = math.Nextafter(math.Round(p.X/90)*90, 0)
			p.Y = math.Nextafter(math.Round(p.Y/45)*45, 0)
		}
	}
	return p
}

// partner makes a second point in a chosen situation relative to the first.
func partner(r *rand.Rand, p geo.Point) (geo.Point, string) {
	wrap := func(x float64) float64 {
		for x > 180 {
			x -= 360
		}
		for x < -180 {
			x += 360
		}
		return x
	}
	clampLat := func(y float64) float64 { return math.Max(-90, math.Min(90, y)) }
	off := func() float64 { return (2*r.Float64() - 1) * math.Pow(10, 1-r.Float64()*11) }
	switch r.IntN(10) {
	case 0:
		return p, "identical"
	case 1, 2:
		return geo.Point{X: wrap(p.X + off()), Y: clampLat(p.Y + off())}, "near"
	case 3:
		return geo.Point{X: wrap(p.X + 180), Y: -p.Y}, "antipodal"
	case 4:
		return geo.Point{X: wrap(p.X + 180 + off()), Y: clampLat(-p.Y + off())}, "near-antipodal"
	case 5:
		return geo.Point{X: p.X, Y: math.Asin(2*r.Float64()-1) * 180 / math.Pi}, "same-meridian"
	case 6:
		return geo.Point{X: r.Float64()*360 - 180, Y: p.Y}, "same-parallel"
	case 7:
		// across the antimeridian
		return geo.Point{X: -math.Copysign(180-r.Float64()*5, p.X), Y: clampLat(p.Y + off())}, "across"
	}
	return globePoint(r), "any"
}

// frame gives the local north and east at p, following p's longitude at the poles too.
func frame(p geo.Point) (north, east v3) {
	la, lo := p.Y*math.Pi/180, p.X*math.Pi/180
	return v3{-math.Sin(la) * math.Cos(lo), -math.Sin(la) * math.Sin(lo), math.Cos(la)},
		v3{-math.Sin(lo), math.Cos(lo), 0}
}

// bearing from p to q in degrees, in [0,360).
func bearing(p, q geo.Point) float64 {
	n, e := frame(p)
	u := unit(q)
	b := math.Atan2(u.dot(e), u.dot(n)) * 180 / math.Pi
	if b < 0 {
		b += 360
	}
	return b
}

// degDiff is the distance between two directions in degrees.
func degDiff(a, b float64) float64 {
	d := math.Mod(math.Abs(a-b), 360)
	return math.Min(d, 360-d)
}

func init() {
	register(&Prop{
		ID:   "C21",
		Rule: "pairs of points over the whole globe with poles, antimeridian, identical, near and antipodal partners, judged against vector arithmetic on the sphere; distinct (kind of pair, sign pattern, size class)",
		Must: []string{"pair identical", "pair near", "pair antipodal", "pair near-antipodal", "pair across", "bearing judged", "destination judged", "destination from a pole", "destination near a pole", "destination across the antimeridian"},
		Families: []Family{
			{Name: "distances", Quick: 300000, Thorough: 20000000, Run: c21dist},
			{Name: "azimuths", Quick: 300000, Thorough: 20000000, Run: c21azimuth},
			{Name: "destinations", Quick: 300000, Thorough: 20000000, Run: c21dest},
		},
		Assume: []string{"the sphere has the library's radius of 6371000 m", "the haversine formula loses up to half a metre at antipodes, which is allowed"},
	})
}

func sizeClass(d float64) int {
	if d <= 0 {
		return -99
	}
	return int(math.Floor(math.Log10(d)))
}

func pairKey(kind string, p, q geo.Point, d float64) string {
	return fmt.Sprint(kind, p.X > 0, p.Y > 0, q.X > 0, q.Y > 0, sizeClass(d), math.Floor(p.Y/15), math.Floor(q.Y/15), math.Floor(p.X/60), math.Floor(q.X/60))
}

func c21dist(c *Case) {
	p := globePoint(c.R)
	q, kind := partner(c.R, p)
	c.Desc(func() string { return fmt.Sprintf("%s pair %v %v", kind, p, q) })
	ang := centralAngle(p, q)
	want := ang * earthR
	tol := 1e-6 + 1e-9*want
	if ang > math.Pi/2 {
		tol += math.Min(0.6, earthR*2e-15/math.Max(math.Sin(ang), 1e-12))
	}
	c.Ev("pair " + kind)
	c.NT(pairKey(kind, p, q, want))
	for _, f := range []struct {
		name string
		fn   func(a, b geo.Point) float64
	}{{"CoordDistance", geo.CoordDistance}, {"CoordGreateCircle", geo.CoordGreateCircle}} {
		d, e := f.fn(p, q), f.fn(q, p)
		c.Check(!math.IsNaN(d) && !math.IsInf(d, 0), "%s is not finite: %v", f.name, d)
		c.Check(d >= 0, "%s is negative: %v", f.name, d)
		c.Check(math.Abs(d-want) <= tol, "%s is %v, the sphere gives %v", f.name, d, want)
		c.Check(math.Abs(e-d) <= tol, "%s is not symmetric: %v and %v", f.name, d, e)
		if kind == "identical" {
			c.Check(d <= 1e-6, "%s of identical points is %v", f.name, d)
		}
	}
}

func c21azimuth(c *Case) {
	p := globePoint(c.R)
	q, kind := partner(c.R, p)
	c.Desc(func() string { return fmt.Sprintf("%s pair %v %v", kind, p, q) })
	got := geo.GetAzimuth(p, q, geo.SRID_WGS84_GPS)
	c.Check(got >= 0 && got < 360, "the azimuth %v is not in [0,360)", got)
	ang := centralAngle(p, q)
	s := math.Sin(ang)
	if s < 1e-9 {
		c.Ev("azimuth without a direction: range only")
		return
	}
	want := bearing(p, q)
	tol := 1e-9 + 1e-12/s
	c.Check(degDiff(got, want) <= tol, "the azimuth is %v, the initial bearing is %v", got, want)
	c.Ev("bearing judged")
	c.NT(pairKey(kind, p, q, ang*earthR) + fmt.Sprint(int(want/30)))
}

func c21dest(c *Case) {
	r := c.R
	p := globePoint(r)
	d := math.Pow(10, r.Float64()*8.5-1)
	switch r.IntN(6) {
	case 0:
		d = 0
	case 1: // up to half way round, or to the pole
		d = r.Float64() * math.Pi * earthR
	case 2:
		d = (90 - math.Abs(p.Y)) * math.Pi / 180 * earthR
	}
	b := r.Float64() * 360
	switch r.IntN(5) {
	case 0:
		b = float64(r.IntN(17)-8) * 90
	case 1:
		b = r.Float64()*1440 - 720
	}
	c.Desc(func() string { return fmt.Sprintf("from %v by %v m at %v deg", p, d, b) })
	lat, lon := geo.DestinationPoint(p.Y, p.X, d, b)
	c.Check(lat >= -90 && lat <= 90, "the latitude of the destination is %v", lat)
	c.Check(lon >= -180 && lon <= 180, "the longitude of the destination is %v", lon)
	n, e := frame(p)
	u, t, del := unit(p), b*math.Pi/180, d/earthR
	dir := v3{n.x*math.Cos(t) + e.x*math.Sin(t), n.y*math.Cos(t) + e.y*math.Sin(t), n.z*math.Cos(t) + e.z*math.Sin(t)}
	w := v3{u.x*math.Cos(del) + dir.x*math.Sin(del), u.y*math.Cos(del) + dir.y*math.Sin(del), u.z*math.Cos(del) + dir.z*math.Sin(del)}
	g := unit(geo.Point{X: lon, Y: lat})
	miss := v3{w.x - g.x, w.y - g.y, w.z - g.z}.norm() * earthR
	cos2 := math.Hypot(w.x, w.y)
	tol := 1e-4 + math.Min(0.5, earthR*4e-15/math.Max(cos2, 1e-12)) + d*1e-14
	c.Check(miss <= tol, "the destination %v,%v (lat,lon) is %v m away from where the journey ends", lat, lon, miss)
	c.Ev("destination judged")
	if math.Abs(p.Y) == 90 {
		c.Ev("destination from a pole")
	}
	if math.Abs(lat) > 89.9 {
		c.Ev("destination near a pole")
	}
	if math.Abs(p.X-lon) > 180 {
		c.Ev("destination across the antimeridian")
	}
	c.NT(fmt.Sprint(sizeClass(d), math.Floor(b/30), math.Floor(p.Y/10), math.Floor(p.X/30)))
}

// ---- UTM

const utmLetters = "CDEFGHJKLMNPQRSTUVWX"

// utmZone is the zone of a position by the published grid; exact limits belong to the upper zone.
func utmZone(lat, lon float64) int {
	z := int(math.Floor((lon+180)/6)) + 1
	if z > 60 {
		z = 1
	}
	switch {
	case lat >= 56 && lat < 64 && lon >= 3 && lon < 12:
		z = 32
	case lat >= 72 && lat <= 84 && lon >= 0 && lon < 42:
		switch {
		case lon < 9:
			z = 31
		case lon < 21:
			z = 33
		case lon < 33:
			z = 35
		default:
			z = 37
		}
	}
	return z
}

func utmLetter(lat float64) string {
	i := 0
	for i < 19 && lat >= float64(8*(i+1)-80) {
		i++
	}
	return utmLetters[i : i+1]
}

// utmForward projects with the Krüger series in the third flattening up to the sixth order.
func utmForward(lat, lon float64, zone int) (e, n float64) {
	const a, f = 6378137.0, 1 / 298.257223563
	nn := f / (2 - f)
	n2, n3, n4 := nn*nn, nn*nn*nn, nn*nn*nn*nn
	n5, n6 := n4*nn, n4*n2
	A := a / (1 + nn) * (1 + n2/4 + n4/64 + n6/256)
	al := []float64{
		nn/2 - 2*n2/3 + 5*n3/16 + 41*n4/180 - 127*n5/288 + 7891*n6/37800,
		13*n2/48 - 3*n3/5 + 557*n4/1440 + 281*n5/630 - 1983433*n6/1935360,
		61*n3/240 - 103*n4/140 + 15061*n5/26880 + 167603*n6/181440,
		49561*n4/161280 - 179*n5/168 + 6601661*n6/7257600,
		34729*n5/80640 - 3418889*n6/1995840,
		212378941 * n6 / 319334400,
	}
	phi := lat * math.Pi / 180
	lam := (lon - float64((zone-1)*6-177)) * math.Pi / 180
	for lam > math.Pi {
		lam -= 2 * math.Pi
	}
	for lam < -math.Pi {
		lam += 2 * math.Pi
	}
	ec := math.Sqrt(f * (2 - f))
	s := math.Sin(phi)
	t := math.Sinh(math.Atanh(s) - ec*math.Atanh(ec*s))
	xi := math.Atan2(t, math.Cos(lam))
	eta := math.Atanh(math.Sin(lam) / math.Sqrt(1+t*t))
	x, y := eta, xi
	for j, c := range al {
		k := 2 * float64(j+1)
		x += c * math.Cos(k*xi) * math.Sinh(k*eta)
		y += c * math.Sin(k*xi) * math.Cosh(k*eta)
	}
	e = 500000 + 0.9996*A*x
	n = 0.9996 * A * y
	if lat < 0 {
		n += 10000000
	}
	return e, n
}

// utmPos draws positions inside the UTM domain, many at the limits of zones and bands.
func utmPos(r *rand.Rand) (lat, lon float64) {
	lat, lon = r.Float64()*164-80, r.Float64()*360-180
	switch r.IntN(6) {
	case 0: // around Norway and Svalbard
		lat, lon = 54+r.Float64()*30, r.Float64()*46-2
	case 1: // southern limits
		lat = -80 + r.Float64()*2
	}
	eps := func() float64 {
		switch r.IntN(3) {
		case 0:
			return 0
		case 1:
			return math.Pow(10, -r.Float64()*9)
		}
		return -math.Pow(10, -r.Float64()*9)
	}
	if r.IntN(3) == 0 {
		lat = math.Round(lat/8)*8 + eps()
		if r.IntN(6) == 0 {
			lat = 84 + eps()
		}
		if r.IntN(4) == 0 { // the neighbouring doubles
			lat = math.Nextafter(math.Round(lat/4)*4, float64(r.IntN(3)-1)*100)
		}
	}
	if r.IntN(3) == 0 {
		lon = math.Round(lon/3)*3 + eps()
		if r.IntN(4) == 0 {
			lon = math.Nextafter(math.Round(lon/3)*3, float64(r.IntN(3)-1)*200)
		}
	}
	return math.Max(-80, math.Min(84, lat)), math.Max(-180, math.Min(180, lon))
}

func init() {
	register(&Prop{
		ID:   "C23",
		Rule: "positions over the whole UTM domain, a third of them at or next to zone and band limits, Norway, Svalbard, the equator and the antimeridian, projected by an independent Krueger series; out-of-domain arguments; distinct (zone, band, offset class)",
		Must: []string{"forward judged", "inverse by letter", "inverse by hemisphere", "Norway", "Svalbard", "antimeridian", "equator", "southern", "bad latitude refused", "bad longitude refused", "bad easting refused", "bad northing refused", "bad zone refused", "bad letter refused", "neither letter nor hemisphere refused", "letter and hemisphere refused", "edge arguments accepted"},
		Families: []Family{
			{Name: "positions", Quick: 300000, Thorough: 20000000, Run: c23pos},
			{Name: "arguments", Quick: 100000, Thorough: 2000000, Run: c23args},
		},
		Assume: []string{"WGS84 ellipsoid", "limits belong to the zone and band above, except latitude 84 (band X) and longitude 180 (zone 1 or 60)"},
	})
}

// metres between two nearby positions on the ellipsoid, roughly.
func degMetres(lat1, lon1, lat2, lon2 float64) float64 {
	dl := math.Mod(math.Abs(lon1-lon2), 360)
	dl = math.Min(dl, 360-dl)
	return math.Hypot((lat1-lat2)*111320, dl*111320*math.Cos(lat1*math.Pi/180))
}

func c23pos(c *Case) {
	r := c.R
	lat, lon := utmPos(r)
	hemi := r.IntN(2) == 0
	c.Desc(func() string { return fmt.Sprintf("latitude %v longitude %v hemisphere letter %v", lat, lon, hemi) })
	c.Check(geo.ValidateLatLone(lat, lon) == nil, "the position is refused by ValidateLatLone")
	e, n, zone, letter, err := geo.FromLatLon(lat, lon, hemi)
	c.Check(err == nil, "the position is refused: %v", err)
	want := utmZone(lat, lon)
	ok := zone == want
	if !ok {
		// a hair below a limit may round onto it
		for _, d := range []float64{-1e-12, 1e-12} {
			if lon+d >= -180 && lon+d <= 180 && zone == utmZone(lat, lon+d) && lon != math.Round(lon) {
				ok = true
			}
		}
	}
	if lon+180 == 360 { // 180 and the next double below it
		ok = zone == 1 || zone == 60
	}
	c.Check(ok, "the zone is %d, expected %d", zone, want)
	if hemi {
		h := "N"
		if lat < 0 {
			h = "S"
		}
		c.Check(letter == h, "the hemisphere letter is %q, expected %q", letter, h)
	} else {
		ok := letter == utmLetter(lat)
		if !ok && lat != math.Round(lat) { // a hair below a limit may round onto it
			ok = letter == utmLetter(lat-1e-12) || letter == utmLetter(lat+1e-12)
		}
		c.Check(ok, "the band letter is %q, expected %q", letter, utmLetter(lat))
	}
	we, wn := utmForward(lat, lon, zone)
	c.Check(math.Abs(e-we) <= 0.005 && math.Abs(n-wn) <= 0.005, "easting and northing are %v %v in zone %d, the projection gives %v %v", e, n, zone, we, wn)
	c.Ev("forward judged")
	c.NT(fmt.Sprint(zone, utmLetter(lat), hemi, math.Floor(e/40000)))
	if want == 32 && lat >= 56 && lat < 64 && lon < 6 {
		c.Ev("Norway")
	}
	if lat >= 72 && lon >= 0 && lon < 42 {
		c.Ev("Svalbard")
	}
	if math.Abs(lon) == 180 {
		c.Ev("antimeridian")
	}
	if lat == 0 {
		c.Ev("equator")
	}
	if lat < 0 {
		c.Ev("southern")
	}
	back := func(how string, la, lo float64, err error) {
		c.Check(err == nil, "the inverse by %s refuses the forward result: %v", how, err)
		miss := degMetres(lat, lon, la, lo)
		tol := 0.005 // the series loses precision in the wide zones of Norway and Svalbard
		if off := math.Abs(lon - float64(zone*6-183)); off > 3.5 && off < 350 {
			tol = 0.05
		}
		c.Check(miss <= tol, "the inverse by %s gives latitude %v longitude %v, %v m away", how, la, lo, miss)
		c.Ev("inverse by " + how)
	}
	la, lo, err := geo.ToLatLon(e, n, zone, "", lat >= 0)
	back("hemisphere", la, lo, err)
	if !hemi && (letter >= "N") == (lat >= 0) {
		if r.IntN(4) == 0 {
			letter = strings.ToLower(letter)
		}
		la, lo, err = geo.ToLatLon(e, n, zone, letter)
		back("letter", la, lo, err)
	}
}

func c23args(c *Case) {
	r := c.R
	bad := func(lo, hi float64) float64 { // outside [lo,hi]
		d := math.Pow(10, r.Float64()*14-8)
		switch r.IntN(6) {
		case 0:
			return math.NaN()
		case 1:
			return math.Inf(1)
		case 2:
			return math.Inf(-1)
		case 3:
			return math.Nextafter(hi, math.Inf(1))
		case 4:
			return math.Nextafter(lo, math.Inf(-1))
		}
		if r.IntN(2) == 0 {
			return lo - d - math.Abs(lo)*1e-12
		}
		return hi + d + math.Abs(hi)*1e-12
	}
	good := func() (e, n float64, z int, l string) {
		e, n = 100000+r.Float64()*899999, r.Float64()*1e7
		z = 1 + r.IntN(60)
		i := r.IntN(20)
		return e, n, z, utmLetters[i : i+1]
	}
	kind := r.IntN(9)
	var desc string
	c.Desc(func() string { return desc })
	e, n, z, l := good()
	refuse := func(what string) {
		desc = fmt.Sprintf("easting %v northing %v zone %d letter %q", e, n, z, l)
		_, _, err := geo.ToLatLon(e, n, z, l)
		c.Check(err != nil, "%s is accepted with a letter", what)
		c.Ev(what + " refused")
		if what != "bad letter" {
			_, _, err = geo.ToLatLon(e, n, z, "", r.IntN(2) == 0)
			c.Check(err != nil, "%s is accepted with a hemisphere", what)
		}
		c.NT(what + repr(e) + repr(n) + fmt.Sprint(z) + l)
	}
	switch kind {
	case 0, 1:
		lat, lon := utmPos(r)
		what := "bad latitude"
		if kind == 0 {
			lat = bad(-80, 84)
		} else {
			lon = bad(-180, 180)
			what = "bad longitude"
		}
		desc = fmt.Sprintf("latitude %v longitude %v", lat, lon)
		c.Check(geo.ValidateLatLone(lat, lon) != nil, "ValidateLatLone accepts a %s", what)
		_, _, _, _, err := geo.FromLatLon(lat, lon, r.IntN(2) == 0)
		c.Check(err != nil, "FromLatLon accepts a %s", what)
		c.Ev(what + " refused")
		c.NT(repr(lat) + repr(lon))
	case 2:
		e = bad(100000, 999999.9999)
		if e < 1000000 && e > 100000 {
			e = 1000000
		}
		refuse("bad easting")
	case 3:
		n = bad(0, 10000000)
		refuse("bad northing")
	case 4:
		z = []int{0, -1, 61, 1 << 30, -60, 60 + 1 + r.IntN(100), -r.IntN(100)}[r.IntN(7)]
		refuse("bad zone")
	case 5:
		l = []string{"A", "B", "I", "O", "Y", "Z", "a", "i", "o", "z", "1", " ", "@", "[", "é", "\x00"}[r.IntN(16)]
		refuse("bad letter")
	case 6:
		desc = fmt.Sprintf("easting %v northing %v zone %d", e, n, z)
		_, _, err := geo.ToLatLon(e, n, z, "")
		c.Check(err != nil, "neither letter nor hemisphere is accepted")
		c.Ev("neither letter nor hemisphere refused")
	case 7:
		desc = fmt.Sprintf("easting %v northing %v zone %d letter %s and hemisphere", e, n, z, l)
		_, _, err := geo.ToLatLon(e, n, z, l, r.IntN(2) == 0)
		c.Check(err != nil, "letter and hemisphere together are accepted")
		c.Ev("letter and hemisphere refused")
	case 8:
		e = []float64{100000, math.Nextafter(1000000, 0), e}[r.IntN(3)]
		n = []float64{0, 10000000, n}[r.IntN(3)]
		z = []int{1, 60, z}[r.IntN(3)]
		desc = fmt.Sprintf("easting %v northing %v zone %d letter %q", e, n, z, l)
		_, _, err := geo.ToLatLon(e, n, z, l)
		c.Check(err == nil, "arguments inside the limits are refused: %v", err)
		_, _, err = geo.ToLatLon(e, n, z, "", r.IntN(2) == 0)
		c.Check(err == nil, "arguments inside the limits are refused: %v", err)
		c.Ev("edge arguments accepted")
		c.NT(repr(e) + repr(n))
	}
}

// ---- datum conversions

// chinaShift is the published GCJ-02 offset in degrees.
func chinaShift(lon, lat float64) (dlon, dlat float64) {
	const a, ee = 6378245.0, 0.00669342162296594323
	x, y := lon-105, lat-35
	pi := math.Pi
	waves := (20*math.Sin(6*pi*x) + 20*math.Sin(2*pi*x)) * 2 / 3
	la := -100 + 2*x + 3*y + 0.2*y*y + 0.1*x*y + 0.2*math.Sqrt(math.Abs(x)) + waves +
		(20*math.Sin(pi*y)+40*math.Sin(pi*y/3))*2/3 + (160*math.Sin(pi*y/12)+320*math.Sin(pi*y/30))*2/3
	lo := 300 + x + 2*y + 0.1*x*x + 0.1*x*y + 0.1*math.Sqrt(math.Abs(x)) + waves +
		(20*math.Sin(pi*x)+40*math.Sin(pi*x/3))*2/3 + (150*math.Sin(pi*x/12)+300*math.Sin(pi*x/30))*2/3
	phi := lat * pi / 180
	w2 := 1 - ee*math.Sin(phi)*math.Sin(phi)
	meridian := a * (1 - ee) / math.Pow(w2, 1.5)
	parallel := a / math.Sqrt(w2) * math.Cos(phi)
	return lo / parallel * 180 / pi, la / meridian * 180 / pi
}

func inChina(lon, lat float64) bool {
	return lon > 73.66 && lon < 135.05 && lat > 3.86 && lat < 53.55
}

const bdTurn = math.Pi * 3000 / 180

func toBD(lon, lat float64) (float64, float64) {
	z := math.Hypot(lon, lat) + 0.00002*math.Sin(lat*bdTurn)
	t := math.Atan2(lat, lon) + 0.000003*math.Cos(lon*bdTurn)
	return z*math.Cos(t) + 0.0065, z*math.Sin(t) + 0.006
}

func fromBD(lon, lat float64) (float64, float64) {
	lon, lat = lon-0.0065, lat-0.006
	z := math.Hypot(lon, lat) - 0.00002*math.Sin(lat*bdTurn)
	t := math.Atan2(lat, lon) - 0.000003*math.Cos(lon*bdTurn)
	return z * math.Cos(t), z * math.Sin(t)
}

func toGCJ(lon, lat float64) (float64, float64) {
	if !inChina(lon, lat) {
		return lon, lat
	}
	x, y := chinaShift(lon, lat)
	return lon + x, lat + y
}

func fromGCJ(lon, lat float64) (float64, float64) {
	if !inChina(lon, lat) {
		return lon, lat
	}
	x, y := chinaShift(lon, lat)
	return lon - x, lat - y
}

func init() {
	register(&Prop{
		ID:   "C24",
		Rule: "longitudes and latitudes inside China, at and around the limits of its bounding region and over the rest of the globe, judged against the published transforms written out independently, and round trips inside China; distinct (function, degree cell)",
		Must: []string{"inside China", "outside China", "exact limit of the region", "identity outside", "round trip WGS84-GCJ02", "round trip GCJ02-BD09", "round trip WGS84-BD09"},
		Families: []Family{
			{Name: "transforms", Quick: 300000, Thorough: 20000000, Run: c24},
		},
		Assume: []string{"one step of the published inverse is accurate to 1e-4 degrees, ten metres"},
	})
}

func c24(c *Case) {
	r := c.R
	lon, lat := 73.66+r.Float64()*(135.05-73.66), 3.86+r.Float64()*(53.55-3.86)
	switch r.IntN(6) {
	case 0:
		lon, lat = r.Float64()*360-180, r.Float64()*180-90
	case 1: // at the limits
		e := []float64{0, 0, 1e-9, -1e-9, 1e-3, -1e-3}[r.IntN(6)]
		switch r.IntN(4) {
		case 0:
			lon = 73.66 + e
		case 1:
			lon = 135.05 + e
		case 2:
			lat = 3.86 + e
		case 3:
			lat = 53.55 + e
		}
		if e == 0 {
			c.Ev("exact limit of the region")
		}
	case 2:
		lon, lat = math.Round(lon), math.Round(lat)
	}
	c.Desc(func() string { return fmt.Sprintf("longitude %v latitude %v", lon, lat) })
	in := inChina(lon, lat)
	deep := lon > 73.7 && lon < 135 && lat > 3.9 && lat < 53.5
	if in {
		c.Ev("inside China")
	} else {
		c.Ev("outside China")
	}
	c.NT(fmt.Sprint(math.Floor(lon*4), math.Floor(lat*4)))
	const tol = 1e-9
	same := func(name string, f, g func(a, b float64) (float64, float64)) {
		x, y := f(lon, lat)
		u, v := g(lon, lat)
		c.Check(math.Abs(x-u) <= tol && math.Abs(y-v) <= tol, "%s gives %v %v, the published transform %v %v", name, x, y, u, v)
	}
	same("WGS84toGCJ02", geo.WGS84toGCJ02, toGCJ)
	same("GCJ02toWGS84", geo.GCJ02toWGS84, fromGCJ)
	same("GCJ02toBD09", geo.GCJ02toBD09, toBD)
	same("BD09toGCJ02", geo.BD09toGCJ02, fromBD)
	if !in {
		x, y := geo.WGS84toGCJ02(lon, lat)
		c.Check(x == lon && y == lat, "outside China the position moves to %v %v", x, y)
		c.Ev("identity outside")
	}
	// Where the first step is within rounding of the region's limits the second may take either branch.
	edge := func(x, y float64) bool {
		return math.Abs(x-73.66) < 1e-8 || math.Abs(x-135.05) < 1e-8 || math.Abs(y-3.86) < 1e-8 || math.Abs(y-53.55) < 1e-8
	}
	if x, y := fromBD(lon, lat); !edge(x, y) {
		same("BD09toWGS84", geo.BD09toWGS84, func(a, b float64) (float64, float64) { return fromGCJ(fromBD(a, b)) })
	}
	same("WGS84toBD09", geo.WGS84toBD09, func(a, b float64) (float64, float64) { return toBD(toGCJ(a, b)) })
	if deep {
		trip := func(name string, there, back func(a, b float64) (float64, float64), tol float64) {
			x, y := back(there(lon, lat))
			c.Check(math.Abs(x-lon) <= tol && math.Abs(y-lat) <= tol, "the round trip %s returns %v %v", name, x, y)
			c.Ev("round trip " + name)
		}
		trip("WGS84-GCJ02", geo.WGS84toGCJ02, geo.GCJ02toWGS84, 1e-4)
		trip("WGS84-GCJ02", geo.GCJ02toWGS84, geo.WGS84toGCJ02, 1e-4)
		trip("GCJ02-BD09", geo.GCJ02toBD09, geo.BD09toGCJ02, 5e-6)
		trip("GCJ02-BD09", geo.BD09toGCJ02, geo.GCJ02toBD09, 5e-6)
		trip("WGS84-BD09", geo.WGS84toBD09, geo.BD09toWGS84, 1e-4)
		trip("WGS84-BD09", geo.BD09toWGS84, geo.WGS84toBD09, 1e-4)
	}
}
