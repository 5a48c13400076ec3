package loc

import "math"

// face describes one face of the icosahedron (constants of the H3
// specification): its centre and the azimuth of its i axis.
type face struct{ lat, lng, az float64 }

var faces = [20]face{
	{0.803582649718989942, 1.248397419617396099, 5.619958268523939882},
	{1.307747883455638156, 2.536945009877921159, 5.760339081714187279},
	{1.054751253523952054, -1.347517358900396623, 0.780213654393430055},
	{0.600191595538186799, -0.450603909469755746, 0.430469363979999913},
	{0.491715428198773866, 0.401988202911306943, 6.130269123335111400},
	{0.172745327415618701, 1.678146885280433686, 2.692877706530642877},
	{0.605929321571350690, 2.953923329812411617, 2.982963003477243874},
	{0.427370518328979641, -1.888876200336285401, 3.532912002790141181},
	{-0.079066118549212831, -0.733429513380867741, 3.494305004259568154},
	{-0.230961644455383637, 0.506495587332349035, 3.003214169499538391},
	{0.079066118549212831, 2.408163140208925497, 5.930472956509811562},
	{0.230961644455383637, -2.635097066257444203, 0.138378484090254847},
	{-0.172745327415618701, -1.463445768309359553, 0.448714947059150361},
	{-0.605929321571350690, -0.187669323777381622, 0.158629650112549365},
	{-0.427370518328979641, 1.252716453253507838, 5.891865957979238535},
	{-0.600191595538186799, 2.690988744120037492, 2.711123289609793325},
	{-0.491715428198773866, -2.739604450678486295, 3.294508837434268316},
	{-0.803582649718989942, -1.893195233972397139, 3.804819692245439833},
	{-1.307747883455638156, -0.604647643711872080, 3.664438879055192436},
	{-1.054751253523952054, 1.794075294689396615, 2.361378999196363184},
}

const (
	res0Gnomonic = 0.38196601125010500003
	ap7Rot       = 0.333473172251832115336090755351601070065900389
	sqrt7        = 2.6457513110645905905016157536392604257102
)

// dot returns the cosine of the angle between a point and a face centre.
func (f *face) dot(lat, lng float64) float64 {
	return math.Sin(f.lat)*math.Sin(lat) + math.Cos(f.lat)*math.Cos(lat)*math.Cos(lng-f.lng)
}

// hex2d projects a point onto a face: gnomonic projection, rotated to the i
// axis of the resolution and scaled to unit hexagons.
func (f *face) hex2d(lat, lng float64, res int) (x, y float64) {
	dl := lng - f.lng
	c := f.dot(lat, lng)
	n := (math.Cos(f.lat)*math.Sin(lat) - math.Sin(f.lat)*math.Cos(lat)*math.Cos(dl)) / c
	e := math.Cos(lat) * math.Sin(dl) / c
	az := f.az
	if res%2 == 1 {
		az -= ap7Rot
	}
	s := scale(res)
	return s * (math.Cos(az)*n + math.Sin(az)*e), s * (math.Sin(az)*n - math.Cos(az)*e)
}

// geo is the inverse of hex2d.
func (f *face) geo(x, y float64, res int) (lat, lng float64) {
	az := f.az
	if res%2 == 1 {
		az -= ap7Rot
	}
	s := scale(res)
	x, y = x/s, y/s
	n := math.Cos(az)*x + math.Sin(az)*y
	e := math.Sin(az)*x - math.Cos(az)*y
	// centre + n*north + e*east
	sl, cl := math.Sincos(f.lat)
	sn, cn := math.Sincos(f.lng)
	X := cl*cn - n*sl*cn - e*sn
	Y := cl*sn - n*sl*sn + e*cn
	Z := sl + n*cl
	return math.Atan2(Z, math.Hypot(X, Y)), math.Atan2(Y, X)
}

func scale(res int) float64 {
	s := 1 / res0Gnomonic
	for i := 0; i < res; i++ {
		s *= sqrt7
	}
	return s
}

// hexNorm is 0.5 on the boundary of the unit hexagon around the origin.
func hexNorm(x, y float64) float64 {
	a := math.Abs(x)
	b := math.Abs(x/2 + y*math.Sqrt(3)/2)
	c := math.Abs(x/2 - y*math.Sqrt(3)/2)
	return math.Max(a, math.Max(b, c))
}

// center of a cell in its face plane.
func (c IJK) center() (x, y float64) {
	i, j := c[0]-c[2], c[1]-c[2]
	return float64(i) - float64(j)/2, float64(j) * math.Sqrt(3) / 2
}

// nearest returns the cell containing a point.
func nearest(x, y float64) IJK {
	j0 := int64(math.Round(y / (math.Sqrt(3) / 2)))
	var best IJK
	bd := math.Inf(1)
	for dj := int64(-1); dj <= 1; dj++ {
		j := j0 + dj
		i0 := int64(math.Round(x + float64(j)/2))
		for di := int64(-1); di <= 1; di++ {
			c := IJK{i0 + di, j, 0}.normal()
			cx, cy := c.center()
			if d := math.Hypot(x-cx, y-cy); d < bd {
				best, bd = c, d
			}
		}
	}
	return best
}

// normal is the representation with all components non-negative and one zero.
func (c IJK) normal() IJK {
	m := min(c[0], c[1], c[2])
	return IJK{c[0] - m, c[1] - m, c[2] - m}
}
