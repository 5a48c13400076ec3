package loc

import (
	"fmt"
	"math"
	"math/big"
	"math/rand"

	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/frontendtype"
	loc32 "github.com/tumberger/zk-Location/loc2index32"
	loc64 "github.com/tumberger/zk-Location/loc2index64"

	"verif/harness/fp"
	"verif/harness/mon"
)

// variant is one of the location circuits.
type variant struct {
	name string
	f    fp.Fmt
	mk   func(lat, lng, res, i, j, k frontend.Variable) frontend.Circuit
	// tolerances in units of the format's precision: of a position on the unit
	// sphere, and of a squared distance to a face centre
	pos, face float64
}

func (v *variant) eps() float64 { return math.Ldexp(1, -int(v.f.M)-1) }

func (v *variant) bits(x float64) uint64 {
	if v.f.M == 23 {
		return uint64(math.Float32bits(float32(x)))
	}
	return math.Float64bits(x)
}

func (v *variant) value(b uint64) float64 {
	if v.f.M == 23 {
		return float64(math.Float32frombits(uint32(b)))
	}
	return math.Float64frombits(b)
}

// pi as the circuit sees it.
func (v *variant) pi() float64 { return v.value(v.bits(math.Pi)) }

var v64 = &variant{name: "loc64", f: fp.F64, mk: loc64.ZZCircuit64, pos: 6, face: 16}
var v32 = &variant{name: "loc32", f: fp.F32, mk: loc32.ZZCircuit32, pos: 16, face: 16}
var v32w = &variant{name: "loc32taylor", f: fp.F32, mk: loc32.ZZCircuitWrapper, pos: 28, face: 16}

// cell runs the circuit and returns the indices it computes. The claimed
// indices are only asserted equal to the computed ones; those assertions are
// intercepted.
func (v *variant) cell(lat, lng uint64, res int, ft frontendtype.Type) (out [3]*big.Int, fail *mon.Failure, e *mon.Engine) {
	return v.cell2(lat, lng, res, ft, nil)
}

func (v *variant) cell2(lat, lng uint64, res int, ft frontendtype.Type, tamper func(e *mon.Engine, site int, fn string, in, out []*big.Int)) (out [3]*big.Int, fail *mon.Failure, e *mon.Engine) {
	e = mon.New()
	e.FT = ft
	e.Tamper = tamper
	probe := [3]*mon.V{}
	for i := range probe {
		probe[i] = e.Input(big.NewInt(int64(-7 - i)))
	}
	e.Equal = func(a, b frontend.Variable) bool {
		for i, p := range probe {
			if a == frontend.Variable(p) {
				out[i] = e.SignedBig(b)
				return true
			}
			if b == frontend.Variable(p) {
				out[i] = e.SignedBig(a)
				return true
			}
		}
		return false
	}
	in := func(x uint64) frontend.Variable { return e.Input(new(big.Int).SetUint64(x)) }
	c := v.mk(in(lat), in(lng), in(uint64(res)), probe[0], probe[1], probe[2])
	fail = e.Run(func(api frontend.API) {
		if err := c.Define(api); err != nil {
			panic(err)
		}
	})
	return
}

// point draws a location; kind names what it is near to.
func (v *variant) point(rng *rand.Rand, kind int) (lat, lng uint64, res int, what string) {
	res = rng.Intn(16)
	small := func(lo, hi float64) float64 {
		d := math.Pow(10, lo+(hi-lo)*rng.Float64())
		if rng.Intn(2) == 0 {
			d = -d
		}
		return d
	}
	var a, o float64
	f := &faces[rng.Intn(20)]
	switch kind % 9 {
	case 0, 1:
		what = "anywhere"
		a, o = math.Asin(2*rng.Float64()-1), (2*rng.Float64()-1)*math.Pi
	case 2, 3:
		what = "hexagon edge"
		// a cell around a random point of the face, then a point of its boundary
		r := math.Sqrt(rng.Float64()) * 0.7
		if rng.Intn(3) == 0 {
			r = math.Pow(10, -6*rng.Float64())
		}
		t := rng.Float64() * 2 * math.Pi
		s := scale(res)
		cx, cy := nearest(s*r*math.Cos(t), s*r*math.Sin(t)).center()
		u := float64(rng.Intn(6)) * math.Pi / 3
		e := 0.5 + small(-12, -1)
		w := (rng.Float64() - 0.5) / math.Sqrt(3)
		a, o = f.geo(cx+e*math.Cos(u)-w*math.Sin(u), cy+e*math.Sin(u)+w*math.Cos(u), res)
	case 4:
		what = "hexagon corner"
		r := math.Sqrt(rng.Float64()) * 0.7
		t := rng.Float64() * 2 * math.Pi
		s := scale(res)
		cx, cy := nearest(s*r*math.Cos(t), s*r*math.Sin(t)).center()
		u := (float64(rng.Intn(6)) + 0.5) * math.Pi / 3
		a, o = f.geo(cx+math.Cos(u)/math.Sqrt(3)+small(-12, -1), cy+math.Sin(u)/math.Sqrt(3)+small(-12, -1), res)
	case 5:
		what = "face edge"
		// edge between f and one of its neighbours
		var g *face
		for {
			g = &faces[rng.Intn(20)]
			if d := f.dot(g.lat, g.lng); d > 0.5 && d < 0.99 {
				break
			}
		}
		p, q := f.xyz(), g.xyz()
		w := small(-16, -2)
		n := [3]float64{p[1]*q[2] - p[2]*q[1], p[2]*q[0] - p[0]*q[2], p[0]*q[1] - p[1]*q[0]}
		l := (2*rng.Float64() - 1) * 0.8
		var m [3]float64
		for i := range m {
			m[i] = p[i]*(0.5+w) + q[i]*(0.5-w) + n[i]*l
		}
		a, o = math.Atan2(m[2], math.Hypot(m[0], m[1])), math.Atan2(m[1], m[0])
	case 6:
		what = "face centre"
		d := -1.0
		lo := math.Log10(v.eps()) - 1
		if rng.Intn(8) == 0 {
			a, o = f.lat, f.lng
			break
		}
		a, o = f.lat+small(lo, d), f.lng+small(lo, d)
		if rng.Intn(4) == 0 {
			a = f.lat
		} else if rng.Intn(4) == 0 {
			o = f.lng
		}
	case 7:
		what = "pole or meridian"
		sp := []float64{0, math.Copysign(0, -1), v.pi() / 2, -v.pi() / 2, v.pi() / 4, 1, 0.5, small(-320, -1), small(-40, -1), math.Pi/2 - math.Abs(small(-16, -1))}
		a = sp[rng.Intn(len(sp))]
		if rng.Intn(3) == 0 {
			a = math.Asin(2*rng.Float64() - 1)
		}
		so := append(sp, v.pi(), -v.pi(), math.Pi-math.Abs(small(-16, -1)), -math.Pi+math.Abs(small(-16, -1)), math.Pi/2+small(-16, -1), -math.Pi/2+small(-16, -1), 3*math.Pi/4)
		o = so[rng.Intn(len(so))]
		if rng.Intn(3) == 0 {
			o = (2*rng.Float64() - 1) * math.Pi
		}
	}
	if kind%9 == 8 {
		// due north, south, east or west of a face centre: one component of
		// the direction is within rounding of 0
		what = "axis of a face"
		d := (rng.Float64()*2 - 1) * 0.6
		if rng.Intn(2) == 0 {
			a, o = f.lat+d, f.lng
		} else {
			o = f.lng + d
			a = math.Atan(math.Tan(f.lat) * math.Cos(d))
		}
		lat, lng = v.f.Step(v.bits(a), int64(rng.Intn(7)-3)), v.bits(o)
	} else {
		lat, lng = v.bits(a), v.bits(o)
	}
	if math.Abs(v.value(lat)) > v.pi()/2 || math.Abs(v.value(lng)) > v.pi() {
		return v.point(rng, kind)
	}
	return
}

func (f *face) xyz() [3]float64 {
	return [3]float64{math.Cos(f.lat) * math.Cos(f.lng), math.Cos(f.lat) * math.Sin(f.lng), math.Sin(f.lat)}
}

// judge compares indices with the geometry: the smallest tolerances (in units
// of the format's precision) under which they are right.
func (v *variant) judge(lat, lng uint64, res int, c IJK) (pos, fac float64) {
	a, o := v.value(lat), v.value(lng)
	top := -2.0
	for i := range faces {
		top = math.Max(top, faces[i].dot(a, o))
	}
	pos, fac = math.Inf(1), math.Inf(1)
	bestSum := math.Inf(1)
	cx, cy := c.center()
	for i := range faces {
		d := faces[i].dot(a, o)
		if d < 0.7 {
			continue
		}
		x, y := faces[i].hex2d(a, o, res)
		p := math.Max(0, (hexNorm(x-cx, y-cy)-0.5)/scale(res)/v.eps())
		g := (top - d) / v.eps()
		if p+g < bestSum {
			pos, fac, bestSum = p, g, p+g
		}
	}
	return
}

func (v *variant) desc(lat, lng uint64, res int) string {
	return fmt.Sprintf("lat=%v (%#x) lng=%v (%#x) resolution=%d", v.value(lat), lat, v.value(lng), lng, res)
}

// reference is the cell of a location by exact projection.
func (v *variant) reference(lat, lng uint64, res int) (int, IJK) {
	a, o := v.value(lat), v.value(lng)
	best := 0
	for i := range faces {
		if faces[i].dot(a, o) > faces[best].dot(a, o) {
			best = i
		}
	}
	x, y := faces[best].hex2d(a, o, res)
	return best, nearest(x, y)
}
