package sys

import (
	"bufio"
	"encoding/hex"
	"fmt"
	"io"
	"math"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	"github.com/tumberger/zk-Location/util"
	"github.com/uber/h3-go/v4"

	"verif/harness/rep"
)

func init() {
	All["U02"] = proximity
	All["U03"] = distances
	All["U04"] = helpers
	All["U05"] = tables
}

// scratch makes a directory like the repository's, with stand-ins for the H3
// programs that log their arguments and print what the case wants.
func scratch(r *rep.R) (dir string, done func()) {
	dir, err := os.MkdirTemp("", "verif-tools")
	if err != nil {
		r.Broken("%v", err)
		return "", nil
	}
	bin := filepath.Join(dir, "h3-master", "build", "bin")
	os.MkdirAll(bin, 0755)
	os.MkdirAll(filepath.Join(dir, "proximity"), 0755)
	for _, n := range []string{"latLngToCell", "cellToBoundary", "cellToLatLng"} {
		script := "#!/bin/sh\necho " + n + " \"$@\" >> '" + dir + "/log'\ncat '" + dir + "/" + n + ".out'\nexit `cat '" + dir + "/" + n + ".rc'`\n"
		if err := os.WriteFile(filepath.Join(bin, n), []byte(script), 0755); err != nil {
			r.Broken("%v", err)
			return "", nil
		}
	}
	return dir, func() { os.RemoveAll(dir) }
}

func stand(dir, program, out string, rc int) {
	os.WriteFile(filepath.Join(dir, program+".out"), []byte(out), 0644)
	os.WriteFile(filepath.Join(dir, program+".rc"), []byte(strconv.Itoa(rc)), 0644)
}

func takeLog(dir string) [][]string {
	b, _ := os.ReadFile(filepath.Join(dir, "log"))
	os.Remove(filepath.Join(dir, "log"))
	var l [][]string
	for _, s := range strings.Split(strings.TrimSpace(string(b)), "\n") {
		l = append(l, strings.Fields(s))
	}
	return l
}

// arg returns the value of an argument of a logged call.
func arg(call []string, name string) string {
	for i := range call {
		if call[i] == name && i+1 < len(call) {
			return call[i+1]
		}
	}
	return ""
}

// greatCircle is the distance of two points in degrees, in radians: the angle
// between the position vectors, accurate everywhere.
func greatCircle(lat1, lng1, lat2, lng2 float64) float64 {
	p := func(lat, lng float64) [3]float64 {
		a, b := lat*math.Pi/180, lng*math.Pi/180
		return [3]float64{math.Cos(a) * math.Cos(b), math.Cos(a) * math.Sin(b), math.Sin(a)}
	}
	a, b := p(lat1, lng1), p(lat2, lng2)
	x := [3]float64{a[1]*b[2] - a[2]*b[1], a[2]*b[0] - a[0]*b[2], a[0]*b[1] - a[1]*b[0]}
	return math.Atan2(math.Sqrt(x[0]*x[0]+x[1]*x[1]+x[2]*x[2]), a[0]*b[0]+a[1]*b[1]+a[2]*b[2])
}

func randomCell(rng *rand.Rand) h3.Cell {
	lat := math.Asin(2*rng.Float64()-1) * 180 / math.Pi
	lng := rng.Float64()*360 - 180
	switch rng.Intn(6) {
	case 0:
		lat = 90 - rng.Float64()*rng.Float64()*3
	case 1:
		lng = 180 - rng.Float64()
	case 2:
		lat, lng = rng.NormFloat64(), rng.NormFloat64() // around 0, 0
	case 3:
		// near the verifier or opposite of it
		lat, lng = 40.689167+rng.NormFloat64(), 72.044444+rng.NormFloat64()
		if rng.Intn(2) == 0 {
			lat, lng = -lat, lng-180
		}
	}
	if rng.Intn(4) == 0 {
		lat = -lat
	}
	c := h3.LatLngToCell(h3.NewLatLng(lat, lng), rng.Intn(16))
	switch rng.Intn(4) {
	case 0:
		// a pentagon
		ps := h3.Pentagons(rng.Intn(16))
		c = ps[rng.Intn(len(ps))]
	case 1:
		// a distorted cell, with additional vertices where it crosses an edge
		// of the icosahedron
		for i := 0; i < 3000 && len(c.Boundary()) < 7; i++ {
			c = h3.LatLngToCell(h3.NewLatLng(math.Asin(2*rng.Float64()-1)*180/math.Pi, rng.Float64()*360-180), 1+2*rng.Intn(3))
		}
	}
	return c
}

var distanceLine = regexp.MustCompile(`(?i)closest distance[^\n]*: ([^ \n]+)`)

// proximity: the program reports the distance to the nearest vertex.
func proximity(r *rep.R) {
	r.Rule = "one case is one run of the proximity program against stand-ins of the H3 programs; non-trivial when the distance printed was compared with the nearest vertex of the boundary supplied, or an H3 program failed"
	r.Assume = []string{"the verifier stands at 40.689167, 72.044444 as in the program; boundaries come from the H3 library and are printed as the H3 programs print them"}
	dir, done := scratch(r)
	if dir == "" {
		return
	}
	defer done()
	rng := rand.New(rand.NewSource(int64(rep.Mix(uint64(r.Seed), rep.Str("U02")) >> 1)))
	n := r.N(150, 4000)
	for i := 0; i < n && !r.Failed(); i++ {
		c := randomCell(rng)
		if i == 0 {
			c = h3.Cell(h3.IndexFromString("842a107ffffffff"))
		}
		index := c.String()
		var text strings.Builder
		fmt.Fprintf(&text, "%s\n{\n", index)
		want := math.Inf(1)
		var vertices [][2]float64
		boundary := c.Boundary()
		// a boundary may start at any of its vertices
		k := rng.Intn(len(boundary))
		boundary = append(append(h3.CellBoundary{}, boundary[k:]...), boundary[:k]...)
		r.Count(fmt.Sprintf("boundaries of %d vertices", len(boundary)), 1)
		for _, v := range boundary {
			fmt.Fprintf(&text, "   %.10f %.10f\n", v.Lat, v.Lng)
			vertices = append(vertices, [2]float64{v.Lat, v.Lng})
			want = math.Min(want, 6371*greatCircle(40.689167, 72.044444, v.Lat, v.Lng))
		}
		text.WriteString("}\n")
		fail, garbage := "", false
		if i%10 == 9 {
			fail = []string{"latLngToCell", "cellToBoundary"}[i/10%2]
			// some failures show in the output only
			garbage = i/20%2 == 1
		}
		rc := func(p string) int {
			if p == fail && !garbage {
				return 1
			}
			return 0
		}
		says := func(p, s string) string {
			if p == fail && garbage {
				return []string{"", "invalid arguments\n"}[i/40%2]
			}
			return s
		}
		stand(dir, "latLngToCell", says("latLngToCell", fmt.Sprintf("I: 1, J: 2, K: 0\n--- %s\n", index)), rc("latLngToCell"))
		stand(dir, "cellToBoundary", says("cellToBoundary", text.String()), rc("cellToBoundary"))
		stand(dir, "cellToLatLng", "1.0 2.0\n", 0)
		cmd := exec.Command(filepath.Join(rep.BinDir(), "proximity"))
		cmd.Dir = filepath.Join(dir, "proximity")
		out, err := cmd.CombinedOutput()
		calls := takeLog(dir)
		r.Eval(1)
		r.Distinct(rep.Mix(uint64(c), rep.Str(fail)))
		r.Count("calls of H3 programs recorded", int64(len(calls)))
		m := distanceLine.FindSubmatch(out)
		d := map[string]any{"cell": index, "boundary": vertices, "failing": fail, "output": string(out)}
		what := fmt.Sprintf("cell %s with vertices %v", index, vertices)
		if i < 4 {
			r.Sample(fmt.Sprintf("%s: %s", what, m))
		}
		if err != nil && strings.Contains(string(out), "goroutine ") {
			r.Violate("crash", fmt.Sprintf("%s: the program crashed: %s", what, out), d)
			return
		}
		if fail != "" {
			r.Count("runs with a failing H3 program", 1)
			if m != nil {
				r.Violate("failure", fmt.Sprintf("%s fails, but a distance is reported: %s", fail, m[0]), d)
			}
			continue
		}
		for _, call := range calls {
			switch call[0] {
			case "cellToBoundary":
				if arg(call, "--index") != index {
					r.Violate("index", fmt.Sprintf("the boundary of %v is asked for instead of %s", call, index), d)
				}
			case "latLngToCell":
				lat, _ := strconv.ParseFloat(arg(call, "--latitude"), 64)
				lng, _ := strconv.ParseFloat(arg(call, "--longitude"), 64)
				if lat != 40.689167 || lng != 74.044444 || arg(call, "--resolution") != "4" {
					r.Violate("prover", fmt.Sprintf("the prover's cell is asked for as %v", call), d)
				}
			}
		}
		if m == nil {
			r.Violate("silent", fmt.Sprintf("%s: no distance reported: %s", what, out), d)
			return
		}
		got, err := strconv.ParseFloat(string(m[1]), 64)
		r.Count("distances compared", 1)
		// printed to two digits from coordinates of ten; the haversine loses
		// half the digits opposite of the verifier
		tol := 0.0051
		if want > 19900 {
			tol = 1
		}
		if err != nil || !(math.Abs(got-want) <= tol) {
			r.Violate("distance", fmt.Sprintf("%s: distance %s km reported, but the nearest vertex is %.4f km away", what, m[1], want), d)
		}
	}
}

// server is a running instance of the proximity program serving its functions.
type server struct {
	in  io.WriteCloser
	out *bufio.Reader
	cmd *exec.Cmd
}

func serve(dir, program string) (*server, error) {
	cmd := exec.Command(filepath.Join(rep.BinDir(), program))
	cmd.Env = append(os.Environ(), "VERIF_PROXIMITY=1")
	cmd.Dir = dir
	cmd.Stderr = os.Stderr
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	return &server{in, bufio.NewReader(out), cmd}, cmd.Start()
}

func (s *server) ask(format string, v ...any) (string, error) {
	if _, err := fmt.Fprintf(s.in, format+"\n", v...); err != nil {
		return "", err
	}
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

// distances: great circles everywhere, and cells written to files.
func distances(r *rep.R) {
	r.Assume = []string{"the program's functions are called in the program as built from the working tree, through an entry point added at build time"}
	r.Rule = "one case is one pair of points or one list of cells; non-trivial when the distance was compared with the angle between the position vectors, or the file read back"
	dir, done := scratch(r)
	if dir == "" {
		return
	}
	defer done()
	s, err := serve(dir, "proximity-served")
	if err != nil {
		r.Broken("%v", err)
		return
	}
	defer func() { s.in.Close(); s.cmd.Wait() }()
	rng := rand.New(rand.NewSource(int64(rep.Mix(uint64(r.Seed), rep.Str("U03")) >> 1)))
	point := func() (lat, lng float64) {
		lat, lng = math.Asin(2*rng.Float64()-1)*180/math.Pi, rng.Float64()*360-180
		switch rng.Intn(8) {
		case 0:
			lat, lng = float64(rng.Intn(5)*45-90), float64(rng.Intn(9)*45-180)
		case 1:
			lat = math.Copysign(90, lat)
		case 2:
			lng = math.Copysign(180, lng)
		case 3:
			lat = 0
		}
		return
	}
	n := r.N(60000, 6000000)
	for i := 0; i < n && !r.Failed(); i++ {
		a, b := point()
		c, d := point()
		kind := "any"
		switch i % 4 {
		case 1: // near
			kind = "near"
			e := math.Pow(10, -9*rng.Float64())
			c, d = a+e*rng.NormFloat64(), b+e*rng.NormFloat64()
		case 2: // opposite
			kind = "opposite"
			e := math.Pow(10, -17*rng.Float64())
			if rng.Intn(3) == 0 {
				e = 0
			}
			c, d = -a+e*rng.NormFloat64(), b-180+e*rng.NormFloat64()
			if b < 0 {
				d += 360
			}
		case 3:
			if rng.Intn(3) == 0 {
				kind = "same"
				c, d = a, b
			}
		}
		c = math.Max(-90, math.Min(90, c))
		l, err := s.ask("distance %d %d %d %d", math.Float64bits(a), math.Float64bits(b), math.Float64bits(c), math.Float64bits(d))
		u, err2 := strconv.ParseUint(l, 10, 64)
		if err != nil || err2 != nil {
			r.Violate("crash", fmt.Sprintf("the distance of (%v, %v) and (%v, %v) crashed the program: %v %q", a, b, c, d, err, l), nil)
			return
		}
		got := math.Float64frombits(u)
		want := 6371000 * greatCircle(a, b, c, d)
		r.Eval(1)
		r.Distinct(rep.Mix(math.Float64bits(a), math.Float64bits(b), math.Float64bits(c), math.Float64bits(d)))
		r.Count("distances compared: "+kind, 1)
		if i < 6 {
			r.Sample(fmt.Sprintf("(%v, %v) to (%v, %v): %v m", a, b, c, d, got))
		}
		// one metre opposite, where the haversine loses half the digits
		tol := 1e-3 + 1e-9*want
		if want > 2.0e7 {
			tol = 2
		}
		if !(math.Abs(got-want) <= tol) {
			r.Violate("distance/"+kind, fmt.Sprintf("the distance of (%v, %v) and (%v, %v) is %v m instead of %v m", a, b, c, d, got, want), map[string]any{"points": []float64{a, b, c, d}})
		}
	}
	for i := 0; i < r.N(60, 2000) && !r.Failed(); i++ {
		k := rng.Intn(40)
		single := rng.Intn(2)
		name := filepath.Join(dir, "cells")
		if rng.Intn(2) == 0 {
			os.Remove(name)
		}
		var req strings.Builder
		v := make([][2]float64, k)
		for j := range v {
			v[j][0], v[j][1] = point()
			switch rng.Intn(6) {
			case 0:
				v[j][0] = math.Copysign(0, v[j][0])
			case 1:
				v[j][1] = math.SmallestNonzeroFloat64 * float64(rng.Intn(9))
			}
			fmt.Fprintf(&req, " %d %d", math.Float64bits(v[j][0]), math.Float64bits(v[j][1]))
		}
		l, err := s.ask("write %s %d %d%s", name, single, k, req.String())
		b, _ := os.ReadFile(name)
		r.Eval(1)
		r.Distinct(rep.Mix(rep.Str(req.String()), uint64(single)))
		r.Count("cells written", int64(k))
		if err != nil || l != "true" {
			r.Violate("write", fmt.Sprintf("writing %d cells failed: %v %q", k, err, l), nil)
			return
		}
		f := strings.Fields(string(b))
		if len(f) != 2*k || strings.Count(string(b), "\n") != k {
			r.Violate("write", fmt.Sprintf("%d cells written as %q", k, b), nil)
			return
		}
		for j, h := range f {
			w := v[j/2][j%2]
			if single == 1 {
				w = float64(float32(w))
			}
			got, err := util.HexToFloat(h)
			if err != nil || math.Float64bits(got) != math.Float64bits(w) {
				r.Violate("write", fmt.Sprintf("the coordinate %v is written as %s, which is %v", w, h, got), nil)
				return
			}
		}
	}
	if l, err := s.ask("write /dev/full 0 1 1 1"); err == nil && l == "true" {
		r.Violate("full", "writing cells to a full disk reports success", nil)
	}
	if l, err := s.ask("write %s 0 1 1 1", filepath.Join(dir, "missing", "file")); err == nil && l == "true" {
		r.Violate("missing", "writing cells to a missing directory reports success", nil)
	}
}

// helpers: coordinates, cells and bytes pass through unchanged.
func helpers(r *rep.R) {
	r.Assume = []string{"the H3 library is the reference for cells and local coordinates"}
	r.Rule = "one case is one call of a helper; non-trivial when its result and the arguments it passed on were compared with the H3 library or the input"
	dir, done := scratch(r)
	if dir == "" {
		return
	}
	defer done()
	if err := os.Chdir(filepath.Join(dir, "proximity")); err != nil {
		r.Broken("%v", err)
		return
	}
	defer os.Chdir("/")
	rng := rand.New(rand.NewSource(int64(rep.Mix(uint64(r.Seed), rep.Str("U04")) >> 1)))
	for i := 0; i < r.N(300, 6000) && !r.Failed(); i++ {
		lat, lng := rng.Float64()*180-90, rng.Float64()*360-180
		switch rng.Intn(4) {
		case 0:
			lat *= math.Pow(10, -20*rng.Float64())
		case 1:
			lng *= math.Pow(10, -20*rng.Float64())
		}
		res := rng.Intn(16)
		I, J, K := rng.Intn(1<<rng.Intn(30)), rng.Intn(1<<rng.Intn(30)), rng.Intn(1<<rng.Intn(30))
		out, rc := fmt.Sprintf("I: %d, J: %d, K: %d\n--- 8%07xfffffff\n", I, J, K, rng.Intn(1<<28)), 0
		ok := true
		switch rng.Intn(8) {
		case 0:
			rc, ok = 1+rng.Intn(9), false
		case 1:
			out, ok = []string{"", "no such cell\n", "I: 1, J: 2\n", "I: , J: , K: \n"}[rng.Intn(4)], false
		case 2:
			out = "some notice\n" + out
		}
		stand(dir, "latLngToCell", out, rc)
		i, j, k, err := util.ExecuteLatLngToIJK(res, lat, lng)
		calls := takeLog(dir)
		r.Eval(1)
		r.Distinct(rep.Mix(math.Float64bits(lat), math.Float64bits(lng), uint64(res)))
		r.Count("H3 program runs", int64(len(calls)))
		d := map[string]any{"lat": lat, "lng": lng, "resolution": res, "output": out, "exit": rc}
		r.Sample(fmt.Sprintf("latitude %v, longitude %v, resolution %d, program prints %q and returns %d: (%d, %d, %d), %v", lat, lng, res, out, rc, i, j, k, err))
		if !ok {
			r.Count("failing H3 program runs", 1)
			if err == nil {
				r.Violate("unnoticed", fmt.Sprintf("a run that printed %q and returned %d gives (%d, %d, %d) and no error", out, rc, i, j, k), d)
			}
			continue
		}
		if err != nil || i != I || j != J || k != K {
			r.Violate("ijk", fmt.Sprintf("a run that printed %q gives (%d, %d, %d), %v", out, i, j, k, err), d)
		}
		if len(calls) != 1 {
			r.Violate("calls", fmt.Sprintf("%d runs of the H3 program", len(calls)), d)
			continue
		}
		a, e1 := strconv.ParseFloat(arg(calls[0], "--latitude"), 64)
		b, e2 := strconv.ParseFloat(arg(calls[0], "--longitude"), 64)
		if e1 != nil || e2 != nil || math.Abs(a-lat) > 1e-30 || math.Abs(b-lng) > 1e-30 || arg(calls[0], "--resolution") != strconv.Itoa(res) {
			r.Violate("arguments", fmt.Sprintf("latitude %v, longitude %v, resolution %d are passed on as %v", lat, lng, res, calls[0]), d)
		}
	}
	if !r.Failed() {
		programHelpers(r, rng, dir)
	}
	for i := 0; i < r.N(20000, 1000000) && !r.Failed(); i++ {
		origin := randomCell(rng)
		ll := origin.LatLng()
		// a point within a few cells
		spread := 180 / math.Pow(2.6457513, float64(origin.Resolution())) / 8
		lat, lng := ll.Lat+spread*rng.NormFloat64(), ll.Lng+spread*rng.NormFloat64()
		if math.Abs(lat) > 89 || math.Abs(lng) > 179 {
			continue
		}
		want := h3.CellToLocalIJ(origin, h3.LatLngToCell(h3.NewLatLng(lat, lng), origin.Resolution()))
		I, J := util.LatLngToIJ(lat, lng, origin.Resolution(), origin)
		r.Eval(1)
		r.Distinct(rep.Mix(uint64(origin), math.Float64bits(lat), math.Float64bits(lng)))
		r.Count("local coordinates compared", 1)
		if I != want.I || J != want.J {
			r.Violate("local", fmt.Sprintf("(%v, %v) at resolution %d relative to %v is (%d, %d) instead of (%d, %d)", lat, lng, origin.Resolution(), origin, I, J, want.I, want.J), nil)
		}
	}
	for i := 0; i < r.N(5000, 200000) && !r.Failed(); i++ {
		b := make([]byte, rng.Intn(70))
		rng.Read(b)
		isHex := rng.Intn(2) == 0
		s := string(b)
		if isHex {
			s = hex.EncodeToString(b)
			if rng.Intn(2) == 0 {
				s = strings.ToUpper(s)
			}
		}
		got := util.StrToIntSlice(s, isHex)
		r.Eval(1)
		r.Distinct(rep.Mix(rep.Str(s), uint64(i&1)))
		r.Count("strings split", 1)
		same := len(got) == len(b)
		for j := 0; same && j < len(b); j++ {
			same = got[j] == int(b[j])
		}
		if !same {
			r.Violate("bytes", fmt.Sprintf("%q (hexadecimal: %v) gives %v", s, isHex, got), nil)
		}
		x := rng.NormFloat64() * math.Pow(10, float64(rng.Intn(9)-4))
		if g := util.RadiansToDegrees(x); math.Abs(g-x*180/math.Pi) > 4e-16*math.Abs(g) {
			r.Violate("degrees", fmt.Sprintf("%v radians are %v degrees", x, g), nil)
		}
		k := rng.Intn(1<<uint(1+rng.Intn(52))) * (1 - 2*rng.Intn(2))
		if g := util.ScaledIntToFloat64(k); math.Abs(g*1e9-float64(k)) > 4e-16*math.Abs(float64(k)) {
			r.Violate("scaled", fmt.Sprintf("%d scaled by 10^9 is %v", k, g), nil)
		}
		// text that is no number is refused
		t := []string{"", "xyz", "0x12", "-1", "1ffffffffffffffff", "12 ", "g", "1.5"}[rng.Intn(8)]
		if v, err := util.HexToFloat(t); err == nil {
			r.Violate("hex", fmt.Sprintf("%q is read as %v", t, v), nil)
		}
		if v, err := util.HexToFloat32(t + "ffffffffg"[:rng.Intn(10)]); err == nil && (t == "xyz" || t == "0x12" || t == "-1" || t == "g") {
			r.Violate("hex", fmt.Sprintf("%q is read as %v", t, v), nil)
		}
		if v, err := util.HexToFloat32("1" + fmt.Sprintf("%08x", rng.Uint32())); err == nil {
			r.Violate("hex", fmt.Sprintf("a number of more than 32 bits is read as %v", v), nil)
		}
	}
}

// tables: the faces' constants describe one icosahedron.
func tables(r *rep.R) {
	r.Assume = []string{"the tables are compared to a few units of double precision, which is how they are printed in the source"}
	r.Rule = "one case is one face and one table; non-trivial when its entries were compared with those of the other tables and with the H3 library's icosahedron"
	d32 := func(what string, f int, got float32, want float64) {
		r.Eval(1)
		r.Distinct(rep.Mix(rep.Str(what), uint64(f)))
		r.Count("single precision entries compared", 1)
		if got != float32(want) {
			r.Violate("single/"+what, fmt.Sprintf("%s of face %d is %v in single precision and %v in double", what, f, got, want), nil)
		}
	}
	near := func(what string, f int, got, want, tol float64) {
		r.Eval(1)
		r.Distinct(rep.Mix(rep.Str(what), uint64(f), 1))
		r.Count("double precision entries compared", 1)
		if !(math.Abs(got-want) <= tol) {
			r.Violate("double/"+what, fmt.Sprintf("%s of face %d is %v but should be %v", what, f, got, want), nil)
		}
	}
	var c [20][3]float64
	for f := 0; f < 20; f++ {
		p := util.FaceCenterPoint_64[3*f : 3*f+3]
		c[f] = [3]float64{p[0], p[1], p[2]}
		d32("longitude", f, util.FaceCenterGeoLng_32[f], util.FaceCenterGeoLng_64[f])
		d32("cosine of the latitude", f, util.CosFaceLat_32[f], util.CosFaceLat_64[f])
		d32("sine of the latitude", f, util.SinFaceLat_32[f], util.SinFaceLat[f])
		d32("azimuth", f, util.Azimuth_32[f], util.Azimuth[f])
		for i := range p {
			d32(fmt.Sprintf("coordinate %d", i), f, util.FaceCenterPoint_32[3*f+i], p[i])
		}
		near("sine of the latitude", f, util.SinFaceLat[f], p[2], 1e-15)
		near("cosine of the latitude", f, util.CosFaceLat_64[f], math.Hypot(p[0], p[1]), 1e-15)
		near("longitude", f, util.FaceCenterGeoLng_64[f], math.Atan2(p[1], p[0]), 2e-15)
		near("norm", f, math.Sqrt(p[0]*p[0]+p[1]*p[1]+p[2]*p[2]), 1, 1e-15)
	}
	// every face has three neighbours at the edge angle, and the azimuth
	// points at a corner, which five faces share
	for f := 0; f < 20; f++ {
		angles := func(q [3]float64, at float64) (n int) {
			for g := 0; g < 20; g++ {
				d := c[g][0]*q[0] + c[g][1]*q[1] + c[g][2]*q[2]
				if math.Abs(math.Acos(math.Max(-1, math.Min(1, d)))-at) < 1e-7 {
					n++
				}
			}
			return
		}
		near("number of neighbours", f, float64(angles(c[f], math.Acos(math.Sqrt(5)/3))), 3, 0)
		corner := math.Acos(math.Sqrt((5 + 2*math.Sqrt(5)) / 15))
		sp, cp, az, lng := util.SinFaceLat[f], util.CosFaceLat_64[f], util.Azimuth[f], util.FaceCenterGeoLng_64[f]
		sl := sp*math.Cos(corner) + cp*math.Sin(corner)*math.Cos(az)
		dl := math.Atan2(math.Sin(az)*math.Sin(corner)*cp, math.Cos(corner)-sp*sl)
		cl := math.Sqrt(1 - sl*sl)
		q := [3]float64{cl * math.Cos(lng+dl), cl * math.Sin(lng+dl), sl}
		near("number of faces at the corner the azimuth points at", f, float64(angles(q, corner)), 5, 0)
	}
	for f := 0; f < 20; f++ {
		r.Sample(fmt.Sprintf("face %d: centre %v, longitude %v, azimuth %v", f, c[f], util.FaceCenterGeoLng_64[f], util.Azimuth[f]))
	}
	near("sin60", 0, util.Sin60_64, math.Sqrt(3)/2, 0)
	near("sqrt7", 0, util.Sqrt7_64, math.Sqrt(7), 0)
	near("scale of resolution 0", 0, util.ResConst_64, (3-math.Sqrt(5))/2, 1e-15)
	near("ap7 rotation", 0, util.Ap7rot_64, math.Asin(math.Sqrt(3.0/28)), 1e-15)
	d32("sin60", 0, util.Sin60_32, util.Sin60_64)
	d32("sqrt7", 0, util.Sqrt7_32, util.Sqrt7_64)
	d32("scale of resolution 0", 0, util.ResConst_32, util.ResConst_64)
	d32("ap7 rotation", 0, util.Ap7rot_32, util.Ap7rot_64)
}

// programHelpers watches the helpers of the proximity program that run H3
// programs. They are not exported, so that they may be gone.
func programHelpers(r *rep.R, rng *rand.Rand, dir string) {
	if _, err := os.Stat(filepath.Join(rep.BinDir(), "proximity-helpers")); err != nil {
		r.Count("helpers of the proximity program not found", 1)
		return
	}
	s, err := serve(filepath.Join(dir, "proximity"), "proximity-helpers")
	if err != nil {
		r.Broken("%v", err)
		return
	}
	defer func() { s.in.Close(); s.cmd.Wait() }()
	number := func() float64 {
		x := rng.Float64()*360 - 180
		if rng.Intn(3) == 0 {
			x *= math.Pow(10, -7*rng.Float64())
		}
		x, _ = strconv.ParseFloat(strconv.FormatFloat(x, 'f', 10, 64), 64)
		return x
	}
	for i := 0; i < r.N(300, 6000) && !r.Failed(); i++ {
		lat, lng, res := rng.Float64()*180-90, rng.Float64()*360-180, rng.Intn(16)
		if rng.Intn(3) == 0 {
			lat *= math.Pow(10, -12*rng.Float64())
		}
		index := randomCell(rng).String()
		kind := []string{"ijk", "cell", "center", "boundary"}[i%4]
		program := []string{"latLngToCell", "latLngToCell", "cellToLatLng", "cellToBoundary"}[i%4]
		var out, want, req string
		switch kind {
		case "ijk", "cell":
			I, J, K := rng.Intn(1<<rng.Intn(30)), rng.Intn(1<<rng.Intn(30)), rng.Intn(1<<rng.Intn(30))
			out = fmt.Sprintf("I: %d, J: %d, K: %d\n--- %s\n", I, J, K, index)
			req = fmt.Sprintf("%s %d %d %d", kind, res, math.Float64bits(lat), math.Float64bits(lng))
			want = fmt.Sprintf("true %d %d %d", I, J, K)
			if kind == "cell" {
				want = "true " + index
			}
		case "center":
			a, b := number(), number()
			out = fmt.Sprintf("%.10f %.10f\n", a, b)
			req = "center " + index
			want = fmt.Sprintf("true %d %d", math.Float64bits(a), math.Float64bits(b))
		case "boundary":
			out, want, req = index+"\n{\n", "true", "boundary "+index
			for j := 3 + rng.Intn(9); j > 0; j-- {
				a, b := number(), number()
				out += fmt.Sprintf("   %.10f %.10f\n", a, b)
				want += fmt.Sprintf(" %d %d", math.Float64bits(a), math.Float64bits(b))
			}
			out += "}\n"
		}
		rc, ok := 0, true
		switch rng.Intn(8) {
		case 0:
			rc, ok = 1+rng.Intn(9), false
		case 1:
			out, ok = []string{"", "no such cell\n"}[rng.Intn(2)], false
		}
		stand(dir, program, out, rc)
		got, err := s.ask("%s", req)
		calls := takeLog(dir)
		r.Eval(1)
		r.Distinct(rep.Mix(rep.Str(req), rep.Str(out)))
		r.Count("runs of H3 programs by the proximity program's helpers", 1)
		d := map[string]any{"request": req, "output": out, "exit": rc, "answer": got}
		if err != nil {
			r.Violate("helper/"+kind, fmt.Sprintf("a run of %s that printed %q and returned %d crashed the helper: %v", program, out, rc, err), d)
			return
		}
		if !ok {
			r.Count("failing runs", 1)
			if !strings.HasPrefix(got, "false") {
				r.Violate("helper/"+kind, fmt.Sprintf("a run of %s that printed %q and returned %d gives %s and no error", program, out, rc, got), d)
			}
			continue
		}
		if got != want {
			r.Violate("helper/"+kind, fmt.Sprintf("a run of %s that printed %q gives %s instead of %s", program, out, got, want), d)
		}
		if len(calls) != 1 || calls[0][0] != program {
			r.Violate("helper/"+kind, fmt.Sprintf("%s runs %v", req, calls), d)
			continue
		}
		if i%4 < 2 {
			a, e1 := strconv.ParseFloat(arg(calls[0], "--latitude"), 64)
			b, e2 := strconv.ParseFloat(arg(calls[0], "--longitude"), 64)
			if e1 != nil || e2 != nil || math.Abs(a-lat) > 1e-30 || math.Abs(b-lng) > 1e-30 || arg(calls[0], "--resolution") != strconv.Itoa(res) {
				r.Violate("helper/"+kind, fmt.Sprintf("latitude %v, longitude %v, resolution %d are passed on as %v", lat, lng, res, calls[0]), d)
			}
		} else if arg(calls[0], "--index") != index {
			r.Violate("helper/"+kind, fmt.Sprintf("cell %s is passed on as %v", index, calls[0]), d)
		}
	}
}
