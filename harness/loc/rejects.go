package loc

import (
	"fmt"
	"math"
	"math/big"

	"github.com/consensys/gnark/frontend/frontendtype"

	"verif/harness/attack"
	"verif/harness/checks"
	"verif/harness/rep"
)

// rejects: the real constraint systems accept the right cell and nothing else,
// and no location or resolution that does not exist.
func rejects(r *rep.R) {
	r.Rule = "one case is one location circuit compiled by gnark (R1CS or PLONK) with one claim; non-trivial when the solver decided it"
	r.Assume = []string{"decided by gnark's own solver with the honest hints"}
	type job struct {
		v  *variant
		ft frontendtype.Type
	}
	var jobs []job
	for _, v := range variants {
		for _, ft := range []frontendtype.Type{frontendtype.R1CS, frontendtype.SCS} {
			jobs = append(jobs, job{v, ft})
		}
	}
	const per = 4
	r.Parallel(len(jobs)*per, func(k int) {
		v, ft := jobs[k/per].v, jobs[k/per].ft
		cs, err := compile(v, ft)
		if err != nil {
			r.Violate("compile/"+v.name, fmt.Sprintf("%s does not compile: %v", v.name, err), map[string]any{"circuit": v.name})
			return
		}
		rng := checks.RngFor(r, "rejects", k)
		name := map[frontendtype.Type]string{frontendtype.R1CS: "R1CS", frontendtype.SCS: "PLONK"}[ft]
		for n := 0; n < r.N(10, 400) && !r.Failed(); n++ {
			lat, lng, res, _ := v.point(rng, rng.Intn(8))
			out, fail, _ := v.cell(lat, lng, res, ft)
			c, ok := ints(out)
			if fail != nil || !ok {
				continue // L01, L02
			}
			try := func(what string, accept bool, lat, lng, res any, c IJK) {
				err := solve(v, cs, lat, lng, res, c)
				r.Eval(1)
				r.Distinct(rep.Mix(rep.Str(fmt.Sprint(v.name, ft, what, lat, lng, res, c))))
				r.Count("claims decided: "+what, 1)
				if (err == nil) != accept {
					verb := "accepts"
					if accept {
						verb = "rejects"
					}
					r.Violate("claim/"+v.name+"/"+what, fmt.Sprintf("%s/%s %s a claim with %s: lat=%v lng=%v resolution=%v cell=%v (%v)", v.name, name, verb, what, lat, lng, res, c, err),
						map[string]any{"circuit": v.name, "system": name, "lat": fmt.Sprint(lat), "lng": fmt.Sprint(lng), "resolution": fmt.Sprint(res), "cell": fmt.Sprint(c)})
				}
			}
			if n == 0 && k%per == 0 {
				r.Sample(fmt.Sprintf("%s/%s %s cell %v", v.name, name, v.desc(lat, lng, res), c))
			}
			try("the right cell", true, lat, lng, res, c)
			w := c
			switch rng.Intn(4) {
			case 0:
				w[rng.Intn(3)]++
			case 1:
				w = IJK{c[0] + 1, c[1] + 1, c[2] + 1}
			case 2:
				w = IJK{c[1], c[0], c[2]}
				if w == c {
					w[2]++
				}
			case 3:
				w[rng.Intn(3)]--
			}
			try("a wrong cell", false, lat, lng, res, w)
			// the same cell at a resolution that does not exist
			bad := []any{16, 17, 31, 32 + res, 16 + res, -1, new(big.Int).Add(attack.BN254(), big.NewInt(-16)), new(big.Int).Lsh(big.NewInt(1), 64)}[rng.Intn(8)]
			try("an impossible resolution", false, lat, lng, bad, c)
			// a resolution that does not exist, with the cell the circuit would compute
			for _, b := range []int{16, 17 + rng.Intn(15), 32 + rng.Intn(32)} {
				o, _, _ := v.cell(lat, lng, b, ft)
				if g, ok := ints(o); ok {
					try("an impossible resolution", false, lat, lng, b, g)
				}
			}
			// encodings that do not exist
			hi := new(big.Int).Lsh(big.NewInt(1), v.f.Bits())
			enc := new(big.Int).Add(new(big.Int).SetUint64(lat), new(big.Int).Mul(hi, big.NewInt(int64(1+rng.Intn(3)))))
			try("an invalid encoding", false, enc, lng, res, c)
			enc = new(big.Int).Sub(new(big.Int).SetUint64(lng), hi)
			try("an invalid encoding", false, lat, enc, res, c)
			// locations that do not exist, with the cell the circuit would compute
			above := func(lim float64) uint64 {
				b := v.bits(lim)
				switch rng.Intn(5) {
				case 0:
					return b + 1
				case 1:
					return b + uint64(rng.Intn(1000)) + 1
				case 2:
					return v.bits(lim * (1 + rng.Float64()))
				case 3:
					return v.bits(lim + math.Exp(40*rng.Float64()))
				}
				return v.bits(lim) + 1<<(v.f.M-2)
			}
			neg := uint64(1) << (v.f.Bits() - 1)
			nan := v.f.NaN()
			inf := v.f.Inf(0)
			pi := v.pi()
			for _, x := range []struct {
				what     string
				lat, lng uint64
			}{
				{"a latitude above pi/2", above(pi / 2), lng},
				{"a longitude above pi", lat, above(pi)},
				{"a latitude below -pi/2", above(pi/2) | neg, lng},
				{"a longitude below -pi", lat, above(pi) | neg},
				{"NaN", nan, lng},
				{"NaN", lat, nan},
				{"an infinite coordinate", inf, lng},
				{"an infinite coordinate", lat, inf},
				{"an infinite coordinate", inf | neg, lng},
				{"an infinite coordinate", lat, inf | neg},
			} {
				if rng.Intn(2) == 0 {
					continue
				}
				o, _, _ := v.cell(x.lat, x.lng, res, ft)
				g, ok := ints(o)
				if !ok {
					g = c
				}
				try(x.what, false, x.lat, x.lng, res, g)
			}
		}
	})
}
