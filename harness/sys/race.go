package sys

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"os/exec"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/consensys/gnark/constraint"
	cs_bn254 "github.com/consensys/gnark/constraint/bn254"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend/cs"
	"github.com/tumberger/zk-Location/float"
	maths "github.com/tumberger/zk-Location/math"

	"verif/harness/fp"
	"verif/harness/ops"
	"verif/harness/rep"
)

func init() {
	All["R01"] = func(r *rep.R) { raced(r, "R01") }
	All["R02"] = func(r *rep.R) { raced(r, "R02") }
}

// raceReport is what a child observed.
type raceReport struct {
	Evals      int
	Counts     map[string]int64
	Keys       []uint64
	Violations [][2]string
	Digests    map[string]string
	Samples    []string
}

type raceRun struct {
	mu  sync.Mutex
	rep raceReport
}

func (x *raceRun) count(what string, n int64) {
	x.mu.Lock()
	defer x.mu.Unlock()
	x.rep.Counts[what] += n
}

func (x *raceRun) violate(sig, what string) {
	x.mu.Lock()
	defer x.mu.Unlock()
	if len(x.rep.Violations) < 10 {
		x.rep.Violations = append(x.rep.Violations, [2]string{sig, what})
	}
}

// commitHint stands in for the commitment of a proof: a digest of its inputs.
func commitHint(m *big.Int, in, out []*big.Int) error {
	h := sha256.New()
	for _, v := range in {
		h.Write(v.Bytes())
		h.Write([]byte{0})
	}
	out[0].SetBytes(h.Sum(nil)[:30])
	return nil
}

var withCommit = solver.OverrideHint(solver.GetHintID(cs.Bsb22CommitmentComputePlaceholder), commitHint)

// solution solves and digests the values of all wires.
func solution(ccs constraint.ConstraintSystem, s *spec, in []*big.Int, opts ...solver.Option) string {
	w, err := s.witness(bn254(), in, nil)
	if err != nil {
		return "witness: " + err.Error()
	}
	sol, err := ccs.Solve(w, append([]solver.Option{withCommit}, opts...)...)
	if err != nil {
		return "rejected"
	}
	h := sha256.New()
	switch t := sol.(type) {
	case *cs_bn254.R1CSSolution:
		binary.Write(h, binary.LittleEndian, t.W)
	case *cs_bn254.SparseR1CSSolution:
		binary.Write(h, binary.LittleEndian, t.L)
		binary.Write(h, binary.LittleEndian, t.R)
		binary.Write(h, binary.LittleEndian, t.O)
	}
	return fmt.Sprintf("%x", h.Sum(nil)[:12])
}

func digest(ccs constraint.ConstraintSystem) string {
	var b bytes.Buffer
	if _, err := ccs.WriteTo(&b); err != nil {
		return "cannot be written: " + err.Error()
	}
	return fmt.Sprintf("%d constraints %x", ccs.GetNbConstraints(), sha256.Sum256(b.Bytes()))
}

type call struct {
	name    string
	f       solver.Hint
	in, out []*big.Int
	err     bool
}

func hintName(f solver.Hint) string { return solver.GetHintName(f) }

// raceSpecs are the circuits raced: every operation, and programs of several.
func raceSpecs() []*spec {
	l := specs()
	for i, ft := range fts {
		cfg := ops.Cfg{F: []fp.Fmt{fp.F64, fp.F32}[i], FT: ft, RS: 8}
		l = append(l, mathSpec("program", cfg, 3, func(c *float.Context, a []float.FloatVar) []any {
			x := c.Div(c.Add(a[0], a[1]), c.Sqrt(a[2]))
			y := c.Mul(c.Sub(x, a[2]), c.Floor(a[1]))
			return []any{c.Select(c.IsLt(x, y), x, y), c.Trunc(y), c.Ceil(x)}
		}))
	}
	l = append(l, mathSpec("atan2", ops.Cfg{F: fp.F64, FT: fts[0], RS: 8}, 2, func(c *float.Context, a []float.FloatVar) []any {
		return []any{maths.Atan2(c, a[0], a[1])}
	}))
	return l
}

// raceChild: R01 solves concurrently, R02 compiles concurrently. n is a size,
// and a generation that changes the order of things.
func raceChild(id string, seed int64, n []int) {
	x := &raceRun{rep: raceReport{Counts: map[string]int64{}, Digests: map[string]string{}}}
	rng := rand.New(rand.NewSource(int64(rep.Mix(uint64(seed), rep.Str(id), uint64(n[1])) >> 1)))
	if id == "R01" {
		raceSolve(x, rng, n[0], n[1])
	} else {
		raceCompile(x, rng, n[0], n[1])
	}
	b, _ := json.Marshal(&x.rep)
	os.Stdout.Write(append(append([]byte("\n"), b...), '\n'))
}

func raceSolve(x *raceRun, rng *rand.Rand, n, gen int) {
	l := raceSpecs()
	rng.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	type job struct {
		s    *spec
		cs   constraint.ConstraintSystem
		in   []*big.Int
		want string
	}
	var jobs []job
	var calls []call
	var mu sync.Mutex
	perHint := map[string]int{}
	// a recording of every hint call of the serial executions
	record := func() []solver.Option {
		var o []solver.Option
		for _, h := range solver.GetRegisteredHints() {
			name := hintName(h)
			if !strings.Contains(name, "zk-Location") {
				continue
			}
			h := h
			o = append(o, solver.OverrideHint(solver.GetHintID(h), func(m *big.Int, in, out []*big.Int) error {
				c := call{name: name, f: h}
				for _, v := range in {
					c.in = append(c.in, new(big.Int).Set(v))
				}
				err := h(m, in, out)
				for _, v := range out {
					c.out = append(c.out, new(big.Int).Set(v))
				}
				for i := range in {
					if in[i].Cmp(c.in[i]) != 0 {
						x.violate("input/"+name, fmt.Sprintf("%s changes its input %d from %v to %v", name, i, c.in[i], in[i]))
					}
				}
				c.err = err != nil
				mu.Lock()
				if perHint[name] < 200 {
					perHint[name]++
					calls = append(calls, c)
				}
				mu.Unlock()
				return err
			}))
		}
		return o
	}()
	// the serial executions, one hint at a time
	var wg sync.WaitGroup
	sem := make(chan struct{}, runtime.GOMAXPROCS(0))
	built := make([]constraint.ConstraintSystem, len(l))
	for i, s := range l {
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			c, err := s.compile(bn254(), 0)
			if err != nil {
				x.violate("compile/"+s.name, fmt.Sprintf("%v: %v", s, err))
				return
			}
			built[i] = c
		}()
	}
	wg.Wait()
	// odd generations solve concurrently first, when no hint was ever called
	early := map[string]string{}
	draw := make([][][]*big.Int, len(l))
	for i, s := range l {
		for k := 0; k < n; k++ {
			in := make([]*big.Int, len(s.kind))
			for j := range in {
				in[j] = valid(rng, s.cfg.F, s.kind[j])
				if s.loc != nil && j < 2 {
					in[j] = new(big.Int).SetUint64(s.cfg.F.Of((rng.Float64() - 0.5) * 3))
				}
				if rng.Intn(12) == 0 {
					in[j] = hostile(rng, bn254(), s.cfg.F, s.kind[j])
				}
			}
			draw[i] = append(draw[i], in)
		}
	}
	if gen%2 == 1 {
		order := rng.Perm(len(l))
		for g := 0; g < 8; g++ {
			if g%2 == 0 {
				order = rng.Perm(len(l))
			}
			mine := order
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, i := range mine[:len(mine)/4+1] {
					if built[i] == nil {
						continue
					}
					k := g / 2 % n
					got := solution(built[i], l[i], draw[i][k])
					key := fmt.Sprint(i, k)
					mu.Lock()
					if w, ok := early[key]; ok && w != got {
						x.violate("solution/"+l[i].name, fmt.Sprintf("%v %v: solved concurrently gives %s and %s", l[i], draw[i][k], w, got))
					}
					early[key] = got
					mu.Unlock()
					x.count("concurrent solutions before any serial one", 1)
				}
			}()
		}
		wg.Wait()
	}
	for i, s := range l {
		if built[i] == nil {
			return
		}
		for k := 0; k < n; k++ {
			in := draw[i][k]
			o := append([]solver.Option{solver.WithNbTasks(1)}, record...)
			want := solution(built[i], s, in, o...)
			jobs = append(jobs, job{s, built[i], in, want})
			if w, ok := early[fmt.Sprint(i, k)]; ok && w != want {
				x.violate("solution/"+s.name, fmt.Sprintf("%v %v: solved concurrently gives %s instead of %s", s, in, w, want))
			}
			if len(x.rep.Samples) < 8 {
				x.rep.Samples = append(x.rep.Samples, fmt.Sprintf("%v %v: %s", s, in, want))
			}
			x.rep.Keys = append(x.rep.Keys, rep.Mix(rep.Str(fmt.Sprint(s, in))))
			x.rep.Counts["serial solutions recorded"]++
			if want == "rejected" {
				x.rep.Counts["serial solutions recorded that are rejections"]++
			}
		}
	}
	for h, k := range perHint {
		x.rep.Counts["calls recorded of "+h[strings.LastIndex(h, ".")+1:]] += int64(k)
	}
	// all of them again, concurrently and in other orders
	const G = 12
	var peak, cur atomic.Int64
	for g := 0; g < G; g++ {
		wg.Add(1)
		order := rng.Perm(len(jobs))
		part := order[:len(order)/3+1]
		crng := rand.New(rand.NewSource(rng.Int63()))
		go func() {
			defer wg.Done()
			for step, j := range part {
				if c := cur.Add(1); c > peak.Load() {
					peak.Store(c)
				}
				jb := jobs[j]
				var o []solver.Option
				switch g % 3 {
				case 0:
					o = []solver.Option{solver.WithNbTasks(1)}
				case 1:
					o = []solver.Option{solver.WithNbTasks(8)}
				}
				got := solution(jb.cs, jb.s, jb.in, o...)
				cur.Add(-1)
				if got != jb.want {
					x.violate("solution/"+jb.s.name, fmt.Sprintf("%v %v: solved concurrently gives %s instead of %s", jb.s, jb.in, got, jb.want))
				}
				x.count("concurrent solutions compared", 1)
				if step%3 == 0 && len(calls) > 0 {
					// hint calls sharing their inputs with those of other goroutines
					for k := 0; k < 120; k++ {
						c := &calls[crng.Intn(len(calls))]
						out := make([]*big.Int, len(c.out))
						for i := range out {
							out[i] = new(big.Int)
						}
						m := bn254()
						err := c.f(m, c.in, out)
						ok := (err != nil) == c.err
						for i := range out {
							ok = ok && (c.err || out[i].Cmp(c.out[i]) == 0)
						}
						if !ok {
							x.violate("hint/"+c.name, fmt.Sprintf("%s(%v) gives %v (%v) after %v", c.name, c.in, out, err, c.out))
						}
						x.count("concurrent hint calls compared", 1)
					}
				}
			}
		}()
	}
	wg.Wait()
	x.rep.Counts["solvers running at once, at most"] = peak.Load()
	x.rep.Evals = len(jobs) + int(x.rep.Counts["concurrent solutions compared"])
}

func raceCompile(x *raceRun, rng *rand.Rand, n, gen int) {
	l := raceSpecs()
	name := make([]string, len(l))
	for i, s := range l {
		name[i] = fmt.Sprintf("%d %v", i, s)
		x.rep.Keys = append(x.rep.Keys, rep.Mix(rep.Str(name[i]), uint64(gen)))
	}
	want := map[string]string{}
	one := func(i int) string {
		ccs, err := l[i].compile(bn254(), 0)
		if err != nil {
			return "does not compile: " + err.Error()
		}
		return digest(ccs)
	}
	// serial reference, in an order of its own, of a part of them; odd
	// generations compile concurrently first, when nothing was ever used
	serial := func() {
		for _, i := range rng.Perm(len(l)) {
			if l[i].loc != nil && rng.Intn(2) == 0 {
				continue
			}
			d := one(i)
			if w, ok := want[name[i]]; ok && w != d {
				x.violate("system/"+l[i].name, fmt.Sprintf("%s compiles to a different constraint system: %s, then %s", name[i], w, d))
			}
			want[name[i]] = d
			x.rep.Counts["serial compilations"]++
		}
	}
	cold := gen%2 == 1
	if !cold {
		serial()
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	const G = 8
	var last []int
	for g := 0; g < G; g++ {
		order := rng.Perm(len(l))
		if cold && g%2 == 1 {
			// the same circuits as the neighbour at the same time
			order = last
		}
		last = order
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k, i := range order {
				if k >= n {
					break
				}
				d := one(i)
				mu.Lock()
				w, ok := want[name[i]]
				if !ok {
					want[name[i]] = d
				} else if w != d {
					if len(x.rep.Violations) < 10 {
						x.rep.Violations = append(x.rep.Violations, [2]string{"system/" + l[i].name, fmt.Sprintf("%s compiles to a different constraint system: %s, then %s", name[i], w, d)})
					}
				}
				x.rep.Counts["concurrent compilations compared"]++
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	if cold {
		x.rep.Counts["processes that compiled concurrently first"]++
		serial()
	}
	x.rep.Digests = want
	x.rep.Samples = []string{name[0] + ": " + want[name[0]], name[len(l)-1] + ": " + want[name[len(l)-1]]}
	x.rep.Evals = int(x.rep.Counts["serial compilations"] + x.rep.Counts["concurrent compilations compared"])
}

// raced runs children under the race detector and judges their reports.
func raced(r *rep.R, id string) {
	r.Level = "exploration"
	if id == "R01" {
		r.Rule = "one case is one circuit and witness solved alone and then again among concurrent solvers in the race detector's view; non-trivial when both solutions (digest of every wire) were compared"
	} else {
		r.Rule = "one case is one circuit compiled in one process; non-trivial when its constraint system's bytes were compared with those of other compilations, concurrent ones and ones in other processes"
	}
	r.Assume = []string{"races are seen where the scheduler and the detector's window show them", "data races inside dependencies, with no frame of this repository, are counted but not judged"}
	self, err := os.Executable()
	if err != nil {
		r.Broken("%v", err)
		return
	}
	gens, size := r.N(2, 40), 3
	if id == "R02" {
		gens, size = r.N(2, 30), 16
	}
	digests := map[string]string{}
	var mu sync.Mutex
	run := func(g int) {
		cmd := exec.Command(self, "child", id, fmt.Sprint(r.Seed), fmt.Sprint(size), fmt.Sprint(g))
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 history_size=3 exitcode=0", "GOTRACEBACK=all")
		var ob, eb bytes.Buffer
		cmd.Stdout, cmd.Stderr = &ob, &eb
		t := time.AfterFunc(10*time.Minute, func() { cmd.Process.Kill() })
		runErr := cmd.Run()
		t.Stop()
		stderr := eb.String()
		mu.Lock()
		defer mu.Unlock()
		for _, rp := range strings.Split(stderr, "WARNING: DATA RACE")[1:] {
			if e := strings.Index(rp, "=================="); e >= 0 {
				rp = rp[:e]
			}
			sites := repoFrames(rp)
			if len(sites) == 0 {
				r.Count("data races inside dependencies", 1)
				continue
			}
			r.Violate("race/"+strings.Join(sites, "+"), "data race in "+strings.Join(sites, ", "), map[string]any{"report": rp})
		}
		if runErr != nil {
			if strings.Contains(stderr, "tumberger/zk-Location/") {
				p := strings.Index(stderr, "panic:")
				if p < 0 {
					p = max(0, strings.Index(stderr, "fatal error:"))
				}
				head, _, _ := strings.Cut(stderr[p:], "\n")
				r.Violate("crash", "concurrent use crashes: "+head, map[string]any{"stderr": stderr[p:min(len(stderr), p+4000)]})
			} else {
				r.Broken("child: %v: %.2000s", runErr, stderr)
			}
			return
		}
		var rp raceReport
		if err := json.Unmarshal(ob.Bytes()[bytes.LastIndex(ob.Bytes(), []byte("\n{"))+1:], &rp); err != nil {
			r.Broken("child's report: %v: %.500s", err, ob.String())
			return
		}
		r.Eval(rp.Evals)
		for k, v := range rp.Counts {
			if strings.Contains(k, "at most") {
				r.Max(k, v)
			} else {
				r.Count(k, v)
			}
		}
		for _, k := range rp.Keys {
			r.Distinct(k)
		}
		for _, s := range rp.Samples {
			r.Sample(s)
		}
		for _, v := range rp.Violations {
			r.Violate(v[0], v[1], map[string]any{})
		}
		var names []string
		for k := range rp.Digests {
			names = append(names, k)
		}
		sort.Strings(names)
		for _, k := range names {
			if w, ok := digests[k]; !ok {
				digests[k] = rp.Digests[k]
			} else {
				r.Count("constraint systems compared between processes", 1)
				if w != rp.Digests[k] {
					r.Violate("system/"+k, fmt.Sprintf("%s compiles to a different constraint system in another process: %s, then %s", k, w, rp.Digests[k]), map[string]any{})
				}
			}
		}
	}
	var wg sync.WaitGroup
	sem := make(chan struct{}, 2)
	for g := 0; g < gens && !r.Failed(); g++ {
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			run(g)
		}()
	}
	wg.Wait()
	if !raceEnabled {
		r.Broken("built without the race detector")
	}
}

// repoFrames lists the functions of this repository in a race report.
func repoFrames(s string) []string {
	seen := map[string]bool{}
	var l []string
	for _, ln := range strings.Split(s, "\n") {
		p := strings.Index(ln, "tumberger/zk-Location/")
		if p < 0 || !strings.Contains(ln, "(") || strings.Contains(ln, ".go:") {
			continue
		}
		f := ln[p+len("tumberger/zk-Location/"):]
		f, _, _ = strings.Cut(f, "()")
		if !seen[f] && len(l) < 4 {
			seen[f] = true
			l = append(l, f)
		}
	}
	return l
}
