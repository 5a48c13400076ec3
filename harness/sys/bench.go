package sys

import (
	"bytes"
	"errors"
	"flag"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"testing"

	"github.com/consensys/gnark/backend/witness"
	"github.com/consensys/gnark/constraint"
	"github.com/consensys/gnark/frontend"
	"github.com/tumberger/zk-Location/float"

	util "verif/harness/benchutil"
	"verif/harness/fake/spy"
	"verif/harness/rep"
)

func init() { All["U01"] = benches }

// benchCircuit is a float product and sum with a public result.
type benchCircuit struct {
	X, Y frontend.Variable
	Z    frontend.Variable `gnark:",public"`
	Kind int               `gnark:"-"`
}

func (c *benchCircuit) Define(api frontend.API) error {
	if c.Kind == 3 {
		return errors.New("a circuit that cannot be compiled")
	}
	ctx := float.NewContext(api, 6, 8, 23)
	x, y := ctx.NewFloat(c.X), ctx.NewFloat(c.Y)
	v := ctx.Add(x, y)
	for i := 0; i < c.Kind; i++ {
		v = ctx.Mul(v, y)
	}
	ctx.AssertIsEqual(v, ctx.NewFloat(c.Z))
	return nil
}

type pipeline struct {
	name, system string
	file         bool
	returns      bool // whether the pipeline returns an error
	run          func(b *testing.B, circuit, assignment frontend.Circuit, res, index int64, path string) error
}

var pipelines = []pipeline{
	{"BenchProof", "groth16", false, false, func(b *testing.B, c, a frontend.Circuit, _, _ int64, _ string) error {
		util.BenchProof(b, c, a)
		return nil
	}},
	{"BenchProofToFileGroth16", "groth16", true, true, util.BenchProofToFileGroth16},
	{"BenchProofToFilePlonk", "plonk", true, true, util.BenchProofToFilePlonk},
	{"BenchProofMemoryGroth16", "groth16", false, true, func(b *testing.B, c, a frontend.Circuit, _, _ int64, _ string) error {
		return util.BenchProofMemoryGroth16(b, c, a)
	}},
	{"BenchProofMemoryPlonk", "plonk", false, true, func(b *testing.B, c, a frontend.Circuit, _, _ int64, _ string) error {
		return util.BenchProofMemoryPlonk(b, c, a)
	}},
}

const benchHeader = "Resolution, Index, NbConstraints, CompilationTime, SetupTime, ProverTime, VerifierTime"

var benchRow = regexp.MustCompile(`^(-?\d+), (-?\d+), (\d+), (\d+), (\d+), (\d+), (\d+)$`)

// outcome of one pipeline run.
type outcome struct {
	ran      bool
	failed   bool
	err      error
	panicked any
}

func (o outcome) success() bool { return !o.failed && o.err == nil && o.panicked == nil }

func runPipeline(p pipeline, c, a frontend.Circuit, res, index int64, path string) (o outcome) {
	testing.Benchmark(func(b *testing.B) {
		if o.ran {
			return
		}
		o.ran = true
		defer func() {
			// FailNow unwinds the goroutine: only panics are recovered
			if x := recover(); x != nil {
				o.panicked = x
			}
			o.failed = b.Failed()
		}()
		o.err = p.run(b, c, a, res, index, path)
	})
	return
}

func sameVector(a, b witness.Witness) bool {
	if a == nil || b == nil {
		return false
	}
	x, err1 := a.MarshalBinary()
	y, err2 := b.MarshalBinary()
	return err1 == nil && err2 == nil && bytes.Equal(x, y)
}

func benches(r *rep.R) {
	r.Rule = "one case is one run of a benchmarking pipeline on a circuit, assignment, result file and injected fault; non-trivial when its calls of the proof system, verdict and result file were compared with what the case demands"
	r.Assume = []string{"the pipelines run as built from the repository's util package, the proof systems' packages replaced by recording wrappers around gnark's"}
	testing.Init()
	flag.Set("test.benchtime", "1x")
	stdout := os.Stdout
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		r.Broken("%v", err)
		return
	}
	os.Stdout = null
	defer func() { os.Stdout = stdout }()
	dir, err := os.MkdirTemp("", "verif-bench")
	if err != nil {
		r.Broken("%v", err)
		return
	}
	defer os.RemoveAll(dir)

	rng := rand.New(rand.NewSource(int64(rep.Mix(uint64(r.Seed), rep.Str("U01")) >> 1)))
	faults := []string{"", "", "false claim", "wrong input", "missing input", "no circuit", "Setup", "Prove", "Verify", "NewSRS", "full disk", "no directory"}
	n := r.N(6, 120)
	for round := 0; round < n && !r.Failed(); round++ {
		for _, p := range pipelines {
			path := filepath.Join(dir, fmt.Sprintf("%s-%d", p.name, round))
			var want []string // lines the file must have
			if p.file && rng.Intn(3) == 0 {
				// a file of an earlier run
				want = []string{benchHeader, "3, 7, 100, 1, 2, 3, 4"}
				os.WriteFile(path, []byte(strings.Join(want, "\n")+"\n"), 0644)
			}
			order := rng.Perm(len(faults))
			if p.name == "BenchProof" && !r.Thorough() && round > 0 {
				order = order[:2]
			}
			for _, fi := range order {
				fault := faults[fi]
				if !p.file && (fault == "full disk" || fault == "no directory") || fault == "NewSRS" && p.system != "plonk" {
					continue
				}
				kind := rng.Intn(3)
				x, y := rng.NormFloat64(), rng.NormFloat64()
				X, Y := float32(x), float32(y)
				Z := X + Y
				for i := 0; i < kind; i++ {
					Z = Z * Y
				}
				a := &benchCircuit{X: f32(X), Y: f32(Y), Z: f32(Z)}
				c := &benchCircuit{Kind: kind}
				inject, after := "", 0
				use := path
				switch fault {
				case "false claim":
					a.Z = f32(Z) + 1
				case "wrong input":
					a.X = new(big.Int).Lsh(big.NewInt(1), 40)
				case "missing input":
					a.Y = nil
				case "no circuit":
					c.Kind = 3
				case "Setup", "Prove", "Verify":
					inject = p.system + "." + fault
					if p.name == "BenchProof" && fault != "Setup" {
						after = rng.Intn(20)
					}
				case "NewSRS":
					inject = "unsafekzg.NewSRS"
				case "full disk":
					use = "/dev/full"
				case "no directory":
					use = filepath.Join(dir, "missing", "file")
				}
				res, index := int64(rng.Intn(16)), int64(rng.Intn(100000))-3
				spy.Begin(inject, after)
				o := runPipeline(p, c, a, res, index, use)
				calls := spy.Calls()
				r.Eval(1)
				r.Distinct(rep.Mix(rep.Str(p.name), rep.Str(fault), uint64(round), uint64(fi)))
				r.Count("runs: "+p.name, 1)
				r.Count("calls of proof systems recorded", int64(len(calls)))
				what := fmt.Sprintf("%s, fault %q, %d operations, x=%v y=%v z=%v", p.name, fault, kind+1, X, Y, Z)
				d := map[string]any{"pipeline": p.name, "fault": fault, "x": X, "y": Y, "z": Z, "operations": kind + 1}
				if round == 0 {
					r.Sample(fmt.Sprintf("%s: success=%v err=%v calls=%d", what, o.success(), o.err, len(calls)))
				}
				bad := func(sig, msg string) { r.Violate(sig+"/"+p.name, what+": "+msg, d) }
				if !o.ran {
					r.Broken("the benchmark did not run")
					return
				}
				if o.panicked != nil {
					bad("panic/"+fault, fmt.Sprintf("panicked: %v", o.panicked))
				}
				if fault != "" {
					if o.success() {
						bad("unnoticed/"+fault, "reports success")
					} else if o.panicked == nil && !o.failed {
						bad("unmarked/"+fault, fmt.Sprintf("does not mark the benchmark as failed (error %v)", o.err))
					} else if o.panicked == nil && p.returns && o.err == nil {
						bad("no error/"+fault, "returns no error")
					}
					r.Count("faults noticed: "+fault, 1)
				} else {
					if !o.success() {
						bad("refused", fmt.Sprintf("reports failure: %v", o.err))
					} else {
						inOrder(p, calls, c, a, bad)
					}
				}
				if p.file && (fault != "full disk" && fault != "no directory") {
					text, _ := os.ReadFile(path)
					lines := strings.Split(strings.TrimSuffix(string(text), "\n"), "\n")
					if len(want) == 0 {
						want = []string{benchHeader}
					}
					if fault == "" && o.success() {
						want = append(want, lines[len(lines)-1])
						m := benchRow.FindStringSubmatch(lines[len(lines)-1])
						nb := 0
						for _, call := range calls {
							if call.Func == "Setup" {
								nb = call.Args[0].(constraint.ConstraintSystem).GetNbConstraints()
							}
						}
						if m == nil || m[1] != fmt.Sprint(res) || m[2] != fmt.Sprint(index) || m[3] != fmt.Sprint(nb) {
							bad("row", fmt.Sprintf("the row written is %q for resolution %d, index %d, %d constraints", lines[len(lines)-1], res, index, nb))
						}
						r.Count("rows checked", 1)
					}
					if got := strings.Join(lines, "\n"); got != strings.Join(want, "\n") {
						bad("file", fmt.Sprintf("the result file should be\n%s\nbut is\n%s", strings.Join(want, "\n"), got))
						want = lines
					}
					if len(text) > 0 && text[len(text)-1] != '\n' {
						bad("file", "the result file does not end in a newline")
					}
				}
			}
		}
	}
	os.Stdout = stdout
}

// inOrder: every proof was made by the keys of the circuit for the witness of
// the assignment, and verified for its public part.
func inOrder(p pipeline, calls []spy.Call, c, a frontend.Circuit, bad func(sig, msg string)) {
	full, err := frontend.NewWitness(a, bn254())
	if err != nil {
		panic(err)
	}
	public, _ := full.Public()
	var cs, pk, vk any
	proofs := map[any]bool{}
	made, verified := 0, 0
	for _, x := range calls {
		if x.Err != nil {
			bad("order", fmt.Sprintf("success although %s.%s failed: %v", x.System, x.Func, x.Err))
			return
		}
		if x.System == "unsafekzg" {
			continue
		}
		if x.System != p.system {
			bad("order", "uses the proof system "+x.System)
			return
		}
		switch x.Func {
		case "Setup":
			cs, pk, vk = x.Args[0], x.Out[0], x.Out[1]
		case "Prove":
			if x.Args[0] != cs || x.Args[1] != pk || !sameVector(x.Args[2].(witness.Witness), full) {
				bad("order", "proves another circuit or assignment than set up")
				return
			}
			proofs[x.Out[0]] = true
			made++
		case "Verify":
			if !proofs[x.Args[0]] || x.Args[1] != vk || !sameVector(x.Args[2].(witness.Witness), public) {
				bad("order", "verifies another proof or claim than was made")
				return
			}
			delete(proofs, x.Args[0])
			verified++
		}
	}
	if made == 0 || verified != made {
		bad("order", fmt.Sprintf("%d proofs made but %d verified", made, verified))
	}
}
