package sys

import (
	"bufio"
	"bytes"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/consensys/gnark/constraint"
	"github.com/consensys/gnark/frontend/frontendtype"
	"github.com/consensys/gnark/logger"

	"verif/harness/attack"
	"verif/harness/rep"
)

func init() { All["H01"] = crashes }

// Child is the process that runs hostile work for a check and may crash.
func Child(args []string) {
	logger.Disable()
	seed, _ := strconv.ParseInt(args[1], 10, 64)
	n := make([]int, 0, 4)
	for _, a := range args[2:] {
		k, _ := strconv.Atoi(a)
		n = append(n, k)
	}
	switch args[0] {
	case "H01":
		crashChild(seed, n[0], n[1], n[2])
	case "R01", "R02":
		raceChild(args[0], seed, n)
	}
}

// crashCase is case k of a circuit: a witness.
func crashCase(seed int64, s *spec, i, k int) []*big.Int {
	rng := rand.New(rand.NewSource(int64(rep.Mix(uint64(seed), uint64(i), uint64(k), rep.Str("H01")) >> 1)))
	in := make([]*big.Int, len(s.kind))
	bad := rng.Intn(len(in))
	for j := range in {
		if j == bad || rng.Intn(3) == 0 {
			in[j] = hostile(rng, bn254(), s.cfg.F, s.kind[j])
		} else {
			in[j] = valid(rng, s.cfg.F, s.kind[j])
		}
	}
	return in
}

// crashChild solves circuit i with witnesses from..to, announcing each.
func crashChild(seed int64, i, from, to int) {
	s := specs()[i]
	out := bufio.NewWriter(os.Stdout)
	say := func(f string, a ...any) { fmt.Fprintf(out, f+"\n", a...); out.Flush() }
	cs, err := s.compile(bn254(), 0)
	if err != nil {
		say("E %v", err)
		return
	}
	w0, err := s.witness(bn254(), crashCase(seed, s, i, 0), nil)
	_ = w0
	for k := from; k < to; k++ {
		in := crashCase(seed, s, i, k)
		w, err := s.witness(bn254(), in, nil)
		if err != nil {
			say("E %v", err)
			return
		}
		say("C %d", k)
		verdict := "rejected"
		if err := solveNoRecover(cs, w); err == nil {
			verdict = "accepted"
			for j, b := range s.kind {
				if b == 'f' && in[j].BitLen() > int(s.cfg.F.Bits()) {
					verdict = "invalid"
				}
			}
		}
		say("V %s", verdict)
	}
	say("D")
}

// Where a hint crashes in one of the solver's goroutines nothing can recover,
// and nothing here recovers where it crashes in this one.
func solveNoRecover(cs constraint.ConstraintSystem, w any) error {
	return attackSolve(cs, w)
}

// crashes: whatever the witness, proving succeeds or fails with an error.
func crashes(r *rep.R) {
	r.Rule = "one case is one circuit and one witness assignment, mostly invalid; non-trivial when gnark's solver, in a process of its own, ended with a verdict"
	r.Assume = []string{"witness values are those of the circuit's declared inputs; components are not supplied by hand", "solving one witness takes less than 60 seconds"}
	l := specs()
	n := r.N(400, 20000)
	self, err := os.Executable()
	if err != nil {
		r.Broken("%v", err)
		return
	}
	r.Parallel(len(l), func(i int) {
		s := l[i]
		per := n
		if s.loc != nil {
			per = n/4 + 1
		}
		for from := 0; from < per && !r.Failed(); {
			last, verdicts, stderr, done := runChild(self, 60*time.Second, "child", "H01", fmt.Sprint(r.Seed), fmt.Sprint(i), fmt.Sprint(from), fmt.Sprint(per))
			for k, v := range verdicts {
				r.Eval(1)
				r.Distinct(rep.Mix(uint64(i), uint64(k)))
				r.Count("witnesses "+v, 1)
				if v == "invalid" {
					in := crashCase(r.Seed, s, i, k)
					r.Violate("invalid/"+s.name, fmt.Sprintf("%v accepts the invalid encoding %v", s, in), map[string]any{"circuit": s.String(), "witness": fmt.Sprint(in)})
				}
			}
			if done {
				break
			}
			if strings.HasPrefix(stderr, "E ") {
				r.Violate("compile/"+s.name, fmt.Sprintf("%v: %s", s, stderr[2:]), map[string]any{"circuit": s.String()})
				return
			}
			if last < from {
				r.Broken("%v: child gave no case: %s", s, stderr)
				return
			}
			in := crashCase(r.Seed, s, i, last)
			msg := stderr
			if p := strings.Index(msg, "panic:"); p >= 0 {
				msg = msg[p:]
			} else if p := strings.Index(msg, "fatal error:"); p >= 0 {
				msg = msg[p:]
			}
			if len(msg) > 3000 {
				msg = msg[:3000]
			}
			head, _, _ := strings.Cut(msg, "\n")
			site := "?"
			for _, ln := range strings.Split(msg, "\n") {
				if p := strings.Index(ln, "tumberger/zk-Location/"); p >= 0 && strings.Contains(ln, "(") {
					site = ln[p+len("tumberger/zk-Location/"):]
					if q := strings.Index(site, "("); q >= 0 {
						site = site[:q]
					}
					break
				}
			}
			r.Eval(1)
			r.Violate(fmt.Sprintf("crash/%s/%s", s.name, site), fmt.Sprintf("%v: the prover crashes on the witness %v: %s (in %s)", s, in, head, site),
				map[string]any{"circuit": s.String(), "witness": fmt.Sprint(in), "stderr": msg})
			from = last + 1
		}
		r.Count("circuits attacked", 1)
	})
	if len(l) > 3 {
		r.Sample(l[0].String() + ": " + fmt.Sprint(crashCase(r.Seed, l[0], 0, 0)))
		r.Sample(l[3].String() + ": " + fmt.Sprint(crashCase(r.Seed, l[3], 3, 1)))
		r.Sample(l[len(l)-1].String() + ": " + fmt.Sprint(crashCase(r.Seed, l[len(l)-1], len(l)-1, 1)))
	}
}

// runChild runs this program as a child and reads its announcements. A case
// taking longer than limit counts as a crash.
func runChild(self string, limit time.Duration, args ...string) (last int, verdicts map[int]string, stderr string, done bool) {
	last = -1
	verdicts = map[int]string{}
	cmd := exec.Command(self, args...)
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single", "GOMEMLIMIT=3GiB")
	var eb bytes.Buffer
	cmd.Stderr = &eb
	p, err := cmd.StdoutPipe()
	if err != nil {
		return last, verdicts, err.Error(), false
	}
	if err := cmd.Start(); err != nil {
		return last, verdicts, err.Error(), false
	}
	var mu sync.Mutex
	hung := false
	// compiling may take a while
	timer := time.AfterFunc(4*limit, func() { mu.Lock(); hung = true; mu.Unlock(); cmd.Process.Kill() })
	sc := bufio.NewScanner(p)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	errLine := ""
	for sc.Scan() {
		ln := sc.Text()
		timer.Reset(limit)
		switch {
		case strings.HasPrefix(ln, "C "):
			last, _ = strconv.Atoi(ln[2:])
		case strings.HasPrefix(ln, "V "):
			verdicts[last] = ln[2:]
		case strings.HasPrefix(ln, "E "):
			errLine = ln
		case ln == "D":
			done = true
		}
	}
	cmd.Wait()
	timer.Stop()
	if errLine != "" {
		return last, verdicts, errLine, false
	}
	mu.Lock()
	defer mu.Unlock()
	if hung {
		return last, verdicts, "panic: no answer within the time limit", false
	}
	return last, verdicts, eb.String(), done
}

var _ = frontendtype.R1CS
var _ = attack.BN254
