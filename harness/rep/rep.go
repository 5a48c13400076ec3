// Package rep collects what a check observed, writes its evidence file and
// turns violations into the exit status.
package rep

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Root is the directory of the framework (/verif).
var Root = func() string {
	if d := os.Getenv("VERIF_ROOT"); d != "" {
		return d
	}
	return "/verif"
}()

type Violation struct {
	Sig    string         `json:"signature"`
	What   string         `json:"what"`
	Detail map[string]any `json:"detail"`
}

// R is the report of one run of one check.
type R struct {
	ID       string
	Tier     string
	Seed     int64
	Level    string
	Rule     string
	Assume   []string
	start    time.Time
	evals    atomic.Int64
	shards   [64]shard
	mu       sync.Mutex
	counters map[string]int64
	samples  []any
	viol     []Violation
	nviol    int
	known    map[string]string
	hit      map[string]string
	broken   []string
}

type shard struct {
	mu sync.Mutex
	m  map[uint64]struct{}
}

func New(id, tier string, seed int64) *R {
	r := &R{ID: id, Tier: tier, Seed: seed, Level: "exploration", start: time.Now(), counters: map[string]int64{}, known: map[string]string{}, hit: map[string]string{}}
	for i := range r.shards {
		r.shards[i].m = map[uint64]struct{}{}
	}
	r.loadKnown()
	return r
}

// Thorough says whether the deep tier runs.
func (r *R) Thorough() bool { return r.Tier == "thorough" }

// N scales a quick case count for the tier.
func (r *R) N(quick, thorough int) int {
	if r.Thorough() {
		return thorough
	}
	return quick
}

func (r *R) loadKnown() {
	b, err := os.ReadFile(filepath.Join(Root, "known-findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property="+r.ID+" sig=") {
			continue
		}
		rest := strings.TrimPrefix(l, "known: property="+r.ID+" sig=")
		sig, what, _ := strings.Cut(rest, " ")
		r.known[sig] = what
	}
}

func hash(parts ...any) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		fmt.Fprintf(h, "%v|", p)
	}
	return h.Sum64()
}

// Mix hashes integers quickly.
func Mix(xs ...uint64) uint64 {
	h := uint64(0x9e3779b97f4a7c15)
	for _, x := range xs {
		h ^= x
		h *= 0xbf58476d1ce4e5b9
		h ^= h >> 29
	}
	return h
}

// Str hashes a string.
func Str(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// Eval counts evaluations.
func (r *R) Eval(n int) { r.evals.Add(int64(n)) }

// Distinct records a non-trivial case.
func (r *R) Distinct(key uint64) {
	s := &r.shards[key>>58]
	s.mu.Lock()
	s.m[key] = struct{}{}
	s.mu.Unlock()
}

func (r *R) DistinctCount() int64 {
	var n int64
	for i := range r.shards {
		r.shards[i].mu.Lock()
		n += int64(len(r.shards[i].m))
		r.shards[i].mu.Unlock()
	}
	return n
}

// Count adds to a named counter of the evidence.
func (r *R) Count(name string, n int64) {
	if n == 0 {
		return
	}
	r.mu.Lock()
	r.counters[name] += n
	r.mu.Unlock()
}

// Max raises a named counter.
func (r *R) Max(name string, n int64) {
	r.mu.Lock()
	if n > r.counters[name] {
		r.counters[name] = n
	}
	r.mu.Unlock()
}

// Get reads a counter.
func (r *R) Get(name string) int64 { r.mu.Lock(); defer r.mu.Unlock(); return r.counters[name] }

// Sample keeps a few actual cases.
func (r *R) Sample(s any) {
	r.mu.Lock()
	if len(r.samples) < 12 {
		r.samples = append(r.samples, s)
	}
	r.mu.Unlock()
}

// Violate reports a violation. sig identifies the failing input or site.
func (r *R) Violate(sig, what string, detail map[string]any) {
	sig = strings.ReplaceAll(sig, " ", "_")
	r.mu.Lock()
	defer r.mu.Unlock()
	if w, ok := r.known[sig]; ok {
		r.hit[sig] = w
		return
	}
	r.nviol++
	if detail == nil {
		detail = map[string]any{}
	}
	if len(r.viol) < 20 {
		r.viol = append(r.viol, Violation{sig, what, detail})
	}
}

// Failed says whether enough violations were collected to stop.
func (r *R) Failed() bool { r.mu.Lock(); defer r.mu.Unlock(); return r.nviol >= 5 }

// Broken reports that the check itself could not do its work.
func (r *R) Broken(format string, a ...any) {
	r.mu.Lock()
	r.broken = append(r.broken, fmt.Sprintf(format, a...))
	r.mu.Unlock()
}

// Parallel runs n jobs on all cores. Each job is a pure function of its index.
func (r *R) Parallel(n int, job func(i int)) {
	w := runtime.GOMAXPROCS(0)
	if w > n {
		w = n
	}
	var next atomic.Int64
	var wg sync.WaitGroup
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= n || r.Failed() {
					return
				}
				func() {
					defer func() {
						if p := recover(); p != nil {
							buf := make([]byte, 8192)
							buf = buf[:runtime.Stack(buf, false)]
							if strings.Contains(string(buf), "tumberger/zk-Location/") {
								r.Violate(fmt.Sprintf("panic/%.60v", p), fmt.Sprintf("the code under check panicked: %v", p), map[string]any{"job": i, "stack": string(buf)})
								return
							}
							r.Broken("job %d panicked: %v\n%s", i, p, buf)
						}
					}()
					job(i)
				}()
			}
		}()
	}
	wg.Wait()
}

// AtExit, if set, runs before the process exits.
var AtExit func()

// Finish writes the evidence and exits.
func (r *R) Finish() {
	if AtExit != nil {
		AtExit()
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	var distinct int64
	for i := range r.shards {
		distinct += int64(len(r.shards[i].m))
	}
	cov := map[string]any{
		"evaluations":         r.evals.Load(),
		"distinct_nontrivial": distinct,
		"rule":                r.Rule,
		"samples":             append([]any{}, r.samples...),
	}
	names := make([]string, 0, len(r.counters))
	for k := range r.counters {
		names = append(names, k)
	}
	sort.Strings(names)
	obs := map[string]int64{}
	for _, k := range names {
		obs[k] = r.counters[k]
	}
	cov["observed"] = obs
	ev := map[string]any{
		"property": r.ID, "tier": r.Tier, "seed": r.Seed, "level": r.Level,
		"coverage": cov, "assumptions": append([]string{}, r.Assume...), "wall_s": time.Since(r.start).Seconds(), "violations": r.nviol,
	}
	dir := filepath.Join(Root, "evidence")
	os.MkdirAll(dir, 0o755)
	b, err := json.MarshalIndent(ev, "", " ")
	if err == nil {
		err = os.WriteFile(filepath.Join(dir, r.ID+".json"), append(b, '\n'), 0o644)
	}
	if err != nil {
		fmt.Println("cannot write evidence:", err)
		os.Exit(2)
	}
	fmt.Printf("%s %s: %d evaluations, %d distinct, %.1f s\n", r.ID, r.Tier, r.evals.Load(), distinct, time.Since(r.start).Seconds())
	for _, k := range names {
		fmt.Printf("  %s = %d\n", k, r.counters[k])
	}
	sigs := make([]string, 0, len(r.hit))
	for s := range r.hit {
		sigs = append(sigs, s)
	}
	sort.Strings(sigs)
	for _, s := range sigs {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", r.ID, r.hit[s], s)
	}
	if len(r.viol) > 0 {
		rd := filepath.Join(dir, "replay")
		os.MkdirAll(rd, 0o755)
		for i, v := range r.viol {
			p := filepath.Join(rd, fmt.Sprintf("%s-%d.json", r.ID, i))
			v.Detail["seed"], v.Detail["tier"], v.Detail["property"] = r.Seed, r.Tier, r.ID
			b, _ := json.MarshalIndent(v, "", " ")
			os.WriteFile(p, append(b, '\n'), 0o644)
			if i < 5 {
				fmt.Printf("%s: %s\n", v.Sig, v.What)
				fmt.Printf("VIOLATION property=%s replay=%s\n", r.ID, p)
			}
		}
		fmt.Printf("%d violations\n", r.nviol)
		os.Exit(1)
	}
	if len(r.broken) > 0 {
		for i, b := range r.broken {
			if i < 5 {
				fmt.Println("CHECK BROKEN:", b)
			}
		}
		os.Exit(2)
	}
	if r.evals.Load() == 0 || distinct < 10 {
		fmt.Println("CHECK INCONCLUSIVE: nothing was observed")
		os.Exit(3)
	}
	os.Exit(0)
}

// BinDir is the directory of the running checker, where build.sh puts all programs.
func BinDir() string {
	p, err := os.Executable()
	if err != nil {
		return filepath.Join(Root, "bin")
	}
	return filepath.Dir(p)
}
