// Package spy records the calls of proof systems made through the wrappers
// beside it, and injects failures into them.
package spy

import (
	"errors"
	"sync"
)

// Call is one call of a proof system.
type Call struct {
	System, Func string
	Args         []any
	Out          []any
	Err          error
}

var (
	mu    sync.Mutex
	calls []Call
	// Fail names the function that is to fail, such as "groth16.Verify".
	fail  string
	after int
)

var ErrInjected = errors.New("injected failure")

// Begin starts a recording; fn, if not empty, fails after it succeeded n times.
func Begin(fn string, n int) {
	mu.Lock()
	defer mu.Unlock()
	calls, fail, after = nil, fn, n
}

// Calls returns what was recorded.
func Calls() []Call {
	mu.Lock()
	defer mu.Unlock()
	return append([]Call{}, calls...)
}

// Inject says whether this call is to fail.
func Inject(system, fn string) bool {
	mu.Lock()
	defer mu.Unlock()
	if fail != system+"."+fn {
		return false
	}
	after--
	return after < 0
}

func Record(c Call) {
	mu.Lock()
	defer mu.Unlock()
	calls = append(calls, c)
}
