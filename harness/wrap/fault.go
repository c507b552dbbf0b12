package wrap

import (
	"errors"
	"fmt"
	"sort"
	"sync"
	"time"
)

// ErrInjected is the error of injected faults
var ErrInjected = errors.New("injected fault")

// Fault is a hook that counts operations, and makes one of them fail
type Fault struct {
	Op     string // "" = only count
	N      int    // n-th occurrence, starting at 0
	Late   bool   // fail after the operation was done
	Sticky bool   // all further occurrences fail too
	Slow   bool   // once it failed every other operation gets slower
	Do     func() // called instead of failing (if not nil)

	mu     sync.Mutex
	counts map[string]int
	after  map[string]int
	hit    bool
}

func (f *Fault) String() string {
	when := "before"
	if f.Late {
		when = "after"
	}
	return fmt.Sprintf("%s occurrence %d fails %s it is done (sticky %v, slow %v)", f.Op, f.N, when, f.Sticky, f.Slow)
}

// Hit checks if the fault happened
func (f *Fault) Hit() bool {
	f.mu.Lock()
	defer f.mu.Unlock()
	return f.hit
}

// Ops returns all operations that happened, and how often
func (f *Fault) Ops() (names []string, counts map[string]int) {
	f.mu.Lock()
	defer f.mu.Unlock()
	counts = map[string]int{}
	for n, c := range f.counts {
		names = append(names, n)
		counts[n] = c
	}
	sort.Strings(names)
	return
}

func (f *Fault) step(op string, late bool) (err error, slow bool) {
	f.mu.Lock()
	defer f.mu.Unlock()
	if f.counts == nil {
		f.counts, f.after = map[string]int{}, map[string]int{}
	}
	m := f.counts
	if late {
		m = f.after
	}
	n := m[op]
	m[op]++
	if f.Op == op && f.Late == late && (n == f.N || f.Sticky && n > f.N) {
		f.hit = true
		if f.Do == nil {
			return ErrInjected, false
		}
		if n == f.N {
			f.Do()
		}
	}
	return nil, f.hit && f.Slow
}

func (f *Fault) Before(op string) error {
	err, slow := f.step(op, false)
	if slow {
		time.Sleep(100 * time.Microsecond)
	}
	return err
}

func (f *Fault) After(op string) error {
	err, _ := f.step(op, true)
	return err
}
