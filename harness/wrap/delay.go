package wrap

import (
	"fmt"
	"hash/fnv"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"time"
)

// Delay is a hook that disturbs the scheduling and notes the order of operations
type Delay struct {
	mu     sync.Mutex
	rnd    *rand.Rand
	kind   int
	target string // prefix or suffix of delayed operations
	until  string // operation that is waited for
	seen   chan struct{}
	once   bool
	budget int
	h      uint64
	Events int
	Name   string
}

// Kinds of delays
const (
	NoDelay = iota
	Jitter  // random pauses everywhere
	Starve  // operations of one kind are slow
	StarveBundle
	Order // the first operation of one kind waits for one of another kind
	Late  // pauses after operations
	Kinds
)

var delayOps = []string{".NewStorage", ".Add", ".AddFieldValue", ".RegisterChildStorage", ".AddChild", ".Finalize", ".Get", ".Get.step", ".Count", ".Load",
	"pso.Fetch", "pos.Fetch", "pso.Fetch.step", "pos.Fetch.step", "triples.Get", "data.Get", "reverse.GetZero", ".Begin", ".End"}

// NewDelay makes a delay of the given kind
func NewDelay(rnd *rand.Rand, kind int, bundles []string) *Delay {
	d := &Delay{rnd: rand.New(rand.NewSource(rnd.Int63())), kind: kind, budget: 60, seen: make(chan struct{})}
	d.target = delayOps[rnd.Intn(len(delayOps))]
	d.until = delayOps[rnd.Intn(len(delayOps))]
	if kind == StarveBundle && len(bundles) > 0 {
		d.target = "bundle:" + bundles[rnd.Intn(len(bundles))] + "."
	}
	if kind == Order && rnd.Intn(2) == 0 && len(bundles) > 1 {
		d.target = "bundle:" + bundles[rnd.Intn(len(bundles))] + delayOps[rnd.Intn(10)]
		d.until = "bundle:" + bundles[rnd.Intn(len(bundles))] + delayOps[rnd.Intn(10)]
	}
	d.Name = fmt.Sprintf("kind %d target %q until %q", kind, d.target, d.until)
	return d
}

func match(op, pattern string) bool {
	if strings.HasSuffix(pattern, ".") {
		return strings.HasPrefix(op, pattern)
	}
	return strings.HasSuffix(op, pattern)
}

// Sum is a hash of the order of events seen so far
func (d *Delay) Sum() uint64 {
	d.mu.Lock()
	defer d.mu.Unlock()
	return d.h
}

func (d *Delay) Count() int {
	d.mu.Lock()
	defer d.mu.Unlock()
	return d.Events
}

func (d *Delay) event(op string) (pause time.Duration, wait bool) {
	d.mu.Lock()
	defer d.mu.Unlock()
	f := fnv.New64a()
	fmt.Fprintf(f, "%d %s", d.h, op)
	d.h = f.Sum64()
	d.Events++
	if d.kind == Order && match(op, d.until) {
		select {
		case <-d.seen:
		default:
			close(d.seen)
		}
	}
	if d.budget <= 0 {
		return
	}
	switch d.kind {
	case Jitter:
		switch d.rnd.Intn(12) {
		case 0:
			d.budget--
			pause = time.Duration(d.rnd.Intn(300)) * time.Microsecond
		case 1, 2:
			pause = 1
		}
	case Starve, StarveBundle:
		if match(op, d.target) {
			d.budget--
			pause = time.Duration(200+d.rnd.Intn(1500)) * time.Microsecond
		}
	case Order:
		if !d.once && match(op, d.target) {
			d.once = true
			wait = true
		}
	}
	return
}

func (d *Delay) Before(op string) error {
	pause, wait := d.event(op)
	switch {
	case wait:
		select {
		case <-d.seen:
		case <-time.After(15 * time.Millisecond):
		}
	case pause == 1:
		runtime.Gosched()
	case pause > 0:
		time.Sleep(pause)
	}
	return nil
}

func (d *Delay) After(op string) error {
	if d.kind != Late {
		return nil
	}
	d.mu.Lock()
	hit := d.budget > 0 && d.rnd.Intn(5) == 0
	if hit {
		d.budget--
	}
	d.mu.Unlock()
	if hit {
		time.Sleep(300 * time.Microsecond)
	}
	return nil
}
