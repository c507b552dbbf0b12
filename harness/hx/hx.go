// Package hx is the frame shared by all monitors: flags, the verdict, counters and evidence.
package hx

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"time"
)

// Violation is a single observed violation
type Violation struct {
	Sig    string `json:"sig"`    // stable description of what failed
	Detail string `json:"detail"` // everything needed to understand it
	Case   string `json:"case"`   // name of the case
}

// R collects the results of a run
type R struct {
	scale    float64
	stop     chan struct{} // closed when the run must end
	stopOnce sync.Once

	Prop     string
	Seed     int64
	Thorough bool
	Only     string // only run the case with this name
	Scratch  string

	mu       sync.Mutex
	evals    int64
	distinct map[uint64]struct{}
	counts   map[string]int64
	samples  []string
	rule     string
	viol     []Violation
	known    map[string]string
	incon    []string
	assume   []string
	start    time.Time
	out      string
	tmp      int
}

type result struct {
	Property     string            `json:"property"`
	Evaluations  int64             `json:"evaluations"`
	Distinct     int64             `json:"distinct"`
	Rule         string            `json:"rule"`
	Samples      []string          `json:"samples"`
	Counts       map[string]int64  `json:"counts"`
	Violations   []Violation       `json:"violations"`
	Known        map[string]string `json:"known"`
	Inconclusive []string          `json:"inconclusive"`
	Assumptions  []string          `json:"assumptions"`
	WallS        float64           `json:"wall_s"`
	Finished     bool              `json:"finished"`
}

// Main runs f and writes the result
func Main(prop string, f func(r *R)) {
	r := &R{Prop: prop, distinct: map[uint64]struct{}{}, counts: map[string]int64{}, known: map[string]string{}, start: time.Now(), stop: make(chan struct{})}
	var tier string
	flag.StringVar(&r.out, "out", "", "result file")
	flag.Int64Var(&r.Seed, "seed", 1, "seed")
	flag.StringVar(&tier, "tier", "quick", "tier")
	flag.StringVar(&r.Only, "only", "", "only the given case")
	flag.StringVar(&r.Scratch, "scratch", "", "scratch directory")
	flag.Float64Var(&r.scale, "scale", 1, "fraction of the cases that are run (for development)")
	flag.Parse()
	r.Thorough = tier == "thorough"
	if p := os.Getenv("HX_PROF"); p != "" {
		if f, err := os.Create(p); err == nil {
			pprof.StartCPUProfile(f)
		}
	}
	if r.Scratch == "" {
		d, err := os.MkdirTemp("", "vh")
		if err != nil {
			panic(err)
		}
		r.Scratch = d
		defer os.RemoveAll(d)
	}
	func() {
		defer func() {
			if p := recover(); p != nil {
				if _, stop := p.(stopRun); stop {
					return
				}
				if InRepo(string(debug.Stack())) {
					r.Violation("main", "panic in the code under test", fmt.Sprintf("%v\n%s", p, debug.Stack()))
				} else {
					r.Inconclusive(fmt.Sprintf("harness panic: %v\n%s", p, debug.Stack()))
				}
			}
		}()
		f(r)
	}()
	pprof.StopCPUProfile()
	r.write(true)
	if len(r.viol) > 0 {
		for _, v := range r.viol {
			fmt.Printf("violation in %s: %s\n%s\n", v.Case, v.Sig, Trunc(v.Detail, 4000))
		}
	}
	for _, i := range r.incon {
		fmt.Println("inconclusive:", i)
	}
	fmt.Printf("%s: evaluations=%d distinct=%d violations=%d counts=%v\n", prop, r.evals, len(r.distinct), len(r.viol), r.counts)
	os.Exit(0)
}

type stopRun struct{}

// Stop ends the run, results are kept
func (r *R) Stop() { panic(stopRun{}) }

func (r *R) write(finished bool) {
	r.mu.Lock()
	defer r.mu.Unlock()
	res := result{Property: r.Prop, Evaluations: r.evals, Distinct: int64(len(r.distinct)), Rule: r.rule, Samples: r.samples,
		Counts: r.counts, Violations: r.viol, Known: r.known, Inconclusive: r.incon, Assumptions: r.assume, WallS: time.Since(r.start).Seconds(), Finished: finished}
	if r.out == "" {
		return
	}
	data, err := json.MarshalIndent(res, "", " ")
	if err != nil {
		panic(err)
	}
	tmp := r.out + ".tmp"
	if err := os.WriteFile(tmp, data, 0o644); err != nil {
		panic(err)
	}
	os.Rename(tmp, r.out)
}

// Checkpoint writes the results gathered so far
func (r *R) Checkpoint() { r.write(false) }

// Pick returns q in the quick tier and t in the thorough tier
func (r *R) Pick(q, t int) int {
	if r.Thorough {
		return t
	}
	return q
}

func (r *R) Rule(s string)   { r.mu.Lock(); r.rule = s; r.mu.Unlock() }
func (r *R) Assume(s string) { r.mu.Lock(); r.assume = append(r.assume, s); r.mu.Unlock() }

// Eval counts an evaluation; key identifies it, and is empty when it is trivial.
func (r *R) Eval(key string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.evals++
	if key != "" {
		h := fnv.New64a()
		h.Write([]byte(key))
		r.distinct[h.Sum64()] = struct{}{}
	}
}

func (r *R) Count(name string, n int) {
	r.mu.Lock()
	r.counts[name] += int64(n)
	r.mu.Unlock()
}

func (r *R) Max(name string, n int) {
	r.mu.Lock()
	if int64(n) > r.counts[name] {
		r.counts[name] = int64(n)
	}
	r.mu.Unlock()
}

func (r *R) Get(name string) int64 {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.counts[name]
}

// Require makes the run inconclusive if the counter is too small
func (r *R) Require(name string, min int) {
	if r.Only != "" {
		return
	}
	if n := r.Get(name); n < int64(min) && r.NumViolations() == 0 {
		r.Inconclusive(fmt.Sprintf("monitor observed only %d of %q, need %d", n, name, min))
	}
}

func (r *R) NumViolations() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.viol)
}

func (r *R) Sample(s string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.samples) < 6 {
		r.samples = append(r.samples, Trunc(s, 1200))
	}
}

// Violation records a violation
func (r *R) Violation(kase, sig string, detail string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.viol) < 8 {
		r.viol = append(r.viol, Violation{Sig: sig, Detail: Trunc(detail, 20000), Case: kase})
	}
}

// Known records that a listed finding was observed
func (r *R) Known(id, what string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.known[id] = what
}

func (r *R) Inconclusive(s string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.incon) < 5 {
		r.incon = append(r.incon, Trunc(s, 8000))
	}
}

// Dir makes a new scratch directory
func (r *R) Dir() string {
	r.mu.Lock()
	r.tmp++
	d := filepath.Join(r.Scratch, fmt.Sprintf("d%d", r.tmp))
	r.mu.Unlock()
	if err := os.MkdirAll(d, 0o755); err != nil {
		panic(err)
	}
	return d
}

// Rand returns the random source for the case with the given name
func (r *R) Rand(name string) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%s", r.Seed, r.Prop, name)
	return rand.New(rand.NewSource(int64(h.Sum64())))
}

// Cases runs n cases with the given prefix in parallel
func (r *R) Cases(prefix string, n int, f func(name string, rnd *rand.Rand)) {
	r.CasesN(prefix, n, runtime.NumCPU(), f)
}

// CasesN runs n cases, workers at a time.
func (r *R) CasesN(prefix string, n, workers int, f func(name string, rnd *rand.Rand)) {
	if n > 1 {
		n = max(1, int(float64(n)*r.scale))
	}
	var wg sync.WaitGroup
	ch, idle := make(chan int), make(chan struct{})
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				name := fmt.Sprintf("%s-%d", prefix, i)
				if r.Only != "" && r.Only != name {
					continue
				}
				if r.NumViolations() >= 3 {
					continue
				}
				if !r.doStop(name, func() { f(name, r.Rand(name)) }) {
					return
				}
			}
		}()
	}
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer close(ch)
		for i := 0; i < n; i++ {
			select {
			case ch <- i:
			case <-r.stop:
				return
			}
		}
	}()
	go func() {
		<-done
		wg.Wait()
		close(idle)
	}()
	select {
	case <-idle:
	case <-r.stop:
	}
	select {
	case <-r.stop:
		panic(stopRun{}) // this is the goroutine of Main
	default:
	}
}

// doStop is like Do, for goroutines other than that of Main. It returns false if the run must end.
func (r *R) doStop(name string, f func()) (ok bool) {
	defer func() {
		if p := recover(); p != nil {
			if _, stop := p.(stopRun); !stop {
				panic(p)
			}
			r.stopOnce.Do(func() { close(r.stop) })
		}
	}()
	r.Do(name, f)
	return true
}

// Do runs a single case, a panic in the code under test is a violation.
func (r *R) Do(name string, f func()) {
	if r.Only != "" && r.Only != name {
		return
	}
	defer func() {
		if p := recover(); p != nil {
			if _, stop := p.(stopRun); stop {
				panic(p)
			}
			st := string(debug.Stack())
			if InRepo(st) {
				r.Violation(name, "panic in the code under test", fmt.Sprintf("%v\n%s", p, st))
			} else {
				r.Inconclusive(fmt.Sprintf("harness panic in %s: %v\n%s", name, p, st))
			}
		}
	}()
	f()
}

// InRepo checks if the panic in the given stack was raised beneath code of the repository
func InRepo(stack string) bool {
	// find the innermost frame after the last panic(
	lines := strings.Split(stack, "\n")
	start := 0
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			start = i
			break
		}
	}
	for _, l := range lines[start:] {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "github.com/FAU-CDI/hangover") {
			continue
		}
		// the first frame inside our module decides
		return !strings.Contains(l, "/verifh/")
	}
	return false
}

func Trunc(s string, n int) string {
	if len(s) <= n {
		return s
	}
	return s[:n] + fmt.Sprintf("... (%d more bytes)", len(s)-n)
}

// SortedKeys returns the sorted keys of a map
func SortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// DiffText shows the first difference between two texts
func DiffText(want, got string) string {
	w, g := strings.Split(want, "\n"), strings.Split(got, "\n")
	for i := 0; i < len(w) || i < len(g); i++ {
		a, b := "<end>", "<end>"
		if i < len(w) {
			a = w[i]
		}
		if i < len(g) {
			b = g[i]
		}
		if a != b {
			return fmt.Sprintf("line %d\n  want: %s\n  got:  %s", i+1, Trunc(a, 1500), Trunc(b, 1500))
		}
	}
	return "no difference"
}

// Stacks returns the stacks of all goroutines
func Stacks() string {
	stackM.Lock()
	defer stackM.Unlock()
	for {
		n := runtime.Stack(stackBuf, true)
		if n < len(stackBuf) || n >= 64<<20 {
			return string(stackBuf[:n])
		}
		stackBuf = make([]byte, 2*len(stackBuf))
	}
}

var (
	stackM   sync.Mutex
	stackBuf = make([]byte, 1<<20)
)

// RepoGoroutines returns the goroutines that have a frame of the repository (and not of the harness),
// or of the packages it spawns goroutines with.
func RepoGoroutines() (stacks []string) {
	for _, g := range strings.Split(Stacks(), "\n\n") {
		if IsRepoGoroutine(g) {
			stacks = append(stacks, g)
		}
	}
	return
}

// frames of the harness, except for those of wrappers which run within goroutines of the code under test
var harnessFrame = regexp.MustCompile(`/internal/verifh/(c[0-9]+|hx|lib|gq|world|web)[./]|^main\.|\nmain\.`)

// IsRepoGoroutine checks if a goroutine was started by, or executes, code of the repository.
func IsRepoGoroutine(g string) bool {
	if strings.Contains(g, ").mpoolDrain(") {
		return false // stays for a second after a database was closed, an open database has others too
	}
	if harnessFrame.MatchString(g) {
		return false
	}
	for _, s := range []string{"github.com/FAU-CDI/hangover/", "github.com/tkw1536/pkglib/", "github.com/syndtr/goleveldb/"} {
		if strings.Contains(g, s) {
			return true
		}
	}
	return false
}

// AwaitNoRepoGoroutines waits until there are no more goroutines in the code under test.
// It gives up after a number of polls and returns what is left.
func AwaitNoRepoGoroutines() []string {
	var left []string
	for i := 0; i < 400; i++ {
		left = RepoGoroutines()
		if len(left) == 0 {
			return nil
		}
		runtime.Gosched()
		time.Sleep(time.Duration(1+i/10) * time.Millisecond)
	}
	return left
}

// state of a goroutine in a dump
func goState(g string) string {
	i, j := strings.IndexByte(g, '['), strings.IndexByte(g, ']')
	if i < 0 || j < i {
		return ""
	}
	s := g[i+1 : j]
	if k := strings.IndexByte(s, ','); k >= 0 {
		s = s[:k]
	}
	return s
}

var blocked = map[string]bool{
	"chan receive": true, "chan send": true, "select": true, "semacquire": true, "sync.WaitGroup.Wait": true,
	"sync.Mutex.Lock": true, "sync.RWMutex.RLock": true, "sync.RWMutex.Lock": true, "sync.Cond.Wait": true,
	"chan receive (nil chan)": true, "chan send (nil chan)": true, "select (no cases)": true,
}

// Guard runs f. It returns finished = true once f returns.
// When f makes no progress and every goroutine of the code under test is blocked in several consecutive samples,
// deadlock is true and stacks holds the goroutines. When it simply takes too long both are false.
func Guard(f func(), maxSeconds int) (finished, deadlock bool, stacks string) {
	done := make(chan struct{})
	go func() {
		defer close(done)
		f()
	}()
	var last string
	var same int
	for i := 0; i < maxSeconds*4; i++ {
		select {
		case <-done:
			return true, false, ""
		case <-time.After(250 * time.Millisecond):
		}
		all := strings.Split(Stacks(), "\n\n")
		ok := true
		var cur []string
		for _, g := range all {
			if strings.Contains(g, "hx.Guard(") || strings.Contains(g, "hx.Background") || strings.Contains(g, "hx.Stacks(") {
				continue
			}
			if !(IsRepoGoroutine(g) || strings.Contains(g, "github.com/FAU-CDI/hangover/internal/")) {
				continue
			}
			st := goState(g)
			if strings.Contains(g, "goleveldb") && !strings.Contains(g, "github.com/FAU-CDI/hangover/internal/sparkl") {
				continue // background goroutines of databases wait all the time
			}
			if !blocked[st] {
				ok = false
				break
			}
			cur = append(cur, g)
		}
		inside := false
		for _, g := range cur {
			inside = inside || hasRepoFrame(g)
		}
		if !ok || !inside {
			same = 0
			continue
		}
		txt := stripTimes(strings.Join(cur, "\n\n"))
		if txt == last && len(cur) > 0 {
			same++
		} else {
			same = 0
		}
		last = txt
		if same >= 40 { // the same blocked goroutines for 10 seconds
			return false, true, txt
		}
	}
	return false, false, Stacks()
}

// hasRepoFrame checks if a goroutine is inside code of the repository, possibly called by the harness
func hasRepoFrame(g string) bool {
	for _, l := range strings.Split(g, "\n") {
		if strings.HasPrefix(l, "github.com/FAU-CDI/hangover/") && !strings.Contains(l, "/verifh/") {
			return true
		}
	}
	return false
}

// Background runs f repeatedly until the returned function is called; Guard does not care about it.
func Background(f func()) (stop func()) {
	quit, done := make(chan struct{}), make(chan struct{})
	go func() {
		defer close(done)
		for {
			select {
			case <-quit:
				return
			default:
				f()
				time.Sleep(50 * time.Microsecond)
			}
		}
	}()
	return func() { close(quit); <-done }
}

func stripTimes(s string) string {
	lines := strings.Split(s, "\n")
	for i, l := range lines {
		if strings.HasPrefix(l, "goroutine ") {
			if j := strings.IndexByte(l, '['); j > 0 {
				lines[i] = l[:j] + "[" + goState(l) + "]"
			}
		}
	}
	return strings.Join(lines, "\n")
}
