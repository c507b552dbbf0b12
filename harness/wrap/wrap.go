// Package wrap puts hooks around engines, storages, sources and exporters.
// The hooks observe every operation, delay it or make it fail.
package wrap

import (
	"fmt"
	"sync"
	"sync/atomic"

	"github.com/FAU-CDI/drincw/pathbuilder"
	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/sparkl/exporter"
	"github.com/FAU-CDI/hangover/internal/sparkl/storages"
	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/triplestore/imap"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/wisski"
	"github.com/tkw1536/pkglib/traversal"
)

// Hook is called around operations.
type Hook interface {
	// Before is called before the operation; if it returns an error the operation is not performed and returns it.
	Before(op string) error
	// After is called when the operation succeeded; the operation returns the error.
	After(op string) error
}

// Monitor watches the documented protocol of storages
type Monitor struct {
	mu       sync.Mutex
	problems []string
	opened   map[string]int
	closed   map[string]int
	ops      int64
}

func NewMonitor() *Monitor {
	return &Monitor{opened: map[string]int{}, closed: map[string]int{}}
}

func (m *Monitor) Problem(format string, args ...any) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if len(m.problems) < 20 {
		m.problems = append(m.problems, fmt.Sprintf(format, args...))
	}
}

func (m *Monitor) Problems() []string {
	m.mu.Lock()
	defer m.mu.Unlock()
	return append([]string{}, m.problems...)
}

func (m *Monitor) Ops() int { return int(atomic.LoadInt64(&m.ops)) }

// Unclosed returns everything that was opened and never closed
func (m *Monitor) Unclosed() (names []string) {
	m.mu.Lock()
	defer m.mu.Unlock()
	for n, c := range m.opened {
		if c > m.closed[n] {
			names = append(names, fmt.Sprintf("%s: opened %d times, closed %d times", n, c, m.closed[n]))
		}
	}
	return
}

func (m *Monitor) Opened() (n int) {
	m.mu.Lock()
	defer m.mu.Unlock()
	for _, c := range m.opened {
		n += c
	}
	return
}

// res is a single resource that was opened
type res struct {
	m         *Monitor
	name      string
	closed    atomic.Bool
	finalized atomic.Bool
	writers   atomic.Int32
}

func (m *Monitor) open(name string) *res {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.opened[name]++
	return &res{m: m, name: name}
}

func (r *res) read(op string) {
	atomic.AddInt64(&r.m.ops, 1)
	if r.closed.Load() {
		r.m.Problem("%s.%s after it was closed", r.name, op)
	}
}

func (r *res) write(op string) {
	r.read(op)
	if r.finalized.Load() {
		r.m.Problem("%s.%s after it was finalized", r.name, op)
	}
}

// single notes a modification that must not run at the same time as another one
func (r *res) single(op string) func() {
	r.write(op)
	if r.writers.Add(1) > 1 {
		r.m.Problem("%s.%s concurrent with another modification", r.name, op)
	}
	return func() { r.writers.Add(-1) }
}

func (r *res) close() {
	if r.closed.Swap(true) {
		return
	}
	r.m.mu.Lock()
	defer r.m.mu.Unlock()
	r.m.closed[r.name]++
}

// Engine wraps an igraph engine
type Engine struct {
	E igraph.Engine
	H Hook
	M *Monitor
}

func open[T any, W any](e *Engine, name string, f func() (T, error), wrap func(T, *res) W) (w W, err error) {
	op := name + ".open"
	if err := e.H.Before(op); err != nil {
		return w, err
	}
	t, err := f()
	if err != nil {
		return w, err
	}
	if err := e.H.After(op); err != nil {
		if c, ok := any(t).(interface{ Close() error }); ok {
			c.Close()
		}
		return w, err
	}
	return wrap(t, e.M.open(name)), nil
}

func hash[K comparable, V any](e *Engine, name string) func(h imap.HashMap[K, V], r *res) imap.HashMap[K, V] {
	return func(h imap.HashMap[K, V], r *res) imap.HashMap[K, V] {
		return &hashMap[K, V]{h: h, n: name, k: e.H, r: r}
	}
}

func three(e *Engine, name string) func(h igraph.ThreeStorage, r *res) igraph.ThreeStorage {
	return func(h igraph.ThreeStorage, r *res) igraph.ThreeStorage {
		return &threeStorage{h: h, n: name, k: e.H, r: r}
	}
}

func (e *Engine) Forward() (imap.HashMap[impl.Label, imap.TripleID], error) {
	return open(e, "forward", e.E.Forward, hash[impl.Label, imap.TripleID](e, "forward"))
}
func (e *Engine) Reverse() (imap.HashMap[impl.ID, impl.Label], error) {
	return open(e, "reverse", e.E.Reverse, hash[impl.ID, impl.Label](e, "reverse"))
}
func (e *Engine) Data() (imap.HashMap[impl.ID, impl.Datum], error) {
	return open(e, "data", e.E.Data, hash[impl.ID, impl.Datum](e, "data"))
}
func (e *Engine) Language() (imap.HashMap[impl.ID, impl.Language], error) {
	return open(e, "language", e.E.Language, hash[impl.ID, impl.Language](e, "language"))
}
func (e *Engine) Triples() (imap.HashMap[impl.ID, igraph.IndexTriple], error) {
	return open(e, "triples", e.E.Triples, hash[impl.ID, igraph.IndexTriple](e, "triples"))
}
func (e *Engine) Inverses() (imap.HashMap[impl.ID, impl.ID], error) {
	return open(e, "inverses", e.E.Inverses, hash[impl.ID, impl.ID](e, "inverses"))
}
func (e *Engine) PSOIndex() (igraph.ThreeStorage, error) {
	return open(e, "pso", e.E.PSOIndex, three(e, "pso"))
}
func (e *Engine) POSIndex() (igraph.ThreeStorage, error) {
	return open(e, "pos", e.E.POSIndex, three(e, "pos"))
}

type hashMap[K comparable, V any] struct {
	h imap.HashMap[K, V]
	n string
	k Hook
	r *res
}

func (h *hashMap[K, V]) do(op string, f func() error) error {
	op = h.n + "." + op
	if err := h.k.Before(op); err != nil {
		return err
	}
	if err := f(); err != nil {
		return err
	}
	return h.k.After(op)
}

func (h *hashMap[K, V]) Close() error {
	h.r.close()
	return h.do("Close", h.h.Close)
}
func (h *hashMap[K, V]) Compact() error {
	defer h.r.single("Compact")()
	return h.do("Compact", h.h.Compact)
}
func (h *hashMap[K, V]) Finalize() error {
	done := h.r.single("Finalize")
	h.r.finalized.Store(true)
	defer done()
	return h.do("Finalize", h.h.Finalize)
}
func (h *hashMap[K, V]) Set(key K, value V) error {
	defer h.r.single("Set")()
	return h.do("Set", func() error { return h.h.Set(key, value) })
}
func (h *hashMap[K, V]) Get(key K) (v V, ok bool, err error) {
	h.r.read("Get")
	err = h.do("Get", func() (err error) { v, ok, err = h.h.Get(key); return })
	if err != nil {
		var zero V
		return zero, false, err
	}
	return
}
func (h *hashMap[K, V]) GetZero(key K) (v V, err error) {
	h.r.read("GetZero")
	err = h.do("GetZero", func() (err error) { v, err = h.h.GetZero(key); return })
	if err != nil {
		var zero V
		return zero, err
	}
	return
}
func (h *hashMap[K, V]) Has(key K) (ok bool, err error) {
	h.r.read("Has")
	err = h.do("Has", func() (err error) { ok, err = h.h.Has(key); return })
	return ok && err == nil, err
}
func (h *hashMap[K, V]) Delete(key K) error {
	defer h.r.single("Delete")()
	return h.do("Delete", func() error { return h.h.Delete(key) })
}
func (h *hashMap[K, V]) Iterate(f func(K, V) error) error {
	h.r.read("Iterate")
	return h.do("Iterate", func() error {
		return h.h.Iterate(func(k K, v V) error {
			if err := h.k.Before(h.n + ".Iterate.step"); err != nil {
				return err
			}
			return f(k, v)
		})
	})
}
func (h *hashMap[K, V]) Count() (n uint64, err error) {
	h.r.read("Count")
	err = h.do("Count", func() (err error) { n, err = h.h.Count(); return })
	return
}

type threeStorage struct {
	h igraph.ThreeStorage
	n string
	k Hook
	r *res
}

func (h *threeStorage) do(op string, f func() error) error {
	op = h.n + "." + op
	if err := h.k.Before(op); err != nil {
		return err
	}
	if err := f(); err != nil {
		return err
	}
	return h.k.After(op)
}
func (h *threeStorage) Close() error {
	h.r.close()
	return h.do("Close", h.h.Close)
}
func (h *threeStorage) Add(a, b, c impl.ID, l impl.ID, conflict func(old, new impl.ID) (impl.ID, error)) (conflicted bool, err error) {
	defer h.r.single("Add")()
	err = h.do("Add", func() (err error) { conflicted, err = h.h.Add(a, b, c, l, conflict); return })
	return conflicted && err == nil, err
}
func (h *threeStorage) Count() (n int64, err error) {
	h.r.read("Count")
	err = h.do("Count", func() (err error) { n, err = h.h.Count(); return })
	return
}
func (h *threeStorage) Compact() error {
	defer h.r.single("Compact")()
	return h.do("Compact", h.h.Compact)
}
func (h *threeStorage) Finalize() error {
	done := h.r.single("Finalize")
	h.r.finalized.Store(true)
	defer done()
	return h.do("Finalize", h.h.Finalize)
}
func (h *threeStorage) Fetch(a, b impl.ID, f func(c impl.ID, l impl.ID) error) error {
	h.r.read("Fetch")
	return h.do("Fetch", func() error {
		return h.h.Fetch(a, b, func(c, l impl.ID) error {
			if err := h.k.Before(h.n + ".Fetch.step"); err != nil {
				return err
			}
			return f(c, l)
		})
	})
}
func (h *threeStorage) Has(a, b, c impl.ID) (l impl.ID, ok bool, err error) {
	h.r.read("Has")
	err = h.do("Has", func() (err error) { l, ok, err = h.h.Has(a, b, c); return })
	return l, ok && err == nil, err
}

// BEngine wraps a bundle engine
type BEngine struct {
	E storages.BundleEngine
	H Hook
	M *Monitor
}

func (e *BEngine) NewStorage(bundle *pathbuilder.Bundle) (storages.BundleStorage, error) {
	name := "bundle:" + bundle.MachineName()
	op := name + ".NewStorage"
	if err := e.H.Before(op); err != nil {
		return nil, err
	}
	s, err := e.E.NewStorage(bundle)
	if err != nil {
		return nil, err
	}
	if err := e.H.After(op); err != nil {
		s.Close()
		return nil, err
	}
	return &bundleStorage{s: s, n: name, h: e.H, r: e.M.open(name), fields: map[string]int{}, children: map[string]int{}}, nil
}

type bundleStorage struct {
	s storages.BundleStorage
	n string
	h Hook
	r *res

	mu       sync.Mutex
	adding   int
	fields   map[string]int
	children map[string]int
	added    bool // a field or child was added
}

func (b *bundleStorage) do(op string, f func() error) error {
	op = b.n + "." + op
	if err := b.h.Before(op); err != nil {
		return err
	}
	if err := f(); err != nil {
		return err
	}
	return b.h.After(op)
}

// serial notes an operation for which only one may run at a time
func (b *bundleStorage) serial(op, key string) func() {
	b.r.write(op)
	b.mu.Lock()
	defer b.mu.Unlock()
	m := b.fields
	if op == "AddChild" {
		m = b.children
	}
	switch op {
	case "Add":
		if b.adding > 0 {
			b.r.m.Problem("%s.Add: calls are not serialized", b.n)
		}
		b.adding++
	default:
		if m[key] > 0 {
			b.r.m.Problem("%s.%s: calls for %q are not serialized", b.n, op, key)
		}
		m[key]++
	}
	return func() {
		b.mu.Lock()
		defer b.mu.Unlock()
		if op == "Add" {
			b.adding--
		} else {
			m[key]--
		}
	}
}

func (b *bundleStorage) Close() error {
	b.r.close()
	return b.do("Close", b.s.Close)
}

func (b *bundleStorage) Add(uri impl.Label, path []impl.Label, triples []igraph.Triple) error {
	defer b.serial("Add", "")()
	return b.do("Add", func() error { return b.s.Add(uri, path, triples) })
}

func (b *bundleStorage) AddFieldValue(uri impl.Label, field string, value impl.Datum, lang impl.Language, path []impl.Label, triples []igraph.Triple) error {
	defer b.serial("AddFieldValue", field)()
	return b.do("AddFieldValue", func() error { return b.s.AddFieldValue(uri, field, value, lang, path, triples) })
}

func (b *bundleStorage) RegisterChildStorage(bundle string, storage storages.BundleStorage) error {
	b.r.write("RegisterChildStorage")
	return b.do("RegisterChildStorage", func() error { return b.s.RegisterChildStorage(bundle, storage) })
}

func (b *bundleStorage) AddChild(parent impl.Label, bundle string, child impl.Label) error {
	defer b.serial("AddChild", bundle)()
	return b.do("AddChild", func() error { return b.s.AddChild(parent, bundle, child) })
}

func (b *bundleStorage) Finalize() error {
	b.r.write("Finalize")
	b.mu.Lock()
	busy := b.adding
	for _, n := range b.fields {
		busy += n
	}
	for _, n := range b.children {
		busy += n
	}
	b.mu.Unlock()
	if busy > 0 {
		b.r.m.Problem("%s.Finalize during a modification", b.n)
	}
	b.r.finalized.Store(true)
	return b.do("Finalize", b.s.Finalize)
}

func (b *bundleStorage) Get(parentPathIndex int) traversal.Iterator[storages.LabelWithParent] {
	b.r.read("Get")
	if err := b.h.Before(b.n + ".Get"); err != nil {
		return traversal.Empty[storages.LabelWithParent](err)
	}
	it := b.s.Get(parentPathIndex)
	return traversal.New(func(sender traversal.Generator[storages.LabelWithParent]) {
		defer sender.Return()
		defer it.Close()
		for it.Next() {
			if err := b.h.Before(b.n + ".Get.step"); err != nil {
				sender.YieldError(err)
				return
			}
			if !sender.Yield(it.Datum()) {
				return
			}
		}
		if err := it.Err(); err != nil {
			sender.YieldError(err)
			return
		}
		sender.YieldError(b.h.After(b.n + ".Get"))
	})
}

func (b *bundleStorage) Count() (n int64, err error) {
	b.r.read("Count")
	err = b.do("Count", func() (err error) { n, err = b.s.Count(); return })
	return
}

func (b *bundleStorage) Load(uri impl.Label) (e wisski.Entity, err error) {
	b.r.read("Load")
	err = b.do("Load", func() (err error) { e, err = b.s.Load(uri); return })
	if err != nil {
		return wisski.Entity{}, err
	}
	return
}

// Source wraps a source
type Source struct {
	S sparkl.Source
	H Hook
	M *Monitor
	r *res
}

func (s *Source) Open() error {
	if err := s.H.Before("source.Open"); err != nil {
		return err
	}
	if err := s.S.Open(); err != nil {
		return err
	}
	s.r = s.M.open("source")
	if err := s.H.After("source.Open"); err != nil {
		s.S.Close()
		s.r.close()
		return err
	}
	return nil
}

func (s *Source) Close() error {
	s.r.close()
	return s.S.Close()
}

func (s *Source) Next() sparkl.Token {
	s.r.read("Next")
	if err := s.H.Before("source.Next"); err != nil {
		return sparkl.Token{Err: err}
	}
	return s.S.Next()
}

// Exporter wraps an exporter
type Exporter struct {
	E exporter.Exporter
	H Hook
	M *Monitor

	mu     sync.Mutex
	state  map[string]int // 1 = begun, 2 = ended
	want   map[string]int64
	got    map[string]int64
	closed int
}

func (e *Exporter) Begin(bundle *pathbuilder.Bundle, count int64) error {
	n := bundle.MachineName()
	e.mu.Lock()
	if e.state == nil {
		e.state, e.want, e.got = map[string]int{}, map[string]int64{}, map[string]int64{}
	}
	if e.state[n] != 0 || e.closed > 0 {
		e.M.Problem("exporter.Begin(%q) in state %d, closed %d", n, e.state[n], e.closed)
	}
	e.state[n] = 1
	e.want[n] = count
	e.mu.Unlock()
	if err := e.H.Before("exporter:" + n + ".Begin"); err != nil {
		return err
	}
	if err := e.E.Begin(bundle, count); err != nil {
		return err
	}
	return e.H.After("exporter:" + n + ".Begin")
}

func (e *Exporter) Add(bundle *pathbuilder.Bundle, entity *wisski.Entity) error {
	n := bundle.MachineName()
	e.mu.Lock()
	if e.state[n] != 1 || e.closed > 0 {
		e.M.Problem("exporter.Add(%q) in state %d, closed %d", n, e.state[n], e.closed)
	}
	e.got[n]++
	e.mu.Unlock()
	if err := e.H.Before("exporter:" + n + ".Add"); err != nil {
		return err
	}
	if err := e.E.Add(bundle, entity); err != nil {
		return err
	}
	return e.H.After("exporter:" + n + ".Add")
}

func (e *Exporter) End(bundle *pathbuilder.Bundle) error {
	n := bundle.MachineName()
	e.mu.Lock()
	if e.state[n] != 1 || e.closed > 0 {
		e.M.Problem("exporter.End(%q) in state %d, closed %d", n, e.state[n], e.closed)
	}
	e.state[n] = 2
	e.mu.Unlock()
	if err := e.H.Before("exporter:" + n + ".End"); err != nil {
		return err
	}
	if err := e.E.End(bundle); err != nil {
		return err
	}
	return e.H.After("exporter:" + n + ".End")
}

func (e *Exporter) Close() error {
	e.mu.Lock()
	e.closed++
	for n, s := range e.state {
		if s == 1 {
			e.M.Problem("exporter.Close while %q has not ended", n)
		}
	}
	e.mu.Unlock()
	if err := e.H.Before("exporter.Close"); err != nil {
		return err
	}
	if err := e.E.Close(); err != nil {
		return err
	}
	return e.H.After("exporter.Close")
}

// Closed returns how often the exporter was closed
func (e *Exporter) Closed() int {
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.closed
}

// Counts returns the bundles that were announced with another number of entities than they have
func (e *Exporter) Counts() (bad []string) {
	e.mu.Lock()
	defer e.mu.Unlock()
	for n, s := range e.state {
		if s != 2 {
			bad = append(bad, fmt.Sprintf("%q has not ended", n))
		}
		if e.want[n] != e.got[n] {
			bad = append(bad, fmt.Sprintf("%q announced %d, got %d", n, e.want[n], e.got[n]))
		}
	}
	return
}

// None is a hook that does nothing
type None struct{}

func (None) Before(string) error { return nil }
func (None) After(string) error  { return nil }

// Hash wraps a single map
func Hash[K comparable, V any](name string, h imap.HashMap[K, V], k Hook, m *Monitor) imap.HashMap[K, V] {
	return &hashMap[K, V]{h: h, n: name, k: k, r: m.open(name)}
}
