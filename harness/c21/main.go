// Command c21 monitors that loading is free of data races and gives the same result for every interleaving.
// It is built with the race detector.
package main

import (
	"fmt"
	"io"
	"math/rand"
	"path/filepath"
	"runtime"

	"github.com/FAU-CDI/hangover/internal/glass"
	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/sparkl/exporter"
	"github.com/FAU-CDI/hangover/internal/sparkl/storages"
	"github.com/FAU-CDI/hangover/internal/stats"
	"github.com/FAU-CDI/hangover/internal/verifh/hx"
	"github.com/FAU-CDI/hangover/internal/verifh/lib"
	"github.com/FAU-CDI/hangover/internal/verifh/world"
	"github.com/FAU-CDI/hangover/internal/verifh/wrap"
	"github.com/FAU-CDI/hangover/internal/viewer"
	"github.com/FAU-CDI/hangover/internal/wisski"
)

func main() {
	hx.Main("C21", func(r *hx.R) {
		r.Rule("each evaluation is one extraction (or a complete load) with injected delays under the race detector; distinct ones differ in the order in which operations of storages and indexes happened; the result is compared with the model and, including order, with other runs on the same index")
		r.Assume("races are looked for in the executions that were observed; the race detector itself is trusted")
		r.CasesN("memory", r.Pick(60, 900), 6, func(name string, rnd *rand.Rand) { check(r, name, rnd, false) })
		r.CasesN("disk", r.Pick(24, 300), 6, func(name string, rnd *rand.Rand) { check(r, name, rnd, true) })
		r.CasesN("procs", r.Pick(12, 100), 1, func(name string, rnd *rand.Rand) {
			old := runtime.GOMAXPROCS(1 + rnd.Intn(3))
			defer runtime.GOMAXPROCS(old)
			check(r, name, rnd, rnd.Intn(3) == 0)
		})
		r.CasesN("create", r.Pick(40, 400), 6, func(name string, rnd *rand.Rand) { create(r, name, rnd) })
		r.Require("entities", 1000)
		r.Require("operations with injected delays", 10000)
		r.Require("extractions with nested bundles", 50)
	})
}

func options(rnd *rand.Rand) world.Options {
	o := world.Default()
	o.Bundles = 1 + rnd.Intn(4)
	o.Entities = 1 + rnd.Intn(10)
	o.Depth = 1 + rnd.Intn(4)
	o.BigField = 4
	return o
}

func names(w *world.World) (ns []string) {
	for _, b := range w.All() {
		ns = append(ns, b.ID)
	}
	return
}

// observer reads everything that may be read while loading
func observer(st *stats.Stats) func() {
	return hx.Background(func() {
		st.Progress()
		st.All()
		st.Current()
		st.IndexStats()
		st.Diff()
		st.Done()
	})
}

func check(r *hx.R, name string, rnd *rand.Rand, disk bool) {
	w, ex := world.Generate(rnd, options(rnd))
	want := lib.Text(ex.Bundles, true)
	cache := ""
	if disk {
		cache = r.Dir()
	}
	dir := r.Dir()
	finished, deadlock, stacks := hx.Guard(func() { r.Do(name, func() { extract(r, name, rnd, w, ex, want, cache, dir, disk) }) }, 200)
	if deadlock {
		r.Violation(name, "deadlock while extracting", stacks+"\n"+lib.Dump(w))
	} else if !finished {
		r.Inconclusive(name + " takes too long\n" + hx.Trunc(stacks, 20000))
	}
}

func extract(r *hx.R, name string, rnd *rand.Rand, w *world.World, ex *world.Expected, want, cache, dir string, disk bool) {
	mon := wrap.NewMonitor()
	var st *stats.Stats
	if rnd.Intn(8) == 0 { // stages of stats take long, because they measure the use of memory
		st = stats.NewStats(io.Discard)
		defer observer(st)()
	}
	cur := &hook{h: wrap.None{}}
	pb, index, err := lib.Index(w, lib.Options{Cache: cache, Engine: &wrap.Engine{E: sparkl.NewEngine(cache), H: cur, M: mon}, Stats: st})
	if err != nil {
		r.Violation(name, "indexing a valid dataset fails: "+err.Error(), lib.Dump(w))
		return
	}
	defer index.Close()
	nested := len(w.All()) > len(w.Bundles)
	ordered := ""
	for i := 0; i < 6; i++ {
		d := wrap.NewDelay(rnd, []int{wrap.NoDelay, wrap.Jitter, wrap.Starve, wrap.StarveBundle, wrap.Order, wrap.Late}[i], names(w))
		cur.h = d
		be := storages.NewBundleEngine(cache)
		if disk && rnd.Intn(2) == 0 {
			be = storages.DiskEngine{Path: filepath.Join(dir, fmt.Sprint(i))}
		}
		mp := exporter.Map{Data: map[string][]wisski.Entity{}}
		xp := &wrap.Exporter{E: &mp, H: d, M: mon}
		s := stats.NewStats(io.Discard)
		stopS := observer(s)
		err := sparkl.Export(pb, index, &wrap.BEngine{E: be, H: d, M: mon}, xp, s)
		stopS()
		r.Eval(fmt.Sprint(d.Sum()))
		r.Count("operations with injected delays", d.Count())
		if nested {
			r.Count("extractions with nested bundles", 1)
		}
		if err != nil {
			r.Violation(name, "extraction fails: "+err.Error(), d.Name+"\n"+lib.Dump(w))
			return
		}
		ob := lib.NewObserver(ex.G)
		got := ob.All(w, mp.Data)
		for _, es := range mp.Data {
			r.Count("entities", len(es))
		}
		if t := lib.Text(got, true); t != want {
			r.Violation(name, "the result is wrong for some interleaving", d.Name+"\n"+hx.DiffText(want, t)+"\n"+lib.Dump(w))
			return
		}
		o := lib.OrderedText(mp.Data)
		if ordered == "" {
			ordered = o
		} else if o != ordered && !disk {
			r.Violation(name, "the result depends on the interleaving", d.Name+"\n"+hx.DiffText(ordered, o)+"\n"+lib.Dump(w))
			return
		}
		if bad := xp.Counts(); len(bad) > 0 {
			r.Violation(name, "the exporter gets other entities than announced", fmt.Sprint(bad)+"\n"+lib.Dump(w))
			return
		}
	}
	if p := mon.Problems(); len(p) > 0 {
		r.Violation(name, "storages are not used as documented: "+p[0], fmt.Sprint(p)+"\n"+lib.Dump(w))
	}
}

// hook that may be exchanged
type hook struct{ h wrap.Hook }

func (h *hook) Before(op string) error { return h.h.Before(op) }
func (h *hook) After(op string) error  { return h.h.After(op) }

// create loads like the command line tool does
func create(r *hx.R, name string, rnd *rand.Rand) {
	w, ex := world.Generate(rnd, options(rnd))
	dir := r.Dir()
	xml, nq := lib.Files(w, dir)
	cache := ""
	if rnd.Intn(3) == 0 {
		cache = r.Dir()
	}
	st := stats.NewStats(io.Discard)
	switch rnd.Intn(3) {
	case 0:
		st.OnUpdate = func(s *stats.Stats) { s.All() }
	case 1:
		st.OnUpdate = func(s *stats.Stats) { s.Progress() }
	}
	stop := observer(st)
	finished, deadlock, stacks := hx.Guard(func() {
		r.Do(name, func() {
			g, err := glass.Create(xml, nq, cache, viewer.RenderFlags{Predicates: lib.Predicates(w)}, st)
			if err != nil {
				r.Violation(name, "loading fails: "+err.Error(), lib.Dump(w))
				return
			}
			defer g.Close()
			r.Eval("create " + lib.Key(w))
			n := 0
			for _, b := range g.Cache.BundleNames() {
				es := g.Cache.Entities(b)
				n += len(es)
				if len(es) != len(ex.Bundles[b]) {
					r.Violation(name, "wrong number of entities", fmt.Sprintf("%q has %d, want %d\n%s", b, len(es), len(ex.Bundles[b]), lib.Dump(w)))
				}
			}
			r.Count("entities", n)
		})
	}, 200)
	stop()
	if deadlock {
		r.Violation(name, "deadlock while loading", stacks+"\n"+lib.Dump(w))
	} else if !finished {
		r.Inconclusive(name + " takes too long\n" + hx.Trunc(stacks, 20000))
	}
}
