// Command c23 monitors that loading releases everything it used.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/FAU-CDI/drincw/pathbuilder"
	"github.com/FAU-CDI/hangover/internal/glass"
	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/sparkl/exporter"
	"github.com/FAU-CDI/hangover/internal/sparkl/storages"
	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/triplestore/imap"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/verifh/gq"
	"github.com/FAU-CDI/hangover/internal/verifh/hx"
	"github.com/FAU-CDI/hangover/internal/verifh/lib"
	"github.com/FAU-CDI/hangover/internal/verifh/world"
	"github.com/FAU-CDI/hangover/internal/verifh/wrap"
	"github.com/FAU-CDI/hangover/internal/viewer"
	"github.com/FAU-CDI/hangover/internal/wisski"
	"github.com/syndtr/goleveldb/leveldb"
)

func main() {
	hx.Main("C23", func(r *hx.R) {
		r.Rule("each evaluation is one load, export, import or set of queries, complete or ended by a fault or abandoned half way, after which goroutines, open files and locks of the process are inspected; distinct by dataset and what was done")
		r.Assume("everything runs in one process, one case after the other, so whatever is left belongs to the case")
		for _, c := range []struct {
			prefix string
			n      int
			f      func(r *hx.R, name string, rnd *rand.Rand)
		}{
			{"load", r.Pick(24, 300), load},
			{"fault-memory", r.Pick(8, 80), func(r *hx.R, name string, rnd *rand.Rand) { fault(r, name, rnd, false, r.Pick(60, 250)) }},
			{"fault-disk", r.Pick(6, 60), func(r *hx.R, name string, rnd *rand.Rand) { fault(r, name, rnd, true, r.Pick(16, 60)) }},
			{"queries", r.Pick(40, 400), queries},
			{"closed-early", r.Pick(20, 200), closedEarly},
			{"twice", r.Pick(10, 60), twice},
			{"files", r.Pick(6, 40), files},
		} {
			r.CasesN(c.prefix, c.n, 1, func(name string, rnd *rand.Rand) {
				if r.NumViolations() >= 3 {
					return
				}
				c.f(r, name, rnd)
			})
		}
		r.Require("loads", 100)
		r.Require("loads ended by a fault", 300)
		r.Require("resources opened", 2000)
		r.Require("abandoned queries", 500)
		r.Require("directories used again", 50)
	})
}

// fds returns the open files of this process
func fds() map[string]string {
	m := map[string]string{}
	es, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return nil
	}
	for _, e := range es {
		if t, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil {
			if strings.HasPrefix(t, "/") && !strings.HasPrefix(t, "/dev/") && !strings.HasPrefix(t, "/proc/") {
				m[e.Name()] = t
			}
		}
	}
	return m
}

// guarded runs f and afterwards checks that nothing is left
func guarded(r *hx.R, name, what, dump string, mon *wrap.Monitor, f func()) (ok bool) {
	before := fds()
	finished, deadlock, stacks := hx.Guard(func() { r.Do(name, f) }, 120)
	if deadlock {
		r.Violation(name, "deadlock", what+"\n"+stacks+"\n"+dump)
		return false
	}
	if !finished {
		r.Inconclusive(name + ": takes too long: " + what + "\n" + hx.Trunc(stacks, 20000))
		return false
	}
	r.Eval(what + dump)
	ok = true
	if left := hx.AwaitNoRepoGoroutines(); len(left) > 0 {
		r.Violation(name, "goroutines are left over", fmt.Sprintf("%s\n%d goroutines, such as\n%s\n%s", what, len(left), left[0], dump))
		return false
	}
	var open []string
	for i := 0; i < 50; i++ {
		open = nil
		for n, t := range fds() {
			if before[n] != t {
				open = append(open, t)
			}
		}
		if len(open) == 0 {
			break
		}
		time.Sleep(10 * time.Millisecond)
	}
	if len(open) > 0 {
		sort.Strings(open)
		r.Violation(name, "files are left open", what+"\n"+strings.Join(open, "\n")+"\n"+dump)
		ok = false
	}
	if mon != nil {
		r.Count("resources opened", mon.Opened())
		if u := mon.Unclosed(); len(u) > 0 {
			sort.Strings(u)
			r.Violation(name, "storages are not closed", what+"\n"+strings.Join(u, "\n")+"\n"+dump)
			ok = false
		}
	}
	return
}

// free checks that every database below dir can be opened
func free(r *hx.R, name, what, dir string) {
	filepath.WalkDir(dir, func(path string, d os.DirEntry, err error) error {
		if err != nil || !d.IsDir() {
			return nil
		}
		if _, err := os.Stat(filepath.Join(path, "LOCK")); err != nil {
			return nil
		}
		db, err := leveldb.OpenFile(path, nil)
		if err != nil {
			r.Violation(name, "a database is still locked", fmt.Sprintf("%s\n%s: %v", what, path, err))
			return nil
		}
		db.Close()
		r.Count("databases opened afterwards", 1)
		return nil
	})
}

func generate(rnd *rand.Rand) (*world.World, *world.Expected) {
	o := world.Default()
	o.Bundles, o.Entities, o.Depth = 1+rnd.Intn(3), 1+rnd.Intn(8), 1+rnd.Intn(3)
	o.Alias, o.Inv = 0.5, 0.5
	return world.Generate(rnd, o)
}

// full loads a dataset with its parts, and returns the error
func full(w *world.World, cache string, hook wrap.Hook, mon *wrap.Monitor) (err error) {
	pb, err := lib.PB(w)
	if err != nil {
		return err
	}
	opts := sparkl.DefaultIndexOptions(pb)
	opts.CompactInterval = max(20, len(w.Quads)*2/3)
	src := &sparkl.QuadSource{Reader: bytes.NewReader(w.NQ())}
	index, err := sparkl.MakeIndex(&wrap.Source{S: src, H: hook, M: mon}, lib.Predicates(w), &wrap.Engine{E: sparkl.NewEngine(cache), H: hook, M: mon}, opts, nil)
	if err != nil {
		return err
	}
	defer index.Close()
	mp := exporter.Map{Data: map[string][]wisski.Entity{}}
	xp := &wrap.Exporter{E: &mp, H: hook, M: mon}
	err = sparkl.Export(pb, index, &wrap.BEngine{E: storages.NewBundleEngine(cache), H: hook, M: mon}, xp, nil)
	if err != nil {
		return err
	}
	if xp.Closed() != 1 {
		mon.Problem("the exporter was closed %d times", xp.Closed())
	}
	ids := imap.MakeMemory[impl.Label, impl.Label](0)
	if err := index.IdentityMap(&ids); err != nil {
		return err
	}
	_, err = sparkl.NewCache(mp.Data, &ids, nil)
	return err
}

// load loads several datasets into the same directory, right after each other
func load(r *hx.R, name string, rnd *rand.Rand) {
	cache := ""
	if rnd.Intn(3) > 0 {
		cache = r.Dir()
	}
	for i := 0; i < 4; i++ {
		w, _ := generate(rnd)
		mon := wrap.NewMonitor()
		what := fmt.Sprintf("load %d, cache %v", i, cache != "")
		dump := lib.Dump(w)
		if i == 3 {
			xml, nq := lib.Files(w, r.Dir())
			guarded(r, name, what+" as a whole", dump, nil, func() {
				g, err := glass.Create(xml, nq, cache, viewer.RenderFlags{Predicates: lib.Predicates(w)}, nil)
				if err != nil {
					r.Violation(name, "loading fails: "+err.Error(), what+"\n"+dump)
					return
				}
				if err := g.Close(); err != nil {
					r.Violation(name, "closing fails: "+err.Error(), what+"\n"+dump)
				}
			})
		} else {
			guarded(r, name, what, dump, mon, func() {
				if err := full(w, cache, wrap.None{}, mon); err != nil {
					r.Violation(name, "loading fails: "+err.Error(), what+"\n"+dump)
				}
			})
			if p := mon.Problems(); len(p) > 0 {
				r.Violation(name, "storages are used after they were closed, or changed after they were finalized: "+p[0], strings.Join(p, "\n")+"\n"+dump)
			}
		}
		r.Count("loads", 1)
		if cache != "" {
			free(r, name, what, cache)
			if i > 0 {
				r.Count("directories used again", 1)
			}
		}
		if r.NumViolations() > 2 {
			return
		}
	}
}

// fault ends loading by faults
func fault(r *hx.R, name string, rnd *rand.Rand, disk bool, limit int) {
	o := world.Default()
	o.Bundles, o.Entities, o.Depth = 2, 6, 3
	o.BigField = 3
	var w *world.World
	for {
		var ex *world.Expected
		w, ex = world.Generate(rnd, o)
		if ex.NumEnt > 3 && ex.NumEnt < 60 && ex.NumVal > 3 {
			break
		}
	}
	dump := lib.Dump(w)
	cache := ""
	if disk {
		cache = r.Dir()
	}
	base := &wrap.Fault{}
	mon := wrap.NewMonitor()
	guarded(r, name, "without a fault", dump, mon, func() {
		if err := full(w, cache, base, mon); err != nil {
			r.Violation(name, "loading fails: "+err.Error(), dump)
		}
	})
	ops, counts := base.Ops()
	var fs []*wrap.Fault
	for _, op := range ops {
		if strings.HasSuffix(op, ".Close") {
			continue
		}
		c := counts[op]
		for _, n := range []int{0, c / 2, rnd.Intn(c)} {
			fs = append(fs, &wrap.Fault{Op: op, N: n, Slow: rnd.Intn(2) == 0, Sticky: rnd.Intn(3) == 0})
			if !strings.HasSuffix(op, ".step") && op != "source.Next" {
				fs = append(fs, &wrap.Fault{Op: op, N: n, Late: true, Slow: rnd.Intn(2) == 0})
			}
		}
	}
	rnd.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
	if len(fs) > limit {
		fs = fs[:limit]
	}
	for _, f := range fs {
		if r.NumViolations() >= 3 {
			return
		}
		mon := wrap.NewMonitor()
		ok := guarded(r, name, f.String(), dump, mon, func() { full(w, cache, f, mon) })
		r.Count("loads", 1)
		if !f.Hit() {
			continue
		}
		r.Count("loads ended by a fault", 1)
		if !ok {
			continue
		}
		for _, p := range mon.Problems() {
			if strings.Contains(p, "closed") {
				r.Violation(name, "storages are used after they were closed: "+p, f.String()+"\n"+dump)
				break
			}
		}
		if disk {
			free(r, name, f.String(), cache)
			// and the same directory can be used right away
			guarded(r, name, "load after "+f.String(), dump, nil, func() {
				if err := full(w, cache, wrap.None{}, wrap.NewMonitor()); err != nil {
					r.Violation(name, "the cache directory can not be used again: "+err.Error(), f.String()+"\n"+dump)
				}
			})
			r.Count("directories used again", 1)
		}
	}
}

// queries abandons queries at any point
func queries(r *hx.R, name string, rnd *rand.Rand) {
	w, names := gq.Generate(rnd, gq.Random(rnd))
	g := w.Graph()
	cache := ""
	if rnd.Intn(3) == 0 {
		cache = r.Dir()
	}
	dump := lib.Dump(w)
	mon := wrap.NewMonitor()
	f := &wrap.Fault{}
	var qs []string
	guarded(r, name, "queries", dump, mon, func() {
		_, index, err := lib.Index(w, lib.Options{NoMask: true, Cache: cache, Engine: &wrap.Engine{E: sparkl.NewEngine(cache), H: f, M: mon}})
		if err != nil {
			r.Violation(name, "indexing fails: "+err.Error(), dump)
			return
		}
		defer index.Close()
		for i := 0; i < 25; i++ {
			q := gq.RandomQuery(rnd, g, names)
			stop := rnd.Intn(4)
			qs = append(qs, fmt.Sprintf("%v until %d", q, stop))
			if err := abandon(index, q, stop, rnd.Intn(3) == 0); err != nil {
				r.Violation(name, "a query fails: "+err.Error(), q.String()+"\n"+dump)
			}
			r.Count("abandoned queries", 1)
			// nothing may be left before the index is closed
			if i%5 == 4 {
				if left := repo(); len(left) > 0 {
					r.Violation(name, "goroutines of queries are left over", fmt.Sprintf("%s\n%d goroutines, such as\n%s\n%s", strings.Join(qs, "\n"), len(left), left[0], dump))
					return
				}
			}
		}
	})
}

// abandon runs a query and stops reading after some paths
func abandon(index *igraph.Index, q gq.Query, stop int, size bool) error {
	p, err := gq.Start(index, q)
	if err != nil {
		return err
	}
	if size {
		if _, err := p.Size(); err != nil {
			return err
		}
	}
	it := p.Paths()
	defer it.Close()
	for i := 0; i < stop && it.Next(); i++ {
	}
	return it.Err()
}

// repo waits until no queries are left, databases may be open
func repo() (left []string) {
	for i := 0; i < 300; i++ {
		left = nil
		for _, g := range hx.RepoGoroutines() {
			if strings.Contains(g, "goleveldb") && !strings.Contains(g, "hangover/internal") {
				continue
			}
			left = append(left, g)
		}
		if len(left) == 0 {
			return nil
		}
		time.Sleep(time.Duration(1+i/10) * time.Millisecond)
	}
	return
}

// closedEarly closes an index while queries are running
func closedEarly(r *hx.R, name string, rnd *rand.Rand) {
	w, names := gq.Generate(rnd, gq.Random(rnd))
	g := w.Graph()
	cache := ""
	if rnd.Intn(3) == 0 {
		cache = r.Dir()
	}
	dump := lib.Dump(w)
	mon := wrap.NewMonitor()
	guarded(r, name, "closing early", dump, mon, func() {
		_, index, err := lib.Index(w, lib.Options{NoMask: true, Cache: cache, Engine: &wrap.Engine{E: sparkl.NewEngine(cache), H: wrap.None{}, M: mon}})
		if err != nil {
			r.Violation(name, "indexing fails: "+err.Error(), dump)
			return
		}
		for i := 0; i < 10; i++ {
			q := gq.RandomQuery(rnd, g, names)
			p, err := gq.Start(index, q)
			if err != nil {
				r.Violation(name, "a query fails: "+err.Error(), q.String()+"\n"+dump)
				continue
			}
			it := p.Paths()
			for n := rnd.Intn(3); n > 0 && it.Next(); n-- {
			}
			it.Close() // its goroutines end at some later time
			r.Count("abandoned queries", 1)
		}
		if err := index.Close(); err != nil {
			r.Violation(name, "closing an index fails: "+err.Error(), dump)
		}
	})
	if p := mon.Problems(); len(p) > 0 {
		r.Violation(name, "storages are used after they were closed: "+p[0], strings.Join(p, "\n")+"\n"+dump)
	}
}

// twice closes everything twice
func twice(r *hx.R, name string, rnd *rand.Rand) {
	w, _ := generate(rnd)
	cache := ""
	if rnd.Intn(2) == 0 {
		cache = r.Dir()
	}
	dump := lib.Dump(w)
	check := func(what string, err error) {
		r.Count("closed twice", 1)
		if err != nil {
			r.Violation(name, "closing twice fails: "+what+": "+err.Error(), dump)
		}
	}
	guarded(r, name, "closing twice", dump, nil, func() {
		xml, nq := lib.Files(w, r.Dir())
		pb, index, err := lib.Index(w, lib.Options{Cache: cache})
		if err != nil {
			r.Violation(name, "indexing fails: "+err.Error(), dump)
			return
		}
		bundles := pb.Bundles()
		sts, closer, err := sparkl.StoreBundles(bundles, index, storages.NewBundleEngine(cache), nil)
		if err != nil {
			r.Violation(name, "extraction fails: "+err.Error(), dump)
		}
		for _, s := range sts {
			check("bundle storage", s.Close())
			check("bundle storage", s.Close())
		}
		check("bundles", closer())
		check("bundles", closer())
		if len(bundles) > 0 {
			s, closer, err := sparkl.StoreBundle(bundles[0], index, storages.NewBundleEngine(cache), nil)
			if err != nil {
				r.Violation(name, "extraction fails: "+err.Error(), dump)
			} else {
				check("bundle", closer())
				check("bundle storage", s.Close())
				check("bundle", closer())
			}
		}
		check("index", index.Close())
		check("index", index.Close())
		// a failure while extracting a single bundle
		if len(bundles) > 0 {
			_, index, err := lib.Index(w, lib.Options{Cache: cache})
			if err == nil {
				bad := failing{}
				if _, c, err := sparkl.StoreBundle(bundles[0], index, bad, nil); err == nil {
					r.Violation(name, "a storage that can not be created is not reported", dump)
					c()
				}
				check("index", index.Close())
				check("index", index.Close())
			}
		}
		var mp imap.IMap
		if err := mp.Reset(sparkl.NewEngine(cache)); err != nil {
			r.Violation(name, "resetting a map fails: "+err.Error(), dump)
			return
		}
		mp.Add("a")
		check("map", mp.Close())
		check("map", mp.Close())
		// use the same value again
		if err := mp.Reset(sparkl.NewEngine(cache)); err != nil {
			r.Violation(name, "a map can not be used again: "+err.Error(), dump)
		}
		check("map", mp.Close())
		g, err := glass.Create(xml, nq, cache, viewer.RenderFlags{Predicates: lib.Predicates(w)}, nil)
		if err != nil {
			r.Violation(name, "loading fails: "+err.Error(), dump)
			return
		}
		check("glass", g.Close())
		check("glass", g.Close())
	})
	if cache != "" {
		free(r, name, "closing twice", cache)
	}
}

type failing struct{}

func (failing) NewStorage(bundle *pathbuilder.Bundle) (storages.BundleStorage, error) {
	return nil, errors.New("no storage")
}

// shortXML is the pathbuilder of w, with a nested bundle and a field that have a path which is too short for extraction
func shortXML(w *world.World) []byte {
	top := w.Bundles[0]
	mid := &world.Bundle{ID: "short_mid", Name: "Mid", BundleID: "short_mid", Parent: top, Path: append(append([]string{}, top.Path...), "http://short/p", "http://short/B")}
	low := &world.Bundle{ID: "short_low", Name: "Low", BundleID: "short_low", Parent: mid, Path: top.Path[:1]}
	mid.Children = []*world.Bundle{low}
	mid.Fields = []*world.Field{{ID: "short_field", Name: "Short", Type: "string", FieldID: "short_field", Path: top.Path[:1], Cardinality: -1}}
	children := top.Children
	defer func() { top.Children = children }()
	top.Children = append(append([]*world.Bundle{}, children...), mid)
	return w.XML()
}

// files uses files for loading, exporting and importing, some of which are damaged
func files(r *hx.R, name string, rnd *rand.Rand) {
	w, _ := generate(rnd)
	dir := r.Dir()
	dump := lib.Dump(w)
	xml, nq := lib.Files(w, dir)
	flags := viewer.RenderFlags{Predicates: lib.Predicates(w)}
	bad := filepath.Join(dir, "bad.nq")
	os.WriteFile(bad, append(w.NQ(), "<http://a> <http://b> <http://c"...), 0o644)
	badXML := filepath.Join(dir, "bad.xml")
	os.WriteFile(badXML, w.XML()[:len(w.XML())*2/3], 0o644)
	index := filepath.Join(dir, "index")
	cache := r.Dir()
	guarded(r, name, "export and import", dump, nil, func() {
		g, err := glass.Create(xml, nq, cache, flags, nil)
		if err != nil {
			r.Violation(name, "loading fails: "+err.Error(), dump)
			return
		}
		defer g.Close()
		if err := glass.Export(index, g, nil); err != nil {
			r.Violation(name, "exporting fails: "+err.Error(), dump)
			return
		}
		glass.Export("/dev/full", g, nil)
		glass.Export(filepath.Join(dir, "no/dir"), g, nil)
		g2, err := glass.Import(index, nil)
		if err != nil {
			r.Violation(name, "importing fails: "+err.Error(), dump)
			return
		}
		if err := g2.Close(); err != nil {
			r.Violation(name, "closing fails: "+err.Error(), dump)
		}
	})
	data, _ := os.ReadFile(index)
	short := filepath.Join(dir, "short.xml")
	os.WriteFile(short, shortXML(w), 0o644)
	for i := 0; i < 9; i++ {
		cache := cache
		if i >= 5 {
			cache = r.Dir()
		}
		guarded(r, name, fmt.Sprint("failing files ", i), dump, nil, func() {
			switch i {
			case 0:
				glass.Create(xml, bad, cache, flags, nil)
			case 1:
				glass.Create(badXML, nq, cache, flags, nil)
			case 2:
				glass.Import(nq, nil)
			case 3:
				cut := filepath.Join(dir, "cut")
				os.WriteFile(cut, data[:rnd.Intn(len(data)+1)], 0o644)
				glass.Import(cut, nil)
			case 4:
				glass.Import(dir, nil)
			case 5:
				blocked := cache
				os.WriteFile(filepath.Join(blocked, []string{"pso.leveldb", "bundles", "triples.leveldb", "language.leveldb"}[rnd.Intn(4)]), []byte("x"), 0o644)
				os.Chmod(blocked, 0o500)
				glass.Create(xml, nq, blocked, flags, nil)
				os.Chmod(blocked, 0o700)
			case 6: // no place for the bundles
				os.WriteFile(filepath.Join(cache, "bundles"), []byte("x"), 0o644)
				glass.Create(xml, nq, cache, flags, nil)
			case 7: // no place for one of the bundles
				for _, b := range w.All() {
					os.MkdirAll(filepath.Join(cache, "bundles"), 0o755)
					os.WriteFile(filepath.Join(cache, "bundles", "bundle_"+b.ID), []byte("x"), 0o644)
				}
				glass.Create(xml, nq, cache, flags, nil)
			case 8: // a bundle can not be extracted
				if g, err := glass.Create(short, nq, cache, flags, nil); err == nil {
					g.Close()
				} else {
					r.Count("failed extractions", 1)
				}
			}
		})
		r.Count("loads", 1)
		free(r, name, "failing files", cache)
	}
}
