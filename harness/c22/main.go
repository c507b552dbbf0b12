// Command c22 monitors that failures while loading are reported.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"

	"github.com/FAU-CDI/drincw/pathbuilder"
	"github.com/FAU-CDI/hangover/internal/glass"
	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/sparkl/exporter"
	"github.com/FAU-CDI/hangover/internal/sparkl/storages"
	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/triplestore/imap"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/verifh/hx"
	"github.com/FAU-CDI/hangover/internal/verifh/lib"
	"github.com/FAU-CDI/hangover/internal/verifh/world"
	"github.com/FAU-CDI/hangover/internal/verifh/wrap"
	"github.com/FAU-CDI/hangover/internal/viewer"
	"github.com/FAU-CDI/hangover/internal/wisski"
	"github.com/syndtr/goleveldb/leveldb"
	"github.com/syndtr/goleveldb/leveldb/storage"
	"github.com/syndtr/goleveldb/leveldb/util"
)

func main() {
	hx.Main("C22", func(r *hx.R) {
		r.Rule("each evaluation injects one fault (a kind of operation, its occurrence, before or after it is done) into a complete load and checks that an error is reported, without panic or hang; distinct by world and fault")
		r.Assume("errors while closing sources and storages need not be reported")
		r.CasesN("memory", r.Pick(14, 120), 8, func(name string, rnd *rand.Rand) { enumerate(r, name, rnd, false, r.Pick(220, 400)) })
		r.CasesN("disk", r.Pick(4, 30), 4, func(name string, rnd *rand.Rand) { enumerate(r, name, rnd, true, r.Pick(60, 120)) })
		r.CasesN("closed", r.Pick(8, 60), 8, func(name string, rnd *rand.Rand) { closed(r, name, rnd, r.Pick(15, 40)) })
		r.CasesN("damaged", r.Pick(12, 80), 8, func(name string, rnd *rand.Rand) { damaged(r, name, rnd, r.Pick(10, 40)) })
		r.CasesN("reader", r.Pick(30, 300), 8, func(name string, rnd *rand.Rand) { reader(r, name, rnd) })
		r.CasesN("files", r.Pick(6, 40), 4, func(name string, rnd *rand.Rand) { files(r, name, rnd) })
		r.Require("faults", 1500)
		r.Require("damages that were reported", 25)
		r.Require("faults that were reported", 1500)
		r.Require("kinds of operations that failed", 100)
	})
}

var kinds = struct {
	sync.Mutex
	m map[string]bool
}{m: map[string]bool{}}

func kind(r *hx.R, op string) {
	kinds.Lock()
	defer kinds.Unlock()
	if !kinds.m[op] {
		kinds.m[op] = true
		r.Count("kinds of operations that failed", 1)
	}
}

func smallWorld(rnd *rand.Rand) (*world.World, *world.Expected) {
	o := world.Default()
	o.Bundles, o.Entities, o.Depth, o.Noise = 2, 4, 3, 4
	o.Alias, o.Inv = 0.5, 0.5
	o.BigField = 2
	for {
		w, ex := world.Generate(rnd, o)
		if ex.NumEnt > 0 && ex.NumEnt < 40 {
			return w, ex
		}
	}
}

// outcome of a complete load
type outcome struct {
	err   error
	stage string
	text  string
}

type parts struct {
	engine igraph.Engine
	be     storages.BundleEngine
	source sparkl.Source
	hook   wrap.Hook
	mon    *wrap.Monitor
}

// load runs everything that is done for loading a dataset
func load(w *world.World, p parts) (o outcome) {
	pb, err := lib.PB(w)
	if err != nil {
		return outcome{err: err, stage: "pathbuilder"}
	}
	if p.source == nil {
		p.source = &sparkl.QuadSource{Reader: bytes.NewReader(w.NQ())}
	}
	opts := sparkl.DefaultIndexOptions(pb)
	opts.CompactInterval = max(20, len(w.Quads)*2/3)
	index, err := sparkl.MakeIndex(&wrap.Source{S: p.source, H: p.hook, M: p.mon}, lib.Predicates(w), &wrap.Engine{E: p.engine, H: p.hook, M: p.mon}, opts, nil)
	if err != nil {
		return outcome{err: err, stage: "index"}
	}
	defer index.Close()
	mp := exporter.Map{Data: map[string][]wisski.Entity{}}
	err = sparkl.Export(pb, index, &wrap.BEngine{E: p.be, H: p.hook, M: p.mon}, &wrap.Exporter{E: &mp, H: p.hook, M: p.mon}, nil)
	if err != nil {
		return outcome{err: err, stage: "extract"}
	}
	ids := imap.MakeMemory[impl.Label, impl.Label](0)
	wids := wrap.Hash[impl.Label, impl.Label]("identities", &ids, p.hook, p.mon)
	if err := index.IdentityMap(wids); err != nil {
		return outcome{err: err, stage: "identities"}
	}
	cache, err := sparkl.NewCache(mp.Data, wids, nil)
	if err != nil {
		return outcome{err: err, stage: "cache"}
	}
	var al []string
	for _, b := range cache.BundleNames() {
		for _, e := range cache.Entities(b) {
			as := []string{}
			for _, a := range cache.Aliases(e.URI) {
				as = append(as, string(a))
			}
			sort.Strings(as)
			al = append(al, fmt.Sprintf("%q %q", e.URI, as))
		}
	}
	o.text = lib.RawText(mp.Data) + strings.Join(al, "\n")
	return
}

// run runs a load with a fault and judges its outcome
func run(r *hx.R, name, what, base string, w *world.World, p parts, hit func() bool) {
	var o outcome
	var panicked any
	finished, deadlock, stacks := hx.Guard(func() {
		r.Do(name, func() { o = load(w, p) })
	}, 120)
	_ = panicked
	if deadlock {
		r.Violation(name, "deadlock after a failure", what+"\n"+stacks+"\n"+lib.Dump(w))
		return
	}
	if !finished {
		r.Inconclusive(name + ": takes too long with " + what + "\n" + hx.Trunc(stacks, 20000))
		return
	}
	if !hit() {
		r.Count("faults that did not happen", 1)
		return
	}
	r.Eval(name + what)
	r.Count("faults", 1)
	if o.err == nil {
		sig := "a failure is not reported"
		if o.text != base {
			sig = "a failure is not reported, and data is missing or different"
		}
		r.Violation(name, sig, what+"\n"+hx.DiffText(base, o.text)+"\n"+lib.Dump(w))
		return
	}
	r.Count("faults that were reported", 1)
	r.Count("reported while "+o.stage, 1)
}

func backend(r *hx.R, disk bool) (igraph.Engine, storages.BundleEngine) {
	cache := ""
	if disk {
		cache = r.Dir()
	}
	return sparkl.NewEngine(cache), storages.NewBundleEngine(cache)
}

func enumerate(r *hx.R, name string, rnd *rand.Rand, disk bool, limit int) {
	w, _ := smallWorld(rnd)
	e, be := backend(r, disk)
	base := &wrap.Fault{}
	o := load(w, parts{engine: e, be: be, hook: base, mon: wrap.NewMonitor()})
	if o.err != nil {
		r.Violation(name, "loading a valid dataset fails: "+o.err.Error(), lib.Dump(w))
		return
	}
	ops, counts := base.Ops()
	var fs []*wrap.Fault
	for _, op := range ops {
		if strings.HasSuffix(op, ".Close") && !strings.HasPrefix(op, "exporter") {
			continue // failing to close is not part of this
		}
		c := counts[op]
		for _, n := range uniq(0, c-1, rnd.Intn(c)) {
			fs = append(fs, &wrap.Fault{Op: op, N: n, Slow: rnd.Intn(2) == 0, Sticky: rnd.Intn(3) == 0})
			if !strings.HasSuffix(op, ".step") && op != "source.Next" {
				fs = append(fs, &wrap.Fault{Op: op, N: n, Late: true, Slow: rnd.Intn(2) == 0})
			}
		}
	}
	rnd.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
	if len(fs) > limit {
		fs = fs[:limit]
	}
	for _, f := range fs {
		if r.NumViolations() >= 3 {
			return
		}
		if disk {
			e, be = backend(r, disk)
		} else {
			e, be = backend(r, false)
		}
		kind(r, f.Op)
		run(r, name, f.String(), o.text, w, parts{engine: e, be: be, hook: f, mon: wrap.NewMonitor()}, f.Hit)
	}
}

func uniq(xs ...int) (out []int) {
	m := map[int]bool{}
	for _, x := range xs {
		if !m[x] {
			m[x] = true
			out = append(out, x)
		}
	}
	return
}

// dbs notes the databases behind storages
type dbs struct {
	mu sync.Mutex
	m  map[string]*leveldb.DB
	f  map[string]reflect.Value
}

func (d *dbs) note(name string, storage any) {
	v := reflect.ValueOf(storage)
	if v.Kind() != reflect.Pointer || v.IsNil() || v.Elem().Kind() != reflect.Struct {
		return
	}
	f := v.Elem().FieldByName("DB")
	if !f.IsValid() {
		return
	}
	if db, ok := f.Interface().(*leveldb.DB); ok {
		d.mu.Lock()
		d.m[name] = db
		if d.f != nil {
			d.f[name] = f
		}
		d.mu.Unlock()
	}
}

// noting is an engine that notes the databases
type noting struct {
	igraph.Engine
	d *dbs
}

func note[T any](d *dbs, name string, f func() (T, error)) (T, error) {
	t, err := f()
	if err == nil {
		d.note(name, t)
	}
	return t, err
}
func (n noting) Forward() (imap.HashMap[impl.Label, imap.TripleID], error) {
	return note(n.d, "forward", n.Engine.Forward)
}
func (n noting) Reverse() (imap.HashMap[impl.ID, impl.Label], error) {
	return note(n.d, "reverse", n.Engine.Reverse)
}
func (n noting) Data() (imap.HashMap[impl.ID, impl.Datum], error) {
	return note(n.d, "data", n.Engine.Data)
}
func (n noting) Language() (imap.HashMap[impl.ID, impl.Language], error) {
	return note(n.d, "language", n.Engine.Language)
}
func (n noting) Triples() (imap.HashMap[impl.ID, igraph.IndexTriple], error) {
	return note(n.d, "triples", n.Engine.Triples)
}
func (n noting) Inverses() (imap.HashMap[impl.ID, impl.ID], error) {
	return note(n.d, "inverses", n.Engine.Inverses)
}
func (n noting) PSOIndex() (igraph.ThreeStorage, error) {
	return note(n.d, "pso", n.Engine.PSOIndex)
}
func (n noting) POSIndex() (igraph.ThreeStorage, error) {
	return note(n.d, "pos", n.Engine.POSIndex)
}

type notingB struct {
	storages.BundleEngine
	d *dbs
}

func (n notingB) NewStorage(bundle *pathbuilder.Bundle) (storages.BundleStorage, error) {
	s, err := n.BundleEngine.NewStorage(bundle)
	if err == nil {
		n.d.note("bundle:"+bundle.MachineName(), s)
	}
	return s, err
}

func closedDB() *leveldb.DB {
	db, err := leveldb.Open(storage.NewMemStorage(), nil)
	if err != nil {
		panic(err)
	}
	db.Close()
	return db
}

// closed makes the databases beneath the storages of the repository fail
func closed(r *hx.R, name string, rnd *rand.Rand, limit int) {
	w, _ := smallWorld(rnd)
	e, be := backend(r, true)
	base := &wrap.Fault{}
	o := load(w, parts{engine: e, be: be, hook: base, mon: wrap.NewMonitor()})
	if o.err != nil {
		r.Violation(name, "loading a valid dataset fails: "+o.err.Error(), lib.Dump(w))
		return
	}
	ops, counts := base.Ops()
	type choice struct {
		op string
		n  int
		ro bool
	}
	var cs []choice
	for _, op := range ops {
		i := strings.LastIndex(op, ".")
		st := op[:i]
		if strings.HasSuffix(op, ".step") {
			continue // the database may already be read completely
		}
		if op == "source.Next" || strings.HasPrefix(st, "source") || strings.HasPrefix(st, "exporter") || strings.HasPrefix(st, "identities") {
			continue
		}
		c := counts[op]
		switch op[i+1:] {
		case "Set", "Put", "Add", "AddFieldValue", "AddChild":
			for _, n := range uniq(0, c-1, rnd.Intn(c)) {
				cs = append(cs, choice{op, n, true}, choice{op, n, false})
			}
		case "Get", "GetZero", "Has", "Fetch", "Iterate", "Load":
			for _, n := range uniq(0, c-1, rnd.Intn(c)) {
				cs = append(cs, choice{op, n, false})
			}
		}
	}
	rnd.Shuffle(len(cs), func(i, j int) { cs[i], cs[j] = cs[j], cs[i] })
	if len(cs) > limit {
		cs = cs[:limit]
	}
	for _, c := range cs {
		if r.NumViolations() >= 3 {
			return
		}
		d := &dbs{m: map[string]*leveldb.DB{}, f: map[string]reflect.Value{}}
		var real *leveldb.DB
		e, be := backend(r, true)
		c := c
		var did bool
		f := &wrap.Fault{Op: c.op, N: c.n}
		f.Do = func() {
			d.mu.Lock()
			st := c.op[:strings.LastIndex(c.op, ".")]
			db, field := d.m[st], d.f[st]
			d.mu.Unlock()
			if db == nil {
				return
			}
			did = true
			if c.ro {
				db.SetReadOnly()
				return
			}
			// a database may not be closed while another goroutine uses it.
			// From now on a closed one is used, the real one is closed at the end.
			real = db
			field.Set(reflect.ValueOf(closedDB()))
		}
		what := fmt.Sprintf("database closed (or read-only: %v) before occurrence %d of %s", c.ro, c.n, c.op)
		run(r, name, what, o.text, w, parts{engine: noting{e, d}, be: notingB{be, d}, hook: f, mon: wrap.NewMonitor()}, func() bool { return f.Hit() && did })
		if did {
			r.Count("databases that failed", 1)
		}
		if real != nil {
			real.Close()
		}
	}
}

// databases to be damaged
const (
	all = iota
	bundles
	one
)

// damaged overwrites parts of the files of all databases at some point.
// Depending on what is read afterwards this may or may not be noticed, but the result must never be wrong.
func damaged(r *hx.R, name string, rnd *rand.Rand, limit int) {
	o := world.Default()
	o.Bundles, o.Entities, o.Depth, o.Noise = 2, 10, 3, 4
	o.Alias, o.Inv = 0.5, 0.5
	o.BigField = 30
	w, ex := world.Generate(rnd, o)
	if ex.NumEnt == 0 {
		return
	}
	e, be := backend(r, true)
	base := &wrap.Fault{}
	want := load(w, parts{engine: e, be: be, hook: base, mon: wrap.NewMonitor()})
	if want.err != nil {
		r.Violation(name, "loading a valid dataset fails: "+want.err.Error(), lib.Dump(w))
		return
	}
	ops, counts := base.Ops()
	for i := 0; i < limit && r.NumViolations() < 3; i++ {
		op := ops[rnd.Intn(len(ops))]
		if rnd.Intn(5) < 2 { // everything is there, and read from now on
			var fin []string
			for _, o := range ops {
				if strings.HasSuffix(o, ".Finalize") {
					fin = append(fin, o)
				}
			}
			if len(fin) > 0 {
				op = fin[rnd.Intn(len(fin))]
			}
		}
		n := rnd.Intn(counts[op])
		touch, frac, from := rnd.Intn(2) == 0, rnd.Float64(), rnd.Float64()
		if rnd.Intn(3) > 0 { // only a little, and not at the end, where the index of a file is
			frac, from = 0, from*0.7
		}
		part := []int{all, all, bundles, bundles, one, one}[rnd.Intn(6)]
		each := 1 + rnd.Intn(2)
		d := &dbs{m: map[string]*leveldb.DB{}}
		dir := r.Dir()
		hurt, seen := 0, 0
		f := &wrap.Fault{Op: op, N: n}
		f.Do = func() {
			d.mu.Lock()
			defer d.mu.Unlock()
			before := map[string]bool{}
			if part != all { // only what is written now
				filepath.WalkDir(dir, func(path string, _ fs.DirEntry, err error) error {
					before[path] = true
					return nil
				})
			}
			for _, k := range hx.SortedKeys(d.m) {
				if part == bundles && !strings.HasPrefix(k, "bundle:") || part == one && k+"." != op[:strings.LastIndex(op, ".")+1] {
					continue
				}
				db := d.m[k]
				db.CompactRange(util.Range{})
				if touch {
					func() {
						defer func() { recover() }() // when it is closed at the same time
						it := db.NewIterator(nil, nil)
						it.Next()
						it.Release()
					}()
				}
			}
			filepath.WalkDir(dir, func(path string, _ fs.DirEntry, err error) error {
				if err != nil || filepath.Ext(path) != ".ldb" || before[path] {
					return nil
				}
				if seen++; part != one && (seen+n)%each != 0 {
					return nil
				}
				data, err := os.ReadFile(path)
				if err != nil || len(data) < 100 {
					return nil
				}
				a := int(from * float64(len(data)-48))
				b := a + 1 + int(frac*float64(len(data)-48-a))
				h, err := os.OpenFile(path, os.O_WRONLY, 0)
				if err != nil {
					return nil
				}
				defer h.Close()
				for j := a; j < b; j++ {
					data[j] ^= 0x5a
				}
				h.WriteAt(data[a:b], int64(a))
				hurt++
				return nil
			})
		}
		what := fmt.Sprintf("database files overwritten before occurrence %d of %s (databases: %s, every %d, read before: %v)", n, op, []string{"all", "of bundles", "this one"}[part], each, touch)
		var got outcome
		finished, deadlock, stacks := hx.Guard(func() {
			r.Do(name, func() {
				got = load(w, parts{engine: noting{sparkl.NewEngine(dir), d}, be: notingB{storages.NewBundleEngine(dir), d}, hook: f, mon: wrap.NewMonitor()})
			})
		}, 120)
		if deadlock {
			r.Violation(name, "deadlock after a failure", what+"\n"+stacks+"\n"+lib.Dump(w))
			return
		}
		if !finished {
			r.Inconclusive(name + ": takes too long with " + what + "\n" + hx.Trunc(stacks, 20000))
			return
		}
		if hurt == 0 {
			continue
		}
		r.Eval(name + what)
		r.Count("loads with damaged databases", 1)
		if got.err != nil {
			r.Count("damages that were reported", 1)
			r.Count("damages reported while "+got.stage, 1)
		} else if got.text != want.text {
			r.Violation(name, "a damaged database is not reported, and data is missing or different", what+"\n"+hx.DiffText(want.text, got.text)+"\n"+lib.Dump(w))
			return
		} else {
			r.Count("damages without any effect", 1)
		}
	}
}

var errRead = errors.New("injected read error")

// faulty is a reader that fails
type faulty struct {
	data   []byte
	pos    int
	at     int // fails at this position
	pass   int // in this pass
	passes int
	seek   int // fails at this seek
	seeks  int
	chunk  int
	eof    error
	hit    bool
}

func (f *faulty) Read(b []byte) (int, error) {
	if f.pass == f.passes && f.pos >= f.at {
		f.hit = true
		return 0, f.eof
	}
	if f.pos >= len(f.data) {
		return 0, io.EOF
	}
	n := len(f.data) - f.pos
	if f.pass == f.passes && f.at-f.pos < n {
		n = f.at - f.pos
	}
	n = min(n, len(b), f.chunk)
	copy(b, f.data[f.pos:f.pos+n])
	f.pos += n
	return n, nil
}

func (f *faulty) Seek(offset int64, whence int) (int64, error) {
	f.seeks++
	if f.seeks == f.seek {
		f.hit = true
		return 0, errRead
	}
	f.passes++
	f.pos = int(offset)
	return offset, nil
}

// reader lets reading the file fail
func reader(r *hx.R, name string, rnd *rand.Rand) {
	w, _ := smallWorld(rnd)
	data := w.NQ()
	e, be := backend(r, false)
	o := load(w, parts{engine: e, be: be, hook: wrap.None{}, mon: wrap.NewMonitor()})
	if o.err != nil {
		r.Violation(name, "loading a valid dataset fails: "+o.err.Error(), lib.Dump(w))
		return
	}
	for i := 0; i < r.Pick(12, 40); i++ {
		f := &faulty{data: data, at: len(data) + 10, pass: -1, chunk: 1 + rnd.Intn(5000), eof: errRead}
		what := ""
		switch rnd.Intn(4) {
		case 0:
			f.seek = 1 + rnd.Intn(2)
			what = fmt.Sprintf("seek %d fails", f.seek)
		default:
			f.pass = rnd.Intn(3)
			f.at = rnd.Intn(len(data) + 1)
			if rnd.Intn(4) == 0 {
				f.at = []int{0, len(data), len(data) - 1}[rnd.Intn(3)]
			}
			if rnd.Intn(3) == 0 {
				f.eof = io.ErrUnexpectedEOF
			}
			what = fmt.Sprintf("read error %v at %d of %d in pass %d", f.eof, f.at, len(data), f.pass)
		}
		e, be := backend(r, false)
		kind(r, "reader")
		run(r, name, what, o.text, w, parts{engine: e, be: be, source: &sparkl.QuadSource{Reader: f}, hook: wrap.None{}, mon: wrap.NewMonitor()}, func() bool { return f.hit })
	}
	// lines that are no quads
	lines := strings.SplitAfter(string(data), "\n")
	for i := 0; i < 6; i++ {
		k := rnd.Intn(len(lines))
		bad := []string{"garbage\n", "<http://a> <http://b>\n", "<http://a> <http://b> \"x\"@ .\n", "<http://a> <http://b> <http://c\n", "\"lit\" <http://a> <http://b> .\n",
			"<http://a> <http://b> \"unterminated .\n", "<http://a> <http://b> <http://c>\n", "<http://a> \"p\" <http://b> .\n"}[rnd.Intn(8)]
		text := strings.Join(lines[:k], "") + bad + strings.Join(lines[k:], "")
		e, be := backend(r, false)
		run(r, name, fmt.Sprintf("line %q at %d", bad, k), o.text, w, parts{engine: e, be: be, source: &sparkl.QuadSource{Reader: strings.NewReader(text)}, hook: wrap.None{}, mon: wrap.NewMonitor()}, func() bool { return true })
	}
}

// files lets files and directories that are needed be unusable
func files(r *hx.R, name string, rnd *rand.Rand) {
	w, _ := smallWorld(rnd)
	dir := r.Dir()
	xml, nq := lib.Files(w, dir)
	flags := viewer.RenderFlags{Predicates: lib.Predicates(w)}
	missing := filepath.Join(dir, "missing")
	notdir := filepath.Join(dir, "file")
	os.WriteFile(notdir, []byte("x"), 0o644)
	empty := filepath.Join(dir, "empty")
	os.WriteFile(empty, nil, 0o644)
	bad := filepath.Join(dir, "bad.xml")
	os.WriteFile(bad, w.XML()[:len(w.XML())/2], 0o644)
	badnq := filepath.Join(dir, "bad.nq")
	os.WriteFile(badnq, append(w.NQ(), "<http://a> <http://b> <http://c"...), 0o644)
	expect := func(what string, f func() error) {
		var err error
		finished, deadlock, stacks := hx.Guard(func() { r.Do(name, func() { err = f() }) }, 120)
		if deadlock || !finished {
			r.Violation(name, "hangs: "+what, stacks)
			return
		}
		r.Eval(name + what)
		r.Count("faults", 1)
		kind(r, what)
		if err == nil {
			r.Violation(name, "a failure is not reported: "+what, lib.Dump(w))
			return
		}
		r.Count("faults that were reported", 1)
	}
	create := func(what, x, n, c string) {
		expect(what, func() error {
			g, err := glass.Create(x, n, c, flags, nil)
			if err == nil {
				g.Close()
			}
			return err
		})
	}
	create("missing pathbuilder", missing, nq, "")
	create("directory as pathbuilder", dir, nq, "")
	create("empty pathbuilder", empty, nq, "")
	create("incomplete pathbuilder", bad, nq, "")
	create("missing statements", xml, missing, "")
	create("directory as statements", xml, dir, "")
	create("incomplete statements", xml, badnq, "")
	create("file as cache directory", xml, nq, notdir)
	create("cache directory below a file", xml, nq, filepath.Join(notdir, "cache"))
	blocked := filepath.Join(dir, "blocked")
	os.MkdirAll(blocked, 0o755)
	os.WriteFile(filepath.Join(blocked, "bundles"), []byte("x"), 0o644)
	create("file as bundles directory", xml, nq, blocked)
	g, err := glass.Create(xml, nq, "", flags, nil)
	if err != nil {
		r.Violation(name, "loading fails: "+err.Error(), lib.Dump(w))
		return
	}
	defer g.Close()
	for _, t := range []string{"/dev/full", dir, filepath.Join(missing, "x"), filepath.Join(notdir, "x")} {
		expect("export to "+strings.Replace(t, dir, "DIR", 1), func() error { return glass.Export(t, g, nil) })
	}
	for _, t := range []string{missing, dir, empty, nq, "/dev/null"} {
		expect("import of "+strings.Replace(t, dir, "DIR", 1), func() error { _, err := glass.Import(t, nil); return err })
	}
}
