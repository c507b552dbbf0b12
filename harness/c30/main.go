// Command c30 monitors the figures that are reported about an index.
package main

import (
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"strings"
	"sync"

	"bytes"

	"github.com/FAU-CDI/hangover/internal/glass"
	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/stats"
	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/triplestore/imap"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/verifh/hx"
	"github.com/FAU-CDI/hangover/internal/verifh/lib"
	"github.com/FAU-CDI/hangover/internal/verifh/world"
	"github.com/FAU-CDI/hangover/internal/viewer"
)

func main() {
	hx.Main("C30", func(r *hx.R) {
		r.Rule("each evaluation compares the figures reported about one index with what was added to it, counted by the monitor, and with what its storages were given; distinct by dataset or history; non-trivial: at least one statement was added")
		r.Assume("what a conflict is counted as is not documented: there are none exactly if nothing is repeated, and every repetition counts at least once")
		r.Cases("ops", r.Pick(4000, 60000), func(name string, rnd *rand.Rand) { ops(r, name, rnd, "") })
		r.Cases("ops-disk", r.Pick(60, 800), func(name string, rnd *rand.Rand) {
			dir := r.Dir()
			defer os.RemoveAll(dir)
			ops(r, name, rnd, dir)
		})
		r.Cases("load", r.Pick(500, 6000), func(name string, rnd *rand.Rand) { load(r, name, rnd, "") })
		r.Cases("load-disk", r.Pick(16, 200), func(name string, rnd *rand.Rand) {
			dir := r.Dir()
			defer os.RemoveAll(dir)
			load(r, name, rnd, dir)
		})
		r.Require("statements added", 10000)
		r.Require("statements skipped", 1000)
		r.Require("inverse statements", 1000)
		r.Require("repeated statements", 1000)
		r.Require("sites", 12)
	})
}

// edge is an edge between canonical names
type edge [3]impl.ID

// recorder is an engine that records the statements that are stored
type recorder struct {
	igraph.Engine
	m        sync.Mutex
	regular  map[edge]int
	inverse  map[edge]int
	data     int
	pso, pos igraph.ThreeStorage
}

func record(e igraph.Engine) *recorder {
	return &recorder{Engine: e, regular: map[edge]int{}, inverse: map[edge]int{}}
}

type triples struct {
	imap.HashMap[impl.ID, igraph.IndexTriple]
	r *recorder
}

func (t *triples) Set(id impl.ID, v igraph.IndexTriple) error {
	e := edge{v.Items[0].Canonical, v.Items[1].Canonical, v.Items[2].Canonical}
	t.r.m.Lock()
	switch v.Role {
	case igraph.Regular:
		t.r.regular[e]++
	case igraph.Inverse:
		t.r.inverse[e]++
	default:
		t.r.data++
	}
	t.r.m.Unlock()
	return t.HashMap.Set(id, v)
}

func (r *recorder) Triples() (imap.HashMap[impl.ID, igraph.IndexTriple], error) {
	t, err := r.Engine.Triples()
	if err != nil {
		return nil, err
	}
	return &triples{t, r}, nil
}

func (r *recorder) PSOIndex() (igraph.ThreeStorage, error) {
	t, err := r.Engine.PSOIndex()
	r.pso = t
	return t, err
}

func (r *recorder) POSIndex() (igraph.ThreeStorage, error) {
	t, err := r.Engine.POSIndex()
	r.pos = t
	return t, err
}

// added is what was given to an index
type added struct{ triples, data int }

// figures checks what is reported about an index
func (rec *recorder) figures(index *igraph.Index, a added) (bad []string) {
	st := index.Stats()
	fail := func(format string, args ...any) { bad = append(bad, fmt.Sprintf(format, args...)) }
	nr, ni, distinct := 0, 0, map[edge]bool{}
	for e, n := range rec.regular {
		nr += n
		distinct[e] = true
	}
	for e, n := range rec.inverse {
		ni += n
		distinct[e] = true
	}
	if got := nr + int(st.MaskedPredTriples); got != a.triples {
		fail("statements lost: %d statements between names were added, %d stored, %d reported as skipped", a.triples, nr, st.MaskedPredTriples)
	}
	if got := rec.data + int(st.MaskedDataTriples); got != a.data {
		fail("literals lost: %d statements with literals were added, %d stored, %d reported as skipped", a.data, rec.data, st.MaskedDataTriples)
	}
	if int(st.DatumTriples) != rec.data {
		fail("literals: %d reported, %d stored", st.DatumTriples, rec.data)
	}
	if got := int(st.DirectTriples + st.InverseTriples); got != len(distinct) {
		fail("edges: %d direct and %d inverse reported, %d different ones stored", st.DirectTriples, st.InverseTriples, len(distinct))
	}
	if int(st.DirectTriples) > len(rec.regular) {
		fail("direct: %d reported, %d different ones stored", st.DirectTriples, len(rec.regular))
	}
	if int(st.InverseTriples) > len(rec.inverse) {
		fail("inverse: %d reported, %d different ones stored", st.InverseTriples, len(rec.inverse))
	}
	repeated := nr + ni - len(distinct)
	if (st.ConflictTriples == 0) != (repeated == 0) || int(st.ConflictTriples) < repeated {
		fail("conflicts: %d reported, %d repeated statements", st.ConflictTriples, repeated)
	}
	if n, err := index.TripleCount(); err != nil || int(n) != len(distinct)+rec.data {
		fail("count: %d statements reported (%v), %d different ones stored", n, err, len(distinct)+rec.data)
	}
	for name, three := range map[string]igraph.ThreeStorage{"pso": rec.pso, "pos": rec.pos} {
		if n, err := three.Count(); err != nil || int(n) != len(distinct)+rec.data {
			fail("storage: %s has %d entries (%v), not %d", name, n, err, len(distinct)+rec.data)
		}
	}
	return
}

func (rec *recorder) count(r *hx.R, st igraph.Stats) {
	r.Count("statements added", int(st.DirectTriples+st.DatumTriples))
	r.Count("statements skipped", int(st.MaskedDataTriples+st.MaskedPredTriples))
	r.Count("inverse statements", int(st.InverseTriples))
	for _, n := range rec.regular {
		r.Count("repeated statements", n-1)
	}
}

func engine(dir string) igraph.Engine { return sparkl.NewEngine(dir) }

// ops makes a history
func ops(r *hx.R, name string, rnd *rand.Rand, dir string) {
	rec := record(engine(dir))
	var index igraph.Index
	var log strings.Builder
	note := func(err error, format string, args ...any) bool {
		fmt.Fprintf(&log, format+"\n", args...)
		if err != nil {
			r.Violation(name, "an operation fails: "+err.Error(), log.String())
		}
		return err == nil
	}
	for round := 1 + rnd.Intn(3)/2; round > 0; round-- { // an index may be used again
		*rec = recorder{Engine: rec.Engine, regular: map[edge]int{}, inverse: map[edge]int{}}
		if !note(index.Reset(rec), "reset") {
			return
		}
		nodes, props := 2+rnd.Intn(5), 1+rnd.Intn(5)
		node := func() impl.Label { return impl.Label(fmt.Sprint("n", rnd.Intn(nodes))) }
		prop := func() impl.Label { return impl.Label(fmt.Sprint("p", rnd.Intn(props))) }
		for i := rnd.Intn(4); i > 0; i-- {
			a, b := node(), node()
			if rnd.Intn(2) == 0 {
				a, b = prop(), prop()
			}
			if !note(index.MarkIdentical(a, b), "same %s %s", a, b) {
				return
			}
		}
		if rnd.Intn(2) == 0 { // properties of their own, so that each has one inverse
			if !note(index.MarkInverse("q0", "q1"), "inverse q0 q1") {
				return
			}
			if rnd.Intn(2) == 0 {
				if !note(index.MarkInverse("q2", "q3"), "inverse q2 q3") {
					return
				}
			}
		}
		any := func() impl.Label {
			if rnd.Intn(3) == 0 {
				return impl.Label(fmt.Sprint("q", rnd.Intn(4)))
			}
			return prop()
		}
		mask := func(set func(map[impl.Label]struct{}) error, what string) bool {
			if rnd.Intn(2) == 0 {
				return true
			}
			m := map[impl.Label]struct{}{}
			for i := rnd.Intn(4); i > 0; i-- {
				m[any()] = struct{}{}
			}
			return note(set(m), "mask %s %v", what, m)
		}
		if !mask(index.SetPredicateMask, "predicates") || !mask(index.SetDataMask, "data") {
			return
		}
		var a added
		for i := rnd.Intn(40); i > 0; i-- {
			if rnd.Intn(3) == 0 {
				s, p, d := node(), any(), impl.Datum(fmt.Sprint("d", rnd.Intn(2)))
				var err error
				if rnd.Intn(2) == 0 {
					err = index.AddData(s, p, d)
				} else {
					err = index.AddLangData(s, p, d, impl.Language([]string{"", "de"}[rnd.Intn(2)]))
				}
				if !note(err, "data %s %s %s", s, p, d) {
					return
				}
				a.data++
			} else {
				s, p, o := node(), any(), node()
				if !note(index.AddTriple(s, p, o), "add %s %s %s", s, p, o) {
					return
				}
				a.triples++
			}
			if rnd.Intn(20) == 0 && !note(index.Compact(), "compact") {
				return
			}
		}
		if bad := rec.figures(&index, a); len(bad) > 0 {
			r.Violation(name, strings.SplitN(bad[0], ":", 2)[0], "not yet finalized\n"+strings.Join(bad, "\n")+"\n"+log.String())
			return
		}
		if !note(index.Finalize(), "finalize") {
			return
		}
		st := index.Stats()
		rec.count(r, st)
		if bad := rec.figures(&index, a); len(bad) > 0 {
			r.Violation(name, strings.SplitN(bad[0], ":", 2)[0], strings.Join(bad, "\n")+"\n"+st.String()+"\n"+log.String())
			return
		}
	}
	if err := index.Close(); err != nil {
		r.Violation(name, "closing fails: "+err.Error(), log.String())
		return
	}
	r.Eval(log.String())
}

// counter is a source that counts what it has given out since it was opened
type counter struct {
	sparkl.Source
	a added
}

func (c *counter) Open() error { c.a = added{}; return c.Source.Open() }
func (c *counter) Next() sparkl.Token {
	t := c.Source.Next()
	if t.Err == nil {
		if t.HasDatum {
			c.a.data++
		} else {
			c.a.triples++
		}
	}
	return t
}

// load loads a dataset, and asks everyone for its figures
func load(r *hx.R, name string, rnd *rand.Rand, cache string) {
	o := world.Default()
	o.Noise = rnd.Intn(40)
	o.EqProp, o.Inv = 0.4, 0.5
	o.SafeIRI = true
	w, _ := world.Generate(rnd, o)
	if n := len(w.Quads); n > 0 { // also repeat some
		for i := rnd.Intn(10); i > 0; i-- {
			w.Quads = append(w.Quads, w.Quads[rnd.Intn(n)])
		}
	}
	rec := record(engine(cache))
	src := &counter{Source: &sparkl.QuadSource{Reader: bytes.NewReader(w.NQ())}}
	var st *stats.Stats
	if rnd.Intn(10) == 0 { // measuring takes time
		st = &stats.Stats{}
	}
	noMask := rnd.Intn(2) == 0
	_, index, err := lib.Index(w, lib.Options{NoMask: noMask, Engine: rec, Source: src, Stats: st, Compact: 1 + rnd.Intn(50)})
	if err != nil {
		r.Violation(name, "indexing fails: "+err.Error(), lib.Dump(w))
		return
	}
	got := index.Stats()
	bad := rec.figures(index, src.a)
	if noMask && got.MaskedPredTriples+got.MaskedDataTriples != 0 {
		bad = append(bad, fmt.Sprintf("skipped: %d statements reported, but there is no filter", got.MaskedPredTriples+got.MaskedDataTriples))
	}
	if also := st.IndexStats(); st != nil && also != got {
		bad = append(bad, fmt.Sprintf("progress: %v and %v", also, got))
	}
	index.Close()
	rec.count(r, got)
	if len(bad) > 0 {
		r.Violation(name, strings.SplitN(bad[0], ":", 2)[0], strings.Join(bad, "\n")+"\n"+got.String()+"\n"+lib.Dump(w))
		return
	}
	r.Eval(fmt.Sprint(lib.Key(w), noMask))
	if noMask || rnd.Intn(9) > 0 {
		return
	}

	// the site of the same data
	dir := r.Dir()
	defer os.RemoveAll(dir)
	xml, nq := lib.Files(w, dir)
	h := viewer.NewViewer(io.Discard)
	h.RenderFlags = viewer.RenderFlags{Predicates: lib.Predicates(w)}
	var seen []igraph.Stats
	h.Stats.OnUpdate = func(s *stats.Stats) { seen = append(seen, s.IndexStats()) }
	good, err := glass.Create(xml, nq, cache, h.RenderFlags, h.Stats)
	if err != nil {
		r.Violation(name, "loading fails: "+err.Error(), lib.Dump(w))
		return
	}
	defer good.Cache.Close()
	h.Prepare(good.Cache, &good.Pathbuilder)
	site := &lib.Site{H: h, V: h}
	var perf struct{ Index igraph.Stats }
	api := site.Get("/api/v1/perf")
	if err := json.Unmarshal([]byte(api.Body), &perf); err != nil || perf.Index != got {
		bad = append(bad, fmt.Sprintf("site: the api has %v (%v), not %v", perf.Index, err, got))
	}
	page := site.Get("/perf")
	for label, f := range map[string]string{"Direct": "DirectTriples", "Datum": "DatumTriples", "Predicate (Masked)": "MaskedPredTriples", "Datum (Masked)": "MaskedDataTriples", "Inverse": "InverseTriples", "Conflict": "ConflictTriples"} {
		want := reflect.ValueOf(got).FieldByName(f).Uint()
		if n, ok := row(page, label); !ok || n != want {
			bad = append(bad, fmt.Sprintf("page: %s %d (%v), not %d", label, n, ok, want))
		}
	}
	var last igraph.Stats
	for _, s := range seen {
		a, b := reflect.ValueOf(last), reflect.ValueOf(s)
		for i := 0; i < a.NumField(); i++ {
			if b.Field(i).Uint() < a.Field(i).Uint() {
				bad = append(bad, fmt.Sprintf("progress: goes back from %v to %v", last, s))
			}
		}
		last = s
	}
	r.Count("updates", len(seen))
	r.Count("sites", 1)
	if len(bad) > 0 {
		r.Violation(name, strings.SplitN(bad[0], ":", 2)[0], strings.Join(bad, "\n")+"\n"+got.String()+"\n"+lib.Dump(w)+"\n"+hx.Trunc(page.Body, 6000))
	}
}

// row finds a row of a table in a page
func row(p *lib.Page, label string) (n uint64, ok bool) {
	for _, tr := range lib.All(p.DOM(), "tr") {
		var cells []string
		for _, td := range lib.All(tr, "td") {
			cells = append(cells, strings.TrimSpace(lib.NodeText(td)))
		}
		if len(cells) == 2 && cells[0] == label {
			v, err := strconv.ParseUint(cells[1], 10, 64)
			return v, err == nil
		}
	}
	return 0, false
}
