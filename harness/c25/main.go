// Command c25 monitors the progress that is reported while loading.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net/http/httptest"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"

	"github.com/FAU-CDI/drincw/pathbuilder"
	"github.com/FAU-CDI/hangover/internal/glass"
	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/sparkl/storages"
	"github.com/FAU-CDI/hangover/internal/stats"
	"github.com/FAU-CDI/hangover/internal/triplestore/imap"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/verifh/hx"
	"github.com/FAU-CDI/hangover/internal/verifh/lib"
	"github.com/FAU-CDI/hangover/internal/verifh/world"
	"github.com/FAU-CDI/hangover/internal/verifh/wrap"
	"github.com/FAU-CDI/hangover/internal/viewer"
	"github.com/FAU-CDI/hangover/internal/wisski"
)

func main() {
	hx.Main("C25", func(r *hx.R) {
		r.Rule("each evaluation is one load (create, export and import, or with an injected failure) during which every update and several concurrent observers record what is reported (stages, counts, progress API, text output); the recorded histories are checked for order and monotony; distinct by dataset and failure")
		r.Assume("the total of a stage that scans the statements may count the end of the file as a statement")
		r.CasesN("create", r.Pick(36, 700), 8, func(name string, rnd *rand.Rand) { create(r, name, rnd) })
		r.CasesN("fault", r.Pick(28, 600), 8, func(name string, rnd *rand.Rand) { fault(r, name, rnd) })
		r.CasesN("broken", r.Pick(14, 200), 8, func(name string, rnd *rand.Rand) { broken(r, name, rnd) })
		r.CasesN("stats", r.Pick(24, 400), 8, func(name string, rnd *rand.Rand) { direct(r, name, rnd) })
		r.Require("reports observed", 20000)
		r.Require("stages that were complete", 300)
		r.Require("stages that failed", 12)
		r.Require("nested bundles", 12)
		r.Require("reports after the end", 100)
	})
}

// report is one thing that was observed
type report struct {
	all  []stats.StageStats
	prog stats.Progress
	kind byte // a: stages, p: progress, c: current
	cur  stats.StageStats
}

func (rp report) String() string {
	switch rp.kind {
	case 'p':
		return fmt.Sprintf("progress %+v", rp.prog)
	case 'c':
		return fmt.Sprintf("current %s %d/%d", rp.cur.Stage, rp.cur.Current, rp.cur.Total)
	}
	s := "stages"
	for _, a := range rp.all {
		s += fmt.Sprintf(" %s %d/%d ended=%v;", a.Stage, a.Current, a.Total, !a.End.Time.IsZero())
	}
	return s
}

// history is what one observer has seen, in order.
type history struct {
	m      sync.Mutex
	name   string
	order  []stats.Stage // expected order of stages
	last   map[byte]report
	stage  int // furthest stage seen
	count  int // its count
	done   bool
	totals map[stats.Stage]int
	n      int
	bad    string
	recent []string
}

func newHistory(name string, order []stats.Stage) *history {
	return &history{name: name, order: order, last: map[byte]report{}, stage: -1, totals: map[stats.Stage]int{}}
}

func (h *history) index(s stats.Stage) int {
	for i, o := range h.order {
		if o == s {
			return i
		}
	}
	return -1
}

// see adds a report
func (h *history) see(rp report) {
	if h.bad != "" {
		return
	}
	h.n++
	if prev, ok := h.last[rp.kind]; !ok || prev.String() != rp.String() {
		h.recent = append(h.recent, rp.String())
		if len(h.recent) > 12 {
			h.recent = h.recent[1:]
		}
	}
	fail := func(format string, args ...any) { h.bad = fmt.Sprintf(format, args...) }
	position := func(s stats.Stage, current, total int) {
		i := h.index(s)
		switch {
		case i < 0:
			fail("unexpected stage %q", s)
		case i < h.stage:
			fail("stage %q is reported after stage %q", s, h.order[h.stage])
		case i == h.stage && current < h.count:
			fail("count of stage %q goes back from %d to %d", s, h.count, current)
		case current < 0 || total != 0 && current > total:
			fail("stage %q is at %d of %d", s, current, total)
		default:
			h.stage, h.count = i, current
		}
		if want, ok := known(h.totals, s); ok && total != 0 && total != want && total != want+1 || ok && s == stats.StageExtractBundles && total != 0 && total != want {
			fail("stage %q has a total of %d, but it is %d", s, total, want)
		}
	}
	switch rp.kind {
	case 'p':
		if rp.prog.Done {
			if rp.prog.Stage != "" || rp.prog.Current != 0 || rp.prog.Total != 0 {
				// both is fine as long as it stays the same
				if h.done && h.last['p'].prog != rp.prog {
					fail("progress changes after it was done: %+v", rp.prog)
				}
			}
			h.done = true
		} else {
			if h.done {
				fail("progress is not done any more: %+v", rp.prog)
			}
			if rp.prog.Stage != "" {
				position(rp.prog.Stage, rp.prog.Current, rp.prog.Total)
			}
		}
	case 'c':
		if rp.cur.Stage != "" {
			position(rp.cur.Stage, rp.cur.Current, rp.cur.Total)
		}
	case 'a':
		prev := h.last['a'].all
		if len(rp.all) < len(prev) {
			fail("stages disappeared: there were %d, now there are %d", len(prev), len(rp.all))
			break
		}
		for i, s := range rp.all {
			if i > 0 && h.index(s.Stage) <= h.index(rp.all[i-1].Stage) {
				fail("stage %q is listed after stage %q", s.Stage, rp.all[i-1].Stage)
			}
			if i+1 < len(rp.all) && s.End.Time.IsZero() {
				fail("stage %q has not ended, but the next one started", s.Stage)
			}
			if s.Start.Time.IsZero() || !s.End.Time.IsZero() && s.End.Time.Before(s.Start.Time) {
				fail("stage %q has inconsistent times", s.Stage)
			}
			if i < len(prev) {
				p := prev[i]
				if p.Stage != s.Stage || s.Current < p.Current || !p.End.Time.IsZero() && (s.Current != p.Current || s.Total != p.Total) || !s.Start.Time.Equal(p.Start.Time) {
					fail("stage %q changed from %d/%d to %q %d/%d", p.Stage, p.Current, p.Total, s.Stage, s.Current, s.Total)
				}
			}
		}
		if len(rp.all) > 0 {
			s := rp.all[len(rp.all)-1]
			position(s.Stage, s.Current, s.Total)
		}
	}
	h.last[rp.kind] = rp
}

func known(totals map[stats.Stage]int, s stats.Stage) (int, bool) {
	n, ok := totals[s]
	return n, ok
}

// lines collects and checks the text that is written for the user
type lines struct {
	m     sync.Mutex
	buf   strings.Builder
	count int
}

func (l *lines) Write(p []byte) (int, error) {
	l.m.Lock()
	defer l.m.Unlock()
	l.buf.Write(p)
	return len(p), nil
}

var lineExp = regexp.MustCompile(`^([a-z/]+): +(\d+)(?:/(\d+))? *$`)

// check checks that counts never go back
func (l *lines) check(order []stats.Stage, finals map[stats.Stage]int) (n int, bad string) {
	l.m.Lock()
	defer l.m.Unlock()
	counts := map[string]int{}
	for _, s := range strings.FieldsFunc(l.buf.String(), func(r rune) bool { return r == '\r' || r == '\n' }) {
		m := lineExp.FindStringSubmatch(s)
		if m == nil {
			continue
		}
		n++
		c, _ := strconv.Atoi(m[2])
		if c < counts[m[1]] {
			return n, fmt.Sprintf("text output: stage %q goes back from %d to %q", m[1], counts[m[1]], s)
		}
		counts[m[1]] = c
		if m[3] != "" {
			if t, _ := strconv.Atoi(m[3]); c > t {
				return n, fmt.Sprintf("text output: %q", s)
			}
		}
	}
	for s, f := range finals {
		if c, ok := counts[string(s)]; ok && c != f && c != f+1 {
			return n, fmt.Sprintf("text output: stage %q ends with %d instead of %d", s, c, f)
		}
	}
	return
}

// monitor observes stats
type monitor struct {
	st    *stats.Stats
	v     *viewer.Viewer
	hs    []*history
	stops []func()
	text  *lines
}

func watch(order []stats.Stage, totals map[stats.Stage]int, quads int) *monitor {
	m := &monitor{text: &lines{}}
	m.v = viewer.NewViewer(m.text)
	m.st = m.v.Stats
	add := func(name string) *history {
		h := newHistory(name, order)
		h.totals = totals
		m.hs = append(m.hs, h)
		return h
	}
	updates := add("every update")
	m.st.OnUpdate = func(st *stats.Stats) {
		updates.m.Lock()
		defer updates.m.Unlock()
		updates.see(report{kind: 'a', all: st.All()})
		updates.see(report{kind: 'p', prog: st.Progress()})
	}
	poll := func(name string, f func(h *history)) {
		h := add(name)
		m.stops = append(m.stops, hx.Background(func() { f(h) }))
	}
	poll("poll progress", func(h *history) { h.see(report{kind: 'p', prog: m.st.Progress()}) })
	poll("poll stages", func(h *history) { h.see(report{kind: 'a', all: m.st.All()}) })
	poll("poll everything", func(h *history) {
		h.see(report{kind: 'c', cur: m.st.Current()})
		h.see(report{kind: 'a', all: m.st.All()})
		h.see(report{kind: 'p', prog: m.st.Progress()})
		m.st.Diff()
		m.st.IndexStats()
	})
	poll("progress api", func(h *history) {
		rec := httptest.NewRecorder()
		m.v.ServeHTTP(rec, httptest.NewRequest("GET", "/api/v1/progress", nil))
		var p stats.Progress
		if err := json.Unmarshal(rec.Body.Bytes(), &p); err != nil || rec.Code != 200 {
			h.bad = fmt.Sprintf("progress api: %d %v %q", rec.Code, err, rec.Body.String())
			return
		}
		h.see(report{kind: 'p', prog: p})
	})
	poll("perf api", func(h *history) {
		rec := httptest.NewRecorder()
		m.v.ServeHTTP(rec, httptest.NewRequest("GET", "/api/v1/perf", nil))
		var p viewer.Perf
		if err := json.Unmarshal(rec.Body.Bytes(), &p); err != nil || rec.Code != 200 {
			h.bad = fmt.Sprintf("perf api: %d %v %q", rec.Code, err, hx.Trunc(rec.Body.String(), 300))
			return
		}
		h.see(report{kind: 'a', all: p.Stages})
	})
	return m
}

func (m *monitor) stop() {
	for _, s := range m.stops {
		s()
	}
	m.stops = nil
}

// verdict stops observing and checks everything that was observed
func (m *monitor) verdict(r *hx.R, name, detail string, finals map[stats.Stage]int) bool {
	m.stop()
	for _, h := range m.hs {
		r.Count("reports observed", h.n)
		if h.bad != "" {
			r.Violation(name, "reported progress is inconsistent", h.name+": "+h.bad+"\n"+strings.Join(h.recent, "\n")+"\n"+detail)
			return false
		}
	}
	n, bad := m.text.check(nil, finals)
	r.Count("lines of text observed", n)
	if bad != "" {
		r.Violation(name, "progress written as text is inconsistent", bad+"\n"+detail)
		return false
	}
	return true
}

var createOrder = []stats.Stage{stats.StageReadPathbuilder, stats.StageScanSameAs, stats.StageScanInverse, stats.StageScanTriples, stats.StageExtractBundles, stats.StageExtractSameAs, stats.StageExtractCache}

func generate(r *hx.R, rnd *rand.Rand) (*world.World, *world.Expected, map[stats.Stage]int) {
	o := world.Default()
	o.Bundles, o.Entities, o.Depth = 1+rnd.Intn(6), 1+rnd.Intn(10), 1+rnd.Intn(4)
	w, ex := world.Generate(rnd, o)
	if len(w.All()) > len(w.Bundles) {
		r.Count("nested bundles", 1)
	}
	return w, ex, map[stats.Stage]int{stats.StageScanInverse: len(w.Quads), stats.StageScanTriples: len(w.Quads), stats.StageExtractBundles: len(w.All())}
}

// completed checks the stages of something that succeeded
func completed(r *hx.R, name string, all []stats.StageStats, order []stats.Stage, w *world.World, totals map[stats.Stage]int) bool {
	var got []string
	for _, s := range all {
		got = append(got, string(s.Stage))
	}
	var want []string
	for _, s := range order {
		want = append(want, string(s))
	}
	if strings.Join(got, ",") != strings.Join(want, ",") {
		r.Violation(name, "stages of a successful load are not those that ran, each once and in order", fmt.Sprintf("want %v\ngot %v\n%s", want, got, lib.Dump(w)))
		return false
	}
	for _, s := range all {
		r.Count("stages that were complete", 1)
		if s.End.Time.IsZero() {
			r.Violation(name, "a stage of a successful load never ended", string(s.Stage)+"\n"+lib.Dump(w))
			return false
		}
		if s.Current != s.Total {
			r.Violation(name, "a stage of a successful load did not reach its total", fmt.Sprintf("%s %d/%d\n%s", s.Stage, s.Current, s.Total, lib.Dump(w)))
			return false
		}
		if t, ok := totals[s.Stage]; ok && s.Total != t && !(s.Total == t+1 && s.Stage != stats.StageExtractBundles) && len(inverse(w)) > 0 {
			r.Violation(name, "a stage of a successful load has a wrong total", fmt.Sprintf("%s %d/%d instead of %d\n%s", s.Stage, s.Current, s.Total, t, lib.Dump(w)))
			return false
		}
	}
	return true
}

func inverse(w *world.World) []impl.Label { return lib.Predicates(w).InverseOf }

// create creates, exports, imports, and prepares a viewer
func create(r *hx.R, name string, rnd *rand.Rand) {
	w, _, totals := generate(r, rnd)
	dir := r.Dir()
	xml, nq := lib.Files(w, dir)
	cache := ""
	if rnd.Intn(4) == 0 {
		cache = r.Dir()
	}
	r.Eval(lib.Key(w))
	finals := map[stats.Stage]int{stats.StageExtractBundles: len(w.All()), stats.StageScanTriples: len(w.Quads)}

	order := append(append([]stats.Stage{}, createOrder...), stats.StageExportIndex, stats.StageHandler)
	m := watch(order, totals, len(w.Quads))
	defer m.stop()
	g, err := glass.Create(xml, nq, cache, viewer.RenderFlags{Predicates: lib.Predicates(w)}, m.st)
	if err != nil {
		m.stop()
		r.Violation(name, "loading a valid dataset fails: "+err.Error(), lib.Dump(w))
		return
	}
	defer g.Cache.Close()
	if !completed(r, name, m.st.All(), createOrder, w, totals) {
		return
	}
	if m.st.Progress().Done {
		r.Violation(name, "progress is reported as done before the data can be used", lib.Dump(w))
		return
	}
	export := filepath.Join(dir, "export")
	if err := glass.Export(export, g, m.st); err != nil {
		r.Violation(name, "export fails: "+err.Error(), lib.Dump(w))
		return
	}
	if !completed(r, name, m.st.All(), append(append([]stats.Stage{}, createOrder...), stats.StageExportIndex), w, totals) {
		return
	}
	if !finish(r, name, m, &g, w) || !m.verdict(r, name, lib.Dump(w), finals) {
		return
	}
	if !completed(r, name, m.st.All(), order, w, totals) {
		return
	}
	// and the same for importing
	order = []stats.Stage{stats.StageImportIndex, stats.StageHandler}
	m2 := watch(order, nil, 0)
	defer m2.stop()
	i, err := glass.Import(export, m2.st)
	if err != nil {
		r.Violation(name, "import fails: "+err.Error(), lib.Dump(w))
		return
	}
	defer i.Cache.Close()
	if !finish(r, name, m2, &i, w) || !m2.verdict(r, name, lib.Dump(w), nil) {
		return
	}
	completed(r, name, m2.st.All(), order, w, totals)
}

// finish prepares the viewer, after which nothing may change any more
func finish(r *hx.R, name string, m *monitor, g *glass.Glass, w *world.World) bool {
	// the monitor polls the viewer, so what it shows may not be set before that
	err := m.st.DoStage(stats.StageHandler, func() error {
		m.v.Prepare(g.Cache, &g.Pathbuilder)
		return nil
	})
	if err != nil {
		r.Violation(name, "stage fails without reason: "+err.Error(), lib.Dump(w))
		return false
	}
	before := report{kind: 'a', all: m.st.All()}.String()
	for i := 0; i < 10; i++ {
		switch i {
		case 1:
			m.st.SetCT(i, 10)
		case 2:
			m.st.Start(stats.StageScanTriples)
		case 3:
			m.st.End()
		case 4:
			_ = m.st.DoStage(stats.StageExportIndex, func() error { m.st.SetCT(1, 2); return nil })
		case 5:
			m.v.Prepare(g.Cache, &g.Pathbuilder)
		case 6:
			m.st.Close()
		case 7:
			_ = m.st.DoStage(stats.StageExportIndex, func() error { return io.EOF })
		}
		r.Count("reports after the end", 1)
		if p := m.st.Progress(); !p.Done || !m.st.Done() {
			r.Violation(name, "progress is not done after loading", fmt.Sprintf("step %d: %+v\n%s", i, p, lib.Dump(w)))
			return false
		}
		if after := (report{kind: 'a', all: m.st.All()}).String(); after != before {
			r.Violation(name, "stages changed after loading was done", fmt.Sprintf("step %d\n%s", i, hx.DiffText(before, after)))
			return false
		}
	}
	return true
}

// load is like what glass does, but with parts that fail
func load(w *world.World, hook wrap.Hook, st *stats.Stats) (err error) {
	mon := wrap.NewMonitor()
	var pb *pathbuilder.Pathbuilder
	if err := st.DoStage(stats.StageReadPathbuilder, func() error { pb, err = lib.PB(w); return err }); err != nil {
		return err
	}
	opts := sparkl.DefaultIndexOptions(pb)
	opts.CompactInterval = max(20, len(w.Quads)*2/3)
	src := &sparkl.QuadSource{Reader: bytes.NewReader(w.NQ())}
	index, err := sparkl.MakeIndex(&wrap.Source{S: src, H: hook, M: mon}, lib.Predicates(w), &wrap.Engine{E: sparkl.NewEngine(""), H: hook, M: mon}, opts, st)
	if err != nil {
		return err
	}
	defer index.Close()
	var data map[string][]wisski.Entity
	err = st.DoStage(stats.StageExtractBundles, func() (err error) {
		data, err = sparkl.LoadPathbuilder(pb, index, &wrap.BEngine{E: storages.NewBundleEngine(""), H: hook, M: mon}, st)
		return
	})
	if err != nil {
		return err
	}
	ids := imap.MakeMemory[impl.Label, impl.Label](0)
	if err := st.DoStage(stats.StageExtractSameAs, func() error { return index.IdentityMap(&ids) }); err != nil {
		return err
	}
	return st.DoStage(stats.StageExtractCache, func() error {
		_, err := sparkl.NewCache(data, &ids, st)
		return err
	})
}

// fault makes one operation fail
func fault(r *hx.R, name string, rnd *rand.Rand) {
	w, _, totals := generate(r, rnd)
	count := &wrap.Fault{}
	if err := load(w, count, nil); err != nil {
		r.Violation(name, "loading a valid dataset fails: "+err.Error(), lib.Dump(w))
		return
	}
	ops, counts := count.Ops()
	op := ops[rnd.Intn(len(ops))]
	f := &wrap.Fault{Op: op, N: rnd.Intn(counts[op]), Late: rnd.Intn(2) == 0, Sticky: rnd.Intn(2) == 0}
	detail := f.String() + "\n" + lib.Dump(w)
	r.Eval(detail)
	m := watch(createOrder, totals, len(w.Quads))
	defer m.stop()
	err := load(w, f, m.st)
	failed(r, name, detail, m, err, w, totals)
}

// failed checks what was reported about something that may have failed
func failed(r *hx.R, name, detail string, m *monitor, err error, w *world.World, totals map[stats.Stage]int) {
	if !m.verdict(r, name, detail, nil) {
		return
	}
	all := m.st.All()
	if err == nil {
		completed(r, name, all, createOrder, w, totals)
		return
	}
	if len(all) == 0 {
		r.Violation(name, "no stage is reported for a load that failed", detail+"\n"+err.Error())
		return
	}
	for i, s := range all {
		if i >= len(createOrder) || s.Stage != createOrder[i] {
			r.Violation(name, "stages of a load that failed are out of order", fmt.Sprintf("%v\n%s", report{kind: 'a', all: all}, detail))
			return
		}
		if s.End.Time.IsZero() {
			r.Violation(name, "a stage of a load that failed never ended", fmt.Sprintf("%s\n%s", s.Stage, detail))
			return
		}
		if i+1 < len(all) && s.Current != s.Total {
			r.Violation(name, "a stage did not reach its total, but the next one was started", fmt.Sprintf("%s %d/%d\n%s", s.Stage, s.Current, s.Total, detail))
			return
		}
	}
	if m.st.Progress().Done {
		r.Violation(name, "progress of a load that failed is reported as done", detail)
		return
	}
	r.Count("stages that failed", 1)
}

// broken loads files that are broken
func broken(r *hx.R, name string, rnd *rand.Rand) {
	w, _, totals := generate(r, rnd)
	dir := r.Dir()
	xml, nq := lib.Files(w, dir)
	what := ""
	switch rnd.Intn(4) {
	case 0:
		what = "missing pathbuilder"
		xml += "x"
	case 1:
		what = "pathbuilder is no xml"
		if err := os.WriteFile(xml, []byte("<pathbuilderinterface><path>"), 0o644); err != nil {
			panic(err)
		}
	case 2:
		what = "missing statements"
		nq += "x"
	case 3:
		what = "broken statement"
		b := string(w.NQ())
		ls := strings.SplitAfter(b, "\n")
		i := rnd.Intn(len(ls))
		ls[i] = "<http://broken.example/> .\n" + ls[i]
		if err := os.WriteFile(nq, []byte(strings.Join(ls, "")), 0o644); err != nil {
			panic(err)
		}
	}
	detail := what + "\n" + lib.Dump(w)
	r.Eval(detail)
	m := watch(createOrder, totals, len(w.Quads))
	defer m.stop()
	_, err := glass.Create(xml, nq, "", viewer.RenderFlags{Predicates: lib.Predicates(w)}, m.st)
	if err == nil {
		r.Violation(name, "loading a broken dataset succeeds", detail)
		return
	}
	if what == "missing statements" {
		// may be noticed before the first stage that reads them
		m.verdict(r, name, detail, nil)
		return
	}
	failed(r, name, detail, m, err, w, totals)
}

// direct uses stages directly
func direct(r *hx.R, name string, rnd *rand.Rand) {
	order := []stats.Stage{"one", "two", "three", "four"}
	m := watch(order, nil, 0)
	defer m.stop()
	var log []string
	for i, s := range order {
		total := rnd.Intn(30)
		steps := total
		fail := rnd.Intn(4) == 0
		if fail {
			steps = rnd.Intn(total + 1)
		}
		log = append(log, fmt.Sprintf("%s %d/%d failed=%v", s, steps, total, fail))
		work := func() error {
			for k := 0; k <= steps; k++ {
				m.st.SetCT(k, total)
			}
			if fail {
				return io.ErrUnexpectedEOF
			}
			return nil
		}
		switch rnd.Intn(3) {
		case 0:
			m.st.Start(s)
			_ = work()
			prev := m.st.End()
			if prev.Stage != s || prev.Current != steps || prev.Total != total {
				m.stop()
				r.Violation(name, "End returns something else than the stage that ended", fmt.Sprintf("%s: %s %d/%d\n%s", s, prev.Stage, prev.Current, prev.Total, strings.Join(log, "\n")))
				return
			}
		case 1:
			if err := m.st.DoStage(s, work); (err != nil) != fail {
				m.stop()
				r.Violation(name, "DoStage returns a wrong error", fmt.Sprintf("%v\n%s", err, strings.Join(log, "\n")))
				return
			}
		case 2: // starting the next one ends this one
			m.st.Start(s)
			_ = work()
		}
		all := m.st.All()
		if len(all) != i+1 || all[i].Stage != s || all[i].Current != steps || all[i].Total != total {
			m.stop()
			r.Violation(name, "stages are not reported as they ran", fmt.Sprintf("%v\n%s", report{kind: 'a', all: all}, strings.Join(log, "\n")))
			return
		}
	}
	m.st.End()
	m.st.Close()
	if !m.st.Progress().Done {
		m.stop()
		r.Violation(name, "progress is not done after closing", strings.Join(log, "\n"))
		return
	}
	m.verdict(r, name, strings.Join(log, "\n"), nil)
	r.Eval(strings.Join(log, "\n"))
}
