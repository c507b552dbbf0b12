// Command c19 monitors what is answered while data is being loaded, and from then on.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"html/template"
	"io"
	"math/rand"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/FAU-CDI/hangover/internal/glass"
	"github.com/FAU-CDI/hangover/internal/stats"
	"github.com/FAU-CDI/hangover/internal/verifh/hx"
	"github.com/FAU-CDI/hangover/internal/verifh/lib"
	"github.com/FAU-CDI/hangover/internal/verifh/world"
	"github.com/FAU-CDI/hangover/internal/viewer"
	"github.com/FAU-CDI/hangover/internal/wisski"
)

func main() {
	hx.Main("C19", func(r *hx.R) {
		r.Rule("each evaluation is one load (from files, with a cache directory, from an index, or failing) during which several clients ask for everything at random and the complete list of requests is sent at every reported update; answers are classified by when they were sent and received and compared with those of a finished site; distinct by dataset, kind of load and schedule of answers")
		r.Assume("a loading page may be sent with status 200 or 503; performance figures are only checked to be well formed")
		r.CasesN("quick", r.Pick(40, 600), 6, func(name string, rnd *rand.Rand) { quick(r, name, rnd) })
		r.CasesN("load", r.Pick(24, 400), 12, func(name string, rnd *rand.Rand) { load(r, name, rnd) })
		r.CasesN("fail", r.Pick(16, 300), 16, func(name string, rnd *rand.Rand) { fail(r, name, rnd) })
		r.CasesN("tool", r.Pick(10, 80), 5, func(name string, rnd *rand.Rand) { tool(r, name, rnd) })
		if r.Get("tool runs") >= 4 && r.Get("loading answers of the tool") == 0 {
			r.Violation("tool", "the server never answers while it is loading", "clients that asked all the time only got answers once loading had finished")
		}
		r.Require("loading answers", 8000)
		r.Require("complete answers", 2000)
		r.Require("answers while the load was stopped", 4000)
		r.Require("answers across the end of the load", 20)
		r.Require("loading answers of the tool", 20)
		r.Require("complete answers of the tool", 200)
		r.Require("loads that failed", 8)
	})
}

// answer is one recorded answer
type answer struct {
	t    lib.Target
	p    *lib.Page
	a, b time.Time // when it was sent and received
}

// judge decides about answers
type judge struct {
	r      *hx.R
	name   string
	flags  viewer.RenderFlags
	secret []string // parts of the dataset, that may not be seen while loading
	want   map[string]*lib.Page
	seen   map[string][]string // parts seen in an answer
	detail string
	bad    int32
}

func (j *judge) violation(sig, format string, args ...any) {
	if atomic.AddInt32(&j.bad, 1) < 3 {
		j.r.Violation(j.name, sig, hx.Trunc(fmt.Sprintf(format, args...), 4000)+"\n"+j.detail)
	}
}

// always holds for every answer
func (j *judge) always(a *answer) bool {
	p := a.p
	if p.Panic != "" {
		j.violation("a request crashes", "%s: %s", a.t.Target, p.Panic)
		return false
	}
	if got := p.Header["Content-Security-Policy"]; len(got) != 1 || strings.TrimSpace(got[0]) != strings.TrimSpace(j.flags.CSPHeader()) {
		j.violation("wrong security policy", "%s: %q, want %q", a.t.Target, got, j.flags.CSPHeader())
		return false
	}
	return true
}

// loading returns what is wrong with an answer of a site that is loading
func (j *judge) loading(a *answer) string {
	p := a.p
	seen, ok := j.seen[p.Body]
	if !ok {
		for _, s := range j.secret {
			if strings.Contains(p.Body, s) {
				seen = append(seen, s)
			}
		}
		j.seen[p.Body] = seen
	}
	for _, s := range seen {
		if !strings.Contains(a.t.Target, s) {
			return fmt.Sprintf("contains %q of the dataset", s)
		}
	}
	switch a.t.Kind {
	case "page":
		if p.Status != 200 && p.Status != 503 {
			return fmt.Sprintf("status %d", p.Status)
		}
		if p.Header.Get("Retry-After") == "" || p.Header.Get("Retry-After") == "0" {
			return "no hint to retry"
		}
		if p.Type() != "text/html" {
			return "type " + p.Type()
		}
		if !strings.Contains(p.Body, "<h1>Hangover is loading</h1>") || !strings.Contains(p.Body, "currently loading the dataset") || !strings.Contains(p.Body, "</body>") {
			return "not the (complete) loading page"
		}
	case "api":
		if p.Status != 503 {
			return fmt.Sprintf("status %d", p.Status)
		}
		if p.Header.Get("Retry-After") == "" || p.Header.Get("Retry-After") == "0" {
			return "no hint to retry"
		}
		if p.Type() == "application/json" && !json.Valid([]byte(p.Body)) {
			return "not json"
		}
	case "progress":
		var prog struct {
			Done  *bool
			Stage *string
		}
		if p.Status != 200 || p.Type() != "application/json" || json.Unmarshal([]byte(p.Body), &prog) != nil || prog.Done == nil {
			return "not a progress report"
		}
		if *prog.Done {
			return "progress says that loading is done"
		}
	default:
		return j.other(a)
	}
	return ""
}

// other checks what is independent of the data
func (j *judge) other(a *answer) string {
	p := a.p
	switch a.t.Kind {
	case "none":
		if p.Status != 404 {
			return fmt.Sprintf("status %d", p.Status)
		}
	case "perf", "about":
		if p.Status != 200 || p.Type() != "text/html" || !strings.Contains(p.Body, "</body>") {
			return fmt.Sprintf("status %d, %q, not a complete page", p.Status, p.Type())
		}
	case "perfapi":
		if p.Status != 200 || p.Type() != "application/json" || !json.Valid([]byte(p.Body)) {
			return "not a performance report"
		}
	case "static":
		want := j.wanted(a.t.Target)
		if p.Status != 200 || p.Body != want.Body {
			return fmt.Sprintf("status %d, %d bytes instead of %d", p.Status, len(p.Body), len(want.Body))
		}
	}
	return ""
}

// differ shows where two texts differ
func differ(want, got string) string {
	i := 0
	for i < len(want) && i < len(got) && want[i] == got[i] {
		i++
	}
	from := i - 150
	if from < 0 {
		from = 0
	}
	return fmt.Sprintf("after %d bytes: want %q, got %q", i, hx.Trunc(want[from:], 400), hx.Trunc(got[from:], 400))
}

func (j *judge) wanted(target string) *lib.Page { return j.want[target] }

// complete returns what is wrong with an answer of a site that is complete
func (j *judge) complete(a *answer) string {
	switch a.t.Kind {
	case "page", "api", "progress":
		want := j.wanted(a.t.Target)
		if a.p.Status != want.Status {
			return fmt.Sprintf("status %d, want %d", a.p.Status, want.Status)
		}
		for _, k := range []string{"Content-Type", "Location", "Retry-After", "Content-Disposition"} {
			if g, w := a.p.Header.Get(k), want.Header.Get(k); g != w {
				return fmt.Sprintf("%s: %q, want %q", k, g, w)
			}
		}
		if a.p.Body != want.Body {
			return "body differs: " + differ(want.Body, a.p.Body)
		}
		return ""
	}
	return j.other(a)
}

// reference asks a finished site
func (j *judge) reference(g *glass.Glass, ts []lib.Target, footer string) {
	s := lib.NewSite(g.Cache, &g.Pathbuilder, j.flags)
	s.V.Footer = template.HTML(footer)
	j.want = map[string]*lib.Page{}
	for _, t := range ts {
		j.want[t.Target] = s.Get(t.Target)
	}
}

// history judges recorded answers. begin is when the data was handed over, end when this was finished
func (j *judge) history(as []*answer, begin, end time.Time) {
	for _, a := range as {
		if !j.always(a) {
			continue
		}
		var what string
		switch {
		case a.b.Before(begin):
			what = j.loading(a)
			j.r.Count("loading answers", 1)
			if what != "" {
				what = "before the end of loading: " + what
			}
		case a.a.After(end):
			what = j.complete(a)
			j.r.Count("complete answers", 1)
			if what != "" {
				what = "after the end of loading: " + what
			}
		default:
			l, c := j.loading(a), j.complete(a)
			j.r.Count("answers across the end of the load", 1)
			if l != "" && c != "" {
				what = "at the end of loading: neither of a loading site (" + l + ") nor of a loaded one (" + c + ")"
			}
		}
		if what != "" {
			j.violation("wrong answer "+hx.Trunc(strings.SplitN(what, ":", 2)[0], 80), "%s (%s): %s\nstatus %d %v\n%s", a.t.Target, a.t.Kind, what, a.p.Status, a.p.Header, hx.Trunc(a.p.Body, 1500))
		}
	}
}

func secrets(w *world.World) (ss []string) {
	m := map[string]bool{}
	add := func(s string) {
		if len(s) >= 10 && !m[s] && !strings.ContainsAny(s, "<>&\"'\\+ \n\x00\u2028\u00a0") && !strings.HasPrefix(s, "http://www.w3.org/") && !strings.HasPrefix(s, "x") && len(s) < 200 {
			m[s] = true
			ss = append(ss, s)
		}
	}
	for _, q := range w.Quads {
		add(q.S.V)
		add(q.P.V)
		add(q.O.V)
	}
	return
}

type setup struct {
	j       *judge
	w       *world.World
	ex      *world.Expected
	targets []lib.Target
	xml, nq string
	footer  string
}

func prepare(r *hx.R, name string, rnd *rand.Rand, dir string) *setup {
	o := world.Default()
	o.BundleIDs = []string{"", "hash"}[rnd.Intn(2)]
	o.SafeIRI = rnd.Intn(2) == 0
	w, ex := world.Generate(rnd, o)
	if ex.Ambiguous {
		return nil
	}
	s := &setup{w: w, ex: ex, footer: "<b>footer</b>"}
	s.xml, s.nq = lib.Files(w, dir)
	flags := lib.Flags(w, rnd)
	s.j = &judge{r: r, name: name, flags: flags, secret: secrets(w), seen: map[string][]string{}, detail: lib.Dump(w)}
	s.targets = lib.Targets(w, ex, rnd, flags.Tipsy() != "")
	rnd.Shuffle(len(s.targets), func(a, b int) { s.targets[a], s.targets[b] = s.targets[b], s.targets[a] })
	if len(s.targets) > 70 {
		s.targets = append(s.targets[:50], lib.Targets(&world.World{}, &world.Expected{G: ex.G}, rnd, flags.Tipsy() != "")...)
	}
	return s
}

// clients ask for everything
type clients struct {
	stop int32
	wg   sync.WaitGroup
	all  [][]*answer
}

func ask(site *lib.Site, t lib.Target) *answer {
	a := &answer{t: t, a: time.Now()}
	a.p = site.Get(t.Target)
	a.b = time.Now()
	if b, ok := bodies.Load(a.p.Body); ok {
		a.p.Body = b.(string)
	} else if a.t.Kind != "perf" && a.t.Kind != "perfapi" {
		bodies.Store(a.p.Body, a.p.Body)
	}
	return a
}

var bodies sync.Map // of answers, so that each is only stored once

// start starts n clients that keep at most max answers and are not too fast
func start(site *lib.Site, ts []lib.Target, n int, seed int64, pause int, gate chan struct{}) *clients {
	c := &clients{all: make([][]*answer, n)}
	for i := 0; i < n; i++ {
		i := i
		rnd := rand.New(rand.NewSource(seed + int64(i)))
		c.wg.Add(1)
		go func() {
			defer c.wg.Done()
			<-gate
			for k := 0; atomic.LoadInt32(&c.stop) == 0; k++ {
				c.all[i] = append(c.all[i], ask(site, ts[rnd.Intn(len(ts))]))
				time.Sleep(time.Duration(rnd.Intn(pause)) * time.Microsecond)
			}
		}()
	}
	return c
}

func (c *clients) end() (as []*answer) {
	atomic.StoreInt32(&c.stop, 1)
	c.wg.Wait()
	for _, a := range c.all {
		as = append(as, a...)
	}
	return
}

// quick loads without reporting, and hands over the data to many sites
func quick(r *hx.R, name string, rnd *rand.Rand) {
	dir := r.Dir()
	defer os.RemoveAll(dir)
	s := prepare(r, name, rnd, dir)
	if s == nil {
		return
	}
	g, err := glass.Create(s.xml, s.nq, "", s.j.flags, nil)
	if err != nil {
		r.Violation(name, "loading fails: "+err.Error(), s.j.detail)
		return
	}
	s.j.reference(&g, s.targets, s.footer)
	for round := 0; round < 6; round++ {
		v := viewer.NewViewer(&writer{})
		v.RenderFlags = s.j.flags
		v.Footer = template.HTML(s.footer)
		site := &lib.Site{H: v, V: v}
		gate := make(chan struct{})
		c := start(site, s.targets, 4, rnd.Int63(), 500, gate)
		var begin, end time.Time
		fin, dead, stacks := hx.Guard(func() {
			close(gate)
			time.Sleep(time.Duration(rnd.Intn(12000)) * time.Microsecond)
			begin = time.Now()
			v.Prepare(g.Cache, &g.Pathbuilder)
			end = time.Now()
			time.Sleep(5 * time.Millisecond)
		}, 120)
		if !fin {
			if dead {
				r.Violation(name, "deadlock while loading and answering", stacks+"\n"+s.j.detail)
			} else {
				r.Inconclusive(name + ": took too long\n" + stacks)
			}
			r.Stop()
		}
		as := c.end()
		s.j.history(as, begin, end)
		s.j.monotone(as)
		r.Eval(fmt.Sprintf("%s quick %d %d", lib.Key(s.w), round, len(as)))
	}
}

func load(r *hx.R, name string, rnd *rand.Rand) {
	dir := r.Dir()
	defer os.RemoveAll(dir)
	s := prepare(r, name, rnd, dir)
	if s == nil {
		return
	}
	kind := []string{"files", "cache", "index"}[rnd.Intn(3)]
	other, err := glass.Create(s.xml, s.nq, "", s.j.flags, nil)
	if err != nil {
		r.Violation(name, "loading fails: "+err.Error(), s.j.detail)
		return
	}
	index := filepath.Join(dir, "index")
	if kind == "index" {
		if err := glass.Export(index, other, nil); err != nil {
			r.Violation(name, "exporting fails: "+err.Error(), s.j.detail)
			return
		}
	}

	out := &writer{}
	v := viewer.NewViewer(out)
	v.RenderFlags = s.j.flags
	v.Footer = template.HTML(s.footer)
	site := &lib.Site{H: v, V: v}

	gate := make(chan struct{})
	c := start(site, s.targets, 3, rnd.Int63(), 12000, gate)

	// stop at updates and ask for everything
	var stopped []*answer
	var updates int32
	var every = 1 + rnd.Intn(6)
	battery := func() {
		for _, t := range s.targets {
			stopped = append(stopped, ask(site, t))
		}
	}
	loader := make(chan struct{})
	last := ""
	v.Stats.OnUpdate = func(st *stats.Stats) {
		if st != v.Stats {
			return
		}
		stage := string(st.Current().Stage)
		n := int(atomic.AddInt32(&updates, 1))
		if (stage != last || n%(every*10) == 0) && len(stopped) < 1500 {
			last = stage
			battery()
		}
	}
	var g glass.Glass
	var begin, end time.Time
	fin, dead, stacks := hx.Guard(func() {
		defer close(loader)
		close(gate)
		switch kind {
		case "files":
			g, err = glass.Create(s.xml, s.nq, "", s.j.flags, v.Stats)
		case "cache":
			g, err = glass.Create(s.xml, s.nq, filepath.Join(dir, "cache"), s.j.flags, v.Stats)
		case "index":
			g, err = glass.Import(index, v.Stats)
		}
		if err != nil {
			return
		}
		battery()
		v.Stats.OnUpdate = nil
		v.Stats.DoStage(stats.StageHandler, func() error {
			time.Sleep(time.Duration(rnd.Intn(4)) * time.Millisecond)
			begin = time.Now()
			v.Prepare(g.Cache, &g.Pathbuilder)
			end = time.Now()
			return nil
		})
	}, 120)
	if !fin {
		if dead {
			r.Violation(name, "deadlock while loading and answering", stacks+"\n"+s.j.detail)
		} else {
			r.Inconclusive(name + ": took too long\n" + stacks)
		}
		r.Stop()
	}
	if err != nil {
		c.end()
		r.Violation(name, "loading fails: "+err.Error(), s.j.detail)
		return
	}
	r.Count("answers while the load was stopped", len(stopped))
	time.Sleep(20 * time.Millisecond)
	as := c.end()
	for _, t := range s.targets {
		as = append(as, ask(site, t))
	}
	as = append(as, stopped...)

	s.j.reference(&g, s.targets, s.footer)
	// the same data as loaded by somebody else
	if a, b := all(&other), all(&g); a != b {
		s.j.violation("a loaded site differs from another one", "%s", hx.DiffText(a, b))
	}
	s.j.history(as, begin, end)
	s.j.monotone(as)
	r.Count("loads from "+kind, 1)
	r.Max("answers recorded in one load", len(as))
	r.Eval(fmt.Sprintf("%s %s %d", lib.Key(s.w), kind, len(as)))
}

// all describes everything that was loaded
func all(g *glass.Glass) string {
	m := map[string][]wisski.Entity{}
	for _, b := range g.Cache.BundleNames() {
		m[b] = g.Cache.Entities(b)
	}
	return lib.RawText(m)
}

// monotone checks that nobody gets a loading answer after somebody got a complete one
func (j *judge) monotone(as []*answer) {
	var first time.Time
	for _, a := range as {
		if (a.t.Kind == "page" || a.t.Kind == "api" || a.t.Kind == "progress") && j.loading(a) != "" && j.complete(a) == "" {
			if first.IsZero() || a.b.Before(first) {
				first = a.b
			}
		}
	}
	if first.IsZero() {
		return
	}
	for _, a := range as {
		if (a.t.Kind == "page" || a.t.Kind == "api" || a.t.Kind == "progress") && a.a.After(first) {
			if w := j.complete(a); w != "" {
				j.violation("loading again after it was finished", "%s: %s", a.t.Target, w)
			}
		}
	}
}

// writer takes log lines
type writer struct {
	m sync.Mutex
	n int
}

func (w *writer) Write(p []byte) (int, error) {
	w.m.Lock()
	defer w.m.Unlock()
	w.n += len(p)
	return len(p), nil
}

// fail loads something that can not be loaded: there never is any data
func fail(r *hx.R, name string, rnd *rand.Rand) {
	dir := r.Dir()
	defer os.RemoveAll(dir)
	s := prepare(r, name, rnd, dir)
	if s == nil {
		return
	}
	kind := []string{"xml", "missing", "quads", "index", "cache"}[rnd.Intn(5)]
	cache := ""
	good, err := glass.Create(s.xml, s.nq, "", s.j.flags, nil)
	if err != nil {
		r.Violation(name, "loading fails: "+err.Error(), s.j.detail)
		return
	}
	index := filepath.Join(dir, "index")
	must(glass.Export(index, good, nil))
	s.j.reference(&good, s.targets, s.footer)
	switch kind {
	case "xml":
		must(os.WriteFile(s.xml, []byte("<pathbuilderinterface><path>"), 0o644))
	case "missing":
		must(os.Remove(s.nq))
	case "quads":
		b, _ := os.ReadFile(s.nq)
		must(os.WriteFile(s.nq, append(b, "\n<http://a.example/> <broken .\n"...), 0o644))
	case "index":
		b, _ := os.ReadFile(index)
		must(os.WriteFile(index, b[:len(b)-1-rnd.Intn(len(b)/2)], 0o644))
	case "cache":
		cache = filepath.Join(dir, "file", "in")
		must(os.WriteFile(filepath.Join(dir, "file"), nil, 0o644))
	}
	v := viewer.NewViewer(&writer{})
	v.RenderFlags = s.j.flags
	v.Footer = template.HTML(s.footer)
	site := &lib.Site{H: v, V: v}
	gate := make(chan struct{})
	c := start(site, s.targets, 3, rnd.Int63(), 12000, gate)
	fin, dead, stacks := hx.Guard(func() {
		close(gate)
		if kind == "index" {
			_, err = glass.Import(index, v.Stats)
		} else {
			_, err = glass.Create(s.xml, s.nq, cache, s.j.flags, v.Stats)
		}
	}, 120)
	if !fin {
		if dead {
			r.Violation(name, "deadlock while loading and answering", stacks+"\n"+s.j.detail)
		} else {
			r.Inconclusive(name + ": took too long\n" + stacks)
		}
		r.Stop()
	}
	time.Sleep(10 * time.Millisecond)
	as := c.end()
	if err == nil {
		r.Violation(name, "loading "+kind+" does not fail", s.j.detail)
		return
	}
	for _, t := range s.targets {
		as = append(as, ask(site, t))
	}
	later := time.Now().Add(time.Hour)
	s.j.history(as, later, later)
	r.Count("loads that failed", 1)
	r.Count("failing "+kind, 1)
	r.Eval(fmt.Sprintf("%s fail %s %d", lib.Key(s.w), kind, len(as)))
}

func must(err error) {
	if err != nil {
		panic("harness: " + err.Error())
	}
}

// tool runs the real server
func tool(r *hx.R, name string, rnd *rand.Rand) {
	dir := r.Dir()
	defer os.RemoveAll(dir)
	s := prepare(r, name, rnd, dir)
	if s == nil {
		return
	}
	s.j.flags.Predicates = viewer.RenderFlags{}.Predicates
	flags := s.j.flags
	if strings.HasPrefix(flags.TipsyURL, "javascript") {
		flags.TipsyURL = "tipsy"
	}
	args := []string{fmt.Sprintf("-html=%v", flags.HTMLRender), fmt.Sprintf("-images=%v", flags.ImageRender), fmt.Sprintf("-strict-csp=%v", flags.StrictCSP),
		"-public", flags.PublicURL, "-tipsy", flags.TipsyURL, "-footer", s.footer,
		"-sameas", strings.Join(s.w.SameAsPreds, ","), "-inverseof", strings.Join(s.w.InversePreds, ",")}
	flags.Predicates = lib.Predicates(s.w)
	s.j.flags = flags
	kind := []string{"files", "cache", "index"}[rnd.Intn(3)]
	mine := ""
	if kind == "cache" {
		mine = filepath.Join(dir, "mine") // some empty lists are written in another way
	}
	good, err := glass.Create(s.xml, s.nq, mine, flags, nil)
	if err != nil {
		r.Violation(name, "loading fails: "+err.Error(), s.j.detail)
		return
	}
	var argv []string
	switch kind {
	case "cache":
		args = append(args, "-cache", filepath.Join(dir, "cache"))
		argv = []string{s.xml, s.nq}
	case "files":
		argv = []string{s.xml, s.nq}
	case "index":
		index := filepath.Join(dir, "index")
		must(glass.Export(index, good, nil))
		argv = []string{index}
		good, err = glass.Import(index, nil)
		must(err)
	}
	s.j.reference(&good, s.targets, s.footer)

	// an entity that is found in two bundles is shown in any of them
	seen := map[string]int{}
	for _, es := range s.ex.Bundles {
		for _, e := range es {
			seen[e.URI]++
		}
	}
	ambiguous := false
	for _, n := range seen {
		ambiguous = ambiguous || n > 1
	}

	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	addr := l.Addr().String()
	l.Close()
	cmd := exec.Command(filepath.Join(os.Getenv("HX_BIN"), "hangover"), append(append([]string{"-addr", addr}, args...), argv...)...)
	cmd.Dir = dir
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	stderr, err := cmd.StderrPipe()
	must(err)
	must(cmd.Start())
	exited := make(chan error, 1)
	finished := make(chan time.Time, 1)
	var log strings.Builder
	var logM sync.Mutex
	go func() {
		sc := bufio.NewReader(stderr)
		for {
			line, err := sc.ReadString('\n')
			logM.Lock()
			log.WriteString(line)
			logM.Unlock()
			if strings.Contains(line, "msg=finished took") {
				finished <- time.Now()
			}
			if err != nil {
				break
			}
		}
		exited <- cmd.Wait()
	}()
	defer func() { cmd.Process.Kill(); <-exited }()

	var as []*answer
	var m sync.Mutex
	var stop int32
	var wg sync.WaitGroup
	var alive = make(chan struct{})
	var aliveOnce sync.Once
	for i := 0; i < 3; i++ {
		rnd := rand.New(rand.NewSource(rnd.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			client := &http.Client{Transport: &http.Transport{}, Timeout: 60 * time.Second, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}
			defer client.CloseIdleConnections()
			for atomic.LoadInt32(&stop) == 0 {
				t := s.targets[rnd.Intn(len(s.targets))]
				a := &answer{t: t, a: time.Now()}
				p, err := get(client, addr, t.Target)
				a.b, a.p = time.Now(), p
				if err == nil {
					aliveOnce.Do(func() { close(alive) })
					m.Lock()
					as = append(as, a)
					m.Unlock()
				}
				time.Sleep(time.Duration(rnd.Intn(4000)) * time.Microsecond)
			}
		}()
	}
	logged := func() string { logM.Lock(); defer logM.Unlock(); return hx.Trunc(log.String(), 20000) }
	quit := func() { atomic.StoreInt32(&stop, 1); wg.Wait() }
	var end time.Time
	select {
	case end = <-finished:
	case err := <-exited:
		exited <- err
		quit()
		if strings.Contains(logged(), "address already in use") {
			return
		}
		r.Violation(name, "the server ends: "+fmt.Sprint(err), logged()+s.j.detail)
		return
	case <-time.After(120 * time.Second):
		quit()
		r.Inconclusive(name + ": the server does not finish to load\n" + logged())
		return
	}
	time.Sleep(150 * time.Millisecond)
	quit()
	client := &http.Client{Transport: &http.Transport{}, Timeout: 60 * time.Second, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}
	for _, t := range s.targets {
		a := &answer{t: t, a: time.Now()}
		a.p, err = get(client, addr, t.Target)
		a.b = time.Now()
		if err != nil {
			select {
			case e := <-exited:
				exited <- e
				r.Violation(name, "the server ends: "+fmt.Sprint(e), logged()+s.j.detail)
				return
			default:
			}
			s.j.violation("a request gets no answer", "%s: %s\n%s", t.Target, err, logged())
			continue
		}
		as = append(as, a)
	}
	client.CloseIdleConnections()
	for _, a := range as {
		if !s.j.always(a) {
			continue
		}
		if ambiguous && (strings.HasPrefix(a.t.Target, "/wisski/")) {
			continue
		}
		if a.t.Kind == "page" && strings.HasPrefix(a.t.Target, "/entity/") && strings.Contains(a.p.Body, "Alias") {
			// the order of aliases may be another one
			if lines(a.p.Body) == lines(s.j.want[a.t.Target].Body) {
				a.p.Body = s.j.want[a.t.Target].Body
			}
		}
		l, c := s.j.loading(a), s.j.complete(a)
		switch {
		case a.a.After(end) && c != "":
			s.j.violation("wrong answer of the server after it has loaded", "%s (%s): %s\n%d %v\n%s\n%s", a.t.Target, a.t.Kind, c, a.p.Status, a.p.Header, hx.Trunc(a.p.Body, 1500), logged())
		case l != "" && c != "":
			s.j.violation("wrong answer of the server", kind+" %s (%s): neither that of a loading site (%s) nor that of a loaded one (%s)\n%d %v\n%s\n%s", a.t.Target, a.t.Kind, l, c, a.p.Status, a.p.Header, hx.Trunc(a.p.Body, 1500), logged())
		case c != "":
			r.Count("loading answers of the tool", 1)
		default:
			r.Count("complete answers of the tool", 1)
		}
	}
	s.j.monotone(as)
	r.Count("tool runs", 1)
	if t := logged(); strings.Contains(t, "panic") || strings.Contains(t, "DATA RACE") {
		r.Violation(name, "the server reports a crash or a race", t)
	}
	r.Eval(fmt.Sprintf("%s tool %s %d", lib.Key(s.w), kind, len(as)))
}

func lines(s string) string {
	ls := strings.Fields(s)
	sort.Strings(ls)
	return strings.Join(ls, "\n")
}

func get(client *http.Client, addr, target string) (*lib.Page, error) {
	res, err := client.Get("http://" + addr + target)
	if err != nil {
		return nil, err
	}
	defer res.Body.Close()
	b, err := io.ReadAll(res.Body)
	if err != nil {
		return nil, err
	}
	return &lib.Page{Target: target, Status: res.StatusCode, Header: res.Header, Body: string(b)}, nil
}
