//go:build ci

// Command c29 monitors the graphical frontend. It is built with the tag ci, with which the toolkit draws to memory.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/FAU-CDI/hangover/internal/glass"
	"github.com/FAU-CDI/hangover/internal/verifh/hx"
	"github.com/FAU-CDI/hangover/internal/verifh/lib"
	"github.com/FAU-CDI/hangover/internal/verifh/world"
	"github.com/FAU-CDI/hangover/internal/viewer"
)

func main() {
	if os.Getenv("HX_GUI") != "" {
		frontend()
		return
	}
	hx.Main("C29", func(r *hx.R) {
		r.Rule("each evaluation is one session with the graphical frontend, in a process of its own: its form is filled in and submitted, and the site it then serves is compared with that of a viewer with the same data and settings; distinct by dataset, settings and what was done; non-trivial: something was filled in")
		r.Assume("the toolkit's headless driver behaves as those that draw to a screen; messages about the end of the server are not judged")
		r.CasesN("load", r.Pick(40, 600), 6, twice(r, load))
		r.CasesN("invalid", r.Pick(30, 400), 6, twice(r, invalid))
		r.CasesN("fail", r.Pick(18, 200), 6, twice(r, fail))
		r.CasesN("console", r.Pick(120, 2000), 1, func(name string, rnd *rand.Rand) { lines(r, name, rnd) })
		r.Require("sessions", 40)
		r.Require("answers compared", 2000)
		r.Require("answers while loading", 100)
		r.Require("forms that were refused", 20)
		r.Require("sessions ended", 20)
		r.Require("lines of the console", 2000)
	})
}

// report is what was found in a session
type report struct{ sig, detail string }

// twice holds a session, and if something is wrong some more of the same.
// The toolkit draws and validates in the background, without any locks: only what happens more than once counts.
func twice(r *hx.R, f func(s *session)) func(name string, rnd *rand.Rand) {
	return func(name string, rnd *rand.Rand) {
		seed := rnd.Int63()
		found := map[string]bool{}
		for i := 0; i < 5; i++ {
			s := prepare(r, rand.New(rand.NewSource(seed)))
			if s == nil {
				return
			}
			f(s)
			os.RemoveAll(s.dir)
			if len(s.found) == 0 && len(found) == 0 {
				return
			}
			again := false
			for _, v := range s.found {
				if found[v.sig] {
					r.Violation(name, v.sig, v.detail)
					again = true
				}
				found[v.sig] = true
			}
			if again {
				return
			}
		}
		r.Count("what happened only once", 1)
		for sig := range found {
			r.Sample("happened once: " + name + ": " + sig)
		}
	}
}

// gui is a frontend in another process
type gui struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	stderr strings.Builder
	m      sync.Mutex
	err    error
}

func (g *gui) Write(p []byte) (int, error) {
	g.m.Lock()
	defer g.m.Unlock()
	if g.stderr.Len() < 1<<20 {
		g.stderr.Write(p)
	}
	return len(p), nil
}

func (g *gui) log() string {
	g.m.Lock()
	defer g.m.Unlock()
	s := g.stderr.String()
	for _, mark := range []string{"\nfatal error: ", "\npanic: ", "\nSIGQUIT"} {
		if i := strings.Index(s, mark); i >= 0 {
			return hx.Trunc(s[:i], 2000) + hx.Trunc(s[i:], 6000)
		}
	}
	return hx.Trunc(s, 6000)
}

func open(dir string) *gui {
	g := &gui{}
	exe, err := os.Executable()
	must(err)
	g.cmd = exec.Command(exe)
	g.cmd.Dir = dir
	g.cmd.Env = append(os.Environ(), "HX_GUI=1", "HOME="+dir, "XDG_CONFIG_HOME="+dir, "GOTRACEBACK=all")
	g.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	g.cmd.Stderr = g
	g.in, err = g.cmd.StdinPipe()
	must(err)
	out, err := g.cmd.StdoutPipe()
	must(err)
	g.out = bufio.NewReaderSize(out, 1<<20)
	must(g.cmd.Start())
	return g
}

func (g *gui) quit() {
	g.cmd.Process.Kill()
	g.cmd.Wait()
}

// do sends a command and waits for its result
func (g *gui) do(name string, args ...string) (res result) {
	if g.err != nil {
		return
	}
	b, _ := json.Marshal(command{Name: name, Args: args})
	if _, g.err = g.in.Write(append(b, '\n')); g.err != nil {
		return
	}
	ch := make(chan error, 1)
	go func() {
		line, err := g.out.ReadBytes('\n')
		if err == nil {
			err = json.Unmarshal(line, &res)
		}
		ch <- err
	}()
	select {
	case g.err = <-ch:
	case <-time.After(60 * time.Second):
		g.err = fmt.Errorf("no answer to %s within a minute", name)
		g.cmd.Process.Signal(syscall.SIGQUIT)
		time.Sleep(200 * time.Millisecond)
	}
	return
}

// await repeats asking for the state until ok
func (g *gui) await(ok func(s result) bool) (s result, good bool) {
	for i := 0; i < 600 && g.err == nil; i++ {
		if s = g.do("state"); ok(s) {
			return s, true
		}
		time.Sleep(time.Duration(5+i/4) * time.Millisecond)
	}
	return s, false
}

type session struct {
	r       *hx.R
	found   []report
	rnd     *rand.Rand
	dir     string
	w       *world.World
	ex      *world.Expected
	xml, nq string
	flags   viewer.RenderFlags
	set     [][2]string // what is filled in
	dump    string
}

func (s *session) violation(sig, format string, args ...any) {
	s.found = append(s.found, report{sig, hx.Trunc(fmt.Sprintf(format, args...), 8000) + fmt.Sprintf("\n%q\n", s.set) + s.dump})
}

func must(err error) {
	if err != nil {
		panic("harness: " + err.Error())
	}
}

func freeAddr() string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	defer l.Close()
	return l.Addr().String()
}

func prepare(r *hx.R, rnd *rand.Rand) *session {
	o := world.Default()
	o.BundleIDs = []string{"", "hash"}[rnd.Intn(2)]
	o.SafeIRI = rnd.Intn(2) == 0
	o.Entities = 2 + rnd.Intn(8)
	w, _ := world.Generate(rnd, o)
	for _, b := range w.All() {
		for _, f := range b.Fields {
			f.Type = []string{"string", "text_long", "image", "entity_reference"}[rnd.Intn(4)]
		}
	}
	for i := range w.Quads {
		if q := &w.Quads[i]; q.O.Kind == world.Lit && q.O.DT == "" && rnd.Intn(4) == 0 {
			q.O.V = []string{"<p>a <a href='https://example.org/wisski/get?uri=x'>link</a></p>", "http://img.example/x.png", "http://public.example/wisski/navigate/1/view"}[rnd.Intn(3)]
		}
	}
	ex := w.Expect()
	if ex.Ambiguous {
		return nil
	}
	seen := map[string]bool{}
	for _, es := range ex.Bundles {
		for _, e := range es {
			if seen[e.URI] {
				return nil // found in two bundles
			}
			seen[e.URI] = true
		}
	}
	s := &session{r: r, rnd: rnd, w: w, ex: ex, dump: lib.Dump(w), dir: r.Dir()}
	s.xml, s.nq = lib.Files(w, s.dir)
	pick := func(ss ...string) string { return ss[rnd.Intn(len(ss))] }
	s.flags = viewer.RenderFlags{
		Predicates:  lib.Predicates(w),
		HTMLRender:  rnd.Intn(2) == 0,
		ImageRender: rnd.Intn(2) == 0,
		PublicURL:   pick("", "https://example.org/", "https://example.org/\nhttp://public.example", "\nhttp://public.example/\n\n"),
		TipsyURL:    pick("", "https://tipsy.example/", "https://tipsy.guys.wtf", "http://tipsy.example"),
	}
	sep := pick("\n", ",", "\n\n", " ,\n ")
	s.set = [][2]string{
		{"nquads", s.nq}, {"pathbuilder", s.xml},
		{"sameas", strings.Join(w.SameAsPreds, sep)}, {"inverseof", strings.Join(w.InversePreds, sep)},
		{"public", s.flags.PublicURL}, {"html", fmt.Sprint(s.flags.HTMLRender)}, {"images", fmt.Sprint(s.flags.ImageRender)},
		{"tipsy", s.flags.TipsyURL},
	}
	rnd.Shuffle(len(s.set), func(a, b int) { s.set[a], s.set[b] = s.set[b], s.set[a] })
	return s
}

func (s *session) end(g *gui) (ended bool) {
	if g.err != nil {
		s.violation("the frontend crashes or hangs", "%v\n%s", g.err, g.log())
		return true
	}
	return false
}

// fill fills in the form
func (s *session) fill(g *gui) bool {
	for _, kv := range s.set {
		if res := g.do("set", kv[0], kv[1]); g.err == nil && !res.OK {
			s.violation("the form has no place for a setting", "%s\n%s", kv[0], g.log())
			return false
		}
	}
	st, ok := g.await(func(st result) bool {
		for _, kv := range s.set {
			if st.Form[kv[0]] != kv[1] {
				return false
			}
		}
		return true
	})
	if s.end(g) {
		return false
	}
	if !ok {
		s.violation("what is filled in is not kept", "%q\n%s", st.Form, g.log())
		return false
	}
	return true
}

// answer is what was answered
type answer struct {
	t    lib.Target
	a, b time.Time
	p    *lib.Page
}

func client() *http.Client {
	return &http.Client{Transport: &http.Transport{DisableKeepAlives: true}, Timeout: 60 * time.Second, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}
}

func get(c *http.Client, addr, target string) (*lib.Page, error) {
	res, err := c.Get("http://" + addr + target)
	if err != nil {
		return nil, err
	}
	defer res.Body.Close()
	b, err := io.ReadAll(res.Body)
	if err != nil {
		return nil, err
	}
	return &lib.Page{Target: target, Status: res.StatusCode, Header: res.Header, Body: string(b)}, nil
}

// hammer asks for everything until it is stopped
func hammer(addr string, ts []lib.Target, seed int64) (stop func() []*answer) {
	var as []*answer
	var m sync.Mutex
	var end int32
	var wg sync.WaitGroup
	for i := 0; i < 3; i++ {
		rnd := rand.New(rand.NewSource(seed + int64(i)))
		wg.Add(1)
		go func() {
			defer wg.Done()
			c := client()
			for atomic.LoadInt32(&end) == 0 {
				a := &answer{t: ts[rnd.Intn(len(ts))], a: time.Now()}
				p, err := get(c, addr, a.t.Target)
				a.b, a.p = time.Now(), p
				if err == nil {
					m.Lock()
					as = append(as, a)
					m.Unlock()
					time.Sleep(time.Duration(rnd.Intn(4000)) * time.Microsecond)
				}
			}
		}()
	}
	return func() []*answer { atomic.StoreInt32(&end, 1); wg.Wait(); return as }
}

func done(addr string) bool {
	p, err := get(client(), addr, "/api/v1/progress")
	var prog struct{ Done bool }
	return err == nil && json.Unmarshal([]byte(p.Body), &prog) == nil && prog.Done
}

func load(s *session) {
	r, rnd := s.r, s.rnd
	good, err := glass.Create(s.xml, s.nq, "", s.flags, nil)
	if err != nil {
		s.violation("loading fails", "%v", err)
		return
	}
	ref := lib.NewSite(good.Cache, &good.Pathbuilder, s.flags)
	targets := lib.Targets(s.w, s.ex, rnd, s.flags.Tipsy() != "")
	rnd.Shuffle(len(targets), func(a, b int) { targets[a], targets[b] = targets[b], targets[a] })
	if len(targets) > 120 {
		targets = targets[:120]
	}
	if rnd.Intn(3) == 0 { // the pathbuilder comes from elsewhere
		l, err := net.Listen("tcp", "127.0.0.1:0")
		must(err)
		xml, _ := os.ReadFile(s.xml)
		srv := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
			if req.URL.Path != "/pb.xml" {
				http.NotFound(w, req)
				return
			}
			w.Write(xml)
		})}
		go srv.Serve(l)
		defer srv.Close()
		for i := range s.set {
			if s.set[i][0] == "pathbuilder" {
				s.set[i][1] = "http://" + l.Addr().String() + "/pb.xml"
			}
		}
		r.Count("pathbuilders from elsewhere", 1)
	}
	addr := freeAddr()
	s.set = append(s.set, [2]string{"addr", addr})
	g := open(s.dir)
	defer g.quit()
	if !s.fill(g) {
		return
	}
	r.Count("sessions", 1)
	var stop func() []*answer
	if rnd.Intn(3) > 0 { // someone is waiting already
		stop = hammer(addr, targets, rnd.Int63())
	}
	if res := g.do("start", "valid"); g.err == nil && !res.OK {
		if stop != nil {
			stop()
		}
		s.violation("a valid form can not be submitted", "%s\n%s", res.What, g.log())
		return
	}
	finished := false
	for i := 0; i < 2000 && !finished && g.err == nil; i++ {
		if finished = done(addr); !finished {
			time.Sleep(10 * time.Millisecond)
			if i%50 == 49 {
				g.do("state")
			}
		}
	}
	end := time.Now()
	time.Sleep(30 * time.Millisecond)
	var as []*answer
	if stop != nil {
		as = stop()
	}
	if s.end(g) {
		return
	}
	if !finished {
		s.violation("the site is not there", "%s", g.log())
		return
	}
	// now everything, one after the other
	c := client()
	var perf *lib.Page
	for _, t := range append(targets, lib.Target{Target: "/api/v1/perf", Kind: "perfapi"}) {
		a := &answer{t: t, a: time.Now()}
		if a.p, err = get(c, addr, t.Target); err != nil {
			s.violation("a request gets no answer", "%s: %v\n%s", t.Target, err, g.log())
			return
		}
		a.b = time.Now()
		as = append(as, a)
		if t.Kind == "perfapi" {
			perf = a.p
		}
	}
	bad := 0
	for _, a := range as {
		what := ""
		if got := a.p.Header["Content-Security-Policy"]; len(got) != 1 || strings.TrimSpace(got[0]) != strings.TrimSpace(s.flags.CSPHeader()) {
			what = fmt.Sprintf("security policy %q, want %q", got, s.flags.CSPHeader())
		} else if a.a.After(end) {
			what = s.compare(a, ref.Get(a.t.Target))
			r.Count("answers compared", 1)
		} else {
			r.Count("answers while loading", 1)
		}
		if what != "" {
			if bad++; bad < 3 {
				s.violation("the site does not follow the settings: "+strings.SplitN(what, " ", 2)[0], "%s: %s\nstatus %d %v\n%s\n%s", a.t.Target, what, a.p.Status, a.p.Header, hx.Trunc(a.p.Body, 1500), g.log())
			}
		}
	}
	// what the window shows
	var figures struct{ Index map[string]uint64 }
	if err := json.Unmarshal([]byte(perf.Body), &figures); err != nil {
		s.violation("figures can not be read", "%s", perf.Body)
		return
	}
	st, ok := g.await(func(st result) bool { return shows(st, addr, figures.Index) == "" })
	if s.end(g) {
		return
	}
	if !ok {
		s.violation("the window shows something else than the site", "%s\n%q\n%s\n%s", shows(st, addr, figures.Index), st.Labels, perf.Body, g.log())
		return
	}
	r.Count("windows compared", 1)
	s.stop(g, addr)
	r.Eval(fmt.Sprint(lib.Key(s.w), s.set[:len(s.set)-1], stop != nil))
}

func shows(st result, addr string, index map[string]uint64) string {
	has := map[string]string{}
	for i := 0; i+1 < len(st.Labels); i++ {
		has[st.Labels[i]] = st.Labels[i+1]
	}
	if has["Server running at: "] != "http://"+addr {
		return "address " + has["Server running at: "]
	}
	for label, key := range map[string]string{"Direct Triples": "DirectTriples", "Datum Triples": "DatumTriples", "Masked Predicate Triples": "MaskedPredTriples", "Masked Data Triples": "MaskedDataTriples", "Inverse Triples": "InverseTriples", "Conflict Triples": "ConflictTriples"} {
		n, ok := index[key]
		if !ok {
			return "the site has no " + key
		}
		if has[label] != fmt.Sprint(n) {
			return fmt.Sprintf("%s %s, not %d", label, has[label], n)
		}
	}
	return ""
}

func sorted(s string) string {
	fs := strings.Fields(s)
	sort.Strings(fs)
	return strings.Join(fs, " ")
}

// compare returns what is wrong with an answer of the finished site
func (s *session) compare(a *answer, want *lib.Page) string {
	switch a.t.Kind {
	case "perf", "perfapi":
		if a.p.Status != 200 {
			return fmt.Sprintf("status %d", a.p.Status)
		}
		return ""
	}
	if a.p.Status != want.Status {
		return fmt.Sprintf("status %d, want %d", a.p.Status, want.Status)
	}
	for _, k := range []string{"Content-Type", "Location", "Retry-After", "Content-Disposition"} {
		if g, w := a.p.Header.Get(k), want.Header.Get(k); g != w {
			return fmt.Sprintf("%s: %q, want %q", k, g, w)
		}
	}
	if a.p.Body != want.Body && sorted(a.p.Body) != sorted(want.Body) {
		return "body differs: " + hx.DiffText(want.Body, a.p.Body)
	}
	return ""
}

// stop ends a session, after which the address is free and nothing is left
func (s *session) stop(g *gui, addr string) {
	how := []string{"close", "interrupt"}[s.rnd.Intn(2)]
	if res := g.do(how); g.err == nil && !res.OK {
		s.violation("the window can not be closed", "%s\n%s", res.What, g.log())
		return
	}
	res := g.do("ended")
	if s.end(g) {
		return
	}
	if !res.OK {
		s.violation("something is left after the window was closed", "%s: %s\n%s", how, res.What, g.log())
		return
	}
	if l, err := net.Listen("tcp", addr); err != nil {
		s.violation("the address is still in use after the window was closed", "%s: %v\n%s", how, err, g.log())
	} else {
		l.Close()
	}
	s.r.Count("sessions ended", 1)
}

// invalid fills in what is not valid
func invalid(s *session) {
	r, rnd := s.r, s.rnd
	addr := freeAddr()
	_, port, _ := net.SplitHostPort(addr)
	s.set = append(s.set, [2]string{"addr", addr})
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	srv := &http.Server{Handler: http.NotFoundHandler()}
	go srv.Serve(l)
	defer srv.Close()
	bad := [][2]string{
		{"nquads", ""}, {"nquads", s.dir}, {"nquads", filepath.Join(s.dir, "missing.nq")}, {"nquads", "/dev/null"}, {"nquads", s.nq + "\x00"}, {"nquads", "http://" + l.Addr().String() + "/data.nq"},
		{"pathbuilder", ""}, {"pathbuilder", s.dir}, {"pathbuilder", filepath.Join(s.dir, "missing.xml")}, {"pathbuilder", "http://" + l.Addr().String() + "/pb.xml"}, {"pathbuilder", "http://" + freeAddr() + "/pb.xml"},
		{"tipsy", "tipsy"}, {"tipsy", "javascript:alert(1)"}, {"tipsy", " https://tipsy.example"}, {"tipsy", "ftp://tipsy.example"}, {"tipsy", "//tipsy.example"},
		{"addr", ""}, {"addr", "127.0.0.1"}, {"addr", port}, {"addr", "127.0.0.1:"}, {"addr", "127.0.0.1:http"}, {"addr", "127.0.0.1:65536"}, {"addr", "127.0.0.1:-1"}, {"addr", "::1:" + port}, {"addr", "127.0.0.1:" + port + ":1"}, {"addr", "127.0.0.1:" + port + " "},
	}
	g := open(s.dir)
	defer g.quit()
	if rnd.Intn(2) == 0 { // not filled in at all
		if res := g.do("start", "invalid"); g.err == nil && res.OK {
			s.violation("an empty form can be submitted", "%s", g.log())
			return
		}
		r.Count("forms that were refused", 1)
	}
	if !s.fill(g) {
		return
	}
	r.Count("sessions", 1)
	for i := 0; i < 4; i++ {
		b := bad[rnd.Intn(len(bad))]
		g.do("set", b[0], b[1])
		g.await(func(st result) bool { return st.Form[b[0]] == b[1] })
		res := g.do("start", "invalid")
		time.Sleep(5 * time.Millisecond)
		st := g.do("state")
		if s.end(g) {
			return
		}
		if res.OK || st.Form["addr"] == "" && b[0] != "addr" {
			s.violation("a form that is not valid can be submitted", "%q\n%s", b, g.log())
			return
		}
		if c, err := net.Dial("tcp", addr); err == nil {
			c.Close()
			s.violation("a form that is not valid starts the server", "%q\n%s", b, g.log())
			return
		}
		r.Count("forms that were refused", 1)
		r.Eval(fmt.Sprintf("%q %d", b[0]+b[1][max(0, len(b[1])-10):], i))
		// and back
		if !s.fill(g) {
			return
		}
	}
	if rnd.Intn(2) == 0 {
		s.stop2(g, addr)
		return
	}
	if res := g.do("start", "valid"); g.err == nil && !res.OK {
		s.violation("a form can not be submitted although it was corrected", "%s\n%s", res.What, g.log())
		return
	}
	for i := 0; i < 1000 && !done(addr); i++ {
		time.Sleep(10 * time.Millisecond)
	}
	if s.end(g) {
		return
	}
	if !done(addr) {
		s.violation("the site is not there", "%s", g.log())
		return
	}
	s.stop(g, addr)
}

// stop2 leaves without having submitted anything
func (s *session) stop2(g *gui, addr string) {
	if res := g.do("interrupt"); g.err == nil && !res.OK {
		s.violation("the window can not be closed", "%s\n%s", res.What, g.log())
		return
	}
	res := g.do("ended")
	if s.end(g) {
		return
	}
	if !res.OK {
		s.violation("something is left after the window was closed", "%s\n%s", res.What, g.log())
		return
	}
	if c, err := net.Dial("tcp", addr); err == nil {
		c.Close()
		s.violation("the server is started although the form was not submitted", "%s", g.log())
	}
	s.r.Count("sessions ended without a submission", 1)
}

// fail loads what can not be loaded
func fail(s *session) {
	r, rnd := s.r, s.rnd
	addr := freeAddr()
	s.set = append(s.set, [2]string{"addr", addr})
	kind := []string{"xml", "quads", "addr"}[rnd.Intn(3)]
	switch kind {
	case "xml":
		must(os.WriteFile(s.xml, []byte("<pathbuilderinterface><path>"), 0o644))
	case "quads":
		b, _ := os.ReadFile(s.nq)
		must(os.WriteFile(s.nq, append(b, "\n<http://a.example/> <broken .\n"...), 0o644))
	case "addr":
		l, err := net.Listen("tcp", addr)
		must(err)
		defer l.Close()
	}
	g := open(s.dir)
	defer g.quit()
	if !s.fill(g) {
		return
	}
	r.Count("sessions", 1)
	targets := lib.Targets(s.w, s.ex, rnd, s.flags.Tipsy() != "")
	var stop func() []*answer
	if kind != "addr" {
		stop = hammer(addr, targets, rnd.Int63())
	}
	if res := g.do("start", "valid"); g.err == nil && !res.OK {
		if stop != nil {
			stop()
		}
		s.violation("a valid form can not be submitted", "%s\n%s", res.What, g.log())
		return
	}
	st, ok := g.await(func(st result) bool { return strings.Contains(st.Console, "level=ERROR") })
	time.Sleep(20 * time.Millisecond)
	var as []*answer
	if stop != nil {
		as = stop()
	}
	if s.end(g) {
		return
	}
	if !ok {
		s.violation("an error is not shown in the console", "%s\n%s\n%s", kind, st.Console, g.log())
		return
	}
	for _, a := range as {
		if a.t.Kind == "api" && a.p.Status != 503 || a.t.Kind == "page" && !strings.Contains(a.p.Body, "currently loading") {
			s.violation("data is shown although it could not be loaded", "%s: %d\n%s", a.t.Target, a.p.Status, a.p.Body)
			return
		}
		r.Count("answers while loading", 1)
	}
	if kind != "addr" {
		s.stop(g, addr)
	}
	r.Count("sessions that failed", 1)
	r.Eval(lib.Key(s.w) + kind)
}
