// Command c20 monitors concurrent requests to a loaded site.
package main

import (
	"fmt"
	"html/template"
	"io"
	"log"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/FAU-CDI/hangover/internal/glass"
	"github.com/FAU-CDI/hangover/internal/verifh/hx"
	"github.com/FAU-CDI/hangover/internal/verifh/lib"
	"github.com/FAU-CDI/hangover/internal/verifh/world"
	"github.com/FAU-CDI/hangover/internal/viewer"
)

func main() {
	hx.Main("C20", func(r *hx.R) {
		r.Rule("each evaluation is one round in which several clients ask a loaded site (made from files or an index, in the process or over the network, with clients that go away in between) for everything in random orders at the same time; every answer (status, headers, body) is compared with that of another site that was asked for this alone; distinct by dataset and order of requests")
		r.Assume("figures on the performance pages change, and are only checked to be well formed")
		r.CasesN("site", r.Pick(30, 600), 2, func(name string, rnd *rand.Rand) { site(r, name, rnd) })
		r.CasesN("net", r.Pick(12, 200), 2, func(name string, rnd *rand.Rand) { network(r, name, rnd) })
		r.Require("concurrent answers", 20000)
		r.Require("answers over the network", 5000)
		r.Require("clients that went away", 200)
		r.Require("requests at the same time", 4)
		r.Require("redirects", 300)
		r.Require("requests for what does not exist", 500)
		r.Require("first requests to a site", 100)
	})
}

type req struct{ method, target, kind string }

func (q req) String() string { return q.method + " " + q.target }

type set struct {
	r     *hx.R
	name  string
	rnd   *rand.Rand
	flags viewer.RenderFlags
	reqs  []req
	want  map[req]*lib.Page
	mk    func() *lib.Site // makes a site that was never asked for anything
	dump  string
	bad   int32
	busy  int32
}

func must(err error) {
	if err != nil {
		panic("harness: " + err.Error())
	}
}

func (s *set) violation(sig, format string, args ...any) {
	if atomic.AddInt32(&s.bad, 1) < 4 {
		s.r.Violation(s.name, sig, hx.Trunc(fmt.Sprintf(format, args...), 4000)+"\n"+s.dump)
	}
}

func prepare(r *hx.R, name string, rnd *rand.Rand, dir string) *set {
	o := world.Default()
	o.Alias, o.EqClass, o.Hostile, o.BigField = 0.5, 0.3, 0.4, 4
	o.BundleIDs = []string{"", "hash"}[rnd.Intn(2)]
	o.SafeIRI, o.BNodes, o.IRIData = rnd.Intn(2) == 0, rnd.Intn(2) == 0, rnd.Intn(2) == 0
	o.Entities = 3 + rnd.Intn(10)
	w, ex := world.Generate(rnd, o)
	// fields that are rendered
	for _, b := range w.All() {
		for _, f := range b.Fields {
			f.Type = []string{"string", "text_long", "image", "entity_reference", "link"}[rnd.Intn(5)]
		}
	}
	for i := range w.Quads {
		if q := &w.Quads[i]; q.O.Kind == world.Lit && q.O.DT == "" && rnd.Intn(4) == 0 {
			q.O.V = []string{"<p>some <a href='https://example.org/wisski/get?uri=x'>link</a> <img src=x></p>", "http://img.example/x.png", "https://example.org/wisski/navigate/1/view"}[rnd.Intn(3)]
		}
	}
	ex = w.Expect()
	if ex.Ambiguous {
		return nil
	}
	xml, nq := lib.Files(w, dir)
	s := &set{r: r, name: name, rnd: rnd, flags: lib.Flags(w, rnd), dump: lib.Dump(w), want: map[req]*lib.Page{}}
	if rnd.Intn(3) > 0 {
		s.flags.HTMLRender, s.flags.ImageRender, s.flags.PublicURL = true, true, "https://example.org/,http://public.example"
	}
	footer := template.HTML("<i>footer</i>")
	cache := ""
	if rnd.Intn(3) == 0 {
		cache = filepath.Join(dir, "cache")
	}
	g, err := glass.Create(xml, nq, cache, s.flags, nil)
	if err != nil {
		r.Violation(name, "loading fails: "+err.Error(), s.dump)
		return nil
	}
	index := filepath.Join(dir, "index")
	if err := glass.Export(index, g, nil); err != nil {
		r.Violation(name, "exporting fails: "+err.Error(), s.dump)
		return nil
	}
	load := func() (g glass.Glass) {
		g, err := glass.Import(index, nil)
		if err != nil {
			r.Violation(name, "importing fails: "+err.Error(), s.dump)
			r.Stop()
		}
		return g
	}
	mk := func(g glass.Glass) *lib.Site {
		v := viewer.NewViewer(io.Discard)
		v.RenderFlags = s.flags
		v.Footer = footer
		v.Prepare(g.Cache, &g.Pathbuilder)
		return &lib.Site{H: v, V: v}
	}
	// the site that is asked may be the one that was loaded first
	kind := rnd.Intn(3)
	s.mk = func() *lib.Site {
		if kind == 0 {
			return mk(g)
		}
		return mk(load())
	}
	for _, t := range lib.Targets(w, ex, rnd, s.flags.Tipsy() != "") {
		s.reqs = append(s.reqs, req{"GET", t.Target, t.Kind})
		if rnd.Intn(12) == 0 {
			s.reqs = append(s.reqs, req{[]string{"HEAD", "POST"}[rnd.Intn(2)], t.Target, t.Kind})
		}
	}
	rnd.Shuffle(len(s.reqs), func(a, b int) { s.reqs[a], s.reqs[b] = s.reqs[b], s.reqs[a] })
	if len(s.reqs) > 150 {
		s.reqs = s.reqs[:150]
	}
	// every request is answered by a site that was asked for nothing before
	alone := g
	if kind != 0 {
		alone = load()
	}
	for _, q := range s.reqs {
		p := mk(alone).Do(q.method, q.target)
		if p.Panic != "" {
			s.violation("a request crashes", "%v: %s", q, p.Panic)
			return nil
		}
		s.want[q] = p
	}
	return s
}

// values of headers that may differ
func headers(h http.Header) string {
	var ls []string
	for k, vs := range h {
		switch k {
		case "Date", "Content-Length", "Connection", "Transfer-Encoding", "Last-Modified":
			continue
		}
		for _, v := range vs {
			ls = append(ls, k+": "+strings.TrimSpace(v))
		}
	}
	sort.Strings(ls)
	return strings.Join(ls, "\n")
}

// check compares an answer with what is answered alone
func (s *set) check(q req, p *lib.Page, net bool) {
	want := s.want[q]
	if p.Panic != "" {
		s.violation("a request crashes", "%v: %s", q, p.Panic)
		return
	}
	if p.Status >= 300 && p.Status < 400 {
		s.r.Count("redirects", 1)
	}
	if p.Status == 404 {
		s.r.Count("requests for what does not exist", 1)
	}
	if p.Status != want.Status {
		s.violation("status of a concurrent request differs", "%v: %d, alone it is %d", q, p.Status, want.Status)
		return
	}
	if a, b := headers(want.Header), headers(p.Header); a != b && !(net && want.Header.Get("Content-Type") == "") {
		s.violation("headers of a concurrent request differ", "%v: %s", q, hx.DiffText(a, b))
		return
	}
	if q.kind == "perf" || q.kind == "perfapi" {
		if p.Body == "" && q.method != "HEAD" {
			s.violation("no performance figures", "%v", q)
		}
		return
	}
	if net && q.method == "HEAD" {
		return // the server leaves away the body
	}
	if p.Body != want.Body {
		s.violation("body of a concurrent request differs", "%v: %s", q, hx.DiffText(want.Body, p.Body))
	}
}

// clients runs n clients at the same time
func (s *set) clients(n int, f func(i int, rnd *rand.Rand)) {
	gate := make(chan struct{})
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		i, rnd := i, rand.New(rand.NewSource(s.rnd.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-gate
			f(i, rnd)
		}()
	}
	fin, dead, stacks := hx.Guard(func() {
		close(gate)
		wg.Wait()
	}, 180)
	if !fin {
		if dead {
			s.r.Violation(s.name, "requests wait for each other", stacks+"\n"+s.dump)
		} else {
			s.r.Inconclusive(s.name + ": took too long\n" + stacks)
		}
		s.r.Stop()
	}
}

func (s *set) enter() func() {
	s.r.Max("requests at the same time", int(atomic.AddInt32(&s.busy, 1)))
	return func() { atomic.AddInt32(&s.busy, -1) }
}

func site(r *hx.R, name string, rnd *rand.Rand) {
	dir := r.Dir()
	defer os.RemoveAll(dir)
	s := prepare(r, name, rnd, dir)
	if s == nil {
		return
	}
	x := s.mk()
	// everybody starts at the same time with a new site, and with the same request
	for round := 0; round < 4; round++ {
		if round > 0 && rnd.Intn(2) == 0 {
			x = s.mk()
		}
		same := s.reqs[rnd.Intn(len(s.reqs))]
		n := 4 + rnd.Intn(5)
		r.Count("first requests to a site", n)
		s.clients(n, func(i int, rnd *rand.Rand) {
			for k := 0; k < 90; k++ {
				q := s.reqs[rnd.Intn(len(s.reqs))]
				if k == 0 {
					q = same
				}
				leave := s.enter()
				p := x.Do(q.method, q.target)
				leave()
				s.check(q, p, false)
			}
			r.Count("concurrent answers", 90)
		})
		r.Eval(fmt.Sprintf("%s %d %d", name, round, rnd.Int63()))
	}
	// everything that was asked for did not change anything
	for _, q := range s.reqs {
		s.check(q, x.Do(q.method, q.target), false)
	}
}

func network(r *hx.R, name string, rnd *rand.Rand) {
	dir := r.Dir()
	defer os.RemoveAll(dir)
	s := prepare(r, name, rnd, dir)
	if s == nil {
		return
	}
	x := s.mk()
	srv := httptest.NewUnstartedServer(x.H)
	var logs logger
	srv.Config.ErrorLog = logs.logger()
	srv.Start()
	defer srv.Close()
	addr := srv.Listener.Addr().String()
	client := func() *http.Client {
		return &http.Client{Transport: &http.Transport{DisableCompression: true}, Timeout: 120 * time.Second, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}
	}
	for round := 0; round < 2; round++ {
		s.clients(8, func(i int, rnd *rand.Rand) {
			if i >= 5 {
				for k := 0; k < 25; k++ {
					s.away(addr, rnd)
				}
				return
			}
			c := client()
			defer c.CloseIdleConnections()
			for k := 0; k < 80; k++ {
				q := s.reqs[rnd.Intn(len(s.reqs))]
				leave := s.enter()
				p, err := get(c, addr, q)
				leave()
				if err != nil {
					s.violation("a request gets no complete answer", "%v: %s\n%s", q, err, logs.String())
					continue
				}
				s.check(q, p, true)
				r.Count("answers over the network", 1)
			}
		})
		r.Eval(fmt.Sprintf("%s %d %d", name, round, rnd.Int63()))
	}
	// the server still is there, and nothing has changed
	c := client()
	for _, q := range s.reqs {
		p, err := get(c, addr, q)
		if err != nil {
			s.violation("a request gets no complete answer", "%v: %s\n%s", q, err, logs.String())
			continue
		}
		s.check(q, p, true)
	}
	c.CloseIdleConnections()
}

// away sends a request and goes away without taking all of the answer
func (s *set) away(addr string, rnd *rand.Rand) {
	conn, err := net.Dial("tcp", addr)
	if err != nil {
		return
	}
	defer conn.Close()
	conn.SetDeadline(time.Now().Add(60 * time.Second))
	q := s.reqs[rnd.Intn(len(s.reqs))]
	text := fmt.Sprintf("%s %s HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n", q.method, q.target)
	part := rnd.Intn(4) == 0
	if part {
		text = text[:rnd.Intn(len(text))]
	}
	io.WriteString(conn, text)
	if n := []int{0, 1, 100, 5000}[rnd.Intn(4)]; n > 0 && !part {
		io.CopyN(io.Discard, conn, int64(1+rnd.Intn(n)))
	}
	if rnd.Intn(2) == 0 {
		conn.(*net.TCPConn).SetLinger(0)
	}
	s.r.Count("clients that went away", 1)
}

func get(c *http.Client, addr string, q req) (*lib.Page, error) {
	r, err := http.NewRequest(q.method, "http://"+addr+q.target, nil)
	if err != nil {
		return nil, err
	}
	res, err := c.Do(r)
	if err != nil {
		return nil, err
	}
	defer res.Body.Close()
	b, err := io.ReadAll(res.Body)
	if err != nil {
		return nil, err
	}
	return &lib.Page{Target: q.target, Status: res.StatusCode, Header: res.Header, Body: string(b)}, nil
}

// logger takes what the server logs
type logger struct {
	m  sync.Mutex
	sb strings.Builder
}

func (l *logger) Write(p []byte) (int, error) {
	l.m.Lock()
	defer l.m.Unlock()
	if l.sb.Len() < 4000 {
		l.sb.Write(p)
	}
	return len(p), nil
}

func (l *logger) String() string { l.m.Lock(); defer l.m.Unlock(); return l.sb.String() }

func (l *logger) logger() *log.Logger { return log.New(l, "", 0) }
