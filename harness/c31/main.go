// Command c31 monitors that requests change nothing, and that nothing but the address asked for decides the answer.
package main

import (
	"bytes"
	"fmt"
	"io"
	"log"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/FAU-CDI/hangover/internal/glass"
	"github.com/FAU-CDI/hangover/internal/verifh/hx"
	"github.com/FAU-CDI/hangover/internal/verifh/lib"
	"github.com/FAU-CDI/hangover/internal/verifh/world"
	"github.com/FAU-CDI/hangover/internal/viewer"
)

func main() {
	hx.Main("C31", func(r *hx.R) {
		r.Rule("each evaluation is a long history of requests of all kinds (methods, headers, bodies, addresses) to one site; every answer to a known address is compared with the answer to the plain request, before and after, and the loaded data is compared as a whole; distinct by dataset and history")
		r.Assume("figures on the performance pages change, and are not compared; methods other than GET and HEAD may be refused")
		r.Cases("history", r.Pick(60, 1200), func(name string, rnd *rand.Rand) { history(r, name, rnd) })
		r.CasesN("net", r.Pick(16, 200), 4, func(name string, rnd *rand.Rand) { network(r, name, rnd) })
		r.Require("answers compared", 20000)
		r.Require("other methods", 2000)
		r.Require("other headers", 5000)
		r.Require("other addresses", 2000)
		r.Require("parts of files", 50)
		r.Require("answers over the network", 1000)
	})
}

type session struct {
	r       *hx.R
	name    string
	rnd     *rand.Rand
	site    *lib.Site
	flags   viewer.RenderFlags
	targets []lib.Target
	plain   map[string]*lib.Page
	log     []string
	dump    string
	bad     int
	g       glass.Glass
	labels  []string
}

func (s *session) violation(sig, format string, args ...any) {
	if s.bad++; s.bad < 3 {
		log := s.log
		if len(log) > 30 {
			log = log[len(log)-30:]
		}
		s.r.Violation(s.name, sig, hx.Trunc(fmt.Sprintf(format, args...), 6000)+"\nlast requests:\n"+strings.Join(log, "\n")+"\n"+s.dump)
	}
}

func prepare(r *hx.R, name string, rnd *rand.Rand) *session {
	o := world.Default()
	o.Alias, o.EqClass, o.Hostile = 0.5, 0.3, 0.3
	o.BundleIDs = []string{"", "hash"}[rnd.Intn(2)]
	o.SafeIRI, o.BNodes, o.IRIData = rnd.Intn(2) == 0, rnd.Intn(2) == 0, rnd.Intn(2) == 0
	o.Entities = 2 + rnd.Intn(8)
	w, _ := world.Generate(rnd, o)
	for _, b := range w.All() {
		for _, f := range b.Fields {
			f.Type = []string{"string", "text_long", "image", "entity_reference", "link"}[rnd.Intn(5)]
		}
	}
	for i := range w.Quads {
		if q := &w.Quads[i]; q.O.Kind == world.Lit && q.O.DT == "" && rnd.Intn(3) == 0 {
			q.O.V = []string{"<p>some <a href='https://example.org/wisski/get?uri=x'>link</a> <img src=x></p>", "http://img.example/x.png", "https://example.org/wisski/navigate/1/view"}[rnd.Intn(3)]
		}
	}
	ex := w.Expect()
	if ex.Ambiguous {
		return nil
	}
	s := &session{r: r, name: name, rnd: rnd, flags: lib.Flags(w, rnd), dump: lib.Dump(w), plain: map[string]*lib.Page{}, labels: lib.WorldLabels(w)}
	if rnd.Intn(3) > 0 {
		s.flags.HTMLRender, s.flags.ImageRender, s.flags.PublicURL = true, true, "https://example.org/,http://public.example"
	}
	dir := r.Dir()
	defer os.RemoveAll(dir)
	xml, nq := lib.Files(w, dir)
	var err error
	if s.g, err = glass.Create(xml, nq, "", s.flags, nil); err != nil {
		r.Violation(name, "loading fails: "+err.Error(), s.dump)
		return nil
	}
	s.site = lib.NewSite(s.g.Cache, &s.g.Pathbuilder, s.flags)
	for _, t := range lib.Targets(w, ex, rnd, s.flags.Tipsy() != "") {
		if t.Kind != "perf" && t.Kind != "perfapi" && t.Kind != "progress" {
			s.targets = append(s.targets, t)
		}
	}
	rnd.Shuffle(len(s.targets), func(a, b int) { s.targets[a], s.targets[b] = s.targets[b], s.targets[a] })
	return s
}

func (s *session) text() string {
	return lib.GlassText(&s.g, s.labels)
}

// pass asks for everything, and compares with the first time
func (s *session) pass(what string) {
	for _, i := range s.rnd.Perm(len(s.targets)) {
		t := s.targets[i]
		p := s.site.Get(t.Target)
		s.log = append(s.log, "GET "+t.Target)
		if p.Panic != "" {
			s.violation("a request panics", "%s\n%s", t.Target, p.Panic)
			continue
		}
		want := s.plain[t.Target]
		if want == nil {
			s.plain[t.Target] = p
			continue
		}
		s.r.Count("answers compared", 1)
		if d := differ(want, p, true); d != "" {
			s.violation("an answer changes "+what, "%s: %s", t.Target, d)
		}
	}
}

// differ compares two answers
func differ(want, got *lib.Page, body bool) string {
	if got.Status != want.Status {
		return fmt.Sprintf("status %d, want %d", got.Status, want.Status)
	}
	keys := map[string]bool{}
	for k := range want.Header {
		keys[k] = true
	}
	for k := range got.Header {
		keys[k] = true
	}
	for k := range keys {
		switch k {
		case "Date", "Connection", "Content-Length", "Transfer-Encoding":
			continue
		}
		if g, w := strings.TrimSpace(strings.Join(got.Header[k], "|")), strings.TrimSpace(strings.Join(want.Header[k], "|")); g != w {
			return fmt.Sprintf("%s: %q, want %q", k, g, w)
		}
	}
	if body && got.Body != want.Body {
		return "body differs: " + hx.DiffText(want.Body, got.Body)
	}
	return ""
}

var methods = []string{"HEAD", "POST", "PUT", "DELETE", "PATCH", "OPTIONS", "TRACE", "CONNECT", "PROPFIND", "get", "LOCK"}

// header makes up headers that must not matter; ranged tells if it asks for a part
func (s *session) header(t lib.Target) (h http.Header, ranged bool) {
	h = http.Header{}
	pick := func(ss ...string) string { return ss[s.rnd.Intn(len(ss))] }
	for i := 1 + s.rnd.Intn(4); i > 0; i-- {
		switch s.rnd.Intn(11) {
		case 0:
			h.Set("X-Forwarded-Host", "evil.example")
			h.Set("X-Forwarded-Proto", "https")
		case 1:
			h.Set("X-HTTP-Method-Override", pick(methods...))
		case 2:
			h.Set("Accept", pick("application/json", "text/turtle", "image/*", "", "*/*;q=0"))
		case 3:
			h.Set("Accept-Language", pick("de", "fr;q=1", "*", "xx-invalid-"))
		case 4:
			h.Set("Accept-Encoding", pick("gzip", "identity;q=0", "br, deflate"))
		case 5:
			h.Set("Cookie", "bundle=x; uri=y; session="+strings.Repeat("a", s.rnd.Intn(4000)))
		case 6:
			h.Set("Authorization", "Basic YTpi")
		case 7:
			h.Set("Referer", "https://example.org/wisski/navigate/1/view")
			h.Set("Origin", "null")
			h.Set("User-Agent", pick("", "Googlebot", "curl/8", "<script>"))
		case 8:
			h.Set("Cache-Control", "no-cache")
			h.Set("Pragma", "no-cache")
			h.Set("If-None-Match", pick(`"x"`, `W/"y"`))
			h.Set("If-Modified-Since", "Thu, 01 Jan 1970 00:00:00 GMT")
		case 9:
			h.Set("X-Requested-With", "XMLHttpRequest")
			h.Set("Upgrade", "websocket")
			h.Set("Connection", "Upgrade")
		case 10:
			if t.Kind == "static" {
				h.Set("Range", pick("bytes=0-0", "bytes=5-20", "bytes=-10", "bytes=3-"))
			} else {
				h.Set("Range", "bytes=0-3")
			}
			ranged = true
		}
	}
	return
}

func (s *session) do(method, target, host string, h http.Header, body io.Reader) (p *lib.Page) {
	p = &lib.Page{Target: target}
	req := httptest.NewRequest(method, target, body)
	if host != "" {
		req.Host = host
	}
	for k, v := range h {
		req.Header[k] = v
	}
	rec := httptest.NewRecorder()
	func() {
		defer func() {
			if e := recover(); e != nil {
				p.Panic = fmt.Sprintf("%v\n%s", e, debug.Stack())
			}
		}()
		s.site.H.ServeHTTP(rec, req)
	}()
	res := rec.Result()
	p.Status, p.Header, p.Body = res.StatusCode, res.Header, rec.Body.String()
	s.log = append(s.log, fmt.Sprintf("%s %s host=%q %q -> %d", method, target, host, h, p.Status))
	return
}

// part checks an answer that holds a part of a file
func part(want, got *lib.Page) string {
	cr := got.Header.Get("Content-Range")
	var a, b, n int
	if _, err := fmt.Sscanf(cr, "bytes %d-%d/%d", &a, &b, &n); err != nil {
		return "range " + strconv.Quote(cr)
	}
	if n != len(want.Body) || a > b || b >= n || want.Body[a:b+1] != got.Body {
		return fmt.Sprintf("range %q is not that part of %d bytes", cr, len(want.Body))
	}
	return ""
}

// hostile makes a single request of some kind
func (s *session) hostile() {
	t := s.targets[s.rnd.Intn(len(s.targets))]
	want := s.plain[t.Target]
	host := []string{"", "", "evil.example", "localhost:1", "[::1]:80", "example.org"}[s.rnd.Intn(6)]
	h, ranged := http.Header{}, false
	if s.rnd.Intn(3) > 0 {
		h, ranged = s.header(t)
		s.r.Count("other headers", 1)
	}
	switch s.rnd.Intn(4) {
	case 0: // another method, with a body
		m := methods[s.rnd.Intn(len(methods))]
		var body io.Reader
		if s.rnd.Intn(2) == 0 {
			h.Set("Content-Type", []string{"application/x-www-form-urlencoded", "application/json", "multipart/form-data; boundary=x"}[s.rnd.Intn(3)])
			body = strings.NewReader("uri=http%3A%2F%2Fother.example%2F&bundle=x&limit=1&skip=1" + strings.Repeat("&a=b", s.rnd.Intn(100)))
		}
		p := s.do(m, t.Target, host, h, body)
		s.r.Count("other methods", 1)
		s.r.Count("answers compared", 1)
		switch {
		case p.Panic != "":
			s.violation("a request panics", "%s %s\n%s", m, t.Target, p.Panic)
		case p.Status == 405 || p.Status == 501 || p.Status == 400:
		case m == "HEAD":
			if p.Status == 206 && ranged {
				break
			}
			if d := differ(want, p, false); d != "" {
				s.violation("HEAD differs from GET", "%s: %s", t.Target, d)
			}
		case p.Status == 206 && ranged:
		case p.Status == 200 && (m == "OPTIONS" || m == "TRACE") && p.Body == "": // what is allowed
		case m == "CONNECT" && p.Status/100 == 3: // paths are not cleaned
		default:
			body := p.Status/100 != 3 // redirects only have a body for GET
			if d := differ(want, p, body); d != "" && !(p.Status/100 == 3 && p.Status == want.Status && p.Header.Get("Location") == want.Header.Get("Location")) {
				s.violation("an answer depends on the method", "%s %s: %s", m, t.Target, d)
			}
		}
	case 1: // an address that is not known
		target := t.Target
		for i := 1 + s.rnd.Intn(3); i > 0; i-- {
			switch s.rnd.Intn(8) {
			case 0:
				target += "&uri=http%3A%2F%2Fother.example%2F"
			case 1:
				target += "?limit=1&skip=1"
			case 2:
				target = "/." + target
			case 3:
				target = "/" + target
			case 4:
				target = strings.Replace(target, "?", "/?", 1)
			case 5:
				target = strings.Replace(target, "/bundle/", "/bundle/%2e%2e%2f", 1)
			case 6:
				target += "%00%ff"
			case 7:
				target = strings.ToUpper(target)
			}
		}
		p := s.do("GET", target, host, h, nil)
		s.r.Count("other addresses", 1)
		if p.Panic != "" {
			s.violation("a request panics", "%s\n%s", target, p.Panic)
		}
		if p.Status >= 500 && !strings.HasPrefix(t.Target, "/assets/") { // the standard library does not tell invalid names of files from errors
			s.violation("a request fails", "%s: %d\n%s", target, p.Status, p.Body)
		}
	default:
		p := s.do("GET", t.Target, host, h, nil)
		s.r.Count("answers compared", 1)
		switch {
		case p.Panic != "":
			s.violation("a request panics", "%s\n%s", t.Target, p.Panic)
		case p.Status == 206 && ranged:
			s.r.Count("parts of files", 1)
			if d := part(want, p); d != "" {
				s.violation("a part of a file is wrong", "%s %q: %s", t.Target, h, d)
			}
		case p.Status == 416 && ranged:
		default:
			if d := differ(want, p, true); d != "" {
				s.violation("an answer depends on what else was sent", "%s %q %q: %s", t.Target, host, h, d)
			}
		}
	}
}

func history(r *hx.R, name string, rnd *rand.Rand) {
	s := prepare(r, name, rnd)
	if s == nil {
		return
	}
	defer s.g.Cache.Close()
	before := s.text()
	s.pass("when asked again")
	for i := 0; i < 2; i++ {
		for j := 0; j < 300; j++ {
			s.hostile()
		}
		s.pass("after other requests")
	}
	if after := s.text(); after != before {
		s.violation("requests change the loaded data", "%s", hx.DiffText(before, after))
	}
	sort.Strings(s.log)
	r.Eval(fmt.Sprint(name, len(s.log), s.dump))
}

// network asks with a real server and raw connections
func network(r *hx.R, name string, rnd *rand.Rand) {
	s := prepare(r, name, rnd)
	if s == nil {
		return
	}
	defer s.g.Cache.Close()
	before := s.text()
	s.pass("when asked again")
	srv := httptest.NewUnstartedServer(s.site.H)
	srv.Config.ErrorLog = log.New(io.Discard, "", 0) // clients that break off end their requests with a panic
	srv.Start()
	defer srv.Close()
	addr := srv.Listener.Addr().String()
	c := &http.Client{Timeout: 60 * time.Second, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}
	for i := 0; i < 150; i++ {
		t := s.targets[rnd.Intn(len(s.targets))]
		if rnd.Intn(6) == 0 { // something that is not http at all, or breaks off
			conn, err := net.Dial("tcp", addr)
			if err != nil {
				continue
			}
			raw := []string{"\x16\x03\x01\x02\x00\x01\x00", "GET", "GET / HTTP/1.1\r\nHost: a\r\nHost: b\r\n\r\n", "GET /nowhere HTTP/9.9\r\n\r\n", "POST / HTTP/1.1\r\nHost: a\r\nContent-Length: 1000\r\n\r\nabc", "GET " + t.Target + " HTTP/1.1\r\nHost: a\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n"}[rnd.Intn(6)]
			conn.SetDeadline(time.Now().Add(2 * time.Second))
			io.WriteString(conn, raw)
			s.log = append(s.log, fmt.Sprintf("raw %q", raw))
			if rnd.Intn(2) == 0 {
				conn.(*net.TCPConn).CloseWrite()
				io.Copy(io.Discard, conn)
			}
			conn.Close()
			r.Count("broken connections", 1)
			continue
		}
		m := []string{"GET", "HEAD"}[rnd.Intn(2)]
		req, err := http.NewRequest(m, "http://"+addr+t.Target, nil)
		if err != nil {
			continue
		}
		req.Header.Set("Accept-Encoding", "identity")
		s.log = append(s.log, m+" "+t.Target)
		res, err := c.Do(req)
		if err != nil {
			s.violation("a request gets no answer", "%s %s: %v", m, t.Target, err)
			return
		}
		var b bytes.Buffer
		_, err = io.Copy(&b, res.Body)
		res.Body.Close()
		got := &lib.Page{Target: t.Target, Status: res.StatusCode, Header: res.Header, Body: b.String()}
		want := s.plain[t.Target]
		r.Count("answers over the network", 1)
		r.Count("answers compared", 1)
		if err != nil {
			s.violation("an answer breaks off", "%s %s: %v", m, t.Target, err)
			return
		}
		if d := differ(want, got, m == "GET"); d != "" && !(want.Header.Get("Content-Type") == "") {
			s.violation("an answer differs over the network", "%s %s: %s", m, t.Target, d)
		}
		if n := res.ContentLength; m == "HEAD" && n >= 0 && int(n) != len(want.Body) && len(want.Body) > 0 && res.StatusCode == 200 {
			s.violation("HEAD announces another length", "%s: %d, not %d", t.Target, n, len(want.Body))
		}
	}
	s.pass("after other requests")
	if after := s.text(); after != before {
		s.violation("requests change the loaded data", "%s", hx.DiffText(before, after))
	}
	r.Eval(fmt.Sprint(name, s.dump))
}
