// Command c17 monitors that data never becomes active content.
package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/FAU-CDI/hangover/internal/glass"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/verifh/hx"
	"github.com/FAU-CDI/hangover/internal/verifh/lib"
	"github.com/FAU-CDI/hangover/internal/verifh/world"
	"github.com/FAU-CDI/hangover/internal/viewer"
	"github.com/FAU-CDI/hangover/internal/wisski"
	"golang.org/x/net/html"
)

func main() {
	hx.Main("C17", func(r *hx.R) {
		r.Rule("each evaluation is one page of a site with hostile data that is compared with the page of the same site with harmless data of the same shape (same elements, attributes, comments and links, only inert values differ), or one response whose content security policy is evaluated as a browser would do; distinct by site and request, or by settings")
		r.Assume("the settings (public urls, footer, tipsy url) are trusted, and public urls name hosts; values of fields of type text_long are covered only without HTML rendering (C18 covers the other case)")
		r.Cases("policy", r.Pick(60, 600), func(name string, rnd *rand.Rand) { policy(r, name, rnd) })
		r.Cases("world", r.Pick(110, 2500), func(name string, rnd *rand.Rand) { pair(r, name, rnd) })
		r.Require("policies", 5000)
		r.Require("strict policies", 1000)
		r.Require("pages compared", 800)
		r.Require("hostile strings on pages", 2000)
		r.Require("hostile references", 1000)
		r.Require("embedded data compared", 500)
	})
}

// ---- content security policy ----

// Policy are the directives
type Policy map[string][]string

func parse(header string) Policy {
	p := Policy{}
	for _, d := range strings.Split(header, ";") {
		fs := strings.Fields(d)
		if len(fs) == 0 {
			continue
		}
		name := strings.ToLower(fs[0])
		if _, ok := p[name]; !ok { // only the first counts
			p[name] = fs[1:]
		}
	}
	return p
}

// sources returns what is in effect, ok is false if there is no restriction
func (p Policy) sources(names ...string) (ss []string, ok bool) {
	for _, n := range append(names, "default-src") {
		if ss, ok = p[n]; ok {
			return
		}
	}
	return nil, false
}

var kinds = map[string][]string{
	"script element": {"script-src-elem", "script-src"},
	"script handler": {"script-src-attr", "script-src"},
	"worker":         {"worker-src", "child-src", "script-src"},
	"object":         {"object-src"},
	"style element":  {"style-src-elem", "style-src"},
	"style attr":     {"style-src-attr", "style-src"},
	"img":            {"img-src"},
	"media":          {"media-src"},
	"frame":          {"frame-src", "child-src"},
}

// judge returns what a policy allows, but the settings do not ask for
func judge(header string, f viewer.RenderFlags, public map[string]bool, tipsy string) (bad []string) {
	p := parse(header)
	for kind, names := range kinds {
		ss, ok := p.sources(names...)
		if !ok {
			bad = append(bad, kind+" is not restricted")
			continue
		}
		for _, s := range ss {
			l := strings.ToLower(s)
			fine := l == "'self'" || l == "'none'"
			switch {
			case fine:
			case strings.HasPrefix(kind, "style"):
				fine = l == "'unsafe-inline'" && f.HTMLRender
			case kind == "img" && (f.ImageRender || f.HTMLRender), kind == "media" && f.HTMLRender:
				if l == "*" {
					fine = !f.StrictCSP
					break
				}
				u, err := url.Parse(l)
				fine = err == nil && (u.Scheme == "http" || u.Scheme == "https") && (public[strings.ToLower(u.Host)] || !f.StrictCSP)
				// things that are no source at all are ignored by browsers
				fine = fine || err == nil && u.Host == "" && u.Scheme == "" && l != "*" && !strings.HasPrefix(l, "'")
			case kind == "frame":
				fine = tipsy != "" && s == tipsy
			}
			if !fine {
				bad = append(bad, fmt.Sprintf("%s from %q", kind, s))
			}
		}
	}
	sort.Strings(bad)
	return
}

func policy(r *hx.R, name string, rnd *rand.Rand) {
	b := &world.Bundle{ID: "b0", BundleID: "b0", Name: "Bundle", Path: []string{"http://onto.example/C"}}
	pb, err := lib.PBOf(b)
	if err != nil {
		panic(err)
	}
	cache, err := lib.NewCache(map[string][]wisski.Entity{}, nil)
	if err != nil {
		panic(err)
	}
	hosts := []string{"example.org", "a.example:8080", "täst.example", "sub.example.org", "192.0.2.1", "[::1]:80"}
	public := map[string]bool{}
	var parts []string
	for i := rnd.Intn(4); i > 0; i-- {
		h := hosts[rnd.Intn(len(hosts))]
		u, _ := url.Parse("http://" + h)
		public[strings.ToLower(u.Host)] = true
		v, _ := url.Parse(u.String()) // as it is written
		public[strings.ToLower(v.Host)] = true
		parts = append(parts, []string{"http://", "https://", " https://", "HTTPS://"}[rnd.Intn(4)]+h+[]string{"", "/", "/sub/", "/?x=y", " ", "\t"}[rnd.Intn(6)])
	}
	for i := rnd.Intn(3); i > 0; i-- { // things that name nothing
		at := rnd.Intn(len(parts) + 1)
		parts = append(parts[:at], append([]string{[]string{"", " ", "\t", "  ", "://x", "%zz", "\x00", "http://[::1"}[rnd.Intn(8)]}, parts[at:]...)...)
	}
	sep := []string{",", "\n", ", ", ",\n"}[rnd.Intn(4)]
	list := strings.Join(parts, sep) + []string{"", sep, sep + sep, " " + sep + " "}[rnd.Intn(4)]
	tipsyURL := []string{"", "https://tipsy.example/", "http://tipsy.example/x", "tipsy.example", "javascript:alert(1)", "ftp://tipsy.example/", "//tipsy.example", "*", "data:"}[rnd.Intn(9)]
	tipsy := ""
	if strings.HasPrefix(tipsyURL, "http://") || strings.HasPrefix(tipsyURL, "https://") {
		tipsy = tipsyURL
	}
	for i := 0; i < 8; i++ {
		f := viewer.RenderFlags{PublicURL: list, TipsyURL: tipsyURL, HTMLRender: i&1 != 0, ImageRender: i&2 != 0, StrictCSP: i&4 != 0}
		site := lib.NewSite(cache, pb, f)
		loading := viewer.NewViewer(discard{})
		loading.RenderFlags = f
		for _, s := range []*lib.Site{site, {H: loading, V: loading}} {
			for _, q := range [][2]string{{"GET", "/"}, {"GET", "/about"}, {"GET", "/perf"}, {"GET", "/nothing"}, {"GET", "/bundle/b0"}, {"GET", "/entity/b0?uri=x"}, {"GET", "/a/../b"}, {"GET", "/assets/nothing"}, {"GET", "/wisski/get?uri=x"}, {"GET", "/api/v1"}, {"GET", "/api/v1/progress"}, {"GET", "/favicon.ico"}, {"POST", "/"}, {"HEAD", "/"}, {"OPTIONS", "/"}, {"GET", "/tipsy"}, {"GET", "/pathbuilder"}} {
				p := s.Do(q[0], q[1])
				r.Eval(fmt.Sprintf("%d %q %q %v", i, list, tipsyURL, q))
				r.Count("policies", 1)
				if f.StrictCSP && (f.HTMLRender || f.ImageRender) {
					r.Count("strict policies", 1)
				}
				if bad := p.Bad(); bad != "" && !(p.Status == 503 && len(p.Header["Content-Security-Policy"]) == 1) {
					r.Violation(name, "no policy", fmt.Sprintf("%v %+v: %s", q, f, bad))
					continue
				}
				if bad := judge(p.Header.Get("Content-Security-Policy"), f, public, tipsy); len(bad) > 0 {
					r.Violation(name, "policy allows too much", fmt.Sprintf("%v %+v\n%q\n%s", q, f, p.Header["Content-Security-Policy"], strings.Join(bad, "\n")))
					return
				}
			}
		}
	}
}

type discard struct{}

func (discard) Write(b []byte) (int, error) { return len(b), nil }

// ---- hostile and harmless sites ----

var hostile = []string{
	`"><img src=x onerror=alert(1)>`, `'><svg/onload=alert(1)>`, `</script><script>alert(1)</script>`, `<script>alert(1)</script>`, `</code></td></tr></table><h1>x</h1>`,
	`<!--`, `-->`, `<!--><script>alert(1)</script>-->`, `]]>`, `{{ . }}`, `{{ define "main" }}x{{ end }}`, `javascript:alert(1)`, ` javascript:alert(1)`, "java\tscript:alert(1)", "java\nscript:alert(1)", `JaVaScRiPt:alert(1)`, "\x01javascript:alert(1)", "\ufeffjavascript:alert(1)",
	`data:text/html,<script>alert(1)</script>`, `data:text/html;base64,PHNjcmlwdD4=`, `vbscript:msgbox(1)`, `feed:javascript:alert(1)`, `view-source:x`, `blob:x`, `file:///etc/passwd`,
	"\u2028", "\u2029", `</title>`, `</textarea>`, `<base href=//evil.example>`, `<plaintext>`, `<noscript>`, `<style>*{display:none}</style>`, `<link rel=stylesheet href=//evil.example>`, `<meta http-equiv=refresh content=0;url=//evil.example>`, `<iframe src=//evil.example>`, `<form action=//evil.example>`, `<template>`, `<math><mi//xlink:href="javascript:alert(1)">`,
	`\`, `\"`, `\u003cscript\u003e`, `&lt;script&gt;`, `&#106;avascript:alert(1)`, `javascript&colon;alert(1)`, `x" onmouseover="alert(1)`, `x' onmouseover='alert(1)`, "x` onmouseover=`alert(1)", `x onmouseover=alert(1)`, `//evil.example/`, `/\evil.example`, `http://x.example/" onclick="alert(1)`, `http://x.example/'-alert(1)-'`, `?a=b&uri=c`, `#x`, `../..`, "a\x00b", "\x7f", "<", ">", "&", `"`, `'`, "`", "=", `<a href="javascript:alert(1)">x</a>`, `+ADw-script+AD4-`, `%3Cscript%3E`, `%0d%0aX: y`, "\r\nX: y",
	`{"a": "b"}`, `[`, `]`, `"]]}</script>`, `<![CDATA[`, `<?xml?>`, `${alert(1)}`, strings.Repeat("<b>", 600),
}

// legal in iris as they are, or with an escape
var hostileIRI = []string{
	`javascript:alert(%d)`, `JAVASCRIPT:alert(%d)//`, `data:text/html,%%3Cscript%%3Ealert(%d)`, `vbscript:x%d`, `http://x.example/'onclick='alert(%d)`, `http://x.example/&quot;%d`, `http://x.example/&lt;script&gt;%d`, `//evil.example/%d`, `x%d`, `?uri=x&y=%d`, `#%d`, `/entity/x%d`,
	`http://x.example/"><script>alert(%d)</script>`, `"><img src=x onerror=alert(%d)>`, ` javascript:alert(%d)`, "java\tscript:alert(%d)", `</script><script>alert(%d)</script>`, `http://x.example/</title>%d`, `http://x.example/<!--%d`, `http://x.example/{{.}}%d`, "http://x.example/\u2028%d", `urn:x:'%d'`, `mailto:x%d"y`,
}

var hostileID = []string{`"><b>%d`, `'onclick='alert(%d)`, `javascript:alert(%d)`, `x%d&y=z`, `<!--%d`, `</script>%d`, `%d"`, `x %d`, `{{.}}%d`, `..%d`, `;%d`, `+%d`, "\u2028%d", `\%d`}

// dress makes everything in a world hostile
func dress(w *world.World, rnd *rand.Rand, f viewer.RenderFlags) {
	str := func() string { return hostile[rnd.Intn(len(hostile))] }
	xml := func() string { // what can be in an xml file
		for {
			s := str()
			if !strings.ContainsAny(s, "\x00\x01\r\n\t\x7f") {
				return s
			}
		}
	}
	n := 0
	ids := rnd.Intn(2) == 0
	id := func(s string) string {
		n++
		if !ids || s == "" || rnd.Intn(2) == 0 {
			return s
		}
		return fmt.Sprintf(hostileID[rnd.Intn(len(hostileID))], n)
	}
	for _, b := range w.All() {
		b.Name = xml()
		if b.BundleID == b.ID {
			b.ID = id(b.ID)
			b.BundleID = b.ID
		} else {
			b.ID = id(b.ID)
		}
		for _, x := range b.Fields {
			x.Name = xml()
			if rnd.Intn(3) == 0 {
				x.Name = str()
			}
			x.Name = strings.Map(func(r rune) rune {
				if r < 0x20 && r != '\t' && r != '\n' && r != '\r' {
					return '?'
				}
				return r
			}, x.Name)
			x.ID, x.UUID, x.FieldID = id(x.ID), id(x.UUID), id(x.FieldID)
			switch x.Type = []string{"string", "text_long", "entity_reference", "link", "image", ""}[rnd.Intn(6)]; {
			case x.Type == "":
				x.Type = xml()
			case x.Type == "text_long" && f.HTMLRender:
				x.Type = "text"
			}
		}
	}
	for i := range w.Quads {
		if o := &w.Quads[i].O; o.Kind == world.Lit && o.DT == "" && rnd.Intn(3) > 0 {
			o.V = str()
		}
	}
	// names
	keep := map[string]bool{world.RDFType: true}
	for _, p := range append(append([]string{}, w.SameAsPreds...), w.InversePreds...) {
		keep[p] = true
	}
	m := map[string]string{}
	w2 := func(s string) string {
		if keep[s] {
			return s
		}
		if _, ok := m[s]; !ok {
			m[s] = s
			if rnd.Intn(3) == 0 {
				n++
				m[s] = fmt.Sprintf(hostileIRI[rnd.Intn(len(hostileIRI))], n)
			}
		}
		return m[s]
	}
	apply(w, nil, nil, w2)
}

// apply changes all strings of a world
func apply(w *world.World, text, id, iri func(string) string) {
	same := func(s string) string { return s }
	if text == nil {
		text = same
	}
	if id == nil {
		id = same
	}
	var rec func(b *world.Bundle)
	rec = func(b *world.Bundle) {
		b.Name, b.ID, b.BundleID = text(b.Name), id(b.ID), id(b.BundleID)
		for i := range b.Path {
			b.Path[i] = iri(b.Path[i])
		}
		for _, f := range b.Fields {
			f.Name, f.ID, f.UUID, f.FieldID = text(f.Name), id(f.ID), id(f.UUID), id(f.FieldID)
			switch f.Type {
			case "string", "text_long", "entity_reference", "link", "image", "", "text":
			default:
				f.Type = text(f.Type)
			}
			for i := range f.Path {
				f.Path[i] = iri(f.Path[i])
			}
			if f.DT() != "" {
				f.Datatype = iri(f.Datatype)
			}
		}
		for _, c := range b.Children {
			rec(c)
		}
	}
	for _, b := range w.Bundles {
		rec(b)
	}
	for i := range w.Quads {
		q := &w.Quads[i]
		for _, t := range []*world.Term{&q.S, &q.P, &q.O} {
			switch t.Kind {
			case world.IRI:
				t.V = iri(t.V)
			case world.Lit:
				t.V = text(t.V)
			}
		}
	}
}

func copyWorld(w *world.World) *world.World {
	c := *w
	c.Quads = append([]world.Quad(nil), w.Quads...)
	var rec func(b, parent *world.Bundle) *world.Bundle
	rec = func(b, parent *world.Bundle) *world.Bundle {
		n := *b
		n.Parent = parent
		n.Path = append([]string(nil), b.Path...)
		n.Fields, n.Children = nil, nil
		for _, f := range b.Fields {
			g := *f
			g.Path = append([]string(nil), f.Path...)
			n.Fields = append(n.Fields, &g)
		}
		for _, k := range b.Children {
			n.Children = append(n.Children, rec(k, &n))
		}
		return &n
	}
	c.Bundles = nil
	for _, b := range w.Bundles {
		c.Bundles = append(c.Bundles, rec(b, nil))
	}
	return &c
}

// harmless replaces strings by others, in the same order
type harmless struct {
	m      map[string]string
	format string
	keep   map[string]bool
}

func (h *harmless) collect(s string) string {
	h.m[s] = ""
	return s
}

func (h *harmless) finish() {
	var ks []string
	for k := range h.m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for i, k := range ks {
		h.m[k] = fmt.Sprintf(h.format, i)
		if h.keep[k] {
			h.m[k] = k
		}
	}
}

func (h *harmless) get(s string) string { return h.m[s] }

func neutral(w *world.World) (*world.World, map[string]string) {
	c := copyWorld(w)
	keep := map[string]bool{world.RDFType: true}
	for _, p := range append(append([]string{}, w.SameAsPreds...), w.InversePreds...) {
		keep[p] = true
	}
	text := &harmless{map[string]string{}, "value%05d", map[string]bool{"": true}}
	id := &harmless{map[string]string{}, "id%05d", map[string]bool{"": true}}
	iri := &harmless{map[string]string{}, "http://harmless.example/%05d", keep}
	apply(c, text.collect, id.collect, iri.collect)
	text.finish()
	id.finish()
	iri.finish()
	apply(c, text.get, id.get, iri.get)
	return c, iri.m
}

type site struct {
	s     *lib.Site
	w     *world.World
	g     glass.Glass
	close func()
}

func load(r *hx.R, name string, w *world.World, flags viewer.RenderFlags, widget string) (*site, error) {
	dir := r.Dir()
	defer os.RemoveAll(dir)
	xmlFile, nqFile := lib.Files(w, dir)
	// also other texts
	xml := strings.NewReplacer(">widget<", ">"+widget+"<", ">fmt<", ">"+widget+"<", "<description></description>", "<description>"+widget+"</description>", "<short_name></short_name>", "<short_name>"+widget+"</short_name>").Replace(string(w.XML()))
	xmlFile = filepath.Join(dir, "other.xml")
	if err := os.WriteFile(xmlFile, []byte(xml), 0o644); err != nil {
		return nil, err
	}
	flags.Predicates = lib.Predicates(w)
	g, err := glass.Create(xmlFile, nqFile, "", flags, nil)
	if err != nil {
		return nil, err
	}
	return &site{s: lib.NewSite(g.Cache, &g.Pathbuilder, flags), w: w, g: g}, nil
}

func pair(r *hx.R, name string, rnd *rand.Rand) {
	o := world.Default()
	o.BundleIDs = []string{"", "hash"}[rnd.Intn(2)]
	o.Alias, o.Inv, o.BNodes, o.IRIData = 0.4, 0.3, rnd.Intn(2) == 0, true
	o.Hostile = 0.5
	w, _ := world.Generate(rnd, o)
	flags := lib.Flags(w, rnd)
	if rnd.Intn(2) == 0 {
		flags.PublicURL = "http://public.example/"
	}
	dress(w, rnd, flags)
	n, iris := neutral(w)
	widget := hostile[rnd.Intn(2)]
	a, err := load(r, name, w, flags, strings.NewReplacer("<", "&lt;", ">", "&gt;", `"`, "&quot;", "'", "&#39;").Replace(widget))
	if err != nil {
		r.Violation(name, "loading fails: "+err.Error(), lib.Dump(w))
		return
	}
	b, err := load(r, name, n, flags, "harmless")
	if err != nil {
		r.Violation(name, "loading fails: "+err.Error(), lib.Dump(n))
		return
	}
	cmp := &comparer{r: r, name: name, w: w}
	for _, t := range []string{"/", "/pathbuilder", "/about", "/tipsy", "/perf"} {
		cmp.pages(a.s.Get(t), b.s.Get(t))
	}
	for i := range w.Bundles {
		x, y := w.Bundles[i].ID, n.Bundles[i].ID
		if strings.ContainsAny(x, "/?#%") {
			continue
		}
		get := func(s *site, format string, args ...any) *lib.Page {
			return s.s.Get(fmt.Sprintf(format, args...))
		}
		cmp.pages(get(a, "/bundle/%s", url.PathEscape(x)), get(b, "/bundle/%s", url.PathEscape(y)))
		es := a.g.Cache.Entities(x)
		other := map[string]string{}
		for _, e := range es {
			u := string(e.URI)
			v, ok := iris[u]
			if !ok {
				v = u
			}
			other[u] = v
			if len(es) != len(b.g.Cache.Entities(y)) {
				r.Count("other number of entities", 1)
				return
			}
			if _, ok := b.g.Cache.Entity(impl.Label(v), y); !ok {
				r.Count("entity is not the same", 1)
				continue
			}
			cmp.pages(get(a, "/entity/%s?uri=%s", url.PathEscape(x), url.QueryEscape(u)), get(b, "/entity/%s?uri=%s", url.PathEscape(y), url.QueryEscape(v)))
			cmp.data(get(a, "/api/v1/entity/%s?uri=%s", url.PathEscape(x), url.QueryEscape(u)))
			cmp.data(get(a, "/api/v1/turtle/%s?uri=%s", url.PathEscape(x), url.QueryEscape(u)))
			cmp.data(get(a, "/api/v1/ntriples/%s?uri=%s", url.PathEscape(x), url.QueryEscape(u)))
			// redirects
			p, q := get(a, "/wisski/get?uri=%s", url.QueryEscape(u)), get(b, "/wisski/get?uri=%s", url.QueryEscape(v))
			if p.Status == q.Status {
				cmp.pages(p, q)
				if l := p.Header.Get("Location"); !strings.HasPrefix(l, "/entity/") {
					cmp.bad("redirect leaves", "%s: %q", p.Target, l)
				}
			}
		}
		cmp.data(get(a, "/api/v1/bundle/%s", url.PathEscape(x)))
	}
	cmp.data(a.s.Get("/api/v1"))
	// what does not exist is not repeated actively
	for i := 0; i < 10; i++ {
		h := hostile[rnd.Intn(len(hostile))]
		for _, t := range []string{"/bundle/" + url.PathEscape(h), "/entity/" + url.PathEscape(h) + "?uri=" + url.QueryEscape(h), "/" + url.PathEscape(h), "/wisski/get?uri=" + url.QueryEscape(h), "/wisski/navigate/" + url.PathEscape(h) + "/view"} {
			p := a.s.Get(t)
			if p.Bad() != "" || p.Status < 300 {
				continue
			}
			r.Eval(t)
			if p.Type() == "text/html" {
				cmp.inert(p, p.DOM())
				for _, e := range lib.All(p.DOM(), "*") {
					if !strings.Contains(" html head body a ", " "+e.Data+" ") {
						cmp.bad("element in an error", "%s: <%s> %s", t, e.Data, p.Body)
					}
				}
			}
		}
	}
}

type comparer struct {
	r    *hx.R
	name string
	w    *world.World
}

func (c *comparer) bad(sig, format string, args ...any) {
	c.r.Violation(c.name, sig, hx.Trunc(fmt.Sprintf(format, args...), 5000)+"\n"+lib.Dump(c.w))
}

// data checks that something is not a page
func (c *comparer) data(p *lib.Page) {
	c.r.Eval(c.name + p.Target)
	if t := p.Type(); t == "" || t == "text/html" || t == "image/svg+xml" || t == "application/xhtml+xml" || strings.Contains(t, "xml") || strings.Contains(t, "javascript") {
		c.bad("data is served as a page", "%s: %d %q", p.Target, p.Status, p.Header.Get("Content-Type"))
	}
}

// pages compares a hostile page with a harmless page
func (c *comparer) pages(p, q *lib.Page) {
	c.r.Eval(c.name + p.Target)
	c.r.Count("pages compared", 1)
	if p.Status != q.Status || p.Type() != q.Type() || p.Bad() != "" || q.Bad() != "" {
		c.bad("other answer", "%s: %d %q %s\n%s: %d %q %s", p.Target, p.Status, p.Type(), p.Bad(), q.Target, q.Status, q.Type(), q.Bad())
		return
	}
	if p.Type() != "text/html" {
		return
	}
	c.inert(p, p.DOM())
	// as they are written
	x, y := tokens(p.Body), tokens(q.Body)
	if strings.Join(x, "\n") != strings.Join(y, "\n") {
		c.bad("data changes the page", "%s\n%s: %s", p.Target, q.Target, hx.DiffText(strings.Join(y, "\n"), strings.Join(x, "\n")))
		return
	}
	c.nodes(p, p.DOM(), q.DOM())
}

func tokens(body string) (ts []string) {
	z := html.NewTokenizer(strings.NewReader(body))
	for {
		switch z.Next() {
		case html.ErrorToken:
			return
		case html.TextToken, html.CommentToken:
			continue
		case html.DoctypeToken:
			ts = append(ts, "doctype")
			continue
		}
		t := z.Token()
		s := t.Type.String() + " " + t.Data
		for _, a := range t.Attr {
			s += " " + a.Key
		}
		ts = append(ts, s)
	}
}

func kids(n *html.Node) (ks []*html.Node) {
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		if c.Type != html.TextNode {
			ks = append(ks, c)
		}
	}
	return
}

// nodes compares nodes
func (c *comparer) nodes(p *lib.Page, a, b *html.Node) bool {
	where := func() string {
		s := ""
		for n := a; n != nil; n = n.Parent {
			s = n.Data + "/" + s
		}
		return p.Target + " " + s
	}
	if a.Type != b.Type || a.Namespace != b.Namespace || (a.Type != html.TextNode && a.Data != b.Data) || len(a.Attr) != len(b.Attr) {
		c.bad("data changes the page", "%s: %q %q", where(), a.Data, b.Data)
		return false
	}
	for i, x := range a.Attr {
		y := b.Attr[i]
		if x.Key != y.Key || x.Namespace != y.Namespace {
			c.bad("data changes the attributes of an element", "%s: %q %q", where(), x, y)
			return false
		}
		if x.Val == y.Val {
			continue
		}
		c.r.Count("hostile strings on pages", 1)
		switch x.Key {
		case "href", "src":
			c.r.Count("hostile references", 1)
			u, e1 := url.Parse(x.Val)
			v, e2 := url.Parse(y.Val)
			if e2 == nil && strings.HasPrefix(y.Val, "/") && (v.Path == "/wisski/get" || v.Path == "/bundle" || len(v.Query()) > 0) {
				// a link of the viewer, with data in it
				if e1 != nil || u.Host != "" || u.Scheme != "" || strings.Count(u.Path, "/") != strings.Count(v.Path, "/") || fmt.Sprint(keys(u.RawQuery)) != fmt.Sprint(keys(v.RawQuery)) || (u.Fragment != "") != (v.Fragment != "") || strings.Split(u.Path+"/", "/")[1] != strings.Split(v.Path+"/", "/")[1] {
					c.bad("data changes a link", "%s: %q %q", where(), x.Val, y.Val)
				}
			}
		case "lang", "data-data", "data-placeholder":
		case "class":
			c.bad("data changes an attribute", "%s: %q %q", where(), x.Val, y.Val)
		default:
			c.bad("data changes an attribute", "%s: %s=%q %q", where(), x.Key, x.Val, y.Val)
		}
	}
	if a.Type == html.ElementNode && (a.Data == "script" || a.Data == "style") {
		x, y := lib.NodeText(a), lib.NodeText(b)
		if x == y {
			return true
		}
		if a.Data == "style" || lib.Attr(a, "type") != "application/json" {
			c.bad("data inside a script or style", "%s: %q", where(), x)
			return false
		}
		c.r.Count("embedded data compared", 1)
		var u, v any
		if json.Unmarshal([]byte(x), &u) != nil || json.Unmarshal([]byte(y), &v) != nil || shape(u) != shape(v) {
			c.bad("data changes embedded data", "%s: %s\n%s", where(), x, y)
			return false
		}
		return true
	}
	x, y := kids(a), kids(b)
	if len(x) != len(y) {
		c.bad("data changes the page", "%s: %d and %d children", where(), len(x), len(y))
		return false
	}
	for i := range x {
		if x[i].Type == html.CommentNode {
			if x[i].Data != y[i].Data {
				c.bad("data inside a comment", "%s: %q", where(), x[i].Data)
			}
			continue
		}
		if !c.nodes(p, x[i], y[i]) {
			return false
		}
	}
	if len(x) == 0 && lib.NodeText(a) != lib.NodeText(b) {
		c.r.Count("hostile strings on pages", 1)
	}
	return true
}

func keys(q string) (ks []string) {
	for _, p := range strings.Split(q, "&") {
		k, _, _ := strings.Cut(p, "=")
		ks = append(ks, k)
	}
	return
}

func shape(v any) string {
	switch v := v.(type) {
	case map[string]any:
		s := "{"
		for _, k := range hx.SortedKeys(v) {
			s += fmt.Sprintf("%q:%s,", k, shape(v[k]))
		}
		return s + "}"
	case []any:
		s := "["
		for _, x := range v {
			s += shape(x) + ","
		}
		return s + "]"
	}
	return fmt.Sprintf("%T", v)
}

// inert checks that a page has nothing active except for what belongs to the viewer
func (c *comparer) inert(p *lib.Page, dom *html.Node) {
	for _, e := range lib.All(dom, "*") {
		switch e.Data {
		case "script":
			src, ok := lib.AttrOK(e, "src")
			switch {
			case ok:
				if u, err := url.Parse(src); err != nil || u.Scheme != "" || u.Host != "" || !strings.HasPrefix(u.Path, "/assets/") || strings.Contains(u.Path, "..") || strings.Contains(u.Path, "\\") {
					c.bad("foreign script", "%s: %q", p.Target, src)
				}
			case lib.Attr(e, "type") != "application/json":
				c.bad("inline script", "%s: %q", p.Target, lib.NodeText(e))
			}
		case "iframe", "object", "embed", "frame", "base", "applet", "style":
			c.bad("active element", "%s: <%s>", p.Target, e.Data)
		case "meta":
			if _, ok := lib.AttrOK(e, "http-equiv"); ok {
				c.bad("active element", "%s: <meta http-equiv>", p.Target)
			}
		}
		for _, a := range e.Attr {
			k := strings.ToLower(a.Key)
			switch {
			case strings.HasPrefix(k, "on"), k == "style", k == "srcdoc", k == "formaction":
				c.bad("active attribute", "%s: <%s %s=%q>", p.Target, e.Data, k, a.Val)
			case k == "href", k == "src", k == "action", k == "xlink:href", k == "srcset", k == "data", k == "poster":
				if s := scheme(a.Val); s != "" && s != "http" && s != "https" && s != "mailto" {
					c.bad("active link", "%s: <%s %s=%q>", p.Target, e.Data, k, a.Val)
				}
			}
		}
	}
}

// scheme is found as browsers do
func scheme(ref string) string {
	ref = strings.TrimLeftFunc(ref, func(r rune) bool { return r <= 0x20 })
	ref = strings.NewReplacer("\t", "", "\n", "", "\r", "").Replace(ref)
	for i, c := range ref {
		switch {
		case c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z':
		case i > 0 && (c >= '0' && c <= '9' || c == '+' || c == '-' || c == '.'):
		case i > 0 && c == ':':
			return strings.ToLower(ref[:i])
		default:
			return ""
		}
	}
	return ""
}
