// Command c32 monitors that pages get everything they refer to: it exists, has the right type, and their own policy allows it.
package main

import (
	"fmt"
	"html"
	"math/rand"
	"net/url"
	"os"
	"strings"

	"github.com/FAU-CDI/hangover/internal/glass"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/verifh/hx"
	"github.com/FAU-CDI/hangover/internal/verifh/lib"
	"github.com/FAU-CDI/hangover/internal/verifh/world"
	"github.com/FAU-CDI/hangover/internal/viewer"
	"github.com/FAU-CDI/hangover/internal/wisski"
	xhtml "golang.org/x/net/html"
)

func main() {
	hx.Main("C32", func(r *hx.R) {
		r.Rule("each evaluation is one page: everything it makes a browser load is asked for, and judged by an independent implementation of the matching rules of content security policies; distinct by page and settings")
		r.Assume("public urls are http or https urls with an ascii host and no path, or a path that ends with a slash; the tipsy url has no query, fragment or white space; scripts are not run, what they load is known from their sources: the api, and the frame of tipsy")
		r.Cases("site", r.Pick(120, 2500), func(name string, rnd *rand.Rand) { sites(r, name, rnd) })
		r.Cases("value", r.Pick(900, 20000), func(name string, rnd *rand.Rand) { values(r, name, rnd) })
		r.Require("scripts", 2000)
		r.Require("style sheets", 1000)
		r.Require("icons", 1000)
		r.Require("images of pages", 100)
		r.Require("frames", 50)
		r.Require("images of values", 500)
		r.Require("media of values", 200)
		r.Require("inline styles of values", 200)
		r.Require("images of values with the strict policy", 200)
		r.Require("media of values with the strict policy", 60)
	})
}

// ---- content security policy level 3, what is needed of it ----

var origin = &url.URL{Scheme: "http", Host: "site.invalid"}

type policy map[string][]string

func parse(header string) policy {
	p := policy{}
	for _, d := range strings.Split(header, ";") {
		fs := strings.Fields(d)
		if len(fs) == 0 {
			continue
		}
		if _, ok := p[strings.ToLower(fs[0])]; !ok {
			p[strings.ToLower(fs[0])] = fs[1:]
		}
	}
	return p
}

func (p policy) sources(names ...string) ([]string, bool) {
	for _, n := range append(names, "default-src") {
		if ss, ok := p[n]; ok {
			return ss, true
		}
	}
	return nil, false
}

func port(u *url.URL, scheme string) string {
	if p := u.Port(); p != "" {
		return p
	}
	return map[string]string{"http": "80", "https": "443"}[scheme]
}

// allows checks that a policy allows loading something
func (p policy) allows(u *url.URL, names ...string) bool {
	ss, ok := p.sources(names...)
	if !ok {
		return true
	}
	for _, s := range ss {
		if match(s, u) {
			return true
		}
	}
	return false
}

func match(source string, u *url.URL) bool {
	l := strings.ToLower(source)
	scheme := strings.ToLower(u.Scheme)
	switch {
	case l == "'self'":
		return scheme == origin.Scheme && strings.EqualFold(u.Host, origin.Host)
	case l == "*":
		return scheme == "http" || scheme == "https"
	case strings.HasPrefix(l, "'"):
		return false
	case strings.HasSuffix(l, ":") && !strings.Contains(l, "/"):
		return scheme+":" == l
	}
	rest := source
	want := origin.Scheme
	if i := strings.Index(rest, "://"); i >= 0 {
		want, rest = strings.ToLower(rest[:i]), rest[i+3:]
	}
	if !(scheme == want || want == "http" && scheme == "https") {
		return false
	}
	path := ""
	if i := strings.IndexByte(rest, '/'); i >= 0 {
		rest, path = rest[:i], rest[i:]
	}
	if strings.ContainsAny(path, "?#") || strings.ContainsAny(rest, "?#@") {
		return false // not a source
	}
	su, err := url.Parse(want + "://" + rest)
	if err != nil || su.Host == "" {
		return false
	}
	h, g := strings.ToLower(su.Hostname()), strings.ToLower(u.Hostname())
	if strings.HasPrefix(h, "*.") {
		if !strings.HasSuffix(g, h[1:]) {
			return false
		}
	} else if h != g {
		return false
	}
	if su.Port() != "*" && port(su, want) != port(u, scheme) && !(su.Port() == "" && port(u, scheme) == map[string]string{"http": "80", "https": "443"}[scheme]) {
		return false
	}
	up := u.EscapedPath()
	if up == "" {
		up = "/"
	}
	switch {
	case path == "" || path == "/":
		return true
	case strings.HasSuffix(path, "/"):
		return strings.HasPrefix(up, path)
	}
	return up == path
}

// inline checks that inline styles are allowed
func (p policy) inline(names ...string) bool {
	ss, ok := p.sources(names...)
	if !ok {
		return true
	}
	found := false
	for _, s := range ss {
		l := strings.ToLower(s)
		found = found || l == "'unsafe-inline'"
		if strings.HasPrefix(l, "'nonce-") || strings.HasPrefix(l, "'sha") {
			return false
		}
	}
	return found
}

// ---- what pages of a site refer to ----

type checker struct {
	r     *hx.R
	name  string
	site  *lib.Site
	flags viewer.RenderFlags
	dump  string
	files map[string]*lib.Page
	bad   map[string]bool
}

func (c *checker) violation(p *lib.Page, sig, format string, args ...any) {
	if c.bad[sig] {
		return
	}
	c.bad[sig] = true
	c.r.Violation(c.name, sig, fmt.Sprintf("page %q (%d)\nsettings %+v\npolicy %q\n", p.Target, p.Status, c.flags, p.Header["Content-Security-Policy"])+fmt.Sprintf(format, args...)+"\n"+hx.Trunc(c.dump, 20000))
}

var scriptTypes = map[string]bool{"": true, "module": true, "text/javascript": true, "application/javascript": true, "text/ecmascript": true, "application/ecmascript": true}

// own checks something that the viewer itself refers to
func (c *checker) own(p *lib.Page, pol policy, what, ref string, types []string, names ...string) {
	c.r.Count(what+"s", 1)
	target, ok := p.Local(ref)
	if !ok {
		c.violation(p, "a page needs something of another site", "%s %q", what, ref)
		return
	}
	u, err := origin.Parse(target)
	if err != nil {
		c.violation(p, "a page refers to something invalid", "%s %q: %v", what, ref, err)
		return
	}
	if !pol.allows(u, names...) {
		c.violation(p, "the policy blocks something that a page needs", "%s %q", what, ref)
	}
	f := c.files[target]
	if f == nil {
		f = c.site.Get(target)
		c.files[target] = f
	}
	fine := f.Status == 200 && (f.Body != "" || what == "style sheet") // there is an empty style sheet
	t := strings.ToLower(f.Type())
	is := false
	for _, x := range types {
		is = is || t == x
	}
	if !fine || !is {
		c.violation(p, "something that a page needs is not there", "%s %q: status %d, type %q (want %q), %d bytes", what, ref, f.Status, f.Header["Content-Type"], types, len(f.Body))
	}
}

var (
	jsTypes  = []string{"text/javascript", "application/javascript", "application/x-javascript", "text/ecmascript", "application/ecmascript"}
	cssTypes = []string{"text/css"}
	imgTypes = []string{"image/svg+xml", "image/png", "image/x-icon", "image/vnd.microsoft.icon", "image/jpeg", "image/gif"}
)

func (c *checker) page(p *lib.Page, value bool) {
	pol := parse(p.Header.Get("Content-Security-Policy"))
	for _, n := range lib.All(p.DOM(), "*") {
		if inValue(n) {
			continue // judged in the other cases
		}
		for _, a := range n.Attr {
			if strings.HasPrefix(a.Key, "on") {
				c.violation(p, "the policy blocks something that a page needs", "attribute %s of <%s>", a.Key, n.Data)
			}
			if a.Key == "style" && !pol.inline("style-src-attr", "style-src") {
				c.violation(p, "the policy blocks something that a page needs", "style %q of <%s>", a.Val, n.Data)
			}
		}
		switch n.Data {
		case "script":
			src, ok := lib.AttrOK(n, "src")
			if !ok {
				if t := strings.ToLower(lib.Attr(n, "type")); scriptTypes[t] {
					c.violation(p, "the policy blocks something that a page needs", "inline script %q", lib.NodeText(n))
				}
				continue
			}
			c.own(p, pol, "script", src, jsTypes, "script-src-elem", "script-src")
		case "style":
			if !pol.inline("style-src-elem", "style-src") {
				c.violation(p, "the policy blocks something that a page needs", "inline style sheet %q", lib.NodeText(n))
			}
		case "link":
			rel := strings.Fields(strings.ToLower(lib.Attr(n, "rel")))
			for _, x := range rel {
				switch x {
				case "stylesheet":
					c.own(p, pol, "style sheet", lib.Attr(n, "href"), cssTypes, "style-src-elem", "style-src")
				case "icon":
					c.own(p, pol, "icon", lib.Attr(n, "href"), imgTypes, "img-src")
				}
			}
		case "img":
			if lib.Class(n, "preview") {
				continue // of a value
			}
			c.own(p, pol, "images of page", lib.Attr(n, "src"), imgTypes, "img-src")
		case "div":
			if lib.Attr(n, "id") == "tipsy" {
				c.r.Count("frames", 1)
				u, err := origin.Parse(lib.Attr(n, "data-url"))
				if err != nil || u.String() != c.flags.TipsyURL {
					c.violation(p, "the frame is not the configured one", "%q instead of %q", lib.Attr(n, "data-url"), c.flags.TipsyURL)
				} else if !pol.allows(u, "frame-src", "child-src") {
					c.violation(p, "the policy blocks something that a page needs", "frame %q", c.flags.TipsyURL)
				}
			}
		}
	}
	// the pages ask the api for the progress, and style sheets contain fonts
	for _, x := range []string{"connect-src", "font-src"} {
		if !pol.allows(origin.JoinPath("/api/v1/progress"), x) {
			c.violation(p, "the policy blocks something that a page needs", "%s of the site itself", x)
		}
	}
}

// inValue tells if a node is inside of the value of a field
func inValue(n *xhtml.Node) bool {
	for ; n != nil; n = n.Parent {
		if n.Data == "td" || n.Data == "dd" {
			return true
		}
	}
	return false
}

var hosts = []string{"example.org", "public.example:8080", "Sub.Example.org", "192.0.2.1"}
var tipsies = []string{"", "https://tipsy.example", "https://tipsy.example/", "http://tipsy.example:8080", "https://tipsy.example/some/path", "https://tipsy.example/dir/"}

func settings(rnd *rand.Rand) (f viewer.RenderFlags, public []*url.URL) {
	f.StrictCSP, f.HTMLRender, f.ImageRender = rnd.Intn(2) == 0, rnd.Intn(2) == 0, rnd.Intn(2) == 0
	f.TipsyURL = tipsies[rnd.Intn(len(tipsies))]
	var parts []string
	for i := rnd.Intn(4); i > 0; i-- {
		s := []string{"http://", "https://"}[rnd.Intn(2)] + hosts[rnd.Intn(len(hosts))] + []string{"", "/", "/sub/", "/a/b/"}[rnd.Intn(4)]
		u, err := url.Parse(s)
		if err != nil {
			panic(err)
		}
		public = append(public, u)
		parts = append(parts, []string{"", " "}[rnd.Intn(2)]+s)
	}
	f.PublicURL = strings.Join(parts, []string{",", "\n", ",\n"}[rnd.Intn(3)])
	return
}

func sites(r *hx.R, name string, rnd *rand.Rand) {
	o := world.Default()
	o.Hostile, o.SafeIRI, o.Entities = 0, true, 2+rnd.Intn(5)
	w, _ := world.Generate(rnd, o)
	for _, b := range w.All() {
		for _, f := range b.Fields {
			f.Type = []string{"string", "image", "entity_reference", "link"}[rnd.Intn(4)]
		}
	}
	ex := w.Expect()
	f, _ := settings(rnd)
	f.Predicates = lib.Predicates(w)
	dir := r.Dir()
	defer os.RemoveAll(dir)
	xml, nq := lib.Files(w, dir)
	g, err := glass.Create(xml, nq, "", f, nil)
	if err != nil {
		r.Violation(name, "loading fails: "+err.Error(), lib.Dump(w))
		return
	}
	defer g.Close()
	loading := viewer.NewViewer(discard{})
	loading.RenderFlags = f
	for i, site := range []*lib.Site{lib.NewSite(g.Cache, &g.Pathbuilder, f), {H: loading, V: loading}} {
		c := &checker{r: r, name: name, site: site, flags: f, dump: lib.Dump(w), files: map[string]*lib.Page{}, bad: map[string]bool{}}
		for _, t := range lib.Targets(w, ex, rnd, f.Tipsy() != "") {
			p := site.Get(t.Target)
			if p.Panic != "" {
				c.violation(p, "a request panics", "%s", p.Panic)
				continue
			}
			if p.Type() != "text/html" {
				continue
			}
			r.Eval(fmt.Sprintf("%d %q %+v", i, t.Target, f))
			r.Count("pages", 1)
			if i == 1 && p.Status == 503 {
				r.Count("pages while loading", 1)
			}
			c.page(p, false)
		}
	}
}

type discard struct{}

func (discard) Write(b []byte) (int, error) { return len(b), nil }

// ---- what rendered values refer to ----

const onto = "http://onto.example/"

var bundle = &world.Bundle{ID: "b0", BundleID: "b0", Name: "Bundle", Path: []string{onto + "C"}, Fields: []*world.Field{
	{ID: "f1", UUID: "f1", FieldID: "f1", Name: "Html", Type: "text_long", Weight: 2, Path: []string{onto + "C"}, Datatype: onto + "d", Cardinality: -1},
	{ID: "f3", UUID: "f3", FieldID: "f3", Name: "Image", Type: "image", Weight: 4, Path: []string{onto + "C"}, Datatype: onto + "d", Cardinality: -1},
}}

func values(r *hx.R, name string, rnd *rand.Rand) {
	f, public := settings(rnd)
	place := func() string {
		paths := []string{"", "/", "/x.png", "/sites/default/files/a%20b.png", "/a/b/c/x.png?y=z", "/sub/x.png", "/wisski/navigate/1/view", "/x.png#y", "/ä.png"}
		path := paths[rnd.Intn(len(paths))]
		scheme := []string{"http://", "https://"}[rnd.Intn(2)]
		if len(public) > 0 && rnd.Intn(4) > 0 {
			p := public[rnd.Intn(len(public))]
			return scheme + p.Host + strings.TrimSuffix(p.Path, "/") + path
		}
		if rnd.Intn(5) == 0 {
			return "/local" + path
		}
		return scheme + []string{"elsewhere.example", "elsewhere.example:81", "127.0.0.1"}[rnd.Intn(3)] + path
	}
	e := wisski.Entity{URI: "http://data.example/e", Path: []impl.Label{"http://data.example/e"}, Fields: map[string][]wisski.FieldValue{}, Children: map[string][]wisski.Entity{}}
	var vs []string
	for i := 1 + rnd.Intn(4); i > 0; i-- {
		u := html.EscapeString(place())
		v := []string{"<img src=\"%s\">", "<p>some <b>text</b> <img alt=x src='%s'> text</p>", "<audio controls src=\"%s\"></audio>", "<video src=\"%s\"></video>", "<video><source src=\"%s\"></video>", "<p style=\"color: red\">%s</p>", "<figure><img src=\"%s\"></figure>", "<style>p { color: red }</style>%s"}[rnd.Intn(8)]
		vs = append(vs, fmt.Sprintf(v, u))
		e.Fields["f1"] = append(e.Fields["f1"], wisski.FieldValue{Value: impl.Datum(vs[len(vs)-1])})
	}
	image := place()
	e.Fields["f3"] = []wisski.FieldValue{{Value: impl.Datum(image)}}
	pb, err := lib.PBOf(bundle)
	if err != nil {
		panic(err)
	}
	cache, err := lib.NewCache(map[string][]wisski.Entity{"b0": {e}}, nil)
	if err != nil {
		panic(err)
	}
	c := &checker{r: r, name: name, site: lib.NewSite(cache, pb, f), flags: f, files: map[string]*lib.Page{}, bad: map[string]bool{}}
	c.dump = fmt.Sprintf("html values %q\nimage value %q", vs, image)
	p := c.site.Get("/entity/b0?uri=" + url.QueryEscape(string(e.URI)))
	if bad := p.Bad(); bad != "" || p.Status != 200 {
		c.violation(p, "no page", "%s", bad)
		return
	}
	r.Eval(fmt.Sprintf("%+v %s", f, c.dump))
	c.page(p, true)
	pol := parse(p.Header.Get("Content-Security-Policy"))
	load := func(n *xhtml.Node, what string, names ...string) {
		ref, ok := lib.AttrOK(n, "src")
		if !ok {
			return
		}
		base := *origin
		base.Path = "/entity/b0"
		u, err := base.Parse(ref)
		if err != nil || u.Scheme != "http" && u.Scheme != "https" {
			return
		}
		local := u.Host == origin.Host
		asked := !f.StrictCSP || local && what == "images"
		for _, p := range public {
			if strings.EqualFold(u.Host, p.Host) && (p.Path == "" || p.Path == "/" || strings.HasPrefix(u.EscapedPath(), p.Path)) {
				asked = true
			}
		}
		if !asked {
			c.r.Count("not asked for", 1)
			return
		}
		c.r.Count(what+" of values", 1)
		if f.StrictCSP {
			c.r.Count(what+" of values with the strict policy", 1)
		}
		if !pol.allows(u, names...) {
			c.violation(p, "the policy blocks "+what+" that the settings ask for", "<%s src=%q>", n.Data, ref)
		}
	}
	images := 0
	for _, n := range lib.All(p.DOM(), "*") {
		if !inValue(n) {
			continue
		}
		switch n.Data {
		case "img":
			images++
			load(n, "images", "img-src")
		case "audio", "video", "source":
			load(n, "media", "media-src")
		case "style":
			r.Count("inline styles of values", 1)
			if !pol.inline("style-src-elem", "style-src") {
				c.violation(p, "the policy blocks inline styles of rendered html", "<style>")
			}
		}
		if _, ok := lib.AttrOK(n, "style"); ok {
			r.Count("inline styles of values", 1)
			if !pol.inline("style-src-attr", "style-src") {
				c.violation(p, "the policy blocks inline styles of rendered html", "style attribute of <%s>", n.Data)
			}
		}
	}
	if f.ImageRender && images == 0 {
		c.violation(p, "no image is shown", "")
	}
}
