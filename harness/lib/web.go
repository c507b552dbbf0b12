package lib

import (
	"bytes"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"runtime/debug"
	"strings"

	"github.com/FAU-CDI/drincw/pathbuilder"
	"github.com/FAU-CDI/drincw/pathbuilder/pbxml"
	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/verifh/world"
	"github.com/FAU-CDI/hangover/internal/viewer"
	"golang.org/x/net/html"
)

// Site is a viewer that is asked in this process
type Site struct {
	H http.Handler
	V *viewer.Viewer
}

// NewSite makes a viewer that has finished loading
func NewSite(c *sparkl.Cache, pb *pathbuilder.Pathbuilder, flags viewer.RenderFlags) *Site {
	v := viewer.NewViewer(io.Discard)
	v.RenderFlags = flags
	v.Prepare(c, pb)
	return &Site{H: v, V: v}
}

// PBOf parses a pathbuilder made of bundles
func PBOf(bundles ...*world.Bundle) (*pathbuilder.Pathbuilder, error) {
	w := &world.World{Bundles: bundles}
	pb, err := pbxml.Unmarshal(w.XML())
	return &pb, err
}

// Page is what was answered to a request
type Page struct {
	Target string
	Status int
	Header http.Header
	Body   string
	Panic  string

	dom *html.Node
}

// Get sends a GET request. The target is sent as it is.
func (s *Site) Get(target string) *Page { return s.Do("GET", target) }

// Do sends a request
func (s *Site) Do(method, target string) (p *Page) {
	p = &Page{Target: target}
	req := httptest.NewRequest(method, target, nil)
	rec := httptest.NewRecorder()
	func() {
		defer func() {
			if e := recover(); e != nil {
				p.Panic = fmt.Sprintf("%v\n%s", e, debug.Stack())
			}
		}()
		s.H.ServeHTTP(rec, req)
	}()
	res := rec.Result()
	p.Status = res.StatusCode
	p.Header = res.Header
	p.Body = rec.Body.String()
	return p
}

// Type is the media type of the response
func (p *Page) Type() string {
	t, _, _ := strings.Cut(p.Header.Get("Content-Type"), ";")
	return strings.TrimSpace(t)
}

// DOM parses a page
func (p *Page) DOM() *html.Node {
	if p.dom == nil {
		n, err := html.Parse(bytes.NewReader([]byte(p.Body)))
		if err != nil {
			n = &html.Node{Type: html.DocumentNode}
		}
		p.dom = n
	}
	return p.dom
}

// All returns all elements with the given name, in document order
func All(n *html.Node, name string) (ns []*html.Node) {
	Walk(n, func(c *html.Node) bool {
		if c.Type == html.ElementNode && (name == "*" || c.Data == name) {
			ns = append(ns, c)
		}
		return true
	})
	return
}

// One returns the first element with the given name or nil
func One(n *html.Node, name string) *html.Node {
	if n == nil {
		return nil
	}
	if all := All(n, name); len(all) > 0 {
		return all[0]
	}
	return nil
}

// Walk visits a node and everything below for which f returns true
func Walk(n *html.Node, f func(n *html.Node) bool) {
	if n == nil || !f(n) {
		return
	}
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		Walk(c, f)
	}
}

// Kids returns the elements that are direct children
func Kids(n *html.Node, names ...string) (ns []*html.Node) {
	if n == nil {
		return
	}
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		if c.Type != html.ElementNode {
			continue
		}
		ok := len(names) == 0
		for _, x := range names {
			ok = ok || x == c.Data
		}
		if ok {
			ns = append(ns, c)
		}
	}
	return
}

// NodeText is all text below a node, as it is
func NodeText(n *html.Node) string {
	var sb strings.Builder
	Walk(n, func(n *html.Node) bool {
		if n.Type == html.TextNode {
			sb.WriteString(n.Data)
		}
		return true
	})
	return sb.String()
}

// Attr returns an attribute
func Attr(n *html.Node, key string) string {
	v, _ := AttrOK(n, key)
	return v
}

// AttrOK returns an attribute
func AttrOK(n *html.Node, key string) (string, bool) {
	if n != nil {
		for _, a := range n.Attr {
			if a.Namespace == "" && a.Key == key {
				return a.Val, true
			}
		}
	}
	return "", false
}

// Class checks for a class
func Class(n *html.Node, class string) bool {
	for _, c := range strings.Fields(Attr(n, "class")) {
		if c == class {
			return true
		}
	}
	return false
}

// Local turns a reference found on a page into the target of a request to the same site, as a browser would.
// ok is false if the reference does not lead to the site
func (p *Page) Local(ref string) (target string, ok bool) {
	base, err := url.Parse("http://site.invalid" + p.Target)
	if err != nil {
		return "", false
	}
	// what browsers ignore
	ref = strings.Trim(ref, " \t\r\n\f")
	ref = strings.NewReplacer("\t", "", "\n", "", "\r", "").Replace(ref)
	u, err := base.Parse(ref)
	if err != nil || u.Scheme != "http" || u.Host != "site.invalid" {
		return "", false
	}
	return u.RequestURI(), true
}

// Follow follows redirects, at most n
func (s *Site) Follow(target string, n int) (p *Page, hops []*Page) {
	for {
		p = s.Get(target)
		hops = append(hops, p)
		if p.Panic != "" || p.Status < 300 || p.Status > 399 || len(hops) > n {
			return p, hops
		}
		next, ok := p.Local(p.Header.Get("Location"))
		if !ok {
			return p, hops
		}
		target = next
	}
}

// Bad tells what is wrong with a response in any case
func (p *Page) Bad() string {
	switch {
	case p.Panic != "":
		return "panic: " + p.Panic
	case p.Status >= 500:
		return fmt.Sprintf("status %d: %.300s", p.Status, p.Body)
	case len(p.Header["Content-Security-Policy"]) != 1:
		return fmt.Sprintf("Content-Security-Policy: %q", p.Header["Content-Security-Policy"])
	}
	return ""
}
