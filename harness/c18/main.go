// Command c18 monitors that HTML rendering rewrites exactly the links that belong to the public site.
package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"net/url"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/verifh/hx"
	"github.com/FAU-CDI/hangover/internal/verifh/lib"
	"github.com/FAU-CDI/hangover/internal/verifh/world"
	"github.com/FAU-CDI/hangover/internal/viewer"
	"github.com/FAU-CDI/hangover/internal/wisski"
	"golang.org/x/net/html"
	"golang.org/x/net/html/atom"
)

func main() {
	hx.Main("C18", func(r *hx.R) {
		r.Rule("each evaluation is one page of an entity with an html value between other values: its DOM is compared with a reference made by putting the parsed value, with links rewritten by an independent rule, into the page of a harmless value; distinct by value, settings and place")
		r.Assume("public urls are absolute http or https urls without query, fragment, user, dot segments and double slashes; a link exactly to the wisski path itself, links with schemes or hosts in other cases, with user, default port, invalid escapes or white space around them, and links in svg and mathml may or may not be rewritten; html that does not survive being written and parsed again (by the html library itself) is only judged by the rest of the page")
		r.Cases("links", r.Pick(250, 4000), func(name string, rnd *rand.Rand) { links(r, name, rnd) })
		r.Cases("html", r.Pick(500, 9000), func(name string, rnd *rand.Rand) { markup(r, name, rnd) })
		r.Cases("soup", r.Pick(500, 12000), func(name string, rnd *rand.Rand) { soup(r, name, rnd) })
		r.Cases("images", r.Pick(60, 600), func(name string, rnd *rand.Rand) { images(r, name, rnd) })
		r.Do("large", func() { large(r) })
		r.Require("values rendered", 3000)
		r.Require("links rewritten", 1500)
		r.Require("links kept", 3000)
		r.Require("values that are stable", 1500)
		r.Require("rest of the page compared", 3000)
		r.Require("image values", 500)
	})
}

const onto = "http://onto.example/"

// bundle has an html field in between
var bundle = &world.Bundle{ID: "b0", BundleID: "b0", Name: "Bundle", Path: []string{onto + "C"}, Fields: []*world.Field{
	{ID: "f0", UUID: "f0", FieldID: "f0", Name: "Before", Type: "string", Weight: 1, Path: []string{onto + "C"}, Datatype: onto + "d", Cardinality: -1},
	{ID: "f1", UUID: "f1", FieldID: "f1", Name: "Html", Type: "text_long", Weight: 2, Path: []string{onto + "C"}, Datatype: onto + "d", Cardinality: -1},
	{ID: "f2", UUID: "f2", FieldID: "f2", Name: "After", Type: "string", Weight: 3, Path: []string{onto + "C"}, Datatype: onto + "d", Cardinality: -1},
	{ID: "f3", UUID: "f3", FieldID: "f3", Name: "Image", Type: "image", Weight: 4, Path: []string{onto + "C"}, Datatype: onto + "d", Cardinality: -1},
}}

const uri = "http://data.example/e"

// page renders values
func page(r *hx.R, name string, f viewer.RenderFlags, image string, values ...string) *lib.Page {
	e := wisski.Entity{URI: uri, Path: []impl.Label{uri}, Fields: map[string][]wisski.FieldValue{}, Children: map[string][]wisski.Entity{}}
	e.Fields["f0"] = []wisski.FieldValue{{Value: "before"}}
	e.Fields["f2"] = []wisski.FieldValue{{Value: "after"}, {Value: "last", Language: "en"}}
	for i, v := range values {
		x := wisski.FieldValue{Value: impl.Datum(v)}
		if i%3 == 1 {
			x.Language = "de"
		}
		e.Fields["f1"] = append(e.Fields["f1"], x)
	}
	if image != "" {
		e.Fields["f3"] = []wisski.FieldValue{{Value: impl.Datum(image)}}
	}
	pb, err := lib.PBOf(bundle)
	if err != nil {
		panic(err)
	}
	c, err := lib.NewCache(map[string][]wisski.Entity{"b0": {e}}, nil)
	if err != nil {
		panic(err)
	}
	p := lib.NewSite(c, pb, f).Get("/entity/b0?uri=" + url.QueryEscape(uri))
	if bad := p.Bad(); bad != "" || p.Status != 200 {
		r.Violation(name, "no page", fmt.Sprintf("%q %+v: %d %s", values, f, p.Status, bad))
		return nil
	}
	return p
}

// fragment parses a value as it would be parsed inside an element
func fragment(s string) (*html.Node, bool) {
	div := &html.Node{Type: html.ElementNode, Data: "div", DataAtom: atom.Div}
	nodes, err := html.ParseFragment(strings.NewReader(s), div)
	if err != nil {
		return nil, false
	}
	for _, n := range nodes {
		div.AppendChild(n)
	}
	return div, true
}

// text of a DOM, such that equal DOMs give equal texts
func dump(sb *strings.Builder, n *html.Node, depth int) {
	if depth > 3000 {
		sb.WriteString("...")
		return
	}
	switch n.Type {
	case html.TextNode:
		fmt.Fprintf(sb, "%*s%q\n", min(depth, 20), "", n.Data)
	case html.CommentNode:
		return // cannot be seen
	case html.ElementNode:
		var as []string
		for _, a := range n.Attr {
			as = append(as, fmt.Sprintf("%s %s=%q", a.Namespace, a.Key, a.Val))
		}
		sort.Strings(as)
		fmt.Fprintf(sb, "%*s<%s %s> %s\n", min(depth, 20), "", n.Namespace, n.Data, as)
	}
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		dump(sb, c, depth+1)
	}
}

func dumped(n *html.Node) string {
	var sb strings.Builder
	dump(&sb, n, 0)
	return sb.String()
}

// normal merges neighbouring texts
// and keeps the first of several attributes with the same name, as browsers do
func normal(n *html.Node) {
	var as []html.Attribute
	seen := map[string]bool{}
	for _, a := range n.Attr {
		if k := a.Namespace + ":" + a.Key; !seen[k] {
			seen[k] = true
			as = append(as, a)
		}
	}
	n.Attr = as
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		for c.Type == html.TextNode && c.NextSibling != nil && c.NextSibling.Type == html.TextNode {
			c.Data += c.NextSibling.Data
			n.RemoveChild(c.NextSibling)
		}
		normal(c)
	}
}

const space = " \t\n\r\f"

func trim(n *html.Node) {
	if c := n.FirstChild; c != nil && c.Type == html.TextNode {
		c.Data = strings.TrimLeft(c.Data, space)
		if c.Data == "" {
			n.RemoveChild(c)
		}
	}
	if c := n.LastChild; c != nil && c.Type == html.TextNode {
		c.Data = strings.TrimRight(c.Data, space)
		if c.Data == "" {
			n.RemoveChild(c)
		}
	}
}

// stable tells if html survives being written and read again inside of a page
func stable(div *html.Node) bool {
	var buf bytes.Buffer
	for c := div.FirstChild; c != nil; c = c.NextSibling {
		if html.Render(&buf, c) != nil {
			return false
		}
	}
	doc, err := html.Parse(strings.NewReader("<!DOCTYPE html><body><table><tbody><tr><td id=x>" + buf.String() + "</td><td id=y>end</td></tr></tbody></table><i id=z></i>"))
	if err != nil {
		return false
	}
	ok := 0
	var got string
	for _, n := range lib.All(doc, "*") {
		switch lib.Attr(n, "id") {
		case "x":
			if n.Data == "td" && got == "" {
				normal(n)
				n.Data, n.Attr = "div", nil
				got = dumped(n)
				ok++
			}
		case "y":
			if n.Data == "td" && lib.NodeText(n) == "end" {
				ok++
			}
		case "z":
			if n.Parent != nil && n.Parent.Data == "body" {
				ok++
			}
		}
	}
	normal(div)
	return ok == 3 && got == dumped(div)
}

// ---- the rule for links ----

type public struct{ host, base string }

const (
	keep = iota
	change
	any
)

// verdict tells what must become of a link
func verdict(link string, ps []public) (v int, to string) {
	l := strings.Trim(link, space)
	for _, p := range ps {
		for _, s := range []string{"http://", "https://"} {
			site := s + p.host
			prefix := site + strings.TrimSuffix(p.base, "/") + "/wisski"
			if rest, ok := strings.CutPrefix(link, prefix); ok && rest != "" && strings.Contains("/", rest[:1]) {
				to = strings.TrimPrefix(link, site)
				if _, err := url.Parse(link); err != nil || l != link || strings.Contains(link, "/..") || strings.Contains(link, "/./") || strings.ContainsAny(link, "\t\n\r\\") || !utf8.ValidString(link) {
					return any, to
				}
				return change, to
			}
			if strings.HasPrefix(strings.ToLower(l), strings.ToLower(prefix)) {
				rest := l[len(prefix):]
				if rest == "" || rest[0] == '?' || rest[0] == '#' || rest[0] == '/' || rest[0] == '\\' {
					v = any
				}
			}
		}
	}
	// the same place in other ways
	u, err := url.Parse(l)
	if v == keep && err == nil && u.Host != "" {
		for _, p := range ps {
			h, _, _ := strings.Cut(p.host, ":")
			if strings.EqualFold(u.Hostname(), h) && (u.User != nil || u.Port() != "" && !strings.Contains(p.host, ":") || u.Port() == "" && strings.Contains(p.host, ":")) {
				if u.Port() == "80" || u.Port() == "443" || u.Port() == "" {
					v = any
				}
			}
			if strings.EqualFold(u.Host, p.host) && strings.Contains(u.Path, "wisski") && (u.Path != u.EscapedPath() || strings.Contains(u.Path, "/.") || strings.Contains(u.Path, "//")) && !strings.HasPrefix(u.EscapedPath(), strings.TrimSuffix(p.base, "/")+"/wisski") {
				v = any
			}
		}
	}
	if v == any {
		_, to, _ = strings.Cut(strings.TrimPrefix(strings.TrimPrefix(l, "http://"), "https://"), "/")
		to = "/" + to
	}
	return v, to
}

// same checks if two links lead to the same, as browsers escape them
func same(a, b string) bool {
	return strings.TrimSuffix(escaped(a), "#") == strings.TrimSuffix(escaped(b), "#")
}

func escaped(s string) string {
	var sb strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c <= 0x20 || c >= 0x7f || strings.IndexByte("\"<>`{}|^\\'()*!$;", c) >= 0 {
			fmt.Fprintf(&sb, "%%%02X", c)
			continue
		}
		if c == '%' && i+2 < len(s) {
			sb.WriteString("%" + strings.ToUpper(s[i+1:i+3]))
			i += 2
			continue
		}
		sb.WriteByte(c)
	}
	return sb.String()
}

type set struct {
	r    *hx.R
	name string
	f    viewer.RenderFlags
	ps   []public
}

func (s *set) bad(sig, format string, args ...interface{}) {
	s.r.Violation(s.name, sig, hx.Trunc(fmt.Sprintf("public %q\n", s.f.PublicURL)+fmt.Sprintf(format, args...), 6000))
}

// check judges links of a page, and replaces both of them by the same
func (s *set) check(value string, want, got *html.Node) {
	if want == nil || got == nil {
		return
	}
	if want.Type == html.ElementNode && got.Type == html.ElementNode && want.Data == got.Data && len(want.Attr) == len(got.Attr) {
		key := map[string]string{"a": "href", "img": "src"}[want.Data]
		for i, a := range want.Attr {
			b := got.Attr[i]
			if key == "" || a.Key != key || b.Key != key || a.Namespace != b.Namespace {
				continue
			}
			v, to := verdict(a.Val, s.ps)
			if want.Namespace != "" || a.Namespace != "" {
				if v == change {
					v = any
				}
			}
			switch {
			case v == change && !(strings.HasPrefix(b.Val, "/") && !strings.HasPrefix(b.Val, "//") && same(b.Val, to)):
				s.bad("link is not local", "%q becomes %q instead of %q\n%q", a.Val, b.Val, to, value)
			case v == keep && b.Val != a.Val:
				s.bad("link is changed", "%q becomes %q\n%q", a.Val, b.Val, value)
			case v == any && b.Val != a.Val && !(strings.HasPrefix(b.Val, "/") && !strings.HasPrefix(b.Val, "//")):
				s.bad("link becomes something else", "%q becomes %q\n%q", a.Val, b.Val, value)
			}
			switch v {
			case change:
				s.r.Count("links rewritten", 1)
			case keep:
				s.r.Count("links kept", 1)
			}
			want.Attr[i].Val, got.Attr[i].Val = "link", "link"
		}
	}
	x, y := want.FirstChild, got.FirstChild
	for x != nil && y != nil {
		s.check(value, x, y)
		x, y = x.NextSibling, y.NextSibling
	}
}

// cells finds the cells of the html field
func cells(dom *html.Node, n int) (tds []*html.Node) {
	var body *html.Node
	for _, t := range lib.All(dom, "table") {
		if lib.Class(t, "entity_table") {
			if bs := lib.Kids(t, "tbody"); len(bs) > 1 {
				body = bs[1]
			}
			break
		}
	}
	trs := lib.Kids(body, "tr")
	if len(trs) < n+1 {
		return nil
	}
	for i := 0; i < n; i++ {
		k := lib.Kids(trs[1+i], "td")
		if i == 0 {
			if len(k) < 4 {
				return nil
			}
			k = k[3:]
		}
		if len(k) == 0 {
			return nil
		}
		tds = append(tds, k[0])
	}
	return
}

// blank removes white space between elements
func blank(n *html.Node) {
	for c := n.FirstChild; c != nil; {
		next := c.NextSibling
		if c.Type == html.TextNode && strings.Trim(c.Data, space) == "" {
			n.RemoveChild(c)
		} else {
			blank(c)
		}
		c = next
	}
}

func clear(n *html.Node) {
	for n.FirstChild != nil {
		n.RemoveChild(n.FirstChild)
	}
}

// render checks the page with some values
func (s *set) render(values ...string) {
	if !s.f.HTMLRender {
		panic("no html")
	}
	s.r.Eval(fmt.Sprintf("%q %q", s.f.PublicURL, values))
	p := page(s.r, s.name, s.f, "", values...)
	harmless := make([]string, len(values))
	for i := range harmless {
		harmless[i] = "harmless"
	}
	q := page(s.r, s.name, s.f, "", harmless...)
	if p == nil || q == nil {
		return
	}
	got, want := p.DOM(), q.DOM()
	tds, places := cells(got, len(values)), cells(want, len(values))
	if tds == nil || places == nil {
		s.bad("value breaks the page", "%q\n%s", values, p.Body)
		return
	}
	for i, v := range values {
		s.r.Count("values rendered", 1)
		ref, ok := fragment(v)
		if ok && stable(ref) {
			s.r.Count("values that are stable", 1)
			td := tds[i]
			normal(td)
			normal(ref)
			trim(td)
			trim(ref)
			s.check(v, ref, td)
			a := strings.SplitN(dumped(ref), "\n", 2)[1]
			b := strings.SplitN(dumped(td), "\n", 2)[1]
			if a != b {
				s.bad("value is shown differently", "%q: %s", v, hx.DiffText(a, b))
			}
		}
		clear(tds[i])
		clear(places[i])
	}
	s.r.Count("rest of the page compared", 1)
	normal(want)
	normal(got)
	blank(want)
	blank(got)
	if a, b := dumped(want), dumped(got); a != b {
		s.bad("value changes the rest of the page", "%q: %s", values, hx.DiffText(a, b))
	}
}

var publics = []struct {
	list string
	ps   []public
}{
	{"https://example.org/", []public{{"example.org", "/"}}},
	{"https://example.org", []public{{"example.org", "/"}}},
	{"http://example.org/sub/dir/", []public{{"example.org", "/sub/dir/"}}},
	{"http://example.org/sub", []public{{"example.org", "/sub"}}},
	{"http://example.org:8080/", []public{{"example.org:8080", "/"}}},
	{"https://a.example/, http://b.example/x\nhttps://c.example:444", []public{{"a.example", "/"}, {"b.example", "/x"}, {"c.example:444", "/"}}},
	{"https://a.example/wisski/", []public{{"a.example", "/wisski/"}}},
	{"https://a.example/, ,", []public{{"a.example", "/"}}},
	{"", nil},
}

func newSet(r *hx.R, name string, rnd *rand.Rand) *set {
	p := publics[rnd.Intn(len(publics))]
	return &set{r: r, name: name, ps: p.ps, f: viewer.RenderFlags{HTMLRender: true, PublicURL: p.list, ImageRender: rnd.Intn(2) == 0, StrictCSP: rnd.Intn(2) == 0}}
}

var paths = []string{"/wisski/navigate/1/view", "/wisski/get?uri=http%3A%2F%2Fx%2F", "/wisski/", "/wisski", "/wisski?x=y", "/wisski#x", "/wisskifoo", "/wisski-x/y", "/wisski.html", "/Wisski/x", "/x/wisski/y", "/", "", "/wiss", "/other?wisski/", "/wisski/a%2Fb", "/wisski/ü?ä=ö", "/wisski/a b", "/wisski/a?b c", "/wisski/a?b=c&d=e#f", "/wisski/a;b,c", "/wisski//a", "/wisski/./a", "/wisski/../a", "/wisski/%zz", "/wisski/a?%zz", "/wisski/a#", "/wisski/a?", "/wisski/:a", "/wisski/a+b%20c", "/wisski/'a'", "/wisski/a\"b", "/wisski/a<b>", "/wisski\\a", "/%77isski/a", "/wisski/a\nb", "/wisski/a?u=https://example.org/wisski/b", "/sub/wisski/x", "/wisski/wisski/x", "/wisski/wisski"}

// link makes links
func (s *set) link(rnd *rand.Rand) string {
	if rnd.Intn(5) == 0 {
		return []string{"", "#", "#x", "/wisski/get?uri=x", "wisski/x", "//example.org/wisski/x", "mailto:x@y", "javascript:x", "data:x", "ftp://example.org/wisski/x", "httpx://example.org/wisski/x", "x", "?q", "https:", "https://", "https:/wisski/x", "http", "tel:1", " ", "/"}[rnd.Intn(20)]
	}
	hosts := []string{"example.org", "example.org:8080", "a.example", "b.example", "c.example:444", "example.org.evil", "www.example.org", "EXAMPLE.org", "user@example.org", "example.org:80", "example.com", "example.org:80800", "evil.example/example.org"}
	host := hosts[rnd.Intn(len(hosts))]
	base := ""
	if len(s.ps) > 0 && rnd.Intn(2) == 0 {
		p := s.ps[rnd.Intn(len(s.ps))]
		host = p.host
		if rnd.Intn(6) > 0 {
			base = strings.TrimSuffix(p.base, "/")
		}
	}
	return []string{"http://", "https://", "http://", "https://", "http://", "https://", "HTTP://", "//", " https://", "ftp://"}[rnd.Intn(10)] + host + base + paths[rnd.Intn(len(paths))] + []string{"", "", "", "", " "}[rnd.Intn(5)]
}

func attr(rnd *rand.Rand, v string) string {
	v = html.EscapeString(v)
	switch rnd.Intn(3) {
	case 0:
		return `'` + v + `'`
	case 1:
		if v != "" && !strings.ContainsAny(v, " \t\n\r\f<>`='\"") && !strings.HasSuffix(v, "/") {
			return v
		}
	}
	return `"` + v + `"`
}

func links(r *hx.R, name string, rnd *rand.Rand) {
	s := newSet(r, name, rnd)
	for i := 0; i < 12; i++ {
		l := s.link(rnd)
		a := attr(rnd, l)
		s.render([]string{
			"<a href=" + a + ">link</a>",
			"<p>text <a class=x href=" + a + " title=" + attr(rnd, s.link(rnd)) + ">link</a> and <img src=" + attr(rnd, s.link(rnd)) + " alt=x></p>",
			"<img alt=" + attr(rnd, s.link(rnd)) + " src=" + a + ">",
			"<A HREF=" + a + ">link</A><iframe src=" + attr(rnd, s.link(rnd)) + "></iframe><form action=" + attr(rnd, s.link(rnd)) + "></form>",
			"<ul><li><a href=" + a + " data-href=" + attr(rnd, s.link(rnd)) + "><img src=" + attr(rnd, s.link(rnd)) + " srcset=" + attr(rnd, s.link(rnd)) + "></a><li><a name=x>no link</a><a src=" + a + ">other</a><img href=" + a + "></ul>",
			"<video src=" + a + "></video><a href=" + a + " href=" + attr(rnd, s.link(rnd)) + ">x</a><area href=" + a + "><link href=" + a + "><source src=" + a + ">",
			html.EscapeString("<a href=" + a + ">"),
			l,
			"<svg><a href=" + a + " xlink:href=" + a + "><text>x</text></a></svg>",
			"<table><tr><td><a href=" + a + ">x</a><td></table>",
			"<!-- <a href=" + a + "> -->x",
			"<div><div><div><div><b><i><a href=" + a + "><u>x</u></a></i></b></div></div></div></div>",
		}[rnd.Intn(12)])
	}
}

var inline = []string{"b", "i", "em", "strong", "span", "u", "sub", "sup", "code", "small", "mark", "q", "font", "abbr"}
var block = []string{"p", "div", "blockquote", "h1", "h2", "h3", "h4", "pre", "section", "article", "center", "details", "figure"}
var texts = []string{"text", " ", "  a  b ", "ü日本😀", "&amp;", "&lt;b&gt;", "&nbsp;", "a & b", "\n", "\n\nx", "\t", "&#x27;", "{{ . }}", "%s", "\\", "\"'", "a<b", "x &notin; y", "&copy", "https://example.org/wisski/x", "\u2028", "\u00a0"}

// generate makes ordinary html
func (s *set) generate(rnd *rand.Rand, sb *strings.Builder, depth int, inl bool, inA bool) {
	for i := rnd.Intn(4) + 1; i > 0; i-- {
		switch k := rnd.Intn(12); {
		case depth <= 0 || k < 3:
			sb.WriteString(texts[rnd.Intn(len(texts))])
		case k < 5 && !inA:
			fmt.Fprintf(sb, "<a href=%s>", attr(rnd, s.link(rnd)))
			s.generate(rnd, sb, depth-1, true, true)
			sb.WriteString("</a>")
		case k == 5:
			fmt.Fprintf(sb, "<img src=%s alt=%s>", attr(rnd, s.link(rnd)), attr(rnd, texts[rnd.Intn(len(texts))]))
		case k < 8 || inl:
			t := inline[rnd.Intn(len(inline))]
			fmt.Fprintf(sb, "<%s%s>", t, []string{"", ` class="x"`, ` style="color: red"`, ` id=x`, ` data-x='"'`, ` hidden`}[rnd.Intn(6)])
			s.generate(rnd, sb, depth-1, true, inA)
			fmt.Fprintf(sb, "</%s>", t)
		case k == 8:
			sb.WriteString([]string{"<br>", "<hr>", "<br />", "<!-- comment -->", "<input value=x>", "<wbr>", "<script>var x = '<b>' & 1;</script>", "<style>b > i { color: red }</style>", "<textarea>\n<b></textarea>", "<button>x</button>", "<noscript><b>x</b></noscript>", "<title>x</title>", "<template><b>x</b></template>", "<iframe src=x><b></iframe>", "<svg viewBox='0 0 1 1'><path d='M0'/><foreignObject><p>x</p></foreignObject></svg>", "<math><mi>x</mi></math>", "<select><option>1<option selected>2</select>", "<object data=x></object>", "<video controls><source src=x></video>", "<o:p></o:p>", "<x-y z>w</x-y>"}[rnd.Intn(21)])
		case k == 9:
			l := []string{"ul", "ol"}[rnd.Intn(2)]
			sb.WriteString("<" + l + ">")
			for j := rnd.Intn(3); j >= 0; j-- {
				sb.WriteString("<li>")
				s.generate(rnd, sb, depth-1, false, inA)
				sb.WriteString("</li>")
			}
			sb.WriteString("</" + l + ">")
		case k == 10:
			sb.WriteString("<table><tbody>")
			for j := rnd.Intn(3); j >= 0; j-- {
				sb.WriteString("<tr><td>")
				s.generate(rnd, sb, depth-1, false, inA)
				sb.WriteString("</td><th colspan=2>x</th></tr>")
			}
			sb.WriteString("</tbody></table>")
		default:
			t := block[rnd.Intn(len(block))]
			inside := t == "p" || t[0] == 'h'
			fmt.Fprintf(sb, "<%s>", t)
			s.generate(rnd, sb, depth-1, inside || t == "pre", inA)
			fmt.Fprintf(sb, "</%s>", t)
		}
	}
}

func markup(r *hx.R, name string, rnd *rand.Rand) {
	s := newSet(r, name, rnd)
	for i := 0; i < 4; i++ {
		var vs []string
		for j := rnd.Intn(4); j >= 0; j-- {
			var sb strings.Builder
			s.generate(rnd, &sb, 2+rnd.Intn(4), false, false)
			vs = append(vs, sb.String())
		}
		s.render(vs...)
	}
}

var pieces = []string{"<p>", "</p>", "<b>", "</b>", "<i>", "</i>", "<table>", "</table>", "<tr>", "<td>", "</td>", "</tr>", "<tbody>", "</tbody>", "<caption>", "<colgroup>", "<col>", "<th>", "<div>", "</div>", "<a href=x>", "</a>", "<form>", "</form>", "<input>", "<select>", "</select>", "<option>", "<optgroup>", "<textarea>", "</textarea>", "<title>", "</title>", "<script>", "</script>", "<style>", "</style>", "<!--", "-->", "--!>", "<!", "<!>", "<?x?>", "</>", "<", ">", "&", "\"", "'", "<svg>", "</svg>", "<math>", "</math>", "<mi>", "<foreignObject>", "<desc>", "<annotation-xml>", "<![CDATA[", "]]>", "<template>", "</template>", "<frameset>", "<frame>", "<body onload=x class=y>", "</body>", "<html lang=x>", "</html>", "<head>", "</head>", "<noscript>", "</noscript>", "<noframes>", "<iframe>", "<xmp>", "</xmp>", "<plaintext>", "<button>", "</button>", "<applet>", "<marquee>", "<object>", "</object>", "<li>", "<ul>", "</ul>", "<dl>", "<dt>", "<dd>", "<br>", "</br>", "<hr>", "<img>", "<image>", "<isindex>", "<link>", "<meta charset=x>", "<base href=//x>", "<nobr>", "<h1>", "</h2>", "<pre>", "\n", "<listing>", "<ruby>", "<rt>", "<center>", "<font color=x>", "<keygen>", "<menuitem>", "<main>", "<x", "<a href='", "<img src=\"", "\x00", "\xff", "\xf0\x9f", "<a\x00b>", "text", " ", "<b x=y x=z>", "<p/>", "<svg><link>x</link></svg>", "<svg><br>", "<math><br/>x", "<svg><img>x</svg>", "<!DOCTYPE html>", "<script><!--<script>", "&lt", "&#0;", "&#xD800;", "&#x110000;", "&ampx;"}

func soup(r *hx.R, name string, rnd *rand.Rand) {
	s := newSet(r, name, rnd)
	for i := 0; i < 6; i++ {
		var vs []string
		for j := rnd.Intn(2); j >= 0; j-- {
			var sb strings.Builder
			for k := rnd.Intn(14); k >= 0; k-- {
				sb.WriteString(pieces[rnd.Intn(len(pieces))])
			}
			vs = append(vs, sb.String())
		}
		s.render(vs...)
	}
	// each of them alone
	s.render(pieces[rnd.Intn(len(pieces))])
}

// images checks values of images
func images(r *hx.R, name string, rnd *rand.Rand) {
	s := newSet(r, name, rnd)
	s.f.ImageRender = true
	s.f.HTMLRender = rnd.Intn(2) == 0
	for i := 0; i < 15; i++ {
		l := s.link(rnd)
		if l == "" {
			continue
		}
		r.Eval(fmt.Sprintf("%q image %q", s.f.PublicURL, l))
		p := page(r, name, s.f, l)
		if p == nil {
			continue
		}
		r.Count("image values", 1)
		imgs := lib.All(lib.One(p.DOM(), "main"), "img")
		if len(imgs) != 1 || imgs[0].Parent.Data != "a" {
			s.bad("no image", "%q: %d", l, len(imgs))
			continue
		}
		src := lib.Attr(imgs[0], "src")
		v, to := verdict(l, s.ps)
		if lib.Attr(imgs[0].Parent, "href") != src {
			s.bad("link and image differ", "%q: %q %q", l, src, lib.Attr(imgs[0].Parent, "href"))
		}
		if strings.Contains(l, "%z") {
			continue // is escaped
		}
		if v == change && !same(src, to) {
			s.bad("image is not local", "%q becomes %q instead of %q", l, src, to)
		}
		if u, err := url.Parse(l); v == keep && err == nil && (u.Scheme == "http" || u.Scheme == "https") && !same(src, l) {
			s.bad("image is changed", "%q becomes %q", l, src)
		}
	}
}

func large(r *hx.R) {
	s := &set{r: r, name: "large", ps: publics[0].ps, f: viewer.RenderFlags{HTMLRender: true, PublicURL: publics[0].list}}
	link := `<a href="https://example.org/wisski/navigate/1/view">x</a>`
	for _, v := range []string{
		strings.Repeat("<p>"+link+"</p>", 20000),
		strings.Repeat("<div>", 2000) + link + strings.Repeat("</div>", 2000),
		strings.Repeat("<b>", 1000) + link,
		"<p>" + strings.Repeat("text ", 200000) + link + "</p>",
		"<!--" + strings.Repeat("-", 100000) + "-->" + link,
		"<img src=\"https://example.org/wisski/" + strings.Repeat("a/", 100000) + "\">",
	} {
		s.render(v)
	}
}
