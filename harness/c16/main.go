// Command c16 monitors that pages and api show exactly the loaded data.
package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"net/url"
	"os"
	"sort"
	"strings"

	"github.com/FAU-CDI/drincw/pathbuilder"
	"github.com/FAU-CDI/drincw/pathbuilder/pbxml"
	"github.com/FAU-CDI/hangover/internal/glass"
	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/verifh/hx"
	"github.com/FAU-CDI/hangover/internal/verifh/lib"
	"github.com/FAU-CDI/hangover/internal/verifh/world"
	"github.com/FAU-CDI/hangover/internal/viewer"
	"github.com/FAU-CDI/hangover/internal/wisski"
	"golang.org/x/net/html"
)

func main() {
	hx.Main("C16", func(r *hx.R) {
		r.Rule("each evaluation is one page or api answer of a site made from a generated dataset, parsed and compared with what is loaded (bundles, entities, fields, values, languages, direct children, aliases, statements, embedded graph data, links, pathbuilder); distinct by site and request")
		r.Assume("ids of bundles and fields are unique; ids of top-level groups contain no slash, question mark, hash sign or percent sign; texts are compared without white space around them")
		r.Cases("world", r.Pick(140, 2500), func(name string, rnd *rand.Rand) { site(r, name, rnd) })
		r.Require("entity pages", 600)
		r.Require("values shown", 1500)
		r.Require("values with a language", 200)
		r.Require("children shown", 200)
		r.Require("statements shown", 5000)
		r.Require("aliases shown", 200)
		r.Require("entities asked for by another name", 100)
		r.Require("links checked", 2000)
		r.Require("requests for what does not exist", 5000)
		r.Require("api answers", 1000)
		r.Require("fields of the pathbuilder shown", 500)
	})
}

type set struct {
	r     *hx.R
	name  string
	rnd   *rand.Rand
	site  *lib.Site
	w     *world.World
	ex    *world.Expected
	pb    *pathbuilder.Pathbuilder
	data  map[string][]wisski.Entity
	flags viewer.RenderFlags
}

func (s *set) bad(sig, format string, args ...any) {
	s.r.Violation(s.name, sig, hx.Trunc(fmt.Sprintf(format, args...), 5000)+"\n"+lib.Dump(s.w))
}

// Names are put into the pathbuilder
var Names = []string{"Name", "Größe", "a & b", "<b>bold</b>", "\"quoted\"", "it's", "{{ . }}", "</script>", "日本", "a  b", "%s%d", "x,y;z", "&amp;", "Name", "</td></tr>", "\\", "${x}"}
var cleanTypes = []string{"string", "text_long", "entity_reference", "link", "image", "list_string", "", "custom", "email", "<i>"}

// dress gives hostile names to everything in the pathbuilder
func dress(w *world.World, rnd *rand.Rand) {
	for _, b := range w.All() {
		if rnd.Intn(2) == 0 {
			b.Name = Names[rnd.Intn(len(Names))]
		}
		for _, f := range b.Fields {
			if rnd.Intn(2) == 0 {
				f.Name = Names[rnd.Intn(len(Names))]
			}
			f.Type = cleanTypes[rnd.Intn(len(cleanTypes))]
		}
	}
}

// Values that look like urls
var Values = []string{"http://public.example/wisski/navigate/12/view", "https://public.example/wisski/get?uri=http%3A%2F%2Fx%2F", "http://public.example/other", "https://example.org/wisski/a b?c=d#e", "http://x.example/ü?ä=ö", "http://x.example/?a=1&b=2&amp;c=3", "HTTP://X.example/", "http://x.example/%zz", "//x.example/y", "/local", "?q", "#frag", "mailto:a@b", "http://x.example/\"'<>", "x y", "http://x.example/a+b%20c%2Fd"}

// urls replaces some literals
func urls(w *world.World, rnd *rand.Rand) {
	for i := range w.Quads {
		q := &w.Quads[i]
		if q.O.Kind == world.Lit && q.O.DT == "" && rnd.Intn(4) == 0 {
			q.O.V = Values[rnd.Intn(len(Values))]
		}
	}
}

func site(r *hx.R, name string, rnd *rand.Rand) {
	o := world.Default()
	o.BadIRI = rnd.Intn(2) == 0
	o.BundleIDs = []string{"", "hash", "same"}[rnd.Intn(3)]
	o.Alias, o.EqClass, o.Inv = 0.4, 0.2, 0.3
	o.Hostile, o.BigField = 0.5, 5
	o.BNodes, o.IRIData = rnd.Intn(2) == 0, rnd.Intn(2) == 0
	w, ex := world.Generate(rnd, o)
	dress(w, rnd)
	urls(w, rnd)
	ex = w.Expect()
	if ex.Ambiguous {
		return
	}
	dir := r.Dir()
	defer os.RemoveAll(dir)
	xml, nq := lib.Files(w, dir)
	flags := lib.Flags(w, rnd)
	if rnd.Intn(2) == 0 {
		flags.PublicURL = "http://public.example/"
	}
	g, err := glass.Create(xml, nq, "", flags, nil)
	if err != nil {
		r.Violation(name, "loading fails: "+err.Error(), lib.Dump(w))
		return
	}
	s := &set{r: r, name: name, rnd: rnd, site: lib.NewSite(g.Cache, &g.Pathbuilder, flags), w: w, ex: ex, pb: &g.Pathbuilder, data: map[string][]wisski.Entity{}, flags: flags}
	for _, b := range w.Bundles {
		for _, e := range g.Cache.Entities(b.ID) {
			s.data[b.ID] = append(s.data[b.ID], *clone(&e, false))
		}
	}
	s.index()
	s.pathbuilder()
	s.others()
	for _, b := range w.Bundles {
		s.bundle(b)
		for i := range s.data[b.ID] {
			s.entity(b, &s.data[b.ID][i])
		}
	}
	s.missing()
}

// get expects an answer
func (s *set) get(target, typ string) *lib.Page {
	p := s.site.Get(target)
	s.r.Eval(s.name + " " + target)
	if bad := p.Bad(); bad != "" || p.Status != 200 {
		s.bad("no answer", "%s: %d %s", target, p.Status, bad)
		return nil
	}
	if p.Type() != typ {
		s.bad("wrong type", "%s: %q", target, p.Header.Get("Content-Type"))
		return nil
	}
	if typ == "application/json" {
		s.r.Count("api answers", 1)
		if !json.Valid([]byte(p.Body)) {
			s.bad("no json", "%s: %s", target, p.Body)
			return nil
		}
	} else if !strings.Contains(p.Body, "</body>") {
		s.bad("page breaks off", "%s: ...%s", target, p.Body[max(0, len(p.Body)-1000):])
		return nil
	}
	return p
}

// text as it can be seen on a page
func text(s string) string {
	return strings.TrimSpace(strings.NewReplacer("\r\n", "\n", "\r", "\n", "\x00", "\uFFFD").Replace(s))
}

func squeeze(s string) string { return strings.Join(strings.Fields(s), " ") }

func seen(n *html.Node) string { return text(lib.NodeText(n)) }

// link is a local link
func (s *set) link(p *lib.Page, a *html.Node) (path string, query url.Values) {
	s.r.Count("links checked", 1)
	target, ok := p.Local(lib.Attr(a, "href"))
	u, err := url.Parse(target)
	if !ok || err != nil {
		return "not local: " + lib.Attr(a, "href"), nil
	}
	q, err := url.ParseQuery(u.RawQuery)
	if err != nil {
		return "bad query: " + lib.Attr(a, "href"), nil
	}
	return u.Path, q
}

// linkTo checks for a link to something with (or without) an uri
func (s *set) linkTo(p *lib.Page, a *html.Node, path, uri string) bool {
	got, q := s.link(p, a)
	if got != path || uri == "" && len(q) > 0 || uri != "" && (len(q) != 1 || len(q["uri"]) != 1 || q.Get("uri") != uri) {
		s.bad("wrong link", "%s: %q links to %q, want %s %q", p.Target, lib.NodeText(a), lib.Attr(a, "href"), path, uri)
		return false
	}
	return true
}

func (s *set) index() {
	if p := s.get("/", "text/html"); p != nil {
		var got, want []string
		for _, li := range lib.All(lib.One(p.DOM(), "main"), "li") {
			a := lib.One(li, "a")
			path, q := s.link(p, a)
			got = append(got, fmt.Sprintf("%q %q %d", squeeze(seen(li)), path, len(q)))
		}
		for _, b := range s.w.Bundles {
			want = append(want, fmt.Sprintf("%q %q 0", squeeze(text(b.Name)), "/bundle/"+b.ID))
		}
		sort.Strings(got)
		sort.Strings(want)
		if strings.Join(got, "\n") != strings.Join(want, "\n") {
			s.bad("wrong index", "%s", hx.DiffText(strings.Join(want, "\n"), strings.Join(got, "\n")))
		}
	}
	if p := s.get("/api/v1", "application/json"); p != nil {
		var got, want []string
		json.Unmarshal([]byte(p.Body), &got)
		for _, b := range s.w.Bundles {
			want = append(want, b.ID)
		}
		sort.Strings(got)
		sort.Strings(want)
		if fmt.Sprint(got) != fmt.Sprint(want) {
			s.bad("wrong index", "api lists %q, not %q", got, want)
		}
	}
}

func (s *set) bundle(b *world.Bundle) {
	var want []string
	for _, e := range s.data[b.ID] {
		want = append(want, string(e.URI))
	}
	if len(want) != len(s.ex.Bundles[b.ID]) {
		s.bad("loaded entities differ", "%d instead of %d", len(want), len(s.ex.Bundles[b.ID]))
	}
	if p := s.get("/api/v1/bundle/"+url.PathEscape(b.ID), "application/json"); p != nil {
		got := []string{}
		if err := json.Unmarshal([]byte(p.Body), &got); err != nil || strings.Join(got, "\n") != strings.Join(want, "\n") {
			s.bad("wrong list of entities", "%s: %v\n%s", p.Target, err, hx.DiffText(strings.Join(want, "\n"), strings.Join(got, "\n")))
		}
	}
	p := s.get("/bundle/"+url.PathEscape(b.ID), "text/html")
	if p == nil {
		return
	}
	if h1 := seen(lib.One(p.DOM(), "h1")); h1 != text(b.Name) {
		s.bad("wrong heading", "%s: %q is not %q", p.Target, h1, b.Name)
	}
	if title := seen(lib.One(p.DOM(), "title")); !strings.Contains(squeeze(title), squeeze(text(b.Name))) {
		s.bad("wrong title", "%s: %q", p.Target, title)
	}
	var got []string
	for i, li := range lib.All(lib.One(p.DOM(), "main"), "li") {
		uri := seen(li)
		if i < len(want) && uri == text(want[i]) {
			uri = want[i] // white space around it cannot be seen
		}
		got = append(got, uri)
		if !s.linkTo(p, lib.One(li, "a"), "/entity/"+b.ID, uri) {
			return
		}
	}
	if strings.Join(got, "\n") != strings.Join(want, "\n") {
		s.bad("wrong list of entities", "%s: %s", p.Target, hx.DiffText(strings.Join(want, "\n"), strings.Join(got, "\n")))
	}
}

// all statements of an entity, each once
func all(e *wisski.Entity) []igraph.Triple {
	m := map[impl.ID]igraph.Triple{}
	var walk func(e *wisski.Entity)
	walk = func(e *wisski.Entity) {
		add := func(ts []igraph.Triple) {
			for _, t := range ts {
				m[t.ID] = t
			}
		}
		add(e.Triples)
		for _, vs := range e.Fields {
			for _, v := range vs {
				add(v.Triples)
			}
		}
		for _, cs := range e.Children {
			for i := range cs {
				walk(&cs[i])
			}
		}
	}
	walk(e)
	var ts []igraph.Triple
	for _, t := range m {
		ts = append(ts, t)
	}
	return ts
}

func lines(ls []string) string {
	sort.Strings(ls)
	return strings.Join(ls, "\n")
}

// unescape resolves percent escapes, and leaves everything else
func unescape(s string) string {
	var sb strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '%' && i+2 < len(s) {
			if d, err := url.PathUnescape(s[i : i+3]); err == nil {
				sb.WriteString(d)
				i += 2
				continue
			}
		}
		sb.WriteByte(s[i])
	}
	return sb.String()
}

func (s *set) entity(b *world.Bundle, e *wisski.Entity) {
	uri := string(e.URI)
	names := s.ex.G.C.Members()[s.ex.G.C.Of(uri)]
	asked := []string{uri}
	if len(names) > 1 {
		if n := names[s.rnd.Intn(len(names))]; n != uri {
			asked = append(asked, n)
		}
	}
	for _, n := range asked {
		s.page(b, e, n)
		s.api(b, e, n)
	}
	s.api(b, e, uri)
}

// page checks the page of an entity that is asked for by one of its names
func (s *set) page(b *world.Bundle, e *wisski.Entity, asked string) {
	uri := string(e.URI)
	target := "/entity/" + url.PathEscape(b.ID) + "?uri=" + url.QueryEscape(asked)
	p := s.get(target, "text/html")
	if p == nil {
		return
	}
	if asked != uri {
		s.r.Count("entities asked for by another name", 1)
	}
	s.r.Count("entity pages", 1)
	dom := p.DOM()
	if h1 := seen(lib.One(dom, "h1")); h1 != text(uri) {
		s.bad("wrong heading", "%s: %q is not %q", target, h1, uri)
	}
	if title := seen(lib.One(dom, "title")); !strings.Contains(title, text(uri)) {
		s.bad("wrong title", "%s: %q", target, title)
	}
	nav := lib.All(lib.One(dom, "nav"), "a")
	if len(nav) != 2 || squeeze(seen(nav[1])) != squeeze("Bundle "+text(b.Name)) {
		s.bad("wrong navigation", "%s: %d links", target, len(nav))
	} else {
		s.linkTo(p, nav[0], "/", "")
		s.linkTo(p, nav[1], "/bundle/"+b.ID, "")
	}
	// the main part is a sequence: heading, table of the entity, heading of children, tables, aliases
	main := lib.One(dom, "main")
	type section struct {
		title  string
		tables []*html.Node
		list   *html.Node
	}
	var h2, title string
	var own []*html.Node
	var kids []*section
	var aliases []string
	for _, n := range lib.Kids(main) {
		switch n.Data {
		case "h2":
			h2, title = seen(n), ""
		case "h3":
			title = seen(n)
			kids = append(kids, &section{title: title})
		case "table":
			switch {
			case h2 == "Fields":
				own = append(own, n)
			case len(kids) > 0:
				kids[len(kids)-1].tables = append(kids[len(kids)-1].tables, n)
			}
		case "ul":
			for _, li := range lib.All(n, "li") {
				aliases = append(aliases, seen(li))
			}
		}
	}
	if len(own) != 1 {
		s.bad("wrong fields", "%s: %d tables", target, len(own))
		return
	}
	s.table(p, own[0], b, e, asked)
	// children
	var names []string
	for n, cs := range e.Children {
		if len(cs) > 0 {
			names = append(names, n)
		}
	}
	bundles := map[string]*world.Bundle{}
	for _, c := range b.Children {
		bundles[c.ID] = c
	}
	sort.Strings(names)
	used := map[int]bool{}
	for _, n := range names {
		c := bundles[n]
		if c == nil {
			s.bad("unknown child", "%s: %q", target, n)
			continue
		}
		// sections with the same name are told apart by what they show
		at := -1
		for i, k := range kids {
			if !used[i] && len(k.tables) == len(e.Children[n]) && squeeze(k.title) == squeeze(text(c.Name)) && s.same(k.tables, e.Children[n]) {
				at = i
				break
			}
		}
		if at < 0 {
			s.bad("children are not shown", "%s: %d of %q (%s), %d sections", target, len(e.Children[n]), n, c.Name, len(kids))
			continue
		}
		used[at] = true
		for i := range e.Children[n] {
			s.r.Count("children shown", 1)
			s.table(p, kids[at].tables[i], c, &e.Children[n][i], "")
		}
	}
	for i, k := range kids {
		if !used[i] && len(k.tables) > 0 {
			s.bad("something else is shown as child", "%s: %q", target, k.title)
		}
	}
	// aliases
	var want []string
	for _, l := range s.ex.G.C.Members()[s.ex.G.C.Of(uri)] {
		if l != uri {
			want = append(want, text(l))
		}
	}
	s.r.Count("aliases shown", len(aliases))
	if lines(aliases) != lines(want) {
		s.bad("wrong aliases", "%s: %q instead of %q", target, aliases, want)
	}
}

// same checks if tables show statements of some entities
func (s *set) same(tables []*html.Node, es []wisski.Entity) bool {
	for i, t := range tables {
		if s.statements(t) != wantStatements(&es[i]) {
			return false
		}
	}
	return true
}

func tt(l impl.Label) string { return text(string(l)) }

func wantStatements(e *wisski.Entity) string {
	var ls []string
	for _, t := range all(e) {
		x := fmt.Sprintf("%q %q %q %q", tt(t.Subject), tt(t.SSubject), tt(t.Predicate), tt(t.SPredicate))
		switch t.Role {
		case igraph.Data:
			x += fmt.Sprintf(" data %q @%s", text(string(t.Datum)), t.Language)
		case igraph.Inverse:
			x += fmt.Sprintf(" %q %q inverted", tt(t.Object), tt(t.SObject))
		default:
			x += fmt.Sprintf(" %q %q", tt(t.Object), tt(t.SObject))
		}
		ls = append(ls, x)
	}
	return lines(ls)
}

// statements reads the table of statements
func (s *set) statements(table *html.Node) string {
	var ls []string
	for _, t := range lib.All(table, "table") {
		if !lib.Class(t, "tripletable") {
			continue
		}
		for _, body := range lib.Kids(t, "tbody") {
			for _, tr := range lib.Kids(body, "tr") {
				tds := lib.Kids(tr, "td")
				if len(tds) != 4 {
					ls = append(ls, "bad row")
					continue
				}
				pair := func(td *html.Node) string {
					cs := lib.All(td, "code")
					switch len(cs) {
					case 1:
						return fmt.Sprintf("%q %q", seen(cs[0]), seen(cs[0]))
					case 2:
						return fmt.Sprintf("%q %q", seen(cs[0]), seen(cs[1]))
					}
					return "bad cell"
				}
				x := pair(tds[0]) + " " + pair(tds[1])
				kind := strings.Fields(lib.NodeText(tds[3]))
				switch {
				case len(kind) > 0 && kind[0] == "Data":
					lang := ""
					if len(kind) > 1 {
						lang = kind[1]
					}
					x += fmt.Sprintf(" data %q @%s", seen(tds[2]), lang)
				case len(kind) > 0 && kind[0] == "Inverted":
					x += " " + pair(tds[2]) + " inverted"
				case len(kind) == 0:
					x += " " + pair(tds[2])
				default:
					x += fmt.Sprint(" bad kind ", kind)
				}
				ls = append(ls, x)
			}
		}
	}
	return lines(ls)
}

// table checks what is shown about one entity
func (s *set) table(p *lib.Page, table *html.Node, b *world.Bundle, e *wisski.Entity, asked string) {
	where := p.Target + " " + string(e.URI)
	got, want := s.statements(table), wantStatements(e)
	s.r.Count("statements shown", len(all(e)))
	if got != want {
		s.bad("wrong statements", "%s: %s", where, hx.DiffText(want, got))
	}
	// highlighted are the names of this entity
	for _, c := range lib.All(table, "code") {
		if lib.Class(c, "highlight") != (lib.Class(c, "uri") && seen(c) == tt(e.URI)) {
			s.bad("wrong highlight", "%s: %q", where, seen(c))
			break
		}
	}
	s.graph(where, table, e)
	// links to downloads
	var downloads []string
	bodies := lib.Kids(table, "tbody")
	if len(bodies) != 2 {
		s.bad("unclear table", "%s: %d bodies", where, len(bodies))
		return
	}
	for _, tr := range lib.Kids(bodies[0], "tr") {
		for _, td := range lib.Kids(tr, "td") {
			for _, a := range lib.Kids(td, "a") {
				path, q := s.link(p, a)
				downloads = append(downloads, fmt.Sprintf("%s %s %q", seen(a), path, map[string][]string(q)))
			}
		}
	}
	var wantd []string
	top := asked != ""
	if top {
		q := fmt.Sprintf("%q", map[string][]string{"uri": {asked}})
		if asked != string(e.URI) && len(downloads) > 0 && strings.Contains(downloads[0], fmt.Sprintf("%q", string(e.URI))) {
			q = fmt.Sprintf("%q", map[string][]string{"uri": {string(e.URI)}})
		}
		wantd = []string{"NTriples /api/v1/ntriples/" + b.ID + " " + q, "Turtle /api/v1/turtle/" + b.ID + " " + q}
	}
	if lines(downloads) != lines(wantd) {
		s.bad("wrong downloads", "%s: %q instead of %q", where, downloads, wantd)
	}
	// fields and values
	type row struct {
		name, typ, count, card string
		values                 []*html.Node
	}
	var rows []*row
	for _, tr := range lib.Kids(bodies[1], "tr") {
		tds := lib.Kids(tr, "td")
		if len(tds) > 0 && lib.Class(tds[0], "collapse") {
			if len(tds) < 4 {
				s.bad("unclear row", "%s: %d cells", where, len(tds))
				return
			}
			c := strings.Fields(seen(tds[2]))
			x := &row{name: squeeze(seen(tds[0])), typ: seen(tds[1])}
			if len(c) == 3 {
				x.count, x.card = c[0], strings.TrimSuffix(c[2], ")")
			}
			rows = append(rows, x)
			tds = tds[3:]
		}
		if len(rows) == 0 {
			s.bad("unclear row", "%s", where)
			return
		}
		x := rows[len(rows)-1]
		if x.count == "0" && len(tds) == 1 && len(lib.Kids(tds[0])) == 0 && seen(tds[0]) == "" {
			continue // place of no values
		}
		if len(tds) == 0 {
			s.bad("unclear row", "%s", where)
			return
		}
		x.values = append(x.values, tr)
	}
	var pbb *pathbuilder.Bundle
	if top {
		pbb = s.pb.Bundle(b.ID)
	} else {
		pbb = s.pb.FindBundle(b.ID)
	}
	enabled := map[string]*world.Field{}
	for _, f := range b.Fields {
		enabled[f.Machine()] = f
	}
	at := 0
	for _, pf := range pbb.Fields() {
		f := enabled[pf.MachineName()]
		if f == nil {
			s.bad("unknown field", "%s: %q", where, pf.MachineName())
			return
		}
		vs := e.Fields[f.Machine()]
		if f.Disabled && (at >= len(rows) || rows[at].name != squeeze(text(f.Name))) {
			continue // need not be shown
		}
		if at >= len(rows) {
			s.bad("missing field", "%s: %q", where, f.Name)
			return
		}
		x := rows[at]
		at++
		if x.name != squeeze(text(f.Name)) || x.typ != text(f.Type) || x.count != fmt.Sprint(len(vs)) || x.card != fmt.Sprint(f.Cardinality) {
			s.bad("wrong field", "%s: %q %q %q %q instead of %q %q %d %d", where, x.name, x.typ, x.count, x.card, f.Name, f.Type, len(vs), f.Cardinality)
			return
		}
		if len(x.values) != len(vs) {
			s.bad("wrong number of values", "%s: %q has %d instead of %d", where, f.Name, len(x.values), len(vs))
			return
		}
		for i, v := range vs {
			s.value(p, where, x.values[i], f, v)
		}
	}
	if at != len(rows) {
		s.bad("more fields", "%s: %d instead of %d", where, len(rows), at)
	}
}

func (s *set) value(p *lib.Page, where string, tr *html.Node, f *world.Field, v wisski.FieldValue) {
	s.r.Count("values shown", 1)
	tds := lib.Kids(tr, "td")
	if len(tds) > 3 {
		tds = tds[3:]
	}
	lang, shown := lib.Attr(tds[0], "lang"), ""
	if len(tds) > 1 {
		shown = seen(tds[1])
	}
	if lang != string(v.Language) || shown != string(v.Language) {
		s.bad("wrong language", "%s: %q has %q and shows %q instead of %q", where, f.Name, lang, shown, v.Language)
	}
	if lang != "" {
		s.r.Count("values with a language", 1)
	}
	if f.Type == "text_long" && s.flags.HTMLRender {
		return // C18
	}
	value := string(v.Value)
	kids := lib.Kids(tds[0])
	if len(kids) != 1 {
		s.bad("unclear value", "%s: %q shows %d elements", where, f.Name, len(kids))
		return
	}
	el := kids[0]
	if f.Type == "image" && s.flags.ImageRender {
		imgs := lib.All(el, "img")
		if len(imgs) != 1 || el.Data != "a" {
			s.bad("no image", "%s: %q", where, f.Name)
			return
		}
		src := lib.Attr(imgs[0], "src")
		if lib.Attr(el, "href") != src {
			s.bad("wrong image", "%s: %q and %q", where, src, lib.Attr(el, "href"))
		}
		if s.flags.PublicURL == "" {
			s.outgoing(where, f.Name, value, src)
		}
		return
	}
	if seen(el) != text(value) {
		s.bad("wrong value", "%s: %q shows %q instead of %q", where, f.Name, seen(el), value)
		return
	}
	switch f.Type {
	case "entity_reference":
		if value == "" { // nothing to refer to
			return
		}
		s.linkTo(p, el, "/wisski/get", value)
	case "link", "image":
		if el.Data != "a" {
			s.bad("no link", "%s: %q", where, f.Name)
			return
		}
		s.outgoing(where, f.Name, value, lib.Attr(el, "href"))
	default:
		if el.Data == "a" {
			s.bad("value is a link", "%s: %q %q", where, f.Name, value)
		}
	}
}

// outgoing checks a reference that must lead to the value itself, if it is an url
func (s *set) outgoing(where, name, value, href string) {
	u, err := url.Parse(value)
	if err != nil || u.Scheme != "http" && u.Scheme != "https" {
		return // C17
	}
	s.r.Count("links checked", 1)
	if unescape(href) != unescape(value) {
		s.bad("wrong link", "%s: %q links to %q instead of %q", where, name, href, value)
	}
}

// graph checks the data for the graph
func (s *set) graph(where string, table *html.Node, e *wisski.Entity) {
	var scripts []*html.Node
	for _, n := range lib.All(table, "script") {
		if lib.Attr(n, "type") == "application/json" {
			scripts = append(scripts, n)
		}
	}
	if len(scripts) != 1 {
		s.bad("no graph", "%s: %d scripts", where, len(scripts))
		return
	}
	var g struct{ Triples, Data [][]string }
	dec := json.NewDecoder(strings.NewReader(lib.NodeText(scripts[0])))
	dec.DisallowUnknownFields()
	if err := dec.Decode(&g); err != nil {
		s.bad("bad graph", "%s: %v\n%s", where, err, lib.NodeText(scripts[0]))
		return
	}
	var got, want []string
	for _, t := range g.Triples {
		got = append(got, fmt.Sprintf("%q", t))
	}
	for _, t := range g.Data {
		got = append(got, fmt.Sprintf("data %q", t))
	}
	for _, t := range all(e) {
		if t.Role == igraph.Data {
			want = append(want, fmt.Sprintf("data %q", []string{string(t.SSubject), string(t.SPredicate), string(t.Datum)}))
		} else {
			want = append(want, fmt.Sprintf("%q", []string{string(t.SSubject), string(t.SPredicate), string(t.SObject)}))
		}
	}
	if lines(got) != lines(want) {
		s.bad("wrong graph", "%s: %s", where, hx.DiffText(lines(want), lines(got)))
	}
}

// clone makes an independent copy. Without ids of statements, the api does not give them.
func clone(e *wisski.Entity, anonymous bool) *wisski.Entity {
	trs := func(ts []igraph.Triple) (c []igraph.Triple) {
		for _, t := range ts {
			if anonymous {
				t.ID = impl.ID{}
			}
			c = append(c, t)
		}
		return
	}
	c := *e
	c.Path = append([]impl.Label(nil), e.Path...)
	c.Triples = trs(e.Triples)
	c.Fields = map[string][]wisski.FieldValue{}
	for n, vs := range e.Fields {
		for _, v := range vs {
			v.Path = append([]impl.Label(nil), v.Path...)
			v.Triples = trs(v.Triples)
			c.Fields[n] = append(c.Fields[n], v)
		}
	}
	c.Children = map[string][]wisski.Entity{}
	for n, es := range e.Children {
		for i := range es {
			c.Children[n] = append(c.Children[n], *clone(&es[i], anonymous))
		}
	}
	return &c
}

// api compares the answer of the api
func (s *set) api(b *world.Bundle, e *wisski.Entity, asked string) {
	p := s.get("/api/v1/entity/"+url.PathEscape(b.ID)+"?uri="+url.QueryEscape(asked), "application/json")
	if p == nil {
		return
	}
	var got wisski.Entity
	dec := json.NewDecoder(strings.NewReader(p.Body))
	if err := dec.Decode(&got); err != nil {
		s.bad("bad json", "%s: %v\n%s", p.Target, err, p.Body)
		return
	}
	if g, w := lib.EntityText(clone(&got, true)), lib.EntityText(clone(e, true)); g != w {
		s.bad("api gives other data", "%s: %s", p.Target, hx.DiffText(w, g))
	}
}

// pathbuilder checks the page about the pathbuilder
func (s *set) pathbuilder() {
	p := s.get("/pathbuilder", "text/html")
	if p == nil {
		return
	}
	nested := map[string]int{}
	var divs []*html.Node
	for _, n := range lib.All(p.DOM(), "div") {
		if lib.Class(n, "bundle-nested") {
			divs = append(divs, n)
		}
	}
	byID := map[string]*world.Bundle{}
	for _, b := range s.w.All() {
		byID[b.ID] = b
	}
	for _, d := range divs {
		id := ""
		if bs := lib.Kids(d, "b"); len(bs) == 1 {
			id = seen(bs[0])
		}
		b := byID[id]
		if b == nil {
			s.bad("wrong pathbuilder", "unknown bundle %q", id)
			return
		}
		nested[id]++
		parent := ""
		for n := d.Parent; n != nil; n = n.Parent {
			if n.Type == html.ElementNode && lib.Class(n, "bundle-nested") {
				parent = seen(lib.Kids(n, "b")[0])
				break
			}
		}
		if want := ""; b.Parent != nil && parent != b.Parent.ID || b.Parent == nil && parent != want {
			s.bad("wrong pathbuilder", "bundle %q is in %q", id, parent)
		}
		var got, want []string
		for _, k := range lib.Kids(d, "div") {
			if lib.Class(k, "bundle-nested") {
				continue
			}
			for _, body := range lib.All(k, "tbody") {
				for _, tr := range lib.Kids(body, "tr") {
					tds := lib.Kids(tr, "td")
					if len(tds) != 10 {
						s.bad("wrong pathbuilder", "%q: %d cells", id, len(tds))
						return
					}
					var paths []string
					for _, c := range lib.All(tds[7], "code") {
						paths = append(paths, seen(c))
					}
					typ := strings.Fields(seen(tds[5]))
					got = append(got, fmt.Sprintf("%q %q %q %s %q type %q card %s path %q datatype %q", seen(tds[0]), seen(tds[1]), seen(tds[2]), seen(tds[3]), squeeze(seen(tds[4])), typ[:max(0, len(typ)-2)], typ[len(typ)-1], paths, strings.TrimPrefix(seen(tds[8]), "empty")))
				}
			}
		}
		shown := strings.Join(got, "\n")
		for _, f := range b.Fields {
			paths := []string{}
			for _, x := range f.Path {
				paths = append(paths, text(x))
			}
			x := fmt.Sprintf("%q %q %q %v %q type %q card %d path %q datatype %q", f.ID, f.UUID, f.FieldID, !f.Disabled, squeeze(text(f.Name)), strings.Fields(f.Type), f.Cardinality, paths, f.DT())
			if f.Disabled && !strings.Contains(shown, x) {
				continue
			}
			want = append(want, x)
			s.r.Count("fields of the pathbuilder shown", 1)
		}
		if lines(got) != lines(want) {
			s.bad("wrong pathbuilder", "%q: %s", id, hx.DiffText(lines(want), lines(got)))
		}
	}
	for _, b := range s.w.All() {
		if n := nested[b.ID]; n != 1 && !(n == 0 && b.Disabled) {
			s.bad("wrong pathbuilder", "bundle %q is shown %d times", b.ID, n)
		}
	}
}

// others checks other pages
func (s *set) others() {
	for _, t := range []string{"/about", "/perf"} {
		s.get(t, "text/html")
	}
	for _, t := range []string{"/api/v1/perf", "/api/v1/progress"} {
		if p := s.get(t, "application/json"); p != nil && t == "/api/v1/progress" {
			var x struct{ Done bool }
			if json.Unmarshal([]byte(p.Body), &x) != nil || !x.Done {
				s.bad("progress is not done", "%s", p.Body)
			}
		}
	}
	if p := s.site.Get("/favicon.ico"); p.Bad() != "" || p.Status != 200 || p.Type() != "image/svg+xml" {
		s.bad("no icon", "%d %s", p.Status, p.Bad())
	}
	tipsy := strings.HasPrefix(s.flags.TipsyURL, "http://") || strings.HasPrefix(s.flags.TipsyURL, "https://")
	if !tipsy {
		if p := s.site.Get("/tipsy"); p.Bad() != "" || p.Status != 404 {
			s.bad("tipsy without url", "%d %s", p.Status, p.Bad())
		}
	} else if p := s.get("/tipsy", "text/html"); p != nil {
		var div *html.Node
		for _, n := range lib.All(p.DOM(), "div") {
			if lib.Attr(n, "id") == "tipsy" {
				div = n
			}
		}
		pb, err := pbxml.Unmarshal([]byte(lib.Attr(div, "data-data")))
		if err != nil || lib.PBText(&pb) != lib.PBText(s.pb) || lib.Attr(div, "data-url") != s.flags.TipsyURL {
			s.bad("tipsy shows another pathbuilder", "%q %v\n%s", lib.Attr(div, "data-url"), err, hx.DiffText(lib.PBText(s.pb), lib.PBText(&pb)))
		}
	}
	// everything that pages refer to is there
	for _, t := range []string{"/", "/about", "/pathbuilder", "/perf"} {
		p := s.site.Get(t)
		for _, n := range lib.All(p.DOM(), "*") {
			ref := lib.Attr(n, "src")
			if n.Data == "link" || n.Data == "a" {
				ref = lib.Attr(n, "href")
			}
			if !strings.HasPrefix(ref, "/") {
				continue
			}
			s.r.Count("links checked", 1)
			if target, ok := p.Local(ref); ok {
				if q, _ := s.site.Follow(target, 5); q.Bad() != "" || q.Status != 200 {
					s.bad("dead link", "%s: %s %d %s", t, ref, q.Status, q.Bad())
				}
			}
		}
	}
}

// missing asks for what does not exist
func (s *set) missing() {
	var targets []string
	add := func(t string) { targets = append(targets, t) }
	for _, t := range []string{"/nothing", "/index.html", "/bundle", "/bundle/", "/entity", "/entity/", "/api", "/api/", "/api/v2", "/api/v1/bundle", "/api/v1/entity", "/wisski", "/wisski/get", "/wisski/navigate//view", "/assets/nothing.js", "/api/v1/nothing", "/..", "/bundle/%2F", "/bundle/%00", "/%00"} {
		add(t)
	}
	uris := []string{"http://unknown.example/", "x", "%00"}
	var own []string
	in := map[string]map[string]bool{}
	for _, b := range s.w.Bundles {
		in[b.ID] = map[string]bool{}
		for _, e := range s.data[b.ID] {
			own = append(own, string(e.URI))
			c := s.ex.G.C.Of(string(e.URI))
			in[b.ID][c] = true
			for _, cs := range e.Children {
				for _, c := range cs {
					own = append(own, string(c.URI))
				}
			}
		}
	}
	s.rnd.Shuffle(len(own), func(i, j int) { own[i], own[j] = own[j], own[i] })
	uris = append(uris, own[:min(len(own), 12)]...)
	kinds := []string{"/entity/", "/api/v1/entity/", "/api/v1/ntriples/", "/api/v1/turtle/"}
	for _, u := range uris {
		for _, b := range s.w.All() {
			if b.Parent == nil && in[b.ID][s.ex.G.C.Of(u)] {
				continue
			}
			for _, k := range kinds {
				add(k + url.PathEscape(b.ID) + "?uri=" + url.QueryEscape(u))
			}
		}
		for _, k := range kinds {
			add(k + "nothing?uri=" + url.QueryEscape(u))
			add(k + "?uri=" + url.QueryEscape(u))
		}
	}
	for _, b := range s.w.All() {
		for _, k := range kinds {
			add(k + url.PathEscape(b.ID))
			add(k + url.PathEscape(b.ID) + "?uri=")
		}
		for _, k := range []string{"/bundle/", "/api/v1/bundle/"} {
			if b.Parent != nil {
				add(k + url.PathEscape(b.ID))
			}
			add(k + url.PathEscape(b.ID) + "x")
			add(k + url.PathEscape(b.ID) + "/x")
		}
	}
	names := map[string]bool{}
	for _, b := range s.w.Bundles {
		names[b.ID] = true
	}
	for _, t := range targets {
		u, err := url.Parse(t)
		if err != nil {
			continue
		}
		if i := strings.LastIndexByte(u.Path, '/'); strings.Contains(u.Path, "bundle/") && names[u.Path[i+1:]] {
			continue
		}
		p, _ := s.site.Follow(t, 3) // paths are cleaned first
		s.r.Count("requests for what does not exist", 1)
		if bad := p.Bad(); bad != "" || p.Status != 404 {
			if p.Target != t && p.Status == 200 && p.Target == "/" {
				continue // /..
			}
			s.bad("answer for something that does not exist", "%s: %d %s %s", t, p.Status, bad, p.Target)
		}
	}
}
