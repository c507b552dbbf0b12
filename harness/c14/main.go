// Command c14 monitors how names of entities are resolved.
package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"net/url"
	"os"
	"sort"
	"strings"

	"github.com/FAU-CDI/hangover/internal/glass"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/verifh/hx"
	"github.com/FAU-CDI/hangover/internal/verifh/lib"
	"github.com/FAU-CDI/hangover/internal/verifh/world"
	"github.com/FAU-CDI/hangover/internal/viewer"
	"github.com/FAU-CDI/hangover/internal/wisski"
)

func main() {
	hx.Main("C14", func(r *hx.R) {
		r.Rule("each evaluation resolves one name (or path below a public url) of a loaded or made dataset, written in one of several ways; the chain of redirects is followed and must end at the page of the entity with this name, under its canonical name, in a bundle that has it; names nobody has must give a 404; distinct by name, way of writing and target")
		r.Assume("ids of top-level groups contain no slash, question mark, hash sign or percent sign; names contain no line breaks and do not start or end with ascii spaces; paths below wisski are made of characters that are not escaped")
		r.Cases("world", r.Pick(160, 3000), func(name string, rnd *rand.Rand) { generated(r, name, rnd) })
		r.Cases("made", r.Pick(400, 8000), func(name string, rnd *rand.Rand) { made(r, name, rnd) })
		r.Require("names resolved", 5000)
		r.Require("other names resolved", 2000)
		r.Require("names with special characters", 2000)
		r.Require("public paths resolved", 300)
		r.Require("unknown names", 3000)
		r.Require("names of sub-entities only", 50)
	})
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// set is a site together with what is known about it
type set struct {
	r      *hx.R
	name   string
	rnd    *rand.Rand
	site   *lib.Site
	canon  map[string]string   // name -> canonical name
	in     map[string][]string // canonical name -> top-level bundles
	public []string            // urls with http and https
	dump   func() string
}

func (s *set) bad(sig, format string, args ...any) {
	s.r.Violation(s.name, sig, fmt.Sprintf(format, args...)+"\n"+s.dump())
}

func has(xs []string, x string) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

// text as it is seen on a page
func text(s string) string {
	return strings.TrimSpace(strings.NewReplacer("\r\n", "\n", "\r", "\n", "\x00", "\uFFFD").Replace(s))
}

// ways to write a name in a query
func (s *set) written(name string) string {
	q := url.QueryEscape(name)
	switch s.rnd.Intn(6) {
	case 0:
		return strings.ReplaceAll(q, "+", "%20")
	case 1: // every byte escaped, in small letters
		var sb strings.Builder
		for i := 0; i < len(name); i++ {
			fmt.Fprintf(&sb, "%%%02x", name[i])
		}
		return sb.String()
	case 2: // as little as possible
		var sb strings.Builder
		for i := 0; i < len(name); i++ {
			if c := name[i]; c <= ' ' || c >= 0x7f || strings.IndexByte("%&+;#\"<>\\^`{|}", c) >= 0 {
				fmt.Fprintf(&sb, "%%%02X", c)
			} else {
				sb.WriteByte(c)
			}
		}
		return sb.String()
	}
	return q
}

// arrives checks that a request ends at an entity
func (s *set) arrives(what, target string, canons ...string) {
	p, hops := s.site.Follow(target, 6)
	for _, h := range hops {
		if bad := h.Bad(); bad != "" {
			s.bad("bad response", "%s: %s", h.Target, bad)
			return
		}
	}
	trail := ""
	for _, h := range hops {
		trail += fmt.Sprintf("%d %s %q\n", h.Status, h.Target, h.Header.Get("Location"))
	}
	if p.Status != 200 {
		s.bad(what+" does not lead to the entity", "%s", trail)
		return
	}
	u, err := url.Parse(p.Target)
	if err != nil || !strings.HasPrefix(u.Path, "/entity/") {
		s.bad(what+" leads to something else", "%s", trail)
		return
	}
	bundle, uri := strings.TrimPrefix(u.Path, "/entity/"), u.Query().Get("uri")
	if !has(canons, uri) {
		s.bad(what+" leads to another or not the canonical name", "%swant %q", trail, canons)
		return
	}
	if !has(s.in[uri], bundle) {
		s.bad(what+" leads to another bundle", "%swant %q", trail, s.in[uri])
		return
	}
	if h1 := lib.NodeText(lib.One(p.DOM(), "h1")); text(h1) != text(uri) {
		s.bad(what+" leads to the page of another entity", "%sheading %q", trail, h1)
	}
}

// known checks a name
func (s *set) known(name string) {
	canon := s.canon[name]
	for i := 0; i < 2; i++ {
		q := s.written(name)
		s.arrives("name", "/wisski/get?uri="+q, canon)
		s.r.Count("names resolved", 1)
		if name != canon {
			s.r.Count("other names resolved", 1)
		}
		if url.QueryEscape(name) != strings.NewReplacer(":", "%3A", "/", "%2F").Replace(name) {
			s.r.Count("names with special characters", 1)
		}
		s.r.Eval(fmt.Sprintf("%s %q %s", s.name, name, q))
	}
	// the pages and api take every name directly
	for _, b := range s.in[canon] {
		q := url.PathEscape(b) + "?uri=" + s.written(name)
		p := s.site.Get("/entity/" + q)
		if bad := p.Bad(); bad != "" || p.Status != 200 || text(lib.NodeText(lib.One(p.DOM(), "h1"))) != text(canon) {
			s.bad("wrong page for a name", "%s: %d %s", p.Target, p.Status, bad)
		}
		p = s.site.Get("/api/v1/entity/" + q)
		var e wisski.Entity
		if bad := p.Bad(); bad != "" || p.Status != 200 || json.Unmarshal([]byte(p.Body), &e) != nil || string(e.URI) != strings.ToValidUTF8(canon, "\uFFFD") {
			s.bad("wrong answer for a name", "%s: %d %s %q", p.Target, p.Status, bad, e.URI)
		}
		s.r.Count("pages by name", 1)
	}
}

// unknown checks a name that no top-level entity has
func (s *set) unknown(name string) {
	if t := strings.TrimSpace(name); s.has(name) || s.has(t) || t == "" || strings.ContainsAny(name, "\r\n") {
		return
	}
	p := s.site.Get("/wisski/get?uri=" + s.written(name))
	s.r.Count("unknown names", 1)
	s.r.Eval(fmt.Sprintf("%s unknown %q", s.name, name))
	if bad := p.Bad(); bad != "" || p.Status != 404 {
		s.bad("unknown name found", "%s: %d %q %s", p.Target, p.Status, p.Header.Get("Location"), bad)
		return
	}
	// not in any bundle
	for b := range s.bundles() {
		for _, t := range []string{"/entity/", "/api/v1/entity/", "/api/v1/turtle/", "/api/v1/ntriples/"} {
			p := s.site.Get(t + url.PathEscape(b) + "?uri=" + s.written(name))
			if bad := p.Bad(); bad != "" || p.Status != 404 {
				s.bad("unknown name found", "%s: %d %s", p.Target, p.Status, bad)
				return
			}
		}
		break
	}
}

func (s *set) bundles() map[string]bool {
	bs := map[string]bool{}
	for _, l := range s.in {
		for _, b := range l {
			bs[b] = true
		}
	}
	return bs
}

// has checks if this is a name of an entity
func (s *set) has(name string) bool {
	c, ok := s.canon[name]
	return ok && len(s.in[c]) > 0
}

func (s *set) all(extra []string) {
	names := make([]string, 0, len(s.canon))
	for n := range s.canon {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if s.has(n) {
			s.known(n)
		} else {
			s.unknown(n)
		}
		s.unknown(n + "x")
		s.unknown(n + "%20")
		if u, err := url.QueryUnescape(n); err == nil {
			s.unknown(u)
		}
		s.unknown(url.QueryEscape(n))
		s.unknown(strings.ToUpper(n))
		s.unknown(strings.TrimSuffix(n, "/"))
		s.unknown(n + "/")
		if i := strings.IndexAny(n, "#?"); i > 0 {
			s.unknown(n[:i])
		}
		s.unknown(strings.Replace(n, "http:", "https:", 1))
	}
	for _, n := range extra {
		if !s.has(n) {
			s.r.Count("names of sub-entities only", 1)
			s.unknown(n)
		}
	}
	for _, n := range []string{"0", "\x00", "http://", "null", "<nil>", "_:b", "undefined"} {
		s.unknown(n)
	}
	if p := s.site.Get("/wisski/get"); p.Bad() != "" || p.Status != 404 {
		s.bad("no name", "%d %s", p.Status, p.Bad())
	}
	if p := s.site.Get("/wisski/get?uri="); p.Bad() != "" || p.Status != 404 {
		s.bad("no name", "%d %s", p.Status, p.Bad())
	}
}

// publics asks for paths
func (s *set) publics(ids []string) {
	for _, id := range ids {
		target := "/wisski/navigate/" + id + "/view"
		var want []string
		for _, pub := range s.public {
			n := strings.TrimSuffix(pub, "/") + target
			if s.has(n) && !has(want, s.canon[n]) {
				want = append(want, s.canon[n])
			}
		}
		s.r.Eval(fmt.Sprintf("%s public %s %d", s.name, id, len(want)))
		if len(want) == 0 {
			s.r.Count("public paths unknown", 1)
			if p, _ := s.site.Follow(target, 6); p.Bad() != "" || p.Status != 404 {
				s.bad("unknown path found", "%s: %d %s", p.Target, p.Status, p.Bad())
			}
			continue
		}
		s.arrives("path", target, want...)
		s.r.Count("public paths resolved", 1)
		if s.rnd.Intn(3) == 0 {
			s.arrives("path", target+"?a=b&uri=x", want...)
		}
	}
}

var bases = []string{"example.org", "example.org/sub/site", "data.example:8080", "public.example", "xn--tst-qla.example", "example.org:443", "a.example/~x/y+z"}

// publicURL makes a setting
func publicURL(rnd *rand.Rand) (setting string, urls []string) {
	n := 0
	if rnd.Intn(5) > 0 {
		n = 1 + rnd.Intn(3)
	}
	for i := 0; i < n; i++ {
		b := bases[rnd.Intn(len(bases))]
		if rnd.Intn(2) == 0 {
			b += "/"
		}
		setting += []string{"", " ", "\n"}[rnd.Intn(3)] + []string{"http://", "https://"}[rnd.Intn(2)] + b
		if i < n-1 || rnd.Intn(6) == 0 {
			setting += []string{",", ", ", "\n", ",\n", ",,", ", ,"}[rnd.Intn(6)]
		}
		urls = append(urls, "http://"+b, "https://"+b)
	}
	return
}

// generated uses a dataset
func generated(r *hx.R, name string, rnd *rand.Rand) {
	o := world.Default()
	o.BadIRI = rnd.Intn(2) == 0
	o.Alias, o.EqClass, o.Inv = 0.6, 0.2, 0.2
	o.BNodes = rnd.Intn(2) == 0
	w, ex := world.Generate(rnd, o)
	dir := r.Dir()
	defer os.RemoveAll(dir)
	xml, nq := lib.Files(w, dir)
	flags := lib.Flags(w, rnd)
	s := &set{r: r, name: name, rnd: rnd, canon: map[string]string{}, in: map[string][]string{}, dump: func() string { return lib.Dump(w) }}
	flags.PublicURL, s.public = publicURL(rnd)
	if rnd.Intn(2) == 0 {
		flags.PublicURL, s.public = "https://public.example/", []string{"http://public.example", "https://public.example"}
	}
	g, err := glass.Create(xml, nq, "", flags, nil)
	if err != nil {
		r.Violation(name, "loading fails: "+err.Error(), lib.Dump(w))
		return
	}
	s.site = lib.NewSite(g.Cache, &g.Pathbuilder, flags)
	classes := map[string][]string{} // class -> names
	for _, l := range lib.WorldLabels(w) {
		c := ex.G.C.Of(l)
		classes[c] = append(classes[c], l)
	}
	var subs []string
	var walk func(es []wisski.Entity)
	walk = func(es []wisski.Entity) {
		for _, e := range es {
			for _, cs := range e.Children {
				for _, c := range cs {
					subs = append(subs, string(c.URI))
				}
				walk(cs)
			}
		}
	}
	for _, b := range w.Bundles {
		es := g.Cache.Entities(b.ID)
		walk(es)
		for _, e := range es {
			uri := string(e.URI)
			s.in[uri] = append(s.in[uri], b.ID)
			s.canon[uri] = uri
			for _, n := range classes[ex.G.C.Of(uri)] {
				s.canon[n] = uri
			}
		}
	}
	if len(s.in) == 0 {
		return
	}
	// one name per class is canonical
	for uri := range s.in {
		if s.canon[uri] != uri {
			r.Count("worlds with two names for an entity", 1)
			return
		}
	}
	for l := range ex.G.C.Members() {
		if _, ok := s.canon[l]; !ok {
			subs = append(subs, l)
		}
	}
	s.all(subs)
	var ids []string
	for i := 0; i < 40; i++ {
		ids = append(ids, fmt.Sprint(i))
	}
	s.publics(ids)
}

var parts = []string{
	"a", "B", "1", "/", "/", "?", "#", "&", "=", "+", "%20", "%", "%2F", "%zz", "ü", "é", "日本", "\U0001F600", "'", "(", ")", "!", "*", "$", ",", ";", ":", "@", "~", ".", "-", "_", "//", "/../", "/./", "amp;", "\"", "<b>", "|", "{x}", "^", "`", "\\", "%00", "%0A", "uri=", "&uri=", "?uri=", "\u00a0", "\u3000", "\u0085", "\u200b", "\ufeff", "\u2028", "é", "[", "]", "\uFFFD", "\x7f", " ",
}

// made uses a made dataset with unusual names
func made(r *hx.R, name string, rnd *rand.Rand) {
	s := &set{r: r, name: name, rnd: rnd, canon: map[string]string{}, in: map[string][]string{}}
	var flags viewer.RenderFlags
	flags.PublicURL, s.public = publicURL(rnd)
	var ids []string
	newName := func() string {
		for {
			n := []string{"http://example.org/", "http://example.org/", "urn:", "https://ex.example/x?y=", "mailto:"}[rnd.Intn(5)]
			if len(s.public) > 0 && rnd.Intn(3) == 0 {
				id := []string{"1", "23", "4567", "a-b", "x~y", "v1.2", "1_2"}[rnd.Intn(7)]
				ids = append(ids, id)
				n = strings.TrimSuffix(s.public[rnd.Intn(len(s.public))], "/") + "/wisski/navigate/" + id + "/view"
			} else {
				for i := rnd.Intn(7); i >= 0; i-- {
					n += parts[rnd.Intn(len(parts))]
				}
			}
			if _, ok := s.canon[n]; !ok && strings.Trim(n, " \t\r\n\f\v") == n {
				return n
			}
		}
	}
	machines := []string{"one", "zwei-ä", "a b", "x+y&z=1", "q'\"<i>", "日本"}
	rnd.Shuffle(len(machines), func(i, j int) { machines[i], machines[j] = machines[j], machines[i] })
	machines = machines[:1+rnd.Intn(4)]
	data := map[string][]wisski.Entity{}
	var bundles []*world.Bundle
	var ident [][2]string
	var canons []string
	for i, m := range machines {
		bundles = append(bundles, &world.Bundle{ID: m, BundleID: fmt.Sprintf("b%d", i), Name: "Bundle " + m, Path: []string{"http://c/C"},
			Children: []*world.Bundle{{ID: fmt.Sprintf("sub%d", i), BundleID: fmt.Sprintf("c%d", i), Name: "sub", Path: []string{"http://c/C", "http://c/p", "http://c/D"}}}})
		data[m] = nil
	}
	ambiguous := rnd.Intn(3) == 0
	var subs []string
	for i := 1 + rnd.Intn(8); i > 0; i-- {
		n := newName()
		canons = append(canons, n)
		s.canon[n] = n
		for _, j := range rnd.Perm(len(machines)) {
			m := machines[j]
			e := wisski.Entity{URI: impl.Label(n), Path: []impl.Label{impl.Label(n)}}
			if rnd.Intn(3) == 0 {
				sub := newName()
				s.canon[sub] = sub
				subs = append(subs, sub)
				e.Children = map[string][]wisski.Entity{fmt.Sprintf("sub%d", j): {{URI: impl.Label(sub)}}}
			}
			data[m] = append(data[m], e)
			s.in[n] = append(s.in[n], m)
			if !ambiguous || rnd.Intn(2) == 0 {
				break
			}
		}
		for j := rnd.Intn(4); j > 0; j-- {
			a := newName()
			s.canon[a] = n
			ident = append(ident, [2]string{a, n})
		}
	}
	// aliases of something that is no entity
	for j := rnd.Intn(2); j > 0; j-- {
		a, n := newName(), newName()
		if a != n {
			s.canon[n], s.canon[a] = n, n
			ident = append(ident, [2]string{a, n})
		}
	}
	for _, list := range data {
		rnd.Shuffle(len(list), func(i, j int) { list[i], list[j] = list[j], list[i] })
	}
	s.dump = func() string { return fmt.Sprintf("public %q\nnames %q\nbundles %q", flags.PublicURL, s.canon, s.in) }
	pb, err := lib.PBOf(bundles...)
	must(err)
	c, err := lib.NewCache(data, ident)
	must(err)
	s.site = lib.NewSite(c, pb, flags)
	s.all(subs)
	s.publics(append(ids, "1", "2", "nobody"))
}
