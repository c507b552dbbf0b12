// Command c11 monitors the downloads of statements.
package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"net/url"
	"os"
	"sort"
	"strings"

	"github.com/FAU-CDI/hangover/internal/glass"
	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/verifh/hx"
	"github.com/FAU-CDI/hangover/internal/verifh/lib"
	"github.com/FAU-CDI/hangover/internal/verifh/rdfx"
	"github.com/FAU-CDI/hangover/internal/verifh/world"
	"github.com/FAU-CDI/hangover/internal/viewer"
	"github.com/FAU-CDI/hangover/internal/wisski"
	"github.com/anglo-korean/rdf"
)

func main() {
	hx.Main("C11", func(r *hx.R) {
		r.Rule("each evaluation downloads the statements of one entity, in one format and by one of its names; the download is read by an independent strict parser, and the statements are compared with those collected from the entity, its values and children; distinct by statements; non-trivial: several statements")
		r.Assume("iris are valid; the class of all types (rdf:type) is not itself used as subject or object; a literal statement that is stored more than once may be written once or as often")
		r.Cases("world", r.Pick(200, 4000), func(name string, rnd *rand.Rand) { generated(r, name, rnd) })
		r.Cases("made", r.Pick(1500, 40000), func(name string, rnd *rand.Rand) { made(r, name, rnd) })
		r.Require("downloads", 5000)
		r.Require("statements", 50000)
		r.Require("literals", 10000)
		r.Require("literals with a language", 2000)
		r.Require("empty literals", 100)
		r.Require("shared statements", 1000)
		r.Require("statements of children", 2000)
	})
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

type set struct {
	r      *hx.R
	name   string
	site   *lib.Site
	blanks map[string]bool // labels of blank nodes
	dump   func() string
}

func (s *set) bad(sig, format string, args ...any) {
	s.r.Violation(s.name, sig, hx.Trunc(fmt.Sprintf(format, args...), 6000)+"\n"+s.dump())
}

// statements collects the statements of an entity: text -> number of different statements with this text
func (s *set) statements(e *wisski.Entity, canonical bool) map[string]int {
	ids := map[impl.ID]igraph.Triple{}
	add := func(ts []igraph.Triple) {
		for _, t := range ts {
			if _, ok := ids[t.ID]; ok {
				s.r.Count("shared statements", 1)
			}
			ids[t.ID] = t
		}
	}
	var walk func(e *wisski.Entity)
	walk = func(e *wisski.Entity) {
		add(e.Triples)
		for _, vs := range e.Fields {
			for _, v := range vs {
				add(v.Triples)
			}
		}
		for _, cs := range e.Children {
			for i := range cs {
				n := len(ids)
				walk(&cs[i])
				s.r.Count("statements of children", len(ids)-n)
			}
		}
	}
	walk(e)
	m := map[string]int{}
	for _, t := range ids {
		x := rdfx.Triple{S: iri(t.Subject), P: iri(t.Predicate), O: iri(t.Object)}
		if canonical {
			x = rdfx.Triple{S: iri(t.SSubject), P: iri(t.SPredicate), O: iri(t.SObject)}
		}
		if t.Role == igraph.Data {
			x.O = rdfx.Term{Kind: 'l', V: string(t.Datum), Lang: string(t.Language)}
		}
		m[x.String()]++
	}
	return m
}

func iri(l impl.Label) rdfx.Term { return rdfx.Term{Kind: 'i', V: string(l)} }

// compare compares a file with what it should have
func (s *set) compare(what, body string, turtle bool, want map[string]int) {
	read := rdfx.NTriples
	if turtle {
		read = rdfx.Turtle
	}
	ts, err := read(body)
	if err != nil {
		s.bad("not well-formed", "%s: %v\n%s", what, err, body)
		return
	}
	got := map[string]int{}
	var order []string
	for _, t := range ts {
		for _, x := range []*rdfx.Term{&t.S, &t.P, &t.O} {
			if x.Kind == 'b' { // would be right
				*x = rdfx.Term{Kind: 'i', V: x.V}
			} else if x.Kind == 'i' && !rdfx.Absolute(x.V) {
				if s.blanks[x.V] {
					s.r.Known("blank-node", "blank nodes are written as iris")
				} else {
					s.bad("not absolute", "%s: <%s>\n%s", what, x.V, body)
					return
				}
			}
		}
		if t.O.Kind == 'l' {
			s.r.Count("literals", 1)
			if t.O.V == "" {
				s.r.Count("empty literals", 1)
			}
			if t.O.Lang != "" {
				s.r.Count("literals with a language", 1)
			}
		}
		got[t.String()]++
		order = append(order, t.String())
	}
	s.r.Count("statements", len(ts))
	for k, n := range got {
		switch {
		case want[k] == 0:
			s.bad("statement that does not belong to the entity", "%s: %s\n%s", what, k, body)
			return
		case n > want[k]:
			s.bad("repeated statement", "%s: %s is written %d times\n%s", what, k, n, body)
			return
		}
	}
	for k := range want {
		if got[k] == 0 {
			s.bad("missing statement", "%s: %s\n%s", what, k, body)
			return
		}
	}
	sort.Strings(order)
	s.r.Eval(fmt.Sprintf("%v %s", turtle, strings.Join(order, "\n")))
}

func (s *set) entity(bundle, uri string, e *wisski.Entity) {
	want := s.statements(e, true)
	for _, f := range []struct {
		path, typ, ext string
		turtle         bool
	}{{"ntriples", "application/n-triples", ".nt", false}, {"turtle", "text/turtle", ".ttl", true}} {
		p := s.site.Get("/api/v1/" + f.path + "/" + url.PathEscape(bundle) + "?uri=" + url.QueryEscape(uri))
		s.r.Count("downloads", 1)
		if bad := p.Bad(); bad != "" || p.Status != 200 {
			s.bad("no download", "%s: %d %s", p.Target, p.Status, bad)
			return
		}
		if p.Type() != f.typ || !strings.HasPrefix(p.Header.Get("Content-Disposition"), "attachment") || !strings.Contains(p.Header.Get("Content-Disposition"), f.ext) {
			s.bad("wrong headers", "%s: %q", p.Target, p.Header)
			return
		}
		s.compare(p.Target, p.Body, f.turtle, want)
	}
	// with the names as they were found
	var buf bytes.Buffer
	if err := e.WriteAllTriples(&buf, false, rdf.NTriples); err != nil {
		s.bad("no download", "literal names: %v", err)
		return
	}
	s.compare("literal names of "+uri, buf.String(), false, s.statements(e, false))
	s.r.Count("downloads", 1)
	// the same statements in the same order every time
	var again bytes.Buffer
	if err := e.WriteAllTriples(&again, false, rdf.NTriples); err != nil || again.String() != buf.String() {
		s.bad("other order", "%v", err)
	}
}

func generated(r *hx.R, name string, rnd *rand.Rand) {
	o := world.Default()
	o.Alias, o.EqClass, o.EqProp, o.Inv = 0.4, 0.2, 0.2, 0.4
	o.BNodes = rnd.Intn(4) == 0
	o.IRIData = rnd.Intn(2) == 0
	o.Hostile = 0.6
	o.Depth = 3
	w, ex := world.Generate(rnd, o)
	dir := r.Dir()
	defer os.RemoveAll(dir)
	xml, nq := lib.Files(w, dir)
	flags := lib.Flags(w, rnd)
	g, err := glass.Create(xml, nq, "", flags, nil)
	if err != nil {
		r.Violation(name, "loading fails: "+err.Error(), lib.Dump(w))
		return
	}
	s := &set{r: r, name: name, site: lib.NewSite(g.Cache, &g.Pathbuilder, flags), blanks: map[string]bool{}, dump: func() string { return lib.Dump(w) }}
	for _, q := range w.Quads {
		for _, t := range []world.Term{q.S, q.O} {
			if t.Kind == world.BNode {
				s.blanks[t.V] = true
			}
		}
	}
	names := map[string][]string{}
	for _, l := range lib.WorldLabels(w) {
		names[ex.G.C.Of(l)] = append(names[ex.G.C.Of(l)], l)
	}
	for _, b := range w.Bundles {
		es := g.Cache.Entities(b.ID)
		for i := range es {
			uri := string(es[i].URI)
			if ns := names[ex.G.C.Of(uri)]; rnd.Intn(2) == 0 && len(ns) > 0 {
				uri = ns[rnd.Intn(len(ns))]
			}
			s.entity(b.ID, uri, &es[i])
		}
	}
}

var iriParts = []string{"a", "B", "1", "0", "/", "/", "#", "?", "&", "=", "+", "%20", "%2F", "ü", "日本", "\U0001F600", "'", "(", ")", "!", "*", "$", ",", ";", ":", "@", "~", ".", "-", "_", "//", "..", "\u00a0", "\u00b7", "\u0300", "\u203f", "[", "]", "\u0085", "#.", "/.", "x.", ":a", "é", "%zz", "%"}
var iriStarts = []string{"http://example.org/", "http://example.org/ns#", "https://ex.example/x?y=", "urn:", "mailto:", "http://example.org", "http://a/b/c/"}
var tags = []string{"", "", "", "en", "de", "en-US", "zh-Hant-TW", "de-CH-1996", "x-private", "EN", "sl-rozaj-biske-1994", "a", "i-klingon", "de-DE-u-co-phonebk", "es-419"}
var litParts = []string{"", "a", "\"", "\\", "\n", "\r", "\t", "\b", "\f", "\x00", "\x01", "\x7f", "\u0085", "\u2028", "ü", "日本", "\U0001F600", "\\u0041", "\\n", "'", "\"\"\"", "'''", " ", "<", ">", ".", ";", ",", "#", "@en", "^^<x>", "\ufeff", "\ufffd", "\ufffe", "%", "\\\"", "e\u0301", "long text ", "\U0010FFFF", "\ue000"}

func made(r *hx.R, name string, rnd *rand.Rand) {
	var pool []string
	for i := 0; i < 14; i++ {
		n := iriStarts[rnd.Intn(len(iriStarts))]
		for j := rnd.Intn(6); j > 0; j-- {
			n += iriParts[rnd.Intn(len(iriParts))]
		}
		pool = append(pool, n)
	}
	any := func() impl.Label { return impl.Label(pool[rnd.Intn(len(pool))]) }
	pred := func() (l impl.Label) {
		if rnd.Intn(4) == 0 {
			return world.RDFType
		}
		return any()
	}
	var id impl.ID
	var all []igraph.Triple
	seen := map[string]bool{}
	triple := func() igraph.Triple {
		if len(all) > 0 && rnd.Intn(4) == 0 {
			return all[rnd.Intn(len(all))]
		}
		for {
			t := igraph.Triple{Subject: any(), Predicate: pred(), SSubject: any(), SPredicate: pred()}
			if rnd.Intn(3) == 0 && len(all) > 0 { // same subject
				t.SSubject = all[len(all)-1].SSubject
				if rnd.Intn(2) == 0 {
					t.SPredicate = all[len(all)-1].SPredicate
				}
			}
			t.Role = igraph.Role(rnd.Intn(3))
			key := fmt.Sprint(t.SSubject, " ", t.SPredicate, " ")
			if t.Role == igraph.Data {
				v := ""
				for j := rnd.Intn(6); j > 0; j-- {
					v += litParts[rnd.Intn(len(litParts))]
				}
				t.Datum, t.Language = impl.Datum(v), impl.Language(tags[rnd.Intn(len(tags))])
				key += fmt.Sprintf("%q@%s", v, t.Language)
			} else {
				t.Object, t.SObject = any(), any()
				key += string(t.SObject)
			}
			if seen[key] && rnd.Intn(10) > 0 {
				continue
			}
			seen[key] = true
			id.Inc()
			t.ID = id
			all = append(all, t)
			return t
		}
	}
	triples := func() (ts []igraph.Triple) {
		for i := rnd.Intn(5); i > 0; i-- {
			ts = append(ts, triple())
		}
		return
	}
	var entity func(depth int) wisski.Entity
	entity = func(depth int) (e wisski.Entity) {
		e.URI = any()
		e.Triples = triples()
		if rnd.Intn(4) > 0 {
			e.Fields = map[string][]wisski.FieldValue{}
			for i := rnd.Intn(4); i > 0; i-- {
				var vs []wisski.FieldValue
				for j := rnd.Intn(3); j > 0; j-- {
					vs = append(vs, wisski.FieldValue{Value: "x", Triples: triples()})
				}
				e.Fields[fmt.Sprintf("f%d", i)] = vs
			}
		}
		if depth > 0 {
			e.Children = map[string][]wisski.Entity{}
			for i := rnd.Intn(3); i > 0; i-- {
				for j := rnd.Intn(3); j > 0; j-- {
					e.Children[fmt.Sprintf("c%d", i)] = append(e.Children[fmt.Sprintf("c%d", i)], entity(depth-1))
				}
			}
		}
		return
	}
	e := entity(rnd.Intn(4))
	pb, err := lib.PBOf(&world.Bundle{ID: "b", BundleID: "b1", Name: "b", Path: []string{"http://c/C"}})
	must(err)
	alias := "http://alias.example/" + name
	c, err := lib.NewCache(map[string][]wisski.Entity{"b": {{URI: "http://other.example/", Triples: triples()}, e}}, [][2]string{{alias, string(e.URI)}})
	must(err)
	uri := string(e.URI)
	if rnd.Intn(2) == 0 {
		uri = alias
	}
	s := &set{r: r, name: name, site: lib.NewSite(c, pb, viewer.RenderFlags{}), dump: func() string { return "" }}
	s.entity("b", uri, &e)
}
