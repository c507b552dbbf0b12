// Command c07 monitors that literals survive from the file to every output.
package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"unicode/utf8"

	"github.com/FAU-CDI/hangover/internal/glass"
	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/verifh/hx"
	"github.com/FAU-CDI/hangover/internal/verifh/lib"
	"github.com/FAU-CDI/hangover/internal/verifh/rdfx"
	"github.com/FAU-CDI/hangover/internal/verifh/world"
	"github.com/FAU-CDI/hangover/internal/viewer"
	"github.com/FAU-CDI/hangover/internal/wisski"
)

func main() {
	hx.Main("C07", func(r *hx.R) {
		r.Rule("each evaluation is one literal of an n-quads file, written with random escapes, language or datatype, followed into the token of the source, the loaded entity (memory, cache directory, imported index), the JSON API and the n-triples download; distinct by the text of the statement")
		r.Assume("literals contain no invalid utf-8 and no surrogates; no statement is repeated; literals of datatypes other than xsd:string only have to yield one value")
		r.Cases("file", r.Pick(360, 6000), func(name string, rnd *rand.Rand) { file(r, name, rnd, 0) })
		r.Cases("runes", r.Pick(24, 200), func(name string, rnd *rand.Rand) { file(r, name, rnd, 1) })
		r.Cases("long", r.Pick(8, 60), func(name string, rnd *rand.Rand) { file(r, name, rnd, 2) })
		r.Require("plain literals", 1500)
		r.Require("literals with a language", 2000)
		r.Require("literals of type xsd:string", 300)
		r.Require("literals of other datatypes", 300)
		r.Require("values in entities", 8000)
		r.Require("values in the api", 4000)
		r.Require("values in downloads", 4000)
		r.Require("values in imported indexes", 4000)
		r.Require("bytes in the longest literal", 4000000)
		r.Require("different characters", 10000)
	})
}

const xsd = "http://www.w3.org/2001/XMLSchema#"

// lit is a literal, as it is meant
type lit struct {
	text, lang string
	typ        string // datatype
	src        string // as written in the file
}

var pieces = []string{"\"@", "\"@en", "\"^^<", "\"^^<http://x.example/t>", "\"", "\\", "\\\\", "\\\"", "@", "^^", "<", ">", " .", ".", "#", " # ", "\n", "\r", "\r\n", "\t", "\b", "\f", "\x00", "\x01", "\x7f", "\u0080", "\u0085", "\u00a0", "\u2028", "\u2029", "\ufeff", "\uffff", "\ufffd", "\U0010ffff", "\U0001f600", "e\u0301", "\u00e9", "\u1e9e", "\ufb01", " ", "  ", "\\u0041", "\\n", "\\t", "\\U0001F600", "_:", "_:b0", "<http://x.example/>", "en", "'", "''", "`", "%", "%41", "&amp;", "&", "<b>", "</b>", "null", "0", "00", "-0", "1.0", "true", "\u202e", "\u200b", "A", "a", "\u0130", "\u212a", "日本", "x", "{{.}}", "$1"}

var langs = []string{"en", "de", "EN", "en-US", "en-us", "de-x-private", "zh-Hans-CN", "a-b2-3c", "x-klingon", "fr-Latn-FR-1694acad", "i-default", "e"}
var types = []string{xsd + "integer", xsd + "int", xsd + "decimal", xsd + "double", xsd + "float", xsd + "boolean", xsd + "dateTime", xsd + "date", xsd + "gYear", xsd + "anyURI", xsd + "token", "http://schema.org/Text", "http://schema.org/Integer", "http://schema.org/DateTime", "http://schema.org/Boolean", "http://x.example/type", "http://www.w3.org/1999/02/22-rdf-syntax-ns#HTML", "http://www.w3.org/1999/02/22-rdf-syntax-ns#XMLLiteral"}
var lexical = []string{"1", "01", "-5", "+7", "99999999999999999999999", "1.50", "1e3", "NaN", "INF", "true", "false", "1", "2020-01-02T03:04:05Z", "2020-01-02T03:04:05.123+02:00", "2020-02-30", "2020", "http://x.example/", "", " ", "abc", "<b>x</b>", "not a number", "\n"}

func text(rnd *rand.Rand, kind int) string {
	var sb strings.Builder
	switch kind {
	case 1: // any characters
		n := 1 + rnd.Intn(400)
		for i := 0; i < n; i++ {
			r := rune(rnd.Intn([]int{0x80, 0x800, 0x10000, 0x110000}[rnd.Intn(4)]))
			if utf8.ValidRune(r) {
				sb.WriteRune(r)
			}
		}
	case 2:
		size := []int{4000, 4095, 4096, 4097, 65535, 65536, 65537, 300000, 1 << 20, 4 << 20}[rnd.Intn(10)]
		for sb.Len() < size {
			if rnd.Intn(20) == 0 {
				sb.WriteString(pieces[rnd.Intn(len(pieces))])
			} else {
				sb.WriteString("some more text, ")
			}
		}
	default:
		switch rnd.Intn(8) {
		case 0:
			return world.HostileLiterals[rnd.Intn(len(world.HostileLiterals))]
		case 1:
			return lexical[rnd.Intn(len(lexical))]
		}
		for i := rnd.Intn(7); i > 0; i-- {
			sb.WriteString(pieces[rnd.Intn(len(pieces))])
		}
	}
	return sb.String()
}

// write writes a literal in one of the ways the grammar allows. how: 0 shortest, 1 everything escaped, 2 mixed
func write(s string, rnd *rand.Rand, how int) string {
	var sb strings.Builder
	sb.WriteByte('"')
	esc := func(r rune) {
		if r > 0xffff || rnd.Intn(6) == 0 {
			fmt.Fprintf(&sb, []string{"\\U%08X", "\\U%08x"}[rnd.Intn(2)], r)
		} else {
			fmt.Fprintf(&sb, []string{"\\u%04X", "\\u%04x"}[rnd.Intn(2)], r)
		}
	}
	for _, r := range s {
		short := map[rune]string{'\t': "\\t", '\b': "\\b", '\n': "\\n", '\r': "\\r", '\f': "\\f", '"': "\\\"", '\'': "\\'", '\\': "\\\\"}[r]
		must := r == '"' || r == '\\' || r == '\n' || r == '\r'
		choice := 0 // as it is
		switch {
		case how == 1:
			choice = 2
		case how == 2:
			choice = rnd.Intn(3)
		}
		if must && choice == 0 {
			choice = 1
		}
		switch {
		case choice == 1 && short != "":
			sb.WriteString(short)
		case choice == 2:
			esc(r)
		default:
			sb.WriteRune(r)
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

func literal(rnd *rand.Rand, kind int) (l lit) {
	l.text = text(rnd, kind)
	how := rnd.Intn(3)
	if len(l.text) > 100000 && how > 0 {
		how = 2 * rnd.Intn(2)
	}
	l.src = write(l.text, rnd, how)
	switch rnd.Intn(10) {
	case 0, 1, 2:
		l.lang = langs[rnd.Intn(len(langs))]
		l.src += "@" + l.lang
	case 3:
		l.typ = xsd + "string"
		l.src += "^^<" + l.typ + ">"
	case 4:
		if kind == 0 {
			l.typ = types[rnd.Intn(len(types))]
			if rnd.Intn(2) == 0 {
				l.text = lexical[rnd.Intn(len(lexical))]
				l.src = write(l.text, rnd, how)
			}
			l.src += "^^<" + l.typ + ">"
		}
	}
	return
}

func (l lit) exact() bool { return l.typ == "" || l.typ == xsd+"string" }

// got is a value that came out
type got struct{ text, lang string }

func file(r *hx.R, name string, rnd *rand.Rand, kind int) {
	const typ = "http://onto.example/T"
	b := &world.Bundle{ID: "b", BundleID: "b", Name: "b", Path: []string{typ}, Cardinality: -1}
	c := &world.Bundle{ID: "c", BundleID: "c", Name: "c", Path: []string{typ, "http://onto.example/p", "http://onto.example/D"}, Parent: b, Cardinality: -1}
	b.Children = []*world.Bundle{c}
	nf := 1 + rnd.Intn(4)
	for i := 0; i < nf; i++ {
		id := fmt.Sprintf("f%d", i)
		b.Fields = append(b.Fields, &world.Field{ID: id, FieldID: id, Name: id, Type: "string", Path: b.Path, Datatype: "http://onto.example/" + id, Cardinality: -1})
	}
	c.Fields = []*world.Field{{ID: "g", FieldID: "g", Name: "g", Type: "string", Path: c.Path, Datatype: "http://onto.example/g", Cardinality: -1}}
	w := &world.World{Bundles: []*world.Bundle{b}, SameAsPreds: []string{world.SameAs}, InversePreds: []string{world.Inverse}}

	var lines []string
	sep := func() string { return []string{" ", " ", "\t", "  ", " \t "}[rnd.Intn(5)] }
	statement := func(s, p, o string) {
		g := ""
		if rnd.Intn(4) == 0 {
			g = sep() + "<http://graph.example/" + fmt.Sprint(rnd.Intn(3)) + ">"
		}
		lines = append(lines, s+sep()+p+sep()+o+g+sep()+".")
	}
	iri := func(s string) string { return "<" + s + ">" }

	// what is meant, by entity and field
	want := map[string]map[string][]lit{}
	entities := 1 + rnd.Intn(5)
	if kind == 2 {
		entities = 1
	}
	pool := []lit{}
	used := map[string]bool{}
	fill := func(e, subject, f string) {
		n := rnd.Intn(5)
		if kind == 2 {
			n = 1 + rnd.Intn(2)
		}
		for k := 0; k < n; k++ {
			l := literal(rnd, kind)
			if len(pool) > 0 && rnd.Intn(3) == 0 {
				// the same text with another language
				l = pool[rnd.Intn(len(pool))]
				if l.exact() {
					l.typ, l.lang = "", langs[rnd.Intn(len(langs))]
					l.src = write(l.text, rnd, 0) + "@" + l.lang
				}
			}
			id := fmt.Sprintf("%s %s %q %q %q", subject, f, l.text, l.lang, l.typ)
			if used[id] || l.typ != "" && used[fmt.Sprintf("%s %s %q %q %q", subject, f, l.text, "", "")] {
				continue
			}
			used[id] = true
			pool = append(pool, l)
			want[e][f] = append(want[e][f], l)
			statement(iri(subject), iri("http://onto.example/"+f), l.src)
			r.Eval(l.src)
			switch {
			case l.lang != "":
				r.Count("literals with a language", 1)
			case l.typ == "":
				r.Count("plain literals", 1)
			case l.exact():
				r.Count("literals of type xsd:string", 1)
			default:
				r.Count("literals of other datatypes", 1)
			}
			r.Max("bytes in the longest literal", len(l.text))
			for _, x := range l.text {
				seen(r, x)
			}
		}
	}
	for i := 0; i < entities; i++ {
		e := fmt.Sprintf("http://data.example/%d", i)
		want[e] = map[string][]lit{}
		statement(iri(e), iri(world.RDFType), iri(typ))
		for _, f := range b.Fields {
			fill(e, e, f.ID)
		}
		if rnd.Intn(2) == 0 {
			ch := e + "/child"
			statement(iri(e), iri("http://onto.example/p"), iri(ch))
			statement(iri(ch), iri(world.RDFType), iri("http://onto.example/D"))
			fill(e, ch, "g")
		}
	}
	rnd.Shuffle(len(lines), func(a, b int) { lines[a], lines[b] = lines[b], lines[a] })
	var sb strings.Builder
	eol := []string{"\n", "\n", "\r\n"}[rnd.Intn(3)]
	for i, l := range lines {
		switch rnd.Intn(14) {
		case 0:
			sb.WriteString("# a comment \"x\" <y> ." + eol)
		case 1:
			sb.WriteString(eol)
		case 2:
			sb.WriteString("  \t")
		case 3:
			l += " # comment"
		case 4:
			l += "  "
		}
		sb.WriteString(l)
		if i+1 < len(lines) || rnd.Intn(2) == 0 {
			sb.WriteString(eol)
		}
	}
	dir := r.Dir()
	defer os.RemoveAll(dir)
	xml, nq := filepath.Join(dir, "pb.xml"), filepath.Join(dir, "data.nq")
	must(os.WriteFile(xml, w.XML(), 0o644))
	must(os.WriteFile(nq, []byte(sb.String()), 0o644))
	dump := hx.Trunc(sb.String(), 20000)
	bad := func(sig, format string, args ...any) {
		r.Violation(name, sig, hx.Trunc(fmt.Sprintf(format, args...), 3000)+"\n--- file\n"+dump)
	}

	// the tokens
	tokens(bad, nq, want)

	flags := viewer.RenderFlags{Predicates: lib.Predicates(w)}
	gm, err := glass.Create(xml, nq, "", flags, nil)
	if err != nil {
		bad("loading fails", "%s", err)
		return
	}
	gd, err := glass.Create(xml, nq, filepath.Join(dir, "cache"), flags, nil)
	if err != nil {
		bad("loading with a cache directory fails", "%s", err)
		return
	}
	r.Count("values in entities", entitiesOf(bad, "memory", want, gm.Cache.Entities("b")))
	r.Count("values in entities", entitiesOf(bad, "cache directory", want, gd.Cache.Entities("b")))
	index := filepath.Join(dir, "index")
	if err := glass.Export(index, gm, nil); err != nil {
		bad("exporting fails", "%s", err)
		return
	}
	gi, err := glass.Import(index, nil)
	if err != nil {
		bad("importing fails", "%s", err)
		return
	}
	r.Count("values in imported indexes", entitiesOf(bad, "imported index", want, gi.Cache.Entities("b")))

	site := lib.NewSite(gi.Cache, &gi.Pathbuilder, flags)
	var es []wisski.Entity
	for _, e := range hx.SortedKeys(want) {
		q := url.QueryEscape(e)
		p := site.Get("/api/v1/entity/b?uri=" + q)
		var x apiEntity
		if p.Status != 200 || json.Unmarshal([]byte(p.Body), &x) != nil {
			bad("no answer of the api", "%s: %d %s %s", e, p.Status, p.Panic, p.Body)
			continue
		}
		es = append(es, x.entity())

		p = site.Get("/api/v1/ntriples/b?uri=" + q)
		ts, err := rdfx.NTriples(p.Body)
		if p.Status != 200 || err != nil {
			bad("no n-triples", "%s: %d %v %s", e, p.Status, err, p.Body)
			continue
		}
		m := map[string][]got{}
		for _, t := range ts {
			if t.O.Kind != 'l' {
				continue
			}
			f := strings.TrimPrefix(t.P.V, "http://onto.example/")
			m[f] = append(m[f], got{t.O.V, t.O.Lang})
		}
		r.Count("values in downloads", compare(bad, "n-triples", e, want[e], m))
	}
	r.Count("values in the api", entitiesOf(bad, "api", want, es))
}

// an entity of the api
type apiEntity struct {
	URI    string
	Fields map[string][]struct{ Value, Language string }

	Children map[string][]apiEntity
}

func (a apiEntity) entity() (e wisski.Entity) {
	e.URI = impl.Label(a.URI)
	e.Fields = map[string][]wisski.FieldValue{}
	for f, vs := range a.Fields {
		for _, v := range vs {
			e.Fields[f] = append(e.Fields[f], wisski.FieldValue{Value: impl.Datum(v.Value), Language: impl.Language(v.Language)})
		}
	}
	e.Children = map[string][]wisski.Entity{}
	for c, xs := range a.Children {
		for _, x := range xs {
			e.Children[c] = append(e.Children[c], x.entity())
		}
	}
	return
}

type report func(sig, format string, args ...any)

// tokens reads the source twice
func tokens(bad report, nq string, want map[string]map[string][]lit) {
	f, err := os.Open(nq)
	must(err)
	defer f.Close()
	src := &sparkl.QuadSource{Reader: f}
	for round := 0; round < 2; round++ {
		must(src.Open())
		m := map[string]map[string][]got{}
		for e := range want {
			m[e] = map[string][]got{}
		}
		for {
			t := src.Next()
			if t.Err != nil {
				if t.Err.Error() != "EOF" {
					bad("reading the file fails", "%s", t.Err)
					return
				}
				break
			}
			if !t.HasDatum {
				if t.Datum != "" || t.Language != "" {
					bad("an iri with a datum", "%+v", t)
				}
				continue
			}
			e := strings.TrimSuffix(string(t.Subject), "/child")
			fd := strings.TrimPrefix(string(t.Predicate), "http://onto.example/")
			m[e][fd] = append(m[e][fd], got{string(t.Datum), string(t.Language)})
		}
		for e := range want {
			compare(bad, "source", e, want[e], m[e])
		}
	}
	src.Close()
}

func entitiesOf(bad report, where string, want map[string]map[string][]lit, es []wisski.Entity) (n int) {
	if len(es) != len(want) {
		bad("wrong number of entities", "%s: %d, want %d", where, len(es), len(want))
		return
	}
	for _, e := range es {
		w, ok := want[string(e.URI)]
		if !ok {
			bad("unexpected entity", "%s: %s", where, e.URI)
			continue
		}
		m := map[string][]got{}
		add := func(fs map[string][]wisski.FieldValue) {
			for f, vs := range fs {
				for _, v := range vs {
					m[f] = append(m[f], got{string(v.Value), string(v.Language)})
					if k := len(v.Triples); k > 0 {
						if t := v.Triples[k-1]; t.Datum != v.Value || t.Language != v.Language {
							bad("a value differs from its statement", "%s %s %s: %q@%s, but %q@%s", where, e.URI, f, v.Value, v.Language, t.Datum, t.Language)
						}
					}
				}
			}
		}
		add(e.Fields)
		for _, cs := range e.Children {
			for _, c := range cs {
				add(c.Fields)
			}
		}
		n += compare(bad, where, string(e.URI), w, m)
	}
	return
}

// compare finds every literal exactly once
func compare(bad report, where, e string, want map[string][]lit, have map[string][]got) (n int) {
	fields := map[string]bool{}
	for f := range want {
		fields[f] = true
	}
	for f := range have {
		fields[f] = true
	}
	for _, f := range hx.SortedKeys(fields) {
		var ws, gs []string
		others := 0
		for _, l := range want[f] {
			if l.exact() {
				ws = append(ws, fmt.Sprintf("%q@%s", l.text, l.lang))
			} else {
				others++
			}
		}
		for _, g := range have[f] {
			gs = append(gs, fmt.Sprintf("%q@%s", g.text, g.lang))
		}
		if where == "n-triples" {
			// a set of statements; those of other datatypes may be equal to others
			ws, gs = uniq(ws), uniq(gs)
		}
		sort.Strings(ws)
		sort.Strings(gs)
		var missing, rest []string
		have := map[string]int{}
		for _, g := range gs {
			have[g]++
		}
		for _, w := range ws {
			if have[w] == 0 {
				missing = append(missing, w)
			} else {
				have[w]--
			}
		}
		for g, k := range have {
			for ; k > 0; k-- {
				rest = append(rest, g)
			}
		}
		extra := len(rest) > others || len(rest) < others && where != "n-triples"
		if len(missing) > 0 || extra {
			bad("literals differ in: "+where, "%s %s: missing %s, %d others expected, found instead %s", e, f, hx.Trunc(strings.Join(missing, " | "), 1200), others, hx.Trunc(strings.Join(rest, " | "), 1200))
			continue
		}
		n += len(gs)
	}
	return
}

func uniq(ss []string) (us []string) {
	m := map[string]bool{}
	for _, s := range ss {
		if !m[s] {
			m[s] = true
			us = append(us, s)
		}
	}
	return
}

func must(err error) {
	if err != nil {
		panic("harness: " + err.Error())
	}
}

var chars struct {
	sync.Mutex
	m [0x110000]bool
}

func seen(r *hx.R, x rune) {
	chars.Lock()
	defer chars.Unlock()
	if !chars.m[x] {
		chars.m[x] = true
		r.Count("different characters", 1)
	}
}
