// Package world generates datasets (pathbuilder + n-quads) and holds an
// independent reference model that says what must be extracted from them.
//
// Nothing in here uses the code under test.
package world

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"sort"
	"strings"
	"unicode/utf8"
)

const (
	RDFType  = "http://www.w3.org/1999/02/22-rdf-syntax-ns#type"
	SameAs   = "http://www.w3.org/2002/07/owl#sameAs"
	EqClass  = "http://www.w3.org/2002/07/owl#equivalentClass"
	EqProp   = "http://www.w3.org/2002/07/owl#equivalentProperty"
	Inverse  = "http://www.w3.org/2002/07/owl#inverseOf"
	XSD      = "http://www.w3.org/2001/XMLSchema#"
	RDFLabel = "http://www.w3.org/2000/01/rdf-schema#label"
)

type Kind int

const (
	IRI Kind = iota
	BNode
	Lit
)

// Term is an rdf term
type Term struct {
	Kind Kind
	V    string
	Lang string
	DT   string
}

func I(v string) Term { return Term{Kind: IRI, V: v} }
func L(v string) Term { return Term{Kind: Lit, V: v} }

// Quad is a single statement
type Quad struct {
	S, P, O Term
	G       string
}

type Field struct {
	ID, UUID, FieldID string
	Name, Type        string
	Path              []string
	Datatype          string // "" or "empty" or a property
	Cardinality       int
	Weight            int
	Disabled          bool
}

func (f *Field) Machine() string {
	switch {
	case f.ID != "":
		return f.ID
	case f.UUID != "":
		return f.UUID
	}
	return f.FieldID
}

func (f *Field) DT() string {
	if f.Datatype == "empty" {
		return ""
	}
	return f.Datatype
}

type Bundle struct {
	ID, BundleID string
	Name         string
	Path         []string
	Fields       []*Field
	Children     []*Bundle
	Parent       *Bundle
	Weight       int
	Cardinality  int
	Disabled     bool // only on leaf bundles without fields
}

// Index of the entity in paths
func (b *Bundle) EntityIndex() int {
	if b.Parent == nil {
		return 0
	}
	return len(b.Path) / 2
}

type World struct {
	Bundles      []*Bundle // top-level
	Quads        []Quad
	SameAsPreds  []string
	InversePreds []string
	Comment      string // statement about how it was made
}

// All returns all enabled bundles, depth first
func (w *World) All() (all []*Bundle) {
	var rec func(b *Bundle)
	rec = func(b *Bundle) {
		all = append(all, b)
		for _, c := range b.Children {
			if !c.Disabled {
				rec(c)
			}
		}
	}
	for _, b := range w.Bundles {
		rec(b)
	}
	return
}

func esc(s string) string {
	var b bytes.Buffer
	xml.EscapeText(&b, []byte(s))
	return b.String()
}

// XML renders the pathbuilder file
func (w *World) XML() []byte {
	var sb strings.Builder
	sb.WriteString("<?xml version=\"1.0\"?>\n<pathbuilderinterface>\n")
	weight := 0
	path := func(id, uuid, bundle, field, group, ftype, dt, name string, card, wt int, arr []string, enabled, isGroup bool) {
		weight++
		el := func(k, v string) { fmt.Fprintf(&sb, "<%s>%s</%s>", k, esc(v), k) }
		sb.WriteString("<path>")
		el("id", id)
		el("weight", fmt.Sprint(wt))
		if enabled {
			el("enabled", "1")
		} else {
			el("enabled", "0")
		}
		if group == "" {
			group = "0"
		}
		el("group_id", group)
		el("bundle", bundle)
		el("field", field)
		el("fieldtype", ftype)
		el("displaywidget", "widget")
		el("formatterwidget", "fmt")
		el("cardinality", fmt.Sprint(card))
		el("field_type_informative", ftype)
		sb.WriteString("<path_array>\n")
		for i, p := range arr {
			if i%2 == 0 {
				el("x", p)
			} else {
				el("y", p)
			}
		}
		sb.WriteString("</path_array>")
		el("datatype_property", dt)
		el("short_name", "")
		el("disam", "0")
		el("description", "")
		el("uuid", uuid)
		if isGroup {
			el("is_group", "1")
		} else {
			el("is_group", "0")
		}
		el("name", name)
		sb.WriteString("</path>\n")
	}
	var rec func(b *Bundle)
	rec = func(b *Bundle) {
		parent := ""
		if b.Parent != nil {
			parent = b.Parent.ID
		}
		path(b.ID, "u-"+b.ID, b.BundleID, "", parent, "", "empty", b.Name, b.Cardinality, b.Weight, b.Path, !b.Disabled, true)
		for _, f := range b.Fields {
			path(f.ID, f.UUID, b.BundleID, f.FieldID, b.ID, f.Type, f.Datatype, f.Name, f.Cardinality, f.Weight, f.Path, !f.Disabled, false)
		}
		for _, c := range b.Children {
			rec(c)
		}
	}
	for _, b := range w.Bundles {
		rec(b)
	}
	sb.WriteString("</pathbuilderinterface>\n")
	return []byte(sb.String())
}

// NQLit escapes the lexical form of a literal
func NQLit(v string) string {
	var sb strings.Builder
	for _, r := range v {
		switch r {
		case '"':
			sb.WriteString(`\"`)
		case '\\':
			sb.WriteString(`\\`)
		case '\n':
			sb.WriteString(`\n`)
		case '\r':
			sb.WriteString(`\r`)
		case '\t':
			sb.WriteString(`\t`)
		default:
			if r < 0x20 || r == 0x7f {
				fmt.Fprintf(&sb, `\u%04X`, r)
			} else {
				sb.WriteRune(r)
			}
		}
	}
	return sb.String()
}

// NQLitU is like NQLit, but writes every non-ascii character as an escape
func NQLitU(v string) string {
	var sb strings.Builder
	for _, r := range v {
		switch {
		case r == '"' || r == '\\':
			sb.WriteByte('\\')
			sb.WriteRune(r)
		case r < 0x20 || (r >= 0x7f && r <= 0xffff):
			fmt.Fprintf(&sb, `\u%04X`, r)
		case r > 0xffff:
			fmt.Fprintf(&sb, `\U%08X`, r)
		default:
			sb.WriteRune(r)
		}
	}
	return sb.String()
}

// NQIRI escapes an iri
func NQIRI(s string, alt bool) string {
	var sb strings.Builder
	for _, c := range s {
		switch {
		case c <= 0x20 || strings.ContainsRune("<>\"{}|^`\\", c) || alt && c > 0x7e && c < 0x10000 && c != 0xFFFD:
			fmt.Fprintf(&sb, "\\u%04X", c)
		case alt && c >= 0x10000:
			fmt.Fprintf(&sb, "\\U%08X", c)
		default:
			sb.WriteRune(c)
		}
	}
	return sb.String()
}

func (t Term) NQ(alt bool) string {
	switch t.Kind {
	case IRI:
		return "<" + NQIRI(t.V, alt) + ">"
	case BNode:
		return "_:" + t.V
	}
	var lex string
	if alt {
		lex = NQLitU(t.V)
	} else {
		lex = NQLit(t.V)
	}
	switch {
	case t.Lang != "":
		return `"` + lex + `"@` + t.Lang
	case t.DT != "":
		return `"` + lex + `"^^<` + t.DT + `>`
	}
	return `"` + lex + `"`
}

// NQ renders the n-quads file
func (w *World) NQ() []byte {
	var sb bytes.Buffer
	for i, q := range w.Quads {
		alt := i%3 == 2
		sb.WriteString(q.S.NQ(alt))
		sb.WriteByte(' ')
		sb.WriteString(q.P.NQ(alt))
		sb.WriteByte(' ')
		sb.WriteString(q.O.NQ(alt))
		if q.G != "" {
			sb.WriteString(" <" + q.G + ">")
		}
		sb.WriteString(" .\n")
	}
	return sb.Bytes()
}

// ===== union find =====

// Classes is a set of equivalence classes of labels
type Classes struct {
	parent map[string]string
}

func NewClasses() *Classes { return &Classes{parent: map[string]string{}} }

// Of returns the class of x: the smallest of its members
func (c *Classes) Of(x string) string {
	p, ok := c.parent[x]
	if !ok || p == x {
		return x
	}
	r := c.Of(p)
	c.parent[x] = r
	return r
}

// Union joins the classes of a and b
func (c *Classes) Union(a, b string) {
	ra, rb := c.Of(a), c.Of(b)
	if ra == rb {
		return
	}
	if rb < ra {
		ra, rb = rb, ra
	}
	c.parent[rb] = ra
	c.parent[ra] = ra
}

// Members returns all known members by class with at least two members
func (c *Classes) Members() map[string][]string {
	m := map[string][]string{}
	for x := range c.parent {
		r := c.Of(x)
		m[r] = append(m[r], x)
	}
	for _, v := range m {
		sort.Strings(v)
	}
	return m
}

// ===== graph =====

// Obj is the object of an edge in the graph of classes
type Obj struct {
	Data  bool
	Node  string // class
	Datum string
	Lang  string
	Seq   int // distinguishes data statements
}

// Graph is the graph that results from statements, classes and inverses
type Graph struct {
	C       *Classes
	Inv     map[string]string                     // inverse of classes
	Out     map[string]map[string]map[string]bool // p -> s -> o ; value: true if asserted, false if inferred
	In      map[string]map[string]map[string]bool // p -> o -> s
	Data    map[string]map[string][]Obj           // p -> s -> data
	Stmts   map[[3]string]bool                    // literal statements between labels
	DStmts  map[[4]string]bool                    // literal data statements s p datum lang
	NumData int
}

func (t Term) label() string { return t.V }

// Graph builds the graph for this world
func (w *World) Graph() *Graph {
	g := &Graph{
		C:      NewClasses(),
		Inv:    map[string]string{},
		Out:    map[string]map[string]map[string]bool{},
		In:     map[string]map[string]map[string]bool{},
		Data:   map[string]map[string][]Obj{},
		Stmts:  map[[3]string]bool{},
		DStmts: map[[4]string]bool{},
	}
	same := map[string]bool{}
	for _, p := range w.SameAsPreds {
		same[p] = true
	}
	inv := map[string]bool{}
	for _, p := range w.InversePreds {
		inv[p] = true
	}
	for _, q := range w.Quads {
		if same[q.P.V] && q.O.Kind != Lit {
			g.C.Union(q.S.label(), q.O.label())
		}
	}
	for _, q := range w.Quads {
		if inv[q.P.V] && q.O.Kind != Lit {
			l, r := g.C.Of(q.S.label()), g.C.Of(q.O.label())
			if l == r {
				continue
			}
			g.Inv[l] = r
			g.Inv[r] = l
		}
	}
	add := func(p, s, o string, asserted bool) {
		if g.Out[p] == nil {
			g.Out[p] = map[string]map[string]bool{}
			g.In[p] = map[string]map[string]bool{}
		}
		if g.Out[p][s] == nil {
			g.Out[p][s] = map[string]bool{}
		}
		if g.In[p][o] == nil {
			g.In[p][o] = map[string]bool{}
		}
		asserted = asserted || g.Out[p][s][o]
		g.Out[p][s][o] = asserted
		g.In[p][o][s] = asserted
	}
	for _, q := range w.Quads {
		s, p := g.C.Of(q.S.label()), g.C.Of(q.P.label())
		if q.O.Kind == Lit {
			if g.Data[p] == nil {
				g.Data[p] = map[string][]Obj{}
			}
			g.NumData++
			g.Data[p][s] = append(g.Data[p][s], Obj{Data: true, Datum: q.O.V, Lang: q.O.Lang, Seq: g.NumData})
			g.DStmts[[4]string{q.S.V, q.P.V, q.O.V, q.O.Lang}] = true
			continue
		}
		o := g.C.Of(q.O.label())
		g.Stmts[[3]string{q.S.V, q.P.V, q.O.V}] = true
		add(p, s, o, true)
		if i, ok := g.Inv[p]; ok {
			add(i, o, s, false)
		}
	}
	return g
}

func (g *Graph) Has(p, s, o string) bool {
	_, ok := g.Out[g.C.Of(p)][g.C.Of(s)][g.C.Of(o)]
	return ok
}

// Match is a single match of a path
type Match struct {
	Nodes   []string // classes of the nodes
	IsDatum bool
	Datum   string // value if IsDatum
	Lang    string
	Triples []string // keys of triples, sorted
}

// TKey builds the key for a triple between classes
func TKey(s, p, o string) string { return "<" + s + "> <" + p + "> <" + o + ">" }

// DKey builds the key for a triple with data
func DKey(s, p, datum, lang string) string {
	return "<" + s + "> <" + p + "> " + fmt.Sprintf("%q@%s", datum, lang)
}

// Eval evaluates a path array by brute force
func (g *Graph) Eval(arr []string, datatype string) (ms []Match) {
	if len(arr) == 0 {
		return nil
	}
	typ := g.C.Of(RDFType)
	cls := func(x string) string { return g.C.Of(x) }
	starts := []string{}
	for s := range g.In[typ][cls(arr[0])] {
		starts = append(starts, s)
	}
	sort.Strings(starts)
	for _, s := range starts {
		ms = append(ms, Match{Nodes: []string{s}, Triples: []string{TKey(s, typ, cls(arr[0]))}})
	}
	for i := 1; i+1 <= len(arr)-1; i += 2 {
		p, c := cls(arr[i]), cls(arr[i+1])
		var next []Match
		for _, m := range ms {
			last := m.Nodes[len(m.Nodes)-1]
			var objs []string
			for o := range g.Out[p][last] {
				if _, ok := g.Out[typ][o][c]; ok {
					objs = append(objs, o)
				}
			}
			sort.Strings(objs)
			for _, o := range objs {
				n := Match{Nodes: append(append([]string{}, m.Nodes...), o)}
				n.Triples = append(append([]string{}, m.Triples...), TKey(last, p, o), TKey(o, typ, c))
				next = append(next, n)
			}
		}
		ms = next
	}
	if datatype != "" {
		p := cls(datatype)
		var next []Match
		for _, m := range ms {
			last := m.Nodes[len(m.Nodes)-1]
			for _, d := range g.Data[p][last] {
				n := Match{Nodes: m.Nodes, IsDatum: true, Datum: d.Datum, Lang: d.Lang}
				n.Triples = append(append([]string{}, m.Triples...), DKey(last, p, d.Datum, d.Lang))
				next = append(next, n)
			}
			var objs []string
			for o := range g.Out[p][last] {
				objs = append(objs, o)
			}
			sort.Strings(objs)
			for _, o := range objs {
				n := Match{Nodes: append(append([]string{}, m.Nodes...), o)}
				n.Triples = append(append([]string{}, m.Triples...), TKey(last, p, o))
				next = append(next, n)
			}
		}
		ms = next
	}
	for i := range ms {
		sort.Strings(ms[i].Triples)
		ms[i].Triples = uniq(ms[i].Triples)
	}
	return ms
}

func uniq(s []string) []string {
	out := s[:0]
	for i, x := range s {
		if i == 0 || x != s[i-1] {
			out = append(out, x)
		}
	}
	return out
}

// Value is the value of a field
type Value struct {
	IsDatum bool
	V       string // datum, or class of the node
	Lang    string
	Nodes   []string
	Triples []string
}

func (v Value) Key(triples bool) string {
	k := fmt.Sprintf("%v|%q|%s|%q", v.IsDatum, v.V, v.Lang, v.Nodes)
	if triples {
		k += "|" + strings.Join(v.Triples, ";")
	}
	return k
}

// Ent is an expected or observed entity
type Ent struct {
	URI      string // class
	Nodes    []string
	Triples  []string
	Fields   map[string][]Value
	Children map[string][]*Ent
}

// Key is a canonical representation of everything in the entity; order is ignored
func (e *Ent) Key(triples bool) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "{%q %q", e.URI, e.Nodes)
	if triples {
		fmt.Fprintf(&sb, " T%v", e.Triples)
	}
	names := []string{}
	for n, v := range e.Fields {
		if len(v) > 0 {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		ks := []string{}
		for _, v := range e.Fields[n] {
			ks = append(ks, v.Key(triples))
		}
		sort.Strings(ks)
		fmt.Fprintf(&sb, "\n  F %q: %s", n, strings.Join(ks, "\n      "))
	}
	names = names[:0]
	for n, v := range e.Children {
		if len(v) > 0 {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		ks := []string{}
		for _, v := range e.Children[n] {
			ks = append(ks, strings.ReplaceAll(v.Key(triples), "\n", "\n  "))
		}
		sort.Strings(ks)
		fmt.Fprintf(&sb, "\n  C %q: %s", n, strings.Join(ks, "\n  "))
	}
	sb.WriteString("}")
	return sb.String()
}

// Expected holds what must be extracted
type Expected struct {
	G         *Graph
	Bundles   map[string][]*Ent // top-level machine name -> entities
	Ambiguous bool              // some entity is found more than once in a bundle
	NumEnt    int
	NumVal    int
	NumChild  int
	Inferred  int
}

// Expect evaluates the reference model
func (w *World) Expect() *Expected {
	g := w.Graph()
	ex := &Expected{G: g, Bundles: map[string][]*Ent{}}
	// entities per bundle, by uri
	var load func(b *Bundle) (list []*Ent)
	load = func(b *Bundle) (list []*Ent) {
		idx := b.EntityIndex()
		byURI := map[string]*Ent{}
		for _, m := range g.Eval(b.Path, "") {
			e := &Ent{URI: m.Nodes[idx], Nodes: m.Nodes, Triples: m.Triples, Fields: map[string][]Value{}, Children: map[string][]*Ent{}}
			if _, dup := byURI[e.URI]; dup {
				ex.Ambiguous = true
			}
			byURI[e.URI] = e
			list = append(list, e)
			ex.NumEnt++
		}
		for _, f := range b.Fields {
			if f.Disabled {
				continue
			}
			for _, m := range g.Eval(f.Path, f.DT()) {
				e, ok := byURI[m.Nodes[idx]]
				if !ok {
					continue
				}
				v := Value{IsDatum: m.IsDatum, V: m.Datum, Lang: m.Lang, Nodes: m.Nodes, Triples: m.Triples}
				if !m.IsDatum {
					v.V = m.Nodes[len(m.Nodes)-1]
				}
				e.Fields[f.Machine()] = append(e.Fields[f.Machine()], v)
				ex.NumVal++
			}
		}
		for _, c := range b.Children {
			if c.Disabled {
				continue
			}
			for _, ce := range load(c) {
				p, ok := byURI[ce.Nodes[idx]]
				if !ok {
					continue
				}
				p.Children[c.ID] = append(p.Children[c.ID], ce)
				ex.NumChild++
			}
		}
		return list
	}
	for _, b := range w.Bundles {
		ex.Bundles[b.ID] = load(b)
	}
	return ex
}

// Valid checks that a string is usable as a literal everywhere
func Valid(s string) bool { return utf8.ValidString(s) }

// Shared returns a fixed dataset in which two entities share a sub-entity.
func Shared() *World {
	b := &Bundle{ID: "b0", BundleID: "b0", Name: "b0", Path: []string{"http://onto.example/C"}, Cardinality: -1}
	c := &Bundle{ID: "b1", BundleID: "b1", Name: "b1", Path: []string{"http://onto.example/C", "http://onto.example/p", "http://onto.example/D"}, Parent: b, Cardinality: -1}
	c.Fields = []*Field{{ID: "f", FieldID: "f", Name: "f", Type: "string", Path: c.Path, Datatype: "http://onto.example/d", Cardinality: -1}}
	b.Children = []*Bundle{c}
	w := &World{Bundles: []*Bundle{b}, SameAsPreds: []string{SameAs}, InversePreds: []string{Inverse}}
	add := func(s, p string, o Term) { w.Quads = append(w.Quads, Quad{S: I(s), P: I(p), O: o}) }
	for _, x := range []string{"http://x.example/1", "http://x.example/2"} {
		add(x, RDFType, I("http://onto.example/C"))
		add(x, "http://onto.example/p", I("http://x.example/shared"))
	}
	add("http://x.example/shared", RDFType, I("http://onto.example/D"))
	add("http://x.example/shared", "http://onto.example/d", L("value"))
	return w
}
