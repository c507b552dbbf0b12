// Package lib connects generated worlds with the code under test.
package lib

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/FAU-CDI/drincw/pathbuilder"
	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/sparkl/storages"
	"github.com/FAU-CDI/hangover/internal/stats"
	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/triplestore/imap"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/verifh/world"
	"github.com/FAU-CDI/hangover/internal/wisski"
)

// Labels turns strings into labels
func Labels(ss []string) (ls []impl.Label) {
	for _, s := range ss {
		ls = append(ls, impl.Label(s))
	}
	return
}

// Predicates of a world
func Predicates(w *world.World) sparkl.Predicates {
	return sparkl.Predicates{SameAs: Labels(w.SameAsPreds), InverseOf: Labels(w.InversePreds)}
}

// PB parses the pathbuilder of a world
func PB(w *world.World) (*pathbuilder.Pathbuilder, error) {
	pb, err := wisski.UnmarshalPathbuilder(w.XML())
	if err != nil {
		return nil, err
	}
	return &pb, nil
}

// Files writes the files of a world into a directory
func Files(w *world.World, dir string) (xml, nq string) {
	xml, nq = filepath.Join(dir, "pb.xml"), filepath.Join(dir, "data.nq")
	must(os.WriteFile(xml, w.XML(), 0o644))
	must(os.WriteFile(nq, w.NQ(), 0o644))
	return
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// Options for loading
type Options struct {
	Cache   string // path of cache, "" for memory
	NoMask  bool
	Compact int
	Stats   *stats.Stats
	Source  sparkl.Source
	Engine  igraph.Engine
	BEngine storages.BundleEngine
}

// Loaded is something that was loaded
type Loaded struct {
	PB       *pathbuilder.Pathbuilder
	Index    *igraph.Index
	Data     map[string][]wisski.Entity
	Identity map[string]string // alias -> canonical
}

// Index only makes the index
func Index(w *world.World, o Options) (*pathbuilder.Pathbuilder, *igraph.Index, error) {
	pb, err := PB(w)
	if err != nil {
		return nil, nil, fmt.Errorf("pathbuilder: %w", err)
	}
	opts := sparkl.DefaultIndexOptions(pb)
	if o.NoMask {
		opts.Mask = nil
	}
	if o.Compact != 0 {
		opts.CompactInterval = o.Compact
	}
	engine := o.Engine
	if engine == nil {
		engine = sparkl.NewEngine(o.Cache)
	}
	source := o.Source
	if source == nil {
		source = &sparkl.QuadSource{Reader: bytes.NewReader(w.NQ())}
	}
	index, err := sparkl.MakeIndex(source, Predicates(w), engine, opts, o.Stats)
	if err != nil {
		return pb, nil, fmt.Errorf("index: %w", err)
	}
	return pb, index, nil
}

// Identities returns the identity map of an index
func Identities(index *igraph.Index) (map[string]string, error) {
	identities := imap.MakeMemory[impl.Label, impl.Label](0)
	if err := index.IdentityMap(&identities); err != nil {
		return nil, err
	}
	m := map[string]string{}
	err := identities.Iterate(func(a, b impl.Label) error {
		m[string(a)] = string(b)
		return nil
	})
	return m, err
}

// Load loads the world completely
func Load(w *world.World, o Options) (l *Loaded, err error) {
	pb, index, err := Index(w, o)
	if err != nil {
		return nil, err
	}
	defer index.Close()
	l = &Loaded{PB: pb, Index: index}
	be := o.BEngine
	if be == nil {
		be = storages.NewBundleEngine(o.Cache)
	}
	l.Data, err = sparkl.LoadPathbuilder(pb, index, be, o.Stats)
	if err != nil {
		return nil, fmt.Errorf("extract: %w", err)
	}
	l.Identity, err = Identities(index)
	if err != nil {
		return nil, fmt.Errorf("identities: %w", err)
	}
	return l, nil
}

// Observer turns entities into comparable ones and notes every inconsistency on the way
type Observer struct {
	G        *world.Graph
	labels   map[string]string // class -> label in use
	Problems []string
	Triples  int
	Inferred int
}

func NewObserver(g *world.Graph) *Observer {
	return &Observer{G: g, labels: map[string]string{}}
}

func (o *Observer) problem(format string, args ...any) {
	if len(o.Problems) < 20 {
		o.Problems = append(o.Problems, fmt.Sprintf(format, args...))
	}
}

// class returns the class of a canonical label
func (o *Observer) Class(l impl.Label) string {
	c := o.G.C.Of(string(l))
	if have, ok := o.labels[c]; ok && have != string(l) {
		o.problem("two canonical names %q and %q are used for the same thing", have, l)
	}
	o.labels[c] = string(l)
	return c
}

// Nodes turns a path into classes
func (o *Observer) Nodes(ls []impl.Label) (ns []string) {
	for _, l := range ls {
		ns = append(ns, o.Class(l))
	}
	return
}

// Triple returns the key of a triple and checks it
func (o *Observer) Triple(t igraph.Triple) string {
	o.Triples++
	s, p := o.Class(t.SSubject), o.Class(t.SPredicate)
	if t.Role == igraph.Data {
		if !o.G.DStmts[[4]string{string(t.Subject), string(t.Predicate), string(t.Datum), string(t.Language)}] {
			o.problem("data triple (%q %q %q@%s) is not a statement of the dataset", t.Subject, t.Predicate, t.Datum, t.Language)
		}
		if o.G.C.Of(string(t.Subject)) != s || o.G.C.Of(string(t.Predicate)) != p {
			o.problem("data triple with literal (%q %q) has canonical (%q %q)", t.Subject, t.Predicate, t.SSubject, t.SPredicate)
		}
		return world.DKey(s, p, string(t.Datum), string(t.Language))
	}
	ob := o.Class(t.SObject)
	if t.Datum != "" || t.Language != "" {
		o.problem("triple (%q %q %q) with role %d has datum %q@%s", t.Subject, t.Predicate, t.Object, t.Role, t.Datum, t.Language)
	}
	if !o.G.Stmts[[3]string{string(t.Subject), string(t.Predicate), string(t.Object)}] {
		o.problem("triple (%q %q %q) is not a statement of the dataset", t.Subject, t.Predicate, t.Object)
	}
	ls, lp, lo := o.G.C.Of(string(t.Subject)), o.G.C.Of(string(t.Predicate)), o.G.C.Of(string(t.Object))
	asserted, ok := o.G.Out[p][s][ob]
	if !ok {
		o.problem("triple <%s> <%s> <%s> is not in the graph", s, p, ob)
	}
	switch t.Role {
	case igraph.Regular:
		if ls != s || lp != p || lo != ob {
			o.problem("direct triple (%q %q %q) has canonical (%q %q %q)", t.Subject, t.Predicate, t.Object, t.SSubject, t.SPredicate, t.SObject)
		}
		if ok && !asserted {
			o.problem("triple <%s> <%s> <%s> is inferred, but reported as direct", s, p, ob)
		}
	case igraph.Inverse:
		o.Inferred++
		if ls != ob || o.G.Inv[lp] != p || lo != s {
			o.problem("inferred triple with source (%q %q %q) has canonical (%q %q %q)", t.Subject, t.Predicate, t.Object, t.SSubject, t.SPredicate, t.SObject)
		}
		if ok && asserted {
			o.problem("triple <%s> <%s> <%s> is stated directly, but reported as inferred", s, p, ob)
		}
	default:
		o.problem("triple (%q %q %q) has unknown role %d", t.Subject, t.Predicate, t.Object, t.Role)
	}
	if t.Inferred() != (t.Role == igraph.Inverse) {
		o.problem("Inferred() does not agree with role %d", t.Role)
	}
	return world.TKey(s, p, ob)
}

// TripleKeys returns sorted keys
func (o *Observer) TripleKeys(ts []igraph.Triple) (keys []string) {
	for _, t := range ts {
		keys = append(keys, o.Triple(t))
	}
	sort.Strings(keys)
	out := keys[:0]
	for i, k := range keys {
		if i == 0 || k != keys[i-1] {
			out = append(out, k)
		}
	}
	return out
}

// Entity converts an entity
func (o *Observer) Entity(b *world.Bundle, e *wisski.Entity) *world.Ent {
	ent := &world.Ent{URI: o.Class(e.URI), Nodes: o.Nodes(e.Path), Triples: o.TripleKeys(e.Triples), Fields: map[string][]world.Value{}, Children: map[string][]*world.Ent{}}
	refs := map[string]bool{} // fields with values
	for name, vs := range e.Fields {
		for _, v := range vs {
			val := world.Value{V: string(v.Value), Lang: string(v.Language), Nodes: o.Nodes(v.Path), Triples: o.TripleKeys(v.Triples), IsDatum: true}
			// a value is a reference if its last triple is no data triple
			isdata := false
			for _, t := range v.Triples {
				if t.Role == igraph.Data {
					isdata = true
					if t.Datum != v.Value || t.Language != v.Language {
						o.problem("value %q@%s is supported by a triple with %q@%s", v.Value, v.Language, t.Datum, t.Language)
					}
				}
			}
			if !isdata {
				val.IsDatum = false
				val.V = o.G.C.Of(string(v.Value))
				if len(v.Path) == 0 || impl.Label(v.Value) != v.Path[len(v.Path)-1] {
					o.problem("value %q is not the end of its path %q", v.Value, v.Path)
				}
			}
			ent.Fields[name] = append(ent.Fields[name], val)
			refs[name] = true
		}
	}
	for name, cs := range e.Children {
		var cb *world.Bundle
		for _, c := range b.Children {
			if c.ID == name && !c.Disabled {
				cb = c
			}
		}
		if cb == nil && len(cs) > 0 {
			o.problem("entity %q has children of %q which is no child bundle", e.URI, name)
			continue
		}
		for i := range cs {
			ent.Children[name] = append(ent.Children[name], o.Entity(cb, &cs[i]))
		}
	}
	return ent
}

// All converts all bundles
func (o *Observer) All(w *world.World, data map[string][]wisski.Entity) map[string][]*world.Ent {
	m := map[string][]*world.Ent{}
	for name, es := range data {
		var b *world.Bundle
		for _, x := range w.Bundles {
			if x.ID == name {
				b = x
			}
		}
		if b == nil {
			o.problem("there is no bundle %q", name)
			continue
		}
		list := []*world.Ent{}
		for i := range es {
			list = append(list, o.Entity(b, &es[i]))
		}
		m[name] = list
	}
	return m
}

// Identity checks the identity map; labels are the names that the index has to know
func (o *Observer) Identity(id map[string]string) {
	canon := map[string]string{} // class -> canonical
	for a, c := range id {
		if a == c {
			o.problem("%q is listed as alias of itself", a)
		}
		if o.G.C.Of(a) != o.G.C.Of(c) {
			o.problem("%q is listed as alias of %q, which is not identical", a, c)
		}
		if have, ok := canon[o.G.C.Of(a)]; ok && have != c {
			o.problem("class of %q has two canonical names %q and %q", a, have, c)
		}
		canon[o.G.C.Of(a)] = c
		if _, ok := id[c]; ok {
			o.problem("canonical name %q is an alias itself", c)
		}
	}
	for cls, members := range o.G.C.Members() {
		if len(members) < 2 {
			continue
		}
		c, ok := canon[cls]
		if !ok {
			o.problem("class %q has no canonical name", members)
			continue
		}
		for _, m := range members {
			if m != c && id[m] != c {
				o.problem("name %q is not listed as alias of %q", m, c)
			}
		}
		if used, ok := o.labels[cls]; ok && used != c {
			o.problem("%q is used for the class with canonical name %q", used, c)
		}
	}
}

// Text is the canonical text of a set of entities
func Text(m map[string][]*world.Ent, triples bool) string {
	var sb strings.Builder
	names := []string{}
	for n := range m {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		ks := []string{}
		for _, e := range m[n] {
			ks = append(ks, e.Key(triples))
		}
		sort.Strings(ks)
		fmt.Fprintf(&sb, "BUNDLE %q %d\n%s\n", n, len(ks), strings.Join(ks, "\n"))
	}
	return sb.String()
}

// Dump shows a world
func Dump(w *world.World) string {
	return fmt.Sprintf("--- pathbuilder\n%s--- nquads\n%s--- sameas %q inverse %q\n", w.XML(), w.NQ(), w.SameAsPreds, w.InversePreds)
}

// Hash is a key for a world
func Key(w *world.World) string { return string(w.XML()) + string(w.NQ()) }

// RawText renders data without any model, for comparing runs with each other.
// It ignores order within bundles and values and ids of triples.
func RawText(data map[string][]wisski.Entity) string { return rawText(data, false) }

// OrderedText is like RawText, but keeps the order of entities, values and children
func OrderedText(data map[string][]wisski.Entity) string { return rawText(data, true) }

func rawText(data map[string][]wisski.Entity, ordered bool) string {
	sortKs := func(ks []string) {
		if !ordered {
			sort.Strings(ks)
		}
	}
	var ent func(e *wisski.Entity) string
	trs := func(ts []igraph.Triple) string {
		ks := []string{}
		for _, t := range ts {
			ks = append(ks, fmt.Sprintf("%q %q %q|%q %q %q|%q@%s %d", t.Subject, t.Predicate, t.Object, t.SSubject, t.SPredicate, t.SObject, t.Datum, t.Language, t.Role))
		}
		return strings.Join(ks, ";")
	}
	ent = func(e *wisski.Entity) string {
		var sb strings.Builder
		fmt.Fprintf(&sb, "{%q %q %s", e.URI, e.Path, trs(e.Triples))
		names := []string{}
		for n, v := range e.Fields {
			if len(v) > 0 {
				names = append(names, n)
			}
		}
		sort.Strings(names)
		for _, n := range names {
			ks := []string{}
			for _, v := range e.Fields[n] {
				ks = append(ks, fmt.Sprintf("%q@%s %q %s", v.Value, v.Language, v.Path, trs(v.Triples)))
			}
			sortKs(ks)
			fmt.Fprintf(&sb, "\n F %q %s", n, strings.Join(ks, "\n   "))
		}
		names = names[:0]
		for n, v := range e.Children {
			if len(v) > 0 {
				names = append(names, n)
			}
		}
		sort.Strings(names)
		for _, n := range names {
			ks := []string{}
			for i := range e.Children[n] {
				ks = append(ks, ent(&e.Children[n][i]))
			}
			sortKs(ks)
			fmt.Fprintf(&sb, "\n C %q %s", n, strings.Join(ks, "\n   "))
		}
		return sb.String() + "}"
	}
	var sb strings.Builder
	names := []string{}
	for n := range data {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		ks := []string{}
		for i := range data[n] {
			ks = append(ks, ent(&data[n][i]))
		}
		sortKs(ks)
		fmt.Fprintf(&sb, "BUNDLE %q\n%s\n", n, strings.Join(ks, "\n"))
	}
	return sb.String()
}

var _ io.Reader
