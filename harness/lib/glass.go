package lib

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/FAU-CDI/drincw/pathbuilder"
	"github.com/FAU-CDI/hangover/internal/glass"
	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/triplestore/imap"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/verifh/world"
	"github.com/FAU-CDI/hangover/internal/viewer"
	"github.com/FAU-CDI/hangover/internal/wisski"
)

// Flags returns random settings for a world
func Flags(w *world.World, rnd *rand.Rand) viewer.RenderFlags {
	pick := func(ss ...string) string { return ss[rnd.Intn(len(ss))] }
	return viewer.RenderFlags{
		PublicURL:   pick("", "https://example.org/", "https://example.org/, http://other.example:8080/wisski\nhttps://täst.example", ",,\n"),
		TipsyURL:    pick("", "https://tipsy.example/", "tipsy", "javascript:x"),
		Predicates:  Predicates(w),
		StrictCSP:   rnd.Intn(2) == 0,
		HTMLRender:  rnd.Intn(2) == 0,
		ImageRender: rnd.Intn(2) == 0,
	}
}

// WorldLabels returns every iri used in a world, and some that are not
func WorldLabels(w *world.World) (ls []string) {
	m := map[string]bool{"": true, "http://unknown.example/": true}
	for _, q := range w.Quads {
		for _, t := range []world.Term{q.S, q.P, q.O} {
			if t.Kind != world.Lit {
				m[t.V] = true
			}
			m["_:"+t.V] = t.Kind == world.BNode
		}
	}
	for l := range m {
		ls = append(ls, l)
	}
	sort.Strings(ls)
	return ls
}

// PBText renders a pathbuilder completely
func PBText(pb *pathbuilder.Pathbuilder) string {
	var sb strings.Builder
	var bundle func(b *pathbuilder.Bundle, depth int)
	bundle = func(b *pathbuilder.Bundle, depth int) {
		parent := ""
		if b.Parent != nil {
			parent = b.Parent.MachineName()
		}
		fmt.Fprintf(&sb, "%*sbundle %q %q %#v\n", depth, "", b.MachineName(), parent, b.Path)
		for _, f := range b.Fields() {
			fmt.Fprintf(&sb, "%*s field %q %#v\n", depth, "", f.MachineName(), f.Path)
		}
		for _, c := range b.Bundles() {
			bundle(c, depth+2)
		}
	}
	for _, b := range pb.Bundles() {
		bundle(b, 0)
		if found := pb.FindBundle(b.ID); found != b {
			fmt.Fprintf(&sb, "bundle %q is not found by its id\n", b.ID)
		}
	}
	return sb.String()
}

// TripleText renders everything about a statement, including its identifier
func TripleText(t igraph.Triple) string {
	var id [impl.IDLen]byte
	t.ID.Encode(id[:])
	return fmt.Sprintf("%x %q %q %q|%q %q %q|%q@%q %d", id, t.Subject, t.Predicate, t.Object, t.SSubject, t.SPredicate, t.SObject, t.Datum, t.Language, t.Role)
}

// EntityText renders everything about an entity, in order and with identifiers
func EntityText(e *wisski.Entity) string {
	var sb strings.Builder
	var ent func(e *wisski.Entity, depth int)
	trs := func(ts []igraph.Triple, depth int) {
		for _, t := range ts {
			fmt.Fprintf(&sb, "%*s%s\n", depth, "", TripleText(t))
		}
	}
	ent = func(e *wisski.Entity, depth int) {
		fmt.Fprintf(&sb, "%*s%q %q\n", depth, "", e.URI, e.Path)
		trs(e.Triples, depth+1)
		for _, n := range sorted(e.Fields) {
			for _, v := range e.Fields[n] {
				fmt.Fprintf(&sb, "%*sfield %q %q@%q %q\n", depth, "", n, v.Value, v.Language, v.Path)
				trs(v.Triples, depth+1)
			}
		}
		for _, n := range sorted(e.Children) {
			for i := range e.Children[n] {
				fmt.Fprintf(&sb, "%*schild %q\n", depth, "", n)
				ent(&e.Children[n][i], depth+2)
			}
		}
	}
	ent(e, 0)
	sb.WriteString("all\n")
	trs(e.AllTriples(), 1)
	return sb.String()
}

func sorted[V any](m map[string]V) (ks []string) {
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return
}

// GlassText renders everything that can be asked of a glass.
func GlassText(g *glass.Glass, labels []string) string {
	return PBText(&g.Pathbuilder) + CacheText(g.Cache, labels) + fmt.Sprintf("flags %#v\n", g.Flags)
}

// CacheText renders everything that can be asked of a cache
func CacheText(c *sparkl.Cache, labels []string) string {
	var sb strings.Builder
	names := c.BundleNames()
	fmt.Fprintf(&sb, "names %q\n", names)
	for _, b := range append(append([]string{}, names...), "", "unknown bundle") {
		es := c.Entities(b)
		fmt.Fprintf(&sb, "bundle %q %d\n", b, len(es))
		for i := range es {
			sb.WriteString(EntityText(&es[i]))
		}
	}
	for _, s := range labels {
		l := impl.Label(s)
		bundle, ok := c.Bundle(l)
		first, fb, fok := c.FirstBundle("http://unknown.example/x", l)
		fmt.Fprintf(&sb, "label %q canonical %q aliases %q bundle %q %v first %q %q %v", s, c.Canonical(l), c.Aliases(l), bundle, ok, first, fb, fok)
		for _, b := range names {
			if e, ok := c.Entity(l, b); ok {
				at := -1
				for i, o := range c.Entities(b) {
					if o.URI == e.URI {
						at = i
						break
					}
				}
				fmt.Fprintf(&sb, " %q:%q@%d", b, e.URI, at)
			}
		}
		sb.WriteString("\n")
	}
	return sb.String()
}

// NewCache makes a cache
func NewCache(data map[string][]wisski.Entity, identities [][2]string) (*sparkl.Cache, error) {
	m := imap.MakeMemory[impl.Label, impl.Label](0)
	for _, p := range identities {
		if err := m.Set(impl.Label(p[0]), impl.Label(p[1])); err != nil {
			return nil, err
		}
	}
	c, err := sparkl.NewCache(data, &m, nil)
	return &c, err
}
