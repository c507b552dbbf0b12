// Package gq generates small dense graphs and queries, and answers the queries by brute force.
package gq

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/verifh/lib"
	"github.com/FAU-CDI/hangover/internal/verifh/world"
)

// Options for a graph
type Options struct {
	Nodes, Preds, Stmts, Data int
	Same                      int // number of statements linking names
	Inv                       int // number of inverse pairs
	SamePreds                 int // number of predicates in use for linking
	Alone                     bool
}

// Random picks options
func Random(r *rand.Rand) Options {
	return Options{
		Nodes: 2 + r.Intn(9), Preds: 1 + r.Intn(5), Stmts: r.Intn(50), Data: r.Intn(15),
		Same: r.Intn(8), Inv: r.Intn(3), SamePreds: 1 + r.Intn(2),
	}
}

// Names of a graph
type Names struct {
	Nodes, Preds []string
}

// Generate makes a world without bundles
func Generate(r *rand.Rand, o Options) (*world.World, Names) {
	w := &world.World{SameAsPreds: []string{world.SameAs, world.EqProp}[:o.SamePreds], InversePreds: []string{world.Inverse}}
	var n Names
	for i := 0; i < o.Nodes; i++ {
		n.Nodes = append(n.Nodes, fmt.Sprintf("http://n.example/%d", i))
	}
	for i := 0; i < o.Preds; i++ {
		n.Preds = append(n.Preds, fmt.Sprintf("http://p.example/%d", i))
	}
	node := func() string { return n.Nodes[r.Intn(len(n.Nodes))] }
	pred := func() string {
		if r.Intn(25) == 0 {
			return node() // a property can also be a node
		}
		return n.Preds[r.Intn(len(n.Preds))]
	}
	add := func(s, p string, t world.Term) {
		w.Quads = append(w.Quads, world.Quad{S: world.I(s), P: world.I(p), O: t})
	}
	for i := 0; i < o.Stmts; i++ {
		add(node(), pred(), world.I(node()))
	}
	seen := map[string]bool{}
	for i := 0; i < o.Data; i++ {
		t := world.L([]string{"", "x", "y", "node", n.Nodes[0], "http://n.example/1"}[r.Intn(6)])
		if r.Intn(2) == 0 {
			t.Lang = []string{"en", "de", "en-US"}[r.Intn(3)]
		}
		s, p := node(), pred()
		k := fmt.Sprintf("%q %q %q %q", s, p, t.V, t.Lang)
		if seen[k] {
			continue
		}
		seen[k] = true
		add(s, p, t)
	}
	for i := 0; i < o.Same; i++ {
		sp := w.SameAsPreds[r.Intn(len(w.SameAsPreds))]
		switch r.Intn(8) {
		case 0, 1:
			add(n.Preds[r.Intn(len(n.Preds))], sp, world.I(n.Preds[r.Intn(len(n.Preds))]))
		case 2: // a name that only occurs here
			a := fmt.Sprintf("http://only.example/%d", i)
			if r.Intn(2) == 0 {
				add(a, sp, world.I(node()))
			} else {
				add(node(), sp, world.I(a))
			}
		case 3: // a literal links nothing
			add(node(), sp, world.L(node()))
		default:
			add(node(), sp, world.I(node()))
		}
	}
	// every class of properties has at most one inverse
	g := w.Graph()
	used := map[string]bool{}
	for i := 0; i < o.Inv; i++ {
		a, b := n.Preds[r.Intn(len(n.Preds))], n.Preds[r.Intn(len(n.Preds))]
		ca, cb := g.C.Of(a), g.C.Of(b)
		if ca == cb || used[ca] || used[cb] {
			continue
		}
		used[ca], used[cb] = true, true
		add(a, world.Inverse, world.I(b))
		if r.Intn(4) == 0 {
			add(b, world.Inverse, world.I(a))
		}
	}
	r.Shuffle(len(w.Quads), func(i, j int) { w.Quads[i], w.Quads[j] = w.Quads[j], w.Quads[i] })
	n.Nodes = append(n.Nodes, "http://only.example/0", "http://unknown.example/")
	n.Preds = append(n.Preds, world.SameAs, world.Inverse, "http://unknown.example/p")
	return w, n
}

// Op is a step of a query
type Op struct {
	Ending bool
	P, O   string
}

// Query is a query: it starts with an Ending
type Query []Op

func (q Query) String() string {
	var sb strings.Builder
	for i, o := range q {
		switch {
		case i == 0:
			fmt.Fprintf(&sb, "PathsStarting(%s, %s)", o.P, o.O)
		case o.Ending:
			fmt.Fprintf(&sb, ".Ending(%s, %s)", o.P, o.O)
		default:
			fmt.Fprintf(&sb, ".Connected(%s)", o.P)
		}
	}
	return sb.String()
}

// RandomQuery picks a query; it prefers names that lead to results.
func RandomQuery(r *rand.Rand, g *world.Graph, n Names) Query {
	node := func() string { return n.Nodes[r.Intn(len(n.Nodes))] }
	pred := func() string { return n.Preds[r.Intn(len(n.Preds))] }
	// pick a name of the same class
	alias := func(c string) string {
		ms := g.C.Members()[c]
		if len(ms) == 0 {
			return c
		}
		return ms[r.Intn(len(ms))]
	}
	var q Query
	start := Op{Ending: true, P: pred(), O: node()}
	for try := 0; try < 20 && len(g.In[g.C.Of(start.P)][g.C.Of(start.O)]) == 0; try++ {
		start = Op{Ending: true, P: pred(), O: node()}
	}
	q = append(q, start)
	cur := Eval(g, q)
	for i := r.Intn(5); i > 0; i-- {
		op := Op{Ending: r.Intn(3) == 0, P: pred(), O: node()}
		if len(cur) > 0 && r.Intn(8) > 0 {
			// follow what is there
			last := cur[r.Intn(len(cur))]
			if !last.isDatum {
				node := last.nodes[len(last.nodes)-1]
				var opts []Op
				for _, p := range n.Preds {
					c := g.C.Of(p)
					for o := range g.Out[c][node] {
						opts = append(opts, Op{Ending: op.Ending, P: p, O: o})
					}
					if len(g.Data[c][node]) > 0 {
						opts = append(opts, Op{P: p})
					}
				}
				sort.Slice(opts, func(i, j int) bool {
					return fmt.Sprint(opts[i]) < fmt.Sprint(opts[j])
				})
				if len(opts) > 0 {
					op = opts[r.Intn(len(opts))]
					if op.Ending {
						op.O = alias(op.O)
					}
				}
			}
		}
		q = append(q, op)
		cur = Eval(g, q)
		if len(cur) > 3000 {
			return q[:len(q)-1]
		}
	}
	return q
}

type match struct {
	nodes   []string
	isDatum bool
	datum   string
	lang    string
	triples []string
}

// Eval evaluates a query by brute force
func Eval(g *world.Graph, q Query) (ms []match) {
	p0, o0 := g.C.Of(q[0].P), g.C.Of(q[0].O)
	for s := range g.In[p0][o0] {
		ms = append(ms, match{nodes: []string{s}, triples: []string{world.TKey(s, p0, o0)}})
	}
	sort.Slice(ms, func(i, j int) bool { return ms[i].nodes[0] < ms[j].nodes[0] })
	for _, op := range q[1:] {
		var next []match
		p, o := g.C.Of(op.P), g.C.Of(op.O)
		for _, m := range ms {
			if m.isDatum {
				continue
			}
			last := m.nodes[len(m.nodes)-1]
			with := func(t string) []string { return append(append([]string{}, m.triples...), t) }
			if op.Ending {
				if _, ok := g.Out[p][last][o]; ok {
					n := m
					n.triples = with(world.TKey(last, p, o))
					next = append(next, n)
				}
				continue
			}
			var objs []string
			for x := range g.Out[p][last] {
				objs = append(objs, x)
			}
			sort.Strings(objs)
			for _, x := range objs {
				next = append(next, match{nodes: append(append([]string{}, m.nodes...), x), triples: with(world.TKey(last, p, x))})
			}
			for _, d := range g.Data[p][last] {
				next = append(next, match{nodes: m.nodes, isDatum: true, datum: d.Datum, lang: d.Lang, triples: with(world.DKey(last, p, d.Datum, d.Lang))})
			}
		}
		ms = next
	}
	return ms
}

// Want returns the lines that are expected
func Want(g *world.Graph, q Query) (lines []string) {
	for _, m := range Eval(g, q) {
		var edges []string
		for _, op := range q[1:] {
			if !op.Ending {
				edges = append(edges, g.C.Of(op.P))
			}
		}
		ts := append([]string{}, m.triples...)
		sort.Strings(ts)
		lines = append(lines, fmt.Sprintf("%q %v %q@%s edges=%q triples=%q", m.nodes, m.isDatum, m.datum, m.lang, edges, ts))
	}
	sort.Strings(lines)
	return
}

// Start starts a query on an index
func Start(index *igraph.Index, q Query) (*igraph.Paths, error) {
	set, err := index.PathsStarting(impl.Label(q[0].P), impl.Label(q[0].O))
	if err != nil {
		return nil, err
	}
	for _, op := range q[1:] {
		if op.Ending {
			err = set.Ending(impl.Label(op.P), impl.Label(op.O))
		} else {
			err = set.Connected(impl.Label(op.P))
		}
		if err != nil {
			return nil, err
		}
	}
	return set, nil
}

// Run runs a query on an index
func Run(index *igraph.Index, q Query) (paths []igraph.Path, err error) {
	set, err := Start(index, q)
	if err != nil {
		return nil, err
	}
	it := set.Paths()
	defer it.Close()
	for it.Next() {
		paths = append(paths, it.Datum())
	}
	return paths, it.Err()
}

// Got renders results; the statements are in the order of the steps they support
func Got(ob *lib.Observer, paths []igraph.Path) (lines []string) {
	for _, p := range paths {
		var edges []string
		for _, e := range p.Edges {
			edges = append(edges, ob.Class(e))
		}
		var ts []string
		for _, t := range p.Triples {
			ts = append(ts, ob.Triple(t))
		}
		sort.Strings(ts)
		lines = append(lines, fmt.Sprintf("%q %v %q@%s edges=%q triples=%q", ob.Nodes(p.Nodes), p.HasDatum, p.Datum, p.Language, edges, ts))
	}
	return
}

// Exhaust queries every property from every node, in both directions, and compares.
// It returns a description of the first difference, and the number of statements seen.
func Exhaust(index *igraph.Index, ob *lib.Observer, names Names) (diff string, q string, seen int, err error) {
	g := ob.G
	for _, p := range names.Preds {
		for _, o := range names.Nodes {
			for _, p2 := range append([]string{""}, names.Preds...) {
				qu := Query{{Ending: true, P: p, O: o}}
				if p2 != "" {
					qu = append(qu, Op{P: p2})
				}
				paths, err := Run(index, qu)
				if err != nil {
					return "", qu.String(), seen, err
				}
				want, got := Want(g, qu), Got(ob, paths)
				sort.Strings(got)
				seen += len(got)
				if a, b := strings.Join(want, "\n"), strings.Join(got, "\n"); a != b {
					return diffText(a, b), qu.String(), seen, nil
				}
			}
		}
	}
	return "", "", seen, nil
}

func diffText(a, b string) string { return "want:\n" + a + "\ngot:\n" + b }
