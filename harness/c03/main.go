// Command c03 monitors path queries.
package main

import (
	"fmt"
	"math/rand"
	"path/filepath"
	"sort"
	"strings"

	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/verifh/gq"
	"github.com/FAU-CDI/hangover/internal/verifh/hx"
	"github.com/FAU-CDI/hangover/internal/verifh/lib"
	"github.com/FAU-CDI/hangover/internal/verifh/world"
)

func main() {
	hx.Main("C03", func(r *hx.R) {
		r.Rule("each case is a random dense graph (with literals, equivalent names and inverse properties) indexed in memory or on disk, and random queries against it; every path returned is compared with brute-force evaluation; non-trivial: a query with at least one path")
		r.Assume("exactly repeated literal statements are not part of the datasets; every property has at most one inverse")
		r.Cases("mem", r.Pick(700, 9000), func(name string, rnd *rand.Rand) { one(r, name, rnd, false) })
		r.Cases("disk", r.Pick(60, 900), func(name string, rnd *rand.Rand) { one(r, name, rnd, true) })
		r.Cases("wide", r.Pick(4, 40), func(name string, rnd *rand.Rand) { wide(r, name, rnd) })
		r.Require("paths", 2000)
		r.Require("datum paths", 200)
	})
}

func one(r *hx.R, name string, rnd *rand.Rand, disk bool) {
	w, names := gq.Generate(rnd, gq.Random(rnd))
	o := lib.Options{NoMask: true}
	if rnd.Intn(3) == 0 {
		o.Compact = 1 + rnd.Intn(20)
	}
	if disk {
		o.Cache = r.Dir()
	}
	var qs []gq.Query
	g := w.Graph()
	for i := 0; i < 12; i++ {
		qs = append(qs, gq.RandomQuery(rnd, g, names))
	}
	check(r, name, w, g, o, qs)
}

func check(r *hx.R, name string, w *world.World, g *world.Graph, o lib.Options, qs []gq.Query) {
	_, index, err := lib.Index(w, o)
	if err != nil {
		r.Violation(name, "indexing a valid dataset fails: "+err.Error(), lib.Dump(w))
		return
	}
	defer index.Close()
	ob := lib.NewObserver(g)
	for _, q := range qs {
		want := gq.Want(g, q)
		paths, err := gq.Run(index, q)
		if err != nil {
			r.Violation(name, "query fails: "+err.Error(), q.String()+"\n"+lib.Dump(w))
			return
		}
		lines := gq.Got(ob, paths)
		again, err := gq.Run(index, q)
		if err != nil {
			r.Violation(name, "repeated query fails: "+err.Error(), q.String())
			return
		}
		if a, b := fmt.Sprintf("%+v", paths), fmt.Sprintf("%+v", again); a != b {
			r.Violation(name, "two equal queries on the same index disagree", q.String()+"\n"+a+"\n"+b+"\n"+lib.Dump(w))
			return
		}
		// the same query, asking for the number of paths in between
		set, err := index.PathsStarting(impl.Label(q[0].P), impl.Label(q[0].O))
		if err != nil {
			r.Violation(name, "repeated query fails: "+err.Error(), q.String())
			return
		}
		sizes := 0
		ask := func(k int) bool {
			want := gq.Want(g, q[:k])
			if n, err := set.Size(); err != nil || n != len(want) {
				r.Violation(name, fmt.Sprintf("Size() = %d, %v, want %d", n, err, len(want)), fmt.Sprintf("%d steps of %s (asked %d times before)\n%s", k, q, sizes, lib.Dump(w)))
				return false
			}
			sizes++
			r.Count("sizes", 1)
			return true
		}
		for k, op := range q {
			if k > 0 {
				if op.Ending {
					err = set.Ending(impl.Label(op.P), impl.Label(op.O))
				} else {
					err = set.Connected(impl.Label(op.P))
				}
				if err != nil {
					r.Violation(name, "repeated query fails: "+err.Error(), q.String())
					return
				}
			}
			for n := (k*7 + len(want) + len(q)) % 3; n > 0; n-- { // 0, 1 or 2 times
				if !ask(k + 1) {
					return
				}
			}
		}
		if !ask(len(q)) {
			return
		}
		it := set.Paths()
		var after []igraph.Path
		for it.Next() {
			after = append(after, it.Datum())
		}
		if err := it.Err(); err != nil {
			r.Violation(name, "query fails after Size(): "+err.Error(), q.String())
			return
		}
		it.Close()
		if a, b := fmt.Sprintf("%+v", paths), fmt.Sprintf("%+v", after); a != b {
			r.Violation(name, "a query has other paths when asked for its size", q.String()+"\n"+a+"\n"+b+"\n"+lib.Dump(w))
			return
		}
		for _, p := range paths {
			steps(ob, q, p)
			if p.HasDatum {
				r.Count("datum paths", 1)
				if p.Value() != p.Datum {
					ob.Problems = append(ob.Problems, fmt.Sprintf("Value() = %q for datum %q", p.Value(), p.Datum))
				}
			} else if len(p.Nodes) == 0 || string(p.Value()) != string(p.Nodes[len(p.Nodes)-1]) {
				ob.Problems = append(ob.Problems, fmt.Sprintf("Value() = %q for nodes %q", p.Value(), p.Nodes))
			}
		}
		sorted := append([]string{}, lines...)
		sort.Strings(sorted)
		r.Count("paths", len(lines))
		r.Count("queries", 1)
		if len(want) > 0 {
			r.Eval(q.String() + lib.Key(w))
		} else {
			r.Eval("")
		}
		if a, b := strings.Join(want, "\n"), strings.Join(sorted, "\n"); a != b {
			r.Violation(name, "query returns other paths than exist", q.String()+"\n"+hx.DiffText(a, b)+"\n"+lib.Dump(w))
			return
		}
		if len(ob.Problems) > 0 {
			r.Violation(name, ob.Problems[0], q.String()+"\n"+strings.Join(ob.Problems, "\n")+"\n"+lib.Dump(w))
			return
		}
		if len(want) > 1 && len(want) < 5 && len(q) > 2 {
			r.Sample(name + ": " + q.String() + "\n" + strings.Join(want, "\n"))
		}
	}
}

// steps checks that every statement of a path is found at the node it describes:
// the statements of each node (the edge that led to it and the restrictions on it) form one group, and groups are in order of the nodes.
func steps(ob *lib.Observer, q gq.Query, p igraph.Path) {
	type group []string
	var groups []group
	nodes := ob.Nodes(p.Nodes)
	node := 0
	g := ob.G
	groups = append(groups, group{world.TKey(nodes[0], g.C.Of(q[0].P), g.C.Of(q[0].O))})
	for _, op := range q[1:] {
		pr := g.C.Of(op.P)
		if op.Ending {
			groups[len(groups)-1] = append(groups[len(groups)-1], world.TKey(nodes[node], pr, g.C.Of(op.O)))
			continue
		}
		if node+1 < len(nodes) {
			groups = append(groups, group{world.TKey(nodes[node], pr, nodes[node+1])})
			node++
		} else {
			groups = append(groups, group{world.DKey(nodes[node], pr, string(p.Datum), string(p.Language))})
		}
	}
	var got []string
	for _, t := range p.Triples {
		got = append(got, ob.Triple(t))
	}
	at := 0
	for _, gr := range groups {
		if at+len(gr) > len(got) {
			ob.Problems = append(ob.Problems, fmt.Sprintf("path has %d statements, want more: %q", len(got), got))
			return
		}
		have := append([]string{}, got[at:at+len(gr)]...)
		sort.Strings(have)
		want := append([]string{}, gr...)
		sort.Strings(want)
		if strings.Join(have, "\n") != strings.Join(want, "\n") {
			ob.Problems = append(ob.Problems, fmt.Sprintf("statements %q are at the place of the step supported by %q", have, want))
			return
		}
		at += len(gr)
	}
}

// wide uses more nodes and statements than fit into any single block of a database
func wide(r *hx.R, name string, rnd *rand.Rand) {
	w := &world.World{SameAsPreds: []string{world.SameAs}, InversePreds: []string{world.Inverse}}
	add := func(s, p string, t world.Term) {
		w.Quads = append(w.Quads, world.Quad{S: world.I(s), P: world.I(p), O: t})
	}
	n := 700
	node := func(i int) string { return fmt.Sprintf("http://n.example/%d", i) }
	for i := 0; i < n; i++ {
		add(node(i), world.RDFType, world.I("http://c.example/C"))
		add(node(i), "http://p.example/next", world.I(node((i+1)%n)))
		add(node(i), "http://p.example/far", world.I(node(rnd.Intn(n))))
		add(node(i), "http://p.example/val", world.L(fmt.Sprintf("%d", i)))
		if i%3 == 0 {
			add(node(i), world.RDFType, world.I("http://c.example/D"))
		}
	}
	add("http://p.example/next", world.Inverse, world.I("http://p.example/prev"))
	rnd.Shuffle(len(w.Quads), func(i, j int) { w.Quads[i], w.Quads[j] = w.Quads[j], w.Quads[i] })
	o := lib.Options{NoMask: true}
	if name[len(name)-1]%2 == 0 {
		o.Cache = filepath.Join(r.Dir(), "cache")
		must(mkdir(o.Cache))
	}
	o.Compact = 500
	q := func(ops ...string) (q gq.Query) {
		q = gq.Query{{Ending: true, P: world.RDFType, O: "http://c.example/C"}}
		for _, op := range ops {
			switch op {
			case "D":
				q = append(q, gq.Op{Ending: true, P: world.RDFType, O: "http://c.example/D"})
			default:
				q = append(q, gq.Op{P: "http://p.example/" + op})
			}
		}
		return
	}
	check(r, name, w, w.Graph(), o, []gq.Query{q(), q("D"), q("next", "D", "val"), q("prev", "next"), q("far", "far", "D", "prev", "val"), q("val"), q("val", "val")})
}
