// Command c04 monitors names that are declared identical.
package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/FAU-CDI/hangover/internal/verifh/gq"
	"github.com/FAU-CDI/hangover/internal/verifh/hx"
	"github.com/FAU-CDI/hangover/internal/verifh/lib"
	"github.com/FAU-CDI/hangover/internal/verifh/world"
)

func main() {
	hx.Main("C04", func(r *hx.R) {
		r.Rule("each case is a dataset whose names are linked in chains, stars, cycles, trees or at random, in random order and position; the identity map and the answers to queries using any of the names are compared with union-find classes; non-trivial: at least one class with two names")
		r.Cases("random", r.Pick(700, 9000), func(name string, rnd *rand.Rand) {
			o := gq.Random(rnd)
			o.Same = 1 + rnd.Intn(2*o.Nodes)
			o.Nodes += rnd.Intn(10)
			o.Inv = rnd.Intn(2)
			w, n := gq.Generate(rnd, o)
			check(r, name, rnd, w, n, lib.Options{NoMask: true})
		})
		r.Cases("disk", r.Pick(50, 700), func(name string, rnd *rand.Rand) {
			o := gq.Random(rnd)
			o.Same = 1 + rnd.Intn(2*o.Nodes)
			w, n := gq.Generate(rnd, o)
			check(r, name, rnd, w, n, lib.Options{NoMask: true, Cache: r.Dir(), Compact: 3})
		})
		r.Cases("shape", r.Pick(160, 2000), func(name string, rnd *rand.Rand) {
			w, n := shape(rnd)
			o := lib.Options{NoMask: true}
			if rnd.Intn(6) == 0 {
				o.Cache = r.Dir()
			}
			check(r, name, rnd, w, n, o)
		})
		r.Cases("entity", r.Pick(150, 2000), func(name string, rnd *rand.Rand) {
			o := world.Default()
			o.Alias, o.EqClass, o.EqProp = 0.7, 0.5, 0.5
			w, ex := world.Generate(rnd, o)
			l, err := lib.Load(w, lib.Options{})
			if err != nil {
				r.Violation(name, "loading a valid dataset fails: "+err.Error(), lib.Dump(w))
				return
			}
			ob := lib.NewObserver(ex.G)
			got := ob.All(w, l.Data)
			ob.Identity(l.Identity)
			r.Eval(lib.Key(w))
			r.Count("names with another canonical name", len(l.Identity))
			if a, b := lib.Text(ex.Bundles, true), lib.Text(got, true); a != b {
				r.Violation(name, "entities with several names are not loaded completely", hx.DiffText(a, b)+"\n"+lib.Dump(w))
			} else if len(ob.Problems) > 0 {
				r.Violation(name, ob.Problems[0], strings.Join(ob.Problems, "\n")+"\n"+lib.Dump(w))
			}
		})
		r.Require("names with another canonical name", 1000)
		r.Require("paths", 1000)
	})
}

// shape makes datasets with a certain shape of links
func shape(rnd *rand.Rand) (*world.World, gq.Names) {
	w := &world.World{SameAsPreds: []string{world.SameAs}, InversePreds: []string{world.Inverse}}
	k := 2 + rnd.Intn(40)
	names := gq.Names{Preds: []string{"http://p.example/0", world.RDFType}}
	name := func(i int) string { return fmt.Sprintf("http://s.example/%d", i) }
	add := func(s, p, o string) {
		w.Quads = append(w.Quads, world.Quad{S: world.I(s), P: world.I(p), O: world.I(o)})
	}
	perm := rnd.Perm(k)
	kind := rnd.Intn(5)
	for i := 1; i < k; i++ {
		a, b := name(perm[i]), name(perm[i-1])
		switch kind {
		case 1: // star
			b = name(perm[0])
		case 2: // tree
			b = name(perm[i/2])
		case 3: // two stars that are linked in the end
			b = name(perm[i%2])
		}
		if rnd.Intn(2) == 0 {
			a, b = b, a
		}
		add(a, world.SameAs, b)
	}
	switch {
	case kind == 0: // cycle
		add(name(perm[k-1]), world.SameAs, name(perm[0]))
	case kind == 3 && k > 2:
		add(name(perm[0]), world.SameAs, name(perm[1]))
	}
	for i := 0; i < k; i++ {
		names.Nodes = append(names.Nodes, name(i))
		add(name(i), "http://p.example/0", fmt.Sprintf("http://t.example/%d", rnd.Intn(3)))
		if rnd.Intn(2) == 0 {
			add("http://other.example/", "http://p.example/0", name(i))
		}
	}
	add(name(k+1), "http://p.example/0", "http://t.example/0") // not linked
	names.Nodes = append(names.Nodes, name(k+1), "http://t.example/0", "http://t.example/1", "http://other.example/")
	if rnd.Intn(2) == 0 {
		rnd.Shuffle(len(w.Quads), func(i, j int) { w.Quads[i], w.Quads[j] = w.Quads[j], w.Quads[i] })
	}
	return w, names
}

func check(r *hx.R, name string, rnd *rand.Rand, w *world.World, n gq.Names, o lib.Options) {
	g := w.Graph()
	_, index, err := lib.Index(w, o)
	if err != nil {
		r.Violation(name, "indexing a valid dataset fails: "+err.Error(), lib.Dump(w))
		return
	}
	defer index.Close()
	id, err := lib.Identities(index)
	if err != nil {
		r.Violation(name, "identity map fails: "+err.Error(), lib.Dump(w))
		return
	}
	ob := lib.NewObserver(g)
	ob.Identity(id)
	key := ""
	if len(g.C.Members()) > 0 {
		key = lib.Key(w)
	}
	r.Eval(key)
	r.Count("names with another canonical name", len(id))
	r.Count("classes", len(g.C.Members()))
	for i := 0; i < 10; i++ {
		q := gq.RandomQuery(rnd, g, n)
		want := gq.Want(g, q)
		var first string
		for j := 0; j < 3; j++ {
			if j > 0 { // other names for the same things
				q = append(gq.Query{}, q...)
				for k := range q {
					q[k].P, q[k].O = other(rnd, g, q[k].P), other(rnd, g, q[k].O)
				}
			}
			paths, err := gq.Run(index, q)
			if err != nil {
				r.Violation(name, "query fails: "+err.Error(), q.String()+"\n"+lib.Dump(w))
				return
			}
			raw := fmt.Sprintf("%+v", paths)
			if j == 0 {
				first = raw
			} else if raw != first {
				r.Violation(name, "the answer depends on the name used in the query", q.String()+"\n"+first+"\n"+raw+"\n"+lib.Dump(w))
				return
			}
			got := gq.Got(ob, paths)
			sort.Strings(got)
			r.Count("paths", len(got))
			if a, b := strings.Join(want, "\n"), strings.Join(got, "\n"); a != b {
				r.Violation(name, "statements about one of the names are missing, or there are additional ones", q.String()+"\n"+hx.DiffText(a, b)+"\n"+lib.Dump(w))
				return
			}
		}
	}
	ob.Identity(id) // now that the canonical names in use are known
	if len(ob.Problems) > 0 {
		r.Violation(name, ob.Problems[0], strings.Join(ob.Problems, "\n")+"\n"+lib.Dump(w))
		return
	}
	if len(id) > 2 && len(id) < 6 {
		r.Sample(fmt.Sprintf("%s: %d statements, identity map %v", name, len(w.Quads), id))
	}
}

func other(rnd *rand.Rand, g *world.Graph, x string) string {
	ms := g.C.Members()[g.C.Of(x)]
	if len(ms) == 0 {
		return x
	}
	return ms[rnd.Intn(len(ms))]
}
