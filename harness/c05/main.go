// Command c05 monitors inverse properties.
package main

import (
	"fmt"
	"math/rand"
	"strings"

	"github.com/FAU-CDI/hangover/internal/verifh/gq"
	"github.com/FAU-CDI/hangover/internal/verifh/hx"
	"github.com/FAU-CDI/hangover/internal/verifh/lib"
	"github.com/FAU-CDI/hangover/internal/verifh/world"
)

func main() {
	hx.Main("C05", func(r *hx.R) {
		r.Rule("each case is a random dataset with inverse properties, whose statements are made directly, inversely or both, also using equivalent names; every property is followed from every node in both directions, and each statement is compared with the inference by a model, including its mark and the source it names; non-trivial: at least one inferred statement")
		r.Assume("every property has at most one inverse, and is not its own inverse (documented restriction of the index)")
		r.Cases("random", r.Pick(500, 7000), func(name string, rnd *rand.Rand) {
			check(r, name, rnd, lib.Options{NoMask: true})
		})
		r.Cases("disk", r.Pick(40, 600), func(name string, rnd *rand.Rand) {
			check(r, name, rnd, lib.Options{NoMask: true, Cache: r.Dir(), Compact: 4})
		})
		r.Cases("entity", r.Pick(120, 2000), func(name string, rnd *rand.Rand) {
			o := world.Default()
			o.Inv, o.EqProp = 0.8, 0.4
			w, ex := world.Generate(rnd, o)
			l, err := lib.Load(w, lib.Options{})
			if err != nil {
				r.Violation(name, "loading a valid dataset fails: "+err.Error(), lib.Dump(w))
				return
			}
			ob := lib.NewObserver(ex.G)
			got := ob.All(w, l.Data)
			if ob.Inferred > 0 {
				r.Eval(lib.Key(w))
			} else {
				r.Eval("")
			}
			r.Count("inferred statements", ob.Inferred)
			if a, b := lib.Text(ex.Bundles, true), lib.Text(got, true); a != b {
				r.Violation(name, "entities reached by inverse properties are not loaded exactly", hx.DiffText(a, b)+"\n"+lib.Dump(w))
			} else if len(ob.Problems) > 0 {
				r.Violation(name, ob.Problems[0], strings.Join(ob.Problems, "\n")+"\n"+lib.Dump(w))
			}
		})
		r.Require("inferred statements", 1000)
		r.Require("statements that are both stated and inferred", 100)
	})
}

func check(r *hx.R, name string, rnd *rand.Rand, lo lib.Options) {
	o := gq.Random(rnd)
	o.Inv = 1 + rnd.Intn(2)
	o.Preds = 2 + rnd.Intn(3)
	o.Nodes = 2 + rnd.Intn(4)
	o.Same = rnd.Intn(4)
	w, n := gq.Generate(rnd, o)
	g := w.Graph()
	// state some of the inverse statements as well
	names := map[string]string{}
	for _, p := range n.Preds {
		if i, ok := g.Inv[g.C.Of(p)]; ok {
			names[p] = i
		}
	}
	for _, q := range append([]world.Quad{}, w.Quads...) {
		if i, ok := names[q.P.V]; ok && q.O.Kind == world.IRI && rnd.Intn(3) == 0 {
			nq := world.Quad{S: q.O, P: world.I(i), O: q.S}
			at := rnd.Intn(len(w.Quads) + 1)
			w.Quads = append(w.Quads[:at], append([]world.Quad{nq}, w.Quads[at:]...)...)
			r.Count("statements that are both stated and inferred", 1)
		}
	}
	g = w.Graph()
	_, index, err := lib.Index(w, lo)
	if err != nil {
		r.Violation(name, "indexing a valid dataset fails: "+err.Error(), lib.Dump(w))
		return
	}
	defer index.Close()
	ob := lib.NewObserver(g)
	diff, q, seen, err := gq.Exhaust(index, ob, n)
	if err != nil {
		r.Violation(name, "query fails: "+err.Error(), q+"\n"+lib.Dump(w))
		return
	}
	r.Count("paths", seen)
	r.Count("inferred statements", ob.Inferred)
	if ob.Inferred > 0 {
		r.Eval(lib.Key(w))
		if len(w.Quads) < 9 {
			r.Sample(fmt.Sprintf("%s: %d paths, %d inferred statements\n%s", name, seen, ob.Inferred, w.NQ()))
		}
	} else {
		r.Eval("")
	}
	if diff != "" {
		r.Violation(name, "following properties gives other statements than are stated or can be inferred", q+"\n"+diff+"\n"+lib.Dump(w))
	} else if len(ob.Problems) > 0 {
		r.Violation(name, ob.Problems[0], strings.Join(ob.Problems, "\n")+"\n"+lib.Dump(w))
	}
}
