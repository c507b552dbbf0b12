// Command c01 monitors that extraction is exact.
package main

import (
	"fmt"
	"math/rand"
	"strings"

	"github.com/FAU-CDI/hangover/internal/verifh/hx"
	"github.com/FAU-CDI/hangover/internal/verifh/lib"
	"github.com/FAU-CDI/hangover/internal/verifh/world"
)

func main() {
	hx.Main("C01", func(r *hx.R) {
		r.Rule("each case generates a pathbuilder and a dataset from the seed, loads it through index and extraction in memory, and compares every entity, path, field value, child and supporting statement with a brute-force model; non-trivial: at least one entity with a value or child")
		r.Assume("the parsers of pathbuilder xml and n-quads (external modules) are correct on the generated syntax")
		r.Cases("world", r.Pick(900, 12000), func(name string, rnd *rand.Rand) {
			o := world.Default()
			switch rnd.Intn(6) {
			case 0:
				o.Depth, o.Bundles, o.Entities = 5, 1, 4
			case 1:
				o.Bundles, o.Entities, o.Hostile = 6, 3, 0.1
			case 2:
				o.Entities, o.BigField = 25, 5
				o.Bundles, o.Depth = 2, 2
			case 3:
				o.BNodes, o.IRIData = true, true
			}
			w, ex := world.Generate(rnd, o)
			check(r, name, w, ex)
		})
		r.Cases("large", r.Pick(8, 60), func(name string, rnd *rand.Rand) {
			o := world.Default()
			o.Bundles, o.Entities, o.BigField, o.Depth, o.Noise = 3, 250, 4, 3, 200
			w, ex := world.Generate(rnd, o)
			check(r, name, w, ex)
		})
		shared(r)
		r.Require("entities", 500)
		r.Require("values", 500)
		r.Require("children", 100)
		r.Require("inferred triples", 50)
	})
}

func check(r *hx.R, name string, w *world.World, ex *world.Expected) {
	l, err := lib.Load(w, lib.Options{})
	if err != nil {
		r.Violation(name, "loading a valid dataset fails: "+err.Error(), lib.Dump(w))
		return
	}
	ob := lib.NewObserver(ex.G)
	got := ob.All(w, l.Data)
	ob.Identity(l.Identity)
	key := ""
	if ex.NumVal+ex.NumChild > 0 {
		key = lib.Key(w)
	}
	r.Eval(key)
	r.Count("entities", ex.NumEnt)
	r.Count("values", ex.NumVal)
	r.Count("children", ex.NumChild)
	r.Count("statements", len(w.Quads))
	r.Count("supporting triples checked", ob.Triples)
	r.Count("inferred triples", ob.Inferred)
	want, have := lib.Text(ex.Bundles, true), lib.Text(got, true)
	if want != have {
		r.Violation(name, "extracted entities differ from what the dataset states", hx.DiffText(want, have)+"\n"+lib.Dump(w))
		return
	}
	if len(ob.Problems) > 0 {
		r.Violation(name, ob.Problems[0], strings.Join(ob.Problems, "\n")+"\n"+lib.Dump(w))
		return
	}
	if key != "" && len(want) < 3000 {
		r.Sample(fmt.Sprintf("%s: %d statements\n%s", name, len(w.Quads), want))
	}
}

// shared is a fixed dataset where two entities share a sub-entity
func shared(r *hx.R) {
	const name = "shared-sub-entity"
	r.Do(name, func() {
		w := world.Shared()
		l, err := lib.Load(w, lib.Options{})
		if err != nil {
			r.Violation(name, "loading a valid dataset fails: "+err.Error(), lib.Dump(w))
			return
		}
		ex := w.Expect()
		r.Eval(lib.Key(w))
		got := lib.NewObserver(ex.G).All(w, l.Data)
		want, have := lib.Text(ex.Bundles, true), lib.Text(got, true)
		if want == have {
			return
		}
		// the one known way to be wrong: both parents have the sub-entity once, with its value repeated
		known := len(l.Data["b0"]) == 2
		for _, e := range l.Data["b0"] {
			c := e.Children["b1"]
			known = known && len(c) == 1 && c[0].URI == "http://x.example/shared"
			if known {
				v := c[0].Fields["f"]
				known = len(v) == 2 && v[0].Value == "value" && v[1].Value == "value"
			}
		}
		if known {
			r.Known("shared-sub-entity", "a sub-entity shared by two entities has every value repeated, and names only one of them as parent in its path")
		} else {
			r.Violation(name, "shared sub-entities differ", hx.DiffText(want, have)+"\n"+lib.Dump(w))
		}
	})
}
