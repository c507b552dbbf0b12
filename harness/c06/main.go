// Command c06 monitors the filter made from the pathbuilder.
package main

import (
	"fmt"
	"math/rand"
	"strings"

	"github.com/FAU-CDI/hangover/internal/verifh/hx"
	"github.com/FAU-CDI/hangover/internal/verifh/lib"
	"github.com/FAU-CDI/hangover/internal/verifh/world"
)

func main() {
	hx.Main("C06", func(r *hx.R) {
		r.Rule("each case loads a generated dataset twice, once using the pathbuilder as a filter and once without any filter, and compares all entities, values, children, statements and names; non-trivial: the filter skipped at least one statement and there is at least one entity")
		r.Cases("world", r.Pick(450, 7000), func(name string, rnd *rand.Rand) {
			o := world.Default()
			o.Noise = 40
			o.EqProp, o.Inv, o.EqClass = 0.4, 0.4, 0.4
			o.IRIData = rnd.Intn(2) == 0
			w, ex := world.Generate(rnd, o)
			check(r, name, w, ex, "")
		})
		r.Cases("disk", r.Pick(16, 300), func(name string, rnd *rand.Rand) {
			o := world.Default()
			o.Noise = 40
			o.EqProp, o.Inv, o.EqClass = 0.4, 0.4, 0.4
			o.IRIData = true
			w, ex := world.Generate(rnd, o)
			check(r, name, w, ex, r.Dir())
		})
		r.Require("statements skipped by the filter", 1000)
		r.Require("entities", 300)
	})
}

func check(r *hx.R, name string, w *world.World, ex *world.Expected, cache string) {
	all, err := lib.Load(w, lib.Options{NoMask: true, Cache: cache})
	if err != nil {
		r.Violation(name, "loading without a filter fails: "+err.Error(), lib.Dump(w))
		return
	}
	masked, err := lib.Load(w, lib.Options{Cache: cache})
	if err != nil {
		r.Violation(name, "loading with a filter fails: "+err.Error(), lib.Dump(w))
		return
	}
	st := masked.Index.Stats()
	skipped := int(st.MaskedDataTriples + st.MaskedPredTriples)
	r.Count("statements skipped by the filter", skipped)
	r.Count("entities", ex.NumEnt)
	r.Count("values", ex.NumVal)
	if skipped > 0 && ex.NumEnt > 0 {
		r.Eval(lib.Key(w))
	} else {
		r.Eval("")
	}
	obA, obM := lib.NewObserver(ex.G), lib.NewObserver(ex.G)
	a, m := lib.Text(obA.All(w, all.Data), true), lib.Text(obM.All(w, masked.Data), true)
	if a != m {
		r.Violation(name, "entities differ when the pathbuilder is used as a filter", hx.DiffText(a, m)+"\n"+lib.Dump(w))
		return
	}
	if a, m := lib.RawText(all.Data), lib.RawText(masked.Data); a != m {
		r.Violation(name, "entities differ when the pathbuilder is used as a filter", hx.DiffText(a, m)+"\n"+lib.Dump(w))
		return
	}
	obM.Identity(masked.Identity)
	if len(obM.Problems) > 0 {
		r.Violation(name, obM.Problems[0], strings.Join(obM.Problems, "\n")+"\n"+lib.Dump(w))
		return
	}
	if a, b := fmt.Sprint(all.Identity), fmt.Sprint(masked.Identity); a != b {
		r.Violation(name, "names differ when the pathbuilder is used as a filter", a+"\n"+b+"\n"+lib.Dump(w))
		return
	}
	if skipped > 5 && len(w.Quads) < 40 {
		r.Sample(fmt.Sprintf("%s: %d statements, %d skipped, %d entities, %d values\n%s", name, len(w.Quads), skipped, ex.NumEnt, ex.NumVal, a))
	}
}
