// Command c24 monitors that finalized indexes never change.
package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/triplestore/imap"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/verifh/gq"
	"github.com/FAU-CDI/hangover/internal/verifh/hx"
	"github.com/FAU-CDI/hangover/internal/verifh/lib"
	"github.com/FAU-CDI/hangover/internal/verifh/world"
)

func main() {
	hx.Main("C24", func(r *hx.R) {
		r.Rule("each case is a random index, in memory or on disk, with or without masks, filled by the loader or call by call; several goroutines try to modify it (with known, new and masked names, alone and together) while others ask queries; every modification has to fail and every answer has to be what it was right after finalizing; non-trivial: at least one statement, and modifications attempted while queries were running")
		r.Cases("loaded", r.Pick(90, 1500), func(name string, rnd *rand.Rand) { loaded(r, name, rnd, false) })
		r.Cases("loaded-disk", r.Pick(30, 500), func(name string, rnd *rand.Rand) { loaded(r, name, rnd, true) })
		r.Cases("direct", r.Pick(150, 2500), func(name string, rnd *rand.Rand) { direct(r, name, rnd, false) })
		r.Cases("direct-disk", r.Pick(30, 500), func(name string, rnd *rand.Rand) { direct(r, name, rnd, true) })
		r.Cases("imap", r.Pick(200, 3000), func(name string, rnd *rand.Rand) { labels(r, name, rnd, rnd.Intn(5) == 0) })
		r.Require("refused modifications", 10000)
		r.Require("answers while modifying", 2000)
		r.Require("concurrent finalizations", 100)
	})
}

func engine(r *hx.R, disk bool) igraph.Engine {
	if disk {
		return sparkl.NewEngine(r.Dir())
	}
	return sparkl.NewEngine("")
}

// loaded makes an index using the loader
func loaded(r *hx.R, name string, rnd *rand.Rand, disk bool) {
	o := gq.Random(rnd)
	o.Same, o.Inv = rnd.Intn(5), rnd.Intn(2)
	w, n := gq.Generate(rnd, o)
	lo := lib.Options{NoMask: rnd.Intn(2) == 0, Engine: engine(r, disk)}
	_, index, err := lib.Index(w, lo)
	if err != nil {
		r.Violation(name, "indexing a valid dataset fails: "+err.Error(), lib.Dump(w))
		return
	}
	defer index.Close()
	check(r, name, rnd, w, n, index)
}

// direct makes an index by calling its methods
func direct(r *hx.R, name string, rnd *rand.Rand, disk bool) {
	o := gq.Random(rnd)
	o.Same, o.Inv = 0, 0
	w, n := gq.Generate(rnd, o)
	var index igraph.Index
	if err := index.Reset(engine(r, disk)); err != nil {
		r.Inconclusive(name + ": " + err.Error())
		return
	}
	defer index.Close()
	problem := func(what string, err error) bool {
		if err != nil {
			r.Violation(name, what+" fails before finalizing: "+err.Error(), lib.Dump(w))
			return true
		}
		return false
	}
	if rnd.Intn(3) == 0 && len(n.Preds) > 1 {
		if problem("SetPredicateMask", index.SetPredicateMask(map[impl.Label]struct{}{impl.Label(n.Preds[0]): {}})) {
			return
		}
		if problem("SetDataMask", index.SetDataMask(map[impl.Label]struct{}{impl.Label(n.Preds[len(n.Preds)-1]): {}})) {
			return
		}
	}
	if len(n.Preds) > 2 && rnd.Intn(2) == 0 {
		if problem("MarkInverse", index.MarkInverse(impl.Label(n.Preds[0]), impl.Label(n.Preds[1]))) {
			return
		}
	}
	if rnd.Intn(2) == 0 && len(n.Nodes) > 2 {
		if problem("MarkIdentical", index.MarkIdentical(impl.Label(n.Nodes[0]), impl.Label(n.Nodes[1]))) {
			return
		}
	}
	for _, q := range w.Quads {
		s, p := impl.Label(q.S.V), impl.Label(q.P.V)
		var err error
		switch {
		case q.O.Kind == world.IRI:
			err = index.AddTriple(s, p, impl.Label(q.O.V))
		case q.O.Lang != "":
			err = index.AddLangData(s, p, impl.Datum(q.O.V), impl.Language(q.O.Lang))
		default:
			err = index.AddData(s, p, impl.Datum(q.O.V))
		}
		if problem("adding", err) {
			return
		}
	}
	if rnd.Intn(2) == 0 && problem("Compact", index.Compact()) {
		return
	}
	// finalize, several times at the same time
	k := 1 + rnd.Intn(4)
	var ok atomic.Int32
	var wg sync.WaitGroup
	for i := 0; i < k; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if index.Finalize() == nil {
				ok.Add(1)
			}
		}()
	}
	wg.Wait()
	if k > 1 {
		r.Count("concurrent finalizations", 1)
	}
	if ok.Load() != 1 {
		r.Violation(name, fmt.Sprintf("%d calls to Finalize at the same time, and %d succeed", k, ok.Load()), lib.Dump(w))
		return
	}
	check(r, name, rnd, w, n, &index)
}

// answer asks for one thing
func ask(index *igraph.Index, q gq.Query) string {
	paths, err := gq.Run(index, q)
	var b strings.Builder
	for _, p := range paths {
		fmt.Fprintf(&b, "%q %v %q %q %q %+v\n", p.Nodes, p.HasDatum, p.Datum, p.Language, p.Edges, p.Triples)
	}
	if err != nil {
		fmt.Fprintf(&b, "error %v\n", err)
	}
	return b.String()
}

// facts are all other things to be known about an index
func facts(index *igraph.Index, ids int) string {
	var b strings.Builder
	var id impl.ID
	for i := 0; i < ids; i++ {
		t, err := index.Triple(id.Inc())
		fmt.Fprintf(&b, "%d %+v %v\n", i, t, err)
	}
	count, err := index.TripleCount()
	fmt.Fprintf(&b, "count %d %v\nstats %+v\n", count, err, index.Stats())
	m, err := lib.Identities(index)
	for _, k := range hx.SortedKeys(m) {
		fmt.Fprintf(&b, "%q is %q\n", k, m[k])
	}
	fmt.Fprintf(&b, "%v", err)
	return b.String()
}

func check(r *hx.R, name string, rnd *rand.Rand, w *world.World, n gq.Names, index *igraph.Index) {
	var queries []gq.Query
	for _, p := range n.Preds {
		for _, o := range n.Nodes {
			queries = append(queries, gq.Query{{Ending: true, P: p, O: o}})
		}
	}
	// every statement has to be visible
	for _, p := range n.Preds[1:] {
		for _, o := range n.Nodes {
			queries = append(queries, gq.Query{{Ending: true, P: n.Preds[0], O: o}, {P: p}})
		}
	}
	g := w.Graph()
	for i := 0; i < 12; i++ {
		queries = append(queries, gq.RandomQuery(rnd, g, n))
	}
	ids := len(w.Quads)*2 + 20
	want := make([]string, len(queries))
	some := 0
	for i, q := range queries {
		want[i] = ask(index, q)
		some += strings.Count(want[i], "\n")
	}
	before := facts(index, ids)

	verify := func(what string, i int) bool {
		if got := ask(index, queries[i]); got != want[i] {
			r.Violation(name, "an answer of a finalized index changed "+what, queries[i].String()+"\n"+hx.DiffText(want[i], got)+"\n"+lib.Dump(w))
			return false
		}
		return true
	}

	label := func(rnd *rand.Rand) impl.Label {
		switch rnd.Intn(4) {
		case 0:
			return impl.Label(fmt.Sprintf("http://new.example/%d", rnd.Intn(5)))
		case 1:
			return impl.Label(n.Preds[rnd.Intn(len(n.Preds))])
		default:
			return impl.Label(n.Nodes[rnd.Intn(len(n.Nodes))])
		}
	}
	pred := func(rnd *rand.Rand) impl.Label {
		if rnd.Intn(4) == 0 {
			return label(rnd)
		}
		return impl.Label(n.Preds[rnd.Intn(len(n.Preds))])
	}
	// modify attempts one modification
	modify := func(rnd *rand.Rand) (string, bool) {
		a, b, p := label(rnd), label(rnd), pred(rnd)
		known := len(w.Quads) > 0 && rnd.Intn(4) == 0
		if known {
			q := w.Quads[rnd.Intn(len(w.Quads))]
			a, p = impl.Label(q.S.V), impl.Label(q.P.V)
			if q.O.Kind == world.IRI {
				b = impl.Label(q.O.V)
			}
		}
		var err error
		var what string
		switch rnd.Intn(7) {
		case 0:
			what, err = fmt.Sprintf("AddTriple(%q, %q, %q)", a, p, b), index.AddTriple(a, p, b)
		case 1:
			what, err = fmt.Sprintf("AddData(%q, %q, ...)", a, p), index.AddData(a, p, "new")
		case 2:
			what, err = fmt.Sprintf("AddLangData(%q, %q, ...)", a, p), index.AddLangData(a, p, "new", "en")
		case 3:
			what, err = fmt.Sprintf("MarkIdentical(%q, %q)", a, b), index.MarkIdentical(a, b)
		case 4:
			c := pred(rnd)
			what, err = fmt.Sprintf("MarkInverse(%q, %q)", p, c), index.MarkInverse(p, c)
		case 5:
			what, err = "Compact()", index.Compact()
		case 6:
			what, err = "Finalize()", index.Finalize()
		}
		return what, err != nil
	}

	// first one after the other, so that it is known what changed something
	for i := 0; i < 25; i++ {
		what, refused := modify(rnd)
		if !refused {
			r.Violation(name, strings.SplitN(what, "(", 2)[0]+" of a finalized index succeeds", what+"\n"+lib.Dump(w))
			return
		}
		r.Count("refused modifications", 1)
		if i%5 == 4 {
			for k := 0; k < 5; k++ {
				if !verify("after "+what, rnd.Intn(len(queries))) {
					return
				}
			}
		}
	}
	// masks have no influence on what is there
	if rnd.Intn(2) == 0 {
		_ = index.SetPredicateMask(map[impl.Label]struct{}{label(rnd): {}})
		_ = index.SetDataMask(map[impl.Label]struct{}{})
		_ = index.SetPredicateMask(nil)
	}
	if after := facts(index, ids); after != before {
		r.Violation(name, "a finalized index changed by refused modifications", hx.DiffText(before, after)+"\n"+lib.Dump(w))
		return
	}

	// now all at the same time
	var wg sync.WaitGroup
	var stop, failed atomic.Bool
	for i := 0; i < 3; i++ {
		wg.Add(1)
		rnd := rand.New(rand.NewSource(rnd.Int63()))
		go func() {
			defer wg.Done()
			for !stop.Load() && !failed.Load() {
				if what, refused := modify(rnd); !refused {
					failed.Store(true)
					r.Violation(name, strings.SplitN(what, "(", 2)[0]+" of a finalized index succeeds while others use it", what+"\n"+lib.Dump(w))
				}
				r.Count("refused modifications", 1)
			}
		}()
	}
	var readers sync.WaitGroup
	for i := 0; i < 4; i++ {
		readers.Add(1)
		rnd := rand.New(rand.NewSource(rnd.Int63()))
		go func() {
			defer readers.Done()
			for k := 0; k < 12 && !failed.Load(); k++ {
				if k == 5 {
					if after := facts(index, ids); after != before {
						failed.Store(true)
						r.Violation(name, "a finalized index changed while others use it", hx.DiffText(before, after)+"\n"+lib.Dump(w))
					}
				}
				if !verify("while others use it", rnd.Intn(len(queries))) {
					failed.Store(true)
				}
				r.Count("answers while modifying", 1)
			}
		}()
	}
	readers.Wait()
	stop.Store(true)
	wg.Wait()
	if failed.Load() {
		return
	}
	for i := range queries {
		if !verify("after others used it", i) {
			return
		}
	}
	if after := facts(index, ids); after != before {
		r.Violation(name, "a finalized index changed after others used it", hx.DiffText(before, after)+"\n"+lib.Dump(w))
		return
	}
	if some > 0 && len(w.Quads) > 0 {
		r.Eval(lib.Key(w))
	} else {
		r.Eval("")
	}
	r.Count("paths compared", some)
}

// labels checks a map of labels
func labels(r *hx.R, name string, rnd *rand.Rand, disk bool) {
	var m imap.IMap
	if err := m.Reset(engine(r, disk)); err != nil {
		r.Inconclusive(name + ": " + err.Error())
		return
	}
	defer m.Close()
	var all []impl.Label
	var history []string
	for i := 0; i < 3+rnd.Intn(20); i++ {
		all = append(all, impl.Label(fmt.Sprint("label", i)))
	}
	pick := func(rnd *rand.Rand) impl.Label { return all[rnd.Intn(len(all))] }
	for i := 0; i < 2*len(all); i++ {
		var err error
		a, b := pick(rnd), pick(rnd)
		if rnd.Intn(3) == 0 {
			_, err = m.MarkIdentical(a, b)
		} else {
			_, err = m.Add(a)
		}
		history = append(history, fmt.Sprint(a, " ", b))
		if err != nil {
			r.Violation(name, "adding to a map fails before finalizing: "+err.Error(), strings.Join(history, "\n"))
			return
		}
	}
	if err := m.Finalize(); err != nil {
		r.Violation(name, "Finalize of a map fails: "+err.Error(), strings.Join(history, "\n"))
		return
	}
	snapshot := func() string {
		var lines []string
		for _, l := range append([]impl.Label{"new0", "new1", "new2"}, all...) {
			id, ok, err := m.Get(l)
			f, err2 := m.Forward(l)
			back, err3 := m.Reverse(id.Literal)
			lines = append(lines, fmt.Sprintf("%q %v %v %v %v %v %q %v", l, id, ok, err, f, err2, back, err3))
		}
		ids := imap.MakeMemory[impl.Label, impl.Label](0)
		err := m.IdentityMap(&ids)
		lines = append(lines, fmt.Sprint(err))
		_ = ids.Iterate(func(a, b impl.Label) error {
			lines = append(lines, fmt.Sprintf("%q is %q", a, b))
			return nil
		})
		sort.Strings(lines)
		return strings.Join(lines, "\n")
	}
	before := snapshot()
	var wg sync.WaitGroup
	for i := 0; i < 3; i++ {
		wg.Add(2)
		rnd := rand.New(rand.NewSource(rnd.Int63()))
		go func() {
			defer wg.Done()
			for k := 0; k < 20; k++ {
				a, b := pick(rnd), pick(rnd)
				if rnd.Intn(2) == 0 {
					a = impl.Label(fmt.Sprint("new", rnd.Intn(3)))
				}
				if rnd.Intn(2) == 0 {
					a, b = b, a
				}
				var err error
				var what string
				switch rnd.Intn(5) {
				case 0:
					what = "Add"
					_, err = m.Add(a)
				case 1:
					what = "AddNew"
					_, _, err = m.AddNew(a)
				case 2:
					what = "MarkIdentical"
					_, err = m.MarkIdentical(a, b)
				case 3:
					what = "Finalize"
					err = m.Finalize()
				case 4:
					_ = m.Compact()
					continue
				}
				if err == nil {
					r.Violation(name, what+" of a finalized map succeeds", fmt.Sprint(a, b, "\n", strings.Join(history, "\n")))
					return
				}
				r.Count("refused modifications", 1)
			}
		}()
		go func() {
			defer wg.Done()
			for k := 0; k < 3; k++ {
				if after := snapshot(); after != before {
					r.Violation(name, "a finalized map changed", hx.DiffText(before, after)+"\n"+strings.Join(history, "\n"))
					return
				}
			}
		}()
	}
	wg.Wait()
	if after := snapshot(); after != before {
		r.Violation(name, "a finalized map changed", hx.DiffText(before, after)+"\n"+strings.Join(history, "\n"))
		return
	}
	r.Eval(before)
}
