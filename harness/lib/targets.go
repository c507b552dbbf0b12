package lib

import (
	"fmt"
	"math/rand"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"github.com/FAU-CDI/hangover/internal/verifh/world"
	"github.com/FAU-CDI/hangover/internal/viewer"
)

// Target is something to ask a site for
type Target struct {
	Target string
	Kind   string // page, api, static, progress, perf, none (not found)
}

var statics struct {
	once sync.Once
	ts   []Target
}

// Statics are all files that a site serves besides its pages
func Statics() []Target {
	statics.once.Do(func() {
		ts := []Target{{"/about", "about"}, {"/favicon.ico", "static"}, {"/assets/missing.js", "none"}}
		s := NewSite(nil, nil, viewer.RenderFlags{})
		dom := s.Get("/about").DOM()
		for _, n := range All(dom, "*") {
			for _, key := range []string{"src", "href"} {
				if a := Attr(n, key); strings.HasPrefix(a, "/assets/") {
					ts = append(ts, Target{a, "static"})
				}
			}
		}
		statics.ts = ts
	})
	return statics.ts
}

// Targets returns requests for everything in a world, and for things that are not there
func Targets(w *world.World, ex *world.Expected, rnd *rand.Rand, tipsy bool) (ts []Target) {
	add := func(kind, format string, args ...any) {
		ts = append(ts, Target{Target: fmt.Sprintf(format, args...), Kind: kind})
	}
	add("page", "/")
	add("page", "/pathbuilder")
	add("page", "/wisski/navigate/%d/view", rnd.Intn(100))
	if tipsy {
		add("page", "/tipsy")
	} else {
		add("none", "/tipsy")
	}
	add("perf", "/perf")
	add("api", "/api/v1")
	add("progress", "/api/v1/progress")
	add("perfapi", "/api/v1/perf")
	add("none", "/nowhere")
	add("none", "/api/v1/nowhere")
	add("none", "/api/v1/entity/x")
	ts = append(ts, Statics()...)

	entity := func(bundle, uri string) {
		b, u := url.PathEscape(bundle), url.QueryEscape(uri)
		add("page", "/entity/%s?uri=%s", b, u)
		add("api", "/api/v1/entity/%s?uri=%s", b, u)
		add("api", "/api/v1/ntriples/%s?uri=%s", b, u)
		add("api", "/api/v1/turtle/%s?uri=%s", b, u)
		add("page", "/wisski/get?uri=%s", u)
	}
	bundle := func(id string) {
		b := url.PathEscape(id)
		add("page", "/bundle/%s", b)
		add("page", "/bundle/%s?limit=%d&skip=%d", b, 1+rnd.Intn(4), rnd.Intn(4))
		add("page", "/bundle/%s?limit=1000&skip=0", b)
		add("page", "/bundle/%s?limit=0&skip=99999999999999999999", b)
		add("api", "/api/v1/bundle/%s", b)
	}
	var names []string
	all := ex.G.C.Members()
	for _, b := range w.Bundles {
		bundle(b.ID)
		names = append(names, b.ID)
		for _, e := range ex.Bundles[b.ID] {
			members := all[e.URI]
			if len(members) == 0 {
				members = []string{e.URI}
			}
			for _, m := range members {
				entity(b.ID, m)
			}
		}
	}
	for _, b := range w.All() {
		if b.Parent != nil {
			bundle(b.ID)
		}
	}
	bundle("unknown")
	entity("unknown", "http://unknown.example/")
	if len(names) > 0 {
		entity(names[rnd.Intn(len(names))], "http://unknown.example/")
	}
	return ts
}

// BigFiles writes a dataset that takes some time to load
func BigFiles(dir string, n int) (xml, nq string, w *world.World) {
	b := &world.Bundle{ID: "big", Name: "Big", BundleID: "big", Path: []string{"http://big.example/T"}}
	f := &world.Field{ID: "name", UUID: "name", FieldID: "name", Type: "string", Name: "Name", Path: []string{"http://big.example/T"}, Datatype: "http://big.example/name"}
	b.Fields = []*world.Field{f}
	w = &world.World{Bundles: []*world.Bundle{b}}
	for i := 0; i < n; i++ {
		s := world.I(fmt.Sprintf("http://big.example/entity/%d", i))
		w.Quads = append(w.Quads,
			world.Quad{S: s, P: world.I(world.RDFType), O: world.I("http://big.example/T")},
			world.Quad{S: s, P: world.I("http://big.example/name"), O: world.L(fmt.Sprintf("value number %d", i))})
	}
	xml, nq = filepath.Join(dir, "big.xml"), filepath.Join(dir, "big.nq")
	must(os.WriteFile(xml, w.XML(), 0o644))
	must(os.WriteFile(nq, w.NQ(), 0o644))
	return
}
