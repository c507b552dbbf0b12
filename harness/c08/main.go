// Command c08 monitors export and import of indexes.
package main

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"encoding/gob"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"strings"
	"syscall"

	"github.com/FAU-CDI/drincw/pathbuilder/pbxml"
	"github.com/FAU-CDI/hangover/internal/glass"
	"github.com/FAU-CDI/hangover/internal/stats"
	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/verifh/hx"
	"github.com/FAU-CDI/hangover/internal/verifh/lib"
	"github.com/FAU-CDI/hangover/internal/verifh/world"
	"github.com/FAU-CDI/hangover/internal/wisski"
)

func main() {
	if path := os.Getenv("C08_IMPORT"); path != "" {
		other(path)
		return
	}
	hx.Main("C08", func(r *hx.R) {
		r.Rule("each evaluation exports an index, made from a generated dataset or by hand, imports it (in this and, for some, in a new process) and compares the answer to every possible question about it: pathbuilder, bundles, entities in order, values, statements with identifiers, canonical names, aliases of every name, settings; the container of the file is checked byte by byte; distinct by all these answers; non-trivial: at least one entity")
		r.Assume("ids of the groups of a pathbuilder are unique")
		r.Cases("world", r.Pick(250, 5000), func(name string, rnd *rand.Rand) { generated(r, name, rnd, false) })
		r.Cases("cached", r.Pick(16, 200), func(name string, rnd *rand.Rand) { generated(r, name, rnd, true) })
		r.Cases("made", r.Pick(300, 6000), func(name string, rnd *rand.Rand) { made(r, name, rnd) })
		r.Cases("big", r.Pick(4, 30), func(name string, rnd *rand.Rand) { big(r, name, rnd) })
		r.CasesN("full", r.Pick(10, 60), 1, func(name string, rnd *rand.Rand) { full(r, name, rnd) })
		r.CasesN("target", 1, 1, func(name string, rnd *rand.Rand) { target(r, name, rnd) })
		r.Require("entities", 1000)
		r.Require("statements", 3000)
		r.Require("aliases", 200)
		r.Require("imports in another process", 20)
		r.Require("files over existing files", 50)
		r.Require("exports into a target that is full", 100)
		r.Require("exports of imports", 50)
	})
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

type job struct {
	Path   string
	Labels []string
}

// other is run in another process: it reads paths and writes texts
func other(path string) {
	f, err := os.Open(path)
	must(err)
	defer f.Close()
	dec := gob.NewDecoder(f)
	enc := gob.NewEncoder(os.Stdout)
	for {
		var j job
		if err := dec.Decode(&j); err != nil {
			return
		}
		g, err := glass.Import(j.Path, nil)
		if err != nil {
			must(enc.Encode("error: " + err.Error()))
			continue
		}
		must(enc.Encode(lib.GlassText(&g, j.Labels)))
	}
}

// elsewhere imports in another process
func elsewhere(r *hx.R, path string, labels []string) string {
	dir := r.Dir()
	defer os.RemoveAll(dir)
	in := filepath.Join(dir, "job")
	var data bytes.Buffer
	must(gob.NewEncoder(&data).Encode(job{path, labels}))
	must(os.WriteFile(in, data.Bytes(), 0o644))
	exe, err := os.Executable()
	must(err)
	cmd := exec.Command(exe)
	cmd.Env = append(os.Environ(), "C08_IMPORT="+in)
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	out, err := cmd.Output()
	if err != nil {
		return "crash: " + err.Error() + "\n" + stderr.String()
	}
	var s string
	must(gob.NewDecoder(bytes.NewReader(out)).Decode(&s))
	return s
}

func generated(r *hx.R, name string, rnd *rand.Rand, cached bool) {
	o := world.Default()
	o.BundleIDs = []string{"", "hash", "same", "path"}[rnd.Intn(4)]
	o.Alias, o.EqClass, o.EqProp, o.Inv = 0.4, 0.2, 0.2, 0.3
	o.IRIData, o.BNodes = rnd.Intn(2) == 0, true
	o.Hostile = 0.4
	w, ex := world.Generate(rnd, o)
	dir := r.Dir()
	defer os.RemoveAll(dir)
	xml, nq := lib.Files(w, dir)
	cache := ""
	if cached {
		cache = filepath.Join(dir, "cache")
		must(os.Mkdir(cache, 0o755))
	}
	g, err := glass.Create(xml, nq, cache, lib.Flags(w, rnd), nil)
	if err != nil {
		r.Violation(name, "loading fails: "+err.Error(), lib.Dump(w))
		return
	}
	if cached {
		// what was loaded may not depend on the cache
		must(os.RemoveAll(cache))
	}
	r.Count("entities", ex.NumEnt)
	roundtrip(r, name, rnd, &g, lib.WorldLabels(w), ex.NumEnt > 0, func() string { return lib.Dump(w) })
}

// roundtrip exports and imports again
func roundtrip(r *hx.R, name string, rnd *rand.Rand, g *glass.Glass, labels []string, nontrivial bool, dump func() string) {
	dir := r.Dir()
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, []string{"index.hangover", "ä b%20.idx", "x"}[rnd.Intn(3)])
	before := lib.GlassText(g, labels)
	if nontrivial {
		r.Eval(before)
	} else {
		r.Eval("")
	}
	if strings.Contains(before, "aliases [\"") {
		r.Count("aliases", strings.Count(before, "aliases [\""))
	}
	for _, b := range g.Cache.BundleNames() {
		for _, e := range g.Cache.Entities(b) {
			r.Count("statements", len(e.AllTriples()))
		}
	}
	fail := func(what, detail string) {
		r.Violation(name, what, detail+"\n"+dump())
	}
	if rnd.Intn(3) == 0 {
		// a file that is already there is replaced
		old := make([]byte, rnd.Intn(200000))
		rnd.Read(old)
		must(os.WriteFile(path, old, 0o644))
		r.Count("files over existing files", 1)
	}
	var st *stats.Stats
	switch rnd.Intn(60) {
	case 0:
		st = stats.NewStats(io.Discard)
		r.Count("exports with progress", 1)
	case 1:
		st = stats.NewStats(nil)
		r.Count("exports with progress", 1)
	}
	if err := glass.Export(path, *g, st); err != nil {
		fail("exporting fails", err.Error())
		return
	}
	if after := lib.GlassText(g, labels); after != before {
		fail("exporting changes what is exported", hx.DiffText(before, after))
		return
	}
	data, err := os.ReadFile(path)
	must(err)
	if what := container(data); what != "" {
		fail("the container of the file is not complete", what)
		return
	}
	got, err := glass.Import(path, st)
	if err != nil {
		fail("importing what was exported fails", err.Error())
		return
	}
	if text := lib.GlassText(&got, labels); text != before {
		fail("what is imported differs from what was exported", hx.DiffText(before, text))
		return
	}
	// the file is not touched by reading it
	again, err := os.ReadFile(path)
	must(err)
	if !bytes.Equal(again, data) {
		fail("importing changes the file", "")
		return
	}
	if rnd.Intn(4) == 0 {
		if text := elsewhere(r, path, labels); text != before {
			fail("what another process imports differs from what was exported", hx.DiffText(before, text))
			return
		}
		r.Count("imports in another process", 1)
	}
	if rnd.Intn(3) == 0 {
		// what was imported can be exported, over its own file
		if err := glass.Export(path, got, nil); err != nil {
			fail("exporting what was imported fails", err.Error())
			return
		}
		if rnd.Intn(2) == 0 {
			must(got.Close())
		}
		twice, err := glass.Import(path, nil)
		if err != nil {
			fail("importing an export of an import fails", err.Error())
			return
		}
		if text := lib.GlassText(&twice, labels); text != before {
			fail("the import of an export of an import differs", hx.DiffText(before, text))
			return
		}
		r.Count("exports of imports", 1)
	}
	if len(data) < 3000 {
		r.Sample(fmt.Sprintf("%s: file of %d bytes\n%s", name, len(data), hx.Trunc(before, 3000)))
	}
}

// container checks that a file is exactly one complete gzip stream
func container(data []byte) string {
	br := bufio.NewReader(bytes.NewReader(data))
	z, err := gzip.NewReader(br)
	if err != nil {
		return err.Error()
	}
	z.Multistream(false)
	n, err := io.Copy(io.Discard, z)
	if err != nil {
		return fmt.Sprintf("after %d bytes: %v", n, err)
	}
	if rest, _ := io.ReadAll(br); len(rest) > 0 {
		return fmt.Sprintf("%d bytes after the end", len(rest))
	}
	if n == 0 {
		return "it is empty"
	}
	return ""
}

const alphabet = "aZ09 /?&#%<>\"'\\\n\r\t\x00\x7f\u0080\u2028äöü日本𝔸\U0010FFFF\xff"

func text(rnd *rand.Rand, max int) string {
	rs := []rune(alphabet)
	var sb strings.Builder
	for i := rnd.Intn(max + 1); i > 0; i-- {
		if rnd.Intn(40) == 0 {
			sb.WriteByte(byte(rnd.Intn(256)))
		} else {
			sb.WriteRune(rs[rnd.Intn(len(rs))])
		}
	}
	return sb.String()
}

type maker struct {
	rnd *rand.Rand
	uri []string
	id  uint32
}

func (m *maker) label() impl.Label {
	if len(m.uri) > 0 && m.rnd.Intn(3) > 0 {
		return impl.Label(m.uri[m.rnd.Intn(len(m.uri))])
	}
	s := "http://ex.org/" + text(m.rnd, 6)
	if m.rnd.Intn(20) == 0 {
		s = text(m.rnd, 3)
	}
	m.uri = append(m.uri, s)
	return impl.Label(s)
}

func (m *maker) labels(max int) (ls []impl.Label) {
	for i := m.rnd.Intn(max + 1); i > 0; i-- {
		ls = append(ls, m.label())
	}
	return
}

func (m *maker) triples(max int) (ts []igraph.Triple) {
	for i := m.rnd.Intn(max + 1); i > 0; i-- {
		t := igraph.Triple{
			Subject: m.label(), Predicate: m.label(), SSubject: m.label(), SPredicate: m.label(),
			Role: igraph.Role(m.rnd.Intn(3)),
		}
		if t.Role == igraph.Data {
			t.Datum, t.Language = impl.Datum(text(m.rnd, 20)), impl.Language([]string{"", "de", "en-GB"}[m.rnd.Intn(3)])
		} else {
			t.Object, t.SObject = m.label(), m.label()
		}
		m.id++
		v := m.id
		if m.rnd.Intn(10) == 0 {
			v = m.rnd.Uint32()
		}
		t.ID.Decode([]byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)})
		ts = append(ts, t)
	}
	return
}

func (m *maker) entity(depth int) (e wisski.Entity) {
	e.URI, e.Path, e.Triples = m.label(), m.labels(4), m.triples(3)
	if m.rnd.Intn(5) > 0 {
		e.Fields = map[string][]wisski.FieldValue{}
		for i := m.rnd.Intn(4); i > 0; i-- {
			vs := []wisski.FieldValue{}
			for j := m.rnd.Intn(4); j > 0; j-- {
				vs = append(vs, wisski.FieldValue{
					Value: impl.Datum(text(m.rnd, 30)), Language: impl.Language([]string{"", "de", "x-ä"}[m.rnd.Intn(3)]),
					Path: m.labels(3), Triples: m.triples(2),
				})
			}
			e.Fields[text(m.rnd, 5)] = vs
		}
	}
	if depth > 0 && m.rnd.Intn(2) == 0 {
		e.Children = map[string][]wisski.Entity{}
		for i := m.rnd.Intn(3); i > 0; i-- {
			cs := []wisski.Entity{}
			for j := m.rnd.Intn(3); j > 0; j-- {
				cs = append(cs, m.entity(depth-1))
			}
			e.Children[text(m.rnd, 5)] = cs
		}
	}
	return
}

// fresh returns a label never used for another entity of a bundle
func (m *maker) fresh() impl.Label {
	m.id++
	s := fmt.Sprintf("http://ex.org/entity/%d/%s", m.id, text(m.rnd, 4))
	m.uri = append(m.uri, s)
	return impl.Label(s)
}

func (m *maker) glass(bundles, entities, depth int) (*glass.Glass, int, error) {
	rnd := m.rnd
	data := map[string][]wisski.Entity{}
	n := 0
	for i := 0; i < bundles; i++ {
		es := []wisski.Entity{}
		for j := rnd.Intn(entities + 1); j > 0; j-- {
			e := m.entity(depth)
			e.URI = m.fresh() // within one dataset every entity is in one bundle once
			es = append(es, e)
			n++
		}
		if len(es) == 0 && rnd.Intn(2) == 0 {
			es = nil
		}
		data[text(rnd, 8)] = es
	}
	var ids [][2]string
	used := map[string]bool{}
	for i := rnd.Intn(6); i > 0 && len(m.uri) > 1; i-- {
		canon := m.uri[rnd.Intn(len(m.uri))]
		if used[canon] {
			continue
		}
		used[canon] = true
		for j := rnd.Intn(4); j > 0; j-- {
			alias := m.uri[rnd.Intn(len(m.uri))]
			if rnd.Intn(2) == 0 {
				alias = string(m.fresh())
			}
			if !used[alias] {
				used[alias] = true
				ids = append(ids, [2]string{alias, canon})
			}
		}
	}
	c, err := lib.NewCache(data, ids)
	if err != nil {
		return nil, 0, err
	}
	o := world.Default()
	o.BundleIDs = []string{"", "hash", "same", "path"}[rnd.Intn(4)]
	w, _ := world.Generate(rnd, o)
	pb, err := lib.PB(w)
	must(err)
	g := &glass.Glass{Pathbuilder: *pb, Cache: c, Flags: lib.Flags(w, rnd)}
	if rnd.Intn(2) == 0 {
		g.Flags.PublicURL = text(rnd, 20)
		g.Flags.TipsyURL = text(rnd, 20)
		g.Flags.Predicates.SameAs = m.labels(4)
		g.Flags.Predicates.InverseOf = m.labels(4)
	}
	if len(g.Flags.Predicates.SameAs) == 0 {
		g.Flags.Predicates.SameAs = nil
	}
	if len(g.Flags.Predicates.InverseOf) == 0 {
		g.Flags.Predicates.InverseOf = nil
	}
	if rnd.Intn(10) == 0 {
		// an empty pathbuilder
		g.Pathbuilder, err = pbxml.Unmarshal([]byte("<pathbuilderinterface></pathbuilderinterface>"))
		must(err)
	}
	return g, n, nil
}

func (m *maker) all() []string {
	seen := map[string]bool{"": true}
	ls := []string{"", "http://unknown.example/"}
	for _, u := range m.uri {
		if !seen[u] {
			seen[u] = true
			ls = append(ls, u)
		}
	}
	return ls
}

func made(r *hx.R, name string, rnd *rand.Rand) {
	m := &maker{rnd: rnd}
	g, n, err := m.glass(rnd.Intn(5), 6, 3)
	if err != nil {
		r.Violation(name, "making a cache fails", err.Error())
		return
	}
	r.Count("entities", n)
	roundtrip(r, name, rnd, g, m.all(), n > 0, func() string { return "" })
}

// big makes maps and slices larger than any internal block
func big(r *hx.R, name string, rnd *rand.Rand) {
	m := &maker{rnd: rnd}
	g, n, err := m.glass(3, 5000, 1)
	if err != nil {
		r.Violation(name, "making a cache fails", err.Error())
		return
	}
	r.Count("entities", n)
	r.Max("entities of an index", n)
	roundtrip(r, name, rnd, g, m.all(), n > 0, func() string { return "" })
}

// full exports into a file that may not become large enough
func full(r *hx.R, name string, rnd *rand.Rand) {
	signal.Ignore(syscall.SIGXFSZ)
	m := &maker{rnd: rnd}
	g, _, err := m.glass(1+rnd.Intn(3), 1+rnd.Intn(40), 2)
	if err != nil {
		r.Violation(name, "making a cache fails", err.Error())
		return
	}
	dir := r.Dir()
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "index")
	labels := m.all()
	if err := glass.Export(path, *g, nil); err != nil {
		r.Violation(name, "exporting fails", err.Error())
		return
	}
	data, err := os.ReadFile(path)
	must(err)
	size := len(data)
	want := lib.GlassText(g, labels)
	var old syscall.Rlimit
	must(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old))
	limits := []int{0, 1, 9, 10, 11, size / 2, size - 9, size - 8, size - 7, size - 4, size - 1, size, size + 1}
	for i := 0; i < 12; i++ {
		limits = append(limits, rnd.Intn(size+1))
	}
	for _, limit := range limits {
		if limit < 0 {
			continue
		}
		must(os.RemoveAll(path))
		var err error
		func() {
			lim := old
			lim.Cur = uint64(limit)
			must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim))
			defer func() { must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)) }()
			err = glass.Export(path, *g, nil)
		}()
		got, rerr := os.ReadFile(path)
		must(rerr)
		r.Count("exports into a target that is full", 1)
		r.Eval(fmt.Sprintf("%d of %x", limit, data))
		what := fmt.Sprintf("%d of %d bytes could be written, %d were, error %v", limit, size, len(got), err)
		// the size may differ slightly from run to run, as maps have no order
		switch {
		case err == nil:
			if c := container(got); c != "" {
				r.Violation(name, "an export into a target that is full is reported as success", what+"\n"+c)
				return
			}
			g2, ierr := glass.Import(path, nil)
			if ierr != nil {
				r.Violation(name, "a successful export does not import", what+"\n"+ierr.Error())
				return
			}
			if text := lib.GlassText(&g2, labels); text != want {
				r.Violation(name, "what is imported differs from what was exported", what+"\n"+hx.DiffText(want, text))
				return
			}
		case limit > 2*size:
			r.Violation(name, "exporting fails without a reason", what)
			return
		default:
			if g2, ierr := glass.Import(path, nil); ierr == nil && lib.GlassText(&g2, labels) != want {
				r.Violation(name, "an incomplete export imports as something else", what)
				return
			}
		}
	}
}

// target exports to places that cannot be written
func target(r *hx.R, name string, rnd *rand.Rand) {
	dir := r.Dir()
	defer os.RemoveAll(dir)
	m := &maker{rnd: rnd}
	g, _, err := m.glass(2, 20, 2)
	must(err)
	ro := filepath.Join(dir, "readonly")
	must(os.WriteFile(ro, []byte("old"), 0o444))
	targets := []string{"/dev/full", filepath.Join(dir, "none", "x"), dir, "", filepath.Join(dir, "bad\x00name"), filepath.Join(ro, "x"), filepath.Join(dir, strings.Repeat("x", 300))}
	if os.Getuid() != 0 {
		targets = append(targets, ro)
	}
	for _, t := range targets {
		if err := glass.Export(t, *g, nil); err == nil {
			r.Violation(name, "exporting to something that cannot be written succeeds", fmt.Sprintf("%q", t))
			return
		}
		r.Eval("target " + t)
	}
	if data, _ := os.ReadFile(ro); string(data) != "old" {
		r.Violation(name, "a failing export changes a file", "")
	}
	// the file is only read
	path := filepath.Join(dir, "index")
	must(glass.Export(path, *g, nil))
	must(os.Chmod(path, 0o444))
	must(os.Chmod(dir, 0o555))
	defer os.Chmod(dir, 0o755)
	if _, err := glass.Import(path, nil); err != nil {
		r.Violation(name, "importing a read-only file fails", err.Error())
	}
}
