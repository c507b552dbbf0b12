// Command c09 monitors how damaged and foreign index files are treated.
package main

import (
	"bytes"
	"compress/gzip"
	"encoding/binary"
	"encoding/gob"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"time"

	"github.com/FAU-CDI/drincw/pathbuilder/pbxml"
	"github.com/FAU-CDI/hangover/internal/glass"
	"github.com/FAU-CDI/hangover/internal/verifh/hx"
	"github.com/FAU-CDI/hangover/internal/verifh/lib"
	"github.com/FAU-CDI/hangover/internal/verifh/world"
	"github.com/FAU-CDI/hangover/pkg/sgob"
)

// importing any of the files made here may never need more than this
const maxMemory = 3 << 30

func main() {
	hx.Main("C09", func(r *hx.R) {
		// importing forces garbage collections, which is the most expensive part here
		debug.SetGCPercent(400)
		r.Rule("each evaluation is an import of one damaged or foreign file: exports cut at every byte, with every bit flipped, with blocks removed, doubled, swapped or zeroed, their content cut or changed beneath a valid checksum, other versions, missing or reordered parts, impossible counts, and files of other kinds; the import must report an error, or give exactly what was exported (only that counts, if the checksum still guards the content); distinct by content")
		r.Assume("content that is changed and given a matching checksum cannot be told from an export with this content, so that only crashes, hangs and the use of memory are judged for it, except that content that ends early is always refused, and that content that goes on may not change what is loaded")
		debugMem := watch(r)
		r.Cases("cut", r.Pick(6, 60), func(name string, rnd *rand.Rand) { damage(r, name, rnd, cuts) })
		r.Cases("flip", r.Pick(4, 60), func(name string, rnd *rand.Rand) { damage(r, name, rnd, flips) })
		r.Cases("block", r.Pick(10, 200), func(name string, rnd *rand.Rand) { damage(r, name, rnd, blocks) })
		r.Cases("content", r.Pick(10, 200), func(name string, rnd *rand.Rand) { damage(r, name, rnd, content) })
		r.Cases("forge", r.Pick(10, 200), func(name string, rnd *rand.Rand) { damage(r, name, rnd, forge) })
		r.Cases("parts", r.Pick(6, 60), func(name string, rnd *rand.Rand) { parts(r, name, rnd) })
		r.Cases("large", r.Pick(2, 20), func(name string, rnd *rand.Rand) { damage(r, name, rnd, large) })
		r.Cases("foreign", 1, func(name string, rnd *rand.Rand) { foreign(r, name, rnd) })
		debugMem()
		r.Require("cut files", 3000)
		r.Require("flipped bits", 3000)
		r.Require("blocks damaged", 300)
		r.Require("contents cut beneath a valid checksum", 1000)
		r.Require("contents changed beneath a valid checksum", 1000)
		r.Require("contents cut between messages", 500)
		r.Require("other versions", 20)
		r.Require("parts missing or reordered", 20)
		r.Require("impossible counts", 20)
		r.Require("foreign files", 20)
		r.Require("imports refused", 8000)
	})
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// watch observes the memory in use
func watch(r *hx.R) (stop func()) {
	done := make(chan struct{})
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		for {
			select {
			case <-done:
				return
			case <-time.After(200 * time.Millisecond):
				sys()
			}
		}
	}()
	return func() {
		close(done)
		wg.Wait()
		r.Max("memory taken from the system in MB", int(sys()>>20))
	}
}

// sys is the amount of memory taken from the system so far
func sys() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.Sys
}

type base struct {
	g      *glass.Glass
	labels []string
	text   string
	raw    []byte // file
	body   []byte // uncompressed
	dump   string
}

func export(g *glass.Glass, dir string) []byte {
	path := filepath.Join(dir, "base")
	must(glass.Export(path, *g, nil))
	raw, err := os.ReadFile(path)
	must(err)
	return raw
}

func gunzip(raw []byte) []byte {
	z, err := gzip.NewReader(bytes.NewReader(raw))
	must(err)
	body, err := io.ReadAll(z)
	must(err)
	return body
}

func zip(body []byte) []byte {
	var buf bytes.Buffer
	z := gzip.NewWriter(&buf)
	z.Write(body)
	z.Close()
	return buf.Bytes()
}

func mkbase(rnd *rand.Rand, dir string, small bool) *base {
	o := world.Default()
	o.Alias, o.IRIData = 0.3, true
	if small {
		o.Bundles, o.Entities, o.Noise = 1, 1, 0
	}
	if small && rnd.Intn(3) == 0 {
		o.Entities = 0
	}
	w, _ := world.Generate(rnd, o)
	xml, nq := lib.Files(w, dir)
	g, err := glass.Create(xml, nq, "", lib.Flags(w, rnd), nil)
	must(err)
	b := &base{g: &g, labels: lib.WorldLabels(w), dump: lib.Dump(w)}
	b.text = lib.GlassText(&g, b.labels)
	b.raw = export(&g, dir)
	b.body = gunzip(b.raw)
	return b
}

// kinds of expectations
const (
	refuse  = iota // an error is required
	same           // an error, or exactly what was exported
	nocrash        // no crash
)

func importing(r *hx.R, name, what string, b *base, dir string, data []byte, expect int) bool {
	path := filepath.Join(dir, "damaged")
	must(os.WriteFile(path, data, 0o644))
	defer os.Remove(path)
	r.Eval(string(data))
	return importPath(r, name, what, b, path, expect)
}

func importPath(r *hx.R, name, what string, b *base, path string, expect int) (ok bool) {
	describe := func() string {
		data, _ := os.ReadFile(path)
		return fmt.Sprintf("%s\nfile of %d bytes\n%x", what, len(data), hx.Trunc(string(data), 2000))
	}
	var g glass.Glass
	var err error
	var panicked string
	finished := make(chan struct{})
	go func() {
		defer close(finished)
		defer func() {
			if p := recover(); p != nil {
				panicked = fmt.Sprintf("%v\n%s", p, debug.Stack())
			}
		}()
		g, err = glass.Import(path, nil)
	}()
	select {
	case <-finished:
	case <-time.After(120 * time.Second):
		r.Violation(name, "importing a damaged file does not end", describe()+"\n"+hx.Stacks())
		r.Stop()
	}
	if panicked != "" {
		if !hx.InRepo(panicked) {
			r.Inconclusive(panicked)
			return false
		}
		r.Violation(name, "importing a damaged file panics", describe()+"\n"+panicked)
		return false
	}
	if err != nil {
		r.Count("imports refused", 1)
		return true
	}
	if expect == nocrash {
		r.Count("changed contents accepted", 1)
		return true
	}
	if expect == refuse {
		r.Violation(name, "a damaged file is accepted", describe())
		return false
	}
	text := func() (s string) {
		defer func() {
			if p := recover(); p != nil {
				s = fmt.Sprintf("panic: %v\n%s", p, debug.Stack())
			}
		}()
		return lib.GlassText(&g, b.labels)
	}()
	if text != b.text {
		r.Violation(name, "a damaged file is accepted, what it contains differs from what was exported", hx.DiffText(b.text, text)+"\n"+describe())
		return false
	}
	r.Count("harmless changes accepted", 1)
	return true
}

type step func(r *hx.R, name string, rnd *rand.Rand, b *base, dir string) bool

func damage(r *hx.R, name string, rnd *rand.Rand, f step) {
	dir := r.Dir()
	defer os.RemoveAll(dir)
	b := mkbase(rnd, dir, !strings.HasPrefix(name, "large"))
	r.Max("bytes of a file", len(b.raw))
	before := sys()
	if !f(r, name, rnd, b, dir) {
		return
	}
	if after := sys(); after > before && after > maxMemory {
		r.Violation(name, "importing damaged files takes too much memory", fmt.Sprintf("%d MB, before %d MB\n%s", after>>20, before>>20, b.dump))
	}
}

// cuts cuts the file at every byte
func cuts(r *hx.R, name string, rnd *rand.Rand, b *base, dir string) bool {
	step := 1
	if len(b.raw) > 3000 {
		step = len(b.raw)/3000 + 1
	}
	off := rnd.Intn(step)
	for n := 0; n < len(b.raw); n++ {
		if n%step != off && n < len(b.raw)-24 && n > 24 {
			continue
		}
		r.Count("cut files", 1)
		if !importing(r, name, fmt.Sprintf("cut after %d of %d bytes", n, len(b.raw)), b, dir, b.raw[:n], refuse) {
			return false
		}
	}
	return true
}

// flips flips bits
func flips(r *hx.R, name string, rnd *rand.Rand, b *base, dir string) bool {
	for at := 0; at < len(b.raw); at++ {
		bits := []int{rnd.Intn(8)}
		if at < 24 || at >= len(b.raw)-10 {
			bits = []int{0, 1, 2, 3, 4, 5, 6, 7}
		}
		if len(b.raw) > 3000 && at >= 24 && at < len(b.raw)-10 && rnd.Intn(len(b.raw)) > 3000 {
			continue
		}
		for _, bit := range bits {
			data := append([]byte{}, b.raw...)
			data[at] ^= 1 << bit
			r.Count("flipped bits", 1)
			if !importing(r, name, fmt.Sprintf("bit %d of byte %d of %d flipped", bit, at, len(b.raw)), b, dir, data, same) {
				return false
			}
		}
	}
	return true
}

// blocks damages blocks
func blocks(r *hx.R, name string, rnd *rand.Rand, b *base, dir string) bool {
	for i := 0; i < 60; i++ {
		n := len(b.raw)
		from := rnd.Intn(n)
		size := 1 + rnd.Intn(n-from)
		if rnd.Intn(2) == 0 && size > 16 {
			size = 1 + rnd.Intn(16)
		}
		to := from + size
		var data []byte
		var what string
		switch rnd.Intn(8) {
		case 0:
			what = "removed"
			data = append(append(data, b.raw[:from]...), b.raw[to:]...)
		case 1:
			what = "doubled"
			data = append(append(data, b.raw[:to]...), b.raw[from:]...)
		case 2:
			what = "zeroed"
			data = append(data, b.raw...)
			for j := from; j < to; j++ {
				data[j] = 0
			}
		case 3:
			what = "replaced by noise"
			data = append(data, b.raw...)
			rnd.Read(data[from:to])
		case 4:
			what = "swapped with what follows"
			other := to + rnd.Intn(n-to+1)
			data = append(append(append(append(data, b.raw[:from]...), b.raw[to:other]...), b.raw[from:to]...), b.raw[other:]...)
		case 5:
			what = "replaced by a part of another export"
			o := mkbase(rnd, dir, true).raw
			data = append(data, b.raw[:from]...)
			if from < 12 {
				continue // that is the other export
			}
			if from < len(o) {
				data = append(data, o[from:]...)
			}
		case 6:
			what = "appended"
			data = append(append(data, b.raw...), b.raw[from:to]...)
		case 7:
			what = "all of another export appended"
			data = append(append(data, b.raw...), mkbase(rnd, dir, true).raw...)
		}
		if bytes.Equal(data, b.raw) {
			continue
		}
		r.Count("blocks damaged", 1)
		if !importing(r, name, fmt.Sprintf("bytes %d to %d of %d %s", from, to, n, what), b, dir, data, same) {
			return false
		}
	}
	return true
}

// content cuts or extends the content, with a valid checksum
func content(r *hx.R, name string, rnd *rand.Rand, b *base, dir string) bool {
	n := len(b.body)
	for i := 0; i < 250; i++ {
		cut := rnd.Intn(n)
		switch {
		case i < 60:
			cut = n - 1 - i // where the last parts end
		case i < 90:
			cut = i - 60
		}
		if cut < 0 || cut >= n {
			continue
		}
		r.Count("contents cut beneath a valid checksum", 1)
		if !importing(r, name, fmt.Sprintf("content cut after %d of %d bytes", cut, n), b, dir, zip(b.body[:cut]), refuse) {
			return false
		}
	}
	ends := messages(b.body)
	for i, cut := range ends {
		if len(ends) > 300 && i > 20 && i < len(ends)-100 && rnd.Intn(len(ends)) > 200 {
			continue
		}
		if cut >= n {
			continue
		}
		r.Count("contents cut between messages", 1)
		if !importing(r, name, fmt.Sprintf("content cut after message %d of %d", i+1, len(ends)), b, dir, zip(b.body[:cut]), refuse) {
			return false
		}
	}
	for i := 0; i < 40 && len(ends) > 3; i++ {
		// leave out a message
		k := rnd.Intn(len(ends) - 1)
		if i < 10 && i < len(ends)-1 {
			k = len(ends) - 2 - i
		}
		r.Count("messages left out", 1)
		data := append(append([]byte{}, b.body[:ends[k]]...), b.body[ends[k+1]:]...)
		if !importing(r, name, fmt.Sprintf("message %d of %d left out", k+2, len(ends)), b, dir, zip(data), nocrash) {
			return false
		}
	}
	for i := 0; i < 20; i++ {
		var extra []byte
		switch i % 4 {
		case 0:
			extra = []byte{byte(rnd.Intn(256))}
		case 1:
			extra = b.body
		case 2:
			extra = make([]byte, 1+rnd.Intn(100))
		case 3:
			extra = make([]byte, 1+rnd.Intn(100))
			rnd.Read(extra)
		}
		r.Count("contents that go on", 1)
		if !importing(r, name, fmt.Sprintf("%d bytes after the content: %x", len(extra), hx.Trunc(string(extra), 100)), b, dir, zip(append(append([]byte{}, b.body...), extra...)), same) {
			return false
		}
	}
	return true
}

// messages returns where the messages of a gob stream end
func messages(body []byte) (ends []int) {
	at := 0
	for at < len(body) {
		n := 0
		if c := body[at]; c < 128 {
			n = int(c)
			at++
		} else {
			k := -int(int8(c))
			at++
			for i := 0; i < k && at < len(body); i++ {
				n = n<<8 | int(body[at])
				at++
			}
		}
		at += n
		ends = append(ends, at)
	}
	return
}

// forge changes the content, with a valid checksum
func forge(r *hx.R, name string, rnd *rand.Rand, b *base, dir string) bool {
	n := len(b.body)
	for i := 0; i < 250; i++ {
		data := append([]byte{}, b.body...)
		for j := 1 + rnd.Intn(3); j > 0; j-- {
			at := rnd.Intn(n)
			if rnd.Intn(3) == 0 {
				at = rnd.Intn(min(n, 1500))
			}
			switch rnd.Intn(5) {
			case 0:
				data[at] ^= 1 << rnd.Intn(8)
			case 1:
				data[at] = byte(rnd.Intn(256))
			case 2:
				data[at] = []byte{0, 1, 0x7f, 0x80, 0xf8, 0xff}[rnd.Intn(6)]
			case 3:
				data = append(data[:at], data[min(at+1+rnd.Intn(8), len(data)):]...)
				n = len(data)
			case 4:
				// a huge number
				var v [9]byte
				v[0] = 0xf8
				binary.BigEndian.PutUint64(v[1:], rnd.Uint64()>>rnd.Intn(64))
				data = append(data[:at:at], append(v[:], data[at:]...)...)
				n = len(data)
			}
			if n == 0 {
				data, n = []byte{0}, 1
			}
		}
		n = len(b.body)
		r.Count("contents changed beneath a valid checksum", 1)
		if !importing(r, name, "content changed, with a valid checksum", b, dir, zip(data), nocrash) {
			return false
		}
	}
	return true
}

// large damages a few places of larger files
func large(r *hx.R, name string, rnd *rand.Rand, b *base, dir string) bool {
	n := len(b.raw)
	for i := 0; i < 150; i++ {
		cut := rnd.Intn(n)
		if i < 20 {
			cut = n - 1 - i
		}
		r.Count("cut files", 1)
		if !importing(r, name, fmt.Sprintf("cut after %d of %d bytes", cut, n), b, dir, b.raw[:cut], refuse) {
			return false
		}
		data := append([]byte{}, b.raw...)
		at := rnd.Intn(n)
		data[at] ^= 1 << rnd.Intn(8)
		r.Count("flipped bits", 1)
		if !importing(r, name, fmt.Sprintf("byte %d of %d changed", at, n), b, dir, data, same) {
			return false
		}
	}
	return blocks(r, name, rnd, b, dir) && content(r, name, rnd, b, dir)
}

// part is a part of an export
type part func(enc *gob.Encoder) error

func value(v any) part { return func(enc *gob.Encoder) error { return sgob.Encode(enc, v) } }

func assemble(ps []part) []byte {
	var buf bytes.Buffer
	enc := gob.NewEncoder(&buf)
	for _, p := range ps {
		must(p(enc))
	}
	return buf.Bytes()
}

// parts assembles exports from their parts
func parts(r *hx.R, name string, rnd *rand.Rand) {
	dir := r.Dir()
	defer os.RemoveAll(dir)
	b := mkbase(rnd, dir, true)
	xml, err := pbxml.Marshal(b.g.Pathbuilder)
	must(err)
	list := func(v any) []part {
		return []part{value(v), value(xml), value(b.g.Flags), b.g.Cache.EncodeTo}
	}
	// the genuine one has to work, otherwise this says nothing
	genuine := assemble(list(glass.GlassVersion))
	if g, err := importBytes(dir, zip(genuine)); err != nil || lib.GlassText(g, b.labels) != b.text {
		if err == nil {
			err = fmt.Errorf("it gives something else")
		}
		r.Inconclusive("assembling the parts of an export does not give an export: " + err.Error())
		return
	}
	for _, v := range []any{0, 1, glass.GlassVersion - 1, glass.GlassVersion + 1, -1, -glass.GlassVersion, 1 << 40, 258, 65538, "2", float64(2.5), []int{2}, true, "", struct{ A int }{2}} {
		if v == any(glass.GlassVersion) {
			continue
		}
		r.Count("other versions", 1)
		if !importing(r, name, fmt.Sprintf("version %#v", v), b, dir, zip(assemble(list(v))), refuse) {
			return
		}
	}
	l := list(glass.GlassVersion)
	for _, order := range [][]int{{}, {0}, {1, 2, 3}, {0, 2, 3}, {0, 1, 3}, {0, 1, 2}, {0, 0, 1, 2, 3}, {0, 1, 1, 2, 3}, {0, 1, 2, 2, 3}, {0, 1, 2, 3, 3}, {0, 2, 1, 3}, {1, 0, 2, 3}, {3, 0, 1, 2}, {0, 1, 2, 3, 0}, {0, 1, 3, 2}} {
		var ps []part
		for _, i := range order {
			ps = append(ps, l[i])
		}
		r.Count("parts missing or reordered", 1)
		if !importing(r, name, fmt.Sprintf("parts %v", order), b, dir, zip(assemble(ps)), same) {
			return
		}
	}
	for _, x := range []string{"", "<", "<pathbuilderinterface>", "<x></x>", "<pathbuilderinterface><path><weight>x</weight></path></pathbuilderinterface>", "\x00", string(xml[:len(xml)-1])} {
		l[1] = value([]byte(x))
		r.Count("invalid pathbuilders", 1)
		if !importing(r, name, fmt.Sprintf("pathbuilder %q", x), b, dir, zip(assemble(l)), refuse) {
			return
		}
	}
	// impossible counts, at any of the places where one is expected
	head := []part{value(glass.GlassVersion), value(xml), value(b.g.Flags)}
	for _, n := range []uint64{1, 1 << 20, 1 << 31, 1 << 32, 1 << 40, 1 << 48, 1<<62 + 1, 1 << 63, 1<<64 - 1} {
		for k := 0; k <= 6; k++ {
			// empty maps first, then one that is too large
			ps := append([]part{}, head...)
			if k == 0 {
				ps = ps[:1]
			}
			for j := 1; j < k; j++ {
				ps = append(ps, value(map[string]int{}))
			}
			n := n
			ps = append(ps, func(enc *gob.Encoder) error { return enc.Encode(n) })
			r.Count("impossible counts", 1)
			if !importing(r, name, fmt.Sprintf("count %d at position %d", n, k), b, dir, zip(assemble(ps)), refuse) {
				return
			}
		}
	}
	if now := sys(); now > maxMemory {
		r.Violation(name, "importing damaged files takes too much memory", fmt.Sprintf("%d MB", now>>20))
	}
}

func importBytes(dir string, data []byte) (*glass.Glass, error) {
	path := filepath.Join(dir, "genuine")
	must(os.WriteFile(path, data, 0o644))
	g, err := glass.Import(path, nil)
	return &g, err
}

// foreign imports what is not an index at all
func foreign(r *hx.R, name string, rnd *rand.Rand) {
	dir := r.Dir()
	defer os.RemoveAll(dir)
	b := mkbase(rnd, dir, false)
	xml, _ := os.ReadFile(filepath.Join(dir, "pb.xml"))
	nq, _ := os.ReadFile(filepath.Join(dir, "data.nq"))
	noise := make([]byte, 5000)
	rnd.Read(noise)
	enc := func(vs ...any) []byte {
		var buf bytes.Buffer
		e := gob.NewEncoder(&buf)
		for _, v := range vs {
			must(e.Encode(v))
		}
		return buf.Bytes()
	}
	type nested struct{ N []*nested }
	deep := &nested{}
	for i := 0; i < 5000; i++ {
		deep = &nested{N: []*nested{deep}}
	}
	files := map[string][]byte{
		"nothing": {}, "a line": []byte("\n"), "xml": xml, "n-quads": nq, "noise": noise, "content without container": b.body,
		"zeros": make([]byte, 10000), "magic": {0x1f, 0x8b}, "magic and method": {0x1f, 0x8b, 8}, "database": []byte("SQLite format 3\x00" + string(noise)),
		"zip archive": []byte("PK\x03\x04" + string(noise)), "json": []byte(`{"a":[]}`), "doubly compressed": zip(b.raw),
		"compressed nothing": zip(nil), "compressed xml": zip(xml), "compressed n-quads": zip(nq), "compressed noise": zip(noise), "compressed zeros": zip(make([]byte, 200<<20)),
		"compressed 0xff": zip(bytes.Repeat([]byte{0xff}, 1<<20)), "compressed huge message": zip(append([]byte{0xf8, 0x3f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, noise...)),
		"compressed large message": zip(append([]byte{0xfc, 0x3f, 0xff, 0xff, 0xff}, noise...)), "messages of nothing": zip(make([]byte, 1)),
		"gob of text": zip(enc("hello")), "gob of number": zip(enc(glass.GlassVersion)), "gob of numbers": zip(enc(glass.GlassVersion, 5, 5, 5)), "gob of map": zip(enc(map[string]int{"a": 1})),
		"gob of nesting": zip(enc(deep)), "version and nesting": zip(enc(glass.GlassVersion, deep)), "version and noise": zip(append(enc(glass.GlassVersion), noise...)),
		"version and text": zip(enc(glass.GlassVersion, "text")), "version and maps": zip(enc(glass.GlassVersion, uint64(1), map[string]int{})),
	}
	for i := 0; i < 40; i++ {
		n := make([]byte, rnd.Intn(200))
		rnd.Read(n)
		files[fmt.Sprintf("noise %d", i)] = n
		files[fmt.Sprintf("compressed noise %d", i)] = zip(n)
		files[fmt.Sprintf("version and noise %d", i)] = zip(append(enc(glass.GlassVersion), n...))
	}
	for _, k := range hx.SortedKeys(files) {
		r.Count("foreign files", 1)
		if !importing(r, name, k, b, dir, files[k], refuse) {
			return
		}
	}
	for _, p := range []string{dir, filepath.Join(dir, "missing"), "/dev/null", "/dev/zero", "/dev/urandom", "", "a\x00b", filepath.Join(dir, "pb.xml", "x")} {
		r.Count("foreign files", 1)
		r.Eval("path " + p)
		if !importPath(r, name, fmt.Sprintf("path %q", p), b, p, refuse) {
			return
		}
	}
	if now := sys(); now > maxMemory {
		r.Violation(name, "importing damaged files takes too much memory", fmt.Sprintf("%d MB", now>>20))
	}
}
