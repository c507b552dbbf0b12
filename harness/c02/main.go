// Command c02 monitors that the on-disk cache changes nothing.
package main

import (
	"errors"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"

	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/verifh/hx"
	"github.com/FAU-CDI/hangover/internal/verifh/lib"
	"github.com/FAU-CDI/hangover/internal/verifh/world"
)

func main() {
	hx.Main("C02", func(r *hx.R) {
		r.Rule("each case loads a generated dataset in memory and with a cache directory and compares all entities, statements and names; the cache directories are fresh, or contain what earlier runs left (complete, interrupted while reading, never closed, or junk); non-trivial: at least one entity")
		r.Cases("fresh", r.Pick(90, 1400), func(name string, rnd *rand.Rand) {
			w, ex := world.Generate(rnd, options(rnd))
			check(r, name, w, ex, r.Dir(), rnd)
		})
		r.Cases("used", r.Pick(24, 400), func(name string, rnd *rand.Rand) {
			dir := r.Dir()
			for i := 0; i < 3; i++ {
				w, ex := world.Generate(rnd, options(rnd))
				if !check(r, fmt.Sprintf("%s run %d", name, i), w, ex, dir, rnd) {
					return
				}
				switch rnd.Intn(3) {
				case 0:
					interrupt(r, w, dir, rnd)
				case 1:
					junk(dir, rnd)
				}
			}
		})
		shared(r)
		r.Require("entities", 300)
		r.Require("children", 100)
		r.Require("interrupted runs", 3)
	})
}

func options(rnd *rand.Rand) world.Options {
	o := world.Default()
	o.BigField = 4
	switch rnd.Intn(4) {
	case 0:
		o.Bundles, o.Depth, o.Entities = 1, 4, 12
	case 1:
		o.BundleIDs = "hash"
	}
	o.BNodes = rnd.Intn(3) == 0
	o.IRIData = rnd.Intn(3) == 0
	return o
}

func check(r *hx.R, name string, w *world.World, ex *world.Expected, dir string, rnd *rand.Rand) bool {
	mem, err := lib.Load(w, lib.Options{})
	if err != nil {
		r.Violation(name, "loading in memory fails: "+err.Error(), lib.Dump(w))
		return false
	}
	o := lib.Options{Cache: dir}
	if rnd.Intn(2) == 0 {
		o.Compact = 1 + rnd.Intn(30)
	}
	disk, err := lib.Load(w, o)
	if err != nil {
		r.Violation(name, "loading with a cache directory fails: "+err.Error(), lib.Dump(w))
		return false
	}
	if ex.NumEnt > 0 {
		r.Eval(lib.Key(w))
	} else {
		r.Eval("")
	}
	r.Count("entities", ex.NumEnt)
	r.Count("values", ex.NumVal)
	r.Count("children", ex.NumChild)
	a, b := lib.RawText(mem.Data), lib.RawText(disk.Data)
	if a != b {
		r.Violation(name, "entities loaded with a cache directory differ from those loaded in memory", hx.DiffText(a, b)+"\n"+lib.Dump(w))
		return false
	}
	if a, b := fmt.Sprint(mem.Identity), fmt.Sprint(disk.Identity); a != b {
		r.Violation(name, "names loaded with a cache directory differ from those loaded in memory", a+"\n"+b+"\n"+lib.Dump(w))
		return false
	}
	if len(a) < 1500 && ex.NumChild > 0 {
		r.Sample(name + "\n" + a)
	}
	return true
}

// a source that fails after some statements
type failing struct {
	sparkl.Source
	left int
}

func (f *failing) Next() sparkl.Token {
	f.left--
	if f.left < 0 {
		return sparkl.Token{Err: errors.New("interrupted")}
	}
	return f.Source.Next()
}

// interrupt makes another run in the same directory that ends somewhere in the middle.
func interrupt(r *hx.R, w *world.World, dir string, rnd *rand.Rand) {
	old, _ := world.Generate(rnd, options(rnd))
	xml, nq := lib.Files(old, r.Dir())
	_ = xml
	f, err := os.Open(nq)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	src := &failing{Source: &sparkl.QuadSource{Reader: f}, left: rnd.Intn(3*len(old.Quads) + 1)}
	_, err = lib.Load(old, lib.Options{Cache: dir, Source: src})
	if err == nil {
		r.Count("complete runs", 1)
		return
	}
	r.Count("interrupted runs", 1)
}

// junk puts truncated copies of files and unknown files into the directory
func junk(dir string, rnd *rand.Rand) {
	filepath.Walk(dir, func(path string, info os.FileInfo, err error) error {
		if err == nil && info.Mode().IsRegular() && rnd.Intn(3) == 0 {
			switch rnd.Intn(3) {
			case 0:
				os.Truncate(path, info.Size()/2)
			case 1:
				os.WriteFile(path, []byte("junk"), 0o644)
			case 2:
				os.Remove(path)
			}
		}
		return nil
	})
	os.WriteFile(filepath.Join(dir, "unrelated.txt"), []byte("x"), 0o644)
}

// shared is a fixed dataset where two entities share a sub-entity
func shared(r *hx.R) {
	const name = "shared-sub-entity"
	r.Do(name, func() {
		w := world.Shared()
		mem, err := lib.Load(w, lib.Options{})
		if err != nil {
			r.Violation(name, "loading in memory fails: "+err.Error(), lib.Dump(w))
			return
		}
		disk, err := lib.Load(w, lib.Options{Cache: r.Dir()})
		if err != nil {
			r.Violation(name, "loading with a cache directory fails: "+err.Error(), lib.Dump(w))
			return
		}
		r.Eval(lib.Key(w))
		if a, b := lib.RawText(mem.Data), lib.RawText(disk.Data); a != b {
			n := 0
			for _, e := range disk.Data["b0"] {
				n += len(e.Children["b1"])
			}
			if n == 1 {
				r.Known("shared-sub-entity", "a sub-entity shared by two entities is only attached to one of them when using a cache directory")
			} else {
				r.Violation(name, "shared sub-entities differ", hx.DiffText(a, b)+"\n"+lib.Dump(w))
			}
		}
	})
}
