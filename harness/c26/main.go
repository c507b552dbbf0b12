// Command c26 monitors the files touched when a cache directory is used.
package main

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"math/rand"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"

	"github.com/FAU-CDI/hangover/internal/sparkl/storages"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/verifh/hx"
	"github.com/FAU-CDI/hangover/internal/verifh/lib"
	"github.com/FAU-CDI/hangover/internal/verifh/world"
)

func main() {
	hx.Main("C26", func(r *hx.R) {
		r.Rule("each evaluation is one load with a cache directory, for a dataset with odd identifiers of bundles; everything around the cache directory, and everything inside of it that the program did not put there, is recorded before and after (kind, permissions, times, identity and content), and what was loaded is compared with a load in memory; distinct by dataset and layout; non-trivial: several bundles")
		r.Assume("identifiers of bundles are unique where results are compared; loading may be refused where an identifier is too long for the file system")
		r.CasesN("load", r.Pick(500, 9000), 6, func(name string, rnd *rand.Rand) { load(r, name, rnd) })
		r.CasesN("storage", r.Pick(500, 9000), 6, func(name string, rnd *rand.Rand) { pairs(r, name, rnd) })
		r.CasesN("tool", r.Pick(40, 800), 6, func(name string, rnd *rand.Rand) { tool(r, name, rnd) })
		r.Require("loads", 500)
		r.Require("loads compared with memory", 400)
		r.Require("bundles with odd identifiers", 1500)
		r.Require("files around the cache", 10000)
		r.Require("foreign files in the cache", 2000)
		r.Require("loads into a used cache", 200)
		r.Require("loads refused", 10)
		r.Require("storages in use at the same time", 700)
		r.Require("runs of the tools", 40)
	})
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

var odd = []string{
	".", "..", "../", "./", "../x", "../../x", "../../../x", "..%2fx", "%2e%2e", "%2E%2E/x", "../outside", "../../outside", "../outside/file", "../forward.leveldb", "../data.leveldb", "../bundles", "../../cache", "../../cache/keep",
	"a/b", "a//b", "a/./b", "a/../b", "a/b/", "/a/b", "//a", "a%2Fb", "a%2fb", "a%b", "a\\b", "..\\..\\x", "C:\\x",
	"forward.leveldb", "bundles", "bundle_x", "bundle_", "CURRENT", "LOCK", "LOG", "MANIFEST-000000", "keep", "keep.txt",
	" ", "  ", "a b", "a b ", " a", "a.", "a ", "A", "a", "\u00e9", "e\u0301", "\u00c9", "\u212b", "\u00c5", "\U0001F600", "~", "$HOME", "*", "?", "[a]", "-rf", "'", "\"", "`", ";", "&", "|", "<", ">", "#", "%", "%25", "+", "a+b", "a\tb", "a\nb",
	strings.Repeat("x", 200), strings.Repeat("x", 201), strings.Repeat("x", 300), strings.Repeat("\u00e9", 80), strings.Repeat("../", 20) + "outside", strings.Repeat("/", 10),
}

// snap records a file tree, apart from the paths for which skip is true
func snap(root string, skip func(rel string) bool) map[string]string {
	m := map[string]string{}
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		rel, _ := filepath.Rel(root, p)
		if skip(rel) {
			if fi != nil && fi.IsDir() {
				return filepath.SkipDir
			}
			return nil
		}
		if err != nil {
			m[rel] = "unreadable"
			return nil
		}
		st := fi.Sys().(*syscall.Stat_t)
		s := fmt.Sprintf("%v ino=%d links=%d uid=%d size=%d mtime=%d.%d ctime=%d.%d", fi.Mode(), st.Ino, st.Nlink, st.Uid, st.Size, st.Mtim.Sec, st.Mtim.Nsec, st.Ctim.Sec, st.Ctim.Nsec)
		switch {
		case fi.Mode().IsRegular():
			data, err := os.ReadFile(p)
			s += fmt.Sprintf(" %x %v", sha256.Sum256(data), err)
		case fi.Mode()&os.ModeSymlink != 0:
			to, _ := os.Readlink(p)
			s += " -> " + to
		}
		m[rel] = s
		return nil
	})
	return m
}

func diff(before, after map[string]string) string {
	var ds []string
	for k, v := range before {
		switch w, ok := after[k]; {
		case !ok:
			ds = append(ds, fmt.Sprintf("deleted  %q: %s", k, v))
		case w != v:
			ds = append(ds, fmt.Sprintf("changed  %q: %s\n      to %s", k, v, w))
		}
	}
	for k, v := range after {
		if _, ok := before[k]; !ok {
			ds = append(ds, fmt.Sprintf("created  %q: %s", k, v))
		}
	}
	sort.Strings(ds)
	return strings.Join(ds, "\n")
}

// place is a file tree: root/{home,tmp,cwd,outside,data}, and a cache directory somewhere in it
type place struct {
	root, cache string
	foreign     []string // paths inside of the cache, relative to root
	owned       []string // paths inside of the cache that the program may change, relative to root
}

// the names the program uses in a cache directory
var own = []string{"forward.leveldb", "reverse.leveldb", "language.leveldb", "data.leveldb", "triples.leveldb", "inverses.leveldb", "pso.leveldb", "pos.leveldb", "bundles"}

func newPlace(r *hx.R, rnd *rand.Rand, ids []string) *place {
	p := &place{root: filepath.Join(r.Dir(), "a", "b", "c", "root")}
	for _, d := range []string{"home", "tmp", "cwd", "outside", "data", "cwd/sub"} {
		must(os.MkdirAll(filepath.Join(p.root, d), 0o755))
	}
	p.cache = filepath.Join(p.root, []string{"cache", "cwd/cache", "cwd/sub/ca che", "cwd/c\u00e4che", "c/d/cache"}[rnd.Intn(5)])
	must(os.MkdirAll(filepath.Dir(p.cache), 0o755))
	put := func(path string) {
		if path == p.cache {
			return
		}
		if _, err := os.Lstat(path); err == nil || !strings.HasPrefix(path, p.root+"/") {
			return
		}
		if os.MkdirAll(filepath.Dir(path), 0o755) != nil {
			return
		}
		switch rnd.Intn(6) {
		case 0:
			os.Mkdir(path, 0o755)
			os.WriteFile(filepath.Join(path, "inside"), []byte("inside of "+path), 0o644)
		case 1:
			os.Symlink(filepath.Join(p.root, "outside"), path)
		default:
			os.WriteFile(path, []byte("content of "+path), 0o644)
		}
	}
	for _, n := range []string{"outside/file", "outside/x", "x", "b", "home/x", "tmp/x", "cwd/x", "file", "forward.leveldb", "data.leveldb", "CURRENT", "cwd/CURRENT", "bundles"} {
		put(filepath.Join(p.root, n))
	}
	for _, id := range ids { // things the identifiers might point at
		if len(id) > 100 {
			continue
		}
		for _, base := range []string{"cwd", ".", "outside", "cwd/sub"} {
			if rnd.Intn(2) == 0 {
				put(filepath.Join(p.root, base, id))
			}
		}
	}
	if rnd.Intn(4) > 0 { // the directory exists already
		must(os.MkdirAll(p.cache, 0o755))
		for _, n := range []string{"keep", "keep.txt", "x", "a/b", "bundles.txt", "outside", "b",
			"other.leveldb", "other.leveldb/file", "x.leveldb", "mine.ldb", "my.leveldb/000001.log", "bundle_foreign", "bundles2", "bundles2/x", "forward.leveldb.bak", "pso.leveldb~", ".leveldb", "CURRENT", "LOCK", "leveldb"} {
			if rnd.Intn(2) == 0 {
				put(filepath.Join(p.cache, n))
			}
		}
		if rnd.Intn(3) == 0 { // left over from something else
			for _, n := range own[:8] {
				if rnd.Intn(3) == 0 {
					put(filepath.Join(p.cache, n))
				}
			}
			for _, id := range ids {
				if n := "bundle_" + url.PathEscape(id); len(n) < 200 && rnd.Intn(3) == 0 {
					put(filepath.Join(p.cache, "bundles", n))
				}
			}
		}
		for _, id := range ids {
			if len(id) < 100 && rnd.Intn(3) == 0 {
				if t := filepath.Join(p.cache, id); !p.isOwn(t) && strings.HasPrefix(t, p.cache+"/") {
					put(t)
				}
			}
		}
	}
	return p
}

// isOwn checks if a path is at, or below, a name of the program
func (p *place) isOwn(path string) bool {
	rel, err := filepath.Rel(p.cache, path)
	if err != nil {
		return false
	}
	first := strings.Split(rel, "/")[0]
	for _, o := range own {
		if first == o {
			return true
		}
	}
	return false
}

// watch runs f, and compares the tree before and after
func (p *place) watch(r *hx.R, f func()) string {
	relcache, _ := filepath.Rel(p.root, p.cache)
	existed := map[string]bool{}
	filepath.Walk(p.cache, func(path string, fi os.FileInfo, err error) error {
		if err == nil {
			rel, _ := filepath.Rel(p.root, path)
			existed[rel] = true
		}
		return nil
	})
	// outside of the cache; a parent of the cache may change its times if the cache has to be made
	outside := func(rel string) bool {
		return rel == relcache || strings.HasPrefix(rel, relcache+"/")
	}
	// inside of the cache, everything that was there and has none of the names of the program
	inside := func(rel string) bool {
		if rel == "." || strings.HasPrefix(relcache+"/", rel+"/") {
			return false
		}
		return !strings.HasPrefix(rel, relcache+"/") || !existed[rel] || p.isOwn(filepath.Join(p.root, rel))
	}
	made := len(existed) == 0
	take := func() (map[string]string, map[string]string) {
		o, i := snap(p.root, outside), snap(p.root, inside)
		for d := filepath.Dir(relcache); made; d = filepath.Dir(d) {
			delete(o, d)
			if d == "." {
				break
			}
		}
		for k := range i {
			if k == "." || strings.HasPrefix(relcache+"/", k+"/") { // parents, and the cache itself
				delete(i, k)
			}
		}
		return o, i
	}
	o, i := take()
	r.Count("files around the cache", len(o))
	r.Count("foreign files in the cache", len(i))
	f()
	o2, i2 := take()
	if d := diff(o, o2); d != "" {
		return "outside of " + relcache + ":\n" + d
	}
	if d := diff(i, i2); d != "" {
		return "other files inside of " + relcache + ":\n" + d
	}
	return ""
}

// rename gives odd identifiers to bundles
func rename(r *hx.R, rnd *rand.Rand, w *world.World) (ids []string, unique bool) {
	unique = true
	seen := map[string]bool{}
	pool := append([]string{}, odd...)
	rnd.Shuffle(len(pool), func(i, j int) { pool[i], pool[j] = pool[j], pool[i] })
	same := rnd.Intn(12) == 0
	if rnd.Intn(3) == 0 { // all of them similar
		x := []string{"x", "a b", "a/b", "\u00e9", "x.y", "a+b", "a%2Fb"}[rnd.Intn(7)]
		long := strings.Repeat("l", 60)
		pool = []string{x, "a/" + x, "../" + x, "/" + x, x + "/", x + "/.", "./" + x, strings.ToUpper(x), strings.Title(x), url.PathEscape(x), url.QueryEscape(x), url.PathEscape("a/" + x), url.PathEscape(url.PathEscape(x)),
			x + ".", x + "_", x + "-", x + "..", x + "!", strings.ReplaceAll(x, "/", "_"), strings.ReplaceAll(x, " ", "_"), strings.ReplaceAll(x, "/", "-"), strings.ReplaceAll(x, "/", ""), strings.ReplaceAll(x, "/", "%"), x + x, "bundle_" + x, long + x, long + x + "1", long + x + "2", long, x + "/" + x, x + ":", x + "~", x + "\\", x + "?", x + "*", "_" + x, "." + x, "%" + x}
		rnd.Shuffle(len(pool), func(i, j int) { pool[i], pool[j] = pool[j], pool[i] })
	}
	for _, b := range w.All() {
		if len(pool) == 0 {
			pool = append(pool, b.ID)
		}
		switch rnd.Intn(8) {
		case 0:
		case 1:
			b.ID = pool[0] + b.ID
			pool = pool[1:]
		default:
			b.ID = pool[0]
			pool = pool[1:]
		}
		if rnd.Intn(3) > 0 {
			b.BundleID = odd[rnd.Intn(len(odd))]
		}
		if rnd.Intn(3) == 0 {
			b.Name = odd[rnd.Intn(len(odd))]
		}
		if same && rnd.Intn(2) == 0 && len(ids) > 0 {
			b.ID = ids[rnd.Intn(len(ids))]
		}
		if seen[b.ID] || strings.TrimSpace(b.ID) != b.ID || b.ID == "" || strings.ContainsAny(b.ID, "\t\n") {
			unique = false
		}
		seen[b.ID] = true
		ids = append(ids, b.ID, b.BundleID)
		r.Count("bundles with odd identifiers", 1)
	}
	return
}

func data(rnd *rand.Rand) *world.World {
	o := world.Default()
	o.Entities = 1 + rnd.Intn(4)
	o.Bundles = 2 + rnd.Intn(3)
	o.Hostile = 0.1
	w, _ := world.Generate(rnd, o)
	return w
}

func load(r *hx.R, name string, rnd *rand.Rand) {
	w := data(rnd)
	ids, unique := rename(r, rnd, w)
	p := newPlace(r, rnd, ids)
	defer os.RemoveAll(filepath.Join(p.root, "..", "..", "..", ".."))
	want, merr := lib.Load(w, lib.Options{})
	dump := func() string { return fmt.Sprintf("%q\n%s", ids, lib.Dump(w)) }
	for i := 0; i < 1+rnd.Intn(2); i++ {
		if i > 0 {
			r.Count("loads into a used cache", 1)
		}
		cache := p.cache
		switch rnd.Intn(6) {
		case 0:
			cache += "/"
		case 1:
			cache = filepath.Dir(cache) + "/./" + filepath.Base(cache)
		}
		var got *lib.Loaded
		var err error
		d := p.watch(r, func() {
			var done bool
			var stacks string
			done, _, stacks = hx.Guard(func() { got, err = lib.Load(w, lib.Options{Cache: cache}) }, 120)
			if !done {
				r.Violation(name, "loading does not end", stacks)
				r.Stop()
			}
		})
		if d != "" {
			r.Violation(name, "files are touched that do not belong to the cache", fmt.Sprintf("%s\nerror: %v\n%s", d, err, dump()))
			return
		}
		r.Count("loads", 1)
		r.Eval(fmt.Sprintf("%q %s", ids, lib.Key(w)))
		long := false
		for _, id := range ids {
			long = long || len(id) > 75
		}
		switch {
		case err != nil && merr == nil && !long && unique:
			r.Violation(name, "loading with a cache directory fails", err.Error()+"\n"+dump())
			return
		case err != nil:
			r.Count("loads refused", 1)
		case unique && merr == nil:
			r.Count("loads compared with memory", 1)
			if a, b := lib.RawText(want.Data), lib.RawText(got.Data); a != b {
				r.Violation(name, "bundles overwrite each other", hx.DiffText(a, b)+"\n"+dump())
				return
			}
		}
		if unique && rnd.Intn(2) == 0 { // something else the next time
			w2 := data(rnd)
			ids2, u2 := rename(r, rnd, w2)
			if u2 {
				w, ids = w2, ids2
				want, merr = lib.Load(w, lib.Options{})
			}
		}
	}
}

// pairs uses storages of several bundles at the same time
func pairs(r *hx.R, name string, rnd *rand.Rand) {
	w := data(rnd)
	ids, unique := rename(r, rnd, w)
	if !unique {
		return
	}
	pb, err := lib.PB(w)
	if err != nil {
		return
	}
	p := newPlace(r, rnd, ids)
	defer os.RemoveAll(filepath.Join(p.root, "..", "..", "..", ".."))
	bad := ""
	d := p.watch(r, func() {
		engine := storages.NewBundleEngine(p.cache)
		type open struct {
			id string
			s  storages.BundleStorage
		}
		var all []open
		for _, b := range w.All() {
			x := pb.FindBundle(b.ID)
			if x == nil {
				continue
			}
			s, err := engine.NewStorage(x)
			if err != nil {
				if len(b.ID) <= 75 {
					bad = fmt.Sprintf("%q: %v", b.ID, err)
				}
				continue
			}
			all = append(all, open{b.ID, s})
			uri := impl.Label(fmt.Sprintf("http://x.example/%d", len(all)-1))
			if err := s.Add(uri, []impl.Label{uri}, nil); err != nil && bad == "" {
				bad = fmt.Sprintf("%q: %v", b.ID, err)
			}
		}
		for i, o := range all {
			o.s.Finalize()
			it := o.s.Get(-1)
			var got []string
			for it.Next() {
				got = append(got, string(it.Datum().Label))
			}
			if err := it.Err(); err != nil && bad == "" {
				bad = fmt.Sprintf("%q: %v", o.id, err)
			}
			it.Close()
			if want := fmt.Sprintf("[http://x.example/%d]", i); fmt.Sprint(got) != want && bad == "" {
				bad = fmt.Sprintf("the storage of %q has %v, not %v", o.id, got, want)
			}
			r.Count("storages in use at the same time", 1)
		}
		for _, o := range all {
			o.s.Close()
		}
	})
	r.Eval(fmt.Sprintf("storage %q", ids))
	if d != "" {
		r.Violation(name, "files are touched that do not belong to the cache", fmt.Sprintf("%s\n%q", d, ids))
	}
	if bad != "" {
		r.Violation(name, "bundles overwrite each other", fmt.Sprintf("%s\n%q", bad, ids))
	}
}

// tool runs the programs, with a relative path of the cache
func tool(r *hx.R, name string, rnd *rand.Rand) {
	w := data(rnd)
	ids, _ := rename(r, rnd, w)
	p := newPlace(r, rnd, ids)
	defer os.RemoveAll(filepath.Join(p.root, "..", "..", "..", ".."))
	xml, nq := lib.Files(w, filepath.Join(p.root, "data"))
	wd := filepath.Join(p.root, "cwd")
	cache := p.cache
	if rel, err := filepath.Rel(wd, cache); err == nil && rnd.Intn(2) == 0 {
		cache = rel
	}
	var cmd *exec.Cmd
	if rnd.Intn(2) == 0 {
		cmd = exec.Command(filepath.Join(os.Getenv("HX_BIN"), "n2j"), "-cache", cache, xml, nq)
	} else {
		cmd = exec.Command(filepath.Join(os.Getenv("HX_BIN"), "hangover"), "-cache", cache, "-export", "/dev/null", xml, nq)
	}
	cmd.Dir = wd
	cmd.Env = []string{"HOME=" + filepath.Join(p.root, "home"), "TMPDIR=" + filepath.Join(p.root, "tmp"), "PATH=/usr/bin:/bin"}
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	var err error
	d := p.watch(r, func() {
		done, _, _ := hx.Guard(func() { err = cmd.Run() }, 120)
		if !done {
			cmd.Process.Kill()
			r.Inconclusive("a tool does not end")
		}
	})
	r.Count("runs of the tools", 1)
	if err != nil {
		r.Count("loads refused", 1)
	}
	r.Eval(fmt.Sprintf("tool %q %s", ids, lib.Key(w)))
	if d != "" {
		r.Violation(name, "files are touched that do not belong to the cache", fmt.Sprintf("%s\n%q\n%s", d, cmd.Args, stderr.String()))
	}
}
