// Command c27 monitors how the files to load are found.
package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"

	"github.com/FAU-CDI/hangover"
	"github.com/FAU-CDI/hangover/internal/verifh/hx"
)

func main() {
	hx.Main("C27", func(r *hx.R) {
		r.Rule("each evaluation is one list of arguments, given to FindSource in a file tree made for it; the files it chooses are compared with those that the documentation names, which an independent reference finds; distinct by tree and arguments; non-trivial: at least one argument")
		r.Assume("names do not start with a dot; a file that is neither a regular file nor a directory (such as a named pipe) may be accepted or refused as an index; a directory called *.xml next to a file called *.xml may be ignored or refused")
		r.CasesN("tree", r.Pick(16000, 300000), 6, func(name string, rnd *rand.Rand) { tree(r, name, rnd) })
		r.Require("files chosen from two arguments", 2000)
		r.Require("files chosen from a directory", 1000)
		r.Require("indexes chosen", 1500)
		r.Require("refused: number of arguments", 1000)
		r.Require("refused: no such files in the directory", 500)
		r.Require("refused: several files in the directory", 400)
		r.Require("refused: not a regular file", 1500)
		r.Require("refused: index not allowed", 1500)
		r.Require("refused: missing", 1000)
		r.Require("names with special characters", 3000)
	})
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

var odd = []string{"*", "?", "[a]", "[", "]", "{a,b}", "\\", "a b", "-x", "--", "~", "$HOME", "%20", "#", "'", "\"", "\u00e9", "e\u0301", "\U0001F600", ";", "&", "a\nb", "\t", "!", "^", "[!a]", "a*", "[a-z]", "\\*", ":", "C:", "\xff"}

func base(rnd *rand.Rand) string {
	if rnd.Intn(2) == 0 {
		return odd[rnd.Intn(len(odd))]
	}
	return []string{"a", "b", "data", "x.xml", "x.nq", "export", "y.nq.xml", "z.z"}[rnd.Intn(8)]
}

var exts = []string{".xml", ".nq", ".xml", ".nq", ".XML", ".Nq", ".xml.gz", ".nq~", "xml", "nq", ".nquads", ".xm", ".n", "", ".xml ", ".xmlx", ".xml.bak", ".nq.gz", ".x.xml", ".nqs"}

// kind is what a path is, according to the reference
type kind int

const (
	missing kind = iota
	regular
	dir
	other
	hidden // no permission to look
)

func look(path string) kind {
	st, err := os.Stat(path)
	switch {
	case os.IsPermission(err):
		return hidden
	case err != nil:
		return missing
	case st.Mode().IsRegular():
		return regular
	case st.IsDir():
		return dir
	}
	return other
}

// make makes an entry
func (t *maker) entry(path string) {
	if _, err := os.Lstat(path); err == nil {
		return
	}
	var err error
	switch k := t.rnd.Intn(14); {
	case k < 8:
		err = os.WriteFile(path, []byte(path), 0o600)
	case k < 10:
		err = os.Mkdir(path, 0o700)
	case k < 11:
		err = os.Symlink(filepath.Join(t.root, "target"), path)
	case k < 12:
		err = os.Symlink(filepath.Join(t.root, []string{"nowhere", "targetdir"}[t.rnd.Intn(2)]), path)
	case k < 13:
		err = syscall.Mkfifo(path, 0o600)
	default:
		err = os.Symlink(path, path) // loop
	}
	if err == nil {
		t.paths = append(t.paths, path)
	}
}

type maker struct {
	rnd   *rand.Rand
	root  string
	paths []string
	dirs  []string
}

func tree(r *hx.R, name string, rnd *rand.Rand) {
	root := r.Dir()
	defer os.RemoveAll(root)
	t := &maker{rnd: rnd, root: root}
	must(os.WriteFile(filepath.Join(root, "target"), []byte("target"), 0o600))
	must(os.Mkdir(filepath.Join(root, "targetdir"), 0o700))
	for i := 1 + rnd.Intn(4); i > 0; i-- {
		d := filepath.Join(root, base(rnd)+[]string{"", "", "", ".xml", ".nq", "d"}[rnd.Intn(6)])
		if d == root || os.Mkdir(d, 0o700) != nil {
			continue
		}
		t.dirs = append(t.dirs, d)
		t.paths = append(t.paths, d)
		switch rnd.Intn(3) {
		case 0: // exactly one of each
			a, b := filepath.Join(d, base(rnd)+".xml"), filepath.Join(d, base(rnd)+".nq")
			must(os.WriteFile(a, []byte(a), 0o600))
			must(os.WriteFile(b, []byte(b), 0o600))
			t.paths = append(t.paths, a, b)
			for i := rnd.Intn(3); i > 0; i-- {
				if e := exts[rnd.Intn(len(exts))]; !strings.HasSuffix(e, ".xml") && !strings.HasSuffix(e, ".nq") {
					t.entry(filepath.Join(d, base(rnd)+"x"+e))
				}
			}
		default:
			for i := rnd.Intn(6); i > 0; i-- {
				t.entry(filepath.Join(d, base(rnd)+exts[rnd.Intn(len(exts))]))
			}
		}
		if rnd.Intn(12) == 0 {
			os.Chmod(d, []os.FileMode{0, 0o100, 0o400}[rnd.Intn(3)])
			defer os.Chmod(d, 0o700)
		}
	}
	for i := rnd.Intn(5); i > 0; i-- {
		t.entry(filepath.Join(root, base(rnd)+exts[rnd.Intn(len(exts))]))
	}
	arg := func() string {
		var p string
		switch {
		case len(t.paths) == 0 || rnd.Intn(10) == 0:
			p = []string{"", ".", "/", root, filepath.Join(root, "nowhere"), filepath.Join(root, "target", "x"), filepath.Join(root, "targetdir"), "/dev/null", "nowhere.xml", strings.Repeat("x", 5000), "a\x00b", filepath.Join(root, "*")}[rnd.Intn(12)]
		default:
			p = t.paths[rnd.Intn(len(t.paths))]
		}
		switch rnd.Intn(8) {
		case 0:
			if p != "" {
				p += "/"
			}
		case 1:
			if strings.HasPrefix(p, root) {
				p = root + "/./" + p[len(root):]
			}
		case 2:
			if wd, err := os.Getwd(); err == nil {
				if rel, err := filepath.Rel(wd, p); err == nil {
					p = rel
				}
			}
		}
		return p
	}
	for i := 0; i < 8; i++ {
		var argv []string
		n := []int{0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 5}[rnd.Intn(11)]
		for len(argv) < n {
			argv = append(argv, arg())
		}
		if n == 1 && len(t.dirs) > 0 && rnd.Intn(3) > 0 {
			argv[0] = t.dirs[rnd.Intn(len(t.dirs))]
		}
		one(r, name, t, rnd.Intn(2) == 0, argv)
	}
}

// want is the reference
func want(allow bool, argv []string) (nq, xml, index string, why string) {
	switch {
	case len(argv) == 0 || len(argv) > 2:
		return "", "", "", "number of arguments"
	case len(argv) == 2:
		for _, a := range argv {
			switch look(a) {
			case regular:
			case missing, hidden:
				return "", "", "", "missing"
			default:
				return "", "", "", "not a regular file"
			}
		}
		return argv[1], argv[0], "", ""
	}
	a := argv[0]
	switch look(a) {
	case missing, hidden:
		return "", "", "", "missing"
	case regular:
		if !allow {
			return "", "", "", "index not allowed"
		}
		return "", "", a, ""
	case other:
		if !allow {
			return "", "", "", "index not allowed"
		}
		return "", "", a, "maybe"
	}
	d, err := os.Open(a)
	if err != nil {
		return "", "", "", "missing"
	}
	names, err := d.Readdirnames(-1)
	d.Close()
	if err != nil {
		return "", "", "", "missing"
	}
	pick := func(ext string) (string, string) {
		var all, files []string
		for _, n := range names {
			if len(n) >= len(ext) && n[len(n)-len(ext):] == ext {
				all = append(all, n)
				if look(filepath.Join(a, n)) == regular {
					files = append(files, n)
				}
			}
		}
		switch {
		case len(all) == 0:
			return "", "no such files in the directory"
		case len(all) == 1 && len(files) == 1:
			return filepath.Join(a, files[0]), ""
		case len(all) == 1:
			return "", "not a regular file"
		case len(files) == 1:
			return filepath.Join(a, files[0]), "maybe"
		}
		return "", "several files in the directory"
	}
	xml, w1 := pick(".xml")
	nq, w2 := pick(".nq")
	for _, w := range []string{w1, w2} {
		if w != "" && w != "maybe" {
			return "", "", "", w
		}
	}
	if w1 != "" {
		return nq, xml, "", w1
	}
	return nq, xml, "", w2
}

func same(got, want string) bool {
	if got == want {
		return true
	}
	if got == "" || want == "" {
		return false
	}
	a, err1 := os.Lstat(got)
	b, err2 := os.Lstat(want)
	return err1 == nil && err2 == nil && os.SameFile(a, b)
}

func one(r *hx.R, name string, t *maker, allow bool, argv []string) {
	wnq, wxml, widx, why := want(allow, argv)
	var nq, xml, idx string
	var err error
	done, _, stacks := hx.Guard(func() { nq, xml, idx, err = hangover.FindSource(allow, argv...) }, 30)
	shape := func() string {
		var sb strings.Builder
		filepath.Walk(t.root, func(p string, fi os.FileInfo, err error) error {
			if err == nil {
				fmt.Fprintf(&sb, "%v %q\n", fi.Mode(), strings.TrimPrefix(p, t.root))
			}
			return nil
		})
		return sb.String()
	}
	tell := func(sig string) {
		r.Violation(name, sig, fmt.Sprintf("FindSource(%v, %q) = %q, %q, %q, %v\nwant %q, %q, %q (%s)\n%s", allow, argv, nq, xml, idx, err, wnq, wxml, widx, why, shape()))
	}
	if !done {
		tell("does not return")
		r.Inconclusive(stacks)
		r.Stop()
	}
	if len(argv) > 0 {
		var key []string
		for _, a := range argv {
			key = append(key, strings.ReplaceAll(a, t.root, ""))
		}
		ps := append([]string{}, t.paths...)
		sort.Strings(ps)
		r.Eval(strings.ReplaceAll(fmt.Sprintf("%v %q %q", allow, key, ps), t.root, ""))
	}
	if err != nil {
		if nq != "" || xml != "" || idx != "" {
			tell("a file is chosen in spite of an error")
		}
		if why == "" {
			tell("an error for files that are there")
			return
		}
		r.Count("refused: "+why, 1)
		return
	}
	if why != "" && why != "maybe" {
		tell("no error: " + why)
		return
	}
	if !same(nq, wnq) || !same(xml, wxml) || !same(idx, widx) {
		tell("other files")
		return
	}
	switch {
	case idx != "":
		r.Count("indexes chosen", 1)
	case len(argv) == 2:
		r.Count("files chosen from two arguments", 1)
	default:
		r.Count("files chosen from a directory", 1)
	}
	if strings.ContainsAny(strings.ReplaceAll(strings.Join(argv, ""), t.root, ""), "*?[]{}\\ -~$%#'\"\u00e9\u0301;&\n\t!^:\xff") {
		r.Count("names with special characters", 1)
	}
}
