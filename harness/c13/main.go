// Command c13 monitors the exports of the command line tools, and their exit status.
package main

import (
	"bytes"
	"context"
	"database/sql"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"syscall"
	"time"

	"github.com/FAU-CDI/hangover/internal/glass"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/verifh/hx"
	"github.com/FAU-CDI/hangover/internal/verifh/lib"
	"github.com/FAU-CDI/hangover/internal/verifh/tab"
	"github.com/FAU-CDI/hangover/internal/verifh/world"
	"github.com/FAU-CDI/hangover/internal/viewer"
	"github.com/FAU-CDI/hangover/internal/wisski"
	_ "github.com/glebarez/go-sqlite"
)

const workers = 32 // a run mostly waits

func main() {
	hx.Main("C13", func(r *hx.R) {
		r.Rule("each evaluation is one run of n2j or hangover as a process; what it wrote is read back and compared with the reference model of the dataset, and the exit status with whether that is complete; distinct by dataset, arguments and fault; non-trivial: the tool exited by itself")
		r.Assume("a process that writes to a pipe nobody reads may end because of the signal; standard output that is closed from the beginning can not be told from /dev/null; nobody else uses the target at the same time")
		r.CasesN("export", r.Pick(240, 6000), workers, func(name string, rnd *rand.Rand) { export(r, name, rnd) })
		r.CasesN("fault", r.Pick(260, 9000), workers, func(name string, rnd *rand.Rand) { fault(r, name, rnd) })
		r.CasesN("full", r.Pick(120, 3000), workers, func(name string, rnd *rand.Rand) { full(r, name, rnd) })
		r.CasesN("target", r.Pick(120, 2000), workers, func(name string, rnd *rand.Rand) { target(r, name, rnd) })
		r.CasesN("args", r.Pick(130, 1500), workers, func(name string, rnd *rand.Rand) { args(r, name, rnd) })
		r.CasesN("broken", r.Pick(280, 9000), workers, func(name string, rnd *rand.Rand) { broken(r, name, rnd) })
		r.Require("runs", 1200)
		r.Require("complete json outputs", 60)
		r.Require("complete csv outputs", 60)
		r.Require("complete sqlite outputs", 60)
		r.Require("complete index outputs", 60)
		r.Require("runs with a fault", 200)
		r.Require("runs with a fault that failed", 80)
		r.Require("runs into a full target", 50)
		r.Require("runs with an impossible target", 80)
		r.Require("runs with wrong arguments", 80)
		r.Require("runs with broken input", 220)
		r.Require("runs refused", 300)
	})
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// result of a run
type result struct {
	args   []string
	code   int
	signal syscall.Signal
	stdout []byte
	stderr string
	hang   bool
}

func (res *result) ok() bool { return res.signal == 0 && res.code == 0 && !res.hang }

func (res *result) String() string {
	out := string(res.stdout)
	return fmt.Sprintf("%q\nexit status %d, signal %d\nstdout: %s\nstderr: %s", res.args, res.code, res.signal, hx.Trunc(out, 800), hx.Trunc(res.stderr, 3000))
}

var crashed = regexp.MustCompile(`(?m)^(panic: |fatal error: |goroutine \d+ .*\[|SIG[A-Z]+: |runtime: |unexpected fault address|\[signal )`)

// io of a run
type files struct {
	stdout, stderr *os.File // nil for a buffer
	prefix         []string // command to start the tool with
	dir            string
	shell          string // shell commands before
}

func bin(tool string) string { return filepath.Join(os.Getenv("HX_BIN"), tool) }

func run(r *hx.R, f files, tool string, args ...string) *result {
	argv := append([]string{bin(tool)}, args...)
	argv = append(append([]string{}, f.prefix...), argv...)
	if f.shell != "" {
		argv = append([]string{"/bin/bash", "-c", f.shell + "; exec \"$@\"", "sh"}, argv...)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 240*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, argv[0], argv[1:]...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	cmd.WaitDelay = 5 * time.Second
	cmd.Dir = f.dir
	cmd.Env = []string{"HOME=" + f.dir, "TMPDIR=" + f.dir, "PATH=/usr/bin:/bin", "GOTRACEBACK=all"}
	var stdout, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &stdout, &stderr
	if f.stdout != nil {
		cmd.Stdout = f.stdout
	}
	if f.stderr != nil {
		cmd.Stderr = f.stderr
	}
	res := &result{args: argv}
	must(cmd.Start())
	cmd.Wait()
	st := cmd.ProcessState.Sys().(syscall.WaitStatus)
	res.hang = ctx.Err() != nil
	res.code = st.ExitStatus()
	if st.Signaled() {
		res.signal = st.Signal()
	}
	res.stdout, res.stderr = stdout.Bytes(), stderr.String()
	r.Count("runs", 1)
	if !res.ok() {
		r.Count("runs refused", 1)
	}
	return res
}

// sane checks that a run neither crashed nor was endless
func sane(r *hx.R, name string, res *result, pipe bool, dump string) bool {
	switch {
	case res.hang:
		r.Violation(name, "a tool does not end", res.String()+"\n"+dump)
		return false
	case res.signal == syscall.SIGPIPE && pipe:
	case res.signal != 0:
		r.Violation(name, "a tool is ended by a signal", res.String()+"\n"+dump)
		return false
	case crashed.MatchString(res.stderr):
		r.Violation(name, "a tool crashes", res.String()+"\n"+dump)
		return false
	}
	return true
}

// ---------------------------------------------------------------- jobs

var modes = []string{"json", "csv", "sqlite", "index"}

// job is something to be exported
type job struct {
	r      *hx.R
	name   string
	dir    string
	w      *world.World
	ex     *world.Expected
	xml    string
	nq     string
	mode   string
	flags  []string
	fields bool
	sep    string
	target string // absolute
	cache  string
	rf     viewer.RenderFlags
	old    bool // there is an earlier export in the target
}

func (j *job) dump() string { return lib.Dump(j.w) }

func (j *job) violation(sig, detail string, res *result) {
	j.r.Violation(j.name, sig, detail+"\n"+res.String()+"\n"+j.dump())
}

const same, inv = "http://my.example/same?as=1&b", "http://my.example/inverse"

// newJob makes a dataset and arguments
func newJob(r *hx.R, name string, rnd *rand.Rand, mode string) *job {
	j := &job{r: r, name: name, dir: r.Dir(), mode: mode}
	for {
		o := world.Default()
		o.Entities = 1 + rnd.Intn(12)
		o.Bundles = 1 + rnd.Intn(4)
		o.BNodes = rnd.Intn(3) == 0
		o.IRIData = rnd.Intn(2) == 0
		if rnd.Intn(8) == 0 {
			o.Entities = 120
		}
		if rnd.Intn(2) == 0 {
			o.BundleIDs = "hash"
		}
		j.w, j.ex = world.Generate(rnd, o)
		switch rnd.Intn(4) {
		case 0: // other predicates
			for i := range j.w.Quads {
				switch q := &j.w.Quads[i]; q.P.V {
				case world.SameAs:
					q.P.V = same
				case world.Inverse:
					q.P.V = inv
				}
			}
			j.w.SameAsPreds = []string{"http://unused.example/", same, world.EqClass, world.EqProp}
			j.w.InversePreds = []string{inv}
			j.ex = j.w.Expect()
		case 1: // none
			if rnd.Intn(2) == 0 {
				j.w.SameAsPreds = nil
			}
			if rnd.Intn(2) == 0 {
				j.w.InversePreds = nil
			}
			j.ex = j.w.Expect()
		}
		if rnd.Intn(5) == 0 { // other identifiers
			odd := []string{"/", "a/b", "../", "..", "%", "%2F", "a%b", "\\", "a\\b", "\"", "'", " ", "a b", "a.b", ".", "a,b", "\u00e9", "\U0001F600", ";", "select", "?", "*", "a\"b", "[", "]"}
			for i, b := range j.w.All() {
				if rnd.Intn(3) > 0 {
					x := odd[rnd.Intn(len(odd))]
					b.ID = []string{fmt.Sprint(i, x, "x"), fmt.Sprint("x", x, i)}[rnd.Intn(2)]
				}
				for k, f := range b.Fields {
					if rnd.Intn(4) == 0 && f.ID != "" {
						f.ID = fmt.Sprint("f", i, odd[rnd.Intn(len(odd))], k)
					}
				}
			}
			j.ex = j.w.Expect()
		}
		if !j.ex.Ambiguous {
			break
		}
	}
	data := filepath.Join(j.dir, []string{"data", "d a t a", "d\u00e4ta"}[rnd.Intn(3)])
	must(os.Mkdir(data, 0o755))
	j.xml, j.nq = lib.Files(j.w, data)
	pick := func(sep ...string) string { return sep[rnd.Intn(len(sep))] }
	def := func(l []string, text string) bool {
		return strings.Join(l, " ") == strings.Join(strings.Fields(strings.ReplaceAll(text, ",", " ")), " ")
	}
	if !def(j.w.SameAsPreds, string(wisski.DefaultSameAsProperties)) || rnd.Intn(3) == 0 {
		j.flags = append(j.flags, "-sameas", strings.Join(j.w.SameAsPreds, pick(",", "\n", " , ", ",,\n")))
	}
	if !def(j.w.InversePreds, string(wisski.InverseOf)) || rnd.Intn(3) == 0 {
		j.flags = append(j.flags, "-inverseof="+strings.Join(j.w.InversePreds, ","))
	}
	if rnd.Intn(4) == 0 {
		j.cache = filepath.Join(j.dir, "cache")
		j.flags = append(j.flags, "-cache", j.cache)
	}
	j.sep = ","
	switch mode {
	case "csv", "sqlite":
		if rnd.Intn(2) == 0 {
			j.fields = true
			j.flags = append(j.flags, "--sql-field-tables")
		}
		if rnd.Intn(2) == 0 {
			j.sep = pick(";", "", "||", "\n", "\"", "'", ", ", "\u00e9", "-")
			j.flags = append(j.flags, "-sql-seperator="+j.sep)
		}
	case "index":
		if rnd.Intn(2) == 0 {
			j.rf.HTMLRender = true
			j.flags = append(j.flags, "-html")
		}
		if rnd.Intn(2) == 0 {
			j.rf.ImageRender = true
			j.flags = append(j.flags, "-images")
		}
		if rnd.Intn(2) == 0 {
			j.rf.StrictCSP = true
			j.flags = append(j.flags, "-strict-csp")
		}
		if rnd.Intn(2) == 0 {
			j.rf.PublicURL = pick("https://example.org", "https://\u00e9.example, x\ny")
			j.flags = append(j.flags, "-public", j.rf.PublicURL)
		}
		if rnd.Intn(2) == 0 {
			j.rf.TipsyURL = pick("https://tipsy.example", "tipsy")
			j.flags = append(j.flags, "-tipsy", j.rf.TipsyURL)
		}
		j.rf.Predicates = lib.Predicates(j.w)
	}
	j.target = filepath.Join(j.dir, "out")
	if mode == "csv" {
		must(os.Mkdir(j.target, 0o755))
	}
	return j
}

// tool returns the tool and arguments to write to a target
func (j *job) tool(target string) (string, []string) {
	args := append([]string{}, j.flags...)
	tool := "n2j"
	switch j.mode {
	case "csv":
		args = append(args, "-csv", target)
	case "sqlite":
		args = append(args, "-sqlite", target)
	case "index":
		tool = "hangover"
		args = append(args, "-export", target)
	}
	return tool, args
}

// run runs the tool so that its output is in j.target
func (j *job) run(f files) *result {
	tool, args := j.tool(j.target)
	if f.dir == "" {
		f.dir = j.dir
	}
	if j.mode == "json" && f.stdout == nil {
		out, err := os.Create(j.target)
		must(err)
		defer out.Close()
		f.stdout = out
	}
	return run(j.r, f, tool, append(args, j.xml, j.nq)...)
}

// complete checks the output
func (j *job) complete(target string) (sig, detail string) {
	switch j.mode {
	case "json":
		data, err := os.ReadFile(target)
		if err != nil {
			return "there is no output", err.Error()
		}
		return j.json(data)
	case "index":
		return j.index(target)
	}
	var src tab.Source
	if j.mode == "csv" {
		c := csvDir{}
		fs, err := os.ReadDir(target)
		if err != nil {
			return "there is no output", err.Error()
		}
		for _, f := range fs {
			data, err := os.ReadFile(filepath.Join(target, f.Name()))
			must(err)
			name, ok := strings.CutSuffix(f.Name(), ".csv")
			if !ok {
				return "unexpected file", f.Name()
			}
			for _, x := range [][2]string{{"%2F", "/"}, {"%5C", "\\"}, {"%25", "%"}} {
				name = strings.ReplaceAll(name, x[0], x[1])
			}
			c[name] = string(data)
		}
		src = c
	} else {
		if filepath.Base(target) != "out" { // names may have a meaning
			link := filepath.Join(j.dir, "link.sqlite")
			os.Remove(link)
			if err := os.Link(target, link); err != nil {
				return "there is no output", err.Error()
			}
			target = link
		}
		db, err := sql.Open("sqlite", target)
		must(err)
		defer db.Close()
		db.SetMaxOpenConns(1)
		if _, err := os.Stat(target); err != nil {
			return "there is no output", err.Error()
		}
		var check string
		if err := db.QueryRow("PRAGMA integrity_check").Scan(&check); err != nil || check != "ok" {
			return "the database is damaged", fmt.Sprint(check, err)
		}
		src = tab.DB{DB: db}
	}
	pb, index, err := lib.Index(j.w, lib.Options{})
	must(err)
	_ = pb
	ids, err := lib.Identities(index)
	must(err)
	index.Close()
	label := map[string]string{}
	for a, c := range ids {
		label[j.ex.G.C.Of(a)] = c
	}
	ex := tab.NewExpected()
	ents := tab.FromModel(j.w, j.ex, func(c string) string {
		if l, ok := label[c]; ok {
			return l
		}
		return c
	})
	for _, b := range j.w.Bundles {
		ex.Build(b, "", ents[b.ID], j.fields)
	}
	return tab.Check(j.r, src, ex, j.sep, nil)
}

func (j *job) observe(data map[string][]wisski.Entity) (sig, detail string) {
	ob := lib.NewObserver(j.ex.G)
	got := ob.All(j.w, data)
	want, have := lib.Text(j.ex.Bundles, true), lib.Text(got, true)
	if want != have {
		return "entities differ from what the dataset states", hx.DiffText(want, have)
	}
	if len(ob.Problems) > 0 {
		return ob.Problems[0], strings.Join(ob.Problems, "\n")
	}
	return "", ""
}

func (j *job) json(data []byte) (sig, detail string) {
	dec := json.NewDecoder(bytes.NewReader(data))
	dec.DisallowUnknownFields()
	var bundles map[string][]wisski.Entity
	if err := dec.Decode(&bundles); err != nil {
		return "the json is incomplete or invalid", err.Error() + "\n" + hx.Trunc(string(data), 1500)
	}
	if rest, _ := io.ReadAll(io.MultiReader(dec.Buffered(), bytes.NewReader(data[dec.InputOffset():]))); len(bytes.TrimSpace(data[dec.InputOffset():])) > 0 {
		return "there is something after the json", string(rest)
	}
	return j.observe(bundles)
}

func (j *job) index(path string) (sig, detail string) {
	g, err := glass.Import(path, nil)
	if err != nil {
		return "the index can not be loaded", err.Error()
	}
	defer g.Close()
	data := map[string][]wisski.Entity{}
	for _, b := range g.Cache.BundleNames() {
		data[b] = g.Cache.Entities(b)
	}
	// bundles without entities need not be there
	for b, es := range j.ex.Bundles {
		if len(es) == 0 && data[b] == nil {
			data[b] = []wisski.Entity{}
		}
	}
	if sig, detail := j.observe(data); sig != "" {
		return sig, detail
	}
	ids := map[string]string{}
	for _, l := range lib.WorldLabels(j.w) {
		if c := g.Cache.Canonical(impl.Label(l)); c != "" && string(c) != l {
			ids[l] = string(c)
		}
	}
	ob := lib.NewObserver(j.ex.G)
	ob.Identity(ids)
	if len(ob.Problems) > 0 {
		return ob.Problems[0], strings.Join(ob.Problems, "\n")
	}
	if a, b := fmt.Sprintf("%#v", j.rf), fmt.Sprintf("%#v", g.Flags); a != b {
		return "the flags differ", hx.DiffText(a, b)
	}
	pb, err := lib.PB(j.w)
	must(err)
	if a, b := lib.PBText(pb), lib.PBText(&g.Pathbuilder); a != b {
		return "the pathbuilder differs", hx.DiffText(a, b)
	}
	return "", ""
}

// table returns the path of the csv file of a bundle
func (j *job) table(b *world.Bundle) string {
	return filepath.Join(j.target, strings.NewReplacer("%", "%25", "/", "%2F", "\\", "%5C").Replace("bundle__"+b.ID)+".csv")
}

// csvDir are csv files
type csvDir map[string]string

func (csvDir) Nulls() bool       { return false }
func (c csvDir) Names() []string { return hx.SortedKeys(c) }

func (c csvDir) Table(name string, f func([]sql.NullString) bool) ([]string, error) {
	recs, err := parseCSV(c[name])
	if err != nil {
		return nil, err
	}
	for _, rec := range recs[1:] {
		if f == nil {
			break
		}
		var row []sql.NullString
		for _, v := range rec {
			row = append(row, sql.NullString{String: v, Valid: true})
		}
		if !f(row) {
			break
		}
	}
	return recs[0], nil
}

// parseCSV strictly parses csv
func parseCSV(s string) (recs [][]string, err error) {
	if s == "" || !strings.HasSuffix(s, "\n") {
		return nil, fmt.Errorf("the last line is incomplete")
	}
	var rec []string
	for i := 0; i < len(s); {
		var v strings.Builder
		if s[i] == '"' {
			for i++; ; i++ {
				if i >= len(s) {
					return nil, fmt.Errorf("quote is not closed")
				}
				if s[i] == '"' {
					if i+1 < len(s) && s[i+1] == '"' {
						i++
					} else {
						i++
						break
					}
				}
				v.WriteByte(s[i])
			}
		} else {
			for ; s[i] != ',' && s[i] != '\n'; i++ {
				if s[i] == '"' {
					return nil, fmt.Errorf("quote inside of a value")
				}
				v.WriteByte(s[i])
			}
		}
		rec = append(rec, v.String())
		switch {
		case i >= len(s):
			return nil, fmt.Errorf("the last line is incomplete")
		case s[i] == ',':
			i++
			if i == len(s) {
				return nil, fmt.Errorf("the last line is incomplete")
			}
		case s[i] == '\n':
			i++
			recs = append(recs, rec)
			rec = nil
		default:
			return nil, fmt.Errorf("text after a quote")
		}
	}
	return recs, nil
}

// judge compares status and output
func (j *job) judge(res *result, target, what string, mustWork, mustFail bool) bool {
	if !sane(j.r, j.name, res, false, j.dump()) {
		return false
	}
	if !res.ok() {
		if mustWork {
			j.violation("a valid export fails"+what, "", res)
			return false
		}
		return true
	}
	if mustFail {
		j.violation("exit status 0"+what, "", res)
		return false
	}
	if sig, detail := j.complete(target); sig != "" {
		j.violation("exit status 0, but "+j.mode+": "+sig+what, detail, res)
		return false
	}
	j.r.Count("complete "+j.mode+" outputs", 1)
	return true
}

// ---------------------------------------------------------------- exports without faults

var oddNames = []string{"out", "o u t", "out?x=1", "file:out", "file:out?mode=memory", ":memory:", "o%41t", "out#x", "\u00f6ut", "o'u\"t", "sub/out", "./out", "--out", "?", "out.sqlite", ".out", "o\\ut", "o;ut", "$HOME", "a&b=c", "o*t", "ou\nt", "o,t"}

func export(r *hx.R, name string, rnd *rand.Rand) {
	j := newJob(r, name, rnd, modes[rnd.Intn(4)])
	defer os.RemoveAll(j.dir)
	wd := filepath.Join(j.dir, "wd")
	must(os.MkdirAll(filepath.Join(wd, "sub"), 0o755))
	target := oddNames[rnd.Intn(len(oddNames))]
	abs := filepath.Join(wd, target)
	if j.mode == "csv" {
		must(os.MkdirAll(abs, 0o755))
	}
	times := 1 + rnd.Intn(2)
	for i := 0; i < times; i++ {
		if i == 0 && j.mode == "index" && rnd.Intn(2) == 0 { // something longer there
			must(os.WriteFile(abs, bytes.Repeat([]byte("old content "), 1+rnd.Intn(50000)), 0o644))
		}
		tool, args := j.tool(target)
		if rnd.Intn(3) == 0 {
			tool, args = j.tool(abs)
		}
		switch rnd.Intn(3) {
		case 0:
			args = append(args, filepath.Dir(j.nq))
		case 1:
			rel := func(p string) string { s, _ := filepath.Rel(wd, p); return s }
			args = append(args, rel(j.xml), rel(j.nq))
		default:
			args = append(args, j.xml, j.nq)
		}
		f := files{dir: wd}
		if rnd.Intn(6) == 0 {
			full, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
			must(err)
			defer full.Close()
			f.stderr = full
		}
		before := list(wd)
		res := run(r, f, tool, args...)
		if j.mode == "json" {
			must(os.WriteFile(abs, res.stdout, 0o644))
		} else if len(res.stdout) > 0 {
			j.violation("text on standard output", "", res)
			return
		}
		if !j.judge(res, abs, "", true, false) {
			return
		}
		// nothing but the target is there
		for p := range list(wd) {
			if !before[p] && p != abs && !strings.HasPrefix(p, abs+"/") {
				j.violation("an export leaves another file", fmt.Sprintf("%q (the target is %q)", p, target), res)
				return
			}
		}
		r.Eval(fmt.Sprintf("%s %q %s", j.mode, args, lib.Key(j.w)))
		if j.mode == "index" && rnd.Intn(2) == 0 { // the index as input
			again := filepath.Join(j.dir, "again")
			for _, b := range []string{"-bench", ""} {
				args := []string{b, abs}
				if b == "" {
					args = []string{"-export", again, abs}
				}
				res := run(r, files{dir: j.dir}, "hangover", args...)
				if !sane(r, name, res, false, j.dump()) {
					return
				}
				if b != "" && !res.ok() {
					j.violation("benchmarking a valid index fails", "", res)
				}
				if b == "" {
					j.judge(res, again, " (from an index)", true, false)
				}
			}
		}
	}
}

func list(dir string) map[string]bool {
	m := map[string]bool{}
	filepath.Walk(dir, func(p string, _ os.FileInfo, _ error) error { m[p] = true; return nil })
	return m
}

// ---------------------------------------------------------------- faults

var calls = "openat,read,pread64,write,pwrite64,fsync,fdatasync,ftruncate,close,unlink,unlinkat,rename,renameat,mkdirat,fstat,newfstatat,fcntl,getdents64,lseek,mmap,flock"

var traceLine = regexp.MustCompile(`^\d+ +(?:<\.\.\. )?(\w+)\((.*)$`)
var inFd = regexp.MustCompile(`^\d+<([^>]*)>`)
var inString = regexp.MustCompile(`"([^"]*)"`)

func errorsOf(call string) []string {
	switch call {
	case "write", "pwrite64", "ftruncate", "mkdirat", "rename", "renameat":
		return []string{"ENOSPC", "EIO", "EDQUOT", "EFBIG"}
	case "openat":
		return []string{"EACCES", "EMFILE", "ENOSPC", "EROFS", "ENOENT"}
	case "mmap":
		return []string{"ENOMEM"}
	case "fcntl", "flock":
		return []string{"EAGAIN", "ENOLCK"}
	}
	return []string{"EIO", "EPERM"}
}

// fault lets single operations on files fail
func fault(r *hx.R, name string, rnd *rand.Rand) {
	j := newJob(r, name, rnd, modes[rnd.Intn(4)])
	defer os.RemoveAll(j.dir)
	log := filepath.Join(j.dir, "trace")
	trace := func(more ...string) files {
		return files{prefix: append([]string{"/usr/bin/strace", "-f", "-y", "-qq", "-s", "300", "-e", "signal=none", "-o", log, "-e", "trace=" + calls}, more...)}
	}
	res := j.run(trace())
	if !j.judge(res, j.target, "", true, false) {
		return
	}
	// every kind of operation on every file
	seen := map[[2]string]int{}
	var all [][2]string
	data, err := os.ReadFile(log)
	must(err)
	for _, l := range strings.Split(string(data), "\n") {
		m := traceLine.FindStringSubmatch(l)
		if m == nil {
			continue
		}
		path := ""
		if f := inFd.FindStringSubmatch(m[2]); f != nil {
			path = f[1]
		} else if f := inString.FindStringSubmatch(m[2]); f != nil {
			path = f[1]
		}
		if !strings.HasPrefix(path, j.dir+"/") || strings.ContainsAny(path, "\\") {
			continue
		}
		k := [2]string{m[1], path}
		if j.mode == "json" && path == j.target && m[1] != "write" {
			continue // the go runtime looks at its standard output before the program starts
		}
		if seen[k] == 0 {
			all = append(all, k)
		}
		seen[k]++
	}
	if len(all) == 0 {
		r.Inconclusive("strace reports nothing: " + hx.Trunc(string(data), 300))
		return
	}
	for i := 0; i < 3; i++ {
		k := all[rnd.Intn(len(all))]
		if rnd.Intn(2) == 0 { // more often the output
			for n := 0; n < 20 && !strings.HasPrefix(k[1], j.target); n++ {
				k = all[rnd.Intn(len(all))]
			}
		}
		es := errorsOf(k[0])
		when := fmt.Sprint(1 + rnd.Intn(seen[k]))
		if rnd.Intn(3) == 0 {
			when += "+"
		}
		inject := fmt.Sprintf("inject=%s:error=%s:when=%s", k[0], es[rnd.Intn(len(es))], when)
		// a fresh start
		os.RemoveAll(j.target)
		os.RemoveAll(j.target + "-journal")
		os.RemoveAll(filepath.Join(j.dir, "cache"))
		if j.mode == "csv" {
			must(os.Mkdir(j.target, 0o755))
		}
		res := j.run(trace("-P", k[1], "-e", inject))
		data, _ := os.ReadFile(log)
		hit := bytes.Contains(data, []byte("(INJECTED)"))
		rel, _ := filepath.Rel(j.dir, k[1])
		kind := strings.SplitN(rel, "/", 2)[0]
		if hit {
			r.Count("runs with a fault", 1)
			r.Count("faults in "+j.mode+" "+k[0], 1)
			if !res.ok() {
				r.Count("runs with a fault that failed", 1)
			}
			_ = kind
			r.Eval(fmt.Sprintf("%s %s %s %s", j.mode, rel, inject, lib.Key(j.w)))
		}
		if !j.judge(res, j.target, fmt.Sprintf(" (%s of %q)", strings.SplitN(inject, ":when", 2)[0], kind), !hit, hit && j.mode != "sqlite" && (k[0] == "write" || k[0] == "close") && (k[1] == j.target || filepath.Dir(k[1]) == j.target)) {
			return
		}
	}
}

// ---------------------------------------------------------------- full targets

func full(r *hx.R, name string, rnd *rand.Rand) {
	j := newJob(r, name, rnd, modes[rnd.Intn(4)])
	defer os.RemoveAll(j.dir)
	dev, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
	must(err)
	defer dev.Close()
	switch kind := rnd.Intn(3); {
	case kind == 0 && j.mode == "json":
		j.judge(run(r, files{dir: j.dir, stdout: dev}, "n2j", append(j.flags, j.xml, j.nq)...), j.target, " (full device)", false, true)
	case kind == 1 && j.mode == "json": // nobody reads
		pr, pw, err := os.Pipe()
		must(err)
		pr.Close()
		defer pw.Close()
		res := run(r, files{dir: j.dir, stdout: pw}, "n2j", append(j.flags, j.xml, j.nq)...)
		if sane(r, name, res, true, j.dump()) && res.ok() {
			j.violation("exit status 0 (closed pipe)", "", res)
		}
	case kind == 0 && j.mode == "index":
		os.Symlink("/dev/full", j.target)
		j.judge(j.run(files{}), j.target, " (full device)", false, true)
	case kind == 0 && j.mode == "csv": // one of the tables
		bs := j.w.All()
		b := bs[rnd.Intn(len(bs))]
		must(os.Symlink("/dev/full", j.table(b)))
		j.judge(j.run(files{}), j.target, " (full device)", false, true)
	default:
		res := j.run(files{})
		if !j.judge(res, j.target, "", true, false) {
			return
		}
		// find out how much is needed
		size := int64(0)
		filepath.Walk(j.target, func(_ string, fi os.FileInfo, _ error) error {
			if fi.Mode().IsRegular() && fi.Size() > size {
				size = fi.Size()
			}
			return nil
		})
		for i := 0; i < 2; i++ {
			os.RemoveAll(j.target)
			os.RemoveAll(filepath.Join(j.dir, "cache"))
			if j.mode == "csv" {
				must(os.Mkdir(j.target, 0o755))
			}
			limit := rnd.Int63n(size + 1)
			if rnd.Intn(3) == 0 {
				limit = size - 1 - rnd.Int63n(min(size, 600))
			}
			res := j.run(files{prefix: []string{"/usr/bin/prlimit", fmt.Sprintf("--fsize=%d", limit), "--"}})
			r.Count("runs into a full target", 1)
			r.Eval(fmt.Sprintf("limit %d %s", limit, lib.Key(j.w)))
			if !j.judge(res, j.target, " (limited size of files)", false, j.cache == "" && j.mode != "sqlite" && j.mode != "index" && limit < size) {
				return
			}
		}
		return
	}
	r.Count("runs into a full target", 1)
	r.Eval("full " + j.mode + lib.Key(j.w))
}

// ---------------------------------------------------------------- impossible targets

func target(r *hx.R, name string, rnd *rand.Rand) {
	j := newJob(r, name, rnd, modes[1+rnd.Intn(3)])
	defer os.RemoveAll(j.dir)
	root := os.Geteuid() == 0
	what := ""
	switch k := rnd.Intn(8); {
	case k == 0:
		what, j.target = "missing directory", filepath.Join(j.dir, "missing", "out")
	case k == 1 && j.mode == "csv":
		what, j.target = "file instead of a directory", j.xml
	case k == 1:
		what, j.target = "directory instead of a file", filepath.Dir(j.xml)
	case k == 2:
		what, j.target = "path through a file", filepath.Join(j.xml, "out")
	case k == 3 && !root:
		what = "directory without permission"
		ro := filepath.Join(j.dir, "ro")
		must(os.Mkdir(ro, 0o555))
		j.target = filepath.Join(ro, "out")
		if j.mode == "csv" {
			j.target = ro
		}
	case k == 4 && !root && j.mode == "csv":
		what = "table without permission"
		bs := j.w.All()
		must(os.WriteFile(j.table(bs[rnd.Intn(len(bs))]), []byte("old\n"), 0o444))
	case k == 4 && !root:
		what = "file without permission"
		must(os.WriteFile(j.target, nil, 0o444))
	case k == 5 && j.mode == "csv":
		what = "table is a directory"
		bs := j.w.All()
		must(os.Mkdir(j.table(bs[rnd.Intn(len(bs))]), 0o755))
	case k == 5 && j.mode == "sqlite":
		what = "no database"
		must(os.WriteFile(j.target, bytes.Repeat([]byte("this is text, and no database "), 100), 0o644))
	case k == 5:
		what = "dangling link into a missing directory"
		must(os.Symlink(filepath.Join(j.dir, "missing", "x"), j.target))
	case k == 6 && j.mode == "sqlite":
		what = "locked database"
		db, err := sql.Open("sqlite", j.target)
		must(err)
		defer db.Close()
		db.SetMaxOpenConns(1)
		_, err = db.Exec("CREATE TABLE unrelated (x TEXT)")
		must(err)
		_, err = db.Exec("BEGIN EXCLUSIVE")
		must(err)
		_, err = db.Exec("INSERT INTO unrelated VALUES ('x')")
		must(err)
	case k == 7 && j.mode != "index":
		what = "unusable cache"
		j.flags = append(j.flags, "-cache", filepath.Join(j.xml, "cache"))
		j.cache = "x"
	default:
		what, j.target = "name that is too long", filepath.Join(j.dir, strings.Repeat("x", 300))
	}
	res := j.run(files{})
	r.Count("runs with an impossible target", 1)
	r.Count("target: "+what, 1)
	r.Eval(what + j.mode + lib.Key(j.w))
	j.judge(res, j.target, " ("+what+")", false, true)
}

// ---------------------------------------------------------------- arguments

func args(r *hx.R, name string, rnd *rand.Rand) {
	j := newJob(r, name, rnd, "json")
	defer os.RemoveAll(j.dir)
	wd := filepath.Join(j.dir, "wd")
	must(os.Mkdir(wd, 0o755))
	data := filepath.Dir(j.xml)
	p := func(s string) string { return filepath.Join(wd, s) }
	both := func(args ...string) []string { return append(args, j.xml, j.nq) }
	type c struct {
		tool string
		args []string
	}
	idx := []string{"-export", p("o")}
	cs := []c{
		{"n2j", nil}, {"n2j", []string{""}}, {"n2j", []string{j.xml}}, {"n2j", []string{j.nq}}, {"n2j", both("x")}, {"n2j", []string{p("missing")}},
		{"n2j", []string{j.xml, p("missing")}}, {"n2j", []string{p("missing"), j.nq}}, {"n2j", []string{data, j.nq}}, {"n2j", []string{j.xml, data}},
		{"n2j", []string{wd}}, {"n2j", []string{j.nq, j.xml}}, {"n2j", []string{j.xml, j.xml}}, {"n2j", []string{j.nq, j.nq}}, {"n2j", []string{"/dev/null", j.nq}}, {"n2j", []string{j.xml, "/dev/null"}},
		{"n2j", both("-sqlite", p("a"), "-csv", wd)}, {"n2j", both("-sqlite", p("a"), "-mysql", "u:p@tcp(127.0.0.1:1)/d")}, {"n2j", both("-csv", wd, "-mysql", "u@/d")},
		{"n2j", both("-sqlite", p("a"), "-csv", wd, "-mysql", "x")}, {"n2j", both("-mysql", "u:p@tcp(127.0.0.1:1)/d")}, {"n2j", both("-mysql", "nonsense")}, {"n2j", both("-mysql", "u:p@unix("+p("sock")+")/d")},
		{"n2j", both("-nonsense")}, {"n2j", both("-sqlite")}, {"n2j", []string{"-sqlite"}}, {"n2j", both("-sql-field-tables=maybe")},
		{"hangover", nil}, {"hangover", idx}, {"hangover", append(idx, "")}, {"hangover", append(idx, j.xml)}, {"hangover", append(idx, j.nq)}, {"hangover", both(append(idx, "x")...)},
		{"hangover", append(idx, p("missing"))}, {"hangover", append(idx, wd)}, {"hangover", append(idx, j.nq, j.xml)}, {"hangover", append(idx, j.xml, data)},
		{"hangover", append(idx, "/dev/null")}, {"hangover", append(idx, "/dev/null", j.nq)}, {"hangover", []string{"-bench", p("missing")}}, {"hangover", []string{"-bench", j.nq, j.xml}},
		{"hangover", both("-addr", "999.999.999.999:1")}, {"hangover", both("-addr", "nonsense")}, {"hangover", both("-addr", "127.0.0.1:99999")}, {"hangover", []string{"-addr", "127.0.0.1:0", p("missing")}},
		{"hangover", []string{"-addr", "127.0.0.1:0", j.nq, j.xml}}, {"hangover", []string{"-addr", "127.0.0.1:0", j.xml}}, {"hangover", []string{"-nonsense"}},
	}
	x := cs[rnd.Intn(len(cs))]
	before := list(wd)
	res := run(r, files{dir: wd}, x.tool, x.args...)
	r.Count("runs with wrong arguments", 1)
	r.Eval(fmt.Sprintf("%q %s", x, lib.Key(j.w)))
	if !sane(r, name, res, false, j.dump()) {
		return
	}
	if res.ok() {
		j.violation("exit status 0 for wrong arguments or missing input", "", res)
		return
	}
	for q := range list(wd) {
		if fi, _ := os.Stat(q); !before[q] && fi != nil && fi.Size() > 0 {
			j.violation("wrong arguments, but there is output", q, res)
		}
	}
	for _, x := range []c{{"n2j", []string{"-legal"}}, {"hangover", []string{"-legal"}}, {"n2j", []string{"-help"}}, {"hangover", []string{"-help"}}} {
		if rnd.Intn(8) > 0 {
			continue
		}
		res := run(r, files{dir: wd}, x.tool, x.args...)
		if sane(r, name, res, false, "") && (!res.ok() || len(res.stdout)+len(res.stderr) < 100) {
			j.violation("no help or legal text", "", res)
		}
	}
}

// ---------------------------------------------------------------- broken input

var pieces = []string{"<", ">", "</path>", "<path>", "</path_array>", "<x>", "</x>", "<y>", "&amp;", "&", "0", "1", "-1", "999999999999999999999", "", "\x00", "\xff", "<![CDATA[", "]]>", "<!--", "<!DOCTYPE x [<!ENTITY a \"b\">]>", "\"", "\\", "\\u", "\\U00110000", "^^", "@", "_:", ".", "<>", "\n", "\r", " ", "b0", "b1", "true", "<is_group>1</is_group>", "<enabled>1</enabled>", "<group_id>b0</group_id>", "<id>b0</id>", "\xef\xbb\xbf"}

func mutate(rnd *rand.Rand, data []byte) []byte {
	d := append([]byte{}, data...)
	at := func() int { return rnd.Intn(len(d) + 1) }
	for n := 1 + rnd.Intn(3); n > 0 && len(d) > 0; n-- {
		switch rnd.Intn(9) {
		case 0: // cut off
			d = d[:at()]
		case 1: // remove a part
			a, b := at(), at()
			if a > b {
				a, b = b, a
			}
			b = min(b, a+1+rnd.Intn(60))
			d = append(d[:a:a], d[b:]...)
		case 2, 3: // add something
			a := at()
			d = append(append(append([]byte{}, d[:a]...), pieces[rnd.Intn(len(pieces))]...), d[a:]...)
		case 4: // another byte
			d[rnd.Intn(len(d))] = byte(rnd.Intn(256))
		case 5, 6: // change the lines
			ls := bytes.SplitAfter(d, []byte("\n"))
			a, b := rnd.Intn(len(ls)), rnd.Intn(len(ls))
			if rnd.Intn(2) == 0 {
				ls[a], ls[b] = ls[b], ls[a]
			} else {
				ls[a] = ls[b]
			}
			d = bytes.Join(ls, nil)
		default: // replace the content of an element or of a term by that of another one
			el := regexp.MustCompile(`>[^<>]*<`).FindAllIndex(d, -1)
			if rnd.Intn(2) == 0 {
				el = regexp.MustCompile(`<[^<>]*>`).FindAllIndex(d, -1)
			}
			if len(el) == 0 {
				continue
			}
			a, b := el[rnd.Intn(len(el))], el[rnd.Intn(len(el))]
			x := append([]byte{}, d[b[0]:b[1]]...)
			if rnd.Intn(4) == 0 {
				x = []byte(string(d[a[0]]) + pieces[rnd.Intn(len(pieces))] + string(d[a[1]-1]))
			}
			d = append(append(append([]byte{}, d[:a[0]]...), x...), d[a[1]:]...)
		}
	}
	return d
}

func broken(r *hx.R, name string, rnd *rand.Rand) {
	j := newJob(r, name, rnd, modes[rnd.Intn(4)])
	defer os.RemoveAll(j.dir)
	xml, _ := os.ReadFile(j.xml)
	nq, _ := os.ReadFile(j.nq)
	mustFail, what := false, ""
	switch rnd.Intn(8) {
	case 0: // the end is missing
		end := bytes.LastIndex(xml, []byte("</pathbuilderinterface"))
		xml = xml[:rnd.Intn(end+5)]
		mustFail, what = true, "truncated pathbuilder"
	case 1: // cut off within a statement
		ls := bytes.SplitAfter(nq, []byte("\n"))
		n := rnd.Intn(len(ls))
		l := bytes.TrimRight(ls[n], "\n")
		if t := bytes.TrimSpace(l); len(t) < 10 || t[0] == '#' {
			return
		}
		stop := bytes.LastIndexByte(l, '.')
		if i := bytes.LastIndexByte(l, '#'); stop < 0 || i > stop || bytes.Count(l, []byte("> ")) < 2 {
			return
		}
		nq = append(bytes.Join(ls[:n], nil), l[:1+rnd.Intn(stop-1)]...)
		if len(bytes.TrimSpace(l[:1+rnd.Intn(stop-1)])) == 0 {
			return
		}
		mustFail, what = len(bytes.TrimSpace(nq[len(bytes.Join(ls[:n], nil)):])) > 0, "truncated statement"
	case 2:
		at := rnd.Intn(len(nq) + 1)
		for at > 0 && nq[at-1] != '\n' {
			at--
		}
		junk := []string{"junk\n", "<http://a> <http://b> .\n", "<http://a> <http://b> <http://c>\n", "\"x\" <http://b> <http://c> .\n", "<http://a> \"b\" <http://c> .\n", "<http://a> _:b <http://c> .\n", "<http://a> <http://b> \"c .\n", "<http://a> <http://b> <http://c> <http://d> <http://e> .\n"}[rnd.Intn(8)]
		nq = append(append(append([]byte{}, nq[:at]...), junk...), nq[at:]...)
		mustFail, what = true, "invalid statement"
	case 3:
		if os.Geteuid() == 0 {
			return
		}
		f := []string{j.xml, j.nq}[rnd.Intn(2)]
		must(os.Chmod(f, 0))
		mustFail, what = true, "unreadable input"
		if j.judge(j.run(files{}), j.target, " ("+what+")", false, true) {
			r.Count("runs with broken input", 1)
		}
		return
	case 4, 5:
		xml = mutate(rnd, xml)
	case 6:
		nq = mutate(rnd, nq)
	default:
		xml, nq = mutate(rnd, xml), mutate(rnd, nq)
	}
	must(os.WriteFile(j.xml, xml, 0o644))
	must(os.WriteFile(j.nq, nq, 0o644))
	dump := func() string { return fmt.Sprintf("pathbuilder:\n%s\nstatements:\n%s", xml, nq) }
	res := j.run(files{})
	r.Count("runs with broken input", 1)
	r.Eval(fmt.Sprintf("%s %q %q", j.mode, xml, nq))
	if !sane(r, name, res, false, dump()) {
		return
	}
	if !res.ok() {
		return
	}
	if mustFail {
		r.Violation(name, "exit status 0 ("+what+")", res.String()+"\n"+dump())
		return
	}
	r.Count("runs with broken input that were accepted", 1)
	// whatever it means, the output has to be something complete
	bad := ""
	switch j.mode {
	case "json":
		data, _ := os.ReadFile(j.target)
		var x map[string][]wisski.Entity
		if err := json.Unmarshal(data, &x); err != nil {
			bad = err.Error()
		}
	case "index":
		g, err := glass.Import(j.target, nil)
		if err != nil {
			bad = err.Error()
		} else {
			g.Close()
		}
	case "csv":
		fs, _ := filepath.Glob(j.target + "/*.csv")
		for _, f := range fs {
			data, _ := os.ReadFile(f)
			recs, err := parseCSV(string(data))
			if err != nil {
				bad = f + ": " + err.Error()
			}
			for _, rec := range recs {
				if len(rec) != len(recs[0]) {
					bad = f + ": lines have different lengths"
				}
			}
		}
	case "sqlite":
		db, err := sql.Open("sqlite", j.target)
		must(err)
		var check string
		if err := db.QueryRow("PRAGMA integrity_check").Scan(&check); err != nil || check != "ok" {
			bad = fmt.Sprint(check, err)
		}
		db.Close()
	}
	if bad != "" {
		r.Violation(name, "exit status 0, but "+j.mode+" is incomplete (odd input)", bad+"\n"+res.String()+"\n"+dump())
	}
}
