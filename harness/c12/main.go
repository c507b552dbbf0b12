// Command c12 monitors exports into databases.
package main

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"math/rand"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/FAU-CDI/drincw/pathbuilder"
	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/sparkl/exporter"
	"github.com/FAU-CDI/hangover/internal/sparkl/storages"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/verifh/hx"
	"github.com/FAU-CDI/hangover/internal/verifh/lib"
	"github.com/FAU-CDI/hangover/internal/verifh/tab"
	"github.com/FAU-CDI/hangover/internal/verifh/world"
	"github.com/FAU-CDI/hangover/internal/wisski"
	sqlite "github.com/glebarez/go-sqlite"
)

func main() {
	hx.Main("C12", func(r *hx.R) {
		r.Rule("each evaluation is one export into a sqlite database, whose tables are then read back row by row and compared as multisets with the rows that follow from the reference model of the dataset (or from the entities given to the exporter); distinct by tables and settings; non-trivial: at least one row")
		r.Assume("batch sizes and limits of query variables are positive; ids of bundles and fields are unique, and are not empty")
		sql.Register("verif-fault", &faultDriver{})
		r.Cases("world", r.Pick(260, 5000), func(name string, rnd *rand.Rand) { generated(r, name, rnd) })
		r.Cases("direct", r.Pick(1200, 30000), func(name string, rnd *rand.Rand) { direct(r, name, rnd, false) })
		r.Cases("names", r.Pick(400, 9000), func(name string, rnd *rand.Rand) { direct(r, name, rnd, true) })
		r.Cases("fault", r.Pick(300, 6000), func(name string, rnd *rand.Rand) { fault(r, name, rnd) })
		r.Cases("large", r.Pick(3, 30), func(name string, rnd *rand.Rand) { large(r, name, rnd) })
		r.Require("exports", 2500)
		r.Require("exports into a database with an earlier export", 700)
		r.Require("exports with field tables", 900)
		r.Require("rows of top-level bundles", 5000)
		r.Require("rows of child bundles", 5000)
		r.Require("rows of field tables", 5000)
		r.Require("joined columns with several values", 1000)
		r.Require("inserts in several parts", 200)
		r.Require("exports refused for few query variables", 20)
		r.Require("exports refused for their names", 5)
		r.Require("exports with odd names", 200)
		r.Require("exports in which a statement failed", 100)
	})
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

type settings struct {
	batch, vars int
	fields      bool
	sep         string
}

func random(rnd *rand.Rand) (s settings) {
	s.batch = []int{1, 2, 3, 7, 1000}[rnd.Intn(5)]
	s.vars = []int{32766, 100, 20, 7, 3}[rnd.Intn(5)]
	s.fields = rnd.Intn(2) == 0
	s.sep = []string{",", ";", "", ", ", "\n", "'", "%", "||", "$", "?", "\u00e9"}[rnd.Intn(11)]
	return
}

func (s settings) exporter(db *sql.DB) *exporter.SQL {
	return &exporter.SQL{DB: db, SkipClose: true, BatchSize: s.batch, MaxQueryVar: s.vars, MakeFieldTables: s.fields, Separator: s.sep}
}

// small checks if some table has more columns than allowed
func (s settings) small(ex *tab.Expected) bool {
	for n, rows := range ex.Rows {
		if len(rows) > 0 && len(ex.Cols[n]) > s.vars {
			return true
		}
	}
	return false
}

// split counts inserts that have to be split
func (s settings) split(r *hx.R, ex *tab.Expected) {
	for n, rows := range ex.Rows {
		if m := s.vars / len(ex.Cols[n]); len(rows) > m || len(rows) > s.batch {
			r.Count("inserts in several parts", 1)
		}
	}
}

var dsns int64

// open opens a new database, either in memory or in a file
func open(r *hx.R, rnd *rand.Rand) (*sql.DB, *faultState) {
	st := &faultState{path: ":memory:"}
	dsn := fmt.Sprintf("db-%d", atomic.AddInt64(&dsns, 1))
	if rnd.Intn(8) == 0 {
		st.path = filepath.Join(r.Dir(), "out.sqlite")
	}
	states.Store(dsn, st)
	db, err := sql.Open("verif-fault", dsn)
	must(err)
	db.SetMaxOpenConns(1)
	return db, st
}

// ---------------------------------------------------------------- datasets

func generated(r *hx.R, name string, rnd *rand.Rand) {
	o := world.Default()
	o.Entities = 3 + rnd.Intn(12)
	o.Bundles = 1 + rnd.Intn(4)
	if rnd.Intn(2) == 0 {
		o.BundleIDs = "hash"
	}
	o.Hostile = 0.5
	o.IRIData = rnd.Intn(2) == 0
	if rnd.Intn(3) == 0 {
		o.BigField = 7
	}
	w, model := world.Generate(rnd, o)
	db, st := open(r, rnd)
	defer db.Close()
	s := random(rnd)
	cache := ""
	if rnd.Intn(8) == 0 {
		cache = r.Dir()
	}
	times := 1 + rnd.Intn(2)
	for i := 0; i < times; i++ {
		pb, index, err := lib.Index(w, lib.Options{Cache: cache})
		if err != nil {
			r.Violation(name, "loading a valid dataset fails", err.Error()+"\n"+lib.Dump(w))
			return
		}
		ids, err := lib.Identities(index)
		must(err)
		label := map[string]string{}
		for a, c := range ids {
			label[model.G.C.Of(a)] = c
		}
		ex := tab.NewExpected()
		ents := tab.FromModel(w, model, func(c string) string {
			if l, ok := label[c]; ok {
				return l
			}
			return c
		})
		for _, b := range w.Bundles {
			ex.Build(b, "", ents[b.ID], s.fields)
		}
		err = sparkl.Export(pb, index, storages.NewBundleEngine(cache), s.exporter(db), nil)
		index.Close()
		if !judge(r, name, db, st, ex, s, err, i, func() string { return lib.Dump(w) }, false, false) {
			return
		}
		if rnd.Intn(2) == 0 { // same bundles, other data
			keep := w.Quads[:0:0]
			for _, q := range w.Quads {
				if rnd.Intn(6) > 0 || q.P.V == world.SameAs || q.P.V == world.Inverse || q.P.V == world.EqClass || q.P.V == world.EqProp {
					keep = append(keep, q)
				}
			}
			w2 := *w
			w2.Quads = keep
			if ex2 := w2.Expect(); !ex2.Ambiguous {
				w, model = &w2, ex2
			}
		}
		nb, nv := s.batch, s.vars
		s2 := random(rnd)
		nb, nv = s2.batch, s2.vars
		s.batch, s.vars = nb, nv
	}
}

// judge checks the result of an export
func judge(r *hx.R, name string, db *sql.DB, st *faultState, ex *tab.Expected, s settings, err error, earlier int, dump func() string, mayFail, mustFail bool) bool {
	what := func() string { return fmt.Sprintf("\n%+v\n%s", s, dump()) }
	if err == nil && mustFail {
		r.Violation(name, "different bundles or fields share a table", what())
		return false
	}
	if err != nil {
		if s.small(ex) {
			r.Count("exports refused for few query variables", 1)
			return false
		}
		if mayFail {
			r.Count("exports refused for their names", 1)
			return false
		}
		r.Violation(name, "export fails", err.Error()+what())
		return false
	}
	sig, detail := tab.CheckDB(r, db, ex, s.sep, map[string]bool{"unrelated": true})
	if sig != "" {
		if earlier > 0 {
			sig += " (after another export)"
		}
		r.Violation(name, sig, detail+what())
		return false
	}
	vars := int(atomic.SwapInt64(&st.vars, 0))
	if vars > s.vars {
		r.Violation(name, "more query variables than allowed", fmt.Sprintf("%d of %d", vars, s.vars)+what())
		return false
	}
	r.Max("query variables in one statement", vars)
	s.split(r, ex)
	r.Count("exports", 1)
	if s.fields {
		r.Count("exports with field tables", 1)
	}
	if earlier > 0 {
		r.Count("exports into a database with an earlier export", 1)
	}
	num := 0
	for _, rows := range ex.Rows {
		num += len(rows)
	}
	if num > 0 {
		r.Eval(fmt.Sprintf("%+v %v", s, ex.Rows))
	}
	return true
}

// ---------------------------------------------------------------- entities given to the exporter

var oddIDs = []string{
	"a-b", "a b", "a.b", "order", "select", "B\u00fccher", "\u4f60", "a$b", "$1", "${x}", "?", "a?b", "x'y", "x\"y", "x`y", "x`` `", "a;b", "a; DROP TABLE unrelated; --",
	"a(b", "a)b", "[a]", "1", "007", "a,b", "a AS SELECT 1 --", "a--b", "/*a", "a%sb", "%d", "\\", "a\\b", ":a", "@a", "uri", "sqlite_x", "a__b", "__", "_", " ", "b c ", "a TEXT, b", strings.Repeat("long", 60),
}

// shape makes a tree of bundles
func shape(rnd *rand.Rand, odd bool) *world.World {
	w := &world.World{}
	n := 0
	id := func(kind string) string {
		n++
		if odd && rnd.Intn(2) == 0 {
			x := oddIDs[rnd.Intn(len(oddIDs))]
			if rnd.Intn(3) > 0 {
				x += fmt.Sprint(n)
			} else if rnd.Intn(2) == 0 {
				x = kind + fmt.Sprint(n) + x
			}
			return x
		}
		return kind + fmt.Sprint(n)
	}
	var mk func(parent *world.Bundle, depth int) *world.Bundle
	mk = func(parent *world.Bundle, depth int) *world.Bundle {
		b := &world.Bundle{ID: id("b"), Name: "x", Parent: parent, Cardinality: -1, Weight: rnd.Intn(3)}
		b.BundleID = b.ID
		if parent == nil {
			b.Path = []string{"http://onto.example/C" + fmt.Sprint(n)}
		} else {
			b.Path = append(append([]string{}, parent.Path...), "http://onto.example/p"+fmt.Sprint(n), "http://onto.example/C"+fmt.Sprint(n))
		}
		for i := rnd.Intn(5); i > 0; i-- {
			f := &world.Field{ID: id("f"), Name: "f", Type: "string", Path: b.Path, Datatype: "http://onto.example/d" + fmt.Sprint(n), Cardinality: -1, Weight: rnd.Intn(3)}
			f.FieldID = f.ID
			b.Fields = append(b.Fields, f)
		}
		if depth > 0 {
			for i := rnd.Intn(3); i > 0; i-- {
				b.Children = append(b.Children, mk(b, depth-1))
			}
		}
		return b
	}
	for i := 1 + rnd.Intn(3); i > 0; i-- {
		w.Bundles = append(w.Bundles, mk(nil, 2))
	}
	return w
}

func text(rnd *rand.Rand) string {
	switch rnd.Intn(8) {
	case 0, 1, 2:
		return world.HostileLiterals[rnd.Intn(len(world.HostileLiterals))]
	case 3:
		var b strings.Builder
		for i := rnd.Intn(6); i > 0; i-- {
			b.WriteRune([]rune{0, 1, 9, 10, 13, 34, 39, 44, 59, 0x24, 0x3f, 92, 96, 0xe9, 0xfffd, 0x1f600, 0xfeff, 0x2028}[rnd.Intn(18)])
		}
		return b.String()
	default:
		return fmt.Sprintf("value %d", rnd.Intn(1000))
	}
}

func entities(rnd *rand.Rand, b *world.Bundle, n int, next *int) (es []*tab.Ent, ws []wisski.Entity) {
	for ; n > 0; n-- {
		*next++
		e := &tab.Ent{URI: fmt.Sprintf("http://data.example/%d", *next), Fields: map[string][][2]string{}, Children: map[string][]*tab.Ent{}}
		if rnd.Intn(6) == 0 {
			e.URI += []string{"#x", "?a=b&c='d'", "$1", "\u00e9", "%20", "`"}[rnd.Intn(6)]
		}
		x := wisski.Entity{URI: impl.Label(e.URI), Fields: map[string][]wisski.FieldValue{}, Children: map[string][]wisski.Entity{}}
		for _, f := range b.Fields {
			k := []int{0, 0, 1, 1, 2, 3, 5}[rnd.Intn(7)]
			if rnd.Intn(200) == 0 {
				k = 40
			}
			for i := 0; i < k; i++ {
				v := [2]string{text(rnd), ""}
				if rnd.Intn(3) == 0 {
					v[1] = world.Langs[rnd.Intn(len(world.Langs))]
				}
				e.Fields[f.ID] = append(e.Fields[f.ID], v)
				x.Fields[f.ID] = append(x.Fields[f.ID], wisski.FieldValue{Value: impl.Datum(v[0]), Language: impl.Language(v[1])})
			}
		}
		for _, c := range b.Children {
			e.Children[c.ID], x.Children[c.ID] = entities(rnd, c, rnd.Intn(4), next)
		}
		es, ws = append(es, e), append(ws, x)
	}
	return
}

// export gives entities to an exporter like the program does
func export(pb *pathbuilder.Pathbuilder, data map[string][]wisski.Entity, x exporter.Exporter) error {
	var mu sync.Mutex
	var first error
	note := func(err error) bool {
		mu.Lock()
		defer mu.Unlock()
		if first == nil {
			first = err
		}
		return err != nil
	}
	var wg sync.WaitGroup
	for _, b := range pb.Bundles() {
		wg.Add(1)
		go func(b *pathbuilder.Bundle) {
			defer wg.Done()
			es := data[b.MachineName()]
			if note(x.Begin(b, int64(len(es)))) {
				return
			}
			for i := range es {
				e := es[i]
				if note(x.Add(b, &e)) {
					break
				}
			}
			note(x.End(b))
		}(b)
	}
	wg.Wait()
	note(x.Close())
	return first
}

// clash checks if two bundles or fields would have to share a table, or two fields a column
func clash(w *world.World, fieldTables bool, lower func(string) string) bool {
	seen := map[string]bool{}
	found := false
	add := func(k string) {
		k = lower(k)
		if seen[k] {
			found = true
		}
		seen[k] = true
	}
	for _, b := range w.All() {
		add("bundle__" + b.ID)
		for _, f := range b.Fields {
			if fieldTables {
				add("field__" + b.ID + "__" + f.ID)
			} else {
				add(b.ID + "\x00" + f.ID)
			}
		}
	}
	return found
}

func ascii(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

// similar gives bundles and fields ids that might lead to the same names of tables
func similar(rnd *rand.Rand, w *world.World) {
	pool := []string{"x", "X", "x__y", "y", "Y", "y__z", "z", "x__", "__y", "x__y__z", "X__Y", "\u00e9", "\u00c9", "_", "__", "field__x", "bundle__x"}
	rnd.Shuffle(len(pool), func(i, j int) { pool[i], pool[j] = pool[j], pool[i] })
	for _, b := range w.All() {
		if len(pool) > 0 && rnd.Intn(3) > 0 {
			b.ID, pool = pool[0], pool[1:]
		}
		for _, f := range b.Fields {
			if len(pool) > 0 && rnd.Intn(3) > 0 {
				f.ID, pool = pool[0], pool[1:]
			}
		}
	}
}

func ids(w *world.World) (ok bool) {
	seen := map[string]bool{}
	ok = true
	for _, b := range w.All() {
		if seen[b.ID] || strings.TrimSpace(b.ID) == "" {
			ok = false
		}
		seen[b.ID] = true
		for _, f := range b.Fields {
			if seen[f.ID] || strings.TrimSpace(f.ID) == "" {
				ok = false
			}
			seen[f.ID] = true
		}
	}
	return
}

func direct(r *hx.R, name string, rnd *rand.Rand, odd bool) {
	w := shape(rnd, odd)
	for !ids(w) {
		w = shape(rnd, odd)
	}
	if odd && rnd.Intn(4) == 0 {
		similar(rnd, w)
	}
	pb, err := lib.PB(w)
	if err != nil {
		r.Violation(name, "loading a valid pathbuilder fails", err.Error()+"\n"+lib.Dump(w))
		return
	}
	for _, b := range w.All() { // the ids are what the file says
		if pb.FindBundle(b.ID) == nil {
			return
		}
	}
	db, st := open(r, rnd)
	defer db.Close()
	_, err = db.Exec("CREATE TABLE unrelated (a TEXT)")
	must(err)
	_, err = db.Exec("INSERT INTO unrelated VALUES ('b')")
	must(err)
	s := random(rnd)
	times := 1 + rnd.Intn(3)
	next := 0
	for i := 0; i < times; i++ {
		ex := tab.NewExpected()
		data := map[string][]wisski.Entity{}
		for _, b := range w.Bundles {
			es, ws := entities(rnd, b, []int{0, 1, 2, 3, 8, 20}[rnd.Intn(6)], &next)
			ex.Build(b, "", es, s.fields)
			data[b.ID] = ws
		}
		var xerr error
		done, _, stacks := hx.Guard(func() { xerr = export(pb, data, s.exporter(db)) }, 60)
		if !done {
			r.Violation(name, "an export does not end", stacks)
			r.Stop()
		}
		dump := func() string {
			var sb strings.Builder
			for _, n := range hx.SortedKeys(ex.Cols) {
				fmt.Fprintf(&sb, "%s %q\n", n, ex.Cols[n])
				for _, rw := range ex.Rows[n] {
					fmt.Fprintf(&sb, "    %s\n", rw)
				}
			}
			return hx.Trunc(sb.String(), 5000)
		}
		good := judge(r, name, db, st, ex, s, xerr, i, dump, clash(w, s.fields, strings.ToLower), clash(w, s.fields, ascii))
		if good && odd {
			r.Count("exports with odd names", 1)
		}
		var v string
		if err := db.QueryRow("SELECT a FROM unrelated").Scan(&v); err != nil || v != "b" {
			r.Violation(name, "an export changes another table", fmt.Sprint(err))
		}
		if !good {
			return
		}
		s2 := random(rnd)
		s.batch, s.vars = s2.batch, s2.vars
	}
}

// large has several batches with the settings of the program
func large(r *hx.R, name string, rnd *rand.Rand) {
	w := shape(rnd, false)
	pb, err := lib.PB(w)
	must(err)
	db, st := open(r, rnd)
	defer db.Close()
	s := settings{batch: 1000, vars: 32766, fields: rnd.Intn(2) == 0, sep: ","}
	next := 0
	ex := tab.NewExpected()
	data := map[string][]wisski.Entity{}
	for _, b := range w.Bundles {
		es, ws := entities(rnd, b, []int{999, 1000, 1001, 2000, 2500}[rnd.Intn(5)], &next)
		ex.Build(b, "", es, s.fields)
		data[b.ID] = ws
	}
	judge(r, name, db, st, ex, s, export(pb, data, s.exporter(db)), 0, func() string { return "" }, false, false)
}

// ---------------------------------------------------------------- statements that fail

var errFault = errors.New("injected failure")

type faultDriver struct{}

type faultState struct {
	at   int64
	n    int64
	hits int64
	vars int64  // most variables in one statement
	path string // of the database
}

var states sync.Map

func (*faultDriver) Open(dsn string) (driver.Conn, error) {
	st, _ := states.Load(dsn)
	c, err := (&sqlite.Driver{}).Open(st.(*faultState).path)
	if err != nil {
		return nil, err
	}
	return &faultConn{Conn: c, st: st.(*faultState)}, nil
}

type faultConn struct {
	driver.Conn
	st *faultState
}

func (c *faultConn) ExecContext(ctx context.Context, query string, args []driver.NamedValue) (driver.Result, error) {
	n := atomic.AddInt64(&c.st.n, 1)
	if v := int64(len(args)); v > atomic.LoadInt64(&c.st.vars) {
		atomic.StoreInt64(&c.st.vars, v)
	}
	if at := atomic.LoadInt64(&c.st.at); at > 0 && n == at {
		atomic.AddInt64(&c.st.hits, 1)
		return nil, errFault
	}
	return c.Conn.(driver.ExecerContext).ExecContext(ctx, query, args)
}

func (c *faultConn) QueryContext(ctx context.Context, query string, args []driver.NamedValue) (driver.Rows, error) {
	return c.Conn.(driver.QueryerContext).QueryContext(ctx, query, args)
}

// fault lets one statement fail. An export that claims to be fine has to be complete.
func fault(r *hx.R, name string, rnd *rand.Rand) {
	o := world.Default()
	o.Entities = 3 + rnd.Intn(8)
	w, model := world.Generate(rnd, o)
	pb, index, err := lib.Index(w, lib.Options{})
	if err != nil {
		r.Violation(name, "loading a valid dataset fails", err.Error()+"\n"+lib.Dump(w))
		return
	}
	defer index.Close()
	ids, err := lib.Identities(index)
	must(err)
	label := map[string]string{}
	for a, c := range ids {
		label[model.G.C.Of(a)] = c
	}
	ents := tab.FromModel(w, model, func(c string) string {
		if l, ok := label[c]; ok {
			return l
		}
		return c
	})
	s := random(rnd)
	s.vars = 32766
	if rnd.Intn(2) == 0 {
		s.batch = 1 + rnd.Intn(3)
	}
	ex := tab.NewExpected()
	for _, b := range w.Bundles {
		ex.Build(b, "", ents[b.ID], s.fields)
	}
	run := func(at int64) (*faultState, *sql.DB, error) {
		st := &faultState{at: at, path: ":memory:"}
		dsn := fmt.Sprintf("%s-%d", name, at)
		states.Store(dsn, st)
		defer states.Delete(dsn)
		db, err := sql.Open("verif-fault", dsn)
		must(err)
		db.SetMaxOpenConns(1)
		db.SetMaxIdleConns(1)
		var xerr error
		done, _, stacks := hx.Guard(func() { xerr = sparkl.Export(pb, index, storages.NewBundleEngine(""), s.exporter(db), nil) }, 60)
		if !done {
			r.Violation(name, "an export does not end when a statement fails", stacks)
			r.Stop()
		}
		return st, db, xerr
	}
	st, db, err := run(0)
	ok := judge(r, name, db, st, ex, s, err, 0, func() string { return lib.Dump(w) }, false, false)
	db.Close()
	if !ok {
		return
	}
	total := st.n
	tries := []int64{1, total, 1 + rnd.Int63n(total), 1 + rnd.Int63n(total)}
	for _, at := range tries {
		st, db, err := run(at)
		if st.hits > 0 {
			r.Count("exports in which a statement failed", 1)
			r.Eval(fmt.Sprintf("%s fault %d", name, at))
			if err == nil {
				r.Violation(name, "a failing statement is not reported", fmt.Sprintf("statement %d of %d\n%s", at, total, lib.Dump(w)))
			} else if !errors.Is(err, errFault) {
				r.Violation(name, "another error is reported", fmt.Sprintf("statement %d of %d: %v\n%s", at, total, err, lib.Dump(w)))
			}
		}
		db.Close()
	}
}
