// Package tab compares tables with the rows that follow from a dataset.
package tab

import (
	"database/sql"
	"fmt"
	"sort"
	"strings"

	"github.com/FAU-CDI/hangover/internal/verifh/hx"
	"github.com/FAU-CDI/hangover/internal/verifh/world"
)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// cell is the content of a column
type cell struct {
	null   bool
	single string
	list   []string // to be joined in any order
}

func (c cell) String() string {
	if c.null {
		return "NULL"
	}
	if c.list != nil {
		l := append([]string{}, c.list...)
		sort.Strings(l)
		return fmt.Sprintf("list%q", l)
	}
	return fmt.Sprintf("%q", c.single)
}

// joins checks that text has all values of the list, each followed by the separator except for the last
func joins(text string, list []string, sep string) bool {
	count := map[string]int{}
	for _, v := range list {
		count[v]++
	}
	tries := 0
	var rec func(at, left int) bool
	rec = func(at, left int) bool {
		tries++
		if tries > 200000 {
			panic("too many ways to split")
		}
		for v, n := range count {
			if n == 0 || !strings.HasPrefix(text[at:], v) {
				continue
			}
			end := at + len(v)
			if left == 1 {
				if end == len(text) {
					return true
				}
				continue
			}
			if !strings.HasPrefix(text[end:], sep) {
				continue
			}
			count[v]--
			ok := rec(end+len(sep), left-1)
			count[v]++
			if ok {
				return true
			}
		}
		return false
	}
	if sep == "" || len(list) > 8 {
		// only compare the sum of the parts
		if len(text) != len(strings.Join(list, sep)) {
			return false
		}
		if sep == "" {
			a, b := []byte(text), []byte(strings.Join(list, ""))
			sort.Slice(a, func(i, j int) bool { return a[i] < a[j] })
			sort.Slice(b, func(i, j int) bool { return b[i] < b[j] })
			return string(a) == string(b)
		}
		a, b := strings.Split(text, sep), strings.Split(strings.Join(list, sep), sep)
		sort.Strings(a)
		sort.Strings(b)
		return strings.Join(a, "\x00") == strings.Join(b, "\x00")
	}
	return rec(0, len(list))
}

// row is a row that must be there
type row []cell

func (rw row) String() string {
	var ss []string
	for _, c := range rw {
		ss = append(ss, c.String())
	}
	return strings.Join(ss, " | ")
}

type Expected struct {
	Cols map[string][]string
	Rows map[string][]row
	Kind map[string]string
}

func NewExpected() *Expected {
	return &Expected{Cols: map[string][]string{}, Rows: map[string][]row{}, Kind: map[string]string{}}
}

// Ent is an entity in a neutral form
type Ent struct {
	URI      string
	Fields   map[string][][2]string // value, language
	Children map[string][]*Ent
}

// Build makes the tables for a bundle
func (ex *Expected) Build(b *world.Bundle, parent string, es []*Ent, fieldTables bool) {
	name := "bundle__" + b.ID
	if ex.Cols[name] == nil {
		cols := []string{"uri"}
		if b.Parent != nil {
			cols = append(cols, "parent")
		}
		for _, f := range b.Fields {
			if f.Disabled {
				continue
			}
			if !fieldTables {
				cols = append(cols, "field__"+f.Machine())
			} else {
				ft := "field__" + b.ID + "__" + f.Machine()
				ex.Cols[ft] = []string{"uri", "value", "lang"}
				ex.Kind[ft] = "field tables"
			}
		}
		ex.Cols[name] = cols
		ex.Kind[name] = "top-level bundles"
		if b.Parent != nil {
			ex.Kind[name] = "child bundles"
		}
	}
	for _, e := range es {
		rw := row{{single: e.URI}}
		if b.Parent != nil {
			rw = append(rw, cell{single: parent})
		}
		for _, f := range b.Fields {
			if f.Disabled {
				continue
			}
			vs := e.Fields[f.Machine()]
			if fieldTables {
				ft := "field__" + b.ID + "__" + f.Machine()
				for _, v := range vs {
					ex.Rows[ft] = append(ex.Rows[ft], row{{single: e.URI}, {single: v[0]}, {single: v[1]}})
				}
				continue
			}
			if len(vs) == 0 {
				rw = append(rw, cell{null: true})
				continue
			}
			var l []string
			for _, v := range vs {
				l = append(l, v[0])
			}
			rw = append(rw, cell{list: l})
		}
		ex.Rows[name] = append(ex.Rows[name], rw)
	}
	for _, c := range b.Children {
		if c.Disabled {
			continue
		}
		ex.Build(c, "", nil, fieldTables)
		for _, e := range es {
			ex.Build(c, e.URI, e.Children[c.ID], fieldTables)
		}
	}
}

func q(s string) string { return `"` + strings.ReplaceAll(s, `"`, `""`) + `"` }

// Source are tables to be compared
type Source interface {
	Names() []string
	// Table returns the columns of a table, and calls f for each of the rows
	Table(name string, f func(row []sql.NullString) bool) (cols []string, err error)
	// Nulls says that NULL and empty text can be told apart
	Nulls() bool
}

// DB is a database
type DB struct{ *sql.DB }

func (DB) Nulls() bool { return true }

func (db DB) Names() (ns []string) {
	rows, err := db.Query("SELECT name FROM sqlite_master WHERE type='table'")
	must(err)
	defer rows.Close()
	for rows.Next() {
		var n string
		must(rows.Scan(&n))
		ns = append(ns, n)
	}
	must(rows.Err())
	return
}

func (db DB) Table(name string, f func(row []sql.NullString) bool) (cols []string, err error) {
	rows, err := db.Query("SELECT * FROM " + q(name))
	if err != nil {
		return nil, err
	}
	defer rows.Close()
	cols, err = rows.Columns()
	if err != nil {
		return nil, err
	}
	for f != nil && rows.Next() {
		raw := make([]sql.NullString, len(cols))
		ptr := make([]any, len(cols))
		for i := range raw {
			ptr[i] = &raw[i]
		}
		if err := rows.Scan(ptr...); err != nil {
			return nil, err
		}
		if !f(raw) {
			return cols, nil
		}
	}
	if f == nil {
		return cols, nil
	}
	return cols, rows.Err()
}

// CheckDB compares a database with what it should contain
func CheckDB(r *hx.R, db *sql.DB, ex *Expected, sep string, others map[string]bool) (sig, detail string) {
	return Check(r, DB{db}, ex, sep, others)
}

// Check compares tables with what they should contain
func Check(r *hx.R, src Source, ex *Expected, sep string, others map[string]bool) (sig, detail string) {
	names := map[string]bool{}
	for _, n := range src.Names() {
		names[n] = true
		if ex.Cols[n] == nil && !others[n] {
			return "unexpected table", n
		}
	}
	for _, n := range hx.SortedKeys(ex.Cols) {
		if !names[n] {
			return "missing table", n
		}
		cols, err := src.Table(n, nil)
		if err != nil {
			return "unreadable table", n + ": " + err.Error()
		}
		pos := make([]int, len(ex.Cols[n])) // position of each expected column
		for i, c := range ex.Cols[n] {
			pos[i] = -1
			for j, d := range cols {
				if c == d {
					pos[i] = j
				}
			}
			if pos[i] < 0 {
				return "missing column", fmt.Sprintf("%s has %q, but no %q", n, cols, c)
			}
		}
		if len(cols) != len(pos) {
			return "unexpected column", fmt.Sprintf("%s has %q, and not just %q", n, cols, ex.Cols[n])
		}
		// group the expected rows by everything that is fixed
		key := func(rw row, got []sql.NullString) string {
			var ss []string
			for i := range pos {
				switch {
				case got != nil && !got[i].Valid:
					ss = append(ss, "NULL")
				case rw == nil:
					ss = append(ss, got[i].String)
				case rw[i].null:
					ss = append(ss, "NULL")
				case rw[i].list == nil:
					ss = append(ss, rw[i].single)
				}
			}
			return fmt.Sprintf("%q", ss)
		}
		fixed := len(pos)
		for i, c := range ex.Cols[n] {
			if strings.HasPrefix(c, "field__") {
				fixed = i
				break
			}
		}
		short := func(rw row, got []sql.NullString) string {
			if rw != nil {
				rw = rw[:fixed]
			}
			p := pos
			pos = pos[:fixed]
			defer func() { pos = p }()
			return key(rw, got)
		}
		left := map[string][]row{}
		for _, rw := range ex.Rows[n] {
			k := short(rw, nil)
			left[k] = append(left[k], rw)
		}
		num := 0
		_, err = src.Table(n, func(raw []sql.NullString) bool {
			num++
			if len(raw) != len(cols) {
				sig, detail = "a row has too few or too many values", fmt.Sprintf("%s: %q", n, raw)
				return false
			}
			got := make([]sql.NullString, len(pos))
			for i, p := range pos {
				got[i] = raw[p]
			}
			k := short(nil, got)
			found := -1
			for i, rw := range left[k] {
				ok := true
				for j, c := range rw {
					switch {
					case c.null && !src.Nulls():
						ok = got[j].String == ""
					case c.null != !got[j].Valid:
						ok = false
					case c.null:
					case c.list != nil:
						ok = joins(got[j].String, c.list, sep)
						if ok && len(c.list) > 1 {
							r.Count("joined columns with several values", 1)
						}
					default:
						ok = got[j].String == c.single
					}
					if !ok {
						break
					}
				}
				if ok {
					found = i
					break
				}
			}
			if found < 0 {
				sig, detail = "a row that should not be there, or is there too often", fmt.Sprintf("%s: %q", n, got)
				if len(left[k]) > 0 {
					sig, detail = "a row has other values", fmt.Sprintf("%s: %q, not %s", n, got, left[k])
				}
				return false
			}
			left[k] = append(left[k][:found:found], left[k][found+1:]...)
			return true
		})
		if sig != "" {
			return sig, detail
		}
		if err != nil {
			return "unreadable table", n + ": " + err.Error()
		}
		for _, k := range hx.SortedKeys(left) {
			if len(left[k]) > 0 {
				return "a row is missing", fmt.Sprintf("%s: %s (%d rows found, %d expected)", n, left[k][0], num, len(ex.Rows[n]))
			}
		}
		r.Count("rows of "+ex.Kind[n], num)
	}
	return "", ""
}

func FromModel(w *world.World, ex *world.Expected, label func(string) string) map[string][]*Ent {
	var conv func(e *world.Ent) *Ent
	conv = func(e *world.Ent) *Ent {
		o := &Ent{URI: label(e.URI), Fields: map[string][][2]string{}, Children: map[string][]*Ent{}}
		for f, vs := range e.Fields {
			for _, v := range vs {
				t := v.V
				if !v.IsDatum {
					t = label(t)
				}
				o.Fields[f] = append(o.Fields[f], [2]string{t, v.Lang})
			}
		}
		for c, es := range e.Children {
			for _, e := range es {
				o.Children[c] = append(o.Children[c], conv(e))
			}
		}
		return o
	}
	m := map[string][]*Ent{}
	for b, es := range ex.Bundles {
		for _, e := range es {
			m[b] = append(m[b], conv(e))
		}
	}
	return m
}
