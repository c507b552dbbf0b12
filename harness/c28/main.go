// Command c28 monitors identifiers and how they are stored.
package main

import (
	"bytes"
	"encoding/gob"
	"errors"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"path/filepath"
	"sort"

	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/triplestore/imap"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/verifh/gq"
	"github.com/FAU-CDI/hangover/internal/verifh/hx"
	"github.com/FAU-CDI/hangover/internal/verifh/lib"
	"github.com/syndtr/goleveldb/leveldb"
)

func main() {
	hx.Main("C28", func(r *hx.R) {
		r.Rule("each evaluation is one run of identifiers around a random or critical value, one history of a map of labels, one storage filled with random identifiers, or one stored record cut short; everything is compared with 64 bit arithmetic and with plain maps; distinct by values used")
		r.Cases("exhaust", 1, func(name string, rnd *rand.Rand) { exhaust(r, name) })
		r.Cases("arithmetic", r.Pick(3000, 60000), func(name string, rnd *rand.Rand) { arithmetic(r, name, rnd) })
		r.Cases("codec", r.Pick(3000, 60000), func(name string, rnd *rand.Rand) { codec(r, name, rnd) })
		r.Cases("map", r.Pick(400, 6000), func(name string, rnd *rand.Rand) { labels(r, name, rnd, false) })
		r.Cases("map-disk", r.Pick(40, 500), func(name string, rnd *rand.Rand) { labels(r, name, rnd, true) })
		r.Cases("three", r.Pick(300, 5000), func(name string, rnd *rand.Rand) { three(r, name, rnd, false) })
		r.Cases("three-disk", r.Pick(60, 800), func(name string, rnd *rand.Rand) { three(r, name, rnd, true) })
		r.Cases("hash-disk", r.Pick(60, 800), func(name string, rnd *rand.Rand) { hash(r, name, rnd) })
		r.Cases("short", r.Pick(60, 600), func(name string, rnd *rand.Rand) { short(r, name, rnd) })
		r.Cases("graph", r.Pick(120, 2000), func(name string, rnd *rand.Rand) { graph(r, name, rnd) })
		r.Require("identifiers handed out", 100000)
		r.Require("overflows", 100)
		r.Require("short records", 1000)
		r.Require("records stored and read", 10000)
		r.Require("statements identified", 2000)
	})
}

const maxID = math.MaxUint32

// mk makes an identifier, without using its arithmetic
func mk(v uint64) (id impl.ID) {
	id.Decode([]byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)})
	return
}

func num(id impl.ID) uint64 {
	b := make([]byte, impl.IDLen)
	id.Encode(b)
	return uint64(b[0])<<24 | uint64(b[1])<<16 | uint64(b[2])<<8 | uint64(b[3])
}

// critical returns random values, most of them close to where a byte overflows
func critical(rnd *rand.Rand) uint64 {
	switch rnd.Intn(5) {
	case 0:
		return uint64(rnd.Uint32())
	case 1:
		return uint64(rnd.Intn(400))
	case 2:
		return maxID - uint64(rnd.Intn(300))
	default:
		v := uint64(1+rnd.Intn(255))<<(8*uint(1+rnd.Intn(3))) + uint64(rnd.Intn(9)) - 4
		return v & maxID
	}
}

func panics(f func()) (p any) {
	defer func() { p = recover() }()
	f()
	return nil
}

// exhaust uses up all identifiers of a map
func exhaust(r *hx.R, name string) {
	var m imap.IMap
	if err := m.Reset(sparkl.NewEngine("")); err != nil {
		r.Inconclusive(err.Error())
		return
	}
	defer m.Close()
	first, err := m.Add("first")
	if err != nil {
		r.Violation(name, "Add fails: "+err.Error(), "")
		return
	}
	last := first.Literal
	n := uint64(1)
	var prev [impl.IDLen]byte
	var cur [impl.IDLen]byte
	p := panics(func() {
		// it is never silent, but this ends in any case
		for n < maxID+10 {
			id := m.Next()
			n++
			if n&0xffff == 0 || n > maxID-1000 {
				id.Encode(cur[:])
				last.Encode(prev[:])
				if bytes.Compare(prev[:], cur[:]) >= 0 || !id.Valid() {
					r.Violation(name, "identifiers of a map do not increase", fmt.Sprintf("number %d: %v after %v", n, id, last))
					panic("stop")
				}
				last = id
			}
		}
	})
	r.Count("identifiers handed out", int(min(n, 1<<40)))
	r.Eval("exhaust")
	if r.NumViolations() > 0 {
		return
	}
	if p == nil {
		r.Violation(name, "a map hands out more identifiers than there are", fmt.Sprintf("%d identifiers", n))
		return
	}
	if n < maxID {
		r.Violation(name, "a map runs out of identifiers early", fmt.Sprintf("%d identifiers: %v", n, p))
	}
	r.Count("overflows", 1)
}

func arithmetic(r *hx.R, name string, rnd *rand.Rand) {
	v := critical(rnd)
	id := mk(v)
	steps := rnd.Intn(600)
	r.Eval(fmt.Sprint(v))
	for i := 0; i < steps; i++ {
		if v == maxID {
			if p := panics(func() { id.Inc() }); p == nil {
				r.Violation(name, "incrementing the largest identifier is silent", fmt.Sprint(id))
			}
			r.Count("overflows", 1)
			return
		}
		before := id
		next := id.Inc()
		v++
		if next != id || num(id) != v || !id.Valid() {
			r.Violation(name, "incrementing an identifier is wrong", fmt.Sprintf("%v.Inc() = %v, %v, want %d", before, next, id, v))
			return
		}
		if before.Compare(id) != -1 || id.Compare(before) != 1 || id.Compare(next) != 0 {
			r.Violation(name, "comparing identifiers is wrong", fmt.Sprintf("%v %v", before, id))
			return
		}
		r.Count("identifiers handed out", 1)
	}
	// any two
	for i := 0; i < 20; i++ {
		a, b := critical(rnd), critical(rnd)
		ia, ib := mk(a), mk(b)
		want := 0
		if a < b {
			want = -1
		} else if a > b {
			want = 1
		}
		if ia.Compare(ib) != want || bytes.Compare(impl.EncodeIDs(ia), impl.EncodeIDs(ib)) != want || (ia == ib) != (a == b) {
			r.Violation(name, "order of identifiers is not the numerical order", fmt.Sprintf("%d %d: %d", a, b, ia.Compare(ib)))
			return
		}
		if ia.Valid() != (a != 0) {
			r.Violation(name, "validity of an identifier is wrong", fmt.Sprint(a))
			return
		}
		big1 := big.NewInt(-7)
		if ia.Int(big1).Uint64() != a {
			r.Violation(name, "an identifier as number is wrong", fmt.Sprintf("%d: %v", a, big1))
			return
		}
		il := mk(b)
		if *il.LoadInt(big1) != ia || il != ia {
			r.Violation(name, "an identifier made from a number is wrong", fmt.Sprint(a))
			return
		}
		if p := panics(func() { il.LoadInt(new(big.Int).SetUint64(maxID + 1 + a)) }); p == nil {
			r.Violation(name, "making an identifier from a number that is too large is silent", fmt.Sprint(maxID+1+a))
			return
		}
		r.Count("overflows", 1)
		if a != b && ia.String() == ib.String() {
			r.Violation(name, "different identifiers have the same text", fmt.Sprint(a, b))
		}
	}
}

func codec(r *hx.R, name string, rnd *rand.Rand) {
	n := rnd.Intn(9)
	ids := make([]impl.ID, n)
	key := ""
	for i := range ids {
		v := critical(rnd)
		ids[i] = mk(v)
		key += fmt.Sprint(v, " ")
	}
	r.Eval(key)
	fail := func(what string) { r.Violation(name, what, key) }
	data := impl.EncodeIDs(ids...)
	back := impl.DecodeIDs(data)
	if len(back) != n || len(data) != n*impl.IDLen {
		fail("encoding identifiers has a wrong length")
		return
	}
	dests, ptrs := make([]impl.ID, n), make([]*impl.ID, n)
	for i := range dests {
		dests[i] = mk(critical(rnd))
		ptrs[i] = &dests[i]
	}
	if err := impl.UnmarshalIDs(data, ptrs...); err != nil {
		fail("reading identifiers fails: " + err.Error())
		return
	}
	dst := make([]byte, len(data)+rnd.Intn(3))
	if err := impl.MarshalIDs(dst, ids...); err != nil || !bytes.HasPrefix(dst, data) {
		fail("storing identifiers in a slice is wrong")
		return
	}
	for i := range ids {
		if back[i] != ids[i] || dests[i] != ids[i] || impl.DecodeID(data, i) != ids[i] {
			fail("identifiers change when stored")
			return
		}
		m, err := impl.MarshalID(ids[i])
		var u impl.ID
		if err != nil || impl.UnmarshalID(&u, m) != nil || u != ids[i] {
			fail("an identifier changes when stored")
			return
		}
		var buf bytes.Buffer
		var g impl.ID
		if err := gob.NewEncoder(&buf).Encode(ids[i]); err != nil {
			fail("encoding an identifier fails: " + err.Error())
			return
		}
		if err := gob.NewDecoder(&buf).Decode(&g); err != nil || g != ids[i] {
			fail("an identifier changes when encoded")
			return
		}
	}
	for cut := 0; cut < len(data); cut++ {
		if impl.UnmarshalIDs(data[:cut], ptrs...) == nil {
			fail("short identifiers are read")
			return
		}
		if impl.MarshalIDs(make([]byte, cut), ids...) == nil {
			fail("identifiers are stored in too little space")
			return
		}
		var u impl.ID
		if cut < impl.IDLen && (impl.UnmarshalID(&u, data[:cut]) == nil || (&u).GobDecode(data[:cut]) == nil) {
			fail("a short identifier is read")
			return
		}
		r.Count("short records", 1)
	}
	// statements
	tid := func() imap.TripleID { return imap.TripleID{Canonical: mk(critical(rnd)), Literal: mk(critical(rnd))} }
	t := igraph.IndexTriple{Role: igraph.Role(rnd.Intn(3)), Items: [3]imap.TripleID{tid(), tid(), tid()}}
	b, err := igraph.MarshalTriple(t)
	u := igraph.IndexTriple{Role: igraph.Role(rnd.Intn(3)), Items: [3]imap.TripleID{tid(), tid(), tid()}}
	if err != nil || igraph.UnmarshalTriple(&u, b) != nil || u != t {
		fail(fmt.Sprintf("a statement changes when stored: %v %v", t, u))
		return
	}
	for cut := 0; cut < len(b); cut++ {
		if igraph.UnmarshalTriple(&u, b[:cut]) == nil {
			fail("a short statement is read")
			return
		}
		r.Count("short records", 1)
	}
	ti := tid()
	b, err = ti.Marshal()
	ui := tid()
	if err != nil || (&ui).Unmarshal(b) != nil || ui != ti {
		fail(fmt.Sprintf("a pair of identifiers changes when stored: %v %v", ti, ui))
		return
	}
	for cut := 0; cut < len(b); cut++ {
		if (&ui).Unmarshal(b[:cut]) == nil {
			fail("a short pair of identifiers is read")
			return
		}
		r.Count("short records", 1)
	}
	r.Count("records stored and read", n+2)
}

func labels(r *hx.R, name string, rnd *rand.Rand, disk bool) {
	cache := ""
	if disk {
		cache = r.Dir()
	}
	var m imap.IMap
	if err := m.Reset(sparkl.NewEngine(cache)); err != nil {
		r.Inconclusive(name + ": " + err.Error())
		return
	}
	defer m.Close()
	var log []string
	fail := func(what string) bool {
		r.Violation(name, what, fmt.Sprint(log))
		return false
	}
	ids := map[impl.Label]impl.ID{} // own identifiers
	given := map[impl.ID]impl.Label{}
	var last impl.ID
	handed := func(id impl.ID, l impl.Label) bool {
		r.Count("identifiers handed out", 1)
		if _, ok := given[id]; ok {
			return fail("an identifier is handed out twice")
		}
		if !id.Valid() {
			return fail("an identifier that is not valid is handed out")
		}
		if last.Compare(id) >= 0 || num(last) >= num(id) {
			return fail("identifiers do not increase")
		}
		given[id], last = l, id
		return true
	}
	n := 20 + rnd.Intn(600)
	for i := 0; i < n; i++ {
		l := impl.Label(fmt.Sprint("l", rnd.Intn(n)))
		o := impl.Label(fmt.Sprint("l", rnd.Intn(n)))
		switch k := rnd.Intn(8); {
		case k < 4: // add
			log = append(log, fmt.Sprintf("add %s", l))
			known, had := ids[l]
			t, err := m.Add(l)
			if err != nil {
				fail("Add fails: " + err.Error())
				return
			}
			if had && t.Literal != known {
				fail("a label changes its identifier")
				return
			}
			if !had && !handed(t.Literal, l) {
				return
			}
			ids[l] = t.Literal
		case k < 6:
			log = append(log, "next")
			if !handed(m.Next(), "") {
				return
			}
		case k < 7:
			_, h1 := ids[l]
			log = append(log, fmt.Sprintf("addnew %s", l))
			t, old, err := m.AddNew(l)
			if err != nil {
				fail("AddNew fails: " + err.Error())
				return
			}
			if old != h1 || old && t.Literal != ids[l] {
				fail("AddNew does not know whether a label is new")
				return
			}
			if !old && !handed(t.Literal, l) {
				return
			}
			ids[l] = t.Literal
		default:
			if rnd.Intn(4) > 0 {
				continue
			}
			log = append(log, fmt.Sprintf("identical %s %s", l, o))
			if _, err := m.MarkIdentical(l, o); err != nil {
				fail("MarkIdentical fails: " + err.Error())
				return
			}
			for _, x := range []impl.Label{l, o} {
				t, ok, err := m.Get(x)
				if err != nil || !ok {
					fail("a label is lost")
					return
				}
				if known, had := ids[x]; had {
					if known != t.Literal {
						fail("a label changes its identifier when it is identical to another one")
						return
					}
				} else {
					ids[x] = t.Literal
					if !handed(t.Literal, x) {
						return
					}
				}
			}
		}
	}
	if rnd.Intn(2) == 0 {
		if err := m.Finalize(); err != nil {
			fail("Finalize fails: " + err.Error())
			return
		}
	}
	for l, id := range ids {
		t, ok, err := m.Get(l)
		back, err2 := m.Reverse(id)
		if err != nil || err2 != nil || !ok || t.Literal != id || back != l {
			fail(fmt.Sprintf("label %s has identifier %v, but it is stored as %v, and belongs to %s", l, id, t, back))
			return
		}
		r.Count("records stored and read", 1)
	}
	for id, l := range given {
		if l != "" {
			continue
		}
		if back, err := m.Reverse(id); err != nil || back != "" {
			fail(fmt.Sprintf("an identifier without label belongs to %q", back))
			return
		}
	}
	r.Eval(fmt.Sprint(log))
}

var errStop = errors.New("stop")

func three(r *hx.R, name string, rnd *rand.Rand, disk bool) {
	var s igraph.ThreeStorage
	var err error
	if disk {
		s, err = igraph.NewDiskHash(filepath.Join(r.Dir(), "three"))
	} else {
		s, err = igraph.MemoryEngine{}.PSOIndex()
	}
	if err != nil {
		r.Inconclusive(name + ": " + err.Error())
		return
	}
	defer s.Close()
	// a few values on each position, so that prefixes are shared
	var pool []uint64
	for i := 0; i < 2+rnd.Intn(12); i++ {
		v := critical(rnd)
		pool = append(pool, v)
		if rnd.Intn(2) == 0 {
			pool = append(pool, (v+1)&maxID, (v+256)&maxID)
		}
	}
	pick := func() uint64 { return pool[rnd.Intn(len(pool))] }
	type pair struct{ a, b uint64 }
	model := map[pair]map[uint64]uint64{}
	var log []string
	fail := func(what string) { r.Violation(name, what, fmt.Sprint(log)) }
	n := rnd.Intn(200)
	total := 0
	for i := 0; i < n; i++ {
		a, b, c, l := pick(), pick(), pick(), critical(rnd)
		log = append(log, fmt.Sprint(a, b, c, l))
		p := pair{a, b}
		if model[p] == nil {
			model[p] = map[uint64]uint64{}
		}
		old, had := model[p][c]
		called, wrong := false, ""
		choice := rnd.Intn(3)
		conflicted, err := s.Add(mk(a), mk(b), mk(c), mk(l), func(o, n impl.ID) (impl.ID, error) {
			called = true
			if o != mk(old) || n != mk(l) {
				wrong = fmt.Sprintf("conflict between %v and %v, instead of %d and %d", o, n, old, l)
			}
			switch choice {
			case 0:
				return o, nil
			case 1:
				return n, nil
			}
			return o, errStop
		})
		if called != had || wrong != "" {
			fail("a conflict is reported wrongly: " + wrong)
			return
		}
		if had && choice == 2 {
			if !errors.Is(err, errStop) {
				fail("an error of a conflict is lost")
				return
			}
			continue
		}
		if err != nil || conflicted != had {
			fail(fmt.Sprintf("Add: %v %v", conflicted, err))
			return
		}
		if !had {
			total++
			model[p][c] = l
		} else if choice == 1 {
			model[p][c] = l
		}
		if rnd.Intn(60) == 0 {
			if err := s.Compact(); err != nil {
				fail("Compact fails: " + err.Error())
				return
			}
		}
	}
	if err := s.Finalize(); err != nil {
		fail("Finalize fails: " + err.Error())
		return
	}
	if c, err := s.Count(); err != nil || c != int64(total) {
		fail(fmt.Sprintf("Count is %d %v instead of %d", c, err, total))
		return
	}
	for i := 0; i < 60; i++ {
		a, b, c := pick(), pick(), pick()
		want, ok := model[pair{a, b}][c]
		id, has, err := s.Has(mk(a), mk(b), mk(c))
		if err != nil || has != ok || ok && num(id) != want {
			fail(fmt.Sprintf("Has(%d %d %d) = %v %v %v instead of %d %v", a, b, c, id, has, err, want, ok))
			return
		}
	}
	for _, a := range pool {
		for _, b := range pool {
			var want, got []string
			var cs []uint64
			for c := range model[pair{a, b}] {
				cs = append(cs, c)
			}
			sort.Slice(cs, func(i, j int) bool { return cs[i] < cs[j] })
			for _, c := range cs {
				want = append(want, fmt.Sprint(c, ":", model[pair{a, b}][c]))
			}
			err := s.Fetch(mk(a), mk(b), func(c, l impl.ID) error {
				got = append(got, fmt.Sprint(num(c), ":", num(l)))
				return nil
			})
			if err != nil || fmt.Sprint(want) != fmt.Sprint(got) {
				fail(fmt.Sprintf("Fetch(%d %d)\nwant %v\ngot  %v %v", a, b, want, got, err))
				return
			}
			r.Count("records stored and read", len(got))
			if len(want) > 1 {
				calls := 0
				if err := s.Fetch(mk(a), mk(b), func(c, l impl.ID) error { calls++; return errStop }); !errors.Is(err, errStop) || calls != 1 {
					fail("Fetch does not stop at an error")
					return
				}
			}
		}
	}
	r.Eval(fmt.Sprint(log))
}

// hash checks key-value storages on disk
func hash(r *hx.R, name string, rnd *rand.Rand) {
	e := sparkl.NewEngine(r.Dir())
	triples, err := e.Triples()
	if err != nil {
		r.Inconclusive(err.Error())
		return
	}
	defer triples.Close()
	inverses, err := e.Inverses()
	if err != nil {
		r.Inconclusive(err.Error())
		return
	}
	defer inverses.Close()
	reverse, err := e.Reverse()
	if err != nil {
		r.Inconclusive(err.Error())
		return
	}
	defer reverse.Close()
	model := map[uint64]igraph.IndexTriple{}
	var log []string
	fail := func(what string) { r.Violation(name, what, fmt.Sprint(log)) }
	tid := func() imap.TripleID { return imap.TripleID{Canonical: mk(critical(rnd)), Literal: mk(critical(rnd))} }
	for i := 0; i < rnd.Intn(150); i++ {
		k := critical(rnd)
		t := igraph.IndexTriple{Role: igraph.Role(rnd.Intn(3)), Items: [3]imap.TripleID{tid(), tid(), tid()}}
		log = append(log, fmt.Sprint(k))
		err := errors.Join(triples.Set(mk(k), t), inverses.Set(mk(k), t.Items[0].Literal), reverse.Set(mk(k), impl.Label(t.Items[0].Literal.String())))
		if err != nil {
			fail("Set fails: " + err.Error())
			return
		}
		model[k] = t
	}
	var want, got []uint64
	for k, t := range model {
		want = append(want, k)
		g, ok, err := triples.Get(mk(k))
		i, err2 := inverses.GetZero(mk(k))
		l, err3 := reverse.GetZero(mk(k))
		if errors.Join(err, err2, err3) != nil || !ok || g != t || i != t.Items[0].Literal || string(l) != t.Items[0].Literal.String() {
			fail(fmt.Sprintf("%d was stored as %v, but %v %v %v is read: %v", k, t, g, i, l, errors.Join(err, err2, err3)))
			return
		}
		r.Count("records stored and read", 3)
	}
	for i := 0; i < 20; i++ {
		k := critical(rnd)
		_, want := model[k]
		_, got, err := triples.Get(mk(k))
		has, err2 := triples.Has(mk(k))
		if err != nil || err2 != nil || got != want || has != want {
			fail(fmt.Sprintf("%d exists: %v %v %v", k, got, err, err2))
			return
		}
	}
	sort.Slice(want, func(i, j int) bool { return want[i] < want[j] })
	err = triples.Iterate(func(id impl.ID, t igraph.IndexTriple) error {
		got = append(got, num(id))
		if model[num(id)] != t {
			fail(fmt.Sprintf("%v is %v instead of %v", id, t, model[num(id)]))
		}
		return nil
	})
	if err != nil || fmt.Sprint(want) != fmt.Sprint(got) {
		fail(fmt.Sprintf("stored identifiers are not in numerical order\nwant %v\ngot  %v %v", want, got, err))
		return
	}
	if c, err := triples.Count(); err != nil || c != uint64(len(want)) {
		fail(fmt.Sprintf("Count is %d %v instead of %d", c, err, len(want)))
		return
	}
	r.Eval(fmt.Sprint(log))
}

// short reads stored records that are too short
func short(r *hx.R, name string, rnd *rand.Rand) {
	e := sparkl.NewEngine(r.Dir())
	id := mk(critical(rnd))
	raw := func(h any) *leveldb.DB {
		switch h := h.(type) {
		case *imap.DiskStorage[impl.ID, igraph.IndexTriple]:
			return h.DB
		case *imap.DiskStorage[impl.ID, impl.ID]:
			return h.DB
		case *imap.DiskStorage[impl.Label, imap.TripleID]:
			return h.DB
		case *igraph.ThreeDiskHash:
			return h.DB
		}
		return nil
	}
	key := impl.EncodeIDs(id)
	reported := func(what string, cut int, f func() error) bool {
		var err error
		if p := panics(func() { err = f() }); p != nil {
			r.Violation(name, "reading a short record crashes: "+what, fmt.Sprintf("%d bytes: %v", cut, p))
			return false
		}
		if err == nil {
			r.Violation(name, "reading a short record is not reported: "+what, fmt.Sprintf("%d bytes", cut))
			return false
		}
		r.Count("short records", 1)
		r.Eval(fmt.Sprint(what, cut, id))
		return true
	}
	damage := func(h any, key, value []byte) bool {
		db := raw(h)
		if db == nil {
			r.Inconclusive(fmt.Sprintf("no access to %T", h))
			return false
		}
		if err := db.Put(key, value, nil); err != nil {
			r.Inconclusive(err.Error())
			return false
		}
		return true
	}
	triples, err := e.Triples()
	if err != nil {
		r.Inconclusive(err.Error())
		return
	}
	defer triples.Close()
	for _, cut := range []int{0, 1, 24, rnd.Intn(25)} {
		if !damage(triples, key, make([]byte, cut)) ||
			!reported("statement", cut, func() error { _, _, err := triples.Get(id); return err }) ||
			!reported("statement", cut, func() error { _, err := triples.GetZero(id); return err }) ||
			!reported("statements", cut, func() error {
				return triples.Iterate(func(impl.ID, igraph.IndexTriple) error { return nil })
			}) {
			return
		}
	}
	inverses, err := e.Inverses()
	if err != nil {
		r.Inconclusive(err.Error())
		return
	}
	defer inverses.Close()
	for cut := 0; cut < 4; cut++ {
		if !damage(inverses, key, make([]byte, cut)) || !reported("inverse", cut, func() error { _, _, err := inverses.Get(id); return err }) {
			return
		}
	}
	if !damage(inverses, key, impl.EncodeIDs(id)) || !damage(inverses, key[:rnd.Intn(4)], impl.EncodeIDs(id)) ||
		!reported("key of inverse", 0, func() error { return inverses.Iterate(func(impl.ID, impl.ID) error { return nil }) }) {
		return
	}
	forward, err := e.Forward()
	if err != nil {
		r.Inconclusive(err.Error())
		return
	}
	defer forward.Close()
	for cut := 0; cut < 8; cut++ {
		if !damage(forward, []byte("label"), make([]byte, cut)) || !reported("label", cut, func() error { _, _, err := forward.Get("label"); return err }) {
			return
		}
	}
	s, err := e.PSOIndex()
	if err != nil {
		r.Inconclusive(err.Error())
		return
	}
	defer s.Close()
	a, b := mk(critical(rnd)), mk(critical(rnd))
	full := impl.EncodeIDs(a, b, id)
	fetch := func() error { return s.Fetch(a, b, func(c, l impl.ID) error { return nil }) }
	for cut := 0; cut < 4; cut++ {
		if !damage(s, full, make([]byte, cut)) ||
			!reported("edge", cut, fetch) ||
			!reported("edge", cut, func() error { _, _, err := s.Has(a, b, id); return err }) ||
			!reported("edge", cut, func() error {
				_, err := s.Add(a, b, id, id, func(o, n impl.ID) (impl.ID, error) { return o, nil })
				return err
			}) {
			return
		}
	}
	if !damage(s, full, impl.EncodeIDs(id)) {
		return
	}
	if err := fetch(); err != nil {
		r.Violation(name, "a valid record cannot be read: "+err.Error(), "")
		return
	}
	for cut := 8; cut < 12; cut++ {
		if !damage(s, full[:cut], impl.EncodeIDs(id)) || !reported("key of edge", cut, fetch) {
			return
		}
	}
}

// graph checks that equal identifiers mean equal statements
func graph(r *hx.R, name string, rnd *rand.Rand) {
	w, n := gq.Generate(rnd, gq.Random(rnd))
	lo := lib.Options{NoMask: true}
	if rnd.Intn(6) == 0 {
		lo.Cache = r.Dir()
	}
	_, index, err := lib.Index(w, lo)
	if err != nil {
		r.Violation(name, "indexing a valid dataset fails: "+err.Error(), lib.Dump(w))
		return
	}
	defer index.Close()
	g := w.Graph()
	seen := map[impl.ID]igraph.Triple{}
	for i := 0; i < 25; i++ {
		paths, err := gq.Run(index, gq.RandomQuery(rnd, g, n))
		if err != nil {
			r.Violation(name, "a query fails: "+err.Error(), lib.Dump(w))
			return
		}
		for _, p := range paths {
			for _, t := range p.Triples {
				if o, ok := seen[t.ID]; ok && o != t {
					r.Violation(name, "two statements have the same identifier", fmt.Sprintf("%+v\n%+v\n%s", o, t, lib.Dump(w)))
					return
				}
				if !t.ID.Valid() {
					r.Violation(name, "a statement has an invalid identifier", fmt.Sprintf("%+v\n%s", t, lib.Dump(w)))
					return
				}
				again, err := index.Triple(t.ID)
				if err != nil || again != t {
					r.Violation(name, "a statement is not found under its identifier", fmt.Sprintf("%+v\n%+v %v\n%s", t, again, err, lib.Dump(w)))
					return
				}
				seen[t.ID] = t
			}
		}
	}
	r.Count("statements identified", len(seen))
	r.Eval(lib.Key(w))
}
