// Command c10 monitors streamed encoding of values.
package main

import (
	"bytes"
	"encoding/gob"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"testing/iotest"
	"time"

	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/verifh/hx"
	"github.com/FAU-CDI/hangover/pkg/sgob"
)

func main() {
	gob.Register(Leaf{})
	gob.Register("")
	gob.Register(0)
	hx.Main("C10", func(r *hx.R) {
		r.Rule("each evaluation is a stream of random values of random types (nested maps and slices of numbers, texts, structures, arrays, times, identifiers, pointers and interfaces), encoded and decoded through readers of different kinds, cut at many points, and written to writers that fail at many points; distinct by type and encoded form; non-trivial: at least one value that is not empty")
		r.Assume("an empty slice or map and a missing one count as equal, as they do for gob")
		r.Cases("stream", r.Pick(9000, 100000), func(name string, rnd *rand.Rand) { stream(r, name, rnd) })
		r.Cases("large", r.Pick(40, 400), func(name string, rnd *rand.Rand) { large(r, name, rnd) })
		r.Cases("unencodable", r.Pick(400, 4000), func(name string, rnd *rand.Rand) { unencodable(r, name, rnd) })
		r.Cases("mismatch", r.Pick(400, 4000), func(name string, rnd *rand.Rand) { mismatch(r, name, rnd) })
		r.Require("values", 5000)
		r.Require("cut streams", 20000)
		r.Require("failing writers", 20000)
		r.Require("values that cannot be encoded", 300)
		r.Require("nested values", 2000)
		r.Require("values with more than 1024 elements", 20)
	})
}

// Leaf is an element
type Leaf struct {
	A string
	B int64
	C []string
	D map[string][]int
	E float64
	F bool
	G *Sub
}

// Sub is part of a leaf
type Sub struct {
	X []byte
	Y [3]uint16
	Z map[int]string
}

// Names is a named type
type Names []string

// Table is a named type
type Table map[string]Names

var (
	tLeaf = reflect.TypeOf(Leaf{})
	tSub  = reflect.TypeOf(Sub{})
	tID   = reflect.TypeOf(impl.ID{})
	tTime = reflect.TypeOf(time.Time{})
	tAny  = reflect.TypeOf((*any)(nil)).Elem()
)

var basics = []reflect.Type{
	reflect.TypeOf(""), reflect.TypeOf(false), reflect.TypeOf(0), reflect.TypeOf(int8(0)), reflect.TypeOf(int64(0)),
	reflect.TypeOf(uint8(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(0.0), reflect.TypeOf(float32(0)),
	reflect.TypeOf(complex128(0)), reflect.TypeOf(impl.Label("")),
}

// element returns the type of something that is not streamed
func element(rnd *rand.Rand) reflect.Type {
	switch rnd.Intn(9) {
	case 0:
		return tLeaf
	case 1:
		return tSub
	case 2:
		return tID
	case 3:
		return tTime
	case 4:
		return reflect.PointerTo(tLeaf)
	case 5:
		return reflect.ArrayOf(1+rnd.Intn(3), basics[rnd.Intn(len(basics))])
	case 6:
		return tAny
	default:
		return basics[rnd.Intn(len(basics))]
	}
}

func key(rnd *rand.Rand) reflect.Type {
	switch rnd.Intn(6) {
	case 0:
		return tID
	case 1:
		return reflect.ArrayOf(2, reflect.TypeOf(""))
	case 2:
		return reflect.TypeOf(0)
	case 3:
		return reflect.TypeOf(uint64(0))
	}
	return reflect.TypeOf("")
}

func typ(rnd *rand.Rand, depth int) reflect.Type {
	if depth <= 0 || rnd.Intn(7) == 0 {
		return element(rnd)
	}
	switch rnd.Intn(6) {
	case 0:
		return reflect.TypeOf(Names{})
	case 1:
		return reflect.TypeOf(Table{})
	case 2, 3:
		return reflect.SliceOf(typ(rnd, depth-1))
	default:
		return reflect.MapOf(key(rnd), typ(rnd, depth-1))
	}
}

func text(rnd *rand.Rand) string {
	return []string{"", "a", "\x00", "ä€😀", "x\xffy", strings.Repeat("long", 50), fmt.Sprint(rnd.Intn(1000))}[rnd.Intn(7)]
}

func fill(rnd *rand.Rand, v reflect.Value, n int) {
	t := v.Type()
	switch {
	case t == tID:
		var id impl.ID
		id.Decode([]byte{byte(rnd.Intn(3)), byte(rnd.Intn(256)), 0, byte(rnd.Intn(3))})
		v.Set(reflect.ValueOf(id))
		return
	case t == tTime:
		v.Set(reflect.ValueOf(time.Unix(rnd.Int63n(1<<33), rnd.Int63n(1e9)).UTC()))
		return
	case t == tAny:
		switch rnd.Intn(4) {
		case 0:
			v.Set(reflect.ValueOf(text(rnd)))
		case 1:
			v.Set(reflect.ValueOf(rnd.Intn(1000)))
		case 2:
			l := reflect.New(tLeaf).Elem()
			fill(rnd, l, n)
			v.Set(l)
		}
		return
	}
	switch t.Kind() {
	case reflect.String:
		v.SetString(text(rnd))
	case reflect.Bool:
		v.SetBool(rnd.Intn(2) == 0)
	case reflect.Int, reflect.Int8, reflect.Int64:
		x := []int64{0, 1, -1, math.MaxInt64, math.MinInt64, rnd.Int63()}[rnd.Intn(6)]
		if t.Kind() == reflect.Int8 {
			x = int64(int8(x))
		}
		v.SetInt(x)
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		x := []uint64{0, 1, 127, 128, math.MaxUint64, rnd.Uint64()}[rnd.Intn(6)]
		v.SetUint(x & (1<<(uint(t.Bits())-1)<<1 - 1))
	case reflect.Float32, reflect.Float64:
		v.SetFloat([]float64{0, 1.5, math.Inf(-1), -2, 1e10, 0.25}[rnd.Intn(6)])
	case reflect.Complex128:
		v.SetComplex(complex(float64(rnd.Intn(3)), float64(rnd.Intn(3))))
	case reflect.Pointer:
		v.Set(reflect.New(t.Elem()))
		fill(rnd, v.Elem(), n)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			fill(rnd, v.Field(i), min(n, 3))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			fill(rnd, v.Index(i), n)
		}
	case reflect.Slice:
		if rnd.Intn(12) == 0 {
			return // nil
		}
		k := rnd.Intn(n + 1)
		v.Set(reflect.MakeSlice(t, k, k))
		for i := 0; i < k; i++ {
			fill(rnd, v.Index(i), n-1)
		}
	case reflect.Map:
		if rnd.Intn(12) == 0 {
			return
		}
		v.Set(reflect.MakeMap(t))
		for i := rnd.Intn(n + 1); i > 0; i-- {
			k, e := reflect.New(t.Key()).Elem(), reflect.New(t.Elem()).Elem()
			fill(rnd, k, 2)
			fill(rnd, e, n-1)
			v.SetMapIndex(k, e)
		}
	default:
		panic(t.String())
	}
}

// dump renders a value completely; empty and missing containers are the same
func dump(v reflect.Value) string {
	switch v.Kind() {
	case reflect.Invalid:
		return "nil"
	case reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return v.Elem().Type().String() + ":" + dump(v.Elem())
	case reflect.Pointer:
		if v.IsNil() {
			return "nil"
		}
		return "&" + dump(v.Elem())
	case reflect.Slice, reflect.Array:
		var s []string
		for i := 0; i < v.Len(); i++ {
			s = append(s, dump(v.Index(i)))
		}
		return "[" + strings.Join(s, ", ") + "]"
	case reflect.Map:
		var s []string
		it := v.MapRange()
		for it.Next() {
			s = append(s, dump(it.Key())+"="+dump(it.Value()))
		}
		sort.Strings(s)
		return "{" + strings.Join(s, ", ") + "}"
	case reflect.Struct:
		if v.Type() == tTime {
			return v.Interface().(time.Time).Format(time.RFC3339Nano)
		}
		if v.Type() == tID {
			return v.Interface().(impl.ID).String()
		}
		var s []string
		for i := 0; i < v.NumField(); i++ {
			s = append(s, dump(v.Field(i)))
		}
		return "<" + strings.Join(s, ", ") + ">"
	case reflect.String:
		return fmt.Sprintf("%q", v.String())
	}
	return fmt.Sprintf("%v", v.Interface())
}

// noByteReader hides that a reader can read single bytes, as files and archives do
type noByteReader struct{ io.Reader }

func try(f func() error) (err error, panicked any) {
	defer func() { panicked = recover() }()
	return f(), nil
}

func stream(r *hx.R, name string, rnd *rand.Rand) {
	var types []reflect.Type
	var values []reflect.Value
	var texts []string
	for i := 0; i < 1+rnd.Intn(4); i++ {
		t := typ(rnd, rnd.Intn(4))
		if t == tAny || t.Kind() == reflect.Pointer {
			t = tLeaf
		}
		v := reflect.New(t).Elem()
		fill(rnd, v, 1+rnd.Intn(6))
		types, values, texts = append(types, t), append(values, v), append(texts, dump(v))
		if k := t.Kind(); k == reflect.Slice || k == reflect.Map {
			if k := t.Elem().Kind(); k == reflect.Slice || k == reflect.Map {
				r.Count("nested values", 1)
			}
		}
	}
	detail := fmt.Sprintf("%v\n%s", types, strings.Join(texts, "\n"))
	check(r, name, rnd, types, values, texts, detail, 12)
}

func encode(w io.Writer, values []reflect.Value) error {
	enc := gob.NewEncoder(w)
	for _, v := range values {
		if err := sgob.Encode(enc, v.Interface()); err != nil {
			return err
		}
	}
	return nil
}

// decode decodes as many values as there are, and returns them
func decode(rd io.Reader, types []reflect.Type, texts []string, dirty func(v reflect.Value)) (n int, diff string, err error) {
	dec := gob.NewDecoder(rd)
	for i, t := range types {
		v := reflect.New(t)
		if k := t.Kind(); dirty != nil && (k == reflect.Slice || k == reflect.Map) {
			dirty(v.Elem())
		}
		if err := sgob.Decode(dec, v.Interface()); err != nil {
			return i, "", err
		}
		if got := dump(v.Elem()); got != texts[i] {
			return i, fmt.Sprintf("value %d of type %v\n%s", i, t, hx.DiffText(texts[i], got)), nil
		}
	}
	return len(types), "", nil
}

type failingWriter struct {
	n   int
	err error
}

func (w *failingWriter) Write(p []byte) (int, error) {
	if len(p) > w.n {
		n := w.n
		w.n = 0
		return n, w.err
	}
	w.n -= len(p)
	return len(p), nil
}

func check(r *hx.R, name string, rnd *rand.Rand, types []reflect.Type, values []reflect.Value, texts []string, detail string, cuts int) bool {
	r.Count("values", len(values))
	var buf bytes.Buffer
	err, p := try(func() error { return encode(&buf, values) })
	if err != nil || p != nil {
		r.Violation(name, "encoding fails", fmt.Sprintf("%v %v\n%s", err, p, hx.Trunc(detail, 3000)))
		return false
	}
	for i, v := range values {
		if dump(v) != texts[i] {
			r.Violation(name, "encoding changes the value", hx.Trunc(detail, 3000))
			return false
		}
	}
	data := buf.Bytes()
	r.Eval(fmt.Sprint(types) + string(data[:min(len(data), 2000)]))
	var dirty func(reflect.Value)
	if rnd.Intn(2) == 0 {
		dirty = func(v reflect.Value) { fill(rnd, v, 3) }
	}
	garbage := []byte("garbage after the values, which is not to be read")
	rest := bytes.NewBuffer(append(append([]byte{}, data...), garbage...))
	for i, rd := range []io.Reader{rest, noByteReader{bytes.NewReader(data)}, iotest.OneByteReader(bytes.NewReader(data)), iotest.DataErrReader(bytes.NewReader(data))} {
		var diff string
		err, p := try(func() (err error) { _, diff, err = decode(rd, types, texts, dirty); return })
		if err != nil || p != nil {
			r.Violation(name, "decoding fails", fmt.Sprintf("reader %d: %v %v\n%s", i, err, p, hx.Trunc(detail, 3000)))
			return false
		}
		if diff != "" {
			r.Violation(name, "decoding gives another value", fmt.Sprintf("reader %d: %s\n%s", i, diff, hx.Trunc(detail, 3000)))
			return false
		}
	}
	if !bytes.Equal(rest.Bytes(), garbage) {
		r.Violation(name, "decoding reads beyond the value", fmt.Sprintf("%d bytes left instead of %d\n%s", rest.Len(), len(garbage), hx.Trunc(detail, 3000)))
		return false
	}
	for k := 0; k < cuts && len(data) > 0; k++ {
		cut := rnd.Intn(len(data))
		if k == 0 {
			cut = len(data) - 1
		}
		var n int
		var diff string
		err, p := try(func() (err error) { n, diff, err = decode(bytes.NewReader(data[:cut]), types, texts, nil); return })
		if p != nil || err == nil || diff != "" {
			r.Violation(name, "decoding a cut stream gives a value", fmt.Sprintf("cut at %d of %d: %d values, %v %v\n%s\n%s", cut, len(data), n, err, p, diff, hx.Trunc(detail, 3000)))
			return false
		}
		r.Count("cut streams", 1)
		fw := &failingWriter{n: rnd.Intn(len(data)), err: errInjected}
		at := fw.n
		err, p = try(func() error { return encode(fw, values) })
		if p != nil || err == nil {
			r.Violation(name, "a failing write is not reported", fmt.Sprintf("fails after %d of %d bytes: %v %v\n%s", at, len(data), err, p, hx.Trunc(detail, 3000)))
			return false
		}
		r.Count("failing writers", 1)
	}
	return true
}

var errInjected = errors.New("injected")

// large encodes values with many elements
func large(r *hx.R, name string, rnd *rand.Rand) {
	n := []int{1023, 1024, 1025, 2048, 5000, 20000}[rnd.Intn(6)]
	var v any
	switch rnd.Intn(4) {
	case 0:
		s := make([]int, n)
		for i := range s {
			s[i] = rnd.Int()
		}
		v = s
	case 1:
		m := make(map[string]int, n)
		for i := 0; i < n; i++ {
			m[fmt.Sprint("k", i)] = rnd.Int()
		}
		v = m
	case 2:
		s := make([][]string, n)
		for i := range s {
			s[i] = []string{text(rnd)}
		}
		v = map[int][][]string{1: s, 2: nil, 3: s[:7]}
	case 3:
		m := map[string][]Leaf{}
		for i := 0; i < n; i++ {
			k := fmt.Sprint(i % 3)
			m[k] = append(m[k], Leaf{A: fmt.Sprint(i), C: []string{text(rnd)}})
		}
		v = m
	}
	if n > 1024 {
		r.Count("values with more than 1024 elements", 1)
	}
	val := reflect.ValueOf(v)
	tail := reflect.ValueOf([]string{"tail"})
	check(r, name, rnd, []reflect.Type{val.Type(), tail.Type()}, []reflect.Value{val, tail}, []string{dump(val), dump(tail)}, fmt.Sprintf("%v with %d elements", val.Type(), n), 2)
}

type hidden struct{ a int }

// unencodable encodes values that cannot be encoded, somewhere deep inside
func unencodable(r *hx.R, name string, rnd *rand.Rand) {
	bad := []any{make(chan int), func() {}, hidden{1}, (*Leaf)(nil), (*int)(nil), struct{ C any }{hidden{2}}}[rnd.Intn(6)]
	v := reflect.ValueOf(bad)
	depth := rnd.Intn(4)
	for i := 0; i < depth; i++ {
		if rnd.Intn(2) == 0 {
			s := reflect.MakeSlice(reflect.SliceOf(v.Type()), 0, 3)
			for k := 0; k < 1+rnd.Intn(3); k++ {
				s = reflect.Append(s, v)
			}
			v = s
		} else {
			m := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(""), v.Type()))
			m.SetMapIndex(reflect.ValueOf("k"), v)
			v = m
		}
	}
	val := v.Interface()
	if rnd.Intn(20) == 0 {
		val = nil
	}
	err, p := try(func() error { return sgob.Encode(gob.NewEncoder(io.Discard), val) })
	if p != nil || err == nil {
		r.Violation(name, "encoding something that cannot be encoded is not reported", fmt.Sprintf("%T: %v %v", val, err, p))
		return
	}
	r.Count("values that cannot be encoded", 1)
	r.Eval(fmt.Sprintf("%T %d", val, rnd.Intn(1000)))
}

// mismatch decodes into something that may not fit, which never crashes
func mismatch(r *hx.R, name string, rnd *rand.Rand) {
	var buf bytes.Buffer
	enc := gob.NewEncoder(&buf)
	values := []any{[]string{"a", "b"}, map[string]int{"a": 1}, "text", [][]int{{1}, {2, 3}}, map[int][]string{1: {"x"}}, Leaf{A: "a", C: []string{"x"}}}
	i, k := rnd.Intn(len(values)), rnd.Intn(len(values))
	if err := sgob.Encode(enc, values[i]); err != nil {
		r.Violation(name, "encoding fails: "+err.Error(), fmt.Sprintf("%#v", values[i]))
		return
	}
	dest := reflect.New(reflect.TypeOf(values[k]))
	err, p := try(func() error { return sgob.Decode(gob.NewDecoder(bytes.NewReader(buf.Bytes())), dest.Interface()) })
	if p != nil {
		r.Violation(name, "decoding into another type crashes", fmt.Sprintf("%#v into %v: %v", values[i], dest.Type(), p))
		return
	}
	if i == k && err != nil {
		r.Violation(name, "decoding into the same type fails", fmt.Sprintf("%#v into %v: %v %v", values[i], dest.Type(), err, dest.Elem()))
		return
	}
	// destinations that are no pointers
	err, p = try(func() error { return sgob.Decode(gob.NewDecoder(bytes.NewReader(buf.Bytes())), values[k]) })
	if p != nil || err == nil {
		r.Violation(name, "decoding into something that is no pointer is not reported", fmt.Sprintf("%#v: %v %v", values[i], err, p))
		return
	}
	r.Eval(fmt.Sprint(i, k))
}
