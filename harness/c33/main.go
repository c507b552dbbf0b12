// Command c33 monitors the counting readers and writers, and what a terminal shows of their progress.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"strings"
	"time"

	"github.com/FAU-CDI/hangover/internal/verifh/hx"
	"github.com/FAU-CDI/hangover/pkg/progress"
	"github.com/dustin/go-humanize"
)

func main() {
	hx.Main("C33", func(r *hx.R) {
		r.Rule("each evaluation is one history of operations; every call is compared with the same call on what is wrapped, and everything written for the terminal goes through an emulation of a terminal line; distinct by history")
		r.Assume("the content of progress lines is printable ascii, and the terminal is wide enough; one goroutine at a time")
		r.Cases("reader", r.Pick(1500, 40000), func(name string, rnd *rand.Rand) { reader(r, name, rnd) })
		r.Cases("writer", r.Pick(1500, 40000), func(name string, rnd *rand.Rand) { writer(r, name, rnd) })
		r.Cases("line", r.Pick(3000, 80000), func(name string, rnd *rand.Rand) { lines(r, name, rnd) })
		r.Cases("interval", r.Pick(60, 400), func(name string, rnd *rand.Rand) { interval(r, name, rnd) })
		r.Cases("count", r.Pick(3000, 80000), func(name string, rnd *rand.Rand) { count(r, name, rnd) })
		r.Require("reads", 10000)
		r.Require("failed reads", 500)
		r.Require("writes", 10000)
		r.Require("short or failed writes", 500)
		r.Require("lines shown", 20000)
		r.Require("shorter than before", 2000)
		r.Require("lines closed", 2000)
		r.Require("updates that wait", 1000)
		r.Require("updates that are due", 200)
		r.Require("counts", 20000)
	})
}

// terminal emulates the line of a terminal
type terminal struct {
	row    []byte
	col    int
	bad    string
	writes int
	times  []time.Time
	err    error
}

func (t *terminal) Write(b []byte) (int, error) {
	t.writes++
	t.times = append(t.times, time.Now())
	for _, c := range b {
		switch {
		case c == '\r':
			t.col = 0
		case c < 0x20 || c > 0x7e:
			t.bad = fmt.Sprintf("wrote %q", b)
		default:
			for len(t.row) <= t.col {
				t.row = append(t.row, ' ')
			}
			t.row[t.col] = c
			t.col++
		}
	}
	if t.err != nil {
		return 0, t.err
	}
	return len(b), nil
}

func (t *terminal) text() string { return strings.TrimRight(string(t.row), " ") }

var errIO = errors.New("injected error")

type history struct {
	r    *hx.R
	name string
	log  []string
	bad  bool
}

func (h *history) step(format string, args ...any) {
	h.log = append(h.log, fmt.Sprintf(format, args...))
}
func (h *history) violation(sig, format string, args ...any) {
	if !h.bad {
		h.bad = true
		h.r.Violation(h.name, sig, fmt.Sprintf(format, args...)+"\nhistory:\n"+hx.Trunc(strings.Join(h.log, "\n"), 8000))
	}
}

func (h *history) shows(t *terminal, want string) {
	h.r.Count("lines shown", 1)
	if t.bad != "" {
		h.violation("unprintable output", "%s", t.bad)
	}
	if got := t.text(); got != strings.TrimRight(want, " ") {
		h.violation("the line on the terminal is wrong", "it shows %q instead of %q", got, want)
	}
}

func pickInterval(rnd *rand.Rand) time.Duration {
	return []time.Duration{0, time.Nanosecond, time.Microsecond, progress.DefaultFlushInterval, time.Hour}[rnd.Intn(5)]
}

// ---- readers ----

// script is what a wrapped reader does
type script struct {
	data  []byte
	plan  []int // bytes of each read
	eofAt bool  // error together with the last data
	err   error
	i     int
}

func (s *script) Read(b []byte) (int, error) {
	n := len(b)
	if s.i < len(s.plan) {
		n = min(n, s.plan[s.i])
	}
	s.i++
	n = copy(b[:n], s.data)
	s.data = s.data[n:]
	if len(s.data) == 0 && (n == 0 || s.eofAt) {
		return n, s.err
	}
	return n, nil
}

func reader(r *hx.R, name string, rnd *rand.Rand) {
	h := &history{r: r, name: name}
	data := make([]byte, []int{0, 1, 10, 1000, 5000, 200000}[rnd.Intn(6)])
	rnd.Read(data)
	var plan []int
	for i := 0; i < 40; i++ {
		plan = append(plan, []int{0, 1, 3, 100, 1 << 20}[rnd.Intn(5)])
	}
	err := []error{io.EOF, io.EOF, errIO, io.ErrUnexpectedEOF}[rnd.Intn(4)]
	eofAt := rnd.Intn(2) == 0
	plain := &script{data: data, plan: plan, eofAt: eofAt, err: err}
	t := &terminal{}
	if rnd.Intn(4) == 0 {
		t.err = errIO // the progress can not be shown
	}
	c := &progress.Reader{Reader: &script{data: data, plan: plan, eofAt: eofAt, err: err}, Rewritable: progress.Rewritable{Writer: t, FlushInterval: pickInterval(rnd)}}
	total := 0
	for i := 0; i < 40; i++ {
		n := []int{0, 1, 7, 512, 4096, 100000}[rnd.Intn(6)]
		a, b := make([]byte, n), make([]byte, n)
		for j := range a {
			a[j] = byte(i)
			b[j] = byte(i)
		}
		na, ea := plain.Read(a)
		nb, eb := c.Read(b)
		total += na
		h.step("Read(%d) = %d, %v", n, nb, eb)
		r.Count("reads", 1)
		if ea != nil {
			r.Count("failed reads", 1)
		}
		if na != nb || ea != eb || !bytes.Equal(a, b) {
			h.violation("a counting reader is not transparent", "%d, %v instead of %d, %v (same data: %v)", nb, eb, na, ea, bytes.Equal(a, b))
		}
		if c.Bytes != int64(total) {
			h.violation("a counting reader counts wrong", "%d instead of %d", c.Bytes, total)
		}
		if rnd.Intn(8) == 0 {
			c.Flush(true)
			h.shows(t, "Read "+humanize.Bytes(uint64(total)))
		}
	}
	r.Eval(strings.Join(h.log, "\n"))
}

// ---- writers ----

type sink struct {
	got   []byte
	limit int // fails when there is more
	short bool
}

func (s *sink) Write(b []byte) (int, error) {
	n := min(len(b), s.limit-len(s.got))
	s.got = append(s.got, b[:n]...)
	if n < len(b) {
		if s.short {
			return n, io.ErrShortWrite
		}
		return n, errIO
	}
	return n, nil
}

func writer(r *hx.R, name string, rnd *rand.Rand) {
	h := &history{r: r, name: name}
	limit := []int{0, 10, 1000, 20000, 1 << 30, 1 << 30, 1 << 30}[rnd.Intn(7)]
	short := rnd.Intn(2) == 0
	plain, under := &sink{limit: limit, short: short}, &sink{limit: limit, short: short}
	t := &terminal{}
	if rnd.Intn(4) == 0 {
		t.err = errIO
	}
	c := &progress.Writer{Writer: under, Rewritable: progress.Rewritable{Writer: t, FlushInterval: pickInterval(rnd)}}
	total := 0
	for i := 0; i < 30; i++ {
		b := make([]byte, []int{0, 1, 7, 512, 4096, 30000}[rnd.Intn(6)])
		rnd.Read(b)
		keep := append([]byte(nil), b...)
		na, ea := plain.Write(b)
		nb, eb := c.Write(b)
		total += na
		h.step("Write(%d) = %d, %v", len(b), nb, eb)
		r.Count("writes", 1)
		if ea != nil {
			r.Count("short or failed writes", 1)
		}
		if na != nb || ea != eb || !bytes.Equal(plain.got, under.got) || !bytes.Equal(b, keep) {
			h.violation("a counting writer is not transparent", "%d, %v instead of %d, %v (same data: %v)", nb, eb, na, ea, bytes.Equal(plain.got, under.got))
		}
		if c.Bytes != int64(total) {
			h.violation("a counting writer counts wrong", "%d instead of %d", c.Bytes, total)
		}
		if rnd.Intn(8) == 0 {
			c.Flush(true)
			h.shows(t, "Wrote "+humanize.Bytes(uint64(total)))
		}
	}
	r.Eval(strings.Join(h.log, "\n"))
}

// ---- lines ----

func content(rnd *rand.Rand) string {
	b := make([]byte, []int{0, 1, 5, 20, 60, rnd.Intn(100)}[rnd.Intn(6)])
	for i := range b {
		b[i] = byte(0x21 + rnd.Intn(0x7e-0x21))
	}
	return string(b)
}

func lines(r *hx.R, name string, rnd *rand.Rand) {
	h := &history{r: r, name: name}
	t := &terminal{}
	rw := &progress.Rewritable{Writer: t, FlushInterval: []time.Duration{0, time.Hour}[rnd.Intn(2)]}
	hour := rw.FlushInterval == time.Hour
	last, shown, first := "", "", true
	for i := 0; i < 30; i++ {
		switch rnd.Intn(8) {
		case 0, 1, 2, 3:
			s := content(rnd)
			h.step("Write(%q)", s)
			if len(s) < len(last) {
				r.Count("shorter than before", 1)
			}
			n := t.writes
			rw.Write(s)
			last = s
			switch {
			case first:
				first = false
				shown = s
				h.shows(t, shown)
			case hour:
				r.Count("updates that wait", 1)
				if t.writes != n {
					h.violation("updates come too often", "%d updates within an hour", t.writes)
				}
				h.shows(t, shown)
			default:
				// the clock may not have moved on since
				if t.writes != n {
					shown = s
				}
				h.shows(t, shown)
			}
		case 4:
			h.step("Flush(false)")
			n := t.writes
			rw.Flush(false)
			if first {
				shown, first = last, false
			} else if t.writes != n {
				if hour {
					h.violation("updates come too often", "%d updates within an hour", t.writes)
				}
				shown = last
			}
			h.shows(t, shown)
		case 5, 6:
			h.step("Flush(true)")
			rw.Flush(true)
			shown, first = last, false
			h.shows(t, shown)
		case 7:
			h.step("Close()")
			rw.Close()
			r.Count("lines closed", 1)
			last, shown, first = "", "", false
			h.shows(t, "")
			if t.col != 0 {
				h.violation("a closed line does not end at its start", "column %d", t.col)
			}
		}
	}
	r.Eval(strings.Join(h.log, "\n"))
}

// interval checks the time between updates
func interval(r *hx.R, name string, rnd *rand.Rand) {
	h := &history{r: r, name: name}
	t := &terminal{}
	d := time.Duration(1+rnd.Intn(4)) * time.Millisecond
	rw := &progress.Rewritable{Writer: t, FlushInterval: d}
	last := time.Time{} // when the last update was complete
	for i := 0; i < 150; i++ {
		if rnd.Intn(10) == 0 {
			time.Sleep(time.Duration(rnd.Intn(int(2 * d))))
		} else {
			time.Sleep(time.Duration(rnd.Intn(int(d / 10))))
		}
		s := content(rnd)
		n := t.writes
		due := i == 0 || time.Since(last) > d
		rw.Write(s)
		after := time.Now()
		if due {
			r.Count("updates that are due", 1)
			if t.writes == n {
				h.violation("an update that is due is not shown", "%v after the last one, the interval is %v", time.Since(last), d)
			}
		} else if t.writes == n {
			r.Count("updates that wait", 1)
		}
		if t.writes != n {
			if k := len(t.times); k > 1 && t.times[k-1].Sub(t.times[k-2]) < d {
				h.violation("updates come too often", "%v after the last one, the interval is %v", t.times[k-1].Sub(t.times[k-2]), d)
			}
			h.shows(t, s)
			last = after
		}
	}
	r.Eval(fmt.Sprint(name, d, t.writes))
}

// ---- counts ----

func count(r *hx.R, name string, rnd *rand.Rand) {
	h := &history{r: r, name: name}
	t := &terminal{}
	p := &progress.Progress{Rewritable: progress.Rewritable{Writer: t, FlushInterval: time.Hour}}
	number := func() int {
		switch rnd.Intn(4) {
		case 0:
			return rnd.Intn(12)
		case 1:
			return rnd.Intn(2000)
		case 2:
			return []int{0, 1, 9, 10, 11, 99, 100, 101, 999, 1000, 1 << 40}[rnd.Intn(11)]
		}
		return rnd.Intn(1 << 30)
	}
	for i := 0; i < 12; i++ {
		c, total := number(), number()
		if rnd.Intn(4) == 0 {
			total = c + rnd.Intn(3) - 1
		}
		if total < 0 {
			total = 0
		}
		prefix := content(rnd)
		h.step("Set(%q, %d, %d)", prefix, c, total)
		p.Set(prefix, c, total)
		p.Flush(true)
		r.Count("counts", 1)
		if t.bad != "" {
			h.violation("unprintable output", "%s", t.bad)
		}
		got := t.text()
		rest, ok := strings.CutPrefix(got, prefix+":")
		fs := strings.ReplaceAll(rest, " ", "")
		want := fmt.Sprint(c)
		if c < total {
			want += fmt.Sprint("/", total)
		}
		if !ok || fs != want {
			h.violation("a count is shown wrong", "it shows %q", got)
		}
	}
	r.Eval(strings.Join(h.log, "\n"))
}
