//go:build ci

package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"

	"fyne.io/fyne/v2"
	"fyne.io/fyne/v2/app"
	"fyne.io/fyne/v2/container"
	"fyne.io/fyne/v2/test"
	"fyne.io/fyne/v2/widget"
	"github.com/FAU-CDI/hangover/internal/console"
	"github.com/FAU-CDI/hangover/internal/headache"
	"github.com/FAU-CDI/hangover/internal/verifh/hx"
)

type command struct {
	Name string
	Args []string
}

type result struct {
	OK      bool
	What    string
	Form    map[string]string
	Labels  []string
	Console string
	Windows int
}

// walk calls f for an object and everything in it
func walk(o fyne.CanvasObject, f func(o fyne.CanvasObject, item *widget.FormItem), item *widget.FormItem) {
	if o == nil {
		return
	}
	f(o, item)
	switch o := o.(type) {
	case *fyne.Container:
		for _, c := range o.Objects {
			walk(c, f, item)
		}
	case *container.AppTabs:
		for _, i := range o.Items {
			walk(i.Content, f, item)
		}
	case *container.Scroll:
		walk(o.Content, f, item)
	case *widget.Form:
		for _, i := range o.Items {
			walk(i.Widget, f, i)
		}
	}
}

var window fyne.Window

func all(f func(o fyne.CanvasObject, item *widget.FormItem)) {
	walk(window.Content(), f, nil)
}

// key is the name of a place in the form, found by what is written next to it
func key(o fyne.CanvasObject, item *widget.FormItem) string {
	if item == nil {
		return ""
	}
	hint := strings.ToLower(item.Text + " " + item.HintText)
	if c, ok := o.(*widget.Check); ok {
		hint += " " + strings.ToLower(c.Text)
	}
	for _, k := range [][2]string{{"triplestore data", "nquads"}, {"pathbuilder to load", "pathbuilder"}, {"sameas", "sameas"}, {"inverseof", "inverseof"}, {"public url", "public"}, {"render html", "html"}, {"render images", "images"}, {"tipsy", "tipsy"}, {"address", "addr"}} {
		if strings.Contains(hint, k[0]) {
			return k[1]
		}
	}
	return ""
}

func state() (res result) {
	res.OK = true
	res.Form = map[string]string{}
	all(func(o fyne.CanvasObject, item *widget.FormItem) {
		switch o := o.(type) {
		case *widget.Entry:
			res.Form[key(o, item)] = o.Text
		case *widget.Check:
			res.Form[key(o, item)] = fmt.Sprint(o.Checked)
		case *widget.Label:
			res.Labels = append(res.Labels, o.Text)
		case *widget.TextGrid:
			res.Console = o.Text()
		}
	})
	res.Windows = len(fyne.CurrentApp().Driver().AllWindows())
	return
}

// submit finds the button that submits the form, as it is drawn
func submit() *widget.Button {
	var button *widget.Button
	var find func(o fyne.CanvasObject)
	find = func(o fyne.CanvasObject) {
		switch o := o.(type) {
		case *widget.Button:
			if strings.Contains(strings.ToLower(o.Text), "start") {
				button = o
			}
		case *fyne.Container:
			for _, c := range o.Objects {
				find(c)
			}
		}
	}
	all(func(o fyne.CanvasObject, item *widget.FormItem) {
		if f, ok := o.(*widget.Form); ok {
			for _, c := range test.WidgetRenderer(f).Objects() {
				find(c)
			}
		}
	})
	return button
}

// frontend runs the real frontend, and does what it is told
func frontend() {
	h := headache.New()
	window = fyne.CurrentApp().Driver().AllWindows()[0]
	fyne.CurrentApp().NewWindow("") // the driver can not draw anything without a window
	ready := make(chan struct{})
	go func() {
		h.RunAndWait()
		close(ready)
	}()
	in := bufio.NewReader(os.Stdin)
	out := json.NewEncoder(os.Stdout)
	for found := false; !found; { // drawing before the form is complete would disturb it
		time.Sleep(300 * time.Millisecond)
		all(func(o fyne.CanvasObject, item *widget.FormItem) {
			if _, ok := o.(*widget.Form); ok {
				found = true
			}
		})
	}
	for i := 0; i < 3000 && submit() == nil; i++ {
		time.Sleep(time.Millisecond)
	}
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			os.Exit(0)
		}
		var c command
		json.Unmarshal(line, &c)
		var res result
		switch c.Name {
		case "state":
			res = state()
		case "set":
			all(func(o fyne.CanvasObject, item *widget.FormItem) {
				if key(o, item) != c.Args[0] {
					return
				}
				switch o := o.(type) {
				case *widget.Entry:
					o.SetText(c.Args[1])
					o.Validate()
					res.OK = true
				case *widget.Check:
					if fmt.Sprint(o.Checked) != c.Args[1] {
						test.Tap(o)
					}
					res.OK = true
				}
			})
		case "start":
			b := submit()
			// the toolkit validates in the background, and sometimes misses one of two changes at the same time
			for i := 0; i < 100 && b != nil && b.Disabled() != (c.Args[0] == "invalid"); i++ {
				time.Sleep(20 * time.Millisecond)
				if i%20 == 10 {
					all(func(o fyne.CanvasObject, item *widget.FormItem) {
						if e, ok := o.(*widget.Entry); ok {
							t := e.Text
							e.SetText(t + "?")
							time.Sleep(20 * time.Millisecond)
							e.SetText(t)
							time.Sleep(20 * time.Millisecond)
						}
					})
				}
				if b = submit(); b == nil {
					break
				}
			}
			switch {
			case b == nil:
				res.What = "there is no button"
			case b.Disabled():
				res.What = "the button is disabled"
				test.Tap(b)
			default:
				res.OK = true
				test.Tap(b)
			}
		case "close":
			// the driver does not ask when a window is closed
			f := reflect.ValueOf(window).Elem().FieldByName("onCloseIntercepted")
			closed := *(*func())(unsafe.Pointer(f.UnsafeAddr()))
			if closed == nil {
				res.What = "nothing is done when the window is closed"
				break
			}
			closed()
			res.OK = true
		case "interrupt":
			syscall.Kill(os.Getpid(), syscall.SIGINT)
			res.OK = true
		case "ended":
			left := hx.AwaitNoRepoGoroutines()
			res.OK = len(left) == 0
			res.What = strings.Join(left, "\n\n")
			if res.OK {
				select {
				case <-ready:
				case <-time.After(10 * time.Second):
					res.OK, res.What = false, "the application does not end"
				}
			}
		}
		out.Encode(res)
	}
}

var once sync.Once

// lines monitors the console on its own
func lines(r *hx.R, name string, rnd *rand.Rand) {
	once.Do(func() { app.NewWithID("verif").NewWindow("") })
	n := []int{1, 2, 3, 10, 100}[rnd.Intn(5)]
	c := console.New(n)
	grid := c.CanvasObject().(*container.Scroll).Content.(*widget.TextGrid)
	var ls []string
	var text strings.Builder
	for i := rnd.Intn(3 * n); i >= 0; i-- {
		l := ""
		for j := rnd.Intn(20); j > 0; j-- {
			l += string([]rune("abc ä\U0001F600<&\"")[rnd.Intn(9)])
		}
		l += fmt.Sprint(i)
		ls = append(ls, l)
		text.WriteString(l + []string{"\n", "\r\n"}[rnd.Intn(2)])
	}
	var want []string
	seen := 0
	rest := text.String()
	if rnd.Intn(2) == 0 {
		rest += "not finished"
	}
	for rest != "" {
		if rnd.Intn(20) == 0 {
			n = 1 + rnd.Intn(2*n)
			c.ScrollBack = n
			r.Count("sizes changed", 1)
		}
		k := 1 + rnd.Intn(len(rest))
		if rnd.Intn(2) == 0 {
			k = min(len(rest), 1+rnd.Intn(5))
		}
		if m, err := c.Write([]byte(rest[:k])); m != k || err != nil {
			r.Violation(name, "writing to the console fails", fmt.Sprint(m, k, err))
			return
		}
		for j := strings.Count(rest[:k], "\n"); j > 0; j-- {
			if want = append(want, ls[seen]); len(want) > n {
				want = want[len(want)-n:]
			}
			seen++
		}
		rest = rest[k:]
		if got := grid.Text(); got != strings.Join(want, "\n") {
			r.Violation(name, "the console shows something else than the last lines", fmt.Sprintf("%d lines kept\n%q\n%q", n, got, want))
			return
		}
	}
	r.Count("lines of the console", len(ls))
	r.Eval(fmt.Sprint(n, text.String()))
}
