// Command c15 monitors the pages of bundles.
package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"net/url"
	"regexp"
	"strconv"
	"strings"

	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/verifh/hx"
	"github.com/FAU-CDI/hangover/internal/verifh/lib"
	"github.com/FAU-CDI/hangover/internal/verifh/world"
	"github.com/FAU-CDI/hangover/internal/viewer"
	"github.com/FAU-CDI/hangover/internal/wisski"
)

func main() {
	hx.Main("C15", func(r *hx.R) {
		r.Rule("each evaluation is one walk through, or one request for a part of, a bundle of a made dataset; entities listed (in order), range, total and links are compared with the section of the bundle that was asked for, and links are followed; distinct by size of the bundle, page size, offset and answer")
		r.Assume("ids of top-level groups contain no slash, question mark, hash sign or percent sign and are not . or ..")
		r.Cases("walk", r.Pick(120, 2500), func(name string, rnd *rand.Rand) { walk(r, rnd) })
		r.Cases("section", r.Pick(150, 3000), func(name string, rnd *rand.Rand) { sections(r, rnd) })
		r.Cases("small", 1, func(name string, rnd *rand.Rand) { small(r, rnd) })
		r.Require("pages", 5000)
		r.Require("links followed", 5000)
		r.Require("complete walks", 100)
		r.Require("malformed requests", 500)
		r.Require("requests beyond the end", 300)
	})
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

var machines = []string{"thing", "bfeca1", "a b", "ding-ä", "x+y", "a&b=c", `q"u'o`, "a<b>", "a;b,c", "日本"}
var prefixes = []string{"http://example.org/e/", "http://example.org/e?id=", "http://example.org/ü#", "urn:x:%20+", "http://example.org/a&b=", "http://example.org/<x>\"'"}

type bundle struct {
	r       *hx.R
	site    *lib.Site
	machine string
	uris    []string
	index   map[string]int
}

func make_(r *hx.R, rnd *rand.Rand, n int) *bundle {
	b := &bundle{r: r, machine: machines[0], index: map[string]int{}}
	prefix := prefixes[0]
	if rnd.Intn(2) == 0 {
		b.machine = machines[rnd.Intn(len(machines))]
		prefix = prefixes[rnd.Intn(len(prefixes))]
	}
	var es []wisski.Entity
	for i, x := range rnd.Perm(n) {
		uri := prefix + strconv.Itoa(x)
		b.uris = append(b.uris, uri)
		b.index[uri] = i
		es = append(es, wisski.Entity{URI: impl.Label(uri), Path: []impl.Label{impl.Label(uri)}})
	}
	other := []wisski.Entity{{URI: "http://example.org/other"}}
	pb, err := lib.PBOf(&world.Bundle{ID: b.machine, BundleID: "b1", Name: "The bundle", Path: []string{"http://c/C"}}, &world.Bundle{ID: "other", BundleID: "b2", Name: "Other", Path: []string{"http://c/O"}})
	must(err)
	c, err := lib.NewCache(map[string][]wisski.Entity{b.machine: es, "other": other}, nil)
	must(err)
	b.site = lib.NewSite(c, pb, viewer.RenderFlags{})
	// the api lists the bundle in the same order
	p := b.site.Get("/api/v1/bundle/" + url.PathEscape(b.machine))
	got := []string{}
	if p.Status != 200 || json.Unmarshal([]byte(p.Body), &got) != nil || strings.Join(got, "\n") != strings.Join(b.uris, "\n") {
		r.Violation("page", "api lists other entities", fmt.Sprintf("status %d, %d entities instead of %d, %s", p.Status, len(got), len(b.uris), p.Panic))
	}
	return b
}

func (b *bundle) bad(what string, args ...any) {
	b.r.Violation("page", what, fmt.Sprintf("bundle %q with %d entities: ", b.machine, len(b.uris))+fmt.Sprintf(args[0].(string), args[1:]...))
}

var number = regexp.MustCompile(`\d+`)

// page is what a page says
type page struct {
	*lib.Page
	items             []string
	from, to, total   int
	first, prev, next string // targets
	last              string
}

// read reads a page and checks that it agrees with itself and with the bundle. nil if there was no page.
func (b *bundle) read(target string) *page {
	p := &page{Page: b.site.Get(target)}
	b.r.Count("pages", 1)
	if bad := p.Bad(); bad != "" {
		b.bad("bad response", "%s: %s", target, bad)
		return nil
	}
	if p.Status != 200 {
		return nil
	}
	main := lib.One(p.DOM(), "main")
	for _, li := range lib.All(main, "li") {
		as := lib.All(li, "a")
		if len(as) != 1 {
			b.bad("entity without link", "%s: %q", target, lib.NodeText(li))
			return nil
		}
		uri := strings.TrimSpace(lib.NodeText(as[0]))
		p.items = append(p.items, uri)
		want := "/entity/" + url.PathEscape(b.machine)
		link, ok := p.Local(lib.Attr(as[0], "href"))
		u, err := url.Parse(link)
		if !ok || err != nil || u.Path != "/entity/"+b.machine || u.Query().Get("uri") != uri || len(u.Query()) != 1 {
			b.bad("link to other entity", "%s: %q links to %q instead of %q", target, uri, lib.Attr(as[0], "href"), want)
			return nil
		}
	}
	if bad := p.ranges(); bad != "" {
		b.bad("unclear page", "%s: %s", target, bad)
		return nil
	}
	// the section is what it says to be
	switch {
	case p.total != len(b.uris):
		b.bad("wrong total", "%s: total is %d", target, p.total)
		return nil
	case len(p.items) == 0 && len(b.uris) > 0:
		b.bad("empty page", "%s: no entities, but %d to %d of %d", target, p.from, p.to, p.total)
		return nil
	case len(p.items) > 0 && (p.from < 1 || p.to > len(b.uris) || p.to-p.from+1 != len(p.items)):
		b.bad("wrong range", "%s: %d to %d for %d entities", target, p.from, p.to, len(p.items))
		return nil
	case len(p.items) == 0 && (p.from > p.to+1 || p.to != 0):
		b.bad("wrong range", "%s: %d to %d for no entities", target, p.from, p.to)
		return nil
	}
	for i, x := range p.items {
		if b.uris[p.from-1+i] != x {
			b.bad("wrong entities", "%s: position %d is %q, should be %q", target, p.from+i, x, b.uris[p.from-1+i])
			return nil
		}
	}
	b.r.Count("entities listed", len(p.items))
	// links exist exactly when there is such a page
	before, after := p.from > 1, p.to < p.total
	if (p.first != "") != before || (p.prev != "") != before || (p.next != "") != after || (p.last != "") != after {
		b.bad("wrong links", "%s (%d to %d of %d): first %q, previous %q, next %q, last %q", target, p.from, p.to, p.total, p.first, p.prev, p.next, p.last)
		return nil
	}
	return p
}

// ranges reads range and links, which are there twice
func (p *page) ranges() string {
	var seen []string
	for _, el := range lib.All(lib.One(p.DOM(), "main"), "p") {
		text := lib.NodeText(el)
		if strings.Contains(text, "Showing") {
			nums := number.FindAllString(text, -1)
			if len(nums) < 2 || len(nums) > 3 {
				return fmt.Sprintf("unclear range %q", text)
			}
			seen = append(seen, strings.Join(nums, " "))
			p.from, _ = strconv.Atoi(nums[0])
			p.to, _ = strconv.Atoi(nums[len(nums)-2])
			p.total, _ = strconv.Atoi(nums[len(nums)-1])
			continue
		}
		links := map[string]string{}
		for _, a := range lib.All(el, "a") {
			target, ok := p.Local(lib.Attr(a, "href"))
			if !ok {
				return fmt.Sprintf("link to %q", lib.Attr(a, "href"))
			}
			links[strings.TrimSpace(lib.NodeText(a))] = target
		}
		p.first, p.prev, p.next, p.last = links["First"], links["Prev"], links["Next"], links["Last"]
		seen = append(seen, fmt.Sprint(links))
	}
	if len(seen) != 4 || seen[0] != seen[2] || seen[1] != seen[3] {
		return fmt.Sprintf("navigation: %q", seen)
	}
	return ""
}

// at reads a page and expects it to show the section from skip with limit entities
func (b *bundle) at(what, target string, skip, limit int) *page {
	p := b.read(target)
	if p == nil {
		b.bad("missing page", "%s: %s gives no page", what, target)
		return nil
	}
	to := skip + limit
	if to > len(b.uris) || limit > len(b.uris) {
		to = len(b.uris)
	}
	if len(b.uris) > 0 && (p.from != skip+1 || p.to != to) {
		b.bad("other section", "%s: %s shows %d to %d instead of %d to %d", what, target, p.from, p.to, skip+1, to)
		return nil
	}
	return p
}

// neighbours follows the links of a page that shows limit entities from skip
func (b *bundle) neighbours(p *page, skip, limit int) {
	n := len(b.uris)
	if p.first != "" {
		b.r.Count("links followed", 1)
		b.at("first of "+p.Target, p.first, 0, limit)
	}
	if p.prev != "" {
		b.r.Count("links followed", 1)
		b.at("previous of "+p.Target, p.prev, max(0, skip-limit), limit)
	}
	if p.next != "" {
		b.r.Count("links followed", 1)
		b.at("next of "+p.Target, p.next, skip+limit, limit)
	}
	if p.last != "" {
		b.r.Count("links followed", 1)
		l := b.read(p.last)
		switch {
		case l == nil:
			b.bad("missing page", "last of %s: %s gives no page", p.Target, p.last)
		case l.to != n || l.next != "" || len(l.items) > limit || len(l.items) == 0:
			b.bad("not the last page", "last of %s: %s shows %d to %d", p.Target, p.last, l.from, l.to)
		case skip%limit == 0 && l.from != (n-1)/limit*limit+1:
			b.bad("not the last page", "last of %s: %s shows %d to %d, following the next links leads to %d", p.Target, p.last, l.from, l.to, (n-1)/limit*limit+1)
		}
	}
}

func size(rnd *rand.Rand) int {
	switch rnd.Intn(5) {
	case 0:
		return rnd.Intn(4)
	case 1:
		return 98 + rnd.Intn(5)
	case 2:
		return []int{199, 200, 201, 300, 999, 1000, 1001, 1100, 2000, 2001}[rnd.Intn(10)]
	case 3:
		return rnd.Intn(1500)
	}
	return rnd.Intn(60)
}

func (b *bundle) url(limit, skip any) string {
	return fmt.Sprintf("/bundle/%s?limit=%v&skip=%v", url.PathEscape(b.machine), limit, skip)
}

// walk follows the next links from the first page
func walk(r *hx.R, rnd *rand.Rand) {
	n := size(rnd)
	b := make_(r, rnd, n)
	start, limit := "/bundle/"+url.PathEscape(b.machine), 100
	if rnd.Intn(3) > 0 {
		limit = 1 + rnd.Intn(1000)
		if rnd.Intn(2) == 0 {
			limit = 1 + rnd.Intn(12)
		}
		if rnd.Intn(4) == 0 && n > 0 && n <= 1000 {
			limit = max(1, min(1000, n+rnd.Intn(3)-1))
		}
		for n/limit > 150 {
			limit = limit*2 + 1
		}
		limit = min(limit, 1000)
		start = b.url(limit, 0)
	}
	seen := make([]int, n)
	target, steps, ok := start, 0, true
	var trail []*page
	for target != "" {
		p := b.at("walk", target, steps*limit, limit)
		if p == nil {
			ok = false
			break
		}
		trail = append(trail, p)
		for _, x := range p.items {
			seen[b.index[x]]++
		}
		steps++
		if steps > n+2 {
			b.bad("endless walk", "from %s", start)
			ok = false
			break
		}
		if p.next != "" {
			r.Count("links followed", 1)
		}
		target = p.next
	}
	if ok {
		for i, c := range seen {
			if c != 1 {
				b.bad("wrong walk", "%s: entity %d is visited %d times", start, i, c)
				break
			}
		}
		r.Count("complete walks", 1)
	}
	for i := 0; i < len(trail); i += 1 + rnd.Intn(4) {
		b.neighbours(trail[i], i*limit, limit)
	}
	// and back again
	if ok && len(trail) > 1 {
		p := trail[len(trail)-1]
		back := 0
		for p != nil && p.prev != "" && back <= n {
			p = b.read(p.prev)
			back++
		}
		r.Count("links followed", back)
		if p == nil || back != len(trail)-1 || p.from != 1 {
			b.bad("wrong way back", "%s: %d steps back after %d pages", start, back, len(trail))
		}
	}
	r.Eval(fmt.Sprintf("walk %d %d %s", n, limit, b.machine))
	if n > 0 {
		r.Max("entities in a bundle", n)
	}
}

var malformed = []string{"", "-1", "-5", "+3", "a", "1.5", "0x10", " 3", "3 ", "1e3", "٣", "99999999999999999999", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "0", "00", "007", "1001", "1000000", "2147483648", "null", "%00", "%", "3%0a"}

// sections asks for parts
func sections(r *hx.R, rnd *rand.Rand) {
	n := size(rnd)
	b := make_(r, rnd, n)
	for i := 0; i < 25; i++ {
		limit, skip := 1+rnd.Intn(1000), rnd.Intn(n+3)
		if rnd.Intn(2) == 0 {
			limit = 1 + rnd.Intn(20)
		}
		if rnd.Intn(4) == 0 {
			skip = n - rnd.Intn(3)
		}
		if rnd.Intn(6) == 0 {
			limit = []int{1, 99, 100, 101, 999, 1000}[rnd.Intn(6)]
		}
		skip = max(0, skip)
		b.exact(limit, skip)
	}
	// beyond
	for _, skip := range []string{strconv.Itoa(n), strconv.Itoa(n + 1), strconv.Itoa(n + 1000), "2147483647", "2147483648", "4294967296", "9223372036854775807", "9223372036854775000"} {
		if skip == "0" {
			continue
		}
		limit := 1 + rnd.Intn(1000)
		r.Count("requests beyond the end", 1)
		target := b.url(limit, skip)
		if p := b.site.Get(target); p.Bad() != "" || p.Status != 404 {
			b.bad("page beyond the end", "%s: status %d %s", target, p.Status, p.Bad())
		}
	}
	// malformed: whatever is shown must be in order
	esc := func(s string) string {
		if strings.HasPrefix(s, "%") || strings.Contains(s, "%0") {
			return s
		}
		return url.QueryEscape(s)
	}
	for i := 0; i < 12; i++ {
		limit, skip := malformed[rnd.Intn(len(malformed))], malformed[rnd.Intn(len(malformed))]
		if rnd.Intn(2) == 0 {
			skip = strconv.Itoa(rnd.Intn(n + 1))
		} else if rnd.Intn(2) == 0 {
			limit = strconv.Itoa(1 + rnd.Intn(n+1))
		}
		target := b.url(esc(limit), esc(skip))
		switch rnd.Intn(8) {
		case 0:
			target = "/bundle/" + url.PathEscape(b.machine) + "?skip=" + esc(skip)
		case 1:
			target = "/bundle/" + url.PathEscape(b.machine) + "?limit=" + esc(limit)
		case 2:
			target += "&limit=3&skip=" + esc(skip)
		case 3:
			target = "/bundle/" + url.PathEscape(b.machine) + "?skip=" + esc(skip) + "&limit=" + esc(limit)
		case 4:
			target += "&;&%zz"
		}
		r.Count("malformed requests", 1)
		p := b.read(target)
		if p == nil {
			continue // no page, or reported
		}
		if len(p.items) > 1000 {
			b.bad("too many entities", "%s: %d entities", target, len(p.items))
		}
		for _, link := range []string{p.first, p.prev, p.next, p.last} {
			if link != "" {
				r.Count("links followed", 1)
				if b.read(link) == nil {
					b.bad("missing page", "%s links to %s, which gives no page", target, link)
				}
			}
		}
		if p.next != "" {
			if q := b.read(p.next); q != nil && q.from != p.to+1 {
				b.bad("other section", "%s shows %d to %d, and next %d to %d", target, p.from, p.to, q.from, q.to)
			}
		}
	}
	if p := b.site.Get("/bundle/" + url.PathEscape(b.machine) + "x?limit=5&skip=0"); p.Status != 404 || p.Bad() != "" {
		b.bad("unknown bundle", "status %d %s", p.Status, p.Bad())
	}
}

// exact asks for a section
func (b *bundle) exact(limit, skip int) {
	n := len(b.uris)
	target := b.url(limit, skip)
	if skip >= n && skip > 0 {
		b.r.Count("requests beyond the end", 1)
		if p := b.site.Get(target); p.Bad() != "" || p.Status != 404 {
			b.bad("page beyond the end", "%s: status %d %s", target, p.Status, p.Bad())
		}
		return
	}
	if p := b.at("section", target, skip, limit); p != nil {
		b.neighbours(p, skip, limit)
	}
	b.r.Eval(fmt.Sprintf("section %d %d %d", n, limit, skip))
}

// small asks for every section of small bundles
func small(r *hx.R, rnd *rand.Rand) {
	for n := 0; n <= r.Pick(7, 14); n++ {
		b := make_(r, rnd, n)
		for limit := 1; limit <= n+2; limit++ {
			for skip := 0; skip <= n+1; skip++ {
				b.exact(limit, skip)
			}
		}
	}
}
