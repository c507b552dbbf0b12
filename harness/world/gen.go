package world

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
)

// Options tune the generator
type Options struct {
	Bundles      int     // maximal number of top-level bundles
	Entities     int     // maximal number of entities per top-level bundle
	Depth        int     // maximal nesting
	Alias        float64 // probability to alias an entity
	EqClass      float64 // probability for an equivalent class
	EqProp       float64 // probability for an equivalent property
	Inv          float64 // probability for an inverse property
	Hostile      float64 // probability for a hostile literal
	BNodes       bool    // use blank nodes for some sub-entities
	IRIData      bool    // allow iris as objects of datatype properties
	Noise        int     // maximal number of unrelated statements
	SafeIRI      bool    // only use plain iris
	BadIRI       bool    // use iris with characters that need an escape
	LongTop      bool    // allow top-level bundles with a longer path
	SharedValues bool    // use the same literal in several places
	BundleIDs    string  // "" = equal to id, "hash" = independent, "same" = all the same, "path" = with path-like characters
	BigField     int     // maximal number of values per field
}

// Default are reasonable defaults
func Default() Options {
	return Options{
		Bundles: 3, Entities: 6, Depth: 3,
		Alias: 0.25, EqClass: 0.2, EqProp: 0.2, Inv: 0.3,
		Hostile: 0.3, Noise: 12, LongTop: true, SharedValues: true, BigField: 3,
	}
}

// HostileLiterals are literals that have broken other programs
var HostileLiterals = []string{
	"", " ", "  leading and trailing  ", "\n", "a\nb\r\nc\td", "\"", "\\", "\\\"", "'", "''; DROP TABLE bundle__b0; --",
	"a,b,c", ",", "a;b", "<script>alert(1)</script>", "<img src=x onerror=alert(1)>", "</script><script>alert(2)</script>",
	"&amp;", "&lt;b&gt;", "a & b < c > d \"e\" 'f'", "%", "%20", "%zz", "+", "a+b", "{{ . }}", "{{ template \"x\" }}", "${x}", "`",
	"javascript:alert(1)", "data:text/html,<script>alert(1)</script>", "http://example.com/?a=b&c=d#e",
	"\u00e9\u00e8", "e\u0301", "\u4f60\u597d", "\U0001F600", "\u202eabc", "\ufeffbom", "\u200b", "\u2028", "\u00a0", "\u0085", "\u007f", "\u0001",
	"0", "-1", "007", "1e9", "NaN", "null", "NULL", "nil", "true", "false", "b0", "_:b0", "<http://x>", "\"quoted\"@en", "\"x\"^^<y>", "# not a comment", ".",
	"line one .\n<http://a> <http://b> <http://c> .",
	strings.Repeat("long ", 900), strings.Repeat("x", 4095), strings.Repeat("\u00e9", 2100), "@en", "@", "^^", "\\u0041", "\\n",
}

// Langs are language tags
var Langs = []string{"en", "de", "en-US", "zh-Hans-CN", "x-private", "de-1996"}

type gen struct {
	r      *rand.Rand
	o      Options
	w      *World
	n      int // counter for nodes
	alias  map[string][]string
	eq     map[string][]string // equivalents of classes and properties
	inv    map[string]string
	litN   int
	seen   map[string]bool
	graphs []string
}

func (g *gen) p(x float64) bool { return g.r.Float64() < x }

func pick[T any](r *rand.Rand, xs []T) T { return xs[r.Intn(len(xs))] }

// IRIs for entities
func (g *gen) newIRI(kind string) string {
	g.n++
	n := g.n
	if g.o.SafeIRI {
		return fmt.Sprintf("http://data.example/%s/%d", kind, n)
	}
	switch g.r.Intn(17) {
	case 0:
		return fmt.Sprintf("http://data.example/%s/%d?q=a&b=c", kind, n)
	case 1:
		return fmt.Sprintf("http://data.example/%s#frag%d", kind, n)
	case 2:
		return fmt.Sprintf("http://data.example/%s/a+b/%d", kind, n)
	case 3:
		return fmt.Sprintf("http://data.example/%s/%%23%d", kind, n)
	case 4:
		return fmt.Sprintf("urn:uuid:%08d-%s", n, kind)
	case 5:
		return fmt.Sprintf("http://data.example/%s/\u00fc/%d", kind, n)
	case 6:
		return fmt.Sprintf("http://data.example/%s/%d/", kind, n)
	case 7:
		return fmt.Sprintf("http://data.example/%s;v=%d", kind, n)
	case 8:
		return fmt.Sprintf("http://data.example/%s/%d'x", kind, n)
	case 9:
		return fmt.Sprintf("http://public.example/wisski/navigate/%d/view", n)
	case 10:
		return fmt.Sprintf("http://data.example/%s/%d=%%3D", kind, n)
	case 11:
		return fmt.Sprintf("http://data.example//%s/../%d", kind, n)
	case 12:
		return fmt.Sprintf("http://data.example/%s/\U0001F600/%d", kind, n)
	case 13, 14: // only possible with escapes
		if !g.o.BadIRI {
			break
		}
		return fmt.Sprintf(pick(g.r, []string{"http://data.example/%s/ <b>\"{x}|^`\\> %d", "http://data.example/%s/%d> <http://x/> \"y\" .\t", "javascript:alert('%s%d')//<script>", "data:text/html,<script>alert('%s%d')</script>"}), kind, n)
	}
	return fmt.Sprintf("http://data.example/%s/%d", kind, n)
}

// any picks any name for a node, class or property
func (g *gen) any(x string) string {
	if as := g.alias[x]; len(as) > 0 {
		i := g.r.Intn(len(as) + 1)
		if i > 0 {
			return as[i-1]
		}
	}
	return x
}

func (g *gen) term(x string) Term {
	if strings.HasPrefix(x, "bn") && !strings.Contains(x, ":") {
		return Term{Kind: BNode, V: x}
	}
	return I(x)
}

func (g *gen) add(s, p string, o Term) {
	q := Quad{S: g.term(s), P: I(p), O: o}
	if len(g.graphs) > 0 && g.p(0.5) {
		q.G = pick(g.r, g.graphs)
	}
	if o.Kind == Lit {
		key := fmt.Sprintf("%q", []string{s, p, o.V, o.Lang})
		if g.seen[key] {
			return
		}
		g.seen[key] = true
	}
	g.w.Quads = append(g.w.Quads, q)
}

// edge adds an object statement between nodes
func (g *gen) edge(s, p, o string) {
	if i, ok := g.inv[p]; ok && g.p(0.5) {
		// only state the inverse
		g.add(g.any(o), g.any(i), g.term(g.any(s)))
		if g.p(0.7) {
			return
		}
	}
	g.add(g.any(s), g.any(p), g.term(g.any(o)))
	if g.p(0.1) { // once more, potentially with another name
		g.add(g.any(s), g.any(p), g.term(g.any(o)))
	}
}

func (g *gen) typ(s, c string) {
	g.add(g.any(s), RDFType, g.term(g.any(c)))
}

func (g *gen) literal() Term {
	var v string
	switch {
	case g.p(g.o.Hostile):
		v = pick(g.r, HostileLiterals)
	case g.o.SharedValues && g.p(0.3):
		v = pick(g.r, []string{"shared", "same value", "x", "42"})
	default:
		g.litN++
		v = fmt.Sprintf("value %d", g.litN)
	}
	t := L(v)
	switch g.r.Intn(4) {
	case 0:
		t.Lang = pick(g.r, Langs)
	case 1:
		if g.p(0.3) {
			t.DT = XSD + "string"
		}
	}
	return t
}

// Generate makes a world from the random source.
// Worlds have no entity that is reached twice within the same bundle.
func Generate(r *rand.Rand, o Options) (*World, *Expected) {
	for i := 0; ; i++ {
		w := generate(r, o)
		ex := w.Expect()
		if !ex.Ambiguous {
			return w, ex
		}
		if i > 200 {
			panic("generator: unable to find a world")
		}
	}
}

var fieldTypes = []string{"string", "text_long", "entity_reference", "link", "image", "list_string"}

func generate(r *rand.Rand, o Options) *World {
	w := &World{}
	g := &gen{r: r, o: o, w: w, alias: map[string][]string{}, inv: map[string]string{}, seen: map[string]bool{}}
	w.SameAsPreds = []string{SameAs, EqClass, EqProp}
	w.InversePreds = []string{Inverse}
	for i := r.Intn(3); i > 0; i-- {
		g.graphs = append(g.graphs, fmt.Sprintf("http://graph.example/%d", i))
	}

	var pre []func() // statements to be added at the end of generation
	nc, np := 0, 0
	newAliases := func(x, kind, pred string, max int) {
		k := 1 + r.Intn(max)
		names := []string{x}
		for i := 0; i < k; i++ {
			a := fmt.Sprintf("http://alias.example/%s/%d/%d", kind, len(g.alias), i)
			if kind == "entity" && !o.SafeIRI {
				a = g.newIRI("alias")
			}
			names = append(names, a)
		}
		g.alias[x] = names[1:]
		// link the names: chain, star or random tree, with random directions
		pre = append(pre, func() {
			perm := r.Perm(len(names))
			for i := 1; i < len(perm); i++ {
				var j int
				switch r.Intn(3) {
				case 0:
					j = i - 1
				case 1:
					j = 0
				default:
					j = r.Intn(i)
				}
				a, b := names[perm[i]], names[perm[j]]
				if r.Intn(2) == 0 {
					a, b = b, a
				}
				g.add(a, pred, g.term(b))
				if r.Intn(5) == 0 {
					g.add(b, pred, g.term(a))
				}
			}
		})
	}
	class := func() string {
		nc++
		c := fmt.Sprintf("http://onto.example/C%d", nc)
		if g.p(o.EqClass) {
			newAliases(c, "class", EqClass, 2)
		}
		return c
	}
	invN := 0
	prop := func() string {
		np++
		p := fmt.Sprintf("http://onto.example/p%d", np)
		if g.p(o.EqProp) {
			newAliases(p, "prop", EqProp, 2)
		}
		if g.p(o.Inv) {
			invN++
			q := fmt.Sprintf("http://onto.example/p%di", np)
			if g.p(o.EqProp) {
				newAliases(q, "prop", EqProp, 1)
			}
			g.inv[p] = q
			pre = append(pre, func() {
				a, b := g.any(p), g.any(q)
				if r.Intn(2) == 0 {
					a, b = b, a
				}
				g.add(a, Inverse, g.term(b))
				if r.Intn(4) == 0 {
					g.add(b, Inverse, g.term(a))
				}
			})
		}
		return p
	}
	dprop := func() string {
		np++
		p := fmt.Sprintf("http://onto.example/d%d", np)
		if g.p(o.EqProp) {
			newAliases(p, "prop", EqProp, 2)
		}
		return p
	}
	var classes, props, dprops []string
	bn := 0
	card := func() int { return pick(r, []int{-1, 1, 5, 0}) }

	var mkBundle func(parent *Bundle, depth int) *Bundle
	mkBundle = func(parent *Bundle, depth int) *Bundle {
		b := &Bundle{ID: fmt.Sprintf("b%d", bn), Parent: parent, Weight: r.Intn(3), Cardinality: card()}
		bn++
		b.Name = "Bundle " + b.ID
		if r.Intn(4) == 0 {
			b.Name = pick(r, []string{"<b>Bold</b> & co", "Ümläut \"quoted\"", "{{.}}"}) + " " + b.ID
		}
		switch o.BundleIDs {
		case "hash":
			b.BundleID = fmt.Sprintf("h%x", r.Int63())
		case "same":
			b.BundleID = "bsame"
		case "path":
			b.BundleID = pick(r, []string{b.ID, "b/" + b.ID, "a b " + b.ID, "./" + b.ID, "\u00fc" + b.ID})
		default:
			b.BundleID = b.ID
		}
		if parent == nil {
			b.Path = []string{class()}
			if o.LongTop && r.Intn(8) == 0 {
				p, c := prop(), class()
				b.Path = append(b.Path, p, c)
			}
		} else {
			b.Path = append([]string{}, parent.Path...)
			for i := 1 + r.Intn(2); i > 0; i-- {
				p, c := prop(), class()
				b.Path = append(b.Path, p, c)
			}
		}
		classes = append(classes, b.Path[len(b.Path)-1])
		nf := r.Intn(4)
		if parent == nil {
			nf++
		}
		for i := 0; i < nf; i++ {
			f := &Field{ID: fmt.Sprintf("f%d", i), FieldID: fmt.Sprintf("ff%d", i), Name: fmt.Sprintf("Field %d", i), Cardinality: card(), Weight: r.Intn(3)}
			if r.Intn(3) == 0 {
				f.ID = fmt.Sprintf("%s_f%d", b.ID, i)
			}
			switch r.Intn(12) {
			case 0:
				f.ID, f.UUID = "", fmt.Sprintf("uuid_%s_%d", b.ID, i)
			case 1:
				f.ID, f.FieldID = "", fmt.Sprintf("fieldid_%s_%d", b.ID, i)
			}
			f.Type = pick(r, fieldTypes)
			f.Path = append([]string{}, b.Path...)
			kind := r.Intn(5)
			if kind >= 2 {
				for j := 1 + r.Intn(2); j > 0; j-- {
					p := prop()
					c := class()
					if r.Intn(6) == 0 && len(props) > 0 {
						p = pick(r, props)
					}
					f.Path = append(f.Path, p, c)
					props = append(props, p)
				}
			}
			switch {
			case kind == 4: // reference
				f.Datatype = pick(r, []string{"", "empty"})
				f.Type = "entity_reference"
			default:
				f.Datatype = dprop()
				if r.Intn(6) == 0 && len(dprops) > 0 {
					f.Datatype = pick(r, dprops)
				}
				dprops = append(dprops, f.Datatype)
			}
			if r.Intn(15) == 0 {
				f.Disabled = true
			}
			b.Fields = append(b.Fields, f)
		}
		if depth > 1 {
			for i := r.Intn(3); i > 0; i-- {
				b.Children = append(b.Children, mkBundle(b, depth-1))
			}
		}
		if parent != nil && len(b.Children) == 0 && r.Intn(15) == 0 {
			b.Disabled = true
			b.Fields = nil
		}
		return b
	}
	for i := 1 + r.Intn(o.Bundles); i > 0; i-- {
		w.Bundles = append(w.Bundles, mkBundle(nil, 1+r.Intn(o.Depth)))
	}

	// instances
	var tops []string
	node := func(kind string, bnode bool) string {
		if o.BNodes && bnode && r.Intn(3) == 0 {
			g.n++
			return fmt.Sprintf("bn%d", g.n)
		}
		x := g.newIRI(kind)
		if g.p(o.Alias) {
			newAliases(x, "entity", SameAs, 3)
		}
		return x
	}
	// walk adds statements from a node along the path
	walk := func(from string, arr []string, incomplete bool) string {
		cur := from
		for i := 0; i+1 < len(arr); i += 2 {
			nxt := node("n", true)
			g.edge(cur, arr[i], nxt)
			if incomplete && r.Intn(2) == 0 {
				return ""
			}
			g.typ(nxt, arr[i+1])
			cur = nxt
		}
		return cur
	}
	var fill func(b *Bundle, ent string)
	fill = func(b *Bundle, ent string) {
		for _, f := range b.Fields {
			k := r.Intn(o.BigField + 1)
			for ; k > 0; k-- {
				rest := f.Path[len(b.Path):]
				if f.DT() == "" && len(rest) == 2 && len(tops) > 0 && r.Intn(2) == 0 {
					// reference an existing entity
					t := pick(r, tops)
					g.edge(ent, rest[0], t)
					g.typ(t, rest[1])
					continue
				}
				last := walk(ent, rest, r.Intn(12) == 0)
				if last == "" || f.DT() == "" {
					continue
				}
				if o.IRIData && r.Intn(5) == 0 {
					g.add(g.any(last), g.any(f.DT()), I(g.newIRI("v")))
					continue
				}
				g.add(g.any(last), g.any(f.DT()), g.literal())
			}
		}
		for _, c := range b.Children {
			for k := r.Intn(3); k > 0; k-- {
				sub := walk(ent, c.Path[len(b.Path):], r.Intn(12) == 0)
				if sub != "" {
					fill(c, sub)
				}
			}
		}
	}
	for _, b := range w.Bundles {
		for i := r.Intn(o.Entities + 1); i > 0; i-- {
			ent := node("e", false)
			tops = append(tops, ent)
			g.typ(ent, b.Path[0])
			if len(b.Path) > 1 {
				if walk(ent, b.Path[1:], false) == "" {
					continue
				}
				// fields and children start at the first node for top-level bundles with a long path,
				// as those paths repeat the entire path they get another branch
				for _, f := range b.Fields {
					last := walk(ent, f.Path[1:], false)
					if last != "" && f.DT() != "" {
						g.add(g.any(last), g.any(f.DT()), g.literal())
					}
				}
				continue
			}
			fill(b, ent)
		}
	}
	// entities in more than one class
	if len(tops) > 0 && len(classes) > 0 && r.Intn(4) == 0 {
		g.typ(pick(r, tops), pick(r, classes))
	}
	// noise
	if o.Noise > 0 {
		for i := r.Intn(o.Noise); i > 0; i-- {
			s := fmt.Sprintf("http://noise.example/s%d", r.Intn(5))
			switch r.Intn(6) {
			case 0:
				if len(tops) > 0 {
					s = pick(r, tops)
				}
				g.add(g.any(s), RDFLabel, g.literal())
			case 1:
				g.add(s, "http://noise.example/p", I("http://noise.example/o"))
			case 2:
				if len(props) > 0 {
					g.add(s, pick(r, props), I(s+"/x"))
				}
			case 3:
				if len(dprops) > 0 {
					g.add(s, pick(r, dprops), g.literal())
				}
			case 4:
				g.add(s, RDFType, I("http://noise.example/Class"))
			case 5:
				g.add(s, SameAs, g.term(fmt.Sprintf("http://noise.example/s%d", r.Intn(5))))
			}
		}
	}
	for _, f := range pre {
		f()
	}
	r.Shuffle(len(w.Quads), func(i, j int) { w.Quads[i], w.Quads[j] = w.Quads[j], w.Quads[i] })
	// the generator allows a lot of names; make sure aliases of names are deterministic
	_ = sort.Strings
	return w
}
