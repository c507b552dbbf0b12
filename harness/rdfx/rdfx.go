// Package rdfx reads N-Triples and Turtle strictly, independently of what writes them.
package rdfx

import (
	"fmt"
	"strings"
	"unicode/utf8"
)

// Term is an iri ("<...>"), blank node ("_:...") or literal ("\"...\"@lang^^type")
type Term struct {
	Kind     byte // 'i', 'b' or 'l'
	V        string
	Lang, DT string
}

func (t Term) String() string {
	switch t.Kind {
	case 'i':
		return "<" + t.V + ">"
	case 'b':
		return "_:" + t.V
	}
	s := fmt.Sprintf("%q", t.V)
	if t.Lang != "" {
		s += "@" + t.Lang
	}
	if t.DT != "" && t.DT != xsdString {
		s += "^^<" + t.DT + ">"
	}
	return s
}

const (
	xsdString = "http://www.w3.org/2001/XMLSchema#string"
	rdfType   = "http://www.w3.org/1999/02/22-rdf-syntax-ns#type"
)

// Triple is a statement
type Triple struct{ S, P, O Term }

func (t Triple) String() string { return t.S.String() + " " + t.P.String() + " " + t.O.String() }

type parser struct {
	src      string
	pos      int
	turtle   bool
	prefixes map[string]string
	out      []Triple
}

type syntaxError string

func (p *parser) fail(format string, args ...any) {
	from := max(0, p.pos-40)
	to := min(len(p.src), p.pos+40)
	panic(syntaxError(fmt.Sprintf("byte %d: ", p.pos) + fmt.Sprintf(format, args...) + fmt.Sprintf(" near %q", p.src[from:to])))
}

// NTriples reads N-Triples
func NTriples(src string) (ts []Triple, err error) { return parse(src, false) }

// Turtle reads Turtle (without collections, blank node property lists and base)
func Turtle(src string) (ts []Triple, err error) { return parse(src, true) }

func parse(src string, turtle bool) (ts []Triple, err error) {
	p := &parser{src: src, turtle: turtle, prefixes: map[string]string{}}
	defer func() {
		ts = p.out
		if e := recover(); e != nil {
			s, ok := e.(syntaxError)
			if !ok {
				panic(e)
			}
			err = fmt.Errorf("%s", string(s))
		}
	}()
	if !utf8.ValidString(src) {
		p.fail("not utf-8")
	}
	if turtle {
		p.doc()
	} else {
		p.lines()
	}
	return
}

func (p *parser) peek() byte {
	if p.pos < len(p.src) {
		return p.src[p.pos]
	}
	return 0
}

func (p *parser) has(s string) bool { return strings.HasPrefix(p.src[p.pos:], s) }

func (p *parser) eof() bool { return p.pos >= len(p.src) }

// blanks skips spaces and tabs
func (p *parser) blanks() {
	for p.pos < len(p.src) && (p.src[p.pos] == ' ' || p.src[p.pos] == '\t') {
		p.pos++
	}
}

func (p *parser) comment() {
	if p.peek() == '#' {
		for p.pos < len(p.src) && p.src[p.pos] != '\n' && p.src[p.pos] != '\r' {
			p.pos++
		}
	}
}

func (p *parser) eol() bool {
	n := p.pos
	for p.pos < len(p.src) && (p.src[p.pos] == '\n' || p.src[p.pos] == '\r') {
		p.pos++
	}
	return p.pos > n
}

// lines is an N-Triples document
func (p *parser) lines() {
	for !p.eof() {
		p.blanks()
		if p.peek() != '#' && p.peek() != '\n' && p.peek() != '\r' && !p.eof() {
			s := p.subject()
			p.blanks()
			pr := p.iriref()
			p.blanks()
			o := p.object()
			p.blanks()
			p.expect('.')
			p.blanks()
			p.out = append(p.out, Triple{s, pr, o})
		}
		p.comment()
		if !p.eol() && !p.eof() {
			p.fail("end of line expected")
		}
	}
}

func (p *parser) expect(c byte) {
	if p.eof() || p.src[p.pos] != c {
		p.fail("%q expected", c)
	}
	p.pos++
}

// ws skips white space and comments
func (p *parser) ws() {
	for !p.eof() {
		switch p.src[p.pos] {
		case ' ', '\t', '\r', '\n':
			p.pos++
		case '#':
			p.comment()
		default:
			return
		}
	}
}

// doc is a Turtle document
func (p *parser) doc() {
	for {
		p.ws()
		if p.eof() {
			return
		}
		if p.has("@prefix") {
			p.pos += len("@prefix")
			p.directive()
			p.ws()
			p.expect('.')
			continue
		}
		if len(p.src)-p.pos > 6 && strings.EqualFold(p.src[p.pos:p.pos+6], "prefix") && strings.IndexByte(" \t\r\n", p.src[p.pos+6]) >= 0 {
			p.pos += 6
			p.directive()
			continue
		}
		s := p.subject()
		p.ws()
		p.predicates(s)
		p.ws()
		p.expect('.')
	}
}

func (p *parser) directive() {
	p.ws()
	name := p.prefix()
	p.ws()
	p.prefixes[name] = p.iriref().V
}

func (p *parser) predicates(s Term) {
	for {
		pr := p.verb()
		for {
			p.ws()
			p.out = append(p.out, Triple{s, pr, p.object()})
			p.ws()
			if p.peek() != ',' {
				break
			}
			p.pos++
		}
		if p.peek() != ';' {
			return
		}
		for p.peek() == ';' {
			p.pos++
			p.ws()
		}
		if p.peek() == '.' || p.eof() {
			return
		}
	}
}

func (p *parser) verb() Term {
	if p.peek() == 'a' && p.pos+1 < len(p.src) && strings.IndexByte(" \t\r\n<", p.src[p.pos+1]) >= 0 {
		p.pos++
		return Term{Kind: 'i', V: rdfType}
	}
	return p.iri()
}

func (p *parser) subject() Term {
	if p.has("_:") {
		return p.blank()
	}
	return p.iri()
}

func (p *parser) object() Term {
	switch c := p.peek(); {
	case p.has("_:"):
		return p.blank()
	case c == '"' || c == '\'' && p.turtle:
		return p.literal()
	}
	return p.iri()
}

func (p *parser) iri() Term {
	if p.peek() == '<' || !p.turtle {
		return p.iriref()
	}
	name := p.prefix()
	base, ok := p.prefixes[name]
	if !ok {
		p.fail("prefix %q is not declared", name)
	}
	return Term{Kind: 'i', V: base + p.local()}
}

func (p *parser) hex(n int) rune {
	if p.pos+n > len(p.src) {
		p.fail("bad escape")
	}
	var r rune
	for _, c := range []byte(p.src[p.pos : p.pos+n]) {
		d := strings.IndexByte("0123456789abcdef", c|0x20)
		if c >= '0' && c <= '9' {
			d = int(c - '0')
		}
		if d < 0 {
			p.fail("bad escape")
		}
		r = r<<4 | rune(d)
	}
	p.pos += n
	if !utf8.ValidRune(r) {
		p.fail("escape is no character")
	}
	return r
}

func (p *parser) iriref() Term {
	p.expect('<')
	var sb strings.Builder
	for {
		if p.eof() {
			p.fail("iri does not end")
		}
		c := p.src[p.pos]
		switch {
		case c == '>':
			p.pos++
			v := sb.String()
			return Term{Kind: 'i', V: v}
		case c <= 0x20 || strings.IndexByte("<\"{}|^`", c) >= 0:
			p.fail("%q in iri", c)
		case c == '\\':
			p.pos++
			switch p.peek() {
			case 'u':
				p.pos++
				sb.WriteRune(p.hex(4))
			case 'U':
				p.pos++
				sb.WriteRune(p.hex(8))
			default:
				p.fail("bad escape in iri")
			}
		default:
			sb.WriteByte(c)
			p.pos++
		}
	}
}

// Absolute checks for a scheme
func Absolute(iri string) bool {
	for i := 0; i < len(iri); i++ {
		c := iri[i]
		switch {
		case c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z':
		case i > 0 && (c >= '0' && c <= '9' || c == '+' || c == '-' || c == '.'):
		case i > 0 && c == ':':
			return true
		default:
			return false
		}
	}
	return false
}

func base(r rune) bool { // PN_CHARS_BASE
	return r >= 'A' && r <= 'Z' || r >= 'a' && r <= 'z' || r >= 0xC0 && r <= 0xD6 || r >= 0xD8 && r <= 0xF6 || r >= 0xF8 && r <= 0x2FF ||
		r >= 0x370 && r <= 0x37D || r >= 0x37F && r <= 0x1FFF || r >= 0x200C && r <= 0x200D || r >= 0x2070 && r <= 0x218F ||
		r >= 0x2C00 && r <= 0x2FEF || r >= 0x3001 && r <= 0xD7FF || r >= 0xF900 && r <= 0xFDCF || r >= 0xFDF0 && r <= 0xFFFD || r >= 0x10000 && r <= 0xEFFFF
}

func chars(r rune) bool { // PN_CHARS
	return base(r) || r == '_' || r == '-' || r >= '0' && r <= '9' || r == 0xB7 || r >= 0x300 && r <= 0x36F || r >= 0x203F && r <= 0x2040
}

func (p *parser) rune() (rune, int) {
	if p.eof() {
		return -1, 0
	}
	return utf8.DecodeRuneInString(p.src[p.pos:])
}

// prefix is PNAME_NS without the colon
func (p *parser) prefix() string {
	from := p.pos
	r, n := p.rune()
	if base(r) {
		p.pos += n
		for {
			r, n := p.rune()
			if !chars(r) && r != '.' {
				break
			}
			p.pos += n
		}
	}
	name := p.src[from:p.pos]
	if p.peek() != ':' || strings.HasSuffix(name, ".") {
		p.fail("term expected")
	}
	p.pos++
	return name
}

// local is PN_LOCAL or nothing
func (p *parser) local() string {
	var sb strings.Builder
	end, endLen := p.pos, 0 // after the last character that is no dot
	first := true
	for {
		r, n := p.rune()
		switch {
		case r == '%':
			if p.pos+3 > len(p.src) {
				p.fail("bad percent escape")
			}
			at := p.pos
			p.pos++
			p.hex(2)
			sb.WriteString(p.src[at:p.pos])
		case r == '\\':
			p.pos++
			c := p.peek()
			if p.eof() || strings.IndexByte("_~.-!$&'()*+,;=/?#@%", c) < 0 {
				p.fail("bad escape in name")
			}
			p.pos++
			sb.WriteByte(c)
		case r == '.' && !first:
			p.pos++
			sb.WriteByte('.')
			first = false
			continue
		case r == ':' || r >= '0' && r <= '9' || base(r) || r == '_' || !first && chars(r):
			p.pos += n
			sb.WriteRune(r)
		default:
			p.pos = end
			return sb.String()[:endLen]
		}
		first = false
		end, endLen = p.pos, sb.Len()
	}
}

func (p *parser) blank() Term {
	p.pos += 2
	from := p.pos
	r, n := p.rune()
	if !(base(r) || r == '_' || r >= '0' && r <= '9' || r == ':' && !p.turtle) {
		p.fail("bad blank node")
	}
	p.pos += n
	end := p.pos
	for {
		r, n := p.rune()
		if !chars(r) && r != '.' && (r != ':' || p.turtle) {
			break
		}
		p.pos += n
		if r != '.' {
			end = p.pos
		}
	}
	p.pos = end
	return Term{Kind: 'b', V: p.src[from:end]}
}

func (p *parser) literal() Term {
	q := p.src[p.pos : p.pos+1]
	long := p.turtle && p.has(q+q+q)
	if long {
		q = q + q + q
	}
	p.pos += len(q)
	var sb strings.Builder
	for !p.has(q) {
		if p.eof() {
			p.fail("literal does not end")
		}
		c := p.src[p.pos]
		switch {
		case c == '\\':
			p.pos++
			c := p.peek()
			p.pos++
			switch c {
			case 't':
				sb.WriteByte('\t')
			case 'b':
				sb.WriteByte('\b')
			case 'n':
				sb.WriteByte('\n')
			case 'r':
				sb.WriteByte('\r')
			case 'f':
				sb.WriteByte('\f')
			case '"', '\'', '\\':
				sb.WriteByte(c)
			case 'u':
				sb.WriteRune(p.hex(4))
			case 'U':
				sb.WriteRune(p.hex(8))
			default:
				p.fail("bad escape %q", c)
			}
		case (c == '\n' || c == '\r') && !long:
			p.fail("line break in literal")
		default:
			sb.WriteByte(c)
			p.pos++
		}
	}
	p.pos += len(q)
	t := Term{Kind: 'l', V: sb.String()}
	if p.peek() == '@' {
		p.pos++
		from := p.pos
		n := 0
		for {
			c := p.peek()
			if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || n > 0 && c >= '0' && c <= '9' && strings.Contains(p.src[from:p.pos], "-") {
				p.pos++
				n++
				continue
			}
			if c == '-' && n > 0 {
				p.pos++
				if c := p.peek(); !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9') {
					p.fail("bad language tag")
				}
				continue
			}
			break
		}
		if n == 0 {
			p.fail("bad language tag")
		}
		t.Lang = p.src[from:p.pos]
	} else if p.has("^^") {
		p.pos += 2
		t.DT = p.iri().V
	}
	return t
}
