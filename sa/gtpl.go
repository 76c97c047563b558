package main

import (
	"fmt"
	"strings"
)

// This file reads the rule texts of the shipped grammars. It implements the
// rule language itself (property C13 decides that the compiler does too).

// rnode is a grammar expression.
type rnode struct {
	k    byte // 's' sequence, '|' choice, '*' '+' '?' '~' '@' prefixes, '%' list, '=' list0, 'm' mark, 't' token, 'r' rule, '1' empty
	kids []*rnode
	name string // mark, token or rule
	raw  string // token: its text in the grammar
	cut  int    // sequence: elements from this index on are behind a '!'; -1: none
}

// gspec is a rule text.
type gspec struct {
	rules map[string]*rnode
	order []string
	refs  []gref // references to rules, in text order
}

type gref struct {
	name string
	in   string
}

// multiOp lists the tokens of two characters that begin with an operator of
// the rule language.
var multiOp = map[string]string{"++": "INC", "+=": "ADD_ASSIGN", "*=": "MUL_ASSIGN", "/=": "QUO_ASSIGN", "%=": "REM_ASSIGN", "|=": "OR_ASSIGN", "||": "LOR", "!=": "NE", "==": "EQ"}

type glex struct {
	toks []string
	kind []byte // 'i' ident, 'l' literal, 'n' number, 'o' operator, ';', 'e' end
}

// lexGrammar splits a rule text; line ends insert ';' as the scanner does.
func lexGrammar(src string) (*glex, error) {
	l := &glex{}
	add := func(k byte, s string) { l.toks, l.kind = append(l.toks, s), append(l.kind, k) }
	semi := false
	nl := func() {
		if semi {
			add(';', ";")
			semi = false
		}
	}
	isL := func(c byte) bool { return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }
	isD := func(c byte) bool { return c >= '0' && c <= '9' }
	for i := 0; i < len(src); {
		c := src[i]
		switch {
		case c == '\n':
			nl()
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case strings.HasPrefix(src[i:], "//"):
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case isL(c):
			j := i
			for j < len(src) && (isL(src[j]) || isD(src[j])) {
				j++
			}
			add('i', src[i:j])
			i, semi = j, true
		case isD(c):
			j := i
			for j < len(src) && isD(src[j]) {
				j++
			}
			add('n', src[i:j])
			i, semi = j, true
		case c == '"' || c == '\'':
			j := i + 1
			for j < len(src) && src[j] != c {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(src) {
				return nil, fmt.Errorf("unterminated literal in the grammar")
			}
			add('l', src[i:j+1])
			i, semi = j+1, true
		case i+1 < len(src) && multiOp[src[i:i+2]] != "":
			add('o', src[i:i+2])
			i, semi = i+2, false
		case c == ';':
			add(';', ";")
			i, semi = i+1, false
		case strings.IndexByte("*+?~@%|/!()=", c) >= 0:
			add('o', string(c))
			i, semi = i+1, c == ')'
		default:
			return nil, fmt.Errorf("unexpected character %q in the grammar", c)
		}
	}
	nl()
	add('e', "")
	return l, nil
}

type gparser struct {
	*glex
	i    int
	rule string
	g    *gspec
	cuts bool // keep the cuts beside a single operand
}

func (p *gparser) is(s string) bool { return p.kind[p.i] == 'o' && p.toks[p.i] == s }

// parseGrammar reads a rule text.
func parseGrammar(src string) (g *gspec, err error) { return readGrammar(src, false) }

func readGrammar(src string, cuts bool) (g *gspec, err error) {
	lx, err := lexGrammar(src)
	if err != nil {
		return nil, err
	}
	p := &gparser{glex: lx, g: &gspec{rules: map[string]*rnode{}}, cuts: cuts}
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(string); ok {
				g, err = nil, fmt.Errorf("%s", s)
				return
			}
			panic(r)
		}
	}()
	for p.kind[p.i] != 'e' {
		if p.kind[p.i] != 'i' {
			panic("a rule does not start with a name: " + p.toks[p.i])
		}
		name := p.toks[p.i]
		p.i++
		if !p.is("=") {
			panic("= is missing behind " + name)
		}
		p.i++
		p.rule = name
		n := p.choice()
		if p.kind[p.i] != ';' {
			panic("unexpected " + p.toks[p.i] + " in the rule " + name)
		}
		p.i++
		if p.g.rules[name] != nil {
			panic("the rule " + name + " is defined twice")
		}
		p.g.rules[name] = n
		p.g.order = append(p.g.order, name)
	}
	return p.g, nil
}

func (p *gparser) choice() *rnode {
	n := &rnode{k: '|', kids: []*rnode{p.seq()}}
	for p.is("|") {
		p.i++
		n.kids = append(n.kids, p.seq())
	}
	if len(n.kids) == 1 {
		return n.kids[0]
	}
	return n
}

func (p *gparser) starts() bool {
	switch p.kind[p.i] {
	case 'i', 'l', 'n':
		return true
	case 'o':
		return strings.Contains("*+?~@(", p.toks[p.i])
	}
	return false
}

func (p *gparser) seq() *rnode {
	n := &rnode{k: 's', cut: -1}
	for {
		if p.is("!") {
			p.i++
			if n.cut < 0 {
				n.cut = len(n.kids)
			}
			continue
		}
		if !p.starts() {
			break
		}
		n.kids = append(n.kids, p.term())
	}
	if len(n.kids) == 0 {
		panic("empty alternative in the rule " + p.rule)
	}
	if len(n.kids) == 1 && !(p.cuts && n.cut >= 0) {
		return n.kids[0]
	}
	return n
}

func (p *gparser) term() *rnode {
	n := p.factor()
	for {
		switch {
		case p.is("%"):
			p.i++
			n = &rnode{k: '%', kids: []*rnode{n, p.factor()}}
		case p.is("%="):
			p.i++
			n = &rnode{k: '=', kids: []*rnode{n, p.factor()}}
		case p.is("/"):
			p.i++
			if p.kind[p.i] != 'i' {
				panic("a mark is missing in the rule " + p.rule)
			}
			n = &rnode{k: 'm', kids: []*rnode{n}, name: p.toks[p.i]}
			p.i++
		default:
			return n
		}
	}
}

func (p *gparser) factor() *rnode {
	t := p.toks[p.i]
	switch p.kind[p.i] {
	case 'i':
		p.i++
		if t[0] >= 'A' && t[0] <= 'Z' {
			return &rnode{k: 't', name: t, raw: t}
		}
		if t == "true" {
			return &rnode{k: '1'}
		}
		p.g.refs = append(p.g.refs, gref{t, p.rule})
		return &rnode{k: 'r', name: t}
	case 'l':
		p.i++
		return &rnode{k: 't', name: t[1 : len(t)-1], raw: t}
	case 'n':
		p.i++
		if t != "1" {
			panic("illegal number in the rule " + p.rule)
		}
		return &rnode{k: '1'}
	case 'o':
		switch t {
		case "*", "+", "?", "~", "@":
			p.i++
			return &rnode{k: t[0], kids: []*rnode{p.factor()}}
		case "(":
			p.i++
			n := p.choice()
			if !p.is(")") {
				panic(") is missing in the rule " + p.rule)
			}
			p.i++
			return n
		}
	}
	panic("unexpected " + t + " in the rule " + p.rule)
}

// marks collects the marks of a grammar.
func (n *rnode) marks(f func(mark string, of *rnode)) {
	if n.k == 'm' {
		f(n.name, n.kids[0])
	}
	for _, k := range n.kids {
		k.marks(f)
	}
}

// gev is one event of a derivation, in the order of the actions.
type gev struct {
	mark  string // a mark (empty: a value rule was matched)
	rule  string // the value rule; for a mark: the value rule it captures
	n     int    // length of the marked grammar (-1: none)
	empty bool   // the marked grammar matched no token
	tok   string // the single token a mark covers, if it is one
}

// deriv is one way to match a grammar, with repetition counts bounded.
type deriv struct {
	ev    []gev
	toks  int    // number of tokens outside of value rules, capped
	sub   int    // number of value rules
	n     int    // length of the outermost repetition (-1: none)
	tok   string // first token
	first string // first value rule
	text  string
}

func (a deriv) then(b deriv) deriv {
	d := deriv{n: -1, toks: a.toks + b.toks, sub: a.sub + b.sub, tok: a.tok, first: a.first}
	d.ev = append(append([]gev{}, a.ev...), b.ev...)
	if d.tok == "" {
		d.tok = b.tok
	}
	if d.first == "" {
		d.first = b.first
	}
	d.text = a.text
	if b.text != "" {
		if d.text != "" {
			d.text += " "
		}
		d.text += b.text
	}
	return d
}

// deriver enumerates derivations.
type deriver struct {
	g      *gspec
	atomic map[string]bool // rules replaced by their contract
	max    int             // repetitions of marked repetitions
	over   bool
}

const derivLimit = 20000

func (d *deriver) of(n *rnode, marked bool) []deriv {
	switch n.k {
	case '1':
		return []deriv{{n: -1}}
	case 't':
		return []deriv{{n: -1, toks: 1, tok: n.name, text: n.name}}
	case 'r':
		if d.atomic[n.name] {
			return []deriv{{n: -1, sub: 1, ev: []gev{{rule: n.name}}, first: n.name, text: "<" + n.name + ">"}}
		}
		b := d.g.rules[n.name]
		if b == nil {
			return nil
		}
		return d.of(b, marked)
	case 's':
		out := []deriv{{n: -1}}
		for _, k := range n.kids {
			out = d.cross(out, d.of(k, false))
		}
		for i := range out {
			out[i].n = len(n.kids)
		}
		return out
	case '|':
		var out []deriv
		for _, k := range n.kids {
			out = append(out, d.of(k, false)...)
		}
		for i := range out {
			out[i].n = len(n.kids)
		}
		return out
	case '~', '@':
		return []deriv{{n: -1}}
	case '?':
		out := []deriv{{n: 0}}
		for _, x := range d.of(n.kids[0], false) {
			x.n = 1
			out = append(out, x)
		}
		return out
	case '*', '+', '%', '=':
		lo, hi := 0, 1
		if n.k == '+' || n.k == '%' {
			lo, hi = 1, 2
		}
		if marked {
			hi = d.max
		}
		body := d.of(n.kids[0], false)
		sep := []deriv{{n: -1}}
		if len(n.kids) == 2 {
			sep = d.of(n.kids[1], false)
		}
		var out []deriv
		cur := []deriv{{n: -1}}
		for i := 0; i <= hi; i++ {
			if i >= lo {
				for _, x := range cur {
					x.n = i
					out = append(out, x)
				}
			}
			if i == hi {
				break
			}
			if i > 0 {
				cur = d.cross(cur, sep)
			}
			cur = d.cross(cur, body)
			if len(cur) > 400 { // a sample: every variant of the last element
				k := len(cur) / 400
				var s []deriv
				for j := range cur {
					if j%(k+1) == 0 {
						s = append(s, cur[j])
					}
				}
				cur = s
			}
		}
		return out
	case 'm':
		out := d.of(n.kids[0], true)
		for i, x := range out {
			e := gev{mark: n.name, n: x.n, empty: x.toks+x.sub == 0, rule: x.first, tok: x.tok}
			if x.toks > 0 || x.sub != 1 {
				e.rule = ""
			}
			x.ev = append(append([]gev{}, x.ev...), e)
			out[i] = x
		}
		return out
	}
	return nil
}

func (d *deriver) cross(a, b []deriv) []deriv {
	var out []deriv
	for _, x := range a {
		for _, y := range b {
			if len(out) > derivLimit {
				d.over = true
				return out
			}
			out = append(out, x.then(y))
		}
	}
	return out
}

// above lists the rules that read every text of rule a as a does (b = ... | a
// followed by what may be missing).
func (g *gspec) above(a string) map[string]bool {
	out := map[string]bool{a: true}
	nullable := func(n *rnode) bool { return n.k == '*' || n.k == '?' || n.k == '=' }
	var leads func(n *rnode) bool
	leads = func(n *rnode) bool {
		switch n.k {
		case 'r':
			return out[n.name]
		case 's':
			if !leads(n.kids[0]) {
				return false
			}
			for _, k := range n.kids[1:] {
				if !nullable(k) {
					return false
				}
			}
			return true
		case '|':
			return leads(n.kids[len(n.kids)-1])
		}
		return false
	}
	for more := true; more; {
		more = false
		for r, n := range g.rules {
			if !out[r] && leads(n) {
				out[r], more = true, true
			}
		}
	}
	return out
}
