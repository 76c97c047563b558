package main

import (
	"fmt"
	"go/types"
	"runtime"
	"strings"
	"sync"

	"verif/sa/ai"
)

func init() {
	register("I08", "the grammars of the shipped languages, evaluated from the source, are matched by an abstract machine against every token sequence over an alphabet of operators up to a bound; the operations the marks stand for are determined by interpreting their handlers; the resulting trees are compared with those of a reference precedence parser", checkPrecedence)
}

// simOp is what a mark does to the stack of trees.
type simOp struct {
	kind byte   // 'l' leaf, 'n' length, 'u' unary, 'b' binary, 'c' call by name, 'd' captured code, 'a' operation on a tree and code, 'v' call of a value, 'x' index, 's' slice, 'm' member, 0 none
	op   string // operation
	len  bool   // gets the length
}

// expr languages: how a language is compared.
type simLang struct {
	l       *langT
	start   string
	ops     map[string]simOp
	bin     [][]string // binary operators, from the loosest
	lazy    map[string]bool
	prefix  []string
	postfix bool // qlang's calls, indices and members
	idents  bool // a name alone is an expression
	calls   bool // NAME ( args )
	leaves  []string
	prog    bool // programs: statements, blocks and literals of functions and classes
}

// sim matches one token sequence.
type sim struct {
	sl    *simLang
	toks  []string
	stack []int32
	nodes map[simNode]int32
	list  []simNode
	muted int
	dead  bool // a total failure
	err   string
	open  bool    // two indices without colon: accepted, but nothing is said about it
	base  [2]int  // stack heights at the start of the innermost rule for values and the innermost rule
	done  []int32 // statements whose values have been cleared
}

type simNode struct {
	op   string
	pos  int32
	a, b int32
}

func (s *sim) node(n simNode) int32 {
	if id, ok := s.nodes[n]; ok {
		return id
	}
	s.list = append(s.list, n)
	id := int32(len(s.list))
	s.nodes[n] = id
	return id
}

func (s *sim) show(id int32) string {
	if id == 0 {
		return ""
	}
	n := s.list[id-1]
	switch n.op {
	case "leaf":
		return fmt.Sprintf("%d", n.pos+1)
	case "len":
		return fmt.Sprintf("#%d", n.pos)
	case "code":
		return "{" + s.show(n.a) + "}"
	}
	t := "(" + n.op
	if n.pos >= 0 {
		t += fmt.Sprintf("@%d", n.pos+1)
	}
	for _, k := range []int32{n.a, n.b} {
		if k != 0 {
			t += " " + s.show(k)
		}
	}
	return t + ")"
}

var valueRule = func() map[string]bool {
	m := map[string]bool{}
	for _, r := range valueRules {
		m[r] = true
	}
	return m
}()

func (s *sim) fail(e string) { s.dead, s.err = true, e }

// tokIs: an INT is taken where a FLOAT is asked for.
func tokIs(tok, want string) bool {
	return tok == want || want == "FLOAT" && tok == "INT"
}

// match returns the end of the match (-1: none) and the length the grammar reports.
func (s *sim) match(n *rnode, i int) (int, int) {
	switch n.k {
	case 't':
		if i < len(s.toks) && tokIs(s.toks[i], n.name) {
			return i + 1, -1
		}
		return -1, -1
	case '1':
		return i, -1
	case 'r':
		if !s.sl.prog {
			return s.match(s.sl.l.g.rules[n.name], i)
		}
		old := s.base
		s.base[1] = len(s.stack)
		if valueRule[n.name] {
			s.base[0] = len(s.stack)
		}
		j, ln := s.match(s.sl.l.g.rules[n.name], i)
		s.base = old
		return j, ln
	case 's':
		for x, k := range n.kids {
			j, _ := s.match(k, i)
			if s.dead {
				return -1, -1
			}
			if j < 0 {
				if n.cut >= 0 && x >= n.cut {
					s.fail("cut")
				}
				return -1, -1
			}
			i = j
		}
		return i, len(n.kids)
	case '|':
		for _, k := range n.kids {
			j, _ := s.match(k, i)
			if s.dead || j >= 0 {
				return j, len(n.kids)
			}
		}
		return -1, -1
	case '*', '+':
		cnt := 0
		for {
			j, _ := s.match(n.kids[0], i)
			if s.dead {
				return -1, -1
			}
			if j < 0 {
				break
			}
			cnt++
			if j == i {
				break
			}
			i = j
		}
		if n.k == '+' && cnt == 0 {
			return -1, -1
		}
		return i, cnt
	case '?':
		j, _ := s.match(n.kids[0], i)
		if s.dead {
			return -1, -1
		}
		if j < 0 {
			return i, 0
		}
		return j, 1
	case '%', '=':
		j, _ := s.match(n.kids[0], i)
		if s.dead {
			return -1, -1
		}
		if j < 0 {
			if n.k == '=' {
				return i, 0
			}
			return -1, -1
		}
		cnt := 1
		for {
			k, _ := s.match(n.kids[1], j)
			if s.dead {
				return -1, -1
			}
			if k < 0 {
				break
			}
			e, _ := s.match(n.kids[0], k)
			if s.dead {
				return -1, -1
			}
			if e < 0 {
				break
			}
			cnt++
			if e == j {
				break
			}
			j = e
		}
		return j, cnt
	case '~', '@':
		j, _ := s.match(n.kids[0], i)
		if s.dead {
			return -1, -1
		}
		if (j >= 0) == (n.k == '@') {
			return i, -1
		}
		return -1, -1
	case 'm':
		j, ln := s.match(n.kids[0], i)
		if s.dead || j < 0 {
			return -1, -1
		}
		s.act(n.name, n.kids[0], i, j, ln)
		if s.dead {
			return -1, -1
		}
		return j, ln
	}
	s.fail("unknown grammar")
	return -1, -1
}

func (s *sim) pop() int32 {
	if len(s.stack) == 0 {
		s.fail("the stack is empty")
		return 0
	}
	v := s.stack[len(s.stack)-1]
	s.stack = s.stack[:len(s.stack)-1]
	return v
}

func (s *sim) push(v int32) { s.stack = append(s.stack, v) }

func (s *sim) popLen() int {
	v := s.pop()
	if s.dead {
		return 0
	}
	if s.list[v-1].op != "len" {
		s.fail("a value is taken for a number of arguments")
		return 0
	}
	return int(s.list[v-1].pos)
}

// popList pops n trees into a list.
func (s *sim) popList(n int) int32 {
	var l int32
	for ; n > 0 && !s.dead; n-- {
		l = s.node(simNode{"list", -1, s.pop(), l})
	}
	return l
}

func (s *sim) act(mark string, of *rnode, i, j, ln int) {
	switch mark {
	case "_mute":
		s.muted++
		return
	case "_unmute":
		s.muted--
		return
	}
	if s.muted > 0 && (mark[0] != '_' || s.muted > 1) {
		return
	}
	o, ok := s.sl.ops[mark]
	if !ok {
		s.fail("mark " + mark)
		return
	}
	switch o.kind {
	case 'n':
		s.push(s.node(simNode{"len", int32(ln), 0, 0}))
	case 'l':
		if i == j {
			s.fail("a leaf without token")
			return
		}
		s.push(s.node(simNode{"leaf", int32(i), 0, 0}))
	case 'u':
		a := s.pop()
		s.push(s.node(simNode{"u" + o.op, -1, a, 0}))
	case 'b':
		b := s.pop()
		a := s.pop()
		s.push(s.node(simNode{o.op, -1, a, b}))
	case 'c':
		n := s.popLen()
		l := s.popList(n)
		s.push(s.node(simNode{"call", int32(i), l, 0}))
	case 'd':
		// the captured tokens, evaluated when the code is
		sub := &sim{sl: s.sl, toks: s.toks[:j], nodes: s.nodes, list: s.list}
		e, _ := sub.match(of, i)
		s.list, s.open = sub.list, s.open || sub.open
		if s.sl.prog && i == j {
			s.push(s.node(simNode{"code", -1, 0, 0}))
			return
		}
		if sub.dead || e != j || len(sub.stack) != 1 {
			s.fail("code")
			return
		}
		s.push(s.node(simNode{"code", -1, s.seq(append(sub.done, sub.stack...)), 0}))
	case 'a':
		c := s.pop()
		a := s.pop()
		if s.dead || s.list[c-1].op != "code" {
			s.fail("no code")
			return
		}
		s.push(s.node(simNode{o.op, -1, a, s.list[c-1].a}))
	case 'v':
		sp := s.popLen()
		n := s.popLen()
		l := s.popList(n)
		f := s.pop()
		op := "callv"
		if sp > 0 {
			op = "callv..."
		}
		s.push(s.node(simNode{op, -1, f, l}))
	case 'x':
		hi := s.popLen()
		var h, lo int32
		if hi > 0 {
			h = s.pop()
		}
		colon := s.popLen()
		nlo := s.popLen()
		if nlo > 0 {
			lo = s.pop()
		}
		if hi > 0 && colon == 0 {
			s.open = true
		}
		x := s.pop()
		op := "index"
		if colon > 0 {
			op = "slice"
		}
		s.push(s.node(simNode{op, -1, x, s.node(simNode{"range", -1, lo, h})}))
	case 's':
		n := s.popLen()
		s.push(s.node(simNode{"list of", -1, s.popList(n), 0}))
	case 'm':
		s.push(s.node(simNode{"member", int32(i), s.pop(), 0}))
	case 'C':
		for _, v := range s.stack {
			if s.list[v-1].op != "len" {
				s.done = append(s.done, v)
			}
		}
		s.stack = s.stack[:0]
	case 'N':
		s.push(s.node(simNode{"nil", -1, 0, 0}))
	case 'g', 'G', 'M':
		// what has been left since the rule began belongs to the construct
		h := s.base[0]
		if o.kind == 'M' {
			h = s.base[1]
		}
		if h > len(s.stack) {
			s.fail("the values of an enclosing construct are gone")
			return
		}
		var kids []int32
		for _, v := range s.stack[h:] {
			if s.list[v-1].op != "len" {
				kids = append(kids, v)
			}
		}
		s.stack = s.stack[:h]
		pos := int32(-1)
		if o.kind == 'G' {
			pos = int32(i)
		}
		s.push(s.node(simNode{o.op, pos, s.chain(kids), 0}))
	default:
		s.fail("mark " + mark)
	}
}

// chain makes a list.
func (s *sim) chain(l []int32) int32 {
	var out int32
	for i := len(l) - 1; i >= 0; i-- {
		out = s.node(simNode{"list", -1, l[i], out})
	}
	return out
}

// seq is a list of statements.
func (s *sim) seq(l []int32) int32 {
	if len(l) == 1 {
		return l[0]
	}
	return s.node(simNode{"seq", -1, s.chain(l), 0})
}

// run matches the whole sequence and returns the tree (0: not accepted).
func (s *sim) run(toks []string) int32 {
	s.toks, s.stack, s.muted, s.dead, s.err, s.open = toks, s.stack[:0], 0, false, "", false
	s.base, s.done = [2]int{}, nil
	j, _ := s.match(s.sl.l.g.rules[s.sl.start], 0)
	if s.dead || j != len(toks) {
		return 0
	}
	if len(s.stack) != 1 {
		s.err = fmt.Sprintf("%d values are left", len(s.stack))
		return -1
	}
	return s.seq(append(s.done, s.stack...))
}

// ---- the reference

type refp struct {
	s    *sim
	sl   *simLang
	toks []string
	i    int
	ok   bool
	open bool // nothing is said about the sequence
}

func (p *refp) at(t string) bool { return p.i < len(p.toks) && p.toks[p.i] == t }

func (p *refp) eat(t string) bool {
	if p.at(t) {
		p.i++
		return true
	}
	return false
}

func (p *refp) bad() int32 { p.ok = false; return 0 }

func (p *refp) level(k int) int32 {
	if k == len(p.sl.bin) {
		return p.unary()
	}
	a := p.level(k + 1)
	for p.ok && p.i < len(p.toks) {
		op := ""
		for _, o := range p.sl.bin[k] {
			if p.toks[p.i] == o {
				op = o
			}
		}
		if op == "" {
			break
		}
		p.i++
		b := p.level(k + 1)
		if !p.ok {
			return 0
		}
		a = p.s.node(simNode{op, -1, a, b})
	}
	return a
}

func (p *refp) unary() int32 {
	for _, o := range p.sl.prefix {
		if p.eat(o) {
			a := p.unary()
			if !p.ok || o == "+" {
				return a
			}
			return p.s.node(simNode{"u" + o, -1, a, 0})
		}
	}
	return p.primary()
}

// list reads expressions up to the closing token.
func (p *refp) list(end string, spread, trailing bool) (int32, bool, int) {
	var es []int32
	dots := false
	if !p.at(end) && !(p.sl.postfix && (p.at("...") || p.at(","))) {
		for {
			e := p.level(0)
			if !p.ok {
				return 0, false, 0
			}
			es = append(es, e)
			if !p.at(",") {
				break
			}
			if trailing && p.i+1 < len(p.toks) && p.toks[p.i+1] == end {
				break
			}
			p.i++
		}
	}
	if spread && p.eat("...") {
		dots = true
	}
	if trailing {
		p.eat(",")
	}
	if !p.eat(end) {
		p.ok = false
		return 0, false, 0
	}
	var l int32
	for i := len(es) - 1; i >= 0; i-- {
		l = p.s.node(simNode{"list", -1, es[i], l})
	}
	return l, dots, len(es)
}

func (p *refp) primary() int32 {
	if p.i >= len(p.toks) {
		return p.bad()
	}
	pos := int32(p.i)
	t := p.toks[p.i]
	for _, l := range p.sl.leaves {
		if t == l {
			p.i++
			return p.s.node(simNode{"leaf", pos, 0, 0})
		}
	}
	var v int32
	switch {
	case t == "(":
		p.i++
		v = p.level(0)
		if !p.ok || !p.eat(")") {
			return p.bad()
		}
	case t == "[" && p.sl.postfix:
		p.i++
		l, _, _ := p.list("]", false, true)
		if !p.ok {
			return 0
		}
		v = p.s.node(simNode{"list of", -1, l, 0})
	case t == "IDENT":
		p.i++
		if p.sl.calls && p.at("(") {
			p.i++
			l, _, _ := p.list(")", false, false)
			if !p.ok {
				return 0
			}
			return p.s.node(simNode{"call", pos, l, 0})
		}
		if !p.sl.idents && !p.sl.postfix {
			return p.bad()
		}
		v = p.s.node(simNode{"leaf", pos, 0, 0})
	case p.sl.prog:
		var ok bool
		if v, ok = p.construct(); !ok || !p.ok {
			return v
		}
	default:
		return p.bad()
	}
	for p.sl.postfix && p.ok {
		switch {
		case p.eat("("):
			l, dots, n := p.list(")", true, true)
			if !p.ok {
				return 0
			}
			op := "callv"
			if dots {
				op = "callv..."
				if n == 0 { // not judged
					if !p.sl.prog {
						return p.bad()
					}
					p.open = true
				}
			}
			v = p.s.node(simNode{op, -1, v, l})
		case p.at("."):
			p.i++
			if !p.at("IDENT") && !(p.sl.prog && (p.at("class") || p.at("new") || p.at("recover") || p.at("main"))) {
				return p.bad()
			}
			v = p.s.node(simNode{"member", int32(p.i), v, 0})
			p.i++
		case p.eat("["):
			var lo, hi int32
			op := "index"
			if !p.at(":") && !p.at("]") {
				lo = p.level(0)
			}
			if p.ok && p.eat(":") {
				op = "slice"
				if !p.at("]") {
					hi = p.level(0)
				}
			}
			if !p.ok || !p.eat("]") {
				return p.bad()
			}
			v = p.s.node(simNode{op, -1, v, p.s.node(simNode{"range", -1, lo, hi})})
		default:
			return v
		}
	}
	return v
}

func (p *refp) run(toks []string) int32 {
	p.toks, p.i, p.ok = toks, 0, true
	v := p.level(0)
	if !p.ok || p.i != len(toks) {
		return 0
	}
	return v
}

// ---- the check

func checkPrecedence(c *Ctx) {
	c.Rule("a token sequence is an expression exactly when the reference grammar has it, and the operations the marks of the shipped grammar perform on it, in the order of the match, are those of its tree: binary operators left-associative with the precedence of the reference, operands in source order, unary minus, arguments in order; the function bound to an operator computes that operation on its arguments in order")
	ai.ExactConv = true
	defer func() { ai.ExactConv = false }()
	hs := calculators(c)
	if len(hs) < 3 {
		c.Missing(fmt.Sprintf("the calculators (%d found)", len(hs)))
	}
	for _, h := range hs {
		if sl := h.simLang(); sl != nil {
			n := 7
			if c.Tier == "thorough" {
				n = 8
			}
			alpha := append([]string{"(", ")", ",", "IDENT"}, sl.leaves...)
			for _, lv := range sl.bin {
				alpha = append(alpha, lv...)
			}
			if len(alpha) > 9 {
				n--
			}
			compare(c, sl, alpha, n)
			chains(c, sl, 4)
			nested(c, sl)
		}
	}
	qlangPrecedence(c)
}

// simLang derives what the marks of a calculator do.
func (h *calcH) simLang() *simLang {
	c, l := h.c, h.l
	sl := &simLang{l: l, start: "doc", ops: map[string]simOp{}, calls: true, prefix: []string{"-", "+"}, bin: [][]string{{"+", "-"}, {"*", "/"}}}
	if b, ok := h.elem.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
		sl.bin[1] = append(sl.bin[1], "%")
	}
	leaf := map[string]bool{}
	ok := true
	for _, r := range l.g.order {
		l.g.rules[r].marks(func(m string, of *rnode) {
			if engineMarks[m] {
				return
			}
			fn := l.fn("$" + m)
			if fn == nil || fn.Fn == nil {
				return // I06
			}
			sig := fn.Fn.Signature
			switch l.recv(sig) {
			case 's':
				switch {
				case isLenMark(m):
					sl.ops[m] = simOp{kind: 'n'}
				default:
					sl.ops[m] = simOp{kind: 'l'}
					if of.k == 't' {
						leaf[of.name] = true
					}
				}
			case 'i':
				sl.ops[m] = simOp{kind: 'c'}
			default:
				op, pos := h.meaning(fn)
				m1 := c.Machine()
				if !m1.Check(l.base, op != "", pos, "%s: the function bound to %s computes none of the operations of the calculator", l.rel, m) {
					ok = false
				}
				c.Absorb(l.rel+" "+m, m1)
				o := simOp{kind: 'b', op: op}
				if ai.NumIn(sig) == 1 {
					o.kind = 'u'
				}
				sl.ops[m] = o
			}
		})
	}
	for _, t := range []string{"INT", "FLOAT", "IMAG"} {
		if leaf[t] {
			sl.leaves = append(sl.leaves, t)
			if t == "FLOAT" && !leaf["INT"] {
				sl.leaves[len(sl.leaves)-1] = "INT"
			}
		}
	}
	sl.idents = leaf["IDENT"]
	if !ok || len(sl.leaves) == 0 {
		return nil
	}
	return sl
}

type mismatch struct {
	toks      []string
	got, want string
}

// compare matches every sequence over the alphabet.
func compare(c *Ctx, sl *simLang, alpha []string, max int) {
	pos := c.P.Pkg(sl.l.rel).Members["Grammar"].Pos()
	workers := runtime.NumCPU()
	if workers > 8 {
		workers = 8
	}
	var mu sync.Mutex
	var bad []mismatch
	total, accepted := 0, 0
	var wg sync.WaitGroup
	jobs := make(chan []int, 64)
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for pre := range jobs {
				n, acc, b := enumerate(sl, alpha, max, pre)
				mu.Lock()
				total += n
				accepted += acc
				bad = append(bad, b...)
				mu.Unlock()
			}
		}()
	}
	for i := range alpha {
		jobs <- []int{i}
		for j := range alpha {
			jobs <- []int{i, j, -1}
		}
	}
	close(jobs)
	wg.Wait()
	report(c, sl, pos, bad, total, accepted, fmt.Sprintf("%d token sequences of up to %d of %s", total, max, strings.Join(alpha, " ")))
}

// enumerate tries all sequences with a prefix; a prefix of one token stands
// for itself, one of two tokens for all its extensions.
func enumerate(sl *simLang, alpha []string, max int, pre []int) (n, acc int, bad []mismatch) {
	s := &sim{sl: sl, nodes: map[simNode]int32{}}
	p := &refp{s: s, sl: sl}
	toks := make([]string, 0, max)
	try := func() {
		n++
		if len(s.list) > 1<<20 {
			s.nodes, s.list = map[simNode]int32{}, nil
		}
		want := p.run(toks)
		got := s.run(toks)
		if want > 0 {
			acc++
		}
		if got != want && !(s.open && want == 0) && len(bad) < 4 {
			m := mismatch{toks: append([]string{}, toks...)}
			if want > 0 {
				m.want = s.show(want)
			}
			switch {
			case got > 0:
				m.got = s.show(got)
			case got < 0:
				m.got = s.err
			default:
				m.got = "rejected"
				if s.err != "" {
					m.got += " (" + s.err + ")"
				}
			}
			bad = append(bad, m)
		}
	}
	var rec func()
	rec = func() {
		try()
		if len(toks) == max {
			return
		}
		for _, a := range alpha {
			toks = append(toks, a)
			rec()
			toks = toks[:len(toks)-1]
		}
	}
	toks = append(toks, alpha[pre[0]])
	if len(pre) == 1 {
		try()
		return
	}
	if max < 2 {
		return
	}
	toks = append(toks, alpha[pre[1]])
	rec()
	return
}

func report(c *Ctx, sl *simLang, pos interface{ IsValid() bool }, bad []mismatch, total, accepted int, what string) {
	m := c.Machine()
	p := c.P.Pkg(sl.l.rel).Members["Grammar"].Pos()
	for i, b := range bad {
		if i == 6 {
			break
		}
		want := b.want
		if want == "" {
			want = "no expression"
		}
		m.Check(sl.l.base, false, p, "%s: %s is %s instead of %s", sl.l.rel, strings.Join(b.toks, " "), b.got, want)
	}
	m.Check(sl.l.base, accepted > 0 && total > accepted || len(bad) > 0, p, "%s: no expressions", sl.l.rel)
	c.Absorb(sl.l.rel+" "+what, m)
	c.Case("%s: %s (%d expressions)", sl.l.rel, what, accepted)
}

// chains compares all chains of binary operators whose operands may have
// prefix operators.
func chains(c *Ctx, sl *simLang, max int) {
	var ops []string
	for _, lv := range sl.bin {
		ops = append(ops, lv...)
	}
	s := &sim{sl: sl, nodes: map[simNode]int32{}}
	p := &refp{s: s, sl: sl}
	leaf := sl.leaves[0]
	var bad []mismatch
	total, acc := 0, 0
	var toks []string
	prefixes := append([]string{""}, sl.prefix...)
	var rec func(k int)
	rec = func(k int) {
		for _, pr := range prefixes {
			old := len(toks)
			if pr != "" {
				toks = append(toks, pr)
			}
			toks = append(toks, leaf)
			total++
			want := p.run(toks)
			got := s.run(toks)
			if want > 0 {
				acc++
			}
			if got != want && len(bad) < 6 {
				b := mismatch{toks: append([]string{}, toks...), got: "rejected (" + s.err + ")", want: s.show(want)}
				if got > 0 {
					b.got = s.show(got)
				}
				bad = append(bad, b)
			}
			if k < max {
				for _, o := range ops {
					toks = append(toks, o)
					rec(k + 1)
					toks = toks[:len(toks)-1]
				}
			}
			toks = toks[:old]
		}
	}
	rec(0)
	if len(s.list) > 1<<22 {
		s.nodes, s.list = map[simNode]int32{}, nil
	}
	m := c.Machine()
	pos := c.P.Pkg(sl.l.rel).Members["Grammar"].Pos()
	for _, b := range bad {
		m.Check(sl.l.base, false, pos, "%s: %s is %s instead of %s", sl.l.rel, strings.Join(b.toks, " "), b.got, b.want)
	}
	m.Check(sl.l.base, acc == total || len(bad) > 0, pos, "%s: a chain of operators is no expression of the reference", sl.l.rel)
	c.Absorb(sl.l.rel+" chains", m)
	c.Case("%s: %d chains of up to %d operators", sl.l.rel, total, max)
}

// nested compares every operation and call inside every place an expression may stand.
func nested(c *Ctx, sl *simLang) {
	leaf := sl.leaves[0]
	f := strings.Fields
	ctx := []string{"( _ )", "- _", "+ _", "( ( _ ) )"}
	ins := []string{leaf, "( " + leaf + " )", "- " + leaf}
	if sl.calls {
		ctx = append(ctx, "IDENT ( _ )", "IDENT ( "+leaf+" , _ )", "IDENT ( _ , "+leaf+" )", "IDENT ( "+leaf+" , _ , "+leaf+" )", "IDENT ( IDENT ( _ ) )")
		ins = append(ins, "IDENT ( )", "IDENT ( "+leaf+" )", "IDENT ( "+leaf+" , "+leaf+" )")
	}
	if sl.postfix {
		ctx = append(ctx, "! _", "IDENT ( _ )", "IDENT ( _ , )", "IDENT ( _ , IDENT )", "IDENT ( IDENT , _ )", "IDENT ( _ ... )", "IDENT ( IDENT , _ ... )", "IDENT ( _ ... , )",
			"IDENT [ _ ]", "IDENT [ _ : ]", "IDENT [ : _ ]", "IDENT [ _ : IDENT ]", "IDENT [ IDENT : _ ]", "[ _ ]", "[ _ , ]", "[ _ , IDENT ]", "[ IDENT , _ ]", "( _ ) ( IDENT )", "( _ ) . IDENT", "( _ ) [ IDENT ]", "[ _ ] . IDENT", "[ _ ] [ IDENT ]")
		ins = append(ins, "IDENT", "! IDENT", "[ ]", "[ IDENT ]", "[ IDENT , IDENT ]", "IDENT ( )", "IDENT ( IDENT )", "IDENT ( IDENT ) . IDENT", "IDENT . IDENT ( IDENT )", "IDENT [ IDENT ]", "IDENT [ IDENT ] ( IDENT )", "IDENT [ IDENT : IDENT ]", "IDENT [ : ]")
	}
	for _, lv := range sl.bin {
		for _, o := range lv {
			ctx = append(ctx, "_ "+o+" "+leaf, leaf+" "+o+" _")
			ins = append(ins, leaf+" "+o+" "+leaf)
		}
	}
	s := &sim{sl: sl, nodes: map[simNode]int32{}}
	p := &refp{s: s, sl: sl}
	m := c.Machine()
	pos := c.P.Pkg(sl.l.rel).Members["Grammar"].Pos()
	var seqs []string
	for _, a := range ctx {
		for _, b := range ctx {
			outer := strings.Replace(a, "_", b, 1)
			for _, i := range ins {
				seqs = append(seqs, strings.Replace(outer, "_", i, 1))
			}
		}
	}
	n, bad := 0, 0
	for _, q := range seqs {
		toks := f(q)
		want := p.run(toks)
		got := s.run(toks)
		n++
		if want <= 0 {
			m.Check(sl.l.base, false, pos, "%s: %s is no expression of the reference", sl.l.rel, q)
			break
		}
		if got != want && bad < 6 {
			bad++
			g := "rejected (" + s.err + ")"
			if got > 0 {
				g = s.show(got)
			}
			m.Check(sl.l.base, false, pos, "%s: %s is %s instead of %s", sl.l.rel, q, g, s.show(want))
		}
	}
	m.Check(sl.l.base, bad == 0, pos, "%s: nested expressions differ", sl.l.rel)
	c.Absorb(sl.l.rel+" nested expressions", m)
	c.Case("%s: %d expressions in expressions in expressions", sl.l.rel, n)
}

// qlangPrecedence compares the expressions of qlang.
func qlangPrecedence(c *Ctx) {
	var l *langT
	for _, x := range languages(c) {
		if strings.HasPrefix(x.rel+"/", relQlang+"/") {
			l = x
		}
	}
	if l == nil {
		c.Missing("the language qlang")
		return
	}
	sl := qlangLang(l)
	if l.g.rules["expr"] == nil {
		c.Missing("the rule of expressions of qlang")
		return
	}
	n := 6
	if c.Tier == "thorough" {
		n = 7
	}
	compare(c, sl, []string{"INT", "IDENT", "+", "-", "*", "<", "&&", "||", "!", "(", ")"}, n)
	compare(c, sl, []string{"IDENT", "(", ")", ",", ".", "[", "]", ":", "-", "*"}, n)
	chains(c, sl, 3)
	nested(c, sl)
	if c.Tier == "thorough" {
		chains(c, sl, 4)
	}
}

// qlangLang is qlang with what its marks do.
func qlangLang(l *langT) *simLang {
	sl := &simLang{l: l, start: "expr", postfix: true, prefix: []string{"!", "-", "+"}, leaves: []string{"INT"},
		bin: [][]string{{"||"}, {"&&"}, {"<", ">", "==", "<=", ">=", "!="}, {"+", "-"}, {"*", "/", "%"}},
		ops: map[string]simOp{"ARITY": {kind: 'n'}, "_code": {kind: 'd'}, "and": {kind: 'a', op: "&&"}, "or": {kind: 'a', op: "||"}, "ref": {kind: 'l'}, "call": {kind: 'v'}, "index": {kind: 'x'}, "slice": {kind: 's'}, "mref": {kind: 'm'}}}
	for _, t := range []string{"pushi", "pushf", "pushs", "pushc"} {
		sl.ops[t] = simOp{kind: 'l'}
	}
	for _, r := range opRules() {
		if r.key == "" {
			continue
		}
		o := simOp{kind: 'b', op: r.op.String()}
		if r.unary {
			o.kind = 'u'
		}
		sl.ops[r.key[1:]] = o
	}
	return sl
}
