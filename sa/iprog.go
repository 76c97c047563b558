package main

import (
	"runtime"
	"strings"
	"sync"
)

// Property I07: programs of qlang have the form of the language. The grammar
// of qlang is matched by the abstract machine of isim.go against programs
// built from every statement in every place a statement or expression can
// stand, and against all programs that differ from them by a token; what is
// accepted and the tree (statements, parts, captured code) must be that of the
// recursive descent parser below.

func init() {
	register("I07", "the grammar of qlang, evaluated from the source, is matched by an abstract machine against programs made of every construct, and against those with one token less, more or changed; what it accepts and the parts each construct is given are compared with a reference parser of the language", checkPrograms)
}

// ---- the reference

func (p *refp) node(op string, pos int, kids ...int32) int32 {
	return p.s.node(simNode{op, int32(pos), p.s.chain(kids), 0})
}

func (p *refp) need(t string) bool {
	if p.ok && !p.eat(t) {
		p.ok = false
	}
	return p.ok
}

func (p *refp) name() int32 {
	if !p.ok || !p.at("IDENT") {
		return p.bad()
	}
	p.i++
	return p.s.node(simNode{"leaf", int32(p.i - 1), 0, 0})
}

func (p *refp) ends() bool {
	if p.i >= len(p.toks) {
		return true
	}
	switch p.toks[p.i] {
	case ";", "}", "case", "default", ")", "]", ":", ",":
		return true
	}
	return false
}

// statements reads the statements of a program or block.
func (p *refp) statements() int32 {
	l := []int32{p.stmt()}
	for p.ok && p.eat(";") {
		if p.ends() {
			l = append(l, p.s.node(simNode{"nil", -1, 0, 0}))
			continue
		}
		l = append(l, p.stmt())
	}
	if !p.ok {
		return 0
	}
	return p.s.seq(l)
}

// code reads the statements up to the end of a block.
func (p *refp) code() int32 {
	if p.i < len(p.toks) && (p.at("}") || p.at("case") || p.at("default")) {
		return p.s.node(simNode{"code", -1, 0, 0})
	}
	v := p.statements()
	if !p.ok {
		return 0
	}
	return p.s.node(simNode{"code", -1, v, 0})
}

func (p *refp) block() int32 {
	p.need("{")
	if !p.ok {
		return 0
	}
	v := p.code()
	p.need("}")
	return v
}

func (p *refp) exprCode() int32 {
	v := p.level(0)
	if !p.ok {
		return 0
	}
	return p.s.node(simNode{"code", -1, v, 0})
}

func (p *refp) stmt() int32 {
	pos := p.i
	if p.at("IDENT") && p.i+1 < len(p.toks) {
		switch t := p.toks[p.i+1]; t {
		case "=", "+=", "-=", "*=", "/=", "%=":
			p.i += 2
			v := p.level(0)
			return p.node(t, pos, v)
		case "++", "--":
			p.i += 2
			return p.node(t, pos)
		case ",":
			l := []int32{p.name()}
			for p.ok && p.eat(",") {
				l = append(l, p.name())
			}
			if !p.need("=") {
				return 0
			}
			l = append(l, p.level(0))
			return p.node("massign", -1, l...)
		}
	}
	switch {
	case p.eat("return"):
		if p.ends() {
			return p.node("return", -1)
		}
		v := p.level(0)
		return p.node("return", -1, v)
	case p.eat("defer"):
		v := p.exprCode()
		return p.node("defer", -1, v)
	}
	return p.level(0)
}

// params reads the parameters and the body of a function.
func (p *refp) params() []int32 {
	var l []int32
	if !p.need("(") {
		return nil
	}
	if p.at("IDENT") {
		l = append(l, p.name())
		for p.ok && p.eat(",") {
			l = append(l, p.name())
		}
	}
	if p.ok && p.eat("...") && len(l) == 0 {
		p.open = true // accepted, but nothing is said about it
	}
	p.need(")")
	return append(l, p.block())
}

// construct reads what begins with a keyword or a brace. Calls, indices and
// members can follow when the second result is true.
func (p *refp) construct() (int32, bool) {
	switch {
	case p.eat("fn"):
		return p.node("fn", -1, p.params()...), true
	case p.eat("if"):
		l := []int32{p.exprCode()}
		if p.ok {
			l = append(l, p.block())
		}
		for p.ok && p.eat("elif") {
			l = append(l, p.exprCode())
			if p.ok {
				l = append(l, p.block())
			}
		}
		if p.ok && p.eat("else") {
			l = append(l, p.block())
		}
		return p.node("if", -1, l...), false
	case p.eat("switch"):
		var l []int32
		if p.at("{") {
			l = append(l, p.s.node(simNode{"code", -1, 0, 0}))
		} else {
			l = append(l, p.exprCode())
		}
		p.need("{")
		for p.ok && p.eat("case") {
			l = append(l, p.exprCode())
			if p.need(":") {
				l = append(l, p.code())
			}
		}
		if p.ok && p.eat("default") && p.need(":") {
			l = append(l, p.code())
		}
		p.need("}")
		return p.node("switch", -1, l...), false
	case p.eat("for"):
		var l []int32
		if !p.at("{") {
			for p.ok {
				v := p.stmt()
				l = append(l, p.s.node(simNode{"code", -1, v, 0}))
				if !p.ok || !p.at(";") {
					break
				}
				p.i++
				if p.at("{") {
					p.ok = false
				}
			}
		}
		if p.ok {
			l = append(l, p.block())
		}
		return p.node("for", -1, l...), false
	case p.eat("new"):
		paren := p.eat("(")
		l := []int32{p.name()}
		if paren {
			p.need(")")
		}
		if p.ok && p.eat("(") {
			if !p.eat(")") {
				for p.ok {
					l = append(l, p.level(0))
					if !p.ok || !p.eat(",") {
						break
					}
				}
				p.need(")")
			}
		}
		return p.node("new", -1, l...), false
	case p.eat("class"):
		var l []int32
		p.need("{")
		for p.ok && p.eat("fn") {
			n := p.name()
			if p.ok {
				l = append(l, p.node("method", -1, append([]int32{n}, p.params()...)...))
			}
			if p.ok {
				p.eat(";")
			}
		}
		p.need("}")
		return p.node("class", -1, l...), false
	case p.eat("recover"):
		if p.need("(") {
			p.need(")")
		}
		return p.node("recover", -1), false
	case p.eat("main"):
		v := p.block()
		return p.node("main", -1, v), false
	case p.eat("{"):
		var l []int32
		if !p.at("}") && !p.at(",") {
			for p.ok {
				l = append(l, p.level(0))
				if p.need(":") {
					l = append(l, p.level(0))
				}
				if !p.ok || !p.at(",") || p.i+1 < len(p.toks) && p.toks[p.i+1] == "}" {
					break
				}
				p.i++
			}
		}
		if p.ok {
			p.eat(",")
		}
		p.need("}")
		return p.node("map", -1, l...), false
	}
	return p.bad(), false
}

// program reads a whole program.
func (p *refp) program(toks []string) int32 {
	p.toks, p.i, p.ok, p.open = toks, 0, true, false
	v := p.statements()
	if !p.ok || p.i != len(toks) {
		return 0
	}
	return v
}

// ---- the programs

// progTexts lists programs: every construct with every choice of its optional
// parts, with every expression and statement in the places for them.
func progTexts(deep bool) [][]string {
	exprs := []string{"INT", "IDENT", "IDENT ( )", "- INT", "INT + INT", "( IDENT )", "[ INT , IDENT ]", "IDENT . IDENT", "IDENT [ INT ]", "FLOAT", "STRING", "CHAR", "! IDENT", "IDENT && IDENT", "IDENT ( INT , IDENT ... )"}
	stmts := []string{"IDENT = INT", "IDENT , IDENT = IDENT", "IDENT ++", "IDENT --", "IDENT += INT", "IDENT -= INT", "IDENT *= INT", "IDENT /= INT", "IDENT %= INT", "return", "return IDENT", "defer IDENT ( )", "IDENT ( )", "INT", "IDENT , IDENT , IDENT = IDENT"}
	// E an expression, S a statement, B statements of a block (may be empty)
	forms := []string{
		"fn ( ) { B }", "fn ( IDENT ) { B }", "fn ( IDENT , IDENT ... ) { B }", "fn ( IDENT ... ) { }", "fn ( ) { B } ( E )", "fn ( IDENT ) { } ( E ) . IDENT",
		"if E { B }", "if E { B } else { B }", "if E { B } elif E { B }", "if E { B } elif E { B } elif E { B } else { B }",
		"switch { }", "switch E { }", "switch { case E : B }", "switch E { case E : B case E : B }", "switch E { case E : B default : B }", "switch { default : B }", "switch E { case E : default : }", "switch { case E : case E : B case E : B default : B }",
		"for { B }", "for E { B }", "for S ; E ; S { B }", "for IDENT = E ; IDENT < E ; IDENT ++ { B }", "for E ; E { B }",
		"new IDENT", "new IDENT ( )", "new IDENT ( E )", "new IDENT ( E , E )", "new ( IDENT )", "new ( IDENT ) ( E )",
		"class { }", "class { fn IDENT ( ) { B } }", "class { fn IDENT ( IDENT ) { B } ; fn IDENT ( IDENT , IDENT ... ) { B } ; }", "class { fn IDENT ( ) { } fn IDENT ( ) { B } }",
		"recover ( )", "main { B }", "{ }", "{ E : E }", "{ E : E , E : E }", "{ E : E , }", "{ , }",
		"IDENT = E", "IDENT , IDENT = E", "IDENT += E", "IDENT -= E", "IDENT *= E", "IDENT /= E", "IDENT %= E", "return E", "defer E", "E", "E + E", "E * E", "E || E", "E && E", "E < E", "- E", "! E", "+ E", "( E )", "( E ) ( E )", "[ E ]", "[ E , E ] [ E ]", "IDENT ( E )", "IDENT ( E , E ... )", "IDENT ( E , )", "IDENT [ E ]", "IDENT [ E : E ]", "IDENT [ : E ]", "IDENT . class", "IDENT . new", "IDENT . recover ( )", "IDENT . main",
		"S ; S", "S ;", "S ; ; S", "S ; S ; S", "S ; ; ;",
	}
	isExpr := func(f string) bool {
		for _, p := range []string{"IDENT =", "IDENT , ", "IDENT +=", "IDENT -=", "IDENT *=", "IDENT /=", "IDENT %=", "return", "defer", "S ;"} {
			if strings.HasPrefix(f, p) {
				return false
			}
		}
		return true
	}
	ei, si, bi := 0, 0, 0
	blocks := []string{"IDENT ;", "", "IDENT = INT", "IDENT ( ) ; return INT", "IDENT ; IDENT ++ ;"}
	fill := func(f string) string {
		var out []string
		for _, t := range strings.Fields(f) {
			switch t {
			case "E":
				ei++
				t = exprs[ei%len(exprs)]
			case "S":
				si++
				t = stmts[si%len(stmts)]
			case "B":
				bi++
				t = blocks[bi%len(blocks)]
			}
			out = append(out, t)
		}
		return strings.Join(out, " ")
	}
	seen := map[string]bool{}
	var all [][]string
	add := func(s string) {
		s = strings.Join(strings.Fields(s), " ")
		if s != "" && !seen[s] {
			seen[s] = true
			all = append(all, strings.Fields(s))
		}
	}
	for _, e := range append(append([]string{}, exprs...), stmts...) {
		add(e)
	}
	for _, f := range forms {
		for i := 0; i < 5; i++ {
			add(fill(f))
		}
	}
	// every construct in every place of every construct
	for _, f := range forms {
		ts := strings.Fields(f)
		for at, t := range ts {
			if t != "E" && t != "S" && t != "B" {
				continue
			}
			for _, g := range forms {
				if strings.HasPrefix(g, "S ;") && t != "B" || t == "E" && !isExpr(g) {
					continue
				}
				n := 1
				if deep {
					n = 3
				}
				for ; n > 0; n-- {
					u := append([]string{}, ts...)
					u[at] = "#"
					add(strings.Replace(fill(strings.Join(u, " ")), "#", fill(g), 1))
				}
			}
		}
	}
	return all
}

var progTokens = strings.Fields("INT IDENT STRING + - * / % < == && || ! ( ) { } [ ] , ; : . ... = += ++ if elif else switch case default for fn class new recover main return defer")

func checkPrograms(c *Ctx) {
	var l *langT
	for _, x := range languages(c) {
		if strings.HasPrefix(x.rel+"/", relQlang+"/") {
			l = x
		}
	}
	if l == nil {
		c.Missing("the language qlang")
		return
	}
	sl := qlangLang(l)
	sl.start, sl.prog = "doc", true
	sl.leaves = []string{"INT", "FLOAT", "STRING", "CHAR"}
	for m, o := range map[string]simOp{"_ARITY": {kind: 'n'}, "name": {kind: 'l'}, "clear": {kind: 'C'}, "pushn": {kind: 'N'},
		"assign": {kind: 'G', op: "="}, "massign": {kind: 'g', op: "massign"}, "inc": {kind: 'G', op: "++"}, "dec": {kind: 'G', op: "--"},
		"adda": {kind: 'G', op: "+="}, "suba": {kind: 'G', op: "-="}, "mula": {kind: 'G', op: "*="}, "quoa": {kind: 'G', op: "/="}, "moda": {kind: 'G', op: "%="},
		"return": {kind: 'g', op: "return"}, "defer": {kind: 'g', op: "defer"}, "fn": {kind: 'g', op: "fn"}, "if": {kind: 'g', op: "if"}, "switch": {kind: 'g', op: "switch"}, "for": {kind: 'g', op: "for"},
		"new": {kind: 'g', op: "new"}, "mfn": {kind: 'M', op: "method"}, "class": {kind: 'g', op: "class"}, "recover": {kind: 'g', op: "recover"}, "main": {kind: 'g', op: "main"}, "map": {kind: 'g', op: "map"}} {
		sl.ops[m] = o
	}
	for _, r := range []string{"doc", "s", "expr"} {
		if l.g.rules[r] == nil {
			c.Missing("the rule " + r + " of qlang")
			return
		}
	}
	progs := progTexts(c.Tier == "thorough")
	edit := 14
	if c.Tier == "thorough" {
		edit = 40
	}
	workers := runtime.NumCPU()
	if workers > 8 {
		workers = 8
	}
	var mu sync.Mutex
	var bad []mismatch
	total, accepted := 0, 0
	var wg sync.WaitGroup
	jobs := make(chan []string, 64)
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for toks := range jobs {
				n, acc, b := editions(sl, toks, len(toks) <= edit, c.Tier == "thorough")
				mu.Lock()
				total += n
				accepted += acc
				bad = append(bad, b...)
				mu.Unlock()
			}
		}()
	}
	for _, t := range progs {
		jobs <- t
	}
	for _, a := range progTokens { // every short sequence
		for _, b := range progTokens {
			jobs <- []string{"", a, b}
		}
	}
	close(jobs)
	wg.Wait()
	m := c.Machine()
	pos := c.P.Pkg(l.rel).Members["Grammar"].Pos()
	for i, b := range bad {
		if i == 8 {
			break
		}
		want := b.want
		if want == "" {
			want = "no program"
		}
		m.Check(l.base, false, pos, "%s: %s is %s instead of %s", l.rel, strings.Join(b.toks, " "), b.got, want)
	}
	m.Check(l.base, accepted > 0 && total > accepted || len(bad) > 0, pos, "%s: no programs", l.rel)
	m.Oblig = total
	c.Absorb("the form of programs", m)
	c.Case("%s: %d programs and their variants of one token, %d token sequences, %d of them programs", l.rel, len(progs), total, accepted)
	c.Rule("the grammar accepts a token sequence exactly when the reference does, and gives each statement and construct the same parts")
}

// editions compares a program and the variants that differ by a token.
func editions(sl *simLang, toks []string, edit, deep bool) (n, acc int, bad []mismatch) {
	s := &sim{sl: sl, nodes: map[simNode]int32{}}
	p := &refp{s: s, sl: sl}
	try := func(toks []string) {
		n++
		want := p.program(toks)
		got := s.run(toks)
		if want > 0 {
			acc++
		}
		if got == want || p.open || s.open && want == 0 || len(bad) > 2 {
			return
		}
		m := mismatch{toks: append([]string{}, toks...)}
		if want > 0 {
			m.want = s.show(want)
		}
		switch {
		case got > 0:
			m.got = s.show(got)
		case got < 0:
			m.got = s.err
		default:
			m.got = "rejected"
			if s.err != "" {
				m.got += " (" + s.err + ")"
			}
		}
		bad = append(bad, m)
	}
	if toks[0] == "" {
		try(toks[1:2])
		try(toks[1:])
		for _, t := range progTokens {
			try(append(append([]string{}, toks[1:]...), t))
			if deep {
				for _, t2 := range progTokens {
					try(append(append([]string{}, toks[1:]...), t, t2))
				}
			}
		}
		return
	}
	try(toks)
	if !edit {
		return
	}
	var u []string
	for i := 0; i <= len(toks); i++ {
		if i < len(toks) {
			u = append(append(u[:0], toks[:i]...), toks[i+1:]...)
			try(u)
		}
		for _, t := range progTokens {
			u = append(append(append(u[:0], toks[:i]...), t), toks[i:]...)
			try(u)
			if i < len(toks) && toks[i] != t {
				u = append(append(append(u[:0], toks[:i]...), t), toks[i+1:]...)
				try(u)
			}
		}
	}
	return
}
