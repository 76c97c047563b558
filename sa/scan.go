package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"sync"
	"unicode"

	"golang.org/x/tools/go/ssa"

	"verif/sa/ai"
)

// ---- the token language

// monState is where a text stands in the token language.
type monState struct {
	pend  byte   // a newline would insert a semicolon: 'p' open, 'n' one came first, 't' a token comes first, 0 no
	ph    string // phase
	n     int    // characters of a character literal
	esc   string // in an escape sequence: kind, digits left, what is known of the value
	mal   bool   // malformed
	cr    bool   // contains a carriage return
	com   bool   // a comment was begun while a semicolon is pending
	first bool   // a comment begins here
	key   string
}

func (m *monState) with(f func(*monState)) monState {
	x := *m
	f(&x)
	return x
}

type monEdge struct {
	set  *cset
	next *monState
}

type monPart struct {
	edges []monEdge
	inv   *monState
}

type monitor struct {
	skip   bool // comments are skipped
	ops    map[string]int64
	pre    map[string]bool
	states map[string]*monState
	parts  map[string]*monPart
}

const invRune = rune(0x110001)

func (mo *monitor) state(m monState) *monState {
	if m.pend == 0 {
		m.com = false
	}
	m.key = fmt.Sprintf("<%d %s %d %s %v %v %v %v>", m.pend, m.ph, m.n, m.esc, m.mal, m.cr, m.com, m.first)
	if s := mo.states[m.key]; s != nil {
		return s
	}
	s := &m
	mo.states[m.key] = s
	return s
}

type runeClass struct {
	set *cset
	rep rune
}

var runeClassesOnce sync.Once
var runeClassesV []runeClass

func runeClasses() []runeClass {
	runeClassesOnce.Do(func() {
		for c := rune(0); c < 0x80; c++ {
			runeClassesV = append(runeClassesV, runeClass{setOf(int64(c), int64(c)), c})
		}
		bomS := setOf(0xFEFF, 0xFEFF)
		let := setWhere(unicode.IsLetter).and(wideSet)
		dig := setWhere(unicode.IsDigit).and(wideSet)
		rest := wideSet.and(bomS.not()).and(let.not()).and(dig.not())
		for _, s := range []*cset{bomS, let, dig, rest} {
			runeClassesV = append(runeClassesV, runeClass{s, s.min()})
		}
	})
	return runeClassesV
}

func setOr(a, b *cset) *cset { return a.not().and(b.not()).not() }

func (mo *monitor) partition(m *monState) *monPart {
	if p := mo.parts[m.key]; p != nil {
		return p
	}
	p := &monPart{}
	idx := map[*monState]int{}
	for _, c := range runeClasses() {
		n := mo.state(mo.step(*m, c.rep))
		if i, ok := idx[n]; ok {
			p.edges[i].set = setOr(p.edges[i].set, c.set)
			continue
		}
		idx[n] = len(p.edges)
		p.edges = append(p.edges, monEdge{c.set, n})
	}
	p.inv = mo.state(mo.step(*m, invRune))
	mo.parts[m.key] = p
	return p
}

// uniform says that all hexadecimal digits mean the same after a text.
func (mo *monitor) uniform(m *monState) bool {
	n := 0
	for _, e := range mo.partition(m).edges {
		if !e.set.and(hexSet).empty() {
			n++
		}
	}
	return n == 1
}

func isLet(c rune) bool {
	return 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' || c == '_' || c >= 0x80 && c <= maxRune && unicode.IsLetter(c)
}
func isDig(c rune) bool {
	return '0' <= c && c <= '9' || c >= 0x80 && c <= maxRune && unicode.IsDigit(c)
}
func dec(c rune) bool { return '0' <= c && c <= '9' }
func hexVal(c rune) int {
	switch {
	case dec(c):
		return int(c - '0')
	case 'a' <= c && c <= 'f':
		return int(c-'a') + 10
	case 'A' <= c && c <= 'F':
		return int(c-'A') + 10
	}
	return 99
}

func (mo *monitor) step(m monState, c rune) monState {
	m.key = ""
	over := m
	over.ph, over.esc, over.n = "over", "", 0
	if over.pend != 'n' {
		over.pend = 0
	}
	newline := func(m monState, ph string) monState { // a newline is passed
		switch m.pend {
		case 'p':
			m.pend = 'n'
		case 't':
			return monState{ph: "infeasible"}
		}
		m.ph = ph
		return m
	}
	tok := func(ph string) monState { // a token begins
		if m.pend != 'n' {
			m.pend = 0
		}
		m.ph = ph
		return m
	}
	switch m.ph {
	case "ws":
		if m.first && c != '/' {
			return monState{ph: "infeasible"}
		}
		switch {
		case c == ' ' || c == '\t' || c == '\r':
			return m
		case c == '\n':
			return newline(m, "ws")
		case isLet(c):
			return tok("id")
		case c == '0':
			return tok("n0")
		case dec(c):
			return tok("dec")
		case c == '"':
			return tok("str")
		case c == '\'':
			return tok("chr")
		case c == '`':
			return tok("raw")
		case c == '#':
			return newline(m, "sharp")
		case c == '/':
			m.ph = "op:/"
			return m
		case c < 0x80 && mo.pre[string(c)]:
			return tok("op:" + string(c))
		}
		return tok("ill")
	case "id":
		if isLet(c) || isDig(c) {
			return m
		}
		return over
	case "n0", "oct", "octbad", "dec", "frac", "hex0", "hex", "exp0", "exps", "exp":
		m.ph = numStep(m.ph, c)
		return m
	case "str", "chr":
		return mo.quoted(m, c, over)
	case "raw":
		if c == '`' {
			m.ph = "rawE"
		} else if c == '\r' {
			m.cr = true
		}
		return m
	case "lc", "sharp":
		if c == '\n' {
			if mo.skip || m.pend == 'n' {
				m.ph, m.cr, m.mal = "ws", false, false
				return mo.step(m, c)
			}
			return over
		}
		if c == '\r' {
			m.cr = true
		}
		return m
	case "bc", "bc*":
		switch {
		case m.ph == "bc*" && c == '/':
			m.ph = "bcE"
			if mo.skip || m.pend == 'p' || m.pend == 'n' {
				m.ph, m.cr, m.mal = "ws", false, false
			}
		case c == '*':
			m.ph = "bc*"
		case c == '\n':
			return newline(m, "bc")
		default:
			m.ph = "bc"
		}
		if c == '\r' {
			m.cr = true
		}
		return m
	}
	if strings.HasPrefix(m.ph, "op:") {
		op := m.ph[3:]
		if m.first {
			if c != '/' && c != '*' {
				return monState{ph: "infeasible"}
			}
			m.first = false
		}
		switch {
		case op == "/" && c == '/':
			m.com = true
			return newline(m, "lc")
		case op == "/" && c == '*':
			m.com = true
			m.ph = "bc"
			return m
		case op == "." && dec(c):
			return tok("frac")
		case c < 0x80 && mo.pre[op+string(c)]:
			return tok("op:" + op + string(c))
		}
	}
	return over
}

func numStep(ph string, c rune) string {
	e := c == 'e' || c == 'E'
	switch ph {
	case "n0":
		switch {
		case c == 'x' || c == 'X':
			return "hex0"
		case '0' <= c && c <= '7':
			return "oct"
		case c == '8' || c == '9':
			return "octbad"
		}
	case "oct":
		switch {
		case '0' <= c && c <= '7':
			return "oct"
		case c == '8' || c == '9':
			return "octbad"
		}
	case "octbad", "dec":
		if dec(c) {
			return ph
		}
	case "hex0", "hex":
		if hexVal(c) < 16 {
			return "hex"
		}
		return "over"
	case "frac":
		switch {
		case dec(c):
			return "frac"
		case e:
			return "exp0"
		case c == 'i':
			return "imag"
		}
		return "over"
	case "exp0", "exps":
		switch {
		case dec(c):
			return "exp"
		case ph == "exp0" && (c == '+' || c == '-'):
			return "exps"
		case c == 'i':
			return "imagbad"
		}
		return "over"
	case "exp":
		switch {
		case dec(c):
			return "exp"
		case c == 'i':
			return "imag"
		}
		return "over"
	}
	switch {
	case c == '.':
		return "frac"
	case e:
		return "exp0"
	case c == 'i':
		return "imag"
	}
	return "over"
}

// quoted is the inside of a string or character literal.
func (mo *monitor) quoted(m monState, c rune, over monState) monState {
	quote := '"'
	if m.ph == "chr" {
		quote = '\''
	}
	more := func() {
		if m.ph == "chr" && !m.mal {
			m.n++
			if m.n == 2 {
				m.n, m.mal = 0, true
			}
		}
	}
	if m.esc != "" {
		kind := m.esc[0]
		if kind == '?' {
			switch {
			case strings.ContainsRune(`abfnrtv\`, c) || c == quote:
				m.esc = ""
				more()
				return m
			case m.mal && ('0' <= c && c <= '7' || c == 'x' || c == 'u' || c == 'U'):
				m.esc = ""
				return m
			case '0' <= c && c <= '7':
				m.esc = "o2:"
				if c >= '4' {
					m.esc = "o2:bad"
				}
				return m
			case c == 'x':
				m.esc = "x2:"
				return m
			case c == 'u':
				m.esc = "u4:"
				return m
			case c == 'U':
				m.esc = "U8:"
				return m
			}
			m.mal, m.esc, m.n = true, "", 0
			return mo.quoted(m, c, over)
		}
		left, v := int(m.esc[1]-'0'), m.esc[3:]
		base := 16
		if kind == 'o' {
			base = 8
		}
		d := hexVal(c)
		if d >= base {
			m.mal, m.esc, m.n = true, "", 0
			return mo.quoted(m, c, over)
		}
		switch kind {
		case 'u':
			v = surr(left, v, d)
		case 'U':
			switch left {
			case 8, 7:
				if d != 0 {
					v = "bad"
				}
			case 6:
				if v == "" && d == 1 {
					v = "one"
				} else if d != 0 {
					v = "bad"
				}
			case 5:
				switch {
				case v == "one" && d == 0, v == "" && d != 0:
					v = "ok"
				case v == "one":
					v = "bad"
				}
			default:
				v = surr(left, v, d)
			}
		}
		left--
		if left == 0 {
			m.esc = ""
			if v == "bad" {
				m.mal, m.n = true, 0
			}
			more()
			return m
		}
		m.esc = fmt.Sprintf("%c%d:%s", kind, left, v)
		return m
	}
	switch {
	case c == quote:
		if m.ph == "chr" && !m.mal && m.n != 1 {
			m.mal = true
		}
		m.n = 0
		m.ph += "E"
		return m
	case c == '\n':
		return over
	case c == '\\':
		m.esc = "?"
		return m
	}
	more()
	return m
}

// surr follows the last four hex digits of a code point below 0x10000.
func surr(left int, v string, d int) string {
	switch {
	case left == 4 && v == "" && d == 13:
		return "D"
	case left == 4 && v == "":
		return "ok"
	case left == 3 && v == "D" && d >= 8:
		return "bad"
	case left == 3 && v == "D":
		return "ok"
	}
	return v
}

// kindOf says which token a text ending in a phase is.
func (mo *monitor) kindOf(m *monState) (kind string, malformed bool) {
	switch m.ph {
	case "id":
		return "IDENT", false
	case "n0", "oct", "dec", "hex":
		return "INT", false
	case "hex0", "octbad":
		return "INT", true
	case "frac", "exp":
		return "FLOAT", false
	case "exp0", "exps":
		return "FLOAT", true
	case "imag":
		return "IMAG", false
	case "imagbad":
		return "IMAG", true
	case "strE":
		return "STRING", m.mal
	case "rawE":
		return "STRING", false
	case "str", "raw":
		return "STRING", true
	case "chrE":
		return "CHAR", m.mal
	case "chr":
		return "CHAR", true
	case "lc", "sharp", "bcE":
		return "COMMENT", false
	case "bc", "bc*":
		return "COMMENT", true
	case "ill":
		return "ILLEGAL", true
	}
	if strings.HasPrefix(m.ph, "op:") {
		if _, ok := mo.ops[m.ph[3:]]; ok {
			return "op", false
		}
		return "ILLEGAL", true
	}
	return "", false
}

// ---- tables

// operatorTable evaluates the token table: every token constant and its
// spelling.
func tokenTable(c *Ctx) (ops map[string]int64, named map[string]int64, ok bool) {
	pk := c.P.Pkg("tpl")
	fn := c.P.Func("tpl", "Token2Lit")
	if pk == nil || fn == nil {
		c.Missing("tpl.Token2Lit")
		return nil, nil, false
	}
	ops, named = map[string]int64{}, map[string]int64{}
	for _, tc := range tokenConsts(c) {
		m := c.Machine()
		outs := m.Run(fn, []*T{ai.ConstT(constant.MakeInt64(tc.val), types.Typ[types.Uint])}, nil, c.P.Base("tpl"))
		if len(outs) != 1 || outs[0].Panic != nil {
			c.Violate(fn.Pos(), "", "token "+tc.name+" has no spelling", nil)
			return nil, nil, false
		}
		s, okS := ai.StrVal(outs[0].Ret)
		if !okS {
			c.Violate(fn.Pos(), "", fmt.Sprintf("cannot be decided: the spelling of %s is not constant", tc.name), nil)
			return nil, nil, false
		}
		c.Absorb("token table", m)
		if len(s) >= 3 && (s[0] == '\'' || s[0] == '"') && s[len(s)-1] == s[0] {
			sp := s[1 : len(s)-1]
			if old, dup := ops[sp]; dup && old != tc.val {
				c.Violate(fn.Pos(), "", fmt.Sprintf("two kinds have the spelling %q", sp), nil)
				return nil, nil, false
			}
			ops[sp] = tc.val
		} else {
			named[tc.name] = tc.val
		}
	}
	return ops, named, true
}

type tokConst struct {
	name string
	val  int64
}

// tokenConsts are the exported token kinds: the constants of the package that
// are of type uint or untyped.
func tokenConsts(c *Ctx) []tokConst {
	var out []tokConst
	pk := c.P.Pkg("tpl")
	user := constVal(c, "tpl", "USER_TOKEN_BEGIN")
	for name, m := range pk.Members {
		nc, ok := m.(*ssa.NamedConst)
		if !ok || !token.IsExported(name) {
			continue
		}
		b, ok := nc.Type().(*types.Basic)
		if !ok || b.Info()&types.IsInteger == 0 {
			continue
		}
		v, ok := constant.Int64Val(constant.ToInt(nc.Value.Value))
		if !ok || v >= user {
			continue
		}
		out = append(out, tokConst{name, v})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

// ---- the exploration

type scanProb struct {
	prop, msg string
	pos       token.Pos
	wit       string
}

type scanRes struct {
	probs   []scanProb
	und     []string
	states  int
	edges   int
	outs    int
	fns     map[string]bool
	perKind map[string]int
	loopN   int
}

func newFsm(c *Ctx, skip bool, ops map[string]int64) *fsm {
	h := &fsm{c: c, field: map[string]int{}, unds: map[string]bool{}, fns: map[*ssa.Function]bool{}, live: map[*ssa.Function]*fsLive{}, probs: map[string]token.Pos{}, preds: map[string]*cset{}, caps: map[*ssa.BinOp]int64{}}
	sT := c.P.Type("tpl", "Scanner")
	h.sT, _ = sT.Underlying().(*types.Struct)
	for i := 0; i < h.sT.NumFields(); i++ {
		h.field[h.sT.Field(i).Name()] = i
	}
	h.scanner = &fcell{"scanner"}
	h.followed = map[int]bool{}
	for _, f := range []string{"ch", "offset", "rdOffset", "insertSemi", "mode", "src", "err", "file"} {
		h.followed[h.field[f]] = true
	}
	if ops != nil {
		h.mon = &monitor{skip: skip, ops: ops, pre: map[string]bool{"..": true}, states: map[string]*monState{}, parts: map[string]*monPart{}}
		for s := range ops {
			for i := 1; i <= len(s); i++ {
				h.mon.pre[s[:i]] = true
			}
		}
	}
	return h
}

// initial makes the states in which Scan can be called.
func (h *fsm) initial(mode int64, pend bool, eof bool) (*fstate, bool) {
	for _, f := range []string{"ch", "offset", "rdOffset", "insertSemi", "mode", "src", "err", "file"} {
		if _, ok := h.field[f]; !ok {
			h.unds["field "+f+" of Scanner is missing"] = true
			return nil, false
		}
	}
	st := &fstate{cells: map[*fcell]*fval{}, chars: map[*fchar]chInfo{}, marks: map[*fmark]markInfo{}, ghost: map[string]string{}}
	v := &fval{K: vStruct}
	for i := 0; i < h.sT.NumFields(); i++ {
		v.Fs = append(v.Fs, fsTop)
	}
	set := func(f string, x *fval) { v.Fs[h.field[f]] = x }
	set("src", &fval{K: vSrc})
	set("err", &fval{K: vErrFn})
	set("file", &fval{K: vFile})
	set("mode", fsInt(mode))
	set("insertSemi", fsBool(pend))
	h.origin, h.end = &fmark{-2}, &fmark{-1}
	mon := monState{ph: "ws"}
	if pend {
		mon.pend = 'p'
	}
	ms := h.mon.state(mon)
	if eof {
		h.entry = h.end
		st.order = []*fmark{h.origin, h.end}
		st.gaps = []gap{{0, -1}}
		st.marks[h.origin] = markInfo{}
		st.marks[h.end] = markInfo{mon: ms}
		set("ch", fsInt(-1))
		set("offset", &fval{K: vPos, M1: h.end})
		set("rdOffset", &fval{K: vPos, M1: h.end})
		st.cells[h.scanner] = v
		return st, true
	}
	p, q := &fmark{h.id()}, &fmark{h.id()}
	h.entry = p
	c := &fchar{h.id()}
	st.chars[c] = chInfo{set: allRunes}
	st.order = []*fmark{h.origin, p, q, h.end}
	st.gaps = []gap{{0, -1}, {1, 4}, {0, -1}}
	st.marks[h.origin], st.marks[q], st.marks[h.end] = markInfo{}, markInfo{}, markInfo{}
	st.marks[p] = markInfo{ch: c, next: q, mon: ms}
	set("ch", &fval{K: vChar, Ch: c})
	set("offset", &fval{K: vPos, M1: p})
	set("rdOffset", &fval{K: vPos, M1: q})
	st.cells[h.scanner] = v
	return st, true
}

// withWidth splits the first character into the widths it can have.
func (h *fsm) withWidth(st *fstate) []*fstate {
	if h.entry == h.end {
		return []*fstate{st}
	}
	var out []*fstate
	c := st.marks[h.entry].ch
	for i, s := range []*cset{asciiSet, wideSet} {
		t := st.clone()
		t.chars[c] = chInfo{set: s}
		t.gaps[1] = gap{1, 1}
		if i == 1 {
			t.gaps[1] = gap{2, 4}
			u := t.clone()
			u.chars[c] = chInfo{set: setOf(0xFFFD, 0xFFFD), inv: true}
			u.gaps[1] = gap{1, 1}
			out = append(out, u)
		}
		out = append(out, t)
	}
	return out
}

var scanOnce sync.Once
var scanResV *scanRes

func scanAll(c *Ctx) *scanRes {
	scanOnce.Do(func() { scanResV = scanExplore(c) })
	return scanResV
}

func scanExplore(c *Ctx) *scanRes {
	res := &scanRes{fns: map[string]bool{}, perKind: map[string]int{}}
	scan := c.Method("tpl", "Scanner", "Scan")
	ops, _, ok := tokenTable(c)
	if scan == nil || !ok {
		return res
	}
	cm, ci := constVal(c, "tpl", "ScanComments"), constVal(c, "tpl", "InsertSemis")
	kinds := map[int64]string{}
	for _, tc := range tokenConsts(c) {
		kinds[tc.val] = tc.name
	}
	seenOp := map[string]bool{}
	var wg sync.WaitGroup
	var mu sync.Mutex
	for mode := int64(0); mode < 4; mode++ {
		for _, pend := range []bool{false, true} {
			if pend && mode&2 == 0 {
				continue
			}
			for _, eof := range []bool{false, true} {
				wg.Add(1)
				go func(mode int64, pend, eof bool) {
					defer wg.Done()
					md := int64(0)
					if mode&1 != 0 {
						md |= cm
					}
					if mode&2 != 0 {
						md |= ci
					}
					part := &scanRes{fns: map[string]bool{}, perKind: map[string]int{}}
					seen := map[string]bool{}
					func() {
						defer func() {
							if r := recover(); r != nil {
								part.und = append(part.und, fmt.Sprintf("the exploration stopped: %v", r))
							}
						}()
						h := newFsm(c, mode&1 == 0, ops)
						st, ok := h.initial(md, pend, eof)
						if ok {
							j := &scanJudge{h: h, res: part, mode: mode, pend: pend, kinds: kinds, seenOp: seen, scan: scan}
							var init []*fstate
							for _, s := range h.withWidth(st) {
								s.frames = []*fframe{{fn: scan, b: scan.Blocks[0], regs: map[ssa.Value]*fval{scan.Params[0]: {K: vPtr, Cell: h.scanner}}}}
								init = append(init, s)
							}
							h.fns[scan] = true
							h.explore(init, j.done)
						}
						for p, pos := range h.probs {
							part.add("S04", pos, p, "")
						}
						for u := range h.unds {
							part.und = append(part.und, u)
						}
						for f := range h.fns {
							part.fns[f.String()] = true
						}
						part.states += h.nstates
						part.edges += h.nedges
					}()
					mu.Lock()
					defer mu.Unlock()
					for _, p := range part.probs {
						res.add(p.prop, p.pos, p.msg, p.wit)
					}
					for op := range seen {
						seenOp[op] = true
					}
					res.und = append(res.und, part.und...)
					res.states += part.states
					res.edges += part.edges
					res.outs += part.outs
					for f := range part.fns {
						res.fns[f] = true
					}
					for k, n := range part.perKind {
						res.perKind[k] += n
					}
				}(mode, pend, eof)
			}
		}
	}
	if init := c.Method("tpl", "Scanner", "Init"); init != nil {
		wg.Add(1)
		go func() {
			defer wg.Done()
			part := &scanRes{fns: map[string]bool{}, perKind: map[string]int{}}
			func() {
				defer func() {
					if r := recover(); r != nil {
						part.und = append(part.und, fmt.Sprintf("the exploration of Init stopped: %v", r))
					}
				}()
				scanInit(c, part, init, ops, cm|ci)
			}()
			mu.Lock()
			defer mu.Unlock()
			for _, p := range part.probs {
				res.add(p.prop, p.pos, p.msg, p.wit)
			}
			res.und = append(res.und, part.und...)
			res.states += part.states
			res.edges += part.edges
			res.outs += part.outs
			for f := range part.fns {
				res.fns[f] = true
			}
		}()
	}
	wg.Wait()
	sort.Slice(res.probs, func(i, k int) bool { return res.probs[i].msg < res.probs[k].msg })
	for op := range ops {
		if !seenOp[op] {
			res.add("S01", scan.Pos(), fmt.Sprintf("the operator %q of the token table is never scanned", op), op)
		}
	}
	sort.Strings(res.und)
	return res
}

// scanInit explores Init: it leaves the scanner at the first character, after
// a byte order mark.
func scanInit(c *Ctx, res *scanRes, fn *ssa.Function, ops map[string]int64, mode int64) {
	h := newFsm(c, true, ops)
	for _, empty := range []bool{false, true} {
		st, ok := h.initial(mode, false, empty)
		if !ok {
			break
		}
		v := &fval{K: vStruct}
		for i := 0; i < h.sT.NumFields(); i++ {
			v.Fs = append(v.Fs, fsTop)
		}
		st.cells[h.scanner] = v
		st.chars = map[*fchar]chInfo{}
		ms := h.mon.state(monState{ph: "ws"})
		h.entry = h.origin
		st.order, st.gaps = []*fmark{h.origin, h.end}, []gap{{1, -1}}
		st.marks = map[*fmark]markInfo{h.origin: {mon: ms}, h.end: {}}
		if empty {
			st.gaps[0] = gap{0, 0}
			st.marks[h.end] = markInfo{mon: ms}
		}
		if len(fn.Params) != 5 {
			res.und = append(res.und, "the parameters of Init have changed")
			return
		}
		regs := map[ssa.Value]*fval{}
		for i, x := range []*fval{{K: vPtr, Cell: h.scanner}, {K: vFile}, {K: vSrc}, {K: vErrFn}, fsInt(mode)} {
			regs[fn.Params[i]] = x
		}
		st.frames = []*fframe{{fn: fn, b: fn.Blocks[0], regs: regs}}
		h.fns[fn] = true
		h.explore([]*fstate{st}, func(st *fstate) {
			res.outs++
			off := h.offset(st)
			add := func(prop, format string, args ...interface{}) {
				res.add(prop, fn.Pos(), "Init: "+fmt.Sprintf(format, args...), st.text())
			}
			if off == nil || st.marks[off].mon == nil {
				res.und = append(res.und, "where Init leaves the scanner is unknown")
				return
			}
			mi := st.marks[off]
			(&scanJudge{h: h, res: res}).invariant(st, off, st.sameMark(off, h.end), add)
			bomPassed := mi.mon.ph == "ill" && strings.HasPrefix(st.text(), `\ufeff`)
			if !st.sameMark(off, h.origin) && !bomPassed {
				add("S02", "the scanner does not start at the first character of the source")
			}
			if bomPassed && mi.ch != nil && st.ghost["e"] != "1" && st.badChar(mi.ch) || !bomPassed && mi.ch != nil && st.ghost["e"] == "" && (st.chars[mi.ch].inv || st.chars[mi.ch].set.has(0)) {
				add("S05", "an illegal first character is not reported")
			}
			if e := st.ghost["e"]; e != "" && (mi.ch == nil || !st.badChar(mi.ch)) {
				add("S07", "an error is reported although the first character is legal")
			}
			if b, ok := h.get(st, "insertSemi").boolc(); !ok || b {
				add("S03", "a semicolon is pending at the start of the source")
			}
			for f, k := range map[string]vk{"src": vSrc, "err": vErrFn, "file": vFile} {
				if h.get(st, f).K != k {
					add("S02", "%s is not what Init was given", f)
				}
			}
			if m, ok := h.get(st, "mode").intc(); !ok || m != mode {
				add("S03", "the mode is not what Init was given")
			}
		})
	}
	for p, pos := range h.probs {
		res.add("S04", pos, p, "")
	}
	for u := range h.unds {
		res.und = append(res.und, "Init: "+u)
	}
	for f := range h.fns {
		res.fns[f.String()] = true
	}
	res.states += h.nstates
	res.edges += h.nedges
	if res.outs == 0 {
		res.und = append(res.und, "Init never returns")
	}
}

func (r *scanRes) add(prop string, pos token.Pos, msg string, wit string) {
	for _, p := range r.probs {
		if p.prop == prop && p.msg == msg {
			return
		}
	}
	r.probs = append(r.probs, scanProb{prop, msg, pos, wit})
}

type scanJudge struct {
	h      *fsm
	res    *scanRes
	mode   int64
	pend   bool
	kinds  map[int64]string
	seenOp map[string]bool
	scan   *ssa.Function
}

func (j *scanJudge) modeStr() string {
	s := "comments skipped"
	if j.mode&1 != 0 {
		s = "comments returned"
	}
	if j.mode&2 != 0 {
		s += ", semicolons inserted"
	}
	return s
}

// done judges one way a call of Scan can end.
func (j *scanJudge) done(st *fstate) {
	if st.ret != nil && st.ret.K == vStruct && len(st.ret.Fs) > 0 {
		// the kind is computed from a character
		if k := st.ret.Fs[0]; k.K == vChar {
			if s := st.chars[k.Ch].set; s.size() <= 256 {
				for i := 0; i < len(s.r); i += 2 {
					for c := s.r[i]; c <= s.r[i+1]; c++ {
						t := st.clone()
						x := t.chars[k.Ch]
						x.set = mkSet([]rune{c, c})
						t.chars[k.Ch] = x
						ret := *st.ret
						ret.Fs = append([]*fval{fsInt(charVal(k, c))}, st.ret.Fs[1:]...)
						t.ret = &ret
						j.done(t)
					}
				}
				return
			}
		}
	}
	h, res := j.h, j.res
	res.outs++
	pos := j.scan.Pos()
	off := h.offset(st)
	wit := st.text()
	if off != nil {
		if c := st.marks[off].ch; c != nil {
			wit += " then " + st.chars[c].rep()
		} else if st.sameMark(off, h.end) {
			wit += " then the end"
		}
	}
	add := func(prop, format string, args ...interface{}) {
		res.add(prop, pos, fmt.Sprintf(format, args...)+" ("+j.modeStr()+")", wit)
	}
	if off == nil || st.ret == nil || st.ret.K != vStruct || len(st.ret.Fs) < 3 {
		res.und = append(res.und, "what Scan returns is not a token")
		return
	}
	mi := st.marks[off]
	m := mi.mon
	kind, kok := st.ret.Fs[0].intc()
	tpos, lit := st.ret.Fs[1], st.ret.Fs[2]
	if m == nil || !kok {
		res.und = append(res.und, fmt.Sprintf("the kind of the token or the text it covers is unknown (phase %v)", m))
		return
	}
	litS, litConst := lit.strc()
	errs := st.reported()
	semi, semiOK := h.get(st, "insertSemi").boolc()
	atEnd := st.sameMark(off, h.end)
	name := j.kinds[kind]
	if name == "" {
		name = fmt.Sprintf("kind %d", kind)
	}
	text := m.ph
	if e := st.ghost["e"]; e == "b" || e == "" && mi.ch != nil && off != h.entry && st.badChar(mi.ch) {
		add("S05", "an illegal character is not reported")
	}
	if tpos.K != vPos || !tpos.N || st.idx(tpos.M1) < 0 || st.idx(tpos.M1) > st.idx(off) || st.idx(h.entry) > st.idx(tpos.M1) {
		add("S02", "the position of %s is not in the text that was scanned for it", name)
	} else if name == "EOF" && !st.sameMark(tpos.M1, h.end) {
		add("S02", "the position of the end of the source is not its end")
	}
	// the scanner is at a character of the source again
	j.invariant(st, off, atEnd, add)
	// ---- an inserted semicolon
	if name == "SEMICOLON" && litConst && litS == "\n" {
		switch {
		case m.pend == 'n' && m.ph == "ws":
		case m.pend == 'p' && m.ph == "ws" && atEnd:
		case m.pend == 'p' && m.ph == "ws" && mi.ch != nil && mi.startsLine(st, h):
		case j.mode&2 == 0:
			add("S03", "a semicolon is inserted although insertion is off")
		case !j.pend:
			add("S03", "a semicolon is inserted although no token that ends a statement precedes")
		case m.ph != "ws":
			add("S03", "a semicolon is inserted in the middle of text (%s)", text)
		default:
			add("S03", "a semicolon is inserted although the line goes on")
		}
		if !semiOK || semi {
			add("S03", "a semicolon stays pending after it was inserted")
		}
		res.perKind["inserted semicolon"]++
		return
	}
	if m.pend == 'n' {
		add("S03", "%s is returned although a newline after the last token asked for a semicolon", name)
		return
	}
	if name == "EOF" {
		ok := m.ph == "ws" || (m.ph == "bcE" || m.ph == "lc" || m.ph == "sharp" || m.ph == "bc" || m.ph == "bc*") && j.mode&1 == 0
		if !atEnd || !ok {
			add("S02", "the end of the source is reported before it is reached (%s)", text)
		}
		if (m.ph == "bc" || m.ph == "bc*") && !errs {
			add("S05", "a comment that is not terminated is not reported")
		}
		if m.pend == 'p' {
			add("S03", "the end of the source is reported without inserting the pending semicolon")
		}
		if j.mode&2 == 0 && (!semiOK || semi) {
			add("S03", "a semicolon becomes pending although insertion is off")
		}
		if semiOK && semi {
			add("S03", "a semicolon becomes pending at the end of the source")
		}
		res.perKind["EOF"]++
		return
	}
	from := h.entry
	if st.idx(from) < 0 {
		from = mi.start
	}
	if g, ok := st.dist(from, off); !ok || g.lo < 1 {
		if !(j.pend && semiOK && !semi) {
			add("S04", "%s is returned without consuming a character", name)
		}
	}
	want, mal := h.mon.kindOf(m)
	if want == "" {
		add("S02", "%s is returned for text that does not end where a token ends (%s)", name, text)
		return
	}
	res.perKind[name]++
	// ---- kind
	isOp := strings.HasPrefix(m.ph, "op:")
	if want == "op" {
		op := m.ph[3:]
		if h.mon.ops[op] != kind {
			add("S01", "the text %q is returned as %s", op, name)
		} else {
			j.seenOp[op] = true
		}
	} else if want != name {
		p := "S07"
		if isOp || want == "ILLEGAL" {
			p = "S01"
		}
		if h.mon.isOpKind(kind) {
			p = "S01"
		}
		if mal && name != "ILLEGAL" && !h.mon.isOpKind(kind) {
			p = ""
		}
		if p != "" {
			add(p, "%s is returned as %s", describe(m, want), name)
		}
	}
	// ---- longest match
	if !atEnd && mi.ch != nil {
		info := st.chars[mi.ch]
		part := h.mon.partition(m)
		for _, e := range part.edges {
			x := info.set.and(e.set)
			if info.inv || x.empty() || e.next.ph == "over" || e.next.ph == "infeasible" {
				continue
			}
			if m.ph == "str" || m.ph == "chr" {
				continue // a malformed one may stop anywhere, it is reported
			}
			p := "S02"
			if isOp {
				p = "S01"
			}
			if want != "COMMENT" && want != "op" && want != "ILLEGAL" && want != "IDENT" {
				p = "S07"
			}
			add(p, "%s ends although the text goes on with %s", describe(m, want), x)
			break
		}
	} else if !atEnd {
		res.und = append(res.und, "the character after a token is unknown")
	}
	// ---- malformed and well-formed text
	if mal && !errs {
		bom := m.ph == "ill" && j.isBom(st, mi.start)
		if !bom {
			add("S05", "%s that is malformed is not reported", describe(m, want))
		}
	}
	if !mal && errs && !j.badRead(st, m, mi) {
		add("S07", "an error is reported for well-formed text: %s", describe(m, want))
	}
	// ---- position and text
	if tpos.K != vPos || !tpos.N || mi.start == nil || !st.sameMark(tpos.M1, mi.start) {
		add("S02", "the position of %s is not where its text starts", describe(m, want))
	}
	switch {
	case want == "op":
		if litConst && (litS == "" || litS == m.ph[3:]) {
			break
		}
		if lit.K == vText && mi.start != nil && st.sameMark(lit.M1, mi.start) && st.sameMark(lit.M2, off) {
			break
		}
		add("S02", "the text of the operator %q is %s", m.ph[3:], lit.show())
	case isOp:
		if !litConst || litS != m.ph[3:] {
			add("S02", "the text of the illegal token %q is %s", m.ph[3:], lit.show())
		}
	case m.ph == "ill":
		if !(lit.K == vApp && lit.S == "string" && lit.Fs[0].K == vChar || lit.K == vConst || lit.K == vText) {
			add("S02", "the text of an illegal character is %s", lit.show())
		}
	default:
		t := lit
		strips := strings.HasPrefix(m.ph, "raw") || m.ph == "lc" || strings.HasPrefix(m.ph, "bc")
		if strips && t.K == vApp && len(t.Fs) >= 1 {
			if why := h.dropsCR(t); why != "" {
				add("S02", "the literal of %s is %s", describe(m, want), why)
				break
			}
			t = t.Fs[0]
		} else if strips && m.cr {
			add("S02", "the carriage returns in %s are not dropped from its literal", describe(m, want))
			break
		}
		if t.K != vText || mi.start == nil || !st.sameMark(t.M1, mi.start) || !st.sameMark(t.M2, off) {
			add("S02", "the literal of %s is not the text it covers", describe(m, want))
		}
	}
	// ---- semicolons
	if !semiOK {
		add("S03", "whether a semicolon is pending after %s is unknown", name)
		return
	}
	if j.mode&2 == 0 {
		if semi {
			add("S03", "a semicolon becomes pending although insertion is off")
		}
		return
	}
	ends := map[string]bool{"IDENT": true, "INT": true, "FLOAT": true, "IMAG": true, "CHAR": true, "STRING": true, "INC": true, "DEC": true, "RPAREN": true, "RBRACK": true, "RBRACE": true}
	if name != "ILLEGAL" && semi != ends[name] && !(name == "COMMENT" && j.pend) {
		if semi {
			add("S03", "a newline after %s inserts a semicolon", name)
		} else {
			add("S03", "a newline after %s inserts no semicolon", name)
		}
	}
}

func (mo *monitor) isOpKind(k int64) bool {
	for _, v := range mo.ops {
		if v == k {
			return true
		}
	}
	return false
}

func (mi markInfo) startsLine(st *fstate, h *fsm) bool {
	s := st.chars[mi.ch].set
	return s.and(mkSet([]rune{'\n', '\n', '#', '#'}).not()).empty()
}

func (v *fval) show() string {
	if s, ok := v.strc(); ok {
		return fmt.Sprintf("%q", s)
	}
	if v.K == vText {
		return "other text of the source"
	}
	return "something else"
}

func describe(m *monState, want string) string {
	if strings.HasPrefix(m.ph, "op:") {
		return fmt.Sprintf("%q", m.ph[3:])
	}
	d := map[string]string{"id": "an identifier", "n0": "the number 0", "dec": "a decimal integer", "oct": "an octal integer", "octbad": "an integer with a leading 0 and a digit 8 or 9",
		"hex0": "a hexadecimal prefix without digits", "hex": "a hexadecimal integer", "frac": "a number with a fraction", "exp": "a number with an exponent",
		"exp0": "a number with an exponent without digits", "exps": "a number with a signed exponent without digits", "imag": "an imaginary number", "imagbad": "an imaginary number with an exponent without digits",
		"str": "a string that is not terminated", "strE": "a string", "raw": "a raw string that is not terminated", "rawE": "a raw string",
		"chr": "a character literal that is not terminated", "chrE": "a character literal", "lc": "a // comment", "sharp": "a # comment", "bc": "a comment that is not terminated",
		"bc*": "a comment that is not terminated", "bcE": "a /* comment", "ill": "an illegal character"}[m.ph]
	if d == "" {
		d = m.ph
	}
	return d
}

func (j *scanJudge) isBom(st *fstate, start *fmark) bool {
	if start == nil {
		return false
	}
	c := st.marks[start].ch
	return c != nil && st.chars[c].set == setOf(0xFEFF, 0xFEFF)
}

// badRead says that an illegal character was passed or is next: next reports it.
func (j *scanJudge) badRead(st *fstate, m *monState, mi markInfo) bool {
	if e := st.ghost["e"]; e == "b" || e == "2" {
		return true
	}
	return mi.ch != nil && st.badChar(mi.ch)
}

func (st *fstate) badChar(c *fchar) bool {
	x := st.chars[c]
	return x.inv || x.set.has(0) || x.set.has(0xFEFF)
}

// invariant: the scanner's reading state belongs to its offset.
func (j *scanJudge) invariant(st *fstate, off *fmark, atEnd bool, add func(string, string, ...interface{})) {
	h := j.h
	ch, rd := h.get(st, "ch"), h.get(st, "rdOffset")
	mi := st.marks[off]
	if atEnd {
		if k, ok := ch.intc(); !ok || k != -1 || rd.K != vPos || !st.sameMark(rd.M1, off) {
			add("S02", "the scanner is not at the end of the source when its offset is there")
		}
		return
	}
	ok := mi.ch != nil && rd.K == vPos && mi.next != nil && st.sameMark(rd.M1, mi.next)
	if ok {
		if ch.K == vChar {
			ok = ch.Ch == mi.ch && ch.Lo == 0
		} else if k, isK := ch.intc(); isK {
			s := st.chars[mi.ch].set
			ok = s.single() && int64(s.min()) == k
		} else {
			ok = false
		}
	}
	if !ok {
		add("S02", "the current character and the reading offset do not belong to the scanner's offset")
	}
}

func scanCheck(id string, rule string) func(*Ctx) {
	return func(c *Ctx) {
		r := scanAll(c)
		c.Rule("%s", rule)
		for _, p := range r.probs {
			if p.prop == id {
				c.Violate(p.pos, "", p.msg+", for example on the text: "+p.wit, nil)
			}
		}
		for _, u := range r.und {
			c.Violate(token.NoPos, "", "cannot be decided: "+u, nil)
		}
		for f := range r.fns {
			c.Fns[f] = true
		}
		c.Oblig += r.outs
		c.Paths += r.outs
		c.Counts["states"] = r.states
		c.Counts["transitions"] = r.edges
		var ks []string
		for k, n := range r.perKind {
			ks = append(ks, fmt.Sprintf("%s: %d final states", k, n))
		}
		sort.Strings(ks)
		for _, k := range ks {
			c.Case("%s", k)
		}
	}
}

func init() {
	common := "Every path of Scan (and of the functions it calls) is followed from every state the scanner can be in between two calls, for all source texts at once: the state space of scanner fields x set of the current character x state of the text in the lexical grammar is explored exhaustively (4 scan modes, pending semicolon or not, with and without error handler). "
	reg := func(id, title, rule string) { register(id, title, scanCheck(id, common+rule)) }
	reg("S01", "operators are scanned by longest match", "At each return with an operator kind, the text passed must be that kind's spelling in the token table and must not go on with a character that makes a longer one; each spelling of the table must be returned by some path.")
	reg("S02", "text and position of tokens", "At each return, Pos is the offset where the text of the token starts, the literal is the text passed since then (without carriage returns for raw strings and /-comments), the token ends where its lexical class ends, and offset, reading offset and current character belong together; Init starts at the first character or behind a byte order mark.")
	reg("S03", "inserted semicolons", "A semicolon with literal newline is returned exactly if insertion is on, the previous token ends a statement and a newline or the end of the source is the next thing after blanks and comments; after each token the pending flag is as its kind demands.")
	reg("S04", "progress", "No cycle of states exists in which the reading position does not advance, and each return other than end-of-file or a pending semicolon is behind at least one character.")
	reg("S05", "malformed text is reported", "At each return with malformed text (unterminated, bad escape, bad number, illegal character or encoding) the error handler was called.")
	reg("S07", "classification, no false errors", "At each return, the kind is the lexical class of the text passed; no error was reported if the text passed is well formed.")
}
